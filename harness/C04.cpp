// C04: Option values are converted exactly or rejected.
#include "model.hpp"

namespace verif_app
{
// A streamable type of the user: two integers separated by a comma.
struct point
{
    int x{}, y{};
    friend bool operator==(point const &, point const &) = default;
};
inline std::istream & operator>>(std::istream & is, point & p)
{
    char comma{};
    is >> p.x >> comma >> p.y;
    if (comma != ',')
        is.setstate(std::ios::failbit);
    return is;
}
inline std::ostream & operator<<(std::ostream & os, point const & p)
{
    return os << p.x << ',' << p.y;
}
} // namespace verif_app

using namespace verif;
using verif_app::point;

// ---- reference conversions: nullopt: must be rejected

static bool digits(std::string_view t)
{
    return !t.empty() && std::all_of(t.begin(), t.end(), [](char c) { return c >= '0' && c <= '9'; });
}

template <typename T>
static std::optional<T> reference_int(std::string t)
{
    bool negative = false;
    if (!t.empty() && t[0] == '-')
    {
        if (std::unsigned_integral<T>)
            return std::nullopt;
        negative = true;
        t.erase(0, 1);
    }
    if (!digits(t))
        return std::nullopt;
    t.erase(0, t.find_first_not_of('0') == std::string::npos ? t.size() : t.find_first_not_of('0'));
    if (t.size() > 21)
        return std::nullopt;
    __int128 v = 0;
    for (char c : t)
        v = v * 10 + (c - '0');
    if (negative)
        v = -v;
    if (v < static_cast<__int128>(std::numeric_limits<T>::min()) || v > static_cast<__int128>(std::numeric_limits<T>::max()))
        return std::nullopt;
    return static_cast<T>(v);
}

// [-](digits[.digits*]|.digits)[(e|E)[+-]digits] or [-]inf
static bool float_grammar(std::string const & s)
{
    size_t i = 0;
    auto run = [&]
    {
        size_t b = i;
        while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i])))
            ++i;
        return i - b;
    };
    if (i < s.size() && s[i] == '-')
        ++i;
    if (s.substr(i) == "inf")
        return true;
    size_t n = run();
    if (i < s.size() && s[i] == '.')
    {
        ++i;
        n += run();
    }
    if (n == 0)
        return false;
    if (i < s.size() && (s[i] == 'e' || s[i] == 'E'))
    {
        ++i;
        if (i < s.size() && (s[i] == '+' || s[i] == '-'))
            ++i;
        if (run() == 0)
            return false;
    }
    return i == s.size();
}

template <typename T>
static std::optional<T> reference_float(std::string const & t)
{
    if (!float_grammar(t))
        return std::nullopt;
    T v;
    errno = 0;
    if constexpr (std::same_as<T, float>)
        v = std::strtof(t.c_str(), nullptr);
    else if constexpr (std::same_as<T, double>)
        v = std::strtod(t.c_str(), nullptr);
    else
        v = std::strtold(t.c_str(), nullptr);
    if (errno == ERANGE)
    {
        if (std::isinf(v))
            return std::nullopt; // too large
        if (v == 0)
            throw pbt::discard{}; // too close to zero: both zero and an error are sensible
    }
    return v;
}

template <typename T>
static std::optional<T> reference(std::string const & t)
{
    if constexpr (std::same_as<T, bool>)
    {
        if (t == "1" || t == "true")
            return true;
        if (t == "0" || t == "false")
            return false;
        return std::nullopt;
    }
    else if constexpr (std::integral<T>)
        return reference_int<T>(t);
    else if constexpr (std::floating_point<T>)
        return reference_float<T>(t);
    else if constexpr (std::same_as<T, point>)
    {
        size_t c = t.find(',');
        if (c == std::string::npos)
            return std::nullopt;
        auto x = reference_int<int>(t.substr(0, c)), y = reference_int<int>(t.substr(c + 1));
        if (!x || !y)
            return std::nullopt;
        return point{*x, *y};
    }
    else if constexpr (std::is_enum_v<T>)
    {
        auto m = enumeration_names(T{});
        auto it = m.find(t);
        return it == m.end() ? std::nullopt : std::optional<T>{it->second};
    }
    else
        return T{t};
}

// ---- generator: texts that are valid, nearly valid or neither

static std::string mutate(source & s, std::string t)
{
    switch (s.below(7))
    {
    case 0:
        return t + s.pick_str({" ", "x", "\n", "\t", ".", "0", "-", "e", ",", "u", "L", "f", "\v"});
    case 1:
        return s.pick_str({" ", "+", "-", "\t", "0", "0x", "\n", "x", "--", "."}) + t;
    case 2:
        if (!t.empty())
            t.erase(s.below(t.size()), 1);
        return t;
    case 3:
        t.insert(s.below(t.size() + 1), 1, s.pick("0123456789.e-+ x,_'"));
        return t;
    case 4:
        if (!t.empty())
            t[s.below(t.size())] = s.pick("0123456789.e-+ x,");
        return t;
    case 5:
        for (char & c : t)
            c = static_cast<char>(s.chance(1, 2) ? std::toupper(static_cast<unsigned char>(c)) : c);
        return t;
    default:
        return t + t;
    }
}

template <typename T>
static std::string base_text(source & s)
{
    if constexpr (std::same_as<T, bool>)
        return s.pick_str({"0", "1", "true", "false"});
    else if constexpr (std::integral<T>)
    {
        // Around the limits of this and of the other types.
        if (s.chance(1, 2))
        {
            __int128 lim = s.chance(1, 2) ? static_cast<__int128>(std::numeric_limits<T>::max()) : static_cast<__int128>(std::numeric_limits<T>::min());
            if (s.chance(1, 3))
                lim = static_cast<__int128>(1) << s.below(66);
            lim += s.range(-3, 3);
            if (s.chance(1, 6))
                lim = -lim;
            if (s.chance(1, 8))
                lim *= 10;
            if (s.chance(1, 8))
                lim += static_cast<__int128>(1) << (8 * sizeof(T) > 64 ? 64 : 8 * sizeof(T)); // wraps around to a valid value
            bool neg = lim < 0;
            if (neg)
                lim = -lim;
            std::string r;
            do
            {
                r.insert(r.begin(), static_cast<char>('0' + static_cast<int>(lim % 10)));
                lim /= 10;
            }
            while (lim != 0);
            if (s.chance(1, 16))
                r.insert(0, s.pick(std::vector<size_t>{5, 19, 20, 24, 40, 130, 1000}), '0');
            return (neg ? "-" : "") + r;
        }
        return random_int<T>(s).text;
    }
    else if constexpr (std::floating_point<T>)
    {
        char b[96];
        switch (s.below(7))
        {
        case 6: // many digits
        {
            std::string digits;
            size_t const n = s.pick(std::vector<size_t>{3, 10, 17, 20, 30, 60, 120, 400, 800, 1200});
            char const only = s.chance(1, 3) ? s.pick("019") : 0;
            for (size_t i = 0; i < n; ++i)
                digits += only ? only : s.pick("0123456789");
            size_t const point = s.chance(1, 3) ? n : s.below(n);
            std::string r = (s.chance(1, 4) ? "-" : "") + digits.substr(0, point) + (point < n ? "." + digits.substr(point) : "");
            if (s.chance(1, 2)) // brings it back into the range
                r += "e" + std::to_string(-static_cast<int64_t>(point) + s.range(-40, 40));
            return r;
        }
        case 0:
            std::snprintf(b, sizeof b, "%de%d", static_cast<int>(s.range(-999, 999)), static_cast<int>(s.range(-330, 330)));
            return b;
        case 1:
        {
            uint32_t bits = static_cast<uint32_t>(s.below(1ull << 32));
            float f;
            std::memcpy(&f, &bits, 4);
            if (!std::isnormal(f))
                f = 1;
            std::snprintf(b, sizeof b, "%.*g", static_cast<int>(s.range(6, 12)), static_cast<double>(f));
            return b;
        }
        case 2: // exactly between two floats or doubles, or slightly above or below
            std::snprintf(b, sizeof b, "%s%s", s.pick_str({"16777217", "9007199254740993", "0.1", "33554435", "1.00000000000000011102230246251565"}).c_str(),
                          s.pick_str({"", ".0", ".0000000000000000000001", "e0", "1"}).c_str());
            return b;
        case 3:
            return s.pick_str({"3.4028235e38", "3.4028236e38", "3.5e38", "1.7976931348623157e308", "1.8e308", "1e309", "-3.5e38", "-1.8e308", "1e4931", "1e-310", "4.9e-324", "5e-324", "1e-40", "1.4e-45", "1e-45", "-3e-42", "1.1754942e-38", "2.2250738585072009e-308", "-1e-315", "1e-4940", "0e999", "0.0e-9999",
                               "1e4933", "1.2e4932", "0", "-0", "-0.0", "0.0", "00.5", "inf", "-inf"});
        default:
            return random_double(s).text;
        }
    }
    else if constexpr (std::same_as<T, point>)
        return std::to_string(s.range(-200, 200)) + "," + (s.chance(1, 6) ? "99999999999" : std::to_string(s.range(-200, 200)))
             + (s.chance(1, 4) ? s.pick_str({" ", "\n", "\t", "  ", " 1", "x", " x", ",1", ",", "-", "-1", ".0", "1"}) : ""); // a rest that is not read
    else if constexpr (std::is_enum_v<T>)
        return random_value(s, ty::en).text;
    else
        return random_text(s);
}

// Texts for which it is open whether they denote a value.
template <typename T>
static bool ambiguous(std::string t)
{
    std::string low = t;
    for (char & c : low)
        c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
    if constexpr (std::floating_point<T>)
        return contains(low, "nan") || (contains(low, "inf") && !float_grammar(t));
    else if constexpr (std::same_as<T, point>) // reading integers from a stream skips whitespace and takes '+'
    {
        // What follows the two numbers is unread and must lead to an error; only white space and '+' before a number are open.
        size_t end = 0;
        for (int number = 0; number < 2; ++number)
        {
            if (end < t.size() && t[end] == '-')
                ++end;
            while (end < t.size() && std::isdigit(static_cast<unsigned char>(t[end])))
                ++end;
            if (number == 0 && end < t.size() && t[end] == ',')
                ++end;
        }
        return t.substr(0, end + 1).find_first_of("+") != std::string::npos || contains(t, ",,")
            || (t.find_first_of(" \t\n\v\f\r") < end) || (end < t.size() && !(end > 0 && std::isdigit(static_cast<unsigned char>(t[end - 1]))))
            || std::count(t.begin(), t.begin() + static_cast<std::ptrdiff_t>(end), ',') != 1;
    }
    else if constexpr (std::unsigned_integral<T> && !std::same_as<T, bool>)
        return t.starts_with("-") && digits(t.substr(1)) && t.find_first_not_of("-0") == std::string::npos; // -0
    else
        return false;
}

struct german : std::numpunct<char>
{
    char do_decimal_point() const override
    {
        return ',';
    }
    char do_thousands_sep() const override
    {
        return '.';
    }
    std::string do_grouping() const override
    {
        return "\3";
    }
    std::string do_truename() const override
    {
        return "wahr";
    }
};

template <typename T>
static bool same(T const & a, T const & b)
{
    if constexpr (std::floating_point<T>)
        return a == b && std::signbit(a) == std::signbit(b);
    else
        return a == b;
}

template <typename T>
static std::string text_of(T const & v)
{
    if constexpr (std::floating_point<T>)
    {
        char b[64];
        std::snprintf(b, sizeof b, "%La", static_cast<long double>(v));
        return b;
    }
    else if constexpr (std::same_as<T, point>)
        return std::to_string(v.x) + "," + std::to_string(v.y);
    else
        return canon<T>(v);
}

template <typename T>
static void check_type(source & s, char const * type)
{
    std::string t = base_text<T>(s);
    bool const free_text = std::same_as<T, std::string> || std::same_as<T, std::filesystem::path>;
    unsigned mutations = free_text ? 0 : s.below(3) == 2 ? 1 + s.below(2) : 0;
    for (unsigned i = 0; i < mutations; ++i)
        t = mutate(s, t);
    if (!free_text && s.chance(1, 12))
        t = random_text(s);
    if (ambiguous<T>(t))
        throw pbt::discard{};
    if (t.find('\0') != std::string::npos)
        throw pbt::discard{};

    std::optional<T> want = reference<T>(t);

    // Where the text is written.
    unsigned mode = s.below(7);
    bool const foreign = s.chance(1, 6) && !std::same_as<T, point>;
    strings args;
    bool list = false;
    switch (mode)
    {
    case 0: // separate
    case 1:
        if (t == "--" || t.starts_with("-o") || t == "--opt" || t.starts_with("--opt="))
            throw pbt::discard{};
        args = {mode == 0 ? "-o" : "--opt", t};
        break;
    case 2:
    case 3:
        if (t.empty())
            throw pbt::discard{};
        args = {(mode == 2 ? "-o=" : "--opt=") + t};
        break;
    case 4:
        if (!glued_value_ok(t))
            throw pbt::discard{};
        args = {"-o" + t};
        break;
    default:
        args = {"--", t};
    }
    if constexpr (std::same_as<T, int16_t> || std::same_as<T, uint64_t> || std::same_as<T, float> || std::same_as<T, std::filesystem::path>
                  || std::same_as<T, int8_t>)
        list = s.chance(1, 3);
    s.describe(std::string{type} + (list ? " list" : "") + " " + pbt::show(args) + (foreign ? " with a foreign locale" : ""));

    T const initial = [&]
    {
        if constexpr (std::is_arithmetic_v<T>)
            return static_cast<T>(1);
        else
            return T{};
    }();
    T value = initial;
    std::conditional_t<std::same_as<T, bool>, std::deque<T>, std::vector<T>> values(2, initial);
    run_result r;
    {
        std::locale const old = foreign ? std::locale::global(std::locale{std::locale{}, new german}) : std::locale{};
        r = observe(
            [&]
            {
                sharg::parser p = make_parser("app", args, s.chance(1, 2));
                auto add = [&](auto & v)
                {
                    if (mode >= 5)
                        p.add_positional_option(v, sharg::config{});
                    else
                        p.add_option(v, sharg::config{.short_id = 'o', .long_id = "opt"});
                };
                if constexpr (std::same_as<T, int16_t> || std::same_as<T, uint64_t> || std::same_as<T, float>
                              || std::same_as<T, std::filesystem::path> || std::same_as<T, int8_t>)
                {
                    if (list)
                        add(values);
                    else
                        add(value);
                }
                else
                    add(value);
                p.parse();
            });
        if (foreign)
            std::locale::global(old);
    }
    if (want)
    {
        if (r.kind != oc::ok)
            fail(pbt::quoted(t), " is a valid ", type, " but was rejected: ", r.show());
        if (list)
        {
            if (values.size() != 1 || !same(values[0], *want))
                fail(pbt::quoted(t), " was converted to a list of ", values.size(), " elements, the last one being ",
                     values.empty() ? "-" : text_of(values.back()), ", instead of ", text_of(*want));
        }
        else if (!same(value, *want))
            fail(pbt::quoted(t), " was converted to ", text_of(value), " instead of ", text_of(*want));
        s.label(std::string{type} + " accepted");
    }
    else
    {
        if (r.kind != oc::user_input)
            fail(pbt::quoted(t), " is no ", type, ", but parse() ended with ", r.show(), " and the value ", text_of(value));
        if (!contains(r.what, t))
            fail("the message ", pbt::quoted(r.what), " does not contain the value ", pbt::quoted(t));
        s.label(std::string{type} + " rejected");
    }
    s.nontrivial();
}

static void check(source & s)
{
    switch (s.below(17))
    {
    case 0:
        return check_type<int8_t>(s, "int8");
    case 1:
        return check_type<uint8_t>(s, "uint8");
    case 2:
        return check_type<int16_t>(s, "int16");
    case 3:
        return check_type<uint16_t>(s, "uint16");
    case 4:
        return check_type<int32_t>(s, "int32");
    case 5:
        return check_type<uint32_t>(s, "uint32");
    case 6:
        return check_type<int64_t>(s, "int64");
    case 7:
        return check_type<uint64_t>(s, "uint64");
    case 8:
    case 9:
        return check_type<float>(s, "float");
    case 10:
    case 11:
        return check_type<double>(s, "double");
    case 12:
        return check_type<bool>(s, "bool");
    case 13:
        return check_type<std::string>(s, "string");
    case 14:
        return check_type<std::filesystem::path>(s, "path");
    case 15:
        return check_type<point>(s, "user type");
    default:
        return check_type<fruit>(s, "enum");
    }
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C04",
                        .rule = "an option, list or positional option of a random type with a text that is a value of the type, close "
                                "to the limits of a type, or a mutation of such a text, in a random notation, partly with a foreign "
                                "global locale; compared with reference conversions (128 bit integers, strtof/strtod); non-trivial: "
                                "all cases with a decided reference result",
                        .check = check,
                        .quick_debug = 40000,
                        .quick_release = 250000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
