// A model of parser declarations and command lines that is independent of how Sharg parses:
// the generator writes a command line for chosen values, so the expected result is known by construction.
#pragma once

#include "sharg_env.hpp"

namespace verif_app
{
enum class fruit
{
    apple,
    banana,
    cherry,
    kiwi
};

inline std::unordered_map<std::string_view, fruit> enumeration_names(fruit)
{
    return {{"apple", fruit::apple},
            {"banana", fruit::banana},
            {"cherry", fruit::cherry},
            {"kirsche", fruit::cherry},
            {"kiwi", fruit::kiwi},
            {"-k", fruit::kiwi},
            {"ap", fruit::apple}};
}

// A type with stream operators of its own: "5", "x1f" (hexadecimal), "3:7" or "3:7/2". Like many such operators, it
// leaves the stream in another state, and it does not assign the part that is not given.
struct range
{
    int64_t first{}, last{}, step{1};
};

inline std::istream & operator>>(std::istream & is, range & r)
{
    if (is.good() && is.peek() == 'x')
    {
        is.get();
        is >> std::hex;
    }
    if (!(is >> r.first))
        return is;
    r.last = r.first;
    is >> std::noskipws;
    if (is.good() && is.peek() == ':')
    {
        is.get();
        if (!(is >> r.last))
            return is;
    }
    if (is.good() && is.peek() == '/')
    {
        is.get();
        is >> r.step;
    }
    return is;
}

inline std::ostream & operator<<(std::ostream & os, range const & r)
{
    os << std::to_string(r.first);
    if (r.last != r.first)
        os << ':' << std::to_string(r.last);
    if (r.step != 1)
        os << '/' << std::to_string(r.step);
    return os;
}
} // namespace verif_app

namespace verif
{
using verif_app::fruit;
using verif_app::range;
using strings = std::vector<std::string>;
using pbt::source;

// ---------------------------------------------------------------------------------------------------- canonical values

template <typename T>
std::string canon(T const & v)
{
    if constexpr (std::same_as<T, bool>)
        return v ? "true" : "false";
    else if constexpr (std::integral<T>)
        return std::to_string(v);
    else if constexpr (std::floating_point<T>)
    {
        char b[64];
        std::snprintf(b, sizeof b, "%a", static_cast<double>(v));
        return b;
    }
    else if constexpr (std::same_as<T, std::string>)
        return v;
    else if constexpr (std::same_as<T, std::filesystem::path>)
        return v.string();
    else if constexpr (std::is_enum_v<T>)
        return "#" + std::to_string(static_cast<long>(v));
    else if constexpr (std::same_as<T, range>)
        return std::to_string(v.first) + ":" + std::to_string(v.last) + "/" + std::to_string(v.step);
    else
        static_assert(sizeof(T) == 0);
}

template <typename T>
concept listlike = !std::same_as<T, std::string> && !std::same_as<T, std::filesystem::path> && requires (T & v, typename T::value_type x)
{
    v.push_back(x);
    v.clear();
    v.begin();
};

template <typename T>
strings canon_all(T const & v)
{
    strings r;
    if constexpr (listlike<T>)
        for (typename T::value_type const & x : v)
            r.push_back(canon<typename T::value_type>(x));
    else
        r.push_back(canon(v));
    return r;
}

// A validator whose decision is made at runtime, for values of any type.
struct dyn_validator
{
    using option_value_type = std::any;

    std::function<void(strings const &)> check;
    std::string help;

    template <typename T>
    void operator()(T const & v) const
    {
        if constexpr (!std::same_as<T, std::any>)
            if (check)
                check(canon_all(v));
    }

    std::string get_help_page_message() const
    {
        return help;
    }
};

using config_t = sharg::config<dyn_validator>;

// The rejection of a validator: any standard exception is possible.
inline constexpr unsigned num_rejections = 9;
[[noreturn]] inline void throw_rejection(unsigned kind, std::string const & what)
{
    switch (kind)
    {
    case 1:
        throw std::runtime_error{what};
    case 2:
        throw std::invalid_argument{what};
    case 3:
        throw std::out_of_range{what};
    case 4:
        throw std::filesystem::filesystem_error{what, std::make_error_code(std::errc::no_space_on_device)};
    case 5:
    {
        struct own : std::exception
        {
            std::string text;
            char const * what() const noexcept override
            {
                return text.c_str();
            }
        } e;
        e.text = what;
        throw e;
    }
    case 6:
        throw sharg::user_input_error{what};
    case 7:
        throw sharg::too_few_arguments{what};
    case 8:
        throw sharg::parser_error{what};
    default:
        throw sharg::validation_error{what};
    }
}

// ------------------------------------------------------------------------------------------------------------ values

enum class ty
{
    i32,
    u8,
    i64,
    dbl,
    boolean,
    str,
    path,
    en,
    user
};

struct text_value
{
    std::string text;  // as written on the command line
    std::string canon; // as it has to be stored
};

inline std::string random_bytes(source & s, size_t max_len)
{
    static std::string const nice = "abcXYZ019 =-_.,:;/\\'\"<>&#$%()[]{}*?!~`|@^+";
    std::string r;
    size_t n = s.below(max_len + 1);
    for (size_t i = 0; i < n; ++i)
        r += s.chance(1, 8) ? static_cast<char>(s.range(1, 255)) : s.pick(nice);
    return r;
}

inline std::string random_text(source & s)
{
    static strings const special = {"x",       "",          " ",    "-",     "a=b",      "=",       "==",         "-1",     "--foo",
                                    "--help",  "-h",        "-hh",  "-abc",  "a b  c",   "\t",      "--version",  "-x=3",   "--long-opt=7",
                                    "\xc3\xbc", "\\",       "\"q\"", "'",    "$HOME",    "`id`",    "a\nb",       "---",    "-=",
                                    "true",    "0",         "--=",  "-ovalue", "--copyright", "--advanced-help", "--export-help=html",
                                    "--version-check"};
    if (s.chance(1, 2))
        return s.pick(special);
    if (s.chance(1, 40)) // long
        return random_bytes(s, 6) + std::string(s.pick(std::vector<size_t>{20, 100, 254, 255, 256, 300, 1023, 1024, 4100}), s.pick("a =-1")) + random_bytes(s, 3);
    return random_bytes(s, 12);
}

template <typename T>
text_value random_int(source & s)
{
    T v{};
    switch (s.below(4))
    {
    case 0:
        v = static_cast<T>(s.below(10));
        break;
    case 1:
        v = std::numeric_limits<T>::max() - static_cast<T>(s.below(3));
        break;
    case 2:
        v = std::numeric_limits<T>::min() + static_cast<T>(s.below(3));
        break;
    default:
        v = static_cast<T>(s.bits() >> s.below(64));
    }
    std::string t = std::to_string(v);
    if (s.chance(1, 10))
        t.insert(t[0] == '-' ? 1 : 0, s.below(4) + 1, '0');
    return {t, std::to_string(v)};
}

inline text_value random_double(source & s)
{
    char b[64];
    switch (s.below(5))
    {
    case 0:
        std::snprintf(b, sizeof b, "%d", static_cast<int>(s.range(-9, 99)));
        break;
    case 1:
        std::snprintf(b, sizeof b, "%.*f", static_cast<int>(s.below(6)), static_cast<double>(s.range(-100000, 100000)) / 1024);
        break;
    case 2:
        std::snprintf(b, sizeof b, "%de%d", static_cast<int>(s.range(-99, 99)), static_cast<int>(s.range(-200, 200)));
        break;
    case 3:
    {
        uint64_t bits = s.bits();
        double d;
        std::memcpy(&d, &bits, 8);
        if (!std::isnormal(d))
            d = 0.1;
        std::snprintf(b, sizeof b, "%.17g", d);
        break;
    }
    default:
        std::snprintf(b, sizeof b, "%s", s.pick_str({".5", "5.", "-.25", "1e0", "0.1", "1E5", "inf", "-inf"}).c_str());
    }
    return {b, canon(std::strtod(b, nullptr))};
}

inline text_value random_value(source & s, ty t)
{
    switch (t)
    {
    case ty::i32:
        return random_int<int32_t>(s);
    case ty::u8:
        return random_int<uint8_t>(s);
    case ty::i64:
        return random_int<int64_t>(s);
    case ty::dbl:
        return random_double(s);
    case ty::boolean:
    {
        bool v = s.chance(1, 2);
        return {s.chance(1, 2) ? (v ? "1" : "0") : (v ? "true" : "false"), v ? "true" : "false"};
    }
    case ty::str:
    case ty::path:
    {
        std::string x = random_text(s);
        return {x, x};
    }
    case ty::en:
    {
        static std::vector<std::pair<std::string, fruit>> const names = {{"apple", fruit::apple},
                                                                         {"banana", fruit::banana},
                                                                         {"cherry", fruit::cherry},
                                                                         {"kirsche", fruit::cherry},
                                                                         {"kiwi", fruit::kiwi},
                                                                         {"-k", fruit::kiwi},
                                                                         {"ap", fruit::apple}};
        auto const & [k, v] = s.pick(names);
        return {k, canon(v)};
    }
    case ty::user:
    {
        auto number = [&](bool hex) -> text_value
        {
            if (!hex)
                return random_int<int64_t>(s);
            int64_t v = static_cast<int64_t>(s.bits() >> (1 + s.below(63)));
            char b[32];
            std::snprintf(b, sizeof b, "%llx", static_cast<unsigned long long>(v));
            return {b, std::to_string(v)};
        };
        bool const hex = s.chance(1, 3);
        text_value a = number(hex), b = a;
        std::string text = (hex ? "x" : "") + a.text;
        if (s.chance(1, 3))
        {
            b = number(hex);
            text += ":" + b.text;
        }
        std::string step = "1";
        if (s.chance(1, 4))
        {
            text_value const c = number(hex);
            text += "/" + c.text;
            step = c.canon;
        }
        return {text, a.canon + ":" + b.canon + "/" + step};
    }
    }
    return {};
}

// A text that must be rejected by every option of this type (empty: there is none).
inline std::string invalid_text(source & s, ty t)
{
    switch (t)
    {
    case ty::i32:
        return s.pick_str({"x", "2147483648", "-2147483649", "1x", "1.5", "0x10", "+1", "1 ", " 1", "--1", "1e3", "99999999999999999999", "1,", "true"});
    case ty::u8:
        return s.pick_str({"x", "256", "-1", "300", "1x", "12.0", "+1", "1 ", " 1", "255 ", "99999999999999999999", "a"});
    case ty::i64:
        return s.pick_str({"x", "9223372036854775808", "-9223372036854775809", "1x", "1.5", "+1", "1 ", " 1", "99999999999999999999"});
    case ty::dbl:
        return s.pick_str({"x", "1.5x", "1e999", "-1e999", "+1.5", "1.5 ", " 1.5", "0x1p3", "1,5", "1e", "1.2.3", "--1"});
    case ty::boolean:
        return s.pick_str({"x", "2", "TRUE", "True", "yes", "on", "01", "true ", " true", "-1", "tru", "truee", "10"});
    case ty::en:
        return s.pick_str({"x", "appl", "apple ", "applee", "Apple", "APPLE", "0", "1", "kiw", "app"});
    case ty::user:
        return s.pick_str({"-", "y", "5 ", "5:", "1:2:3", "x", "xg", "5:x3", "5: 3", ":4", "5/", "5/1/2", "5/1:2", "/3", "1f", "5 :3", "99999999999999999999"});
    default:
        return "";
    }
}

// --------------------------------------------------------------------------------------------------------- variables

struct var_base
{
    virtual ~var_base() = default;
    virtual void add_option(sharg::parser &, config_t const &) = 0;
    virtual void add_positional(sharg::parser &, config_t const &) = 0;
    virtual strings get() const = 0;
    virtual void set(strings const & texts) = 0; // texts of random_value
};

template <typename T>
T value_of(std::string const & text)
{
    if constexpr (std::same_as<T, bool>)
        return text == "1" || text == "true";
    else if constexpr (std::floating_point<T>)
        return std::strtod(text.c_str(), nullptr);
    else if constexpr (std::unsigned_integral<T>)
        return static_cast<T>(std::strtoull(text.c_str(), nullptr, 10));
    else if constexpr (std::integral<T>)
        return static_cast<T>(std::strtoll(text.c_str(), nullptr, 10));
    else if constexpr (std::is_enum_v<T>)
        return enumeration_names(T{}).at(text);
    else if constexpr (std::same_as<T, range>)
    {
        T r{};
        std::istringstream{text} >> r;
        return r;
    }
    else
        return T{text};
}

template <typename T>
struct var : var_base
{
    T value{};

    void add_option(sharg::parser & p, config_t const & c) override
    {
        p.add_option(value, c);
    }
    void add_positional(sharg::parser & p, config_t const & c) override
    {
        p.add_positional_option(value, c);
    }
    strings get() const override
    {
        return canon_all(value);
    }
    void set(strings const & texts) override
    {
        if constexpr (listlike<T>)
        {
            value.clear();
            for (auto const & t : texts)
                value.push_back(value_of<typename T::value_type>(t));
        }
        else if (!texts.empty())
            value = value_of<T>(texts[0]);
    }
};

inline std::unique_ptr<var_base> make_var(ty t, bool list)
{
    switch (t)
    {
    case ty::i32:
        if (list)
            return std::make_unique<var<std::vector<int32_t>>>();
        return std::make_unique<var<int32_t>>();
    case ty::u8:
        if (list)
            return std::make_unique<var<std::deque<uint8_t>>>();
        return std::make_unique<var<uint8_t>>();
    case ty::i64:
        if (list)
            return std::make_unique<var<std::list<int64_t>>>();
        return std::make_unique<var<int64_t>>();
    case ty::dbl:
        if (list)
            return std::make_unique<var<std::list<double>>>();
        return std::make_unique<var<double>>();
    case ty::boolean:
        if (list)
            return std::make_unique<var<std::vector<bool>>>();
        return std::make_unique<var<bool>>();
    case ty::str:
        if (list)
            return std::make_unique<var<std::vector<std::string>>>();
        return std::make_unique<var<std::string>>();
    case ty::path:
        if (list)
            return std::make_unique<var<std::vector<std::filesystem::path>>>();
        return std::make_unique<var<std::filesystem::path>>();
    case ty::en:
        if (list)
            return std::make_unique<var<std::vector<fruit>>>();
        return std::make_unique<var<fruit>>();
    case ty::user:
        if (list)
            return std::make_unique<var<std::vector<range>>>();
        return std::make_unique<var<range>>();
    }
    return nullptr;
}

inline ty random_type(source & s, bool list)
{
    static std::vector<ty> const lists = {ty::str, ty::i32, ty::dbl, ty::path, ty::en, ty::u8, ty::user, ty::i64, ty::boolean};
    static std::vector<ty> const scalars = {ty::i32, ty::str, ty::dbl, ty::boolean, ty::path, ty::en, ty::u8, ty::user, ty::i64};
    return list ? s.pick(lists) : s.pick(scalars);
}

inline char const * type_name(ty t)
{
    static char const * const n[] = {"int32", "uint8", "int64", "double", "bool", "string", "path", "enum", "range"};
    return n[static_cast<int>(t)];
}

// -------------------------------------------------------------------------------------------------------- declarations

struct decl
{
    bool flag{false};
    char s{'\0'};
    std::string l;
    ty type{ty::i32};
    bool list{false};
    bool required{false};
    bool advanced{false};
    bool hidden{false};
    std::string desc, default_message;
    dyn_validator validator;
    strings initial_texts;

    // state
    std::unique_ptr<var_base> value;
    std::unique_ptr<bool> flag_value;

    strings initial() const
    {
        return initial_;
    }
    strings current() const
    {
        return flag ? strings{canon(*flag_value)} : value->get();
    }
    void reset()
    {
        if (flag)
            flag_value = std::make_unique<bool>(false);
        else
        {
            value = make_var(type, list);
            value->set(initial_texts);
        }
        initial_ = current();
    }
    config_t config() const
    {
        return {.short_id = s,
                .long_id = l,
                .description = desc,
                .default_message = default_message,
                .advanced = advanced,
                .hidden = hidden,
                .required = required,
                .validator = validator};
    }
    std::string show() const
    {
        std::string r = flag ? "flag" : list ? "list<" + std::string{type_name(type)} + ">" : type_name(type);
        r += "(";
        if (s)
            r += std::string{"-"} + s;
        if (s && !l.empty())
            r += "/";
        if (!l.empty())
            r += "--" + l;
        r += required ? ",required" : "";
        if (!flag)
            r += ",initially " + pbt::show(initial_texts);
        return r + ")";
    }

private:
    strings initial_;
};

// Generates valid and unused identifiers, many of them similar to each other.
struct id_pool
{
    std::set<std::string> used{"h", "hh", "help", "advanced-help", "export-help", "version", "copyright", "version-check"};

    char short_id(source & s)
    {
        static std::string const common = "abcinorvxABIN125_@", all = "abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@";
        for (int i = 0; i < 6; ++i)
        {
            char c = s.pick(i < 3 ? common : all);
            if (used.insert(std::string(1, c)).second)
                return c;
        }
        return '\0';
    }

    std::string long_id(source & s)
    {
        static strings const words = {"foo", "int", "foo-bar", "foobar", "fo", "foo_bar", "in", "integer", "help-me", "h2", "versions", "bar", "v@",
                                      "ab", "a-b", "1a", "42", "export-help2", "@x", "_y", "foo-", "fooo", "xx", "verbose", "out", "output"};
        for (int i = 0; i < 6; ++i)
        {
            std::string w = s.pick(words);
            if (i > 2)
                w += "-" + std::to_string(used.size());
            else if (s.chance(1, 40))
                w += "-with_a-rather-long-name-of-more-than-sixty-four-characters-in-total";
            if (used.insert(w).second)
                return w;
        }
        return {};
    }

    void give(source & s, decl & d)
    {
        unsigned k = s.below(4);
        if (k != 1)
            d.l = long_id(s);
        if (k != 0 || d.l.empty())
            d.s = short_id(s);
        if (d.l.empty() && d.s == '\0')
            for (int i = 0; d.l.empty(); ++i)
                if (std::string w = "opt" + std::to_string(i); used.insert(w).second)
                    d.l = w;
    }
};

struct spec
{
    std::string app{"test_app"};
    std::vector<decl> opts; // options and flags in order of declaration
    std::vector<decl> pos;
    strings subcommands;
    bool use_argv{false};

    void reset()
    {
        for (auto & d : opts)
            d.reset();
        for (auto & d : pos)
            d.reset();
    }

    void declare(sharg::parser & p)
    {
        for (auto & d : opts)
            declare_option(p, d);
        for (auto & d : pos)
            d.value->add_positional(p, d.config());
    }

    static void declare_option(sharg::parser & p, decl & d)
    {
        if (d.flag)
            p.add_flag(*d.flag_value, d.config());
        else
            d.value->add_option(p, d.config());
    }

    std::string show() const
    {
        std::string r = "declared: ";
        for (auto & d : opts)
            r += d.show() + " ";
        r += "| positional: ";
        for (auto & d : pos)
            r += (d.list ? "list<" + std::string{type_name(d.type)} + "> " : type_name(d.type) + std::string{" "});
        return r;
    }
};

struct spec_options
{
    unsigned max_options{5}, max_flags{4}, max_pos{3};
    bool lists{true}, positional_list{true}, required{true};
};

inline strings random_initial(source & s, ty t, bool list)
{
    strings r;
    size_t n = list ? s.few(3) : 1;
    for (size_t i = 0; i < n; ++i)
    {
        std::string text = random_value(s, t).text;
        if (t == ty::user && !list) // whether a part that is not given keeps its value is not specified
            text = text.substr(0, text.find('/'));
        r.push_back(text);
    }
    return r;
}

// What is only shown on help pages has no influence on anything else.
inline void random_visibility(source & s, decl & d)
{
    d.advanced = s.chance(1, 10);
    d.hidden = s.chance(1, 10);
    if (s.chance(1, 10))
        d.desc = s.pick_str({"", "-o", "--help", "a\\fBb"});
}

inline decl random_option(source & s, id_pool & ids, bool lists = true)
{
    decl d;
    ids.give(s, d);
    d.list = lists && s.chance(1, 3);
    d.type = random_type(s, d.list);
    d.initial_texts = random_initial(s, d.type, d.list);
    d.desc = "d";
    random_visibility(s, d);
    return d;
}

inline decl random_flag(source & s, id_pool & ids)
{
    decl d;
    d.flag = true;
    ids.give(s, d);
    d.desc = "f";
    random_visibility(s, d);
    return d;
}

inline spec random_spec(source & s, spec_options const & o = {})
{
    spec r;
    id_pool ids;
    size_t n = s.below(o.max_options + 1), f = s.below(o.max_flags + 1);
    bool const many = s.chance(1, 30);
    if (many && o.max_options > 0)
        n = s.below(36), f = s.below(36);
    for (size_t i = 0; i < n; ++i)
    {
        r.opts.push_back(random_option(s, ids, o.lists));
        if (o.required)
            r.opts.back().required = s.chance(1, many ? 15 : 5);
        if (!r.opts.back().required && s.chance(1, 12))
            r.opts.back().default_message = "some value";
    }
    for (size_t i = 0; i < f; ++i)
        r.opts.push_back(random_flag(s, ids));
    s.shuffle(r.opts);
    size_t k = s.below(o.max_pos + 1);
    if (many && o.max_pos > 1)
        k = s.below(14);
    for (size_t i = 0; i < k; ++i)
    {
        decl d;
        d.list = i + 1 == k && o.positional_list && s.chance(1, 2);
        d.type = random_type(s, d.list);
        d.initial_texts = random_initial(s, d.type, d.list);
        r.pos.push_back(std::move(d));
    }
    r.use_argv = s.chance(1, 2);
    r.reset();
    return r;
}

inline sharg::parser make_parser(std::string const & app,
                                 strings const & args,
                                 bool use_argv,
                                 sharg::update_notifications u = sharg::update_notifications::off,
                                 strings const & subcommands = {})
{
    strings all{"./" + app};
    all.insert(all.end(), args.begin(), args.end());
    if (!use_argv)
        return sharg::parser{app, all, u, subcommands};
    std::vector<char const *> argv;
    for (auto const & a : all)
        argv.push_back(a.c_str());
    return sharg::parser{app, static_cast<int>(argv.size()), argv.data(), u, subcommands};
}

// ------------------------------------------------------------------------------------------------------- command lines

// Would an argument be taken as (part of) a declared option if it appeared outside of a value?
inline bool looks_like_option(spec const & sp, std::string const & t)
{
    for (auto const & d : sp.opts)
    {
        if (d.flag)
            continue;
        if (d.s && t.size() >= 2 && t[0] == '-' && t[1] == d.s)
            return true;
        if (!d.l.empty() && (t == "--" + d.l || t.starts_with("--" + d.l + "=")))
            return true;
    }
    return false;
}

// A value may be written as an argument of its own iff it cannot be mistaken for something else.
inline bool separate_value_ok(spec const & sp, std::string const & t)
{
    return t != "--" && !looks_like_option(sp, t);
}

inline bool glued_value_ok(std::string const & t)
{
    return !t.empty() && t[0] != '=';
}

inline bool plain_positional_ok(std::string const & t)
{
    return t.empty() || t[0] != '-' || t == "-";
}

enum class notation
{
    separate,
    equals,
    glued
};

// Writes an occurrence of an option; returns no tokens if the notation is not possible for this value.
inline strings write_option(spec const & sp, decl const & d, bool short_id, notation n, std::string const & text)
{
    std::string id = short_id ? std::string{"-"} + d.s : "--" + d.l;
    switch (n)
    {
    case notation::separate:
        if (separate_value_ok(sp, text))
            return {id, text};
        return {};
    case notation::equals:
        if (!text.empty())
            return {id + "=" + text};
        return {};
    case notation::glued:
        if (short_id && glued_value_ok(text))
            return {id + text};
        return {};
    }
    return {};
}

struct item // arguments that belong together
{
    strings tokens;
    int option{-1};    // index in spec::opts or -1
    int positional{-1};
    std::string value; // canonical value
    std::string id;    // identifier used (with dashes)
    bool is_flags{false};
};

struct command_line
{
    strings args;
    std::vector<item> items;         // before --
    std::vector<item> behind;        // behind --
    bool dashes{false};              // has --
    std::vector<strings> opt_values; // expected values of spec::opts
    std::vector<strings> pos_values;
    std::set<std::string> used_ids; // identifiers of options and flags, with dashes
    unsigned n_notations{0}, n_clusters{0};

    void assemble()
    {
        args.clear();
        for (auto const & i : items)
            args.insert(args.end(), i.tokens.begin(), i.tokens.end());
        if (dashes)
            args.push_back("--");
        for (auto const & i : behind)
            args.insert(args.end(), i.tokens.begin(), i.tokens.end());
    }
};

inline item option_item(source & s, spec const & sp, int index, text_value const & v)
{
    decl const & d = sp.opts[index];
    item it;
    it.option = index;
    it.value = v.canon;
    bool use_short = d.s && (d.l.empty() || s.chance(1, 2));
    unsigned first = s.below(3);
    for (unsigned k = 0; k < 6 && it.tokens.empty(); ++k)
    {
        if (k == 3)
        {
            if (d.s && !d.l.empty())
                use_short = !use_short;
            else
                break;
        }
        it.tokens = write_option(sp, d, use_short, static_cast<notation>((first + k) % 3), v.text);
    }
    it.id = use_short ? std::string{"-"} + d.s : "--" + d.l;
    return it;
}

// A text that could be mistaken for a declared identifier, the end of the options or a special request.
inline std::string look_alike(source & s, spec const & sp)
{
    static strings const fixed = {"--", "-", "---", "-h", "--help", "--version-check", "--export-help=html", "--version", "=", "--=", "-="};
    if (sp.opts.empty() || s.chance(1, 3))
        return s.pick(fixed);
    decl const & d = s.pick(sp.opts);
    std::string const id = d.s && (d.l.empty() || s.chance(1, 2)) ? std::string{"-"} + d.s : "--" + d.l;
    return id + s.pick(strings{"", "", "=", "=5", "5", "=" + id, "x"});
}

// Random interleaving of the items that keeps the order of positional arguments.
inline void interleave(source & s, std::vector<item> & items)
{
    s.shuffle(items);
    std::vector<item> pos;
    for (auto & i : items)
        if (i.positional >= 0)
            pos.push_back(i);
    std::stable_sort(pos.begin(), pos.end(),
                     [](item const & a, item const & b)
                     {
                         return a.positional < b.positional;
                     });
    size_t k = 0;
    for (auto & i : items)
        if (i.positional >= 0)
            i = pos[k++];
}

struct line_options
{
    bool options{true};
    unsigned dashes_num{1}, dashes_den{3};
    unsigned max_list{4};
    unsigned use_num{3}, use_den{4}; // probability that an option is used
};

// A valid, unambiguous command line for the spec, with the values it spells out.
inline command_line random_line(source & s, spec const & sp, line_options const & o = {})
{
    command_line c;
    c.opt_values.resize(sp.opts.size());
    c.pos_values.resize(sp.pos.size());
    std::vector<int> short_flags, long_flags;

    for (size_t i = 0; i < sp.opts.size(); ++i)
    {
        decl const & d = sp.opts[i];
        bool use = d.required || s.chance(o.use_num, o.use_den);
        c.opt_values[i] = d.initial();
        if (!use)
            continue;
        if (d.flag)
        {
            (d.s && (d.l.empty() || s.chance(2, 3)) ? short_flags : long_flags).push_back(static_cast<int>(i));
            c.opt_values[i] = {"true"};
            continue;
        }
        size_t n = d.list ? 1 + s.few(o.max_list - 1) : 1;
        bool any = false;
        for (size_t k = 0; k < n; ++k)
        {
            item it;
            for (int tries = 0; tries < 8 && it.tokens.empty(); ++tries)
            {
                text_value v = random_value(s, d.type);
                if ((d.type == ty::str || d.type == ty::path) && s.chance(1, 8))
                    v.text = v.canon = look_alike(s, sp);
                it = option_item(s, sp, static_cast<int>(i), v);
            }
            if (it.tokens.empty())
                throw pbt::discard{};
            any = true;
            c.items.push_back(std::move(it));
        }
        if (any)
            c.used_ids.insert(""); // removed below
    }
    c.used_ids.clear();

    // Flags, partly clustered.
    s.shuffle(short_flags);
    for (size_t i = 0; i < short_flags.size();)
    {
        size_t n = 1 + s.below(short_flags.size() - i);
        item it;
        it.is_flags = true;
        std::string t = "-";
        for (size_t k = 0; k < n; ++k)
            t += sp.opts[short_flags[i + k]].s;
        if (n > 1)
            ++c.n_clusters;
        it.tokens = {t};
        c.items.push_back(it);
        i += n;
    }
    for (int f : long_flags)
    {
        item it;
        it.is_flags = true;
        it.tokens = {"--" + sp.opts[f].l};
        c.items.push_back(it);
    }

    // Positional arguments.
    std::vector<item> pos;
    int number = 0;
    c.dashes = s.chance(o.dashes_num, o.dashes_den);
    for (size_t i = 0; i < sp.pos.size(); ++i)
    {
        decl const & d = sp.pos[i];
        size_t n = d.list ? 1 + s.few(o.max_list - 1) : 1;
        for (size_t k = 0; k < n; ++k)
        {
            text_value v = random_value(s, d.type);
            if ((d.type == ty::str || d.type == ty::path) && s.chance(1, 5))
                v.text = v.canon = look_alike(s, sp); // goes behind -- if it has to
            item it;
            it.positional = number++;
            it.tokens = {v.text};
            it.value = v.canon;
            c.pos_values[i].push_back(v.canon);
            pos.push_back(std::move(it));
        }
    }
    size_t before = pos.size();
    if (c.dashes)
        before = s.below(pos.size() + 1);
    for (size_t i = 0; i < before; ++i)
        if (!plain_positional_ok(pos[i].tokens[0]))
        {
            before = i;
            c.dashes = true;
        }
    c.items.insert(c.items.end(), pos.begin(), pos.begin() + before);
    c.behind.assign(pos.begin() + before, pos.end());
    interleave(s, c.items);

    if (c.items.empty() && c.behind.empty())
        c.dashes = true; // without any argument, the short help would be shown

    // Expected values of options.
    std::vector<bool> seen(sp.opts.size());
    for (auto const & it : c.items)
    {
        if (it.option < 0)
            continue;
        if (!seen[it.option])
            c.opt_values[it.option].clear();
        seen[it.option] = true;
        c.opt_values[it.option].push_back(it.value);
        c.used_ids.insert(it.id);
    }
    c.assemble();
    return c;
}

inline std::string compare(spec const & sp, command_line const & c)
{
    std::string r;
    for (size_t i = 0; i < sp.opts.size(); ++i)
        if (sp.opts[i].current() != c.opt_values[i])
            r += sp.opts[i].show() + " is " + pbt::show(sp.opts[i].current()) + " instead of " + pbt::show(c.opt_values[i]) + "; ";
    for (size_t i = 0; i < sp.pos.size(); ++i)
        if (sp.pos[i].current() != c.pos_values[i])
            r += "positional option " + std::to_string(i + 1) + " is " + pbt::show(sp.pos[i].current()) + " instead of "
               + pbt::show(c.pos_values[i]) + "; ";
    return r;
}

} // namespace verif
