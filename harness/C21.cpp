// C21: Named enumerations: many types with generated names, provided in all ways that are documented.
#include "model.hpp"

#include <forward_list>

using namespace verif;

// ------------------------------------------------------------------------------------------------------------- the types

namespace verif_names
{

// Deterministic names of a type, with shared prefixes, several names for a value, and values without name.
inline std::vector<std::pair<std::string, int>> generate(unsigned n)
{
    std::mt19937_64 g{n * 7919 + 13};
    auto below = [&](unsigned k) { return static_cast<unsigned>(g() % k); };
    static std::vector<std::string> const words = {"a", "A", "b", "ab", "abc", "AB", "apple", "Apple", "app", "x-y", "x_y", "1", "0", "10", "-1", "-x", "--x", "true", "none", "z",
                                                   "=", "a=b", "+", "\xc3\xa4", "..", "~", "%s", "gz", ".gz", "very-long-name-of-a-value-that-does-not-end", "h", "-h2", "on", "off"};
    static std::vector<std::string> const odd = {"with space", " lead", "trail ", "", "tab\tx", "a,b", "[x]", "'q'", "\"q\"", "new\nline", "\\"};
    size_t size = n % 4 == 0 ? 1 + below(3) : n % 4 == 3 ? 30 + below(120) : 3 + below(12);
    std::map<std::string, int> r;
    while (r.size() < size)
    {
        std::string k = words[below(words.size())];
        if (n % 3 == 2 && below(3) == 0)
            k = odd[below(odd.size())];
        if (below(3) == 0 || size > 20)
            k += words[below(words.size())];
        if (size > 30)
            k += std::to_string(below(1000));
        r.emplace(k, static_cast<int>(below(static_cast<unsigned>(size))) - (n % 2 ? 1 : 0));
    }
    return {r.begin(), r.end()};
}

// The characters of the names lie next to each other, without any NUL in between.
template <typename value_t, unsigned n>
std::unordered_map<std::string_view, value_t> names()
{
    static std::vector<std::pair<std::string, int>> const list = generate(n);
    static std::string const storage = []
    {
        std::string r;
        for (auto const & [k, v] : list)
            r += k;
        return r;
    }();
    std::unordered_map<std::string_view, value_t> r;
    size_t at = 0;
    for (auto const & [k, v] : list)
    {
        r.emplace(std::string_view{storage}.substr(at, k.size()), static_cast<value_t>(v));
        at += k.size();
    }
    return r;
}

// By a friend function.
template <unsigned n, typename underlying>
struct scoped
{
    enum class e : underlying
    {
        zero
    };
    friend std::unordered_map<std::string_view, e> enumeration_names(e)
    {
        return names<e, n>();
    }
};

template <unsigned n>
struct unscoped
{
    enum e : int
    {
        zero
    };
    friend std::unordered_map<std::string_view, e> enumeration_names(e)
    {
        return names<e, n>();
    }
};

// By a specialisation.
template <unsigned n>
struct special
{
    enum class e : int
    {
        zero
    };
};

// Not an enumeration, without and with a default constructor that does not throw.
struct number
{
    int v{};
    number() = default;
    explicit number(int i) : v{i}
    {}
    bool operator==(number const &) const = default;
};
inline std::unordered_map<std::string_view, number> enumeration_names(number)
{
    return names<number, 5>();
}
struct throwing
{
    int v{};
    throwing() noexcept(false)
    {}
    explicit throwing(int i) : v{i}
    {}
    bool operator==(throwing const &) const = default;
};
inline std::unordered_map<std::string_view, throwing> enumeration_names(std::type_identity<throwing>)
{
    return names<throwing, 6>();
}

// With names that are strings.
enum class owning
{
    zero
};
inline std::unordered_map<std::string, owning> enumeration_names(owning)
{
    std::unordered_map<std::string, owning> r;
    for (auto const & [k, v] : generate(9))
        r.emplace(k, static_cast<owning>(v));
    return r;
}

// Both ways: the specialisation has precedence.
enum class both
{
    zero
};
inline std::unordered_map<std::string_view, both> enumeration_names(both)
{
    return {{"wrong", both{0}}};
}
} // namespace verif_names

namespace sharg::custom
{
template <>
struct parsing<verif_names::special<1>::e>
{
    static inline std::unordered_map<std::string_view, verif_names::special<1>::e> const enumeration_names = verif_names::names<verif_names::special<1>::e, 1>();
};
template <>
struct parsing<verif_names::special<7>::e>
{
    static inline std::unordered_map<std::string_view, verif_names::special<7>::e> const enumeration_names = verif_names::names<verif_names::special<7>::e, 7>();
};
template <>
struct parsing<std::errc>
{
    static inline std::unordered_map<std::string_view, std::errc> const enumeration_names{{"no_error", std::errc{}},
                                                                                          {"timed_out", std::errc::timed_out},
                                                                                          {"invalid_argument", std::errc::invalid_argument},
                                                                                          {"io_error", std::errc::io_error}};
};
template <>
struct parsing<verif_names::both>
{
    static inline std::unordered_map<std::string_view, verif_names::both> const enumeration_names = verif_names::names<verif_names::both, 3>();
};
} // namespace sharg::custom

namespace
{

template <typename T>
int number_of(T const & v)
{
    if constexpr (std::is_enum_v<T>)
        return static_cast<int>(v);
    else
        return v.v;
}

template <typename T>
struct reference
{
    std::vector<std::pair<std::string, int>> list;
    std::map<std::string, int> map;

    bool simple{true}; // names can be told apart in a list

    explicit reference(std::vector<std::pair<std::string, int>> l) : list{std::move(l)}
    {
        for (auto const & [k, v] : list)
        {
            map[k] = v;
            if (k.empty() || k.find_first_of(" ,[]\t\n\\'\"") != std::string::npos)
                simple = false;
        }
    }
    strings names_of(int v) const
    {
        strings r;
        for (auto const & [k, x] : list)
            if (x == v)
                r.push_back(k);
        return r;
    }
};

std::string near_miss(source & s, std::vector<std::pair<std::string, int>> const & list)
{
    std::string k = s.pick(list).first;
    switch (s.below(9))
    {
    case 0:
        return k + s.pick_str({" ", "x", "s", "\t", "1", "=", ","});
    case 1:
        return k.substr(0, k.empty() ? 0 : k.size() - 1);
    case 2:
        return k.empty() ? "x" : k.substr(1);
    case 3:
        for (auto & c : k)
            c = static_cast<char>(std::isupper(static_cast<unsigned char>(c)) ? std::tolower(static_cast<unsigned char>(c)) : std::toupper(static_cast<unsigned char>(c)));
        return k;
    case 4:
        return std::to_string(s.range(-2, 12));
    case 5:
        return " " + k;
    case 6:
        return k + k;
    case 7:
        return k + ", " + s.pick(list).first;
    default:
        return random_text(s);
    }
}

bool may_be_separate(std::string const & t) // -e and --enum are declared
{
    return t != "--" && !t.starts_with("-e") && t != "--enum" && !t.starts_with("--enum=");
}

strings written(source & s, std::string const & value)
{
    for (;;)
        switch (s.below(5))
        {
        case 0:
            if (may_be_separate(value))
                return {"-e", value};
            break;
        case 1:
            if (may_be_separate(value))
                return {"--enum", value};
            break;
        case 2:
            if (!value.empty())
                return {"--enum=" + value};
            break;
        case 3:
            if (!value.empty())
                return {"-e=" + value};
            break;
        default:
            if (!value.empty() && value[0] != '=')
                return {"-e" + value};
        }
}

// The names in "[a, b, c]".
strings split_list(std::string const & text)
{
    strings r;
    size_t i = 0;
    for (;;)
    {
        size_t e = text.find(", ", i);
        r.push_back(text.substr(i, e == std::string::npos ? e : e - i));
        if (e == std::string::npos)
            return r;
        i = e + 2;
    }
}

template <typename T>
void check_listed(reference<T> const & ref, std::string const & message, std::string const & context)
{
    if (ref.simple)
    {
        size_t b = message.rfind('['), e = message.rfind(']');
        if (b == std::string::npos || e == std::string::npos || e < b)
            fail("the message does not list the names: ", pbt::quoted(message), context);
        strings got = split_list(message.substr(b + 1, e - b - 1)), want;
        for (auto const & [k, v] : ref.list)
            want.push_back(k);
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        if (got != want)
            fail("the message lists ", pbt::show(got), " instead of every name once: ", pbt::quoted(message), context);
    }
    else
        for (auto const & [k, v] : ref.list)
            if (!contains(message, k))
                fail("the message does not contain the name ", pbt::quoted(k), ": ", pbt::quoted(message), context);
}

template <typename T, typename list_t>
void run_type(source & s, reference<T> const & ref, char const * type)
{
    // The conversion map itself.
    if (sharg::enumeration_names<T>.size() != ref.map.size())
        fail("enumeration_names has ", sharg::enumeration_names<T>.size(), " entries instead of ", ref.map.size(), " for ", type);

    bool const wrong = s.chance(1, 3);
    unsigned const where = s.below(4); // option, list, positional option, positional list
    strings values;
    size_t const n = where == 1 || where == 3 ? 1 + s.below(5) : 1;
    for (size_t i = 0; i < n; ++i)
        values.push_back(s.pick(ref.list).first);
    std::string bad;
    if (wrong)
    {
        bad = near_miss(s, ref.list);
        if (ref.map.contains(bad))
            throw pbt::discard{};
        values[s.below(n)] = bad;
    }
    strings args;
    if (where < 2)
        for (auto const & v : values)
            for (auto const & t : written(s, v))
                args.push_back(t);
    else
    {
        args = {"--"};
        args.insert(args.end(), values.begin(), values.end());
    }
    std::string const context = std::string{"\ntype "} + type + (where == 0 ? ", option" : where == 1 ? ", list" : where == 2 ? ", positional option" : ", positional list") + ", args " + pbt::show(args);
    s.describe(context);

    // Default values that have a name.
    int const default_number = s.pick(ref.list).second;
    T scalar(static_cast<T>(default_number));
    list_t list;
    strings default_values;
    for (size_t k = s.below(4); k > 0; --k)
    {
        int v = s.pick(ref.list).second;
        list.push_back(static_cast<T>(v));
        default_values.push_back(std::to_string(v));
    }
    run_result r = observe(
        [&]
        {
            sharg::parser p = make_parser("app", args, s.chance(1, 2));
            switch (where)
            {
            case 0:
                p.add_option(scalar, sharg::config{.short_id = 'e', .long_id = "enum"});
                break;
            case 1:
                p.add_option(list, sharg::config{.short_id = 'e', .long_id = "enum"});
                break;
            case 2:
                p.add_positional_option(scalar, sharg::config{});
                break;
            default:
                p.add_positional_option(list, sharg::config{});
            }
            p.parse();
        });
    if (!wrong)
    {
        if (r.kind != oc::ok)
            fail("names are rejected: ", r.show(), context);
        std::vector<int> got, want;
        if (where == 0 || where == 2)
            got.push_back(number_of(scalar));
        else
            for (auto const & v : list)
                got.push_back(number_of<T>(v));
        for (auto const & v : values)
            want.push_back(ref.map.at(v));
        if (got != want)
        {
            std::string g;
            for (int x : got)
                g += std::to_string(x) + " ";
            fail("the value is ", g, context);
        }
    }
    else
    {
        if (r.kind != oc::user_input)
            fail("the text ", pbt::quoted(bad), ", which is no name, results in ", r.show(), context);
        if (!contains(r.what, bad))
            fail("the message does not contain the text ", pbt::quoted(bad), ": ", r.show(), context);
        check_listed(ref, r.what, context);
        // Values are only set if they could be converted.
        if ((where == 0 || where == 2) && number_of(scalar) != default_number)
            fail("the variable was changed by a text that is no name", context);
    }
    s.label(wrong ? "no name" : "name");

    // Printing.
    int const v = s.pick(ref.list).second;
    strings const candidates = ref.names_of(v);
    std::ostringstream o;
    T value(static_cast<T>(v));
    switch (s.below(3))
    {
    case 0:
        o << value;
        break;
    case 1:
        o << std::as_const(value);
        break;
    default:
        o << static_cast<T>(v);
    }
    if (std::find(candidates.begin(), candidates.end(), o.str()) == candidates.end())
        fail("printing shows ", pbt::quoted(o.str()), " which is none of the names ", pbt::show(candidates), "\ntype ", type);

    // The default on the help page can be given back.
    if (ref.simple && s.chance(1, 3))
    {
        bool const as_list = s.chance(1, 2);
        T d(static_cast<T>(v));
        list_t l;
        std::vector<int> want{};
        if (as_list)
            for (size_t k = 1 + s.below(3); k > 0; --k)
            {
                int x = s.pick(ref.list).second;
                want.push_back(x);
                l.push_back(static_cast<T>(x));
            }
        else
            want = {v};
        run_result h = observe(
            [&]
            {
                sharg::parser p = make_parser("app", {"--help"}, false);
                if (as_list)
                    p.add_option(l, sharg::config{.long_id = "enum"});
                else
                    p.add_option(d, sharg::config{.long_id = "enum"});
                p.parse();
            });
        std::string text = h.out;
        size_t b = text.find("Default:");
        if (b == std::string::npos)
            fail("the help page shows no default: ", pbt::quoted(text), "\ntype ", type);
        b += 8;
        // Up to the next empty line; breaks are spaces.
        size_t e = text.find("\n\n", b), e2 = text.find("\n    -", b);
        e = std::min(e, e2);
        std::string flat;
        for (char c : text.substr(b, e - b))
            if (c == '\n' || c == ' ')
            {
                if (!flat.empty() && flat.back() != ' ')
                    flat += ' ';
            }
            else
                flat += c;
        while (!flat.empty() && flat.back() == ' ')
            flat.pop_back();
        strings names{flat};
        if (as_list)
        {
            if (flat.size() < 2 || flat[0] != '[' || flat.back() != ']')
                fail("the default is ", pbt::quoted(flat), "\ntype ", type);
            names = split_list(flat.substr(1, flat.size() - 2));
        }
        std::vector<int> got;
        for (auto const & n : names)
        {
            if (!ref.map.contains(n))
                fail("the default ", pbt::quoted(flat), " contains a text that is no name\ntype ", type);
            got.push_back(ref.map.at(n));
        }
        if (got != want)
            fail("the default on the help page is ", pbt::quoted(flat), ", which denotes other values\ntype ", type);
        s.label("default on the help page");
    }

    // A validator that lists all or some values.
    if constexpr (std::is_enum_v<T>)
    {
        std::vector<T> allowed;
        bool const all = s.chance(1, 3);
        for (auto const & [k, x] : ref.list)
            if (all || s.chance(1, 2))
                allowed.push_back(static_cast<T>(x));
        if (!allowed.empty())
        {
            sharg::value_list_validator<T> validator = all ? sharg::value_list_validator{sharg::enumeration_names<T> | std::views::values} : sharg::value_list_validator<T>{allowed};
            std::string const given = s.pick(ref.list).first;
            bool const ok = std::find(allowed.begin(), allowed.end(), static_cast<T>(ref.map.at(given))) != allowed.end();
            if (may_be_separate(given))
            {
                T x{};
                run_result q = observe(
                    [&]
                    {
                        sharg::parser p = make_parser("app", {"--enum", given}, false);
                        p.add_option(x, sharg::config{.long_id = "enum", .validator = validator});
                        p.parse();
                    });
                if (q.kind != (ok ? oc::ok : oc::validation))
                    fail("with a value list the name ", pbt::quoted(given), " results in ", q.show(), "\ntype ", type);
            }
            std::string m = validator.get_help_page_message();
            if (ref.simple)
            {
                size_t b = m.rfind('['), e = m.rfind(']');
                if (b == std::string::npos || e == std::string::npos)
                    fail("the help message of the value list is ", pbt::quoted(m), "\ntype ", type);
                strings shown = split_list(m.substr(b + 1, e - b - 1));
                std::set<int> got, want;
                for (auto const & t : shown)
                {
                    if (!ref.map.contains(t))
                        fail("the help message of the value list contains ", pbt::quoted(t), ": ", pbt::quoted(m), "\ntype ", type);
                    got.insert(ref.map.at(t));
                }
                for (auto x : allowed)
                    want.insert(number_of(x));
                if (got != want)
                    fail("the help message of the value list shows other values: ", pbt::quoted(m), "\ntype ", type);
            }
            s.label("value list");
        }
    }
    s.nontrivial();
}

template <typename T, typename list_t = std::vector<T>>
void with(source & s, unsigned n, char const * type)
{
    static reference<T> const ref{verif_names::generate(n)};
    run_type<T, list_t>(s, ref, type);
}

void check(source & s)
{
    namespace v = verif_names;
    switch (s.below(13))
    {
    case 0:
        return with<v::scoped<0, int>::e>(s, 0, "friend, small");
    case 1:
        return with<v::special<1>::e>(s, 1, "specialisation");
    case 2:
        return with<v::scoped<2, unsigned char>::e, std::deque<v::scoped<2, unsigned char>::e>>(s, 2, "friend, unsigned char");
    case 3:
        return with<v::both>(s, 3, "function and specialisation");
    case 4:
        return with<v::scoped<4, long>::e, std::list<v::scoped<4, long>::e>>(s, 4, "friend, long");
    case 5:
        return with<v::number>(s, 5, "class");
    case 6:
        return with<v::throwing>(s, 6, "class with throwing constructor");
    case 7:
        return with<v::special<7>::e, std::list<v::special<7>::e>>(s, 7, "specialisation, large");
    case 8:
        return with<v::scoped<8, short>::e>(s, 8, "friend, short");
    case 9:
        return with<v::owning>(s, 9, "names are strings");
    case 10:
        return with<v::unscoped<10>::e>(s, 10, "unscoped");
    case 11:
        return with<v::scoped<11, signed char>::e>(s, 11, "friend, signed char");
    default:
    {
        static reference<std::errc> const ref{{{"no_error", 0},
                                               {"timed_out", static_cast<int>(std::errc::timed_out)},
                                               {"invalid_argument", static_cast<int>(std::errc::invalid_argument)},
                                               {"io_error", static_cast<int>(std::errc::io_error)}}};
        return run_type<std::errc, std::vector<std::errc>>(s, ref, "std::errc");
    }
    }
}

} // namespace

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C21",
                        .rule = "13 types with 1 to 150 names each (generated: prefixes of each other, several names per value, names with "
                                "spaces, quotes or dashes, empty names); every case converts names or one text that is no name and prints a "
                                "value, so all cases are non-trivial",
                        .check = check,
                        .quick_debug = 20000,
                        .quick_release = 80000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
