// C07: Value validators accept exactly the values they describe.
#include "model.hpp"

using namespace verif;

// ------------------------------------------------------------------------------------------------------ regular expressions

struct rx
{
    enum kind_t
    {
        chr,
        any,
        set,
        cls,   // \\d, \\w, \\s and their complements
        start, // ^
        finish, // $
        word,   // \\b, \\B
        look,   // (?=...), (?!...)
        cat,
        alt,
        rep
    } kind{chr};
    std::string chars; // chr: one character; set: members
    bool negated{false};
    unsigned lo{0}, hi{0}; // rep; hi = 99: unbounded
    unsigned form{0};
    std::vector<rx> sub;
};

static std::string const rx_alphabet = "abc01.-/ +\n_";

static bool asserts(rx const & r)
{
    return (r.kind >= rx::start && r.kind <= rx::look) || std::any_of(r.sub.begin(), r.sub.end(), asserts);
}

static rx random_rx(source & s, unsigned depth, bool star_ok)
{
    rx r;
    if (s.chance(1, 14))
    {
        r.kind = s.chance(1, 2) ? rx::start : rx::finish;
        return r;
    }
    if (s.chance(1, 30))
    {
        r.kind = depth == 0 || s.chance(1, 2) ? rx::word : rx::look;
        r.negated = s.chance(1, 3);
        if (r.kind == rx::look)
        {
            // The standard library takes the place of the assertion for the beginning of the text.
            r.sub.push_back(random_rx(s, depth - 1, false));
            if (asserts(r.sub[0]))
                r = rx{};
        }
        return r.kind == rx::chr ? rx{.kind = rx::any} : r;
    }
    switch (depth == 0 ? s.below(4) : s.below(8))
    {
    case 0:
    case 1:
        r.kind = rx::chr;
        r.chars = s.pick(rx_alphabet);
        return r;
    case 2:
        r.kind = rx::any;
        return r;
    case 3:
        r.negated = s.chance(1, 3);
        if (s.chance(1, 4))
        {
            r.kind = rx::cls;
            r.chars = s.pick_str({"d", "w", "s"});
            return r;
        }
        r.kind = rx::set;
        r.form = s.below(2);
        if (r.form == 1)
            r.chars = s.pick_str({"abc", "01", "ab"}); // written as a range
        else
            for (size_t i = 0, n = 1 + s.below(3); i < n; ++i)
                r.chars += s.pick("abc01./");
        return r;
    case 4:
    case 5:
        r.kind = rx::cat;
        for (size_t i = 0, n = s.below(4); i < n; ++i)
            r.sub.push_back(random_rx(s, depth - 1, star_ok));
        return r;
    case 6:
        r.kind = rx::alt;
        for (size_t i = 0, n = 2 + s.below(2); i < n; ++i)
            r.sub.push_back(random_rx(s, depth - 1, star_ok));
        return r;
    default:
        if (!star_ok)
            return random_rx(s, depth - 1, false);
        r.kind = rx::rep;
        r.form = s.below(4);
        r.lo = r.form == 1 ? 1 : r.form == 3 ? s.below(3) : 0;
        r.hi = r.form == 0 || r.form == 1 ? 99 : r.form == 2 ? 1 : r.lo + s.below(3);
        if (r.form == 3 && r.hi == 0)
            r.hi = 1;
        r.sub.push_back(random_rx(s, depth - 1, false));
        return r;
    }
}

static std::string print(rx const & r, bool grouped = false)
{
    auto esc = [](char c)
    {
        return std::string(std::strchr(".+-/*?()[]{}|^$\\", c) && c != '-' && c != '/' ? "\\" : "") + c;
    };
    std::string t;
    switch (r.kind)
    {
    case rx::chr:
        return esc(r.chars[0]);
    case rx::any:
        return ".";
    case rx::set:
        t = r.negated ? "[^" : "[";
        if (r.form == 1)
            return t + r.chars.front() + "-" + r.chars.back() + "]";
        return t + r.chars + "]";
    case rx::cls:
        return std::string{"\\"} + (r.negated ? static_cast<char>(std::toupper(r.chars[0])) : r.chars[0]);
    case rx::start:
        return "^";
    case rx::finish:
        return "$";
    case rx::word:
        return r.negated ? "\\B" : "\\b";
    case rx::look:
        return (r.negated ? "(?!" : "(?=") + print(r.sub[0]) + ")";
    case rx::cat:
        for (auto const & x : r.sub)
            t += x.kind == rx::alt ? "(" + print(x) + ")" : print(x);
        return grouped ? "(?:" + t + ")" : t;
    case rx::alt:
        for (size_t i = 0; i < r.sub.size(); ++i)
            t += (i ? "|" : "") + print(r.sub[i]);
        return grouped ? "(" + t + ")" : t;
    case rx::rep:
        t = r.sub[0].kind == rx::chr || r.sub[0].kind == rx::any || r.sub[0].kind == rx::set || r.sub[0].kind == rx::cls ? print(r.sub[0]) : "(" + print(r.sub[0]) + ")";
        if (r.form < 3)
            return t + "*+?"[r.form];
        return t + "{" + std::to_string(r.lo) + "," + std::to_string(r.hi) + "}";
    }
    return t;
}

// Positions at which a match may end if it starts at one of the given positions.
static std::set<size_t> ends(rx const & r, std::string const & t, std::set<size_t> const & from)
{
    std::set<size_t> out;
    switch (r.kind)
    {
    case rx::start:
        if (from.contains(0))
            out.insert(0);
        return out;
    case rx::finish:
        if (from.contains(t.size()))
            out.insert(t.size());
        return out;
    case rx::word:
        for (size_t i : from)
        {
            auto is_word = [&](size_t j) { return j < t.size() && (std::isalnum(static_cast<unsigned char>(t[j])) || t[j] == '_'); };
            if (((i > 0 && is_word(i - 1)) != is_word(i)) != r.negated)
                out.insert(i);
        }
        return out;
    case rx::look:
        for (size_t i : from)
            if (ends(r.sub[0], t, {i}).empty() == r.negated)
                out.insert(i);
        return out;
    case rx::cls:
        for (size_t i : from)
            if (i < t.size())
            {
                unsigned char const c = t[i];
                bool const in = r.chars == "d" ? std::isdigit(c) : r.chars == "w" ? std::isalnum(c) || c == '_' : std::isspace(c);
                if (in != r.negated)
                    out.insert(i + 1);
            }
        return out;
    case rx::chr:
    case rx::any:
    case rx::set:
        for (size_t i : from)
            if (i < t.size())
            {
                bool m = r.kind == rx::chr ? t[i] == r.chars[0]
                       : r.kind == rx::any ? t[i] != '\n' && t[i] != '\r'
                                           : (r.chars.find(t[i]) != std::string::npos) != r.negated;
                if (m)
                    out.insert(i + 1);
            }
        return out;
    case rx::cat:
        out = from;
        for (auto const & x : r.sub)
            out = ends(x, t, out);
        return out;
    case rx::alt:
        for (auto const & x : r.sub)
            out.merge(ends(x, t, from));
        return out;
    case rx::rep:
    {
        std::set<size_t> now = from;
        if (r.lo == 0)
            out = now;
        for (unsigned i = 1; i <= std::min<size_t>(r.hi, t.size() + 4) && !now.empty(); ++i)
        {
            now = ends(r.sub[0], t, now);
            if (i >= r.lo)
                out.insert(now.begin(), now.end());
        }
        return out;
    }
    }
    return out;
}

static bool matches(rx const & r, std::string const & t)
{
    return ends(r, t, {0}).contains(t.size());
}

static std::string sample(source & s, rx const & r)
{
    std::string t;
    switch (r.kind)
    {
    case rx::chr:
        return r.chars;
    case rx::any:
        return std::string(1, s.pick(rx_alphabet));
    case rx::set:
        if (!r.negated)
            return std::string(1, s.pick(r.chars));
        return std::string(1, s.pick("xyz "));
    case rx::cls:
        return r.negated ? "-" : r.chars == "d" ? "7" : r.chars == "w" ? s.pick_str({"a", "_", "0"}) : s.pick_str({" ", "\n", "\t"});
    case rx::start:
    case rx::finish:
        return s.chance(1, 3) ? "\n" : "";
    case rx::word:
        return "";
    case rx::look:
        return s.chance(1, 3) ? sample(s, r.sub[0]) : "";
    case rx::cat:
        for (auto const & x : r.sub)
            t += sample(s, x);
        return t;
    case rx::alt:
        return sample(s, s.pick(r.sub));
    case rx::rep:
        for (size_t i = 0, n = r.lo + s.below(std::min(r.hi - r.lo, 3u) + 1); i < n; ++i)
            t += sample(s, r.sub[0]);
        return t;
    }
    return t;
}

static std::string subject(source & s, rx const & r)
{
    std::string t = s.chance(5, 6) ? sample(s, r) : std::string{};
    if (s.chance(1, 3))
        switch (s.below(5))
        {
        case 0:
            t += s.pick(rx_alphabet);
            break;
        case 1:
            t.insert(0, 1, s.pick(rx_alphabet));
            break;
        case 2:
            if (!t.empty())
                t.erase(s.below(t.size()), 1);
            break;
        case 3:
            t.insert(s.below(t.size() + 1), 1, s.pick("\nabcx./"));
            break;
        default:
            if (!t.empty())
                t[s.below(t.size())] = s.pick("abcx01./ABC");
        }
    if (t.size() > 14)
        t.resize(14);
    return t;
}

// --------------------------------------------------------------------------------------------------------------- oracles

template <typename T>
static std::string txt(T const & v)
{
    if constexpr (std::floating_point<T>)
    {
        char b[64];
        std::snprintf(b, sizeof b, "%.20Lg", static_cast<long double>(v));
        return b;
    }
    else if constexpr (std::same_as<T, bool>)
        return v ? "true" : "false";
    else if constexpr (std::integral<T>)
        return std::to_string(v);
    else if constexpr (std::is_enum_v<T>)
        return canon(v);
    else
        return pbt::quoted(std::string{v});
}

template <typename T>
static std::string txt(std::vector<T> const & v)
{
    std::string r = "[";
    for (T x : v)
        r += txt<T>(x) + " ";
    return r + "]";
}

// Exact comparison of numbers of any types (long double represents all of them).
static long double num(auto v)
{
    return static_cast<long double>(v);
}

template <typename T>
static T number_near(source & s, std::vector<long double> const & anchors)
{
    long double v;
    switch (s.below(6))
    {
    case 0:
        v = s.range(-5, 20);
        break;
    case 1:
        v = std::numeric_limits<T>::max();
        break;
    case 2:
        v = std::numeric_limits<T>::lowest();
        break;
    default:
        v = anchors.empty() ? s.range(-3, 3) : anchors[s.below(anchors.size())];
        switch (s.below(7))
        {
        case 0:
            v += 1;
            break;
        case 1:
            v -= 1;
            break;
        case 2:
            v += 0.5L;
            break;
        case 3:
            if constexpr (std::floating_point<T>)
                v = std::nextafter(static_cast<T>(v), s.chance(1, 2) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity());
            break;
        case 4:
            v += static_cast<long double>(1ull << 32) * (s.chance(1, 2) ? 1 : -1);
            break;
        default:
            break;
        }
    }
    if constexpr (std::floating_point<T>)
    {
        if (s.chance(1, 20))
            return s.chance(1, 2) ? std::numeric_limits<T>::infinity() : s.chance(1, 2) ? std::numeric_limits<T>::quiet_NaN() : -T{};
        return static_cast<T>(v);
    }
    else
    {
        v = std::trunc(v);
        if (v > num(std::numeric_limits<T>::max()))
            return std::numeric_limits<T>::max();
        if (v < num(std::numeric_limits<T>::lowest()))
            return std::numeric_limits<T>::lowest();
        return static_cast<T>(v);
    }
}

template <typename V, typename T>
static void expect(source & s, V const & validator, T const & value, bool want, std::string const & what)
{
    T const before = value;
    run_result r = observe(
        [&]
        {
            validator(value);
        });
    if (want && r.kind != oc::ok)
        fail(what, " does not accept ", txt(value), ": ", r.show());
    if (!want && r.kind != oc::validation)
        fail(what, " does not reject ", txt(value), " with a validation_error: ", r.show());
    if (!want && r.what.empty())
        fail(what, ": the message is empty");
    s.label(std::string{want ? "accepted" : "rejected"});
    s.nontrivial();
}

template <typename T, typename V>
static void range_direct(source & s)
{
    T lo = number_near<T>(s, {0, 10, -10, 100}), hi = number_near<T>(s, {num(lo)});
    if (s.chance(7, 8) && lo > hi)
        std::swap(lo, hi);
    if (lo != lo || hi != hi)
        throw pbt::discard{};
    sharg::arithmetic_range_validator<T> const v{lo, hi};
    auto ok = [&](V x)
    {
        return num(x) >= num(lo) && num(x) <= num(hi);
    };
    std::string const what = "range [" + txt(lo) + "," + txt(hi) + "]";
    s.describe(what);
    std::vector<V> xs;
    for (size_t i = 0, n = 1 + s.below(5); i < n; ++i)
        xs.push_back(number_near<V>(s, {num(lo), num(hi)}));
    for (V x : xs)
        expect(s, v, x, ok(x), what);
    if (s.chance(1, 8))
        xs.clear();
    if (s.chance(1, 2))
        std::erase_if(xs, [&](V x) { return !ok(x); });
    expect(s, v, xs, std::all_of(xs.begin(), xs.end(), ok), what);
}

template <typename T, typename V>
static void list_direct(source & s)
{
    std::vector<T> listed;
    for (size_t i = 0, n = s.chance(1, 25) ? s.below(200) : s.below(5); i < n; ++i)
        listed.push_back(number_near<T>(s, {0, 1, 2, 1e9, 4503599627370497.0L, 9007199254740993.0L, 4611686018427387905.0L}));
    auto ok = [&](V x)
    {
        return std::any_of(listed.begin(), listed.end(), [&](T l) { return num(x) == num(l); });
    };
    std::string const what = "value list " + txt(listed);
    s.describe(what);
    sharg::value_list_validator<T> const v{listed};
    std::vector<long double> anchors;
    for (T l : listed)
        anchors.push_back(num(l));
    std::vector<V> xs;
    for (size_t i = 0, n = 1 + s.below(5); i < n; ++i)
    {
        V const x = number_near<V>(s, anchors);
        // Comparing integers with floating point numbers: exactly representable ones only.
        if constexpr (std::floating_point<T> != std::floating_point<V>)
        {
            if (std::abs(num(x)) > 16777216 && x == x)
                continue;
        }
        xs.push_back(x);
    }
    for (V x : xs)
        expect(s, v, x, ok(x), what);
    expect(s, v, xs, std::all_of(xs.begin(), xs.end(), ok), what);
}

static void text_list_direct(source & s)
{
    strings listed;
    for (size_t i = 0, n = s.chance(1, 25) ? s.below(200) : s.below(5); i < n; ++i)
        listed.push_back(random_text(s));
    auto text = [&]
    {
        if (listed.empty() || s.chance(1, 4))
            return random_text(s);
        std::string t = s.pick(listed);
        if (s.chance(1, 3))
            t = t.empty() || s.chance(1, 2) ? t + s.pick("a \n.") : t.substr(s.below(2), t.size() - 1);
        return t;
    };
    auto ok = [&](std::string const & x)
    {
        return std::find(listed.begin(), listed.end(), x) != listed.end();
    };
    std::string const what = "value list " + pbt::show(listed);
    s.describe(what);
    strings xs;
    for (size_t i = 0, n = 1 + s.below(4); i < n; ++i)
        xs.push_back(text());
    if (s.chance(1, 2))
    {
        sharg::value_list_validator<std::string> const v{listed};
        for (auto const & x : xs)
            expect(s, v, x, ok(x), what);
        expect(s, v, xs, std::all_of(xs.begin(), xs.end(), ok), what);
    }
    else
    {
        std::vector<std::filesystem::path> p(listed.begin(), listed.end()), ys(xs.begin(), xs.end());
        sharg::value_list_validator<std::filesystem::path> const v{p};
        // Paths are compared as paths.
        auto path_ok = [&](std::filesystem::path const & x)
        {
            return std::find(p.begin(), p.end(), x) != p.end();
        };
        for (auto const & x : ys)
            expect(s, v, x, path_ok(x), what);
        expect(s, v, ys, std::all_of(ys.begin(), ys.end(), path_ok), what);
    }
    if (s.chance(1, 3)) // values given as single arguments
    {
        sharg::value_list_validator const w{"abc", "x y", ""};
        for (auto const & x : xs)
            expect(s, w, x, x == "abc" || x == "x y" || x.empty(), "value list abc, x y, (empty)");
        expect(s, w, std::string{"x y"}, true, "value list abc, x y, (empty)");
        sharg::value_list_validator const e{fruit::cherry, fruit::kiwi};
        for (int i = 0; i < 4; ++i)
            expect(s, e, static_cast<fruit>(i), i >= 2, "value list cherry, kiwi");
        std::vector<fruit> some;
        for (size_t i = 0, n = s.below(4); i < n; ++i)
            some.push_back(static_cast<fruit>(s.below(4)));
        expect(s, e, some, std::all_of(some.begin(), some.end(), [](fruit f) { return static_cast<int>(f) >= 2; }), "value list cherry, kiwi");
    }
}

static std::string pattern_of(source & s, rx const & r)
{
    // Without parentheses, "a|b" is one pattern: what is put around it would belong to one of its alternatives.
    if (s.chance(1, 2))
        return print(r);
    std::string p = print(r, true);
    if (s.chance(1, 5))
        p = "^" + p;
    if (s.chance(1, 5))
        p += "$";
    return p;
}

static void regex_direct(source & s)
{
    rx const r = random_rx(s, 3, true);
    std::string const p = pattern_of(s, r);
    sharg::regex_validator const v{p};
    std::string const what = "pattern " + pbt::quoted(p);
    s.describe(what);
    strings xs;
    for (size_t i = 0, n = 1 + s.below(4); i < n; ++i)
    {
        xs.push_back(subject(s, r));
        if (s.chance(1, 12)) // values of a program may contain what no argument can
            xs.back().insert(s.below(xs.back().size() + 1), s.chance(1, 2) ? std::string(1, '\0') : std::string("\0a", 2));
    }
    bool all = true;
    for (auto const & x : xs)
    {
        s.describe(" " + pbt::quoted(x));
        expect(s, v, x, matches(r, x), what);
        all &= matches(r, x);
    }
    expect(s, v, xs, all, what);
    if (s.chance(1, 2)) // paths
    {
        std::filesystem::path const one{xs[0]};
        expect(s, v, one, matches(r, xs[0]), what + " (path)");
        std::vector<std::filesystem::path> ys(xs.begin(), xs.end());
        expect(s, v, ys, all, what + " (list of paths)");
    }
}

static void chains(source & s)
{
    if (s.chance(1, 2))
    {
        int lo = static_cast<int>(s.range(-5, 5)), hi = lo + static_cast<int>(s.range(0, 8)), lo2 = static_cast<int>(s.range(-5, 5)),
            hi2 = lo2 + static_cast<int>(s.range(0, 8));
        std::vector<int> listed;
        for (size_t i = 0, n = 1 + s.below(6); i < n; ++i)
            listed.push_back(static_cast<int>(s.range(-6, 12)));
        sharg::arithmetic_range_validator<int> a{lo, hi};
        sharg::arithmetic_range_validator<int64_t> b{lo2, hi2};
        sharg::value_list_validator<int> c{listed};
        auto in = [&](int v)
        {
            return std::find(listed.begin(), listed.end(), v) != listed.end();
        };
        std::string const what = "chain of [" + txt(lo) + "," + txt(hi) + "], [" + txt(lo2) + "," + txt(hi2) + "] and " + txt(listed);
        s.describe(what);
        std::vector<int> xs;
        for (size_t i = 0, n = 1 + s.below(4); i < n; ++i)
            xs.push_back(static_cast<int>(s.range(-7, 14)));
        auto run = [&](auto const & chain, auto ok)
        {
            for (int x : xs)
                expect(s, chain, x, ok(x), what);
            expect(s, chain, xs, std::all_of(xs.begin(), xs.end(), ok), what);
            std::vector<int> good = xs;
            std::erase_if(good, [&](int x) { return !ok(x); });
            expect(s, chain, good, true, what);
        };
        auto in_a = [&](int x) { return lo <= x && x <= hi; };
        auto in_b = [&](int x) { return lo2 <= x && x <= hi2; };
        switch (s.below(4))
        {
        case 0:
            return run(a | b, [&](int x) { return in_a(x) && in_b(x); });
        case 1:
            return run(a | c, [&](int x) { return in_a(x) && in(x); });
        case 2:
            return run(c | b, [&](int x) { return in(x) && in_b(x); });
        default:
            return run(a | b | c, [&](int x) { return in_a(x) && in_b(x) && in(x); });
        }
    }
    rx const r1 = random_rx(s, 2, true), r2 = random_rx(s, 2, true);
    strings listed{"abc", "", "a", "01"};
    for (size_t i = 0, n = s.below(3); i < n; ++i)
        listed.push_back(sample(s, r1));
    sharg::regex_validator const v1{pattern_of(s, r1)}, v2{pattern_of(s, r2)};
    sharg::value_list_validator<std::string> const l{listed};
    std::string const what = "chain of " + pbt::quoted(print(r1)) + ", " + pbt::quoted(print(r2)) + " and " + pbt::show(listed);
    s.describe(what);
    strings xs;
    for (size_t i = 0, n = 1 + s.below(4); i < n; ++i)
        xs.push_back(s.chance(1, 2) ? subject(s, s.chance(1, 2) ? r1 : r2) : s.pick(listed));
    auto in = [&](std::string const & x)
    {
        return std::find(listed.begin(), listed.end(), x) != listed.end();
    };
    auto run = [&](auto const & chain, auto ok)
    {
        for (auto const & x : xs)
            expect(s, chain, x, ok(x), what);
        expect(s, chain, xs, std::all_of(xs.begin(), xs.end(), ok), what);
    };
    switch (s.below(3))
    {
    case 0:
        return run(v1 | v2, [&](std::string const & x) { return matches(r1, x) && matches(r2, x); });
    case 1:
        return run(l | v2, [&](std::string const & x) { return in(x) && matches(r2, x); });
    default:
        return run(v1 | l | v2, [&](std::string const & x) { return matches(r1, x) && in(x) && matches(r2, x); });
    }
}

// ------------------------------------------------------------------------------------------------------------- in a parser

// given: texts on the command line; values: their values; initial: the default (usually not valid)
template <typename T, typename V, typename E>
static void in_parser(source & s, V const & validator, strings const & given, std::vector<E> const & values, T const & initial, bool want)
{
    bool const positional = s.chance(1, 3), use = positional || s.chance(2, 3);
    char const id = s.chance(2, 3) ? 'o' : '\0';
    std::string const long_id = !id || s.chance(2, 3) ? "opt" : "";
    strings args;
    if (!positional && use)
        for (auto const & t : given)
        {
            std::string name = id && (long_id.empty() || s.chance(1, 2)) ? "-o" : "--opt";
            if (t.empty() || (t != "--" && !t.starts_with("-o") && !t.starts_with("--opt") && s.chance(1, 2)))
            {
                args.push_back(name);
                args.push_back(t);
            }
            else
                args.push_back(name + "=" + t);
        }
    if (s.chance(1, 2) || args.empty())
        args.insert(args.begin(), "--flag");
    if (positional)
    {
        args.push_back("--");
        args.insert(args.end(), given.begin(), given.end());
    }
    s.describe(" args: " + pbt::show(args) + " initially " + txt(initial));
    T value = initial;
    bool flag = false;
    run_result r = observe(
        [&]
        {
            sharg::parser p = make_parser("app", args, s.chance(1, 2));
            if (positional)
                p.add_positional_option(value, sharg::config{.validator = validator});
            else
                p.add_option(value, sharg::config{.short_id = id, .long_id = long_id, .validator = validator});
            p.add_flag(flag, sharg::config{.short_id = 'f', .long_id = "flag"});
            p.parse();
        });
    T expected = initial;
    if (use)
    {
        if constexpr (std::same_as<T, E>)
            expected = values[0];
        else
            expected = T(values.begin(), values.end());
    }
    if (!use)
    {
        if (r.kind != oc::ok)
            fail("the option is not given (its default is not to be validated), but parse() ended with ", r.show());
        s.label("not given");
    }
    else if (want)
    {
        if (r.kind != oc::ok)
            fail("the validator accepts the value, but parse() ended with ", r.show());
        s.label(positional ? "positional accepted" : "option accepted");
    }
    else
    {
        if (r.kind != oc::validation)
            fail("the validator rejects the value, but parse() ended with ", r.show());
        run_result direct = observe([&] { validator(expected); });
        if (direct.kind != oc::validation || !contains(r.what, direct.what))
            fail("the reason ", pbt::quoted(direct.what), " is not part of the message ", pbt::quoted(r.what));
        if (!positional)
        {
            if (id && !contains(r.what, "-o"))
                fail("the message ", pbt::quoted(r.what), " does not name -o");
            if (!long_id.empty() && !contains(r.what, "--opt"))
                fail("the message ", pbt::quoted(r.what), " does not name --opt");
        }
        s.label(positional ? "positional rejected" : "option rejected");
    }
    if (!(value == expected))
        fail("the value is ", txt(value), " instead of ", txt(expected));
    s.nontrivial();
}

static void parser_cases(source & s)
{
    switch (s.below(6))
    {
    case 0: // int
    case 1: // list of int
    {
        int lo = static_cast<int>(s.range(-20, 20)), hi = lo + static_cast<int>(s.range(0, 10));
        std::vector<int> listed;
        for (size_t i = 0, n = 1 + s.below(4); i < n; ++i)
            listed.push_back(static_cast<int>(s.range(lo - 1, hi + 1)));
        bool const list = s.chance(1, 2);
        std::vector<int> values;
        strings given;
        for (size_t i = 0, n = list ? 1 + s.below(4) : 1; i < n; ++i)
        {
            values.push_back(s.chance(1, 2) ? s.pick(listed) : static_cast<int>(s.range(lo - 2, hi + 2)));
            given.push_back(std::to_string(values.back()));
        }
        int const initial = s.chance(1, 2) ? hi + 5 : lo;
        auto in_range = [&](int x) { return lo <= x && x <= hi; };
        auto in_list = [&](int x) { return std::find(listed.begin(), listed.end(), x) != listed.end(); };
        auto all = [&](auto f) { return std::all_of(values.begin(), values.end(), f); };
        sharg::arithmetic_range_validator<int> const a{lo, hi};
        sharg::value_list_validator<int> const b{listed};
        s.describe("range [" + txt(lo) + "," + txt(hi) + "], values " + txt(listed));
        unsigned const k = s.below(3);
        auto run = [&](auto const & v, auto ok)
        {
            if (list)
                in_parser<std::vector<int>>(s, v, given, values, std::vector<int>(s.below(3), initial), all(ok));
            else
                in_parser<int>(s, v, given, values, initial, all(ok));
        };
        if (k == 0)
            return run(a, in_range);
        if (k == 1)
            return run(b, in_list);
        return run(a | b, [&](int x) { return in_range(x) && in_list(x); });
    }
    case 2: // an integral range for a floating point option and for a larger integer
    {
        int lo = static_cast<int>(s.range(-20, 20)), hi = lo + static_cast<int>(s.range(0, 10));
        sharg::arithmetic_range_validator const v{lo, hi};
        s.describe("range [" + txt(lo) + "," + txt(hi) + "]");
        if (s.chance(1, 2))
        {
            double const x = static_cast<double>(s.range(lo * 4 - 6, hi * 4 + 6)) / 4;
            char b[64];
            std::snprintf(b, sizeof b, "%.2f", x);
            return in_parser<double>(s, v, {b}, std::vector<double>{x}, hi + 0.5, lo <= x && x <= hi);
        }
        int64_t x = s.range(lo - 2, hi + 2);
        if (s.chance(1, 3))
            x += (1ll << 32) * s.range(-2, 2);
        return in_parser<int64_t>(s, v, {std::to_string(x)}, std::vector<int64_t>{x}, 1ll << 32, lo <= x && x <= hi);
    }
    case 3: // a value list of ints for a floating point option and for a larger integer
    {
        std::vector<int> listed;
        for (size_t i = 0, n = 1 + s.below(4); i < n; ++i)
            listed.push_back(static_cast<int>(s.range(-3, 3)));
        sharg::value_list_validator const v{listed};
        s.describe("values " + txt(listed));
        if (s.chance(1, 2))
        {
            double const x = static_cast<double>(s.range(-14, 14)) / 4;
            char b[64];
            std::snprintf(b, sizeof b, "%.2f", x);
            return in_parser<double>(s, v, {b}, std::vector<double>{x}, 0.5, std::find(listed.begin(), listed.end(), x) != listed.end());
        }
        int64_t x = s.range(-4, 4);
        if (s.chance(1, 3))
            x += (1ll << 32) * s.range(-2, 2);
        return in_parser<int64_t>(s, v, {std::to_string(x)}, std::vector<int64_t>{x}, 77, std::find(listed.begin(), listed.end(), x) != listed.end());
    }
    case 4: // strings
    {
        rx const r = random_rx(s, 2, true);
        std::string const p = pattern_of(s, r);
        sharg::regex_validator const v{p};
        s.describe("pattern " + pbt::quoted(p));
        strings given;
        bool const list = s.chance(1, 2);
        bool all = true;
        for (size_t i = 0, n = list ? 1 + s.below(3) : 1; i < n; ++i)
        {
            given.push_back(subject(s, r));
            all &= matches(r, given.back());
        }
        if (list)
            return in_parser<strings>(s, v, given, given, strings(s.below(3), "\n"), all);
        return in_parser<std::string>(s, v, given, given, "\n", all);
    }
    default: // paths
    {
        rx const r = random_rx(s, 2, true);
        std::string const p = pattern_of(s, r);
        sharg::regex_validator const v{p};
        s.describe("pattern " + pbt::quoted(p) + " for paths");
        std::string const t = subject(s, r);
        return in_parser<std::filesystem::path>(s, v, {t}, std::vector<std::filesystem::path>{t}, std::filesystem::path{"\n"}, matches(r, t));
    }
    }
}

static void check(source & s)
{
    switch (s.below(16))
    {
    case 0:
        return range_direct<int, int>(s);
    case 1:
        return range_direct<double, double>(s);
    case 2:
        return range_direct<uint8_t, int64_t>(s);
    case 3:
        return range_direct<int, double>(s);
    case 4:
        return range_direct<int64_t, uint64_t>(s);
    case 5:
        return range_direct<double, int64_t>(s);
    case 6:
        return list_direct<int, int>(s);
    case 7:
        return list_direct<double, double>(s);
    case 8:
        switch (s.below(6))
        {
        case 0:
            return list_direct<int64_t, uint64_t>(s);
        case 1:
            return list_direct<uint64_t, int64_t>(s);
        case 2:
            return list_direct<uint8_t, int>(s);
        case 3:
            return list_direct<int, double>(s);
        default:
            return list_direct<int, int64_t>(s);
        }
    case 9:
        return text_list_direct(s);
    case 10:
    case 11:
        return regex_direct(s);
    case 12:
        return chains(s);
    default:
        return parser_cases(s);
    }
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C07",
                        .rule = "random intervals, value lists, regular expressions (generated from syntax trees with a reference "
                                "matcher) and chains with values at and next to their boundaries, called directly and through a "
                                "parser; non-trivial: all cases",
                        .check = check,
                        .quick_debug = 30000,
                        .quick_release = 200000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
