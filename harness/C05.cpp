// C05: List options collect all values in command line order.
#include "mistakes.hpp"

using namespace verif;

// The number of the first positional argument of a positional option.
static size_t first_number(command_line const & c, size_t p)
{
    size_t n = 0;
    for (size_t i = 0; i < p; ++i)
        n += c.pos_values[i].size();
    return n;
}

// Lists in other containers than std::vector.
template <typename C, typename V>
static void container(source & s, std::vector<std::string> const & pool, V const & validator, auto ok, std::string const & what)
{
    using T = typename C::value_type;
    auto value_of = [](std::string const & t) -> T
    {
        if constexpr (std::is_arithmetic_v<T>)
            return static_cast<T>(std::stod(t));
        else
            return T{t};
    };
    bool const positional = s.chance(1, 2), use = s.chance(5, 6);
    strings args, rest;
    C want_opt, want_pos, initial;
    for (size_t i = 0, n = s.below(4); i < n; ++i)
        initial.push_back(value_of(s.pick(pool)));
    want_opt = want_pos = initial;
    bool valid = true, flag_given = false;
    if (use)
    {
        want_opt = {};
        for (size_t i = 0, n = 1 + (s.chance(1, 150) ? s.below(5000) : s.few(5)); i < n; ++i)
        {
            std::string const v = s.pick(pool);
            bool const separate = v.empty() || s.chance(1, 2);
            switch (s.below(2))
            {
            case 0:
                args.push_back(separate ? "-o" : v[0] == '=' || s.chance(1, 2) ? "-o=" + v : "-o" + v);
                break;
            default:
                args.push_back(separate ? "--opt" : "--opt=" + v);
            }
            if (separate)
                args.push_back(v);
            if (!flag_given && s.chance(1, 6))
            {
                args.push_back("--some-flag");
                flag_given = true;
            }
            want_opt.push_back(value_of(v));
            valid = valid && ok(v);
        }
    }
    if (positional)
    {
        want_pos = {};
        args.push_back("--");
        for (size_t i = 0, n = 1 + (s.chance(1, 150) ? s.below(5000) : s.few(4)); i < n; ++i)
        {
            args.push_back(s.pick(pool));
            want_pos.push_back(value_of(args.back()));
            valid = valid && ok(args.back());
        }
    }
    if (args.empty()) // would show the short help
        args.push_back("--some-flag");
    s.describe(what + " args: " + pbt::show(args));
    C opt = initial, pos = initial;
    bool flag = false;
    run_result r = observe(
        [&]
        {
            sharg::parser p = make_parser("app", args, s.chance(1, 2));
            p.add_option(opt, sharg::config{.short_id = 'o', .long_id = "opt", .validator = validator});
            p.add_flag(flag, sharg::config{.long_id = "some-flag"});
            if (positional)
                p.add_positional_option(pos, sharg::config{.validator = validator});
            p.parse();
        });
    if (r.kind != (valid ? oc::ok : oc::validation))
        fail("parse() should have ended with ", name(valid ? oc::ok : oc::validation), " but it ended with ", r.show());
    if (valid && (opt != want_opt || pos != want_pos))
        fail("wrong values: ", opt.size(), " and ", pos.size(), " elements instead of ", want_opt.size(), " and ", want_pos.size(),
             " (or different ones)");
    s.label("other containers");
    s.nontrivial(use || positional);
}

static void containers(source & s)
{
    static strings const texts{"a", "", "b c", "-x", "--opt", "ab", "=", "aa", "9"}, numbers{"0", "1", "-5", "9", "10", "2147483647"},
        decimals{"0", "0.5", "-5", "1e3", "9"};
    auto any = [](std::string const &) { return true; };
    auto small = [](std::string const & t) { return std::stod(t) >= -5 && std::stod(t) <= 9; };
    auto listed = [](std::string const & t) { return t != "b c" && t != "9"; };
    strings const some{"a", "", "-x", "--opt", "ab", "=", "aa"};
    strings plain = texts; // texts that are no identifiers are possible in separate form
    std::erase(plain, "--opt");
    std::erase(plain, "-x");
    switch (s.below(8))
    {
    case 0:
        return container<std::deque<std::string>>(s, plain, dyn_validator{}, any, "deque of strings");
    case 1:
        return container<std::list<int>>(s, numbers, dyn_validator{}, any, "list of ints");
    case 2:
        return container<std::deque<double>>(s, decimals, sharg::arithmetic_range_validator{-5.0, 9.0}, small, "deque of doubles in a range");
    case 3:
        return container<std::list<std::string>>(s, plain, sharg::value_list_validator{some}, listed, "list of listed strings");
    case 4:
        return container<std::list<int>>(s, numbers, sharg::arithmetic_range_validator{-5, 9}, small, "list of ints in a range");
    case 5:
        return container<std::deque<std::filesystem::path>>(s, plain, sharg::regex_validator{"[^b9]*|[^c9]*"},
                                                            [](std::string const & t) { return t != "b c" && t != "9"; },
                                                            "deque of paths with a pattern");
    case 6:
        return container<std::list<std::string>>(s, plain, sharg::regex_validator{"a*"},
                                                 [](std::string const & t) { return t.find_first_not_of('a') == std::string::npos; },
                                                 "list of strings with a pattern");
    default:
        return container<std::deque<int>>(s, numbers, sharg::arithmetic_range_validator{-5, 9} | sharg::value_list_validator{0, 1, 9, 10},
                                          [](std::string const & t) { return t == "0" || t == "1" || t == "9"; },
                                          "deque of ints with two validators");
    }
}

static void check(source & s)
{
    if (s.chance(1, 8))
        return containers(s);
    spec sp;
    id_pool ids;
    size_t lists = 1 + s.below(3), others = s.below(4);
    for (size_t i = 0; i < lists; ++i)
    {
        decl d;
        d.list = true;
        if (s.chance(4, 5))
            d.l = ids.long_id(s);
        if (d.l.empty() || s.chance(4, 5))
            d.s = ids.short_id(s);
        if (d.l.empty() && !d.s)
            throw pbt::discard{};
        d.type = random_type(s, true);
        d.initial_texts = random_initial(s, d.type, true);
        d.required = s.chance(1, 6);
        sp.opts.push_back(std::move(d));
    }
    for (size_t i = 0; i < others; ++i)
        sp.opts.push_back(s.chance(1, 2) ? random_flag(s, ids) : random_option(s, ids, false));
    s.shuffle(sp.opts);
    size_t n_pos = s.below(3);
    bool const pos_list = s.chance(2, 3);
    for (size_t i = 0; i < n_pos + pos_list; ++i)
    {
        decl d;
        d.list = i == n_pos;
        d.type = random_type(s, d.list);
        d.initial_texts = random_initial(s, d.type, d.list);
        sp.pos.push_back(std::move(d));
    }
    sp.use_argv = s.chance(1, 2);
    sp.reset();

    command_line c = random_line(s, sp, {.max_list = static_cast<unsigned>(s.chance(1, 8) ? 60 : 6), .use_num = 2, .use_den = 3});

    // The validators record what they are given.
    std::vector<std::vector<strings>> seen_opts(sp.opts.size()), seen_pos(sp.pos.size());
    int reject_opt = -1, reject_pos = -1;
    std::string bad;

    unsigned const mode = s.below(4); // 0, 1: valid, 2: an element that is no value of the type, 3: rejected
    std::vector<std::pair<bool, int>> given; // list options (true) and positional lists on the command line
    for (size_t i = 0; i < sp.opts.size(); ++i)
        for (auto const & it : c.items)
            if (it.option == static_cast<int>(i) && sp.opts[i].list)
            {
                given.emplace_back(true, i);
                break;
            }
    if (pos_list)
        given.emplace_back(false, n_pos);

    if (mode >= 2 && given.empty())
        throw pbt::discard{};
    std::pair<bool, int> victim{};
    if (mode >= 2)
        victim = s.pick(given);
    std::string broken;
    if (mode == 2)
    {
        ty const t = victim.first ? sp.opts[victim.second].type : sp.pos[victim.second].type;
        broken = invalid_text(s, t);
        if (broken.empty())
            throw pbt::discard{};
        std::vector<item *> occurrences;
        for (auto * v : {&c.items, &c.behind})
            for (auto & it : *v)
                if (victim.first ? it.option == victim.second : it.positional >= static_cast<int>(first_number(c, victim.second)))
                    occurrences.push_back(&it);
        item & it = *occurrences[s.below(occurrences.size())];
        if (victim.first)
        {
            item o = option_item(s, sp, victim.second, {broken, ""});
            if (o.tokens.empty())
                throw pbt::discard{};
            it = o;
        }
        else
        {
            if (!plain_positional_ok(broken) && &it >= c.items.data() && &it < c.items.data() + c.items.size())
                throw pbt::discard{};
            it.tokens = {broken};
        }
        c.assemble();
    }
    else if (mode == 3)
    {
        bad = s.pick(victim.first ? c.opt_values[victim.second] : c.pos_values[victim.second]);
        (victim.first ? reject_opt : reject_pos) = victim.second;
    }
    for (size_t i = 0; i < sp.opts.size(); ++i)
        if (!sp.opts[i].flag)
            sp.opts[i].validator.check = [&, i](strings const & v)
            {
                seen_opts[i].push_back(v);
                if (static_cast<int>(i) == reject_opt && std::find(v.begin(), v.end(), bad) != v.end())
                    throw sharg::validation_error{"BAD ELEMENT"};
            };
    for (size_t i = 0; i < sp.pos.size(); ++i)
        sp.pos[i].validator.check = [&, i](strings const & v)
        {
            seen_pos[i].push_back(v);
            if (static_cast<int>(i) == reject_pos && std::find(v.begin(), v.end(), bad) != v.end())
                throw sharg::validation_error{"BAD ELEMENT"};
        };

    s.describe(sp.show() + " args: " + pbt::show(c.args) + (mode == 2 ? " with the invalid " + pbt::quoted(broken) : "")
               + (mode == 3 ? " with the rejected " + pbt::quoted(bad) : ""));
    sp.reset();
    run_result r = observe(
        [&]
        {
            sharg::parser p = make_parser(sp.app, c.args, sp.use_argv);
            sp.declare(p);
            p.parse();
        });
    if (mode == 2)
    {
        if (r.kind != oc::user_input)
            fail("an element of a list is invalid, but parse() ended with ", r.show());
        if (!contains(r.what, broken))
            fail("the message ", pbt::quoted(r.what), " does not contain the invalid element");
    }
    else if (mode == 3)
    {
        if (r.kind != oc::validation)
            fail("an element of a list is rejected by its validator, but parse() ended with ", r.show());
        if (!contains(r.what, "BAD ELEMENT"))
            fail("the message ", pbt::quoted(r.what), " does not contain the reason");
    }
    else
    {
        if (r.kind != oc::ok)
            fail("parse() did not succeed but ended with ", r.show());
        if (std::string d = compare(sp, c); !d.empty())
            fail("wrong values: ", d);
        for (size_t i = 0; i < sp.opts.size(); ++i)
        {
            if (sp.opts[i].flag)
                continue;
            bool const used = std::any_of(c.items.begin(), c.items.end(), [&](item const & it) { return it.option == static_cast<int>(i); });
            if (!used && !seen_opts[i].empty())
                fail("the validator of ", sp.opts[i].show(), " was called although the option was not given");
            if (used && (seen_opts[i].empty() || seen_opts[i].back() != c.opt_values[i]))
                fail("the validator of ", sp.opts[i].show(), " was not given the whole list");
        }
    }

    size_t elements = 0;
    bool mixed = false;
    std::map<int, std::set<std::string>> forms;
    for (auto const & it : c.items)
        if (it.option >= 0 && sp.opts[it.option].list)
        {
            ++elements;
            forms[it.option].insert(it.id);
        }
    for (auto const & [o, f] : forms)
        mixed |= f.size() > 1;
    if (pos_list)
        elements += c.pos_values[n_pos].size();
    s.nontrivial(elements >= 2);
    s.label(mode == 2 ? "invalid element" : mode == 3 ? "rejected element" : "valid");
    if (mixed)
        s.label("short and long identifier mixed");
    if (pos_list)
        s.label("positional list");
    s.label("elements " + std::to_string(elements < 10 ? elements : elements < 100 ? elements / 10 * 10 : 100));
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C05",
                        .rule = "one to three list options, others and a positional list of random element types, defaults and notations "
                                "with 0 to 60 elements, partly with one invalid or rejected element; non-trivial: at least two list "
                                "elements on the command line",
                        .check = check,
                        .quick_debug = 12000,
                        .quick_release = 80000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
