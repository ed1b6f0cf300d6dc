// C10: Subcommands split the command line and get their part untouched.
#include "mistakes.hpp"

using namespace verif;

struct level
{
    spec sp;
    command_line line;
    strings names;        // subcommands, none for the last level
    strings at_construction, later;
    std::string chosen;
    strings args;         // of this level including everything behind the subcommand
    strings raw;          // last level: verbatim arguments instead of a generated line
    bool is_raw{false};
};

static strings const name_pool = {"build", "push", "x", "a", "pull", "Build", "build-all", "bui", "remote", "add", "1", "2-3", "help", "version", "foo", "apple",
                                  "true", "html", "_", "fooo", "out"};

static void rebuild_values(level & l)
{
    std::vector<bool> seen(l.sp.opts.size());
    for (auto const & it : l.line.items)
    {
        if (it.option < 0)
            continue;
        if (!seen[it.option])
            l.line.opt_values[it.option].clear();
        seen[it.option] = true;
        l.line.opt_values[it.option].push_back(it.value);
    }
    l.line.assemble();
}

static std::vector<level> make_levels(source & s)
{
    std::vector<level> ls(1 + (s.chance(1, 8) ? 0 : 1 + s.chance(1, 3)));
    for (size_t i = 0; i < ls.size(); ++i)
    {
        level & l = ls[i];
        bool const last = i + 1 == ls.size();
        l.sp = random_spec(s, {.max_options = 3, .max_flags = 3, .max_pos = last ? 2u : 0u});
        if (!last)
        {
            std::set<std::string> chosen;
            for (size_t k = 0, n = 1 + s.below(4); k < n; ++k)
            {
                std::string name = s.pick(name_pool);
                if (s.chance(1, 8)) // any valid name
                {
                    name = s.pick("abXYZ019_");
                    for (size_t c = s.chance(1, 3) ? s.below(300) : s.below(20); c > 0; --c)
                        name += s.pick("abcXYZ0189_-");
                }
                chosen.insert(name);
            }
            l.names.assign(chosen.begin(), chosen.end());
            s.shuffle(l.names);
            for (auto const & n : l.names)
            {
                bool const early = s.chance(1, 2);
                (early ? l.at_construction : l.later).push_back(n);
                if (s.chance(1, 5))
                    (s.chance(1, 2) ? l.at_construction : l.later).push_back(n);
            }
            l.chosen = s.pick(l.names);
        }
        l.line = random_line(s, l.sp, {.dashes_num = last ? 1u : 0u, .dashes_den = last ? 3u : 1u, .max_list = 3});
        if (!last)
        {
            l.line.dashes = false;
            // Names of subcommands (of this or of other parsers) as values of options.
            for (auto & it : l.line.items)
                if (it.option >= 0 && (l.sp.opts[it.option].type == ty::str || l.sp.opts[it.option].type == ty::path) && s.chance(1, 2))
                {
                    std::string const n = s.chance(3, 4) ? s.pick(l.names) : s.pick(name_pool);
                    if (item o = option_item(s, l.sp, it.option, {n, n}); !o.tokens.empty())
                        it = o;
                }
        }
        else if (i > 0 && s.chance(1, 4)) // arbitrary arguments
        {
            l.is_raw = true;
            size_t const n = s.below(5);
            for (size_t k = 0; k < n; ++k)
                l.raw.push_back(s.chance(1, 3) ? s.pick(ls[i - 1].names) : random_text(s));
        }
        rebuild_values(l);
    }
    for (size_t i = ls.size(); i-- > 0;)
    {
        level & l = ls[i];
        if (l.is_raw)
        {
            l.args = {"--"};
            l.args.insert(l.args.end(), l.raw.begin(), l.raw.end());
            continue;
        }
        l.args = l.line.args;
        if (i + 1 < ls.size())
        {
            if (s.chance(1, 8)) // the options have ended, the subcommand is the next argument
                l.args.push_back("--");
            l.args.push_back(l.chosen);
            l.args.insert(l.args.end(), ls[i + 1].args.begin(), ls[i + 1].args.end());
        }
    }
    return ls;
}

// Adds the options and subcommands of a level in some order.
static void declare(source & s, level & l, sharg::parser & p, bool top)
{
    strings later = l.later;
    if (!top)
        later.insert(later.end(), l.at_construction.begin(), l.at_construction.end());
    bool const first = s.chance(1, 2);
    auto add = [&]
    {
        if (later.empty())
            return;
        if (s.chance(1, 2))
            p.add_subcommands(later);
        else
            for (auto const & n : later)
                p.add_subcommands({n});
        while (!l.names.empty() && s.chance(1, 4)) // again
            p.add_subcommands({s.pick(l.names), s.pick(l.names)});
    };
    if (first)
        add();
    l.sp.declare(p);
    if (!first)
        add();
}

// If the message contains [a, b, ...] with exactly the names, none of them may be repeated.
static void listed_once(std::string const & message, strings const & names)
{
    std::set<std::string> const all(names.begin(), names.end());
    for (size_t b = message.find('['); b != std::string::npos; b = message.find('[', b + 1))
    {
        strings found;
        std::string t = message.substr(b + 1, message.find(']', b) - b - 1);
        for (size_t i = 0; i <= t.size();)
        {
            size_t const e = std::min(t.find(", ", i), t.size());
            found.push_back(t.substr(i, e - i));
            i = e + 2;
        }
        if (std::set<std::string>(found.begin(), found.end()) == all && found.size() != all.size())
            fail("the message ", pbt::quoted(message), " lists a subcommand repeatedly");
    }
}

static void check(source & s)
{
    std::vector<level> ls = make_levels(s);
    // 0..3: valid, 4: unknown subcommand, 5: no subcommand, 6: special request for a sub-parser, 7: a mistake in front of the subcommand
    unsigned mode = s.below(8);
    if (ls.size() == 1)
        mode = 0;
    size_t const at = mode == 4 || mode == 5 || mode == 7 ? s.below(ls.size() - 1) : mode == 6 ? 1 + s.below(ls.size() - 1) : ls.size();
    oc expected = oc::ok;
    std::vector<strings> needles;
    std::string what = "valid";

    auto prefix = [&](size_t i, strings tail) // the complete command line with this at level i
    {
        for (size_t k = i; k-- > 0;)
        {
            strings a = ls[k].line.args;
            a.push_back(ls[k].chosen);
            a.insert(a.end(), tail.begin(), tail.end());
            tail = a;
        }
        return tail;
    };
    strings args = ls[0].args;
    if (mode == 4)
    {
        level & l = ls[at];
        static strings const tokens = {"buil", "buildx", "BUILD", "", "pus", "unknown", "b", "x y", "html", "1x", "@"};
        std::string t = s.chance(1, 4) ? s.pick(l.names) + s.pick("x -_") : s.chance(1, 4) ? s.pick(name_pool) : s.pick(tokens);
        if (std::find(l.names.begin(), l.names.end(), t) != l.names.end())
            throw pbt::discard{};
        command_line c = l.line;
        item it;
        it.tokens = {t};
        insert_item(s, c, it);
        c.assemble();
        strings tail = c.args;
        if (s.chance(2, 3))
        {
            tail.push_back(l.chosen);
            tail.insert(tail.end(), ls[at + 1].args.begin(), ls[at + 1].args.end());
        }
        args = prefix(at, tail);
        expected = oc::user_input;
        for (auto const & n : l.names)
            needles.push_back({n});
        what = "unknown subcommand " + pbt::quoted(t);
    }
    else if (mode == 5)
    {
        if (ls[at].line.args.empty())
            throw pbt::discard{};
        args = prefix(at, ls[at].line.args);
        what = "no subcommand";
    }
    else if (mode == 6)
    {
        level & l = ls[at];
        strings tail;
        bool const leaf = at + 1 == ls.size();
        std::string const r = s.pick_str({"--help", "-h", "-hh", "--version", "--copyright", "--export-help=html"});
        command_line c = l.line;
        item it;
        it.tokens = {r};
        insert_item(s, c, it);
        c.assemble();
        tail = c.args;
        if (!leaf && s.chance(1, 2))
        {
            tail.push_back(l.chosen);
            tail.insert(tail.end(), ls[at + 1].args.begin(), ls[at + 1].args.end());
        }
        args = prefix(at, tail);
        expected = oc::exited;
        what = "special request of the sub-parser";
        l.is_raw = false;
    }
    else if (mode == 7)
    {
        level & l = ls[at];
        mistake m = random_mistake(s, l.sp, l.line);
        if (m.kind == "missing value" || m.kind == "too many" || std::find(m.args.begin(), m.args.end(), "--") != m.args.end())
            throw pbt::discard{};
        strings tail = m.args;
        tail.push_back(l.chosen);
        tail.insert(tail.end(), ls[at + 1].args.begin(), ls[at + 1].args.end());
        args = prefix(at, tail);
        expected = m.expected;
        needles = m.needles;
        what = "in front of the subcommand: " + m.kind;
    }
    std::string note = what + " at level " + std::to_string(at) + "; ";
    for (auto & l : ls)
    {
        note += l.sp.show() + " subcommands " + pbt::show(l.names) + "; ";
        l.sp.reset();
    }
    s.describe(note + "args: " + pbt::show(args));

    std::deque<sharg::parser> top;
    run_result r = observe([&] { top.push_back(make_parser("app", args, s.chance(1, 2), sharg::update_notifications::off, ls[0].at_construction)); });
    if (r.kind != oc::ok)
        fail("the constructor ended with ", r.show());
    sharg::parser * p = &top.front();
    std::string app = "app";
    for (size_t i = 0; i < ls.size(); ++i)
    {
        level & l = ls[i];
        if (p->info.app_name != app)
            fail("the name of the parser of level ", i, " is ", pbt::quoted(p->info.app_name), " instead of ", app);
        strings verbatim;
        r = observe(
            [&]
            {
                if (l.is_raw)
                    p->add_positional_option(verbatim, sharg::config{});
                else
                    declare(s, l, *p, i == 0);
            });
        if (r.kind != oc::ok)
            fail("the declarations of level ", i, " ended with ", r.show());
        r = observe(
            [&]
            {
                p->parse();
            });
        if (i == at && expected != oc::ok)
        {
            if (r.kind != expected)
                fail("parse() of level ", i, " should have ended with ", name(expected), " but it ended with ", r.show());
            for (auto const & n : needles)
                if (std::none_of(n.begin(), n.end(), [&](std::string const & t) { return contains(r.what, t); }))
                    fail("the message ", pbt::quoted(r.what), " does not mention ", pbt::show(n));
            if (mode == 4)
                listed_once(r.what, l.names);
            if (expected == oc::exited)
            {
                if (r.code != 0 || r.out.empty() || !r.err.empty())
                    fail("exit code ", r.code, ", output ", pbt::quoted(r.out), ", errors ", pbt::quoted(r.err));
                std::string upper = app, out = r.out;
                for (std::string * t : {&upper, &out})
                    for (char & c : *t)
                        c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
                if (!contains(out, upper) && !contains(args.back(), "copyright") && !contains(r.out, "copyright"))
                    fail("the page does not mention the name ", app, ": ", pbt::quoted(r.out));
            }
            break;
        }
        if (l.is_raw && l.raw.empty())
        {
            if (r.kind != oc::too_few)
                fail("no argument but -- was given to level ", i, ", but parse() ended with ", r.show());
            break;
        }
        if (r.kind != oc::ok)
            fail("parse() of level ", i, " ended with ", r.show());
        if (!r.out.empty() || !r.err.empty())
            fail("parse() of level ", i, " printed something: ", pbt::quoted(r.out + r.err));
        if (l.is_raw)
        {
            if (verbatim != l.raw)
                fail("the sub-parser got ", pbt::show(verbatim));
            s.label("verbatim");
        }
        else if (std::string d = compare(l.sp, l.line); !d.empty())
            fail("wrong values at level ", i, ": ", d);
        bool const more = i + 1 < ls.size() && !(mode == 5 && i == at);
        sharg::parser * sub = nullptr;
        r = observe(
            [&]
            {
                sub = &p->get_sub_parser();
            });
        if (more && r.kind != oc::ok)
            fail("get_sub_parser() of level ", i, " ended with ", r.show());
        if (!more && r.kind != oc::design)
            fail("get_sub_parser() of level ", i, " should be a design_error, but ended with ", r.show());
        if (!more)
            break;
        app += "-" + l.chosen;
        p = sub;
    }
    s.nontrivial(ls.size() > 1);
    s.label(what.substr(0, what.find('"')));
    s.label("levels " + std::to_string(ls.size()));
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C10",
                        .rule = "chains of up to three parsers with random options and subcommands (added on construction or later), names "
                                "of subcommands as values, verbatim arguments, unknown or missing subcommands, special requests and "
                                "mistakes; non-trivial: there is at least one subcommand",
                        .check = check,
                        .quick_debug = 8000,
                        .quick_release = 50000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
