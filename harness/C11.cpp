// C11: Special requests print their page and exit successfully.
#include "mistakes.hpp"

using namespace verif;

struct request
{
    strings tokens;
    std::string page;
};

static request random_request(source & s)
{
    static std::vector<request> const all = {{{"--help"}, "help"},
                                             {{"-h"}, "help"},
                                             {{"--advanced-help"}, "advanced"},
                                             {{"-hh"}, "advanced"},
                                             {{"--version"}, "version"},
                                             {{"--copyright"}, "copyright"},
                                             {{"--export-help=html"}, "html"},
                                             {{"--export-help", "html"}, "html"},
                                             {{"--export-help=man"}, "man"},
                                             {{"--export-help", "man"}, "man"}};
    return s.pick(all);
}

static strings canonical(std::string const & page)
{
    if (page == "help")
        return {"--help"};
    if (page == "advanced")
        return {"--advanced-help"};
    if (page == "html" || page == "man")
        return {"--export-help=" + page};
    return {"--" + page};
}

static bool special(std::string const & t)
{
    static std::set<std::string> const x = {"-h", "-hh", "--help", "--advanced-help", "--version", "--copyright", "--export-help", "--version-check"};
    return x.contains(t) || t.starts_with("--export-help=");
}

// Where a request is not (part of) something else: not behind --, not the value of an option.
static std::vector<size_t> places(spec const & sp, strings const & args)
{
    std::set<std::string> ids;
    for (auto const & d : sp.opts)
        if (!d.flag)
            for (auto const & n : names_of(d))
                ids.insert(n);
    std::vector<size_t> r;
    size_t i = 0;
    for (; i < args.size(); ++i)
    {
        r.push_back(i);
        if (args[i] == "--")
            return r;
        if (ids.contains(args[i]))
            ++i;
    }
    if (i == args.size())
        r.push_back(i);
    return r;
}

// Runs fn in a child process that really exits.
template <typename fn_t>
static run_result in_child(fn_t && fn)
{
    std::string const out = pbt::g_scratch + "/out", err = pbt::g_scratch + "/err";
    pid_t const pid = fork();
    if (pid == 0)
    {
        int o = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(o, 1);
        dup2(e, 2);
        use_real_exit = true;
        try
        {
            fn();
        }
        catch (std::exception & x)
        {
            std::cerr << x.what() << std::endl;
            _exit(77);
        }
        _exit(78); // parse() returned
    }
    int status = 0;
    waitpid(pid, &status, 0);
    run_result r;
    r.kind = WIFEXITED(status) ? oc::exited : oc::other;
    r.code = WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
    r.out = read_file(out);
    r.err = read_file(err);
    return r;
}

static void check(source & s)
{
    bool const with_sub = s.chance(1, 5);
    spec sp = random_spec(s, {.max_options = 4, .max_flags = 3, .max_pos = with_sub ? 0u : 3u});
    strings subcommands;
    if (with_sub)
        subcommands = {"build", "push"};
    command_line line = random_line(s, sp, {.dashes_num = with_sub ? 0u : 1u, .dashes_den = 3});
    strings args = line.args;
    std::string kind = "valid";
    unsigned const how = s.below(5);
    if (how >= 2 && how < 4) // a mistake
    {
        mistake m = random_mistake(s, sp, line);
        if (with_sub && m.kind == "too many")
            throw pbt::discard{};
        args = m.args;
        kind = "mistake";
    }
    else if (how == 4) // anything
    {
        args.clear();
        for (size_t i = 0, n = s.below(6); i < n; ++i)
        {
            std::string t = random_text(s);
            if (s.chance(1, 3) && !sp.opts.empty())
            {
                strings const names = names_of(s.pick(sp.opts));
                t = s.pick(names) + (s.chance(1, 2) ? random_text(s) : "");
            }
            if (with_sub && !t.starts_with('-'))
                t = "-" + t;
            args.push_back(t);
        }
        kind = "anything";
    }
    // No other request in the part before --; a request is only unambiguous if it is the only one.
    for (size_t i = 0; i < args.size(); ++i)
        if (special(args[i]))
            throw pbt::discard{};
    if (with_sub)
    {
        if (!args.empty() && args.back() == "--")
            args.pop_back();
        if (std::find(args.begin(), args.end(), "--") != args.end())
            throw pbt::discard{};
    }

    strings seen; // validators that were called
    for (auto * v : {&sp.opts, &sp.pos})
        for (auto & d : *v)
        {
            d.validator = {};
            d.validator.check = [&seen](strings const & x)
            {
                seen.push_back(pbt::show(x));
            };
            d.validator.help = "some text";
            d.advanced = v == &sp.opts && !d.required && s.chance(1, 6);
            d.hidden = v == &sp.opts && !d.required && s.chance(1, 10);
        }
    std::string const text = s.pick_str({"", "short text", "more \\fBtext\\fP & <things>"});
    auto run = [&](strings const & a)
    {
        sp.reset();
        seen.clear();
        g_system.reset();
        sharg::parser p = make_parser(sp.app, a, sp.use_argv, sharg::update_notifications::off, subcommands);
        p.info.short_description = text;
        p.info.version = "1.2.3";
        p.info.date = "today";
        p.info.short_copyright = text;
        p.info.description = {text, "second"};
        p.add_section("A section");
        p.add_line(text);
        sp.declare(p);
        p.parse();
    };
    auto observed = [&](strings const & a)
    {
        return observe([&] { run(a); });
    };

    if (s.chance(1, 6)) // malformed requests
    {
        static std::vector<std::pair<strings, oc>> const bad = {{{"--export-help"}, oc::too_few},
                                                                {{"--version-check"}, oc::too_few},
                                                                {{"--export-help="}, oc::validation},
                                                                {{"--export-help=foo"}, oc::validation},
                                                                {{"--export-help=HTML"}, oc::validation},
                                                                {{"--export-help=html "}, oc::validation},
                                                                {{"--export-help", "foo"}, oc::validation},
                                                                {{"--export-help", "--help"}, oc::validation},
                                                                {{"--export-help", ""}, oc::validation},
                                                                {{"--export-help=mann"}, oc::validation},
                                                                {{"--version-check", "2"}, oc::validation},
                                                                {{"--version-check", ""}, oc::validation},
                                                                {{"--version-check", "TRUE"}, oc::validation},
                                                                {{"--version-check", "--help"}, oc::validation},
                                                                {{"--version-check", "01"}, oc::validation}};
        auto const & [t, want] = s.pick(bad);
        std::vector<size_t> where = places(sp, args);
        size_t at = where.empty() ? 0 : s.pick(where);
        if (t.size() == 1 && want == oc::too_few) // only at the end
        {
            if (where.empty() || where.back() != args.size() || std::find(args.begin(), args.end(), "--") != args.end())
                throw pbt::discard{};
            at = args.size();
        }
        else if (where.empty())
            throw pbt::discard{};
        strings a = args;
        a.insert(a.begin() + at, t.begin(), t.end());
        s.describe("malformed " + sp.show() + " args: " + pbt::show(a));
        run_result r = observed(a);
        if (r.kind != want)
            fail("a malformed request should be ", name(want), " but parse() ended with ", r.show());
        if (!r.out.empty() || !r.err.empty())
            fail("something was printed: ", pbt::quoted(r.out + r.err));
        s.label("malformed");
        s.nontrivial();
        return;
    }

    request const q = random_request(s);
    std::vector<size_t> const where = places(sp, args);
    if (where.empty())
        throw pbt::discard{};
    size_t const at = s.pick(where);
    strings a = args;
    a.insert(a.begin() + at, q.tokens.begin(), q.tokens.end());
    if (s.chance(1, 8))
    {
        std::vector<size_t> const again = places(sp, a);
        size_t k = s.pick(again);
        if (!(k == at + 1 && q.tokens.size() == 2))
        {
            strings const vc{"--version-check", s.pick_str({"0", "1", "true", "false"})};
            a.insert(a.begin() + k, vc.begin(), vc.end());
        }
    }
    if (with_sub && s.chance(1, 8)) // an unknown subcommand, before or behind the request
    {
        std::vector<size_t> const again = places(sp, a);
        size_t const k = s.pick(again);
        if (k == 0 || (a[k - 1] != "--export-help" && a[k - 1] != "--version-check"))
        {
            a.insert(a.begin() + k, s.pick_str({"buil", "x", "builds", "BUILD", "", "push-"}));
            s.describe("unknown subcommand " + sp.show() + " args: " + pbt::show(a));
            run_result const r = observed(a);
            if (r.kind != oc::user_input)
                fail("an unknown subcommand next to the request ", pbt::show(q.tokens), " should be a user_input_error but parse() ended with ", r.show());
            if (!r.out.empty() || !r.err.empty())
                fail("something was printed: ", pbt::quoted(r.out + r.err));
            s.label("unknown subcommand");
            s.nontrivial();
            return;
        }
    }
    if (!with_sub && s.chance(1, 10)) // a second request
    {
        request const q2 = random_request(s);
        std::vector<size_t> const again = places(sp, a);
        size_t const k = s.pick(again);
        if (k > 0 && (a[k - 1] == "--export-help" || a[k - 1] == "--version-check"))
            throw pbt::discard{};
        a.insert(a.begin() + k, q2.tokens.begin(), q2.tokens.end());
        s.describe("two requests " + sp.show() + " args: " + pbt::show(a));
        run_result const l1 = observed(canonical(q.page)), l2 = observed(canonical(q2.page)), r = observed(a);
        if (r.kind != oc::exited || r.code != 0 || !r.err.empty())
            fail("with two requests, parse() ended with ", r.show(), " and printed to standard error: ", pbt::quoted(r.err));
        if (r.out != l1.out && r.out != l2.out)
            fail("the page is neither the one of ", pbt::show(q.tokens), " nor the one of ", pbt::show(q2.tokens), ": ", pbt::quoted(r.out));
        for (auto & d : sp.opts)
            if (d.current() != d.initial())
                fail("the variable of ", d.show(), " was changed to ", pbt::show(d.current()));
        if (!seen.empty())
            fail("a validator was called with ", pbt::show(seen));
        s.label("two requests");
        s.nontrivial();
        return;
    }
    if (with_sub && s.chance(1, 2) && (where.back() == args.size()))
    {
        a.push_back(s.pick(subcommands));
        a.push_back(s.pick_str({"--unknown", "x", "--version", "--export-help"}));
    }
    s.describe(kind + " " + sp.show() + " args: " + pbt::show(a));

    run_result const lone = observed(canonical(q.page));
    if (lone.kind != oc::exited || lone.code != 0 || lone.out.empty() || !lone.err.empty())
        fail("the lone request for ", q.page, " ended with ", lone.show(), " and printed ", pbt::quoted(lone.err));
    // The pages are what they are called.
    bool const right = q.page == "html"      ? lone.out.starts_with("<!DOCTYPE html") && contains(lone.out, "</html>")
                     : q.page == "man"       ? lone.out.starts_with(".TH TEST_APP 1")
                     : q.page == "version"   ? contains(lone.out, "\nVERSION\n") && !contains(lone.out, "OPTIONS")
                     : q.page == "copyright" ? contains(lone.out, "Copyright information for test_app:") && contains(lone.out, "licensed under the following terms:")
                                             : lone.out.starts_with("test_app") && contains(lone.out, "\nOPTIONS\n") && contains(lone.out, "\nA SECTION\n");
    if (!right)
        fail("this is no ", q.page, " page: ", pbt::quoted(lone.out));

    run_result const r = observed(a);
    if (r.kind != oc::exited)
        fail("the request ", pbt::show(q.tokens), " was not followed: ", r.show());
    if (r.code != 0)
        fail("the exit code is ", r.code);
    if (r.out != lone.out)
        fail("the page is ", pbt::quoted(r.out), " instead of ", pbt::quoted(lone.out));
    if (!r.err.empty())
        fail("printed to standard error: ", pbt::quoted(r.err));
    for (auto * v : {&sp.opts, &sp.pos})
        for (auto & d : *v)
            if (d.current() != d.initial())
                fail("the variable of ", d.show(), " was changed to ", pbt::show(d.current()));
    if (!seen.empty())
        fail("a validator was called with ", pbt::show(seen));
    if (auto c = g_system.get(); !c.empty())
        fail("a command was executed: ", pbt::show(c));

    if (s.chance(1, 30)) // with a real exit
    {
        run_result const c = in_child([&] { run(a); });
        if (c.kind != oc::exited || c.code != 0)
            fail("the process ended with ", c.code, " and ", pbt::quoted(c.err));
        if (c.out != lone.out || !c.err.empty())
            fail("the process printed ", pbt::quoted(c.out), " and ", pbt::quoted(c.err));
        s.label("real exit");
    }
    if (s.chance(1, 10))
    {
        run_result const n = observed({});
        if (n.kind != oc::exited || n.code != 0 || n.out.empty() || !n.err.empty() || n.out == lone.out || !n.out.starts_with("test_app"))
            fail("without arguments, parse() ended with ", n.show(), " and printed ", pbt::quoted(n.out + n.err));
        for (auto & d : sp.opts)
            if (d.current() != d.initial())
                fail("without arguments, the variable of ", d.show(), " was changed");
        s.label("no arguments");
    }
    s.label(kind);
    s.label(q.page);
    s.nontrivial(!args.empty());
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C11",
                        .rule = "a random declaration with a valid, mistaken or arbitrary command line into which a special request is inserted "
                                "where it is neither a value nor behind --, compared with the lone request, partly in a process that really "
                                "exits; or a malformed request; non-trivial: there are other arguments",
                        .check = check,
                        .quick_debug = 6000,
                        .quick_release = 40000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
