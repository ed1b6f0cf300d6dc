// C02: Any argument vector ends in success, exit 0 or a parser error.
#include "mistakes.hpp"

using namespace verif;

struct program
{
    spec sp;
    bool subs{false};
    bool notifications{false};
    std::vector<std::pair<int, std::string>> texts;
    sharg::parser_meta_data info;
};

static std::string any_token(source & s, spec const & sp)
{
    static strings const special = {"-h",        "-hh",   "--help",     "--advanced-help", "--version",      "--copyright",    "--export-help",
                                    "html",      "man",   "ctd",        "cwl",             "--export-help=html", "--export-help=man", "--export-help=",
                                    "--version-check", "0", "1",        "true",            "false",          "--",             "-",
                                    "",          "=",     "-=",         "--=",             "---",            "--export-help=x", "--version-check=1",
                                    "-hhh",      "build", "index",      "bu",              "--help=",        "-h=",            "--no-such-option"};
    switch (s.below(6))
    {
    case 0:
    case 1:
        if (!sp.opts.empty())
        {
            decl const & d = s.pick(sp.opts);
            std::string id = d.s && (d.l.empty() || s.chance(1, 2)) ? std::string{"-"} + d.s : "--" + d.l;
            switch (s.below(5))
            {
            case 0:
                return id;
            case 1:
                return id + "=" + random_value(s, d.type).text;
            case 2:
                return id + random_value(s, d.type).text;
            case 3:
                return id.substr(0, s.below(id.size() + 1));
            default:
                return id + s.pick_str({"=", "==", " ", "x", "-", "\n"});
            }
        }
        [[fallthrough]];
    case 2:
        return s.pick(special);
    case 3:
        return random_value(s, static_cast<ty>(s.below(9))).text;
    case 4:
    {
        std::string r = "-";
        for (size_t n = s.below(6); n > 0; --n)
            r += sp.opts.empty() ? s.pick("abch-=") : s.chance(1, 4) ? s.pick("abch-=") : s.pick(sp.opts).s ? s.pick(sp.opts).s : 'h';
        return r.substr(0, r.find('\0'));
    }
    default:
        if (s.chance(1, 40))
            return std::string(s.below(5000), s.pick("a-=1\\"));
        return random_bytes(s, 10);
    }
}

// Validators of Sharg as part of the declaration.
struct extra
{
    std::string re{"a"};
    double num{1};
    std::string choice{"x"};
    std::filesystem::path in{"in"}, out{"out"}, dir{"d"};
    std::vector<std::filesystem::path> ins;
};

static void check(source & s)
{
    program pr;
    spec_options o;
    pr.subs = s.chance(1, 4);
    if (pr.subs)
        o.max_pos = 0;
    pr.sp = random_spec(s, o);
    pr.notifications = s.chance(1, 4);
    bool const use_extra = s.chance(1, 4);
    strings args;
    if (s.chance(1, 3)) // a mutated valid line
    {
        args = random_line(s, pr.sp).args;
        for (size_t k = 1 + s.below(3); k > 0; --k)
        {
            size_t at = s.below(args.size() + 1);
            switch (s.below(4))
            {
            case 0:
                args.insert(args.begin() + at, any_token(s, pr.sp));
                break;
            case 1:
                if (at < args.size())
                    args.erase(args.begin() + at);
                break;
            case 2:
                if (at < args.size())
                    args.insert(args.begin() + at, args[at]);
                break;
            default:
                if (at < args.size() && !args[at].empty())
                    args[at][s.below(args[at].size())] = static_cast<char>(s.range(1, 255));
            }
        }
    }
    else
        for (size_t n = s.below(9); n > 0; --n)
            args.push_back(any_token(s, pr.sp));
    if (!pr.sp.use_argv && s.chance(1, 20) && !args.empty()) // NUL is possible only in a vector
        args[s.below(args.size())] += std::string(1, '\0') + "x";
    if (pr.subs && s.chance(2, 3))
    {
        if (s.chance(1, 2))
            args = random_line(s, pr.sp, {.dashes_num = 0}).args;
        args.push_back(s.pick_str({"build", "index"}));
        for (size_t n = s.below(5); n > 0; --n)
            args.push_back(s.chance(1, 2) ? s.pick_str({"-n", "--number=3", "--flag", "-f", "x", "-n7", "--", "4", "-fn", "build"}) : any_token(s, pr.sp));
    }
    if (use_extra)
        for (size_t n = s.below(4); n > 0; --n)
            args.insert(args.begin() + s.below(args.size() + 1),
                        s.pick_str({"--range=1.5", "--range=-9", "--regex=aab", "--regex=x", "--choice=x", "--choice=z", "--infile=in", "--infile=",
                                    "--infile=/", "--infile=a.fa", "--outfile=o.txt", "--outfile=.", "--outfile=no/such/dir/f", "--outdir=new",
                                    "--outdir=in", "--infiles=in", "--infiles=.hidden", "--infiles=a."}));

    // Validators of the application: they reject some of the values, with exceptions of all kinds.
    if (s.chance(1, 3))
        for (auto * v : {&pr.sp.opts, &pr.sp.pos})
            for (auto & d : *v)
                if (!d.flag && s.chance(1, 2))
                {
                    unsigned const kind = s.below(num_rejections), mod = 1 + s.below(3);
                    d.validator.check = [kind, mod](strings const & values)
                    {
                        size_t n = values.size();
                        for (auto const & x : values)
                            n += x.size();
                        if (n % mod == 0)
                            throw_rejection(kind, "rejected");
                    };
                }
    s.describe(pr.sp.show() + (pr.subs ? " subcommands [build, index]" : "") + (pr.notifications ? " notifications" : "")
               + (use_extra ? " validators" : "") + " args: " + pbt::show(args));

    auto run = [&](strings & values)
    {
        pr.sp.reset();
        extra x;
        bool sub = false;
        std::string stage = "parse";
        g_system.reset();
        run_result r = observe(
            [&]
            {
                sharg::parser p = make_parser(pr.sp.app, args, pr.sp.use_argv,
                                              pr.notifications ? sharg::update_notifications::on : sharg::update_notifications::off,
                                              pr.subs ? strings{"build", "index"} : strings{});
                p.info.version = "1.2.3";
                p.info.short_description = "s";
                p.info.synopsis = {"test_app [OPTIONS]"};
                pr.sp.declare(p);
                if (use_extra)
                {
                    p.add_section("extra");
                    auto safe = [](auto && f) // the identifier may be in use already
                    {
                        try
                        {
                            f();
                        }
                        catch (sharg::design_error &)
                        {}
                    };
                    safe([&] { p.add_option(x.num, sharg::config{.long_id = "range", .validator = sharg::arithmetic_range_validator{-2.0, 2.0}}); });
                    safe([&] { p.add_option(x.re, sharg::config{.long_id = "regex", .validator = sharg::regex_validator{"(a|b)*"}}); });
                    safe([&] { p.add_option(x.choice, sharg::config{.long_id = "choice", .validator = sharg::value_list_validator{"x", "y"}}); });
                    safe([&] { p.add_option(x.in, sharg::config{.long_id = "infile", .validator = sharg::input_file_validator{{"fa", "txt"}}}); });
                    safe([&] { p.add_option(x.out, sharg::config{.long_id = "outfile", .validator = sharg::output_file_validator{}}); });
                    safe([&] { p.add_option(x.dir, sharg::config{.long_id = "outdir", .validator = sharg::output_directory_validator{}}); });
                    safe([&] { p.add_option(x.ins, sharg::config{.long_id = "infiles", .validator = sharg::input_file_validator{}}); });
                }
                p.parse();
                if (pr.subs)
                {
                    sharg::parser * q = nullptr;
                    try
                    {
                        q = &p.get_sub_parser();
                    }
                    catch (sharg::design_error &)
                    {}
                    if (q)
                    {
                        sub = true;
                        int number{};
                        bool flag{};
                        strings rest;
                        q->add_option(number, sharg::config{.short_id = 'n', .long_id = "number"});
                        q->add_flag(flag, sharg::config{.short_id = 'f', .long_id = "flag"});
                        q->add_positional_option(rest, sharg::config{});
                        stage = "parse of the sub-parser";
                        q->parse();
                        for (auto & t : rest)
                            values.push_back(t);
                    }
                }
            });
        if (r.kind == oc::other || r.kind == oc::parser_error || r.kind == oc::design)
            fail(stage, " ended with ", r.show());
        if (r.kind == oc::exited && (r.code != 0 || r.out.empty()))
            fail(stage, " ended with exit code ", r.code, " and the output ", pbt::quoted(r.out));
        if (r.kind != oc::exited && !r.out.empty())
            fail(stage, " printed ", pbt::quoted(r.out), " and ended with ", r.show());
        if (r.kind != oc::exited && r.kind != oc::ok && r.what.empty())
            fail("empty message of ", r.show());
        if (r.kind == oc::ok)
            for (auto const * v : {&pr.sp.opts, &pr.sp.pos})
                for (auto const & d : *v)
                    for (auto const & t : d.current())
                        values.push_back(t);
        s.label(std::string{name(r.kind)} + (sub ? " (sub-parser)" : ""));
        return r;
    };
    strings v1, v2;
    run_result a = run(v1);
    size_t n = s.labels.size();
    run_result b = run(v2);
    s.labels.resize(n);
    if (a.kind != b.kind || a.what != b.what || a.out != b.out || v1 != v2)
        fail("the same arguments have different outcomes: ", a.show(), " ", pbt::show(v1), " and ", b.show(), " ", pbt::show(v2));
    s.nontrivial(args.size() >= 2);
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C02",
                        .rule = "a random declaration (with validators, subcommands or notifications) and an arbitrary argument "
                                "vector: declared identifiers, special options, mutated valid lines and random bytes; "
                                "non-trivial: at least two arguments",
                        .check = check,
                        .quick_debug = 5000,
                        .quick_release = 20000,
                        .setup =
                            [](std::string const & scratch)
                        {
                            scratch_environment(scratch);
                            write_file(scratch + "/in", "x");
                            write_file(scratch + "/a.fa", "x");
                            drop_privileges(scratch);
                        }}}
        .main(argc, argv);
}
