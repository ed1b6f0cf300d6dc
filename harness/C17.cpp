// C17: is_option_set tells exactly which identifiers were used.
#include "model.hpp"

using namespace verif;

namespace
{

// 1: true, 0: false, -1: design_error, -2: anything else
template <typename id_t>
int ask(sharg::parser const & p, id_t const & id)
{
    try
    {
        return p.is_option_set(id) ? 1 : 0;
    }
    catch (sharg::design_error const &)
    {
        return -1;
    }
    catch (std::exception const &)
    {
        return -2;
    }
}

int ask_long(sharg::parser const & p, std::string const & id)
{
    int a = ask(p, id), b = ask(p, id.c_str()); // both are documented ways to pass an identifier
    if (a != b && id.find('\0') == std::string::npos)
        fail("is_option_set answers ", a, " for the std::string and ", b, " for the char const * ", pbt::quoted(id));
    return a;
}

char const * answer(int a)
{
    return a == 1 ? "true" : a == 0 ? "false" : a == -1 ? "design_error" : "another exception";
}

void expect(int got, int want, std::string const & id, std::string const & context)
{
    if (got != want)
        fail("is_option_set(", id, ") is ", answer(got), " instead of ", answer(want), "\n", context);
}

// Everything that is not an identifier of a declaration although it resembles one.
void check_foreign(source & s, sharg::parser const & p, spec const & sp, std::string const & context)
{
    std::set<std::string> declared{"h", "hh", "help", "advanced-help", "export-help", "version", "copyright", "version-check"};
    for (auto const & d : sp.opts)
    {
        if (d.s)
            declared.insert(std::string(1, d.s));
        if (!d.l.empty())
            declared.insert(d.l);
    }
    strings candidates{"zz-not-there", "--", "-", "", "=", "test_app", " "};
    for (auto const & d : sp.opts)
    {
        if (!d.l.empty())
        {
            std::string up = d.l;
            up[0] = static_cast<char>(std::toupper(static_cast<unsigned char>(up[0])));
            for (std::string x : {"--" + d.l, "-" + d.l, d.l + "=", d.l + "x", d.l.substr(0, d.l.size() - 1), d.l.substr(1),
                                  d.l + " ", up, d.l + d.l})
                candidates.push_back(x);
        }
        if (d.s)
            for (std::string x : {"-" + std::string(1, d.s), std::string(2, d.s), std::string(1, d.s) + "="})
                candidates.push_back(x);
    }
    for (int k = 0; k < 8; ++k)
    {
        std::string const & c = s.pick(candidates);
        if (declared.contains(c))
            continue;
        expect(ask_long(p, c), -1, pbt::quoted(c), context);
    }
    static std::string const chars = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_@-= ?\xff";
    for (int k = 0; k < 4; ++k)
    {
        char c = s.pick(chars);
        if (!declared.contains(std::string(1, c)))
            expect(ask(p, c), -1, std::string{"'"} + c + "'", context);
    }
    expect(ask(p, '\0'), -1, "'\\0'", context);
}

unsigned check_options(sharg::parser const & p, spec const & sp, std::set<std::string> const & used, std::string const & context)
{
    unsigned both = 0;
    for (auto const & d : sp.opts)
    {
        if (d.s) // also for flags: one character has to be passed as char
            expect(ask_long(p, std::string(1, d.s)), -1, "\"" + std::string(1, d.s) + "\"", context);
        if (d.flag)
            continue;
        bool s_used = used.contains(std::string{"-"} + d.s), l_used = used.contains("--" + d.l);
        if (d.s)
            expect(ask(p, d.s), s_used, std::string{"'"} + d.s + "'", context);
        if (!d.l.empty())
            expect(ask_long(p, d.l), l_used, pbt::quoted(d.l), context);
        both += s_used || l_used;
    }
    return both;
}

void before_parse(source & s, sharg::parser const & p, spec const & sp, std::string const & context)
{
    for (auto const & d : sp.opts)
    {
        if (d.s)
            expect(ask(p, d.s), -1, std::string{"(before parse) '"} + d.s + "'", context);
        if (!d.l.empty())
            expect(ask_long(p, d.l), -1, "(before parse) " + pbt::quoted(d.l), context);
    }
    expect(ask_long(p, "not-there"), -1, "(before parse) not-there", context);
    (void)s;
}

// Options of which the identifiers are prefixes of each other are of special interest.
void make_similar(source & s, spec & sp)
{
    id_pool ids;
    for (auto & d : sp.opts)
    {
        ids.used.insert(std::string(1, d.s));
        ids.used.insert(d.l);
    }
    for (auto & d : sp.opts)
        if (!d.l.empty() && s.chance(1, 3))
        {
            auto const & o = s.pick(sp.opts);
            if (o.l.empty())
                continue;
            std::string n = o.l + s.pick_str({"2", "-x", "x", "_", "o"});
            if (ids.used.insert(n).second)
                d.l = n;
        }
}

void check(source & s)
{
    bool nested = s.chance(1, 3);
    spec_options o;
    if (nested)
        o.max_pos = 0;
    spec sp = random_spec(s, o);
    make_similar(s, sp);
    line_options lo;
    lo.use_den = 5;
    if (nested)
        lo.dashes_num = 0;
    command_line c = random_line(s, sp, lo);

    if (!nested)
    {
        s.describe(sp.show() + " args: " + pbt::show(c.args));
        std::string context = sp.show() + "\nargs: " + pbt::show(c.args);
        auto p = make_parser(sp.app, c.args, sp.use_argv);
        sp.declare(p);
        before_parse(s, p, sp, context);
        run_result r = observe([&] { p.parse(); });
        if (r.kind != oc::ok)
            fail("parse() failed: ", r.show(), "\n", context);
        unsigned n = check_options(p, sp, c.used_ids, context);
        check_foreign(s, p, sp, context);
        check_options(p, sp, c.used_ids, context); // again: asking changes nothing
        if (n)
            s.nontrivial();
        s.label(c.dashes ? "with --" : "without --");
        return;
    }

    // A subcommand with (partly) the same identifiers.
    c.dashes = false;
    c.assemble();
    strings subs{"sub", "other"};
    spec sub = random_spec(s, {.max_options = 4, .max_flags = 2, .max_pos = 2});
    if (s.chance(2, 3))
    {
        sub.opts.clear();
        for (auto const & d : sp.opts)
        {
            if (d.flag || !s.chance(2, 3))
                continue;
            decl n;
            n.s = d.s, n.l = d.l, n.type = d.type, n.list = d.list, n.desc = "d";
            n.initial_texts = d.initial_texts;
            sub.opts.push_back(std::move(n));
        }
        sub.reset();
    }
    command_line sc = random_line(s, sub, {.use_num = 1, .use_den = 2});
    strings args = c.args;
    args.push_back("sub");
    args.insert(args.end(), sc.args.begin(), sc.args.end());
    std::string context = "parser: " + sp.show() + "\nsub-parser: " + sub.show() + "\nargs: " + pbt::show(args);
    s.describe(context);
    auto p = make_parser(sp.app, args, sp.use_argv, sharg::update_notifications::off, subs);
    sp.declare(p);
    run_result r = observe([&] { p.parse(); });
    if (r.kind != oc::ok)
        fail("parse() failed: ", r.show(), "\n", context);
    unsigned n = check_options(p, sp, c.used_ids, context);
    auto & q = p.get_sub_parser();
    sub.declare(q);
    before_parse(s, q, sub, "sub-parser; " + context);
    r = observe([&] { q.parse(); });
    if (r.kind != oc::ok)
        fail("parse() of the sub-parser failed: ", r.show(), "\n", context);
    n += check_options(q, sub, sc.used_ids, "sub-parser; " + context);
    check_foreign(s, q, sub, "sub-parser; " + context);
    check_options(p, sp, c.used_ids, context);
    check_foreign(s, p, sp, context);
    if (n)
        s.nontrivial();
    s.label("subcommand");
}

} // namespace

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C17",
                        .rule = "a case is non-trivial if at least one declared option is used on the command line; all identifiers of "
                                "all options and about a dozen undeclared ones are asked for in every case",
                        .check = check,
                        .quick_debug = 20000,
                        .quick_release = 60000,
                        .setup = [](std::string const & d) { scratch_environment(d); }}}
        .main(argc, argv);
}
