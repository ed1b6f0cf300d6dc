// C03: Every user error is reported with its documented exception.
#include "mistakes.hpp"

using namespace verif;

static void check(source & s)
{
    spec sp = random_spec(s);
    command_line c = random_line(s, sp);
    mistake m = random_mistake(s, sp, c);
    s.describe(m.kind + ": " + sp.show() + " args: " + pbt::show(m.args));

    sp.reset();
    run_result r = observe(
        [&]
        {
            sharg::parser p = make_parser(sp.app, m.args, sp.use_argv);
            sp.declare(p);
            p.parse();
        });
    if (r.kind != m.expected)
        fail("expected ", name(m.expected), " (", m.kind, ") but parse() ended with ", r.show());
    if (!r.out.empty() || !r.err.empty())
        fail("parse() printed something: ", pbt::quoted(r.out + r.err));
    if (r.what.empty())
        fail("the message of the exception is empty");
    for (auto const & n : m.needles)
        if (std::none_of(n.begin(), n.end(),
                         [&](std::string const & t)
                         {
                             return contains(r.what, t);
                         }))
            fail("the message ", pbt::quoted(r.what), " does not mention any of ", pbt::show(n));
    for (auto const & w : m.wrong)
        if (contains(r.what, w))
            fail("the message ", pbt::quoted(r.what), " mentions ", pbt::quoted(w));
    s.nontrivial();
    s.label(m.kind);
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C03",
                        .rule = "a random declaration and a valid command line for it (as in C01) in which exactly one mistake is "
                                "planted; non-trivial: all cases in which a mistake could be planted (others are discarded)",
                        .check = check,
                        .quick_debug = 12000,
                        .quick_release = 100000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
