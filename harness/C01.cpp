// C01: A valid command line sets exactly the values it spells out.
#include "model.hpp"

using namespace verif;

static void check(source & s)
{
    spec sp = random_spec(s);
    command_line c = random_line(s, sp);
    s.describe(sp.show() + " args: " + pbt::show(c.args));

    auto run = [&](command_line const & line)
    {
        sp.reset();
        run_result r = observe(
            [&]
            {
                sharg::parser p = make_parser(sp.app, line.args, sp.use_argv);
                sp.declare(p);
                p.parse();
            });
        if (r.kind != oc::ok)
            fail("parse() did not succeed but ended with ", r.show(), " for ", pbt::show(line.args));
        if (!r.out.empty() || !r.err.empty())
            fail("parse() printed something: ", pbt::quoted(r.out + r.err));
        if (std::string d = compare(sp, line); !d.empty())
            fail("wrong values: ", d, " for ", pbt::show(line.args));
    };
    run(c);

    // Metamorphic: another order of options and another notation.
    command_line d = c;
    std::vector<item> lists;
    for (auto & it : d.items)
        if (it.option >= 0 && it.tokens.size() && sp.opts[it.option].list)
            lists.push_back(it);
    interleave(s, d.items);
    // The order of the values of a list is significant.
    for (size_t o = 0; o < sp.opts.size(); ++o)
    {
        std::vector<item> mine;
        for (auto & it : lists)
            if (it.option == static_cast<int>(o))
                mine.push_back(it);
        size_t j = 0;
        for (auto & it : d.items)
            if (it.option == static_cast<int>(o) && sp.opts[o].list)
                it = mine[j++];
    }
    d.assemble();
    if (d.args != c.args)
        run(d);

    size_t options = 0;
    for (auto const & it : c.items)
        options += it.option >= 0;
    s.nontrivial(c.items.size() + c.behind.size() >= 2 && options + c.n_clusters >= 1);
    if (c.n_clusters)
        s.label("flag cluster");
    if (c.dashes)
        s.label("with --");
    s.label("items " + std::to_string(std::min<size_t>(8, c.items.size() + c.behind.size())));
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C01",
                        .rule = "random declarations of options, flags and positional options with a command line written for "
                                "chosen values in random notations, clusters and interleavings; non-trivial: at least two items "
                                "on the command line, at least one of them an option or a flag cluster",
                        .check = check,
                        .quick_debug = 8000,
                        .quick_release = 60000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
