// C23: Parsing depends on nothing but declaration and arguments: equivalent set-ups have the same outcome.
#include "scenario.hpp"

using namespace verif;

namespace
{

void check(source & s)
{
    bool const decided = s.chance(1, 2);
    scenario sc = random_scenario(s, decided);
    s.describe(sc.show());
    hooks h;
    h.use_argv = sc.use_argv;
    outcome const plain = run_scenario(sc, h);

    std::string what;
    std::list<scenario> others; // the variables of other parsers have to stay alive
    std::vector<std::unique_ptr<sharg::parser>> alive;
    hooks g;
    g.use_argv = h.use_argv;

    if (s.chance(1, 3))
    {
        g.use_argv = !g.use_argv;
        what += "argv instead of vector or vice versa, ";
        s.label("argv");
    }
    if (decided && s.chance(1, 2))
    {
        auto permutation = [&](size_t n)
        {
            std::vector<size_t> r(n);
            std::iota(r.begin(), r.end(), 0);
            s.shuffle(r);
            return r;
        };
        g.order = permutation(sc.sp.opts.size());
        g.sub_order = permutation(sc.sub.opts.size());
        what += "other order of declarations, ";
        s.label("order");
    }
    if (s.chance(1, 3))
    {
        g.subcommands_later = true;
        what += "add_subcommands, ";
    }
    // Other parsers in the same program, some of them are for the same options.
    auto other_parser = [&]
    {
        others.push_back(random_scenario(s));
        scenario & x = others.back();
        if (s.chance(1, 3)) // a line with similar identifiers
            for (auto const & a : sc.args)
                if (s.chance(1, 2))
                    x.args.push_back(a);
        switch (s.below(3))
        {
        case 0: // a complete run
            (void)run_scenario(x, {});
            what += "a run before or in between, ";
            break;
        case 1: // a parser that stays alive and is never parsed
        {
            x.sp.reset();
            alive.push_back(std::make_unique<sharg::parser>("app", x.args, sharg::update_notifications::off, x.subcommands));
            for (auto & st : steps_of(x.sp, {}))
                st(*alive.back());
            what += "a parser that is not parsed, ";
            break;
        }
        default: // a parsed parser that stays alive
        {
            x.sp.reset();
            strings a = x.args;
            a.insert(a.begin(), "./app");
            alive.push_back(std::make_unique<sharg::parser>("app", a, sharg::update_notifications::off, x.subcommands));
            for (auto & st : steps_of(x.sp, {}))
                st(*alive.back());
            (void)observe([&] { alive.back()->parse(); });
            what += "a parser that was parsed, ";
        }
        }
    };
    bool const with_others = s.chance(1, 2);
    if (with_others)
    {
        s.label("other parsers");
        for (size_t n = s.below(3); n > 0; --n)
            other_parser();
        size_t budget = 1 + s.below(2);
        // Within run_scenario the streams are captured; the output of other parsers has to be kept apart.
        g.between = [&, budget](auto &) mutable
        {
            if (budget == 0 || !s.chance(1, 4))
                return;
            --budget;
            other_parser();
        };
    }
    // A validator that uses a parser itself, while parse() is in progress.
    std::vector<std::pair<decl *, std::function<void(strings const &)>>> wrapped;
    if (s.chance(1, 4))
    {
        size_t budget = 1 + s.below(3);
        for (spec * sp : {&sc.sp, &sc.sub})
            for (auto * v : {&sp->opts, &sp->pos})
                for (decl & d : *v)
                    if (!d.flag)
                        wrapped.emplace_back(&d, d.validator.check);
        auto left = std::make_shared<size_t>(budget);
        for (auto & [d, old] : wrapped)
            d->validator.check = [&, left, old = old](strings const & v)
            {
                if (*left > 0 && s.chance(1, 2))
                {
                    --*left;
                    other_parser();
                }
                if (old)
                    old(v);
            };
        if (!wrapped.empty())
        {
            what += "validators that use parsers, ";
            s.label("nested");
        }
    }
    s.describe("\nvariant: " + what);
    if (!what.empty())
        s.nontrivial();
    outcome variant = run_scenario(sc, g);
    for (auto & [d, old] : wrapped)
        d->validator.check = old;
    if ((!g.order.empty() || !g.sub_order.empty()) && plain.result.kind != oc::ok)
        variant.values = plain.values; // how far a failed parse() got is not specified
    if (!(plain == variant))
        fail("the outcome is\n", variant.show(), "\n\ninstead of\n", plain.show(), "\n\nvariant: ", what, "\n", sc.show());
    // The same program again.
    outcome const again = run_scenario(sc, h);
    if (!(plain == again))
        fail("when repeated, the outcome is\n", again.show(), "\n\ninstead of\n", plain.show(), "\n\n", sc.show());
    s.label(std::string{"outcome: "} + name(plain.result.kind));
}

} // namespace

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C23",
                        .rule = "a case is non-trivial if the second set-up differs from the first in the way arguments are passed, the order "
                                "of declarations, the way subcommands are added, or by other parsers in the program",
                        .check = check,
                        .quick_debug = 6000,
                        .quick_release = 30000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
