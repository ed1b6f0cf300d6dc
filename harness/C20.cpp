// C20: A parser can be moved at any point: the same program is run with and without moves.
#include "scenario.hpp"

using namespace verif;

namespace
{

struct mover
{
    source & s;
    unsigned num, den;
    unsigned made{0};
    std::vector<std::unique_ptr<sharg::parser>> kept{}; // sources that stay alive

    std::unique_ptr<sharg::parser> other()
    {
        // A parser with declarations of its own that is overwritten.
        static int i;
        static bool b;
        static std::vector<std::string> v;
        auto q = std::make_unique<sharg::parser>("other", strings{"./other", "-i", "3", "--", "x"}, sharg::update_notifications::off);
        switch (s.below(4))
        {
        case 0:
            break;
        case 1:
            q->add_option(i, sharg::config{.short_id = 'i', .long_id = "foo"});
            q->add_flag(b, sharg::config{.short_id = 'a'});
            q->add_section("Other");
            break;
        case 2:
            q->add_option(i, sharg::config{.short_id = 'i'});
            q->add_positional_option(v, sharg::config{});
            (void)observe([&] { q->parse(); });
            break;
        default:
            q = std::make_unique<sharg::parser>("other", strings{"./other", "x", "-y"}, sharg::update_notifications::off, strings{"x"});
            if (s.chance(1, 2))
                (void)observe([&] { q->parse(); });
        }
        return q;
    }

    void dispose(std::unique_ptr<sharg::parser> old)
    {
        if (s.chance(1, 4))
            kept.push_back(std::move(old));
    }

    void operator()(std::unique_ptr<sharg::parser> & p)
    {
        for (int k = 0; k < 3 && s.chance(num, den); ++k)
        {
            ++made;
            switch (s.below(5))
            {
            case 0:
            case 1:
            {
                auto q = std::make_unique<sharg::parser>(std::move(*p));
                std::swap(p, q);
                dispose(std::move(q));
                break;
            }
            case 2:
            {
                auto q = other();
                *q = std::move(*p);
                std::swap(p, q);
                dispose(std::move(q));
                break;
            }
            case 3: // there and back
            {
                sharg::parser tmp{std::move(*p)};
                *p = std::move(tmp);
                break;
            }
            default: // a vector that grows
            {
                std::vector<sharg::parser> v;
                v.push_back(std::move(*p));
                for (size_t n = s.below(4); n > 0; --n)
                    v.push_back(std::move(*other()));
                auto q = std::make_unique<sharg::parser>(std::move(v[0]));
                v.clear();
                p = std::move(q);
            }
            }
        }
    }

    void sub(sharg::parser & q)
    {
        for (int k = 0; k < 2 && s.chance(num, den); ++k)
        {
            ++made;
            switch (s.below(3))
            {
            case 0:
            {
                sharg::parser tmp{std::move(q)};
                q = std::move(tmp);
                break;
            }
            case 1:
            {
                auto o = other();
                std::swap(*o, q);
                std::swap(q, *o);
                break;
            }
            default:
            {
                auto a = std::make_unique<sharg::parser>(std::move(q));
                auto b = std::make_unique<sharg::parser>(std::move(*a));
                a.reset();
                q = std::move(*b);
            }
            }
        }
    }
};

void check(source & s)
{
    scenario sc = random_scenario(s);
    s.describe(sc.show());
    hooks h;
    h.use_argv = sc.use_argv;
    h.subcommands_later = s.chance(1, 3);
    outcome const plain = run_scenario(sc, h);
    static constexpr unsigned probability[][2] = {{1, 10}, {1, 4}, {1, 2}, {9, 10}};
    auto const & pr = probability[s.below(4)];
    mover m{s, pr[0], pr[1]};
    h.between = [&](auto & p) { m(p); };
    h.between_sub = [&](auto & p) { m.sub(p); };
    outcome const moved = run_scenario(sc, h);
    if (!(plain == moved))
        fail("after ", m.made, " moves: ", moved.show(), "\n\nwithout: ", plain.show(), "\n\n", sc.show());
    if (m.made)
        s.nontrivial();
    s.label(sc.with_sub ? "subcommands" : "no subcommands");
    s.label(std::string{"outcome: "} + name(plain.result.kind));
}

} // namespace

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C20",
                        .rule = "a case is non-trivial if the parser or its sub-parser is moved at least once",
                        .check = check,
                        .quick_debug = 8000,
                        .quick_release = 40000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
