// C13: The console help is laid out for the terminal without losing text.
#include "console.hpp"

using namespace verif;

static void check(source & s)
{
    page_spec ps = random_page(s, {.backslashes = s.chance(1, 3), .long_words = s.chance(1, 3) ? 8u : 0u});
    for (auto const & a : ps.added)
        if (a.e.kind == element::list_item && a.e.a.size() <= 4 && contains(a.e.a, "\\"))
            throw pbt::discard{}; // markup counts as part of a short key
    unsigned const cols = random_columns(s);
    bool const tty = s.chance(3, 4);
    bool const others = s.chance(1, 3); // are stdin and stderr terminals?
    if (others)
        ps.notifications = false; // the user would be asked
    bool const advanced = s.chance(1, 2);
    s.describe("columns: " + std::to_string(cols) + (tty ? " terminal " : " no terminal ") + ps.show());

    std::string const out = print_on(ps, {advanced ? "--advanced-help" : "--help"}, cols, tty, others);
    layout l{.usable = usable_width(tty, cols)};
    add_header(l, ps.meta);
    for (auto const & e : ps.elements(advanced))
        l.add(e);
    l.lines.emplace_back(); // behind the last newline
    compare_lines(out, l, tty);
    for (auto const & t : l.seen)
        s.label(t);
    s.label(tty ? "terminal" : "no terminal");
    s.nontrivial(l.seen.contains("wrapped"));
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C13",
                        .rule = "a random help page printed to a pseudo terminal of random width (0..300, 65535 columns) or to no terminal, compared "
                                "line by line and style by style with a reference layout; non-trivial: at least one text is wrapped",
                        .check = check,
                        .quick_debug = 4000,
                        .quick_release = 25000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
