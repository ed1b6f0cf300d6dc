// C15: The exported man page is structured roff with intact text.
#include "page.hpp"

using namespace verif;

// Removes exactly one line break at the end (of the paragraph).
static std::string joined(strings const & lines)
{
    std::string r;
    for (size_t i = 0; i < lines.size(); ++i)
        r += (i ? "\n" : "") + lines[i];
    return r;
}

static void check(source & s)
{
    page_spec ps = random_page(s, {.ascii = s.chance(1, 2)});
    // The title line has quoted arguments.
    for (auto * t : {&ps.meta.date, &ps.meta.version, &ps.meta.man_page_title})
        std::erase(*t, '"');
    for (auto & a : ps.added)
        if (a.e.kind == element::line && s.chance(1, 6))
            a.e.a = s.pick_str({".", "'", ".SH FAKE", ".TP", "..", "\n.br", "a\n.SS b", "x\n'y\n.z", "\\fB.TH x\\fP", ".\\\" comment", "\n", "", ".\n.\n'"});
        else if (a.e.kind == element::list_item && s.chance(1, 4))
            (s.chance(1, 2) ? a.e.a : a.e.b) = s.pick_str({".", "'a'", ".SH FAKE", ".TP", "...", ".5", "'"});
    for (auto & d : ps.sp.opts)
        if (s.chance(1, 6))
            d.desc = s.pick_str({".SH FAKE", "'s", "...", ".TP\n.x", "a\n.b"});
    s.describe(ps.show());
    std::string const page = ps.print(s.chance(1, 2) ? strings{"--export-help=man"} : strings{"--export-help", "man"}).out;
    roff_page const m = read_roff(page);

    auto const & meta = ps.meta;
    std::string const title = upper(meta.app_name) + " " + std::to_string(meta.man_page_section) + " \"" + meta.date + "\" \"" + lower(meta.app_name) + " "
                            + meta.version + "\" \"" + meta.man_page_title + "\"";
    if (m.title != title)
        fail("the title line is ", pbt::quoted(m.title), " instead of ", pbt::quoted(title));
    if (std::string const name = meta.app_name + " - " + meta.short_description; roff_text(m.name) != name)
        fail("the NAME section is ", pbt::quoted(m.name));

    std::vector<element> const elements = ps.elements(true);
    if (m.pieces.size() != elements.size())
        for (size_t i = 0; i < std::max(m.pieces.size(), elements.size()); ++i)
            if (i >= m.pieces.size() || i >= elements.size() || m.pieces[i].kind != elements[i].kind)
                fail("the page has ", m.pieces.size(), " parts instead of ", elements.size(), "; the first difference is at ",
                     i < elements.size() ? elements[i].show() : "its end");
    bool first = true; // in its section
    bool special = false;
    for (size_t i = 0; i < elements.size(); ++i)
    {
        element const & e = elements[i];
        auto const & p = m.pieces[i];
        if (p.kind != e.kind)
            fail("part ", i + 1, " should be ", e.show(), " but has text ", pbt::show(p.lines));
        auto same = [&](std::string const & got, std::string const & raw)
        {
            special = special || raw.starts_with('.') || raw.starts_with('\'') || contains(raw, "\n.") || contains(raw, "\n'");
            std::string const want = read_markup(raw).text;
            if (roff_text(got) != want)
                fail("the text ", pbt::quoted(raw), " became ", pbt::quoted(got));
            // Fonts: the markup of the developer is left as it is, the library may end bold text with \fR.
            auto fonts = [](std::string const & t)
            {
                std::string r;
                for (size_t k = 0; k + 2 < t.size(); ++k)
                    if (t[k] == '\\' && t[k + 1] == 'f')
                        r += t[k + 2] == 'R' ? 'P' : t[k + 2];
                return r;
            };
            if (fonts(got) != fonts(raw))
                fail("the fonts of ", pbt::quoted(raw), " became ", pbt::quoted(got));
        };
        switch (e.kind)
        {
        case element::section:
            same(joined(p.lines), upper(e.a));
            break;
        case element::subsection:
            same(joined(p.lines), e.a);
            break;
        case element::line:
        {
            std::string const separator = first ? "" : e.paragraph ? ".sp" : ".br";
            if (p.separator != separator)
                fail(e.show(), " is preceded by ", pbt::quoted(p.separator), " instead of ", pbt::quoted(separator));
            same(joined(p.lines), e.a);
            break;
        }
        case element::list_item:
            same(p.key, e.a);
            same(joined(p.lines), e.b);
            break;
        }
        first = e.kind == element::section || e.kind == element::subsection;
    }
    if (special)
        s.label("control characters");
    s.nontrivial(!ps.steps.empty());
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C15",
                        .rule = "a random help page with texts rich in roff control characters, exported as man page, read line by line and compared "
                                "with the given entries; non-trivial: at least one declaration or addition",
                        .check = check,
                        .quick_debug = 5000,
                        .quick_release = 30000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
