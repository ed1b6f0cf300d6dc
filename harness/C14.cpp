// C14: The exported HTML page is well-formed and escapes all text.
#include "page.hpp"

using namespace verif;


static styled trimmed(styled t)
{
    if (t.text.starts_with('\n'))
        t.text.erase(0, 1), t.style.erase(0, 1);
    if (t.text.ends_with('\n'))
        t.text.pop_back(), t.style.pop_back();
    return t;
}

static void check_page(source & s, page_spec & ps)
{
    std::string const page = ps.print(s.chance(1, 2) ? strings{"--export-help=html"} : strings{"--export-help", "html"}).out;
    html_page const h = read_html(page);
    size_t i = 0;
    auto next = [&](char const * where) -> html_page::piece const &
    {
        if (i >= h.pieces.size())
            fail("the page ends where <", where, "> is expected");
        if (h.pieces[i].where != where)
            fail("<", h.pieces[i].where, "> ", pbt::quoted(h.pieces[i].text.text), " where <", where, "> is expected");
        return h.pieces[i++];
    };
    auto same = [&](styled const & got, std::string const & raw, bool markup = true)
    {
        styled want;
        if (markup)
            want = read_markup(raw);
        else
            want.add(raw, ' ');
        if (got.text != want.text)
            fail("the text ", pbt::quoted(raw), " became ", pbt::quoted(got.text));
        if (got.style != want.style)
            fail("the text ", pbt::quoted(raw), " is styled ", pbt::quoted(got.style), " instead of ", pbt::quoted(want.style));
    };
    // Header
    same(next("title").text, ps.meta.app_name + " \xe2\x80\x94 " + ps.meta.short_description, false);
    same(next("h1").text, ps.meta.app_name);
    same(next("div").text, ps.meta.short_description);
    // Body
    std::vector<element> const elements = ps.elements(true);
    size_t last_list = 0;
    bool in_list = false;
    for (size_t k = 0; k < elements.size(); ++k)
    {
        element const & e = elements[k];
        switch (e.kind)
        {
        case element::section:
            same(next("h2").text, e.a);
            break;
        case element::subsection:
            same(next("h3").text, e.a);
            break;
        case element::line:
        {
            auto const & p = next("p");
            same(trimmed(p.text), e.a);
            if (p.ends_line == e.paragraph)
                fail("the line ", pbt::quoted(e.a), e.paragraph ? " does not end its paragraph" : " is not followed by a line break");
            bool const last = e.paragraph || k + 1 == elements.size() || elements[k + 1].kind != element::line;
            if (p.ends_paragraph != last)
                fail("the paragraph ", last ? "does not end" : "ends", " after ", pbt::quoted(e.a));
            break;
        }
        case element::list_item:
        {
            auto const & key = next("dt");
            same(key.text, e.a);
            auto const & text = next("dd");
            same(text.text, e.b);
            if (key.list != text.list || in_list != (key.list == last_list) || (!in_list && key.list != last_list + 1))
                fail("the list item ", pbt::quoted(e.a), " is in list ", key.list, " after list ", last_list);
            last_list = key.list;
            break;
        }
        }
        in_list = e.kind == element::list_item;
    }
    if (i != h.pieces.size())
        fail("additional text on the page: ", pbt::quoted(h.pieces[i].text.text));
}

static void check(source & s)
{
    page_spec ps = random_page(s, {.ascii = s.chance(1, 2), .backslashes = s.chance(2, 3)});
    // Meta data may contain everything.
    auto nasty = [&](std::string & t)
    {
        if (s.chance(1, 4))
            t = random_bytes(s, 12);
        std::erase_if(t, [](char c) { return c == '\\' || c == '\n' || c == '\0'; });
    };
    nasty(ps.meta.short_description);
    nasty(ps.meta.date);
    nasty(ps.meta.version);
    nasty(ps.meta.author);
    nasty(ps.meta.url);
    for (auto & a : ps.added)
        if (s.chance(1, 4))
        {
            nasty(a.e.a);
            nasty(a.e.b);
        }
    for (auto & a : ps.added) // markup that lasts until the end of the text
        for (std::string * t : {&a.e.a, &a.e.b})
            if (!t->empty() && s.chance(1, 8))
                *t += s.pick_str({" \\fBx", " \\fIx y", " \\fB a\\-b <i>"});
    for (auto & d : ps.sp.opts)
        if (s.chance(1, 6))
            nasty(d.desc);
    s.describe(ps.show());
    check_page(s, ps);
    std::string all = ps.show();
    bool const special = all.find_first_of("<>&\"\\") != std::string::npos;
    s.nontrivial(special && !ps.steps.empty());
    if (!ps.added.empty())
        s.label("additions");
    if (!ps.sp.subcommands.empty())
        s.label("subcommands");
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C14",
                        .rule = "a random help page with texts rich in HTML characters, entities, backslashes and markup, exported as HTML, read by an "
                                "independent tokenizer that checks the nesting, and compared with the given texts, characters and styles; non-trivial: "
                                "there are special characters and at least one declaration or addition",
                        .check = check,
                        .quick_debug = 5000,
                        .quick_release = 30000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
