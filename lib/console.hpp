// The layout of texts on the console: a terminal emulation and a reference layout.
#pragma once

#include "page.hpp"

namespace verif
{

// Terminal emulation: the styled lines of the output.
inline std::vector<styled> terminal_lines(std::string const & out, bool tty)
{
    std::vector<styled> r(1);
    char st = ' ';
    for (size_t i = 0; i < out.size(); ++i)
    {
        std::string_view rest = std::string_view{out}.substr(i);
        if (rest[0] == '\033')
        {
            if (!tty)
                fail("a terminal escape sequence although standard output is no terminal: ", pbt::quoted(rest.substr(0, 20)));
            if (rest.starts_with("\033[4m"))
                st = 'I';
            else if (rest.starts_with("\033[1m"))
                st = 'B';
            else if (rest.starts_with("\033[0m"))
                st = ' ';
            else
                fail("an unknown escape sequence: ", pbt::quoted(rest.substr(0, 20)));
            i += 3;
        }
        else if (rest[0] == '\n')
            r.emplace_back();
        else
            r.back().add(rest.substr(0, 1), st);
    }
    if (st != ' ')
        fail("the style is not reset at the end of the page");
    return r;
}

struct layout
{
    size_t usable;
    std::vector<styled> lines;
    bool blank_first{false};
    std::set<std::string> seen;

    static std::vector<styled> words(styled const & t)
    {
        std::vector<styled> r;
        styled w;
        for (size_t i = 0; i < t.text.size(); ++i)
            if (is_space(t.text[i]))
            {
                if (!w.text.empty())
                    r.push_back(w);
                w = {};
            }
            else
                w.add(t.text.substr(i, 1), t.style[i]);
        if (!w.text.empty())
            r.push_back(w);
        return r;
    }

    static void append(styled & l, styled const & w)
    {
        l.text += w.text;
        l.style += w.style;
    }

    // The first line may already contain something.
    void text(styled first, styled const & t, size_t indent)
    {
        styled l = first;
        l.add(std::string(indent - l.text.size(), ' '), ' ');
        bool fresh = true;
        for (auto const & w : words(t))
        {
            if (!fresh && l.text.size() + 1 + w.text.size() > usable)
            {
                lines.push_back(l);
                l = {};
                l.add(std::string(indent, ' '), ' ');
                fresh = true;
                seen.insert("wrapped");
            }
            if (!fresh)
                l.add(" ", ' ');
            if (fresh && indent + w.text.size() > usable)
                seen.insert("long word");
            append(l, w);
            fresh = false;
        }
        lines.push_back(l);
    }

    void add(element const & e)
    {
        auto blank = [&]
        {
            if (blank_first)
                lines.emplace_back();
        };
        styled t;
        switch (e.kind)
        {
        case element::section:
            lines.emplace_back();
            t.add(upper(e.a), 'B');
            lines.push_back(t);
            blank_first = false;
            break;
        case element::subsection:
            lines.emplace_back();
            t.add("  ", ' ');
            t.add(e.a, 'B');
            lines.push_back(t);
            blank_first = false;
            break;
        case element::line:
            blank();
            text({}, read_markup(e.a), 4);
            blank_first = e.paragraph;
            break;
        case element::list_item:
            blank();
            t.add("    ", ' ');
            append(t, read_markup(e.a));
            if (e.a.size() <= 4) // the key and the text share a line
                seen.insert("short key");
            else
            {
                lines.push_back(t);
                t = {};
            }
            text(t, read_markup(e.b), 10);
            blank_first = false;
        }
    }
};

inline size_t usable_width(bool tty, unsigned cols)
{
    unsigned const width = tty && cols > 0 ? cols : 80;
    return std::min(std::max(width, 40u), 120u) - 2;
}

inline void add_header(layout & l, sharg::parser_meta_data const & meta)
{
    std::string const header = meta.app_name + (meta.short_description.empty() ? "" : " - " + meta.short_description);
    styled h;
    h.add(header, ' ');
    l.lines.push_back(h);
    h = {};
    h.add(std::string(header.size(), '='), ' ');
    l.lines.push_back(h);
}

inline void compare_lines(std::string const & out, layout & l, bool tty)
{
    std::vector<styled> got = terminal_lines(out, tty);
    auto visible = [&](styled t) // without trailing space; the style of spaces does not matter
    {
        size_t n = t.text.find_last_not_of(' ') + 1;
        t.text.resize(n);
        t.style.resize(n);
        for (size_t i = 0; i < n; ++i)
            if (t.text[i] == ' ' || !tty)
                t.style[i] = ' ';
        return t;
    };
    for (size_t i = 0; i < std::max(got.size(), l.lines.size()); ++i)
    {
        if (i >= got.size())
            fail("line ", i + 1, " is missing: ", pbt::quoted(l.lines[i].text));
        if (i >= l.lines.size())
            fail("an additional line: ", pbt::quoted(got[i].text));
        styled const a = visible(l.lines[i]), b = visible(got[i]);
        if (a.text != b.text)
            fail("line ", i + 1, " is ", pbt::quoted(b.text), " instead of ", pbt::quoted(a.text), " with ", l.usable, " usable columns");
        if (a.style != b.style)
            fail("line ", i + 1, " ", pbt::quoted(b.text), " is styled ", pbt::quoted(b.style), " instead of ", pbt::quoted(a.style));
    }
}

inline unsigned random_columns(source & s)
{
    switch (s.below(4))
    {
    case 0:
        return s.pick(std::vector<unsigned>{80, 0, 1, 39, 40, 41, 42, 79, 81, 118, 119, 120, 121, 122, 300, 65535});
    case 1:
        return s.range(38, 124);
    case 2:
        return s.range(40, 60);
    default:
        return s.below(301);
    }
}

// Prints a page with standard output connected to a terminal (or not).
inline std::string print_on(page_spec & ps, strings const & args, unsigned cols, bool tty, bool others)
{
    pseudo_terminal pty{cols};
    if (!pty.ok())
        throw pbt::discard{};
    if (tty)
        pty.attach(1);
    if (others)
    {
        pty.attach(0);
        pty.attach(2);
    }
    return ps.print(args).out;
}

} // namespace verif
