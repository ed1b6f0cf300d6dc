// A model of what has to be on the help pages: the developer's calls are generated together with the list of elements
// (sections, lines, list items) that every page has to show. The pages are read back by independent parsers.
#pragma once

#include "model.hpp"

namespace verif
{

// ------------------------------------------------------------------------------------------------------- styled texts

struct styled // a text without markup, with the style of each character
{
    std::string text;
    std::string style; // ' ' none, 'B' bold, 'I' italic

    void add(std::string_view t, char st)
    {
        text += t;
        style.append(t.size(), st);
    }
    bool operator==(styled const &) const = default;
};

// Reads the documented markup: \fB and \fI until \fP, \- is a dash. Everything else is text.
inline styled read_markup(std::string_view raw)
{
    styled r;
    char st = ' ';
    for (size_t i = 0; i < raw.size();)
    {
        std::string_view rest = raw.substr(i);
        if (rest.starts_with("\\fB") || rest.starts_with("\\fI"))
            st = rest[2], i += 3;
        else if (rest.starts_with("\\fP"))
            st = ' ', i += 3;
        else if (rest.starts_with("\\-"))
            r.add("-", st), i += 2;
        else
            r.add(rest.substr(0, 1), st), ++i;
    }
    return r;
}

inline bool is_space(char c)
{
    return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r';
}

inline strings words_of(std::string_view t)
{
    strings r;
    std::string w;
    for (char c : t)
        if (is_space(c))
        {
            if (!w.empty())
                r.push_back(w);
            w.clear();
        }
        else
            w += c;
    if (!w.empty())
        r.push_back(w);
    return r;
}

inline std::string upper(std::string s)
{
    for (char & c : s)
        if (c >= 'a' && c <= 'z')
            c -= 32;
    return s;
}

inline std::string lower(std::string s)
{
    for (char & c : s)
        if (c >= 'A' && c <= 'Z')
            c += 32;
    return s;
}

// ------------------------------------------------------------------------------------------------------------ elements

struct element
{
    enum kind_t
    {
        section,
        subsection,
        line,
        list_item
    };
    kind_t kind{line};
    std::string a;        // title, text or key, with markup
    std::string b;        // description of a list item, with markup
    bool paragraph{false}; // of a line
    bool library{false};  // a is styled by the library

    std::string show() const
    {
        static char const * const n[] = {"section", "subsection", "line", "list item"};
        return std::string{n[kind]} + (kind == line && paragraph ? " (paragraph) " : " ") + pbt::quoted(a)
             + (kind == list_item ? ": " + pbt::quoted(b) : "");
    }
};

struct text_options
{
    bool markup{true};
    bool newlines{true};
    bool ascii{true};       // only ASCII characters
    bool special{true};     // < > & " '
    bool backslashes{false}; // backslashes that are no markup
    bool control_lines{true}; // . and ' at the beginning of a line
    unsigned max_words{12};
    unsigned long_words{1};  // weight of words longer than a line
};

inline std::string random_word(source & s, text_options const & o)
{
    static strings const plain = {"the", "a", "option", "file", "x", "number", "of", "threads.", "(see", "above)", "1.0", "foo/bar", "e.g.,",
                                  "a-b_c", "100%", "[A]", "{}", "#1", "$HOME", "~", "=", "--help", "-o", "*", "@", "!", "?", "`id`", "f", "fB",
                                  "\x7e", "somewhatlongerword", "internationalization"};
    static strings const special = {"<b>", "</p>", "&amp;", "&", "a<b>c", "\"q\"", "it's", "\"", "<", ">", "&lt;br&gt;", "<!--", "x=\"y\"", "]]>", "&#65;", "'"};
    static strings const control = {".TH", ".", "'", ".br", "'sp", "..", ".\"", ".5", ".so", "'q'"};
    static strings const unicode = {"\xc3\xbc" "ber", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
    static strings const slashes = {"\\", "C:\\dir\\", "\\\\", "\\n", "a\\", "\\f", "\\fX", "\\x\\y", "\\(co", "\\&", "\\e", "\\\"", "\\fb"};
    std::vector<strings const *> pools{&plain, &plain, &plain};
    if (o.special)
        pools.push_back(&special);
    if (o.control_lines)
        pools.push_back(&control);
    if (!o.ascii)
        pools.push_back(&unicode);
    if (o.backslashes)
        pools.push_back(&slashes);
    unsigned const k = s.below(pools.size() * 4 + o.long_words);
    if (k >= pools.size() * 4)
        return std::string(s.range(20, 130), s.pick("wxyz"));
    return s.pick(*pools[k / 4]);
}

inline std::string random_page_text(source & s, text_options const & o)
{
    std::string r;
    size_t n = s.chance(1, 100) ? s.below(500) : s.chance(1, 6) ? s.below(o.max_words * 4 + 1) : s.below(o.max_words + 1);
    char open = 0;
    for (size_t i = 0; i < n; ++i)
    {
        if (i)
            r += s.chance(1, 10) ? (o.newlines ? s.pick_str({"  ", "\t", "\n", "   ", "\n\n"}) : s.pick_str({"  ", "\t"})) : " ";
        std::string w = random_word(s, o);
        if (!o.markup && contains(w, "\\"))
            w = "x";
        if (o.markup && !open && s.chance(1, 8))
        {
            open = s.chance(1, 2) ? 'B' : 'I';
            w = std::string{"\\f"} + open + w;
        }
        if (o.markup && !open && s.chance(1, 40) && !w.ends_with('\\') && !w.ends_with("\\f"))
            w += "\\fP"; // nothing to be reset
        if (open && s.chance(1, 2))
        {
            // A backslash in front of the markup would be ambiguous.
            if (!w.ends_with('\\') && !w.ends_with("\\f"))
            {
                w += "\\fP";
                open = 0;
            }
        }
        if (o.markup && s.chance(1, 16) && !w.ends_with('\\') && !w.ends_with("\\f"))
            w += "\\-";
        r += w;
    }
    if (open)
    {
        if (r.ends_with('\\') || r.ends_with("\\f"))
            r += " x";
        r += "\\fP";
    }
    return r;
}

// Meta data and texts are taken as they are in some places (titles, names), so they have no markup.
inline text_options plain_text(text_options o)
{
    o.markup = false;
    o.newlines = false;
    o.backslashes = false;
    o.max_words = std::min(o.max_words, 5u);
    return o;
}

// ------------------------------------------------------------------------------------------------ default values, types

inline char const * page_type_name(ty t)
{
    static char const * const n[] = {"signed 32 bit integer", "unsigned 8 bit integer", "signed 64 bit integer", "double", "bool",
                                     "std::string", "std::filesystem::path", "verif_app::fruit", "verif_app::range"};
    return n[static_cast<int>(t)];
}

inline std::string quote_string(std::string const & s)
{
    std::string r = "\"";
    for (char c : s)
    {
        if (c == '"' || c == '\\')
            r += '\\';
        r += c;
    }
    return r + "\"";
}

inline std::string shown_value(ty t, std::string const & text)
{
    switch (t)
    {
    case ty::i32:
    case ty::u8:
    case ty::i64:
        return std::to_string(std::strtoll(text.c_str(), nullptr, 10));
    case ty::dbl:
    {
        char b[64];
        std::snprintf(b, sizeof b, "%g", std::strtod(text.c_str(), nullptr));
        return b;
    }
    case ty::boolean:
        return text == "1" || text == "true" ? "1" : "0";
    case ty::str:
    case ty::path:
        return quote_string(text);
    case ty::user:
    {
        std::ostringstream os;
        os << value_of<range>(text);
        return os.str();
    }
    default:
        return text;
    }
}

inline std::string shown_default(decl const & d)
{
    if (!d.list)
        return shown_value(d.type, d.initial_texts.at(0));
    std::string r = "[";
    for (size_t i = 0; i < d.initial_texts.size(); ++i)
        r += (i ? ", " : "") + shown_value(d.type, d.initial_texts[i]);
    return r + "]";
}

// ---------------------------------------------------------------------------------------------------------- page spec

struct page_spec
{
    struct step
    {
        int option{-1};     // index in sp.opts
        int positional{-1}; // index in sp.pos
        int added{-1};      // index in added
    };
    struct addition
    {
        element e;
        bool advanced{false};
    };

    spec sp;
    std::vector<addition> added;
    std::vector<step> steps;
    sharg::parser_meta_data meta;
    bool notifications{false};
    strings first_subcommands;              // given on construction
    std::vector<strings> later_subcommands; // added later

    void declare(sharg::parser & p)
    {
        for (auto const & st : steps)
        {
            if (st.option >= 0)
                spec::declare_option(p, sp.opts[st.option]);
            else if (st.positional >= 0)
                sp.pos[st.positional].value->add_positional(p, sp.pos[st.positional].config());
            else
            {
                auto const & [e, advanced] = added[st.added];
                switch (e.kind)
                {
                case element::section:
                    if (advanced)
                        p.add_section(e.a, advanced);
                    else
                        p.add_section(e.a);
                    break;
                case element::subsection:
                    if (advanced)
                        p.add_subsection(e.a, advanced);
                    else
                        p.add_subsection(e.a);
                    break;
                case element::line:
                    if (advanced)
                        p.add_line(e.a, e.paragraph, advanced);
                    else if (e.paragraph)
                        p.add_line(e.a, e.paragraph);
                    else
                        p.add_line(e.a);
                    break;
                case element::list_item:
                    if (advanced)
                        p.add_list_item(e.a, e.b, advanced);
                    else
                        p.add_list_item(e.a, e.b);
                    break;
                }
            }
        }
    }

    static std::string key_of(decl const & d)
    {
        std::string k;
        if (d.s)
            k += std::string{"\\fB-"} + d.s + "\\fP";
        if (d.s && !d.l.empty())
            k += ", ";
        if (!d.l.empty())
            k += "\\fB--" + d.l + "\\fP";
        return k;
    }

    static std::string type_of(decl const & d)
    {
        std::string const t = std::string{"\\fI"} + page_type_name(d.type) + "\\fP";
        return d.list ? "(\\fIList\\fP of " + t + ")" : "(" + t + ")";
    }

    static std::string text_of(decl const & d, bool positional)
    {
        std::string t = d.desc;
        if (d.flag)
            return t;
        if (positional)
        {
            if (d.list)
                t += " Default: " + shown_default(d);
        }
        else if (!d.default_message.empty())
        {
            bool const quote = !d.list && (d.type == ty::str || d.type == ty::path);
            t += " Default: " + (quote ? quote_string(d.default_message) : d.default_message);
        }
        else if (!d.required)
            t += " Default: " + shown_default(d);
        if (!d.validator.help.empty())
            t += ". " + d.validator.help;
        return t;
    }

    // What has to be on the page behind its header.
    std::vector<element> elements(bool advanced) const
    {
        std::vector<element> r;
        auto section = [&](std::string const & t) { r.push_back({.kind = element::section, .a = t, .library = true}); };
        auto line = [&](std::string const & t, bool paragraph) { r.push_back({.kind = element::line, .a = t, .paragraph = paragraph, .library = true}); };
        auto item = [&](std::string const & k, std::string const & d) { r.push_back({.kind = element::list_item, .a = k, .b = d, .library = true}); };
        if (!meta.synopsis.empty())
        {
            section("Synopsis");
            for (auto t : meta.synopsis)
            {
                size_t e = t.find_first_of(" \t");
                t.insert(e == std::string::npos ? t.size() : e, "\\fP");
                line("\\fB" + t, false);
            }
        }
        if (!meta.description.empty())
        {
            section("Description");
            for (auto const & t : meta.description)
                r.push_back({.kind = element::line, .a = t, .paragraph = true});
        }
        if (!sp.subcommands.empty())
        {
            section("Subcommands");
            line("This program must be invoked with one of the following subcommands:", false);
            for (auto const & t : std::set<std::string>{sp.subcommands.begin(), sp.subcommands.end()})
                line("- \\fB" + t + "\\fP", false);
            line("See the respective help page for further details (e.g. by calling " + meta.app_name + " "
                     + *std::min_element(sp.subcommands.begin(), sp.subcommands.end()) + " -h).",
                 true);
            line("The following options belong to the top-level parser and need to be specified \\fBbefore\\fP the subcommand key word. "
                 "Every argument after the subcommand key word is passed on to the corresponding sub-parser.",
                 true);
        }
        if (!sp.pos.empty())
            section("Positional Arguments");
        for (size_t i = 0; i < sp.pos.size(); ++i)
            item("\\fBARGUMENT-" + std::to_string(i + 1) + "\\fP " + type_of(sp.pos[i]), text_of(sp.pos[i], true));
        section("Options");
        for (auto const & st : steps)
        {
            if (st.positional >= 0)
                continue;
            if (st.option >= 0)
            {
                decl const & d = sp.opts[st.option];
                if (d.hidden || (d.advanced && !advanced))
                    continue;
                item(key_of(d) + (d.flag ? "" : " " + type_of(d)), text_of(d, false));
            }
            else if (!added[st.added].advanced || advanced)
                r.push_back(added[st.added].e);
        }
        r.push_back({.kind = element::subsection, .a = "Common options", .library = true});
        item("\\fB-h\\fP, \\fB--help\\fP", "Prints the help page.");
        item("\\fB-hh\\fP, \\fB--advanced-help\\fP", "Prints the help page including advanced options.");
        item("\\fB--version\\fP", "Prints the version information.");
        item("\\fB--copyright\\fP", "Prints the copyright/license information.");
        item("\\fB--export-help\\fP (std::string)", "Export the help page information. Value must be one of [html, man].");
        if (notifications)
            item("\\fB--version-check\\fP (bool)", "Whether to check for the newest app version. Default: true");
        if (!meta.examples.empty())
        {
            section("Examples");
            for (auto const & t : meta.examples)
                r.push_back({.kind = element::line, .a = t, .paragraph = true});
        }
        version_elements(meta, r);
        bool const legal = !meta.short_copyright.empty() || !meta.long_copyright.empty() || !meta.citation.empty() || !meta.author.empty()
                        || !meta.email.empty();
        if (legal)
        {
            section("Legal");
            if (!meta.short_copyright.empty())
                line("\\fB" + meta.app_name + " Copyright: \\fP" + meta.short_copyright, false);
            if (!meta.author.empty())
                line("\\fBAuthor: \\fP" + meta.author, false);
            if (!meta.email.empty())
                line("\\fBContact: \\fP" + meta.email, false);
            line("\\fBSeqAn Copyright: \\fP2006-2024 Knut Reinert, FU-Berlin; released under the 3-clause BSDL.", false);
            if (!meta.citation.empty())
                line("\\fBIn your academic works please cite: \\fP" + meta.citation, false);
            if (!meta.long_copyright.empty())
                line("For full copyright and/or warranty information see \\fB--copyright\\fP.", false);
        }
        return r;
    }

    static void version_elements(sharg::parser_meta_data const & meta, std::vector<element> & r)
    {
        auto section = [&](std::string const & t) { r.push_back({.kind = element::section, .a = t, .library = true}); };
        auto line = [&](std::string const & t) { r.push_back({.kind = element::line, .a = t, .paragraph = false, .library = true}); };
        section("Version");
        line("\\fBLast update: \\fP" + meta.date);
        line("\\fB" + meta.app_name + " version: \\fP" + meta.version);
        line(std::string{"\\fBSharg version: \\fP"} + sharg::sharg_version_cstring);
        if (!meta.url.empty())
        {
            section("Url");
            line(meta.url);
        }
    }

    sharg::parser make(strings const & args)
    {
        sharg::parser p = make_parser(meta.app_name, args, sp.use_argv, notifications ? sharg::update_notifications::on : sharg::update_notifications::off,
                                      first_subcommands);
        p.info = meta;
        for (auto const & t : later_subcommands)
            p.add_subcommands(t);
        declare(p);
        return p;
    }

    // The page as it is printed.
    run_result print(strings const & args)
    {
        sp.reset();
        run_result r = observe(
            [&]
            {
                sharg::parser p = make(args);
                p.parse();
            });
        if (r.kind != oc::exited || r.code != 0)
            fail("requesting ", pbt::show(args), " ended with ", r.show());
        if (!r.err.empty())
            fail("requesting ", pbt::show(args), " printed to standard error: ", pbt::quoted(r.err));
        return r;
    }

    std::string show() const
    {
        std::string r = "meta: ";
        auto add = [&](char const * n, std::string const & v)
        {
            if (!v.empty())
                r += std::string{n} + "=" + pbt::quoted(v) + " ";
        };
        add("name", meta.app_name);
        add("version", meta.version);
        add("short_description", meta.short_description);
        add("author", meta.author);
        add("email", meta.email);
        add("date", meta.date);
        add("url", meta.url);
        add("short_copyright", meta.short_copyright);
        add("long_copyright", meta.long_copyright);
        add("citation", meta.citation);
        add("man_page_title", meta.man_page_title);
        if (!meta.description.empty())
            r += "description=" + pbt::show(meta.description) + " ";
        if (!meta.synopsis.empty())
            r += "synopsis=" + pbt::show(meta.synopsis) + " ";
        if (!meta.examples.empty())
            r += "examples=" + pbt::show(meta.examples) + " ";
        if (!sp.subcommands.empty())
            r += "subcommands=" + pbt::show(sp.subcommands) + " ";
        if (notifications)
            r += "notifications ";
        for (auto const & st : steps)
        {
            r += "| ";
            if (st.option >= 0 || st.positional >= 0)
            {
                decl const & d = st.option >= 0 ? sp.opts[st.option] : sp.pos[st.positional];
                r += (st.positional >= 0 ? "positional " : "") + d.show() + (d.advanced ? " advanced" : "") + (d.hidden ? " hidden" : "") + " "
                   + pbt::quoted(d.desc);
                if (!d.default_message.empty())
                    r += " default_message " + pbt::quoted(d.default_message);
                if (!d.validator.help.empty())
                    r += " validator " + pbt::quoted(d.validator.help);
            }
            else
                r += added[st.added].e.show() + (added[st.added].advanced ? " advanced" : "");
            r += " ";
        }
        return r;
    }
};

inline std::string non_empty_title(source & s, text_options const & o)
{
    text_options p = plain_text(o);
    p.control_lines = false;
    std::string t = random_page_text(s, p);
    return words_of(t).empty() ? "Title" : t;
}

inline std::string random_meta(source & s, text_options const & o)
{
    return s.chance(1, 2) ? random_page_text(s, o) : "";
}

inline page_spec random_page(source & s, text_options const & o)
{
    page_spec r;
    text_options const plain = plain_text(o);
    text_options inner = o; // texts that are surrounded by others
    id_pool ids;
    bool const subcommands = s.chance(1, 6);
    r.notifications = s.chance(1, 4);
    r.meta.app_name = s.pick_str({"test_app", "a", "App-2", "penguin_parade"});
    if (s.chance(1, 2))
        r.meta.short_description = random_page_text(s, plain);
    r.meta.version = s.chance(1, 2) ? s.pick_str({"1.0.0", "2.13.7-rc.1", "v"}) : random_page_text(s, plain);
    r.meta.date = random_meta(s, plain);
    r.meta.url = s.chance(1, 3) ? s.pick_str({"https://example.org/?a=b&c=d", "x"}) : "";
    r.meta.author = random_meta(s, plain);
    r.meta.email = random_meta(s, plain);
    r.meta.short_copyright = random_meta(s, inner);
    r.meta.long_copyright = random_meta(s, inner);
    r.meta.citation = random_meta(s, inner);
    {
        text_options title = plain;
        title.special = false;
        r.meta.man_page_title = random_meta(s, title);
        r.meta.man_page_section = 1 + s.below(9);
    }
    for (size_t i = 0, n = s.few(3); i < n; ++i)
        r.meta.description.push_back(random_page_text(s, o));
    for (size_t i = 0, n = s.few(2); i < n; ++i)
        r.meta.synopsis.push_back(s.chance(1, 2) ? "./test_app [\\fIOPTIONS\\fP] FILE" : "./a " + random_page_text(s, plain));
    for (size_t i = 0, n = s.few(2); i < n; ++i)
        r.meta.examples.push_back(random_page_text(s, o));
    if (subcommands)
        for (size_t i = 0, n = 1 + s.below(s.chance(1, 20) ? 20 : 3); i < n; ++i)
            r.sp.subcommands.push_back(s.chance(1, 8) ? "sub" + std::to_string(i) : s.pick_str({"build", "push", "a-b", "x", "A"}));
    // Some of them are added later, also repeatedly.
    for (auto const & n : r.sp.subcommands)
    {
        if (s.chance(1, 3))
            r.later_subcommands.push_back({n});
        else
            r.first_subcommands.push_back(n);
    }
    for (size_t i = 0, n = r.sp.subcommands.empty() || !s.chance(1, 3) ? 0 : 1 + s.below(3); i < n; ++i)
        r.later_subcommands.push_back({s.pick(r.sp.subcommands), s.pick(r.sp.subcommands)});

    auto value = [&](ty t) -> std::string
    {
        if (t == ty::en)
            return "banana"; // has only one name
        if (t == ty::str || t == ty::path)
        {
            text_options v = plain;
            v.max_words = 3;
            std::string x = random_page_text(s, v);
            std::erase(x, '"');
            return x;
        }
        return random_value(s, t).text;
    };
    auto fill = [&](decl & d)
    {
        d.type = random_type(s, d.list);
        size_t n = d.list ? s.few(3) : 1;
        for (size_t i = 0; i < n; ++i)
            d.initial_texts.push_back(value(d.type));
        d.desc = random_page_text(s, o);
        if (s.chance(1, 3))
            d.validator.help = random_page_text(s, o);
    };
    bool const many = s.chance(1, 40);
    size_t const n = s.below(many ? 50 : 10);
    for (size_t i = 0; i < n; ++i)
    {
        page_spec::step st;
        unsigned const k = s.below(10);
        if (k < 4)
        {
            decl d;
            ids.give(s, d);
            d.list = s.chance(1, 3);
            fill(d);
            d.required = s.chance(1, 4);
            d.advanced = s.chance(1, 4);
            d.hidden = s.chance(1, 8);
            if (!d.required && s.chance(1, 4))
            {
                d.default_message = random_page_text(s, !d.list && (d.type == ty::str || d.type == ty::path) ? plain : o);
                if (!d.list && (d.type == ty::str || d.type == ty::path))
                    std::erase(d.default_message, '"');
            }
            st.option = static_cast<int>(r.sp.opts.size());
            r.sp.opts.push_back(std::move(d));
        }
        else if (k == 4)
        {
            decl d;
            d.flag = true;
            ids.give(s, d);
            d.desc = random_page_text(s, o);
            d.advanced = s.chance(1, 4);
            d.hidden = s.chance(1, 8);
            st.option = static_cast<int>(r.sp.opts.size());
            r.sp.opts.push_back(std::move(d));
        }
        else if (k < 7)
        {
            if (subcommands || (!r.sp.pos.empty() && r.sp.pos.back().list))
                continue;
            decl d;
            d.list = s.chance(1, many ? 30 : 3);
            fill(d);
            st.positional = static_cast<int>(r.sp.pos.size());
            r.sp.pos.push_back(std::move(d));
        }
        else
        {
            page_spec::addition a;
            a.advanced = s.chance(1, 4);
            a.e.kind = static_cast<element::kind_t>(s.below(4));
            switch (a.e.kind)
            {
            case element::section:
            case element::subsection:
                a.e.a = non_empty_title(s, o);
                break;
            case element::line:
                a.e.a = random_page_text(s, o);
                a.e.paragraph = s.chance(1, 2);
                break;
            default:
            {
                text_options key = o;
                key.max_words = 3;
                key.newlines = false;
                a.e.a = random_page_text(s, key);
                a.e.b = random_page_text(s, o);
            }
            }
            st.added = static_cast<int>(r.added.size());
            r.added.push_back(std::move(a));
        }
        r.steps.push_back(st);
    }
    r.sp.use_argv = s.chance(1, 2);
    r.sp.app = r.meta.app_name;
    r.sp.reset();
    return r;
}

// ------------------------------------------------------------------------------------------------------ HTML, read back

struct html_page
{
    struct piece
    {
        std::string where; // h1, h2, h3, title, div, p, dt, dd
        styled text;
        bool ends_line{false}; // <br>
        bool ends_paragraph{false};
        size_t list{0}; // number of the <dl> (1..) it is in
    };
    std::vector<piece> pieces;
};

inline std::string decode_entity(std::string const & e)
{
    static std::map<std::string, std::string> const known = {{"quot", "\""}, {"apos", "'"},  {"amp", "&"},
                                                             {"lt", "<"},    {"gt", ">"},    {"mdash", "\xe2\x80\x94"},
                                                             {"#39", "'"},   {"#34", "\""},  {"nbsp", "\xc2\xa0"}, {"#92", "\\"}};
    auto it = known.find(e);
    if (it == known.end())
        fail("unknown entity &", e, "; on the page");
    return it->second;
}

// Tokenizes the page, checks the nesting of its elements and collects the texts.
inline html_page read_html(std::string const & page)
{
    html_page r;
    strings stack;
    static std::map<std::string, std::set<std::string>> const parents = {{"html", {""}},
                                                                         {"head", {"html"}},
                                                                         {"body", {"html"}},
                                                                         {"meta", {"head"}},
                                                                         {"title", {"head"}},
                                                                         {"h1", {"body"}},
                                                                         {"h2", {"body"}},
                                                                         {"h3", {"body"}},
                                                                         {"div", {"body"}},
                                                                         {"p", {"body"}},
                                                                         {"dl", {"body"}},
                                                                         {"dt", {"dl"}},
                                                                         {"dd", {"dl"}},
                                                                         {"br", {"p"}},
                                                                         {"em", {"h1", "h2", "h3", "div", "p", "dt", "dd", "em", "strong"}},
                                                                         {"strong", {"h1", "h2", "h3", "div", "p", "dt", "dd", "em", "strong"}}};
    size_t i = 0, lists = 0;
    if (lower(page.substr(0, 14)) != "<!doctype html")
        fail("the page does not start with a document type");
    i = page.find('>');
    if (i == std::string::npos)
        fail("the document type is not closed");
    ++i;
    std::string block; // the block element that collects text
    styled text;
    auto style = [&]
    {
        for (size_t k = stack.size(); k > 0; --k)
            if (stack[k - 1] == "em" || stack[k - 1] == "strong")
                return stack[k - 1] == "em" ? 'I' : 'B';
        return ' ';
    };
    auto flush = [&](bool br, bool closes)
    {
        r.pieces.push_back({block, text, br, closes, lists});
        text = {};
    };
    static std::set<std::string> const blocks = {"title", "h1", "h2", "h3", "div", "p", "dt", "dd"};
    unsigned html = 0, body = 0;
    while (i < page.size())
    {
        char const c = page[i];
        if (c == '<')
        {
            size_t const e = page.find('>', i);
            if (e == std::string::npos)
                fail("a tag is not closed: ", pbt::quoted(page.substr(i, 40)));
            std::string tag = page.substr(i + 1, e - i - 1);
            i = e + 1;
            bool const close = tag.starts_with('/');
            if (close)
                tag.erase(0, 1);
            std::string const element = tag.substr(0, tag.find(' '));
            if (!parents.contains(element))
                fail("unexpected element <", tag, ">");
            if (element != tag && element != "html" && element != "meta")
                fail("unexpected attributes in <", tag, ">");
            if (close)
            {
                if (stack.empty() || stack.back() != element)
                    fail("</", element, "> closes ", stack.empty() ? "nothing" : "<" + stack.back() + ">");
                stack.pop_back();
                if (blocks.contains(element))
                {
                    if (element == "p") // the rest of the paragraph
                    {
                        bool const behind_br = !r.pieces.empty() && r.pieces.back().where == "p" && r.pieces.back().ends_line
                                            && !r.pieces.back().ends_paragraph;
                        if (!behind_br || text.text != "\n")
                            flush(false, true);
                        else
                        {
                            text = {};
                            r.pieces.back().ends_paragraph = true;
                        }
                    }
                    else
                        flush(false, false);
                    block.clear();
                }
            }
            else
            {
                std::string const parent = stack.empty() ? "" : stack.back();
                if (!parents.at(element).contains(parent))
                    fail("<", element, "> in <", parent, ">");
                if (element == "dl")
                    ++lists;
                html += element == "html";
                body += element == "body";
                if (element == "br")
                    flush(true, false);
                else if (element != "meta")
                    stack.push_back(element);
                if (blocks.contains(element))
                    block = element;
            }
        }
        else
        {
            std::string t(1, c);
            size_t len = 1;
            if (c == '&')
            {
                size_t const e = page.find(';', i);
                if (e == std::string::npos || e - i > 8)
                    fail("an unescaped & on the page: ", pbt::quoted(page.substr(i, 20)));
                t = decode_entity(page.substr(i + 1, e - i - 1));
                len = e - i + 1;
            }
            else if (c == '>')
                fail("an unescaped > on the page: ", pbt::quoted(page.substr(i, 20)));
            if (block.empty())
            {
                if (!is_space(c))
                    fail("text outside of all elements: ", pbt::quoted(page.substr(i, 20)));
            }
            else
                text.add(t, style());
            i += len;
        }
    }
    if (!stack.empty())
        fail("<", stack.back(), "> is not closed");
    if (html != 1 || body != 1)
        fail("the page has ", html, " <html> and ", body, " <body> elements");
    return r;
}

// ------------------------------------------------------------------------------------------------------ roff, read back

struct roff_page
{
    std::string title; // arguments of .TH
    std::string name;  // text of the NAME section
    struct piece
    {
        element::kind_t kind;
        strings lines;   // lines of source text (title; line; description)
        std::string key;
        std::string separator; // .sp, .br or nothing
    };
    std::vector<piece> pieces;
};

// The text of a source line: \& is nothing, \- a dash, \f? a font.
inline std::string roff_text(std::string_view l, bool drop_fonts = true)
{
    std::string r;
    for (size_t i = 0; i < l.size(); ++i)
    {
        std::string_view rest = l.substr(i);
        if (rest.starts_with("\\&"))
            ++i;
        else if (rest.starts_with("\\-"))
            r += '-', ++i;
        else if (rest.starts_with("\\e"))
            r += '\\', ++i;
        else if (drop_fonts && (rest.starts_with("\\fB") || rest.starts_with("\\fI") || rest.starts_with("\\fP") || rest.starts_with("\\fR")))
            i += 2;
        else
            r += l[i];
    }
    return r;
}

inline roff_page read_roff(std::string const & page)
{
    roff_page r;
    std::istringstream is{page};
    std::string l;
    if (!page.ends_with('\n'))
        fail("the man page does not end with a newline");
    std::getline(is, l);
    if (!l.starts_with(".TH "))
        fail("the man page starts with ", pbt::quoted(l));
    r.title = l.substr(4);
    std::getline(is, l);
    if (l != ".SH NAME")
        fail("the second line is ", pbt::quoted(l));
    bool in_name = true, want_key = false, text_allowed = true;
    std::string separator;
    roff_page::piece * current = nullptr;
    bool first_name = true;
    while (std::getline(is, l))
    {
        bool const request = l.starts_with('.') || l.starts_with('\'');
        if (want_key)
        {
            if (request)
                fail("a request follows .TP: ", pbt::quoted(l));
            current->key = l;
            want_key = false;
            continue;
        }
        if (request)
        {
            if (l.starts_with(".SH ") || l.starts_with(".SS "))
            {
                r.pieces.push_back({l[2] == 'H' ? element::section : element::subsection, {l.substr(4)}, "", separator});
                current = nullptr;
                in_name = false;
                if (!separator.empty())
                    fail("a break is followed by ", pbt::quoted(l));
            }
            else if (l == ".TP")
            {
                if (in_name || !separator.empty())
                    fail("unexpected .TP");
                r.pieces.push_back({element::list_item, {}, "", ""});
                current = &r.pieces.back();
                want_key = true;
            }
            else if (l == ".sp" || l == ".br")
            {
                if (in_name || !separator.empty())
                    fail("unexpected ", l);
                separator = l;
                current = nullptr;
            }
            else
                fail("a line that is taken as a request: ", pbt::quoted(l));
            continue;
        }
        if (in_name)
        {
            r.name += (first_name ? "" : "\n") + l;
            first_name = false;
            continue;
        }
        if (!current)
        {
            r.pieces.push_back({element::line, {}, "", separator});
            current = &r.pieces.back();
            separator.clear();
        }
        current->lines.push_back(l);
    }
    (void)text_allowed;
    if (want_key || !separator.empty())
        fail("the page ends with a request that needs text");
    return r;
}

} // namespace verif
