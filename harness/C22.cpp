// C22: Version, copyright and short help show the right meta data.
#include "console.hpp"

using namespace verif;

static std::string const licence{
    R"(Copyright (c) 2006-2024, Knut Reinert & Freie Universität Berlin
Copyright (c) 2016-2024, Knut Reinert & MPI für molekulare Genetik
All rights reserved.

Redistribution and use in source and binary forms, with or without
modification, are permitted provided that the following conditions are met:

    * Redistributions of source code must retain the above copyright
      notice, this list of conditions and the following disclaimer.
    * Redistributions in binary form must reproduce the above copyright
      notice, this list of conditions and the following disclaimer in the
      documentation and/or other materials provided with the distribution.
    * Neither the name of Knut Reinert or the FU Berlin nor the names of
      its contributors may be used to endorse or promote products derived
      from this software without specific prior written permission.

THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS IS"
AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE
IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE
ARE DISCLAIMED. IN NO EVENT SHALL KNUT REINERT OR THE FU BERLIN BE LIABLE
FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL
DAMAGES (INCLUDING, BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR
SERVICES; LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY
OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH
DAMAGE.)"};

static void check(source & s)
{
    text_options const o{.markup = false, .newlines = false, .ascii = true, .backslashes = false, .long_words = s.chance(1, 3) ? 6u : 0u};
    page_spec ps = random_page(s, o);
    auto & m = ps.meta;
    // Everything may be empty.
    for (auto * t : {&m.version, &m.date, &m.url, &m.short_copyright, &m.long_copyright, &m.short_description})
    {
        if (s.chance(1, 4))
            t->clear();
        else if (s.chance(1, 3))
            *t = random_page_text(s, o);
    }
    // The copyright texts are printed as they are, line breaks, backslashes and markup included.
    for (auto * t : {&m.short_copyright, &m.long_copyright})
        if (!t->empty() && s.chance(1, 2))
            *t = random_page_text(s, {.markup = true, .newlines = true, .ascii = false, .backslashes = true, .max_words = 30});
    if (s.chance(1, 2))
        m.synopsis.clear();
    for (size_t i = 0, n = s.few(2); i < n; ++i)
        m.synopsis.push_back(s.pick_str({"./a", "./app [OPTIONS] \\fIFILE\\fP", "app\tx", "./app a  b"}));
    unsigned const cols = random_columns(s);
    bool const tty = s.chance(1, 2);
    std::string const page = s.pick_str({"version", "copyright", "short"});
    strings args{"--" + page};
    if (page == "short")
        args.clear();
    else if (s.chance(1, 4))
        args.insert(args.begin() + s.below(2), "--not-declared");
    s.describe(page + " columns: " + std::to_string(cols) + (tty ? " terminal " : " no terminal ") + ps.show());
    std::string const out = print_on(ps, args, cols, tty, false);

    layout l{.usable = usable_width(tty, cols)};
    if (page == "copyright")
    {
        std::string text;
        for (auto const & t : terminal_lines(out, tty))
            text += t.text + "\n";
        text.pop_back();
        std::string const thick(80, '='), thin(80, '-');
        std::string const start = thick + "\nCopyright information for " + m.app_name + ":\n" + thin + "\n";
        if (!text.starts_with(start))
            fail("the copyright page starts with ", pbt::quoted(text.substr(0, 300)));
        text.erase(0, start.size());
        std::string want;
        if (!m.long_copyright.empty())
            want = m.long_copyright;
        else if (!m.short_copyright.empty())
            want = m.app_name + " full copyright information not available. Displaying short copyright information instead:\n" + m.short_copyright;
        else
            want = m.app_name + " copyright information not available.";
        want += "\n" + thick + "\nThis program contains SeqAn code licensed under the following terms:\n" + thin + "\n";
        if (!text.starts_with(want))
            fail("the copyright page shows ", pbt::quoted(text.substr(0, want.size() + 100)), " instead of ", pbt::quoted(want));
        text.erase(0, want.size());
        auto flat = [](std::string const & x)
        {
            std::string r;
            for (auto const & w : words_of(x))
                r += w + " ";
            return r;
        };
        if (flat(text) != flat(licence) || !text.ends_with('\n'))
            fail("the licence is ", pbt::quoted(text));
        s.label(!m.long_copyright.empty() ? "long" : !m.short_copyright.empty() ? "short" : "none");
    }
    else
    {
        add_header(l, m);
        std::vector<element> e;
        if (page == "version")
            page_spec::version_elements(m, e);
        else
        {
            for (auto t : m.synopsis)
            {
                size_t const end = t.find_first_of(" \t");
                t.insert(end == std::string::npos ? t.size() : end, "\\fP");
                e.push_back({.kind = element::line, .a = "\\fB" + t});
            }
            e.push_back({.kind = element::line, .a = "Try -h or --help for more information."});
        }
        for (auto const & x : e)
            l.add(x);
        l.lines.emplace_back();
        compare_lines(out, l, tty);
    }
    s.label(page);
    s.nontrivial(!(m.version.empty() && m.date.empty() && m.long_copyright.empty() && m.short_copyright.empty() && m.synopsis.empty()));
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C22",
                        .rule = "random meta data, each field empty or not, printed as version page, copyright page or short help on a random terminal, "
                                "compared with the reference page; non-trivial: some of the data of these pages is given",
                        .check = check,
                        .quick_debug = 6000,
                        .quick_release = 40000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
