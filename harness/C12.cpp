// C12: Help pages document exactly the declared interface.
#include "page.hpp"

using namespace verif;

static strings expected_words(page_spec const & ps, std::string const & page)
{
    bool const upper_titles = page != "html";
    strings r;
    auto add = [&](std::string const & raw)
    {
        for (auto & w : words_of(read_markup(raw).text))
            r.push_back(w);
    };
    for (auto const & e : ps.elements(page != "help"))
    {
        std::string t = e.a;
        if (e.kind == element::section && upper_titles)
            t = upper(t);
        add(t);
        add(e.b);
    }
    return r;
}

static void compare_words(strings const & expected, strings const & got, std::string const & page)
{
    if (expected == got)
        return;
    size_t i = 0;
    while (i < expected.size() && i < got.size() && expected[i] == got[i])
        ++i;
    auto some = [&](strings const & v)
    {
        return pbt::show(strings(v.begin() + std::min(v.size(), i > 2 ? i - 2 : 0), v.begin() + std::min(v.size(), i + 6)));
    };
    fail("the ", page, " page differs at word ", i, ": expected ", some(expected), " but there is ", some(got));
}

static strings console_words(std::string const & out, page_spec const & ps)
{
    strings got = words_of(out);
    strings header = words_of(ps.meta.app_name + (ps.meta.short_description.empty() ? "" : " - " + ps.meta.short_description));
    std::string const underline(ps.meta.app_name.size() + (ps.meta.short_description.empty() ? 0 : 3 + ps.meta.short_description.size()), '=');
    header.push_back(underline);
    if (got.size() < header.size() || !std::equal(header.begin(), header.end(), got.begin()))
        fail("the page does not start with ", pbt::show(header), " but with ", pbt::quoted(out.substr(0, 200)));
    got.erase(got.begin(), got.begin() + header.size());
    return got;
}

static strings html_words(std::string const & out, page_spec const & ps)
{
    html_page const h = read_html(out);
    strings got;
    std::map<std::string, strings> head;
    for (auto const & p : h.pieces)
    {
        strings const w = words_of(p.text.text);
        if (p.where == "title" || p.where == "h1" || p.where == "div")
            head[p.where].insert(head[p.where].end(), w.begin(), w.end());
        else
            got.insert(got.end(), w.begin(), w.end());
    }
    strings title = words_of(ps.meta.app_name + " \xe2\x80\x94 " + ps.meta.short_description);
    if (head["title"] != title || head["h1"] != words_of(ps.meta.app_name) || head["div"] != words_of(ps.meta.short_description))
        fail("the header of the HTML page is ", pbt::show(head["title"]), pbt::show(head["h1"]), pbt::show(head["div"]));
    return got;
}

static strings man_words(std::string const & out, page_spec const & ps)
{
    roff_page const m = read_roff(out);
    strings const name = words_of(roff_text(m.name));
    if (name != words_of(ps.meta.app_name + " - " + ps.meta.short_description))
        fail("the NAME section is ", pbt::show(name));
    strings got;
    auto add = [&](std::string const & t)
    {
        for (auto & w : words_of(roff_text(t)))
            got.push_back(w);
    };
    for (auto const & p : m.pieces)
    {
        add(p.key);
        for (auto const & l : p.lines)
            add(l);
    }
    return got;
}

static void library_validators(source & s);

static void check(source & s)
{
    if (s.chance(1, 10))
        return library_validators(s);
    page_spec ps = random_page(s, {.ascii = s.chance(1, 2)});
    s.describe(ps.show());
    unsigned hidden = 0, advanced = 0;
    for (auto const & d : ps.sp.opts)
        hidden += d.hidden, advanced += d.advanced && !d.hidden;
    for (auto const & a : ps.added)
        advanced += a.advanced;
    strings const pages = {"help", "advanced", "html", "man"};
    static std::map<std::string, std::vector<strings>> const requests = {{"help", {{"-h"}, {"--help"}}},
                                                                         {"advanced", {{"-hh"}, {"--advanced-help"}}},
                                                                         {"html", {{"--export-help", "html"}, {"--export-help=html"}}},
                                                                         {"man", {{"--export-help", "man"}, {"--export-help=man"}}}};
    for (auto const & page : pages)
    {
        std::string const out = ps.print(s.pick(requests.at(page))).out;
        strings const got = page == "html" ? html_words(out, ps) : page == "man" ? man_words(out, ps) : console_words(out, ps);
        compare_words(expected_words(ps, page), got, page);
    }
    if (hidden)
        s.label("hidden");
    if (advanced)
        s.label("advanced");
    if (!ps.sp.pos.empty())
        s.label("positional options");
    if (!ps.sp.subcommands.empty())
        s.label("subcommands");
    s.nontrivial(ps.steps.size() >= 2);
}

// Every supported type is named, alone and in a list, with its default value.
template <typename T>
static void one_type(T value, std::string const & type, std::string const & shown)
{
    std::string const list_shown = "[" + shown + ", " + shown + "]";
    for (strings const & args : {strings{"--help"}, strings{"-hh"}, strings{"--export-help=man"}, strings{"--export-help=html"}})
    {
        T scalar = value;
        std::vector<T> list{value, value};
        std::deque<T> none{};
        std::list<T> positional_list{value, value};
        T positional = value;
        run_result r = observe(
            [&]
            {
                sharg::parser p = make_parser("test_app", args, false);
                p.add_option(scalar, sharg::config{.short_id = 'a', .description = "first"});
                p.add_option(list, sharg::config{.long_id = "bbb", .description = "second"});
                p.add_option(none, sharg::config{.short_id = 'c', .long_id = "ccc", .description = "third"});
                p.add_positional_option(positional, sharg::config{.description = "fourth"});
                p.add_positional_option(positional_list, sharg::config{.description = "fifth"});
                p.parse();
            });
        if (r.kind != oc::exited)
            fail("help for ", type, " ended with ", r.show());
        std::string text = r.out;
        if (args[0] == "--export-help=html")
        {
            text.clear();
            for (auto const & p : read_html(r.out).pieces)
                text += p.text.text + "\n";
        }
        else if (args[0] == "--export-help=man")
            text = roff_text(r.out);
        std::string flat;
        for (auto const & w : words_of(text))
            flat += (flat.empty() ? "" : " ") + w;
        for (std::string const & want : {"-a (" + type + ") first Default: " + shown,
                                         "--bbb (List of " + type + ") second Default: " + list_shown,
                                         "-c, --ccc (List of " + type + ") third Default: []",
                                         "ARGUMENT-1 (" + type + ") fourth ",
                                         "ARGUMENT-2 (List of " + type + ") fifth Default: " + list_shown})
            if (!contains(flat, want))
                fail("the page for ", args[0], " does not contain ", pbt::quoted(want), ": ", pbt::quoted(flat.substr(0, 700)));
    }
}

enum class plain_enum
{
    one,
    two
};

inline std::unordered_map<std::string, plain_enum> enumeration_names(plain_enum)
{
    return {{"one", plain_enum::one}, {"two", plain_enum::two}};
}

static void types(source &)
{
    one_type<int8_t>(-5, "signed 8 bit integer", "-5");
    one_type<uint8_t>(65, "unsigned 8 bit integer", "65");
    one_type<int16_t>(-300, "signed 16 bit integer", "-300");
    one_type<uint16_t>(65535, "unsigned 16 bit integer", "65535");
    one_type<int32_t>(-70000, "signed 32 bit integer", "-70000");
    one_type<uint32_t>(4294967295u, "unsigned 32 bit integer", "4294967295");
    one_type<int64_t>(INT64_MIN, "signed 64 bit integer", "-9223372036854775808");
    one_type<uint64_t>(UINT64_MAX, "unsigned 64 bit integer", "18446744073709551615");
    one_type<double>(1.5, "double", "1.5");
    one_type<float>(0.25f, "float", "0.25");
    one_type<bool>(true, "bool", "1");
    one_type<std::string>("a \"b\"", "std::string", "\"a \\\"b\\\"\"");
    one_type<std::filesystem::path>("/x/y z", "std::filesystem::path", "\"/x/y z\"");
    one_type<plain_enum>(plain_enum::two, "plain_enum", "two");
}

// The messages of the validators of the library describe what they accept, alone, in chains and for lists.
static void library_validators(source & s)
{
    auto joined = [](strings const & v)
    {
        std::string r;
        for (auto const & x : v)
            r += (r.empty() ? "" : ", ") + x;
        return "[" + r + "]";
    };
    auto some = [&](strings const & from, size_t min)
    {
        strings r;
        for (size_t n = min + s.few(3); n > 0; --n)
            r.push_back(s.pick(from));
        return r;
    };
    strings const extensions = some({"fa", "FASTA", "tar.gz", ".sam", "a-b", "x"}, 0);
    strings const choices = some({"a", "b", "longer", "x-1", "A"}, 1);
    std::vector<int> numbers;
    strings number_texts;
    for (size_t n = 1 + s.few(3); n > 0; --n)
    {
        numbers.push_back(static_cast<int>(s.range(-99, 99)));
        number_texts.push_back(std::to_string(numbers.back()));
    }
    int64_t const low = s.range(-1000, 1000), high = low + static_cast<int64_t>(s.below(1000));
    std::string const pattern = s.pick_str({"[a-z]+", ".*", "(a|b)c?", "x\\d", "", "a,b", "'"});
    bool const create = s.chance(1, 2);

    std::string const valid_extensions = extensions.empty() ? "" : " Valid file extensions are: " + joined(extensions) + ".";
    std::string const in_message = "The input file must exist and read permissions must be granted." + valid_extensions;
    std::string const out_message =
        (create ? "The output file must not exist already and write permissions must be granted." : "Write permissions must be granted.")
        + valid_extensions;
    std::string const regex_message = "Value must match the pattern '" + pattern + "'.";
    std::string const list_message = "Value must be one of " + joined(choices) + ".";
    std::string const numbers_message = "Value must be one of " + joined(number_texts) + ".";
    std::string const range_message = "Value must be in range [" + std::to_string(low) + "," + std::to_string(high) + "].";
    std::string const in_dir_message = "An existing, readable path for the input directory.";
    std::string const out_dir_message = "A valid path for the output directory.";

    sharg::input_file_validator const in{extensions};
    sharg::output_file_validator const out{create ? sharg::output_file_open_options::create_new : sharg::output_file_open_options::open_or_create,
                                           extensions};
    sharg::regex_validator const regex{pattern};
    sharg::value_list_validator<std::string> const list{choices};
    sharg::value_list_validator<int> const number_list{numbers};
    sharg::arithmetic_range_validator<int64_t> const range{low, high};

    s.describe("validators with extensions " + pbt::show(extensions) + " choices " + pbt::show(choices) + " numbers " + pbt::show(number_texts)
               + " range " + range_message + " pattern " + pbt::quoted(pattern));
    s.label("validators of the library");
    for (strings const & args : {strings{"--help"}, strings{"-hh"}, strings{"--export-help=man"}, strings{"--export-help=html"}})
    {
        std::filesystem::path file{"f"};
        std::vector<std::filesystem::path> files{};
        std::string text{"t"};
        strings texts{};
        int number{1};
        std::vector<int> more{};
        int64_t i64{5};
        run_result r = observe(
            [&]
            {
                sharg::parser p = make_parser("test_app", args, false);
                p.add_option(file, sharg::config{.long_id = "aa", .description = "d1", .required = true, .validator = in});
                p.add_option(files, sharg::config{.long_id = "bb", .description = "d2", .required = true, .validator = out});
                p.add_option(text, sharg::config{.long_id = "cc", .description = "d3", .required = true, .validator = regex});
                p.add_option(texts, sharg::config{.long_id = "dd", .description = "d4", .required = true, .validator = list});
                p.add_option(number, sharg::config{.long_id = "ee", .description = "d5", .required = true, .validator = number_list});
                p.add_option(i64, sharg::config{.long_id = "ff", .description = "d6", .required = true, .validator = range});
                p.add_option(file, sharg::config{.long_id = "gg", .description = "d7", .required = true, .validator = sharg::input_directory_validator{}});
                p.add_option(files, sharg::config{.long_id = "hh2", .description = "d8", .required = true, .validator = sharg::output_directory_validator{}});
                p.add_option(text, sharg::config{.long_id = "ii", .description = "d9", .required = true, .validator = regex | list});
                p.add_option(text, sharg::config{.long_id = "jj", .description = "d10", .required = true, .validator = list | regex | in});
                p.add_option(more, sharg::config{.long_id = "kk", .description = "d11", .required = true, .validator = number_list | range});
                p.add_positional_option(text, sharg::config{.description = "d12", .validator = regex});
                p.add_positional_option(files, sharg::config{.description = "d13", .validator = out});
                p.parse();
            });
        if (r.kind != oc::exited)
            fail("the page ended with ", r.show());
        std::string page = r.out;
        if (args[0] == "--export-help=html")
        {
            page.clear();
            for (auto const & p : read_html(r.out).pieces)
                page += p.text.text + "\n";
        }
        else if (args[0] == "--export-help=man")
            page = roff_text(r.out);
        auto flat = [](std::string const & t)
        {
            std::string f;
            for (auto const & w : words_of(t))
                if (w != ".TP" && w != ".SS")
                    f += w + " ";
            return f;
        };
        std::string const all = flat(page);
        for (std::string const & want : {"(std::filesystem::path) d1. " + in_message + " --bb",
                                         "d2. " + out_message + " --cc",
                                         "d3. " + regex_message + " --dd",
                                         "d4. " + list_message + " --ee",
                                         "d5. " + numbers_message + " --ff",
                                         "d6. " + range_message + " --gg",
                                         "d7. " + in_dir_message + " --hh2",
                                         "d8. " + out_dir_message + " --ii",
                                         "d9. " + regex_message + " " + list_message + " --jj",
                                         "d10. " + list_message + " " + regex_message + " " + in_message + " --kk",
                                         "d11. " + numbers_message + " " + range_message + " Common",
                                         "d12. " + regex_message + " ARGUMENT-2",
                                         "d13 Default: []. " + out_message})
        {
            std::string const w = flat(want);
            if (!contains(all, w))
                fail("the page for ", args[0], " does not contain ", pbt::quoted(w), ": ", pbt::quoted(all));
        }
    }
    s.nontrivial();
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C12",
                        .rule = "a random sequence of declarations and help page additions with random texts, annotations and meta data, printed in "
                                "all four formats, each read back and compared with the expected sequence of words, or random validators of the library; non-trivial: at least two "
                                "declarations or additions",
                        .check = check,
                        .quick_debug = 4000,
                        .quick_release = 25000,
                        .setup = scratch_environment,
                        .directed = {{"all types", types}}}}
        .main(argc, argv);
}
