// C25: The tool descriptions (CTD, CWL) contain exactly the declared interface. The library that writes the two formats is
// not installed; lib/tdl/tdl.h stands in for it and records what it is given.
#define SHARG_HAS_TDL 1
#include "page.hpp"

using namespace verif;

namespace
{

struct parameter
{
    std::string name, identifier, text;
    std::set<std::string> tags;
    tdl::Node::Value value;
    bool any_list{false}, flag{false};
};

std::string show(tdl::Node::Value const & v)
{
    return std::visit(
        [](auto const & x) -> std::string
        {
            using t = std::decay_t<decltype(x)>;
            if constexpr (std::same_as<t, tdl::BoolValue>)
                return x.value ? "true" : "false";
            else if constexpr (std::same_as<t, tdl::IntValue>)
                return "integer " + std::to_string(static_cast<int64_t>(x.value));
            else if constexpr (std::same_as<t, tdl::DoubleValue>)
                return "number " + std::to_string(x.value);
            else if constexpr (std::same_as<t, tdl::StringValue>)
                return pbt::quoted(x);
            else if constexpr (std::same_as<t, tdl::Node::Children>)
                return "parameters";
            else
                return "list of " + std::to_string(x.size());
        },
        v);
}

bool same(tdl::Node::Value const & a, tdl::Node::Value const & b)
{
    if (a.index() != b.index())
        return false;
    return std::visit(
        [&b](auto const & x)
        {
            using t = std::decay_t<decltype(x)>;
            t const & y = std::get<t>(b);
            if constexpr (requires { x.value; })
                return x.value == y.value || (x.value != x.value && y.value != y.value);
            else if constexpr (std::same_as<t, tdl::Node::Children>)
                return false;
            else
                return x == y;
        },
        a);
}

bool is_list(tdl::Node::Value const & v)
{
    return std::holds_alternative<tdl::StringValueList>(v) || std::holds_alternative<tdl::IntValueList>(v) || std::holds_alternative<tdl::DoubleValueList>(v);
}

std::string show(std::set<std::string> const & t)
{
    std::string r = "{";
    for (auto const & x : t)
        r += x + " ";
    return r + "}";
}

std::string words(std::string const & t)
{
    std::string r;
    for (auto const & w : words_of(t))
        r += w + " ";
    return r;
}

tdl::Node::Value value_of_decl(decl const & d)
{
    std::string const & t = d.initial_texts.at(0);
    switch (d.type)
    {
    case ty::i32:
    case ty::u8:
    case ty::i64:
        return tdl::IntValue{static_cast<int64_t>(std::strtoll(t.c_str(), nullptr, 10))};
    case ty::dbl:
        return tdl::DoubleValue{std::strtod(t.c_str(), nullptr)};
    case ty::boolean:
        return tdl::BoolValue{t == "1" || t == "true"};
    case ty::str:
    case ty::path:
        return tdl::StringValue{t};
    default:
        return tdl::StringValue{shown_value(d.type, t)};
    }
}

// Options for files and directories: what they are is said by their validator.
struct file_option
{
    std::filesystem::path value;
    unsigned kind{}; // 0: other, 1: input file, 2: input directory, 3: output file, 4: output directory
    std::string id, message;
    bool required{}, advanced{};

    void declare(sharg::parser & p)
    {
        auto add = [&](auto v)
        {
            message = v.get_help_page_message();
            p.add_option(value, sharg::config{.long_id = id, .description = "d", .advanced = advanced, .required = required, .validator = v});
        };
        switch (kind)
        {
        case 1:
            return add(sharg::input_file_validator{{"fa", "fq"}});
        case 2:
            return add(sharg::input_directory_validator{});
        case 3:
            return add(sharg::output_file_validator{sharg::output_file_open_options::create_new, {"fa"}});
        case 4:
            return add(sharg::output_directory_validator{});
        default:
            return add(sharg::regex_validator{"a.*"});
        }
    }

    parameter expected() const
    {
        static std::vector<std::set<std::string>> const kinds = {{}, {"file"}, {"directory"}, {"file", "output"}, {"directory", "output"}};
        parameter p{.name = id, .identifier = "--" + id, .tags = kinds[kind], .value = tdl::StringValue{value.string()}};
        p.text = "d" + (required ? "" : " Default: " + quote_string(value.string())) + ". " + message;
        if (required)
            p.tags.insert("required");
        if (advanced)
            p.tags.insert("advanced");
        return p;
    }
};

void check(source & s)
{
    page_spec ps = random_page(s, {.ascii = s.chance(1, 2)});
    std::string const format = s.chance(1, 2) ? "ctd" : "cwl";
    size_t const depth = s.chance(1, 2) ? 0 : 1 + s.below(3);
    strings subs;
    for (size_t i = 0; i < depth; ++i)
        subs.push_back(s.pick_str({"build", "push", "a-b", "x", "A"}) + (s.chance(1, 4) ? std::to_string(i) : ""));
    strings request = s.chance(1, 2) ? strings{"--export-help", format} : strings{"--export-help=" + format};
    if (ps.sp.subcommands.empty())
    {
        strings const noise = {"--unknown-option", "x", "", "--foo=3"}; // nothing that takes the next argument as its value
        for (size_t n = s.below(3); n > 0; --n)
            request.insert(request.begin(), s.pick(noise));
        if (s.chance(1, 3))
            request.push_back(s.pick(noise));
        if (s.chance(1, 6))
            request.push_back("--");
    }
    std::vector<file_option> files(s.chance(1, 3) ? 1 + s.below(4) : 0);
    for (size_t i = 0; i < files.size(); ++i)
        files[i] = {.value = s.pick_str({"", "a", "a/b c", "x\"y"}), .kind = static_cast<unsigned>(s.below(5)), .id = "file-option-" + std::to_string(i), .required = s.chance(1, 4), .advanced = s.chance(1, 4)};
    bool const keep_name = depth > 0 && s.chance(1, 2);
    s.describe("request " + pbt::show(request) + " for subcommands " + pbt::show(subs) + " files " + std::to_string(files.size()) + " " + ps.show());

    // What the page looks like is no part of the description.
    std::vector<parameter> want;
    for (size_t i = 0; i < ps.sp.pos.size(); ++i)
    {
        decl const & d = ps.sp.pos[i];
        parameter p{.name = "positional_" + std::to_string(i), .text = page_spec::text_of(d, true), .any_list = d.list};
        if (!d.list)
            p.tags = {"required"}, p.value = tdl::StringValue{};
        want.push_back(p);
    }
    for (auto const & f : files)
        want.push_back(f.expected());
    for (auto const & d : ps.sp.opts)
    {
        if (d.hidden)
            continue;
        parameter p{.text = page_spec::text_of(d, false), .any_list = d.list, .flag = d.flag};
        p.name = d.l.empty() ? std::string(1, d.s) : d.l;
        p.identifier = (d.l.empty() ? "-" : "--") + p.name;
        if (d.flag)
            p.value = tdl::BoolValue{false};
        else if (!d.list)
            p.value = value_of_decl(d);
        if (d.advanced)
            p.tags.insert("advanced");
        if (d.required && !d.flag)
            p.tags.insert("required");
        want.push_back(p);
    }

    ps.sp.reset();
    tdl::conversions.clear();
    std::string app_name = ps.meta.app_name;
    strings args{"path/to/program"};
    args.insert(args.end(), subs.begin(), subs.end());
    args.insert(args.end(), request.begin(), request.end());
    run_result r = observe(
        [&]
        {
            sharg::parser top{ps.meta.app_name, args, sharg::update_notifications::off, depth == 0 ? ps.sp.subcommands : strings{subs[0]}};
            sharg::parser * p = &top;
            for (size_t i = 0; i < depth; ++i)
            {
                p->parse();
                p = &p->get_sub_parser();
                strings next = i + 1 < depth ? strings{subs[i + 1]} : ps.sp.subcommands;
                if (!next.empty())
                    p->add_subcommands(next);
                app_name += "-" + subs[i];
            }
            if (!keep_name)
                app_name = ps.meta.app_name;
            p->info = ps.meta;
            p->info.app_name = app_name;
            for (auto & f : files)
                f.declare(*p);
            ps.declare(*p);
            p->parse();
        });
    for (size_t i = 0; i < files.size(); ++i) // now the messages of the validators are known
        want[ps.sp.pos.size() + i] = files[i].expected();

    if (r.kind != oc::exited || r.code != 0)
        fail("the request ended with ", r.show());
    if (!r.err.empty())
        fail("something was printed to standard error: ", pbt::quoted(r.err));
    if (tdl::conversions.size() != 1 || tdl::conversions[0].format != format)
        fail(tdl::conversions.size(), " conversions, the first to ", tdl::conversions.empty() ? "nothing" : tdl::conversions[0].format);
    tdl::ToolInfo const & info = tdl::conversions[0].info;
    std::string out = r.out;
    while (out.ends_with('\n'))
        out.pop_back();
    if (out != (format == "ctd" ? "<the tool as CTD>" : "the tool as CWL"))
        fail("the output is ", pbt::quoted(r.out));

    auto equal = [](std::string const & what, std::string const & got, std::string const & wanted)
    {
        if (got != wanted)
            fail("the ", what, " is ", pbt::quoted(got), " instead of ", pbt::quoted(wanted));
    };
    equal("name of the tool", info.metaInfo.name, app_name);
    equal("version", info.metaInfo.version, ps.meta.version);
    equal("URL", info.metaInfo.docurl, ps.meta.url);
    equal("executable", info.metaInfo.executableName, args[0]);
    std::string description;
    for (auto const & t : ps.meta.description)
        description += t + "\n";
    equal("description of the tool", info.metaInfo.description, description);

    tdl::Node::Children const * children = &info.params;
    for (size_t i = 0; i < depth; ++i)
    {
        if (children->size() != 1)
            fail("subcommand ", subs[i], " is not the only entry of its level");
        tdl::Node const & n = (*children)[0];
        equal("name of the subcommand", n.name, subs[i]);
        if (n.tags != std::set<std::string>{"basecommand"})
            fail("the tags of subcommand ", subs[i], " are ", show(n.tags));
        if (!std::holds_alternative<tdl::Node::Children>(n.value))
            fail("subcommand ", subs[i], " has no parameters");
        children = &std::get<tdl::Node::Children>(n.value);
    }
    strings got_names, want_names;
    for (auto const & n : *children)
        got_names.push_back(n.name);
    for (auto const & p : want)
        want_names.push_back(p.name);
    if (got_names != want_names)
        fail("the parameters are ", pbt::show(got_names), " instead of ", pbt::show(want_names));
    for (size_t i = 0; i < want.size(); ++i)
    {
        parameter const & p = want[i];
        tdl::Node const & n = (*children)[i];
        if (n.tags != p.tags)
            fail("the tags of ", p.name, " are ", show(n.tags), " instead of ", show(p.tags));
        equal("description of " + p.name, words(n.description), words(p.text));
        if (p.any_list ? !is_list(n.value) : !same(n.value, p.value))
            fail("the value of ", p.name, " is ", show(n.value), " instead of ", p.any_list ? "a list" : show(p.value));
    }
    // How options are set on the command line.
    std::multiset<std::pair<std::string, std::string>> got_mapping, want_mapping;
    for (auto const & m : info.cliMapping)
        if (std::none_of(want.begin(), want.end(), [&](parameter const & p) { return p.flag && p.name == m.referenceName && p.identifier == m.optionIdentifier; }))
            got_mapping.emplace(m.optionIdentifier, m.referenceName);
    for (auto const & p : want)
        if (!p.flag && !p.identifier.empty())
            want_mapping.emplace(p.identifier, p.name);
    if (got_mapping != want_mapping)
    {
        std::string g, w;
        for (auto const & [a, b] : got_mapping)
            g += a + "=" + b + " ";
        for (auto const & [a, b] : want_mapping)
            w += a + "=" + b + " ";
        fail("the command line mapping is ", g, "instead of ", w);
    }
    if (depth)
        s.label("subcommands");
    if (!files.empty())
        s.label("files");
    s.label(format);
    s.nontrivial(want.size() >= 2);
}

template <typename T>
void one_value(T value, tdl::Node::Value const & want)
{
    tdl::conversions.clear();
    std::vector<T> list{value};
    std::list<T> empty{};
    T other = value;
    run_result r = observe(
        [&]
        {
            sharg::parser p = make_parser("test_app", {"--export-help", "ctd"}, false);
            p.add_option(value, sharg::config{.short_id = 'a'});
            p.add_option(list, sharg::config{.long_id = "bb"});
            p.add_option(empty, sharg::config{.long_id = "cc", .required = true});
            p.add_positional_option(other, sharg::config{});
            p.parse();
        });
    if (r.kind != oc::exited || tdl::conversions.size() != 1 || tdl::conversions[0].info.params.size() != 4)
        fail("the request ended with ", r.show());
    auto const & n = tdl::conversions[0].info.params;
    if (!same(n[1].value, want))
        fail("the value is ", show(n[1].value), " instead of ", show(want));
    if (!is_list(n[2].value) || !is_list(n[3].value))
        fail("the values of lists are ", show(n[2].value), " and ", show(n[3].value));
}

enum class plain_enum
{
    one,
    two
};

[[maybe_unused]] auto enumeration_names(plain_enum)
{
    return std::unordered_map<std::string_view, plain_enum>{{"one", plain_enum::one}, {"two", plain_enum::two}};
}

// The values of all supported types.
void types(source & s)
{
    s.describe("the values of all types");
    s.nontrivial();
    auto integer = []<typename T>(T)
    {
        for (T v : {std::numeric_limits<T>::min(), T{0}, T{77}, std::numeric_limits<T>::max()})
            one_value<T>(v, tdl::IntValue{v});
    };
    integer(int8_t{}), integer(uint8_t{}), integer(int16_t{}), integer(uint16_t{}), integer(int32_t{}), integer(uint32_t{}), integer(int64_t{}), integer(uint64_t{});
    one_value<float>(1.5f, tdl::DoubleValue{1.5f});
    one_value<double>(-1e300, tdl::DoubleValue{-1e300});
    one_value<long double>(0.1L, tdl::DoubleValue{0.1L});
    one_value<bool>(true, tdl::BoolValue{true});
    one_value<bool>(false, tdl::BoolValue{false});
    one_value<char>('x', tdl::StringValue{"x"});
    one_value<std::string>("a \"b", tdl::StringValue{"a \"b"});
    one_value<std::string>("", tdl::StringValue{""});
    one_value<std::filesystem::path>("/a \"b/c", tdl::StringValue{"/a \"b/c"});
    one_value<plain_enum>(plain_enum::two, tdl::StringValue{"two"});
    one_value<range>(range{.first = 1, .last = 3}, tdl::StringValue{"1:3"});
}

// The two formats are offered, the others still work, and everything else is refused.
void formats(source & s)
{
    s.describe("the supported formats");
    s.nontrivial();
    run_result const help = observe(
        []
        {
            sharg::parser p = make_parser("test_app", {"--help"}, false);
            p.parse();
        });
    for (char const * o : {"html", "man", "ctd", "cwl"})
        if (!contains(help.out.substr(help.out.find("--export-help")), o))
            fail("the help page does not mention that ", o, " is a format");
    for (std::string const f : {"html", "man", "ctd", "cwl", "CTD", "CWL", "ctd ", "", "cw", "cwlx", "tdl", "xml"})
        for (bool const one : {false, true})
        {
            tdl::conversions.clear();
            bool flag{};
            run_result r = observe(
                [&]
                {
                    sharg::parser p = make_parser("test_app", one ? strings{"--export-help=" + f} : strings{"--export-help", f}, false);
                    p.add_flag(flag, sharg::config{.short_id = 'f'});
                    p.parse();
                });
            bool const tool = f == "ctd" || f == "cwl", page = f == "html" || f == "man";
            if (tool || page ? r.kind != oc::exited || r.code != 0 : r.kind != oc::validation)
                fail("--export-help ", f, " ended with ", r.show());
            if (tdl::conversions.size() != tool || r.out.empty() != !(tool || page))
                fail("--export-help ", f, ": ", tdl::conversions.size(), " conversions and the output ", pbt::quoted(r.out.substr(0, 100)));
            if (!tool && !page)
                for (char const * o : {"html", "man", "ctd", "cwl"})
                    if (!contains(r.what, o))
                        fail("the error for --export-help ", f, " does not mention ", o, ": ", r.what);
        }
}

} // namespace

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C25",
                        .rule = "a random sequence of declarations and help page additions (as in C12) with random meta data, below 0..3 levels of "
                                "subcommands, plus options for files; the tool description is compared entry by entry; non-trivial: at least two entries",
                        .check = check,
                        .quick_debug = 5000,
                        .quick_release = 25000,
                        .setup = scratch_environment,
                        .directed = {{"all types", types}, {"formats", formats}}}}
        .main(argc, argv);
}
