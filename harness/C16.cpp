// C16: Every misuse of the parser interface is a design_error.
#include "model.hpp"

using namespace verif;

struct operation
{
    enum kind_t
    {
        option,
        flag,
        positional,
        section,
        subsection,
        line,
        list_item,
        subcommands,
        get_sub_parser,
        is_option_set,
        app_name,
        parse
    };
    kind_t kind;
    decl d;             // option, flag, positional
    bool flag_default{false};
    strings names;      // subcommands; the name
    std::string asked;  // is_option_set
    bool ask_char{false};
    bool throws{false}; // by the documented rules
    std::string why;    // the rules that are broken
    bool accepted{false};
};

static char const * name(operation::kind_t k)
{
    static char const * const n[] = {"add_option", "add_flag", "add_positional_option", "add_section", "add_subsection", "add_line", "add_list_item",
                                     "add_subcommands", "get_sub_parser", "is_option_set", "info.app_name", "parse"};
    return n[k];
}

static bool word_char(char c)
{
    return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-';
}

static bool good_name(std::string const & n)
{
    return !n.empty() && std::all_of(n.begin(), n.end(), word_char);
}

static bool good_id_char(char c)
{
    return word_char(c) || c == '@';
}

static std::string random_name(source & s, bool good)
{
    static strings const names = {"test_app", "a", "A-1", "-", "_", "---", "0", "penguin-parade_2"};
    std::string n = s.pick(names);
    if (good)
        return n;
    switch (s.below(4))
    {
    case 0:
        return s.pick_str({"", " ", "a b", "a;b", "a\n", "\n", "a.b", "a/b", "../x", "a$", "`id`", "$(id)", "a@b", "a+", "t\xc3\xa9st", "a\tb", "a'", "a\"", "a&", "a|b"});
    case 1:
        n.insert(n.begin() + s.below(n.size() + 1), static_cast<char>(s.range(1, 255)));
        return n;
    case 2:
        return std::string(1, static_cast<char>(s.range(1, 255)));
    default:
        n += '\0';
        return n + (s.chance(1, 2) ? "x" : "");
    }
}

struct model
{
    bool parsed{false};
    bool list{false};
    unsigned positionals{0};
    std::set<std::string> subcommands;
    std::set<std::string> used{"h", "hh", "help", "advanced-help", "export-help", "version", "copyright"};
    std::set<std::string> of_options, of_flags;
    std::set<std::string> poisoned; // identifiers of rejected declarations: not used again
    std::string app;
    std::string sub_parser; // selected by parse()
};

static void identifiers(source & s, model const & m, id_pool & ids, decl & d)
{
    switch (s.below(4))
    {
    case 0: // any character
        d.s = s.chance(1, 2) ? '\0' : static_cast<char>(s.range(0, 255));
        d.l = s.chance(1, 3) ? "" : s.pick_str({"foo", "ab", "long-id", "x1", "--", "a"});
        if (!d.l.empty() && s.chance(2, 3))
        {
            d.l.insert(d.l.begin() + s.below(d.l.size() + 1), static_cast<char>(s.range(0, 255)));
        }
        break;
    case 1: // reserved, duplicate or of the wrong length
    {
        strings pool{"h", "hh", "help", "advanced-help", "export-help", "version", "copyright", "", "a", "-", "-x", "--foo", "=x", "x=", "helps", "H", "hhh", "Help"};
        pool.insert(pool.end(), m.used.begin(), m.used.end());
        std::string const x = s.pick(pool);
        if (x.size() == 1 && s.chance(2, 3))
            d.s = x[0];
        else
            d.l = x;
        if (s.chance(1, 3))
        {
            if (d.s)
                d.l = ids.long_id(s);
            else
                d.s = ids.short_id(s);
        }
        break;
    }
    default:
        ids.give(s, d);
    }
}

static strings broken_identifiers(model const & m, decl const & d)
{
    strings r;
    if (d.s == '\0' && d.l.empty())
        r.push_back("no identifier");
    if (d.s && (d.s == '-' || !good_id_char(d.s)))
        r.push_back("short identifier");
    if (d.s && m.used.contains(std::string(1, d.s)))
        r.push_back("short identifier in use");
    if (d.l.size() == 1)
        r.push_back("long identifier of one character");
    if (!d.l.empty() && (d.l[0] == '-' || !std::all_of(d.l.begin(), d.l.end(), good_id_char)))
        r.push_back("long identifier");
    if (m.used.contains(d.l))
        r.push_back("long identifier in use");
    return r;
}

static void poison(model & m, id_pool & ids, decl const & d)
{
    for (std::string const & x : {d.s ? std::string(1, d.s) : std::string{}, d.l})
        if (!x.empty() && !m.used.contains(x))
        {
            m.poisoned.insert(x);
            ids.used.insert(x);
        }
}

static bool is_poisoned(model const & m, decl const & d)
{
    return (d.s && m.poisoned.contains(std::string(1, d.s))) || m.poisoned.contains(d.l) || d.l == "version-check";
}

static void check(source & s)
{
    model m;
    id_pool ids;
    std::vector<operation> ops;
    strings const constructor_names = s.chance(1, 6) ? strings{random_name(s, !s.chance(1, 4))} : strings{};
    m.subcommands.insert(constructor_names.begin(), constructor_names.end());
    m.app = random_name(s, !s.chance(1, 8));
    std::string const app = m.app;
    spec sp; // what is accepted
    std::vector<int> source_of_option, source_of_positional;
    strings args;
    command_line line;
    bool has_line = false;
    oc parse_result = oc::ok;
    strings const no_subcommand;

    size_t const n = 1 + s.below(14);
    for (size_t i = 0; i < n; ++i)
    {
        operation o;
        unsigned const k = s.below(20);
        o.kind = k < 5   ? operation::option
               : k < 8   ? operation::flag
               : k < 11  ? operation::positional
               : k == 11 ? operation::section
               : k == 12 ? operation::subsection
               : k == 13 ? operation::line
               : k == 14 ? operation::list_item
               : k == 15 ? operation::subcommands
               : k == 16 ? operation::get_sub_parser
               : k == 17 ? operation::is_option_set
               : k == 18 ? operation::app_name
                         : operation::parse;
        if (i + 1 == n && !m.parsed && s.chance(3, 4))
            o.kind = operation::parse;
        strings why;
        if (m.parsed && o.kind != operation::get_sub_parser && o.kind != operation::is_option_set && o.kind != operation::app_name)
            why.push_back("after parse");
        switch (o.kind)
        {
        case operation::option:
            identifiers(s, m, ids, o.d);
            o.d.list = s.chance(1, 3);
            o.d.type = random_type(s, o.d.list);
            o.d.initial_texts = random_initial(s, o.d.type, o.d.list);
            o.d.required = s.chance(1, 5);
            o.d.advanced = s.chance(1, 5);
            o.d.hidden = s.chance(1, 5);
            if (s.chance(1, 5))
                o.d.default_message = "message";
            if (is_poisoned(m, o.d))
                continue;
            for (auto & x : broken_identifiers(m, o.d))
                why.push_back(x);
            if (o.d.required && !o.d.default_message.empty())
                why.push_back("required with default message");
            break;
        case operation::flag:
            o.d.flag = true;
            identifiers(s, m, ids, o.d);
            o.flag_default = s.chance(1, 8);
            o.d.advanced = s.chance(1, 5);
            o.d.hidden = s.chance(1, 5);
            if (s.chance(1, 8))
                o.d.default_message = "message";
            if (is_poisoned(m, o.d))
                continue;
            for (auto & x : broken_identifiers(m, o.d))
                why.push_back(x);
            if (o.flag_default)
                why.push_back("flag is true");
            if (!o.d.default_message.empty())
                why.push_back("flag with default message");
            break;
        case operation::positional:
            o.d.list = s.chance(1, 3);
            o.d.type = random_type(s, o.d.list);
            o.d.initial_texts = random_initial(s, o.d.type, o.d.list);
            switch (s.below(12))
            {
            case 11:
                o.d.s = s.pick("aZ0-h=");
                why.push_back("positional with short identifier");
                break;
            case 10:
                o.d.l = s.pick_str({"foo", "x", "-", "help"});
                why.push_back("positional with long identifier");
                break;
            case 9:
                o.d.advanced = true;
                o.d.hidden = s.chance(1, 4);
                why.push_back("advanced positional");
                break;
            case 8:
                o.d.hidden = true;
                why.push_back("hidden positional");
                break;
            case 7:
                o.d.default_message = "x";
                why.push_back("positional with default message");
                break;
            }
            if (m.list)
                why.push_back("positional behind a list");
            if (!m.subcommands.empty())
                why.push_back("positional with subcommands");
            break;
        case operation::subcommands:
            for (size_t j = 0, c = s.below(4); j < c; ++j)
                o.names.push_back(s.chance(1, 10) ? random_name(s, false) : s.pick_str({"build", "push", "a-b", "x", "build", "-"}));
            std::erase_if(o.names, [](std::string const & t) { return t.starts_with('-'); }); // looks like an option
            if (m.positionals && !o.names.empty())
                why.push_back("subcommands with positional");
            break;
        case operation::get_sub_parser:
            if (m.sub_parser.empty())
                why.push_back("no sub-parser");
            break;
        case operation::is_option_set:
        {
            strings pool{"", "a", "undeclared", "foo", "-", "--"};
            pool.insert(pool.end(), m.of_options.begin(), m.of_options.end());
            pool.insert(pool.end(), m.of_options.begin(), m.of_options.end());
            o.asked = s.pick(pool);
            o.ask_char = o.asked.size() == 1 && s.chance(3, 4);
            if (m.poisoned.contains(o.asked) || m.of_flags.contains(o.asked))
                continue; // only options may be asked for
            if (!m.parsed)
                why.push_back("not parsed");
            if (!o.ask_char && o.asked.size() == 1)
                why.push_back("a string of one character");
            if (!m.of_options.contains(o.asked))
                why.push_back("not declared");
            break;
        }
        case operation::app_name:
            o.names = {random_name(s, !s.chance(1, 4))};
            if (!m.parsed)
                m.app = o.names[0];
            break;
        case operation::parse:
            if (!m.parsed)
            {
                if (!good_name(m.app))
                    why.push_back("application name " + pbt::quoted(m.app));
                for (auto const & c : m.subcommands)
                    if (!good_name(c))
                        why.push_back("subcommand name " + pbt::quoted(c));
                m.parsed = true;
                if (why.empty())
                {
                    sp.reset();
                    line = random_line(s, sp, {.dashes_num = m.subcommands.empty() ? 1u : 0u, .dashes_den = 3});
                    args = line.args;
                    has_line = true;
                    if (!m.subcommands.empty())
                    {
                        if (line.dashes) // added because the line would be empty
                            args.pop_back(), line.dashes = false;
                        if (s.chance(3, 4) || args.empty())
                        {
                            m.sub_parser = s.pick(strings(m.subcommands.begin(), m.subcommands.end()));
                            args.push_back(m.sub_parser);
                            for (size_t j = 0, c = s.below(3); j < c; ++j)
                                args.push_back(random_text(s));
                        }
                    }
                }
            }
            break;
        default:
            break;
        }
        o.throws = !why.empty();
        for (auto const & w : why)
            o.why += (o.why.empty() ? "" : ", ") + w;
        if (!why.empty() && (o.kind == operation::option || o.kind == operation::flag) && !m.parsed)
            poison(m, ids, o.d);
        if (why.empty())
        {
            if (o.kind == operation::option || o.kind == operation::flag)
            {
                for (std::string const & x : {o.d.s ? std::string(1, o.d.s) : std::string{}, o.d.l})
                    if (!x.empty())
                    {
                        m.used.insert(x);
                        ids.used.insert(x);
                        (o.d.flag ? m.of_flags : m.of_options).insert(x);
                    }
                o.accepted = true;
            }
            if (o.kind == operation::positional)
            {
                ++m.positionals;
                m.list = o.d.list;
                o.accepted = true;
            }
            if (o.kind == operation::subcommands)
                m.subcommands.insert(o.names.begin(), o.names.end());
            if (o.accepted)
            {
                decl copy;
                copy.flag = o.d.flag;
                copy.s = o.d.s;
                copy.l = o.d.l;
                copy.type = o.d.type;
                copy.list = o.d.list;
                copy.required = o.d.required;
                copy.initial_texts = o.d.initial_texts;
                auto & where = o.kind == operation::positional ? source_of_positional : source_of_option;
                (o.kind == operation::positional ? sp.pos : sp.opts).push_back(std::move(copy));
                where.push_back(static_cast<int>(ops.size()));
            }
        }
        s.label(std::string{name(o.kind)} + (o.throws ? " (error)" : ""));
        ops.push_back(std::move(o));
    }

    std::string note = "app " + pbt::quoted(app) + " args " + pbt::show(args) + " ";
    if (!constructor_names.empty())
        note += "subcommands " + pbt::show(constructor_names) + " ";
    unsigned errors = 0;
    for (auto const & o : ops)
    {
        note += "| " + std::string{name(o.kind)};
        if (o.kind == operation::option || o.kind == operation::flag || o.kind == operation::positional)
            note += " " + o.d.show() + (o.flag_default ? " true" : "") + (o.d.default_message.empty() ? "" : " default_message");
        if (!o.names.empty())
            note += " " + pbt::show(o.names);
        if (o.kind == operation::is_option_set)
            note += " " + pbt::quoted(o.asked) + (o.ask_char ? " as char" : "");
        note += (o.throws ? " (" + o.why + ") " : " ");
        errors += o.throws;
    }
    s.describe(note);

    // Now for real.
    g_system.reset();
    std::optional<sharg::parser> parser;
    run_result r = observe([&] { parser.emplace(make_parser(app, args, sp.use_argv, sharg::update_notifications::off, constructor_names)); });
    if (r.kind != oc::ok)
        fail("the constructor ended with ", r.show());
    sharg::parser & p = *parser;
    for (auto & o : ops)
    {
        if (o.kind <= operation::positional)
        {
            o.d.reset();
            if (o.d.flag)
                *o.d.flag_value = o.flag_default;
        }
        r = observe(
            [&]
            {
                switch (o.kind)
                {
                case operation::option:
                    o.d.value->add_option(p, o.d.config());
                    break;
                case operation::flag:
                    p.add_flag(*o.d.flag_value, o.d.config());
                    break;
                case operation::positional:
                    o.d.value->add_positional(p, o.d.config());
                    break;
                case operation::section:
                    p.add_section("title");
                    break;
                case operation::subsection:
                    p.add_subsection("title");
                    break;
                case operation::line:
                    p.add_line("text");
                    break;
                case operation::list_item:
                    p.add_list_item("key", "text");
                    break;
                case operation::subcommands:
                    p.add_subcommands(o.names);
                    break;
                case operation::get_sub_parser:
                    if (sharg::parser & sub = p.get_sub_parser(); sub.info.app_name != m.app + "-" + m.sub_parser)
                        fail("the sub-parser is called ", pbt::quoted(sub.info.app_name));
                    break;
                case operation::is_option_set:
                    if (o.ask_char)
                        (void)p.is_option_set(o.asked[0]);
                    else
                        (void)p.is_option_set(o.asked);
                    break;
                case operation::app_name:
                    p.info.app_name = o.names[0];
                    break;
                case operation::parse:
                    p.parse();
                    break;
                }
            });
        if (o.throws && r.kind != oc::design)
            fail(name(o.kind), " (", o.why, ") should be a design_error but ended with ", r.show());
        if (!o.throws && r.kind == oc::design)
            fail(name(o.kind), " should be accepted but ended with ", r.show());
        if (!o.throws && r.kind != oc::ok)
            fail(name(o.kind), " ended with ", r.show());
        if (r.kind == oc::design && r.what.empty())
            fail(name(o.kind), ": the design_error has no message");
        if (!r.out.empty() || !r.err.empty())
            fail(name(o.kind), " printed ", pbt::quoted(r.out + r.err));
    }
    // Only accepted declarations have an effect.
    for (size_t i = 0; i < ops.size(); ++i)
    {
        auto & o = ops[i];
        if (o.kind > operation::positional)
            continue;
        strings want = o.flag_default ? strings{"true"} : o.d.initial();
        if (o.accepted && has_line)
        {
            for (size_t k = 0; k < source_of_option.size(); ++k)
                if (source_of_option[k] == static_cast<int>(i))
                    want = line.opt_values[k];
            for (size_t k = 0; k < source_of_positional.size(); ++k)
                if (source_of_positional[k] == static_cast<int>(i))
                    want = line.pos_values[k];
        }
        if (o.d.current() != want)
            fail("the variable of ", name(o.kind), " ", o.d.show(), o.accepted ? "" : " (rejected)", " is ", pbt::show(o.d.current()), " instead of ", pbt::show(want));
    }
    if (has_line)
        s.label("parsed");
    s.nontrivial(errors > 0 && errors < ops.size());
}

// Every character as short identifier and at every place of a long identifier.
static void all_characters(source &)
{
    for (int c = 1; c < 256; ++c)
    {
        char const x = static_cast<char>(c);
        for (int place = -1; place < 3; ++place)
            for (bool flag : {false, true})
            {
                int value{};
                bool flag_value{};
                std::string l = place < 0 ? "" : "abc";
                if (place >= 0)
                    l[place] = x;
                bool const good = place < 0 ? good_id_char(x) && x != '-' && x != 'h' : good_id_char(x) && !(place == 0 && x == '-');
                run_result r = observe(
                    [&]
                    {
                        sharg::parser p = make_parser("test_app", {"x"}, false);
                        sharg::config<> const cfg{.short_id = place < 0 ? x : '\0', .long_id = l};
                        if (flag)
                            p.add_flag(flag_value, cfg);
                        else
                            p.add_option(value, cfg);
                    });
                if ((r.kind == oc::ok) != good || (!good && r.kind != oc::design))
                    fail(flag ? "flag" : "option", " with character ", c, " at ", place, " ended with ", r.show());
                if (place >= 0)
                    continue;
                for (int where = 0; where < 2; ++where) // application and subcommand names
                {
                    r = observe(
                        [&]
                        {
                            std::string const n = std::string{"a"} + x + "b";
                            sharg::parser p = make_parser(where == 0 ? n : "test_app", {"--"}, false, sharg::update_notifications::off,
                                                          where == 0 ? strings{} : strings{n});
                            p.parse();
                        });
                    if ((r.kind == oc::ok) != word_char(x) || (!word_char(x) && r.kind != oc::design))
                        fail("a name with character ", c, " ended with ", r.show());
                }
            }
    }
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C16",
                        .rule = "a random sequence of up to 14 interface calls, legal or not, run against a model of the documented rules; afterwards the "
                                "command line of the accepted declarations is parsed and all variables are compared; non-trivial: there are legal "
                                "and illegal calls",
                        .check = check,
                        .quick_debug = 12000,
                        .quick_release = 80000,
                        .setup = scratch_environment,
                        .directed = {{"all characters", all_characters}}}}
        .main(argc, argv);
}
