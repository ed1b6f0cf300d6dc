// A program (declarations, texts, subcommands) together with a command line, and its complete observable outcome. Used to
// compare runs that have to be equivalent.
#pragma once

#include "mistakes.hpp"

namespace verif
{

inline std::string scenario_token(source & s, spec const & sp)
{
    static strings const special = {"-h",   "-hh", "--help", "--advanced-help", "--version", "--copyright", "--export-help=html", "--export-help", "man", "--version-check", "0",
                                    "1",    "--",  "-",      "",                "=",         "---",         "--no-such-option",   "build",         "push", "x",            "7"};
    switch (s.below(4))
    {
    case 0:
    case 1:
        if (!sp.opts.empty())
        {
            decl const & d = s.pick(sp.opts);
            std::string id = d.s && (d.l.empty() || s.chance(1, 2)) ? std::string{"-"} + d.s : "--" + d.l;
            switch (s.below(4))
            {
            case 0:
                return id;
            case 1:
                return id + "=" + random_value(s, d.type).text;
            case 2:
                return id + random_value(s, d.type).text;
            default:
                return id + s.pick_str({"=", "x", "-", ""});
            }
        }
        [[fallthrough]];
    case 2:
        return s.pick(special);
    default:
        return random_value(s, static_cast<ty>(s.below(9))).text;
    }
}

struct line_of
{
    strings args;
    std::string kind;
};

// May add validators etc. to sp.
inline line_of random_scenario_line(source & s, spec & sp, bool only_decided)
{
    line_of r;
    bool nested = sp.pos.empty();
    command_line line = random_line(s, sp, {.dashes_num = nested ? 0u : 1u});
    r.args = line.args;
    r.kind = "valid";
    unsigned k = s.below(only_decided ? 5 : 8);
    if (k >= 3 && k < 5)
    {
        mistake m = random_mistake(s, sp, line);
        r.args = m.args;
        r.kind = "mistake";
    }
    else if (k == 5)
    {
        r.args.insert(r.args.begin() + s.below(r.args.size() + 1),
                      s.pick_str({"--help", "-h", "-hh", "--version", "--copyright", "--export-help=html", "--export-help=man"}));
        r.kind = "request";
    }
    else if (k > 5)
    {
        if (s.chance(1, 2))
            r.args.clear();
        for (size_t n = s.below(6); n > 0; --n)
            r.args.insert(r.args.begin() + s.below(r.args.size() + 1), scenario_token(s, sp));
        r.kind = "any";
    }
    return r;
}

struct scenario
{
    spec sp, sub;
    bool with_sub{false};
    strings subcommands;
    strings args;
    std::string kind, sub_kind;
    std::vector<std::pair<unsigned, std::string>> texts;
    sharg::parser_meta_data info;
    bool use_argv{false};

    std::string show() const
    {
        std::string r = sp.show();
        if (with_sub)
            r += "\nsub-parser " + sub.show();
        return r + "\nargs " + pbt::show(args);
    }
};

inline scenario random_scenario(source & s, bool only_decided = false)
{
    scenario r;
    r.with_sub = s.chance(1, 4);
    r.sp = random_spec(s, {.max_options = 4, .max_flags = 3, .max_pos = r.with_sub ? 0u : 3u});
    line_of l = random_scenario_line(s, r.sp, only_decided);
    r.args = l.args;
    r.kind = l.kind;
    if (r.with_sub)
    {
        if (r.kind == "mistake") // it has to concern the options in front of the subcommand
        {
            command_line line = random_line(s, r.sp, {.dashes_num = 0});
            r.args = line.args;
            r.kind = "valid";
        }
        if (!r.args.empty() && r.args.back() == "--")
            r.args.pop_back();
        r.subcommands = {"build", "push", "build-all"};
        if (s.chance(5, 6) || only_decided)
        {
            r.args.push_back(s.pick(r.subcommands));
            r.sub = random_spec(s, {.max_options = 4, .max_flags = 2, .max_pos = 2});
            line_of sl = random_scenario_line(s, r.sub, only_decided);
            r.args.insert(r.args.end(), sl.args.begin(), sl.args.end());
            r.sub_kind = sl.kind;
        }
        else if (s.chance(1, 2))
            r.args.push_back(s.pick_str({"buil", "x", "pull"}));
    }
    for (size_t n = s.below(4); n > 0; --n)
        r.texts.emplace_back(s.below(4), s.pick_str({"text", "Some words \\fBin bold\\fP.", "x"}));
    r.info.version = s.pick_str({"1.2.3", "", "0.1.0"});
    r.info.short_description = s.pick_str({"", "does things"});
    if (s.chance(1, 2))
        r.info.description = {"About."};
    if (s.chance(1, 2))
        r.info.synopsis = {"test_app [OPTIONS]"};
    if (s.chance(1, 2))
        r.info.long_copyright = "(c)";
    r.use_argv = s.chance(1, 2);
    return r;
}

struct hooks
{
    std::function<void(std::unique_ptr<sharg::parser> &)> between = [](auto &) {};
    std::function<void(sharg::parser &)> between_sub = [](auto &) {};
    std::vector<size_t> order, sub_order; // of declarations of options; empty: as is
    bool use_argv{false};
    bool ask{true}; // is_option_set etc.
    bool subcommands_later{false};
    sharg::update_notifications notifications{sharg::update_notifications::off};
};

struct outcome
{
    run_result result;
    std::vector<strings> values;
    std::string set; // answers of is_option_set
    std::string name; // of the sub-parser

    std::string show() const
    {
        std::string v;
        for (auto const & x : values)
            v += pbt::show(x);
        return result.show() + "\nvalues " + v + "\nis_option_set " + set + "\nsub-parser " + name + "\nstdout " + pbt::quoted(result.out.substr(0, 2000))
             + "\nstderr " + pbt::quoted(result.err.substr(0, 300));
    }
    bool operator==(outcome const & o) const
    {
        return result.kind == o.result.kind && result.code == o.result.code && result.what == o.result.what && result.out == o.result.out && result.err == o.result.err
            && values == o.values && set == o.set && name == o.name;
    }
};

inline std::string answers(sharg::parser const & p, spec const & sp)
{
    std::string r;
    for (auto const & d : sp.opts)
        for (int k = 0; k < 2; ++k)
        {
            if (k == 0 ? d.s == '\0' : d.l.empty())
                continue;
            try
            {
                r += (k == 0 ? p.is_option_set(d.s) : p.is_option_set(d.l)) ? '1' : '0';
            }
            catch (sharg::design_error const &)
            {
                r += 'd';
            }
        }
    return r;
}

inline std::vector<std::function<void(sharg::parser &)>> steps_of(spec & sp, std::vector<size_t> const & order)
{
    std::vector<std::function<void(sharg::parser &)>> r;
    for (size_t i = 0; i < sp.opts.size(); ++i)
    {
        decl * d = &sp.opts[order.empty() ? i : order[i]];
        r.push_back([d](sharg::parser & p) { spec::declare_option(p, *d); });
    }
    for (auto & d : sp.pos)
        r.push_back([x = &d](sharg::parser & p) { x->value->add_positional(p, x->config()); });
    return r;
}

inline outcome run_scenario(scenario & sc, hooks const & h)
{
    outcome o;
    sc.sp.reset();
    sc.sub.reset();
    std::unique_ptr<sharg::parser> p;
    auto steps = steps_of(sc.sp, h.order);
    for (auto const & [kind, text] : sc.texts)
        steps.push_back(
            [kind = kind, &text = text](sharg::parser & p)
            {
                switch (kind)
                {
                case 0:
                    p.add_section("S");
                    break;
                case 1:
                    p.add_subsection("T");
                    break;
                case 2:
                    p.add_line(text);
                    break;
                default:
                    p.add_list_item("key-of-item", text);
                }
            });
    steps.push_back(
        [&sc](sharg::parser & p)
        {
            std::string n = p.info.app_name;
            p.info = sc.info;
            p.info.app_name = n;
        });
    bool parsed = false;
    o.result = observe(
        [&]
        {
            bool later = h.subcommands_later && !sc.subcommands.empty();
            {
                strings all{"./app"};
                all.insert(all.end(), sc.args.begin(), sc.args.end());
                strings subs = later ? strings{} : sc.subcommands;
                if (!h.use_argv)
                    p = std::make_unique<sharg::parser>("app", all, h.notifications, subs);
                else
                {
                    std::vector<char const *> argv;
                    for (auto const & a : all)
                        argv.push_back(a.c_str());
                    p = std::make_unique<sharg::parser>("app", static_cast<int>(argv.size()), argv.data(), h.notifications, subs);
                    // all, and with it argv, is gone when the parser is used.
                    for (auto & a : all)
                        std::fill(a.begin(), a.end(), '#');
                }
            }
            for (size_t i = 0; i < steps.size(); ++i)
            {
                h.between(p);
                if (later && i == steps.size() / 2)
                {
                    p->add_subcommands(sc.subcommands);
                    h.between(p);
                }
                steps[i](*p);
            }
            h.between(p);
            parsed = true;
            p->parse();
            h.between(p);
            if (sc.with_sub)
            {
                sharg::parser & q = p->get_sub_parser();
                o.name = q.info.app_name;
                auto sub_steps = steps_of(sc.sub, h.sub_order);
                h.between(p);
                for (auto & st : sub_steps)
                {
                    st(q);
                    h.between_sub(q);
                }
                h.between(p);
                h.between_sub(p->get_sub_parser());
                p->get_sub_parser().parse();
                h.between_sub(p->get_sub_parser());
                h.between(p);
                if (h.ask)
                    o.set += "sub " + answers(p->get_sub_parser(), sc.sub) + " ";
            }
        });
    if (h.ask && parsed && p)
        o.set += answers(*p, sc.sp);
    for (spec const * sp : {&sc.sp, &sc.sub})
    {
        for (auto const & d : sp->opts)
            o.values.push_back(d.current());
        for (auto const & d : sp->pos)
            o.values.push_back(d.current());
    }
    return o;
}

} // namespace verif
