// Valid command lines with exactly one mistake and the exception that is documented for it.
#pragma once

#include "model.hpp"

namespace verif
{

struct mistake
{
    oc expected{oc::ok};
    std::string kind;                  // for statistics
    strings args;                      // the command line
    std::vector<strings> needles;      // for each entry, one of the texts must be part of the message
    strings wrong;                     // texts that must not be part of the message (unknown options only)
};

inline bool declared_identifier(spec const & sp, std::string const & token)
{
    static std::set<std::string> const special = {"-h", "-hh", "--help", "--advanced-help", "--version", "--copyright",
                                                  "--version-check", "--export-help"};
    if (special.contains(token) || token.starts_with("--export-help="))
        return true;
    if (looks_like_option(sp, token))
        return true;
    for (auto const & d : sp.opts)
        if (d.flag && ((d.s && token == std::string{"-"} + d.s) || (!d.l.empty() && token == "--" + d.l)))
            return true;
    return false;
}

inline bool short_id_declared(spec const & sp, char c)
{
    if (c == 'h')
        return true;
    for (auto const & d : sp.opts)
        if (d.s == c)
            return true;
    return false;
}

// Inserts an item in front of --.
inline void insert_item(source & s, command_line & c, item it, size_t not_before = 0)
{
    size_t at = not_before + s.below(c.items.size() + 1 - not_before);
    c.items.insert(c.items.begin() + at, std::move(it));
}

inline size_t behind_last_positional(command_line const & c)
{
    size_t r = 0;
    for (size_t i = 0; i < c.items.size(); ++i)
        if (c.items[i].positional >= 0)
            r = i + 1;
    return r;
}

inline char undeclared_short(source & s, spec const & sp)
{
    static std::string const all = "zqwZQWyYkKabcinorvxABIN125_@0789?!#.,:/";
    for (int i = 0; i < 12; ++i)
    {
        char c = s.pick(all);
        if (!short_id_declared(sp, c))
            return c;
    }
    throw pbt::discard{};
}

inline strings names_of(decl const & d)
{
    strings r;
    if (d.s)
        r.push_back(std::string{"-"} + d.s);
    if (!d.l.empty())
        r.push_back("--" + d.l);
    return r;
}

// May add or change declarations (validators, required), so the spec has to be declared afterwards.
// c must be a valid line for sp.
inline mistake random_mistake(source & s, spec & sp, command_line c)
{
    mistake m;
    std::vector<int> options, scalars, required, typed;
    for (size_t i = 0; i < sp.opts.size(); ++i)
    {
        decl const & d = sp.opts[i];
        if (d.flag)
            continue;
        options.push_back(i);
        if (!d.list)
            scalars.push_back(i);
        if (d.required)
            required.push_back(i);
        if (d.type != ty::str && d.type != ty::path)
            typed.push_back(i);
    }
    auto remove_option = [&c](int o)
    {
        std::erase_if(c.items,
                      [o](item const & i)
                      {
                          return i.option == o;
                      });
    };
    auto finish = [&]() -> mistake
    {
        if (c.items.empty() && c.behind.empty())
            c.dashes = true;
        c.assemble();
        m.args = c.args;
        return m;
    };

    switch (s.below(11))
    {
    case 0: // unknown long option
    {
        m.kind = "unknown long";
        m.expected = oc::unknown_option;
        strings candidates = {"--zzz", "--zzz=3", "--z", "--=1", "---", "--Foo", "--foobar-", "--fo", "--foo_", "--in", "--help2", "--hel",
                              "--versio", "--copyright2", "--export", "--export-help-", "--advanced", "--foo-ba", "--h", "--hh"};
        for (auto const & d : sp.opts)
        {
            if (d.l.empty())
                continue;
            candidates.push_back("--" + d.l + "x");
            candidates.push_back("--" + d.l.substr(0, d.l.size() - 1));
            candidates.push_back("--" + d.l + "-");
            candidates.push_back("--" + d.l + "x=1");
            if (d.flag)
            {
                candidates.push_back("--" + d.l + "=1");
                candidates.push_back("--" + d.l + "=true");
            }
        }
        std::string t = s.pick(candidates);
        if (t == "--" || declared_identifier(sp, t))
            throw pbt::discard{};
        item it;
        it.tokens = {t};
        insert_item(s, c, it);
        m.needles = {{t}};
        return finish();
    }
    case 1: // unknown short option
    {
        m.kind = "unknown short";
        m.expected = oc::unknown_option;
        char a = undeclared_short(s, sp);
        item it;
        m.needles = {{std::string{"-"} + a}};
        m.wrong = {" --,", " -- "};
        it.tokens = {std::string{"-"} + a};
        if (s.chance(1, 3))
        {
            char b = undeclared_short(s, sp);
            it.tokens[0] += b;
            m.needles.push_back({std::string{"-"} + b});
        }
        if (s.chance(1, 2)) // in a cluster with known flags
        {
            for (auto & i : c.items)
                if (i.is_flags && i.tokens[0][1] != '-')
                {
                    for (char known : i.tokens[0].substr(1))
                        for (char const * behind : {",", " ", "."})
                            m.wrong.push_back(std::string{" -"} + known + behind);
                    i.tokens[0].insert(1 + s.below(i.tokens[0].size()), it.tokens[0].substr(1));
                    m.kind += " in cluster";
                    return finish();
                }
        }
        insert_item(s, c, it);
        return finish();
    }
    case 2:
    case 3: // repeated option
    {
        if (scalars.empty())
            throw pbt::discard{};
        m.kind = "repeated option";
        m.expected = oc::multiple;
        int o = s.pick(scalars);
        decl const & d = sp.opts[o];
        remove_option(o);
        size_t n = 2 + s.below(2);
        for (size_t k = 0; k < n; ++k)
        {
            item it = option_item(s, sp, o, random_value(s, d.type));
            if (it.tokens.empty())
                throw pbt::discard{};
            insert_item(s, c, it);
        }
        m.needles = {names_of(d)};
        return finish();
    }
    case 4: // missing required option
    {
        if (required.empty())
            throw pbt::discard{};
        m.kind = "required option missing";
        m.expected = oc::required_missing;
        int o = s.pick(required);
        remove_option(o);
        for (auto const & n : names_of(sp.opts[o]))
            m.needles.push_back({n});
        return finish();
    }
    case 5: // missing value
    {
        if (options.empty())
            throw pbt::discard{};
        m.kind = "missing value";
        m.expected = oc::too_few;
        int o = s.pick(options);
        decl const & d = sp.opts[o];
        if (!d.list)
            remove_option(o);
        strings names = names_of(d);
        std::string id = s.pick(names);
        m.needles = {{id}};
        item it;
        if (s.chance(1, 2))
        {
            it.tokens = {id + "="};
            insert_item(s, c, it);
            return finish();
        }
        it.tokens = {id};
        for (auto const & b : c.behind)
            if (b.tokens[0].starts_with('-'))
                throw pbt::discard{};
        c.items.push_back(it);
        return finish();
    }
    case 6: // not enough positional arguments
    {
        if (sp.pos.empty())
            throw pbt::discard{};
        m.kind = "positional missing";
        m.expected = oc::too_few;
        size_t remove = sp.pos.back().list ? c.pos_values.back().size() : 1;
        // More may be missing.
        size_t all = 0;
        for (auto const & p : c.pos_values)
            all += p.size();
        if (s.chance(1, 3))
            remove = remove + s.below(all - remove + 1);
        for (size_t k = 0; k < remove; ++k)
        {
            if (!c.behind.empty())
                c.behind.pop_back();
            else if (size_t last = behind_last_positional(c); last > 0)
                c.items.erase(c.items.begin() + last - 1);
        }
        return finish();
    }
    case 7: // too many positional arguments
    {
        if (!sp.pos.empty() && sp.pos.back().list)
            throw pbt::discard{};
        m.kind = "too many";
        m.expected = oc::too_many;
        size_t n = 1 + s.below(2);
        for (size_t k = 0; k < n; ++k)
        {
            item it;
            it.positional = 1000 + static_cast<int>(k);
            it.tokens = {random_text(s)};
            if (c.dashes && (!c.behind.empty() || s.chance(1, 2) || !plain_positional_ok(it.tokens[0])))
                c.behind.push_back(it);
            else if (plain_positional_ok(it.tokens[0]))
                insert_item(s, c, it, behind_last_positional(c));
            else
            {
                c.dashes = true;
                c.behind.push_back(it);
            }
        }
        return finish();
    }
    case 8: // value that cannot be converted
    {
        m.kind = "bad value";
        m.expected = oc::user_input;
        std::vector<int> pos;
        for (size_t i = 0; i < sp.pos.size(); ++i)
            if (sp.pos[i].type != ty::str && sp.pos[i].type != ty::path)
                pos.push_back(i);
        if (!pos.empty() && (typed.empty() || s.chance(1, 3)))
        {
            int p = s.pick(pos);
            std::string text = invalid_text(s, sp.pos[p].type);
            // The first argument of this positional option or any of a list.
            size_t number = 0;
            for (int i = 0; i < p; ++i)
                number += c.pos_values[i].size();
            number += s.below(c.pos_values[p].size());
            for (auto * v : {&c.items, &c.behind})
                for (auto & i : *v)
                    if (i.positional == static_cast<int>(number))
                    {
                        if (v == &c.items && !plain_positional_ok(text))
                            throw pbt::discard{};
                        i.tokens = {text};
                        m.needles = {{text}};
                        m.kind += " (positional)";
                        return finish();
                    }
            throw pbt::discard{};
        }
        if (typed.empty())
            throw pbt::discard{};
        int o = s.pick(typed);
        std::string text = invalid_text(s, sp.opts[o].type);
        item it = option_item(s, sp, o, {text, ""});
        if (it.tokens.empty())
            throw pbt::discard{};
        if (sp.opts[o].list)
            insert_item(s, c, it);
        else
        {
            remove_option(o);
            insert_item(s, c, it);
        }
        m.needles = {{text}};
        return finish();
    }
    default: // value that is rejected by the validator
    {
        m.kind = "rejected value";
        m.expected = oc::validation;
        unsigned const kind = s.chance(1, 2) ? 0 : s.below(num_rejections);
        auto reject = [kind](std::string const & bad)
        {
            return [bad, kind](strings const & v)
            {
                if (std::find(v.begin(), v.end(), bad) != v.end())
                    throw_rejection(kind, "REASON of rejection");
            };
        };
        m.needles = {{"REASON of rejection"}};
        size_t total = sp.pos.size() + options.size();
        if (total == 0)
            throw pbt::discard{};
        size_t which = s.below(total);
        if (which < sp.pos.size())
        {
            sp.pos[which].validator.check = reject(s.pick(c.pos_values[which]));
            m.kind += " (positional)";
            return finish();
        }
        int o = options[which - sp.pos.size()];
        std::vector<std::string> given;
        for (auto const & i : c.items)
            if (i.option == o)
                given.push_back(i.value);
        if (given.empty())
            throw pbt::discard{};
        sp.opts[o].validator.check = reject(s.pick(given));
        for (auto const & n : names_of(sp.opts[o]))
            m.needles.push_back({n});
        return finish();
    }
    }
}

} // namespace verif
