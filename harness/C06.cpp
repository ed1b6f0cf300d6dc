// C06: Everything behind -- is a positional argument, taken verbatim.
#include "mistakes.hpp"

using namespace verif;

static void check(source & s)
{
    spec sp = random_spec(s, {.max_options = 4, .max_flags = 4, .max_pos = 0});
    // Positional options: any number of strings or paths, partly followed by a list.
    size_t n_pos = s.below(4);
    bool const pos_list = n_pos == 0 || s.chance(1, 2);
    for (size_t i = 0; i < n_pos + pos_list; ++i)
    {
        decl d;
        d.list = i == n_pos;
        d.type = s.chance(1, 3) ? ty::path : ty::str;
        d.initial_texts = random_initial(s, d.type, d.list);
        sp.pos.push_back(std::move(d));
    }
    sp.reset();
    command_line c = random_line(s, sp, {.dashes_num = 1, .dashes_den = 1, .max_list = 1, .use_num = 1, .use_den = 2});

    // Only arguments behind -- from now on, as many as there are places for them.
    std::erase_if(c.items,
                  [](item const & it)
                  {
                      return it.positional >= 0;
                  });
    size_t const before = pos_list && s.chance(1, 4) ? 1 + s.below(2) : 0;
    // Tokens that look like something else.
    auto trap = [&]() -> std::string
    {
        if (!sp.opts.empty() && s.chance(1, 2))
        {
            decl const & d = sp.opts[s.below(sp.opts.size())];
            strings n = names_of(d);
            std::string id = s.pick(n);
            switch (s.below(5))
            {
            case 0:
                return id;
            case 1:
                return id + "=" + random_text(s);
            case 2:
                return id + random_text(s);
            case 3:
            {
                std::string cluster = "-";
                for (auto const & o : sp.opts)
                    if (o.flag && o.s)
                        cluster += o.s;
                return cluster;
            }
            default:
                return id + id.substr(1);
            }
        }
        static strings const traps = {"--",        "-h",     "--help", "-hh",   "--advanced-help", "--version", "--copyright", "--export-help",
                                      "--export-help=html", "--export-help=foo", "--version-check", "1",  "0",  "",  "-", "---",
                                      "--zzz",     "-z",     "--=",    "man",   "html",            "x",         "-1",          "--help=1"};
        if (s.chance(2, 3))
            return s.pick(traps);
        return random_text(s);
    };
    size_t const behind = n_pos + (pos_list ? 1 + s.below(5) : 0);
    strings all;
    for (size_t i = 0; i < behind; ++i)
        all.push_back(trap());
    // Some plain arguments before --, too.
    strings front;
    for (size_t i = 0; i < before; ++i)
        front.push_back(s.pick_str({"x", "", "-", "a b", "y=z"}));

    c.items.insert(c.items.end(), front.size(), item{});
    for (size_t i = 0; i < front.size(); ++i)
    {
        item & it = c.items[c.items.size() - front.size() + i];
        it.positional = static_cast<int>(i);
        it.tokens = {front[i]};
    }
    interleave(s, c.items);
    c.behind.clear();
    for (auto const & t : all)
    {
        item it;
        it.positional = 1000;
        it.tokens = {t};
        c.behind.push_back(it);
    }
    c.dashes = true;

    // Expected values.
    strings values = front;
    values.insert(values.end(), all.begin(), all.end());
    c.pos_values.assign(sp.pos.size(), {});
    for (size_t i = 0; i < sp.pos.size(); ++i)
    {
        if (i < n_pos)
            c.pos_values[i] = {values[i]};
        else
            c.pos_values[i].assign(values.begin() + n_pos, values.end());
    }
    for (auto & v : c.opt_values)
        v.clear();
    std::set<std::string> used; // identifiers of options in front of --
    for (auto const & it : c.items)
        if (it.option >= 0)
        {
            c.opt_values[it.option].push_back(it.value);
            used.insert(it.id);
        }
    for (size_t i = 0; i < sp.opts.size(); ++i)
        if (sp.opts[i].flag)
        {
            bool set = false;
            for (auto const & it : c.items)
                if (it.is_flags)
                    for (auto const & n : names_of(sp.opts[i]))
                        set |= it.tokens[0] == n || (n.size() == 2 && it.tokens[0][1] != '-' && it.tokens[0].find(n[1]) != std::string::npos);
            c.opt_values[i] = {set ? "true" : "false"};
        }
        else if (c.opt_values[i].empty())
            c.opt_values[i] = sp.opts[i].initial();

    // A -- that is the value of an option does not end the options.
    if (s.chance(1, 4))
    {
        decl d;
        d.type = ty::str;
        d.l = "dashes-value";
        d.s = std::none_of(sp.opts.begin(), sp.opts.end(), [](decl const & o) { return o.s == '@'; }) && s.chance(1, 2) ? '@' : '\0';
        d.initial_texts = {"i"};
        item it;
        it.option = static_cast<int>(sp.opts.size());
        it.id = d.s && s.chance(1, 2) ? "-@" : "--dashes-value";
        it.tokens = {it.id + "=--"};
        if (it.id == "-@" && s.chance(1, 2))
            it.tokens = {"-@--"};
        used.insert(it.id);
        c.opt_values.push_back({"--"});
        sp.opts.push_back(std::move(d));
        sp.opts.back().reset();
        for (auto const & other : c.items)
            for (auto const & token : other.tokens)
                if (token.starts_with("-@") || token.starts_with("--dashes-value"))
                    throw pbt::discard{}; // a value that looks like the new option
        c.items.insert(c.items.begin() + s.below(c.items.size() + 1), it);
        s.label("-- as value");
    }
    c.assemble();

    std::vector<int> validated(sp.opts.size(), 0);
    for (size_t i = 0; i < sp.opts.size(); ++i)
        if (!sp.opts[i].flag)
            sp.opts[i].validator.check = [&validated, i](strings const &)
            {
                ++validated[i];
            };
    s.describe(sp.show() + " args: " + pbt::show(c.args));

    sp.reset();
    run_result r = observe(
        [&]
        {
            sharg::parser p = make_parser(sp.app, c.args, sp.use_argv);
            sp.declare(p);
            p.parse();
            for (auto const & d : sp.opts)
                if (!d.flag)
                    for (auto const & n : names_of(d))
                    {
                        bool const set = n[1] == '-' ? p.is_option_set(n.substr(2)) : p.is_option_set(n[1]);
                        if (set != used.contains(n))
                            fail("is_option_set(", n, ") is ", set, " but it should be ", !set);
                    }
        });
    if (r.kind != oc::ok)
        fail("parse() did not succeed but ended with ", r.show());
    if (!r.out.empty() || !r.err.empty())
        fail("parse() printed something: ", pbt::quoted(r.out + r.err));
    if (std::string d = compare(sp, c); !d.empty())
        fail("wrong values: ", d);
    for (size_t i = 0; i < sp.opts.size(); ++i)
    {
        bool const given = std::any_of(c.items.begin(), c.items.end(), [&](item const & it) { return it.option == static_cast<int>(i); });
        if (!given && validated[i])
            fail("the validator of ", sp.opts[i].show(), " was called although the option was not given");
    }

    // One argument too many is an error, and none of the arguments is called unknown.
    if (!pos_list)
    {
        strings more = c.args;
        more.push_back(trap());
        sp.reset();
        r = observe(
            [&]
            {
                sharg::parser p = make_parser(sp.app, more, sp.use_argv);
                sp.declare(p);
                p.parse();
            });
        if (r.kind != oc::too_many)
            fail("too_many_arguments was expected but parse() ended with ", r.show(), " for ", pbt::show(more));
        s.label("too many");
    }
    bool dashed = false, declared = false;
    for (auto const & t : all)
    {
        dashed |= t.starts_with('-');
        declared |= declared_identifier(sp, t);
    }
    s.nontrivial(dashed);
    if (declared)
        s.label("declared or special identifier behind --");
    if (pos_list)
        s.label("positional list");
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C06",
                        .rule = "a random declaration and valid options in front of --, and behind it arguments crafted from the declared "
                                "identifiers, special requests, dashes and random texts; non-trivial: at least one of the arguments "
                                "behind -- starts with a dash",
                        .check = check,
                        .quick_debug = 12000,
                        .quick_release = 80000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
