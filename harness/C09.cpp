// C09: Validators leave the file system as they found it.
#include "fs_world.hpp"

using namespace verif;

struct request
{
    fs_validator v;
    strings ext;
    strings paths;
    unsigned wrap; // 0: the validator itself, 1: chained behind, 2: before a validator that decides by a pattern
    std::string pattern;
    bool given{true};
    std::vector<std::filesystem::path> values;
};

static void check(source & s)
{
    std::filesystem::create_directories(pbt::g_scratch + "/home/.config/seqan"); // created by every parse(), see C24
    fs_world w(s);
    std::vector<request> rs(1 + (s.chance(1, 3) ? 1 : 0));
    std::string note;
    for (auto & r : rs)
    {
        r.v = static_cast<fs_validator>(s.below(5));
        for (size_t i = 0, n = s.chance(1, 4) ? 2 + s.below(2) : 1; i < n; ++i)
            r.paths.push_back(w.path(s));
        if (r.v != fs_validator::input_dir && r.v != fs_validator::output_dir && s.chance(1, 2))
            r.ext = random_extensions(s, r.paths);
        r.wrap = s.below(3);
        r.pattern = s.pick_str({".*", ".*fa", "[^/]*", "x"});
        note += std::string{name(r.v)} + " extensions " + pbt::show(r.ext) + " paths " + pbt::show(r.paths)
              + (r.wrap ? (r.wrap == 1 ? " behind " : " before ") + ("pattern " + r.pattern) : "") + "; ";
    }
    // 0: direct call, 1: direct call with a list, 2: a parser with all of them
    unsigned const mode = s.below(4);
    // In a parser: 0 nothing else, 1 an option is not given, 2 an unknown option, 3 a missing positional argument, 4 --help
    unsigned const trouble = mode >= 2 ? s.below(6) : 0;
    fs_snapshot const before = snapshot_of(pbt::g_scratch);
    s.describe(note + "mode " + std::to_string(mode) + " trouble " + std::to_string(trouble) + " " + w.show(snapshot_of(w.root)));

    // Files that the user agreed to overwrite.
    std::set<std::string> agreed;
    bool accepted = false, rejected = false;
    for (auto const & r : rs)
        for (auto const & p : r.paths)
        {
            bool const ok = fs_accepts(r.v, p, r.ext);
            (ok ? accepted : rejected) = true;
            struct stat st;
            if (r.v == fs_validator::output_any && ok && stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode))
            {
                char b[PATH_MAX];
                if (realpath(p.c_str(), b))
                    agreed.insert(std::string{b}.substr(pbt::g_scratch.size() + 1));
            }
        }
    if (std::string d = difference(before, snapshot_of(pbt::g_scratch)); !d.empty())
        fail("harness: the oracle changed something: ", d);

    auto with = [&](request const & q, auto && fn)
    {
        with_validator(q.v, q.ext,
                       [&](auto const & v)
                       {
                           sharg::regex_validator const p{q.pattern};
                           if (q.wrap == 1)
                               fn(p | v);
                           else if (q.wrap == 2)
                               fn(v | p);
                           else
                               fn(v);
                       });
    };
    run_result r = observe(
        [&]
        {
            if (mode < 2)
            {
                for (auto const & q : rs)
                    with(q,
                         [&](auto const & v)
                         {
                             std::vector<std::filesystem::path> const ps(q.paths.begin(), q.paths.end());
                             try
                             {
                                 if (mode == 0)
                                     v(ps[0]);
                                 else
                                     v(ps);
                             }
                             catch (sharg::validation_error const &)
                             {}
                         });
                return;
            }
            strings args;
            for (size_t i = 0; i < rs.size(); ++i)
                if (trouble != 1)
                    for (auto const & p : rs[i].paths)
                    {
                        args.push_back(i ? "--two" : "--one");
                        args.push_back(p);
                    }
            if (trouble == 2)
                args.push_back("--unknown");
            if (trouble == 4)
                args.push_back("--help");
            if (args.empty())
                args.push_back("--");
            sharg::parser p = make_parser("app", args, false);
            for (size_t i = 0; i < rs.size(); ++i)
                with(rs[i],
                     [&](auto const & v)
                     {
                         if (s.chance(1, 2)) // the default value is not touched
                             rs[i].values = {rs[i].paths[0]};
                         p.add_option(rs[i].values, sharg::config{.long_id = i ? "two" : "one", .validator = v});
                     });
            int number = 0;
            if (trouble == 3)
                p.add_positional_option(number, sharg::config{});
            p.parse();
        });
    if (mode >= 2 && r.kind != oc::ok && r.kind != oc::validation && r.kind != oc::unknown_option && r.kind != oc::too_few && r.kind != oc::exited)
        fail("unexpected outcome ", r.show());

    bool const untouched = trouble == 1 || trouble == 4;
    fs_snapshot after = snapshot_of(pbt::g_scratch), expected = before;
    if (!untouched)
        for (auto const & a : agreed)
        {
            auto it = after.find(a);
            if (it == after.end())
                expected.erase(a);
            else if (it->second.type == 'f' && it->second.content.empty() && it->second.mode == expected[a].mode)
                expected[a] = it->second;
        }
    if (std::string d = difference(expected, after); !d.empty())
        fail("the file system is not as before (", r.show(), "): ", d);
    s.label(accepted && rejected ? "accepted and rejected" : accepted ? "accepted" : "rejected");
    if (!agreed.empty())
        s.label("existing output file");
    if (trouble)
        s.label("trouble " + std::to_string(trouble));
    s.nontrivial(!before.empty() && w.all.size() >= 1);
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C09",
                        .rule = "random directory trees as for C08 and one or two (chained) validators with paths, called directly or through "
                                "parsers that are used correctly or not; the whole scratch directory is compared before and after; "
                                "non-trivial: the tree has at least one entry",
                        .check = check,
                        .quick_debug = 10000,
                        .quick_release = 40000,
                        .setup = fs_setup}}
        .main(argc, argv);
}
