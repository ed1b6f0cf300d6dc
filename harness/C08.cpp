// C08: File and directory validators agree with the file system.
#include "fs_world.hpp"

using namespace verif;

static void check(source & s)
{
    fs_world w(s);
    auto const v = static_cast<fs_validator>(s.below(5));
    unsigned const mode = s.below(5); // direct path, direct string list, direct path list, option, positional list
    bool const list = mode == 1 || mode == 2 || mode == 4;
    strings paths;
    for (size_t i = 0, n = list ? s.below(4) : 1; i < n; ++i)
        paths.push_back(w.path(s));
    if (mode == 4 && paths.empty())
        paths.push_back(w.path(s));
    strings const ext = v == fs_validator::input_dir || v == fs_validator::output_dir ? strings{} : random_extensions(s, paths);
    s.describe(std::string{name(v)} + " extensions " + pbt::show(ext) + " paths " + pbt::show(paths) + " mode " + std::to_string(mode) + " "
               + w.show(snapshot_of(w.root)));

    // What is to be expected.
    bool want = true;
    std::string verdicts;
    for (auto const & p : paths)
    {
        bool const ok = fs_accepts(v, p, ext);
        want = want && ok;
        verdicts += ok ? "+" : "-";
    }

    std::vector<std::filesystem::path> values(paths.begin(), paths.end()), given = values;
    std::filesystem::path value;
    run_result r;
    with_validator(v, ext,
                   [&](auto const & validator)
                   {
                       r = observe(
                           [&]
                           {
                               switch (mode)
                               {
                               case 0:
                                   validator(given[0]);
                                   break;
                               case 1:
                                   validator(paths);
                                   break;
                               case 2:
                                   validator(given);
                                   break;
                               case 3:
                               {
                                   strings args{"--opt=" + paths[0]};
                                   if (paths[0].empty())
                                       args = {"--opt", ""};
                                   sharg::parser p = make_parser("app", args, false);
                                   p.add_option(value, sharg::config{.long_id = "opt", .validator = validator});
                                   p.parse();
                                   break;
                               }
                               default:
                               {
                                   strings args{"--"};
                                   args.insert(args.end(), paths.begin(), paths.end());
                                   values.clear();
                                   sharg::parser p = make_parser("app", args, false);
                                   p.add_positional_option(values, sharg::config{.validator = validator});
                                   p.parse();
                               }
                               }
                           });
                   });
    if (want && r.kind != oc::ok)
        fail(name(v), " does not accept ", pbt::show(paths), " (", verdicts, "): ", r.show());
    if (!want && r.kind != oc::validation)
        fail(name(v), " does not reject ", pbt::show(paths), " (", verdicts, ") with a validation_error: ", r.show());
    if (!want && r.what.empty())
        fail("the message is empty");
    if (mode == 3 && value.native() != paths[0])
        fail("the value is ", value);
    if (mode == 4 && values != given)
        fail("the values are not the ones that were given");
    s.label(std::string{name(v)} + (want ? " accepts" : " rejects"));
    s.nontrivial(!paths.empty());
}

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C08",
                        .rule = "random directory trees of an unprivileged user (files, directories, links, fifos, sockets with random "
                                "permissions and names), a random validator with extensions, and paths into the tree or next to it, "
                                "compared with system calls; non-trivial: at least one path",
                        .check = check,
                        .quick_debug = 10000,
                        .quick_release = 40000,
                        .setup = fs_setup}}
        .main(argc, argv);
}
