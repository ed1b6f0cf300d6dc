// C24: The environment never makes parsing fail: the same program is run in a healthy and in a faulty environment.
#include "scenario.hpp"

#include "fs_world.hpp"

#include <sys/resource.h>

using namespace verif;

namespace
{

#ifdef NDEBUG
constexpr char const * stamp = "app_usr.timestamp";
#else
constexpr char const * stamp = "app_dev.timestamp";
#endif

struct fault
{
    std::string what;
    bool config_usable{true};
};

struct world
{
    std::string root;
    std::string home;          // value of HOME
    bool home_set{true};
    std::string config_dir;    // where files may appear, relative to root; empty: nowhere
    bool config_usable{true}, tmp_usable{true};
    std::vector<std::string> what;
    std::vector<std::pair<std::string, std::string>> tmp_variables;
    bool no_threads{false};

    void mkdir(std::string const & p, unsigned mode = 0700) const
    {
        ::mkdir((root + "/" + p).c_str(), 0700);
        ::chmod((root + "/" + p).c_str(), mode);
    }
    void file(std::string const & p, std::string const & content, unsigned mode = 0600) const
    {
        write_file(root + "/" + p, content);
        ::chmod((root + "/" + p).c_str(), mode);
    }
    void link(std::string const & to, std::string const & p) const
    {
        if (symlink(to.c_str(), (root + "/" + p).c_str()) != 0)
            std::perror("symlink");
    }
};

std::string garbage(source & s, bool version)
{
    switch (s.below(7))
    {
    case 0:
        return "";
    case 1:
        return random_bytes(s, 200);
    case 2:
        return std::string(s.chance(1, 2) ? 300000 : 3000, s.pick("1.9A \n-"));
    case 3:
        return version ? "not a version\nneither\n" : "not a time\nASK";
    case 4:
        return version ? "\n\n\n" : std::string("99999999999999999999999999999999999999\n") + s.pick_str({"ALWAYS", "NEVER", "ASK", "", "?"});
    case 5:
        return version ? "1..2\n-1.-1.-1" : std::string{"-1e308\n"} + s.pick_str({"ALWAYS", "NEVER", "nan"});
    default:
        return version ? std::string("\0\0\0\n\0", 5) : s.pick_str({"ALWAYS", "NEVER", "nan\nALWAYS", "inf\nASK", "0\nALWAYS\n\n", "1e400\nASK"});
    }
}

// Files of earlier runs in the directory.
void leftovers(source & s, world & w, std::string const & dir)
{
    if (s.chance(1, 2))
    {
        std::string t = dir + "/" + stamp;
        switch (s.below(6))
        {
        case 0:
            w.mkdir(t);
            w.what.push_back("timestamp file is a directory");
            break;
        case 1:
            w.file(t, garbage(s, false), 0000);
            w.what.push_back("timestamp file is inaccessible");
            break;
        case 2:
            w.file(t, garbage(s, false), 0400);
            w.what.push_back("timestamp file is read-only");
            break;
        case 3:
            w.link("nowhere/nothing", t);
            w.what.push_back("timestamp file is a dangling link");
            break;
        case 4:
            w.link(s.pick_str({"/dev/null", stamp}), t);
            w.what.push_back("timestamp file is a link to a device or itself");
            break;
        default:
            w.file(t, garbage(s, false));
            w.what.push_back("timestamp file is corrupt");
        }
    }
    if (s.chance(1, 2))
    {
        std::string v = dir + "/app.version";
        switch (s.below(5))
        {
        case 0:
            w.mkdir(v);
            w.what.push_back("version file is a directory");
            break;
        case 1:
            w.file(v, "x", 0000);
            w.what.push_back("version file is inaccessible");
            break;
        case 2:
            w.link("nowhere/nothing", v);
            w.what.push_back("version file is a dangling link");
            break;
        default:
            w.file(v, garbage(s, true), s.chance(1, 2) ? 0600 : 0400);
            w.what.push_back("version file is corrupt");
        }
    }
    if (s.chance(1, 2)) // files of others
    {
        w.file(dir + "/" + s.pick_str({"dummy.txt", "dummy", "other_usr.timestamp", "app2.version", "data", "tmp", "test", "x.txt", "app2_dev.timestamp"}), "precious");
        w.what.push_back("other files in the directory");
    }
}

void make_home(source & s, world & w)
{
    w.mkdir("home");
    w.home = w.root + "/home";
    w.config_dir = "home/.config/seqan";
    auto bad = [&](std::string what)
    {
        w.config_usable = false;
        w.config_dir.clear();
        w.what.push_back(what);
    };
    switch (s.below(20))
    {
    case 0:
        w.home_set = false;
        return bad("HOME is unset");
    case 1:
        w.home = "";
        return bad("HOME is empty");
    case 2:
        w.home = w.root + "/missing/home";
        return bad("HOME does not exist");
    case 3:
        w.file("a-file", "x");
        w.home = w.root + "/a-file";
        return bad("HOME is a file");
    case 4:
        w.mkdir("home", 0500);
        return bad("HOME is read-only");
    case 5:
        w.mkdir("home", 0000);
        return bad("HOME is inaccessible");
    case 6:
        w.file("home/.config", "precious");
        return bad(".config is a file");
    case 7:
        w.mkdir("home/.config", s.chance(1, 2) ? 0500 : 0000);
        return bad(".config is read-only or inaccessible");
    case 8:
        w.link(s.pick_str({"nowhere", ".config"}), "home/.config");
        return bad(".config is a dangling link or a loop");
    case 9:
        w.mkdir("home/.config");
        w.file("home/.config/seqan", "precious", s.chance(1, 2) ? 0600 : 0000);
        return bad("seqan is a file");
    case 10:
        w.mkdir("home/.config");
        w.mkdir("home/.config/seqan");
        if (s.chance(1, 2))
            leftovers(s, w, "home/.config/seqan");
        w.mkdir("home/.config/seqan", s.pick(std::vector<unsigned>{0500, 0000, 0100, 0400, 0200}));
        return bad("seqan is read-only or inaccessible");
    case 11:
        w.mkdir("home/.config");
        w.link(s.pick_str({"nowhere", "seqan", "../.config/seqan"}), "home/.config/seqan");
        return bad("seqan is a dangling link or a loop");
    case 12:
        w.mkdir("elsewhere");
        w.mkdir("home/.config");
        w.link("../../elsewhere", "home/.config/seqan");
        w.config_dir = "elsewhere";
        leftovers(s, w, "elsewhere");
        w.what.push_back("seqan is a link to a directory");
        return;
    case 13:
        w.mkdir("cwd/rel");
        w.home = "rel";
        w.config_dir = "cwd/rel/.config/seqan";
        w.what.push_back("HOME is relative");
        return;
    case 14:
        w.home = "/" + std::string(300, 'x');
        return bad("HOME is too long for a name");
    case 15:
        w.home = w.root + "/home" + std::string(5000, '/') + std::string(5000, 'x');
        return bad("HOME is too long for a path");
    case 16:
        w.mkdir("home/.config", 0300); // may be used but not listed
        w.what.push_back(".config cannot be listed");
        return;
    default:
        w.mkdir("home/.config");
        w.mkdir("home/.config/seqan", s.chance(1, 6) ? 0300 : 0700);
        ::chmod((w.root + "/home/.config/seqan").c_str(), 0700);
        leftovers(s, w, "home/.config/seqan");
        if (s.chance(1, 6))
        {
            w.mkdir("home/.config/seqan", 0300);
            w.what.push_back("seqan cannot be listed");
        }
    }
}

void make_tmp(source & s, world & w)
{
    w.mkdir("tmp");
    std::string good = w.root + "/tmp";
    auto bad = [&](std::string value, std::string what)
    {
        w.tmp_variables = {{"TMPDIR", value}};
        w.tmp_usable = false;
        w.what.push_back(what);
    };
    w.tmp_variables = {{"TMPDIR", good}};
    switch (s.below(12))
    {
    case 0:
        return bad(w.root + "/missing", "TMPDIR does not exist");
    case 1:
        return bad("", "TMPDIR is empty");
    case 2:
        w.file("tmp-file", "precious");
        return bad(w.root + "/tmp-file", "TMPDIR is a file");
    case 3:
        w.mkdir("tmp", 0500);
        return bad(good, "TMPDIR is read-only");
    case 4:
        w.mkdir("tmp", 0000);
        return bad(good, "TMPDIR is inaccessible");
    case 5:
        w.link("nowhere", "tmp-link");
        return bad(w.root + "/tmp-link", "TMPDIR is a dangling link");
    case 6:
        w.tmp_variables = {{s.pick_str({"TMP", "TEMP", "TEMPDIR"}), good}};
        w.what.push_back("TMPDIR is unset, " + w.tmp_variables[0].first + " is used");
        return;
    case 7:
    case 8:
        leftovers(s, w, "tmp");
        return;
    default:
        return;
    }
}

// Is the change of this path allowed?
bool own_file(world const & w, std::string const & path)
{
    for (std::string dir : {w.config_dir, std::string{"tmp"}})
    {
        if (dir.empty())
            continue;
        if (path == dir || dir.starts_with(path + "/")) // directories that are created
            return true;
        if (path.starts_with(dir + "/"))
        {
            std::string n = path.substr(dir.size() + 1);
            if (n == stamp || n == "app.version")
                return true;
        }
    }
    return false;
}

struct environment
{
    static constexpr char const * names[] = {"HOME", "TMPDIR", "TMP", "TEMP", "TEMPDIR", "SHARG_NO_VERSION_CHECK"};
    std::map<std::string, std::string> old;
    rlimit limit{};
    environment()
    {
        for (auto n : names)
            if (char const * v = getenv(n))
                old[n] = v;
        getrlimit(RLIMIT_NPROC, &limit);
    }
    ~environment()
    {
        for (auto n : names)
            if (old.contains(n))
                setenv(n, old[n].c_str(), 1);
            else
                unsetenv(n);
        setrlimit(RLIMIT_NPROC, &limit);
        if (chdir(pbt::g_scratch.c_str()) != 0)
            std::perror("chdir");
        remove_below(pbt::g_scratch + "/world");
        rmdir((pbt::g_scratch + "/world").c_str());
        g_system.reset();
    }
};

void check(source & s)
{
    environment restore;
    scenario sc = random_scenario(s);
    // Should a request be made?
    std::string ask;
    if (s.chance(1, 2))
    {
        ask = s.pick_str({"1", "true", "1", "0"});
        sc.args.insert(sc.args.begin(), {"--version-check", ask});
    }
    hooks h;
    h.use_argv = sc.use_argv;
    h.notifications = s.chance(1, 8) ? sharg::update_notifications::off : sharg::update_notifications::on;

    world w;
    w.root = pbt::g_scratch + "/world";
    ::mkdir(w.root.c_str(), 0700);
    w.mkdir("cwd");
    if (chdir((w.root + "/cwd").c_str()) != 0)
        throw pbt::discard{};
    unsetenv("SHARG_NO_VERSION_CHECK");
    for (auto n : {"TMPDIR", "TMP", "TEMP", "TEMPDIR"})
        unsetenv(n);

    // A healthy environment.
    w.mkdir("healthy");
    setenv("HOME", (w.root + "/healthy").c_str(), 1);
    setenv("TMPDIR", (w.root + "/healthy").c_str(), 1);
    g_system.reset();
    outcome const healthy = run_scenario(sc, h);
    remove_below(w.root + "/healthy");
    unsetenv("TMPDIR");

    // A faulty one.
    make_home(s, w);
    make_tmp(s, w);
    bool const tool_missing = s.chance(1, 3), request_fails = s.chance(1, 2);
    w.no_threads = !tool_missing && s.chance(1, 6);
    if (tool_missing)
        w.what.push_back("no download tool");
    if (w.no_threads)
        w.what.push_back("no thread can be started");
    if (w.home_set)
        setenv("HOME", w.home.c_str(), 1);
    else
        unsetenv("HOME");
    for (auto const & [n, v] : w.tmp_variables)
        setenv(n.c_str(), v.c_str(), 1);
    std::string faults;
    for (auto const & x : w.what)
        faults += x + "; ";
    s.describe(sc.show() + "\nenvironment: " + faults + (h.notifications == sharg::update_notifications::on ? "notifications on" : "notifications off"));

    unsigned const runs = 1 + s.below(3); // later runs find what earlier ones left
    for (unsigned i = 0; i < runs; ++i)
    {
        g_system.reset(
            [&](std::string const & c) -> int
            {
                if (contains(c, "://"))
                    return request_fails ? 1024 : 0;
                return tool_missing ? 32512 : 0;
            });
        fs_snapshot const before = snapshot_of(w.root);
        rlimit none = restore.limit;
        none.rlim_cur = 0;
        if (w.no_threads)
            setrlimit(RLIMIT_NPROC, &none);
        outcome const o = run_scenario(sc, h);
        setrlimit(RLIMIT_NPROC, &restore.limit);
        fs_snapshot const after = snapshot_of(w.root);
        if (!(o == healthy))
            fail("in this environment the outcome is\n", o.show(), "\n\ninstead of\n", healthy.show(), "\n\nenvironment: ", faults, "\n", sc.show());

        bool request = false;
        for (auto const & c : g_system.get())
            request |= contains(c, "://");
        if (request && !w.config_usable && !w.tmp_usable)
            fail("a request is made although there is no usable directory\nenvironment: ", faults, "\n", sc.show());
        fs_snapshot b = before, a = after;
        std::erase_if(b, [&](auto const & e) { return own_file(w, e.first) && (e.second.type == 'f' || !after.contains(e.first) || e.second.type != after.at(e.first).type); });
        std::erase_if(a, [&](auto const & e) { return own_file(w, e.first) && (!before.contains(e.first) || e.second.type == 'f'); });
        if (std::string d = difference(b, a); !d.empty())
            fail("changes on disk: ", d, "\nenvironment: ", faults, "\n", sc.show());
        if (h.notifications == sharg::update_notifications::off && request)
            fail("a request is made although notifications are off\n", sc.show());
        if (request)
            s.label("request made");
    }
    if (!w.what.empty())
        s.nontrivial();
    for (auto const & x : w.what)
        s.label(x);
}


} // namespace

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C24",
                        .rule = "a case is non-trivial if the environment has at least one fault (listed in the labels)",
                        .check = check,
                        .quick_debug = 5000,
                        .quick_release = 20000,
                        .setup = fs_setup}}
        .main(argc, argv);
}
