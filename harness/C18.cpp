// C18: Histories of runs of several applications by several users on several days, against a model of the decision.
#include "update.hpp"

#include "fs_world.hpp"

using namespace verif;

namespace
{

constexpr long long day = 86400;

struct memory
{
    long long time;
    char decision; // 'k' ask, 'a' always, 'n' never
};

struct step_t
{
    app_run run;
    std::string user;  // which home directory
    std::string env;   // SHARG_NO_VERSION_CHECK, "unset"
    std::string choice; // value of --version-check, "" if not given
    long long advance{0};

    std::string show() const
    {
        return "+" + std::to_string(advance) + "s " + (user.empty() ? "no HOME" : user) + (env == "unset" ? "" : " SHARG_NO_VERSION_CHECK=" + pbt::quoted(env))
             + ": " + run.show();
    }
};

step_t random_step(source & s, bool several_users)
{
    step_t st;
    static strings const apps = {"app", "app2", "app_usr", "app_dev", "app-version"};
    st.run.app = apps[s.chance(2, 3) ? 0 : s.below(apps.size())];
    st.user = several_users ? s.pick_str({"home1", "home1", "home2", ""}) : "home1";
    st.env = s.chance(1, 9) ? s.pick_str({"", "0", "1", "false", "foo"}) : "unset";
    if (s.chance(1, 8))
        st.run.developer = sharg::update_notifications::off;
    if (s.chance(1, 5))
        st.choice = s.pick_str({"1", "0", "true", "false"});
    switch (s.below(7))
    {
    case 0:
        st.advance = 0;
        break;
    case 1:
        st.advance = s.below(10);
        break;
    case 2:
        st.advance = s.below(day);
        break;
    case 3:
        st.advance = day - 1;
        break;
    case 4:
        st.advance = day;
        break;
    case 5:
        st.advance = day + s.below(day);
        break;
    default:
        st.advance = s.below(400) * day;
    }
    st.run.in_tty = s.chance(3, 4);
    st.run.err_tty = s.chance(3, 4);
    st.run.out_tty = s.chance(1, 4);
    st.run.input = s.pick_str({"a\n", "n\n", "y\n", "s\n", "", "\n", "always\n", "never", "yes\n", "q\n", "an\n", "na\n", "A\n", "Y\n", "N\n", " y\n", "\ta\n", "1\n"});
    st.run.use_argv = s.chance(1, 2);
    st.run.downloader = s.chance(1, 3) ? tool::curl : tool::wget;
    int rc = s.chance(1, 3) ? 256 : 0;
    st.run.request = [rc](std::string const &) { return rc; };

    // The command line: valid, invalid, or a special request.
    strings & a = st.run.args;
    std::string kind;
    switch (s.below(8))
    {
    case 0:
        a = {"--help"};
        break;
    case 1:
        a = {"-f", "--no-such-option"};
        break;
    case 2:
        if (st.choice.empty())
            a = {};
        else
            a = {"-o", "x"};
        break;
    case 3:
        a = {"-o", "--version-check", "-f"}; // a value, no request
        break;
    case 4:
        a = {"-f", "--", "--version-check", "1"}; // positional arguments
        break;
    case 5:
        a = {"--version"};
        break;
    case 6:
        st.run.subcommands = {"sub", "other"};
        a = {"-f", "sub", "-g"};
        break;
    default:
        a = {"-f", "-o", "x"};
    }
    if (!st.choice.empty())
    {
        size_t where = s.chance(1, 2) ? 0 : !a.empty() && a[0] == "-f" ? 1 : 0;
        if (a.size() == 3 && a[1] == "-o" && s.chance(1, 3)) // far behind
        {
            for (size_t k = s.below(30); k > 0; --k)
                a.push_back(s.pick_str({"w", "0", "true", "-f", "x y", "sub"}));
            where = a.size() - s.below(a.size() - 2);
        }
        a.insert(a.begin() + where, {"--version-check", st.choice});
    }
    else if (s.chance(1, 12))
    {
        a.insert(a.begin(), {"--version-check", s.pick_str({"2", "yes", "", "TRUE", "-f"})});
        st.choice = "invalid";
    }
    return st;
}

void check(source & s)
{
    std::string const root = pbt::g_scratch + "/users";
    for (std::string d : {"", "/home1", "/home2", "/tmp"})
        ::mkdir((root + d).c_str(), 0700);
    struct cleaner
    {
        std::string root;
        ~cleaner()
        {
            g_clock_set = false;
            unsetenv("SHARG_NO_VERSION_CHECK");
            std::error_code ec;
            std::filesystem::remove_all(root, ec);
        }
    } c{root};
    if (unsigned const linked = s.below(8); linked < 2) // the directory for the data is somewhere else
    {
        ::mkdir((root + "/elsewhere").c_str(), 0700);
        if (linked == 1)
            ::mkdir((root + "/home1/.config").c_str(), 0700);
        if (::symlink((root + "/elsewhere").c_str(), (root + (linked == 1 ? "/home1/.config/seqan" : "/home1/.config")).c_str()) != 0)
            fail("harness: cannot create a link");
        s.describe("the data is kept in a directory behind a symbolic link\n");
    }
    setenv("TMPDIR", (root + "/tmp").c_str(), 1);
    g_clock_set = true;
    g_now = 1600000000 + static_cast<long long>(s.below(200000000));

    std::map<std::pair<std::string, std::string>, memory> remembered;
    std::map<std::string, std::pair<std::string, std::string>> owner; // of files
    bool several = s.chance(1, 3);
    size_t n = 1 + s.below(14);
    std::string history;
    unsigned n_requests = 0, n_asked = 0, n_reused = 0;
    for (size_t i = 0; i < n; ++i)
    {
        step_t st = random_step(s, several);
        g_now += st.advance;
        history += st.show() + "\n";
        s.describe(st.show() + "\n");
        if (st.user.empty())
            unsetenv("HOME");
        else
            setenv("HOME", (root + "/" + st.user).c_str(), 1);
        if (st.env == "unset")
            unsetenv("SHARG_NO_VERSION_CHECK");
        else
            setenv("SHARG_NO_VERSION_CHECK", st.env.c_str(), 1);

        // The model.
        bool request = false, ask = false, changes = false;
        memory m{};
        auto key = std::make_pair(st.user, st.run.app);
        auto it = remembered.find(key);
        if (st.run.developer == sharg::update_notifications::off || st.env != "unset" || st.choice == "invalid")
            ;
        else if (!st.choice.empty())
            request = st.choice == "1" || st.choice == "true";
        else if (it != remembered.end() && g_now - it->second.time < day)
            ++n_reused;
        else if (it != remembered.end() && it->second.decision == 'n')
            ++n_reused;
        else if (it != remembered.end() && it->second.decision == 'a')
        {
            ++n_reused;
            request = changes = true;
            m = {g_now, 'a'};
        }
        else
        {
            changes = true;
            m = {g_now, 'k'};
            ask = st.run.in_tty && st.run.err_tty;
            if (ask)
            {
                char x = st.run.input.empty() ? 's' : st.run.input[0];
                request = x == 'y' || x == 'a';
                if (x == 'a' || x == 'n')
                    m.decision = x;
            }
        }

        fs_snapshot before = snapshot_of(root);
        st.run.run(request);
        fs_snapshot after = snapshot_of(root);
        // The directories in which the data is kept may be created by any run.
        auto ignore_directories = [](fs_snapshot & f)
        {
            std::erase_if(f, [](auto const & e) { return e.second.type == 'd'; });
            for (auto & [k, v] : f)
                v.mtime = 0;
        };
        ignore_directories(before);
        ignore_directories(after);

        std::string context = "\nin the last step of this history:\n" + history;
        if (st.run.requests.size() != request)
            fail(st.run.requests.size(), " requests instead of ", request, " ", pbt::show(st.run.requests), context);
        if (!request && !st.run.probes.empty())
            fail("a download tool was looked for although no request is to be made", context);
        if (asked(st.run) != ask)
            fail(ask ? "the user was not asked" : "the user was asked", context);
        if (!ask && !st.run.result.err.empty())
            fail("standard error contains ", pbt::quoted(st.run.result.err), context);
        size_t line = std::min(st.run.input.find('\n'), st.run.input.size() - 1) + 1;
        if (st.run.input_read != (ask ? line : 0))
            fail(st.run.input_read, " characters of the input were read instead of ", ask ? line : 0, context);
        if (!changes && before != after)
            fail("files were changed although nothing is to be remembered: ", difference(before, after), context);
        if (st.run.result.kind == oc::other || st.run.result.kind == oc::design)
            fail("unexpected outcome ", st.run.result.show(), context);
        // Files that a run for another application or another user has written are never changed.
        for (fs_snapshot const * from : {&before, &after})
            for (auto const & [path, entry] : *from)
            {
                auto b = before.find(path), a = after.find(path);
                if (b != before.end() && a != after.end() && b->second == a->second)
                    continue;
                if (auto o = owner.find(path); o != owner.end() && o->second != key)
                    fail("the file ", path, " of ", o->second.second, " was changed", context);
                owner[path] = key;
            }
        if (changes)
            remembered[key] = m;
        n_requests += request;
        n_asked += ask;
    }
    if (n_asked)
        s.label("asked");
    if (n_requests)
        s.label("request made");
    if (n_reused)
        s.label("earlier decision used");
    if (n >= 2 && (n_reused || n_requests || n_asked))
        s.nontrivial();
}

} // namespace

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C18",
                        .rule = "a history is non-trivial if it has at least two runs and in at least one of them the user was asked, a "
                                "request was made or an earlier decision was used",
                        .check = check,
                        .quick_debug = 6000,
                        .quick_release = 20000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
