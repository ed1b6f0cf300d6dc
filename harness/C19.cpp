// C19: The command of the update request is taken apart by an independent reader of shell commands; the messages about
// new versions are compared with a reference.
#include "update.hpp"

using namespace verif;

namespace
{

#ifdef NDEBUG
constexpr bool release = true;
#else
constexpr bool release = false;
#endif

struct shell_command
{
    strings words;
    strings redirections; // e.g. ">", "/dev/null"
    std::string problem;
};

// Reads one simple command (POSIX shell language). Everything that the shell would expand or that would start another
// command is reported as a problem.
shell_command read_command(std::string const & c)
{
    shell_command r;
    size_t i = 0;
    bool in_word = false, pending = false; // pending: a redirection needs a word
    std::string w;
    auto end_word = [&]
    {
        if (!in_word)
            return;
        if (pending)
            r.redirections.push_back(w);
        else
            r.words.push_back(w);
        pending = false;
        in_word = false;
        w.clear();
    };
    while (i < c.size())
    {
        char x = c[i];
        if (x == '\'')
        {
            size_t e = c.find('\'', i + 1);
            if (e == std::string::npos)
            {
                r.problem = "unterminated quotation";
                return r;
            }
            w += c.substr(i + 1, e - i - 1);
            in_word = true;
            i = e + 1;
        }
        else if (x == '"')
        {
            in_word = true;
            for (++i;; ++i)
            {
                if (i >= c.size())
                {
                    r.problem = "unterminated quotation";
                    return r;
                }
                if (c[i] == '"')
                    break;
                if (c[i] == '$' || c[i] == '`')
                {
                    r.problem = "expansion in double quotes";
                    return r;
                }
                if (c[i] == '\\' && i + 1 < c.size() && std::string_view{"$`\"\\\n"}.find(c[i + 1]) != std::string_view::npos)
                {
                    ++i;
                    if (c[i] != '\n')
                        w += c[i];
                    continue;
                }
                w += c[i];
            }
            ++i;
        }
        else if (x == '\\')
        {
            if (i + 1 < c.size() && c[i + 1] != '\n')
            {
                w += c[i + 1];
                in_word = true;
            }
            i += 2;
        }
        else if (x == ' ' || x == '\t')
        {
            end_word();
            ++i;
        }
        else if (x == '>' || x == '<')
        {
            std::string op;
            if (in_word && w.size() == 1 && w[0] >= '0' && w[0] <= '9')
            {
                op = w;
                w.clear();
                in_word = false;
            }
            else
                end_word();
            while (i < c.size() && (c[i] == '>' || c[i] == '<' || c[i] == '&'))
                op += c[i++];
            r.redirections.push_back(op);
            pending = true;
        }
        else if (std::string_view{"\n;|&()`$*?[]{}#~!"}.find(x) != std::string_view::npos)
        {
            if (x == '#' && in_word)
                w += x, ++i;
            else
            {
                r.problem = std::string{"unquoted "} + pbt::quoted(std::string(1, x));
                return r;
            }
        }
        else
        {
            w += x;
            in_word = true;
            ++i;
        }
    }
    end_word();
    if (pending)
        r.problem = "redirection without file";
    return r;
}

std::string random_name(source & s)
{
    static std::string const chars = "abcXYZ0189_-";
    if (s.chance(1, 3))
        return s.pick_str({"app", "-app", "--help", "a-b", "A_1", "0", "-", "_", "rm", "-rf"});
    std::string n;
    for (size_t i = 0, k = 1 + s.below(s.chance(1, 20) ? 60 : 8); i < k; ++i)
        n += s.pick(chars);
    return n;
}

std::string random_bad_name(source & s)
{
    std::string n = random_name(s);
    static strings const bad = {" ", ";", "\n", "$(id)", "`id`", "&", "|", "/", "../", "'", "\"", "\\", "\xc3\xa4", ">", "*", ".", "\t", "=", "#", "%", "\x01", "\r"};
    n.insert(s.below(n.size() + 1), s.pick(bad));
    return s.chance(1, 10) ? s.pick_str({"", " ", "\n", "a\n", "\na", ";"}) : n;
}

std::array<long long, 3> numbers(std::string const & v) // of a well-formed version, zeros otherwise
{
    std::array<long long, 3> r{}, n{};
    size_t i = 0;
    for (int k = 0; k < 3; ++k)
    {
        if (k && (i >= v.size() || v[i++] != '.'))
            return r;
        size_t b = i;
        while (i < v.size() && v[i] >= '0' && v[i] <= '9')
            n[k] = std::min(n[k] * 10 + (v[i++] - '0'), 2147483647ll);
        if (i == b)
            return r;
    }
    return i == v.size() ? n : r;
}

std::string version_text(std::array<long long, 3> const & a)
{
    return std::to_string(a[0]) + "." + std::to_string(a[1]) + "." + std::to_string(a[2]);
}

std::array<long long, 3> random_numbers(source & s)
{
    std::array<long long, 3> a{};
    for (auto & x : a)
        x = s.chance(1, 10) ? static_cast<long long>(s.below(2147483648u)) : static_cast<long long>(s.below(s.chance(1, 3) ? 120 : 4));
    return a;
}

// A version similar to the given one.
std::array<long long, 3> near(source & s, std::array<long long, 3> a)
{
    if (s.chance(1, 3))
        return a;
    if (s.chance(1, 4))
        return random_numbers(s);
    auto & x = a[s.below(3)];
    x = s.chance(1, 2) ? x + 1 : std::max(0ll, x - 1);
    x = std::min(x, 2147483647ll);
    if (s.chance(1, 3))
        std::swap(a[s.below(3)], a[s.below(3)]);
    if (s.chance(1, 8)) // out of range: newer than (or as new as) everything
        a[s.below(3)] = 2147483647ll + static_cast<long long>(s.bits() >> (33 + s.below(30)));
    return a;
}

std::string malformed_version(source & s)
{
    return s.pick_str({"", " ", "1", "1.2", "1.2.", ".1.2", "1..2", "9.9.9.9", "v9.9.9", " 9.9.9", "9.9.9 ", "9.9.9\r", "-9.9.9", "9.-9.9", "+9.9.9", "9,9,9", "9.9.9-rc.1",
                       "9.9.x", "x.9.9", "0x9.9.9", "9 .9.9", "<html>", "unregistered_app", "UNREGISTERED", "UNREGISTERED_APP ", "UNREGISTERED_APP 9.9.9", "nan", "9.9.9\t", "9.9.9a"});
}

struct answer
{
    bool exists{false};
    std::string content;
    bool unregistered{false};
    std::array<long long, 3> app{}, lib{};
};

answer random_answer(source & s, std::array<long long, 3> const & app)
{
    answer a;
    a.exists = true;
    std::string first, second;
    switch (s.below(6))
    {
    case 0:
        a.unregistered = true;
        first = "UNREGISTERED_APP";
        break;
    case 1:
        first = malformed_version(s);
        break;
    default:
        a.app = near(s, app);
        first = version_text(a.app);
        a.app = numbers(first);
        if (s.chance(1, 10))
            first.insert(0, s.below(5), '0');
    }
    std::array<long long, 3> const lib{SHARG_VERSION_MAJOR, SHARG_VERSION_MINOR, SHARG_VERSION_PATCH};
    bool has_second = s.chance(5, 6);
    if (has_second)
    {
        if (s.chance(1, 5))
            second = malformed_version(s);
        else
        {
            a.lib = near(s, lib);
            second = version_text(a.lib);
            a.lib = numbers(second);
        }
    }
    a.content = first;
    if (has_second)
        a.content += "\n" + second;
    if (s.chance(1, 2))
        a.content += "\n";
    if (has_second && s.chance(1, 6))
        a.content += "\n99.99.99\nUNREGISTERED_APP\n";
    if (s.chance(1, 30)) // not an answer at all
    {
        a = {};
        a.exists = true;
        a.content = s.chance(1, 2) ? std::string(200000, '7') : random_bytes(s, 60);
        auto l1 = a.content.substr(0, a.content.find('\n'));
        auto rest = a.content.find('\n') == std::string::npos ? std::string{} : a.content.substr(a.content.find('\n') + 1);
        a.unregistered = l1 == "UNREGISTERED_APP";
        a.app = numbers(l1);
        a.lib = numbers(rest.substr(0, rest.find('\n')));
    }
    return a;
}

void check_bad_name(source & s, std::string const & root)
{
    std::string name = random_bad_name(s);
    app_run r;
    r.args = {"--version-check", "1", "-f"};
    bool late = s.chance(1, 2), sub = s.chance(1, 4);
    s.describe("application name " + pbt::quoted(name) + (late ? " (assigned after construction)" : "") + (sub ? " with subcommands" : ""));
    r.app = late ? "app" : name;
    if (sub)
    {
        r.subcommands = {"sub"};
        r.args.push_back("sub");
    }
    bool f{};
    r.declare = [&](sharg::parser & p)
    {
        p.add_flag(f, sharg::config{.short_id = 'f'});
        if (late)
            p.info.app_name = name;
    };
    r.run();
    if (r.result.kind != oc::design)
        fail("the name ", pbt::quoted(name), " is not refused: ", r.result.show());
    if (!r.requests.empty() || !r.probes.empty())
        fail("a command was run for the name ", pbt::quoted(name), ": ", pbt::show(r.requests), pbt::show(r.probes));
    if (!std::filesystem::is_empty(root + "/tmp"))
        fail("files were created for the name ", pbt::quoted(name));
    s.label("refused name");
    s.nontrivial();
}

void check_request(run_result const &, app_run const & r, std::string const & file, std::string const & version, std::string const & context)
{
    if (r.requests.size() != 1)
        fail(r.requests.size(), " commands instead of one ", pbt::show(r.requests), context);
    shell_command c = read_command(r.requests[0]);
    std::string const cmd = "\ncommand: " + r.requests[0] + context;
    if (!c.problem.empty())
        fail("the command is not a simple command: ", c.problem, cmd);
    if (c.words.size() < 5 || c.words[0] != "/usr/bin/env" || c.words[1] != "-i")
        fail("the command does not start a download tool in an empty environment", cmd);
    std::string const want = r.downloader == tool::wget ? "wget" : "curl";
    if (c.words[2] != want)
        fail("the command calls ", c.words[2], " instead of ", want, cmd);
    std::string const url = "https://seqan-update.informatik.uni-tuebingen.de/check/SeqAn-Sharg_Linux_64_" + r.app + "_" + version;
    if (c.words.back() != url)
        fail("the URL is ", pbt::quoted(c.words.back()), " instead of ", pbt::quoted(url), cmd);
    size_t n = c.words.size();
    if (c.words[n - 2] != file)
        fail("the output file is ", pbt::quoted(c.words[n - 2]), " instead of ", pbt::quoted(file), cmd);
    if (c.words[n - 3] != (want == "wget" ? "-O" : "-o"))
        fail("the output file is not the argument of the output option", cmd);
    for (size_t i = 3; i + 3 < n; ++i)
        if (c.words[i].empty() || (c.words[i][0] != '-' && c.words[i].find_first_not_of("0123456789") != std::string::npos))
            fail("unexpected argument ", pbt::quoted(c.words[i]), cmd);
    for (size_t i = 1; i < c.redirections.size(); i += 2)
        if (c.redirections[i] != "/dev/null" && c.redirections[i] != "1" && c.redirections[i] != "2")
            fail("the output is redirected to ", c.redirections[i], cmd);
}

void check_messages(app_run const & r,
                    answer const & a,
                    std::array<long long, 3> const & app,
                    std::string const & context)
{
    std::array<long long, 3> const none{}, lib{SHARG_VERSION_MAJOR, SHARG_VERSION_MINOR, SHARG_VERSION_PATCH};
    struct message
    {
        char const * what;
        strings signs;
        bool expected;
    };
    std::vector<message> const all = {
        {"a new Sharg version", {"[SHARG VERSION INFO] :: A new Sharg version is available online."}, !release && a.exists && a.lib != none && lib < a.lib},
        {"the application is not registered", {"[SHARG VERSION INFO] :: Do you wish to register your app for update notifications?"}, !release && a.exists && a.unregistered},
        {"the application is newer than the registered one",
         {"[APP VERSION INFO] :: We noticed the app version you use is newer than the one registered with us."},
         !release && a.exists && a.app != none && app > a.app},
        {"a new version of the application",
         {"[APP VERSION INFO] :: A new version of this application is now available."},
         release && a.exists && a.app != none && app < a.app}};
    std::string const & err = r.result.err;
    bool any = false;
    for (auto const & m : all)
    {
        any |= m.expected;
        for (auto const & sign : m.signs)
            if (contains(err, sign) != m.expected)
                fail("the message about: ", m.what, m.expected ? " is missing" : " is shown", "\nstandard error: ", pbt::quoted(err), context);
    }
    if (!any && !err.empty())
        fail("standard error is ", pbt::quoted(err), context);
    if (all[3].expected && !r.url.empty() && !contains(err, "Visit " + r.url + " for updates."))
        fail("the message about a new version does not contain the URL\nstandard error: ", pbt::quoted(err), context);
    if (r.url.empty() && contains(err, "Visit "))
        fail("standard error is ", pbt::quoted(err), context);
}

void check(source & s)
{
    std::string const root = pbt::g_scratch + "/w";
    struct cleaner
    {
        std::string root;
        ~cleaner()
        {
            std::error_code ec;
            std::filesystem::remove_all(root, ec);
        }
    } c{root};
    ::mkdir(root.c_str(), 0700);
    ::mkdir((root + "/tmp").c_str(), 0700);
    unsetenv("SHARG_NO_VERSION_CHECK");
    unsetenv("HOME");
    setenv("TMPDIR", (root + "/tmp").c_str(), 1);
    if (s.chance(1, 8))
        return check_bad_name(s, root);

    // Where the data is kept.
    static strings const dirs = {"home", "ho me", "it's", "\"quoted\"", "$HOME", "$(id)", "`id`", "a;b", "a|b", "a&b", "new\nline", "tab\there", "-O", "--", "back\\slash", "*", "?x[", "#no",
                                 "~", "!", "a'b'c", "''", "'", "\xc3\xa4\xff", "x>y", "{a,b}", "\\'", "end\\", "%s", "a\rb"};
    std::string dir = s.pick(dirs);
    if (s.chance(1, 3))
        dir += s.pick(dirs);
    if (s.chance(1, 4))
    {
        dir = random_bytes(s, 10);
        std::erase(dir, '/');
        if (dir.empty() || dir == "." || dir == "..")
            dir = "x";
    }
    bool use_tmp = s.chance(1, 8);
    std::string const base = root + "/" + dir;
    ::mkdir(base.c_str(), 0700);
    std::string file;
    app_run r;
    r.app = random_name(s);
    if (use_tmp)
    {
        setenv("TMPDIR", base.c_str(), 1);
        file = base + "/" + r.app + ".version";
    }
    else
    {
        setenv("HOME", base.c_str(), 1);
        file = base + "/.config/seqan/" + r.app + ".version";
    }

    // The version of the application.
    std::array<long long, 3> app = random_numbers(s);
    r.version = version_text(app);
    if (s.chance(1, 4))
        r.version += s.pick_str({"-rc.1", " beta", "; reboot", "$(id)", "+git", ".4", "x", " && true", "'", "\"", "`id`", "\n; id", "/../../x", " -o /x", "\xc3\xa4", ".", "-"});
    else if (s.chance(1, 6))
    {
        r.version = s.pick_str({"v1.2.3", "1.2", "1", " 1.2.3", "$(id)1.2.3", "-1.2.3", "version 1.2.3", "1.2.x", "1..2.3", ";1.2.3", "one", "1,2,3"});
        app = {};
    }
    std::string const number = version_text(app);
    if (s.chance(1, 2))
        r.url = s.chance(1, 2) ? "https://example.com/a?b=c&d" : s.pick_str({"x'; id; '", "$(id)", "`id`", "\"; id", "http://x y", "&& id", "%s", "a\nb"});
    r.use_argv = s.chance(1, 2);
    r.downloader = s.chance(1, 8) ? tool::none : s.chance(1, 2) ? tool::wget : tool::curl;
    static std::vector<strings> const lines = {{"--version-check", "1", "-f"}, {"-f", "--version-check", "true"}, {"--version-check", "1"}, {"-o", "x", "--version-check", "1"},
                                               {"--version", "--version-check", "1"}, {"--version-check", "1", "--unknown"}};
    r.args = s.pick(lines);

    std::string context = "\nname " + r.app + ", version " + pbt::quoted(r.version) + ", url " + pbt::quoted(r.url) + ", " + (use_tmp ? "TMPDIR" : "HOME") + " ends in " + pbt::quoted(dir);
    // A history of runs: what is downloaded by one run is reported by the next.
    answer stored;
    if (s.chance(1, 2))
    {
        stored = random_answer(s, app);
        std::filesystem::create_directories(std::filesystem::path{file}.parent_path());
        write_file(file, stored.content);
    }
    size_t runs = 1 + s.below(3);
    for (size_t i = 0; i < runs; ++i)
    {
        answer next = stored;
        int rc = 0;
        if (s.chance(2, 3))
        {
            next = random_answer(s, app);
            rc = s.chance(1, 8) ? 256 : 0;
        }
        std::string const here = context + "\nrun " + std::to_string(i + 1) + " " + pbt::show(r.args) + ", stored answer "
                               + (stored.exists ? pbt::quoted(stored.content.substr(0, 200)) : "none");
        s.describe(here + "\n");
        r.request = [&](std::string const & cmd)
        {
            // The stand-in for the download tool writes to the file that was given to it.
            shell_command sc = read_command(cmd);
            if (sc.problem.empty() && sc.words.size() > 5 && sc.words[sc.words.size() - 2].starts_with(root + "/") && next.exists)
                write_file(sc.words[sc.words.size() - 2], next.content);
            return rc;
        };
        r.run(r.downloader != tool::none);
        if (r.result.kind == oc::other || r.result.kind == oc::design)
            fail("unexpected outcome ", r.result.show(), here);
        if (r.downloader == tool::none)
        {
            if (!r.requests.empty())
                fail("a request was made without a download tool: ", pbt::show(r.requests), here);
            next = stored;
        }
        else
            check_request(r.result, r, file, number, here);
        for (auto const & p : r.probes)
            if (shell_command sc = read_command(p);
                !sc.problem.empty() || sc.words.size() != 4 || sc.words[0] != "/usr/bin/env" || sc.words[1] != "-i" || sc.words[3] != "--version")
                fail("unexpected command ", p, here);
        check_messages(r, stored, app, here);
        stored = next;
    }
    // A run that makes no request says nothing.
    app_run q = r;
    q.request = {};
    switch (s.below(3))
    {
    case 0:
        q.developer = sharg::update_notifications::off;
        break;
    case 1:
        q.args = {"--version-check", "0", "-f"};
        break;
    default:
        setenv("SHARG_NO_VERSION_CHECK", "", 1);
    }
    q.run();
    unsetenv("SHARG_NO_VERSION_CHECK");
    if (!q.requests.empty() || !q.probes.empty() || !q.result.err.empty())
        fail("a run that opts out runs ", pbt::show(q.requests), pbt::show(q.probes), " and prints ", pbt::quoted(q.result.err), context);
    s.label(r.downloader == tool::none ? "no tool" : r.downloader == tool::wget ? "wget" : "curl");
    if (stored.exists)
        s.label("stored answer");
    s.nontrivial();
}

} // namespace

int main(int argc, char ** argv)
{
    return pbt::engine{{.id = "C19",
                        .rule = "every case makes at least one request (or is refused) and is non-trivial; cases differ in name, version, URL, "
                                "directory and answers of the server",
                        .check = check,
                        .quick_debug = 6000,
                        .quick_release = 25000,
                        .setup = scratch_environment}}
        .main(argc, argv);
}
