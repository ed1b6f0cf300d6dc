// Random directory trees, snapshots of them and decisions about paths that are made by system calls of the harness.
// Everything happens below <scratch>/world, by an unprivileged user.
#pragma once

#include "model.hpp"

#include <sys/file.h>
#include <sys/socket.h>
#include <sys/un.h>

namespace verif
{

struct fs_entry
{
    char type{'?'}; // f, d, l, p (fifo), s (socket)
    unsigned mode{0};
    std::string content; // of files; target of links
    long long mtime{0};  // of files
    bool operator==(fs_entry const & o) const = default;
};

using fs_snapshot = std::map<std::string, fs_entry>;

// Directories are made accessible while they are read.
inline void take_snapshot(std::string const & dir, std::string const & prefix, fs_snapshot & out)
{
    struct stat st;
    if (lstat(dir.c_str(), &st) != 0)
        return;
    ::chmod(dir.c_str(), 0700);
    DIR * d = opendir(dir.c_str());
    strings names;
    if (d)
    {
        while (dirent * e = readdir(d))
            if (std::string_view n{e->d_name}; n != "." && n != "..")
                names.emplace_back(n);
        closedir(d);
    }
    for (auto const & n : names)
    {
        std::string const p = dir + "/" + n, key = prefix.empty() ? n : prefix + "/" + n;
        struct stat e;
        if (lstat(p.c_str(), &e) != 0)
            continue;
        fs_entry x;
        x.mode = e.st_mode & 07777;
        if (S_ISREG(e.st_mode))
        {
            x.type = 'f';
            x.mtime = e.st_mtim.tv_sec * 1000000000ll + e.st_mtim.tv_nsec;
            ::chmod(p.c_str(), 0600);
            x.content = read_file(p);
            ::chmod(p.c_str(), x.mode);
        }
        else if (S_ISDIR(e.st_mode))
        {
            x.type = 'd';
            take_snapshot(p, key, out);
        }
        else if (S_ISLNK(e.st_mode))
        {
            x.type = 'l';
            char b[4096];
            ssize_t k = readlink(p.c_str(), b, sizeof b);
            x.content.assign(b, k > 0 ? k : 0);
        }
        else
            x.type = S_ISFIFO(e.st_mode) ? 'p' : S_ISSOCK(e.st_mode) ? 's' : '?';
        out[key] = x;
    }
    ::chmod(dir.c_str(), st.st_mode & 07777);
}

inline fs_snapshot snapshot_of(std::string const & dir)
{
    fs_snapshot s;
    take_snapshot(dir, "", s);
    return s;
}

inline std::string difference(fs_snapshot const & a, fs_snapshot const & b)
{
    std::string r;
    for (auto const & [k, v] : a)
    {
        auto it = b.find(k);
        if (it == b.end())
            r += k + " (" + v.type + ") is gone; ";
        else if (!(it->second == v))
            r += k + " was changed" + (it->second.content != v.content ? " (content)" : it->second.mode != v.mode ? " (mode)" : it->second.type != v.type ? " (type)" : " (time)")
               + "; ";
    }
    for (auto const & [k, v] : b)
        if (!a.contains(k))
            r += k + " (" + v.type + ") is new; ";
    return r;
}

inline void make_removable(std::string const & dir)
{
    ::chmod(dir.c_str(), 0700);
    DIR * d = opendir(dir.c_str());
    if (!d)
        return;
    strings sub;
    while (dirent * e = readdir(d))
    {
        std::string_view n{e->d_name};
        if (n != "." && n != ".." && e->d_type == DT_DIR)
            sub.push_back(dir + "/" + std::string{n});
    }
    closedir(d);
    for (auto const & s : sub)
        make_removable(s);
}

inline void remove_below(std::string const & dir)
{
    make_removable(dir);
    DIR * d = opendir(dir.c_str());
    if (!d)
        return;
    strings names;
    while (dirent * e = readdir(d))
        if (std::string_view n{e->d_name}; n != "." && n != "..")
            names.emplace_back(n);
    closedir(d);
    for (auto const & n : names)
    {
        std::string p = dir + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
        {
            remove_below(p);
            rmdir(p.c_str());
        }
        else
            unlink(p.c_str());
    }
}

// Entries of another user (root), next to the trees: <scratch>/foreign. None of them can be removed by the user of the trees.
inline strings & foreign_entries()
{
    static strings e;
    return e;
}

inline void make_foreign(std::string const & scratch)
{
    if (getuid() != 0)
        return;
    std::string const root = scratch + "/foreign";
    ::umask(0);
    ::mkdir(root.c_str(), 0755);
    auto file = [&](std::string const & n, unsigned mode, std::string const & content)
    {
        write_file(root + "/" + n, content);
        ::chmod((root + "/" + n).c_str(), mode);
        foreign_entries().push_back("../foreign/" + n);
    };
    auto dir = [&](std::string const & n, unsigned mode)
    {
        ::mkdir((root + "/" + n).c_str(), mode);
        ::chmod((root + "/" + n).c_str(), mode);
        foreign_entries().push_back("../foreign/" + n);
    };
    file("o.fa", 0004, "others only");
    file("g.txt", 0044, "group and others");
    file("u.fa", 0400, "the owner only");
    file("gg.fa", 0660, "not for others");
    file("none.tar.gz", 0000, "nobody");
    file("r.fa", 0644, "read only");
    file("w.fa", 0006, "");
    file("rw.txt", 0666, "");
    file("wo.fa", 0002, "");
    dir("d-rx", 0005);
    dir("d-x", 0001);
    dir("d-r", 0004);
    dir("d-own", 0770);
    dir("d-wx", 0003);
    dir("d-rwx", 0007);
    dir("d-sticky", 01777);
    dir("d-all", 0777);
    ::umask(022);
}

class fs_world
{
public:
    std::string root; // absolute
    strings all;      // paths relative to root
    strings dirs{""};

    explicit fs_world(source & s) : root{pbt::g_scratch + "/world"}
    {
        ::umask(022);
        ::mkdir(root.c_str(), 0755);
        remove_below(root);
        ::chmod(root.c_str(), 0755);
        if (chdir(root.c_str()) != 0)
            fail("harness: chdir");
        build(s);
    }
    ~fs_world()
    {
        ::umask(022);
        for (int fd : fds)
            close(fd);
        remove_below(root);
        if (chdir(pbt::g_scratch.c_str()) != 0)
            std::perror("chdir");
    }
    fs_world(fs_world const &) = delete;

    static std::string name(source & s)
    {
        static strings const names = {"a",      "b",      "x.fa",   "y.txt",     "z.tar.gz", ".hidden", ".h.fa", "dummy.txt", "e.FA",  "no_ext",   "w.sfa", "sp ace.fa",
                                      "dot.",   "..fa",   "q\".fa", "m.fasta.txt", "-h",     "out",     "data.Gz", "a.b",     ".fa",   ".fa.gz",   "fa",    "\xc3\xa4.fa", "x.fa.bak"};
        if (s.chance(1, 5)) // of some length
            return (s.chance(1, 5) ? "." : "") + random_name(s, 1) + (s.chance(1, 6) ? "" : "." + random_name(s, 0))
                 + (s.chance(1, 2) ? "" : "." + random_name(s, 0));
        return s.pick(names);
    }

    static std::string random_name(source & s, size_t least)
    {
        std::string r;
        for (size_t i = 0, n = least + (s.chance(1, 4) ? s.below(24) : s.below(4)); i < n; ++i)
            r += s.pick("abAB19_-");
        return r;
    }

    // A path to be validated.
    std::string path(source & s)
    {
        std::string p;
        switch (s.below(14))
        {
        case 0:
        case 1:
        case 2:
        case 3:
        case 4:
            if (!all.empty())
            {
                p = s.pick(all);
                break;
            }
            [[fallthrough]];
        case 5:
        case 6:
        case 7: // a new entry in an existing directory
            p = join(s.pick(dirs), name(s));
            break;
        case 8: // behind something that might not be a directory
            p = join(all.empty() ? name(s) : s.pick(all), name(s));
            break;
        case 9:
            p = join(join(s.pick(dirs), "missing"), name(s));
            break;
        case 10:
            p = s.pick(dirs);
            break;
        case 11: // .. refers to the parent of what a symbolic link refers to
            p = (all.empty() ? name(s) : s.pick(all)) + "/../" + (all.empty() || s.chance(1, 2) ? name(s) : s.pick(all));
            break;
        case 12: // of another user
            p = foreign_entries().empty() ? name(s) : s.pick(foreign_entries());
            if (s.chance(1, 4))
                p += "/" + name(s);
            break;
        default:
            p = s.pick_str({"", ".", "..", "./", "/", "missing/", "./a", "../world/a", "a//b", "a/../b", "missing/../a"});
            if (s.chance(1, 8))
                p = std::string(s.chance(1, 2) ? 255 : 256, 'n') + (s.chance(1, 2) ? "" : ".fa");
            return p;
        }
        if (s.chance(1, 10))
            p += "/";
        if (p == "")
            p = ".";
        if (s.chance(1, 4))
            p = root + "/" + p;
        return p;
    }

    std::string show(fs_snapshot const & snap) const
    {
        std::string r = "tree: ";
        for (auto const & [k, v] : snap)
        {
            char b[16];
            std::snprintf(b, sizeof b, "%o", v.mode);
            r += k + (v.type == 'd' ? "/" : v.type == 'l' ? " -> " + v.content : v.type == 'p' ? " (fifo)" : v.type == 's' ? " (socket)" : "")
               + (v.type == 'l' ? "" : std::string{" "} + b) + ", ";
        }
        return r;
    }

private:
    std::vector<int> fds;

    static std::string join(std::string const & a, std::string const & b)
    {
        return a.empty() ? b : a + "/" + b;
    }

    void build(source & s)
    {
        struct pending
        {
            std::string path;
            unsigned mode;
        };
        std::vector<pending> modes;
        size_t n = s.below(9);
        for (size_t i = 0; i < n; ++i)
        {
            std::string const rel = join(s.pick(dirs), name(s)), p = root + "/" + rel;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0)
                continue;
            switch (s.below(12))
            {
            case 0:
            case 1:
            case 2:
            case 3:
            case 4:
                write_file(p, s.chance(1, 4) ? "" : "content of " + rel);
                if (s.chance(1, 3))
                    ::chmod(p.c_str(), std::vector<unsigned>{0444, 0222, 0000, 0600, 0755}[s.below(5)]);
                break;
            case 5:
            case 6:
            case 7:
            case 8:
                ::mkdir(p.c_str(), 0755);
                dirs.push_back(rel);
                if (s.chance(1, 2))
                    modes.push_back({p, std::vector<unsigned>{0555, 0333, 0000, 0444, 0111, 0700, 01777}[s.below(7)]});
                break;
            case 9:
            case 10:
            {
                std::string target;
                switch (s.below(7))
                {
                case 0:
                    target = name(s);
                    break;
                case 5:
                    target = foreign_entries().empty() ? name(s) : root + "/" + s.pick(foreign_entries());
                    break;
                case 1:
                    target = root + "/" + (all.empty() ? name(s) : s.pick(all));
                    break;
                case 2:
                    target = "missing/" + name(s);
                    break;
                case 3:
                    target = root + "/" + join(s.pick(dirs), "new" + name(s));
                    break;
                case 4:
                    target = rel.substr(rel.rfind('/') + 1); // itself
                    break;
                default:
                    target = ".";
                }
                if (symlink(target.c_str(), p.c_str()) != 0)
                    continue;
                break;
            }
            default:
                if (s.chance(2, 3))
                {
                    if (mkfifo(p.c_str(), 0644) != 0)
                        continue;
                    fds.push_back(open(p.c_str(), O_RDONLY | O_NONBLOCK)); // so that nobody blocks
                }
                else
                {
                    int f = socket(AF_UNIX, SOCK_STREAM, 0);
                    sockaddr_un a{};
                    a.sun_family = AF_UNIX;
                    if (p.size() + 1 > sizeof a.sun_path)
                    {
                        close(f);
                        continue;
                    }
                    std::strcpy(a.sun_path, p.c_str());
                    fds.push_back(f);
                    if (bind(f, reinterpret_cast<sockaddr *>(&a), sizeof a) != 0)
                        continue;
                }
            }
            all.push_back(rel);
        }
        for (auto it = modes.rbegin(); it != modes.rend(); ++it)
            ::chmod(it->path.c_str(), it->mode);
        if (s.chance(1, 5)) // what may be done in a new directory, or with a new file, is up to this
            ::umask(std::vector<mode_t>{0, 077, 0222, 0333, 0777, 0111, 0444}[s.below(7)]);
    }
};

// ------------------------------------------------------------------------------------------------------------ decisions

inline std::string lower(std::string t)
{
    for (char & c : t)
        if (c >= 'A' && c <= 'Z')
            c = static_cast<char>(c - 'A' + 'a');
    return t;
}

inline bool extension_ok(std::string const & path, strings const & extensions)
{
    if (extensions.empty())
        return true;
    std::string n = path.substr(path.rfind('/') + 1); // npos + 1 == 0
    if (n.empty() || n == "." || n == "..")
        return false;
    if (n.find('.', 1) == std::string::npos)
        return false;
    if (n[0] == '.')
        n.erase(0, 1);
    n = lower(n);
    for (auto const & e : extensions)
        if (n.ends_with(e.starts_with('.') ? lower(e) : "." + lower(e)))
            return true;
    return false;
}

inline bool can_open(std::string const & p, int flags)
{
    int fd = open(p.c_str(), flags | O_CLOEXEC | O_NONBLOCK, 0666);
    if (fd >= 0)
        close(fd);
    return fd >= 0;
}

enum class fs_validator
{
    input_file,
    input_dir,
    output_new,
    output_any,
    output_dir
};

inline char const * name(fs_validator v)
{
    static char const * const n[] = {"input_file", "input_directory", "output_file(create_new)", "output_file(open_or_create)", "output_directory"};
    return n[static_cast<int>(v)];
}

inline bool can_create_in(std::string const & dir)
{
    std::string const p = dir + "/.harness-probe";
    int fd = open(p.c_str(), O_CREAT | O_EXCL | O_WRONLY | O_CLOEXEC, 0666);
    if (fd < 0)
        return false;
    close(fd);
    unlink(p.c_str());
    return true;
}

// Is this path to be accepted? The state is the same afterwards.
inline bool fs_accepts(fs_validator v, std::string const & p, strings const & extensions)
{
    struct stat st;
    bool const found = stat(p.c_str(), &st) == 0;
    int const error = errno;
    switch (v)
    {
    case fs_validator::input_file:
        return found && S_ISREG(st.st_mode) && can_open(p, O_RDONLY) && extension_ok(p, extensions);
    case fs_validator::input_dir:
        return found && S_ISDIR(st.st_mode) && can_open(p, O_RDONLY | O_DIRECTORY);
    case fs_validator::output_new:
    case fs_validator::output_any:
        if (!extension_ok(p, extensions))
            return false;
        if (found)
            return v == fs_validator::output_any && !S_ISDIR(st.st_mode) && can_open(p, O_WRONLY);
        if (error != ENOENT && error != ENOTDIR)
            return false;
        if (!can_open(p, O_WRONLY | O_CREAT))
            return false;
        {
            char b[PATH_MAX];
            if (!realpath(p.c_str(), b) || unlink(b) != 0)
                fail("harness: cannot remove ", p);
        }
        return true;
    case fs_validator::output_dir:
        if (found)
            return S_ISDIR(st.st_mode) && can_create_in(p);
        if (mkdir(p.c_str(), 0777) != 0)
            return false;
        {
            bool const ok = can_create_in(p);
            if (rmdir(p.c_str()) != 0)
                fail("harness: cannot remove ", p);
            return ok;
        }
    }
    return false;
}

inline strings random_extensions(source & s, strings const & paths = {})
{
    if (!paths.empty() && s.chance(1, 2)) // something like the end of one of the names
    {
        strings r;
        for (size_t i = 0, n = 1 + s.below(3); i < n; ++i)
        {
            std::string p = s.pick(paths);
            p.erase(0, p.rfind('/') + 1);
            if (p.size() < 2)
                continue;
            size_t const dot = p.find('.', p[0] == '.' && s.chance(1, 3) ? 0 : s.below(p.size()));
            p.erase(0, dot != std::string::npos && s.chance(3, 4) ? dot + s.below(2) : 1 + s.below(p.size() - 1));
            if (!p.empty() && s.chance(1, 2))
            {
                char & c = s.chance(1, 2) ? p.back() : p[s.below(p.size())];
                c = s.chance(1, 2) ? static_cast<char>(std::isupper(static_cast<unsigned char>(c)) ? std::tolower(c) : std::toupper(c)) : s.pick("abAB19");
            }
            if (!p.empty() && p != ".")
                r.push_back(p);
        }
        if (!r.empty())
            return r;
    }
    static std::vector<strings> const lists = {{},        {"fa"},           {"fa", "txt"}, {"tar.gz"}, {"gz"},  {"FA", "Gz"},         {"fasta.txt"},
                                               {".fa"},   {"fa", "fasta.txt"}, {"bak"},     {"b"},      {"fa.gz"}, {"longer.than.any.name.fa"}, {"txt", "a", "sfa"}};
    return s.chance(1, 2) ? strings{} : s.pick(lists);
}

// Calls fn with a validator of the library.
template <typename fn_t>
void with_validator(fs_validator v, strings const & extensions, fn_t && fn)
{
    switch (v)
    {
    case fs_validator::input_file:
        return extensions.empty() ? fn(sharg::input_file_validator{}) : fn(sharg::input_file_validator{extensions});
    case fs_validator::input_dir:
        return fn(sharg::input_directory_validator{});
    case fs_validator::output_new:
        return extensions.empty() ? fn(sharg::output_file_validator{})
                                  : fn(sharg::output_file_validator{sharg::output_file_open_options::create_new, extensions});
    case fs_validator::output_any:
        return extensions.empty() ? fn(sharg::output_file_validator{sharg::output_file_open_options::open_or_create})
                                  : fn(sharg::output_file_validator{sharg::output_file_open_options::open_or_create, extensions});
    case fs_validator::output_dir:
        return fn(sharg::output_directory_validator{});
    }
}

inline void fs_setup(std::string const & scratch)
{
    scratch_environment(scratch);
    make_foreign(scratch);
    if (!drop_privileges(scratch))
        throw pbt::failure{"harness: cannot drop privileges"};
}

} // namespace verif
