// Includes Sharg such that a harness can observe everything parse() does:
//   * std::exit becomes an exception (exit_signal), so that requests for pages can be checked in-process,
//   * std::cout and std::cerr are captured,
//   * system() is replaced by a recorder, so nothing is ever executed and no request leaves the process,
//   * exceptions are classified by their exact type.
// Only the public interface of Sharg is used.
#pragma once

#include <bits/stdc++.h>

#include <grp.h>
#include <pty.h>
#include <sys/ioctl.h>
#include <termios.h>
#include <unistd.h>

#include "pbt.hpp"

namespace verif
{

struct exit_signal
{
    int code;
};

inline bool use_real_exit = false; // only in forked children

[[noreturn]] inline void on_exit_called(int code)
{
    if (use_real_exit)
        std::exit(code);
    throw exit_signal{code};
}

// What is executed through system().
struct system_recorder
{
    std::mutex m;
    std::vector<std::string> commands;
    std::function<int(std::string const &)> handler; // default: everything fails

    int call(char const * c)
    {
        std::lock_guard g{m};
        if (!c)
            return 1;
        commands.push_back(c);
        return handler ? handler(c) : 1;
    }

    void reset(std::function<int(std::string const &)> h = {})
    {
        std::lock_guard g{m};
        commands.clear();
        handler = std::move(h);
    }

    std::vector<std::string> get()
    {
        std::lock_guard g{m};
        return commands;
    }
};

inline system_recorder g_system;

} // namespace verif

extern "C" int system(char const * command)
{
    return verif::g_system.call(command);
}

namespace std
{
[[noreturn]] inline void sharg_verif_exit(int code)
{
    verif::on_exit_called(code);
}
} // namespace std

[[noreturn]] inline void sharg_verif_exit(int code)
{
    verif::on_exit_called(code);
}

#define exit sharg_verif_exit
#include <sharg/all.hpp>
#undef exit

namespace verif
{

enum class oc // outcome of parse()
{
    ok,
    exited,
    unknown_option,
    multiple,
    required_missing,
    too_few,
    too_many,
    user_input,
    validation,
    design,
    parser_error, // another class derived from parser_error
    other         // any other exception
};

inline char const * name(oc o)
{
    static char const * const n[] = {"ok",       "exited",   "unknown_option",   "option_declared_multiple_times",
                                     "required_option_missing", "too_few_arguments", "too_many_arguments",
                                     "user_input_error", "validation_error", "design_error",
                                     "parser_error", "other exception"};
    return n[static_cast<int>(o)];
}

struct run_result
{
    oc kind{oc::ok};
    int code{0};      // exit code
    std::string what; // message of the exception
    std::string out, err;

    std::string show() const
    {
        std::string s = name(kind);
        if (kind == oc::exited)
            s += "(" + std::to_string(code) + ")";
        if (!what.empty())
            s += ": " + pbt::quoted(what.substr(0, 1500));
        return s;
    }
};

inline oc classify(std::exception const & e)
{
    std::type_info const & t = typeid(e);
    if (t == typeid(sharg::unknown_option))
        return oc::unknown_option;
    if (t == typeid(sharg::option_declared_multiple_times))
        return oc::multiple;
    if (t == typeid(sharg::required_option_missing))
        return oc::required_missing;
    if (t == typeid(sharg::too_few_arguments))
        return oc::too_few;
    if (t == typeid(sharg::too_many_arguments))
        return oc::too_many;
    if (t == typeid(sharg::user_input_error))
        return oc::user_input;
    if (dynamic_cast<sharg::validation_error const *>(&e)) // may be nested
        return oc::validation;
    if (t == typeid(sharg::design_error))
        return oc::design;
    if (dynamic_cast<sharg::parser_error const *>(&e))
        return oc::parser_error;
    return oc::other;
}

// Replaces the buffers of std::cout and std::cerr.
class capture
{
public:
    capture() : o{std::cout.rdbuf(out.rdbuf())}, e{std::cerr.rdbuf(err.rdbuf())}
    {}
    ~capture()
    {
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
        std::cout.clear();
        std::cerr.clear();
    }
    std::ostringstream out, err;

private:
    std::streambuf *o, *e;
};

template <typename fn_t>
run_result observe(fn_t && fn)
{
    run_result r;
    capture c;
    try
    {
        fn();
    }
    catch (exit_signal & e)
    {
        r.kind = oc::exited;
        r.code = e.code;
    }
    catch (pbt::failure &)
    {
        throw;
    }
    catch (pbt::discard &)
    {
        throw;
    }
    catch (std::exception & e)
    {
        r.kind = classify(e);
        r.what = e.what();
        if (r.kind == oc::other || r.kind == oc::parser_error)
            r.what = std::string{typeid(e).name()} + ": " + r.what;
    }
    catch (...)
    {
        r.kind = oc::other;
        r.what = "not a std::exception";
    }
    r.out = c.out.str();
    r.err = c.err.str();
    return r;
}

// The default environment of a worker: nothing of the sandbox outside of the scratch directory is used.
inline void scratch_environment(std::string const & scratch)
{
    std::string home = scratch + "/home", tmp = scratch + "/tmp";
    ::mkdir(home.c_str(), 0777);
    ::mkdir(tmp.c_str(), 0777);
    setenv("HOME", home.c_str(), 1);
    setenv("TMPDIR", tmp.c_str(), 1);
    unsetenv("SHARG_NO_VERSION_CHECK");
    if (chdir(scratch.c_str()) != 0)
        std::perror("chdir");
}

// Become an unprivileged user, so that permissions have an effect and nothing real can be reached.
inline bool drop_privileges(std::string const & scratch)
{
    if (geteuid() != 0)
        return true;
    auto own = [](std::string const & p)
    {
        if (::chown(p.c_str(), 65534, 65534) != 0)
            std::perror("chown");
    };
    own(scratch);
    own(scratch + "/home");
    own(scratch + "/tmp");
    if (setgroups(0, nullptr) != 0 || setgid(65534) != 0 || setuid(65534) != 0)
    {
        std::perror("setuid");
        return false;
    }
    return true;
}

// Connects a file descriptor to a new pseudo terminal with the given width.
class pseudo_terminal
{
public:
    explicit pseudo_terminal(unsigned cols)
    {
        winsize w{};
        w.ws_row = 24;
        w.ws_col = static_cast<unsigned short>(cols);
        if (openpty(&master, &slave, nullptr, nullptr, &w) != 0)
            master = slave = -1;
    }
    pseudo_terminal(pseudo_terminal const &) = delete;
    ~pseudo_terminal()
    {
        for (auto [fd, saved] : replaced)
        {
            dup2(saved, fd);
            close(saved);
        }
        if (master >= 0)
            close(master), close(slave);
    }
    bool ok() const
    {
        return master >= 0;
    }
    void attach(int fd)
    {
        replaced.emplace_back(fd, dup(fd));
        dup2(slave, fd);
    }

private:
    int master{-1}, slave{-1};
    std::vector<std::pair<int, int>> replaced;
};

inline std::string read_file(std::string const & p)
{
    std::ifstream f{p, std::ios::binary};
    std::ostringstream s;
    s << f.rdbuf();
    return s.str();
}

inline void write_file(std::string const & p, std::string const & content)
{
    std::ofstream f{p, std::ios::binary};
    f << content;
}

template <typename... parts_t>
[[noreturn]] void fail(parts_t const &... parts)
{
    std::ostringstream s;
    (s << ... << parts);
    throw pbt::failure{s.str()};
}

inline bool contains(std::string_view hay, std::string_view needle)
{
    return hay.find(needle) != std::string_view::npos;
}

} // namespace verif
