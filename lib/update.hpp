// Runs of an application with update notifications: a clock that can be set, terminals, answers of the user, and a
// recorder instead of system(), so that no request ever leaves the process.
#pragma once

#include "model.hpp"

#include <sys/syscall.h>
#include <sys/time.h>

namespace verif
{
inline bool g_clock_set = false;
inline long long g_now = 0; // seconds since the epoch
} // namespace verif

// Every way to ask for the time of day is replaced (the monotonic clock is not).
extern "C" time_t time(time_t * t) noexcept
{
    timespec ts{};
    if (verif::g_clock_set)
        ts.tv_sec = verif::g_now;
    else
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}

extern "C" int gettimeofday(struct timeval * __restrict tv, void * __restrict) noexcept
{
    timespec ts{};
    if (verif::g_clock_set)
        ts.tv_sec = verif::g_now;
    else
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    if (tv)
    {
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
    }
    return 0;
}

extern "C" int clock_gettime(clockid_t id, struct timespec * ts) noexcept
{
    if (verif::g_clock_set && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE))
    {
        ts->tv_sec = verif::g_now;
        ts->tv_nsec = 0;
        return 0;
    }
    return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}

std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept
{
    timespec ts{};
    if (verif::g_clock_set)
        ts.tv_sec = verif::g_now;
    else
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    return time_point{std::chrono::duration_cast<duration>(std::chrono::seconds{ts.tv_sec} + std::chrono::nanoseconds{ts.tv_nsec})};
}

namespace verif
{

// Connects the descriptors with a terminal or with something that is none.
class descriptors
{
public:
    descriptors(bool in_tty, bool out_tty, bool err_tty) : pty{80}
    {
        set(0, in_tty);
        set(1, out_tty);
        set(2, err_tty);
    }
    ~descriptors()
    {
        for (auto it = replaced.rbegin(); it != replaced.rend(); ++it)
        {
            dup2(it->second, it->first);
            close(it->second);
        }
    }
    descriptors(descriptors const &) = delete;
    bool ok() const
    {
        return pty.ok();
    }

private:
    pseudo_terminal pty;
    std::vector<std::pair<int, int>> replaced;

    void set(int fd, bool tty)
    {
        if (tty)
            pty.attach(fd);
        else if (isatty(fd))
        {
            replaced.emplace_back(fd, dup(fd));
            int null = open("/dev/null", O_RDWR);
            dup2(null, fd);
            close(null);
        }
    }
};

inline bool is_probe(std::string const & c)
{
    return contains(c, "--version") && !contains(c, "://");
}

enum class tool
{
    wget,
    curl,
    none
};

struct app_run
{
    // what is done
    std::string app{"test_app"};
    strings args;
    sharg::update_notifications developer{sharg::update_notifications::on};
    bool use_argv{false};
    bool in_tty{false}, out_tty{false}, err_tty{false};
    std::string input; // what the user types
    std::string version, url;
    strings subcommands;
    std::function<void(sharg::parser &)> declare; // default: flag -f/--flag and option -o/--opt
    std::function<int(std::string const &)> request; // called for the request
    tool downloader{tool::wget};

    // what happened
    run_result result;
    strings probes, requests;
    size_t input_read{0};
    bool flag{false};
    std::string opt;
    bool waited{false};

    std::string show() const
    {
        std::string r = app + " " + pbt::show(args);
        if (developer == sharg::update_notifications::off)
            r += " (developer: off)";
        r += std::string{" "} + (in_tty ? "stdin:tty " : "") + (err_tty ? "stderr:tty " : "");
        if (in_tty && err_tty)
            r += "answer " + pbt::quoted(input);
        return r;
    }

    void run(bool expect_request = false)
    {
        flag = false;
        opt.clear();
        std::istringstream in{input};
        descriptors d{in_tty, out_tty, err_tty};
        if (!d.ok())
            throw pbt::discard{};
        g_system.reset(
            [this](std::string const & c)
            {
                if (is_probe(c))
                {
                    bool w = contains(c, "wget"), u = contains(c, "curl");
                    return (w && downloader == tool::wget) || (u && downloader != tool::none) ? 0 : 32512;
                }
                return request ? request(c) : 0;
            });
        std::streambuf * old = std::cin.rdbuf(in.rdbuf());
        std::cin.clear();
        result = observe(
            [&]
            {
                sharg::parser p = make_parser(app, args, use_argv, developer, subcommands);
                if (!version.empty())
                    p.info.version = version;
                p.info.url = url;
                if (declare)
                    declare(p);
                else
                {
                    p.add_flag(flag, sharg::config{.short_id = 'f', .long_id = "flag"});
                    p.add_option(opt, sharg::config{.short_id = 'o', .long_id = "opt"});
                }
                p.parse();
                if (!subcommands.empty())
                {
                    bool g{};
                    auto & q = p.get_sub_parser();
                    q.add_flag(g, sharg::config{.short_id = 'g'});
                    q.parse();
                }
            });
        std::cin.rdbuf(old);
        std::cin.clear();
        // The parser waits for the request; this is a safety margin if it does not.
        for (int i = 0; expect_request && i < 2000 && !seen(); ++i)
            std::this_thread::sleep_for(std::chrono::milliseconds{1});
        auto pos = in.tellg();
        in.clear();
        pos = in.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in);
        input_read = pos < 0 ? 0 : static_cast<size_t>(pos);
        probes.clear();
        requests.clear();
        for (auto const & c : g_system.get())
            (is_probe(c) ? probes : requests).push_back(c);
    }

private:
    static bool seen()
    {
        for (auto const & c : g_system.get())
            if (!is_probe(c))
                return true;
        return false;
    }
};

inline bool asked(app_run const & r)
{
    return contains(r.result.err, "[a]") && contains(r.result.err, "[n]") && contains(r.result.err, "[RETURN]");
}

} // namespace verif
