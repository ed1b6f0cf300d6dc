// A small property-based testing engine.
//
// A test case is a pure function of a sequence of choices (as in Hypothesis): random cases draw the choices from a PRNG
// seeded with (VERIF_SEED, property, variant, case number), a replay takes them from a file. Cases are run by forked
// workers; the choices made so far live in shared memory, so that a case that crashes or hangs its worker is known to
// the parent. In the guided variant (PBT_GUIDED), the code of Sharg reports the branches and comparisons it executes:
// choice sequences that do something new are kept, and most cases are mutations of these (coverage-guided fuzzing of the
// choices; each worker has a corpus of its own, so that a run is a function of code and seed). Every failure is replayed
// in fresh processes before it counts, and is shrunk by editing its choices.
#pragma once

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <climits>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <typeinfo>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt
{

struct failure // thrown by properties: the property does not hold
{
    std::string message;
};

struct known_finding // thrown by properties: a deviation that is listed (or must be listed) in known-findings.json
{
    std::string id;
    std::string message;
};

struct discard // thrown by properties: this choice sequence is outside the domain
{};

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

inline uint64_t hash(std::string_view s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s)
        h = (h ^ c) * 1099511628211ull;
    return mix(h);
}

inline std::string escaped(std::string_view s)
{
    std::string r;
    char tmp[8];
    for (unsigned char c : s)
    {
        if (c == '\\' || c == '"')
            r += '\\', r += static_cast<char>(c);
        else if (c == '\n')
            r += "\\n";
        else if (c < 0x20 || c >= 0x7f)
        {
            std::snprintf(tmp, sizeof tmp, "\\u%04x", c);
            r += tmp;
        }
        else
            r += static_cast<char>(c);
    }
    return r;
}

inline std::string quoted(std::string_view s)
{
    return '"' + escaped(s) + '"';
}

inline std::string show(std::vector<std::string> const & v)
{
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i)
        r += (i ? ", " : "") + pbt::quoted(v[i]);
    return r + "]";
}

constexpr uint32_t max_choices = 16384;

struct shared_slot // one per worker
{
    std::atomic<uint64_t> case_index;
    std::atomic<int64_t> started_ms; // 0: no case is running
    std::atomic<uint32_t> n_choices;
    uint64_t choices[max_choices];
    uint32_t state; // 0 running, 1 property failed, 2 finished
    uint64_t evaluations, nontrivial, discarded, corpus, features;
    char message[1 << 16];
    char note[1 << 16];
};

inline int64_t now_ms()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1000ll + ts.tv_nsec / 1000000;
}

class source
{
public:
    source(shared_slot & slot, uint64_t seed) : slot{slot}, state{seed}
    {
        slot.n_choices = 0;
    }

    source(shared_slot & slot, std::vector<uint64_t> const & choices) : slot{slot}, given{&choices}
    {
        slot.n_choices = 0;
    }

    // The given choices, then random ones.
    source(shared_slot & slot, std::vector<uint64_t> const & choices, uint64_t seed) : slot{slot}, state{seed}, given{&choices}, mutated{true}
    {
        slot.n_choices = 0;
    }

    // A number in [0, n). 0 is the simplest choice.
    uint64_t below(uint64_t n)
    {
        if (n == 0)
            n = 1;
        uint64_t v;
        if (mutated)
            v = (pos < given->size() ? (*given)[pos] : next()) % n;
        else if (given)
            v = pos < given->size() ? std::min((*given)[pos], n - 1) : 0;
        else
            v = next() % n;
        ++pos;
        uint32_t k = slot.n_choices;
        if (k >= max_choices)
            throw discard{};
        slot.choices[k] = v;
        slot.n_choices = k + 1;
        return v;
    }

    uint64_t bits()
    {
        uint64_t hi = below(1ull << 32), lo = below(1ull << 32);
        return hi << 32 | lo;
    }

    int64_t range(int64_t lo, int64_t hi)
    {
        return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
    }

    // True with probability num/den; the simple choice is false.
    // 0..n, and sometimes many more (unless n is 0).
    size_t few(size_t n)
    {
        static constexpr size_t many[]{20, 70, 300};
        return n > 0 && chance(1, 80) ? below(many[below(3)] + 1) : below(n + 1);
    }

    bool chance(unsigned num, unsigned den)
    {
        return below(den) >= den - num;
    }

    template <typename T>
    T const & pick(std::vector<T> const & v)
    {
        return v[below(v.size())];
    }

    char pick(std::string_view v)
    {
        return v[below(v.size())];
    }

    std::string pick_str(std::initializer_list<char const *> v)
    {
        return *(v.begin() + below(v.size()));
    }

    template <typename T>
    void shuffle(std::vector<T> & v)
    {
        for (size_t i = 0; i + 1 < v.size(); ++i)
            std::swap(v[i], v[i + below(v.size() - i)]);
    }

    // ---- description of the case
    std::string note;
    bool interesting{false};
    std::vector<std::string> labels;

    void describe(std::string const & s)
    {
        note += s;
    }
    void nontrivial(bool b = true)
    {
        interesting = interesting || b;
    }
    void label(std::string s)
    {
        labels.push_back(std::move(s));
    }

private:
    uint64_t next()
    {
        state += 0x9e3779b97f4a7c15ull;
        return mix(state);
    }

    shared_slot & slot;
    uint64_t state{};
    std::vector<uint64_t> const * given{nullptr};
    bool mutated{false};
    size_t pos{0};
};

// ------------------------------------------------------------------------------------------------------------ coverage

struct coverage
{
    static constexpr uint32_t n_edges = 1u << 16, n_compared = 1u << 18;
    uint8_t hits[n_edges];            // of this case
    uint8_t seen[n_edges];            // bit set of the magnitudes of hits so far
    uint8_t compared[n_compared / 8]; // results of comparisons so far
    uint32_t guards{0}, features{0}, new_features{0};
    bool active{false};

    void begin()
    {
        std::memset(hits, 0, std::min(guards + 1, n_edges));
        new_features = 0;
        active = true;
    }
    uint32_t end() // how much was new
    {
        active = false;
        for (uint32_t i = 0; i < std::min(guards + 1, n_edges); ++i)
            if (uint8_t const h = hits[i])
            {
                uint8_t const bit = static_cast<uint8_t>(1u << (h < 4 ? h - 1 : h < 8 ? 3 : h < 16 ? 4 : h < 32 ? 5 : h < 128 ? 6 : 7));
                if (!(seen[i] & bit))
                    seen[i] |= bit, ++new_features;
            }
        features += new_features;
        return new_features;
    }
    void compare(uintptr_t pc, uint64_t a, uint64_t b)
    {
        if (!active)
            return;
        uint64_t const x = a ^ b, d = a > b ? a - b : b - a;
        bool const pointers = (a >> 40) && (b >> 40); // of which only the distance is the same in every run
        for (uint64_t k : {pointers ? uint64_t{0} : static_cast<uint64_t>(__builtin_popcountll(x)), uint64_t{65} + (d ? 64u - static_cast<uint64_t>(__builtin_clzll(d)) : uint64_t{0})})
        {
            uint64_t const f = mix(pc * 131 + k) % n_compared;
            if (!(compared[f / 8] >> (f % 8) & 1))
                compared[f / 8] |= static_cast<uint8_t>(1u << (f % 8)), ++new_features;
        }
    }
};

inline coverage g_coverage;

struct property
{
    std::string id;
    std::string rule;
    std::function<void(source &)> check;
    // A fixed number of cases per variant, so that a run is a function of code and seed.
    uint64_t quick_debug, quick_release, thorough_factor{20};
    // Called once in each worker process before the first case.
    std::function<void(std::string const & /*scratch*/)> setup{};
    // Deterministic cases that are always executed (known findings, regression cases): name, check.
    std::vector<std::pair<std::string, std::function<void(source &)>>> directed{};
};

inline std::string g_scratch;    // scratch directory of this process (removed by the parent)
inline unsigned g_worker_no = 0; // number of the worker

enum class status
{
    passed,
    failed,
    crashed,
    hung,
    discarded,
    known
};

struct result
{
    status st;
    std::string message;
    std::string note;
    std::vector<uint64_t> choices;
};

class engine
{
public:
    explicit engine(property p) : prop{std::move(p)}
    {}

    int main(int argc, char ** argv)
    {
        std::string tier = "quick", out, replay, seed_s = "1";
        unsigned workers = 4;
        uint64_t cases = 0;
        std::string known_file;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto val = [&]() -> std::string
            {
                return i + 1 < argc ? argv[++i] : "";
            };
            if (a == "--tier")
                tier = val();
            else if (a == "--out")
                out = val();
            else if (a == "--replay")
                replay = val();
            else if (a == "--seed")
                seed_s = val();
            else if (a == "--workers")
                workers = std::stoul(val());
            else if (a == "--cases")
                cases = std::stoull(val());
            else if (a == "--replay-dir")
                replay_dir = val();
            else if (a == "--max-s")
                max_s = std::stol(val());
            else if (a == "--verbose")
                verbose = true;
        }
#if defined(PBT_GUIDED)
        variant = "guided";
        guided = true;
        uint64_t n = prop.quick_release / 4;
#elif defined(NDEBUG)
        variant = "release";
        uint64_t n = prop.quick_release;
#else
        variant = "debug";
        uint64_t n = prop.quick_debug;
#endif
        if (tier == "thorough")
            n *= prop.thorough_factor;
        if (cases)
            n = cases;
        seed = std::strtoull(seed_s.c_str(), nullptr, 10);

        std::string base = std::getenv("TMPDIR") ? std::getenv("TMPDIR") : "/tmp";
        std::string tmpl = base + "/sharg-verif-XXXXXX";
        if (!mkdtemp(tmpl.data()))
        {
            std::perror("mkdtemp");
            return 2;
        }
        root = tmpl;
        chmod(root.c_str(), 0777);
        own_pid = getpid();
        struct cleanup
        {
            engine * e;
            ~cleanup()
            {
                if (getpid() == e->own_pid)
                    e->remove_tree(e->root);
            }
        } guard{this};

        size_t bytes = sizeof(shared_slot) * (workers + 1);
        void * mem = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (mem == MAP_FAILED)
        {
            std::perror("mmap");
            return 2;
        }
        slots = static_cast<shared_slot *>(mem);
        iso = &slots[workers];

        if (!replay.empty())
            return run_replay(replay);

        // Directed cases first.
        for (size_t d = 0; d < prop.directed.size(); ++d)
        {
            result r = isolated({}, static_cast<int>(d));
            ++directed_run;
            if (r.st == status::known)
                known[r.message.substr(0, r.message.find('\t'))] = r.message.substr(r.message.find('\t') + 1);
            else if (is_bad(r.st))
            {
                if (confirm({}, static_cast<int>(d)))
                {
                    violation = true;
                    write_replay(r, static_cast<int>(d), -1, 0, 0);
                    break;
                }
                ++unreproducible;
            }
        }

        if (!violation)
            run_workers(workers, n);

        write_report(out, tier, n);
        for (auto const & [id, msg] : known)
            std::cout << "KNOWN " << id << '\t' << msg << '\n';
        if (violation)
        {
            std::cout << "FAILED " << replay_path << '\n' << violation_message << std::endl;
            return 1;
        }
        return 0;
    }

private:
    static bool is_bad(status s)
    {
        return s == status::failed || s == status::crashed || s == status::hung;
    }

    uint64_t case_seed(uint64_t index) const
    {
        return mix(mix(seed ^ hash(prop.id + variant)) ^ mix(index));
    }

    // Runs a case in this process.
    status execute(source & src, int directed, std::string & message)
    {
        try
        {
            if (directed >= 0)
                prop.directed[directed].second(src);
            else
                prop.check(src);
            return status::passed;
        }
        catch (failure & f)
        {
            message = f.message;
            return status::failed;
        }
        catch (known_finding & k)
        {
            message = k.id + '\t' + k.message;
            return status::known;
        }
        catch (discard &)
        {
            return status::discarded;
        }
        catch (std::exception & e)
        {
            message = std::string{"harness: unexpected exception "} + typeid(e).name() + ": " + e.what();
            return status::failed;
        }
    }

    void enter_worker(unsigned no)
    {
        g_worker_no = no;
        g_scratch = root + "/w" + std::to_string(no) + "-" + std::to_string(getpid());
        ::mkdir(g_scratch.c_str(), 0777);
        chmod(g_scratch.c_str(), 0777);
        std::fflush(nullptr);
        int null = open("/dev/null", O_RDWR);
        dup2(null, 0);
        if (!verbose)
        {
            dup2(null, 1);
            std::string log = g_scratch + ".log";
            int lf = open(log.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0666);
            dup2(lf, 2);
            close(lf);
        }
        close(null);
        if (prop.setup)
            prop.setup(g_scratch);
    }

    static void copy_text(char * dst, size_t cap, std::string const & s)
    {
        size_t n = std::min(s.size(), cap - 1);
        std::memcpy(dst, s.data(), n);
        dst[n] = 0;
    }

    [[noreturn]] void worker(unsigned w, unsigned W, uint64_t first, uint64_t n)
    {
        enter_worker(w);
        shared_slot & slot = slots[w];
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string> samples;
        int64_t const t_end = t_start + max_s * 1000;
        for (uint64_t i = first; i < n; i += W)
        {
            int64_t t = now_ms();
            if (t > t_end)
                break;
            slot.case_index = i;
            slot.started_ms = t;
            std::vector<uint64_t> given;
            bool const mutate = guided && !corpus.empty() && mix(case_seed(i)) % 8 != 0;
            if (mutate)
                given = mutation(case_seed(i));
            source src = mutate ? source{slot, given, case_seed(i)} : source{slot, case_seed(i)};
            std::string message;
            if (guided)
                g_coverage.begin();
            status st = execute(src, -1, message);
            if (guided && g_coverage.end() > 0 && corpus.size() < 20000)
                corpus.emplace_back(slot.choices, slot.choices + slot.n_choices.load());
            slot.started_ms = 0;
            ++slot.evaluations;
            if (st == status::failed)
            {
                copy_text(slot.message, sizeof slot.message, message);
                copy_text(slot.note, sizeof slot.note, src.note);
                slot.state = 1;
                flush_worker(w, distinct, labels, samples);
                _exit(0);
            }
            if (st == status::discarded)
                ++slot.discarded;
            if (st == status::known)
                labels["known-finding"]++, src.labels.push_back("known:" + message);
            for (auto & l : src.labels)
                ++labels[l];
            if (st == status::passed && src.interesting)
            {
                if (distinct.size() < 3000000)
                    distinct.insert(hash(src.note));
                if (samples.size() < 3 && (i / W) % 97 == 3)
                    samples.push_back(src.note.substr(0, 1500));
            }
        }
        flush_worker(w, distinct, labels, samples);
        slot.state = 2;
        _exit(0);
    }

    // Edits a choice sequence that did something new.
    std::vector<uint64_t> mutation(uint64_t r) const
    {
        auto below = [&r](uint64_t n)
        {
            r += 0x9e3779b97f4a7c15ull;
            return n ? mix(r) % n : 0;
        };
        auto pick = [&]() -> std::vector<uint64_t> const &
        {
            size_t const n = corpus.size(), last = std::min<size_t>(n, 32);
            return below(2) ? corpus[below(n)] : corpus[n - 1 - below(last)];
        };
        std::vector<uint64_t> c = pick();
        for (uint64_t edits = 1 + below(below(4) ? 2 : 8); edits > 0 && !c.empty(); --edits)
        {
            size_t const at = below(c.size());
            switch (below(10))
            {
            case 0:
            case 1: // everything behind it is chosen anew
                c.resize(at);
                break;
            case 2:
            case 3:
            case 4:
                c[at] = mix(r += 1);
                break;
            case 5:
                ++c[at];
                break;
            case 6:
                c[at] = c[at] ? c[at] - 1 : 0;
                break;
            case 7:
                c.erase(c.begin() + at, c.begin() + at + std::min<size_t>(c.size() - at, 1 + below(8)));
                break;
            case 8:
            {
                std::vector<uint64_t> const part(c.begin() + at, c.begin() + at + std::min<size_t>(c.size() - at, 1 + below(8)));
                c.insert(c.begin() + below(c.size() + 1), part.begin(), part.end());
                break;
            }
            default: // the end of another one
            {
                auto const & o = pick();
                size_t const from = below(2) ? std::min(at, o.size()) : below(o.size() + 1);
                c.resize(at);
                c.insert(c.end(), o.begin() + from, o.end());
            }
            }
        }
        return c;
    }

    void flush_worker(unsigned w,
                      std::unordered_set<uint64_t> const & distinct,
                      std::map<std::string, uint64_t> const & labels,
                      std::vector<std::string> const & samples)
    {
        static int part = 0;
        slots[w].corpus = corpus.size();
        slots[w].features = g_coverage.features;
        std::ofstream f{root + "/result-" + std::to_string(w) + "-" + std::to_string(getpid()) + "-"
                        + std::to_string(part++)};
        f << distinct.size() << '\n';
        for (auto h : distinct)
            f << h << '\n';
        f << labels.size() << '\n';
        for (auto & [k, v] : labels)
            f << v << ' ' << escaped(k) << '\n';
        f << samples.size() << '\n';
        for (auto & s : samples)
            f << escaped(s) << '\n';
    }

    void run_workers(unsigned W, uint64_t n)
    {
        t_start = now_ms();
        std::vector<pid_t> pids(W);
        std::vector<uint64_t> first(W);
        unsigned running = 0;
        auto start = [&](unsigned w, uint64_t from)
        {
            slots[w].state = 0;
            slots[w].started_ms = 0;
            first[w] = from;
            std::fflush(nullptr);
            pid_t p = fork();
            if (p == 0)
                worker(w, W, from, n);
            pids[w] = p;
            ++running;
        };
        for (unsigned w = 0; w < W; ++w)
        {
            slots[w].evaluations = slots[w].discarded = 0;
            start(w, w);
        }
        unsigned restarts = 0;
        while (running && !violation)
        {
            int st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p == 0)
            {
                for (unsigned w = 0; w < W; ++w)
                {
                    int64_t s = slots[w].started_ms;
                    if (pids[w] > 0 && s != 0
                        && (now_ms() - s > hang_ms || (now_ms() - s > 300 && uses_too_much_memory(pids[w]))))
                    {
                        hung.insert(pids[w]);
                        kill(pids[w], SIGKILL);
                    }
                }
                usleep(3000);
                continue;
            }
            if (p < 0)
                break;
            unsigned w = 0;
            while (w < W && pids[w] != p)
                ++w;
            if (w == W)
                continue;
            --running;
            pids[w] = 0;
            if (slots[w].state == 2)
                continue;
            // The worker stopped at a failing case, crashed, or was stopped because it hung.
            shared_slot & slot = slots[w];
            result r;
            r.choices.assign(slot.choices, slot.choices + slot.n_choices.load());
            uint64_t index = slot.case_index;
            if (slot.state == 1)
                r.st = status::failed, r.message = slot.message, r.note = slot.note;
            else
                r.st = hung.count(p) ? status::hung : status::crashed, r.message = describe_exit(st);
            if (guided ? confirm_choices(r.choices) : confirm_case(index))
            {
                for (unsigned k = 0; k < W; ++k)
                    if (pids[k] > 0)
                        kill(pids[k], SIGKILL), waitpid(pids[k], nullptr, 0);
                violation = true;
                r = last_confirmed;
                shrink(r);
                write_replay(r, -1, static_cast<int64_t>(index), 0, 0);
                return;
            }
            // Not reproducible on its own: try again with the cases that ran before in the same process.
            if (uint64_t from = guided ? UINT64_MAX : confirm_history(first[w], W, index, r); from != UINT64_MAX)
            {
                for (unsigned k = 0; k < W; ++k)
                    if (pids[k] > 0)
                        kill(pids[k], SIGKILL), waitpid(pids[k], nullptr, 0);
                violation = true;
                write_replay(r, -1, static_cast<int64_t>(index), from, W);
                return;
            }
            ++unreproducible;
            unreproducible_note = r.message;
            if (++restarts < 50)
                start(w, index + W);
        }
    }

    static bool uses_too_much_memory(pid_t p)
    {
        std::ifstream f{"/proc/" + std::to_string(p) + "/statm"};
        unsigned long total = 0, resident = 0;
        f >> total >> resident;
        return resident * 4096 > (2ul << 30);
    }

    static std::string describe_exit(int st)
    {
        if (WIFSIGNALED(st))
            return "the process was killed by signal " + std::to_string(WTERMSIG(st));
        return "the process ended unexpectedly with exit code " + std::to_string(WEXITSTATUS(st));
    }

    // Executes `what` in a forked process with its own slot.
    result forked(std::function<void(result &)> const & what)
    {
        std::fflush(nullptr);
        iso->state = 0;
        iso->n_choices = 0;
        iso->message[0] = iso->note[0] = 0;
        pid_t p = fork();
        if (p == 0)
        {
            enter_worker(99);
            std::string log = g_scratch + ".log";
            result r;
            what(r);
            copy_text(iso->message, sizeof iso->message, r.message);
            copy_text(iso->note, sizeof iso->note, r.note);
            iso->state = 10 + static_cast<uint32_t>(r.st);
            _exit(0);
        }
        int st = 0;
        int64_t t0 = now_ms();
        bool was_hung = false;
        while (waitpid(p, &st, WNOHANG) == 0)
        {
            if (now_ms() - t0 > iso_limit_ms || (now_ms() - t0 > 300 && uses_too_much_memory(p)))
            {
                was_hung = true;
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                break;
            }
            usleep(300);
        }
        result r;
        std::string dir = root + "/w99-" + std::to_string(p);
        std::string log = read_file(dir + ".log");
        remove_tree(dir);
        unlink((dir + ".log").c_str());
        if (iso->state >= 10)
            r.st = static_cast<status>(iso->state - 10);
        else
            r.st = was_hung ? status::hung : status::crashed;
        r.message = iso->message;
        r.note = iso->note;
        if (iso->state < 10)
            r.message = (was_hung ? std::string{"the case did not terminate or used more than 2 GB of memory"} : describe_exit(st)) + "\n"
                      + log.substr(0, 3000);
        r.choices.assign(iso->choices, iso->choices + iso->n_choices.load());
        return r;
    }

    static std::string read_file(std::string const & p)
    {
        std::ifstream f{p};
        std::stringstream s;
        s << f.rdbuf();
        return s.str();
    }

    result isolated(std::vector<uint64_t> const & choices, int directed = -1)
    {
        return forked(
            [&](result & r)
            {
                source src{*iso, choices};
                r.st = execute(src, directed, r.message);
                r.note = src.note;
            });
    }

    result isolated_case(uint64_t index)
    {
        return forked(
            [&](result & r)
            {
                source src{*iso, case_seed(index)};
                r.st = execute(src, -1, r.message);
                r.note = src.note;
            });
    }

    bool confirm_case(uint64_t index)
    {
        for (int k = 0; k < 3; ++k)
        {
            last_confirmed = isolated_case(index);
            if (!is_bad(last_confirmed.st))
                return false;
        }
        return true;
    }

    bool confirm_choices(std::vector<uint64_t> const & choices)
    {
        for (int k = 0; k < 3; ++k)
        {
            last_confirmed = isolated(choices);
            if (!is_bad(last_confirmed.st))
                return false;
        }
        return true;
    }

    bool confirm(std::vector<uint64_t> const & choices, int directed = -1)
    {
        for (int k = 0; k < 3; ++k)
            if (!is_bad(isolated(choices, directed).st))
                return false;
        return true;
    }

    result run_history(uint64_t from, uint64_t step, uint64_t index)
    {
        iso_limit_ms = 300000;
        result r = forked(
            [&](result & r)
            {
                for (uint64_t i = from; i <= index; i += step)
                {
                    source src{*iso, case_seed(i)};
                    r.st = execute(src, -1, r.message);
                    r.note = src.note;
                    if (i < index && is_bad(r.st))
                        break;
                }
            });
        iso_limit_ms = 30000;
        return r;
    }

    // Returns the first case of a history (every step-th case up to index) that fails reproducibly.
    uint64_t confirm_history(uint64_t from, uint64_t step, uint64_t index, result & r)
    {
        if (from == index)
            return UINT64_MAX;
        uint64_t best = UINT64_MAX;
        for (uint64_t k = 1; !violation; k *= 4)
        {
            uint64_t start = (index - from) / step <= k ? from : index - k * step;
            result h = run_history(start, step, index);
            if (is_bad(h.st) && is_bad(run_history(start, step, index).st)
                && is_bad(run_history(start, step, index).st))
            {
                best = start;
                r = h;
                break;
            }
            if (start == from || k > 3000)
                break;
        }
        return best;
    }

    void shrink(result & best)
    {
        int64_t const t_end = now_ms() + 40000;
        unsigned tries = 0;
        auto attempt = [&](std::vector<uint64_t> const & c)
        {
            if (now_ms() > t_end || ++tries > 4000)
                return false;
            result r = isolated(c);
            if (is_bad(r.st)
                && (r.choices.size() < best.choices.size()
                    || (r.choices.size() == best.choices.size() && r.choices < best.choices)))
            {
                best = r;
                return true;
            }
            return false;
        };
        bool progress = true;
        while (progress && now_ms() < t_end && tries < 4000)
        {
            progress = false;
            for (size_t len : {64u, 32u, 16u, 8u, 4u, 3u, 2u, 1u})
                for (size_t i = 0; i + len <= best.choices.size();)
                {
                    auto c = best.choices;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (attempt(c))
                        progress = true;
                    else
                        i += len > 4 ? len / 2 : 1;
                    if (now_ms() > t_end)
                        return;
                }
            for (size_t i = 0; i < best.choices.size(); ++i)
            {
                uint64_t v = best.choices[i];
                if (v == 0)
                    continue;
                for (uint64_t cand : {uint64_t{0}, v / 2, v - 1})
                {
                    if (i >= best.choices.size() || cand >= best.choices[i])
                        continue;
                    auto c = best.choices;
                    c[i] = cand;
                    if (attempt(c))
                    {
                        progress = true;
                        if (cand != 0)
                            --i;
                        break;
                    }
                }
                if (now_ms() > t_end)
                    return;
            }
        }
    }

    void write_replay(result const & r, int directed, int64_t index, uint64_t from, uint64_t step)
    {
        ::mkdir(replay_dir.c_str(), 0777);
        replay_path = replay_dir + "/" + prop.id + "-" + variant + ".replay";
        std::ofstream f{replay_path};
        f << "property " << prop.id << "\nvariant " << variant << "\nseed " << seed << "\n";
        if (directed >= 0)
            f << "directed " << directed << " " << prop.directed[directed].first << "\n";
        else if (step)
            f << "history " << from << " " << step << " " << index << "\n";
        else
        {
            f << "choices " << r.choices.size();
            for (auto c : r.choices)
                f << ' ' << c;
            f << "\n";
        }
        f << "message " << escaped(r.message) << "\ncase " << escaped(r.note) << "\n";
        violation_message = "message: " + r.message.substr(0, 4000) + "\ncase: " + r.note.substr(0, 4000);
    }

    int run_replay(std::string const & file)
    {
        std::ifstream f{file};
        std::string key;
        result r{status::passed, "nothing to replay", "", {}};
        std::string line;
        while (std::getline(f, line))
        {
            std::istringstream is{line};
            is >> key;
            if (key == "seed")
                is >> seed;
            else if (key == "directed")
            {
                int d;
                is >> d;
                r = isolated({}, d);
            }
            else if (key == "history")
            {
                uint64_t a, b, c;
                is >> a >> b >> c;
                r = run_history(a, b, c);
            }
            else if (key == "choices")
            {
                size_t n;
                is >> n;
                std::vector<uint64_t> c(n);
                for (auto & x : c)
                    is >> x;
                r = isolated(c);
            }
        }
        std::cout << "case: " << r.note << "\nmessage: " << r.message << "\n";
        if (is_bad(r.st))
        {
            std::cout << "REPRODUCED" << std::endl;
            return 1;
        }
        std::cout << "not reproduced" << std::endl;
        return 0;
    }

    void write_report(std::string const & out, std::string const & tier, uint64_t planned)
    {
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string> samples;
        uint64_t evals = 0, discarded = 0, kept = 0, features = 0;
        for (shared_slot * s = slots; s != iso; ++s)
            kept += s->corpus, features = std::max(features, s->features), evals += s->evaluations, discarded += s->discarded;
        // Collect the files of the workers.
        std::string cmd_dir = root;
        for (auto const & name : list_dir(root))
        {
            if (name.rfind("result-", 0) != 0)
                continue;
            std::ifstream f{root + "/" + name};
            size_t k = 0;
            f >> k;
            for (size_t i = 0; i < k; ++i)
            {
                uint64_t h;
                f >> h;
                distinct.insert(h);
            }
            f >> k;
            for (size_t i = 0; i < k; ++i)
            {
                uint64_t c;
                std::string l;
                f >> c;
                std::getline(f, l);
                labels[l.substr(1)] += c;
            }
            f >> k;
            std::string l;
            std::getline(f, l);
            for (size_t i = 0; i < k; ++i)
            {
                std::getline(f, l);
                if (samples.size() < 8)
                    samples.push_back(l);
            }
        }
        for (auto & [l, c] : labels)
            if (l.rfind("known:", 0) == 0)
                known[l.substr(6, l.find("\\u0009") - 6)] = l.substr(l.find("\\u0009") + 6);
        if (out.empty())
            return;
        std::ofstream f{out};
        f << "{\n \"variant\": \"" << variant << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed
          << ",\n \"planned\": " << planned << ", \"evaluations\": " << evals << ", \"discarded\": " << discarded
          << ", \"directed\": " << directed_run << ", \"distinct_nontrivial\": " << distinct.size()
          << ", \"unreproducible\": " << unreproducible << ", \"unreproducible_note\": "
          << quoted(unreproducible_note.substr(0, 600)) << ", \"corpus\": " << kept << ", \"features\": " << features << ",\n \"rule\": " << quoted(prop.rule) << ",\n \"labels\": {";
        bool firstl = true;
        for (auto & [l, c] : labels)
        {
            f << (firstl ? "" : ", ") << '"' << l << "\": " << c;
            firstl = false;
        }
        f << "},\n \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i)
            f << (i ? ",\n  " : "\n  ") << quoted_raw(samples[i]);
        f << "],\n \"violations\": " << (violation ? 1 : 0) << "\n}\n";
        // Hashes, so that the driver can merge the variants.
        std::ofstream h{out + ".hashes"};
        for (auto x : distinct)
            h << x << '\n';
    }

    static std::string quoted_raw(std::string const & s) // s is escaped already
    {
        return '"' + s + '"';
    }

    static std::vector<std::string> list_dir(std::string const & d);
    static void remove_tree(std::string const & d);

    property prop;
    std::string variant, root, replay_dir{"replays"}, replay_path, violation_message, unreproducible_note;
    uint64_t seed{1};
    pid_t own_pid{};
    shared_slot * slots{};
    shared_slot * iso{};
    result last_confirmed;
    std::vector<std::vector<uint64_t>> corpus;
    bool violation{false}, verbose{false}, guided{false};
    std::set<pid_t> hung;
    std::map<std::string, std::string> known;
    uint64_t unreproducible{0}, directed_run{0};
    int64_t t_start{0}, max_s{150}, hang_ms{40000}, iso_limit_ms{30000};
};

} // namespace pbt

#include <dirent.h>

namespace pbt
{
inline std::vector<std::string> engine::list_dir(std::string const & d)
{
    std::vector<std::string> r;
    if (DIR * dir = opendir(d.c_str()))
    {
        while (dirent * e = readdir(dir))
            if (std::string n = e->d_name; n != "." && n != "..")
                r.push_back(n);
        closedir(dir);
    }
    std::sort(r.begin(), r.end());
    return r;
}

// Removes a scratch directory of this process. Never follows symbolic links.
inline void engine::remove_tree(std::string const & d)
{
    struct stat st;
    if (d.find("/sharg-verif-") == std::string::npos || lstat(d.c_str(), &st) != 0)
        return;
    if (S_ISDIR(st.st_mode))
    {
        chmod(d.c_str(), 0700);
        for (auto const & n : list_dir(d))
            remove_tree(d + "/" + n);
        rmdir(d.c_str());
    }
    else
        unlink(d.c_str());
}
} // namespace pbt

#if defined(PBT_GUIDED)
extern "C"
{
void __sanitizer_cov_trace_pc_guard_init(uint32_t * start, uint32_t * stop)
{
    if (start != stop && *start == 0)
        for (; start != stop; ++start)
            *start = ++pbt::g_coverage.guards % pbt::coverage::n_edges;
}
void __sanitizer_cov_trace_pc_guard(uint32_t * guard)
{
    uint8_t & h = pbt::g_coverage.hits[*guard];
    if (pbt::g_coverage.active && h < 255)
        ++h;
}
#define PBT_HERE reinterpret_cast<uintptr_t>(__builtin_return_address(0)) - reinterpret_cast<uintptr_t>(&pbt::g_coverage)
#define PBT_COMPARE(name, type)                                                                                        \
    void name(type a, type b)                                                                                          \
    {                                                                                                                  \
        pbt::g_coverage.compare(PBT_HERE, a, b);                                                                       \
    }
PBT_COMPARE(__sanitizer_cov_trace_cmp1, uint8_t)
PBT_COMPARE(__sanitizer_cov_trace_cmp2, uint16_t)
PBT_COMPARE(__sanitizer_cov_trace_cmp4, uint32_t)
PBT_COMPARE(__sanitizer_cov_trace_cmp8, uint64_t)
PBT_COMPARE(__sanitizer_cov_trace_const_cmp1, uint8_t)
PBT_COMPARE(__sanitizer_cov_trace_const_cmp2, uint16_t)
PBT_COMPARE(__sanitizer_cov_trace_const_cmp4, uint32_t)
PBT_COMPARE(__sanitizer_cov_trace_const_cmp8, uint64_t)
#undef PBT_COMPARE
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t * cases)
{
    for (uint64_t i = 0; i < cases[0]; ++i)
        pbt::g_coverage.compare(PBT_HERE + i, v, cases[i + 2]);
}
}
#endif
