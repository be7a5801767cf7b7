// A small property-based testing engine (in the style of Hypothesis' internals).
//
// A facet is a function of a Ctx; all of its decisions are drawn from one recorded sequence of bounded
// choices, so that every case replays and shrinks. Cases run in forked workers so that crashes,
// sanitizer reports, deadlocks and hangs of the code under test are failures like any other.
#ifndef PBT_HPP
#define PBT_HPP

// a harness is compiled in several parts at once, each with some of its facets
#ifndef PBT_PARTS
#define PBT_PARTS 1
#define PBT_PART 0
#endif

#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <tuple>
#include <type_traits>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace pbt
{

struct Failure
{
    std::string what;
};

struct Discard
{ };

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

constexpr std::size_t max_choices = 1u << 18;
constexpr std::size_t max_labels = 96;
constexpr std::size_t max_hashes = 1u << 21;
constexpr std::size_t max_facets = 48;

struct Shm // one per worker
{
    volatile uint64_t facet, index, nchoices, evaluations, nontrivial, discarded, nhashes;
    volatile uint64_t first_facet, first_index; // where its process began
    volatile uint64_t seq; // grows with every case
    volatile int failed;   // a Failure was recorded in message
    volatile int overrun;
    volatile uint64_t max_case_us;
    char message[4096];
    struct
    {
        char name[56];
        volatile uint64_t count;
    } labels[max_labels];
    volatile uint64_t per_facet[max_facets][2]; // evaluations, non-trivial
    volatile uint64_t sample_index[max_facets]; // index+1 of a non-trivial case
    uint64_t choices[max_choices];
    uint64_t hashes[max_hashes];
};

class Ctx
{
    uint64_t rng_[4];
    const std::vector<uint64_t>* list_ = nullptr;
    const uint8_t* bytes_ = nullptr;
    std::size_t nbytes_ = 0;
    std::size_t pos_ = 0;
    Shm* shm_;
    bool nontrivial_ = false;
    std::string key_;

    uint64_t next()
    {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        const uint64_t result = rotl(rng_[1] * 5, 7) * 9;
        const uint64_t t = rng_[1] << 17;
        rng_[2] ^= rng_[0];
        rng_[3] ^= rng_[1];
        rng_[1] ^= rng_[2];
        rng_[0] ^= rng_[3];
        rng_[2] ^= t;
        rng_[3] = rotl(rng_[3], 45);
        return result;
    }

    uint64_t from_bytes(uint64_t bound)
    {
        int n = bound == 0 ? 8 : bound <= 256 ? 1 : bound <= 65536 ? 2 : bound <= (1ull << 32) ? 4 : 8;
        uint64_t v = 0;
        for (int i = 0; i < n && pos_ < nbytes_; i++)
            v |= static_cast<uint64_t>(bytes_[pos_++]) << (8 * i);
        return bound ? v % bound : v;
    }

public:
    FILE* trace_file = nullptr;
    std::string facet_name;

    Ctx(Shm* shm, uint64_t seed) : shm_(shm)
    {
        for (auto& r : rng_)
            r = seed = mix(seed);
        shm_->nchoices = 0;
    }
    Ctx(Shm* shm, const std::vector<uint64_t>& list) : Ctx(shm, 1) { list_ = &list; }
    Ctx(Shm* shm, const uint8_t* bytes, std::size_t n) : Ctx(shm, 1)
    {
        bytes_ = bytes;
        nbytes_ = n;
    }
    Ctx(const Ctx&) = delete;

    // the primitive choice: a number in [0, bound), or any 64 bit number for 0. Simplest is 0.
    uint64_t draw(uint64_t bound)
    {
        uint64_t v;
        if (list_)
        {
            v = pos_ < list_->size() ? (*list_)[pos_] : 0;
            ++pos_;
            if (bound)
                v %= bound;
        }
        else if (bytes_)
            v = from_bytes(bound);
        else
        {
            v = next();
            if (bound)
                v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * bound) >> 64);
        }
        auto n = shm_->nchoices;
        if (n >= max_choices)
        {
            shm_->overrun = 1;
            throw Discard{};
        }
        shm_->choices[n] = v;
        shm_->nchoices = n + 1;
        return v;
    }

    uint64_t below(uint64_t n) { return n <= 1 ? 0 : draw(n); }
    int64_t range(int64_t lo, int64_t hi)
    {
        return static_cast<int64_t>(static_cast<uint64_t>(lo) + draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1));
    }
    bool chance(unsigned num, unsigned den) { return den - draw(den) <= num; } // simplest: false
    bool coin() { return draw(2) == 1; }

    // sizes: usually small, sometimes up to max
    std::size_t size(std::size_t max)
    {
        switch (draw(4))
        {
            case 0: return below(std::min<std::size_t>(max, 4) + 1);
            case 1: return below(std::min<std::size_t>(max, 12) + 1);
            case 2: return below(std::min<std::size_t>(max, 40) + 1);
            default: return below(max + 1);
        }
    }

    // integers of a type, biased to the interesting ones
    template<typename T>
    T integer()
    {
        switch (draw(8))
        {
            case 0: case 1: return static_cast<T>(draw(16));
            case 2: return static_cast<T>(0 - draw(16));
            case 3: return static_cast<T>(draw(256) - 128);
            case 4: return static_cast<T>(std::numeric_limits<T>::max() - static_cast<T>(draw(4)));
            case 5: return static_cast<T>(std::numeric_limits<T>::min() + static_cast<T>(draw(4)));
            case 6: { // powers of two and their neighbours
                uint64_t p = 1ull << draw(64);
                return static_cast<T>(p + draw(3) - 1);
            }
            default: return static_cast<T>(draw(0));
        }
    }

    // finite floating point numbers; magnitude at most 2^maxexp
    template<typename T>
    T real(int maxexp = 60)
    {
        switch (draw(6))
        {
            case 0: return static_cast<T>(range(0, 20));
            case 1: return static_cast<T>(-range(0, 20));
            case 2: return static_cast<T>(range(-1000, 1000)) / 8;
            case 3: return static_cast<T>(range(-1000000, 1000000)) / 1000;
            case 4: return std::ldexp(static_cast<T>(range(-(1 << 20), 1 << 20)), static_cast<int>(range(0, maxexp)) - 20);
            default: return static_cast<T>(static_cast<int64_t>(draw(0)) >> 11) * std::ldexp(static_cast<T>(1), static_cast<int>(range(0, maxexp)) - 52 > maxexp - 53 ? maxexp - 53 : static_cast<int>(range(0, maxexp)) - 53);
        }
    }

    template<typename C>
    auto& pick(C& c) { return c[below(c.size())]; }

    bool tracing() const { return trace_file != nullptr; }

    void trace(const std::string& line)
    {
        if (!trace_file)
            return;
        fwrite(line.data(), 1, line.size(), trace_file);
        fputc('\n', trace_file);
        fflush(trace_file);
    }

    void label(const char* name)
    {
        for (auto& l : shm_->labels)
        {
            if (!l.name[0])
                strncpy(l.name, name, sizeof(l.name) - 1);
            if (!strncmp(l.name, name, sizeof(l.name) - 1))
            {
                l.count = l.count + 1;
                return;
            }
        }
    }
    void label(bool cond, const char* name) { if (cond) label(name); }

    void nontrivial(bool cond = true) { nontrivial_ = nontrivial_ || cond; }
    bool is_nontrivial() const { return nontrivial_; }

    [[noreturn]] void fail(const std::string& what)
    {
        trace("FAILED: " + what);
        throw Failure{what};
    }
    [[noreturn]] void discard() { throw Discard{}; }
};

// ---------------------------------------------------------------- text helpers
inline std::string quote(const std::string& s)
{
    std::string r = "\"";
    char buf[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7f) { snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}

inline std::string json(const std::string& s)
{
    std::string r = "\"";
    char buf[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if (c < 0x20 || c >= 0x7f) { snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
        else r += static_cast<char>(c);
    }
    return r + "\"";
}

namespace detail
{
inline void put(std::ostream& o, const std::string& s) { o << s; }
inline void put(std::ostream& o, const char* s) { o << s; }
inline void put(std::ostream& o, bool b) { o << (b ? "true" : "false"); }
inline void put(std::ostream& o, signed char c) { o << static_cast<int>(c); }
inline void put(std::ostream& o, unsigned char c) { o << static_cast<int>(c); }
inline void put(std::ostream& o, __int128 v)
{
    if (v < 0) { o << '-'; put(o, -v); return; }
    if (v > 9) put(o, v / 10);
    o << static_cast<char>('0' + static_cast<int>(v % 10));
}
template<typename R, typename P>
void put(std::ostream& o, std::chrono::duration<R, P> d) { o << d.count() << "t"; }
template<typename T>
typename std::enable_if<std::is_floating_point<T>::value>::type put(std::ostream& o, T v)
{
    auto p = o.precision(std::numeric_limits<T>::max_digits10);
    o << v;
    o.precision(p);
}
template<typename T>
typename std::enable_if<!std::is_floating_point<T>::value>::type put(std::ostream& o, const T& v) { o << v; }
template<typename T>
void put(std::ostream& o, const std::vector<T>& v)
{
    o << '[';
    const char* sep = "";
    for (const auto& e : v) { o << sep; put(o, e); sep = ", "; }
    o << ']';
}
inline void put_all(std::ostream&) { }
template<typename A, typename... R>
void put_all(std::ostream& o, const A& a, const R&... r)
{
    put(o, a);
    put_all(o, r...);
}
}

template<typename... A>
std::string cat(const A&... a)
{
    std::ostringstream o;
    detail::put_all(o, a...);
    return o.str();
}

#define TRACE(ctx, ...) do { if ((ctx).tracing()) (ctx).trace(pbt::cat(__VA_ARGS__)); } while (0)
#define CHECK_THAT(ctx, cond, ...) do { if (!(cond)) (ctx).fail(pbt::cat(__VA_ARGS__)); } while (0)
#define CHECK_EQ(ctx, got, want, ...) \
    do { auto pbt_g = (got); auto pbt_w = (want); if (!(pbt_g == pbt_w)) (ctx).fail(pbt::cat(__VA_ARGS__, ": got ", pbt_g, ", expected ", pbt_w)); } while (0)

// ---------------------------------------------------------------- facets
struct Facet
{
    const char* name;
    uint64_t quick, thorough; // how many cases
    void (*fn)(Ctx&);
};

// A known finding: one specific history. The function runs it and fails while the defect is there.
struct Known
{
    const char* key;
    const char* what;
    void (*fn)(Ctx&);
};

inline std::vector<Facet>& facets() { static std::vector<Facet> f; return f; }
inline std::vector<Known>& knowns() { static std::vector<Known> f; return f; }
inline std::vector<std::function<void()>>& before_case() { static std::vector<std::function<void()>> f; return f; }
inline std::vector<std::function<void()>>& after_case() { static std::vector<std::function<void()>> f; return f; }

struct Register
{
    Register(const char* name, uint64_t quick, uint64_t thorough, void (*fn)(Ctx&)) { facets().push_back({name, quick, thorough, fn}); }
    Register(const char* key, const char* what, void (*fn)(Ctx&)) { knowns().push_back({key, what, fn}); }
};

inline const char*& property_id() { static const char* p; return p; }
inline const char*& property_rule() { static const char* p; return p; }

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define FACET(name, quick, thorough) \
    static void PBT_CAT(facet_, name)(pbt::Ctx&); \
    FACET_AS(name, quick, thorough, PBT_CAT(facet_, name)); \
    static void PBT_CAT(facet_, name)(pbt::Ctx& ctx)
#define FACET_AS(name, quick, thorough, ...) \
    template<int Counter, bool Mine = Counter % PBT_PARTS == PBT_PART> \
    struct PBT_CAT(Registering_, name) { static int go() { pbt::Register(#name, quick, thorough, __VA_ARGS__); return 0; } }; \
    template<int Counter> \
    struct PBT_CAT(Registering_, name)<Counter, false> { static int go() { return 0; } }; \
    static int PBT_CAT(reg_, name) = PBT_CAT(Registering_, name)<__COUNTER__>::go()
#define KNOWN(key, what) \
    static void PBT_CAT(known_, key)(pbt::Ctx&); \
    static int PBT_CAT(regk_, key) = (PBT_PART == 0 ? pbt::Register(#key, what, PBT_CAT(known_, key)), 0 : 0); \
    static void PBT_CAT(known_, key)(pbt::Ctx& ctx)
#define PROPERTY(id, rule) \
    static int pbt_property_ = (pbt::property_id() = id, pbt::property_rule() = rule, 0);

// ---------------------------------------------------------------- running cases
enum Outcome { passed, discarded, failed };

inline Outcome run_case(void (*fn)(Ctx&), Ctx& ctx, Shm* shm)
{
    for (auto& b : before_case())
        b();
    struct After
    {
        ~After()
        {
            for (auto& a : after_case())
                a();
        }
    } after;
    try
    {
        fn(ctx);
        return passed;
    }
    catch (const Discard&)
    {
        return discarded;
    }
    catch (const Failure& f)
    {
        snprintf(shm->message, sizeof(shm->message), "%s", f.what.c_str());
    }
    catch (const std::exception& e)
    {
        snprintf(shm->message, sizeof(shm->message), "unexpected exception: %s", e.what());
    }
    catch (...)
    {
        snprintf(shm->message, sizeof(shm->message), "unexpected exception of unknown type");
    }
    shm->failed = 1;
    return failed;
}

#if PBT_PART != 0
#elif defined(PBT_LIBFUZZER)

inline Shm* fuzz_shm()
{
    static Shm* s = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    return s;
}

inline int fuzz_one(const uint8_t* data, std::size_t size)
{
    if (size < 2)
        return 0;
    auto& f = facets()[data[0] % facets().size()];
    auto shm = fuzz_shm();
    shm->failed = 0;
    Ctx ctx(shm, data + 1, size - 1);
    ctx.facet_name = f.name;
    if (run_case(f.fn, ctx, shm) == failed)
    {
        fprintf(stderr, "FACET %s FAILED: %s\n", f.name, shm->message);
        abort();
    }
    return 0;
}

#else

template<typename Fn>
void write_file(const std::string& path, const Fn& fn)
{
    std::ofstream o(path);
    fn(o);
}

struct Result
{
    bool fails = false;
    std::string message;
    std::vector<uint64_t> choices; // canonical: what was really drawn
};

class Runner
{
    uint64_t seed_;
    bool thorough_;
    std::string replaydir_, scratch_;
    double scale_ = 1;
    Shm* single_;
    int nworkers_ = 8;

    static double wall()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }

    static double cpu()
    {
        timespec t;
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }

    static void arm(int seconds)
    {
        itimerval t{};
        t.it_value.tv_sec = seconds;
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
    }

    // cpu ticks used by one of our own children, and whether it is sleeping
    static bool proc_stat(pid_t pid, uint64_t& ticks, char& state)
    {
        char path[64], buf[1024];
        snprintf(path, sizeof path, "/proc/%d/stat", pid);
        int fd = open(path, O_RDONLY);
        if (fd < 0)
            return false;
        auto n = read(fd, buf, sizeof(buf) - 1);
        close(fd);
        if (n <= 0)
            return false;
        buf[n] = 0;
        auto p = strrchr(buf, ')');
        if (!p)
            return false;
        unsigned long ut = 0, st = 0;
        if (sscanf(p + 2, "%c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &state, &ut, &st) != 3)
            return false;
        ticks = ut + st;
        return true;
    }

    static uint64_t case_seed(uint64_t seed, const char* facet, uint64_t index)
    {
        uint64_t h = mix(seed);
        for (const char* p = facet; *p; ++p)
            h = mix(h ^ static_cast<unsigned char>(*p));
        return mix(h ^ (index * 0x9e3779b97f4a7c15ull));
    }

    static std::string describe_exit(int status, const std::string& err)
    {
        std::string what;
        if (WIFSIGNALED(status))
        {
            int s = WTERMSIG(status);
            what = s == SIGVTALRM ? "the case does not terminate (CPU limit reached)" : cat("crashed with signal ", s, " (", strsignal(s), ")");
        }
        else
            what = cat("exited with status ", WEXITSTATUS(status));
        // the first line of a sanitizer report is the most telling one
        std::istringstream in(err);
        std::string line;
        while (std::getline(in, line))
            if (line.find("ERROR:") != std::string::npos || line.find("runtime error") != std::string::npos || line.find("terminate called") != std::string::npos || line.find("Assertion") != std::string::npos)
            {
                what += ": " + line;
                break;
            }
        return what;
    }

    static std::string slurp(const std::string& path, std::size_t limit = 20000)
    {
        std::string r;
        if (FILE* f = fopen(path.c_str(), "r"))
        {
            char buf[4096];
            std::size_t n;
            while (r.size() < limit && (n = fread(buf, 1, sizeof buf, f)) > 0)
                r.append(buf, n);
            fclose(f);
        }
        return r;
    }

    // waits for a child, ending it if it blocks without using any CPU
    static int wait_child(pid_t pid, double blocked_limit, bool& blocked)
    {
        int status = 0;
        blocked = false;
        uint64_t last = ~0ull;
        double since = wall();
        useconds_t nap = 200;
        for (;;)
        {
            auto r = waitpid(pid, &status, WNOHANG);
            if (r == pid)
                return status;
            usleep(nap);
            if (nap < 20000)
                nap = nap * 3 / 2;
            uint64_t ticks = 0;
            char state = 'R';
            if (!proc_stat(pid, ticks, state) || ticks != last || state != 'S')
            {
                last = ticks;
                since = wall();
            }
            else if (wall() - since > blocked_limit)
            {
                blocked = true;
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                return status;
            }
        }
    }

    void child_setup(const std::string& errfile)
    {
        int fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0)
        {
            dup2(fd, 2);
            close(fd);
        }
        int nul = open("/dev/null", O_WRONLY);
        if (nul >= 0)
        {
            dup2(nul, 1);
            close(nul);
        }
        rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
    }

public:
    int case_cpu_limit = 20;
    double blocked_limit = 20;

    Runner(uint64_t seed, bool thorough, std::string replaydir) :
            seed_(seed), thorough_(thorough), replaydir_(std::move(replaydir))
    {
        single_ = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        char tmpl[] = "/tmp/pbtXXXXXX";
        scratch_ = mkdtemp(tmpl);
        if (auto s = getenv("PBT_SCALE"))
            scale_ = atof(s);
        if (auto s = getenv("PBT_WORKERS"))
            nworkers_ = atoi(s);
    }

    ~Runner()
    {
        for (int i = -1; i < 64; i++)
            unlink(cat(scratch_, "/err", i).c_str());
        unlink((scratch_ + "/trace").c_str());
        rmdir(scratch_.c_str());
    }

    // run one case in a child
    Result run_one(void (*fn)(Ctx&), const char* name, const std::vector<uint64_t>* list, const uint8_t* bytes, std::size_t nbytes, std::string* trace, int cpu_limit, double blocked)
    {
        Result r;
        single_->failed = 0;
        single_->nchoices = 0;
        auto err = scratch_ + "/err-1", tr = scratch_ + "/trace";
        pid_t pid = fork();
        if (pid == 0)
        {
            child_setup(err);
            arm(cpu_limit);
            auto run = [&](Ctx& ctx) {
                ctx.facet_name = name;
                if (trace)
                    ctx.trace_file = fopen(tr.c_str(), "w");
                auto o = run_case(fn, ctx, single_);
                if (ctx.trace_file)
                    fclose(ctx.trace_file);
                _exit(o == failed ? 10 : 0);
            };
            if (list)
            {
                Ctx ctx(single_, *list);
                run(ctx);
            }
            else
            {
                Ctx ctx(single_, bytes, nbytes);
                run(ctx);
            }
        }
        bool isblocked;
        int status = wait_child(pid, blocked, isblocked);
        r.choices.assign(single_->choices, single_->choices + single_->nchoices);
        if (isblocked)
        {
            r.fails = true;
            r.message = "the case is blocked forever (deadlock)";
        }
        else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL)
        {
            // ended from outside (memory shortage): tells nothing
            r.fails = false;
        }
        else if (!WIFEXITED(status) || WEXITSTATUS(status) != 0)
        {
            r.fails = true;
            r.message = single_->failed ? std::string(single_->message) : describe_exit(status, slurp(err));
        }
        if (trace)
        {
            *trace = slurp(tr);
            unlink(tr.c_str());
            if (r.fails && !single_->failed)
                *trace += r.message + "\n" + slurp(err, 6000);
        }
        return r;
    }

    Result run_list(void (*fn)(Ctx&), const char* name, const std::vector<uint64_t>& list, std::string* trace = nullptr, bool fast = false)
    {
        return run_one(fn, name, &list, nullptr, 0, trace, fast ? 6 : case_cpu_limit, fast ? 4 : 8);
    }

    // some cases of a run, one after another in one process, as what one leaves behind may be what another stumbles over
    using Sequence = std::vector<std::pair<std::size_t, uint64_t>>; // facet and number
    Result run_sequence(const Sequence& cases, std::string* trace = nullptr)
    {
        Result r;
        single_->failed = 0;
        single_->nchoices = 0;
        auto err = scratch_ + "/err-1", tr = scratch_ + "/trace";
        pid_t pid = fork();
        if (pid == 0)
        {
            child_setup(err);
            for (auto& c : cases)
            {
                auto& facet = facets()[c.first];
                arm(case_cpu_limit);
                Ctx ctx(single_, case_seed(seed_, facet.name, c.second));
                ctx.facet_name = facet.name;
                if (trace)
                    ctx.trace_file = fopen(tr.c_str(), "w");
                auto o = run_case(facet.fn, ctx, single_);
                if (ctx.trace_file)
                    fclose(ctx.trace_file);
                if (o == failed)
                    _exit(10);
            }
            _exit(0);
        }
        bool isblocked;
        int status = wait_child(pid, blocked_limit, isblocked);
        if (!isblocked && (!WIFEXITED(status) || WEXITSTATUS(status) != 0) && !(WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL))
        {
            r.fails = true;
            r.message = single_->failed ? std::string(single_->message) : describe_exit(status, slurp(err));
        }
        if (trace)
        {
            *trace = slurp(tr);
            unlink(tr.c_str());
            if (r.fails && !single_->failed)
                *trace += r.message + "\n" + slurp(err, 6000);
        }
        return r;
    }

    // reproduces, shortens and reports what failed after the given cases. false: not reproducible
    bool report_sequence(const Sequence& all)
    {
        double deadline = wall() + 60;
        Sequence best;
        for (std::size_t n = 2; best.empty(); n *= 2)
        {
            Sequence some(all.end() - std::min(n, all.size()), all.end());
            if (run_sequence(some).fails && run_sequence(some).fails)
                best = some;
            else if (n >= all.size())
                return false;
        }
        for (std::size_t len = best.size() / 2; len > 0; len /= 2)
            for (std::size_t i = 0; i + len < best.size() && wall() < deadline;)
            {
                auto c = best;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (run_sequence(c).fails)
                    best = c;
                else
                    i += len;
            }
        std::string trace;
        auto r = run_sequence(best, &trace);
        if (!r.fails)
            return false;
        auto name = facets()[best.back().first].name;
        std::string cases;
        for (auto& c : best)
            cases += cat(cases.empty() ? "" : " ", facets()[c.first].name, ":", c.second);
        auto path = save(name, {}, r.message, trace, cases);
        std::cout << "failing case of facet " << name << ", after others in the same process (" << cases << "): " << r.message << "\n";
        std::istringstream in(trace);
        std::string line;
        for (int i = 0; i < 60 && std::getline(in, line); i++)
            std::cout << "  | " << line << "\n";
        std::cout << "VIOLATION property=" << property_id() << " replay=" << path << std::endl;
        return true;
    }

    std::vector<uint64_t> shrink(void (*fn)(Ctx&), const char* name, std::vector<uint64_t> best, std::string& message)
    {
        double deadline = wall() + 45;
        int budget = 6000;
        auto attempt = [&](std::vector<uint64_t> cand) {
            if (budget-- <= 0 || wall() > deadline)
                return false;
            auto r = run_list(fn, name, cand, nullptr, true);
            if (!r.fails)
                return false;
            if (r.choices.size() < best.size() || (r.choices.size() == best.size() && r.choices < best))
            {
                best = std::move(r.choices);
                message = r.message;
                return true;
            }
            return false;
        };
        bool progress = true;
        while (progress && budget > 0 && wall() < deadline)
        {
            progress = false;
            // cut the tail
            for (std::size_t keep = best.size() / 2; keep < best.size(); keep += std::max<std::size_t>(1, (best.size() - keep) / 2))
            {
                auto c = best;
                c.resize(keep);
                if (attempt(c)) { progress = true; break; }
            }
            // delete chunks
            for (std::size_t len : {512, 128, 64, 32, 16, 8, 6, 5, 4, 3, 2, 1})
                for (std::size_t i = best.size(); i-- > 0;)
                {
                    if (i + len > best.size() || wall() > deadline)
                        continue;
                    auto c = best;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (attempt(c)) progress = true;
                    else
                    {
                        // an earlier count may have to shrink with the deleted part
                        if (i > 0 && len <= 8)
                            for (std::size_t j = i, n = 0; j-- > 0 && n < 3; n++)
                                if (best[j] > 0 && best[j] < 4096)
                                {
                                    auto d = best;
                                    d.erase(d.begin() + i, d.begin() + i + len);
                                    --d[j];
                                    if (attempt(d)) { progress = true; break; }
                                }
                    }
                }
            // zero, then minimise single choices
            for (std::size_t i = 0; i < best.size(); i++)
            {
                if (!best[i] || wall() > deadline)
                    continue;
                auto c = best;
                c[i] = 0;
                if (attempt(c)) { progress = true; continue; }
                uint64_t lo = 0;
                while (i < best.size() && best[i] - lo > 1 && budget > 0)
                {
                    auto mid = lo + (best[i] - lo) / 2;
                    auto d = best;
                    d[i] = mid;
                    if (attempt(d)) progress = true;
                    else lo = mid;
                }
            }
        }
        return best;
    }

    // returns the path of the replay file
    std::string save(const char* facet, const std::vector<uint64_t>& choices, const std::string& message, const std::string& trace, const std::string& cases = "")
    {
        mkdir(replaydir_.c_str(), 0755);
        uint64_t h = 0;
        for (auto c : choices)
            h = mix(h ^ c);
        for (auto c : cases)
            h = mix(h ^ static_cast<unsigned char>(c));
        char name[64];
        snprintf(name, sizeof name, "/%s-%s-%08x.json", property_id(), facet, static_cast<unsigned>(h));
        auto path = replaydir_ + name;
        write_file(path, [&](std::ostream& o) {
            o << "{\n \"property\": " << json(property_id()) << ",\n \"facet\": " << json(facet) << ",\n \"seed\": " << seed_ << ",\n \"message\": " << json(message);
            if (!cases.empty())
                o << ",\n \"cases\": " << json(cases);
            o << ",\n \"choices\": [";
            for (std::size_t i = 0; i < choices.size(); i++)
                o << (i ? "," : "") << choices[i];
            o << "],\n \"trace\": [";
            std::istringstream in(trace);
            std::string line;
            bool first = true;
            while (std::getline(in, line))
            {
                o << (first ? "\n  " : ",\n  ") << json(line);
                first = false;
            }
            o << "\n ]\n}\n";
        });
        return path;
    }

    // reproduces, shrinks and reports a failing case. false: not reproducible
    bool report(void (*fn)(Ctx&), const char* name, const std::vector<uint64_t>& choices, std::string message)
    {
        for (int i = 0; i < 3; i++)
        {
            auto r = run_list(fn, name, choices);
            if (!r.fails)
                return false;
            message = r.message;
        }
        auto best = shrink(fn, name, choices, message);
        std::string trace;
        auto r = run_list(fn, name, best, &trace);
        for (int i = 0; i < 2 && r.fails; i++)
            r = run_list(fn, name, best, nullptr);
        if (!r.fails)
        {
            best = choices;
            run_list(fn, name, best, &trace);
        }
        auto path = save(name, best, message, trace);
        std::cout << "failing case of facet " << name << " (" << best.size() << " choices): " << message << "\n";
        std::istringstream in(trace);
        std::string line;
        for (int i = 0; i < 60 && std::getline(in, line); i++)
            std::cout << "  | " << line << "\n";
        std::cout << "VIOLATION property=" << property_id() << " replay=" << path << std::endl;
        return true;
    }

    struct Start
    {
        std::size_t facet;
        uint64_t index;
    };

    // a worker is replaced by a fresh process now and then: AddressSanitizer's fake stacks degrade as exceptions are thrown
    static constexpr int recycled = 11;
    static constexpr int cases_per_process() { return 4000; }

    void worker(Shm* shm, volatile int* stop, int w, Start from, const std::vector<uint64_t>& counts)
    {
        int cases = 0;
        shm->first_facet = from.facet;
        shm->first_index = from.index;
        for (std::size_t f = from.facet; f < facets().size(); f++)
        {
            auto& facet = facets()[f];
            for (uint64_t i = (f == from.facet ? from.index : static_cast<uint64_t>(w)); i < counts[f]; i += nworkers_)
            {
                if (*stop)
                    _exit(0);
                if (++cases > cases_per_process())
                {
                    shm->facet = f;
                    shm->index = i;
                    _exit(recycled);
                }
                shm->facet = f;
                shm->index = i;
                shm->seq = shm->seq + 1;
                shm->overrun = 0;
                arm(case_cpu_limit);
                double t0 = cpu();
                Ctx ctx(shm, case_seed(seed_, facet.name, i));
                ctx.facet_name = facet.name;
                auto o = run_case(facet.fn, ctx, shm);
                auto us = static_cast<uint64_t>((cpu() - t0) * 1e6);
                if (us > shm->max_case_us)
                    shm->max_case_us = us;
                if (o == failed)
                    _exit(10);
                if (o == discarded)
                {
                    shm->discarded = shm->discarded + 1;
                    continue;
                }
                shm->evaluations = shm->evaluations + 1;
                shm->per_facet[f][0] = shm->per_facet[f][0] + 1;
                if (ctx.is_nontrivial())
                {
                    shm->nontrivial = shm->nontrivial + 1;
                    shm->per_facet[f][1] = shm->per_facet[f][1] + 1;
                    if (!shm->sample_index[f] || (i > counts[f] / 2 && shm->sample_index[f] - 1 < counts[f] / 2))
                        shm->sample_index[f] = i + 1;
                    uint64_t h = f;
                    for (std::size_t k = 0; k < shm->nchoices; k++)
                        h = mix(h ^ shm->choices[k]);
                    if (shm->nhashes < max_hashes)
                    {
                        shm->hashes[shm->nhashes] = h;
                        shm->nhashes = shm->nhashes + 1;
                    }
                }
            }
        }
        _exit(0);
    }

    int run(const std::string& evidence, const std::set<std::string>& known, const std::string& extra_assumption)
    {
        double t0 = wall();
        bool violated = false;
        uint64_t inconclusive = 0, violations = 0;
        int sequences = 0;

        // the known findings first: each is one specific history
        std::vector<std::string> known_lines;
        for (auto& k : knowns())
        {
            auto r = run_list(k.fn, k.key, {});
            if (!r.fails)
                continue;
            if (known.count(k.key))
            {
                known_lines.push_back(cat("KNOWN-FINDING: property=", property_id(), " ", k.key, ": ", k.what));
                std::cout << known_lines.back() << std::endl;
            }
            else if (report(k.fn, k.key, {}, r.message))
            {
                violated = true;
                ++violations;
            }
        }

        std::vector<uint64_t> counts;
        for (auto& f : facets())
            counts.push_back(std::max<uint64_t>(1, static_cast<uint64_t>((thorough_ ? f.thorough : f.quick) * scale_)));

        if (auto only = getenv("PBT_FACET"))
            for (std::size_t f = 0; f < counts.size(); f++)
                if (strcmp(only, facets()[f].name))
                    counts[f] = 0;

        auto stop = static_cast<volatile int*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        std::vector<Shm*> shms(nworkers_);
        std::vector<pid_t> pids(nworkers_, -1);
        struct Watch { uint64_t ticks = 0, seq = 0; double since = 0; };
        std::vector<Watch> watch(nworkers_);
        struct Fail { std::size_t facet; uint64_t index; std::vector<uint64_t> choices; std::string message; };
        std::vector<Fail> fails;

        auto spawn = [&](int w, Start from) {
            shms[w]->failed = 0;
            pid_t pid = fork();
            if (pid == 0)
            {
                child_setup(cat(scratch_, "/err", w));
                worker(shms[w], stop, w, from, counts);
                _exit(0);
            }
            pids[w] = pid;
            watch[w] = Watch{0, 0, wall()};
        };

        for (int w = 0; w < nworkers_; w++)
        {
            shms[w] = static_cast<Shm*>(mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            spawn(w, {0, static_cast<uint64_t>(w)});
        }
        int running = nworkers_;
        while (running)
        {
            usleep(5000);
            for (int w = 0; w < nworkers_; w++)
            {
                if (pids[w] < 0)
                    continue;
                int status;
                bool blocked = false;
                if (waitpid(pids[w], &status, WNOHANG) != pids[w])
                {
                    uint64_t ticks = 0;
                    char state = 'R';
                    if (!proc_stat(pids[w], ticks, state) || ticks != watch[w].ticks || state != 'S' || shms[w]->seq != watch[w].seq)
                    {
                        watch[w].ticks = ticks;
                        watch[w].seq = shms[w]->seq;
                        watch[w].since = wall();
                        continue;
                    }
                    if (wall() - watch[w].since < blocked_limit)
                        continue;
                    blocked = true;
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &status, 0);
                }
                if (!blocked && WIFEXITED(status) && WEXITSTATUS(status) == 0)
                {
                    pids[w] = -1;
                    --running;
                    continue;
                }
                if (!blocked && WIFEXITED(status) && WEXITSTATUS(status) == recycled && !shms[w]->failed)
                {
                    spawn(w, {static_cast<std::size_t>(shms[w]->facet), shms[w]->index});
                    continue;
                }
                // a failing case
                auto shm = shms[w];
                Fail f{static_cast<std::size_t>(shm->facet), shm->index, {}, {}};
                f.choices.assign(shm->choices, shm->choices + shm->nchoices);
                f.message = blocked ? "the case is blocked forever (deadlock)" : shm->failed ? std::string(shm->message) : describe_exit(status, slurp(cat(scratch_, "/err", w)));
                // check at once that it can be reproduced; if not, go on behind it
                bool again = run_list(facets()[f.facet].fn, facets()[f.facet].name, f.choices).fails;
                if (again)
                {
                    fails.push_back(f);
                    *stop = 1;
                    pids[w] = -1;
                    --running;
                    continue;
                }
                // maybe it takes what the cases before left behind
                if (!blocked && sequences++ < 3)
                {
                    Sequence all;
                    for (std::size_t k = static_cast<std::size_t>(shm->first_facet); k <= f.facet; k++)
                        for (uint64_t i = k == static_cast<std::size_t>(shm->first_facet) ? shm->first_index : static_cast<uint64_t>(w); i < counts[k] && (k < f.facet || i <= f.index); i += nworkers_)
                            all.emplace_back(k, i);
                    if (all.size() > 1 && report_sequence(all))
                    {
                        violated = true;
                        ++violations;
                        *stop = 1;
                        pids[w] = -1;
                        --running;
                        continue;
                    }
                }
                ++inconclusive;
                std::cout << "inconclusive: case " << f.index << " of facet " << facets()[f.facet].name << " failed once but not again: " << f.message << std::endl;
                if (inconclusive > 50)
                {
                    pids[w] = -1;
                    --running;
                    continue;
                }
                spawn(w, {f.facet, f.index + nworkers_});
            }
        }

        std::sort(fails.begin(), fails.end(), [](const Fail& a, const Fail& b) { return std::tie(a.facet, a.index) < std::tie(b.facet, b.index); });
        for (auto& f : fails)
        {
            if (violated)
                break;
            if (report(facets()[f.facet].fn, facets()[f.facet].name, f.choices, f.message))
            {
                violated = true;
                ++violations;
                break; // one minimal reproduction is enough
            }
            ++inconclusive;
        }

        // evidence
        uint64_t evaluations = 0, nontrivial = 0, discards = 0, max_us = 0;
        std::map<std::string, uint64_t> labels;
        std::unordered_set<uint64_t> distinct;
        for (auto s : shms)
        {
            evaluations += s->evaluations;
            nontrivial += s->nontrivial;
            discards += s->discarded;
            max_us = std::max(max_us, uint64_t(s->max_case_us));
            for (auto& l : s->labels)
                if (l.name[0])
                    labels[l.name] += l.count;
            for (uint64_t i = 0; i < s->nhashes; i++)
                distinct.insert(s->hashes[i]);
        }
        std::ostringstream samples;
        const char* sep = "";
        int nsamples = 0;
        for (std::size_t f = 0; f < facets().size() && nsamples < 12; f++)
            for (auto s : shms)
                if (s->sample_index[f])
                {
                    auto idx = s->sample_index[f] - 1;
                    // regenerate the case with its trace
                    Shm* t = single_;
                    pid_t pid = fork();
                    if (pid == 0)
                    {
                        child_setup(scratch_ + "/err-1");
                        arm(case_cpu_limit);
                        Ctx ctx(t, case_seed(seed_, facets()[f].name, idx));
                        ctx.facet_name = facets()[f].name;
                        ctx.trace_file = fopen((scratch_ + "/trace").c_str(), "w");
                        run_case(facets()[f].fn, ctx, t);
                        fclose(ctx.trace_file);
                        _exit(0);
                    }
                    bool b;
                    wait_child(pid, 8, b);
                    auto tr = slurp(scratch_ + "/trace", 2600);
                    if (tr.size() > 2500)
                        tr = tr.substr(0, 2500) + "...";
                    samples << sep << "{\"facet\": " << json(facets()[f].name) << ", \"case\": " << idx << ", \"trace\": " << json(tr) << "}";
                    sep = ",\n   ";
                    ++nsamples;
                    break;
                }

        std::ostringstream e;
        e << "{\n \"property\": " << json(property_id()) << ",\n \"tier\": \"" << (thorough_ ? "thorough" : "quick") << "\",\n \"seed\": " << seed_
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evaluations << ",\n  \"distinct_nontrivial\": " << distinct.size()
          << ",\n  \"rule\": " << json(std::string("Cases are drawn by seeded structured generators, distinct by their whole choice sequence. ") + property_rule())
          << ",\n  \"nontrivial\": " << nontrivial << ",\n  \"discarded\": " << discards << ",\n  \"inconclusive\": " << inconclusive
          << ",\n  \"slowest_case_cpu_ms\": " << max_us / 1000.0 << ",\n  \"facets\": {";
        sep = "";
        for (std::size_t f = 0; f < facets().size(); f++)
        {
            uint64_t ev = 0, nt = 0;
            for (auto s : shms)
            {
                ev += s->per_facet[f][0];
                nt += s->per_facet[f][1];
            }
            e << sep << "\n   " << json(facets()[f].name) << ": {\"cases\": " << ev << ", \"nontrivial\": " << nt << "}";
            sep = ",";
        }
        e << "\n  },\n  \"labels\": {";
        sep = "";
        for (auto& l : labels)
        {
            e << sep << "\n   " << json(l.first) << ": " << l.second;
            sep = ",";
        }
        e << "\n  },\n  \"known_findings\": [";
        sep = "";
        for (auto& k : known_lines)
        {
            e << sep << json(k);
            sep = ", ";
        }
        e << "],\n  \"samples\": [\n   " << samples.str() << "\n  ]\n },\n \"violations\": " << violations << ",\n \"wall_s\": " << wall() - t0
          << ",\n \"assumptions\": [\"g++ and its runtime, the harness' generators and oracles\"" << (extra_assumption.empty() ? "" : ", " + json(extra_assumption)) << "]\n}\n";
        if (!evidence.empty())
            write_file(evidence, [&](std::ostream& o) { o << e.str(); });
        std::cout << property_id() << ": " << evaluations << " cases, " << distinct.size() << " distinct non-trivial, " << discards << " discarded, " << inconclusive << " inconclusive, " << violations << " violations, " << wall() - t0 << " s" << std::endl;
        return violated ? 1 : 0;
    }

    Facet find(const std::string& name)
    {
        for (auto& f : facets())
            if (name == f.name)
                return f;
        for (auto& k : knowns())
            if (name == k.key)
                return {k.key, 1, 1, k.fn};
        std::cerr << "no facet " << name << "\n";
        exit(2);
    }

    int replay(const std::string& path)
    {
        auto text = slurp(path, 1u << 26);
        auto field = [&](const char* key) {
            auto p = text.find(std::string("\"") + key + "\": \"");
            if (p == std::string::npos)
                return std::string();
            p = text.find('"', p + strlen(key) + 3) + 1;
            return text.substr(p, text.find('"', p) - p);
        };
        auto f = find(field("facet"));
        std::vector<uint64_t> choices;
        auto p = text.find("\"choices\": [");
        if (p != std::string::npos)
        {
            const char* c = text.c_str() + p + 12;
            while (*c && *c != ']')
            {
                char* end;
                choices.push_back(strtoull(c, &end, 10));
                c = end;
                if (*c == ',')
                    ++c;
            }
        }
        std::string trace;
        Result r;
        std::istringstream cases(field("cases"));
        Sequence sequence;
        std::string c;
        while (cases >> c)
        {
            auto colon = c.find(':');
            for (std::size_t k = 0; k < facets().size(); k++)
                if (c.substr(0, colon) == facets()[k].name)
                    sequence.emplace_back(k, strtoull(c.c_str() + colon + 1, nullptr, 10));
        }
        if (sequence.empty())
            r = run_list(f.fn, f.name, choices, &trace);
        else
        {
            auto s = text.find("\"seed\": ");
            if (s != std::string::npos)
                seed_ = strtoull(text.c_str() + s + 8, nullptr, 10);
            r = run_sequence(sequence, &trace);
        }
        std::cout << trace;
        if (!r.fails)
        {
            std::cout << "the case passes" << std::endl;
            return 0;
        }
        std::cout << "VIOLATION property=" << property_id() << " replay=" << path << std::endl;
        return 1;
    }

    // confirm what a coverage-guided campaign found
    int confirm_bytes(const std::string& path)
    {
        auto data = slurp(path, 1u << 24);
        if (data.size() < 2)
            return 0;
        auto& f = facets()[static_cast<unsigned char>(data[0]) % facets().size()];
        auto r = run_one(f.fn, f.name, nullptr, reinterpret_cast<const uint8_t*>(data.data()) + 1, data.size() - 1, nullptr, case_cpu_limit, 8);
        if (!r.fails || !report(f.fn, f.name, r.choices, r.message))
        {
            std::cout << "inconclusive: not reproduced from " << path << std::endl;
            return 0;
        }
        return 1;
    }
};

inline int main_(int argc, char** argv)
{
    std::string evidence, replaydir = "replays", replay, bytes, assumption;
    std::set<std::string> known;
    uint64_t seed = 1;
    bool thorough = false;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--thorough") thorough = true;
        else if (a == "--evidence") evidence = val();
        else if (a == "--replaydir") replaydir = val();
        else if (a == "--replay") replay = val();
        else if (a == "--confirm-bytes") bytes = val();
        else if (a == "--known") known.insert(val());
        else if (a == "--assume") assumption = val();
        else if (a == "--list")
        {
            for (auto& f : facets())
                std::cout << f.name << " " << f.quick << " " << f.thorough << "\n";
            return 0;
        }
    }
    signal(SIGPIPE, SIG_IGN);
    Runner r(seed, thorough, replaydir);
    if (!replay.empty())
        return r.replay(replay);
    if (!bytes.empty())
        return r.confirm_bytes(bytes);
    return r.run(evidence, known, assumption);
}

#endif

}

#if PBT_PART != 0
#define PBT_MAIN
#elif defined(PBT_LIBFUZZER)
#define PBT_MAIN extern "C" __attribute__((weak)) int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) { return pbt::fuzz_one(data, size); }
#else
#define PBT_MAIN __attribute__((weak)) int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif

#endif
