// The scheduler, and all that the instrumented code calls. Not instrumented itself.
#include "sched.hpp"
#include <dlfcn.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/single_threaded.h>

extern "C" void* __cxa_get_globals();
extern "C" const char __executable_start, _end;
extern "C" void sched_switch(void** save, void* to);
asm(R"(
.text
.globl sched_switch
.type sched_switch, @function
sched_switch:
    .cfi_startproc
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
    .cfi_endproc
.size sched_switch, .-sched_switch
)");

namespace
{
[[noreturn]] void die(const char* what)
{
    fprintf(stderr, "ERROR: %s\n", what);
    abort();
}

// -- the heap of a case: nothing is used twice, so that it can tell what was freed
constexpr std::size_t arena_size = 1ull << 30;
struct Block
{
    std::size_t size;
    std::size_t pad;
};
char* arena;
unsigned char* shade; // one for 16 bytes; 1: allocated, 2: freed
std::size_t bump, case_start, live;
bool in_arena_mode;
const char* main_frame;
int no_arena; // statics that are being initialised last longer than the case

void set_up()
{
    if (arena)
        return;
    arena = static_cast<char*>(mmap(nullptr, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    shade = static_cast<unsigned char*>(mmap(nullptr, arena_size / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (arena == MAP_FAILED || shade == MAP_FAILED)
        die("no memory");
    __libc_single_threaded = 0;
    main_frame = static_cast<const char*>(__builtin_frame_address(0)) - (6 << 20);
}
bool in_arena(const void* p)
{
    return arena && p >= arena && p < arena + arena_size;
}
void* allocate(std::size_t n, std::size_t align)
{
    if (!in_arena_mode || no_arena)
    {
        void* p = nullptr;
        if (align <= 16)
            return malloc(n ? n : 1);
        return posix_memalign(&p, align, n) ? nullptr : p;
    }
    auto at = (bump + sizeof(Block) + align - 1) / align * align;
    if (at + n + 32 > arena_size)
        die("the case uses too much memory");
    auto b = reinterpret_cast<Block*>(arena + at) - 1;
    b->size = n;
    bump = (at + n + 15) / 16 * 16 + 16; // with a gap
    memset(shade + at / 16, 1, (n + 15) / 16 + !n);
    ++live;
    return arena + at;
}
void release(void* p)
{
    if (!p)
        return;
    if (!in_arena(p))
    {
        free(p);
        return;
    }
    auto at = static_cast<std::size_t>(static_cast<char*>(p) - arena);
    if (shade[at / 16] != 1)
        die("memory is freed twice");
    auto b = static_cast<Block*>(p) - 1;
    memset(shade + at / 16, 2, (b->size + 15) / 16 + !b->size);
    --live;
}

// -- who touched what in this case
struct Touched
{
    uintptr_t key;
    uint32_t epoch;
    int32_t who; // -1: more than one
};
constexpr std::size_t ntouched = 1u << 18;
Touched* touched;
std::size_t ntouches;
uint32_t epoch;

bool shared(uintptr_t key, int who)
{
    if (ntouches > ntouched / 2)
        return true;
    auto i = (key * 0x9e3779b97f4a7c15ull) >> 46;
    for (;; i = (i + 1) % ntouched)
    {
        auto& t = touched[i];
        if (t.epoch != epoch)
        {
            t = {key, epoch, who};
            ++ntouches;
            return false;
        }
        if (t.key == key)
        {
            if (t.who != who)
                t.who = -1;
            return t.who == -1;
        }
    }
}

// -- the threads
constexpr std::size_t stack_size = 512 * 1024;
struct Fiber
{
    char* stack = nullptr;
    void* sp = nullptr;
    void* eh[2] = {nullptr, nullptr};
    const sched::Body* body = nullptr;
    bool done = true;
    const void* waits_for = nullptr; // a mutex
    int waits_how = 0;               // 1: to write, 2: to read
    std::exception_ptr failure;
    uint64_t own = 0;       // accesses so far
    uint64_t freeze_at = 0; // at which of them it is suspended, 0: never
    bool frozen = false;
    struct
    {
        char* at = nullptr;
        std::size_t n = 0;
        char old[64];
    } wide; // a write that is not done yet
};
constexpr std::size_t max_fibers = 6;
Fiber fibers[max_fibers];
std::size_t nfibers;
int current = -1;
void* scheduler_sp;
void* scheduler_eh[2];
uint64_t countdown, points, slice_points;
uint64_t slices;
bool weak_fails; // whether a weak compare-and-exchange that was interrupted before this slice fails
bool tracking;
int quiet;
uint64_t moments, yields;
std::size_t npreemptions, nfrozen;

void swap_eh(void** from, void** to)
{
    auto g = static_cast<void**>(__cxa_get_globals());
    from[0] = g[0];
    from[1] = g[1];
    g[0] = to[0];
    g[1] = to[1];
}
void leave() // to the scheduler
{
    auto& f = fibers[current];
    swap_eh(f.eh, scheduler_eh);
    sched_switch(&f.sp, scheduler_sp);
    if (f.wide.at)
        memcpy(f.wide.old, f.wide.at, f.wide.n);
}
void point()
{
    if (current < 0 || quiet)
        return;
    ++points;
    ++slice_points;
    auto& f = fibers[current];
    if (f.freeze_at && ++f.own == f.freeze_at)
    {
        f.frozen = true;
        leave();
    }
    else if (countdown && --countdown == 0)
        leave();
    else if (slice_points > 50000)
        leave();
}
// a wide write that isn't atomic takes effect half by half: its instrumentation comes before it, so
// what it changed is seen at the next access
void complete(bool drop = false)
{
    if (current < 0 || quiet)
        return;
    auto& w = fibers[current].wide;
    if (!w.at)
        return;
    auto at = w.at;
    if (!memcmp(at, w.old, w.n))
    {
        if (drop)
            w.at = nullptr;
        return; // not written yet
    }
    w.at = nullptr;
    if (countdown != 1)
    {
        point();
        return;
    }
    char rest[64];
    auto half = w.n / 2, more = w.n - half;
    memcpy(rest, at + half, more);
    memcpy(at + half, w.old + half, more);
    point();
    memcpy(at + half, rest, more);
}
inline void access(const void* p, std::size_t wide_write = 0)
{
    if (!tracking || quiet)
        return;
    complete();
    if (in_arena(p))
    {
        if (shade[(static_cast<const char*>(p) - arena) / 16] != 1)
            die("freed memory is used, or memory that was never allocated");
    }
    else
    {
        // otherwise only what there was before the threads began: statics and the stack of main
        auto c = static_cast<const char*>(p);
        if (!(c >= &__executable_start && c < &_end) && !(c > main_frame && c < main_frame + (14 << 20)))
            return;
    }
    if (shared(reinterpret_cast<uintptr_t>(p) / 8, current < 0 ? 100 : current))
    {
        point();
        if (wide_write && current >= 0)
        {
            auto& wide = fibers[current].wide;
            wide.at = static_cast<char*>(const_cast<void*>(p));
            wide.n = wide_write;
            memcpy(wide.old, p, wide_write);
        }
    }
}
void range(const void* p, unsigned long n, bool write = false)
{
    if (write && n > 8 && n <= 64)
    {
        access(p, n);
        return;
    }
    for (unsigned long i = 0; i < n; i += 8)
        access(static_cast<const char*>(p) + i);
}
inline void atomic_access(const volatile void* p)
{
    if (!tracking || quiet)
        return;
    complete(true);
    auto q = const_cast<const void*>(p);
    if (in_arena(q) && shade[(static_cast<const char*>(q) - arena) / 16] != 1)
        die("freed memory is used, or memory that was never allocated");
    shared(reinterpret_cast<uintptr_t>(q) / 8, current < 0 ? 100 : current);
    point();
}

// -- mutexes
struct Mutex
{
    const void* at;
    int owner;
    int depth;
    int readers[max_fibers];
};
Mutex mutexes[256];
std::size_t nmutexes;
Mutex& mutex(const void* p)
{
    for (std::size_t i = 0; i < nmutexes; i++)
        if (mutexes[i].at == p)
            return mutexes[i];
    if (nmutexes == 256)
        die("too many mutexes");
    mutexes[nmutexes] = Mutex{p, -1, 0, {}};
    return mutexes[nmutexes++];
}
bool available(const void* p, int how, int who)
{
    auto& m = mutex(p);
    if (m.owner >= 0)
        return false;
    if (how == 1)
        for (auto r : m.readers)
            if (r)
                return false;
    return true;
}
bool lock(const void* p, int how, bool wait, bool recursive)
{
    atomic_access(p);
    auto me = current;
    auto* m = &mutex(p);
    if (recursive && m->owner == me)
    {
        ++m->depth;
        return true;
    }
    while (!available(p, how, me))
    {
        if (!wait)
            return false;
        fibers[me].waits_for = p;
        fibers[me].waits_how = how;
        leave();
    }
    fibers[me].waits_for = nullptr;
    m = &mutex(p);
    if (how == 1)
    {
        m->owner = me;
        m->depth = 1;
    }
    else
        ++m->readers[me];
    return true;
}
void unlock(const void* p)
{
    complete(true);
    auto& m = mutex(p);
    if (m.owner == current)
    {
        if (--m.depth == 0)
            m.owner = -1;
    }
    else if (m.readers[current])
        --m.readers[current];
    else
        die("a mutex is unlocked by a thread that doesn't own it");
    atomic_access(p);
}
bool managed() { return current >= 0; }

template<typename F>
F real(const char* name)
{
    return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name, ...) do { static auto f = real<decltype(&name)>(#name); return f(__VA_ARGS__); } while (0)

void fiber_main()
{
    auto& f = fibers[current];
    try
    {
        (*f.body)();
        complete(true);
    }
    catch (...)
    {
        f.failure = std::current_exception();
    }
    f.done = true;
    leave();
    die("a finished thread goes on");
}
}

namespace sched
{
uint64_t moment()
{
    complete(true);
    return ++moments;
}
std::size_t preemptions() { return npreemptions; }
std::size_t frozen() { return nfrozen; }
int self() { return current; }
Quiet::Quiet() { ++quiet; }
Quiet::~Quiet() { --quiet; }

void case_begins()
{
    set_up();
    if (!touched)
        touched = static_cast<Touched*>(mmap(nullptr, ntouched * sizeof(Touched), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    ++epoch;
    ntouches = 0;
    case_start = bump;
    live = 0;
    quiet = 0;
    no_arena = 0;
    nmutexes = 0;
    moments = 0;
    npreemptions = 0;
    in_arena_mode = true;
    tracking = true;
}
void case_ends()
{
    in_arena_mode = false;
    tracking = false;
    if (live == 0)
    {
        memset(shade + case_start / 16, 0, (bump - case_start) / 16 + 1);
        bump = case_start;
    }
}

void run(pbt::Ctx& ctx, const std::vector<Body>& threads, bool freeze)
{
    constexpr uint64_t alone = 20000, altogether = 200000; // accesses that no operation needs
    const auto survivor = freeze ? ctx.below(threads.size()) : 0;
    ++quiet;
    nfibers = threads.size();
    if (nfibers > max_fibers)
        die("too many threads");
    for (std::size_t i = 0; i < nfibers; i++)
    {
        auto& f = fibers[i];
        if (!f.stack)
        {
            f.stack = static_cast<char*>(mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            mprotect(f.stack, 4096, PROT_NONE);
        }
        auto top = reinterpret_cast<void**>(f.stack + stack_size - 64);
        *--top = nullptr; // for the alignment, and where it never returns to
        *--top = reinterpret_cast<void*>(&fiber_main);
        for (int r = 0; r < 6; r++)
            *--top = nullptr;
        f.sp = top;
        f.eh[0] = f.eh[1] = nullptr;
        f.body = &threads[i];
        f.done = false;
        f.waits_for = nullptr;
        f.failure = nullptr;
        f.wide.at = nullptr;
        f.own = f.freeze_at = 0;
        f.frozen = false;
        if (freeze && i != survivor && !ctx.chance(1, 4))
            f.freeze_at = 1 + ctx.below(1ull << ctx.below(8));
    }
    points = 0;
    nfrozen = 0;
    bool thawed = !freeze;
    yields = 0;
    npreemptions = 0;
    std::size_t last = nfibers - 1;
    std::string log;
    std::exception_ptr failure;
    std::string trouble;
    for (;;)
    {
        // the others first, then the one that ran last
        std::vector<std::size_t> can;
        bool all_done = true;
        for (std::size_t k = 1; k <= nfibers; k++)
        {
            auto i = (last + k) % nfibers;
            auto& f = fibers[i];
            if (f.done || f.frozen)
                continue;
            all_done = false;
            if (!f.waits_for || available(f.waits_for, f.waits_how, static_cast<int>(i)))
                can.push_back(i);
        }
        if (all_done && !thawed)
        { // the suspended ones go on after all
            thawed = true;
            for (std::size_t i = 0; i < nfibers; i++)
            {
                nfrozen += fibers[i].frozen;
                fibers[i].frozen = false;
                fibers[i].freeze_at = 0;
            }
            continue;
        }
        if (all_done)
            break;
        if (can.empty())
        {
            trouble = thawed ? "deadlock: every thread waits for a mutex" : "an operation waits for a thread that is suspended (it holds a mutex)";
            break;
        }
        if (!thawed && points > altogether)
        {
            trouble = "the operations don't come to an end while another thread is suspended";
            break;
        }
        if (points > 3000000)
        {
            trouble = "the threads don't come to an end under a fair schedule";
            break;
        }
        std::size_t next;
        try
        {
            if (freeze && yields > 200)
            { // they are waiting for each other, or for one that is suspended: no use in drawing any more
                next = can[0];
                countdown = 0;
            }
            else
            {
            next = can[ctx.below(can.size())];
            auto e = ctx.below(22);
            weak_fails = e & 1;
            e /= 2;
            countdown = e ? 1 + ctx.below(1ull << (e - 1)) : 0;
            }
        }
        catch (...)
        {
            failure = std::current_exception(); // out of choices
            break;
        }
        last = next;
        slice_points = 0;
        ++slices;
        auto before = points;
        current = static_cast<int>(next);
        --quiet;
        swap_eh(scheduler_eh, fibers[next].eh);
        sched_switch(&scheduler_sp, fibers[next].sp);
        ++quiet;
        current = -1;
        auto& f = fibers[next];
        if (ctx.tracing())
            log += " T" + std::to_string(next) + "(" + std::to_string(points - before) + (f.done ? " end" : f.frozen ? " suspended" : f.waits_for ? " blocked" : "") + ")";
        if (f.failure)
        {
            failure = f.failure;
            break;
        }
        if (!f.done && !f.waits_for)
        {
            ++npreemptions;
            if (freeze && slice_points > alone)
            {
                trouble = "an operation doesn't come to an end while the other threads are suspended";
                break;
            }
        }
    }
    TRACE(ctx, "schedule:", log);
    nfibers = 0;
    --quiet;
    if (failure)
        std::rethrow_exception(failure);
    if (!trouble.empty())
        ctx.fail(trouble);
}
}

// -- what the instrumentation calls
extern "C"
{
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
void __tsan_vptr_update(void** p, void*) { access(p); }
void __tsan_vptr_read(void** p) { access(p); }
void __tsan_read_range(void* p, unsigned long n) { range(p, n); }
void __tsan_write_range(void* p, unsigned long n) { range(p, n, true); }
#define ACCESS(n) \
    void __tsan_read##n(void* p) { access(p); } \
    void __tsan_write##n(void* p) { access(p, n > 8 ? n : 0); } \
    void __tsan_unaligned_read##n(void* p) { access(p); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n > 8 ? n : 0); } \
    void __tsan_volatile_read##n(void* p) { access(p); } \
    void __tsan_volatile_write##n(void* p) { access(p); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access(p); } \
    void __tsan_read##n##_pc(void* p, void*) { access(p); } \
    void __tsan_write##n##_pc(void* p, void*) { access(p); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)

#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* p, int) { atomic_access(p); return *p; } \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int) { atomic_access(p); *p = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { atomic_access(p); T r = *p; *p = v; return r; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { atomic_access(p); T r = *p; *p = r + v; return r; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { atomic_access(p); T r = *p; *p = r - v; return r; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { atomic_access(p); T r = *p; *p = r & v; return r; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { atomic_access(p); T r = *p; *p = r | v; return r; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { atomic_access(p); T r = *p; *p = r ^ v; return r; } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int) { atomic_access(p); T r = *p; *p = ~(r & v); return r; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) \
    { \
        atomic_access(p); \
        T r = *p; \
        if (r == *c) { *p = v; return 1; } \
        *c = r; \
        return 0; \
    } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) \
    { \
        auto s = slices; \
        atomic_access(p); \
        T r = *p; \
        if (r == *c && (s == slices || !weak_fails)) { *p = v; return 1; } \
        *c = r; \
        return 0; \
    } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int a, int b) { __tsan_atomic##bits##_compare_exchange_strong(p, &c, v, a, b); return c; }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
__extension__ typedef unsigned __int128 u128;
ATOMIC(128, u128)
void __tsan_atomic_thread_fence(int) { if (tracking) point(); }
void __tsan_atomic_signal_fence(int) { }

// the ones that are calls into libatomic
u128 __real___atomic_load_16(const volatile void*, int);
u128 __wrap___atomic_load_16(const volatile void* p, int) { return __tsan_atomic128_load(static_cast<const volatile u128*>(p), 5); }
void __wrap___atomic_store_16(volatile void* p, u128 v, int) { __tsan_atomic128_store(static_cast<volatile u128*>(p), v, 5); }
u128 __wrap___atomic_exchange_16(volatile void* p, u128 v, int) { return __tsan_atomic128_exchange(static_cast<volatile u128*>(p), v, 5); }
bool __wrap___atomic_compare_exchange_16(volatile void* p, void* c, u128 v, bool, int, int)
{
    u128 e;
    memcpy(&e, c, 16);
    bool r = __tsan_atomic128_compare_exchange_strong(static_cast<volatile u128*>(p), &e, v, 5, 5);
    memcpy(c, &e, 16);
    return r;
}
void __wrap___atomic_load(std::size_t n, const volatile void* p, void* r, int) { atomic_access(p); memcpy(r, const_cast<const void*>(p), n); }
void __wrap___atomic_store(std::size_t n, volatile void* p, const void* v, int) { atomic_access(p); memcpy(const_cast<void*>(p), v, n); }
void __wrap___atomic_exchange(std::size_t n, volatile void* p, void* v, void* r, int)
{
    atomic_access(p);
    char old[256];
    if (n > sizeof old)
        die("an atomic is too large");
    memcpy(old, const_cast<void*>(p), n);
    memcpy(const_cast<void*>(p), v, n);
    memcpy(r, old, n);
}
bool __wrap___atomic_compare_exchange(std::size_t n, volatile void* p, void* c, const void* v, int, int)
{
    atomic_access(p);
    if (!memcmp(const_cast<void*>(p), c, n))
    {
        memcpy(const_cast<void*>(p), v, n);
        return true;
    }
    memcpy(c, const_cast<void*>(p), n);
    return false;
}

// -- locks
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (managed())
    {
        lock(m, 1, true, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
        return 0;
    }
    REAL(pthread_mutex_lock, m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (managed())
        return lock(m, 1, false, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) ? 0 : EBUSY;
    REAL(pthread_mutex_trylock, m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (managed())
    {
        unlock(m);
        return 0;
    }
    REAL(pthread_mutex_unlock, m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t)
{
    if (managed())
        return pthread_mutex_lock(m);
    REAL(pthread_mutex_timedlock, m, t);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* t)
{
    if (managed())
        return pthread_mutex_lock(m);
    REAL(pthread_mutex_clocklock, m, c, t);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (managed())
    {
        lock(m, 2, true, false);
        return 0;
    }
    REAL(pthread_rwlock_rdlock, m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (managed())
    {
        lock(m, 1, true, false);
        return 0;
    }
    REAL(pthread_rwlock_wrlock, m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (managed())
        return lock(m, 2, false, false) ? 0 : EBUSY;
    REAL(pthread_rwlock_tryrdlock, m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if (managed())
        return lock(m, 1, false, false) ? 0 : EBUSY;
    REAL(pthread_rwlock_trywrlock, m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (managed())
    {
        unlock(m);
        return 0;
    }
    REAL(pthread_rwlock_unlock, m);
}
int pthread_spin_lock(pthread_spinlock_t* m)
{
    if (managed())
    {
        lock(const_cast<const int*>(m), 1, true, false);
        return 0;
    }
    REAL(pthread_spin_lock, m);
}
int pthread_spin_unlock(pthread_spinlock_t* m)
{
    if (managed())
    {
        unlock(const_cast<const int*>(m));
        return 0;
    }
    REAL(pthread_spin_unlock, m);
}
int pthread_once(pthread_once_t* o, void (*fn)())
{
    if (managed())
    {
        lock(o, 1, true, false);
        if (!*o)
        {
            fn();
            *o = 2;
        }
        unlock(o);
        return 0;
    }
    REAL(pthread_once, o, fn);
}
int sched_yield()
{
    if (managed() && !quiet)
    {
        ++points;
        ++yields;
        leave();
        return 0;
    }
    REAL(sched_yield);
}
int nanosleep(const timespec* t, timespec* r)
{
    if (managed())
        return sched_yield();
    REAL(nanosleep, t, r);
}
int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* r)
{
    if (managed())
        return sched_yield();
    REAL(clock_nanosleep, c, flags, t, r);
}

// statics
int __cxa_guard_acquire(long long* guard)
{
    auto g = reinterpret_cast<char*>(guard);
    if (*g)
        return 0;
    if (managed())
    {
        lock(g, 1, true, false);
        if (*g)
        {
            unlock(g);
            return 0;
        }
    }
    ++no_arena;
    return 1;
}
void __cxa_guard_release(long long* guard)
{
    auto g = reinterpret_cast<char*>(guard);
    *g = 1;
    --no_arena;
    if (managed() && mutex(g).owner == current)
        unlock(g);
}
void __cxa_guard_abort(long long* guard)
{
    auto g = reinterpret_cast<char*>(guard);
    --no_arena;
    if (managed() && mutex(g).owner == current)
        unlock(g);
}
}

// -- the heap
void* operator new(std::size_t n)
{
    if (auto p = allocate(n, 16))
        return p;
    throw std::bad_alloc();
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return allocate(n, 16); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return allocate(n, 16); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, std::size_t) noexcept { release(p); }
void operator delete[](void* p, std::size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }
