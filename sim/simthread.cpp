// Not instrumented.
#include "simthread.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cxxabi.h>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unordered_map>

#define NOINLINE __attribute__((noinline))
#define PC reinterpret_cast<uintptr_t>(__builtin_return_address(0))

extern "C" char __data_start[];
extern "C" char _end[];

namespace sim
{
extern void (*g_onAlloc)(void* p, size_t n);
extern void (*g_onFree)(void* p, size_t n);
} // namespace sim

namespace simthread
{

Stats g_stats;

namespace
{

constexpr size_t T = MAX_THREADS;
constexpr size_t STACK = size_t(1) << 20;
constexpr size_t CELLS = size_t(1) << 18;
constexpr size_t CELLS_MAX = CELLS / 4 * 3;

struct Clock
{
    uint32_t c[T] = {};
    void join(const Clock& o)
    {
        for (size_t i = 0; i < T; ++i)
        {
            c[i] = std::max(c[i], o.c[i]);
        }
    }
};

// who accessed the eight bytes of a granule last, and when
struct Cell
{
    uintptr_t key;
    uint32_t gen;
    uint32_t pc[T][2]; // offset from the image, of the last access
    uint16_t at[T][2][8]; // clock of the last read and write of each byte by each thread, 0 is never
};

enum State
{
    READY,
    BLOCKED,
    DONE
};

struct Thread
{
    pthread_t id = 0;
    sem_t sem;
    const std::function<void()>* body = nullptr;
    State state = READY;
    const void* waitsFor = nullptr;
    Clock clock;
    uint64_t points = 0;
    bool failed = false;
    std::string error;
};

Cell* g_cells = nullptr;
size_t g_used = 0;
uint32_t g_generation = 0;
char* g_stacks = nullptr;
Thread g_threads[T];
size_t g_count = 0;
sem_t g_mainSem;
sim::Ctx* g_ctx = nullptr;
bool g_running = false;
uint64_t g_budget = 0;
unsigned g_switchesLeft = 0;
std::unordered_map<const void*, Clock>* g_sync = nullptr;
struct Lock
{
    int owner = -1; // thread
    unsigned depth = 0;
    unsigned readers = 0;
};
std::unordered_map<const void*, Lock>* g_locks = nullptr;
std::vector<unsigned char*>* g_guards = nullptr; // completed, forgettable
bool g_pinned = true;
std::unordered_map<uintptr_t, unsigned char>* g_globals = nullptr; // what bytes of statics were before the first write
uintptr_t g_image = 0;

thread_local int t_on = 0; // this is a simulated thread, and not inside the simulator
thread_local int t_self = -1;
thread_local char* t_stackLow = nullptr;
thread_local char* t_stackHigh = nullptr;

struct Off
{
    int old;
    Off() :
            old(t_on)
    {
        t_on = 0;
    }
    ~Off()
    {
        t_on = old;
    }
};

std::string where(uintptr_t pc)
{
    Dl_info info;
    if (pc != 0 && dladdr(reinterpret_cast<void*>(pc), &info) != 0 && info.dli_sname != nullptr)
    {
        int status = 0;
        char* d = abi::__cxa_demangle(info.dli_sname, nullptr, nullptr, &status);
        std::string s = status == 0 && d != nullptr ? d : info.dli_sname;
        std::free(d);
        return s;
    }
    return "?";
}
std::string what(uintptr_t address)
{
    Dl_info info;
    if (dladdr(reinterpret_cast<void*>(address), &info) != 0 && info.dli_sname != nullptr)
    {
        int status = 0;
        char* d = abi::__cxa_demangle(info.dli_sname, nullptr, nullptr, &status);
        std::string s = status == 0 && d != nullptr ? d : info.dli_sname;
        std::free(d);
        return "static " + s;
    }
    if (dladdr(reinterpret_cast<void*>(address), &info) != 0)
    {
        return "a static variable";
    }
    return "memory";
}

// ---- scheduler -------------------------------------------------------------------------------------------
void handOver(size_t to)
{
    const int self = t_self;
    if (static_cast<int>(to) == self)
    {
        return;
    }
    sem_post(&g_threads[to].sem);
    while (sem_wait(&g_threads[self].sem) != 0)
    {}
}

void drawBudget()
{
    if (g_switchesLeft == 0 || g_ctx->tapeFull())
    {
        g_budget = 1U << 24U;
        return;
    }
    switch (g_ctx->pick({2, 3, 4, 4, 2}))
    {
    case 0:
        g_budget = 1U << 24U; // in effect: until it ends, unless it spins
        break;
    case 1:
        g_budget = 1 + g_ctx->choose(8);
        break;
    case 2:
        g_budget = 1 + g_ctx->choose(64);
        break;
    case 3:
        g_budget = 1 + g_ctx->choose(1024);
        break;
    default:
        g_budget = 1 + g_ctx->choose(32768);
        break;
    }
}

size_t readyOthers(size_t* to)
{
    size_t n = 0;
    for (size_t i = 0; i < g_count; ++i)
    {
        if (static_cast<int>(i) != t_self && g_threads[i].state == READY)
        {
            to[n++] = i;
        }
    }
    return n;
}

void note(size_t next)
{
    g_stats.interleaving = sim::mix(g_stats.interleaving ^ (g_threads[static_cast<size_t>(t_self)].points * 8 + next + 1));
}

NOINLINE void preempt()
{
    Off off;
    size_t others[T];
    const size_t n = readyOthers(others);
    if (n == 0)
    {
        drawBudget();
        return;
    }
    if (g_switchesLeft != 0)
    {
        --g_switchesLeft;
    }
    const size_t next = others[n == 1 ? 0 : g_ctx->choose(n)];
    ++g_stats.switches;
    note(next);
    drawBudget();
    handOver(next);
}

inline void pointIn()
{
    ++g_threads[static_cast<size_t>(t_self)].points;
    ++g_stats.points;
    if (--g_budget == 0)
    {
        preempt();
    }
}

// the running thread cannot go on until wake(on)
void block(const void* on)
{
    Off off;
    Thread& self = g_threads[static_cast<size_t>(t_self)];
    self.state = BLOCKED;
    self.waitsFor = on;
    ++g_stats.blocked;
    size_t others[T];
    const size_t n = readyOthers(others);
    if (n == 0)
    {
        g_ctx->flag("deadlock", "thread %d waits for a lock nobody can release", t_self);
        self.state = READY;
        self.waitsFor = nullptr;
        throw sim::Violation();
    }
    const size_t next = others[n == 1 ? 0 : g_ctx->choose(n)];
    note(next);
    drawBudget();
    handOver(next);
}
void wake(const void* on)
{
    for (size_t i = 0; i < g_count; ++i)
    {
        if (g_threads[i].state == BLOCKED && g_threads[i].waitsFor == on)
        {
            g_threads[i].state = READY;
            g_threads[i].waitsFor = nullptr;
        }
    }
}

// ---- ordering --------------------------------------------------------------------------------------------
Clock& mine()
{
    return g_threads[static_cast<size_t>(t_self)].clock;
}
void acquire(const void* p)
{
    const auto it = g_sync->find(p);
    if (it != g_sync->end())
    {
        mine().join(it->second);
    }
}
void release(const void* p)
{
    (*g_sync)[p].join(mine());
    ++mine().c[t_self];
    ++g_stats.released;
}

// ---- races -----------------------------------------------------------------------------------------------
Cell* cellOf(uintptr_t key, bool create)
{
    size_t i = sim::mix(key) & (CELLS - 1);
    for (;; i = (i + 1) & (CELLS - 1))
    {
        Cell& c = g_cells[i];
        if (c.gen != g_generation)
        {
            if (!create || g_used >= CELLS_MAX)
            {
                return nullptr;
            }
            ++g_used;
            std::memset(&c, 0, sizeof(c));
            c.gen = g_generation;
            c.key = key;
            return &c;
        }
        if (c.key == key)
        {
            return &c;
        }
    }
}

const char* role(bool write)
{
    return write ? "writes" : "reads";
}

NOINLINE void race(uintptr_t address, uintptr_t pc, bool write, size_t other, bool otherWrite, uint32_t otherPc)
{
    Off off;
    if (g_ctx->violated)
    {
        return;
    }
    const std::string a = where(pc);
    const std::string b = where(g_image + otherPc);
    const std::string object = what(address);
    std::string cls = "data-race in " + (write ? a : b);
    if (cls.size() > 200)
    {
        cls.resize(200);
    }
    g_ctx->flag(cls.c_str(), "thread %d %s %s in %s, unordered with thread %zu which %s it in %s", t_self, role(write),
            object.c_str(), a.c_str(), other, role(otherWrite), b.c_str());
}

void accessIn(uintptr_t address, size_t size, bool write, uintptr_t pc)
{
    const size_t me = static_cast<size_t>(t_self);
    const Clock& clock = g_threads[me].clock;
    while (size != 0)
    {
        const size_t first = address & 7U;
        const size_t n = std::min<size_t>(size, 8 - first);
        Cell* c = cellOf(address >> 3U, true);
        if (c == nullptr)
        {
            return;
        }
        ++g_stats.accesses;
        for (size_t t = 0; t < g_count; ++t)
        {
            if (t == me)
            {
                continue;
            }
            for (size_t b = first; b < first + n; ++b)
            {
                if (c->at[t][1][b] > clock.c[t])
                {
                    race(address, pc, write, t, true, c->pc[t][1]);
                    return;
                }
                if (write && c->at[t][0][b] > clock.c[t])
                {
                    race(address, pc, write, t, false, c->pc[t][0]);
                    return;
                }
            }
        }
        for (size_t b = first; b < first + n; ++b)
        {
            c->at[me][write ? 1 : 0][b] = static_cast<uint16_t>(std::min<uint32_t>(clock.c[me], UINT16_MAX));
        }
        c->pc[me][write ? 1 : 0] = static_cast<uint32_t>(pc - g_image);
        address += n;
        size -= n;
    }
}

// a static of the code under test is written: remember what it was when the process started
inline void remember(const volatile void* p, size_t n)
{
    const char* c = const_cast<const char*>(static_cast<const volatile char*>(p));
    if (c < __data_start || c >= _end)
    {
        return;
    }
    Off off;
    if (g_pinned)
    {
        for (size_t i = 0; i < n && g_globals != nullptr; ++i)
        {
            g_globals->erase(reinterpret_cast<uintptr_t>(c + i));
        }
        return;
    }
    if (g_globals == nullptr)
    {
        g_globals = new std::unordered_map<uintptr_t, unsigned char>();
    }
    for (size_t i = 0; i < n; ++i)
    {
        g_globals->emplace(reinterpret_cast<uintptr_t>(c + i), static_cast<unsigned char>(c[i]));
    }
}

inline void access(const void* p, size_t size, bool write, uintptr_t pc)
{
    if (write)
    {
        remember(p, size);
    }
    if (t_on == 0 || size == 0)
    {
        return;
    }
    pointIn();
    const char* c = static_cast<const char*>(p);
    if (c >= t_stackLow && c < t_stackHigh)
    {
        return;
    }
    Off off;
    accessIn(reinterpret_cast<uintptr_t>(p), size, write, pc);
}

void freshIn(const void* p, size_t n)
{
    const uintptr_t from = reinterpret_cast<uintptr_t>(p);
    for (uintptr_t a = from & ~uintptr_t(7); a < from + n; a += 8)
    {
        Cell* c = cellOf(a >> 3U, false);
        if (c != nullptr)
        {
            std::memset(c->at, 0, sizeof(c->at));
        }
    }
}

void onAlloc(void* p, size_t n)
{
    if (t_on == 0)
    {
        return;
    }
    pointIn();
    Off off;
    freshIn(p, n);
}
void onFree(void* p, size_t n)
{
    if (t_on == 0)
    {
        return;
    }
    pointIn();
    Off off;
    accessIn(reinterpret_cast<uintptr_t>(p), n, true, PC);
}

// ---- threads ---------------------------------------------------------------------------------------------
void finish()
{
    Thread& self = g_threads[static_cast<size_t>(t_self)];
    self.state = DONE;
    size_t others[T];
    const size_t n = readyOthers(others);
    if (n != 0)
    {
        const size_t next = others[n == 1 ? 0 : g_ctx->choose(n)];
        note(next);
        drawBudget();
        sem_post(&g_threads[next].sem);
        return;
    }
    for (size_t i = 0; i < g_count; ++i)
    {
        if (g_threads[i].state == BLOCKED)
        {
            g_ctx->flag("deadlock", "thread %zu waits for a lock nobody will release", i);
            g_locks->clear();
            g_threads[i].state = READY;
            sem_post(&g_threads[i].sem);
            return;
        }
    }
    sem_post(&g_mainSem);
}

void* threadMain(void* arg)
{
    const size_t index = reinterpret_cast<size_t>(arg);
    t_self = static_cast<int>(index);
    t_stackLow = g_stacks + index * STACK;
    t_stackHigh = t_stackLow + STACK;
    Thread& self = g_threads[index];
    while (sem_wait(&self.sem) != 0)
    {}
    try
    {
        t_on = 1;
        (*self.body)();
        t_on = 0;
    }
    catch (const sim::Violation&)
    {
        t_on = 0;
    }
    catch (const std::exception& e)
    {
        t_on = 0;
        self.failed = true;
        self.error = e.what();
    }
    catch (...)
    {
        t_on = 0;
        self.failed = true;
        self.error = "unknown exception";
    }
    finish();
    return nullptr;
}

} // namespace

void setPinned(bool pinned)
{
    g_pinned = pinned;
}
Quiet::Quiet() :
        old(t_on)
{
    t_on = 0;
}
Quiet::~Quiet()
{
    t_on = old;
}

size_t forgetStatics()
{
    if (g_guards == nullptr)
    {
        g_guards = new std::vector<unsigned char*>();
    }
    const size_t n = g_guards->size();
    for (unsigned char* g : *g_guards)
    {
        *g = 0;
    }
    g_guards->clear();
    if (g_globals != nullptr)
    {
        for (const auto& b : *g_globals)
        {
            *reinterpret_cast<unsigned char*>(b.first) = b.second;
        }
    }
    return n;
}

void point()
{
    if (t_on != 0)
    {
        pointIn();
    }
}

void run(sim::Ctx& ctx, const std::vector<std::function<void()>>& bodies, unsigned maxSwitches)
{
    if (g_cells == nullptr)
    {
        g_cells = static_cast<Cell*>(mmap(nullptr, CELLS * sizeof(Cell), PROT_READ | PROT_WRITE,
                MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        g_stacks = static_cast<char*>(
                mmap(nullptr, T * STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (g_cells == MAP_FAILED || g_stacks == MAP_FAILED)
        {
            std::abort();
        }
        g_sync = new std::unordered_map<const void*, Clock>();
        g_locks = new std::unordered_map<const void*, Lock>();
        Dl_info info;
        dladdr(reinterpret_cast<void*>(&run), &info);
        g_image = reinterpret_cast<uintptr_t>(info.dli_fbase);
        sem_init(&g_mainSem, 0, 0);
        for (auto& t : g_threads)
        {
            sem_init(&t.sem, 0, 0);
        }
    }
    sim::g_onAlloc = onAlloc;
    sim::g_onFree = onFree;
    ++g_generation;
    g_used = 0;
    g_stats = Stats();
    g_sync->clear();
    g_locks->clear();
    g_ctx = &ctx;
    g_count = std::min(bodies.size(), T);
    g_switchesLeft = maxSwitches;
    g_running = true;
    pthread_attr_t attr;
    for (size_t i = 0; i < g_count; ++i)
    {
        Thread& t = g_threads[i];
        t.body = &bodies[i];
        t.state = READY;
        t.waitsFor = nullptr;
        t.clock = Clock();
        t.clock.c[i] = 1;
        t.points = 0;
        t.failed = false;
        t.error.clear();
        pthread_attr_init(&attr);
        pthread_attr_setstack(&attr, g_stacks + i * STACK, STACK);
        if (pthread_create(&t.id, &attr, threadMain, reinterpret_cast<void*>(i)) != 0)
        {
            std::abort();
        }
        pthread_attr_destroy(&attr);
    }
    drawBudget();
    const size_t first = g_count == 1 ? 0 : ctx.choose(g_count);
    g_stats.interleaving = sim::mix(first + 1);
    sem_post(&g_threads[first].sem);
    while (sem_wait(&g_mainSem) != 0)
    {}
    for (size_t i = 0; i < g_count; ++i)
    {
        pthread_join(g_threads[i].id, nullptr);
    }
    g_running = false;
    sim::g_onAlloc = nullptr;
    sim::g_onFree = nullptr;
    ctx.step(g_stats.points);
    ctx.mixHash(g_stats.points);
    ctx.mixHash(g_stats.interleaving);
    ctx.check();
    for (size_t i = 0; i < g_count; ++i)
    {
        if (g_threads[i].failed)
        {
            ctx.fail("exception-in-thread", "thread %zu ended with an exception: %s", i, g_threads[i].error.c_str());
        }
    }
}

} // namespace simthread

using namespace simthread;

extern "C"
{

// ---- instrumentation of the compiler ---------------------------------------------------------------------
void __tsan_init()
{}
void __tsan_func_entry(void*)
{}
void __tsan_func_exit()
{}
#define ACCESS(n) \
    void __tsan_read##n(void* p) \
    { \
        access(p, n, false, PC); \
    } \
    void __tsan_write##n(void* p) \
    { \
        access(p, n, true, PC); \
    } \
    void __tsan_volatile_read##n(void* p) \
    { \
        access(p, n, false, PC); \
    } \
    void __tsan_volatile_write##n(void* p) \
    { \
        access(p, n, true, PC); \
    } \
    void __tsan_unaligned_read##n(void* p) \
    { \
        access(p, n, false, PC); \
    } \
    void __tsan_unaligned_write##n(void* p) \
    { \
        access(p, n, true, PC); \
    } \
    void __tsan_read##n##_pc(void* p, void*) \
    { \
        access(p, n, false, PC); \
    } \
    void __tsan_write##n##_pc(void* p, void*) \
    { \
        access(p, n, true, PC); \
    }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
void __tsan_read_range(void* p, size_t n)
{
    access(p, n, false, PC);
}
void __tsan_write_range(void* p, size_t n)
{
    access(p, n, true, PC);
}
void __tsan_vptr_update(void** p, void*)
{
    access(p, sizeof(void*), true, PC);
}
void __tsan_vptr_read(void** p)
{
    access(p, sizeof(void*), false, PC);
}

// memory orders as the compiler passes them: relaxed, consume, acquire, release, acq_rel, seq_cst
static void before(const void* p, int mo)
{
    if (t_on != 0)
    {
        pointIn();
        if (mo >= 3)
        {
            Off off;
            release(p);
        }
    }
}
static void after(const void* p, int mo)
{
    if (t_on != 0 && mo != 0 && mo != 3)
    {
        Off off;
        acquire(p);
    }
}
#define ATOMIC(bits, type) \
    type __tsan_atomic##bits##_load(const volatile type* p, int mo) \
    { \
        if (t_on != 0) \
        { \
            pointIn(); \
        } \
        const type v = __atomic_load_n(p, __ATOMIC_SEQ_CST); \
        after(const_cast<const type*>(p), mo); \
        return v; \
    } \
    void __tsan_atomic##bits##_store(volatile type* p, type v, int mo) \
    { \
        before(const_cast<const type*>(p), mo); \
        remember(p, sizeof(type)); \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST); \
    } \
    type __tsan_atomic##bits##_exchange(volatile type* p, type v, int mo) \
    { \
        before(const_cast<const type*>(p), mo); \
        remember(p, sizeof(type)); \
        const type o = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); \
        after(const_cast<const type*>(p), mo); \
        return o; \
    } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* e, type v, int mo, int) \
    { \
        before(const_cast<const type*>(p), mo); \
        remember(p, sizeof(type)); \
        const int ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        after(const_cast<const type*>(p), mo); \
        return ok; \
    } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* e, type v, int mo, int fmo) \
    { \
        return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo); \
    } \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type e, type v, int mo, int fmo) \
    { \
        __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo); \
        return e; \
    }
#define FETCH(bits, type, op) \
    type __tsan_atomic##bits##_fetch_##op(volatile type* p, type v, int mo) \
    { \
        before(const_cast<const type*>(p), mo); \
        remember(p, sizeof(type)); \
        const type o = __atomic_fetch_##op(p, v, __ATOMIC_SEQ_CST); \
        after(const_cast<const type*>(p), mo); \
        return o; \
    }
#define ALL(bits, type) \
    ATOMIC(bits, type) \
    FETCH(bits, type, add) \
    FETCH(bits, type, sub) \
    FETCH(bits, type, and) \
    FETCH(bits, type, or) \
    FETCH(bits, type, xor) \
    FETCH(bits, type, nand)
ALL(8, uint8_t)
ALL(16, uint16_t)
ALL(32, uint32_t)
ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int)
{
    static char fence;
    if (t_on != 0)
    {
        pointIn();
        Off off;
        acquire(&fence);
        release(&fence);
    }
}
void __tsan_atomic_signal_fence(int)
{}

// ---- initialisation of function-local statics --------------------------------------------------------------
// byte 0 says initialised (the compiler looks at it), byte 1 says in progress
int __wrap___cxa_guard_acquire(unsigned char* g)
{
    const int on = t_on;
    if (on != 0)
    {
        pointIn();
    }
    for (;;)
    {
        if (g[0] != 0)
        {
            if (on != 0)
            {
                Off off;
                acquire(g);
            }
            return 0;
        }
        if (g[1] == 0)
        {
            g[1] = 1;
            return 1;
        }
        if (on == 0)
        {
            std::abort(); // recursive initialisation
        }
        block(g);
    }
}
void __wrap___cxa_guard_release(unsigned char* g)
{
    if (t_on != 0)
    {
        pointIn();
        Off off;
        release(g);
        ++g_stats.initialised;
        wake(g);
    }
    g[1] = 0;
    g[0] = 1;
    if (!g_pinned)
    {
        Off off;
        if (g_guards == nullptr)
        {
            g_guards = new std::vector<unsigned char*>();
        }
        g_guards->push_back(g);
    }
}
void __wrap___cxa_guard_abort(unsigned char* g)
{
    g[1] = 0;
    if (t_on != 0)
    {
        Off off;
        wake(g);
    }
}
int __wrap___cxa_atexit(void (*)(void*), void*, void*) // statics may be initialised many times and are never destroyed
{
    return 0;
}

// ---- exceptions ------------------------------------------------------------------------------------------
void* __real___cxa_allocate_exception(size_t n);
void* __wrap___cxa_allocate_exception(size_t n)
{
    void* p = __real___cxa_allocate_exception(n);
    if (t_on != 0)
    {
        Off off;
        freshIn(p, n);
    }
    return p;
}
void* __real_malloc(size_t n);
void* __wrap_malloc(size_t n)
{
    void* p = __real_malloc(n);
    if (t_on != 0 && p != nullptr)
    {
        Off off;
        freshIn(p, n);
    }
    return p;
}

// ---- locks -----------------------------------------------------------------------------------------------
int __real_pthread_mutex_lock(pthread_mutex_t* m);
int __real_pthread_mutex_trylock(pthread_mutex_t* m);
int __real_pthread_mutex_unlock(pthread_mutex_t* m);
static int lockIt(void* m, bool wait, bool shared)
{
    pointIn();
    for (;;)
    {
        {
            Off off;
            Lock& l = (*g_locks)[m];
            if (shared ? l.owner < 0 : l.owner < 0 && l.readers == 0)
            {
                if (shared)
                {
                    ++l.readers;
                }
                else
                {
                    l.owner = t_self;
                    l.depth = 1;
                }
                acquire(m);
                return 0;
            }
            if (!wait)
            {
                return EBUSY;
            }
        }
        block(m);
    }
}
static int unlockIt(void* m)
{
    pointIn();
    Off off;
    Lock& l = (*g_locks)[m];
    if (l.readers != 0)
    {
        --l.readers;
    }
    else
    {
        l.owner = -1;
    }
    release(m);
    wake(m);
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (t_on == 0)
    {
        return __real_pthread_mutex_lock(m);
    }
    {
        Off off;
        Lock& l = (*g_locks)[m];
        if (l.owner == t_self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)
        {
            ++l.depth;
            return 0;
        }
    }
    return lockIt(m, true, false);
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    return t_on == 0 ? __real_pthread_mutex_trylock(m) : lockIt(m, false, false);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (t_on == 0)
    {
        return __real_pthread_mutex_unlock(m);
    }
    {
        Off off;
        Lock& l = (*g_locks)[m];
        if (l.depth > 1)
        {
            --l.depth;
            return 0;
        }
    }
    return unlockIt(m);
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t* m);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t* m);
int __real_pthread_rwlock_unlock(pthread_rwlock_t* m);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    return t_on == 0 ? __real_pthread_rwlock_rdlock(m) : lockIt(m, true, true);
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    return t_on == 0 ? __real_pthread_rwlock_wrlock(m) : lockIt(m, true, false);
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    return t_on == 0 ? __real_pthread_rwlock_unlock(m) : unlockIt(m);
}
int __real_pthread_once(pthread_once_t* o, void (*f)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
    remember(o, sizeof(*o));
    if (t_on == 0)
    {
        return __real_pthread_once(o, f);
    }
    // done: 2 (as glibc has it); in progress: 1
    pointIn();
    int* state = reinterpret_cast<int*>(o);
    for (;;)
    {
        if (*state == 2)
        {
            Off off;
            acquire(o);
            return 0;
        }
        if (*state == 0)
        {
            *state = 1;
            try
            {
                f();
            }
            catch (...)
            {
                *state = 0;
                Off off;
                wake(o);
                throw;
            }
            Off off;
            *state = 2;
            release(o);
            wake(o);
            return 0;
        }
        block(o);
    }
}

// ---- memory functions of the C library ---------------------------------------------------------------------
void* __real_memcpy(void* to, const void* from, size_t n);
void* __wrap_memcpy(void* to, const void* from, size_t n)
{
    access(from, n, false, PC);
    access(to, n, true, PC);
    return __real_memcpy(to, from, n);
}
void* __real_memmove(void* to, const void* from, size_t n);
void* __wrap_memmove(void* to, const void* from, size_t n)
{
    access(from, n, false, PC);
    access(to, n, true, PC);
    return __real_memmove(to, from, n);
}
void* __real_memset(void* to, int v, size_t n);
void* __wrap_memset(void* to, int v, size_t n)
{
    access(to, n, true, PC);
    return __real_memset(to, v, n);
}
int __real_memcmp(const void* a, const void* b, size_t n);
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
    access(a, n, false, PC);
    access(b, n, false, PC);
    return __real_memcmp(a, b, n);
}
void* __real_memchr(const void* a, int c, size_t n);
void* __wrap_memchr(const void* a, int c, size_t n)
{
    access(a, n, false, PC);
    return __real_memchr(a, c, n);
}
size_t __real_strlen(const char* s);
size_t __wrap_strlen(const char* s)
{
    const size_t n = __real_strlen(s);
    access(s, n + 1, false, PC);
    return n;
}
size_t __real_strnlen(const char* s, size_t n);
size_t __wrap_strnlen(const char* s, size_t n)
{
    const size_t r = __real_strnlen(s, n);
    access(s, std::min(r + 1, n), false, PC);
    return r;
}
int __real_strncmp(const char* a, const char* b, size_t n);
int __wrap_strncmp(const char* a, const char* b, size_t n)
{
    access(a, std::min(__real_strlen(a) + 1, n), false, PC);
    access(b, std::min(__real_strlen(b) + 1, n), false, PC);
    return __real_strncmp(a, b, n);
}
int __real_strcmp(const char* a, const char* b);
int __wrap_strcmp(const char* a, const char* b)
{
    access(a, __real_strlen(a) + 1, false, PC);
    access(b, __real_strlen(b) + 1, false, PC);
    return __real_strcmp(a, b);
}
char* __real_strcpy(char* to, const char* from);
char* __wrap_strcpy(char* to, const char* from)
{
    const size_t n = __real_strlen(from) + 1;
    access(from, n, false, PC);
    access(to, n, true, PC);
    return __real_strcpy(to, from);
}
char* __real_strncpy(char* to, const char* from, size_t n);
char* __wrap_strncpy(char* to, const char* from, size_t n)
{
    access(from, std::min(__real_strlen(from) + 1, n), false, PC);
    access(to, n, true, PC);
    return __real_strncpy(to, from, n);
}
char* __real_strcat(char* to, const char* from);
char* __wrap_strcat(char* to, const char* from)
{
    const size_t n = __real_strlen(from) + 1;
    access(from, n, false, PC);
    access(to + __real_strlen(to), n, true, PC);
    return __real_strcat(to, from);
}
int __wrap_vsnprintf(char* to, size_t n, const char* format, va_list args)
{
    access(format, __real_strlen(format) + 1, false, PC);
    va_list copy;
    va_copy(copy, args);
    const int r = vsnprintf(nullptr, 0, format, copy);
    va_end(copy);
    if (r >= 0 && n != 0)
    {
        access(to, std::min<size_t>(n, static_cast<size_t>(r) + 1), true, PC);
    }
    return vsnprintf(to, n, format, args);
}
int __wrap_snprintf(char* to, size_t n, const char* format, ...)
{
    va_list args;
    va_start(args, format);
    const int r = __wrap_vsnprintf(to, n, format, args);
    va_end(args);
    return r;
}
int __wrap_sprintf(char* to, const char* format, ...)
{
    va_list args;
    va_start(args, format);
    const int r = __wrap_vsnprintf(to, SIZE_MAX / 2, format, args);
    va_end(args);
    return r;
}

} // extern "C"
