// Deterministic simulation core.
//
// One run is a pure function of (scenario, choice tape, code under test): every decision of the simulator - which
// operation, which value, which fault, which task runs next - is taken with Ctx::choose() and friends. While
// exploring, decisions come from one PRNG seeded from VERIF_SEED and are recorded on the tape; while replaying or
// minimising, they come from the tape (and are 0, the simplest choice, beyond its end).
#pragma once

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <memory_resource>
#include <new>
#include <string>
#include <string_view>
#include <vector>

namespace sim
{

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

struct Rng
{
    uint64_t s = 1;
    void seed(uint64_t v)
    {
        s = mix(v ^ 0x51ed2701a3c5e9fdULL);
    }
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ULL;
        uint64_t x = s;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
        return x ^ (x >> 31);
    }
};

// thrown by Ctx::fail; deliberately unrelated to std::exception
struct Violation
{};

static constexpr size_t MAX_TAPE = 1U << 18;
static constexpr size_t MAX_LOG = 1U << 20;
static constexpr size_t MAX_COUNTERS = 512;
static constexpr size_t MAX_SHAPES = 1U << 21;
static constexpr size_t MAX_STATES = 1U << 20;

struct Counter
{
    char name[56];
    uint64_t n;
};

// lives in memory shared with the supervising process, so that it survives a crash of the worker
struct Shared
{
    uint64_t runIndex; // index of the run in progress (or of the last one)
    uint64_t runsDone;
    uint64_t steps; // simulated steps (simulated time, see evidence)
    uint32_t busy; // a run is in progress
    uint32_t violated;
    uint64_t hash; // event log hash of the last run
    uint64_t tapeLen;
    uint64_t logLen;
    char cls[256];
    char detail[4096];
    char report[4096]; // sanitizer report, if any
    uint64_t tape[MAX_TAPE];
    char log[MAX_LOG];
    uint64_t numCounters;
    Counter counters[MAX_COUNTERS];
    uint64_t numShapes;
    uint64_t shapes[MAX_SHAPES];
    uint64_t numStates; // distinct states are merged by the supervisor from this hash set
    uint64_t states[MAX_STATES]; // open addressing, 0 is free
};

class Ctx
{
public:
    Shared* sh = nullptr;
    Rng rng;
    bool replay = false;
    bool verbose = false;
    const uint64_t* inTape = nullptr;
    size_t inTapeLen = 0;
    size_t pos = 0;
    uint64_t hash = 0;
    uint64_t shapeHash = 0;
    bool violated = false;
    bool nontrivial = false; // set by the harness when the run did something worth counting (see evidence "rule")
    unsigned tier = 0; // 0 quick, 1 thorough

    // ---- decisions -------------------------------------------------------------------------------------
    uint64_t record(uint64_t v)
    {
        if (pos < MAX_TAPE)
        {
            sh->tape[pos] = v;
            sh->tapeLen = pos + 1;
        }
        ++pos;
        hash = mix(hash ^ v);
        return v;
    }
    bool tapeFull() const
    {
        return pos + 64 >= MAX_TAPE;
    }
    // uniform in [0, n); n == 0 means the full 64-bit range
    uint64_t choose(uint64_t n)
    {
        uint64_t v = 0;
        if (replay)
        {
            v = pos < inTapeLen ? inTape[pos] : 0;
            if (n != 0)
            {
                v %= n;
            }
        }
        else
        {
            v = rng.next();
            if (n != 0)
            {
                v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
            }
        }
        return record(v);
    }
    // true with probability num/den; false is the simpler choice
    bool flip(unsigned num, unsigned den)
    {
        uint64_t v = 0;
        if (replay)
        {
            v = pos < inTapeLen ? inTape[pos] : 0;
        }
        else
        {
            v = (rng.next() >> 11) % den < num ? 1 : 0;
        }
        return record(v != 0 ? 1 : 0) != 0;
    }
    int64_t range(int64_t lo, int64_t hi)
    {
        return lo + static_cast<int64_t>(choose(static_cast<uint64_t>(hi - lo) + 1));
    }
    // weighted index, index 0 is the simplest
    size_t pick(std::initializer_list<unsigned> weights)
    {
        unsigned total = 0;
        for (unsigned w : weights)
        {
            total += w;
        }
        uint64_t v = 0;
        if (replay)
        {
            v = pos < inTapeLen ? inTape[pos] : 0;
            return record(v % weights.size());
        }
        uint64_t r = (rng.next() >> 11) % total;
        size_t i = 0;
        for (unsigned w : weights)
        {
            if (r < w)
            {
                break;
            }
            r -= w;
            ++i;
        }
        return record(i);
    }
    // "one more step?": loops written with it shrink well
    bool more(unsigned num, unsigned den)
    {
        return !tapeFull() && flip(num, den);
    }

    // ---- observation -----------------------------------------------------------------------------------
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    void step(uint64_t n = 1)
    {
        sh->steps += n;
    }
    void shape(uint64_t v)
    {
        shapeHash = mix(shapeHash ^ v);
    }
    // a state of the system reached, as a hash by the measure the harness states
    void state(uint64_t v)
    {
        v = mix(v) | 1U;
        for (size_t i = 0; i < 16; ++i)
        {
            uint64_t& slot = sh->states[(v + i) & (MAX_STATES - 1)];
            if (slot == v)
            {
                return;
            }
            if (slot == 0)
            {
                slot = v;
                ++sh->numStates;
                return;
            }
        }
    }
    void mixHash(uint64_t v)
    {
        hash = mix(hash ^ v);
    }
    void mixHash(std::string_view s);

    // ---- verdict ---------------------------------------------------------------------------------------
    // records the violation and unwinds
    [[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    // a violation that known_findings.txt may list: when it does, the run goes on, otherwise it is a violation
    void known(const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    // records the violation without unwinding (for noexcept places)
    void flag(const char* cls, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    void check() const
    {
        if (violated)
        {
            throw Violation();
        }
    }
    void vflag(const char* cls, const char* fmt, va_list ap);
};

extern Ctx* g_ctx; // the run in progress in this process

size_t counterId(const char* name);
void counterAdd(size_t id, uint64_t n);

#define SIM_COUNT_N(name, n) \
    do \
    { \
        static const size_t simCounterId_ = ::sim::counterId(name); \
        ::sim::counterAdd(simCounterId_, (n)); \
    } while (false)
#define SIM_COUNT(name) SIM_COUNT_N(name, 1)
// for names computed at run time
inline void count(const char* name, uint64_t n = 1)
{
    counterAdd(counterId(name), n);
}

struct Scenario
{
    const char* name;
    unsigned weight;
    void (*fn)(Ctx&);
};

// optional: initialise what the first run in a process would otherwise initialise (function-local statics)
void warmup() __attribute__((weak));
// optional: state of the harness that has to be reset before each run
void beginRun() __attribute__((weak));

// defined by the harness
extern const char* const PROPERTY;
extern const std::vector<Scenario>& scenarios();

// ---- failing memory ------------------------------------------------------------------------------------
// Decides which allocation fails. Allocation number k (0-based, counted since arming) fails when
// failAt <= k < failAt + failLen.
struct FailPlan
{
    uint64_t seen = 0;
    uint64_t failAt = UINT64_MAX;
    uint64_t failLen = 0;
    uint64_t fired = 0;
    bool next()
    {
        const uint64_t k = seen++;
        if (k >= failAt && k - failAt < failLen)
        {
            ++fired;
            return true;
        }
        return false;
    }
    void set(uint64_t at, uint64_t len)
    {
        seen = 0;
        fired = 0;
        failAt = at;
        failLen = len;
    }
    void clear()
    {
        set(UINT64_MAX, 0);
    }
};

// global heap (operator new); only what is allocated while `tracking` is on is accounted and can fail
struct Heap
{
    bool tracking = false;
    FailPlan plan;
    uint64_t allocs = 0; // tracked allocations so far
    uint64_t liveBlocks = 0; // tracked and not yet freed
    uint64_t liveBytes = 0;
    uint64_t peakBytes = 0;
    uint64_t maxRequest = 0;
    uint64_t budget = UINT64_MAX; // bytes alive at once
    void reset();
};
extern Heap g_heap;

// code under test runs inside a Tracked scope; harness bookkeeping inside it runs in an Untracked scope
struct Tracked
{
    bool old;
    Tracked() :
            old(g_heap.tracking)
    {
        g_heap.tracking = true;
    }
    ~Tracked()
    {
        g_heap.tracking = old;
    }
};
struct Untracked
{
    bool old;
    Untracked() :
            old(g_heap.tracking)
    {
        g_heap.tracking = false;
    }
    ~Untracked()
    {
        g_heap.tracking = old;
    }
};

// polymorphic memory resource with a ledger and a fail plan
class Resource : public std::pmr::memory_resource
{
public:
    explicit Resource(const char* name) :
            m_name(name)
    {}
    ~Resource() override;

    FailPlan plan;
    uint64_t allocs = 0;
    uint64_t liveBlocks = 0;
    uint64_t liveBytes = 0;
    uint64_t peakBytes = 0;
    uint64_t maxRequest = 0;
    uint64_t budget = UINT64_MAX;
    const char* name() const
    {
        return m_name;
    }
    bool owns(const void* p) const;
    void checkEmpty(const char* what);

private:
    void* do_allocate(size_t bytes, size_t alignment) override;
    void do_deallocate(void* p, size_t bytes, size_t alignment) override;
    bool do_is_equal(const std::pmr::memory_resource& other) const noexcept override
    {
        return this == &other;
    }
    const char* m_name;
    // blocks of this resource are marked in a header in front of the block
};

} // namespace sim
