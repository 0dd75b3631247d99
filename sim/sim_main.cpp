// Supervisor of the simulation: forks workers, runs seeds, catches crashes and hangs, gates, minimises and replays
// violations, measures coverage.
#include "sim.hpp"

#include <algorithm>
#include <csignal>
#include <cstdarg>
#include <exception>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define SIM_POISON(p, n) __asan_poison_memory_region((p), (n))
#define SIM_UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=77:abort_on_error=0:symbolize=0:allocator_may_return_null=1:"
           "max_allocation_size_mb=2048:quarantine_size_mb=16:detect_stack_use_after_return=0:"
           "alloc_dealloc_mismatch=0:handle_abort=0:print_legend=0";
}
extern "C" const char* __ubsan_default_options()
{
    return "halt_on_error=1:exitcode=77:print_stacktrace=0";
}
#else
#define SIM_POISON(p, n) (void)0
#define SIM_UNPOISON(p, n) (void)0
#endif

namespace sim
{

Ctx* g_ctx = nullptr;
Heap g_heap;
// who wants to know of every allocation and release (simthread.cpp)
void (*g_onAlloc)(void* p, size_t n) = nullptr;
void (*g_onFree)(void* p, size_t n) = nullptr;

// ---- context ---------------------------------------------------------------------------------------------
void Ctx::mixHash(std::string_view s)
{
    uint64_t h = 1469598103934665603ULL;
    for (char c : s)
    {
        h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ULL;
    }
    hash = mix(hash ^ h);
}

void Ctx::log(const char* fmt, ...)
{
    const Untracked untracked;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (n < 0)
    {
        return;
    }
    const size_t len = std::min(static_cast<size_t>(n), sizeof(buf) - 1);
    mixHash(std::string_view(buf, len));
    if (sh->logLen + len + 2 < MAX_LOG)
    {
        memcpy(sh->log + sh->logLen, buf, len);
        sh->logLen += len;
        sh->log[sh->logLen++] = '\n';
        sh->log[sh->logLen] = '\0';
    }
    if (verbose)
    {
        printf("  %s\n", buf);
    }
}

void Ctx::vflag(const char* cls, const char* fmt, va_list ap)
{
    const Untracked untracked;
    if (violated)
    {
        return;
    }
    violated = true;
    snprintf(sh->cls, sizeof(sh->cls), "%s", cls);
    vsnprintf(sh->detail, sizeof(sh->detail), fmt, ap);
    sh->violated = 1;
    mixHash(std::string_view(sh->cls));
    mixHash(std::string_view(sh->detail));
    sh->hash = hash;
}

void Ctx::flag(const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vflag(cls, fmt, ap);
    va_end(ap);
}

void Ctx::fail(const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vflag(cls, fmt, ap);
    va_end(ap);
    throw Violation();
}

// ---- counters --------------------------------------------------------------------------------------------
namespace
{
// names are registered once per process; the numbers live in the shared region
char g_counterNames[MAX_COUNTERS][56];
size_t g_numCounters = 0;
uint64_t g_hangSeconds = 10;
} // namespace

size_t counterId(const char* name)
{
    for (size_t i = 0; i < g_numCounters; ++i)
    {
        if (strncmp(g_counterNames[i], name, 55) == 0)
        {
            return i;
        }
    }
    if (g_numCounters + 1 >= MAX_COUNTERS)
    {
        return MAX_COUNTERS - 1;
    }
    snprintf(g_counterNames[g_numCounters], 56, "%s", name);
    return g_numCounters++;
}

void counterAdd(size_t id, uint64_t n)
{
    if (g_ctx == nullptr)
    {
        return;
    }
    Shared* sh = g_ctx->sh;
    if (sh->counters[id].name[0] == '\0')
    {
        memcpy(sh->counters[id].name, g_counterNames[id], 56);
        sh->numCounters = std::max<uint64_t>(sh->numCounters, id + 1);
    }
    sh->counters[id].n += n;
}

// ---- global heap -----------------------------------------------------------------------------------------
namespace
{

struct Header
{
    uint64_t magic;
    size_t size;
    uint32_t align;
    uint32_t gen; // run that allocated it, 0 if not tracked
    void* base;
};
static_assert(sizeof(Header) == 32);
constexpr uint64_t MAGIC = 0x53696d4865617021ULL;
constexpr uint64_t FREED = 0xdeaddeaddeaddeadULL;
uint32_t g_gen = 1;

void* heapAlloc(size_t size, size_t align, bool nothrow)
{
    const bool tracked = g_heap.tracking;
    if (tracked)
    {
        g_heap.allocs++;
        g_heap.maxRequest = std::max<uint64_t>(g_heap.maxRequest, size);
        if (g_heap.plan.next() || size > g_heap.budget || g_heap.liveBytes + size > g_heap.budget)
        {
            if (nothrow)
            {
                return nullptr;
            }
            throw std::bad_alloc();
        }
    }
    const size_t pad = std::max<size_t>(align, sizeof(Header));
    void* base = nullptr;
    if (size <= (size_t(1) << 40))
    {
        base = align <= 16 ? malloc(pad + size) : aligned_alloc(align, (pad + size + align - 1) / align * align);
    }
    if (base == nullptr)
    {
        if (nothrow)
        {
            return nullptr;
        }
        throw std::bad_alloc();
    }
    char* user = static_cast<char*>(base) + pad;
    auto* h = reinterpret_cast<Header*>(user - sizeof(Header));
    h->magic = MAGIC;
    h->size = size;
    h->align = static_cast<uint32_t>(align);
    h->gen = tracked ? g_gen : 0;
    h->base = base;
    if (tracked)
    {
        g_heap.liveBlocks++;
        g_heap.liveBytes += size;
        g_heap.peakBytes = std::max(g_heap.peakBytes, g_heap.liveBytes);
    }
    SIM_POISON(h, sizeof(Header));
    if (g_onAlloc != nullptr)
    {
        g_onAlloc(user, size);
    }
    return user;
}

void heapFree(void* p, size_t size, bool sized, size_t align)
{
    if (p == nullptr)
    {
        return;
    }
    auto* h = reinterpret_cast<Header*>(static_cast<char*>(p) - sizeof(Header));
    SIM_UNPOISON(h, sizeof(Header));
    if (h->magic != MAGIC)
    {
        if (g_ctx != nullptr)
        {
            if (h->magic == FREED)
            {
                g_ctx->flag("double-free", "block released twice");
            }
            else
            {
                g_ctx->flag("heap-corruption", "released block did not come from operator new, or was overwritten");
            }
        }
        abort();
    }
    if ((sized && h->size != size) || h->align != align)
    {
        if (g_ctx != nullptr)
        {
            g_ctx->flag("size-mismatch", "block of %zu bytes (align %u) released as %zu bytes (align %zu)", h->size,
                    h->align, size, align);
        }
    }
    if (h->gen != 0 && h->gen == g_gen)
    {
        g_heap.liveBlocks--;
        g_heap.liveBytes -= h->size;
    }
    if (g_onFree != nullptr)
    {
        g_onFree(p, h->size);
    }
    h->magic = FREED;
    free(h->base);
}

} // namespace

void Heap::reset()
{
    *this = Heap();
    ++g_gen;
}

// ---- resources -------------------------------------------------------------------------------------------
namespace
{
struct ResHeader
{
    uint64_t magic;
    const Resource* owner;
    size_t size;
    uint32_t align;
    uint32_t pad;
    void* base;
    uint64_t pad2;
};
constexpr uint64_t RES_MAGIC = 0x5265736f75726365ULL;
static_assert(sizeof(ResHeader) == 48);
} // namespace

// for a debugger: called on every request to the resource named by the environment
extern "C" __attribute__((noinline)) void simResourceAsked(const Resource*)
{
    asm volatile("");
}

void* Resource::do_allocate(size_t bytes, size_t alignment)
{
    static const char* const traced = getenv("SIM_TRACE_RESOURCE");
    if (traced != nullptr && strcmp(traced, m_name) == 0)
    {
        simResourceAsked(this);
    }
    ++allocs;
    maxRequest = std::max<uint64_t>(maxRequest, bytes);
    if (plan.next() || bytes > budget || liveBytes + bytes > budget)
    {
        throw std::bad_alloc();
    }
    const size_t pad = (std::max<size_t>(alignment, 16) + sizeof(ResHeader) + alignment - 1) / alignment * alignment;
    void* base = bytes <= (size_t(1) << 40)
            ? (alignment <= 16 ? malloc(pad + bytes)
                               : aligned_alloc(alignment, (pad + bytes + alignment - 1) / alignment * alignment))
            : nullptr;
    if (base == nullptr)
    {
        throw std::bad_alloc();
    }
    char* user = static_cast<char*>(base) + pad;
    auto* h = reinterpret_cast<ResHeader*>(user - sizeof(ResHeader));
    h->magic = RES_MAGIC;
    h->owner = this;
    h->size = bytes;
    h->align = static_cast<uint32_t>(alignment);
    h->base = base;
    ++liveBlocks;
    liveBytes += bytes;
    peakBytes = std::max(peakBytes, liveBytes);
    return user;
}

void Resource::do_deallocate(void* p, size_t bytes, size_t alignment)
{
    auto* h = reinterpret_cast<ResHeader*>(static_cast<char*>(p) - sizeof(ResHeader));
    if (h->magic != RES_MAGIC)
    {
        g_ctx->flag("foreign-block", "resource '%s' was given a block that no resource handed out", m_name);
        return;
    }
    if (h->owner != this)
    {
        g_ctx->flag("wrong-resource", "block of resource '%s' was returned to resource '%s'", h->owner->name(), m_name);
        return;
    }
    if (h->size != bytes || h->align != alignment)
    {
        g_ctx->flag("size-mismatch", "resource '%s': block of %zu bytes (align %u) released as %zu bytes (align %zu)",
                m_name, h->size, h->align, bytes, alignment);
    }
    --liveBlocks;
    liveBytes -= h->size;
    h->magic = 0xdeaddeaddeaddeadULL;
    free(h->base);
}

Resource::~Resource() = default;

bool Resource::owns(const void* p) const
{
    const auto* h = reinterpret_cast<const ResHeader*>(static_cast<const char*>(p) - sizeof(ResHeader));
    return h->magic == RES_MAGIC && h->owner == this;
}

void Resource::checkEmpty(const char* what)
{
    if (liveBlocks != 0)
    {
        g_ctx->flag("leak", "%s: resource '%s' still has %llu blocks (%llu bytes)", what, m_name,
                static_cast<unsigned long long>(liveBlocks), static_cast<unsigned long long>(liveBytes));
        liveBlocks = 0;
        liveBytes = 0;
    }
}

// ---- one run ---------------------------------------------------------------------------------------------
namespace
{

struct Options
{
    uint64_t seed = 1;
    uint64_t count = 1000;
    unsigned jobs = 8;
    double maxSecs = 1e9;
    unsigned tier = 0;
    std::string out;
    std::string replayDir = ".";
    std::string known;
    std::string replay;
    std::string only;
    bool hashMode = false;
    bool verbose = false;
    double shrinkSecs = 20;
    bool tapes = false;
    uint64_t one = UINT64_MAX;
};
Options g_opt;

double now()
{
    struct timespec ts = {};
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

void onHang(int)
{
    if (g_ctx != nullptr)
    {
        Shared* sh = g_ctx->sh;
        if (sh->violated == 0)
        {
            sh->violated = 1;
            const char msg[] = "no progress";
            memcpy(sh->cls, "hang", 5);
            memcpy(sh->detail, msg, sizeof(msg));
        }
    }
    _exit(78);
}

void armHang(uint64_t secs)
{
    struct itimerval it = {};
    it.it_value.tv_sec = static_cast<time_t>(secs);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

void execRun(Ctx& ctx, uint64_t index)
{
    Shared* sh = ctx.sh;
    sh->runIndex = index;
    sh->busy = 1;
    sh->violated = 0;
    sh->tapeLen = 0;
    sh->logLen = 0;
    sh->log[0] = '\0';
    sh->cls[0] = '\0';
    sh->detail[0] = '\0';
    ctx.pos = 0;
    ctx.hash = 0;
    ctx.shapeHash = 0;
    ctx.violated = false;
    ctx.nontrivial = false;
    ctx.tier = g_opt.tier;
    ctx.rng.seed(mix(g_opt.seed) ^ mix(index * 0x2545F4914F6CDD1DULL + 17));
    g_ctx = &ctx;
    g_heap.reset();
    armHang(g_hangSeconds);
    if (beginRun != nullptr)
    {
        beginRun();
    }
    try
    {
        const auto& all = scenarios();
        size_t which = 0;
        if (ctx.replay)
        {
            which = ctx.choose(all.size());
        }
        else
        {
            unsigned total = 0;
            for (const auto& s : all)
            {
                total += g_opt.only.empty() || std::string(s.name).find(g_opt.only) != std::string::npos ? s.weight : 0;
            }
            uint64_t r = (ctx.rng.next() >> 11) % (total == 0 ? 1 : total);
            for (const auto& s : all)
            {
                const unsigned w = g_opt.only.empty() || std::string(s.name).find(g_opt.only) != std::string::npos ? s.weight : 0;
                if (r < w)
                {
                    break;
                }
                r -= w;
                ++which;
            }
            ctx.record(which);
        }
        ctx.shape(which);
        ctx.log("scenario %s", all[which].name);
        counterAdd(counterId((std::string("scenario.") + all[which].name).c_str()), 1);
        all[which].fn(ctx);
    }
    catch (const Violation&)
    {}
    catch (const std::exception& e)
    {
        g_heap.tracking = false;
        ctx.flag("unexpected-exception", "%s: %s", typeid(e).name(), e.what());
    }
    catch (...)
    {
        g_heap.tracking = false;
        ctx.flag("unexpected-exception", "unknown type");
    }
    g_heap.tracking = false;
    armHang(0);
    g_heap.plan.clear();
    sh->hash = ctx.hash;
    sh->busy = 0;
    sh->runsDone++;
    if (ctx.nontrivial && sh->numShapes < MAX_SHAPES)
    {
        sh->shapes[sh->numShapes++] = ctx.shapeHash;
    }
}

Shared* newShared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        _exit(3);
    }
    return static_cast<Shared*>(p);
}

int newErrFd()
{
    return static_cast<int>(syscall(SYS_memfd_create, "simerr", 0));
}

std::string readErr(int fd)
{
    std::string s;
    lseek(fd, 0, SEEK_SET);
    char buf[4096];
    ssize_t n = 0;
    while ((n = syscall(SYS_read, fd, buf, sizeof(buf))) > 0 && s.size() < (1U << 20))
    {
        s.append(buf, static_cast<size_t>(n));
    }
    return s;
}

// after a child ended abnormally: fill class and detail
void classifyCrash(Shared* sh, int status, const std::string& err)
{
    if (sh->violated != 0)
    {
        return;
    }
    sh->violated = 1;
    std::string cls;
    std::string detail;
    size_t p = err.find("ERROR: AddressSanitizer: ");
    size_t u = err.find("runtime error: ");
    if (p != std::string::npos)
    {
        p += strlen("ERROR: AddressSanitizer: ");
        cls = "asan:" + err.substr(p, err.find_first_of(" \n", p) - p);
        detail = err.substr(p, 1500);
    }
    else if (u != std::string::npos)
    {
        u += strlen("runtime error: ");
        std::string msg = err.substr(u, err.find('\n', u) - u);
        std::string words; // message without the numbers
        for (char c : msg)
        {
            words += (c >= '0' && c <= '9') ? '#' : c;
        }
        cls = "ubsan:" + words.substr(0, 60);
        const size_t lineStart = err.rfind('\n', u);
        detail = err.substr(lineStart == std::string::npos ? 0 : lineStart + 1, 500);
    }
    else if (WIFSIGNALED(status))
    {
        cls = std::string("crash:signal-") + std::to_string(WTERMSIG(status));
        detail = err.substr(0, 1000);
    }
    else
    {
        cls = std::string("crash:exit-") + std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1);
        detail = err.substr(0, 1000);
    }
    // addresses are stable (no address randomisation), but of no use to the reader
    snprintf(sh->cls, sizeof(sh->cls), "%s", cls.c_str());
    snprintf(sh->detail, sizeof(sh->detail), "%s", detail.c_str());
}

void childSetup(int errFd)
{
    signal(SIGVTALRM, onHang);
    if (errFd >= 0)
    {
        dup2(errFd, 2);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

struct Trial
{
    bool violated = false;
    std::string cls;
    std::string detail;
    uint64_t hash = 0;
    std::vector<uint64_t> tape;
    std::string log;
};

Shared* g_trialShared = nullptr;

// one run in a forked child, from the seed index or from a tape
Trial trial(uint64_t index, const std::vector<uint64_t>* tape)
{
    if (g_trialShared == nullptr)
    {
        g_trialShared = newShared();
    }
    Shared* sh = g_trialShared;
    sh->violated = 0;
    sh->hash = 0;
    const int errFd = newErrFd();
    fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0)
    {
        childSetup(errFd);
        static Ctx& ctx = *new Ctx();
        ctx.sh = sh;
        if (tape != nullptr)
        {
            ctx.replay = true;
            ctx.inTape = tape->data();
            ctx.inTapeLen = tape->size();
        }
        execRun(ctx, index);
        _exit(ctx.violated ? 1 : 0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    if (!(WIFEXITED(status) && (WEXITSTATUS(status) == 0 || WEXITSTATUS(status) == 1)))
    {
        classifyCrash(sh, status, readErr(errFd));
        sh->hash = mix(sh->tapeLen);
    }
    close(errFd);
    Trial t;
    t.violated = sh->violated != 0;
    t.cls = t.violated ? sh->cls : "";
    t.detail = t.violated ? sh->detail : "";
    t.hash = sh->hash;
    t.tape.assign(sh->tape, sh->tape + sh->tapeLen);
    t.log.assign(sh->log, sh->logLen);
    return t;
}

// ---- minimisation ----------------------------------------------------------------------------------------
// lexicographic order on (length, values): smaller is simpler
std::vector<uint64_t> shrink(uint64_t index, std::vector<uint64_t> best, const std::string& cls, uint64_t& tries)
{
    const double deadline = now() + g_opt.shrinkSecs;
    auto attempt = [&](const std::vector<uint64_t>& cand) {
        ++tries;
        Trial t = trial(index, &cand);
        if (t.violated && t.cls == cls)
        {
            // what was really consumed (shorter than or equal to the candidate unless zeros were read past its end)
            std::vector<uint64_t> used = t.tape;
            while (!used.empty() && used.back() == 0)
            {
                used.pop_back();
            }
            const bool smaller = used.size() < best.size() || (used.size() == best.size() && used < best);
            if (smaller)
            {
                best = used;
                return true;
            }
        }
        return false;
    };
    while (!best.empty() && best.back() == 0)
    {
        best.pop_back();
    }
    bool progress = true;
    while (progress && now() < deadline)
    {
        progress = false;
        // cut the tail
        for (size_t keep = best.size() / 2; keep + 1 < best.size() && now() < deadline;)
        {
            std::vector<uint64_t> cand(best.begin(), best.begin() + static_cast<long>(keep));
            if (attempt(cand))
            {
                progress = true;
                keep = best.size() / 2;
            }
            else
            {
                keep += std::max<size_t>(1, (best.size() - keep) / 2);
            }
        }
        // delete chunks
        for (size_t chunk = std::max<size_t>(1, best.size() / 2);; chunk /= 2)
        {
            for (size_t i = best.size() > chunk ? best.size() - chunk : 0;; i -= std::min(i, chunk))
            {
                if (now() >= deadline)
                {
                    break;
                }
                if (i < best.size())
                {
                    std::vector<uint64_t> cand(best);
                    cand.erase(cand.begin() + static_cast<long>(i),
                            cand.begin() + static_cast<long>(std::min(i + chunk, cand.size())));
                    progress |= attempt(cand);
                    // zero the chunk instead
                    if (i < best.size())
                    {
                        cand = best;
                        bool any = false;
                        for (size_t k = i; k < std::min(i + chunk, cand.size()); ++k)
                        {
                            any |= cand[k] != 0;
                            cand[k] = 0;
                        }
                        if (any)
                        {
                            progress |= attempt(cand);
                        }
                    }
                }
                if (i == 0)
                {
                    break;
                }
            }
            if (chunk == 1 || now() >= deadline)
            {
                break;
            }
        }
        // delete one entry and decrement an earlier one is rarely needed; minimise single values
        for (size_t i = 0; i < best.size() && now() < deadline; ++i)
        {
            uint64_t lo = 0;
            while (i < best.size() && lo < best[i] && now() < deadline)
            {
                const uint64_t mid = lo + (best[i] - lo) / 2;
                std::vector<uint64_t> cand(best);
                cand[i] = mid;
                if (attempt(cand))
                {
                    progress = true;
                }
                else
                {
                    lo = mid + 1;
                }
            }
        }
    }
    return best;
}

// ---- output ----------------------------------------------------------------------------------------------
std::string jsonString(const std::string& s)
{
    std::string r = "\"";
    for (char ch : s)
    {
        const auto c = static_cast<unsigned char>(ch);
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += ch;
        }
        else if (c == '\n')
        {
            r += "\\n";
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", c);
            r += b;
        }
        else
        {
            r += ch;
        }
    }
    return r + "\"";
}

std::vector<std::string> splitLines(const std::string& s)
{
    std::vector<std::string> r;
    size_t i = 0;
    while (i < s.size())
    {
        size_t e = s.find('\n', i);
        if (e == std::string::npos)
        {
            e = s.size();
        }
        r.push_back(s.substr(i, e - i));
        i = e + 1;
    }
    return r;
}

std::string writeReplay(const Trial& t, uint64_t index, size_t originalLen, uint64_t tries)
{
    const std::string path = g_opt.replayDir + "/" + PROPERTY + "-" + std::to_string(index) + ".replay.json";
    FILE* f = fopen(path.c_str(), "w");
    if (f == nullptr)
    {
        return path;
    }
    fprintf(f, "{\"property\": \"%s\",\n \"class\": %s,\n \"detail\": %s,\n", PROPERTY, jsonString(t.cls).c_str(),
            jsonString(t.detail).c_str());
    fprintf(f, " \"seed\": %llu, \"index\": %llu, \"hash\": %llu, \"original_choices\": %zu, \"shrink_tries\": %llu,\n",
            static_cast<unsigned long long>(g_opt.seed), static_cast<unsigned long long>(index),
            static_cast<unsigned long long>(t.hash), originalLen, static_cast<unsigned long long>(tries));
    fprintf(f, " \"tier\": %u,\n \"tape\": [", g_opt.tier);
    for (size_t i = 0; i < t.tape.size(); ++i)
    {
        fprintf(f, "%s%llu", i != 0 ? "," : "", static_cast<unsigned long long>(t.tape[i]));
    }
    fprintf(f, "],\n \"trace\": [");
    bool first = true;
    for (const auto& l : splitLines(t.log))
    {
        fprintf(f, "%s\n  %s", first ? "" : ",", jsonString(l).c_str());
        first = false;
    }
    fprintf(f, "\n ]}\n");
    fclose(f);
    return path;
}

struct ReplayFile
{
    std::string cls;
    uint64_t hash = 0;
    uint64_t index = 0;
    uint64_t seed = 1;
    std::vector<uint64_t> tape;
};

bool loadReplay(const std::string& path, ReplayFile& r)
{
    FILE* f = fopen(path.c_str(), "r");
    if (f == nullptr)
    {
        return false;
    }
    std::string s;
    char buf[4096];
    size_t n = 0;
    while ((n = fread(buf, 1, sizeof(buf), f)) > 0)
    {
        s.append(buf, n);
    }
    fclose(f);
    auto num = [&](const char* key) -> uint64_t {
        size_t p = s.find(key);
        return p == std::string::npos ? 0 : strtoull(s.c_str() + p + strlen(key), nullptr, 10);
    };
    r.seed = num("\"seed\": ");
    r.index = num("\"index\": ");
    r.hash = num("\"hash\": ");
    g_opt.tier = static_cast<unsigned>(num("\"tier\": "));
    size_t p = s.find("\"class\": \"");
    if (p == std::string::npos)
    {
        return false;
    }
    p += strlen("\"class\": \"");
    while (p < s.size() && s[p] != '"')
    {
        if (s[p] == '\\')
        {
            ++p;
        }
        r.cls += s[p++];
    }
    p = s.find("\"tape\": [");
    if (p == std::string::npos)
    {
        return false;
    }
    p += strlen("\"tape\": [");
    while (p < s.size() && s[p] != ']')
    {
        char* e = nullptr;
        r.tape.push_back(strtoull(s.c_str() + p, &e, 10));
        p = static_cast<size_t>(e - s.c_str());
        if (s[p] == ',')
        {
            ++p;
        }
    }
    return true;
}

std::vector<char*> g_argv;

// fresh process replay; returns "class hash" or an error text
std::string freshReplay(const std::string& path)
{
    int fds[2];
    if (pipe(fds) != 0)
    {
        return "pipe";
    }
    fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0)
    {
        dup2(fds[1], 1);
        close(fds[0]);
        const char* argv[] = {g_argv[0], "--replay", path.c_str(), "--known", g_opt.known.c_str(), nullptr};
        execv("/proc/self/exe", const_cast<char**>(argv));
        _exit(3);
    }
    close(fds[1]);
    std::string s;
    char buf[4096];
    ssize_t n = 0;
    while ((n = syscall(SYS_read, fds[0], buf, sizeof(buf))) > 0)
    {
        s.append(buf, static_cast<size_t>(n));
    }
    close(fds[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    size_t p = s.find("REPLAYED ");
    return p == std::string::npos ? "no result" : s.substr(p, s.find('\n', p) - p);
}

// known findings: lines "KNOWN <property> | <class> | <text contained in the detail> | <description>"
struct Known
{
    std::string cls, text, what;
    uint64_t hits = 0;
};
std::vector<Known> g_known;

std::string trim(const std::string& s)
{
    size_t a = s.find_first_not_of(" \t\r\n");
    size_t b = s.find_last_not_of(" \t\r\n");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

void loadKnown()
{
    FILE* f = g_opt.known.empty() ? nullptr : fopen(g_opt.known.c_str(), "r");
    if (f == nullptr)
    {
        return;
    }
    char line[2048];
    while (fgets(line, sizeof(line), f) != nullptr)
    {
        std::string s = line;
        const std::string prefix = std::string("KNOWN ") + PROPERTY + " |";
        if (s.compare(0, prefix.size(), prefix) != 0)
        {
            continue;
        }
        std::vector<std::string> parts;
        size_t i = prefix.size();
        while (parts.size() < 2)
        {
            size_t e = s.find('|', i);
            parts.push_back(trim(s.substr(i, e - i)));
            i = e + 1;
        }
        g_known.push_back({parts[0], parts[1], trim(s.substr(i)), 0});
    }
    fclose(f);
}

Known* isKnown(const std::string& cls, const std::string& detail)
{
    for (auto& k : g_known)
    {
        if (k.cls == cls && detail.find(k.text) != std::string::npos)
        {
            return &k;
        }
    }
    return nullptr;
}

} // namespace

void Ctx::known(const char* cls, const char* fmt, ...)
{
    Untracked u;
    char detail[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(detail, sizeof(detail), fmt, ap);
    va_end(ap);
    if (isKnown(cls, detail) == nullptr)
    {
        fail(cls, "%s", detail);
    }
    log("  known finding: %s", detail);
    count((std::string("known.") + cls).c_str());
}

namespace
{
constexpr uint64_t DET_SAMPLES = 256;

struct GlobalShared
{
    volatile uint32_t stop;
    uint64_t det[DET_SAMPLES];
    uint64_t detSet[DET_SAMPLES];
    char sampleLog[3][16384];
};

int runAll()
{
    const double start = now();
    loadKnown();
    if (warmup != nullptr)
    {
        warmup();
    }
    auto* gs = static_cast<GlobalShared*>(
            mmap(nullptr, sizeof(GlobalShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    const unsigned jobs = g_opt.jobs;
    const uint64_t detStep = std::max<uint64_t>(1, g_opt.count / DET_SAMPLES);
    std::vector<Shared*> shared(jobs);
    std::vector<pid_t> pids(jobs, -1);
    std::vector<int> errFds(jobs);
    auto spawn = [&](unsigned w, uint64_t from) {
        errFds[w] = newErrFd();
        fflush(stdout);
        const pid_t pid = fork();
        if (pid == 0)
        {
            childSetup(errFds[w]);
            static Ctx& ctx = *new Ctx();
            ctx.sh = shared[w];
            for (uint64_t i = from; i < g_opt.count; i += jobs)
            {
                if (gs->stop != 0 || now() - start > g_opt.maxSecs)
                {
                    break;
                }
                execRun(ctx, i);
                if (ctx.violated)
                {
                    _exit(1);
                }
                if (i % detStep == 0 && i / detStep < DET_SAMPLES)
                {
                    gs->det[i / detStep] = ctx.hash;
                    gs->detSet[i / detStep] = 1;
                }
                if (i < 3)
                {
                    const size_t n = std::min<size_t>(shared[w]->logLen, sizeof(gs->sampleLog[i]) - 1);
                    memcpy(gs->sampleLog[i], shared[w]->log, n);
                }
            }
            _exit(0);
        }
        pids[w] = pid;
    };
    for (unsigned w = 0; w < jobs; ++w)
    {
        shared[w] = newShared();
        spawn(w, w);
    }
    bool found = false;
    uint64_t foundIndex = 0;
    std::string foundCls;
    std::string foundDetail;
    unsigned alive = jobs;
    while (alive > 0)
    {
        int status = 0;
        const pid_t pid = waitpid(-1, &status, 0);
        if (pid < 0)
        {
            break;
        }
        unsigned w = 0;
        while (w < jobs && pids[w] != pid)
        {
            ++w;
        }
        if (w == jobs)
        {
            continue;
        }
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
        {
            --alive;
            pids[w] = -1;
            close(errFds[w]);
            continue;
        }
        Shared* sh = shared[w];
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 1))
        {
            classifyCrash(sh, status, readErr(errFds[w]));
        }
        close(errFds[w]);
        const uint64_t index = sh->runIndex;
        Known* k = isKnown(sh->cls, sh->detail);
        if (k != nullptr)
        {
            ++k->hits;
            spawn(w, index + jobs);
            continue;
        }
        --alive;
        pids[w] = -1;
        gs->stop = 1;
        if (!found || index < foundIndex)
        {
            found = true;
            foundIndex = index;
            foundCls = sh->cls;
            foundDetail = sh->detail;
        }
    }
    const double searchWall = now() - start;

    int rc = 0;
    std::string replayPath;
    std::string gate = "none needed";
    if (found)
    {
        printf("violation in run %llu: %s: %s\n", static_cast<unsigned long long>(foundIndex), foundCls.c_str(),
                foundDetail.c_str());
        const Trial a = trial(foundIndex, nullptr);
        const Trial b = trial(foundIndex, nullptr);
        if (!a.violated || !b.violated || a.cls != foundCls || b.cls != foundCls || a.hash != b.hash)
        {
            printf("ERROR: the violation does not repeat (first '%s', then '%s' hash %llx, then '%s' hash %llx)\n",
                    foundCls.c_str(), a.cls.c_str(), static_cast<unsigned long long>(a.hash), b.cls.c_str(),
                    static_cast<unsigned long long>(b.hash));
            return 2;
        }
        uint64_t tries = 0;
        const std::vector<uint64_t> best = shrink(foundIndex, a.tape, foundCls, tries);
        Trial m = trial(foundIndex, &best);
        if (!m.violated || m.cls != foundCls)
        {
            m = trial(foundIndex, &a.tape);
        }
        replayPath = writeReplay(m, foundIndex, a.tape.size(), tries);
        const std::string r1 = freshReplay(replayPath);
        const std::string r2 = freshReplay(replayPath);
        const std::string expected =
                "REPLAYED class=" + m.cls + " hash=" + std::to_string(m.hash);
        if (r1 != r2 || r1 != expected)
        {
            printf("ERROR: the replay file does not reproduce the violation in a fresh process: expected '%s', got "
                   "'%s' and '%s'\n",
                    expected.c_str(), r1.c_str(), r2.c_str());
            return 2;
        }
        gate = "same seed twice and two fresh-process replays agree";
        printf("%s: %s\nminimised from %zu to %zu choices in %llu tries; trace:\n", m.cls.c_str(), m.detail.c_str(),
                a.tape.size(), best.size(), static_cast<unsigned long long>(tries));
        size_t shown = 0;
        for (const auto& l : splitLines(m.log))
        {
            if (++shown > 60)
            {
                printf("  ...\n");
                break;
            }
            printf("  %s\n", l.c_str());
        }
        printf("VIOLATION property=%s replay=%s\n", PROPERTY, replayPath.c_str());
        rc = 1;
    }
    for (auto& k : g_known)
    {
        const std::string counter = ("known." + k.cls).substr(0, 55);
        for (unsigned w = 0; w < jobs; ++w)
        {
            for (uint64_t i = 0; i < shared[w]->numCounters; ++i)
            {
                if (counter == shared[w]->counters[i].name)
                {
                    k.hits += shared[w]->counters[i].n;
                }
            }
        }
        printf("KNOWN-FINDING: property=%s %s (met %llu times)\n", PROPERTY, k.what.c_str(),
                static_cast<unsigned long long>(k.hits));
    }

    // determinism sample: the same seeds again, in one other process
    uint64_t detChecked = 0;
    uint64_t detBad = 0;
    if (!found)
    {
        const int fd = newErrFd();
        Shared* sh = newShared();
        auto* res = static_cast<uint64_t*>(
                mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        const double detStart = now();
        const pid_t pid = fork();
        if (pid == 0)
        {
            childSetup(fd);
            static Ctx& ctx = *new Ctx();
            ctx.sh = sh;
            // backwards, so that the runs before each one differ too
            for (uint64_t k = DET_SAMPLES; k-- > 0;)
            {
                if (gs->detSet[k] == 0 || now() - detStart > 3.0 + searchWall / 10)
                {
                    continue;
                }
                execRun(ctx, k * detStep);
                ++res[0];
                bool same = ctx.hash == gs->det[k];
                if (same && k % 4 == 0)
                {
                    // and once more from the choices recorded
                    const std::vector<uint64_t> tape(sh->tape, sh->tape + sh->tapeLen);
                    ctx.replay = true;
                    ctx.inTape = tape.data();
                    ctx.inTapeLen = tape.size();
                    execRun(ctx, k * detStep);
                    ctx.replay = false;
                    same = ctx.hash == gs->det[k];
                }
                if (!same)
                {
                    ++res[1];
                    res[2] = k * detStep;
                }
            }
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        detChecked = res[0];
        detBad = res[1];
        if (detBad != 0 || !WIFEXITED(status) || WEXITSTATUS(status) != 0)
        {
            printf("ERROR: %llu of %llu repeated runs differ, e.g. run %llu (status %x)\n",
                    static_cast<unsigned long long>(detBad), static_cast<unsigned long long>(detChecked),
                    static_cast<unsigned long long>(res[2]), static_cast<unsigned>(status));
            rc = 2;
        }
        close(fd);
    }

    // merge measurements
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> shapes;
    std::unordered_set<uint64_t> states;
    uint64_t runs = 0;
    uint64_t steps = 0;
    for (Shared* sh : shared)
    {
        runs += sh->runsDone;
        steps += sh->steps;
        for (uint64_t i = 0; i < sh->numCounters; ++i)
        {
            if (sh->counters[i].name[0] != '\0')
            {
                counters[sh->counters[i].name] += sh->counters[i].n;
            }
        }
        for (uint64_t i = 0; i < sh->numShapes; ++i)
        {
            shapes.insert(sh->shapes[i]);
        }
        if (sh->numStates != 0)
        {
            for (size_t i = 0; i < MAX_STATES; ++i)
            {
                if (sh->states[i] != 0)
                {
                    states.insert(sh->states[i]);
                }
            }
        }
    }
    if (!g_opt.out.empty())
    {
        FILE* f = fopen(g_opt.out.c_str(), "w");
        if (f != nullptr)
        {
            fprintf(f,
                    "{\"property\": \"%s\", \"seed\": %llu, \"requested_runs\": %llu, \"runs\": %llu, \"steps\": %llu, "
                    "\"search_wall_s\": %.3f, \"jobs\": %u,\n \"distinct_shapes\": %zu, \"distinct_states\": %zu, "
                    "\"determinism_checked\": %llu, \"determinism_mismatches\": %llu, \"violations\": %d, \"gate\": "
                    "\"%s\",\n \"known_hits\": [",
                    PROPERTY, static_cast<unsigned long long>(g_opt.seed), static_cast<unsigned long long>(g_opt.count),
                    static_cast<unsigned long long>(runs), static_cast<unsigned long long>(steps), searchWall, jobs,
                    shapes.size(), states.size(), static_cast<unsigned long long>(detChecked),
                    static_cast<unsigned long long>(detBad), found ? 1 : 0, gate.c_str());
            for (size_t i = 0; i < g_known.size(); ++i)
            {
                fprintf(f, "%s%llu", i != 0 ? "," : "", static_cast<unsigned long long>(g_known[i].hits));
            }
            fprintf(f, "],\n \"counters\": {");
            bool first = true;
            for (const auto& c : counters)
            {
                fprintf(f, "%s\n  %s: %llu", first ? "" : ",", jsonString(c.first).c_str(),
                        static_cast<unsigned long long>(c.second));
                first = false;
            }
            fprintf(f, "},\n \"samples\": [");
            for (size_t i = 0; i < 3; ++i)
            {
                std::string s = gs->sampleLog[i];
                if (s.size() > 3000)
                {
                    s = s.substr(0, 3000) + "...";
                }
                fprintf(f, "%s\n  %s", i != 0 ? "," : "", jsonString(s).c_str());
            }
            fprintf(f, "]}\n");
            fclose(f);
        }
    }
    printf("%s: %llu runs (%llu steps) in %.1f s, %zu distinct non-trivial, %zu states, determinism %llu/%llu ok\n", PROPERTY,
            static_cast<unsigned long long>(runs), static_cast<unsigned long long>(steps), searchWall, shapes.size(),
            states.size(), static_cast<unsigned long long>(detChecked - detBad), static_cast<unsigned long long>(detChecked));
    return rc;
}

int replayOne()
{
    loadKnown();
    ReplayFile r;
    if (!loadReplay(g_opt.replay, r))
    {
        fprintf(stderr, "cannot read replay file %s\n", g_opt.replay.c_str());
        return 2;
    }
    g_opt.seed = r.seed;
    if (warmup != nullptr)
    {
        warmup();
    }
    const Trial t = trial(r.index, &r.tape);
    for (const auto& l : splitLines(t.log))
    {
        printf("  %s\n", l.c_str());
    }
    printf("%s: %s\n", t.cls.c_str(), t.detail.c_str());
    printf("REPLAYED class=%s hash=%llu\n", t.cls.c_str(), static_cast<unsigned long long>(t.hash));
    if (t.violated)
    {
        printf("VIOLATION property=%s replay=%s\n", PROPERTY, g_opt.replay.c_str());
    }
    return t.violated ? 1 : 0;
}

int hashAll()
{
    loadKnown();
    if (warmup != nullptr)
    {
        warmup();
    }
    Shared* sh = newShared();
    static Ctx& ctx = *new Ctx();
    ctx.sh = sh;
    signal(SIGVTALRM, onHang);
    for (uint64_t i = g_opt.one == UINT64_MAX ? 0 : g_opt.one; i < (g_opt.one == UINT64_MAX ? g_opt.count : g_opt.one + 1); ++i)
    {
        if (g_opt.tapes)
        {
            // the recorded choices replayed must be the same run
            const Trial a = trial(i, nullptr);
            const Trial b = trial(i, &a.tape);
            printf("%llu %llx %s\n", static_cast<unsigned long long>(i), static_cast<unsigned long long>(a.hash),
                    a.hash == b.hash && a.cls == b.cls ? "same" : "DIFFERENT");
            if (g_opt.verbose) { printf("%s\n----\n%s\n", a.log.c_str(), b.log.c_str()); }
            continue;
        }
        ctx.verbose = g_opt.verbose;
        execRun(ctx, i);
        printf("%llu %llx %s %s\n", static_cast<unsigned long long>(i), static_cast<unsigned long long>(ctx.hash),
                sh->cls, ctx.violated ? sh->detail : "");
    }
    return 0;
}

} // namespace
} // namespace sim

// ---- replaced global allocation functions ------------------------------------------------------------------
void* operator new(size_t n)
{
    return sim::heapAlloc(n, 16, false);
}
void* operator new[](size_t n)
{
    return sim::heapAlloc(n, 16, false);
}
void* operator new(size_t n, std::align_val_t a)
{
    return sim::heapAlloc(n, std::max<size_t>(16, static_cast<size_t>(a)), false);
}
void* operator new[](size_t n, std::align_val_t a)
{
    return sim::heapAlloc(n, std::max<size_t>(16, static_cast<size_t>(a)), false);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    return sim::heapAlloc(n, 16, true);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
    return sim::heapAlloc(n, 16, true);
}
void operator delete(void* p) noexcept
{
    sim::heapFree(p, 0, false, 16);
}
void operator delete[](void* p) noexcept
{
    sim::heapFree(p, 0, false, 16);
}
void operator delete(void* p, size_t n) noexcept
{
    sim::heapFree(p, n, true, 16);
}
void operator delete[](void* p, size_t n) noexcept
{
    sim::heapFree(p, n, true, 16);
}
void operator delete(void* p, std::align_val_t a) noexcept
{
    sim::heapFree(p, 0, false, std::max<size_t>(16, static_cast<size_t>(a)));
}
void operator delete[](void* p, std::align_val_t a) noexcept
{
    sim::heapFree(p, 0, false, std::max<size_t>(16, static_cast<size_t>(a)));
}
void operator delete(void* p, size_t n, std::align_val_t a) noexcept
{
    sim::heapFree(p, n, true, std::max<size_t>(16, static_cast<size_t>(a)));
}
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept
{
    sim::heapFree(p, n, true, std::max<size_t>(16, static_cast<size_t>(a)));
}
void operator delete(void* p, const std::nothrow_t&) noexcept
{
    sim::heapFree(p, 0, false, 16);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept
{
    sim::heapFree(p, 0, false, 16);
}

int main(int argc, char** argv)
{
    // one address space layout for every process
    const int pers = personality(0xffffffff);
    if (pers != -1 && (pers & ADDR_NO_RANDOMIZE) == 0 && getenv("SIM_REEXEC") == nullptr)
    {
        if (personality(static_cast<unsigned long>(pers) | ADDR_NO_RANDOMIZE) != -1)
        {
            setenv("SIM_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    using sim::g_opt;
    sim::g_argv.assign(argv, argv + argc);
    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed")
            g_opt.seed = strtoull(val(), nullptr, 10);
        else if (a == "--count")
            g_opt.count = strtoull(val(), nullptr, 10);
        else if (a == "--jobs")
            g_opt.jobs = static_cast<unsigned>(atoi(val()));
        else if (a == "--max-secs")
            g_opt.maxSecs = atof(val());
        else if (a == "--shrink-secs")
            g_opt.shrinkSecs = atof(val());
        else if (a == "--tier")
            g_opt.tier = static_cast<unsigned>(atoi(val()));
        else if (a == "--out")
            g_opt.out = val();
        else if (a == "--replay-dir")
            g_opt.replayDir = val();
        else if (a == "--known")
            g_opt.known = val();
        else if (a == "--replay")
            g_opt.replay = val();
        else if (a == "--only")
            g_opt.only = val();
        else if (a == "--hash")
            g_opt.hashMode = true;
        else if (a == "--tapes")
        {
            g_opt.hashMode = true;
            g_opt.tapes = true;
        }
        else if (a == "--one")
            g_opt.one = strtoull(val(), nullptr, 10);
        else if (a == "--verbose")
            g_opt.verbose = true;
        else if (a != "--run")
        {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    if (!g_opt.replay.empty())
    {
        return sim::replayOne();
    }
    if (g_opt.hashMode)
    {
        return sim::hashAll();
    }
    return sim::runAll();
}
