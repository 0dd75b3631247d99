#include "simsql.hpp"

#include <algorithm>
#include <cstdlib>
#include <cstring>

namespace simsql
{

const char* const OP_NAMES[] = {"open", "read", "write", "truncate", "sync", "size", "lock", "delete", "access"};
Device g_device;
Memory g_memory;

namespace
{

const char* const FAULT_NAMES[] = {"fault.device-open", "fault.device-read", "fault.device-write",
        "fault.device-truncate", "fault.device-sync", "fault.device-size", "fault.device-lock", "fault.device-delete",
        "fault.device-access"};

using Bytes = std::vector<uint8_t>;
struct Pending
{
    bool truncate = false;
    size_t offset = 0;
    Bytes data;
};
struct Handle;
struct Node
{
    Bytes now;
    Bytes durable;
    std::vector<Pending> pending;
    std::vector<Handle*> handles;
};
using NodePtr = std::shared_ptr<Node>;
std::map<std::string, NodePtr> g_now;
std::map<std::string, NodePtr> g_durable;
uint64_t g_random = 1;
size_t g_open = 0;

struct Handle
{
    sqlite3_file base;
    NodePtr* node;
    std::string* name;
    int lock;
    bool temporary;
};

// true: this operation fails
bool strikes(Op op)
{
    ++g_device.ops;
    ++g_device.perOp[op];
    sim::g_ctx->step();
    if (g_device.dead)
    {
        return true;
    }
    Fault& f = g_device.fault;
    if (!f.armed)
    {
        return false;
    }
    const uint64_t k = f.seen++;
    if (k < f.at || k - f.at >= f.len)
    {
        return false;
    }
    ++f.fired;
    if (f.crash)
    {
        g_device.dead = true;
        sim::count("fault.crash");
        return true;
    }
    g_device.unreliable = true;
    sim::count(op == WRITE && f.full ? "fault.device-full" : FAULT_NAMES[op]);
    return true;
}

void apply(Bytes& bytes, const Pending& p, size_t upTo)
{
    if (p.truncate)
    {
        bytes.resize(p.offset);
        return;
    }
    const size_t n = std::min(upTo, p.data.size());
    if (n == 0)
    {
        return;
    }
    if (bytes.size() < p.offset + n)
    {
        bytes.resize(p.offset + n);
    }
    std::memcpy(bytes.data() + p.offset, p.data.data(), n);
}

Handle& H(sqlite3_file* f)
{
    return *reinterpret_cast<Handle*>(f);
}

int fClose(sqlite3_file* f)
{
    sim::Untracked u;
    Handle& h = H(f);
    auto& all = (*h.node)->handles;
    all.erase(std::remove(all.begin(), all.end(), &h), all.end());
    delete h.node;
    delete h.name;
    --g_open;
    return SQLITE_OK;
}
int fRead(sqlite3_file* f, void* to, int n, sqlite3_int64 offset)
{
    sim::Untracked u;
    if (strikes(READ))
    {
        return SQLITE_IOERR_READ;
    }
    const Bytes& b = (*H(f).node)->now;
    const size_t from = static_cast<size_t>(offset);
    const size_t have = from >= b.size() ? 0 : std::min(static_cast<size_t>(n), b.size() - from);
    if (have != 0)
    {
        std::memcpy(to, b.data() + from, have);
    }
    if (have < static_cast<size_t>(n))
    {
        std::memset(static_cast<uint8_t*>(to) + have, 0, static_cast<size_t>(n) - have);
        return SQLITE_IOERR_SHORT_READ;
    }
    return SQLITE_OK;
}
int fWrite(sqlite3_file* f, const void* from, int n, sqlite3_int64 offset)
{
    sim::Untracked u;
    const bool strike = strikes(WRITE);
    Pending p;
    p.offset = static_cast<size_t>(offset);
    const uint8_t* bytes = static_cast<const uint8_t*>(from);
    p.data.assign(bytes, bytes + n);
    if (strike)
    {
        if (!g_device.dead) // a part may have been written
        {
            p.data.resize(p.data.size() * (g_device.fault.fired % 3) / 3);
        }
        else if (g_device.fault.fired != 0 && !H(f).temporary && g_device.fault.crash && g_device.fault.armed)
        {
            // the write on which the power went may have reached the device in part
            (*H(f).node)->pending.push_back(p);
            g_device.fault.armed = false;
            return SQLITE_IOERR_WRITE;
        }
        else
        {
            return SQLITE_IOERR_WRITE;
        }
    }
    Node& node = **H(f).node;
    apply(node.now, p, p.data.size());
    node.pending.push_back(std::move(p));
    return strike ? (g_device.fault.full ? SQLITE_FULL : SQLITE_IOERR_WRITE) : SQLITE_OK;
}
int fTruncate(sqlite3_file* f, sqlite3_int64 size)
{
    sim::Untracked u;
    if (strikes(TRUNCATE))
    {
        return SQLITE_IOERR_TRUNCATE;
    }
    Pending p;
    p.truncate = true;
    p.offset = static_cast<size_t>(size);
    Node& node = **H(f).node;
    apply(node.now, p, 0);
    node.pending.push_back(std::move(p));
    return SQLITE_OK;
}
int fSync(sqlite3_file* f, int)
{
    sim::Untracked u;
    if (strikes(SYNC))
    {
        return SQLITE_IOERR_FSYNC;
    }
    Node& node = **H(f).node;
    node.pending.clear();
    node.durable = node.now;
    const auto found = g_now.find(*H(f).name);
    if (found != g_now.end() && found->second == *H(f).node)
    {
        g_durable[*H(f).name] = *H(f).node; // the directory is synchronised along with it
    }
    return SQLITE_OK;
}
int fSize(sqlite3_file* f, sqlite3_int64* size)
{
    if (strikes(SIZE))
    {
        return SQLITE_IOERR_FSTAT;
    }
    *size = static_cast<sqlite3_int64>((*H(f).node)->now.size());
    return SQLITE_OK;
}
int fLock(sqlite3_file* f, int level)
{
    sim::Untracked u;
    if (strikes(LOCK))
    {
        return SQLITE_IOERR_LOCK;
    }
    Handle& h = H(f);
    if (h.lock >= level)
    {
        return SQLITE_OK;
    }
    int others = SQLITE_LOCK_NONE;
    for (const Handle* o : (*h.node)->handles)
    {
        if (o != &h)
        {
            others = std::max(others, o->lock);
        }
    }
    const bool busy = level == SQLITE_LOCK_SHARED ? others >= SQLITE_LOCK_PENDING
            : level == SQLITE_LOCK_RESERVED       ? others >= SQLITE_LOCK_RESERVED
                                                  : others >= SQLITE_LOCK_SHARED;
    if (busy)
    {
        SIM_COUNT("fault.locked");
        if (level == SQLITE_LOCK_EXCLUSIVE && others < SQLITE_LOCK_RESERVED)
        {
            h.lock = SQLITE_LOCK_PENDING;
        }
        return SQLITE_BUSY;
    }
    h.lock = level;
    return SQLITE_OK;
}
int fUnlock(sqlite3_file* f, int level)
{
    H(f).lock = std::min(H(f).lock, level);
    return SQLITE_OK;
}
int fCheckReservedLock(sqlite3_file* f, int* reserved)
{
    if (strikes(LOCK))
    {
        return SQLITE_IOERR_CHECKRESERVEDLOCK;
    }
    *reserved = 0;
    for (const Handle* o : (*H(f).node)->handles)
    {
        if (o->lock >= SQLITE_LOCK_RESERVED)
        {
            *reserved = 1;
        }
    }
    return SQLITE_OK;
}
int fFileControl(sqlite3_file*, int, void*)
{
    return SQLITE_NOTFOUND;
}
int fSectorSize(sqlite3_file*)
{
    return g_device.sectorSize;
}
int fDeviceCharacteristics(sqlite3_file*)
{
    return 0;
}

sqlite3_io_methods g_methods;

int vOpen(sqlite3_vfs*, const char* name, sqlite3_file* f, int flags, int* outFlags)
{
    sim::Untracked u;
    f->pMethods = nullptr;
    if (strikes(OPEN))
    {
        return SQLITE_CANTOPEN;
    }
    Handle& h = H(f);
    const bool temporary = name == nullptr || (flags & SQLITE_OPEN_DELETEONCLOSE) != 0;
    NodePtr node;
    if (temporary)
    {
        node = std::make_shared<Node>();
    }
    else
    {
        const auto found = g_now.find(name);
        if (found != g_now.end())
        {
            node = found->second;
        }
        else if ((flags & SQLITE_OPEN_CREATE) == 0)
        {
            return SQLITE_CANTOPEN;
        }
        else
        {
            node = std::make_shared<Node>();
            g_now[name] = node;
        }
    }
    h.node = new NodePtr(node);
    h.name = new std::string(name != nullptr ? name : "");
    h.lock = SQLITE_LOCK_NONE;
    h.temporary = temporary;
    node->handles.push_back(&h);
    ++g_open;
    f->pMethods = &g_methods;
    if (outFlags != nullptr)
    {
        *outFlags = flags;
    }
    return SQLITE_OK;
}
int vDelete(sqlite3_vfs*, const char* name, int syncDir)
{
    sim::Untracked u;
    if (strikes(DELETE_))
    {
        return SQLITE_IOERR_DELETE;
    }
    const auto found = g_now.find(name);
    if (found == g_now.end())
    {
        return SQLITE_IOERR_DELETE_NOENT;
    }
    g_now.erase(found);
    if (syncDir != 0)
    {
        g_durable.erase(name);
    }
    return SQLITE_OK;
}
int vAccess(sqlite3_vfs*, const char* name, int, int* out)
{
    sim::Untracked u;
    if (strikes(ACCESS))
    {
        return SQLITE_IOERR_ACCESS;
    }
    const auto found = g_now.find(name);
    *out = found != g_now.end() ? 1 : 0;
    return SQLITE_OK;
}
int vFullPathname(sqlite3_vfs*, const char* name, int n, char* out)
{
    sqlite3_snprintf(n, out, "%s", name);
    return SQLITE_OK;
}
int vRandomness(sqlite3_vfs*, int n, char* out)
{
    for (int i = 0; i < n; ++i)
    {
        g_random = sim::mix(g_random + 1);
        out[i] = static_cast<char>(g_random >> 24);
    }
    return n;
}
int vSleep(sqlite3_vfs*, int us)
{
    return us;
}
int vCurrentTime(sqlite3_vfs*, double* t)
{
    *t = 2451545.0;
    return SQLITE_OK;
}
int vGetLastError(sqlite3_vfs*, int, char*)
{
    return 0;
}

struct alignas(16) Header
{
    uint64_t size;
};
void* mMalloc(int n)
{
    ++g_memory.allocs;
    if (g_memory.plan.next())
    {
        SIM_COUNT("fault.engine-memory");
        return nullptr;
    }
    Header* h = static_cast<Header*>(std::malloc(sizeof(Header) + static_cast<size_t>(n)));
    h->size = static_cast<uint64_t>(n);
    ++g_memory.liveBlocks;
    g_memory.liveBytes += h->size;
    return h + 1;
}
void mFree(void* p)
{
    if (p != nullptr)
    {
        Header* h = static_cast<Header*>(p) - 1;
        --g_memory.liveBlocks;
        g_memory.liveBytes -= h->size;
        std::free(h);
    }
}
void* mRealloc(void* p, int n)
{
    void* fresh = mMalloc(n);
    if (fresh != nullptr && p != nullptr)
    {
        std::memcpy(fresh, p, std::min(static_cast<size_t>((static_cast<Header*>(p) - 1)->size), static_cast<size_t>(n)));
        mFree(p);
    }
    return fresh;
}
int mSize(void* p)
{
    return p != nullptr ? static_cast<int>((static_cast<Header*>(p) - 1)->size) : 0;
}
int mRoundup(int n)
{
    return (n + 7) & ~7;
}
int mInit(void*)
{
    return SQLITE_OK;
}
void mShutdown(void*)
{}

void must(bool ok, const char* what)
{
    if (!ok)
    {
        std::fprintf(stderr, "simsql: %s failed\n", what);
        std::abort();
    }
}

} // namespace

void Device::reset()
{
    *this = Device();
    g_now.clear();
    g_durable.clear();
}
void Device::arm(uint64_t at, uint64_t len, bool full, bool crash)
{
    fault = Fault();
    fault.armed = true;
    fault.at = at;
    fault.len = len;
    fault.full = full;
    fault.crash = crash;
}
void Device::disarm()
{
    fault = Fault();
}
size_t Device::openFiles() const
{
    return g_open;
}
void Device::restart(sim::Ctx& ctx)
{
    sim::Untracked u;
    // names
    std::map<std::string, NodePtr> names;
    std::map<std::string, std::pair<NodePtr, NodePtr>> both;
    for (const auto& [name, node] : g_durable)
    {
        both[name].first = node;
    }
    for (const auto& [name, node] : g_now)
    {
        both[name].second = node;
    }
    for (const auto& [name, pair] : both)
    {
        NodePtr n = pair.first;
        if (pair.first != pair.second && (unreliable || ctx.flip(1, 2)))
        {
            n = pair.second;
        }
        if (n)
        {
            names[name] = n;
        }
    }
    // contents
    for (auto& [name, node] : names)
    {
        Bytes b = node->durable;
        const size_t how = node->pending.empty() || unreliable ? 0 : ctx.choose(4);
        for (const Pending& p : node->pending)
        {
            switch (how == 0 ? 1 : how == 1 ? 0 : ctx.choose(3))
            {
            case 0:
                SIM_COUNT("fault.unsynced-write-lost");
                break;
            case 1:
                apply(b, p, p.data.size());
                break;
            default:
                SIM_COUNT("fault.unsynced-write-torn");
                apply(b, p, p.data.empty() ? 0 : static_cast<size_t>(ctx.choose(p.data.size())));
                break;
            }
        }
        auto fresh = std::make_shared<Node>();
        fresh->now = b;
        fresh->durable = b;
        node = fresh;
    }
    g_now = names;
    g_durable = names;
    dead = false;
    unreliable = false;
    disarm();
}

void install()
{
    static sqlite3_mem_methods mem = {mMalloc, mFree, mRealloc, mSize, mRoundup, mInit, mShutdown, nullptr};
    must(sqlite3_config(SQLITE_CONFIG_SINGLETHREAD) == SQLITE_OK, "singlethread");
    must(sqlite3_config(SQLITE_CONFIG_MALLOC, &mem) == SQLITE_OK, "malloc");
    must(sqlite3_config(SQLITE_CONFIG_LOOKASIDE, 0, 0) == SQLITE_OK, "lookaside");
    must(sqlite3_config(SQLITE_CONFIG_MEMSTATUS, 0) == SQLITE_OK, "memstatus");
    must(sqlite3_initialize() == SQLITE_OK, "initialize");
    g_methods = sqlite3_io_methods();
    g_methods.iVersion = 1;
    g_methods.xClose = fClose;
    g_methods.xRead = fRead;
    g_methods.xWrite = fWrite;
    g_methods.xTruncate = fTruncate;
    g_methods.xSync = fSync;
    g_methods.xFileSize = fSize;
    g_methods.xLock = fLock;
    g_methods.xUnlock = fUnlock;
    g_methods.xCheckReservedLock = fCheckReservedLock;
    g_methods.xFileControl = fFileControl;
    g_methods.xSectorSize = fSectorSize;
    g_methods.xDeviceCharacteristics = fDeviceCharacteristics;
    static sqlite3_vfs vfs;
    vfs.iVersion = 1;
    vfs.szOsFile = sizeof(Handle);
    vfs.mxPathname = 64;
    vfs.zName = "sim";
    vfs.xOpen = vOpen;
    vfs.xDelete = vDelete;
    vfs.xAccess = vAccess;
    vfs.xFullPathname = vFullPathname;
    vfs.xRandomness = vRandomness;
    vfs.xSleep = vSleep;
    vfs.xCurrentTime = vCurrentTime;
    vfs.xGetLastError = vGetLastError;
    must(sqlite3_vfs_register(&vfs, 1) == SQLITE_OK, "vfs");
}

void beginRun(uint64_t seed)
{
    g_device.reset();
    g_memory.plan.clear();
    g_random = sim::mix(seed);
    sqlite3_randomness(0, nullptr);
}

} // namespace simsql
