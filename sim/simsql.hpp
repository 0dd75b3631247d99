// The world below the SQLite engine: a simulated device (as the engine's file system layer) and the engine's memory.
// Everything is in memory; one run starts with an empty device.
//
// The device keeps, per file, what is durable and what has been written since the last successful sync. A crash keeps a
// chosen part of what was not synchronised: every pending write or truncation separately is kept, lost or torn at any
// byte; names which were created or removed without synchronising the directory may or may not come back.
#pragma once

#include "sim.hpp"

#include "sqlite3.h"

#include <map>
#include <memory>
#include <string>
#include <vector>

namespace simsql
{

enum Op
{
    OPEN,
    READ,
    WRITE,
    TRUNCATE,
    SYNC,
    SIZE,
    LOCK,
    DELETE_,
    ACCESS,
    OPS
};
extern const char* const OP_NAMES[];

struct Fault // the n-th operation from now on (of those that match) fails
{
    bool armed = false;
    uint64_t at = 0;
    uint64_t len = 0; // operations in a row
    bool full = false; // writes report a full device instead of an error
    bool crash = false; // power goes at that point
    uint64_t seen = 0;
    uint64_t fired = 0;
};

struct Device
{
    Fault fault;
    // an operation failed before: what was not synchronised since is no longer lost when the power goes (the
    // engine promises nothing for a device which fails a synchronisation and then loses the writes)
    bool unreliable = false;
    bool dead = false; // power is gone: everything fails until restart()
    uint64_t ops = 0;
    uint64_t perOp[OPS] = {};
    int sectorSize = 512;

    void reset(); // empty device
    void arm(uint64_t at, uint64_t len, bool full, bool crash);
    void disarm();
    void restart(sim::Ctx& ctx); // after a crash: what was durable and a part of the rest
    void powerOff() // the state of the device at this point is what restart() starts from
    {
        dead = true;
    }
    size_t openFiles() const;
};
extern Device g_device;

struct Memory // of the engine
{
    sim::FailPlan plan;
    uint64_t liveBlocks = 0;
    uint64_t liveBytes = 0;
    uint64_t allocs = 0;
};
extern Memory g_memory;

void install(); // once per process, before the engine is used
void beginRun(uint64_t seed);

} // namespace simsql
