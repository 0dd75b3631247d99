// Simulated threads: the code under test is compiled with the compiler's thread instrumentation and linked with this
// runtime instead of the sanitizer's. Exactly one thread runs at a time; every instrumented memory access, atomic
// operation, lock, allocation and initialisation of a function-local static is a point at which the seeded scheduler
// may switch to another thread. A vector-clock detector reports every two conflicting accesses of the same byte that
// nothing orders, whether or not they were close together in this run.
#pragma once

#include "sim.hpp"

#include <functional>

namespace simthread
{

constexpr size_t MAX_THREADS = 4;

struct Stats
{
    uint64_t points = 0; // scheduling points passed
    uint64_t accesses = 0; // bytes ranges checked for races
    uint64_t switches = 0; // preemptions
    uint64_t blocked = 0; // a thread found a lock or an initialisation taken
    uint64_t initialised = 0; // function-local statics initialised in the simulated threads
    uint64_t released = 0; // ordering edges
    uint64_t interleaving = 0; // hash of the order of the threads and where they were switched
};
extern Stats g_stats; // of the last run()

// runs the bodies as threads under the scheduler; a race, a deadlock or an exception fails the run
void run(sim::Ctx& ctx, const std::vector<std::function<void()>>& bodies, unsigned maxSwitches);

// function-local statics initialised since the start of the process while not pinned become uninitialised
size_t forgetStatics();
// statics initialised while pinned (those of the harness; the default) are never forgotten
void setPinned(bool pinned);
// accesses in here are neither checked nor scheduling points
struct Quiet
{
    Quiet();
    ~Quiet();
    int old;
};
// a scheduling point of the harness (e.g. inside a user's callback)
void point();

} // namespace simthread
