// Simulated disk behind the C library's file functions. Paths below /sim/ live here; everything else passes through.
#pragma once

#include "sim.hpp"

#include <map>
#include <memory>

namespace sim
{

struct Disk
{
    struct Inode
    {
        std::vector<uint8_t> data;
        bool readOnly = false;
    };
    std::map<std::string, std::shared_ptr<Inode>> files;

    // ---- fault configuration of the run
    bool softShort = false; // short reads and writes
    bool softEintr = false; // interrupted reads and writes
    unsigned softDen = 4; // one in softDen device operations
    uint64_t capacity = UINT64_MAX; // bytes on the device
    int64_t hardAt = -1; // number of the device operation (counted from arming) that fails hard
    bool sticky = false; // and all later ones too
    int64_t shrinkAt = -1; // number of the device operation at which another process truncates the file in use
    uint64_t shrinkTo = 0;
    bool delayedAtClose = false; // data accepted before is lost, reported by close only

    // ---- what happened since arming
    int64_t ops = 0;
    uint64_t hardData = 0; // failed open for writing, write, fsync, close or full device
    uint64_t hardRead = 0; // failed open for reading, read
    uint64_t hardProbe = 0; // failed seek, size query
    uint64_t soft = 0;
    bool shrunk = false;
    size_t openCount = 0;

    uint64_t used() const;
    void reset(); // new run
    void arm(); // start counting for one operation
    void heal(); // no faults from now on
    bool anyHard() const
    {
        return hardData + hardRead + hardProbe != 0;
    }
};
extern Disk g_disk;

} // namespace sim
