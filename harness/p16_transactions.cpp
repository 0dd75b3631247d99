// P16: transactions through the connection are all-or-nothing, across faults, crashes and the end of the connection.
#include "simsql.hpp"

#include <zserio/SqliteConnection.h>

#include <algorithm>
#include <functional>
#include <memory>
#include <string>
#include <vector>

using sim::Ctx;
using simsql::g_device;
using simsql::g_memory;
using zserio::SqliteConnection;

namespace
{

struct Cell
{
    int64_t v = 0;
    size_t pad = 0;
    bool operator==(const Cell& o) const
    {
        return v == o.v && pad == o.pad;
    }
};
using Rows = std::map<int64_t, Cell>;
struct Contents // of the two databases together
{
    Rows main;
    Rows other;
    bool operator==(const Contents& o) const
    {
        return main == o.main && other == o.other;
    }
};

std::string show(const Contents& c)
{
    std::string r;
    for (const Rows* rows : {&c.main, &c.other})
    {
        r += r.empty() ? "{" : " {";
        for (const auto& [k, cell] : *rows)
        {
            r += std::to_string(k) + ":" + std::to_string(cell.v) + "/" + std::to_string(cell.pad) + " ";
        }
        r += "}";
    }
    return r;
}

enum Outcome
{
    DONE,
    ERROR,
    DOWN // power is gone
};
const char* const OUTCOMES[] = {"done", "error", "down"};

class World
{
public:
    explicit World(Ctx& ctx) :
            m_ctx(ctx)
    {}
    ~World()
    {
        g_memory.plan.clear();
        g_device.disarm();
        peerOff();
        drop();
    }
    void go()
    {
        const uint64_t blocks = g_memory.liveBlocks;
        g_device.sectorSize = m_ctx.flip(1, 2) ? 512 : 4096;
        static const char* const JOURNALS[] = {"DELETE", "TRUNCATE", "PERSIST", "WAL"};
        m_journal = JOURNALS[m_ctx.choose(4)];
        m_wal = m_journal[0] == 'W';
        m_pageSize = m_ctx.flip(1, 2) ? 512 : 1024;
        m_cache = m_ctx.flip(1, 2) ? 4 : 100;
        m_two = !m_wal && m_ctx.flip(1, 2);
        m_ctx.log("journal %s, page %d, cache %d%s", m_journal, m_pageSize, m_cache, m_two ? ", two databases" : "");
        m_external = m_ctx.flip(1, 4);
        connect();
        size_t n = 0;
        while (n < 50 && (n < 4 || m_ctx.more(19, 20)))
        {
            ++n;
            step();
        }
        peerOff();
        drop();
        connect();
        check("after the end");
        drop();
        if (g_memory.liveBlocks != blocks || g_device.openFiles() != 0)
        {
            m_ctx.fail("leak", "%lld blocks of the engine, %zu files", static_cast<long long>(g_memory.liveBlocks - blocks),
                    g_device.openFiles());
        }
    }

private:
    void raw(sqlite3* db, const std::string& sql)
    {
        if (sqlite3_exec(db, sql.c_str(), nullptr, nullptr, nullptr) != SQLITE_OK)
        {
            m_ctx.fail("harness", "%s: %s", sql.c_str(), sqlite3_errmsg(db));
        }
    }
    sqlite3* openRaw()
    {
        sqlite3* db = nullptr;
        if (sqlite3_open_v2("/main.db", &db, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE, nullptr) != SQLITE_OK)
        {
            m_ctx.fail("harness", "open: %s", sqlite3_errmsg(db));
        }
        if (m_wal)
        {
            raw(db, "PRAGMA locking_mode=EXCLUSIVE");
        }
        raw(db, "PRAGMA synchronous=EXTRA"); // so that what was acknowledged has to be there
        raw(db, "PRAGMA page_size=" + std::to_string(m_pageSize));
        raw(db, "PRAGMA cache_size=" + std::to_string(m_cache));
        raw(db, std::string("PRAGMA journal_mode=") + m_journal);
        if (m_two)
        {
            raw(db, "ATTACH '/other.db' AS other");
            raw(db, "PRAGMA other.synchronous=EXTRA");
            raw(db, "PRAGMA other.page_size=" + std::to_string(m_pageSize));
            raw(db, std::string("PRAGMA other.journal_mode=") + m_journal);
        }
        return db;
    }
    void connect()
    {
        m_raw = openRaw();
        raw(m_raw, "CREATE TABLE IF NOT EXISTS t(k INTEGER PRIMARY KEY, v INTEGER, pad BLOB)");
        if (m_two)
        {
            raw(m_raw, "CREATE TABLE IF NOT EXISTS other.o(k INTEGER PRIMARY KEY, v INTEGER, pad BLOB)");
        }
        m_connection = std::make_unique<SqliteConnection>(
                m_raw, m_external ? SqliteConnection::EXTERNAL_CONNECTION : SqliteConnection::INTERNAL_CONNECTION);
        m_open = false;
        m_tokens.clear();
    }
    // the connection goes away, by destruction or reset
    void drop()
    {
        if (!m_connection)
        {
            return;
        }
        if (m_ctx.violated)
        {
            m_connection.reset();
        }
        else if (m_ctx.flip(1, 2))
        {
            m_connection->reset();
            m_connection.reset();
        }
        else
        {
            m_connection.reset();
        }
        if (m_external)
        {
            if (!g_device.dead && !m_ctx.violated && (sqlite3_get_autocommit(m_raw) == 0) != m_open)
            {
                m_ctx.flag("external-connection", "the transaction of its owner was %s", m_open ? "ended" : "opened");
            }
            sqlite3_close_v2(m_raw);
        }
        m_raw = nullptr;
        m_open = false;
        m_tokens.clear();
    }

    // ---- what is there ----
    bool readRows(sqlite3* db, const char* table, Rows& rows)
    {
        sqlite3_stmt* s = nullptr;
        const std::string sql = std::string("SELECT k, v, pad FROM ") + table;
        if (sqlite3_prepare_v2(db, sql.c_str(), -1, &s, nullptr) != SQLITE_OK)
        {
            return false;
        }
        int result = SQLITE_OK;
        while ((result = sqlite3_step(s)) == SQLITE_ROW)
        {
            const Cell c{sqlite3_column_int64(s, 1), static_cast<size_t>(sqlite3_column_bytes(s, 2))};
            const uint8_t* pad = static_cast<const uint8_t*>(sqlite3_column_blob(s, 2));
            for (size_t i = 0; i < c.pad; ++i)
            {
                if (pad[i] != static_cast<uint8_t>(c.v))
                {
                    m_ctx.log("mixed row"); // parts of two values
                    rows[-1000].v += 1;
                }
            }
            rows[sqlite3_column_int64(s, 0)] = c;
        }
        sqlite3_finalize(s);
        return result == SQLITE_DONE;
    }
    bool readAll(sqlite3* db, Contents& c)
    {
        return readRows(db, "main.t", c.main) && (!m_two || readRows(db, "other.o", c.other));
    }
    const Contents& current() const
    {
        return m_open ? m_inside : m_committed;
    }
    void check(const char* when)
    {
        Contents c;
        if (!readAll(m_raw, c))
        {
            m_ctx.fail("unreadable", "%s: %s", when, sqlite3_errmsg(m_raw));
        }
        if (!m_open && !(c == m_committed) && std::find(m_maybe.begin(), m_maybe.end(), c) != m_maybe.end())
        {
            m_maybe.push_back(m_committed);
            m_committed = c;
            SIM_COUNT("probe.in-doubt-done");
        }
        if (!(c == current()))
        {
            const bool part = !m_open && !(c == Contents()) && m_hadTransaction;
            m_ctx.fail(part ? "not-all-or-nothing" : "wrong-contents", "%s: %s instead of %s", when, show(c).c_str(),
                    show(current()).c_str());
        }
        SIM_COUNT("check.contents");
    }

    // ---- one operation, with a fault ----
    Outcome attempt(const char* op, const std::function<void()>& fn)
    {
        std::string what;
        Outcome outcome = DONE;
        switch (m_ctx.pick({6, 2, 2, 3}))
        {
        case 1:
            g_memory.plan.set(m_ctx.choose(m_ctx.flip(1, 2) ? 12 : 60), m_ctx.flip(1, 2) ? 1 : UINT64_MAX);
            break;
        case 2:
            g_device.arm(m_ctx.choose(m_ctx.flip(1, 2) ? 6 : 40), m_ctx.flip(1, 2) ? 1 : UINT64_MAX, m_ctx.flip(1, 2),
                    false);
            break;
        case 3:
            g_device.arm(m_ctx.choose(m_ctx.flip(1, 2) ? 8 : 50), 1, false, true);
            break;
        default:
            break;
        }
        try
        {
            fn();
        }
        catch (const zserio::SqliteException& e)
        {
            outcome = ERROR;
            what = e.what();
        }
        m_memoryFired = g_memory.plan.fired != 0;
        m_deviceFired = g_device.fault.fired != 0;
        g_memory.plan.clear();
        g_device.disarm();
        if (m_memoryFired || m_deviceFired)
        {
            m_ctx.nontrivial = true;
        }
        if (outcome == ERROR && g_device.dead)
        {
            outcome = DOWN;
        }
        m_ctx.step();
        m_ctx.log("%s: %s%s%s", op, OUTCOMES[outcome], what.empty() ? "" : ": ", what.c_str());
        m_ctx.shape(std::hash<std::string_view>()(op) * 64 + static_cast<uint64_t>(outcome) * 8 + m_open * 4 +
                m_memoryFired * 2 + m_deviceFired);
        m_ctx.state(std::hash<std::string_view>()(op) * 64 + static_cast<uint64_t>(outcome) * 16 + m_open * 8 +
                (m_peer != nullptr) * 4 + m_memoryFired * 2 + m_deviceFired);
        return outcome;
    }
    // after an operation which did not succeed: the engine may have given up the transaction
    void afterError(bool ending, bool changing, const Contents& now)
    {
        const bool open = sqlite3_get_autocommit(m_raw) == 0;
        if (m_open && !open)
        {
            m_open = false;
            m_ctx.log("the engine gave up the transaction");
            SIM_COUNT("probe.transaction-given-up");
            if (ending && m_deviceFired)
            {
                m_maybe.push_back(m_inside);
            }
        }
        else if (!m_open && open)
        {
            m_ctx.fail("transaction", "is open after a failure although it was not before");
        }
        else if (!m_open && changing && m_deviceFired)
        {
            m_maybe.push_back(now);
        }
    }
    void finish(const char* when, Outcome o)
    {
        if (g_device.dead)
        {
            crash();
            return;
        }
        if (o == DONE && (sqlite3_get_autocommit(m_raw) == 0) != m_open)
        {
            m_ctx.fail("transaction", "%s: the transaction is %s", when, m_open ? "not open" : "open");
        }
        check(when);
    }
    // what was not acknowledged when the power went: either
    void downWhile(bool ending, bool changing, const Contents& now)
    {
        if ((m_open && ending) || (!m_open && changing))
        {
            m_maybe.push_back(now);
        }
    }
    // ended for sure; if nothing was changed, the device may not have been asked at all
    void certain(const Contents& now)
    {
        for (Contents& c : m_maybe)
        {
            if (!(now.main == m_committed.main))
            {
                c.main = now.main;
            }
            if (!(now.other == m_committed.other))
            {
                c.other = now.other;
            }
        }
        m_maybe.erase(std::remove(m_maybe.begin(), m_maybe.end(), now), m_maybe.end());
    }
    void crash()
    {
        m_ctx.log("power is gone%s", m_open ? " in a transaction" : "");
        peerOff();
        drop();
        g_device.restart(m_ctx);
        m_hadTransaction = true;
        connect();
        check("after the crash");
        if (m_wal)
        {
            // The frames of an update which failed on the device stay in the log behind the end of what is valid until
            // they are overwritten, and a later write which fails can make them valid again (replay P16-84183).
            m_maybe.erase(std::remove(m_maybe.begin(), m_maybe.end(), m_committed), m_maybe.end());
        }
        else
        {
            m_maybe.clear();
        }
        SIM_COUNT("op.crash-and-restart");
        m_ctx.nontrivial = true;
    }

    // ---- operations ----
    void step()
    {
        switch (m_ctx.pick({5, 5, 12, 2, 2, 2, 3, 2, 2}))
        {
        case 0:
            start();
            break;
        case 1:
            end();
            break;
        case 2:
            update();
            break;
        case 3:
            rollback();
            break;
        case 4:
            peer();
            break;
        case 5:
            leave();
            break;
        case 6:
            peerReads();
            break;
        case 7:
            powerCut();
            break;
        default:
            foreignStart();
            break;
        }
    }
    void start()
    {
        bool started = false;
        const bool was = m_open;
        const Outcome o = attempt("start", [&] {
            started = m_connection->startTransaction();
        });
        if (o == DONE)
        {
            if (started == was)
            {
                m_ctx.fail("transaction", "startTransaction() returns %s", started ? "true although one is open" : "false");
            }
            m_tokens.push_back(started);
            if (started)
            {
                m_open = true;
                m_hadTransaction = true;
                m_inside = m_committed;
            }
        }
        else
        {
            if (o == ERROR && (was || !(m_memoryFired || m_deviceFired)))
            {
                m_ctx.fail("rejected", "startTransaction()%s", was ? " inside of a transaction" : "");
            }
            if (o == ERROR)
            {
                afterError(false, false, m_committed);
            }
        }
        finish("after a start", o);
        SIM_COUNT("op.start");
    }
    void end()
    {
        const bool token = m_tokens.empty() ? m_ctx.flip(1, 2) : m_tokens.back();
        const bool was = m_open;
        const Contents now = m_inside;
        const Outcome o = attempt(token ? "end (started)" : "end (not started)", [&] {
            m_connection->endTransaction(token);
        });
        if (o == DONE)
        {
            if (token && !was)
            {
                m_ctx.fail("accepted", "endTransaction(true) without a transaction");
            }
            if (token)
            {
                certain(now);
                m_committed = now;
                m_open = false;
                SIM_COUNT("op.commit");
            }
            if (!m_tokens.empty())
            {
                m_tokens.pop_back();
            }
        }
        else if (o == ERROR)
        {
            if (!token || (was && !m_memoryFired && !m_deviceFired && m_peer == nullptr))
            {
                m_ctx.fail("rejected", "endTransaction(%s)", token ? "true" : "false");
            }
            if (!was && !m_tokens.empty())
            {
                m_tokens.pop_back(); // ended by something else before
            }
            afterError(token, false, now);
        }
        else
        {
            downWhile(token, false, now);
        }
        finish("after an end", o);
    }
    void change(Contents& c, std::string& sql)
    {
        const bool other = m_two && m_ctx.flip(1, 2);
        Rows& rows = other ? c.other : c.main;
        const std::string table = other ? "other.o" : "main.t";
        const int64_t k = m_ctx.range(0, 9);
        const int64_t v = m_ctx.range(0, 255);
        const size_t pad = m_ctx.flip(1, 4) ? m_ctx.choose(3000) : m_ctx.choose(40);
        switch (m_ctx.choose(4))
        {
        case 0:
        case 1:
            sql = "REPLACE INTO " + table + " VALUES(" + std::to_string(k) + "," + std::to_string(v) + "," +
                    bytes(pad, v) + ")";
            rows[k] = Cell{v, pad};
            break;
        case 2:
            sql = "UPDATE " + table + " SET v = " + std::to_string(v) + ", pad = " + bytes(pad, v) + " WHERE k >= " +
                    std::to_string(k);
            for (auto& [key, cell] : rows)
            {
                if (key >= k)
                {
                    cell = Cell{v, pad};
                }
            }
            break;
        default:
            sql = "DELETE FROM " + table + " WHERE k < " + std::to_string(k);
            rows.erase(rows.begin(), rows.lower_bound(k));
            break;
        }
    }
    static std::string hex(int64_t v)
    {
        static const char D[] = "0123456789abcdef";
        return {D[v >> 4], D[v & 15]};
    }
    static std::string bytes(size_t n, int64_t v)
    {
        std::string s = "x'";
        for (size_t i = 0; i < n; ++i)
        {
            s += hex(v);
        }
        return s + "'";
    }
    void update()
    {
        Contents now = current();
        std::string sql;
        change(now, sql);
        const Outcome o = attempt(m_open ? "update inside" : "update", [&] {
            m_connection->executeUpdate(sql);
        });
        m_ctx.log("  %.60s", sql.c_str());
        if (o == DONE)
        {
            if (!m_open)
            {
                certain(now);
            }
            (m_open ? m_inside : m_committed) = now;
        }
        else if (o == ERROR)
        {
            if (!m_memoryFired && !m_deviceFired && m_peer == nullptr)
            {
                m_ctx.fail("rejected", "update");
            }
            afterError(false, true, now);
        }
        else
        {
            downWhile(false, true, now);
        }
        finish("after an update", o);
        SIM_COUNT("op.update");
    }
    void rollback()
    {
        if (!m_open)
        {
            return;
        }
        const Outcome o = attempt("rollback", [&] {
            m_connection->executeUpdate("ROLLBACK");
        });
        if (o == DONE)
        {
            m_open = false;
        }
        else if (o == ERROR)
        {
            afterError(false, false, m_committed);
        }
        finish("after a rollback", o);
        SIM_COUNT("op.rollback");
    }
    // the user starts one without the library's help
    void foreignStart()
    {
        if (m_open)
        {
            return;
        }
        const bool savepoint = m_ctx.flip(1, 3);
        const Outcome o = attempt("foreign start", [&] {
            m_connection->executeUpdate(savepoint ? "SAVEPOINT s" : "BEGIN");
        });
        if (o == DONE)
        {
            m_open = true;
            m_hadTransaction = true;
            m_inside = m_committed;
            m_tokens.push_back(true);
        }
        else if (o == ERROR)
        {
            afterError(false, false, m_committed);
        }
        finish("after a foreign start", o);
    }
    void leave()
    {
        if (m_external && m_open)
        {
            drop(); // checks that the transaction is still there; its owner gives it up
        }
        else
        {
            drop();
        }
        m_ctx.log("the connection goes away");
        m_external = m_ctx.flip(1, 4);
        m_ctx.check();
        peerOff();
        connect();
        check("after the connection went away");
        SIM_COUNT("op.leave");
    }
    void powerCut()
    {
        g_device.powerOff();
        crash();
    }
    void peer()
    {
        if (m_wal)
        {
            return;
        }
        if (m_peer != nullptr)
        {
            peerOff();
            return;
        }
        m_peer = openPeer();
        const bool write = m_ctx.flip(1, 3);
        const int result = sqlite3_exec(m_peer, write ? "BEGIN IMMEDIATE" : "BEGIN; SELECT count(*) FROM t", nullptr, nullptr,
                nullptr);
        m_ctx.log("another user %s: %s", write ? "wants to write" : "reads", sqlite3_errstr(result));
        SIM_COUNT("fault.peer-lock");
    }
    sqlite3* openPeer()
    {
        sqlite3* db = nullptr;
        if (sqlite3_open_v2("/main.db", &db, SQLITE_OPEN_READWRITE, nullptr) != SQLITE_OK)
        {
            m_ctx.fail("harness", "open: %s", sqlite3_errmsg(db));
        }
        return db;
    }
    void peerOff()
    {
        if (m_peer != nullptr)
        {
            sqlite3_close_v2(m_peer);
            m_peer = nullptr;
        }
    }
    // another connection never sees anything of an open transaction
    void peerReads()
    {
        if (m_wal)
        {
            return;
        }
        sqlite3* db = openPeer();
        Rows rows;
        const bool ok = readRows(db, "main.t", rows);
        sqlite3_close_v2(db);
        if (ok && !(rows == m_committed.main))
        {
            Contents c;
            c.main = rows;
            m_ctx.fail("not-isolated", "another user sees %s instead of %s", show(c).c_str(), show(m_committed).c_str());
        }
        if (!ok && !m_open)
        {
            m_ctx.fail("locked", "another user cannot read although no transaction is open");
        }
        m_ctx.log("another user looks: %s", ok ? "committed state" : "locked");
        SIM_COUNT("check.isolation");
    }

    Ctx& m_ctx;
    std::unique_ptr<SqliteConnection> m_connection;
    sqlite3* m_raw = nullptr;
    sqlite3* m_peer = nullptr;
    bool m_external = false;
    const char* m_journal = "";
    bool m_wal = false;
    bool m_two = false;
    int m_pageSize = 0;
    int m_cache = 0;
    Contents m_committed;
    Contents m_inside; // of the open transaction
    bool m_open = false;
    bool m_hadTransaction = false;
    std::vector<bool> m_tokens;
    // Left by ends (or updates outside of a transaction) on which the device failed: whether they happened is not known
    // before something else was ended for sure (nor, with the write-ahead log, after a crash).
    std::vector<Contents> m_maybe;
    bool m_memoryFired = false;
    bool m_deviceFired = false;
};

void run(Ctx& ctx)
{
    simsql::beginRun(1);
    World w(ctx);
    w.go();
}

const std::vector<sim::Scenario> SCENARIOS = {{"transactions", 1, run}};

} // namespace

namespace sim
{
const char* const PROPERTY = "P16";
const std::vector<Scenario>& scenarios()
{
    return SCENARIOS;
}
void warmup()
{
    simsql::install();
}
} // namespace sim
