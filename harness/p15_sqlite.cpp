// P15: database access reports every fault and loses or leaks nothing.
#include "sqltypes.hpp"

#include <zserio/ValidationSqliteUtil.h>

#include <set>

using namespace sqltypes;
using sim::Ctx;
using sim::g_heap;
using simsql::g_device;
using simsql::g_memory;
using zserio::SqliteConnection;

namespace
{

using Validation = zserio::ValidationSqliteUtil<Alloc>;

enum Outcome
{
    DONE,
    ERROR, // SqliteException
    REFUSED, // another error of the library: the value or the data is wrong
    NO_MEMORY // std::bad_alloc
};
const char* const OUTCOMES[] = {"done", "error", "refused", "no memory"};

struct Attempt
{
    Outcome outcome = DONE;
    bool fired = false; // a fault struck
    bool heapFired = false; // ... in memory outside of the engine
    bool deviceFired = false;
    std::string what;
};

enum FaultKind
{
    NONE,
    ENGINE_MEMORY,
    DEVICE,
    HEAP
};

struct Column
{
    std::string name;
    size_t kind = 0;
    bool notNull = false;
};
using Row = std::vector<std::shared_ptr<Value>>;
using Rows = std::map<int64_t, Row>;
struct Table
{
    std::string db; // "" for the main one
    std::string name;
    std::vector<Column> columns; // after the key "id"
    Rows rows;
    bool withoutRowId = false;
    std::string full() const
    {
        return db.empty() ? name : db + "." + name;
    }
};


class World
{
public:
    explicit World(Ctx& ctx) :
            m_ctx(ctx)
    {}
    ~World()
    {
        g_memory.plan.clear();
        g_heap.plan.clear();
        g_device.disarm();
        m_held.reset();
        m_connection.reset();
        peerOff();
        if (m_raw != nullptr && m_external)
        {
            sqlite3_close_v2(m_raw);
        }
    }

    void go()
    {
        const uint64_t engineBlocks = g_memory.liveBlocks;
        const uint64_t heapBlocks = g_heap.liveBlocks;
        g_device.sectorSize = m_ctx.flip(1, 2) ? 512 : 4096;
        open();
        const size_t n = 1 + m_ctx.choose(2);
        for (size_t i = 0; i < n; ++i)
        {
            createTable(false);
        }
        size_t steps = 0;
        while (steps < 40 && (steps < 3 || m_ctx.more(9, 10)))
        {
            ++steps;
            step();
        }
        compareAll("at the end");
        m_tables.clear();
        m_held.reset();
        peerOff();
        m_connection->reset(); // gives up the connection
        if (m_external)
        {
            if (sqlite3_close(m_raw) != SQLITE_OK)
            {
                m_ctx.fail("external-connection", "cannot be closed by its owner");
            }
        }
        m_raw = nullptr;
        m_connection.reset();
        if (g_memory.liveBlocks != engineBlocks || g_device.openFiles() != 0)
        {
            m_ctx.fail("leak", "%lld blocks of the engine and %zu files are not given back",
                    static_cast<long long>(g_memory.liveBlocks - engineBlocks), g_device.openFiles());
        }
        if (g_heap.liveBlocks != heapBlocks)
        {
            m_ctx.fail("leak", "%lld blocks are not given back", static_cast<long long>(g_heap.liveBlocks - heapBlocks));
        }
    }

private:
    static sqlite3* openRaw(Ctx& ctx)
    {
        sqlite3* db = nullptr;
        if (sqlite3_open_v2("/main.db", &db, SQLITE_OPEN_READWRITE | SQLITE_OPEN_CREATE, nullptr) != SQLITE_OK)
        {
            ctx.fail("harness", "open: %s", sqlite3_errmsg(db));
        }
        return db;
    }
    void raw(sqlite3* db, const std::string& sql)
    {
        if (sqlite3_exec(db, sql.c_str(), nullptr, nullptr, nullptr) != SQLITE_OK)
        {
            m_ctx.fail("harness", "%s: %s", sql.c_str(), sqlite3_errmsg(db));
        }
    }
    void setUp(sqlite3* db)
    {
        if (m_noLookaside && sqlite3_db_config(db, SQLITE_DBCONFIG_LOOKASIDE, nullptr, 0, 0) != SQLITE_OK)
        {
            m_ctx.fail("harness", "lookaside");
        }
        raw(db, "PRAGMA journal_mode=" + std::string(m_journal));
        raw(db, "PRAGMA cache_size=" + std::to_string(m_cache));
        if (m_attached)
        {
            raw(db, "ATTACH '/other.db' AS " + m_other);
            raw(db, "PRAGMA " + m_other + ".journal_mode=" + std::string(m_journal));
        }
    }
    void open()
    {
        static const char* const JOURNALS[] = {"DELETE", "TRUNCATE", "PERSIST"};
        m_journal = JOURNALS[m_ctx.choose(3)];
        m_cache = m_ctx.flip(1, 3) ? 2 : 50;
        m_utf16 = m_ctx.flip(1, 3);
        m_attached = m_ctx.flip(1, 3);
        m_external = m_ctx.flip(1, 3);
        m_noLookaside = m_ctx.flip(1, 2); // then every small block of the engine can fail too
        static const char* const OTHERS[] = {"other", "o", "db2", "attached_database_of_the_user"};
        m_other = OTHERS[m_ctx.choose(4)];
        m_raw = openRaw(m_ctx);
        raw(m_raw, m_utf16 ? "PRAGMA encoding='UTF-16le'" : "PRAGMA encoding='UTF-8'");
        raw(m_raw, "PRAGMA page_size=" + std::to_string(m_ctx.flip(1, 2) ? 512 : 1024));
        raw(m_raw, "CREATE TABLE fixed(a INTEGER PRIMARY KEY, b TEXT NOT NULL, c REAL)");
        raw(m_raw, "CREATE TABLE pair(first INTEGER NOT NULL, second TEXT, third BLOB, PRIMARY KEY(third, first))");
        raw(m_raw, "INSERT INTO fixed VALUES(1,'one',1.5),(2,'two',NULL)");
        setUp(m_raw);
        if (m_attached) // a table of the same name as in the main one
        {
            raw(m_raw, "CREATE TABLE " + m_other + ".fixed(z BLOB NOT NULL, a TEXT PRIMARY KEY NOT NULL)");
            raw(m_raw, "INSERT INTO " + m_other + ".fixed VALUES(x'00','x')");
        }
        m_connection = std::make_unique<SqliteConnection>(
                m_raw, m_external ? SqliteConnection::EXTERNAL_CONNECTION : SqliteConnection::INTERNAL_CONNECTION);
        m_ctx.log("journal %s, %s, %s%s", m_journal, m_utf16 ? "UTF-16" : "UTF-8", m_external ? "external" : "internal",
                m_attached ? ", attached database" : "");
    }

    // ---- one operation of the library, with a fault ----
    Attempt attempt(const char* op, FaultKind kind, const std::function<void()>& fn)
    {
        Attempt a;
        switch (kind)
        {
        case ENGINE_MEMORY:
            g_memory.plan.set(m_ctx.choose(m_ctx.flip(1, 2) ? 12 : m_ctx.flip(1, 2) ? 50 : 250),
                    m_ctx.flip(1, 2) ? 1 : UINT64_MAX);
            break;
        case DEVICE:
            g_device.arm(m_ctx.choose(m_ctx.flip(1, 2) ? 6 : 40), m_ctx.flip(1, 2) ? 1 : UINT64_MAX, m_ctx.flip(1, 2),
                    false);
            break;
        case HEAP:
            g_heap.plan.set(m_ctx.choose(m_ctx.flip(1, 2) ? 3 : 10), m_ctx.flip(1, 2) ? 1 : UINT64_MAX);
            break;
        default:
            break;
        }
        try
        {
            sim::Tracked t;
            fn();
        }
        catch (const zserio::SqliteException& e)
        {
            a.outcome = ERROR;
            a.what = e.what();
        }
        catch (const zserio::CppRuntimeException& e)
        {
            a.outcome = REFUSED;
            a.what = e.what();
        }
        catch (const std::bad_alloc&)
        {
            a.outcome = NO_MEMORY;
        }
        a.heapFired = g_heap.plan.fired != 0;
        a.deviceFired = g_device.fault.fired != 0;
        a.fired = g_memory.plan.fired != 0 || g_device.fault.fired != 0 || a.heapFired;
        g_memory.plan.clear();
        g_heap.plan.clear();
        g_device.disarm();
        if (a.heapFired)
        {
            SIM_COUNT("fault.allocation");
        }
        if (a.fired)
        {
            m_ctx.nontrivial = true;
        }
        m_ctx.step();
        m_ctx.log("%s: %s%s%s%s", op, OUTCOMES[a.outcome], a.what.empty() ? "" : ": ", a.what.c_str(),
                a.fired ? " (fault)" : "");
        m_ctx.shape(std::hash<std::string_view>()(op) * 16 + static_cast<uint64_t>(a.outcome) * 4 +
                (a.fired ? static_cast<uint64_t>(kind) : 0));
        m_ctx.state(std::hash<std::string_view>()(op) * 64 + static_cast<uint64_t>(a.outcome) * 16 +
                static_cast<uint64_t>(kind) * 2 + a.fired);
        if (a.outcome == NO_MEMORY && !a.heapFired)
        {
            m_ctx.fail("wrong-error", "%s: std::bad_alloc for a fault of the engine", op);
        }
        if (a.outcome == ERROR && a.what.size() < 10)
        {
            m_ctx.fail("wrong-error", "%s: no text", op);
        }
        if (sqlite3_next_stmt(m_raw, nullptr) != m_held.get())
        {
            m_ctx.fail("open-statement", "%s leaves a statement open", op);
        }
        return a;
    }
    // errors need a reason
    void verdict(const char* op, const Attempt& a, bool mayFail, bool mustFail)
    {
        if (a.outcome == DONE)
        {
            if (mustFail)
            {
                m_ctx.fail("accepted", "%s must be rejected", op);
            }
        }
        else if (!mayFail && !mustFail && !a.fired)
        {
            m_ctx.fail("rejected", "%s: %s", op, a.what.c_str());
        }
    }
    FaultKind genFault()
    {
        switch (m_ctx.pick({5, 4, 4, 2}))
        {
        case 0:
            return NONE;
        case 1:
            return ENGINE_MEMORY;
        case 2:
            return DEVICE;
        default:
            return HEAP;
        }
    }
    // what a careful user does after a failure: nothing stays half done
    void settle()
    {
        if (sqlite3_get_autocommit(m_raw) == 0)
        {
            const Attempt a = attempt("rollback", NONE, [&] {
                m_connection->executeUpdate("ROLLBACK");
            });
            verdict("rollback", a, false, false);
        }
    }

    // ---- contents ----
    std::string fill(const Table& t, const char* verb) const
    {
        std::string sql = std::string(verb) + " INTO " + t.full() + "(id";
        for (const Column& c : t.columns)
        {
            sql += ", " + c.name;
        }
        sql += ") VALUES (?";
        for (size_t i = 0; i < t.columns.size(); ++i)
        {
            sql += ",?";
        }
        return sql + ");";
    }
    // how the table differs from these rows; empty when it does not
    std::string difference(const Table& t, const Rows& rows, const char*& cls)
    {
        std::string sql = "SELECT id";
        for (const Column& c : t.columns)
        {
            sql += ", " + c.name;
        }
        sql += " FROM " + t.full() + " ORDER BY id";
        sqlite3_stmt* s = nullptr;
        if (sqlite3_prepare_v2(m_raw, sql.c_str(), -1, &s, nullptr) != SQLITE_OK)
        {
            cls = "lost-table";
            return sqlite3_errmsg(m_raw);
        }
        const std::unique_ptr<sqlite3_stmt, zserio::SqliteFinalizer> guard(s);
        auto it = rows.begin();
        int result = SQLITE_OK;
        cls = "wrong-rows";
        while ((result = sqlite3_step(s)) == SQLITE_ROW)
        {
            const int64_t id = sqlite3_column_int64(s, 0);
            if (it == rows.end() || it->first != id)
            {
                return "row " + std::to_string(id) + ", expected " +
                        (it == rows.end() ? std::string("none") : std::to_string(it->first));
            }
            for (size_t i = 0; i < t.columns.size(); ++i)
            {
                if (!typeNamed(sqlite3_column_type(s, static_cast<int>(i) + 1)))
                {
                    cls = "wrong-type-name";
                    return Validation::sqliteColumnTypeName(sqlite3_column_type(s, static_cast<int>(i) + 1));
                }
                if (!it->second[i]->stored(s, static_cast<int>(i) + 1))
                {
                    cls = "wrong-value";
                    return t.columns[i].name + " of row " + std::to_string(id) + " (kind " +
                            std::to_string(t.columns[i].kind) + ") is stored as another " +
                            Validation::sqliteColumnTypeName(sqlite3_column_type(s, static_cast<int>(i) + 1));
                }
            }
            ++it;
        }
        return result != SQLITE_DONE ? sqlite3_errstr(result) : it != rows.end() ? "rows are missing" : "";
    }
    static bool typeNamed(int type)
    {
        static const std::map<int, std::string> NAMES = {{SQLITE_INTEGER, "INTEGER"}, {SQLITE_FLOAT, "REAL"},
                {SQLITE_TEXT, "TEXT"}, {SQLITE_BLOB, "BLOB"}, {SQLITE_NULL, "NULL"}};
        return NAMES.at(type) == Validation::sqliteColumnTypeName(type);
    }
    void compare(const Table& t, const char* when)
    {
        const char* cls = "";
        const std::string d = difference(t, t.rows, cls);
        if (!d.empty())
        {
            m_ctx.fail(cls, "%s %s: %s", t.full().c_str(), when, d.c_str());
        }
    }
    // after a change to the table: all of it or nothing; when the device failed while it was ended, either
    void changed(Table& t, const Attempt& a, bool inDoubt, Rows&& now, const char* when)
    {
        if (a.outcome == DONE)
        {
            t.rows = std::move(now);
        }
        else if (inDoubt && a.deviceFired)
        {
            peerOff();
            const char* cls = "";
            if (!difference(t, t.rows, cls).empty())
            {
                t.rows = std::move(now);
                SIM_COUNT("probe.in-doubt");
            }
        }
        if (!peerBlocks())
        {
            compare(t, when);
        }
    }
    void compareAll(const char* when)
    {
        peerOff();
        m_held.reset();
        settle();
        for (const Table& t : m_tables)
        {
            compare(t, when);
        }
    }

    // ---- operations ----
    void step()
    {
        switch (m_ctx.pick({6, 7, 3, 2, 3, 3, 3, 2, 2, 2, 1, 2}))
        {
        case 0:
            insert();
            break;
        case 1:
            select();
            break;
        case 2:
            change();
            break;
        case 3:
            countRows();
            break;
        case 4:
            schema();
            break;
        case 5:
            columnInTable();
            break;
        case 6:
            malformed();
            break;
        case 7:
            peer();
            break;
        case 8:
            createTable(true);
            break;
        case 9:
            dropTable();
            break;
        case 10:
            swapConnection();
            break;
        default:
            hold();
            break;
        }
    }
    Table* pickTable()
    {
        return m_tables.empty() ? nullptr : &m_tables[m_ctx.choose(m_tables.size())];
    }

    void createTable(bool faults)
    {
        if (m_tables.size() >= 4)
        {
            return;
        }
        Table t;
        t.db = m_attached && m_ctx.flip(1, 2) ? m_other : "";
        t.name = "t" + std::to_string(++m_serial);
        t.withoutRowId = m_ctx.flip(1, 4);
        const size_t n = 1 + m_ctx.choose(4);
        std::string sql = "CREATE TABLE " + t.full() + "(id INTEGER PRIMARY KEY NOT NULL";
        for (size_t i = 0; i < n; ++i)
        {
            Column c;
            c.name = "c" + std::to_string(i);
            c.kind = m_ctx.choose(KINDS);
            c.notNull = m_ctx.flip(1, 6);
            std::string type = genValue(m_ctx, c.kind)->typeName();
            sql += ", " + c.name + " " + type + (c.notNull ? " NOT NULL" : "");
            t.columns.push_back(c);
        }
        sql += t.withoutRowId ? ") WITHOUT ROWID" : ")";
        const Attempt a = attempt("create table", faults ? genFault() : NONE, [&] {
            m_connection->executeUpdate(sql);
        });
        verdict("create table", a, locked(), false);
        settle();
        if (a.deviceFired)
        {
            peerOff();
        }
        if (a.outcome == DONE)
        {
            m_tables.push_back(std::move(t));
            compare(m_tables.back(), "after it was created");
        }
        else if (!peerBlocks())
        {
            sqlite3_stmt* s = nullptr;
            if (sqlite3_prepare_v2(m_raw, ("SELECT * FROM " + t.full()).c_str(), -1, &s, nullptr) == SQLITE_OK)
            {
                sqlite3_finalize(s);
                if (a.deviceFired)
                {
                    m_tables.push_back(std::move(t));
                    compare(m_tables.back(), "after its creation was in doubt");
                    return;
                }
                m_ctx.fail("failed-but-done", "create table %s", t.full().c_str());
            }
        }
        SIM_COUNT("op.create-table");
    }
    void dropTable()
    {
        if (m_tables.size() < 2)
        {
            return;
        }
        const size_t i = m_ctx.choose(m_tables.size());
        const std::string name = m_tables[i].full();
        const Attempt a = attempt("drop table", genFault(), [&] {
            m_connection->executeUpdate("DROP TABLE " + name);
        });
        verdict("drop table", a, locked() || m_held != nullptr, false);
        settle();
        if (a.deviceFired)
        {
            peerOff();
        }
        if (a.outcome == DONE)
        {
            m_tables.erase(m_tables.begin() + static_cast<std::ptrdiff_t>(i));
        }
        else if (!peerBlocks())
        {
            const char* cls = "";
            (void)difference(m_tables[i], {}, cls);
            if (a.deviceFired && std::string_view(cls) == "lost-table")
            {
                m_tables.erase(m_tables.begin() + static_cast<std::ptrdiff_t>(i)); // it was in doubt
                return;
            }
            compare(m_tables[i], "after it was not dropped");
        }
    }

    void insert()
    {
        Table* t = pickTable();
        if (t == nullptr)
        {
            return;
        }
        const bool replace = m_ctx.flip(1, 4);
        const size_t n = 1 + m_ctx.choose(3);
        std::vector<std::pair<int64_t, std::vector<ValuePtr>>> list;
        bool bad = false; // something in it must be refused
        std::set<int64_t> ids;
        for (const auto& r : t->rows)
        {
            ids.insert(r.first);
        }
        for (size_t i = 0; i < n; ++i)
        {
            const int64_t id = m_ctx.range(-3, 12);
            std::vector<ValuePtr> row;
            for (const Column& c : t->columns)
            {
                row.push_back(genValue(m_ctx, c.kind));
                bad = bad || row.back()->refused() || (c.notNull && nullValue(*row.back()));
            }
            bad = bad || (!replace && ids.count(id) != 0);
            ids.insert(id);
            list.emplace_back(id, std::move(row));
        }
        const std::string sql = fill(*t, replace ? "REPLACE" : "INSERT");
        bool started = false;
        bool ending = false;
        bool ended = false;
        const Attempt a = attempt("insert", genFault(), [&] {
            // as generated code does
            started = m_connection->startTransaction();
            std::unique_ptr<sqlite3_stmt, zserio::SqliteFinalizer> statement(m_connection->prepareStatement(sql));
            for (auto& [id, row] : list)
            {
                for (ValuePtr& v : row)
                {
                    v->prepare();
                }
                int result = sqlite3_bind_int64(statement.get(), 1, id);
                for (size_t i = 0; i < row.size() && result == SQLITE_OK; ++i)
                {
                    result = row[i]->bind(*statement, static_cast<int>(i) + 2);
                }
                if (result == SQLITE_OK)
                {
                    result = sqlite3_step(statement.get());
                    result = result == SQLITE_DONE ? SQLITE_OK : result;
                }
                if (result == SQLITE_OK)
                {
                    result = sqlite3_clear_bindings(statement.get());
                }
                if (result == SQLITE_OK)
                {
                    result = sqlite3_reset(statement.get());
                }
                if (result != SQLITE_OK)
                {
                    throw zserio::SqliteException("insert: ") << zserio::SqliteErrorCode(result);
                }
            }
            statement.reset();
            ending = true;
            m_connection->endTransaction(started);
            ended = true;
        });
        verdict("insert", a, locked(), bad);
        if (a.outcome == DONE && (!started || !ended))
        {
            m_ctx.fail("transaction", "a transaction was not started although none was open");
        }
        settle();
        Rows now = t->rows;
        for (auto& [id, row] : list)
        {
            now[id] = Row(std::make_move_iterator(row.begin()), std::make_move_iterator(row.end()));
        }
        changed(*t, a, ending, std::move(now), a.outcome == DONE ? "after an insertion" : "after a failed insertion");
        SIM_COUNT("op.insert");
    }
    static bool nullValue(const Value& v)
    {
        return v.equal(*v.fresh());
    }

    // through a statement, as generated readers do
    void select()
    {
        const Table* t = pickTable();
        if (t == nullptr)
        {
            return;
        }
        std::string sql = "SELECT id";
        for (const Column& c : t->columns)
        {
            sql += ", " + c.name;
        }
        const bool condition = m_ctx.flip(1, 3);
        const int64_t limit = condition ? m_ctx.range(-3, 12) : INT64_MAX;
        sql += " FROM " + t->full();
        if (condition)
        {
            sql += " WHERE id < " + std::to_string(limit);
        }
        sql += " ORDER BY id";
        std::vector<std::pair<int64_t, std::vector<ValuePtr>>> got;
        for (const auto& [id, row] : t->rows) // room for what will be read, so that reading itself needs no more
        {
            std::vector<ValuePtr> fresh;
            for (const auto& v : row)
            {
                fresh.push_back(v->fresh());
            }
            got.emplace_back(0, std::move(fresh));
        }
        size_t n = 0;
        const bool late = m_ctx.flip(1, 3); // the engine gets no memory while a value is taken from it
        const size_t lateRow = late ? m_ctx.choose(5) : 0;
        const size_t lateColumn = late ? m_ctx.choose(t->columns.size()) : 0;
        const size_t lateBlock = late ? m_ctx.choose(3) : 0;
        const uint64_t lateRuns = m_ctx.flip(1, 2) ? 1 : UINT64_MAX;
        const Attempt a = attempt("select", late ? NONE : genFault(), [&] {
            std::unique_ptr<sqlite3_stmt, zserio::SqliteFinalizer> statement(m_connection->prepareStatement(sql));
            int result = SQLITE_OK;
            while ((result = sqlite3_step(statement.get())) == SQLITE_ROW)
            {
                if (n == got.size())
                {
                    m_ctx.fail("wrong-rows", "more rows than there are");
                }
                got[n].first = sqlite3_column_int64(statement.get(), 0);
                for (size_t i = 0; i < got[n].second.size(); ++i)
                {
                    if (late && n == lateRow && i == lateColumn)
                    {
                        g_memory.plan.set(lateBlock, lateRuns);
                    }
                    got[n].second[i]->read(*statement, static_cast<int>(i) + 1);
                }
                ++n;
            }
            if (result != SQLITE_DONE)
            {
                throw zserio::SqliteException("select: ") << zserio::SqliteErrorCode(result);
            }
        });
        verdict("select", a, locked(), false);
        size_t k = 0;
        size_t want = 0;
        for (const auto& [id, row] : t->rows)
        {
            if (id >= limit)
            {
                break;
            }
            ++want;
            if (k >= n)
            {
                continue;
            }
            if (got[k].first != id)
            {
                m_ctx.fail("wrong-rows", "row %lld instead of %lld", static_cast<long long>(got[k].first),
                        static_cast<long long>(id));
            }
            for (size_t i = 0; i < row.size(); ++i)
            {
                if (!got[k].second[i]->equal(*row[i]))
                {
                    m_ctx.fail(a.fired ? "fault-as-value" : "wrong-value",
                            "%s.%s of row %lld (kind %zu) is read as another value", t->full().c_str(),
                            t->columns[i].name.c_str(), static_cast<long long>(id), t->columns[i].kind);
                }
            }
            ++k;
        }
        if (a.outcome == DONE && n != want)
        {
            m_ctx.fail("wrong-rows", "%zu instead of %zu", n, want);
        }
        if (a.outcome == REFUSED)
        {
            m_ctx.fail("wrong-error", "select: %s", a.what.c_str());
        }
        {
            sim::Tracked tracked;
            for (auto& g : got)
            {
                g.second.clear();
            }
        }
        SIM_COUNT("op.select");
    }

    void change()
    {
        Table* t = pickTable();
        if (t == nullptr)
        {
            return;
        }
        const int64_t limit = m_ctx.range(-3, 12);
        const bool remove = m_ctx.flip(1, 2);
        std::string sql = remove ? "DELETE FROM " + t->full() + " WHERE id < " + std::to_string(limit)
                                 : "UPDATE " + t->full() + " SET " + t->columns[0].name + " = NULL WHERE id = " +
                        std::to_string(limit);
        const std::string tail = m_ctx.flip(1, 2) ? "" : " this text is behind the end of the view";
        const std::string text = sql + tail;
        const bool bad = !remove && t->columns[0].notNull && t->rows.count(limit) != 0;
        const Attempt a = attempt("update", genFault(), [&] {
            m_connection->executeUpdate(std::string_view(text.data(), sql.size()));
        });
        verdict("update", a, locked(), bad);
        settle();
        Rows now = t->rows;
        if (remove)
        {
            now.erase(now.begin(), now.lower_bound(limit));
        }
        else if (now.count(limit) != 0)
        {
            now[limit][0] = now[limit][0]->fresh();
        }
        changed(*t, a, true, std::move(now), a.outcome == DONE ? "after an update" : "after a failed update");
        SIM_COUNT("op.update");
    }

    void countRows()
    {
        const Table* t = pickTable();
        const bool absent = t == nullptr || m_ctx.flip(1, 5);
        const bool fixed = !absent && m_ctx.flip(1, 5);
        const std::string db = absent ? "" : fixed && m_attached && m_ctx.flip(1, 2) ? m_other : fixed ? "" : t->db;
        const std::string name = absent ? "absent" : fixed ? "fixed" : t->name;
        const size_t wanted = absent ? 0 : fixed ? (db.empty() ? 2 : 1) : t->rows.size();
        size_t n = 0;
        const Attempt a = attempt("count rows", genFault(), [&] {
            n = Validation::getNumberOfTableRows(*m_connection, db, name, Alloc());
        });
        verdict("count rows", a, locked(), absent);
        if (a.outcome == DONE && n != wanted)
        {
            m_ctx.fail(a.fired ? "fault-as-value" : "wrong-count", "%zu instead of %zu", n, wanted);
        }
        SIM_COUNT("op.count-rows");
    }

    void schema()
    {
        const Table* t = pickTable();
        const bool absent = t == nullptr || m_ctx.flip(1, 6);
        const bool fixed = !absent && m_ctx.flip(1, 4);
        const bool pair = fixed && m_ctx.flip(1, 2); // has a key of two columns
        const bool twin = fixed && !pair && m_attached && m_ctx.flip(1, 2);
        const std::string db = twin ? m_other : absent || fixed ? "" : t->db;
        const std::string name = absent ? "absent" : pair ? "pair" : fixed ? "fixed" : t->name;
        std::unique_ptr<Validation::TableSchema> s;
        {
            sim::Tracked tracked;
            s = std::make_unique<Validation::TableSchema>();
        }
        const Attempt a = attempt("table schema", genFault(), [&] {
            Validation::getTableSchema(*m_connection, db, name, *s, Alloc());
        });
        verdict("table schema", a, locked(), false);
        std::map<std::string, std::string> want;
        if (pair)
        {
            want = {{"first", "INTEGER/1/1"}, {"second", "TEXT/0/0"}, {"third", "BLOB/0/1"}};
        }
        else if (twin)
        {
            want = {{"z", "BLOB/1/0"}, {"a", "TEXT/1/1"}};
        }
        else if (fixed)
        {
            want = {{"a", "INTEGER/0/1"}, {"b", "TEXT/1/0"}, {"c", "REAL/0/0"}};
        }
        else if (!absent)
        {
            want["id"] = "INTEGER/1/1";
            for (const Column& c : t->columns)
            {
                want[c.name] = std::string(genValueType(c.kind)) + (c.notNull ? "/1/0" : "/0/0");
            }
        }
        std::map<std::string, std::string> got;
        for (const auto& [column, d] : *s)
        {
            got[std::string(column.data(), column.size())] = std::string(d.type.data(), d.type.size()) +
                    (d.isNotNull ? "/1" : "/0") + (d.isPrimaryKey ? "/1" : "/0");
            if (d.name != column)
            {
                m_ctx.fail("wrong-schema", "column '%s' is called '%s'", column.c_str(), d.name.c_str());
            }
        }
        for (const auto& [column, d] : got)
        {
            if (want.count(column) == 0 || want[column] != d)
            {
                m_ctx.fail(a.fired ? "fault-as-value" : "wrong-schema", "%s of %s: %s", column.c_str(), name.c_str(),
                        d.c_str());
            }
        }
        if (a.outcome == DONE && got.size() != want.size())
        {
            m_ctx.fail(a.fired ? "fault-as-value" : "wrong-schema", "%zu columns instead of %zu", got.size(), want.size());
        }
        {
            sim::Tracked tracked;
            s.reset();
        }
        SIM_COUNT("op.schema");
    }
    const char* genValueType(size_t kind)
    {
        static const std::vector<std::string> all = [] {
            std::vector<std::string> r;
            for (size_t i = 0; i < KINDS; ++i)
            {
                r.emplace_back(integerKind(i) ? "INTEGER" : i < 13 ? "REAL" : i == 16 ? "TEXT" : "BLOB");
            }
            return r;
        }();
        return all[kind].c_str();
    }

    void columnInTable()
    {
        const Table* t = pickTable();
        if (t == nullptr)
        {
            return;
        }
        const size_t what = m_ctx.choose(6);
        std::string db = t->db;
        std::string name = t->name;
        std::string column = t->columns[m_ctx.choose(t->columns.size())].name;
        bool want = true;
        switch (what)
        {
        case 0:
            break;
        case 1:
            column = "id";
            break;
        case 2:
            column = t->withoutRowId ? "nocolumn" : "rowid"; // hidden
            want = !t->withoutRowId;
            break;
        case 4: // of one of two tables of the same name
            db = m_attached && m_ctx.flip(1, 2) ? m_other : "";
            name = "fixed";
            column = m_ctx.flip(1, 2) ? "z" : m_ctx.flip(1, 2) ? "b" : "a";
            want = column == "a" || (column == "b") == db.empty();
            break;
        case 3:
            column += "x";
            want = false;
            break;
        default:
            if (m_ctx.flip(1, 2))
            {
                name = "absent";
            }
            else
            {
                db = "nowhere";
            }
            want = false;
            break;
        }
        bool found = false;
        const Attempt a = attempt("column in table", genFault(), [&] {
            found = Validation::isColumnInTable(*m_connection, db, name, column, Alloc());
        });
        verdict("column in table", a, locked(), false);
        if (a.outcome == DONE && found != want && !(locked() && !found && false))
        {
            m_ctx.fail(a.fired || locked() ? "fault-as-absence" : "wrong-presence", "column %s of %s.%s: %s", column.c_str(),
                    db.c_str(), name.c_str(), found ? "found" : "not found");
        }
        SIM_COUNT("op.column-in-table");
    }

    void malformed()
    {
        static const char* const BAD[] = {"SELEC 1", "INSERT INTO absent VALUES(1)", "SELECT a FROM fixed", "",
                "-- nothing", "INSERT INTO fixed(a, b) VALUES(1, 'x')", "INSERT INTO fixed(a) VALUES(7)", "COMMIT",
                "ROLLBACK", "SELECT 'open", "UPDATE fixed SET nocolumn = 1", "DROP TABLE absent",
                "PRAGMA table_info(fixed)"};
        const std::string sql = BAD[m_ctx.choose(sizeof(BAD) / sizeof(BAD[0]))];
        const Attempt a = attempt(("malformed " + sql).c_str(), genFault(), [&] {
            m_connection->executeUpdate(sql);
        });
        verdict("malformed", a, true, true);
        settle();
        SIM_COUNT("fault.malformed-statement");
        m_ctx.nontrivial = true;
    }

    // another user of the same database holds a lock
    bool peerBlocks() const // even reading
    {
        return m_peer != nullptr && m_peerLock == 2;
    }
    bool locked() const
    {
        return m_peer != nullptr && m_peerLock != 0;
    }
    void peer()
    {
        if (m_peer != nullptr)
        {
            peerOff();
            m_ctx.log("the other user leaves");
            return;
        }
        m_held.reset();
        m_peer = openRaw(m_ctx);
        m_peerLock = static_cast<int>(m_ctx.choose(3));
        m_ctx.log("another user takes a lock: %d", m_peerLock);
        static const char* const BEGIN[] = {"BEGIN; SELECT count(*) FROM fixed", "BEGIN IMMEDIATE", "BEGIN EXCLUSIVE"};
        raw(m_peer, BEGIN[m_peerLock]);
        if (m_peerLock == 0)
        {
            m_peerLock = 1; // a reader stops writers at their end
        }
    }
    void peerOff()
    {
        if (m_peer != nullptr)
        {
            sqlite3_close_v2(m_peer);
            m_peer = nullptr;
            m_peerLock = 0;
        }
    }

    // the connection object gets another connection
    void swapConnection()
    {
        const bool toExternal = m_ctx.flip(1, 2);
        const bool wasExternal = m_external;
        const bool oldHolds = m_held != nullptr;
        sqlite3* old = m_raw;
        peerOff();
        if (m_connection->getConnection() != old ||
                m_connection->getConnectionType() !=
                        (wasExternal ? SqliteConnection::EXTERNAL_CONNECTION : SqliteConnection::INTERNAL_CONNECTION))
        {
            m_ctx.fail("connection", "another connection than the one that was set");
        }
        sqlite3* fresh = openRaw(m_ctx);
        setUp(fresh);
        const size_t filesBefore = g_device.openFiles();
        const SqliteConnection::ConnectionType type =
                toExternal ? SqliteConnection::EXTERNAL_CONNECTION : SqliteConnection::INTERNAL_CONNECTION;
        if (m_ctx.flip(1, 2))
        {
            m_connection->reset(fresh, type);
        }
        else
        {
            m_connection = std::make_unique<SqliteConnection>(fresh, type); // the old one is destroyed
        }
        if (wasExternal)
        {
            sqlite3_stmt* s = nullptr;
            if (g_device.openFiles() != filesBefore || sqlite3_prepare_v2(old, "SELECT 1", -1, &s, nullptr) != SQLITE_OK ||
                    sqlite3_step(s) != SQLITE_ROW || sqlite3_finalize(s) != SQLITE_OK)
            {
                m_ctx.fail("external-connection", "was closed");
            }
            m_held.reset();
            if (sqlite3_close(old) != SQLITE_OK)
            {
                m_ctx.fail("external-connection", "cannot be closed by its owner");
            }
        }
        else if (oldHolds)
        {
            m_held.reset(); // the statement outlives its connection; its end releases it
        }
        if (g_device.openFiles() >= filesBefore)
        {
            m_ctx.fail("leak", "the old connection keeps its files open");
        }
        m_raw = fresh;
        m_external = toExternal;
        m_ctx.log("the connection object gets another %s connection", toExternal ? "external" : "internal");
        SIM_COUNT("op.swap-connection");
    }
    // a statement of the user stays open
    void hold()
    {
        if (m_held)
        {
            m_held.reset();
            m_ctx.log("closes the statement");
            return;
        }
        peerOff();
        const Attempt a = attempt("prepare", genFault(), [&] {
            m_held.reset(m_connection->prepareStatement("SELECT a FROM fixed ORDER BY a"));
        });
        verdict("prepare", a, false, false);
        if (a.outcome == DONE && m_held == nullptr)
        {
            m_ctx.fail("fault-as-value", "no statement and no error");
        }
        if (m_held)
        {
            m_ctx.log("keeps a statement open");
        }
        SIM_COUNT("op.prepare");
    }

    Ctx& m_ctx;
    std::unique_ptr<SqliteConnection> m_connection;
    sqlite3* m_raw = nullptr;
    bool m_external = false;
    sqlite3* m_peer = nullptr;
    int m_peerLock = 0;
    std::unique_ptr<sqlite3_stmt, zserio::SqliteFinalizer> m_held;
    std::vector<Table> m_tables;
    unsigned m_serial = 0;
    const char* m_journal = "";
    int m_cache = 0;
    bool m_utf16 = false;
    bool m_attached = false;
    bool m_noLookaside = false;
    std::string m_other;
};

void runAccess(Ctx& ctx)
{
    simsql::beginRun(1);
    World w(ctx);
    w.go();
}

// a connection object without a connection, and one that lost it
void runUnset(Ctx& ctx)
{
    simsql::beginRun(1);
    SqliteConnection c(nullptr,
            ctx.flip(1, 2) ? SqliteConnection::EXTERNAL_CONNECTION : SqliteConnection::INTERNAL_CONNECTION);
    if (ctx.flip(1, 2))
    {
        sqlite3* db = nullptr;
        sqlite3_open(":memory:", &db);
        c.reset(db);
        c.executeUpdate("CREATE TABLE t(a)");
        c.reset();
    }
    const size_t what = ctx.choose(6);
    bool rejected = false;
    try
    {
        switch (what)
        {
        case 0:
            c.executeUpdate("CREATE TABLE t(a)");
            break;
        case 1:
            (void)c.prepareStatement("SELECT 1");
            break;
        case 2:
            (void)c.startTransaction();
            break;
        case 3:
            (void)Validation::getNumberOfTableRows(c, "", "t", Alloc());
            break;
        case 4:
            (void)Validation::isColumnInTable(c, "", "t", "a", Alloc());
            break;
        default:
            c.endTransaction(true);
            break;
        }
    }
    catch (const zserio::SqliteException&)
    {
        rejected = true;
    }
    if (!rejected)
    {
        ctx.fail("accepted", "operation %zu without a connection", what);
    }
    c.endTransaction(false);
    SIM_COUNT("fault.no-connection");
    ctx.nontrivial = true;
    ctx.shape(what);
}

const std::vector<sim::Scenario> SCENARIOS = {{"access", 30, runAccess}, {"unset", 1, runUnset}};

} // namespace

namespace sim
{
const char* const PROPERTY = "P15";
const std::vector<Scenario>& scenarios()
{
    return SCENARIOS;
}
void warmup()
{
    simsql::install();
}
} // namespace sim
