// P05: a full output or exhausted input never damages what was already there.
#include "bits.hpp"
#include "sim.hpp"

#include <sys/mman.h>

#include <zserio/BitBuffer.h>
#include <zserio/BitStreamReader.h>
#include <zserio/BitStreamWriter.h>
#include <zserio/OutOfRangeException.h>

using namespace sim;
using model::Bits;

namespace
{

// readable zeros nobody pays for
const uint8_t* hugeMemory()
{
    static void* const p = mmap(nullptr, (size_t(3) << 29) + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return static_cast<const uint8_t*>(p);
}

// memory whose exact end the address sanitizer knows
struct Exact
{
    uint8_t* p;
    size_t n;
    explicit Exact(size_t size) :
            p(new uint8_t[size == 0 ? 1 : size]),
            n(size)
    {}
    ~Exact()
    {
        delete[] p;
    }
    Exact(const Exact&) = delete;
    Exact& operator=(const Exact&) = delete;
};

uint64_t chooseValue(Ctx& ctx, unsigned bits)
{
    const uint64_t mask = bits >= 64 ? UINT64_MAX : (uint64_t(1) << bits) - 1;
    switch (ctx.pick({2, 2, 2, 4}))
    {
    case 0:
        return 0;
    case 1:
        return mask;
    case 2:
        return uint64_t(1) << ctx.choose(bits);
    default:
        return ctx.choose(0) & mask;
    }
}

int64_t signExtend(uint64_t v, unsigned n)
{
    if (n == 0 || n >= 64)
    {
        return static_cast<int64_t>(v);
    }
    return static_cast<int64_t>(v << (64 - n)) >> (64 - n);
}

const model::VarKind* const VARS[] = {&model::VARUINT16, &model::VARUINT32, &model::VARUINT64, &model::VARUINT,
        &model::VARSIZE, &model::VARINT16, &model::VARINT32, &model::VARINT64, &model::VARINT};

void writeVar(zserio::BitStreamWriter& w, size_t kind, uint64_t u, int64_t s)
{
    switch (kind)
    {
    case 0:
        w.writeVarUInt16(zserio::VarUInt16(static_cast<uint16_t>(u)));
        break;
    case 1:
        w.writeVarUInt32(zserio::VarUInt32(static_cast<uint32_t>(u)));
        break;
    case 2:
        w.writeVarUInt64(zserio::VarUInt64(u));
        break;
    case 3:
        w.writeVarUInt(zserio::VarUInt(u));
        break;
    case 4:
        w.writeVarSize(zserio::VarSize(static_cast<uint32_t>(u)));
        break;
    case 5:
        w.writeVarInt16(zserio::VarInt16(static_cast<int16_t>(s)));
        break;
    case 6:
        w.writeVarInt32(zserio::VarInt32(static_cast<int32_t>(s)));
        break;
    case 7:
        w.writeVarInt64(zserio::VarInt64(s));
        break;
    default:
        w.writeVarInt(zserio::VarInt(s));
        break;
    }
}

// returns sign-extended two's complement
uint64_t readVar(zserio::BitStreamReader& r, size_t kind)
{
    switch (kind)
    {
    case 0:
        return static_cast<uint16_t>(r.readVarUInt16());
    case 1:
        return static_cast<uint32_t>(r.readVarUInt32());
    case 2:
        return static_cast<uint64_t>(r.readVarUInt64());
    case 3:
        return static_cast<uint64_t>(r.readVarUInt());
    case 4:
        return static_cast<uint32_t>(r.readVarSize());
    case 5:
        return static_cast<uint64_t>(static_cast<int64_t>(static_cast<int16_t>(r.readVarInt16())));
    case 6:
        return static_cast<uint64_t>(static_cast<int64_t>(static_cast<int32_t>(r.readVarInt32())));
    case 7:
        return static_cast<uint64_t>(static_cast<int64_t>(r.readVarInt64()));
    default:
        return static_cast<uint64_t>(static_cast<int64_t>(r.readVarInt()));
    }
}

size_t chooseCapacity(Ctx& ctx)
{
    switch (ctx.pick({3, 4, 3}))
    {
    case 0:
        return ctx.choose(80);
    case 1:
        return ctx.choose(400);
    default:
        return 8 * ctx.choose(40);
    }
}

enum class Result
{
    OK,
    FULL,
    REJECTED
};

void compareBits(Ctx& ctx, const Bits& now, const Bits& before, size_t from, size_t to, const char* cls, const char* what)
{
    for (size_t i = from; i < to; ++i)
    {
        if (now.b[i] != before.b[i])
        {
            ctx.fail(cls, "%s: bit %zu changed from %u to %u", what, i, before.b[i], now.b[i]);
        }
    }
}

void writerHistory(Ctx& ctx)
{
    const size_t capBits = chooseCapacity(ctx);
    const size_t capBytes = (capBits + 7) / 8;
    const size_t form = ctx.pick({2, 2, 2, 2});
    // the buffer may be larger than the writer is told
    const size_t extra = form == 1 ? ctx.choose(3) : 0;
    Exact mem(capBytes + extra);
    const uint8_t fill = ctx.flip(1, 2) ? 0xa5 : 0x00;
    memset(mem.p, fill, mem.n);
    zserio::BitBuffer bitBuffer(form == 3 ? capBits : 0);
    alignas(zserio::BitStreamWriter) uint8_t place[sizeof(zserio::BitStreamWriter)];
    zserio::BitStreamWriter* w = nullptr;
    size_t bits = capBits;
    uint8_t* data = mem.p;
    size_t dataBytes = mem.n;
    switch (form)
    {
    case 0:
        w = new (place) zserio::BitStreamWriter(mem.p, capBits, zserio::BitsTag());
        break;
    case 1:
        w = new (place) zserio::BitStreamWriter(zserio::Span<uint8_t>(mem.p, mem.n), capBits);
        break;
    case 2:
        w = new (place) zserio::BitStreamWriter(mem.p, capBytes);
        bits = capBytes * 8;
        break;
    default:
        if (capBits == 0)
        {
            return; // no storage at all: the measuring mode of the writer
        }
        w = new (place) zserio::BitStreamWriter(bitBuffer);
        data = bitBuffer.getBuffer();
        dataBytes = bitBuffer.getByteSize();
        memset(data, fill, dataBytes);
        break;
    }
    ctx.log("writer of %zu bits in %zu bytes, form %zu", bits, dataBytes, form);
    ctx.shape(bits);
    // swarm: strings and long data only in some runs
    const bool withBytes = ctx.flip(1, 2);
    const bool withSeek = ctx.flip(2, 3);
    do
    {
        ctx.step();
        const Bits before = Bits::from(data, dataBytes * 8);
        const size_t pos = w->getBitPosition();
        Bits enc;
        Result expect = Result::OK;
        std::string what;
        size_t seekTo = SIZE_MAX;
        size_t hugeBytes = 0;
        const size_t op = ctx.pick({6, 3, 4, 2, 2, 1, 5, 2, withBytes ? 4U : 0U, withBytes ? 3U : 0U, withBytes ? 3U : 0U,
                withSeek ? 4U : 0U, 3, 1});
        uint64_t v = 0;
        unsigned n = 0;
        size_t varKind = 0;
        std::vector<uint8_t> bytes;
        size_t blobBits = 0;
        bool outOfRange = false;
        switch (op)
        {
        case 0: // unsigned bits
        case 1: // signed bits
            n = 1 + static_cast<unsigned>(ctx.choose(64));
            v = chooseValue(ctx, n);
            enc.u(v, n);
            what = "bits";
            break;
        case 2: // 32-bit variants
        case 3:
            n = 1 + static_cast<unsigned>(ctx.choose(32));
            v = chooseValue(ctx, n);
            enc.u(v, n);
            what = "bits32";
            break;
        case 4:
            v = ctx.choose(2);
            enc.u(v, 1);
            what = "bool";
            break;
        case 5: // value too large for the width
            n = static_cast<unsigned>(ctx.choose(32));
            v = (uint64_t(1) << n) | (chooseValue(ctx, 32) & 0xffffffffU);
            if (n != 0 && v <= (uint64_t(1) << n) - 1)
            {
                v = uint64_t(1) << n;
            }
            outOfRange = true;
            what = "too large value";
            break;
        case 6: // variable length
        {
            varKind = ctx.choose(9);
            const auto& k = *VARS[varKind];
            const unsigned width = 1 + static_cast<unsigned>(ctx.choose(64));
            v = chooseValue(ctx, width) & (k.maxBytes == 2 ? 0x7fffU : k.maxBytes == 4 || k.maxBytes == 5 ? 0x7fffffffU : INT64_MAX);
            bool neg = k.isSigned && ctx.flip(1, 2);
            if (k.maxBytes == 9 && k.isSigned && ctx.flip(1, 12))
            {
                neg = true;
                v = uint64_t(1) << 63;
            }
            if (k.maxBytes == 9 && !k.isSigned && ctx.flip(1, 4))
            {
                v |= uint64_t(1) << 63;
            }
            if (model::varFits(k, neg, v))
            {
                model::encodeVar(enc, k, neg, v);
            }
            else
            {
                outOfRange = true;
            }
            blobBits = neg ? 1 : 0;
            what = k.name;
            break;
        }
        case 7: // floats
            n = static_cast<unsigned>(ctx.choose(3));
            v = ctx.choose(0);
            if (n == 0)
            {
                v &= 0xffffU;
                if ((v & 0x7c00U) == 0x7c00U)
                {
                    v &= 0xfc00U; // infinities only, NaN patterns are not unique
                }
                enc.u(v, 16);
            }
            else if (n == 1)
            {
                v &= 0xffffffffU;
                if ((v & 0x7f800000U) == 0x7f800000U)
                {
                    v &= 0xff800000U;
                }
                enc.u(v, 32);
            }
            else
            {
                if ((v >> 52U & 0x7ffU) == 0x7ffU)
                {
                    v &= ~((uint64_t(1) << 52) - 1);
                }
                enc.u(v, 64);
            }
            what = "float";
            break;
        case 8: // bytes
        case 9: // string
            bytes.resize(ctx.choose(ctx.flip(1, 6) ? 200 : 12));
            for (auto& x : bytes)
            {
                x = static_cast<uint8_t>(ctx.choose(256));
            }
            model::encodeVar(enc, model::VARSIZE, false, bytes.size());
            for (auto x : bytes)
            {
                enc.u(x, 8);
            }
            what = op == 8 ? "bytes" : "string";
            if (ctx.flip(1, 60))
            {
                hugeBytes = (1 + ctx.choose(3)) * (size_t(1) << 29) + ctx.choose(8);
                what = "huge " + what;
            }
            break;
        case 10: // bit buffer
            blobBits = ctx.choose(60);
            bytes.resize((blobBits + 7) / 8);
            for (auto& x : bytes)
            {
                x = static_cast<uint8_t>(ctx.choose(256));
            }
            model::encodeVar(enc, model::VARSIZE, false, blobBits);
            for (size_t i = 0; i < blobBits; ++i)
            {
                enc.u((bytes[i / 8] >> (7 - i % 8)) & 1U, 1);
            }
            what = "bit buffer";
            break;
        case 11: // seek
            seekTo = ctx.flip(1, 4) ? bits + ctx.choose(20) : ctx.choose(bits + 1);
            if (ctx.flip(1, 40))
            {
                seekTo = SIZE_MAX - 1 - ctx.choose(16);
            }
            what = "seek";
            break;
        case 12: // align
        {
            static const size_t aligns[] = {1, 2, 4, 8, 16, 32, 64, 3, 128, 256, 2048};
            n = static_cast<unsigned>(aligns[ctx.choose(11)]);
            for (size_t k = pos; k % n != 0; ++k)
            {
                enc.b.push_back(0);
            }
            what = "align";
            break;
        }
        default: // illegal width
            n = ctx.flip(1, 2) ? 0 : static_cast<unsigned>(33 + ctx.choose(200));
            outOfRange = true;
            what = "illegal width";
            break;
        }
        if (seekTo != SIZE_MAX)
        {
            expect = seekTo > bits ? Result::FULL : Result::OK;
        }
        else if (outOfRange)
        {
            expect = Result::REJECTED;
        }
        else if (hugeBytes != 0 || pos + enc.size() > bits)
        {
            expect = Result::FULL;
        }
        SIM_COUNT("op.write");
        Result got = Result::OK;
        try
        {
            const int64_t sv = signExtend(v, n);
            switch (op)
            {
            case 0:
                w->writeUnsignedBits64(v, static_cast<uint8_t>(n));
                break;
            case 1:
                w->writeSignedBits64(sv, static_cast<uint8_t>(n));
                break;
            case 2:
                w->writeUnsignedBits32(static_cast<uint32_t>(v), static_cast<uint8_t>(n));
                break;
            case 3:
                w->writeSignedBits32(static_cast<int32_t>(sv), static_cast<uint8_t>(n));
                break;
            case 4:
                w->writeBool(zserio::Bool(v != 0));
                break;
            case 5:
                if (n == 0 || v > UINT32_MAX)
                {
                    w->writeUnsignedBits64(v, static_cast<uint8_t>(n));
                }
                else
                {
                    w->writeUnsignedBits32(static_cast<uint32_t>(v), static_cast<uint8_t>(n));
                }
                break;
            case 6:
                writeVar(*w, varKind, v, blobBits != 0 ? static_cast<int64_t>(0 - v) : static_cast<int64_t>(v));
                break;
            case 7:
                if (n == 0)
                {
                    w->writeFloat16(zserio::Float16(model::halfToFloat(static_cast<uint16_t>(v))));
                }
                else if (n == 1)
                {
                    float f = 0;
                    const auto x = static_cast<uint32_t>(v);
                    memcpy(&f, &x, 4);
                    w->writeFloat32(zserio::Float32(f));
                }
                else
                {
                    double d = 0;
                    memcpy(&d, &v, 8);
                    w->writeFloat64(zserio::Float64(d));
                }
                break;
            case 8:
                w->writeBytes(hugeBytes != 0 ? zserio::BytesView(hugeMemory(), hugeBytes)
                                             : zserio::BytesView(bytes.data(), bytes.size()));
                break;
            case 9:
                w->writeString(hugeBytes != 0
                                ? std::string_view(reinterpret_cast<const char*>(hugeMemory()), hugeBytes)
                                : std::string_view(reinterpret_cast<const char*>(bytes.data()), bytes.size()));
                break;
            case 10:
                w->writeBitBuffer(zserio::BitBuffer(bytes, blobBits));
                break;
            case 11:
                w->setBitPosition(seekTo);
                break;
            case 12:
                w->alignTo(n);
                break;
            default:
                w->writeUnsignedBits32(0, static_cast<uint8_t>(n));
                break;
            }
        }
        catch (const zserio::BitStreamWriter::InsufficientCapacityException&)
        {
            got = Result::FULL;
        }
        catch (const zserio::CppRuntimeException&)
        {
            got = Result::REJECTED;
        }
        const size_t after = w->getBitPosition();
        ctx.log("%s (%zu bits) at %zu -> %s, position %zu", what.c_str(), enc.size(), pos,
                got == Result::OK ? "ok" : got == Result::FULL ? "full" : "rejected", after);
        if (got != expect)
        {
            ctx.fail("wrong-verdict", "%s of %zu bits at %zu of %zu: %s", what.c_str(),
                    seekTo != SIZE_MAX ? seekTo : enc.size(), pos, bits,
                    got == Result::OK            ? "accepted although it does not fit or is illegal"
                            : got == Result::FULL ? "refused for lack of room, unexpectedly"
                                                  : "rejected although legal");
        }
        const Bits now = Bits::from(data, dataBytes * 8);
        if (got == Result::OK)
        {
            const size_t want = seekTo != SIZE_MAX ? seekTo : pos + enc.size();
            if (after != want)
            {
                ctx.fail("wrong-position", "position %zu instead of %zu after %s", after, want, what.c_str());
            }
            compareBits(ctx, now, before, 0, std::min(pos, now.size()), "written-bits-damaged", what.c_str());
            if (seekTo == SIZE_MAX)
            {
                for (size_t i = 0; i < enc.size(); ++i)
                {
                    if (now.b[pos + i] != enc.b[i])
                    {
                        ctx.fail("wrong-bits", "%s at %zu: bit %zu is %u", what.c_str(), pos, pos + i, now.b[pos + i]);
                    }
                }
                compareBits(ctx, now, before, pos + enc.size(), now.size(), "following-bits-damaged", what.c_str());
            }
            else
            {
                compareBits(ctx, now, before, 0, now.size(), "seek-modified-data", what.c_str());
            }
        }
        else
        {
            ctx.nontrivial = true;
            if (got == Result::FULL)
            {
                SIM_COUNT("fault.capacity-exhausted");
            }
            else
            {
                SIM_COUNT("fault.rejected-value");
            }
            if (got == Result::REJECTED || seekTo != SIZE_MAX)
            {
                if (after != pos)
                {
                    ctx.fail("position-moved-by-rejected-call", "%s moved the position from %zu to %zu", what.c_str(), pos,
                            after);
                }
                compareBits(ctx, now, before, 0, now.size(), "rejected-call-modified-data", what.c_str());
            }
            else
            {
                // a part of the value may have been written
                if (after < pos || after > bits)
                {
                    ctx.fail("position-outside", "position %zu after a failed %s at %zu of %zu", after, what.c_str(), pos,
                            bits);
                }
                compareBits(ctx, now, before, 0, pos, "written-bits-damaged", what.c_str());
                compareBits(ctx, now, before, bits, now.size(), "bits-beyond-capacity-damaged", what.c_str());
            }
            SIM_COUNT("check.after-failure");
        }
        ctx.shape(op * 8 + static_cast<uint64_t>(got) + (pos % 8) * 1000 + enc.size() * 10000);
        if (w->getBufferBitSize() != bits)
        {
            ctx.fail("wrong-capacity", "capacity %zu instead of %zu", w->getBufferBitSize(), bits);
        }
    } while (ctx.more(9, 10));
}

void readerHistory(Ctx& ctx)
{
    const size_t capBits = chooseCapacity(ctx);
    const size_t capBytes = (capBits + 7) / 8;
    const size_t form = ctx.pick({2, 2, 2, 2});
    const size_t extra = form == 1 ? ctx.choose(3) : 0;
    Exact mem(capBytes + extra);
    const size_t style = ctx.pick({3, 2, 2});
    for (size_t i = 0; i < mem.n; ++i)
    {
        mem.p[i] = static_cast<uint8_t>(style == 0 ? ctx.choose(256) : style == 1 ? 0x80U | ctx.choose(128) : ctx.choose(4));
    }
    if (capBytes != 0 && capBytes < 128 && ctx.flip(1, 4))
    {
        // the length of something which ends just about where the input ends
        const size_t at = ctx.flip(2, 3) ? 0 : ctx.choose(capBytes);
        const size_t left = capBytes - at - 1;
        mem.p[at] = static_cast<uint8_t>(std::min<size_t>(127, left + ctx.choose(3) - (left != 0 ? 1 : 0)));
    }
    alignas(zserio::BitStreamReader) uint8_t place[sizeof(zserio::BitStreamReader)];
    zserio::BitStreamReader* r = nullptr;
    size_t bits = capBits;
    zserio::BitBuffer bitBuffer(form == 3 ? capBits : 0);
    const uint8_t* data = mem.p;
    switch (form)
    {
    case 0:
        r = new (place) zserio::BitStreamReader(mem.p, capBits, zserio::BitsTag());
        break;
    case 1:
        r = new (place) zserio::BitStreamReader(zserio::Span<const uint8_t>(mem.p, mem.n), capBits);
        break;
    case 2:
        r = new (place) zserio::BitStreamReader(mem.p, capBytes);
        bits = capBytes * 8;
        break;
    default:
        if (capBits != 0)
        {
            memcpy(bitBuffer.getBuffer(), mem.p, capBytes);
            data = bitBuffer.getBuffer();
        }
        r = new (place) zserio::BitStreamReader(bitBuffer);
        break;
    }
    const Bits in = Bits::from(data, bits);
    ctx.log("reader of %zu bits, form %zu, content %s", bits, form, model::hex(in.bytes()).c_str());
    ctx.shape(bits);
    const bool withSeek = ctx.flip(2, 3);
    do
    {
        ctx.step();
        const size_t pos = r->getBitPosition();
        if (pos > bits)
        {
            ctx.fail("position-outside", "position %zu of %zu", pos, bits);
        }
        bool fits = true;
        bool legal = true;
        size_t end = pos;
        uint64_t want = 0;
        std::vector<uint8_t> wantBytes;
        size_t blobBits = 0;
        unsigned n = 0;
        size_t varKind = 0;
        size_t seekTo = SIZE_MAX;
        std::string what;
        const size_t op = ctx.pick({6, 3, 4, 2, 2, 5, 2, 2, 2, 2, withSeek ? 5U : 0U, 3, 1});
        auto fixed = [&](unsigned w) {
            fits = pos + w <= bits;
            end = pos + w;
            want = fits ? in.get(pos, w) : 0;
        };
        switch (op)
        {
        case 0:
        case 1:
            n = 1 + static_cast<unsigned>(ctx.choose(64));
            fixed(n);
            what = "bits";
            break;
        case 2:
        case 3:
            n = 1 + static_cast<unsigned>(ctx.choose(32));
            fixed(n);
            what = "bits32";
            break;
        case 4:
            fixed(1);
            what = "bool";
            break;
        case 5:
        {
            varKind = ctx.choose(9);
            const model::VarValue v = model::decodeVar(in, pos, *VARS[varKind]);
            fits = v.ok;
            legal = v.inRange;
            end = v.end;
            want = VARS[varKind]->isSigned ? static_cast<uint64_t>(v.asSigned()) : v.magnitude;
            what = VARS[varKind]->name;
            break;
        }
        case 6:
            n = static_cast<unsigned>(ctx.choose(3));
            fixed(n == 0 ? 16 : n == 1 ? 32 : 64);
            what = "float";
            break;
        case 7:
        case 8:
        case 9:
        {
            const model::VarValue v = model::decodeVar(in, pos, model::VARSIZE);
            fits = v.ok;
            legal = v.inRange;
            if (fits && legal)
            {
                blobBits = op == 9 ? v.magnitude : v.magnitude * 8;
                end = v.end + blobBits;
                fits = end <= bits;
                for (size_t i = 0; fits && i < blobBits; ++i)
                {
                    if (i % 8 == 0)
                    {
                        wantBytes.push_back(0);
                    }
                    wantBytes.back() = static_cast<uint8_t>(wantBytes.back() | (in.b[v.end + i] << (7 - i % 8)));
                }
            }
            what = op == 7 ? "bytes" : op == 8 ? "string" : "bit buffer";
            break;
        }
        case 10:
            seekTo = ctx.flip(1, 5) ? bits + ctx.choose(20) : ctx.choose(bits + 1);
            if (ctx.flip(1, 40))
            {
                seekTo = SIZE_MAX - 1 - ctx.choose(16);
            }
            fits = seekTo <= bits;
            end = seekTo;
            what = "seek";
            break;
        case 11:
        {
            static const size_t aligns[] = {1, 2, 4, 8, 16, 32, 64, 3, 128, 256, 2048};
            n = static_cast<unsigned>(aligns[ctx.choose(11)]);
            end = (pos + n - 1) / n * n;
            fits = end <= bits;
            what = "align";
            break;
        }
        default:
            n = ctx.flip(1, 2) ? 0 : static_cast<unsigned>(65 + ctx.choose(190));
            legal = false;
            what = "illegal width";
            break;
        }
        SIM_COUNT("op.read");
        bool ok = true;
        uint64_t got = 0;
        std::vector<uint8_t> gotBytes;
        size_t gotBits = 0;
        try
        {
            switch (op)
            {
            case 0:
                got = r->readUnsignedBits64(static_cast<uint8_t>(n));
                break;
            case 1:
                got = static_cast<uint64_t>(r->readSignedBits64(static_cast<uint8_t>(n)));
                break;
            case 2:
                got = r->readUnsignedBits32(static_cast<uint8_t>(n));
                break;
            case 3:
                got = static_cast<uint64_t>(static_cast<int64_t>(r->readSignedBits32(static_cast<uint8_t>(n))));
                break;
            case 4:
                got = r->readBool() ? 1 : 0;
                break;
            case 5:
                got = readVar(*r, varKind);
                break;
            case 6:
                if (n == 0)
                {
                    got = model::floatBits(r->readFloat16());
                }
                else if (n == 1)
                {
                    got = model::floatBits(r->readFloat32());
                }
                else
                {
                    got = model::doubleBits(r->readFloat64());
                }
                break;
            case 7:
            {
                const auto b = r->readBytes();
                gotBytes.assign(b.begin(), b.end());
                gotBits = gotBytes.size() * 8;
                break;
            }
            case 8:
            {
                const auto s = r->readString();
                gotBytes.assign(s.begin(), s.end());
                gotBits = gotBytes.size() * 8;
                break;
            }
            case 9:
            {
                const auto b = r->readBitBuffer();
                gotBits = b.getBitSize();
                const Bits m = Bits::from(b.getBuffer(), gotBits);
                gotBytes = m.bytes();
                break;
            }
            case 10:
                r->setBitPosition(seekTo);
                break;
            case 11:
                r->alignTo(n);
                break;
            default:
                got = r->readUnsignedBits64(static_cast<uint8_t>(n));
                break;
            }
        }
        catch (const zserio::CppRuntimeException&)
        {
            ok = false;
        }
        const size_t after = r->getBitPosition();
        ctx.log("%s %u at %zu (fits %d legal %d) -> %s, position %zu", what.c_str(), n, pos, fits, legal, ok ? "ok" : "failed", after);
        if (ok != (fits && legal))
        {
            ctx.fail("wrong-verdict", "%s at %zu of %zu: %s", what.c_str(), pos, bits,
                    ok ? "accepted although the input ends or the value is illegal" : "failed although legal");
        }
        ctx.shape(op * 8 + ok + (pos % 8) * 1000 + (end - pos) * 10000);
        if (ok)
        {
            if (after != end)
            {
                ctx.fail("wrong-position", "position %zu instead of %zu after %s", after, end, what.c_str());
            }
            if (op == 1 || op == 3)
            {
                const uint64_t sign = uint64_t(1) << (n - 1);
                if (n < 64 && (want & sign) != 0)
                {
                    want |= ~((sign << 1U) - 1);
                }
            }
            if (op == 6 && n == 0)
            {
                const float f = model::halfToFloat(static_cast<uint16_t>(want));
                if (std::isnan(f))
                {
                    float g = 0;
                    const auto x = static_cast<uint32_t>(got);
                    memcpy(&g, &x, 4);
                    if (!std::isnan(g))
                    {
                        ctx.fail("wrong-value", "half NaN read as a number");
                    }
                    continue;
                }
                want = model::floatBits(f);
            }
            if (op <= 6 && got != want)
            {
                ctx.fail("wrong-value", "%s %u at %zu: %llx instead of %llx", what.c_str(), n, pos,
                        static_cast<unsigned long long>(got), static_cast<unsigned long long>(want));
            }
            if (op >= 7 && op <= 9 && (gotBits != blobBits || gotBytes != wantBytes))
            {
                ctx.fail("wrong-value", "%s at %zu: %zu bits instead of %zu", what.c_str(), pos, gotBits, blobBits);
            }
        }
        else
        {
            ctx.nontrivial = true;
            SIM_COUNT("fault.input-exhausted-or-illegal");
            SIM_COUNT("check.after-failure");
            if (after > bits)
            {
                ctx.fail("position-outside", "position %zu of %zu after a failed %s", after, bits, what.c_str());
            }
            if ((op == 10 || op == 12) && after != pos)
            {
                ctx.fail("position-moved-by-rejected-call", "%s moved the position from %zu to %zu", what.c_str(), pos, after);
            }
        }
        if (bits >= 8 && memcmp(data, in.bytes().data(), bits / 8) != 0)
        {
            ctx.fail("input-modified", "reading modified the input");
        }
    } while (ctx.more(9, 10));
}

// the writer without storage: only measures
void measureHistory(Ctx& ctx)
{
    zserio::BitStreamWriter w(nullptr, static_cast<size_t>(0));
    size_t pos = 0;
    do
    {
        ctx.step();
        switch (ctx.pick({3, 2, 2, 1}))
        {
        case 0:
        {
            const auto n = static_cast<uint8_t>(1 + ctx.choose(64));
            w.writeUnsignedBits64(0, n);
            pos += n;
            break;
        }
        case 1:
        {
            const std::string s(ctx.choose(300), 'x');
            w.writeString(s);
            pos += (s.size() < 128 ? 8 : 16) + s.size() * 8;
            break;
        }
        case 2:
        {
            const size_t a = size_t(1) << ctx.choose(7);
            w.alignTo(a);
            pos = (pos + a - 1) / a * a;
            break;
        }
        default:
            pos = ctx.choose(1000);
            w.setBitPosition(pos);
            break;
        }
        if (w.getBitPosition() != pos)
        {
            ctx.fail("wrong-measure", "measured %zu instead of %zu", w.getBitPosition(), pos);
        }
    } while (ctx.more(9, 10));
}

// a false claim about the size of a buffer is refused by whoever checks it
void falseClaims(Ctx& ctx)
{
    do
    {
        ctx.step();
        std::vector<uint8_t> bytes(ctx.choose(24), 0x5a);
        size_t bits = 0;
        switch (ctx.choose(5))
        {
        case 0:
            bits = bytes.size() * 8 + ctx.choose(18);
            break;
        case 1:
            bits = ctx.choose(bytes.size() * 8 + 1);
            break;
        case 2:
            bits = SIZE_MAX - ctx.choose(20);
            break;
        case 3:
            bits = (size_t(1) << ctx.choose(64)) + ctx.choose(8);
            break;
        default:
            bits = (size_t(1) << ctx.choose(64)) - ctx.choose(9);
            break;
        }
        const bool room = bits / 8 + (bits % 8 != 0 ? 1 : 0) <= bytes.size();
        const size_t who = ctx.choose(4);
        static const char* const WHO[] = {"reader", "writer", "bit buffer", "bit buffer of a vector"};
        bool accepted = true;
        size_t size = 0;
        try
        {
            // exact copy on the heap, so that the address sanitizer sees the first byte outside
            std::unique_ptr<uint8_t[]> exact(new uint8_t[bytes.size()]);
            std::copy(bytes.begin(), bytes.end(), exact.get());
            if (who == 0)
            {
                zserio::BitStreamReader r(zserio::Span<const uint8_t>(exact.get(), bytes.size()), bits);
                size = r.getBufferBitSize();
                r.setBitPosition(size);
                if (size != 0)
                {
                    r.setBitPosition(size - 1);
                    (void)r.readUnsignedBits32(1);
                }
            }
            else if (who == 1)
            {
                zserio::BitStreamWriter w(zserio::Span<uint8_t>(exact.get(), bytes.size()), bits);
                size = w.getBufferBitSize();
                if (size != 0)
                {
                    w.setBitPosition(size - 1);
                    w.writeUnsignedBits32(1, 1);
                }
            }
            else
            {
                zserio::BitBuffer b = who == 2
                        ? zserio::BitBuffer(zserio::Span<const uint8_t>(exact.get(), bytes.size()), bits)
                        : zserio::BitBuffer(std::vector<uint8_t>(bytes), bits);
                size = b.getBitSize();
                (void)std::hash<zserio::BitBuffer>{}(b);
                const zserio::BitBuffer c(b);
                if (!(b == c) || b.getByteSize() != (size + 7) / 8)
                {
                    ctx.fail("broken-buffer", "a buffer of %zu bits has %zu bytes", size, b.getByteSize());
                }
            }
        }
        catch (const zserio::CppRuntimeException&)
        {
            accepted = false;
        }
        if (accepted != room)
        {
            ctx.fail("false-claim", "the %s %s %zu bits in %zu bytes", WHO[who], accepted ? "accepted" : "refused", bits,
                    bytes.size());
        }
        if (accepted && size != bits)
        {
            ctx.fail("wrong-size", "the %s says %zu bits instead of %zu", WHO[who], size, bits);
        }
        ctx.log("%s: %zu bits in %zu bytes %s", WHO[who], bits, bytes.size(), accepted ? "accepted" : "refused");
        if (!accepted)
        {
            SIM_COUNT("fault.false-size-claim");
            ctx.nontrivial = true;
        }
        ctx.shape(who * 2 + accepted);
        ctx.shape(bytes.size());
    } while (ctx.more(9, 10));
}

const std::vector<Scenario> SCENARIOS = {{"claims", 1, falseClaims},
        {"writer-history", 6, writerHistory}, {"reader-history", 6, readerHistory}, {"measure", 1, measureHistory}};

} // namespace

namespace sim
{
const char* const PROPERTY = "P05";
const std::vector<Scenario>& scenarios()
{
    return SCENARIOS;
}
} // namespace sim
