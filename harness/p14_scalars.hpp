// P14: every scalar getter and conversion of the dynamic interface of one value.
#pragma once

#include "reflect.hpp"

#include <functional>

namespace
{
using sim::Ctx;
using tree::Node;
using tree::Type;

bool rejects(const std::function<void()>& fn)
{
    try
    {
        fn();
    }
    catch (const zserio::CppRuntimeException&)
    {
        return true;
    }
    return false;
}

// every scalar getter and conversion of the interface against the value
template <class R>
void checkScalars(Ctx& ctx, const R& r, const Type* t, const Node* n, const std::string& place)
{
    using tree::Kind;
    const bool value = t != nullptr && !t->compound();
    const Kind kind = value ? t->kind : tree::STRUCT;
    const bool integer = value && (kind == tree::INT || kind == tree::UINT || kind == tree::ENUM || kind == tree::MASK);
    const bool isSigned = integer && (kind == tree::INT || t->isSigned);
    auto expect = [&](const char* getter, bool has, auto get, auto want) {
        bool right = false;
        if (has)
        {
            right = get() == want;
        }
        else
        {
            right = rejects([&] {
                (void)get();
            });
        }
        if (!right)
        {
            ctx.fail("wrong-getter", "%s() of %s: %s", getter, place.c_str(),
                    has ? "another value" : "no error although the type does not fit");
        }
    };
    const uint64_t u = n != nullptr ? n->u : 0;
    const double d = n != nullptr ? n->d : 0;
#define INTEGER(getter, T, bits_, sign) \
    expect(#getter, integer && t->bits == bits_ && isSigned == sign, \
            [&] { \
                return r.getter(); \
            }, \
            static_cast<T>(u));
    INTEGER(getInt8, int8_t, 8, true)
    INTEGER(getInt16, int16_t, 16, true)
    INTEGER(getInt32, int32_t, 32, true)
    INTEGER(getInt64, int64_t, 64, true)
    INTEGER(getUInt8, uint8_t, 8, false)
    INTEGER(getUInt16, uint16_t, 16, false)
    INTEGER(getUInt32, uint32_t, 32, false)
    INTEGER(getUInt64, uint64_t, 64, false)
#undef INTEGER
    expect("getBool", kind == tree::BOOL && value, [&] {
        return r.getBool();
    }, u != 0);
    expect("toInt", integer && isSigned, [&] {
        return r.toInt();
    }, static_cast<int64_t>(u));
    expect("toUInt", (integer && !isSigned) || (value && kind == tree::BOOL), [&] {
        return r.toUInt();
    }, u);
    const bool floating = value && (kind == tree::FLT || kind == tree::DBL);
    expect("getFloat", value && kind == tree::FLT, [&] {
        return tree::sameDouble(static_cast<double>(r.getFloat()), d);
    }, true);
    expect("getDouble", value && kind == tree::DBL, [&] {
        return tree::sameDouble(r.getDouble(), d);
    }, true);
    const double asDouble = floating ? d : isSigned ? static_cast<double>(static_cast<int64_t>(u)) : static_cast<double>(u);
    expect("toDouble", floating || integer || (value && kind == tree::BOOL), [&] {
        return tree::sameDouble(r.toDouble(), asDouble);
    }, true);
    expect("getStringView", value && kind == tree::STR, [&] {
        return std::string(r.getStringView());
    }, n != nullptr ? n->s : std::string());
    expect("getBytes", value && kind == tree::BYTES, [&] {
        const auto b = r.getBytes();
        return std::vector<uint8_t>(b.begin(), b.end());
    }, n != nullptr ? n->bytes : std::vector<uint8_t>());
    expect("getBitBuffer", value && kind == tree::BITS, [&] {
        return r.getBitBuffer().getBitSize();
    }, n != nullptr ? n->bits : size_t(0));
    if (value && (kind == tree::BOOL || kind == tree::INT || kind == tree::UINT || kind == tree::STR))
    {
        const std::string want = kind == tree::STR ? n->s
                : kind == tree::BOOL               ? (u != 0 ? "true" : "false")
                : isSigned                         ? std::to_string(static_cast<int64_t>(u))
                                                   : std::to_string(u);
        const zserio::String got = r.toString();
        if (std::string_view(got.data(), got.size()) != want)
        {
            ctx.fail("wrong-getter", "toString() of %s: '%s' instead of '%s'", place.c_str(), got.c_str(), want.c_str());
        }
    }
    else if (t == nullptr || t->compound() || floating || kind == tree::BYTES || kind == tree::BITS)
    {
        if (!rejects([&] {
                (void)r.toString();
            }))
        {
            ctx.fail("wrong-getter", "toString() of %s: no error", place.c_str());
        }
    }
    // what only arrays and compounds have
    if (t != nullptr)
    {
        if (r.isArray() || !rejects([&] {
                (void)r.size();
            }) || !rejects([&] {
                (void)r.at(0);
            }) || !rejects([&] {
                (void)r[static_cast<size_t>(0)];
            }))
        {
            ctx.fail("wrong-getter", "%s pretends to be an array", place.c_str());
        }
        if (!t->compound() && (!rejects([&] {
                    (void)r.getField("value");
                }) || !rejects([&] {
                    (void)r.getChoice();
                })))
        {
            ctx.fail("wrong-getter", "%s pretends to be a compound", place.c_str());
        }
    }
    else if (!r.isArray() || !rejects([&] {
                 (void)r.getField("value");
             }) || !rejects([&] {
                 (void)r.getChoice();
             }))
    {
        ctx.fail("wrong-getter", "%s pretends to be no array", place.c_str());
    }
}

} // namespace

void runValues(Ctx& ctx);
