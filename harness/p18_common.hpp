// P18: services and publish/subscribe over a simulated network.
//
// Nodes (clients, servers, subscribers) own their memory; the transport below them loses, duplicates, delays, reorders and
// damages messages, partitions heal, nodes crash and come back with nothing. The stubs on both sides are written exactly
// as the generator's templates (extension/freemarker/Service.cpp.ftl, Pubsub.cpp.ftl) write them; payload holders,
// serialization and errors are the library's. A transport keeps the payload it was given and asks it for its bytes at
// every transmission.
#pragma once

#include "damage.hpp"
#include "objects.hpp"

#include <zserio/AllocatorHolder.h>
#include <zserio/IPubsub.h>
#include <zserio/IService.h>
#include <zserio/PubsubException.h>
#include <zserio/ServiceException.h>

#include <algorithm>
#include <functional>
#include <map>
#include <memory_resource>
#include <set>

using namespace sim;

namespace
{

enum Kind
{
    CREATOR,
    WALKER,
    REFLECTABLE,
    BYTES
};
const char* const KIND_NAMES[] = {"creator", "walker", "reflectable", "bytes"};
// the answer of a method is of the next kind; that of "bytes" are the bytes reversed
const char* const METHODS[] = {"creatorToWalker", "walkerToReflectable", "reflectableToCreator", "bytesToBytes"};
inline Kind answerKind(Kind k)
{
    return k == BYTES ? BYTES : static_cast<Kind>((k + 1) % 3);
}

struct Value
{
    Kind kind = CREATOR;
    obj::Creator c;
    obj::Walker w;
    obj::Reflectable r;
    model::Bits bits; // encoded by the reference
    std::vector<uint8_t> bytes;
    void encode()
    {
        bits = kind == CREATOR ? obj::encoded(c) : kind == WALKER ? obj::encoded(w) : obj::encoded(r);
        bytes.assign((bits.b.size() + 7) / 8, 0);
        for (size_t i = 0; i < bits.b.size(); ++i)
        {
            bytes[i / 8] = static_cast<uint8_t>(bytes[i / 8] | (bits.b[i] << (7 - i % 8)));
        }
    }
};
inline model::Bits bitsOf(const std::vector<uint8_t>& bytes)
{
    model::Bits b;
    for (uint8_t x : bytes)
    {
        b.u(x, 8);
    }
    return b;
}

template <typename F>
class World
{
public:
    using A = typename F::Alloc;
    using C = typename F::CreatorT;
    using W = typename F::WalkerT;
    using R = typename F::ReflectableT;
    using Bytes = zserio::Vector<uint8_t, A>;
    using DataPtr = zserio::IBasicServiceDataPtr<A>;
    using Span = zserio::Span<const uint8_t>;

    explicit World(Ctx& c) :
            ctx(c),
            service(*this)
    {
        m_old = std::pmr::set_default_resource(&m_default);
    }
    World(const World&) = delete;
    World& operator=(const World&) = delete;
    ~World()
    {
        std::pmr::set_default_resource(m_old);
    }
    void run();

private:
    struct Node
    {
        explicit Node(const char* name) :
                memory(name)
        {}
        Resource memory;
        bool up = true;
        uint64_t epoch = 1;
    };
    // a payload as a transport or a server keeps it
    struct Held
    {
        DataPtr payload;
        std::shared_ptr<Bytes> backing; // of a raw view
        bool introspectable = false;
        bool asked = false;
        Span first; // as it was returned first
        void drop()
        {
            payload.reset();
            backing.reset();
        }
    };
    struct Call
    {
        size_t client = 0;
        size_t server = 0;
        Kind kind = CREATOR;
        std::vector<uint8_t> want; // bytes of the request
        const Value* value = nullptr; // null for bytes
        Held request;
        bool made = false; // the payload exists
        bool done = false;
        bool lost = false; // its client crashed
        unsigned transmissions = 0;
    };
    struct Answer
    {
        Held held;
        std::vector<uint8_t> want;
    };
    enum PacketKind
    {
        REQUEST,
        RESPONSE,
        FAILURE,
        PUBLICATION
    };
    struct Packet
    {
        PacketKind kind = REQUEST;
        size_t from = 0;
        size_t to = 0;
        uint64_t call = 0;
        std::string name; // method, topic or error text
        std::vector<uint8_t> bytes;
        bool damaged = false;
        const Value* value = nullptr; // what was published
        std::vector<uint8_t> raw; // the same for bytes
        uint64_t epoch = 0; // of the receiver (subscriptions die with the node)
        size_t subscription = 0;
    };
    struct Event
    {
        enum
        {
            DELIVER,
            RETRY,
            RESTART
        } kind = DELIVER;
        Packet packet;
        uint64_t call = 0;
        size_t node = 0;
    };

    A alloc(Node& n)
    {
        return F::alloc(n.memory);
    }

    // ---- typed values ----------------------------------------------------------------------------------
    template <typename T>
    static void fill(T& o, const Value& v, const A& a)
    {
        if constexpr (std::is_same_v<T, C>)
        {
            obj::fillCreator(o, v.c, a);
        }
        else if constexpr (std::is_same_v<T, W>)
        {
            obj::fillWalker(o, v.w, a);
        }
        else
        {
            obj::fillReflectable(o, v.r, a);
        }
    }
    template <typename T>
    static bool same(const T& o, const Value& v)
    {
        const Untracked u;
        if constexpr (std::is_same_v<T, C>)
        {
            return obj::creatorOf(o) == v.c;
        }
        else if constexpr (std::is_same_v<T, W>)
        {
            return obj::walkerOf(o) == v.w;
        }
        else
        {
            return obj::reflectableOf(o) == v.r;
        }
    }
    template <typename T>
    static std::vector<uint8_t> reference(const T& o)
    {
        const Untracked u;
        Value v;
        if constexpr (std::is_same_v<T, C>)
        {
            v.kind = CREATOR;
            v.c = obj::creatorOf(o);
        }
        else if constexpr (std::is_same_v<T, W>)
        {
            v.kind = WALKER;
            v.w = obj::walkerOf(o);
        }
        else
        {
            v.kind = REFLECTABLE;
            v.r = obj::reflectableOf(o);
        }
        v.encode();
        return v.bytes;
    }
    template <typename Fn>
    static void visit(Kind k, const Fn& fn)
    {
        switch (k)
        {
        case CREATOR:
            fn(static_cast<C*>(nullptr));
            break;
        case WALKER:
            fn(static_cast<W*>(nullptr));
            break;
        default:
            fn(static_cast<R*>(nullptr));
            break;
        }
    }
    const Value& answerFor(Kind request, const std::vector<uint8_t>& bytes) const
    {
        const auto& p = m_pool[answerKind(request)];
        uint64_t h = 7;
        for (uint8_t b : bytes)
        {
            h = mix(h ^ b);
        }
        return p[h % p.size()];
    }
    const Value& some(Kind k)
    {
        return m_pool[k][ctx.choose(m_pool[k].size())];
    }

    // ---- payloads --------------------------------------------------------------------------------------
    // copies, moves and assignments of the holder itself; whatever happens, the result holds what the first one held
    template <typename P, typename Other>
    DataPtr handOver(std::shared_ptr<P> p, const A& a, const Other& other)
    {
        std::shared_ptr<P> q;
        switch (m_shift)
        {
        case 1:
            q = std::allocate_shared<P>(a, static_cast<const P&>(*p));
            break;
        case 2:
            q = std::allocate_shared<P>(a, std::move(*p));
            break;
        case 3:
            (void)p->getData();
            q = std::allocate_shared<P>(a, static_cast<const P&>(*p));
            break;
        case 4:
            (void)p->getData();
            q = std::allocate_shared<P>(a, std::move(*p));
            break;
        case 5:
            q = other();
            (void)q->getData();
            *q = static_cast<const P&>(*p);
            break;
        case 6:
            q = other();
            *q = std::move(*p);
            break;
        case 7:
            q = std::move(p);
            *q = *static_cast<const P*>(q.get());
            break;
        default:
            q = std::move(p);
            break;
        }
        p.reset();
        return q;
    }
    // the choices of a payload, made before any memory can fail
    void choosePayload(bool bytes)
    {
        m_form = bytes ? 4 + ctx.choose(3) : ctx.choose(7);
        m_shift = ctx.flip(1, 3) ? 1 + ctx.choose(7) : 0;
        m_then = ctx.choose(4);
    }
    const char* formName() const
    {
        static const char* const NAMES[] = {"introspectable copy", "introspectable moved in", "object", "object view",
                "raw copy", "raw moved in", "raw view"};
        return NAMES[m_form];
    }
    template <typename T>
    Held makePayload(const Value& v, const Value& otherValue, const A& a)
    {
        Held h;
        T object(a);
        fill(object, v, a);
        const auto another = [&](const Value& o) {
            T t(a);
            fill(t, o, a);
            return t;
        };
        switch (m_form)
        {
        case 0:
        case 1:
        {
            using P = zserio::BasicIntrospectableServiceData<T, A>;
            std::shared_ptr<P> p = m_form == 0 ? std::allocate_shared<P>(a, static_cast<const T&>(object), a)
                                               : std::allocate_shared<P>(a, std::move(object), a);
            h.introspectable = true;
            h.payload = handOver<P>(std::move(p), a, [&] {
                return std::allocate_shared<P>(a, another(otherValue), a);
            });
            break;
        }
        case 2:
        case 3:
        {
            using P = zserio::BasicObjectServiceData<A>;
            const zserio::View<T> view(object);
            std::shared_ptr<P> p =
                    m_form == 2 ? std::allocate_shared<P>(a, object, a) : std::allocate_shared<P>(a, view, a);
            h.payload = handOver<P>(std::move(p), a, [&] {
                return std::allocate_shared<P>(a, another(otherValue), a);
            });
            break;
        }
        default:
            h = makeRaw(zserio::serializeToBytes(object, a), a);
            break;
        }
        // what happens to the original must not matter
        switch (m_then)
        {
        case 1:
            fill(object, otherValue, a);
            break;
        case 2:
            object = T(a);
            break;
        default:
            break;
        }
        return h;
    }
    Held makeRaw(Bytes bytes, const A& a)
    {
        Held h;
        const auto other = [&](auto* tag) {
            using P = std::remove_pointer_t<decltype(tag)>;
            return std::allocate_shared<P>(a, Bytes({1, 2, 3}, a));
        };
        if (m_form == 6)
        {
            using P = zserio::BasicRawServiceDataView<A>;
            h.backing = std::allocate_shared<Bytes>(a, std::move(bytes));
            auto p = std::allocate_shared<P>(a, Span(h.backing->data(), h.backing->size()));
            h.payload = handOver<P>(std::move(p), a, [&] {
                return std::allocate_shared<P>(a, Span());
            });
        }
        else
        {
            using P = zserio::BasicRawServiceDataHolder<A>;
            std::shared_ptr<P> p = m_form == 4 ? std::allocate_shared<P>(a, static_cast<const Bytes&>(bytes))
                                               : std::allocate_shared<P>(a, std::move(bytes));
            h.payload = handOver<P>(std::move(p), a, [&] {
                return other(static_cast<P*>(nullptr));
            });
            bytes.assign(bytes.size(), 0xA5);
        }
        return h;
    }
    // what the payload exposes; the transport's copy
    std::vector<uint8_t> ask(Held& h, const std::vector<uint8_t>& want, const char* whose)
    {
        const Span s = h.payload->getData();
        const Untracked u;
        SIM_COUNT("check.payload-bytes");
        const std::vector<uint8_t> got(s.begin(), s.end());
        if (got != want)
        {
            ctx.fail("payload-differs", "a %s exposes %zu bytes which are not the %zu of the object it was made from", whose,
                    got.size(), want.size());
        }
        if (h.asked && !std::equal(h.first.begin(), h.first.end(), want.begin(), want.end()))
        {
            ctx.fail("payload-changed", "the bytes a %s exposed first are not there any more", whose);
        }
        if (!h.asked)
        {
            h.asked = true;
            h.first = s;
        }
        return got;
    }
    void inspect(Held& h, const std::vector<uint8_t>& want, const Value* v, const A& a)
    {
        const auto i = h.payload->getIntrospectable();
        if ((i != nullptr) != h.introspectable)
        {
            ctx.fail("introspectable", "a payload %s an introspectable", i != nullptr ? "has" : "does not have");
        }
        if (i == nullptr)
        {
            return;
        }
        const auto bits = i->serialize(a);
        bool ok = bits.getByteSize() == want.size() && std::equal(want.begin(), want.end(), bits.getData().begin());
        if (ok && v != nullptr)
        {
            switch (v->kind)
            {
            case CREATOR:
                ok = i->getField("value")->getUInt32() == v->c.value && i->getField("text")->getStringView() == v->c.text &&
                        i->getField("nestedArray")->size() == v->c.nestedArray.size();
                break;
            case WALKER:
                ok = i->getField("identifier")->getUInt32() == v->w.identifier &&
                        i->getField("text")->getStringView() == v->w.text;
                break;
            default:
                ok = i->getField("stringField")->getStringView() == v->r.stringField;
                break;
            }
        }
        SIM_COUNT("check.introspectable");
        if (!ok)
        {
            ctx.fail("introspectable", "the introspectable of a payload does not show the object it was made from");
        }
    }

    // ---- the service, as it is generated ---------------------------------------------------------------
    class Service : public zserio::IBasicService<A>, public zserio::AllocatorHolder<A>
    {
    public:
        explicit Service(World& w) :
                world(w)
        {}
        Service(World& w, const A& a) :
                zserio::AllocatorHolder<A>(a),
                world(w)
        {}
        DataPtr callMethod(std::string_view methodName, Span requestData, void* context) override
        {
            for (size_t k = 0; k < 4; ++k)
            {
                if (methodName == METHODS[k])
                {
                    return method(static_cast<Kind>(k), requestData, context);
                }
            }
            throw zserio::ServiceException("simulated.Service: Method '") << methodName << "' does not exist!";
        }

    private:
        DataPtr method(Kind k, Span requestData, void* context)
        {
            auto* answer = static_cast<Answer*>(context);
            const A a = this->get_allocator_ref();
            if (k == BYTES)
            {
                Bytes out(requestData.begin(), requestData.end(), a);
                std::reverse(out.begin(), out.end());
                {
                    const Untracked u;
                    answer->want.assign(out.begin(), out.end());
                }
                answer->held = world.makeRaw(std::move(out), a);
                return answer->held.payload;
            }
            visit(k, [&](auto* tag) {
                using T = std::remove_pointer_t<decltype(tag)>;
                T request(a);
                zserio::deserializeFromBytes(requestData, request);
                const auto asked = reference(request);
                const Value& v = world.answerFor(k, asked);
                const Untracked* none = nullptr;
                (void)none;
                visit(answerKind(k), [&](auto* answerTag) {
                    using S = std::remove_pointer_t<decltype(answerTag)>;
                    const auto& pool = world.m_pool[answerKind(k)];
                    answer->held = world.template makePayload<S>(v, pool[(static_cast<size_t>(&v - pool.data()) + 1) % pool.size()], a);
                });
                const Untracked u;
                answer->want = v.bytes;
            });
            return answer->held.payload;
        }
        World& world;
    };
    // a client stub bound to a service in the same process
    class LocalClient : public zserio::IBasicServiceClient<A>, public zserio::AllocatorHolder<A>
    {
    public:
        LocalClient(World& w, Service& s, const A& a) :
                zserio::AllocatorHolder<A>(a),
                world(w),
                service(s)
        {}
        Bytes callMethod(std::string_view methodName, const zserio::IBasicServiceData<A>& requestData, void*) override
        {
            struct Scratch
            {
                Answer* answer;
                Scratch()
                {
                    const Untracked u;
                    answer = new Answer();
                }
                ~Scratch()
                {
                    answer->held.drop();
                    const Untracked u;
                    delete answer;
                }
            } scratch;
            const DataPtr response = service.callMethod(methodName, requestData.getData(), scratch.answer);
            const Span data = response->getData();
            return Bytes(data.begin(), data.end(), this->get_allocator_ref());
        }
        World& world;
        Service& service;
    };

    // ---- publish/subscribe, as it is generated ---------------------------------------------------------
    template <typename T>
    class Callback
    {
    public:
        virtual ~Callback() = default;
        virtual void operator()(std::string_view topic, const T& message) = 0;
    };
    template <typename T>
    class OnRaw : public zserio::IPubsub::OnTopicCallback
    {
    public:
        OnRaw(const std::shared_ptr<Callback<T>>& callback, const A& a) :
                m_callback(callback),
                m_allocator(a)
        {}
        void operator()(std::string_view topic, Span data) override
        {
            if constexpr (std::is_same_v<T, Span>)
            {
                m_callback->operator()(topic, data);
            }
            else
            {
                T message(m_allocator);
                zserio::deserializeFromBytes(data, message);
                m_callback->operator()(topic, message);
            }
        }

    private:
        std::shared_ptr<Callback<T>> m_callback;
        A m_allocator;
    };
    class Topics : public zserio::AllocatorHolder<A>
    {
    public:
        Topics(zserio::IPubsub& pubsub, const A& a) :
                zserio::AllocatorHolder<A>(a),
                m_pubsub(pubsub)
        {}
        template <typename T>
        void publish(std::string_view topic, const T& message, void* context)
        {
            if constexpr (std::is_same_v<T, Span>)
            {
                m_pubsub.publish(topic, message, context);
            }
            else
            {
                const auto buffer = zserio::serializeToBytes(message, this->get_allocator_ref());
                m_pubsub.publish(topic, buffer, context);
            }
        }
        template <typename T>
        zserio::IPubsub::SubscriptionId subscribe(
                std::string_view topic, const std::shared_ptr<Callback<T>>& callback, void* context)
        {
            const auto& onRaw =
                    std::allocate_shared<OnRaw<T>>(this->get_allocator_ref(), callback, this->get_allocator_ref());
            return m_pubsub.subscribe(topic, onRaw, context);
        }
        void unsubscribe(zserio::IPubsub::SubscriptionId id)
        {
            m_pubsub.unsubscribe(id);
        }

    private:
        zserio::IPubsub& m_pubsub;
    };
    struct Published
    {
        const Value* value = nullptr;
        size_t node = 0;
    };
    struct Subscription
    {
        size_t node = 0;
        std::string topic;
        std::shared_ptr<zserio::IPubsub::OnTopicCallback> callback;
    };
    // the transport's end of publish/subscribe
    class Broker : public zserio::IPubsub
    {
    public:
        explicit Broker(World& w) :
                world(w)
        {}
        void publish(std::string_view topic, Span data, void* context) override
        {
            const Untracked u;
            const auto* p = static_cast<const Published*>(context);
            const std::vector<uint8_t> bytes(data.begin(), data.end());
            for (const auto& s : world.m_subscriptions)
            {
                if (s.second.topic == topic)
                {
                    Packet m;
                    m.kind = PUBLICATION;
                    m.from = p->node;
                    m.to = s.second.node;
                    m.name = std::string(topic);
                    m.bytes = bytes;
                    m.value = p->value;
                    m.raw = bytes;
                    m.epoch = world.m_nodes[m.to]->epoch;
                    m.subscription = s.first;
                    world.send(std::move(m));
                }
            }
        }
        SubscriptionId subscribe(
                std::string_view topic, const std::shared_ptr<OnTopicCallback>& callback, void* context) override
        {
            const Untracked u;
            const size_t id = ++world.m_lastSubscription;
            Subscription& s = world.m_subscriptions[id];
            s.node = *static_cast<const size_t*>(context);
            s.topic = std::string(topic);
            s.callback = callback;
            return id;
        }
        void unsubscribe(SubscriptionId id) override
        {
            const auto it = world.m_subscriptions.find(id);
            if (it == world.m_subscriptions.end())
            {
                throw zserio::PubsubException("unknown subscription ") << id;
            }
            // the callback may be the one that is running
            const Untracked u;
            world.m_retired.push_back(std::move(it->second.callback));
            world.m_subscriptions.erase(it);
        }

    private:
        World& world;
    };
    template <typename T>
    class Receiver : public Callback<T>
    {
    public:
        Receiver(World& w, size_t n) :
                world(w),
                node(n)
        {}
        void operator()(std::string_view topic, const T& message) override
        {
            Ctx& ctx = world.ctx;
            const Packet& p = *world.m_delivering;
            if (p.damaged)
            {
                return; // whatever it decoded to
            }
            if constexpr (std::is_same_v<T, Span>)
            {
                if (!std::equal(message.begin(), message.end(), p.raw.begin(), p.raw.end()))
                {
                    ctx.fail("publication-differs", "published bytes arrived differently");
                }
            }
            else if (!same(message, *p.value))
            {
                ctx.fail("publication-differs", "a published %s arrived as another object", KIND_NAMES[p.value->kind]);
            }
            if (topic != p.name)
            {
                ctx.fail("publication-topic", "a publication arrived under another topic");
            }
            SIM_COUNT("check.publication-received");
            world.m_received = true;
            if (world.m_reaction == 1)
            {
                Topics topics(world.broker, world.alloc(*world.m_nodes[node]));
                topics.unsubscribe(p.subscription);
                SIM_COUNT("op.unsubscribe-inside");
            }
            else if (world.m_reaction == 2)
            {
                world.m_reaction = 0;
                world.subscribe(node, p.name == KIND_NAMES[BYTES] ? BYTES : WALKER);
                SIM_COUNT("op.subscribe-inside");
            }
        }

    private:
        World& world;
        size_t node;
    };

    // ---- the simulated network -------------------------------------------------------------------------
    void at(uint64_t time, Event e)
    {
        m_events.emplace(std::make_pair(time, m_serial++), std::move(e));
    }
    void send(Packet p)
    {
        // never called with memory accounting on
        const bool cut = m_faults && p.from != p.to && m_cut != 0 && ((m_cut >> p.from ^ m_cut >> p.to) & 1U) != 0;
        if (cut)
        {
            SIM_COUNT("fault.partitioned");
            ++m_struck;
            return;
        }
        unsigned copies = 1;
        if (m_faults)
        {
            switch (ctx.pick({12, 3, 2, 3, 3}))
            {
            case 1:
                SIM_COUNT("fault.lost");
                ++m_struck;
                ctx.shape(101);
                return;
            case 2:
                SIM_COUNT("fault.duplicated");
                ++m_struck;
                copies = 2 + static_cast<unsigned>(ctx.choose(2));
                break;
            case 3:
            {
                SIM_COUNT("fault.damaged");
                ++m_struck;
                p.damaged = true;
                if (p.kind == REQUEST && ctx.flip(1, 6))
                {
                    p.name += "2"; // there is no such method
                    break;
                }
                if (p.kind == FAILURE)
                {
                    return;
                }
                model::Bits b = bitsOf(p.bytes);
                const auto& other = m_pool[ctx.choose(3)][0].bits;
                for (size_t n = 1 + ctx.choose(2); n > 0; --n)
                {
                    (void)damage::once(ctx, b, other);
                }
                p.bytes.assign((b.b.size() + 7) / 8, 0);
                for (size_t i = 0; i < b.b.size(); ++i)
                {
                    p.bytes[i / 8] = static_cast<uint8_t>(p.bytes[i / 8] | (b.b[i] << (7 - i % 8)));
                }
                break;
            }
            default:
                break;
            }
        }
        for (; copies > 0; --copies)
        {
            Event e;
            e.kind = Event::DELIVER;
            e.packet = p;
            uint64_t delay = 1 + ctx.choose(3);
            if (m_faults && ctx.flip(1, 4))
            {
                SIM_COUNT("fault.delayed");
                ++m_struck;
                delay += ctx.choose(60);
            }
            at(m_now + delay, std::move(e));
        }
    }

    // ---- steps of the nodes ----------------------------------------------------------------------------
    void arm(Node& n)
    {
        m_fired = 0;
        uint64_t atCall = UINT64_MAX;
        uint64_t len = 0;
        if (m_faults && ctx.flip(1, 4))
        {
            atCall = ctx.flip(1, 3) ? ctx.choose(80) : ctx.choose(12);
            len = ctx.flip(1, 2) ? 1 : UINT64_MAX;
        }
        n.memory.plan.set(atCall, len);
        m_default.plan.set(atCall, len);
        g_heap.plan.set(atCall, len);
    }
    void disarm(Node& n)
    {
        m_fired = n.memory.plan.fired + m_default.plan.fired + g_heap.plan.fired;
        n.memory.plan.clear();
        m_default.plan.clear();
        g_heap.plan.clear();
        if (m_fired != 0)
        {
            SIM_COUNT_N("fault.allocation", m_fired);
            ++m_struck;
        }
    }
    // runs a step of a node in its memory; false when it ran out of memory
    template <typename Fn>
    bool inNode(Node& n, const char* what, const Fn& fn)
    {
        arm(n);
        bool memory = true;
        try
        {
            const Tracked t;
            fn();
        }
        catch (const Violation&)
        {
            disarm(n);
            throw;
        }
        catch (const std::bad_alloc&)
        {
            memory = false;
        }
        catch (const std::exception& e)
        {
            disarm(n);
            ctx.fail("unexpected-error", "%s ended with %s", what, e.what());
        }
        disarm(n);
        if (!memory && m_fired == 0)
        {
            ctx.fail("unexpected-error", "%s ran out of memory for no reason", what);
        }
        return memory;
    }
    void startCall();
    void transmit(uint64_t id);
    void deliver(Packet& p);
    void serve(Packet& p);
    void respond(uint64_t id, Answer& a, const Packet& p);
    void receive(const Packet& p);
    void publish();
    void subscribe(size_t node, Kind k);
    void unsubscribe();
    void localCall();
    void crash(size_t node);
    void dispatch(Event& e);
    void addSubscription(size_t node);

    Ctx& ctx;
    Resource m_default{"default"};
    std::pmr::memory_resource* m_old = nullptr;
    std::vector<Value> m_pool[3];
    std::vector<std::unique_ptr<Node>> m_nodes;
    size_t m_servers = 1;
    std::map<uint64_t, Call> m_calls;
    std::map<std::pair<size_t, uint64_t>, Answer> m_answers; // per server and call
    std::map<std::pair<uint64_t, uint64_t>, Event> m_events;
    std::map<size_t, Subscription> m_subscriptions;
    std::vector<std::shared_ptr<zserio::IPubsub::OnTopicCallback>> m_retired;
    size_t m_lastSubscription = 0;
    uint64_t m_now = 0;
    uint64_t m_serial = 0;
    uint64_t m_nextCall = 1;
    bool m_faults = true;
    unsigned m_cut = 0; // one side of the partition
    uint64_t m_struck = 0;
    uint64_t m_fired = 0;
    size_t m_form = 0;
    size_t m_shift = 0;
    size_t m_then = 0;
    const Packet* m_delivering = nullptr;
    bool m_received = false;
    unsigned m_reaction = 0;
    Service service;
    Broker broker{*this};
};

template <typename F>
void World<F>::startCall()
{
    const Untracked u;
    const uint64_t id = m_nextCall++;
    Call& c = m_calls[id];
    const size_t clients = m_nodes.size() - m_servers;
    c.client = m_servers + ctx.choose(clients);
    c.server = ctx.choose(m_servers);
    c.kind = static_cast<Kind>(ctx.choose(4));
    if (!m_nodes[c.client]->up)
    {
        m_calls.erase(id);
        return;
    }
    if (c.kind == BYTES)
    {
        c.want.resize(ctx.choose(20));
        for (auto& b : c.want)
        {
            b = static_cast<uint8_t>(ctx.choose(256));
        }
    }
    else
    {
        c.value = &some(c.kind);
        c.want = c.value->bytes;
    }
    SIM_COUNT("op.call");
    transmit(id);
}

// makes the payload when there is none yet, asks it for its bytes and sends them
template <typename F>
void World<F>::transmit(uint64_t id)
{
    Call& c = m_calls[id];
    Node& n = *m_nodes[c.client];
    std::vector<uint8_t> bytes;
    bool asked = false;
    if (!c.made)
    {
        choosePayload(c.kind == BYTES);
        ctx.log("%llu: node %zu calls %s of node %zu as call %llu with %zu bytes (%s, handed over %zu)",
                static_cast<unsigned long long>(m_now), c.client, METHODS[c.kind], c.server,
                static_cast<unsigned long long>(id), c.want.size(), formName(), m_shift);
        ctx.shape(1000 + m_form * 10 + m_shift);
        const Value* other = c.value != nullptr ? &some(c.kind) : nullptr;
        const bool ok = inNode(n, "making a request", [&] {
            const A a = alloc(n);
            if (c.kind == BYTES)
            {
                Bytes b(c.want.begin(), c.want.end(), a);
                c.request = makeRaw(std::move(b), a);
            }
            else
            {
                visit(c.kind, [&](auto* tag) {
                    using T = std::remove_pointer_t<decltype(tag)>;
                    c.request = makePayload<T>(*c.value, *other, a);
                });
            }
        });
        c.made = ok;
    }
    if (c.made)
    {
        const bool look = ctx.flip(1, 4);
        asked = inNode(n, "asking a request for its bytes", [&] {
            if (look)
            {
                inspect(c.request, c.want, c.value, alloc(n));
            }
            auto got = ask(c.request, c.want, "request");
            const Untracked u;
            bytes = std::move(got);
        });
        if (!asked)
        {
            SIM_COUNT("probe.asked-again-after-no-memory");
        }
    }
    if (asked)
    {
        Packet p;
        p.kind = REQUEST;
        p.from = c.client;
        p.to = c.server;
        p.call = id;
        p.name = METHODS[c.kind];
        p.bytes = bytes;
        send(std::move(p));
        ++c.transmissions;
    }
    ctx.state(mix(m_form * 100 + m_shift) ^ (asked ? 1U : 2U) ^ (static_cast<uint64_t>(c.kind) << 8U));
    Event e;
    e.kind = Event::RETRY;
    e.call = id;
    at(m_now + 15 + ctx.choose(10), std::move(e));
}

template <typename F>
void World<F>::respond(uint64_t id, Answer& answer, const Packet& p)
{
    Node& n = *m_nodes[p.to];
    std::vector<uint8_t> bytes;
    const bool look = ctx.flip(1, 4);
    const bool ok = inNode(n, "asking a response for its bytes", [&] {
        if (look)
        {
            inspect(answer.held, answer.want, nullptr, alloc(n));
        }
        auto got = ask(answer.held, answer.want, "response");
        const Untracked u;
        bytes = std::move(got);
    });
    if (!ok)
    {
        return; // the client will ask again
    }
    Packet r;
    r.kind = RESPONSE;
    r.from = p.to;
    r.to = p.from;
    r.call = id;
    r.bytes = bytes;
    send(std::move(r));
}

template <typename F>
void World<F>::serve(Packet& p)
{
    const auto key = std::make_pair(p.to, p.call);
    const auto it = m_answers.find(key);
    if (it != m_answers.end())
    {
        SIM_COUNT("op.answer-again");
        respond(p.call, it->second, p);
        return;
    }
    Node& n = *m_nodes[p.to];
    Answer answer;
    std::string error;
    const auto method = std::find(std::begin(METHODS), std::end(METHODS), p.name);
    choosePayload(p.name == METHODS[BYTES]);
    ctx.shape(2000 + m_form * 10 + m_shift);
    const bool ok = inNode(n, "serving a request", [&] {
        const A a = alloc(n);
        Service s(*this, a);
        try
        {
            const DataPtr response = s.callMethod(p.name, Span(p.bytes.data(), p.bytes.size()), &answer);
            if (response != answer.held.payload)
            {
                ctx.fail("harness", "the service answers with something else");
            }
        }
        catch (const zserio::CppRuntimeException& e)
        {
            const Untracked u;
            if (method == std::end(METHODS))
            {
                const std::string want = "simulated.Service: Method '" + p.name + "' does not exist!";
                if (dynamic_cast<const zserio::ServiceException*>(&e) == nullptr || e.what() != want)
                {
                    ctx.fail("service-error", "the error for a method that does not exist is: %s", e.what());
                }
            }
            else if (!p.damaged)
            {
                ctx.fail("request-refused", "an intact request for %s is refused: %s", p.name.c_str(), e.what());
            }
            error = e.what();
        }
    });
    ctx.log("%llu: node %zu serves call %llu of node %zu: %s%s", static_cast<unsigned long long>(m_now), p.to,
            static_cast<unsigned long long>(p.call), p.from,
            !ok ? "out of memory" : !error.empty() ? error.c_str() : formName(), p.damaged ? " (damaged)" : "");
    if (!ok || !error.empty())
    {
        {
            const Tracked t;
            answer.held.drop();
        }
        if (m_faults)
        {
            Packet r;
            r.kind = FAILURE;
            r.from = p.to;
            r.to = p.from;
            r.call = p.call;
            r.name = error;
            send(std::move(r));
        }
        return;
    }
    SIM_COUNT(p.damaged ? "probe.damaged-request-decoded" : "op.served");
    if (p.damaged)
    {
        // the transport would have noticed; the service still has to have an answer which can be had
        (void)inNode(n, "asking a response to a damaged request for its bytes", [&] {
            (void)ask(answer.held, answer.want, "response");
        });
        const Tracked t;
        answer.held.drop();
        return;
    }
    // an intact request reached the service as the object that was sent
    const Call& c = m_calls[p.call];
    std::vector<uint8_t> want;
    if (c.kind == BYTES)
    {
        want.assign(c.want.rbegin(), c.want.rend());
    }
    else
    {
        want = answerFor(c.kind, c.want).bytes;
    }
    if (want != answer.want)
    {
        ctx.fail("request-differs", "the service did not see the %s that was sent", KIND_NAMES[c.kind]);
    }
    Answer& kept = m_answers[key];
    kept = std::move(answer);
    respond(p.call, kept, p);
}

template <typename F>
void World<F>::receive(const Packet& p)
{
    Call& c = m_calls[p.call];
    if (c.lost)
    {
        return;
    }
    Node& n = *m_nodes[p.to];
    bool good = false;
    std::string error;
    if (p.kind == RESPONSE)
    {
        const bool ok = inNode(n, "reading a response", [&] {
            const A a = alloc(n);
            const Span data(p.bytes.data(), p.bytes.size());
            if (c.kind == BYTES)
            {
                good = std::equal(data.begin(), data.end(), c.want.rbegin(), c.want.rend());
                return;
            }
            visit(answerKind(c.kind), [&](auto* tag) {
                using T = std::remove_pointer_t<decltype(tag)>;
                T response(a);
                try
                {
                    const auto view = zserio::deserializeFromBytes(data, response);
                    (void)view;
                    good = same(response, answerFor(c.kind, c.want));
                    if (p.damaged)
                    {
                        // whatever it is: an object like any other
                        (void)zserio::serializeToBytes(response, a);
                    }
                }
                catch (const zserio::CppRuntimeException& e)
                {
                    const Untracked u;
                    error = e.what();
                }
            });
        });
        if (!ok)
        {
            return;
        }
        if (p.damaged)
        {
            SIM_COUNT("check.damaged-response");
            return;
        }
        SIM_COUNT("check.response");
        if (!error.empty())
        {
            ctx.fail("response-refused", "an intact response of %s is refused: %s", METHODS[c.kind], error.c_str());
        }
        if (!good)
        {
            ctx.fail("response-differs", "the response of %s did not arrive as the object that was sent", METHODS[c.kind]);
        }
        if (!c.done)
        {
            c.done = true;
            ctx.log("%llu: call %llu is answered", static_cast<unsigned long long>(m_now),
                    static_cast<unsigned long long>(p.call));
            // the payload may be kept for longer than it is needed
            if (ctx.flip(1, 2))
            {
                const Tracked t;
                c.request.drop();
                c.made = false;
            }
        }
    }
}

template <typename F>
void World<F>::subscribe(size_t node, Kind k)
{
    Node& n = *m_nodes[node];
    const A a = alloc(n);
    Topics topics(broker, a);
    if (k == BYTES)
    {
        const auto callback = std::allocate_shared<Receiver<Span>>(a, *this, node);
        (void)topics.template subscribe<Span>(KIND_NAMES[k], callback, &node);
        return;
    }
    visit(k, [&](auto* tag) {
        using T = std::remove_pointer_t<decltype(tag)>;
        const auto callback = std::allocate_shared<Receiver<T>>(a, *this, node);
        (void)topics.template subscribe<T>(KIND_NAMES[k], callback, &node);
    });
}

template <typename F>
void World<F>::addSubscription(size_t node)
{
    if (!m_nodes[node]->up)
    {
        return;
    }
    const Kind k = static_cast<Kind>(ctx.choose(4));
    SIM_COUNT("op.subscribe");
    (void)inNode(*m_nodes[node], "subscribing", [&] {
        subscribe(node, k);
    });
}

template <typename F>
void World<F>::unsubscribe()
{
    if (m_subscriptions.empty())
    {
        return;
    }
    auto it = m_subscriptions.begin();
    std::advance(it, static_cast<ptrdiff_t>(ctx.choose(m_subscriptions.size())));
    const size_t id = it->first;
    Node& n = *m_nodes[it->second.node];
    const bool twice = ctx.flip(1, 4);
    SIM_COUNT("op.unsubscribe");
    (void)inNode(n, "unsubscribing", [&] {
        Topics topics(broker, alloc(n));
        topics.unsubscribe(id);
        if (twice)
        {
            try
            {
                topics.unsubscribe(id);
            }
            catch (const zserio::PubsubException& e)
            {
                const Untracked u;
                if (e.what() != "unknown subscription " + std::to_string(id))
                {
                    ctx.fail("pubsub-error", "the error of an unknown subscription is: %s", e.what());
                }
                return;
            }
            ctx.fail("harness", "unsubscribed twice");
        }
    });
    const Tracked t;
    m_retired.clear();
}

template <typename F>
void World<F>::publish()
{
    const size_t node = ctx.choose(m_nodes.size());
    const Kind k = static_cast<Kind>(ctx.choose(4));
    Node& n = *m_nodes[node];
    if (!n.up)
    {
        return;
    }
    Published what;
    what.node = node;
    std::vector<uint8_t> raw(k == BYTES ? ctx.choose(20) : 0);
    for (auto& b : raw)
    {
        b = static_cast<uint8_t>(ctx.choose(256));
    }
    what.value = k == BYTES ? nullptr : &some(k);
    ctx.log("%llu: node %zu publishes %s", static_cast<unsigned long long>(m_now), node, KIND_NAMES[k]);
    ctx.shape(3000 + static_cast<uint64_t>(k));
    SIM_COUNT("op.publish");
    (void)inNode(n, "publishing", [&] {
        const A a = alloc(n);
        Topics topics(broker, a);
        if (k == BYTES)
        {
            topics.template publish<Span>(KIND_NAMES[k], Span(raw.data(), raw.size()), &what);
            return;
        }
        visit(k, [&](auto* tag) {
            using T = std::remove_pointer_t<decltype(tag)>;
            T object(a);
            fill(object, *what.value, a);
            topics.publish(KIND_NAMES[k], object, &what);
        });
    });
}

template <typename F>
void World<F>::localCall()
{
    const size_t node = ctx.choose(m_nodes.size());
    Node& n = *m_nodes[node];
    if (!n.up)
    {
        return;
    }
    const Kind k = static_cast<Kind>(ctx.choose(3));
    const Value& v = some(k);
    choosePayload(false);
    const bool introspectable = ctx.flip(1, 2);
    ctx.log("%llu: node %zu calls %s of its own", static_cast<unsigned long long>(m_now), node, METHODS[k]);
    ctx.shape(4000 + static_cast<uint64_t>(k));
    SIM_COUNT("op.local-call");
    (void)inNode(n, "a call in the same process", [&] {
        const A a = alloc(n);
        Service s(*this, a);
        LocalClient client(*this, s, a);
        visit(k, [&](auto* tag) {
            using T = std::remove_pointer_t<decltype(tag)>;
            T request(a);
            fill(request, v, a);
            Bytes data(a);
            if (introspectable)
            {
                const zserio::BasicIntrospectableServiceData<T, A> requestData(request, a);
                data = client.callMethod(METHODS[k], requestData, nullptr);
            }
            else
            {
                const zserio::BasicObjectServiceData<A> requestData(request, a);
                data = client.callMethod(METHODS[k], requestData, nullptr);
            }
            visit(answerKind(k), [&](auto* answerTag) {
                using S = std::remove_pointer_t<decltype(answerTag)>;
                S response(a);
                zserio::deserializeFromBytes(data, response);
                SIM_COUNT("check.local-response");
                if (!same(response, answerFor(k, v.bytes)))
                {
                    ctx.fail("response-differs", "a call in the same process has another response");
                }
            });
        });
    });
}

template <typename F>
void World<F>::crash(size_t node)
{
    Node& n = *m_nodes[node];
    if (!n.up)
    {
        return;
    }
    ctx.log("%llu: node %zu crashes", static_cast<unsigned long long>(m_now), node);
    ctx.shape(5000 + node);
    SIM_COUNT("fault.crash");
    ++m_struck;
    n.up = false;
    ++n.epoch;
    for (auto it = m_answers.begin(); it != m_answers.end();)
    {
        if (it->first.first == node)
        {
            {
                const Tracked t;
                it->second.held.drop();
            }
            it = m_answers.erase(it);
        }
        else
        {
            ++it;
        }
    }
    for (auto& c : m_calls)
    {
        if (c.second.client == node)
        {
            const Tracked t;
            c.second.lost = true;
            c.second.request.drop();
        }
    }
    for (auto it = m_subscriptions.begin(); it != m_subscriptions.end();)
    {
        if (it->second.node == node)
        {
            {
                const Tracked t;
                it->second.callback.reset();
            }
            it = m_subscriptions.erase(it);
        }
        else
        {
            ++it;
        }
    }
    if (n.memory.liveBlocks != 0)
    {
        ctx.fail("memory-leak", "%llu blocks of a node are left when everything it had is gone",
                static_cast<unsigned long long>(n.memory.liveBlocks));
    }
    Event e;
    e.kind = Event::RESTART;
    e.node = node;
    at(m_now + 5 + ctx.choose(60), std::move(e));
}

template <typename F>
void World<F>::deliver(Packet& p)
{
    Node& n = *m_nodes[p.to];
    if (!n.up)
    {
        SIM_COUNT("fault.receiver-down");
        return;
    }
    switch (p.kind)
    {
    case REQUEST:
        if (!m_calls[p.call].lost)
        {
            serve(p);
        }
        break;
    case RESPONSE:
    case FAILURE:
        receive(p);
        break;
    default:
    {
        const auto it = m_subscriptions.find(p.subscription);
        if (p.epoch != n.epoch || it == m_subscriptions.end())
        {
            return;
        }
        m_delivering = &p;
        m_received = false;
        m_reaction = ctx.flip(1, 6) ? 1 + static_cast<unsigned>(ctx.choose(2)) : 0;
        std::string error;
        const bool ok = inNode(n, "receiving a publication", [&] {
            const auto callback = it->second.callback;
            try
            {
                (*callback)(p.name, Span(p.bytes.data(), p.bytes.size()));
            }
            catch (const zserio::CppRuntimeException& e)
            {
                const Untracked u;
                error = e.what();
            }
        });
        m_delivering = nullptr;
        {
            const Tracked t;
            m_retired.clear();
        }
        if (ok && !p.damaged && (!error.empty() || !m_received))
        {
            ctx.fail("publication-refused", "an intact publication of %s is refused: %s", p.name.c_str(), error.c_str());
        }
        break;
    }
    }
}

template <typename F>
void World<F>::dispatch(Event& e)
{
    switch (e.kind)
    {
    case Event::DELIVER:
        deliver(e.packet);
        break;
    case Event::RETRY:
    {
        const Call& c = m_calls[e.call];
        if (!c.done && !c.lost)
        {
            SIM_COUNT("op.retransmission");
            transmit(e.call);
        }
        break;
    }
    default:
        m_nodes[e.node]->up = true;
        SIM_COUNT("op.restart");
        ctx.log("%llu: node %zu is back", static_cast<unsigned long long>(m_now), e.node);
        addSubscription(e.node);
        break;
    }
}

template <typename F>
void World<F>::run()
{
    struct Cleanup
    {
        World& w;
        ~Cleanup()
        {
            const Tracked t;
            for (auto& c : w.m_calls)
            {
                c.second.request.drop();
            }
            for (auto& a : w.m_answers)
            {
                a.second.held.drop();
            }
            for (auto& s : w.m_subscriptions)
            {
                s.second.callback.reset();
            }
            w.m_retired.clear();
        }
    };
    obj::GenOptions o;
    o.bigSometimes = false;
    for (size_t k = 0; k < 3; ++k)
    {
        m_pool[k].resize(2 + ctx.choose(3));
        for (auto& v : m_pool[k])
        {
            v.kind = static_cast<Kind>(k);
            switch (k)
            {
            case CREATOR:
                v.c = obj::genCreator(ctx, o);
                break;
            case WALKER:
                v.w = obj::genWalker(ctx, o);
                break;
            default:
                v.r = obj::genReflectable(ctx, o);
                break;
            }
            v.encode();
        }
    }
    m_servers = 1 + ctx.choose(2);
    static const char* const NAMES[] = {"node 0", "node 1", "node 2", "node 3", "node 4"};
    const size_t nodes = m_servers + 1 + ctx.choose(3);
    for (size_t i = 0; i < nodes; ++i)
    {
        m_nodes.push_back(std::make_unique<Node>(NAMES[i]));
    }
    {
        const Cleanup cleanup{*this};
        const size_t steps = 5 + ctx.choose(60);
        for (size_t i = 0; i < steps && !ctx.tapeFull(); ++i)
        {
            ctx.step();
            switch (ctx.pick({10, 4, 3, 2, 2, 3, 2, 2}))
            {
            case 0:
                for (size_t n = 1 + ctx.choose(6); n > 0 && !m_events.empty(); --n)
                {
                    const auto it = m_events.begin();
                    m_now = it->first.first;
                    Event e = std::move(it->second);
                    m_events.erase(it);
                    dispatch(e);
                    ctx.step();
                }
                break;
            case 1:
                startCall();
                break;
            case 2:
                publish();
                break;
            case 3:
                addSubscription(ctx.choose(nodes));
                break;
            case 4:
                unsubscribe();
                break;
            case 5:
                localCall();
                break;
            case 6:
                crash(ctx.choose(nodes));
                break;
            default:
                m_cut = m_cut != 0 ? 0 : static_cast<unsigned>(1 + ctx.choose((1U << nodes) - 1));
                ctx.log("%llu: partition %x", static_cast<unsigned long long>(m_now), m_cut);
                break;
            }
        }
        // faults stop: everything still wanted is done within a bounded number of steps
        m_faults = false;
        m_cut = 0;
        ctx.log("%llu: faults stop", static_cast<unsigned long long>(m_now));
        size_t pending = 0;
        for (const auto& c : m_calls)
        {
            pending += !c.second.done && !c.second.lost ? 1 : 0;
        }
        const size_t bound = m_events.size() + 40 * (pending + 1) + 200;
        size_t done = 0;
        while (!m_events.empty() && !ctx.tapeFull())
        {
            const auto it = m_events.begin();
            m_now = it->first.first;
            Event e = std::move(it->second);
            m_events.erase(it);
            dispatch(e);
            ctx.step();
            if (++done > bound)
            {
                ctx.fail("no-progress", "%zu calls were pending when faults stopped and are not answered after %zu steps", pending,
                        done);
            }
        }
        if (!ctx.tapeFull())
        {
            for (const auto& c : m_calls)
            {
                SIM_COUNT("check.call-finished");
                if (!c.second.done && !c.second.lost)
                {
                    ctx.fail("no-progress", "call %llu was never answered", static_cast<unsigned long long>(c.first));
                }
            }
        }
    }
    SIM_COUNT_N("simulated-time", m_now);
    for (const auto& n : m_nodes)
    {
        if (n->memory.liveBlocks != 0)
        {
            ctx.fail("memory-leak", "%llu blocks of a node are left at the end",
                    static_cast<unsigned long long>(n->memory.liveBlocks));
        }
    }
    if (m_default.liveBlocks != 0 || g_heap.liveBlocks != 0)
    {
        ctx.fail("memory-leak", "%llu blocks are left at the end",
                static_cast<unsigned long long>(m_default.liveBlocks + g_heap.liveBlocks));
    }
    ctx.nontrivial = m_struck != 0;
}

} // namespace
