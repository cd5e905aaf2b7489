// P01/P04: messages between components.
#include "common.hpp"
#include <list>

using namespace scen;
using namespace app::reactor;

namespace
{

constexpr unsigned QUEUE = 64;

struct Body
{
    uint32_t seq;
    uint32_t size;
    uint64_t salt;
};

uint8_t fill(uint64_t salt, size_t i) { return static_cast<uint8_t>((salt >> ((i % 7) * 8)) + i * 37); }

template <ComponentId C, MsgId M, size_t N> struct PayloadMsg : MsgBase<PayloadMsg<C, M, N>, C, M>
{
    Body b;
    uint8_t data[N];
    void set(uint32_t seq, uint64_t salt)
    {
        b = {seq, N, salt};
        for (size_t i = 0; i < N; ++i)
        {
            data[i] = fill(salt, i);
        }
    }
    bool ok() const
    {
        if (b.size != N)
        {
            return false;
        }
        for (size_t i = 0; i < N; ++i)
        {
            if (data[i] != fill(b.salt, i))
            {
                return false;
            }
        }
        return true;
    }
};

// vtable + Body
constexpr size_t HDR = sizeof(void*) + sizeof(Body);
constexpr size_t SZ[4] = {8, 200, 2048, maxMsgSize - HDR};

struct Rec
{
    uint64_t start = 0, end = 0;
    uint64_t salt = 0;
    int reactor = 0;
    bool mustArrive = false;
    bool sent = false;
    unsigned handled = 0;
};

constexpr uint32_t NOSEQ = 0xffffffff;

struct Out
{
    uint64_t start;
    uint64_t end;       // 0: not finished
    uint32_t seq;
};

struct W
{
    ReactorManager* mgr;
    std::vector<Reactor*> reactors;
    std::vector<Rec> recs;
    uint64_t clock = 0;
    std::vector<uint64_t> maxStart;
    std::vector<unsigned> started;            // sends begun, per reactor
    std::vector<std::list<Out>> out;          // sends that may still wait in the queue, per reactor
    std::vector<Fiber*> inHandler;
    std::vector<int> threads;
    std::vector<Fiber*> reactorThread;
    bool throwing = false;
    int forwardLeft = 0;
    bool strays = false;        // messages to components nobody deployed are mixed in
};
W* w;

int compReactor[4];

void sendOne(int comp, unsigned size);

void onMsg(int reactor, bool ok, Body const& b)
{
    if (w->threads[reactor] == 1)
    {
        if (w->inHandler[reactor])
        {
            violation("P01", "two handlers of a single-threaded reactor run at the same time");
        }
        if (!w->reactorThread[reactor])
        {
            w->reactorThread[reactor] = current();
        }
        else if (w->reactorThread[reactor] != current())
        {
            violation("P01", "handlers of one component run on different threads");
        }
    }
    if (!ok || b.seq >= w->recs.size() || w->recs[b.seq].salt != b.salt)
    {
        violation("P01,P04", "message content altered in transit (seq %u)", b.seq);
    }
    Rec& r = w->recs[b.seq];
    if (!r.sent)
    {
        violation("P01,P04", "message %u delivered before it was sent", b.seq);
    }
    if (r.handled++)
    {
        violation("P01,P04", "message %u delivered twice", b.seq);
    }
    if (r.reactor != reactor)
    {
        violation("P01,P04", "message %u delivered to the wrong component", b.seq);
    }
    if (w->threads[reactor] == 1)
    {
        if (r.end && r.end < w->maxStart[reactor])
        {
            violation("P01,P04", "message %u handled after a message that was sent later", b.seq);
        }
    }
    w->maxStart[reactor] = std::max(w->maxStart[reactor], r.start);
    // queues are first in, first out: whatever was sent before this one does not wait any more
    w->out[reactor].remove_if([&](Out const& o) { return o.seq == b.seq || (o.end && o.end < r.start); });
    trace("handles message %u", b.seq);
    count("messages_handled");
    w->inHandler[reactor] = current();
    if (draw(S_OPS, 4) == 3)
    {
        sleepFor(static_cast<Time>(draw(S_OPS, 40)) * 100 * US);     // slow handler
    }
    if (w->forwardLeft > 0 && draw(S_OPS, 4) == 3)
    {
        --w->forwardLeft;
        count("messages_forwarded_from_handler");
        sendOne(static_cast<int>(draw(S_OPS, 4)), draw(S_OPS, 4));
    }
    w->inHandler[reactor] = nullptr;
    if (w->throwing && draw(S_OPS, 3) == 2)
    {
        fail();
    }
}

template <ComponentId C, size_t K> struct Kind
{
    using M = PayloadMsg<C, C * 10 + K, SZ[K]>;
    static void reg(Reactor& r, int reactor)
    {
        r.registerHandler(M::msgId(), [reactor](MsgInterface const& m) {
            auto const& x = static_cast<M const&>(m);
            bool ok = m.getMsgId() == C * 10 + K && m.getCompId() == C && x.ok();
            onMsg(reactor, ok, x.b);
        });
    }
    static void send(uint32_t seq, uint64_t salt)
    {
        M m;
        m.set(seq, salt);
        w->mgr->send(m);
    }
};

template <ComponentId C> void regAll(Reactor& r, int reactor)
{
    Kind<C, 0>::reg(r, reactor);
    Kind<C, 1>::reg(r, reactor);
    Kind<C, 2>::reg(r, reactor);
    Kind<C, 3>::reg(r, reactor);
}
template <ComponentId C> void sendKind(unsigned k, uint32_t seq, uint64_t salt)
{
    switch (k)
    {
    case 0: Kind<C, 0>::send(seq, salt); break;
    case 1: Kind<C, 1>::send(seq, salt); break;
    case 2: Kind<C, 2>::send(seq, salt); break;
    default: Kind<C, 3>::send(seq, salt); break;
    }
}

// Nobody has deployed these: such a message goes nowhere and must not disturb the others.
void sendStray(unsigned i)
{
    count("msg_undeployed");
    switch (i)
    {
    case 0: w->mgr->send(ExecMsg<40>{}); break;
    case 1: w->mgr->send(ExecMsg<11>{}); break;
    case 2: w->mgr->send(ExecMsg<10>{}); break;
    case 3: w->mgr->send(ExecMsg<41>{}); break;
    case 4: w->mgr->send(ExecMsg<9>{}); break;
    default: w->mgr->send(ExecMsg<8>{}); break;
    }
}

void sendOne(int comp, unsigned k)
{
    if (w->strays && draw(S_OPS, 6) == 5)
    {
        sendStray(draw(S_OPS, 6));
    }
    uint32_t const seq = static_cast<uint32_t>(w->recs.size());
    int const rx = compReactor[comp];
    Rec r;
    r.salt = seq * 0x9E3779B97F4A7C15ull ^ (uint64_t(k) << 60);
    r.reactor = rx;
    r.start = ++w->clock;
    r.sent = true;
    w->recs.push_back(r);
    ++w->started[rx];
    // upper bound of what can be pending while this send executes
    w->out[rx].push_back(Out{r.start, 0, seq});
    unsigned const before = static_cast<unsigned>(w->out[rx].size());
    uint64_t const startedBefore = w->started[rx];
    trace("sends message %u to component %d (size class %u), <=%u pending", seq, comp, k, before);
    switch (comp)
    {
    case 0: sendKind<20>(k, seq, r.salt); break;
    case 1: sendKind<21>(k, seq, r.salt); break;
    case 2: sendKind<22>(k, seq, r.salt); break;
    default: sendKind<23>(k, seq, r.salt); break;
    }
    Rec& q = w->recs[seq];
    q.end = ++w->clock;
    for (auto& o : w->out[rx])
    {
        if (o.seq == seq)
        {
            o.end = q.end;
        }
    }
    unsigned const worst = before + static_cast<unsigned>(w->started[rx] - startedBefore);
    q.mustArrive = worst <= QUEUE;
    if (!q.mustArrive)
    {
        count("sends_at_full_queue");
    }
    count("messages_sent");
}

struct UnknownMsg : MsgBase<UnknownMsg, 20, 7777>
{
    uint64_t x = 1;
};
struct NoCompMsg : MsgBase<NoCompMsg, 99, 7778>
{
    uint64_t x = 1;
};

void run(bool faulty, unsigned longBurst = 0)
{
    if (longBurst)
    {
        longRun(longBurst > 10000 ? 20 : 4);
    }
    drawSched();
    drawLogs();
    W ww;
    w = &ww;
    ReactorManager mgr;
    w->mgr = &mgr;
    unsigned const nReactors = 1 + draw(S_CFG, 3);
    bool const multi = !faulty && draw(S_CFG, 8) == 7;
    for (unsigned i = 0; i < nReactors; ++i)
    {
        unsigned const th = multi ? 2 : 1;
        auto r = std::make_unique<Reactor>(Reactor::Init{i, th, draw(S_CFG, 2) ? (1ull << i) : 0ull});
        w->reactors.push_back(r.get());
        w->threads.push_back(th);
        mgr.addReactor(std::move(r));
    }
    w->maxStart.assign(nReactors, 0);
    w->started.assign(nReactors, 0);
    w->out.resize(nReactors);
    w->inHandler.assign(nReactors, nullptr);
    w->reactorThread.assign(nReactors, nullptr);
    for (int c = 0; c < 4; ++c)
    {
        compReactor[c] = c % nReactors;
    }
    mgr.addComponent(std::make_unique<Comp<20>>(mgr, *w->reactors[compReactor[0]]));
    mgr.addComponent(std::make_unique<Comp<21>>(mgr, *w->reactors[compReactor[1]]));
    mgr.addComponent(std::make_unique<Comp<22>>(mgr, *w->reactors[compReactor[2]]));
    mgr.addComponent(std::make_unique<Comp<23>>(mgr, *w->reactors[compReactor[3]]));
    regAll<20>(*w->reactors[compReactor[0]], compReactor[0]);
    regAll<21>(*w->reactors[compReactor[1]], compReactor[1]);
    regAll<22>(*w->reactors[compReactor[2]], compReactor[2]);
    regAll<23>(*w->reactors[compReactor[3]], compReactor[3]);

    if (draw(S_CFG, 3) == 2)
    {
        enableFault(F_EPOLL_EINTR, 1, 8);
    }
    w->throwing = faulty;
    w->strays = draw(S_CFG, 4) == 3;
    w->forwardLeft = draw(S_CFG, 2) ? 60 : 0;

    // some messages are queued before the reactors run
    unsigned const early = draw(S_OPS, 6);
    for (unsigned i = 0; i < early; ++i)
    {
        sendOne(static_cast<int>(draw(S_OPS, 4)), draw(S_OPS, 4));
    }
    mgr.start();

    unsigned const nSenders = longBurst > 10000 ? 1 : 1 + draw(S_CFG, 4);
    unsigned const burst = longBurst ? longBurst : pick<unsigned>(S_CFG, {5, 20, 60, 150});
    std::vector<Fiber*> senders;
    for (unsigned s = 0; s < nSenders; ++s)
    {
        senders.push_back(spawn("sender" + std::to_string(s), [burst, longBurst] {
            for (unsigned i = 0; i < burst; ++i)
            {
                if (longBurst && draw(S_OPS, 16))
                {
                    // mostly as fast as they are handled
                    waitUntil([] {
                        for (size_t k = 0; k < w->started.size(); ++k)
                        {
                            if (w->out[k].size() > 40)
                            {
                                return false;
                            }
                        }
                        return true;
                    }, now() + 100 * MS);
                }
                switch (pickw(S_OPS, {12, 2, 1, 1}))
                {
                case 0:
                    sendOne(static_cast<int>(draw(S_OPS, 4)), draw(S_OPS, 4));
                    break;
                case 1:
                    sleepFor(static_cast<Time>(1 + draw(S_OPS, 50)) * 50 * US);
                    break;
                case 2:
                {
                    UnknownMsg m;
                    ++w->started[compReactor[0]];
                    auto& q = w->out[compReactor[0]];
                    uint64_t const t = ++w->clock;
                    q.push_back(Out{t, 0, NOSEQ});
                    w->mgr->send(m);
                    for (auto& o : q)
                    {
                        if (o.start == t)
                        {
                            o.end = ++w->clock;
                        }
                    }
                    count("unknown_message_ids");
                    break;
                }
                default:
                {
                    NoCompMsg m;
                    w->mgr->send(m);
                    count("unknown_components");
                    break;
                }
                }
            }
        }, true));
    }
    waitUntil([&] {
        for (auto* s : senders)
        {
            if (!finished(s))
            {
                return false;
            }
        }
        return true;
    });
    faultsOff();
    nontrivial();
    auto pending = [&] {
        unsigned n = 0;
        for (auto& r : w->recs)
        {
            n += r.mustArrive && !r.handled;
        }
        return n;
    };
    // Liveness: everything accepted is handled; bound = time for all queued slow handlers + slack.
    waitUntil([&] { return pending() == 0; }, now() + 20 * SEC);
    if (pending())
    {
        unsigned n = pending(), first = 0;
        while (!(w->recs[first].mustArrive && !w->recs[first].handled))
        {
            ++first;
        }
        violation(faulty ? "P01,P04" : "P01", "message %u was accepted but never handled (%u lost of %zu)", first, n, w->recs.size());
    }
    sleepFor(3 * SEC);      // anything that was accepted although the bound did not oblige it is drained as well
    // a sentinel sent on an idle system is handled without any other wake-up
    for (int c = 0; c < 4; ++c)
    {
        size_t const id = w->recs.size();
        bool const savedThrow = w->throwing;
        w->throwing = false;
        w->forwardLeft = 0;
        sendOne(c, 0);
        if (!waitUntil([&] { return w->recs[id].handled != 0; }, now() + 5 * SEC))
        {
            violation(faulty ? "P01,P04" : "P01", "a message sent to an idle component is not handled");
        }
        w->throwing = savedThrow;
    }
    finishRun();
}

Register r1("msg", "P01", [] { run(false); });
Register r3("msglong", "P01", [] { run(false, 1000); });
Register r4("msgmarathon", "P01", [] { run(false, 90000); });
Register r2("msgthrow", "P04,P01", [] { run(true); });

} // namespace
