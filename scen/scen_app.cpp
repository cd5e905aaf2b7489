// P15: the whole application as it is deployed: start and stop of the services, shutdown, destruction.
#include "mb.hpp"
#include "ua.hpp"
#include "Deployer.hpp"
#include "MsgControllerStartReq.hpp"
#include "MsgControllerStopReq.hpp"

int uscada_main(int, char**);

namespace
{
using namespace uac;

constexpr uint16_t UAPORT = 0x1111, MBPORT = 0x2f71;
constexpr Time SETTLE = 12 * SEC;      // a start or stop request has taken effect by then

struct W
{
    Shared sh;
    bool stopReturned = false, gone = false;
    int inHandler = 0;
    bool mbTouched = false;         // an outside Modbus client may have upset the self test
    bool quit = false;
    unsigned clients = 0;           // harness clients at work
    unsigned mbWrites = 0;          // Modbus messages the application has sent
};
W* w;

// A component of the harness in the same manager: messages to itself, a timer, slow handlers.
struct Busy : Comp<30>
{
    using Msg = ExecMsg<30>;
    TimerPtr timer;
    std::vector<uint32_t> payload;
    bool slow;
    bool talk;
    unsigned left = 400;        // messages it may still send to itself
    Busy(SenderInterface& s, ReactorInterface& r, bool slow_, bool talk_) : Comp<30>(s, r), payload(64, 7), slow(slow_), talk(talk_)
    {
        r.registerHandler(Msg::msgId(), [this](MsgInterface const&) {
            work("a message");
            if (talk && left)
            {
                --left;
                sleepFor(static_cast<Time>(draw(S_OPS, 100)) * MS);
                getSender().send(Msg{});
            }
        });
    }
    void work(const char* what)
    {
        if (w->stopReturned)
        {
            violation("P15", "%s is handled after stop() has returned", what);
        }
        struct In
        {
            In() { ++w->inHandler; }
            ~In() { --w->inHandler; }
        } in;
        count("app_busy");
        if (!timer)
        {
            timer = getReactor().createTimer([this] {
                work("a timer");
                timer->start(1 + static_cast<long>(draw(S_OPS, 30)) * 1000);
            });
            timer->start(10);
        }
        if (slow && draw(S_OPS, 40) == 39)
        {
            sleepFor(static_cast<Time>(draw(S_OPS, 3000)) * MS);
        }
        for (auto x : payload)
        {
            if (x != 7)
            {
                violation("P15", "%s is handled by a destroyed component", what);
            }
        }
    }
};

void uaSession(const char* when, Time limit = -1)
{
    Client c(w->sh);
    auto need = [&](bool ok, const char* what) {
        if (!ok && (limit < 0 || now() < limit))
        {
            violation("P15", "%s: %s fails%s", when, what, c.over ? " (disconnected)" : "");
        }
        return ok;
    };
    if (!need(c.connect(UAPORT), "connecting to the OPC UA server"))
    {
        return;
    }
    PendPtr p;
    c.helloSent = true;
    c.send(helloMsg());
    if (!need(c.pump([&] { return c.acked; }, now() + 10 * SEC), "the OPC UA hello"))
    {
        return;
    }
    c.send(c.opnWire(p));
    if (!need(c.waitRsp(p, 10 * SEC), "opening a secure channel"))
    {
        return;
    }
    uint32_t h = w->sh.nextHandle++;
    p = c.expect(CREATE, CREATE_R, h);
    c.send(c.msgWire(p, createBody(h, 60000)));
    if (!need(c.waitRsp(p, 10 * SEC), "creating a session"))
    {
        return;
    }
    uint32_t const tok = p->token;
    h = w->sh.nextHandle++;
    p = c.expect(ACTIVATE, ACTIVATE_R, h);
    c.send(c.msgWire(p, activateBody(tok, h)));
    if (!need(c.waitRsp(p, 10 * SEC), "activating a session"))
    {
        return;
    }
    h = w->sh.nextHandle++;
    p = c.expect(READ, READ_R, h);
    c.send(c.msgWire(p, readBody(tok, h, 1)));
    if (!need(c.waitRsp(p, 10 * SEC), "a read"))
    {
        return;
    }
    if (draw(S_OPS, 2))
    {
        h = w->sh.nextHandle++;
        p = c.expect(CLOSES, CLOSES_R, h);
        p->token = tok;
        w->sh.tokens.erase(tok);
        c.send(c.msgWire(p, closeBody(tok, h)));
        if (!need(c.waitRsp(p, 10 * SEC), "closing a session"))
        {
            return;
        }
    }
    w->sh.tokens.erase(tok);
    c.close(draw(S_OPS, 2));
    count("app_ua_served");
}

// Clients that come and go at any time; nothing is asked of the answers, they only must do no harm.
void strayUa()
{
    Client c(w->sh);
    if (c.connect(UAPORT, 2 * SEC))
    {
        count("app_stray_ua");
        PendPtr p;
        c.bad = true;
        c.helloSent = true;
        c.send(helloMsg());
        c.send(c.opnWire(p));
        c.pump({}, now() + static_cast<Time>(draw(S_OPS, 4000)) * MS);
        if (c.chan && !c.over)
        {
            uint32_t const h = w->sh.nextHandle++;
            p = c.expect(CREATE, CREATE_R, h);
            c.send(c.msgWire(p, createBody(h, 60000)));
            c.pump({}, now() + static_cast<Time>(draw(S_OPS, 30000)) * MS);
            w->sh.tokens.clear();
        }
        switch (draw(S_OPS, 3))
        {
        case 0: c.close(false); break;
        case 1: c.close(true); break;
        case 2: c.pump({}, now() + 60 * SEC); c.close(false); break;
        }
    }
    --w->clients;
}

void strayModbus()
{
    PeerConn c;
    if (peerConnect(c, MBPORT, now() + 2 * SEC))
    {
        count("app_stray_mb");
        w->mbTouched = true;
        unsigned const n = draw(S_OPS, 200);
        for (unsigned i = 0; i < n && c.connected() && !w->quit; ++i)
        {
            mb::Bytes pdu;
            static const uint8_t fn[] = {3, 4, 6, 16, 1, 43};
            uint8_t const f = fn[draw(S_OPS, 6)];
            pdu.push_back(f);
            mb::be16(pdu, pick<uint32_t>(S_OPS, {0, 890, 65535, 1023, 1024, 40000}));
            unsigned const items = pick<uint32_t>(S_OPS, {1, 120, 125, 10, 2});
            if (f == 16)
            {
                unsigned const k = std::min(items, 120u);
                mb::be16(pdu, k);
                pdu.push_back(static_cast<uint8_t>(2 * k));
                pdu.insert(pdu.end(), 2 * k, 0x5a);
            }
            else
            {
                mb::be16(pdu, items);
            }
            c.send(mb::adu(pick<uint32_t>(S_OPS, {0, 3, 15, 16, 65535, 1000}), 1, pdu));
            if (c.available())
            {
                count("app_mb_answer");
                c.takeAll();
            }
            sleepFor(static_cast<Time>(draw(S_OPS, 40)) * MS);
        }
        if (draw(S_OPS, 2))
        {
            sleepFor(static_cast<Time>(draw(S_OPS, 20000)) * MS);
        }
        draw(S_OPS, 2) ? c.close() : c.abort();
    }
    --w->clients;
}

// The Modbus server answers, and the self test of the application goes on.
void mbServed(const char* when)
{
    unsigned const n0 = w->mbWrites;
    Time const t0 = now();
    bool served = false;
    for (unsigned k = 0; k < 5 && !served; ++k)
    {
        PeerConn c;
        if (!peerConnect(c, MBPORT, now() + 2 * SEC))
        {
            continue;
        }
        // a request that is met between two runs of the self test is not answered
        for (unsigned i = 0; i < 3 && !served && c.connected(); ++i)
        {
            unsigned const n = 1 + draw(S_OPS, 20), tid = pick<unsigned>(S_OPS, {3, 0, 7, 8, 10});
            mb::Bytes pdu{static_cast<uint8_t>(3 + draw(S_OPS, 2))};
            mb::be16(pdu, draw(S_OPS, 900));
            mb::be16(pdu, n);
            c.takeAll();
            c.send(mb::adu(tid, 1, pdu));
            auto const r = c.recv(9 + 2 * n, now() + 2 * SEC);
            served = r.size() == 9 + 2 * n && r[0] == 0 && r[1] == tid && r[7] == pdu[0] && r[8] == 2 * n;
        }
        c.close();
    }
    if (!served)
    {
        violation("P15", "%s: the Modbus server answers no request", when);
    }
    count("app_mb_served");
    waitUntil([] { return false; }, std::max(now(), t0 + 13 * SEC));      // one run takes five seconds and a little
    if (w->mbWrites < n0 + 20 && !w->mbTouched)
    {
        violation("P15", "%s: the Modbus self test has come to a stop (%u messages in %.1f s)", when, w->mbWrites - n0, double(now() - t0) / SEC);
    }
    count("app_mb_selftest");
}

void strays(bool modbus)
{
    if (draw(S_OPS, 3) == 2)
    {
        ++w->clients;
        spawn("ua", strayUa);
    }
    if (modbus && draw(S_OPS, 3) == 2)
    {
        ++w->clients;
        spawn("mb", strayModbus);
    }
}

void checkStopped(const char* when)
{
    OsStats const s = osStats();
    if (s.listeners)
    {
        violation("P15", "%s: %d listening sockets are left (OPC UA %d, Modbus %d)", when, s.listeners, portListening(UAPORT), portListening(MBPORT));
    }
    auto const v = sutConns();
    if (!v.empty())
    {
        violation("P15", "%s: %zu connections are left", when, v.size());
    }
    if (s.sockets)
    {
        violation("P15", "%s: %d sockets are left", when, s.sockets);
    }
}

void checkGone()
{
    if (threadsAlive())
    {
        violation("P15,P16", "%d threads are left after the application is gone", threadsAlive());
    }
    OsStats const s = osStats();
    if (s.openFds)
    {
        violation("P15,P16", "%d descriptors are left after the application is gone: %s", s.openFds, fdDump().c_str());
    }
    if (s.badCloses)
    {
        violation("P15,P16", "close() was called on %d descriptors that were not open", s.badCloses);
    }
}

// Runs fn on a thread of the application; false when it does not come back within the limit.
bool onThread(const char* name, std::function<void()> fn, Time limit)
{
    auto done = std::make_shared<bool>(false);
    Fiber* f = spawn(name, [done, fn] { fn(); *done = true; }, true);
    (void)f;
    return waitUntil([done] { return *done; }, now() + limit);
}

void runMain(bool faulty)
{
    if (faulty)
    {
        enableFault(F_THREAD_CREATE_FAIL, 1, pick<uint32_t>(S_FAULT, {4, 8, 2}), 1);
    }
    auto done = std::make_shared<int>(-1);
    spawn("main", [done] { *done = uscada_main(0, nullptr); }, true);
    Time const t0 = now();
    sleepFor(static_cast<Time>(draw(S_OPS, 12000)) * MS);
    strays(true);
    if (!faulty)
    {
        waitUntil([] { return false; }, t0 + SETTLE);
        if (!portListening(MBPORT) && !w->mbTouched && !net.spikeDen)
        {
            violation("P15", "main: the Modbus server is not there 12 s after the start");
        }
        uaSession("main, 12 s after the start", t0 + 20 * SEC);
    }
    strays(true);
    if (!waitUntil([done] { return *done >= 0; }, t0 + 45 * SEC))
    {
        violation("P15", "main() has not returned 45 s after its start (it has to after about 22 s)");
    }
    nontrivial();
    count("app_main");
    checkGone();
    w->quit = true;
    finishRun();
}

void run(bool faulty)
{
    W world;
    w = &world;
    drawSched();
    sched.stallBudget = SEC;
    drawLogs();
    world.sh.wallStable = !drawClockJumps();
    onSutWrite = [](int, Sock& s, const uint8_t*, size_t n) {
        auto const p = s.peer.lock();
        w->mbWrites += n >= 8 && (s.port == MBPORT || (p && p->port == MBPORT));
    };
    drawNet(false);
    if (draw(S_CFG, 4) == 3)
    {
        runMain(faulty);
    }
    unsigned const depl = draw(S_CFG, 8) == 7;
    bool const busy = draw(S_CFG, 2), slow = draw(S_CFG, 2), talk = draw(S_CFG, 2);
    bool const strayOk = draw(S_CFG, 2);
    unsigned cycles = draw(S_CFG, 4);
    if (draw(S_CFG, 24) == 23)
    {
        cycles = 34 + draw(S_CFG, 4);       // more often than there are slots in any pool
        longRun(6);
        count("app_many_cycles");
    }
    bool const noStart = draw(S_CFG, 16) == 15;
    bool const stopTwice = draw(S_CFG, 4) == 3, noStop = draw(S_CFG, 4) == 3;
    if (faulty)
    {
        switch (draw(S_CFG, 4))
        {
        case 0: enableFault(F_THREAD_CREATE_FAIL, 1, pick<uint32_t>(S_FAULT, {6, 3, 2, 1}), 1); break;
        case 1: enableFault(F_BIND_FAIL, 1, 2, 2); break;
        case 2: enableFault(F_TIMERFD_FAIL, 1, 4, 2); break;
        case 3: enableFault(F_EPOLL_EINTR, 1, 50, 100); enableFault(F_CONNECT_SYNC_FAIL, 1, 2, 1); break;
        }
    }

    std::unique_ptr<ReactorManager> mgr;
    Busy* b = nullptr;
    bool started = false;
    onThread("main", [&] {
        mgr = std::make_unique<ReactorManager>();
        app::Deployer().apply(*mgr, depl ? app::DeploymentType::def : app::DeploymentType::cpu3);
        if (busy)
        {
            auto r = std::make_unique<Reactor>(Reactor::Init{9, 1, 0});
            auto c = std::make_unique<Busy>(*mgr, *r, slow, talk);
            b = c.get();
            mgr->addComponent(std::move(c));
            mgr->addReactor(std::move(r));
        }
        if (noStart)
        {
            return;
        }
        try
        {
            mgr->start();
            started = true;
        }
        catch (std::exception const& e)
        {
            trace("start failed: %s", e.what());
            count("app_start_failed");
        }
    }, 60 * SEC);
    if (started)
    {
        bool up = false;            // a start request is in force
        Time last = now();          // when the last request was made
        bool clean = true;          // everything since then ran without faults
        for (unsigned i = 0; i < cycles * 2 + (cycles ? draw(S_OPS, 2) : 0); ++i)
        {
            unsigned const k = draw(S_OPS, 8);
            bool const again = k == 7;              // the same request a second time
            bool const start = again ? up : !up;
            if (b)
            {
                mgr->send(Busy::Msg{});
            }
            bool const twice = start && up;
            if (start)
            {
                onThread("op", [&] { mgr->send(app::MsgControllerStartReq{}); }, SEC);
                count("app_start");
            }
            else
            {
                onThread("op", [&] { mgr->send(app::MsgControllerStopReq{}); }, SEC);
                count(up ? "app_stop" : "app_stop_idle");
            }
            up = start;
            last = now();
            clean = !faulty || !faultsOn();
            bool const touched = w->mbTouched;
            switch (draw(S_OPS, 5))
            {
            case 4:
            {
                // the next request meets whatever state the application is in when it sets its n-th timer
                unsigned const n = osStats().timerArms + 1 + draw(S_OPS, 120);
                waitUntil([n] { return osStats().timerArms >= n; }, now() + 11 * SEC);
                sleepFor(static_cast<Time>(draw(S_OPS, 2) ? draw(S_OPS, 10) : 0) * MS);
                break;
            }
            case 0:
                sleepFor(SETTLE);
                break;
            case 1:
                sleepFor(static_cast<Time>(draw(S_OPS, 4000)) * MS);
                break;
            case 2:
                sleepFor(static_cast<Time>(draw(S_OPS, 20)) * MS);
                break;
            case 3:
                break;
            }
            if (strayOk)
            {
                strays(true);
            }
            if (now() - last < SETTLE || depl)
            {
                continue;
            }
            nontrivial();
            if (!up)
            {
                checkStopped("12 s after a stop request");
            }
            else if (clean)
            {
                if (!portListening(MBPORT) && !w->mbTouched && !touched && !twice && !net.spikeDen)
                {
                    violation("P15", "the Modbus server is not there 12 s after a start request");
                }
                if (!faulty && portListening(MBPORT) && !w->mbTouched && !touched && !twice && !net.spikeDen)
                {
                    mbServed("12 s after a start request");
                }
                uaSession("12 s after a start request");
            }
            if (faulty && draw(S_OPS, 2))
            {
                faultsOff();
            }
            if (!w->clients)
            {
                w->mbTouched = false;
            }
        }
        if (faulty)
        {
            // once the faults are over a stop and a start bring the services back
            faultsOff();
            if (!depl && draw(S_OPS, 2))
            {
                mgr->send(app::MsgControllerStopReq{});
                sleepFor(draw(S_OPS, 2) ? SETTLE : 0);
                mgr->send(app::MsgControllerStartReq{});
                sleepFor(SETTLE);
                uaSession("after the faults are over and a start request");
            }
        }
    }
    if (b && started)
    {
        mgr->send(Busy::Msg{});
        sleepFor(static_cast<Time>(draw(S_OPS, 300)) * MS);
    }
    if (!noStop)
    {
        for (int i = 0; i < (stopTwice ? 2 : 1); ++i)
        {
            Time const t0 = now();
            if (!onThread("stop", [&] { mgr->stop(); if (started) { w->stopReturned = true; } }, 20 * SEC))
            {
                violation("P15", "stop() has not returned after 20 s");
            }
            trace("stop() took %lld ms", static_cast<long long>((now() - t0) / MS));
            if (started && w->inHandler)
            {
                violation("P15", "a handler is still running when stop() has returned");
            }
        }
        if (draw(S_OPS, 2))
        {
            sleepFor(static_cast<Time>(draw(S_OPS, 3000)) * MS);
        }
    }
    if (!onThread("destroy", [&] { mgr.reset(); }, 30 * SEC))
    {
        violation("P15", "the application is not destroyed within 30 s");
    }
    nontrivial();
    count("app_destroyed");
    if (!started)
    {
        count("app_destroyed_unstarted");
    }
    checkGone();
    w->quit = true;
    finishRun();
}

Register r1("app", "P15,P14,P16", [] { run(false); });
Register r2("appfault", "P15,P14,P16", [] { run(true); });

} // namespace
