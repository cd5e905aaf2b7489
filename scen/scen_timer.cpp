// P02: one-shot timers.
#include "common.hpp"

using namespace scen;
using namespace app::reactor;

namespace
{
constexpr unsigned POOL = 32;

struct T
{
    TimerPtr ptr;
    bool armed = false;
    Time notBefore = 0;     // earliest legal expiry
    Time latest = 0;        // start returned + interval
    unsigned fires = 0;
};

struct W
{
    ExecReactor* ex;
    std::vector<T> t;
    bool throwing = false;
    bool resFaults = false;
    bool longIntervals = false;
    Time slack = 0;
    unsigned live = 0;
    unsigned opsLeft = 0;
};
W* w;

long drawInterval()
{
    if (w->longIntervals && draw(S_OPS, 8) == 7)
    {
        // beyond what 31 and 32 bits of microseconds can hold
        count("timer_long_intervals");
        switch (draw(S_OPS, 4))
        {
        case 0: return 2147483647l + draw(S_OPS, 3);
        case 1: return 4294967295l + draw(S_OPS, 3);
        case 2: return 3600000000l + draw(S_OPS, 1000);
        default: return 4300000000l + 1000l * draw(S_OPS, 100000);
        }
    }
    switch (pickw(S_OPS, {3, 2, 2, 2, 1, 1, 1}))
    {
    case 6: return draw(S_OPS, 2);      // due at once
    case 0: return 1000 * (1 + draw(S_OPS, 50));
    case 1: return 1 + draw(S_OPS, 2000);
    case 2: return 999990 + draw(S_OPS, 20);
    case 3: return 1000000l * (1 + draw(S_OPS, 6)) - draw(S_OPS, 2) * 1;
    case 4: return 1000l * draw(S_OPS, 30000);
    default: return static_cast<long>(draw(S_OPS, 4000000));
    }
}

void op(unsigned i, unsigned kind);

void onTimer(unsigned i)
{
    T& t = w->t[i];
    trace("timer %u fires", i);
    if (!t.armed)
    {
        violation("P02", "timer %u fired although it was stopped, released or had already fired", i);
    }
    if (now() < t.notBefore)
    {
        violation("P02", "timer %u fired %.6f s too early", i, (t.notBefore - now()) / 1e9);
    }
    if (now() > t.latest + w->slack)
    {
        violation("P02", "timer %u fired %.6f s late", i, (now() - t.latest) / 1e9);
    }
    t.armed = false;
    ++t.fires;
    count("timer_expiries");
    if (w->opsLeft && draw(S_OPS, 3) == 2)
    {
        --w->opsLeft;
        unsigned const j = draw(S_OPS, 2) ? i : draw(S_OPS, static_cast<uint32_t>(w->t.size()));
        op(j, draw(S_OPS, 5));
        count("timer_ops_inside_timer_handlers");
    }
    if (w->throwing && draw(S_OPS, 2))
    {
        fail();
    }
}

void start(unsigned i, long us)
{
    T& t = w->t[i];
    if (!t.ptr)
    {
        return;
    }
    if (us < 60000000 && w->opsLeft && draw(S_OPS, 6) == 5)
    {
        // expires on a full second of the clock, if the clock is read where it is expected (each block costs 5 ns)
        Time const ahead = sched.callCost + 5 * (1 + draw(S_OPS, 4));
        spend((US - (monoNow() + ahead) % US) % US);
        us = (us / 1000000) * 1000000 + static_cast<long>((SEC - (monoNow() + ahead) % SEC) / US);
        count("timer_full_second");
    }
    trace("start timer %u %ld us", i, us);
    if (t.armed)
    {
        count("timer_restarts_while_armed");
    }
    t.armed = true;
    t.notBefore = now() + us * US;
    t.ptr->start(us);
    t.latest = now() + us * US;
}

void create(unsigned i)
{
    T& t = w->t[i];
    if (t.ptr)
    {
        return;
    }
    try
    {
        t.ptr = w->ex->reactor->createTimer([i] { onTimer(i); });
        ++w->live;
        for (auto& o : w->t)
        {
            if (&o != &t && o.ptr.get() == t.ptr.get())
            {
                violation("P02,P16", "two timers at the same time are the same object");
            }
        }
    }
    catch (std::exception const& e)
    {
        trace("createTimer %u failed: %s", i, e.what());
        count("timer_create_failures");
        if (w->live < POOL && !w->resFaults)
        {
            violation("P02,P16", "a timer cannot be created although only %u of %u are in use", w->live, POOL);
        }
    }
}

void op(unsigned i, unsigned kind)
{
    T& t = w->t[i];
    switch (kind)
    {
    case 0:
    case 1:
        create(i);
        start(i, drawInterval());
        break;
    case 2:
        if (t.ptr)
        {
            trace("stop timer %u", i);
            t.ptr->stop();
            t.armed = false;
            count("timer_stops");
        }
        break;
    case 3:
        if (t.ptr)
        {
            trace("release timer %u", i);
            t.armed = false;
            t.ptr.reset();
            --w->live;
            count("timer_releases");
        }
        break;
    default:
        // several timers that expire together: their events land in one batch
    {
        unsigned const n = 2 + draw(S_OPS, 11);
        long const us = 1000 * (1 + draw(S_OPS, 20));
        for (unsigned k = 0; k < n; ++k)
        {
            unsigned const j = (i + k) % w->t.size();
            create(j);
            start(j, us);
        }
        if (draw(S_OPS, 2))
        {
            sleepFor(us * US + 5 * MS);      // the reactor thread is busy while they all expire
            count("timer_batches_expiring_while_busy");
            // what happens to an expired, not yet handled timer
            for (unsigned k = 0; k < n; ++k)
            {
                unsigned const j = (i + k) % w->t.size();
                switch (draw(S_OPS, 5))
                {
                case 1: op(j, 2); break;
                case 2: op(j, 3); break;
                case 3: start(j, drawInterval()); break;
                default: break;
                }
            }
        }
        break;
    }
    }
}

void run(bool throwing, bool resFaults)
{
    drawSched();
    drawLogs();
    W ww;
    w = &ww;
    ReactorManager mgr;
    ExecReactor ex(mgr);
    w->ex = &ex;
    w->throwing = throwing;
    w->resFaults = resFaults;
    // lateness: exact scheduling in calm runs, generous when threads are stalled
    w->slack = sched.stallDen ? 10 * SEC : 700 * MS;
    unsigned const n = pick<unsigned>(S_CFG, {3, 8, 31, 32, 36});
    w->t.resize(n);
    w->opsLeft = 60;
    w->longIntervals = draw(S_CFG, 16) == 15;
    if (draw(S_CFG, 3) == 2)
    {
        enableFault(F_EPOLL_EINTR, 1, 8);
    }
    if (resFaults)
    {
        enableFault(F_TIMERFD_FAIL, 1, 4);
        enableFault(F_CLOSE_EINTR, 1, 8);
        enableFault(F_EPOLL_CTL_ADD, 1, 4);
    }
    mgr.start();
    unsigned const ops = 5 + draw(S_CFG, 40);
    for (unsigned k = 0; k < ops; ++k)
    {
        switch (pickw(S_OPS, {6, 3, 1}))
        {
        case 0:
        {
            unsigned const i = draw(S_OPS, n);
            unsigned const kind = draw(S_OPS, 5);
            if (!ex.exec([i, kind] { op(i, kind); }, 60 * SEC))
            {
                violation("P02,P01", "the reactor no longer runs work posted to it");
            }
            break;
        }
        case 1:
            sleepFor(static_cast<Time>(1 + draw(S_OPS, 200)) * 5 * MS);
            break;
        default:
            jumpClock((static_cast<Time>(draw(S_OPS, 2001)) - 1000) * 3600 * SEC);
            break;
        }
    }
    faultsOff();
    w->opsLeft = 0;
    nontrivial();
    sleepFor(10 * MS);
    for (;;)
    {
        Time last = 0;
        for (auto& t : w->t)
        {
            if (t.armed)
            {
                last = std::max({last, t.latest, t.notBefore});
            }
        }
        if (now() > last + w->slack + 100 * MS)
        {
            break;
        }
        sleepFor(last - now() + w->slack + 101 * MS);
    }
    for (unsigned i = 0; i < n; ++i)
    {
        if (w->t[i].armed)
        {
            violation(throwing ? "P02,P04" : "P02", "timer %u was started and never fired", i);
        }
    }
    // resources: every released timer is available again, and no descriptor is left behind
    w->resFaults = false;
    w->throwing = false;
    ex.exec([] {
        for (auto& t : w->t)
        {
            if (t.ptr)
            {
                t.ptr.reset();
                --w->live;
            }
        }
    });
    if (osStats().timers != 0)
    {
        violation("P02,P16", "%d timer descriptors left after every timer was released", osStats().timers);
    }
    bool ok = ex.exec([] {
        for (unsigned k = 0; k < POOL && k < w->t.size(); ++k)
        {
            create(k);
            start(k, 1000);
        }
    });
    sleepFor(w->slack + 10 * MS);
    for (unsigned i = 0; i < n && i < POOL; ++i)
    {
        if (!ok || w->t[i].armed || !w->t[i].ptr)
        {
            violation("P02,P16", "timers created after releases do not work");
        }
    }
    finishRun();
}

Register r1("timer", "P02", [] { run(false, false); });
Register r2("timerthrow", "P04,P02", [] { run(true, false); });
Register r3("timerres", "P16,P02", [] { run(false, true); });

} // namespace
