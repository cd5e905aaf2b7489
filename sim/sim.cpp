#include "internal.hpp"

#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <link.h>
#include <exception>
#include <memory>
#include <queue>
#include <sys/mman.h>
#include <typeinfo>
#include <unistd.h>
#include <cxxabi.h>

extern "C"
{
void __sanitizer_start_switch_fiber(void** fake, const void* bottom, size_t size);
void __sanitizer_finish_switch_fiber(void* fake, const void** bottom, size_t* size);
void sim_switch_asm(void** saveSp, void* newSp);
}

asm(R"(
.text
.globl sim_switch_asm
.type sim_switch_asm,@function
sim_switch_asm:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch_asm,.-sim_switch_asm
)");

namespace sim
{

Shared* sh;
uint8_t* covMap;
bool g_trace;
bool g_replay;
std::vector<uint32_t> g_replayData[S_NUM];
SchedCfg sched;
Time g_realtimeOffset;

const char* const faultNames[F_NUM] = {
    "epoll_wait_EINTR", "epoll_ctl_add_fails", "socket_EMFILE", "accept_fails", "timerfd_fails", "fcntl_fails",
    "bind_fails", "connect_sync_fails", "connect_sync_ok", "connect_blackhole", "spurious_epoll_event", "epoll_ctl_mod_fails",
    "write_fails", "read_fails", "thread_stall", "clock_jump", "net_delay_spike", "net_segment_split",
    "net_reset", "net_partition", "peer_close", "peer_reset", "peer_silent", "peer_garbage",
    "peer_duplicate", "peer_late", "peer_refused", "small_send_buffer", "handler_exception", "pthread_create_fails",
    "preemption", "pool_exhaustion", "close_EINTR"
};

namespace
{

struct Rng
{
    uint64_t s[2];
    static uint64_t mix(uint64_t& x)
    {
        x += 0x9e3779b97f4a7c15ull;
        uint64_t z = x;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    void seed(uint64_t v) { s[0] = mix(v); s[1] = mix(v); }
    uint64_t next()
    {
        uint64_t a = s[0], b = s[1];
        uint64_t r = a + b;
        b ^= a;
        s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16);
        s[1] = (b << 37) | (b >> 27);
        return r;
    }
};

Rng rngs[S_NUM];
const char* g_variant = "";

struct Event
{
    Time t;
    uint64_t seq;
    std::shared_ptr<std::function<void()>> fn;
};
struct EventLess
{
    bool operator()(Event const& a, Event const& b) const
    {
        return a.t != b.t ? a.t > b.t : a.seq > b.seq;
    }
};

struct FaultCfg { uint32_t num = 0, den = 0, left = 0; };

} // namespace

struct Fiber
{
    int id;
    std::string name;
    std::function<void()> fn;
    bool sut;
    bool done = false;
    bool blocked = false;
    bool started = false;
    std::function<bool()> pred;
    Time deadline = -1;
    Time stallUntil = 0;
    uint64_t waiting = 0;           // scheduling decisions since last run
    int nopreempt = 0;
    void* sp = nullptr;
    char* stack = nullptr;
    size_t stackSize = 0;
    void* fake = nullptr;
    int err = 0;
    char eh[16] = {};
    std::vector<char> tls;          // thread-local storage of the code under test
    Time sliceStart = 0;
};

namespace
{
struct State
{
    Time now = 0;
    uint64_t evSeq = 0;
    std::priority_queue<Event, std::vector<Event>, EventLess> events;
    std::vector<std::unique_ptr<Fiber>> fibers;
    Fiber* cur = nullptr;
    bool faultsOn = true;
    bool running = false;
    FaultCfg faults[F_NUM];
    int64_t countdown = -1;
    bool inEvents = false;
};
State* S;
void* mainSp;

inline uint64_t mixHash(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0x100000001b3ull;
}

uint32_t nextValue(Stream s, uint32_t n, uint32_t (*gen)(Rng&, uint32_t, uint32_t), uint32_t aux)
{
    uint32_t v;
    uint32_t const i = sh->len[s];
    if (g_replay)
    {
        v = i < g_replayData[s].size() ? g_replayData[s][i] : 0;
        if (v >= n)
        {
            v %= n;
        }
    }
    else
    {
        // a run is what is recorded of it: beyond that, as in a replay, nothing is drawn any more
        v = i < STREAM_CAP ? gen(rngs[s], n, aux) : 0;
    }
    if (i < STREAM_CAP)
    {
        sh->data[s][i] = v;
        sh->len[s] = i + 1;
    }
    else
    {
        sh->overflow = 1;
    }
    return v;
}

} // namespace

uint32_t draw(Stream s, uint32_t n)
{
    if (n <= 1)
    {
        return 0;
    }
    return nextValue(s, n, [](Rng& r, uint32_t n, uint32_t) { return static_cast<uint32_t>((r.next() >> 16) % n); }, 0);
}

bool chance(Stream s, uint32_t num, uint32_t den)
{
    if (num == 0)
    {
        return false;
    }
    // aux packs num/den; both are < 65536
    return nextValue(s, 2, [](Rng& r, uint32_t, uint32_t aux) {
        return static_cast<uint32_t>(((r.next() >> 16) % (aux & 0xffff)) < (aux >> 16));
    }, (num << 16) | den);
}

uint32_t pickw(Stream s, std::initializer_list<uint32_t> weights)
{
    uint32_t total = 0;
    for (auto w : weights)
    {
        total += w;
    }
    static uint32_t const* ws;
    static size_t wn;
    ws = weights.begin();
    wn = weights.size();
    return nextValue(s, static_cast<uint32_t>(weights.size()), [](Rng& r, uint32_t, uint32_t total) {
        uint32_t x = static_cast<uint32_t>((r.next() >> 16) % total);
        for (uint32_t i = 0; i < wn; ++i)
        {
            if (x < ws[i])
            {
                return i;
            }
            x -= ws[i];
        }
        return 0u;
    }, total);
}

Time now() { return S->now; }

void at(Time when, std::function<void()> fn)
{
    S->events.push(Event{when < S->now ? S->now : when, S->evSeq++, std::make_shared<std::function<void()>>(std::move(fn))});
}

Fiber* current() { return S->cur; }
int fiberId(Fiber* f) { return f ? f->id : -1; }
bool finished(Fiber* f) { return f->done; }
bool tracing() { return g_trace; }
const char* variant() { return g_variant; }

int liveSutFibers()
{
    int n = 0;
    for (auto& f : S->fibers)
    {
        n += f->sut && !f->done;
    }
    return n;
}

void noPreempt(int d)
{
    if (S && S->cur)
    {
        S->cur->nopreempt += d;
    }
}

void hashEvent(uint64_t a, uint64_t b, uint64_t c)
{
    uint64_t h = sh->hash;
    h = mixHash(h, a);
    h = mixHash(h, b);
    h = mixHash(h, c);
    h = mixHash(h, static_cast<uint64_t>(S->now));
    sh->hash = mixHash(h, S->cur ? S->cur->id : 0);
}

void count(const char* name, uint64_t n)
{
    for (auto& c : sh->counters)
    {
        if (c.name[0] == 0)
        {
            strncpy(c.name, name, sizeof(c.name) - 1);
        }
        if (strncmp(c.name, name, sizeof(c.name) - 1) == 0)
        {
            c.n += n;
            return;
        }
    }
}

void nontrivial() { sh->nontriv = 1; }

void trace(const char* fmt, ...)
{
    if (!g_trace)
    {
        return;
    }
    char buf[1200];
    int n = snprintf(buf, sizeof(buf), "%12.6f %-10s ", S ? S->now / 1e9 : 0.0,
                     S && S->cur ? S->cur->name.c_str() : "net");
    va_list ap;
    va_start(ap, fmt);
    n += vsnprintf(buf + n, sizeof(buf) - n, fmt, ap);
    va_end(ap);
    if (n >= (int)sizeof(buf))
    {
        n = sizeof(buf) - 1;
    }
    if (sh->traceLen + n + 2 < TRACE_CAP)
    {
        memcpy(sh->traceBuf + sh->traceLen, buf, n);
        sh->traceLen += n;
        sh->traceBuf[sh->traceLen++] = '\n';
    }
}

static void finalStats()
{
    sh->simNs = S ? S->now : 0;
}

void finishRun()
{
    finalStats();
    trace("run complete");
    sh->status = Shared::OK;
    _exit(0);
}

static std::string demangledType()
{
    if (auto* t = abi::__cxa_current_exception_type())
    {
        int st;
        char* d = abi::__cxa_demangle(t->name(), nullptr, nullptr, &st);
        return d ? d : t->name();
    }
    return "";
}

void crashed(const char* key, const char* msg)
{
    finalStats();
    snprintf(sh->props, sizeof(sh->props), "*");
    snprintf(sh->key, sizeof(sh->key), "%s", key);
    snprintf(sh->msg, sizeof(sh->msg), "%s", msg);
    trace("VIOLATION [*] %s", msg);
    sh->status = Shared::VIOLATION;
    _exit(0);
}

void violation(const char* props, const char* fmt, ...)
{
    finalStats();
    snprintf(sh->props, sizeof(sh->props), "%s", props);
    snprintf(sh->key, sizeof(sh->key), "%s", fmt);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof(sh->msg), fmt, ap);
    va_end(ap);
    trace("VIOLATION [%s] %s", props, sh->msg);
    sh->status = Shared::VIOLATION;
    _exit(0);
}

void harnessError(const char* fmt, ...)
{
    finalStats();
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof(sh->msg), fmt, ap);
    va_end(ap);
    snprintf(sh->key, sizeof(sh->key), "%s", fmt);
    trace("HARNESS ERROR %s", sh->msg);
    sh->status = Shared::HARNESS;
    _exit(0);
}

// ---- faults ---------------------------------------------------------------------------------

void enableFault(Fault f, uint32_t num, uint32_t den, uint32_t maxFires)
{
    S->faults[f] = {num, den, maxFires};
}
void faultsOff() { S->faultsOn = false; }
bool faultsOn() { return S->faultsOn; }
void countFault(Fault f, uint64_t n) { sh->faults[f] += n; }
bool fires(Fault f)
{
    auto& c = S->faults[f];
    if (!S->faultsOn || c.num == 0 || c.left == 0)
    {
        return false;
    }
    if (!chance(S_FAULT, c.num, c.den))
    {
        return false;
    }
    --c.left;
    countFault(f);
    trace("fault: %s", faultNames[f]);
    hashEvent(0xfa, f);
    return true;
}

// ---- fibers ---------------------------------------------------------------------------------

namespace
{

void switchTo(Fiber* next);
[[noreturn]] void fiberMain()
{
    __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
    Fiber* self = S->cur;
    try
    {
        self->fn();
    }
    catch (std::exception const& e)
    {
        std::string m = "uncaught exception in thread '" + self->name + "': " + e.what();
        crashed("uncaught exception", m.c_str());
    }
    catch (...)
    {
        crashed("uncaught exception", "uncaught exception of unknown type");
    }
    self->done = true;
    hashEvent(0xd0, self->id);
    trace("exits");
    blockOn([] { return false; }, -1, 0xdd);
    abort();
}

void runDueEvents()
{
    if (S->inEvents)
    {
        return;
    }
    S->inEvents = true;
    Fiber* saved = S->cur;
    S->cur = nullptr;
    while (!S->events.empty() && S->events.top().t <= S->now)
    {
        Event e = S->events.top();
        S->events.pop();
        (*e.fn)();
    }
    S->cur = saved;
    S->inEvents = false;
}

void rearmCountdown()
{
    if (sched.blockMean == 0)
    {
        S->countdown = INT64_MAX;
        return;
    }
    // choices are capped so that the recorded value stays small
    S->countdown = 1 + draw(S_SCHED, sched.blockMean * 2);
}

bool canRun(Fiber* f)
{
    if (f->done)
    {
        return false;
    }
    if (f->stallUntil > S->now)
    {
        return false;
    }
    if (!f->blocked)
    {
        return true;
    }
    if (f->deadline >= 0 && f->deadline <= S->now)
    {
        return true;
    }
    return f->pred && f->pred();
}

constexpr uint64_t STARVE = 200;
uint64_t g_maxSteps = 1000000;
uint64_t g_maxBlocks = 400000000;

// Chooses the fiber to run next.  'self' may be nullptr/blocked/done.
Fiber* chooseNext(bool preferOther)
{
    static std::vector<Fiber*> cand;
    for (;;)
    {
        runDueEvents();
        cand.clear();
        for (auto& f : S->fibers)
        {
            if (canRun(f.get()))
            {
                cand.push_back(f.get());
            }
        }
        if (!cand.empty())
        {
            break;
        }
        // nothing runnable: jump to the next interesting time
        Time t = -1;
        auto upd = [&](Time x) { if (x >= 0 && (t < 0 || x < t)) t = x; };
        if (!S->events.empty())
        {
            upd(S->events.top().t);
        }
        for (auto& f : S->fibers)
        {
            if (f->done)
            {
                continue;
            }
            if (f->stallUntil > S->now)
            {
                upd(f->stallUntil);
            }
            else if (f->blocked && f->deadline >= 0)
            {
                upd(f->deadline);
            }
        }
        if (t < 0)
        {
            std::string who;
            for (auto& f : S->fibers)
            {
                if (!f->done)
                {
                    who += " " + f->name;
                }
            }
            S->cur = nullptr;
            crashed("deadlock", ("deadlock: every thread is blocked forever:" + who).c_str());
        }
        S->now = t > S->now ? t : S->now;
    }
    Fiber* starving = nullptr;
    for (auto* f : cand)
    {
        if (f != S->cur)
        {
            ++f->waiting;
            if (f->waiting > STARVE && (!starving || f->waiting > starving->waiting))
            {
                starving = f;
            }
        }
    }
    Fiber* next;
    if (starving)
    {
        next = starving;
    }
    else
    {
        if (preferOther && cand.size() > 1)
        {
            for (size_t i = 0; i < cand.size(); ++i)
            {
                if (cand[i] == S->cur)
                {
                    cand.erase(cand.begin() + i);
                    break;
                }
            }
        }
        // longest waiting first => choice 0 is round robin
        size_t best = 0;
        for (size_t i = 1; i < cand.size(); ++i)
        {
            if (cand[i]->waiting > cand[best]->waiting)
            {
                best = i;
            }
        }
        std::swap(cand[0], cand[best]);
        next = cand[draw(S_SCHED, static_cast<uint32_t>(cand.size()))];
    }
    next->waiting = 0;
    return next;
}

// Every simulated thread has its own copy of the thread_local variables of the code under test: the TLS block of this
// executable is exchanged at every switch (the harness itself has no thread_local).
char* tlsBlock;
std::vector<char> tlsInit;

int findTls(struct dl_phdr_info* i, size_t, void*)
{
    if (i->dlpi_name && i->dlpi_name[0])
    {
        return 0;
    }
    for (int k = 0; k < i->dlpi_phnum; ++k)
    {
        auto const& ph = i->dlpi_phdr[k];
        if (ph.p_type == PT_TLS && ph.p_memsz && i->dlpi_tls_data)
        {
            tlsBlock = static_cast<char*>(i->dlpi_tls_data);
            tlsInit.assign(ph.p_memsz, 0);
            memcpy(tlsInit.data(), reinterpret_cast<char*>(i->dlpi_addr + ph.p_vaddr), ph.p_filesz);
        }
    }
    return 1;
}

void switchTo(Fiber* next)
{
    Fiber* self = S->cur;
    if (next == self)
    {
        return;
    }
    ++sh->switches;
    sh->schedHash = mixHash(sh->schedHash, (static_cast<uint64_t>(next->id) << 32) ^ sh->steps);
    void* eh = abi::__cxa_get_globals();
    void** save;
    void** fake;
    void* dummyFake = nullptr;
    if (self)
    {
        memcpy(self->eh, eh, 16);
        self->err = errno;
        save = &self->sp;
        fake = self->done ? nullptr : &self->fake;
    }
    else
    {
        save = &mainSp;
        fake = &dummyFake;
    }
    if (tlsBlock)
    {
        if (self)
        {
            self->tls.assign(tlsBlock, tlsBlock + tlsInit.size());
        }
        std::vector<char> const& t = next->tls.empty() ? tlsInit : next->tls;
        memcpy(tlsBlock, t.data(), t.size());
    }
    S->cur = next;
    next->sliceStart = S->now;
    memcpy(eh, next->eh, 16);
    __sanitizer_start_switch_fiber(fake, next->stack, next->stackSize);
    sim_switch_asm(save, next->sp);
    __sanitizer_finish_switch_fiber(self ? self->fake : dummyFake, nullptr, nullptr);
    if (self)
    {
        errno = self->err;
    }
}

void step(unsigned kind)
{
    (void)kind;
    ++sh->steps;
    S->now += sched.callCost;
    if (sh->steps > g_maxSteps)
    {
        crashed("livelock", "livelock: step limit reached without the scenario finishing");
    }
}

} // namespace

void spend(Time t)
{
    S->now += t;
}

void longRun(unsigned factor)
{
    g_maxSteps *= factor;
    g_maxBlocks *= factor;
}

Fiber* spawn(std::string name, std::function<void()> fn, bool sut)
{
    auto f = std::make_unique<Fiber>();
    f->id = static_cast<int>(S->fibers.size());
    f->name = std::move(name);
    f->fn = std::move(fn);
    f->sut = sut;
    f->stackSize = 512 * 1024;
    f->stack = static_cast<char*>(mmap(nullptr, f->stackSize, PROT_READ | PROT_WRITE,
                                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (f->stack == MAP_FAILED)
    {
        harnessError("mmap of a fiber stack failed");
    }
    mprotect(f->stack, 4096, PROT_NONE);
    uintptr_t top = (reinterpret_cast<uintptr_t>(f->stack) + f->stackSize) & ~uintptr_t(15);
    void** p = reinterpret_cast<void**>(top);
    *--p = nullptr;
    *--p = reinterpret_cast<void*>(&fiberMain);
    for (int i = 0; i < 6; ++i)
    {
        *--p = nullptr;
    }
    f->sp = p;
    Fiber* r = f.get();
    S->fibers.push_back(std::move(f));
    hashEvent(0x5b, r->id);
    return r;
}

void blockOn(std::function<bool()> pred, Time deadline, unsigned kind)
{
    Fiber* self = S->cur;
    step(kind);
    self->pred = std::move(pred);
    self->deadline = deadline;
    self->blocked = true;
    self->waiting = 0;
    Fiber* n = chooseNext(false);
    if (n != self)
    {
        switchTo(n);
    }
    self->blocked = false;
    self->pred = nullptr;
    self->deadline = -1;
}

bool waitUntil(std::function<bool()> pred, Time deadline)
{
    if (pred())
    {
        return true;
    }
    for (;;)
    {
        blockOn(pred, deadline, 1);
        if (pred())
        {
            return true;
        }
        if (deadline >= 0 && S->now >= deadline)
        {
            return false;
        }
    }
}

void sleepFor(Time d)
{
    Time const until = S->now + (d < 0 ? 0 : d);
    while (S->now < until)
    {
        blockOn([] { return false; }, until, 2);
    }
}

static void maybeStall(Fiber* self)
{
    if (self->sut && sched.stallDen && sched.stallBudget > 0 && S->faultsOn && chance(S_SCHED, 1, sched.stallDen))
    {
        Time const d = (1 + draw(S_SCHED, 32)) * (sched.stallMax / 32);
        self->stallUntil = S->now + d;
        sched.stallBudget -= d;
        countFault(F_THREAD_STALL);
        trace("stalled for %.3f ms", d / 1e6);
    }
}

static void preempt()
{
    Fiber* self = S->cur;
    maybeStall(self);
    Fiber* n = chooseNext(true);
    if (n != self)
    {
        countFault(F_PREEMPT);
        switchTo(n);
    }
}

void yield()
{
    step(3);
    preempt();
}

void yieldPoint(unsigned kind)
{
    if (!S->running)
    {
        return;
    }
    Fiber* self = S->cur;
    if (!self)
    {
        return;
    }
    step(kind);
    runDueEvents();
    if (self->nopreempt > 0)
    {
        return;
    }
    if (self->sut)
    {
        if (S->now - self->sliceStart > 20 * MS)
        {
            self->sliceStart = S->now;
            preempt();
        }
        else if (sched.preemptDen && chance(S_SCHED, 1, sched.preemptDen))
        {
            preempt();
        }
    }
}

void drawSched()
{
    sched.preemptDen = pick<uint32_t>(S_CFG, {0, 64, 16, 4, 2});
    sched.blockMean = pick<uint32_t>(S_CFG, {0, 0, 3000, 600, 150, 40});
    sched.stallDen = pick<uint32_t>(S_CFG, {0, 0, 200, 20});
    sched.stallMax = pick<Time>(S_CFG, {1 * MS, 5 * MS, 40 * MS});
    sched.callCost = pick<Time>(S_CFG, {2 * US, 1 * US, 10 * US});
    rearmCountdown();
}

// ---- scenario registry ----------------------------------------------------------------------

static std::vector<Scenario>& reg()
{
    static std::vector<Scenario> v;
    return v;
}
Register::Register(const char* name, const char* props, void (*fn)()) { reg().push_back({name, props, fn}); }
const std::vector<Scenario>& scenarios() { return reg(); }

void runScenario(const Scenario& s, uint64_t seed, const char* var)
{
    g_variant = var;
    memset(sh, 0, offsetof(Shared, data));
    sh->hash = 0xcbf29ce484222325ull;
    sh->schedHash = sh->hash;
    for (unsigned i = 0; i < S_NUM; ++i)
    {
        rngs[i].seed(seed * 0x2545F4914F6CDD1Dull + i * 0x9E3779B97F4A7C15ull + 77);
    }
    S = new State;
    dl_iterate_phdr(findTls, nullptr);
    S->countdown = INT64_MAX;
    osReset();
    std::set_terminate([] {
        std::string t = demangledType();
        std::string what;
        try
        {
            if (std::current_exception())
            {
                throw;
            }
        }
        catch (std::exception const& e)
        {
            what = e.what();
        }
        catch (...)
        {
        }
        std::string m = "std::terminate called (" + t + ": " + what + ")";
        crashed(("std::terminate " + t + " " + what).c_str(), m.c_str());
    });
    auto fn = s.fn;
    Fiber* m = spawn("scenario", [fn] {
        fn();
        finishRun();
    });
    S->running = true;
    switchTo(m);
    _exit(9);
}

} // namespace sim

using namespace sim;

extern "C" void __sanitizer_cov_trace_pc(void)
{
    if (!S || !S->cur)
    {
        return;
    }
    uintptr_t pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0));
    uint32_t h = static_cast<uint32_t>((pc * 0x9E3779B97F4A7C15ull) >> 48);
    covMap[h] = 1;
    Fiber* self = S->cur;
    if (++sh->blocks > g_maxBlocks)
    {
        crashed("livelock", "livelock: execution limit reached (endless loop in the code under test)");
    }
    if (!self->sut)
    {
        return;
    }
    S->now += 5;
    if (--S->countdown > 0 && S->now - self->sliceStart < 20 * MS)
    {
        return;
    }
    if (S->countdown <= 0)
    {
        rearmCountdown();
    }
    self->sliceStart = S->now;
    if (self->nopreempt > 0 || S->inEvents)
    {
        return;
    }
    runDueEvents();
    preempt();
}
