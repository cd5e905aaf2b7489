// Deterministic simulator core: fibers, seeded scheduler, virtual time, choice streams, results.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim
{

// ---- choice streams -------------------------------------------------------------------------
// Every nondeterministic decision of a run is one draw from one of these streams.  In search mode
// draws come from a PRNG seeded by (run seed, stream) and are recorded; in replay mode they are
// read back from the recorded vector (missing entries are 0).  0 is always the benign choice.
enum Stream : unsigned { S_CFG, S_SCHED, S_NET, S_FAULT, S_OPS, S_NUM };

uint32_t draw(Stream, uint32_t n);                      // 0 .. n-1
bool chance(Stream, uint32_t num, uint32_t den);        // true with probability num/den
uint32_t pickw(Stream, std::initializer_list<uint32_t> weights);  // weighted index, 0 benign
inline uint32_t range(Stream s, uint32_t lo, uint32_t hi) { return lo + draw(s, hi - lo + 1); }
template <class T> T pick(Stream s, std::initializer_list<T> l)
{
    return *(l.begin() + draw(s, static_cast<uint32_t>(l.size())));
}

// ---- virtual time ---------------------------------------------------------------------------
using Time = int64_t;   // ns since the start of the run
constexpr Time US = 1000, MS = 1000 * US, SEC = 1000 * MS;
Time now();
void at(Time when, std::function<void()> fn);           // run fn (atomically) at a simulated time
extern Time g_realtimeOffset;                           // CLOCK_REALTIME - CLOCK_MONOTONIC

// ---- fibers ---------------------------------------------------------------------------------
struct Fiber;
Fiber* spawn(std::string name, std::function<void()> fn, bool sut = false);
Fiber* current();
int fiberId(Fiber*);
bool finished(Fiber*);
void yield();                                           // let others run (harness fibers)
void yieldPoint(unsigned kind);                         // possible preemption point
bool waitUntil(std::function<bool()> pred, Time deadline = -1);   // true when pred holds
void sleepFor(Time);
void noPreempt(int delta);
int liveSutFibers();

// ---- scheduling configuration (drawn per run by the scenario) -------------------------------
struct SchedCfg
{
    uint32_t preemptDen = 0;        // 1/den chance of a switch at a wrapped call (0: never)
    uint32_t blockMean = 0;         // mean number of basic blocks between forced preemptions (0: off)
    uint32_t stallDen = 0;          // 1/den chance per switch that the preempted thread is stalled
    Time stallMax = 20 * MS;
    Time stallBudget = 100000 * SEC;    // of all stalls of a run together
    Time callCost = 2 * US;
};
extern SchedCfg sched;
void drawSched();                   // swarm-style draw of the above from S_CFG

// ---- faults ---------------------------------------------------------------------------------
enum Fault : unsigned
{
    F_EPOLL_EINTR, F_EPOLL_CTL_ADD, F_SOCKET_EMFILE, F_ACCEPT_FAIL, F_TIMERFD_FAIL, F_FCNTL_FAIL,
    F_BIND_FAIL, F_CONNECT_SYNC_FAIL, F_CONNECT_SYNC_OK, F_CONNECT_BLACKHOLE, F_SPURIOUS_EVENT, F_EPOLL_CTL_MOD,
    F_WRITE_FAIL, F_READ_FAIL, F_THREAD_STALL, F_CLOCK_JUMP, F_NET_DELAY_SPIKE, F_NET_SPLIT,
    F_NET_RESET, F_NET_PARTITION, F_PEER_CLOSE, F_PEER_RESET, F_PEER_SILENT, F_PEER_GARBAGE,
    F_PEER_DUP, F_PEER_LATE, F_PEER_REFUSED, F_SMALL_SNDBUF, F_HANDLER_THROW, F_THREAD_CREATE_FAIL,
    F_PREEMPT, F_POOL_EXHAUST, F_CLOSE_EINTR, F_NUM
};
extern const char* const faultNames[F_NUM];
void enableFault(Fault, uint32_t num, uint32_t den, uint32_t maxFires = 1000000);
void faultsOff();                   // "once faults stop": no syscall fault fires any more
bool faultsOn();
bool fires(Fault);                  // draw + count
void countFault(Fault, uint64_t n = 1);

// ---- reporting ------------------------------------------------------------------------------
// props: comma separated property ids the observation violates ("*" = every property).
[[noreturn]] void violation(const char* props, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harnessError(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void spend(Time t);                                     // the running thread computes for that long
void longRun(unsigned factor);                          // raises the limits that tell a livelock
[[noreturn]] void finishRun();
void count(const char* name, uint64_t n = 1);           // reach probes / evidence counters
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void hashEvent(uint64_t a, uint64_t b = 0, uint64_t c = 0);
bool tracing();
void nontrivial();                  // marks the run as one that exercised the property

// ---- scenario registry ----------------------------------------------------------------------
struct Scenario
{
    const char* name;
    const char* props;              // property ids it can decide (documentation)
    void (*fn)();
};
struct Register
{
    Register(const char* name, const char* props, void (*fn)());
};
const std::vector<Scenario>& scenarios();
const char* variant();              // optional text after ':' in the scenario name

} // namespace sim
