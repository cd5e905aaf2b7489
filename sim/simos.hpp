// Simulated operating system: descriptors, TCP, epoll, timerfd, eventfd, threads, clocks.
#pragma once
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "sim.hpp"

namespace sim
{

struct EpItem;

struct File
{
    enum Kind { SOCK, EPOLL, EVENTFD, TIMERFD } kind;
    bool nonblock = false;
    int fd = -1;
    std::vector<EpItem*> watchers;
    explicit File(Kind k) : kind(k) {}
    virtual ~File() {}
    virtual uint32_t poll() = 0;
    void wake(uint32_t key);        // key 0: state change, matches every interest mask
};
using FilePtr = std::shared_ptr<File>;

struct NetCfg
{
    Time latMin = 20 * US;
    Time latJit = 100 * US;
    uint32_t splitMode = 0;         // 0 none, 1 sometimes, 2 often, 3 byte by byte
    uint32_t spikeDen = 0;          // 1/den chance of a retransmission delay per segment
    Time spikeMax = 400 * MS;
    uint32_t resetDen = 0;          // 1/den chance per segment that the connection is reset instead
    size_t sndCap = 1 << 20;        // send buffer of the code under test
};
extern NetCfg net;
void drawNet(bool resets = false);
void calmNet();                     // network faults stop

struct Sock : File, std::enable_shared_from_this<Sock>
{
    enum State { NEW, LISTEN, SYN_SENT, ESTAB, CLOSED } state = NEW;
    Sock() : File(SOCK) {}
    uint32_t poll() override;
    uint16_t port = 0;
    uint32_t laddr = 0;
    bool accepted = false;          // came in through a listener
    bool reuse = false;             // SO_REUSEADDR, inherited from the listener
    int backlog = 0;
    std::deque<std::shared_ptr<Sock>> acceptq;
    std::weak_ptr<Sock> peer;
    std::deque<uint8_t> rx;
    bool finRcvd = false;
    bool rdShut = false, wrShut = false;
    bool finSent = false;
    bool orphan = false;            // closed by the application
    bool harness = false;           // owned by a simulated peer
    bool dead = false;              // fully gone
    bool cut = false;               // the network lost this connection: nothing sent by this end arrives any more
    int err = 0;
    size_t inflight = 0;
    size_t sndCap = 1 << 20;
    Time lastDelivery = 0;          // of data sent by this end
    Time holdUntil = 0;             // partition: nothing sent by this end is delivered before
    uint64_t id = 0;
    uint64_t bytesIn = 0, bytesOut = 0;
    bool writable() const { return used() < (sndCap + 1) / 2 || used() == 0; }
    size_t used() const;
};
using SockPtr = std::shared_ptr<Sock>;

// ---- API for simulated peers (harness fibers) -------------------------------------------------
class PeerConn
{
public:
    PeerConn() {}
    explicit PeerConn(SockPtr s) : s(std::move(s)) {}
    bool valid() const { return !!s; }
    bool connected() const { return s && s->state == Sock::ESTAB; }
    void send(const void* p, size_t n);
    void send(std::vector<uint8_t> const& v) { send(v.data(), v.size()); }
    size_t available() const { return s ? s->rx.size() : 0; }
    // Waits until at least n bytes, EOF/RST or the deadline; returns what is there (up to n).
    std::vector<uint8_t> recv(size_t n, Time deadline);
    std::vector<uint8_t> peek() const { return std::vector<uint8_t>(s->rx.begin(), s->rx.end()); }
    std::vector<uint8_t> takeAll();
    bool eof() const { return !s || (s->rx.empty() && (s->finRcvd || s->state == Sock::CLOSED)); }
    bool reset() const { return s && s->state == Sock::CLOSED && !s->finRcvd; }
    bool waitClosed(Time deadline);
    void close();
    void shutdownWrite();
    void abort();                   // RST
    void partition(Time d);         // both directions stall for d
    SockPtr sock() const { return s; }
private:
    SockPtr s;
};

class PeerListener
{
public:
    explicit PeerListener(uint16_t port, int backlog = 10, uint32_t addr = 0);
    ~PeerListener();
    bool accept(PeerConn& c, Time deadline);
    bool pending() const { return s && !s->acceptq.empty(); }
    void close();
    bool open() const { return !!s; }
    void reopen(uint16_t port, int backlog = 10, uint32_t addr = 0);
private:
    SockPtr s;
};

// Connect a simulated peer to a port the code under test listens on.
bool peerConnect(PeerConn& c, uint16_t port, Time deadline);
bool portListening(uint16_t port);
void resetRandomSutConn(uint32_t pickIdx);          // RST a connection of the code under test, both ends
std::vector<SockPtr> sutConns();

struct OsStats
{
    int openFds = 0;
    int badCloses = 0;              // close() of a descriptor that was not open (could hit another thread's)
    int sockets = 0, timers = 0, eventfds = 0, epolls = 0, listeners = 0;
    unsigned timerArms = 0;         // timerfds set so far
};
OsStats osStats();
std::string fdDump();
int threadsAlive();
void setSutSndCap(size_t);
void jumpClock(Time delta);
Time monoNow();                     // CLOCK_MONOTONIC of the simulated machine
Time wallNow();                     // CLOCK_REALTIME of the simulated machine

// What the program prints: kept in a scratch memory file from captureOutput() on.
void captureOutput();
std::string capturedOutput();

// Observation points used by oracles (called by the OS layer, may be empty).
extern std::function<void(int fd, Sock&, const uint8_t*, size_t)> onSutWrite;

} // namespace sim
