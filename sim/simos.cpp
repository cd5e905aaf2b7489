#include "simos.hpp"
#include "internal.hpp"

#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <mutex>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <sys/uio.h>
#include <condition_variable>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

namespace sim
{

NetCfg net;
std::function<void(int fd, Sock&, const uint8_t*, size_t)> onSutWrite;

struct EpollF;
struct EpItem
{
    EpollF* ep;
    int fd;
    File* file;
    uint32_t events;
    epoll_data_t data;
    bool ready = false;
};
struct EpollF : File
{
    EpollF() : File(EPOLL) {}
    std::map<int, std::unique_ptr<EpItem>> items;
    std::deque<EpItem*> rdl;
    uint32_t poll() override { return rdl.empty() ? 0 : EPOLLIN; }
    void drop(EpItem* it)
    {
        rdl.erase(std::remove(rdl.begin(), rdl.end(), it), rdl.end());
        auto& w = it->file->watchers;
        w.erase(std::remove(w.begin(), w.end(), it), w.end());
        items.erase(it->fd);
    }
};
struct EventF : File
{
    EventF() : File(EVENTFD) {}
    uint64_t value = 0;
    bool semaphore = false;
    uint32_t poll() override { return (value ? EPOLLIN : 0) | (value < UINT64_MAX - 1 ? EPOLLOUT : 0); }
};
struct TimerF : File
{
    TimerF() : File(TIMERFD) {}
    int clock = CLOCK_MONOTONIC;
    uint64_t gen = 0, ticks = 0;
    Time expiry = -1, interval = 0;
    bool absReal = false;           // set to an absolute time of the wall clock: moves when that is set
    uint32_t poll() override { return ticks ? EPOLLIN : 0; }
};

namespace
{

struct Mtx
{
    Fiber* owner = nullptr;
    int depth = 0;
};
struct Thr
{
    Fiber* f = nullptr;
    bool joined = false, detached = false;
    void* ret = nullptr;
    cpu_set_t aff;
};
struct Os
{
    std::map<int, FilePtr> fds;
    std::map<std::pair<uint32_t, uint16_t>, Sock*> ports;
    int badCloses = 0;
    unsigned timerArms = 0;
    std::vector<std::weak_ptr<Sock>> allSut;
    struct TimeWait { uint32_t addr; uint16_t port; bool reuse; Time until; std::weak_ptr<Sock> s; };
    std::vector<TimeWait> timeWait;         // connections of listening ports that this side closed first
    std::map<void*, Mtx> mutexes;
    std::map<void*, uint64_t> conds;           // cond -> notify tickets
    std::map<void*, std::deque<uint64_t*>> condWaiters;
    std::vector<std::unique_ptr<Thr>> threads;
    std::map<Fiber*, size_t> threadOf;
    Time monoBase = 0;
    bool sigpipeIgnored = false;
    uint64_t sockSeq = 0;
    uint64_t randState = 12345;
};
Os* O;

constexpr int FD_BASE = 100, FD_LIMIT = 1124;

inline bool active() { return O && current(); }

int allocFd(FilePtr f)
{
    int fd = FD_BASE;
    for (auto& [k, v] : O->fds)
    {
        if (k != fd)
        {
            break;
        }
        ++fd;
    }
    if (fd >= FD_LIMIT)
    {
        errno = EMFILE;
        return -1;
    }
    f->fd = fd;
    O->fds[fd] = std::move(f);
    return fd;
}

FilePtr getFd(int fd)
{
    auto it = O->fds.find(fd);
    return it == O->fds.end() ? nullptr : it->second;
}

template <class T> std::shared_ptr<T> getAs(int fd, File::Kind k)
{
    auto f = getFd(fd);
    if (!f || f->kind != k)
    {
        return nullptr;
    }
    return std::static_pointer_cast<T>(f);
}

enum Call : unsigned
{
    C_READ = 10, C_WRITE, C_CLOSE, C_SOCKET, C_BIND, C_LISTEN, C_ACCEPT, C_CONNECT, C_FCNTL, C_EPCREATE,
    C_EPCTL, C_EPWAIT, C_EVENTFD, C_TFCREATE, C_TFSET, C_CLOCK, C_SLEEP, C_LOCK, C_UNLOCK, C_PCREATE, C_PJOIN,
    C_PRINT, C_RAND, C_SOCKOPT, C_SHUTDOWN, C_COND
};
const char* const callNames[] = {
    "read", "write", "close", "socket", "bind", "listen", "accept", "connect", "fcntl", "epoll_create",
    "epoll_ctl", "epoll_wait", "eventfd", "timerfd_create", "timerfd_settime", "clock", "sleep", "lock", "unlock",
    "pthread_create", "pthread_join", "print", "rand", "sockopt", "shutdown", "cond"};

void enter(unsigned kind)
{
    yieldPoint(kind);
}

long ret(unsigned kind, long a, long rc)
{
    int e = errno;
    hashEvent(kind, static_cast<uint64_t>(a), static_cast<uint64_t>(rc));
    if (kind != C_CLOCK && kind != C_LOCK && kind != C_UNLOCK && kind != C_PRINT)
    {
        if (rc < 0)
        {
            trace("%s(%ld) = %ld errno %d (%s)", callNames[kind - 10], a, rc, e, strerror(e));
        }
        else
        {
            trace("%s(%ld) = %ld", callNames[kind - 10], a, rc);
        }
    }
    errno = e;
    return rc;
}

// ---- TCP ------------------------------------------------------------------------------------

struct Seg
{
    enum T { DATA, FIN, RST } t;
    std::vector<uint8_t> bytes;
};
std::map<Sock*, std::deque<Seg>>* outq;

Time drawLatency()
{
    return net.latMin + static_cast<Time>(draw(S_NET, 17)) * net.latJit / 16;
}

void rstArrive(SockPtr const& b)
{
    if (b->dead || b->state == Sock::CLOSED || b->state == Sock::LISTEN)
    {
        return;
    }
    trace("RST arrives at socket #%lu", (unsigned long)b->id);
    hashEvent(0x41, b->id);
    if (b->state == Sock::SYN_SENT)
    {
        b->err = ECONNREFUSED;
    }
    else
    {
        b->err = b->finRcvd ? EPIPE : ECONNRESET;
    }
    b->state = Sock::CLOSED;
    b->rdShut = b->wrShut = true;
    if (b->orphan)
    {
        b->dead = true;
    }
    b->wake(0);
}

void scheduleHead(SockPtr a, Time t);

void deliverHead(SockPtr a)
{
    auto& q = (*outq)[a.get()];
    if (q.empty())
    {
        return;
    }
    if (a->holdUntil > now())
    {
        scheduleHead(a, a->holdUntil);
        return;
    }
    Seg s = std::move(q.front());
    q.pop_front();
    a->inflight -= std::min(a->inflight, s.bytes.size());
    auto b = a->peer.lock();
    if (!b || b->dead)
    {
        return;
    }
    hashEvent(0x40, b->id, s.bytes.size() * 4 + s.t);
    switch (s.t)
    {
    case Seg::DATA:
        if (b->orphan || b->state == Sock::CLOSED)
        {
            trace("%zu bytes for socket #%lu arrive after it was closed: RST", s.bytes.size(), (unsigned long)b->id);
            at(now() + drawLatency(), [a] { rstArrive(a); });
            b->state = Sock::CLOSED;
            b->dead = true;
            return;
        }
        if (b->rdShut)
        {
            return;
        }
        trace("%zu bytes arrive at socket #%lu", s.bytes.size(), (unsigned long)b->id);
        b->rx.insert(b->rx.end(), s.bytes.begin(), s.bytes.end());
        b->bytesIn += s.bytes.size();
        b->wake(EPOLLIN);
        break;
    case Seg::FIN:
        if (b->state == Sock::CLOSED)
        {
            return;
        }
        trace("FIN arrives at socket #%lu", (unsigned long)b->id);
        b->finRcvd = true;
        if (b->orphan && b->finSent)
        {
            b->dead = true;
        }
        b->wake(0);
        break;
    case Seg::RST:
        rstArrive(b);
        break;
    }
}

void scheduleHead(SockPtr a, Time t)
{
    at(t, [a] { deliverHead(a); });
}

void enqueueSeg(SockPtr const& a, Seg s)
{
    if (a->cut)
    {
        return;
    }
    Time t = now() + drawLatency();
    if (net.spikeDen && chance(S_NET, 1, net.spikeDen))
    {
        t += (1 + draw(S_NET, 16)) * (net.spikeMax / 16);
        countFault(F_NET_DELAY_SPIKE);
    }
    t = std::max({t, a->lastDelivery + 1, a->holdUntil});
    a->lastDelivery = t;
    a->inflight += s.bytes.size();
    (*outq)[a.get()].push_back(std::move(s));
    scheduleHead(a, t);
}

void bothReset(SockPtr const& a)
{
    auto b = a->peer.lock();
    rstArrive(a);
    if (b)
    {
        rstArrive(b);
    }
}

void xmit(SockPtr const& a, const uint8_t* p, size_t n)
{
    a->bytesOut += n;
    size_t off = 0;
    while (off < n)
    {
        size_t k = n - off;
        if (net.splitMode && k > 1)
        {
            bool split = net.splitMode == 3 || chance(S_NET, net.splitMode == 2 ? 3 : 1, 4);
            if (split)
            {
                k = net.splitMode == 3 ? 1 : 1 + draw(S_NET, static_cast<uint32_t>(std::min<size_t>(k - 1, 200)));
                countFault(F_NET_SPLIT);
            }
        }
        if (net.resetDen && chance(S_NET, 1, net.resetDen))
        {
            countFault(F_NET_RESET);
            trace("network resets connection of socket #%lu", (unsigned long)a->id);
            a->cut = true;
            at(now() + drawLatency(), [a] { bothReset(a); });
            return;
        }
        enqueueSeg(a, Seg{Seg::DATA, std::vector<uint8_t>(p + off, p + off + k)});
        off += k;
    }
}

void closeSock(SockPtr const& a)
{
    switch (a->state)
    {
    case Sock::LISTEN:
    {
        for (auto it = O->ports.begin(); it != O->ports.end();)
        {
            it = it->second == a.get() ? O->ports.erase(it) : std::next(it);
        }
        for (auto& c : a->acceptq)
        {
            c->orphan = true;
            c->state = Sock::CLOSED;
            if (auto p = c->peer.lock())
            {
                at(now() + drawLatency(), [p] { rstArrive(p); });
            }
        }
        a->acceptq.clear();
        a->state = Sock::CLOSED;
        break;
    }
    case Sock::ESTAB:
        a->orphan = true;
        if (!a->rx.empty())
        {
            (*outq)[a.get()];
            enqueueSeg(a, Seg{Seg::RST, {}});
            a->state = Sock::CLOSED;
        }
        else
        {
            if (!a->finSent)
            {
                a->finSent = true;
                enqueueSeg(a, Seg{Seg::FIN, {}});
            }
            if (a->accepted && !a->harness && !a->finRcvd)
            {
                O->timeWait.push_back({a->laddr, a->port, a->reuse, now() + 60 * SEC, a});
            }
        }
        break;
    default:
        a->orphan = true;
        a->state = Sock::CLOSED;
        a->dead = true;
        break;
    }
    for (auto it = O->ports.begin(); it != O->ports.end();)
    {
        it = it->second == a.get() ? O->ports.erase(it) : std::next(it);
    }
}

void abortSock(SockPtr const& a)
{
    if (a->state == Sock::ESTAB)
    {
        enqueueSeg(a, Seg{Seg::RST, {}});
        a->state = Sock::CLOSED;
        a->orphan = true;
        a->err = 0;
    }
    else
    {
        closeSock(a);
    }
}

// bind() to a port that still has connections of an earlier listener (open, or closed by this side less than a minute
// ago) needs SO_REUSEADDR on both.
bool portInUse(uint32_t addr, uint16_t port, bool reuse)
{
    auto same = [&](uint32_t a, uint16_t p) { return p == port && (a == addr || a == 0 || addr == 0); };
    for (auto const& w : O->allSut)
    {
        auto s = w.lock();
        if (s && s->accepted && s->state == Sock::ESTAB && !s->orphan && same(s->laddr, s->port) && !(reuse && s->reuse))
        {
            return true;
        }
    }
    for (auto const& t : O->timeWait)
    {
        auto s = t.s.lock();
        bool const reset = s && s->state == Sock::CLOSED;
        if (!reset && t.until > now() && same(t.addr, t.port) && !(reuse && t.reuse))
        {
            return true;
        }
    }
    return false;
}

Sock* findListener(uint32_t addr, uint16_t port)
{
    auto it = O->ports.find({addr, port});
    if (it == O->ports.end())
    {
        it = O->ports.find({0u, port});
    }
    if (it == O->ports.end() || it->second->state != Sock::LISTEN)
    {
        return nullptr;
    }
    return it->second;
}

bool synArrive(SockPtr const& c, uint32_t addr, uint16_t port, int attempt);

void completeConnect(SockPtr const& c)
{
    if (c->state != Sock::SYN_SENT)
    {
        // given up meanwhile: the answer meets a closed socket and is reset
        if (auto p = c->orphan ? c->peer.lock() : nullptr)
        {
            at(now() + net.latMin, [p] { rstArrive(p); });
        }
        return;
    }
    c->state = Sock::ESTAB;
    trace("socket #%lu connected", (unsigned long)c->id);
    hashEvent(0x42, c->id);
    c->wake(0);
}

bool synArrive(SockPtr const& c, uint32_t addr, uint16_t port, int attempt)
{
    if (c->state != Sock::SYN_SENT)
    {
        return false;
    }
    Sock* l = findListener(addr, port);
    if (!l)
    {
        at(now() + drawLatency(), [c] { rstArrive(c); });
        return false;
    }
    if (static_cast<int>(l->acceptq.size()) > l->backlog)
    {
        if (attempt < 6)
        {
            at(now() + (SEC << attempt), [c, addr, port, attempt] { synArrive(c, addr, port, attempt + 1); });
        }
        return false;
    }
    auto s = std::make_shared<Sock>();
    s->id = ++O->sockSeq;
    s->state = Sock::ESTAB;
    s->peer = c;
    s->port = port;
    s->laddr = l->laddr;
    s->accepted = true;
    s->reuse = l->reuse;
    s->harness = l->harness;
    s->sndCap = s->harness ? (1 << 20) : net.sndCap;
    c->peer = s;
    if (!s->harness)
    {
        O->allSut.push_back(s);
    }
    // SYN-ACK reaches the client first, then its ACK makes the connection acceptable at the server;
    // nothing the server sends can overtake the SYN-ACK, nothing the client sends can overtake the ACK
    Time const t1 = now() + drawLatency();
    Time const t2 = t1 + drawLatency();
    s->lastDelivery = t1;
    c->lastDelivery = std::max(c->lastDelivery, t2);
    at(t1, [c] { completeConnect(c); });
    at(t2, [c, s, addr, port] {
        Sock* l = findListener(addr, port);
        if (s->state != Sock::ESTAB)
        {
            return;
        }
        if (!l || l->harness != s->harness)
        {
            s->state = Sock::CLOSED;
            s->dead = true;
            rstArrive(c);
            return;
        }
        l->acceptq.push_back(s);
        l->wake(EPOLLIN);
    });
    return true;
}

ssize_t sockWrite(SockPtr const& s, const void* buf, size_t n, int flags)
{
    for (;;)
    {
        if (s->state == Sock::NEW || s->state == Sock::LISTEN || (s->state == Sock::CLOSED && !s->wrShut))
        {
            errno = EPIPE;
            if (!(flags & MSG_NOSIGNAL) && !O->sigpipeIgnored)
            {
                crashed("SIGPIPE", "process killed by SIGPIPE (write on a socket that is not connected)");
            }
            return -1;
        }
        if (s->state == Sock::SYN_SENT)
        {
            errno = EAGAIN;
            return -1;
        }
        if (s->err || s->wrShut)
        {
            int e = s->err ? s->err : EPIPE;
            s->err = 0;
            errno = e;
            if (e == EPIPE && !(flags & MSG_NOSIGNAL) && !O->sigpipeIgnored)
            {
                crashed("SIGPIPE", "process killed by SIGPIPE (write on a connection the peer has reset)");
            }
            return -1;
        }
        if (n == 0)
        {
            return 0;
        }
        if (fires(F_WRITE_FAIL))
        {
            errno = ENOBUFS;
            return -1;
        }
        size_t const used = s->used();
        if (used < s->sndCap)
        {
            size_t const k = std::min(n, s->sndCap - used);
            if (k < n)
            {
                countFault(F_SMALL_SNDBUF);
            }
            if (onSutWrite)
            {
                onSutWrite(s->fd, *s, static_cast<const uint8_t*>(buf), k);
            }
            xmit(s, static_cast<const uint8_t*>(buf), k);
            return static_cast<ssize_t>(k);
        }
        if (s->nonblock || (flags & MSG_DONTWAIT))
        {
            countFault(F_SMALL_SNDBUF);
            errno = EAGAIN;
            return -1;
        }
        blockOn([s] { return s->writable() || s->err || s->state != Sock::ESTAB; }, -1, C_WRITE);
    }
}

ssize_t sockRead(SockPtr const& s, void* buf, size_t n, int flags)
{
    for (;;)
    {
        if (s->state == Sock::NEW || s->state == Sock::LISTEN)
        {
            errno = ENOTCONN;
            return -1;
        }
        if (!s->rx.empty())
        {
            if (n && fires(F_READ_FAIL))
            {
                errno = ENOMEM;
                return -1;
            }
            size_t const k = std::min(n, s->rx.size());
            std::vector<uint8_t> tmp(s->rx.begin(), s->rx.begin() + k);
            if (k)
            {
                memcpy(buf, tmp.data(), k);
            }
            if (!(flags & MSG_PEEK))
            {
                bool const wasFull = s->peer.lock() && !s->peer.lock()->writable();
                s->rx.erase(s->rx.begin(), s->rx.begin() + k);
                if (auto p = s->peer.lock(); p && wasFull && p->writable())
                {
                    p->wake(EPOLLOUT);
                }
            }
            uint64_t h = 1469598103934665603ull;
            for (auto b : tmp)
            {
                h = (h ^ b) * 1099511628211ull;
            }
            hashEvent(0x43, h, s->id);
            return static_cast<ssize_t>(k);
        }
        if (s->finRcvd)
        {
            return 0;
        }
        if (s->err)
        {
            errno = s->err;
            s->err = 0;
            return -1;
        }
        if (s->rdShut || s->state == Sock::CLOSED)
        {
            return 0;
        }
        if (s->nonblock || (flags & MSG_DONTWAIT))
        {
            errno = EAGAIN;
            return -1;
        }
        blockOn([s] { return !s->rx.empty() || s->finRcvd || s->err || s->state != Sock::ESTAB; }, -1, C_READ);
    }
}

} // namespace

void File::wake(uint32_t key)
{
    for (EpItem* it : watchers)
    {
        if (it->ready || it->events == 0)
        {
            continue;
        }
        if (key == 0 || (key & (it->events | EPOLLERR | EPOLLHUP)))
        {
            it->ready = true;
            it->ep->rdl.push_back(it);
        }
    }
}

size_t Sock::used() const
{
    auto p = peer.lock();
    return inflight + (p ? p->rx.size() : 0);
}

uint32_t Sock::poll()
{
    uint32_t m = 0;
    if (state == LISTEN)
    {
        return acceptq.empty() ? 0 : EPOLLIN;
    }
    bool const rcvShut = rdShut || finRcvd;
    bool const sndShut = wrShut;
    if ((rcvShut && sndShut) || state == CLOSED || state == NEW)
    {
        m |= EPOLLHUP;
    }
    if (rcvShut)
    {
        m |= EPOLLIN | EPOLLRDHUP;
    }
    if (state != SYN_SENT)
    {
        if (!rx.empty())
        {
            m |= EPOLLIN;
        }
        if (sndShut || state == NEW || writable())
        {
            m |= EPOLLOUT;
        }
    }
    if (err)
    {
        m |= EPOLLERR;
    }
    return m;
}

void drawNet(bool resets)
{
    net.latMin = pick<Time>(S_CFG, {20 * US, 200 * US, 2 * MS, 1 * US});
    net.latJit = pick<Time>(S_CFG, {100 * US, 3 * MS, 30 * MS, 0});
    net.splitMode = pickw(S_CFG, {3, 3, 3, 1});
    net.spikeDen = pick<uint32_t>(S_CFG, {0, 0, 50, 8});
    net.spikeMax = pick<Time>(S_CFG, {200 * MS, 50 * MS, 3 * SEC});
    net.resetDen = resets ? pick<uint32_t>(S_CFG, {0, 0, 200, 40}) : 0;
}

void calmNet()
{
    net.latMin = 50 * US;
    net.latJit = 100 * US;
    net.spikeDen = 0;
    net.resetDen = 0;
}

void osReset()
{
    O = new Os;
    outq = new std::map<Sock*, std::deque<Seg>>;
    net = NetCfg{};
    sched = SchedCfg{};
    onSutWrite = nullptr;
    O->monoBase = 1000 * SEC + static_cast<Time>(draw(S_CFG, 1000)) * MS;
    g_realtimeOffset = 1700000000ll * SEC - O->monoBase;
    if (draw(S_CFG, 4) == 3)
    {
        // a machine that has just been started, or runs since long: the monotonic clock is about to pass a power of two
        Time const up = pick<Time>(S_CFG, {0, 2147483648ll * US, 4294967296ll * US, 2147483648ll * MS, 4294967296ll * MS, 400ll * 86400 * SEC});
        O->monoBase = up ? up - static_cast<Time>(draw(S_CFG, 120)) * SEC + static_cast<Time>(draw(S_CFG, 1000)) * MS : SEC + static_cast<Time>(draw(S_CFG, 5000)) * MS;
        Time const wall = pick<Time>(S_CFG, {1700000000, 1798761600, 2147483648ll, 4294967296ll, 946684800});
        g_realtimeOffset = (wall - static_cast<Time>(draw(S_CFG, 120))) * SEC - O->monoBase;
    }
}

Time monoNow() { return now() + O->monoBase; }
Time wallNow() { return now() + O->monoBase + g_realtimeOffset; }

static void armTimer(std::shared_ptr<TimerF> t, Time when)
{
    uint64_t gen = ++t->gen;
    t->expiry = when;
    at(when, [t, gen] {
        if (t->gen != gen || t->fd < 0)
        {
            return;
        }
        t->ticks++;
        hashEvent(0x70, t->fd);
        trace("timerfd %d expires", t->fd);
        t->wake(EPOLLIN);
        if (t->interval > 0)
        {
            armTimer(t, t->expiry + t->interval);
        }
        else
        {
            t->expiry = -1;
        }
    });
}

void jumpClock(Time d)
{
    g_realtimeOffset += d;
    std::vector<std::shared_ptr<TimerF>> moved;
    for (auto& [k, f] : O->fds)
    {
        if (f && f->kind == File::TIMERFD)
        {
            auto t = std::static_pointer_cast<TimerF>(f);
            if (t->absReal && t->expiry >= 0)
            {
                moved.push_back(t);
            }
        }
    }
    for (auto& t : moved)
    {
        armTimer(t, std::max(now(), t->expiry - d));
    }
    countFault(F_CLOCK_JUMP);
    trace("realtime clock jumps by %.3f s", d / 1e9);
}

// ---- peers ----------------------------------------------------------------------------------

void PeerConn::send(const void* p, size_t n)
{
    if (s && s->state == Sock::ESTAB && !s->finSent)
    {
        trace("peer sends %zu bytes on socket #%lu", n, (unsigned long)s->id);
        xmit(s, static_cast<const uint8_t*>(p), n);
    }
}

std::vector<uint8_t> PeerConn::takeAll()
{
    if (!s)
    {
        return {};
    }
    std::vector<uint8_t> v(s->rx.begin(), s->rx.end());
    s->rx.clear();
    if (auto p = s->peer.lock())
    {
        p->wake(EPOLLOUT);
    }
    return v;
}

std::vector<uint8_t> PeerConn::recv(size_t n, Time deadline)
{
    if (!s)
    {
        return {};
    }
    SockPtr k = s;
    waitUntil([k, n] { return k->rx.size() >= n || k->finRcvd || k->state == Sock::CLOSED; }, deadline);
    n = std::min(n, k->rx.size());
    std::vector<uint8_t> v(k->rx.begin(), k->rx.begin() + n);
    k->rx.erase(k->rx.begin(), k->rx.begin() + n);
    if (auto p = k->peer.lock())
    {
        p->wake(EPOLLOUT);
    }
    return v;
}

bool PeerConn::waitClosed(Time deadline)
{
    if (!s)
    {
        return true;
    }
    SockPtr k = s;
    return waitUntil([k] { return k->finRcvd || k->state == Sock::CLOSED; }, deadline);
}

void PeerConn::close()
{
    if (s)
    {
        trace("peer closes socket #%lu", (unsigned long)s->id);
        closeSock(s);
        s.reset();
    }
}
void PeerConn::shutdownWrite()
{
    if (s && s->state == Sock::ESTAB && !s->finSent)
    {
        s->finSent = true;
        enqueueSeg(s, Seg{Seg::FIN, {}});
    }
}
void PeerConn::abort()
{
    if (s)
    {
        trace("peer aborts socket #%lu", (unsigned long)s->id);
        abortSock(s);
        s.reset();
    }
}
void PeerConn::partition(Time d)
{
    if (!s)
    {
        return;
    }
    countFault(F_NET_PARTITION);
    trace("partition of socket #%lu for %.3f s", (unsigned long)s->id, d / 1e9);
    s->holdUntil = now() + d;
    if (auto p = s->peer.lock())
    {
        p->holdUntil = now() + d;
    }
}

PeerListener::PeerListener(uint16_t port, int backlog, uint32_t addr) { reopen(port, backlog, addr); }
void PeerListener::reopen(uint16_t port, int backlog, uint32_t addr)
{
    if (s)
    {
        return;
    }
    s = std::make_shared<Sock>();
    s->id = ++O->sockSeq;
    s->harness = true;
    s->state = Sock::LISTEN;
    s->backlog = backlog;
    s->port = port;
    O->ports[{addr, port}] = s.get();
    trace("peer listens on port %u", port);
}
PeerListener::~PeerListener() { close(); }
void PeerListener::close()
{
    if (s)
    {
        trace("peer stops listening on port %u", s->port);
        closeSock(s);
        s.reset();
    }
}
bool PeerListener::accept(PeerConn& c, Time deadline)
{
    if (!s)
    {
        return false;
    }
    SockPtr k = s;
    if (!waitUntil([k] { return !k->acceptq.empty() || k->state != Sock::LISTEN; }, deadline) || k->acceptq.empty())
    {
        return false;
    }
    c = PeerConn(k->acceptq.front());
    k->acceptq.pop_front();
    return true;
}

bool portListening(uint16_t port) { return findListener(0x7f000001u, port) != nullptr; }

bool peerConnect(PeerConn& c, uint16_t port, Time deadline)
{
    auto s = std::make_shared<Sock>();
    s->id = ++O->sockSeq;
    s->harness = true;
    s->state = Sock::SYN_SENT;
    at(now() + drawLatency(), [s, port] { synArrive(s, 0x7f000001u, port, 0); });
    waitUntil([s] { return s->state != Sock::SYN_SENT; }, deadline);
    if (s->state != Sock::ESTAB)
    {
        s->state = Sock::CLOSED;
        return false;
    }
    c = PeerConn(s);
    return true;
}

std::vector<SockPtr> sutConns()
{
    std::vector<SockPtr> v;
    for (auto& w : O->allSut)
    {
        if (auto s = w.lock(); s && s->state == Sock::ESTAB && !s->orphan)
        {
            v.push_back(s);
        }
    }
    return v;
}

void resetRandomSutConn(uint32_t i)
{
    auto v = sutConns();
    if (v.empty())
    {
        return;
    }
    countFault(F_NET_RESET);
    trace("network resets socket #%lu", (unsigned long)v[i % v.size()]->id);
    bothReset(v[i % v.size()]);
}

void setSutSndCap(size_t n) { net.sndCap = n; }

static int captureFd = -1;

void captureOutput()
{
    fflush(stdout);
    captureFd = memfd_create("out", 0);
    dup2(captureFd, 1);
}

std::string capturedOutput()
{
    fflush(stdout);
    std::string r;
    char b[4096];
    for (off_t at = 0;;)
    {
        ssize_t const n = pread(captureFd, b, sizeof(b), at);
        if (n <= 0)
        {
            return r;
        }
        r.append(b, n);
        at += n;
    }
}

OsStats osStats()
{
    OsStats r;
    r.badCloses = O->badCloses;
    r.timerArms = O->timerArms;
    for (auto& [fd, f] : O->fds)
    {
        ++r.openFds;
        switch (f->kind)
        {
        case File::SOCK:
            if (static_cast<Sock*>(f.get())->state == Sock::LISTEN)
            {
                ++r.listeners;
            }
            else
            {
                ++r.sockets;
            }
            break;
        case File::EPOLL: ++r.epolls; break;
        case File::EVENTFD: ++r.eventfds; break;
        case File::TIMERFD: ++r.timers; break;
        }
    }
    return r;
}

std::string fdDump()
{
    std::string s;
    for (auto& [fd, f] : O->fds)
    {
        const char* n[] = {"socket", "epoll", "eventfd", "timerfd"};
        s += " " + std::to_string(fd) + ":" + n[f->kind];
    }
    return s;
}

int threadsAlive()
{
    int n = 0;
    for (auto& t : O->threads)
    {
        n += t->f && !finished(t->f);
    }
    return n;
}

} // namespace sim

using namespace sim;

// ---------------------------------------------------------------------------------------------
// wrapped calls
// ---------------------------------------------------------------------------------------------

#define REAL(r, name, ...) extern "C" r __real_##name(__VA_ARGS__)
REAL(ssize_t, read, int, void*, size_t);
REAL(ssize_t, write, int, const void*, size_t);
REAL(int, close, int);
REAL(int, fcntl, int, int, long);
REAL(int, clock_gettime, clockid_t, struct timespec*);
REAL(int, gettimeofday, struct timeval*, void*);
REAL(time_t, time, time_t*);
REAL(int, nanosleep, const struct timespec*, struct timespec*);
REAL(int, poll, struct pollfd*, nfds_t, int);
REAL(int, pthread_mutex_lock, pthread_mutex_t*);
REAL(int, pthread_mutex_trylock, pthread_mutex_t*);
REAL(int, pthread_mutex_unlock, pthread_mutex_t*);
REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
REAL(int, pthread_join, pthread_t, void**);
REAL(pthread_t, pthread_self, void);
REAL(int, rand, void);
REAL(int, ioctl, int, unsigned long, void*);
REAL(int, sigaction, int, const struct sigaction*, struct sigaction*);
REAL(sighandler_t, signal, int, sighandler_t);
REAL(int, sched_yield, void);

static ssize_t doRead(int fd, void* buf, size_t n, int flags)
{
    auto f = getFd(fd);
    if (!f)
    {
        errno = EBADF;
        return -1;
    }
    switch (f->kind)
    {
    case File::SOCK:
        return sockRead(std::static_pointer_cast<Sock>(f), buf, n, flags);
    case File::EVENTFD:
    {
        auto e = std::static_pointer_cast<EventF>(f);
        if (n < 8)
        {
            errno = EINVAL;
            return -1;
        }
        while (e->value == 0)
        {
            if (e->nonblock)
            {
                errno = EAGAIN;
                return -1;
            }
            blockOn([e] { return e->value != 0; }, -1, C_READ);
        }
        uint64_t v = e->semaphore ? 1 : e->value;
        e->value -= v;
        memcpy(buf, &v, 8);
        return 8;
    }
    case File::TIMERFD:
    {
        auto t = std::static_pointer_cast<TimerF>(f);
        if (n < 8)
        {
            errno = EINVAL;
            return -1;
        }
        while (t->ticks == 0)
        {
            if (t->nonblock)
            {
                errno = EAGAIN;
                return -1;
            }
            blockOn([t] { return t->ticks != 0; }, -1, C_READ);
        }
        memcpy(buf, &t->ticks, 8);
        t->ticks = 0;
        return 8;
    }
    default:
        errno = EINVAL;
        return -1;
    }
}

static ssize_t doWrite(int fd, const void* buf, size_t n, int flags)
{
    auto f = getFd(fd);
    if (!f)
    {
        errno = EBADF;
        return -1;
    }
    switch (f->kind)
    {
    case File::SOCK:
    {
        // the kernel reads the whole range: let the sanitizer see it
        std::vector<uint8_t> copy(n);
        if (n)
        {
            memcpy(copy.data(), buf, n);
        }
        return sockWrite(std::static_pointer_cast<Sock>(f), copy.data(), n, flags);
    }
    case File::EVENTFD:
    {
        auto e = std::static_pointer_cast<EventF>(f);
        uint64_t v;
        if (n < 8)
        {
            errno = EINVAL;
            return -1;
        }
        memcpy(&v, buf, 8);
        e->value += v;
        e->wake(EPOLLIN);
        return 8;
    }
    default:
        errno = EINVAL;
        return -1;
    }
}

extern "C"
{

ssize_t __wrap_read(int fd, void* buf, size_t n)
{
    if (!active())
    {
        return __real_read(fd, buf, n);
    }
    enter(C_READ);
    return ret(C_READ, fd, doRead(fd, buf, n, 0));
}
ssize_t __wrap_recv(int fd, void* buf, size_t n, int flags)
{
    enter(C_READ);
    return ret(C_READ, fd, doRead(fd, buf, n, flags));
}
ssize_t __wrap_recvfrom(int fd, void* buf, size_t n, int flags, struct sockaddr*, socklen_t*)
{
    enter(C_READ);
    return ret(C_READ, fd, doRead(fd, buf, n, flags));
}
ssize_t __wrap_readv(int fd, const struct iovec* v, int c)
{
    enter(C_READ);
    ssize_t tot = 0;
    for (int i = 0; i < c; ++i)
    {
        ssize_t r = doRead(fd, v[i].iov_base, v[i].iov_len, i ? MSG_DONTWAIT : 0);
        if (r < 0)
        {
            return ret(C_READ, fd, tot ? tot : r);
        }
        tot += r;
        if (static_cast<size_t>(r) < v[i].iov_len)
        {
            break;
        }
    }
    return ret(C_READ, fd, tot);
}
ssize_t __wrap_write(int fd, const void* buf, size_t n)
{
    if (!active() || (fd >= 0 && fd <= 2))
    {
        return active() && captureFd == -1 ? static_cast<ssize_t>(n) : __real_write(fd, buf, n);
    }
    enter(C_WRITE);
    return ret(C_WRITE, fd, doWrite(fd, buf, n, 0));
}
ssize_t __wrap_send(int fd, const void* buf, size_t n, int flags)
{
    enter(C_WRITE);
    return ret(C_WRITE, fd, doWrite(fd, buf, n, flags));
}
ssize_t __wrap_sendto(int fd, const void* buf, size_t n, int flags, const struct sockaddr*, socklen_t)
{
    enter(C_WRITE);
    return ret(C_WRITE, fd, doWrite(fd, buf, n, flags));
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int c)
{
    std::vector<uint8_t> all;
    for (int i = 0; i < c; ++i)
    {
        auto* p = static_cast<const uint8_t*>(v[i].iov_base);
        all.insert(all.end(), p, p + v[i].iov_len);
    }
    enter(C_WRITE);
    return ret(C_WRITE, fd, doWrite(fd, all.data(), all.size(), 0));
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr* m, int flags)
{
    std::vector<uint8_t> all;
    for (size_t i = 0; i < m->msg_iovlen; ++i)
    {
        auto* p = static_cast<const uint8_t*>(m->msg_iov[i].iov_base);
        all.insert(all.end(), p, p + m->msg_iov[i].iov_len);
    }
    enter(C_WRITE);
    return ret(C_WRITE, fd, doWrite(fd, all.data(), all.size(), flags));
}

int __wrap_close(int fd)
{
    if (!active())
    {
        return __real_close(fd);
    }
    enter(C_CLOSE);
    auto f = getFd(fd);
    if (!f)
    {
        if (fd >= 0)
        {
            ++O->badCloses;
        }
        errno = EBADF;
        return ret(C_CLOSE, fd, -1);
    }
    while (!f->watchers.empty())
    {
        EpItem* it = f->watchers.front();
        it->ep->drop(it);
    }
    if (f->kind == File::EPOLL)
    {
        auto* e = static_cast<EpollF*>(f.get());
        while (!e->items.empty())
        {
            e->drop(e->items.begin()->second.get());
        }
    }
    if (f->kind == File::SOCK)
    {
        closeSock(std::static_pointer_cast<Sock>(f));
    }
    if (f->kind == File::TIMERFD)
    {
        static_cast<TimerF*>(f.get())->gen++;
    }
    f->fd = -1;
    O->fds.erase(fd);
    if (fires(F_CLOSE_EINTR))
    {
        errno = EINTR;          // the descriptor is closed all the same
        return ret(C_CLOSE, fd, -1);
    }
    return ret(C_CLOSE, fd, 0);
}

int __wrap_socket(int domain, int type, int)
{
    enter(C_SOCKET);
    if (domain != AF_INET || (type & 0xf) != SOCK_STREAM)
    {
        harnessError("unsupported socket domain %d type %d", domain, type);
    }
    if (fires(F_SOCKET_EMFILE))
    {
        errno = EMFILE;
        return ret(C_SOCKET, 0, -1);
    }
    auto s = std::make_shared<Sock>();
    s->id = ++O->sockSeq;
    s->nonblock = type & SOCK_NONBLOCK;
    s->sndCap = net.sndCap;
    O->allSut.push_back(s);
    return ret(C_SOCKET, 0, allocFd(s));
}

int __wrap_bind(int fd, const struct sockaddr* a, socklen_t)
{
    enter(C_BIND);
    auto s = getAs<Sock>(fd, File::SOCK);
    if (!s)
    {
        errno = EBADF;
        return ret(C_BIND, fd, -1);
    }
    auto* in = reinterpret_cast<const struct sockaddr_in*>(a);
    uint16_t port = ntohs(in->sin_port);
    uint32_t addr = ntohl(in->sin_addr.s_addr);
    if (fires(F_BIND_FAIL) || O->ports.count({addr, port}) || portInUse(addr, port, s->reuse))
    {
        errno = EADDRINUSE;
        return ret(C_BIND, fd, -1);
    }
    s->port = port;
    s->laddr = addr;
    O->ports[{addr, port}] = s.get();
    return ret(C_BIND, fd, 0);
}

int __wrap_listen(int fd, int backlog)
{
    enter(C_LISTEN);
    auto s = getAs<Sock>(fd, File::SOCK);
    if (!s)
    {
        errno = EBADF;
        return ret(C_LISTEN, fd, -1);
    }
    s->state = Sock::LISTEN;
    s->backlog = backlog;
    return ret(C_LISTEN, fd, 0);
}

int __wrap_accept4(int fd, struct sockaddr* a, socklen_t* len, int flags)
{
    enter(C_ACCEPT);
    auto s = getAs<Sock>(fd, File::SOCK);
    if (!s || s->state != Sock::LISTEN)
    {
        errno = s ? EINVAL : EBADF;
        return ret(C_ACCEPT, fd, -1);
    }
    if (fires(F_ACCEPT_FAIL))
    {
        errno = draw(S_FAULT, 2) ? ECONNABORTED : EMFILE;
        return ret(C_ACCEPT, fd, -1);
    }
    while (s->acceptq.empty())
    {
        if (s->nonblock)
        {
            errno = EAGAIN;
            return ret(C_ACCEPT, fd, -1);
        }
        blockOn([s] { return !s->acceptq.empty() || s->state != Sock::LISTEN; }, -1, C_ACCEPT);
        if (s->state != Sock::LISTEN)
        {
            errno = EINVAL;
            return ret(C_ACCEPT, fd, -1);
        }
    }
    auto c = s->acceptq.front();
    c->nonblock = flags & SOCK_NONBLOCK;
    int n = allocFd(c);
    if (n >= 0)
    {
        s->acceptq.pop_front();
        if (a && len && *len >= sizeof(struct sockaddr_in))
        {
            auto* in = reinterpret_cast<struct sockaddr_in*>(a);
            memset(in, 0, sizeof(*in));
            in->sin_family = AF_INET;
            in->sin_addr.s_addr = htonl(0x7f000001u);
            in->sin_port = htons(40000 + c->id % 20000);
            *len = sizeof(*in);
        }
        trace("accepted socket #%lu as fd %d", (unsigned long)c->id, n);
    }
    return ret(C_ACCEPT, fd, n);
}
int __wrap_accept(int fd, struct sockaddr* a, socklen_t* len) { return __wrap_accept4(fd, a, len, 0); }

int __wrap_connect(int fd, const struct sockaddr* a, socklen_t)
{
    enter(C_CONNECT);
    auto s = getAs<Sock>(fd, File::SOCK);
    if (!s)
    {
        errno = EBADF;
        return ret(C_CONNECT, fd, -1);
    }
    if (s->state == Sock::ESTAB)
    {
        errno = EISCONN;
        return ret(C_CONNECT, fd, -1);
    }
    if (s->state == Sock::SYN_SENT)
    {
        errno = EALREADY;
        return ret(C_CONNECT, fd, -1);
    }
    auto* in = reinterpret_cast<const struct sockaddr_in*>(a);
    uint16_t port = ntohs(in->sin_port);
    uint32_t addr = ntohl(in->sin_addr.s_addr);
    trace("connect to %u.%u.%u.%u:%u", addr >> 24, (addr >> 16) & 255, (addr >> 8) & 255, addr & 255, port);
    hashEvent(0x50, addr, port);
    if (fires(F_CONNECT_SYNC_FAIL))
    {
        errno = draw(S_FAULT, 2) ? ENETUNREACH : ECONNREFUSED;
        return ret(C_CONNECT, fd, -1);
    }
    s->state = Sock::SYN_SENT;
    if (s->nonblock && fires(F_CONNECT_SYNC_OK))
    {
        if (Sock* l = findListener(addr, port); l && static_cast<int>(l->acceptq.size()) <= l->backlog)
        {
            synArrive(s, addr, port, 0);
            completeConnect(s);
            return ret(C_CONNECT, fd, 0);
        }
    }
    if (!fires(F_CONNECT_BLACKHOLE))
    {
        at(now() + drawLatency(), [s, addr, port] { synArrive(s, addr, port, 0); });
    }
    if (s->nonblock)
    {
        errno = EINPROGRESS;
        return ret(C_CONNECT, fd, -1);
    }
    blockOn([s] { return s->state != Sock::SYN_SENT; }, -1, C_CONNECT);
    if (s->state != Sock::ESTAB)
    {
        errno = s->err ? s->err : ECONNREFUSED;
        return ret(C_CONNECT, fd, -1);
    }
    return ret(C_CONNECT, fd, 0);
}

int __wrap_fcntl(int fd, int cmd, long arg)
{
    if (!active())
    {
        return __real_fcntl(fd, cmd, arg);
    }
    enter(C_FCNTL);
    auto f = getFd(fd);
    if (!f)
    {
        errno = EBADF;
        return ret(C_FCNTL, fd, -1);
    }
    if (cmd == F_SETFL)
    {
        if (fires(F_FCNTL_FAIL))
        {
            errno = EPERM;
            return ret(C_FCNTL, fd, -1);
        }
        f->nonblock = arg & O_NONBLOCK;
        return ret(C_FCNTL, fd, 0);
    }
    if (cmd == F_GETFL)
    {
        return ret(C_FCNTL, fd, O_RDWR | (f->nonblock ? O_NONBLOCK : 0));
    }
    return ret(C_FCNTL, fd, 0);
}

int __wrap_ioctl(int fd, unsigned long req, void* arg)
{
    if (!active())
    {
        return __real_ioctl(fd, req, arg);
    }
    enter(C_FCNTL);
    auto f = getFd(fd);
    if (!f)
    {
        errno = EBADF;
        return ret(C_FCNTL, fd, -1);
    }
    if (req == FIONBIO)
    {
        f->nonblock = *static_cast<int*>(arg) != 0;
        return ret(C_FCNTL, fd, 0);
    }
    if (req == FIONREAD && f->kind == File::SOCK)
    {
        *static_cast<int*>(arg) = static_cast<int>(static_cast<Sock*>(f.get())->rx.size());
        return ret(C_FCNTL, fd, 0);
    }
    errno = EINVAL;
    return ret(C_FCNTL, fd, -1);
}

int __wrap_setsockopt(int fd, int level, int opt, const void* val, socklen_t len)
{
    enter(C_SOCKOPT);
    if (!getFd(fd))
    {
        errno = EBADF;
        return ret(C_SOCKOPT, fd, -1);
    }
    if (auto s = getAs<Sock>(fd, File::SOCK); s && level == SOL_SOCKET && opt == SO_REUSEADDR && len >= sizeof(int))
    {
        s->reuse = *static_cast<int const*>(val) != 0;
    }
    return ret(C_SOCKOPT, fd, 0);
}
int __wrap_getsockopt(int fd, int level, int opt, void* val, socklen_t* len)
{
    enter(C_SOCKOPT);
    auto s = getAs<Sock>(fd, File::SOCK);
    if (!s)
    {
        errno = EBADF;
        return ret(C_SOCKOPT, fd, -1);
    }
    int v = 0;
    if (level == SOL_SOCKET && opt == SO_ERROR)
    {
        v = s->err;
        s->err = 0;
    }
    if (val && len && *len >= sizeof(int))
    {
        memcpy(val, &v, sizeof(int));
        *len = sizeof(int);
    }
    return ret(C_SOCKOPT, fd, 0);
}
int __wrap_shutdown(int fd, int how)
{
    enter(C_SHUTDOWN);
    auto s = getAs<Sock>(fd, File::SOCK);
    if (!s || s->state != Sock::ESTAB)
    {
        errno = s ? ENOTCONN : EBADF;
        return ret(C_SHUTDOWN, fd, -1);
    }
    if (how == SHUT_WR || how == SHUT_RDWR)
    {
        if (!s->finSent)
        {
            s->finSent = true;
            enqueueSeg(s, Seg{Seg::FIN, {}});
        }
        s->wrShut = true;
    }
    if (how == SHUT_RD || how == SHUT_RDWR)
    {
        s->rdShut = true;
    }
    s->wake(0);
    return ret(C_SHUTDOWN, fd, 0);
}

int __wrap_epoll_create1(int)
{
    enter(C_EPCREATE);
    if (fires(F_SOCKET_EMFILE))
    {
        errno = EMFILE;
        return ret(C_EPCREATE, 0, -1);
    }
    return ret(C_EPCREATE, 0, allocFd(std::make_shared<EpollF>()));
}
int __wrap_epoll_create(int) { return __wrap_epoll_create1(0); }

int __wrap_epoll_ctl(int epfd, int op, int fd, struct epoll_event* ev)
{
    enter(C_EPCTL);
    auto e = getAs<EpollF>(epfd, File::EPOLL);
    auto f = getFd(fd);
    if (!e || !f)
    {
        errno = EBADF;
        return ret(C_EPCTL, fd, -1);
    }
    auto it = e->items.find(fd);
    auto arm = [&](EpItem* i) {
        if ((f->poll() & (i->events | EPOLLERR | EPOLLHUP)) && !i->ready)
        {
            i->ready = true;
            e->rdl.push_back(i);
        }
    };
    switch (op)
    {
    case EPOLL_CTL_ADD:
    {
        if (it != e->items.end())
        {
            errno = EEXIST;
            return ret(C_EPCTL, fd, -1);
        }
        if (fires(F_EPOLL_CTL_ADD))
        {
            errno = draw(S_FAULT, 2) ? ENOSPC : ENOMEM;
            return ret(C_EPCTL, fd, -1);
        }
        auto item = std::make_unique<EpItem>();
        item->ep = e.get();
        item->fd = fd;
        item->file = f.get();
        item->events = ev->events;
        item->data = ev->data;
        EpItem* raw = item.get();
        e->items[fd] = std::move(item);
        f->watchers.push_back(raw);
        arm(raw);
        break;
    }
    case EPOLL_CTL_MOD:
        if (it == e->items.end())
        {
            errno = ENOENT;
            return ret(C_EPCTL, fd, -1);
        }
        if (fires(F_EPOLL_CTL_MOD))
        {
            errno = ENOMEM;
            return ret(C_EPCTL, fd, -1);
        }
        it->second->events = ev->events;
        it->second->data = ev->data;
        arm(it->second.get());
        break;
    case EPOLL_CTL_DEL:
        if (it == e->items.end())
        {
            errno = ENOENT;
            return ret(C_EPCTL, fd, -1);
        }
        e->drop(it->second.get());
        break;
    default:
        errno = EINVAL;
        return ret(C_EPCTL, fd, -1);
    }
    return ret(C_EPCTL, fd * 4 + op, 0);
}

int __wrap_epoll_wait(int epfd, struct epoll_event* evs, int maxev, int timeout)
{
    enter(C_EPWAIT);
    auto e = getAs<EpollF>(epfd, File::EPOLL);
    if (!e)
    {
        errno = EBADF;
        return ret(C_EPWAIT, epfd, -1);
    }
    if (maxev <= 0)
    {
        errno = EINVAL;
        return ret(C_EPWAIT, epfd, -1);
    }
    if (fires(F_EPOLL_EINTR))
    {
        errno = EINTR;
        return ret(C_EPWAIT, epfd, -1);
    }
    Time const deadline = timeout < 0 ? -1 : now() + timeout * MS;
    for (;;)
    {
        int n = 0;
        size_t left = e->rdl.size();
        while (left-- > 0 && n < maxev)
        {
            EpItem* it = e->rdl.front();
            e->rdl.pop_front();
            uint32_t const r = it->file->poll() & (it->events | EPOLLERR | EPOLLHUP);
            if (!r || it->events == 0)
            {
                it->ready = false;
                continue;
            }
            evs[n].events = r;
            evs[n].data = it->data;
            hashEvent(0x60, it->fd, r);
            trace("epoll event fd %d events 0x%x", it->fd, r);
            ++n;
            if (it->events & EPOLLONESHOT)
            {
                it->events = 0;
                it->ready = false;
            }
            else if (it->events & EPOLLET)
            {
                it->ready = false;
            }
            else
            {
                e->rdl.push_back(it);
            }
        }
        if (n > 0)
        {
            if (n < maxev && fires(F_SPURIOUS_EVENT))
            {
                // readiness is a hint: a connection is reported readable although there is nothing to read (any more)
                std::vector<EpItem*> idle;
                for (auto& [fd, it] : e->items)
                {
                    if (it->file->kind == File::SOCK && static_cast<Sock*>(it->file)->state == Sock::ESTAB && !it->ready && (it->events & EPOLLIN) &&
                        !(it->events & EPOLLOUT) && !(it->file->poll() & (EPOLLIN | EPOLLERR | EPOLLHUP)))
                    {
                        idle.push_back(it.get());
                    }
                }
                if (!idle.empty())
                {
                    EpItem* it = idle[draw(S_FAULT, static_cast<uint32_t>(idle.size()))];
                    bool const first = draw(S_FAULT, 2);
                    evs[n] = evs[0];
                    struct epoll_event& v = evs[first ? 0 : n];
                    v.events = EPOLLIN;
                    v.data = it->data;
                    ++n;
                    hashEvent(0x61, it->fd, n);
                    trace("epoll event fd %d events 0x1 (spurious)", it->fd);
                }
            }
            return ret(C_EPWAIT, epfd, n);
        }
        if (timeout == 0 || (deadline >= 0 && now() >= deadline))
        {
            return ret(C_EPWAIT, epfd, 0);
        }
        blockOn([e] { return !e->rdl.empty(); }, deadline, C_EPWAIT);
        if (e->fd < 0)
        {
            // closed by another thread while waiting: keep waiting until the timeout as Linux does
            if (deadline < 0)
            {
                blockOn([] { return false; }, -1, C_EPWAIT);
            }
        }
    }
}
int __wrap_epoll_pwait(int epfd, struct epoll_event* evs, int maxev, int timeout, const void*)
{
    return __wrap_epoll_wait(epfd, evs, maxev, timeout);
}

int __wrap_eventfd(unsigned init, int flags)
{
    enter(C_EVENTFD);
    if (fires(F_SOCKET_EMFILE))
    {
        errno = EMFILE;
        return ret(C_EVENTFD, 0, -1);
    }
    auto e = std::make_shared<EventF>();
    e->value = init;
    e->nonblock = flags & EFD_NONBLOCK;
    e->semaphore = flags & EFD_SEMAPHORE;
    return ret(C_EVENTFD, 0, allocFd(e));
}

int __wrap_timerfd_create(int clock, int flags)
{
    enter(C_TFCREATE);
    if (fires(F_TIMERFD_FAIL))
    {
        errno = EMFILE;
        return ret(C_TFCREATE, 0, -1);
    }
    auto t = std::make_shared<TimerF>();
    t->clock = clock;
    t->nonblock = flags & TFD_NONBLOCK;
    return ret(C_TFCREATE, 0, allocFd(t));
}

int __wrap_timerfd_settime(int fd, int flags, const struct itimerspec* n, struct itimerspec* o)
{
    enter(C_TFSET);
    auto t = getAs<TimerF>(fd, File::TIMERFD);
    if (!t)
    {
        errno = getFd(fd) ? EINVAL : EBADF;
        return ret(C_TFSET, fd, -1);
    }
    auto bad = [](struct timespec const& s) { return s.tv_nsec < 0 || s.tv_nsec >= 1000000000L || s.tv_sec < 0; };
    if (bad(n->it_value) || bad(n->it_interval))
    {
        errno = EINVAL;
        return ret(C_TFSET, fd, -1);
    }
    if (o)
    {
        Time left = t->expiry >= 0 ? std::max<Time>(1, t->expiry - now()) : 0;
        o->it_value.tv_sec = left / SEC;
        o->it_value.tv_nsec = left % SEC;
        o->it_interval.tv_sec = t->interval / SEC;
        o->it_interval.tv_nsec = t->interval % SEC;
    }
    t->ticks = 0;
    t->gen++;
    t->expiry = -1;
    t->interval = n->it_interval.tv_sec * SEC + n->it_interval.tv_nsec;
    t->absReal = (flags & TFD_TIMER_ABSTIME) && t->clock == CLOCK_REALTIME;
    Time v = n->it_value.tv_sec > 4000000000l ? INT64_MAX / 2 : n->it_value.tv_sec * SEC + n->it_value.tv_nsec;
    if (v != 0)
    {
        Time when;
        if (flags & TFD_TIMER_ABSTIME)
        {
            when = v - O->monoBase - (t->clock == CLOCK_REALTIME ? g_realtimeOffset : 0);
        }
        else
        {
            when = now() + v;
        }
        armTimer(t, std::max(when, now()));
        ++O->timerArms;
        trace("timerfd %d armed for t=%.6f", fd, when / 1e9);
    }
    return ret(C_TFSET, fd, 0);
}

int __wrap_timerfd_gettime(int fd, struct itimerspec* o)
{
    enter(C_TFSET);
    auto t = getAs<TimerF>(fd, File::TIMERFD);
    if (!t)
    {
        errno = EBADF;
        return -1;
    }
    Time left = t->expiry >= 0 ? std::max<Time>(1, t->expiry - now()) : 0;
    o->it_value.tv_sec = left / SEC;
    o->it_value.tv_nsec = left % SEC;
    o->it_interval.tv_sec = t->interval / SEC;
    o->it_interval.tv_nsec = t->interval % SEC;
    return 0;
}

// ---- clocks -----------------------------------------------------------------------------------

static void fillTs(Time t, struct timespec* ts)
{
    ts->tv_sec = t / SEC;
    ts->tv_nsec = t % SEC;
}

int __wrap_clock_gettime(clockid_t c, struct timespec* ts)
{
    if (!active())
    {
        return __real_clock_gettime(c, ts);
    }
    enter(C_CLOCK);
    Time t = now() + O->monoBase;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)
    {
        t += g_realtimeOffset;
    }
    fillTs(t, ts);
    return ret(C_CLOCK, c, 0);
}
int __wrap_gettimeofday(struct timeval* tv, void* tz)
{
    if (!active())
    {
        return __real_gettimeofday(tv, tz);
    }
    enter(C_CLOCK);
    Time t = now() + O->monoBase + g_realtimeOffset;
    tv->tv_sec = t / SEC;
    tv->tv_usec = (t % SEC) / 1000;
    return 0;
}
// The calendar functions may be interrupted like everything else; those without _r share one result.
struct tm* __real_localtime(const time_t*);
struct tm* __wrap_localtime(const time_t* t)
{
    struct tm* r = __real_localtime(t);
    if (active()) enter(C_CLOCK);
    return r;
}
struct tm* __real_gmtime(const time_t*);
struct tm* __wrap_gmtime(const time_t* t)
{
    struct tm* r = __real_gmtime(t);
    if (active()) enter(C_CLOCK);
    return r;
}
struct tm* __real_localtime_r(const time_t*, struct tm*);
struct tm* __wrap_localtime_r(const time_t* t, struct tm* o)
{
    struct tm* r = __real_localtime_r(t, o);
    if (active()) enter(C_CLOCK);
    return r;
}
struct tm* __real_gmtime_r(const time_t*, struct tm*);
struct tm* __wrap_gmtime_r(const time_t* t, struct tm* o)
{
    struct tm* r = __real_gmtime_r(t, o);
    if (active()) enter(C_CLOCK);
    return r;
}
size_t __real_strftime(char*, size_t, const char*, const struct tm*);
size_t __wrap_strftime(char* s, size_t n, const char* f, const struct tm* t)
{
    size_t const r = __real_strftime(s, n, f, t);
    if (active()) enter(C_CLOCK);
    return r;
}
time_t __wrap_time(time_t* p)
{
    if (!active())
    {
        return __real_time(p);
    }
    enter(C_CLOCK);
    time_t t = (now() + O->monoBase + g_realtimeOffset) / SEC;
    if (p)
    {
        *p = t;
    }
    return t;
}
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv()
{
    enter(C_CLOCK);
    return now() + O->monoBase;
}
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv()
{
    enter(C_CLOCK);
    return now() + O->monoBase + g_realtimeOffset;
}
int __wrap_nanosleep(const struct timespec* d, struct timespec* rem)
{
    if (!active())
    {
        return __real_nanosleep(d, rem);
    }
    enter(C_SLEEP);
    sleepFor(d->tv_sec * SEC + d->tv_nsec);
    return ret(C_SLEEP, 0, 0);
}
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec* d, struct timespec*)
{
    enter(C_SLEEP);
    Time t = d->tv_sec * SEC + d->tv_nsec;
    if (flags & TIMER_ABSTIME)
    {
        t -= now() + O->monoBase + (c == CLOCK_REALTIME ? g_realtimeOffset : 0);
    }
    sleepFor(t);
    ret(C_SLEEP, 0, 0);
    return 0;
}
int __wrap_usleep(useconds_t u)
{
    enter(C_SLEEP);
    sleepFor(u * US);
    return 0;
}
unsigned __wrap_sleep(unsigned s)
{
    enter(C_SLEEP);
    sleepFor(s * SEC);
    return 0;
}
int __wrap_sched_yield()
{
    if (!active())
    {
        return __real_sched_yield();
    }
    sim::yield();
    return 0;
}

int __wrap_poll(struct pollfd* p, nfds_t n, int timeout)
{
    if (!active())
    {
        return __real_poll(p, n, timeout);
    }
    enter(C_EPWAIT);
    Time const deadline = timeout < 0 ? -1 : now() + timeout * MS;
    auto eval = [p, n] {
        int c = 0;
        for (nfds_t i = 0; i < n; ++i)
        {
            p[i].revents = 0;
            if (p[i].fd < 0)
            {
                continue;
            }
            auto f = getFd(p[i].fd);
            p[i].revents = f ? static_cast<short>(f->poll() & (p[i].events | POLLERR | POLLHUP)) : POLLNVAL;
            c += p[i].revents != 0;
        }
        return c;
    };
    if (!eval() && timeout != 0)
    {
        waitUntil([&] { return eval() != 0; }, deadline);
    }
    return ret(C_EPWAIT, 0, eval());
}

// ---- threads ------------------------------------------------------------------------------------

static pthread_t newThread(std::function<void*()> fn)
{
    auto t = std::make_unique<Thr>();
    Thr* raw = t.get();
    CPU_ZERO(&t->aff);
    size_t idx = O->threads.size();
    O->threads.push_back(std::move(t));
    raw->f = spawn("thread" + std::to_string(idx), [raw, fn] { raw->ret = fn(); }, true);
    O->threadOf[raw->f] = idx;
    return static_cast<pthread_t>(0x7000 + idx);
}
static Thr* thr(pthread_t t)
{
    size_t i = static_cast<size_t>(t) - 0x7000;
    return i < O->threads.size() ? O->threads[i].get() : nullptr;
}

int __wrap_pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if (!active())
    {
        return __real_pthread_create(out, attr, fn, arg);
    }
    enter(C_PCREATE);
    if (fires(F_THREAD_CREATE_FAIL))
    {
        return static_cast<int>(ret(C_PCREATE, 0, EAGAIN));
    }
    *out = newThread([fn, arg] { return fn(arg); });
    ret(C_PCREATE, static_cast<long>(*out), 0);
    enter(C_PCREATE);
    return 0;
}
int __wrap_pthread_join(pthread_t t, void** out)
{
    if (!active())
    {
        return __real_pthread_join(t, out);
    }
    enter(C_PJOIN);
    Thr* r = thr(t);
    if (!r || r->joined || r->detached)
    {
        crashed("pthread_join invalid", "pthread_join on a thread handle that is not a joinable thread (undefined behaviour)");
    }
    if (r->f == current())
    {
        return static_cast<int>(ret(C_PJOIN, static_cast<long>(t), EDEADLK));
    }
    if (!finished(r->f))
    {
        Fiber* f = r->f;
        waitUntil([f] { return finished(f); });
    }
    r->joined = true;
    if (out)
    {
        *out = r->ret;
    }
    return static_cast<int>(ret(C_PJOIN, static_cast<long>(t), 0));
}
int __wrap_pthread_detach(pthread_t t)
{
    if (Thr* r = thr(t))
    {
        r->detached = true;
        return 0;
    }
    return ESRCH;
}
pthread_t __wrap_pthread_self()
{
    if (!active())
    {
        return __real_pthread_self();
    }
    auto it = O->threadOf.find(current());
    return it == O->threadOf.end() ? 0x6000 + fiberId(current()) : 0x7000 + it->second;
}
int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t* s)
{
    enter(C_PCREATE);
    if (fires(F_THREAD_CREATE_FAIL))
    {
        return EINVAL;      // the machine has none of these CPUs
    }
    Thr* r = thr(t);
    if (!r)
    {
        return ESRCH;
    }
    memcpy(&r->aff, s, std::min(n, sizeof(cpu_set_t)));
    return 0;
}
int __wrap_pthread_getaffinity_np(pthread_t t, size_t n, cpu_set_t* s)
{
    enter(C_PCREATE);
    Thr* r = thr(t);
    if (!r)
    {
        return ESRCH;
    }
    memcpy(s, &r->aff, std::min(n, sizeof(cpu_set_t)));
    return 0;
}
int __wrap_pthread_setname_np(pthread_t, const char*) { return 0; }
int __wrap_pthread_setschedparam(pthread_t, int, const struct sched_param*) { return 0; }

static bool isRecursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!active())
    {
        return __real_pthread_mutex_lock(m);
    }
    enter(C_LOCK);
    Fiber* self = current();
    auto& x = O->mutexes[m];
    if (x.owner == self && isRecursive(m))
    {
        ++x.depth;
        return 0;
    }
    if (x.owner)
    {
        if (x.owner == self)
        {
            crashed("self deadlock", "a thread locks a mutex it already holds (deadlock)");
        }
        waitUntil([m] { auto it = O->mutexes.find(m); return it == O->mutexes.end() || !it->second.owner; });
    }
    auto& y = O->mutexes[m];
    y.owner = self;
    y.depth = 1;
    hashEvent(C_LOCK);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!active())
    {
        return __real_pthread_mutex_trylock(m);
    }
    enter(C_LOCK);
    auto& x = O->mutexes[m];
    if (x.owner)
    {
        if (x.owner == current() && isRecursive(m))
        {
            ++x.depth;
            return 0;
        }
        return EBUSY;
    }
    x.owner = current();
    x.depth = 1;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!active())
    {
        return __real_pthread_mutex_unlock(m);
    }
    auto it = O->mutexes.find(m);
    if (it == O->mutexes.end() || it->second.owner != current())
    {
        return EPERM;
    }
    if (--it->second.depth == 0)
    {
        O->mutexes.erase(it);
    }
    enter(C_UNLOCK);
    return 0;
}
static int rwBase(void* l, bool lock)
{
    auto* m = static_cast<pthread_mutex_t*>(l);
    if (lock)
    {
        enter(C_LOCK);
        if (O->mutexes[m].owner)
        {
            waitUntil([m] { auto it = O->mutexes.find(m); return it == O->mutexes.end() || !it->second.owner; });
        }
        O->mutexes[m].owner = current();
        O->mutexes[m].depth = 1;
    }
    else
    {
        O->mutexes.erase(m);
        enter(C_UNLOCK);
    }
    return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) { return rwBase(l, true); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) { return rwBase(l, true); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) { return rwBase(l, false); }

static bool condWait(void* c, pthread_mutex_t* m, Time deadline)
{
    uint64_t signalled = 0;
    O->condWaiters[c].push_back(&signalled);
    __wrap_pthread_mutex_unlock(m);
    bool ok = waitUntil([&signalled] { return signalled != 0; }, deadline);
    auto& q = O->condWaiters[c];
    q.erase(std::remove(q.begin(), q.end(), &signalled), q.end());
    __wrap_pthread_mutex_lock(m);
    return ok;
}
static void condNotify(void* c, bool all)
{
    enter(C_COND);
    auto& q = O->condWaiters[c];
    while (!q.empty())
    {
        *q.front() = 1;
        q.pop_front();
        if (!all)
        {
            break;
        }
    }
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    condWait(c, m, -1);
    return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    return condWait(c, m, t->tv_sec * SEC + t->tv_nsec - O->monoBase - g_realtimeOffset) ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    return condWait(c, m, t->tv_sec * SEC + t->tv_nsec - O->monoBase - (k == CLOCK_REALTIME ? g_realtimeOffset : 0)) ? 0
                                                                                                                  : ETIMEDOUT;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c)
{
    condNotify(c, false);
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
{
    condNotify(c, true);
    return 0;
}
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, std::unique_lock<std::mutex>& l)
{
    condWait(c, l.mutex()->native_handle(), -1);
}
void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) { condNotify(c, false); }
void __wrap__ZNSt18condition_variable10notify_allEv(void* c) { condNotify(c, true); }

struct ThreadState { virtual ~ThreadState() {} virtual void _M_run() = 0; };   // layout of std::thread::_State
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(
    pthread_t* self, std::unique_ptr<ThreadState>* st, void (*)())
{
    std::shared_ptr<ThreadState> s(st->release());
    enter(C_PCREATE);
    *self = newThread([s]() -> void* { s->_M_run(); return nullptr; });
    enter(C_PCREATE);
}
void __wrap__ZNSt6thread4joinEv(pthread_t* self)
{
    __wrap_pthread_join(*self, nullptr);
    *self = 0;
}
void __wrap__ZNSt6thread6detachEv(pthread_t* self)
{
    __wrap_pthread_detach(*self);
    *self = 0;
}

// function-local statics: no preemption inside their initialisation
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g)
{
    int r = __real___cxa_guard_acquire(g);
    if (r)
    {
        noPreempt(1);
    }
    return r;
}
void __wrap___cxa_guard_release(void* g)
{
    __real___cxa_guard_release(g);
    noPreempt(-1);
}
void __wrap___cxa_guard_abort(void* g)
{
    __real___cxa_guard_abort(g);
    noPreempt(-1);
}

// ---- misc ---------------------------------------------------------------------------------------

int __wrap_rand()
{
    if (!active())
    {
        return __real_rand();
    }
    O->randState = O->randState * 6364136223846793005ull + 1442695040888963407ull;
    int v = static_cast<int>((O->randState >> 33) & 0x7fffffff);
    return v;
}
void __wrap_srand(unsigned s)
{
    if (O)
    {
        O->randState = s * 7919ull + 17;
    }
}

static int doPrint(const char* fmt, va_list ap)
{
    char buf[8192];
    int n = vsnprintf(buf, sizeof(buf), fmt, ap);
    if (captureFd != -1)
    {
        fputs(buf, stdout);
    }
    if (tracing())
    {
        while (n > 0 && n < (int)sizeof(buf) && buf[n - 1] == '\n')
        {
            buf[--n] = 0;
        }
        trace("log: %s", buf);
    }
    enter(C_PRINT);
    return n;
}
int __wrap_printf(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    int n = active() ? doPrint(fmt, ap) : vfprintf(stdout, fmt, ap);
    va_end(ap);
    return n;
}
int __real_puts(const char*);
int __wrap_puts(const char* s)
{
    if (!active())
    {
        return __real_puts(s);
    }
    trace("log: %s", s);
    if (captureFd != -1)
    {
        __real_puts(s);
    }
    enter(C_PRINT);
    return 1;
}
int __real_putchar(int);
int __wrap_putchar(int c) { return active() && captureFd == -1 ? c : __real_putchar(c); }

sighandler_t __wrap_signal(int sig, sighandler_t h)
{
    if (!active())
    {
        return __real_signal(sig, h);
    }
    if (sig == SIGPIPE)
    {
        O->sigpipeIgnored = h != SIG_DFL;
    }
    return SIG_DFL;
}
int __wrap_sigaction(int sig, const struct sigaction* a, struct sigaction* o)
{
    if (!active())
    {
        return __real_sigaction(sig, a, o);
    }
    if (sig == SIGPIPE && a)
    {
        O->sigpipeIgnored = a->sa_handler != SIG_DFL;
    }
    return 0;
}

} // extern "C"
