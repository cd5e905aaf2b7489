// P03: links and acceptors carry byte streams faithfully and report every connection outcome.
#include "common.hpp"
#include <cstring>

using namespace scen;
using namespace app::reactor;

namespace
{
constexpr unsigned POOL = 32;

uint8_t pat(unsigned id, unsigned dir, size_t off)
{
    uint64_t x = (static_cast<uint64_t>(id) << 33 | static_cast<uint64_t>(dir) << 32 | off) * 0x9E3779B97F4A7C15ull;
    x ^= x >> 29;
    return static_cast<uint8_t>((x * 0xBF58476D1CE4E5B9ull) >> 56);
}

struct L
{
    unsigned id = 0;
    LinkPtr ptr;
    bool incoming = false;
    bool mayConnect = false;        // a connect is outstanding
    bool connected = false;
    bool closedByUser = false;      // close() or release() was called by the user
    bool errorEvent = false;        // error event delivered
    bool sawClosed = false;         // receive reported that the peer closed
    bool sawRecvError = false;
    bool released = false;
    bool crossKill = false;         // other handlers may close it
    std::vector<uint8_t> in;        // bytes received
    size_t accepted = 0;            // bytes of sends that reported success
    size_t tail = 0;                // length of a final send that reported failure
    bool sendFailed = false;
    bool lazy = false;              // does not close on end of stream by itself
    bool ended() const { return errorEvent || sawClosed || sawRecvError; }
};

struct W
{
    ExecReactor* ex = nullptr;
    std::vector<std::shared_ptr<L>> all;
    AcceptorPtr acceptor;
    unsigned acceptedConns = 0;
    unsigned nextId = 1;
    bool throwing = false;             // handlers fail at random
    bool resFaults = false;
    bool lowMem = false;
    unsigned live = 0;
    uint16_t lport = 0;
    unsigned acceptErrors = 0;
    unsigned resetDen = 0;
};
W* w;

const char* P3() { return w->throwing ? "P03,P04" : "P03"; }

// At the end of a handler, when everything is recorded.
void mayFail()
{
    if (w->throwing && draw(S_OPS, 3) == 2)
    {
        fail();
    }
}

void userClose(L& l, bool release)
{
    trace("user %s link %u", release ? "releases" : "closes", l.id);
    l.closedByUser = true;
    l.connected = false;
    l.mayConnect = false;
    if (l.ptr)
    {
        if (release)
        {
            l.released = true;
            l.ptr.reset();
            --w->live;
        }
        else
        {
            l.ptr->close();
        }
    }
}

void drain(L& l)
{
    for (;;)
    {
        uint8_t buf[512];
        size_t const n = pick<size_t>(S_OPS, {512, 1, 7, 100});
        LinkResult r = l.ptr->receive(buf, n);
        if (r.status == LinkResult::ok)
        {
            if (r.len <= 0)
            {
                violation(P3(), "link %u: receive reports success with %d bytes (peer close not reported)", l.id, r.len);
            }
            if (static_cast<size_t>(r.len) > n)
            {
                violation(P3(), "link %u: receive reports more bytes than asked for", l.id);
            }
            l.in.insert(l.in.end(), buf, buf + r.len);
            count("link_bytes_received", r.len);
            continue;
        }
        if (r.status == LinkResult::closed)
        {
            l.sawClosed = true;
            count("link_peer_close_reported");
        }
        else if (r.status == LinkResult::error)
        {
            l.sawRecvError = true;
            count("link_receive_errors");
        }
        break;
    }
}

void onEvent(std::weak_ptr<L> wl, LinkEvent e)
{
    auto p = wl.lock();
    if (!p)
    {
        violation(P3(), "event delivered to the handler of a released link");
    }
    L& l = *p;
    trace("link %u event %d", l.id, static_cast<int>(e));
    if (l.closedByUser || l.released)
    {
        violation(P3(), "link %u: event delivered after the link was %s", l.id, l.released ? "released" : "closed");
    }
    if (l.errorEvent)
    {
        violation(P3(), "link %u: event delivered after an error event", l.id);
    }
    switch (e)
    {
    case LinkEvent::connected:
        if (!l.mayConnect)
        {
            violation(P3(), "link %u: connected reported without an outstanding connect", l.id);
        }
        l.mayConnect = false;
        l.connected = true;
        count("link_connected");
        break;
    case LinkEvent::data:
        if (!l.connected)
        {
            violation(P3(), "link %u: data reported before the connection", l.id);
        }
        drain(l);
        if (l.ended() && !l.lazy)
        {
            userClose(l, draw(S_OPS, 2));
        }
        break;
    case LinkEvent::error:
        l.errorEvent = true;
        l.connected = false;
        l.mayConnect = false;
        count("link_error_events");
        if (!l.lazy)
        {
            userClose(l, draw(S_OPS, 2));
        }
        break;
    }
    if (draw(S_OPS, 12) == 11)
    {
        // a handler may close or release any other link
        for (auto& o : w->all)
        {
            if (o->crossKill && o.get() != &l && !o->closedByUser && o->ptr && !o->ended())
            {
                userClose(*o, draw(S_OPS, 2));
                count("link_closed_by_foreign_handler");
                break;
            }
        }
    }
    mayFail();
}

std::shared_ptr<L> newL(bool incoming)
{
    auto l = std::make_shared<L>();
    l->id = incoming ? 0 : w->nextId++;
    l->incoming = incoming;
    w->all.push_back(l);
    return l;
}

bool create(std::shared_ptr<L> const& l)
{
    std::weak_ptr<L> wl = l;
    try
    {
        l->ptr = w->ex->reactor->createLink([wl](LinkEvent e) { onEvent(wl, e); });
        ++w->live;
        return true;
    }
    catch (std::exception const&)
    {
        if (w->live < POOL)
        {
            violation("P03,P16", "a link cannot be created although only %u of %u are in use", w->live, POOL);
        }
        return false;
    }
}

void onAccept()
{
    auto l = newL(true);
    if (!create(l))
    {
        return;
    }
    try
    {
        l->connected = true;
        w->acceptor->accept(*l->ptr);
        ++w->acceptedConns;
        count("link_accepted");
        // data may be there already: an edge-triggered user reads at once or on the event
    }
    catch (std::exception const& e)
    {
        trace("accept failed: %s", e.what());
        ++w->acceptErrors;
        count("link_accept_failures");
        l->closedByUser = l->released = true;
        l->connected = false;
        l->ptr.reset();
        --w->live;
        if (!w->resFaults)
        {
            violation(P3(), "accept fails without any fault: %s", e.what());
        }
    }
    mayFail();
}

void sutSend(L& l, size_t n)
{
    if (!l.ptr || !l.connected || l.sendFailed || l.closedByUser)
    {
        return;
    }
    std::vector<uint8_t> b(n);
    for (size_t k = 0; k < n; ++k)
    {
        b[k] = pat(l.id, 1, l.accepted + k);
    }
    int const rc = l.ptr->send(b.data(), n);
    if (rc > 0)
    {
        l.accepted += n;
        count("link_sends_ok");
    }
    else
    {
        l.sendFailed = true;
        l.tail = n;
        count("link_sends_failed");
        if (!w->lowMem && !w->resFaults && !l.ended() && w->resetDen == 0)
        {
            // the peer may have gone without the link being told yet: allowed, checked by the actor
        }
    }
}

// What the peer has received must be the accepted sends, plus possibly a prefix of one failed last send.
void checkPeerStream(L& l, std::vector<uint8_t> const& got, bool complete)
{
    for (size_t k = 0; k < got.size(); ++k)
    {
        if (k >= l.accepted + l.tail)
        {
            violation(P3(), "link %u: the peer received more bytes than were sent", l.id);
        }
        if (got[k] != pat(l.id, 1, k))
        {
            violation(P3(), "link %u: the peer received different bytes than were sent", l.id);
        }
    }
    if (complete && got.size() < l.accepted)
    {
        violation(P3(), "link %u: a send reported success but only %zu of %zu bytes reached the peer", l.id, got.size(), l.accepted);
    }
    if (complete)
    {
        count("link_peer_streams_checked");
    }
}

void checkSutStream(L& l, size_t peerSent, bool complete, unsigned hdr = 0)
{
    if (l.in.size() > peerSent)
    {
        violation(P3(), "link %u: more bytes received than the peer sent", l.id);
    }
    for (size_t k = hdr; k < l.in.size(); ++k)
    {
        if (l.in[k] != pat(l.id, 0, k))
        {
            violation(P3(), "link %u: received bytes differ from what the peer sent", l.id);
        }
    }
    if (complete && l.in.size() < peerSent)
    {
        violation(P3(), "link %u: only %zu of %zu bytes of the peer were received", l.id, l.in.size(), peerSent);
    }
}

const Time LIM = 40 * SEC;

// The dialogue after the connection exists on both sides.
void dialogue(std::shared_ptr<L> l, PeerConn& c, size_t peerSent, unsigned hdr)
{
    std::vector<uint8_t> got;
    bool peerEnded = false, peerReset = false, sutClosed = false, fullClose = false;
    l->crossKill = draw(S_OPS, 3) == 2;
    unsigned const steps = 1 + draw(S_OPS, 8);
    auto peerSend = [&](size_t n) {
        std::vector<uint8_t> b(n);
        for (size_t k = 0; k < n; ++k)
        {
            b[k] = pat(l->id, 0, peerSent + k);
        }
        c.send(b);
        peerSent += n;
    };
    for (unsigned k = 0; k < steps && !peerEnded; ++k)
    {
        switch (pickw(S_OPS, {5, 4, 2, 2, 2, 1, 1, 1, 1}))
        {
        case 0: peerSend(1 + draw(S_OPS, 700)); break;
        case 1:
        {
            size_t const n = 1 + draw(S_OPS, 600);
            w->ex->exec([l, n] { sutSend(*l, n); });
            break;
        }
        case 2:
        {
            auto b = c.takeAll();
            got.insert(got.end(), b.begin(), b.end());
            break;
        }
        case 3: sleepFor(static_cast<Time>(draw(S_OPS, 300)) * MS); break;
        case 4:
            // both directions at once while the reactor is busy
            w->ex->post([l] {
                sleepFor(static_cast<Time>(draw(S_OPS, 50)) * MS);
                sutSend(*l, 1 + draw(S_OPS, 100));
            });
            peerSend(1 + draw(S_OPS, 200));
            break;
        case 5:
            countFault(F_PEER_CLOSE);
            c.shutdownWrite();
            peerEnded = true;
            break;
        case 6:
            countFault(F_PEER_RESET);
            c.abort();
            peerEnded = peerReset = true;
            break;
        case 7:
            w->ex->exec([l] {
                if (l->ptr && !l->closedByUser)
                {
                    userClose(*l, draw(S_OPS, 2));
                }
            });
            sutClosed = true;
            peerEnded = true;
            break;
        default:
            c.partition(static_cast<Time>(1 + draw(S_OPS, 2000)) * MS);
            countFault(F_NET_PARTITION);
            break;
        }
    }
    if (!peerEnded)
    {
        switch (draw(S_OPS, 4))
        {
        case 1: c.abort(); peerReset = true; countFault(F_PEER_RESET); break;
        case 2:
            w->ex->exec([l] {
                if (l->ptr && !l->closedByUser)
                {
                    userClose(*l, draw(S_OPS, 2));
                }
            });
            sutClosed = true;
            break;
        case 3:
            // unread data on the peer side at close turns into a reset in TCP
            countFault(F_PEER_CLOSE);
            fullClose = true;
            c.close();
            break;
        default: c.shutdownWrite(); break;
        }
    }
    bool const netReset = w->resetDen != 0;
    bool const foreign = l->closedByUser;
    if (!sutClosed && !l->closedByUser)
    {
        // keep the peer's receive side drained so that everything accepted can arrive
        Time const end = now() + LIM;
        while (now() < end && !(l->ended() || l->closedByUser))
        {
            if (c.valid() && !peerReset && !fullClose)
            {
                auto b = c.takeAll();
                got.insert(got.end(), b.begin(), b.end());
            }
            sleepFor(100 * MS);
        }
        peerReset |= fullClose && l->accepted + l->tail > got.size();
        if (!l->ended() && !l->closedByUser)
        {
            violation(P3(), "link %u: the peer %s and the link was not told", l->id, peerReset ? "reset the connection" : "closed the connection");
        }
        checkSutStream(*l, peerSent, !peerReset && !netReset && !l->sawRecvError && !l->errorEvent && !l->crossKill && l->sawClosed, hdr);
        if (!peerReset && !netReset && !w->resFaults && l->errorEvent && !l->sendFailed && !l->crossKill)
        {
            violation(P3(), "link %u: error reported although the peer closed in order", l->id);
        }
    }
    else
    {
        checkSutStream(*l, peerSent, false, hdr);
    }
    if (l->lazy)
    {
        w->ex->exec([l] {
            if (l->ptr && !l->closedByUser)
            {
                sleepFor(static_cast<Time>(draw(S_OPS, 20)) * MS);
                userClose(*l, draw(S_OPS, 2));
            }
        });
    }
    // the local close reaches the peer, after everything that was accepted
    if (c.valid() && c.sock()->orphan == false)
    {
        Time const end = now() + LIM;
        while (now() < end && !c.eof())
        {
            auto b = c.takeAll();
            got.insert(got.end(), b.begin(), b.end());
            sleepFor(50 * MS);
        }
        if (!c.eof())
        {
            violation(P3(), "link %u: closed locally but the peer sees an open connection", l->id);
        }
        // unread input at local close makes the kernel reset: then delivery of the tail is not promised
        bool const clean = !c.reset() && !peerReset && !netReset;
        checkPeerStream(*l, got, clean);
    }
    else
    {
        checkPeerStream(*l, got, false);
    }
    (void)foreign;
}

void releaseAll(std::shared_ptr<L> l)
{
    w->ex->exec([l] {
        if (l->ptr)
        {
            userClose(*l, true);
        }
    });
}

void outgoing(unsigned actor)
{
    unsigned const kind = pickw(S_OPS, {8, 2, 1});
    uint16_t port = pick<uint16_t>(S_OPS, {5020, 0x80ff, 0x00ff, 0xff80, 502}) + static_cast<uint16_t>(0);
    uint32_t const addr = pick<uint32_t>(S_OPS, {0x7f000001u, 0x0a00c881u, 0xc0a801ffu, 0xac108001u}) + (actor << 8);
    auto l = newL(false);
    l->lazy = draw(S_OPS, 4) == 3;
    std::unique_ptr<PeerListener> pl;
    if (kind != 1)
    {
        pl = std::make_unique<PeerListener>(port, 10, addr);
    }
    bool created = false;
    w->ex->exec([&] { created = create(l); });
    if (!created)
    {
        return;
    }
    bool threw = false, called = false;
    unsigned tries = 0;
    do
    {
        threw = false;
        if (tries)
        {
            // an abandoned attempt may still reach the old listener
            ++port;
            pl.reset();
            if (kind != 1)
            {
                pl = std::make_unique<PeerListener>(port, 10, addr);
            }
        }
        if (!w->ex->exec([&, l] {
                called = true;
                l->mayConnect = true;
                l->errorEvent = false;
                try
                {
                    l->ptr->connect(addr4(port, addr));
                }
                catch (std::exception const& e)
                {
                    trace("connect threw: %s", e.what());
                    threw = true;
                    l->mayConnect = false;
                }
            }))
        {
            violation("P03,P01", "the reactor no longer runs work posted to it");
        }
        if (threw)
        {
            count("link_connect_threw");
            if (!w->resFaults)
            {
                violation(P3(), "connect fails without any fault");
            }
        }
    } while (threw && ++tries < 3);
    if (threw)
    {
        releaseAll(l);
        return;
    }
    if (kind == 1)
    {
        waitUntil([l] { return l->errorEvent || l->connected || l->closedByUser; }, now() + LIM);
        if (l->connected)
        {
            violation(P3(), "link %u: connected reported although the connection was refused", l->id);
        }
        if (!l->errorEvent)
        {
            violation(P3(), "link %u: refused connection not reported", l->id);
        }
        count("link_refused_reported");
        countFault(F_PEER_REFUSED);
        releaseAll(l);
        return;
    }
    PeerConn c;
    bool speakFirst = draw(S_OPS, 3) == 2;
    Time const deadline = now() + LIM;
    if (!pl->accept(c, deadline))
    {
        if (l->mayConnect && !l->ended())
        {
            violation(P3(), "link %u: no connection arrives at the given address and port", l->id);
        }
        if (!w->resFaults && w->resetDen == 0)
        {
            violation(P3(), "link %u: connection attempt to a listening peer fails", l->id);
        }
        releaseAll(l);
        return;
    }
    size_t peerSent = 0;
    if (kind == 2)
    {
        // the peer goes away right after accepting
        if (draw(S_OPS, 2)) c.abort(); else c.close();
        if (!waitUntil([l] { return l->ended(); }, now() + LIM))
        {
            violation(P3(), "link %u: the peer went away right after the connect and the link was not told", l->id);
        }
        count("link_peer_gone_at_connect");
        releaseAll(l);
        return;
    }
    if (speakFirst)
    {
        std::vector<uint8_t> b(1 + draw(S_OPS, 50));
        for (size_t k = 0; k < b.size(); ++k)
        {
            b[k] = pat(l->id, 0, k);
        }
        c.send(b);
        peerSent = b.size();
        count("link_peer_speaks_first");
    }
    if (!waitUntil([l] { return l->connected || l->ended() || l->closedByUser; }, now() + LIM))
    {
        violation(P3(), "link %u: established connection not reported", l->id);
    }
    if (!l->connected)
    {
        if (l->errorEvent && !w->resFaults && w->resetDen == 0)
        {
            violation(P3(), "link %u: error reported for a connection that was established", l->id);
        }
        releaseAll(l);
        return;
    }
    dialogue(l, c, peerSent, 0);
    releaseAll(l);
}

void incoming()
{
    PeerConn c;
    if (!peerConnect(c, w->lport, now() + LIM))
    {
        violation(P3(), "a peer cannot connect to a listening acceptor");
    }
    unsigned const id = w->nextId++;
    if (draw(S_OPS, 5) == 4)
    {
        // gone before it said anything
        if (draw(S_OPS, 2)) c.abort(); else c.close();
        count("link_anonymous_peers");
        return;
    }
    uint8_t hdr[4] = {0xa5, static_cast<uint8_t>(id >> 8), static_cast<uint8_t>(id), 0x5a};
    c.send(hdr, 4);
    std::shared_ptr<L> l;
    waitUntil([&] {
        for (auto& x : w->all)
        {
            if (x->incoming && x->id == 0 && x->in.size() >= 4 && !memcmp(x->in.data(), hdr, 4))
            {
                l = x;
                return true;
            }
        }
        return false;
    }, now() + LIM);
    if (!l)
    {
        if (w->resetDen && c.eof())
        {
            return;
        }
        violation(P3(), "a peer's connection was not accepted or its first bytes were not received");
    }
    l->id = id;
    dialogue(l, c, 4, 4);
    releaseAll(l);
}

void run(bool resFaults, bool throwing = false)
{
    drawSched();
    drawLogs();
    drawClockJumps();
    drawNet(true);
    W ww;
    w = &ww;
    w->resFaults = resFaults;
    w->throwing = throwing;
    w->resetDen = net.resetDen;
    ReactorManager mgr;
    ExecReactor ex(mgr);
    w->ex = &ex;
    if (draw(S_CFG, 4) == 3)
    {
        w->lowMem = true;
        setSutSndCap(pick<size_t>(S_CFG, {64, 300, 1000}));
        countFault(F_SMALL_SNDBUF);
    }
    if (draw(S_CFG, 3) == 2)
    {
        enableFault(F_EPOLL_EINTR, 1, 8);
        enableFault(F_SPURIOUS_EVENT, 1, 30);
    }
    if (draw(S_CFG, 4) == 3)
    {
        enableFault(F_CONNECT_SYNC_OK, 1, 2);
    }
    mgr.start();
    w->lport = pick<uint16_t>(S_CFG, {12145, 4369, 0xfe81});
    bool listening = false;
    if (resFaults && draw(S_CFG, 2))
    {
        enableFault(F_BIND_FAIL, 1, 3);
        enableFault(F_SOCKET_EMFILE, 1, 6);
        enableFault(F_EPOLL_CTL_ADD, 1, 6);
    }
    for (unsigned k = 0; k < 3 * POOL && !listening; ++k)
    {
        ex.exec([&] {
            try
            {
                w->acceptor = w->ex->reactor->createAcceptor([] { onAccept(); });
                w->acceptor->listen(addr4(w->lport));
                listening = true;
            }
            catch (std::exception const& e)
            {
                if (!resFaults || !w->acceptor)
                {
                    violation("P03,P16", "listen fails without any fault: %s", e.what());
                }
                count("link_listen_failures");
                w->acceptor.reset();
            }
        });
    }
    if (!listening)
    {
        violation("P03,P16", "an acceptor cannot be opened although the faults are transient");
    }
    enableFault(F_BIND_FAIL, 0, 1);
    if (resFaults)
    {
        enableFault(F_SOCKET_EMFILE, 1, 8);
        enableFault(F_FCNTL_FAIL, 1, 8);
        enableFault(F_CLOSE_EINTR, 1, 8);
        enableFault(F_EPOLL_CTL_ADD, 1, 8);
        enableFault(F_ACCEPT_FAIL, 1, 8);
        enableFault(F_CONNECT_SYNC_FAIL, 1, 8);
        enableFault(F_EPOLL_CTL_MOD, 1, 16);
        enableFault(F_READ_FAIL, 1, 100);
        enableFault(F_WRITE_FAIL, 1, 50);
    }
    unsigned const actors = pick<unsigned>(S_CFG, {1, 2, 5, 8});
    unsigned done = 0;
    for (unsigned a = 0; a < actors; ++a)
    {
        unsigned const rounds = 1 + draw(S_CFG, 3);
        bool const in = draw(S_CFG, 2);
        spawn("actor" + std::to_string(a), [a, rounds, in, &done] {
            for (unsigned k = 0; k < rounds; ++k)
            {
                if (in && !w->resFaults)
                {
                    incoming();
                }
                else if (in)
                {
                    // with failing accepts the identity of a connection cannot be tracked: only outcome and cleanup count
                    PeerConn c;
                    if (peerConnect(c, w->lport, now() + LIM))
                    {
                        uint8_t b[8] = {};
                        c.send(b, 8);
                        sleepFor(static_cast<Time>(draw(S_OPS, 200)) * MS);
                        if (draw(S_OPS, 2)) c.close(); else c.abort();
                    }
                }
                else
                {
                    outgoing(a);
                }
            }
            ++done;
        });
    }
    if (!waitUntil([&] { return done == actors; }, now() + 3000 * SEC))
    {
        violation(P3(), "links stop making progress");
    }
    faultsOff();
    calmNet();
    nontrivial();
    sleepFor(5 * SEC);
    // not earlier: a fault may have struck a call that was still in progress
    w->resFaults = false;
    w->resetDen = 0;
    // everything still open is closed by now or closable; then nothing is left
    bool ok = ex.exec([] {
        for (auto& l : w->all)
        {
            if (l->ptr)
            {
                userClose(*l, true);
            }
        }
    });
    auto st = osStats();
    if (!ok || st.sockets != 0 || st.listeners != 1)
    {
        violation("P03,P16", "sockets are left open after every link was released: %s", fdDump().c_str());
    }
    // the whole pool works again
    std::vector<std::shared_ptr<L>> v;
    ex.exec([&] {
        for (unsigned k = 0; k < POOL; ++k)
        {
            auto l = newL(false);
            if (create(l))
            {
                v.push_back(l);
            }
        }
    });
    if (v.size() != POOL)
    {
        violation("P03,P16", "only %zu of %u links can be created after all were released", v.size(), POOL);
    }
    ex.exec([&] {
        // one more is refused, or an object of its own
        try
        {
            LinkPtr const more = w->ex->reactor->createLink([](LinkEvent) {});
            for (auto& l : v)
            {
                if (more.get() == l->ptr.get())
                {
                    violation("P03,P16", "two links at the same time are the same object");
                }
            }
        }
        catch (std::exception const&)
        {
        }
        for (auto& l : v)
        {
            userClose(*l, true);
        }
    });
    // and the acceptor still accepts
    unsigned const before = w->acceptedConns;
    PeerConn c;
    if (!peerConnect(c, w->lport, now() + LIM) || !waitUntil([&] { return w->acceptedConns == before + 1; }, now() + LIM))
    {
        violation(P3(), "the acceptor does not accept any more");
    }
    ex.exec([] {
        for (auto& l : w->all)
        {
            if (l->ptr)
            {
                userClose(*l, true);
            }
        }
        w->acceptor.reset();
    });
    if (osStats().sockets != 0 || osStats().listeners != 0)
    {
        violation("P03,P16", "sockets are left open after the acceptor was released: %s", fdDump().c_str());
    }
    if (osStats().badCloses)
    {
        violation("P03,P16", "%d closes of descriptors that were not open", osStats().badCloses);
    }
    PeerConn c2;
    peerConnect(c2, w->lport, now() + 2 * SEC);
    sleepFor(1 * SEC);
    if (c2.connected())
    {
        violation(P3(), "a released acceptor still takes connections");
    }
    finishRun();
}

Register r1("link", "P03", [] { run(false); });
Register r3("linkthrow", "P04,P03", [] { run(false, true); });
Register r2("linkres", "P16,P03", [] { run(true); });

} // namespace
