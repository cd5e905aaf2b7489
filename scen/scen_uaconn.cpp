// P17: the OPC UA connection objects (common/ua/protocols/connection) report every attempt once and carry messages whole.
#include "common.hpp"
#include <cstring>
#include "AcceptorInterface.hpp"
#include "ClientConnection.hpp"
#include "LinkInterface.hpp"
#include "ServerConnection.hpp"
#include "TimerInterface.hpp"

using namespace scen;
using namespace app::reactor;
using app::ua::OpcUaConnection;
using app::ua::OpcUaSduBuffer;

namespace
{
using Bytes = std::vector<uint8_t>;
constexpr uint16_t LPORT = 4840;
constexpr Time T_CONNECT = 3 * SEC, T_HANDSHAKE = 1 * SEC, T_ESTABLISHED = 10 * SEC;

enum Kind { CLIENT, REVERSE, INCOMING };
enum Ev { E_CONNECTED, E_DATA, E_ERROR, E_CLOSED };
const char* const evName[] = {"connected", "data", "error", "closed"};

struct U;
struct A                            // one attempt to get a connection
{
    unsigned id = 0;
    Kind kind = CLIENT;
    U* u = nullptr;
    Time t0 = 0;
    bool started = false, threw = false;
    bool connected = false;
    Time connectedAt = 0;
    bool ended = false;             // error or closed reported
    Ev end = E_ERROR;
    Time endedAt = 0;
    bool userClosed = false;
    unsigned received = 0;          // messages
    size_t inOff = 0;               // consumed part of the peer's stream
    Bytes peerStream;               // what the peer sent after the handshake
    Bytes out;                      // accepted by send()
    size_t tail = 0;                // of a send that failed
    bool sendFailed = false;
    bool over() const { return threw || ended || userClosed; }
    bool idle() const { return over() && !inHook; }
    // what the user does inside a report, once
    int hookEv = -1;
    bool inHook = false;
    std::function<void()> hook;
};

struct W
{
    ExecReactor* ex = nullptr;
    bool res = false;               // resource faults
    bool tight = false;             // nothing slows the run down: a good peer must get its connection
    AcceptorPtr acceptor;
    U* acceptor_user = nullptr;     // who takes the next incoming connection
    std::shared_ptr<A> acceptor_attempt;
    bool taken = false;
    bool busy = false;              // one incoming connection at a time
    unsigned nextId = 1;
    unsigned attempts = 0;
};
W* w;

struct U : app::ua::OpcUaConnectionHandler
{
    unsigned id = 0;
    bool server = false;
    std::unique_ptr<app::ua::ClientConnection> c;
    std::unique_ptr<app::ua::ServerConnection> s;
    std::shared_ptr<A> cur;
    OpcUaConnection& conn() { return server ? static_cast<OpcUaConnection&>(*s) : static_cast<OpcUaConnection&>(*c); }
    void report(Ev e);
    void onConnectionConnectedEvent() override { report(E_CONNECTED); }
    void onConnectionDataReceivedEvent() override { report(E_DATA); }
    void onConnectionErrorEvent() override { report(E_ERROR); }
    void onConnectionClosedEvent() override { report(E_CLOSED); }
};

Time slack() { return 2 * SEC + (sched.stallDen ? 3 * SEC : 0); }

void U::report(Ev e)
{
    trace("connection %u: %s reported (attempt %u)", id, evName[e], cur ? cur->id : 0);
    count((std::string("uaconn_") + evName[e]).c_str());
    if (!cur)
    {
        violation("P17", "connection %u: '%s' is reported although there is no connection any more", id, evName[e]);
    }
    auto a = cur;
    switch (e)
    {
    case E_CONNECTED:
        if (a->connected)
        {
            violation("P17", "connection %u: connected is reported twice", id);
        }
        a->connected = true;
        a->connectedAt = now();
        break;
    case E_DATA:
    {
        if (!a->connected)
        {
            violation("P17", "connection %u: data is reported before the connection", id);
        }
        auto const& rx = conn().getRxBuffer();
        size_t const n = rx.size();
        if (n < 8 || a->inOff + n > a->peerStream.size())
        {
            violation("P17", "connection %u: a message of %zu bytes is reported, the peer has sent %zu more bytes", id, n, a->peerStream.size() - a->inOff);
        }
        if (memcmp(rx.begin(), a->peerStream.data() + a->inOff, n))
        {
            violation("P17", "connection %u: message %u differs from what the peer sent", id, a->received);
        }
        uint32_t sz;
        memcpy(&sz, rx.begin() + 4, 4);
        if (sz != n)
        {
            violation("P17", "connection %u: %zu bytes are reported for a message of %u bytes", id, n, sz);
        }
        a->inOff += n;
        ++a->received;
        break;
    }
    case E_ERROR:
    case E_CLOSED:
        if (e == E_CLOSED && !a->connected)
        {
            violation("P17", "connection %u: closed is reported for an attempt that did not get a connection", id);
        }
        if (e == E_CLOSED && now() < a->connectedAt + T_ESTABLISHED - 500 * MS)
        {
            violation("P17", "connection %u: closed %.3f s after it was connected without a cause", id, double(now() - a->connectedAt) / SEC);
        }
        a->ended = true;
        a->end = e;
        a->endedAt = now();
        cur.reset();
        break;
    }
    if (a->hookEv == e)
    {
        a->hookEv = -1;
        count("uaconn_handler_actions");
        a->inHook = true;
        a->hook();
        a->inHook = false;
    }
}

// ---- user actions, on the reactor thread -----------------------------------------------------
LinkAddr target(A const& a) { return addr4(LPORT, 0x0a000000u + a.id); }

void start(U& u, std::shared_ptr<A> a, LinkAddr addr)
{
    if (u.cur)
    {
        harnessError("attempt on a busy object");
    }
    a->u = &u;
    a->t0 = now();
    a->started = true;
    u.cur = a;
    ++w->attempts;
    trace("connection %u: attempt %u starts", u.id, a->id);
    try
    {
        if (u.server) u.s->connect(addr); else u.c->connect(addr);
    }
    catch (std::exception const& e)
    {
        trace("connect threw: %s", e.what());
        count("uaconn_connect_threw");
        if (!w->res)
        {
            violation("P17", "connection %u: connect fails without any fault: %s", u.id, e.what());
        }
        if (a->over() || a->connected)
        {
            violation("P17", "connection %u: connect throws after it has reported an outcome", u.id);
        }
        a->threw = true;
        u.cur.reset();
    }
}

void userClose(U& u, A& a)
{
    if (!a.over())
    {
        trace("connection %u: user closes attempt %u", u.id, a.id);
        count(a.connected ? "uaconn_user_close" : "uaconn_user_close_in_handshake");
        a.userClosed = true;
        u.cur.reset();
        if (u.server) u.s->close(); else u.c->close();
    }
}

Bytes mkMsg(size_t n)
{
    Bytes b(n);
    static const char* const t[] = {"MSGF", "OPNF", "CLOF", "MSGC", "ACKF", "HELF"};
    memcpy(b.data(), t[draw(S_OPS, 6)], 4);
    uint32_t const z = static_cast<uint32_t>(n);
    memcpy(b.data() + 4, &z, 4);
    uint32_t x = draw(S_OPS, 1u << 30);
    for (size_t k = 8; k < n; ++k)
    {
        x = x * 1664525u + 1013904223u;
        b[k] = static_cast<uint8_t>(x >> 24);
    }
    return b;
}

size_t msgLen() { return pick<size_t>(S_OPS, {8, 9, 28, 32, 100, 1000, 1023, 1024}); }

bool userSend(U& u, A& a, Bytes const& b)
{
    if (a.over() || !a.connected || a.sendFailed)
    {
        return false;
    }
    OpcUaSduBuffer tx;
    for (auto c : b) tx.write(c);
    auto const r = u.conn().send(tx);
    trace("connection %u: user sends %zu bytes: %d", u.id, b.size(), static_cast<int>(r));
    if (r == OpcUaConnection::Result::done)
    {
        a.out.insert(a.out.end(), b.begin(), b.end());
        count("uaconn_user_sends");
        return true;
    }
    a.sendFailed = true;
    a.tail = b.size();
    return false;
}

void onAccept()
{
    LinkPtr link;
    try
    {
        link = w->ex->reactor->createLink([](LinkEvent) {});
        w->acceptor->accept(*link);
    }
    catch (std::exception const& e)
    {
        if (!w->res)
        {
            violation("P03,P17", "an incoming connection cannot be accepted: %s", e.what());
        }
        // the connection is lost for the peer's purposes; a retry takes it from the queue
        count("uaconn_accept_failures");
        return;
    }
    if (!w->acceptor_user || w->taken)
    {
        return;     // a connection nobody waits for
    }
    U& u = *w->acceptor_user;
    auto a = w->acceptor_attempt;
    w->taken = true;
    a->u = &u;
    a->t0 = now();
    a->started = true;
    u.cur = a;
    ++w->attempts;
    trace("connection %u: attempt %u accepts", u.id, a->id);
    try
    {
        u.s->accept(link);
        if (link)
        {
            violation("P17", "connection %u: accept leaves the link with the caller", u.id);
        }
    }
    catch (std::exception const& e)
    {
        trace("accept threw: %s", e.what());
        count("uaconn_accept_threw");
        if (!w->res)
        {
            violation("P17", "connection %u: accept fails without any fault: %s", u.id, e.what());
        }
        a->threw = true;
        u.cur.reset();
    }
}

// ---- peers -----------------------------------------------------------------------------------
uint32_t get32(Bytes const& b, size_t p) { return b[p] | b[p + 1] << 8 | b[p + 2] << 16 | uint32_t(b[p + 3]) << 24; }
void put32(Bytes& b, uint32_t v) { for (int i = 0; i < 4; ++i) b.push_back(static_cast<uint8_t>(v >> (8 * i))); }
Bytes frame(const char* t, Bytes const& body)
{
    Bytes b(t, t + 4);
    put32(b, static_cast<uint32_t>(body.size() + 8));
    b.insert(b.end(), body.begin(), body.end());
    return b;
}
Bytes ackMsg()
{
    Bytes b;
    put32(b, 0); put32(b, 65536); put32(b, 65536); put32(b, draw(S_OPS, 2) ? 0 : 1 << 20); put32(b, draw(S_OPS, 2) ? 0 : 16);
    return frame("ACKF", b);
}
Bytes helMsg()
{
    Bytes b;
    put32(b, 0); put32(b, 65536); put32(b, 65536); put32(b, 0); put32(b, 0);
    std::string const url = draw(S_OPS, 4) ? "opc.tcp://localhost:4840" : std::string(draw(S_OPS, 600), 'x');
    if (url.empty())
    {
        put32(b, 0xffffffffu);
    }
    else
    {
        put32(b, static_cast<uint32_t>(url.size()));
        b.insert(b.end(), url.begin(), url.end());
    }
    return frame("HELF", b);
}

// The first message of the code under test on this connection; empty when none came.
Bytes recvFrame(PeerConn& c, Time deadline)
{
    Bytes b = c.recv(8, deadline);
    if (b.size() < 8)
    {
        return {};
    }
    uint32_t const n = get32(b, 4);
    if (n < 8 || n > 70000)
    {
        violation("P17", "a message with size %u is sent in the handshake", n);
    }
    Bytes r = n > 8 ? c.recv(n - 8, deadline) : Bytes{};
    b.insert(b.end(), r.begin(), r.end());
    return b.size() == n ? b : Bytes{};
}

void checkHandshakeMsg(Bytes const& b, const char* type)
{
    if (memcmp(b.data(), type, 3) || b[3] != 'F')
    {
        violation("P17", "a message %.4s is sent where %s is due", reinterpret_cast<const char*>(b.data()), type);
    }
    if (!strcmp(type, "RHE"))
    {
        return;
    }
    if (b.size() < 28 || get32(b, 8) != 0 || get32(b, 12) < 8192 || get32(b, 16) < 8192)
    {
        violation("P17", "a malformed %s message is sent", type);
    }
}

// One attempt from the point of view of the peer and of the user.
struct Actor
{
    U* u;
    unsigned id;
    bool clean = false;             // nothing goes wrong on purpose

    std::shared_ptr<A> newAttempt(Kind k)
    {
        auto a = std::make_shared<A>();
        a->id = w->nextId++;
        a->kind = k;
        return a;
    }

    // the outcome, in time; how: what the peer did
    void checkOutcome(std::shared_ptr<A> a, bool mustConnect, bool mustFail, const char* how)
    {
        Time const limit = (a->kind == INCOMING ? T_HANDSHAKE : T_CONNECT + T_HANDSHAKE) + slack();
        if (!waitUntil([a] { return a->connected || a->over(); }, a->t0 + limit))
        {
            violation("P17", "connection %u: no outcome %.1f s after the %s (%s)", u->id, double(now() - a->t0) / SEC, a->kind == INCOMING ? "accept" : "connect", how);
        }
        if (mustConnect && !a->connected && !a->userClosed)
        {
            violation("P17", "connection %u: a good peer does not get its connection (%s)", u->id, how);
        }
        if (mustFail && a->connected)
        {
            violation("P17", "connection %u: connected is reported although the handshake was not completed (%s)", u->id, how);
        }
    }

    // The peer's end of a connection that is over: it sees the close, and everything that was sent.
    void checkPeerEnd(std::shared_ptr<A> a, PeerConn& c, Bytes got, bool peerEnded)
    {
        if (!peerEnded && c.valid() && !c.sock()->orphan)
        {
            Time const end = now() + 20 * SEC;
            while (now() < end && !c.eof())
            {
                auto b = c.takeAll();
                got.insert(got.end(), b.begin(), b.end());
                sleepFor(50 * MS);
            }
            auto b = c.takeAll();
            got.insert(got.end(), b.begin(), b.end());
            if (!c.eof())
            {
                violation("P17", "connection %u: over, but its peer sees an open connection", u->id);
            }
            if (!c.reset() && net.resetDen == 0 && got.size() < a->out.size())
            {
                violation("P17", "connection %u: only %zu of %zu sent bytes reach the peer", u->id, got.size(), a->out.size());
            }
        }
        if (got.size() > a->out.size() + a->tail || memcmp(got.data(), a->out.data(), std::min(got.size(), a->out.size())))
        {
            violation("P17", "connection %u: the peer receives something else than was sent (%zu bytes, %zu sent)", u->id, got.size(), a->out.size());
        }
    }

    void drawHook(std::shared_ptr<A> a, std::shared_ptr<A>* next)
    {
        if (clean)
        {
            return;
        }
        U& uu = *u;
        switch (pickw(S_OPS, {6, 1, 1, 1, 1, 1, 1, 2}))
        {
        case 0: return;
        case 1: a->hookEv = E_CONNECTED; a->hook = [this, a, &uu] { userSend(uu, *a, mkMsg(msgLen())); }; return;
        case 2: a->hookEv = E_CONNECTED; a->hook = [this, a, &uu] { userClose(uu, *a); }; return;
        case 3: a->hookEv = E_DATA; a->hook = [this, a, &uu] { userSend(uu, *a, mkMsg(msgLen())); }; return;
        case 4: a->hookEv = E_DATA; a->hook = [this, a, &uu] { userClose(uu, *a); }; return;
        case 5:
            a->hookEv = draw(S_OPS, 2) ? E_ERROR : E_CLOSED;
            a->hook = [this, a, &uu] {
                // nothing can be sent any more, closing again changes nothing
                OpcUaSduBuffer tx;
                tx.write('M');
                if (uu.conn().send(tx) == OpcUaConnection::Result::done)
                {
                    violation("P17", "connection %u: a send on a connection that is over reports success", uu.id);
                }
                if (uu.server) uu.s->close(); else uu.c->close();
            };
            return;
        default:
        {
            // the next attempt is made from inside a report
            *next = newAttempt(u->server ? REVERSE : CLIENT);
            auto n = *next;
            a->hookEv = pick<int>(S_OPS, {E_ERROR, E_CLOSED, E_CONNECTED, E_DATA});
            int const e = a->hookEv;
            a->hook = [this, a, n, e, &uu] {
                if (e == E_CONNECTED || e == E_DATA)
                {
                    userClose(uu, *a);
                }
                count("uaconn_connect_in_handler");
                start(uu, n, target(*n));
                if (n->threw && !w->res)
                {
                    violation("P17", "connection %u: cannot connect again from inside a report", uu.id);
                }
            };
            return;
        }
        }
    }

    void dialogue(std::shared_ptr<A> a, PeerConn& c)
    {
        U& uu = *u;
        Bytes got;
        bool peerEnded = false, odd = false, idleEnd = false;
        unsigned const steps = clean ? 2 : draw(S_OPS, 8);
        auto collect = [&] {
            auto b = c.takeAll();
            got.insert(got.end(), b.begin(), b.end());
        };
        for (unsigned k = 0; k < steps && !a->over() && !peerEnded; ++k)
        {
            switch (clean ? k : pickw(S_OPS, {5, 4, 1, 1, 1, 1, 1, 1, 1, 1}))
            {
            case 0:
            {
                // one message of the peer, delivered before the next
                unsigned const before = a->received;
                Bytes const m = mkMsg(clean ? 100 : msgLen());
                a->peerStream.insert(a->peerStream.end(), m.begin(), m.end());
                if (draw(S_OPS, 3) == 2 && m.size() > 8)
                {
                    size_t const cut = 1 + draw(S_OPS, static_cast<uint32_t>(m.size() - 1));
                    c.send(m.data(), cut);
                    sleepFor(static_cast<Time>(draw(S_OPS, 1500)) * MS);
                    c.send(m.data() + cut, m.size() - cut);
                }
                else
                {
                    c.send(m);
                }
                bool const ok = waitUntil([&] { return a->received > before || a->over(); }, now() + T_ESTABLISHED + slack());
                if (!ok)
                {
                    violation("P17", "connection %u: a message of %zu bytes is not reported and the connection does not end", uu.id, m.size());
                }
                if (a->received > before)
                {
                    count("uaconn_messages_received");
                }
                else if (w->tight && !a->userClosed && now() < a->connectedAt + T_ESTABLISHED - 2 * SEC && !odd)
                {
                    violation("P17", "connection %u: the connection ends on a good message of %zu bytes", uu.id, m.size());
                }
                break;
            }
            case 1:
            {
                Bytes const m = mkMsg(clean ? 100 : draw(S_OPS, 4) ? msgLen() : 4096);
                w->ex->exec([&uu, a, m] { userSend(uu, *a, m); });
                if (a->sendFailed && w->tight && !a->over() && now() < a->connectedAt + T_ESTABLISHED - SEC)
                {
                    violation("P17", "connection %u: a send fails without any fault", uu.id);
                }
                break;
            }
            case 2: collect(); break;
            case 3: sleepFor(static_cast<Time>(draw(S_OPS, 3000)) * MS); break;
            case 4:
                countFault(F_PEER_CLOSE);
                collect();
                if (draw(S_OPS, 2)) c.shutdownWrite(); else { c.close(); }
                peerEnded = idleEnd = true;
                break;
            case 5:
                countFault(F_PEER_RESET);
                collect();
                c.abort();
                peerEnded = idleEnd = true;
                break;
            case 6:
                w->ex->exec([&uu, a] { userClose(uu, *a); });
                break;
            case 7:
                c.partition(static_cast<Time>(1 + draw(S_OPS, 4000)) * MS);
                countFault(F_NET_PARTITION);
                odd = true;
                break;
            case 8:
            {
                // not a message, too large a one, or several at once: taken whole or the connection ends
                countFault(F_PEER_GARBAGE);
                odd = true;
                Bytes m;
                switch (draw(S_OPS, 5))
                {
                case 0: m = mkMsg(8 + draw(S_OPS, 500)); m[4] = static_cast<uint8_t>(draw(S_OPS, 8)); m[5] = m[6] = m[7] = 0; break;
                case 1: m = mkMsg(8 + draw(S_OPS, 500)); m[6 + draw(S_OPS, 2)] |= static_cast<uint8_t>(1u << draw(S_OPS, 8)); break;
                case 2: m = mkMsg(1025 + draw(S_OPS, 8000)); break;
                case 3: m = mkMsg(msgLen()); { Bytes x = mkMsg(msgLen()); m.insert(m.end(), x.begin(), x.end()); } break;
                default: m.resize(1 + draw(S_OPS, 5000)); for (auto& x : m) x = static_cast<uint8_t>(draw(S_OPS, 256)); break;
                }
                a->peerStream.insert(a->peerStream.end(), m.begin(), m.end());
                c.send(m);
                // what follows would be read as the rest of it
                peerEnded = draw(S_OPS, 2);
                k = steps;
                if (peerEnded)
                {
                    c.shutdownWrite();
                }
                break;
            }
            default:
                // connecting again while connected changes nothing
                w->ex->exec([&uu, a] {
                    if (!a->over())
                    {
                        LinkAddr const x = addr4(LPORT, 0x0aff0001u);
                        if (uu.server) uu.s->connect(x); else uu.c->connect(x);
                    }
                });
                count("uaconn_connect_while_connected");
                break;
            }
        }
        if (clean && w->tight && (a->received != 1 || a->out.size() != 100))
        {
            violation("P17", "connection %u: a used connection does not carry messages again", uu.id);
        }
        if (!a->over() && !peerEnded && draw(S_OPS, 2))
        {
            w->ex->exec([&uu, a] { userClose(uu, *a); });
        }
        // the end; at once when the peer ends an idle connection
        if (idleEnd && !odd && !waitUntil([&] { return a->over(); }, now() + slack() + (net.spikeDen ? 10 * net.spikeMax : 0)))
        {
            violation("P17", "connection %u: the peer has %s and the user is not told", uu.id, peerEnded && c.valid() ? "closed" : "gone");
        }
        if (!waitUntil([&] { return a->over(); }, a->connectedAt + T_ESTABLISHED + slack()))
        {
            violation("P17", "connection %u: still not over %.1f s after it was connected", uu.id, double(now() - a->connectedAt) / SEC);
        }
        if (c.valid() && !c.sock()->orphan)
        {
            collect();
        }
        if (a->ended && a->end == E_ERROR && !peerEnded && !odd && w->tight && !a->sendFailed && !a->userClosed)
        {
            violation("P17", "connection %u: error reported although nothing went wrong", uu.id);
        }
        checkPeerEnd(a, c, got, peerEnded);
    }

    // The peer end of an attempt: handshake and dialogue.
    void serve(std::shared_ptr<A> a, PeerConn& c)
    {
        U& uu = *u;
        Time const hsEnd = now() + T_HANDSHAKE + slack();
        bool strict = w->tight;
        if (a->kind != INCOMING)
        {
            // early user close
            if (!clean && draw(S_OPS, 8) == 7)
            {
                sleepFor(static_cast<Time>(draw(S_OPS, 3)) * MS);
                w->ex->exec([&uu, a] { if (!a->over()) userClose(uu, *a); });
            }
            Bytes f = recvFrame(c, hsEnd);
            if (f.empty())
            {
                if (!a->userClosed && strict)
                {
                    violation("P17", "connection %u: the handshake message does not come", uu.id);
                }
                checkOutcome(a, false, true, "no handshake message");
                drainHandshake(a, c);
                return;
            }
            checkHandshakeMsg(f, a->kind == CLIENT ? "HEL" : "RHE");
        }
        // the peer's handshake message
        unsigned const b = clean ? 0 : pickw(S_OPS, {12, 2, 1, 1, 1, 1, 1, 1});
        Bytes m = a->kind == CLIENT ? ackMsg() : helMsg();
        bool good = true, fail = false;
        const char* how = "good peer";
        switch (b)
        {
        case 0: break;
        case 1:
        {
            // slow: late or in pieces
            countFault(F_PEER_LATE);
            unsigned const d = draw(S_OPS, 1600);
            how = "slow peer";
            good = d < 500;
            size_t const cut = 1 + draw(S_OPS, static_cast<uint32_t>(m.size() - 1));
            c.send(m.data(), cut);
            sleepFor(static_cast<Time>(d) * MS);
            fail = d > 1100 + 50 && !sched.stallDen;
            if (!c.valid() || c.eof())
            {
                m.clear();
            }
            else
            {
                m.erase(m.begin(), m.begin() + static_cast<long>(cut));
            }
            break;
        }
        case 2: good = false; fail = true; m.clear(); how = "silent peer"; countFault(F_PEER_SILENT); break;
        case 3:
            good = false; fail = true; how = "peer closes";
            countFault(F_PEER_CLOSE);
            c.shutdownWrite();
            m.clear();
            break;
        case 4:
            good = false; fail = true; how = "peer resets";
            countFault(F_PEER_RESET);
            c.abort();
            checkOutcome(a, false, true, how);
            return;
        case 5: good = false; fail = true; how = "wrong message"; countFault(F_PEER_GARBAGE);
            if (draw(S_OPS, 4) == 3)
            {
                m[6 + draw(S_OPS, 2)] |= static_cast<uint8_t>(1u << draw(S_OPS, 8));
            }
            else if (draw(S_OPS, 2))
            {
                memcpy(m.data(), pick<const char*>(S_OPS, {"MSG", "OPN", "ERR", "RHE", a->kind == CLIENT ? "HEL" : "ACK", "hel"}), 3);
            }
            else
            {
                m = a->kind == CLIENT ? helMsg() : ackMsg();
            }
            break;
        case 6:
            good = false; fail = true; how = "truncated message";
            countFault(F_PEER_GARBAGE);
            m.resize(8 + draw(S_OPS, 18));
            { uint32_t z = static_cast<uint32_t>(m.size()); memcpy(m.data() + 4, &z, 4); }
            break;
        default:
            good = false; how = "garbage"; fail = true;
            countFault(F_PEER_GARBAGE);
            m.resize(1 + draw(S_OPS, 60));
            for (auto& x : m) x = static_cast<uint8_t>(draw(S_OPS, 256));
            m[0] = 'X';
            break;
        }
        if (!m.empty())
        {
            c.send(m);
        }
        if (!clean && good && draw(S_OPS, 12) == 11)
        {
            w->ex->exec([&uu, a] { userClose(uu, *a); });
        }
        checkOutcome(a, good && strict, fail, how);
        if (a->connected && a->kind != CLIENT)
        {
            Bytes f = recvFrame(c, now() + 5 * SEC);
            if (!f.empty())
            {
                checkHandshakeMsg(f, "ACK");
            }
            else if (strict && !a->over())
            {
                violation("P17", "connection %u: connected is reported but the peer gets no acknowledge", uu.id);
            }
        }
        if (!a->connected)
        {
            if (b == 2 && strict && a->ended && a->endedAt < a->t0 + T_HANDSHAKE - MS)
            {
                violation("P17", "connection %u: a peer that is only slow loses its connection after %.3f s", uu.id, double(a->endedAt - a->t0) / SEC);
            }
            drainHandshake(a, c);
            return;
        }
        count("uaconn_connections");
        dialogue(a, c);
    }

    void drainHandshake(std::shared_ptr<A> a, PeerConn& c)
    {
        if (c.valid() && !c.sock()->orphan && !c.waitClosed(now() + 20 * SEC))
        {
            violation("P17", "connection %u: over, but its peer sees an open connection", u->id);
        }
        (void)a;
    }

    void outgoing(std::shared_ptr<A> a, bool startNow)
    {
        U& uu = *u;
        bool const refused = !clean && startNow && draw(S_OPS, 8) == 7;
        std::unique_ptr<PeerListener> pl;
        if (!refused)
        {
            pl = std::make_unique<PeerListener>(LPORT, 10, 0x0a000000u + a->id);
        }
        std::shared_ptr<A> next;
        drawHook(a, &next);
        Follow f(*this, next);
        if (startNow)
        {
            if (!w->ex->exec([&uu, a] { start(uu, a, target(*a)); }))
            {
                violation("P17", "the reactor no longer runs work posted to it");
            }
        }
        finish(a, pl.get(), refused);
        f.wait();
    }

    // The follow-up attempt, if one is made inside a report, finds its peer.
    struct Follow
    {
        struct St { bool cancel = false, done = false; std::unique_ptr<PeerListener> pl; };
        std::shared_ptr<St> st;
        Follow(Actor& me, std::shared_ptr<A> next)
        {
            if (next)
            {
                st = std::make_shared<St>();
                st->pl = std::make_unique<PeerListener>(LPORT, 10, 0x0a000000u + next->id);
                auto s = st;
                spawn("follow", [&me, next, s] {
                    waitUntil([&] { return next->started || s->cancel; });
                    if (next->started)
                    {
                        me.finish(next, s->pl.get(), false);
                    }
                    s->done = true;
                });
            }
        }
        void wait()
        {
            if (st)
            {
                st->cancel = true;
                waitUntil([this] { return st->done; });
            }
        }
    };

    void finish(std::shared_ptr<A> a, PeerListener* pl, bool refused)
    {
        U& uu = *u;
        if (a->threw)
        {
            sleepFor(draw(S_OPS, 2) ? 6 * SEC : 0);
        }
        else if (refused)
        {
            countFault(F_PEER_REFUSED);
            checkOutcome(a, false, true, "refused");
        }
        else
        {
            PeerConn c;
            if (!clean && draw(S_OPS, 16) == 15)
            {
                w->ex->exec([&uu, a] { userClose(uu, *a); });
            }
            Time const lim = now() + T_CONNECT + slack();
            while (now() < lim && !a->over() && !pl->accept(c, now() + 100 * MS)) {}
            if (!c.valid() && a->over())
            {
                pl->accept(c, now() + 200 * MS);
            }
            if (!c.valid())
            {
                if (w->tight && !a->userClosed)
                {
                    violation("P17", "connection %u: no connection arrives at the given address", uu.id);
                }
                checkOutcome(a, false, true, "no transport connection");
            }
            else
            {
                serve(a, c);
            }
        }
        if (!waitUntil([a] { return a->idle(); }, now() + 10 * SEC))
        {
            harnessError("attempt not over");
        }
    }

    void incoming(std::shared_ptr<A> a)
    {
        waitUntil([] { return !w->busy; });
        w->busy = true;
        w->taken = false;
        w->acceptor_user = u;
        w->acceptor_attempt = a;
        std::shared_ptr<A> next;
        drawHook(a, &next);
        Follow f(*this, next);
        PeerConn c;
        bool ok = peerConnect(c, LPORT, now() + 30 * SEC);
        ok = ok && waitUntil([] { return w->taken; }, now() + (w->res || net.resetDen ? 5 : 30) * SEC);
        w->acceptor_user = nullptr;
        w->acceptor_attempt.reset();
        w->busy = false;
        if (!ok || !a->started)
        {
            if (!w->res && net.resetDen == 0)
            {
                violation("P03,P17", "an incoming connection is not accepted");
            }
            if (c.valid()) c.abort();
            if (a->started) checkOutcome(a, false, false, "gone");
            else
            {
                f.wait();
                return;
            }
        }
        if (a->threw)
        {
            c.abort();
        }
        else
        {
            serve(a, c);
        }
        if (!waitUntil([a] { return a->idle(); }, now() + 10 * SEC))
        {
            harnessError("attempt not over");
        }
        f.wait();
    }

    void round()
    {
        if (!u->server)
        {
            outgoing(newAttempt(CLIENT), true);
        }
        else if (draw(S_OPS, 2))
        {
            incoming(newAttempt(INCOMING));
        }
        else
        {
            outgoing(newAttempt(REVERSE), true);
        }
    }
};

// Two objects of the library talk to each other.
void pair(U& cu, U& su, bool mustWork)
{
    waitUntil([] { return !w->busy; });
    w->busy = true;
    w->taken = false;
    auto sa = std::make_shared<A>();
    sa->id = w->nextId++;
    sa->kind = INCOMING;
    auto ca = std::make_shared<A>();
    ca->id = w->nextId++;
    ca->kind = CLIENT;
    w->acceptor_user = &su;
    w->acceptor_attempt = sa;
    w->ex->exec([&] { start(cu, ca, addr4(LPORT)); });
    if (!ca->threw)
    {
        waitUntil([&] { return ca->connected || ca->over(); }, now() + T_CONNECT + T_HANDSHAKE + slack());
        waitUntil([&] { return sa->connected || sa->over(); }, now() + T_HANDSHAKE + slack());
    }
    w->acceptor_user = nullptr;
    w->acceptor_attempt.reset();
    w->busy = false;
    if (!ca->connected && !ca->over())
    {
        violation("P17", "connection %u: no outcome of the attempt to reach another object", cu.id);
    }
    // (a connection left in the queue by somebody else may have been taken instead)
    if (sa->started && !waitUntil([&] { return sa->connected || sa->over(); }, sa->t0 + T_HANDSHAKE + slack()))
    {
        violation("P17", "connection %u: no outcome of the attempt to serve another object", su.id);
    }
    if (mustWork && (!ca->connected || !sa->connected))
    {
        violation("P17", "two connection objects do not connect to each other");
    }
    unsigned const n = ca->connected && sa->connected ? 1 + draw(S_OPS, 6) : 0;
    for (unsigned k = 0; k < n && !ca->over() && !sa->over(); ++k)
    {
        // to and fro
        bool const up = k % 2 == 0;
        auto from = up ? ca : sa, to = up ? sa : ca;
        U &fu = up ? cu : su;
        Bytes const m = mkMsg(msgLen());
        unsigned const before = to->received;
        bool sent = false;
        to->peerStream.insert(to->peerStream.end(), m.begin(), m.end());
        w->ex->exec([&, from] { sent = userSend(fu, *from, m); });
        if (!sent)
        {
            if (mustWork && !from->over())
            {
                violation("P17", "connection %u: a send fails without any fault", fu.id);
            }
            break;
        }
        if (!waitUntil([&] { return to->received > before || to->over(); }, now() + T_ESTABLISHED + slack()))
        {
            violation("P17", "a message sent by connection %u is not received", fu.id);
        }
        if (to->received > before)
        {
            count("uaconn_pair_messages");
        }
        else if (mustWork)
        {
            violation("P17", "a connection between two objects ends on a good message");
        }
    }
    if (draw(S_OPS, 2))
    {
        bool const cl = draw(S_OPS, 2);
        w->ex->exec([&] { userClose(cl ? cu : su, cl ? *ca : *sa); });
    }
    for (auto const& a : {ca, sa})
    {
        if (a->started && !waitUntil([a] { return a->over(); }, now() + T_ESTABLISHED + slack()))
        {
            violation("P17", "a connection between two objects does not end");
        }
    }
    count("uaconn_pairs");
}

// Objects without connection hold neither link nor timer: all of them can be had.
void slots()
{
    w->ex->exec([] {
        std::vector<LinkPtr> l;
        std::vector<TimerPtr> t;
        try
        {
            for (unsigned k = 0; k < 32; ++k) l.push_back(w->ex->reactor->createLink([](LinkEvent) {}));
            for (unsigned k = 0; k < 32; ++k) t.push_back(w->ex->reactor->createTimer([] {}));
        }
        catch (std::exception const&)
        {
            violation("P17,P16", "only %zu links and %zu timers can be created although every connection is over", l.size(), t.size());
        }
    });
}

void run(bool res)
{
    drawSched();
    drawLogs();
    drawClockJumps();
    drawNet(true);
    W ww;
    w = &ww;
    w->res = res;
    w->tight = !res && net.spikeDen == 0 && net.resetDen == 0 && sched.stallDen == 0;
    ReactorManager mgr;
    ExecReactor ex(mgr);
    w->ex = &ex;
    if (draw(S_CFG, 3) == 2)
    {
        enableFault(F_EPOLL_EINTR, 1, 8);
        enableFault(F_SPURIOUS_EVENT, 1, 30);
    }
    if (draw(S_CFG, 4) == 3)
    {
        enableFault(F_CONNECT_SYNC_OK, 1, 2);
    }
    mgr.start();
    ex.exec([&] {
        w->acceptor = ex.reactor->createAcceptor([] { onAccept(); });
        w->acceptor->listen(addr4(LPORT));
    });
    unsigned const n = pick<unsigned>(S_CFG, {1, 2, 4, 8});
    std::vector<std::unique_ptr<U>> us;
    for (unsigned k = 0; k < n; ++k)
    {
        auto u = std::make_unique<U>();
        u->id = k + 1;
        u->server = k % 2 == 0 ? draw(S_CFG, 2) : !us.back()->server;
        ex.exec([&] {
            if (u->server) u->s = std::make_unique<app::ua::ServerConnection>(*ex.reactor, *u);
            else u->c = std::make_unique<app::ua::ClientConnection>(*ex.reactor, *u);
        });
        us.push_back(std::move(u));
    }
    if (res)
    {
        enableFault(F_SOCKET_EMFILE, 1, 6);
        enableFault(F_FCNTL_FAIL, 1, 8);
        enableFault(F_CLOSE_EINTR, 1, 8);
        enableFault(F_EPOLL_CTL_ADD, 1, 8);
        enableFault(F_TIMERFD_FAIL, 1, 8);
        enableFault(F_ACCEPT_FAIL, 1, 8);
        enableFault(F_CONNECT_SYNC_FAIL, 1, 8);
        enableFault(F_CONNECT_BLACKHOLE, 1, 8);
        enableFault(F_EPOLL_CTL_MOD, 1, 16);
        enableFault(F_READ_FAIL, 1, 40);
        enableFault(F_WRITE_FAIL, 1, 30);
    }
    unsigned done = 0;
    bool const many = draw(S_CFG, 8) == 7;
    for (unsigned k = 0; k < n; ++k)
    {
        unsigned const rounds = many ? 10 + draw(S_CFG, 30) : 1 + draw(S_CFG, 4);
        U* u = us[k].get();
        spawn("actor" + std::to_string(k), [=, &done] {
            Actor me{u, k};
            for (unsigned r = 0; r < rounds; ++r)
            {
                me.round();
            }
            ++done;
        });
    }
    if (!waitUntil([&] { return done == n; }, now() + 6000 * SEC))
    {
        violation("P17", "connections stop making progress");
    }
    // objects of the library with each other
    for (unsigned k = 1; k < n; k += 2)
    {
        if (draw(S_OPS, 2))
        {
            U &x = *us[k], &y = *us[k - 1];
            pair(x.server ? y : x, x.server ? x : y, w->tight);
        }
    }
    faultsOff();
    calmNet();
    sched.stallDen = 0;
    nontrivial();
    sleepFor(15 * SEC);
    w->res = false;
    w->tight = true;
    auto const st = osStats();
    if (st.sockets != 0 || st.timers != 0)
    {
        violation("P17,P16", "sockets or timers are held although every connection is over: %s", fdDump().c_str());
    }
    slots();
    // every object works again
    for (auto& u : us)
    {
        Actor me{u.get(), u->id, true};
        me.round();
    }
    for (unsigned k = 1; k < n; k += 2)
    {
        U &x = *us[k], &y = *us[k - 1];
        pair(x.server ? y : x, x.server ? x : y, true);
    }
    sleepFor(15 * SEC);
    slots();
    ex.exec([&] { w->acceptor.reset(); us.clear(); });
    if (osStats().sockets != 0 || osStats().timers != 0 || osStats().listeners != 0)
    {
        violation("P17,P16", "sockets or timers are held although every connection is gone: %s", fdDump().c_str());
    }
    if (osStats().badCloses)
    {
        violation("P17,P16", "%d closes of descriptors that were not open", osStats().badCloses);
    }
    finishRun();
}

Register r1("uaconn", "P17", [] { run(false); });
Register r2("uaconnfault", "P17,P16", [] { run(true); });

} // namespace
