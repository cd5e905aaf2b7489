// P10-P14: the OPC UA server (transport, secure channels, sessions and services) between its clients on the network.
#include "ua.hpp"

using namespace uac;

namespace
{
constexpr Time RSP = 12 * SEC;              // an answer must be there by then
constexpr size_t MAXMSG = 4032;            // the largest message the server takes
constexpr Time IDLE = 30 * SEC;             // the server's receive timeout

struct Sess
{
    uint32_t token = 0;
    bool active = false;
    int client = -1;
    Time last = 0;          // last use
};

struct W
{
    uint16_t port = 4369;
    Shared sh;
    bool lossy = false;         // a good client may lose its connection
    bool flood = false;         // more clients than there is room for
    unsigned sessBudget = 26;   // sessions that may still be created in this run
    bool churn = false;         // all connections in use, ids are reused at once
    bool fuzzed = false;        // sessions of any timeout may have been created
    bool stop = false;
    unsigned open = 0;          // clients connected at this moment
};
W* w;

#define ANSWERED "P10,P11,P13"

// A good client was disconnected: a violation unless the network or the system calls fail in this run.
bool lost(Client& c, const char* when)
{
    if (!c.over)
    {
        return false;
    }
    if (!w->lossy)
    {
        violation(ANSWERED ",P12", "client %d is disconnected %s although it did nothing wrong", c.id, when);
    }
    count("ua_good_lost");
    return true;
}

bool openUp(Client& c, bool must = true, bool quick = false)
{
    if (!c.connect(w->port))
    {
        if (!w->lossy && must)
        {
            violation(ANSWERED, "client %d cannot connect", c.id);
        }
        c.over = true;
        return false;
    }
    PendPtr p;
    c.helloSent = true;
    if (draw(S_OPS, 3) == 2)
    {
        Bytes b = helloMsg();
        Bytes o = c.opnWire(p, pick<uint32_t>(S_OPS, {3600000, 60000, 1}));
        b.insert(b.end(), o.begin(), o.end());
        c.send(b);
    }
    else
    {
        c.send(helloMsg());
        if (!c.pump([&] { return c.acked; }, now() + RSP))
        {
            if (c.over)
            {
                if (must)
                {
                    lost(c, "after its hello");
                }
                return false;
            }
            violation("P10,P13", "client %d: the hello is not acknowledged", c.id);
        }
        if (!quick && draw(S_OPS, 4) == 3)
        {
            c.pump({}, now() + static_cast<Time>(draw(S_OPS, 25)) * SEC);
        }
        c.send(c.opnWire(p));
    }
    if (!c.waitRsp(p, RSP))
    {
        if (c.over)
        {
            if (must)
            {
                lost(c, "after opening a channel");
            }
            return false;
        }
        violation("P11,P13", "client %d: opening a secure channel is not answered", c.id);
    }
    return true;
}

bool allIn(std::vector<PendPtr> const& v)
{
    for (auto& p : v)
    {
        if (!p->got)
        {
            return false;
        }
    }
    return true;
}

// Waits for the answers to all valid requests in v; false when the connection was lost (excused).
bool settle(Client& c, std::vector<PendPtr> const& v)
{
    if (c.pump([&] { return allIn(v); }, now() + RSP))
    {
        return true;
    }
    if (lost(c, "while requests are outstanding"))
    {
        return false;
    }
    for (auto& p : v)
    {
        if (!p->got)
        {
            bool const s = p->type == ACTIVATE || p->type == READ || p->type == CLOSES;
            violation(s ? ANSWERED ",P12" : ANSWERED, "client %d: valid request (service %u, request id %u) is not answered", c.id, p->type, p->reqId);
        }
    }
    return false;
}

double sessTimeout()
{
    return pick<double>(S_OPS, {60000, 1000, 0, 30000, -1, 59999.5});
}

bool mayCreate()
{
    if (!w->sessBudget)
    {
        return false;
    }
    --w->sessBudget;
    return true;
}

// One batch of pipelined valid requests, then its answers.
bool batch(Client& c, Sess& s)
{
    unsigned const n = 1 + draw(S_OPS, 4);
    std::vector<PendPtr> v;
    Bytes out;
    PendPtr created, activated, closed;
    for (unsigned i = 0; i < n; ++i)
    {
        uint32_t const h = w->sh.nextHandle++;
        PendPtr p;
        Bytes body;
        unsigned const k = draw(S_OPS, 6);
        if (k == 5 && s.token && (s.active || draw(S_OPS, 4) == 3))
        {
            p = closed = c.expect(CLOSES, CLOSES_R, h);
            p->token = s.token;
            body = closeBody(s.token, h);
            i = n;
        }
        else if (k == 4 && !s.token && !created && mayCreate())
        {
            p = created = c.expect(CREATE, CREATE_R, h);
            body = createBody(h, sessTimeout());
        }
        else if ((k == 3 || (k == 2 && !s.active)) && s.token && !activated)
        {
            p = activated = c.expect(ACTIVATE, ACTIVATE_R, h);
            body = activateBody(s.token, h);
        }
        else if (k >= 1 && s.active)
        {
            p = c.expect(READ, READ_R, h);
            if (draw(S_OPS, 8) == 7)
            {
                body = sizedReadBody(s.token, h, MAXMSG - draw(S_OPS, 3));
                count("ua_max_size");
            }
            else
            {
                body = readBody(s.token, h, draw(S_OPS, 9));
            }
        }
        else if (k >= 3 && !s.token && !created && mayCreate())
        {
            p = created = c.expect(CREATE, CREATE_R, h);
            body = createBody(h, sessTimeout());
        }
        else
        {
            p = c.expect(GETENDP, GETENDP_R, h);
            body = getEndpointsBody(draw(S_OPS, 2) ? 0 : s.token, h);
        }
        v.push_back(p);
        Bytes m = c.msgWire(p, body);
        out.insert(out.end(), m.begin(), m.end());
    }
    if (closed)
    {
        w->sh.tokens.erase(closed->token);
    }
    s.last = now();
    c.send(out);
    if (!settle(c, v))
    {
        return false;
    }
    if (created)
    {
        s = Sess{created->token, false, c.id, now()};
    }
    if (activated)
    {
        s.active = true;
        count("ua_activated");
    }
    if (closed)
    {
        s = Sess{};
    }
    return true;
}

// A request that must not be carried out; with close: the server has to end the connection.
void refuse(Client& c, const char* tag, PendPtr const& p, Bytes const& wire, bool mustClose)
{
    p->mustNot = true;
    p->tag = tag;
    c.bad = true;
    c.send(wire);
    c.pump({}, now() + (mustClose ? RSP : static_cast<Time>(1 + draw(S_OPS, 2000)) * MS));
    if (mustClose && !c.over && !c.cutOff())
    {
        violation(tag, "client %d: the connection is still open after a message that must end it", c.id);
    }
}

void goodClient(unsigned rounds, unsigned tries = 1)
{
    auto cp = std::make_unique<Client>(w->sh);
    bool opened = openUp(*cp, tries == 1);
    for (; !opened && tries > 1; --tries)
    {
        // all connections are taken at this moment
        cp->close(true);
        sleepFor(static_cast<Time>(draw(S_OPS, 200)) * MS);
        cp = std::make_unique<Client>(w->sh);
        opened = openUp(*cp, false);
    }
    Client& c = *cp;
    ++w->open;
    Sess s;
    if (opened)
    {
        count("ua_good_opened");
        bool ok = true;
        for (unsigned r = 0; ok && r < rounds; ++r)
        {
            unsigned const k = draw(S_OPS, 12);
            if (k == 11)
            {
                // a new channel replaces the one of this connection
                PendPtr p;
                c.send(c.opnWire(p));
                if (!c.waitRsp(p, RSP))
                {
                    ok = !lost(c, "after opening its channel again");
                    if (ok)
                    {
                        violation("P11,P13", "client %d: opening a channel again is not answered", c.id);
                    }
                }
                s.active = false;
                continue;
            }
            if (k == 10 && s.active && !w->churn)
            {
                // the session moves to another connection
                Client d(w->sh);
                if (openUp(d, true, true))
                {
                    uint32_t const h = w->sh.nextHandle++;
                    PendPtr p = d.expect(ACTIVATE, ACTIVATE_R, h);
                    d.send(d.msgWire(p, activateBody(s.token, h)));
                    if (settle(d, {p}))
                    {
                        uint32_t const h1 = w->sh.nextHandle++, h2 = w->sh.nextHandle++;
                        PendPtr rd = d.expect(READ, READ_R, h1);
                        d.send(d.msgWire(rd, readBody(s.token, h1, 1)));
                        PendPtr old = c.expect(READ, READ_R, h2);
                        refuse(c, "P12", old, c.msgWire(old, readBody(s.token, h2, 1)), false);
                        c.bad = false;
                        settle(d, {rd});
                        count("ua_transferred");
                        if (draw(S_OPS, 2) && !c.over)
                        {
                            // and back
                            uint32_t const h3 = w->sh.nextHandle++;
                            PendPtr back = c.expect(ACTIVATE, ACTIVATE_R, h3);
                            c.send(c.msgWire(back, activateBody(s.token, h3)));
                            ok = settle(c, {back});
                        }
                        else
                        {
                            s = Sess{};
                        }
                    }
                    else
                    {
                        s = Sess{};
                    }
                }
                d.close(draw(S_OPS, 2));
                ok = ok && !c.over;
                if (c.over)
                {
                    lost(c, "after its session moved");
                }
                continue;
            }
            ok = batch(c, s);
            if (ok && draw(S_OPS, 3) == 2)
            {
                c.pump({}, now() + static_cast<Time>(draw(S_OPS, draw(S_OPS, 4) == 3 ? 24000 : 800)) * MS);
                ok = !lost(c, "while it is idle for less than the receive timeout");
            }
        }
        if (ok && !c.over)
        {
            switch (draw(S_OPS, 5))
            {
            case 0:
                c.close(false);
                break;
            case 1:
                c.close(true);
                break;
            case 2:
            {
                // silence: the connection is ended by the server after the receive timeout
                Time const t = now();
                c.pump({}, now() + IDLE + 15 * SEC);
                if (!c.over)
                {
                    violation("P10,P13", "client %d: a silent connection is still open after %.0f s", c.id, (now() - t) / 1e9);
                }
                count("ua_idled_out");
                break;
            }
            default:
            {
                uint32_t const h = w->sh.nextHandle++;
                PendPtr p = c.expect(CLO_, CLO_R, h);
                Enc e;
                e.nodeNum(CLO_).reqHdr(0, h);
                c.cloSent = true;
                c.send(c.msgWire(p, e.b, c.chanId, c.tokenId, ++c.seqTx, "CLO"));
                c.pump({}, now() + RSP);
                if (!c.over)
                {
                    violation("P11,P13", "client %d: the connection is still open after its channel was closed", c.id);
                }
                if (!p->got && !w->lossy)
                {
                    violation("P13", "client %d: closing the channel is not answered", c.id);
                }
                count("ua_closed_channel");
                break;
            }
            }
        }
    }
    c.close(draw(S_OPS, 2));
    --w->open;
}

Bytes anyBody(Client& c, uint32_t h, Sess const& s)
{
    switch (draw(S_OPS, 5))
    {
    case 0: return getEndpointsBody(0, h);
    case 1: return readBody(s.token, h, draw(S_OPS, 4));
    case 2: return activateBody(s.token, h);
    case 3: return closeBody(s.token, h);
    default: return getEndpointsBody(0, h);
    }
}

void rawDrain(Client& c, Time until)
{
    while (now() < until && !c.c.eof())
    {
        c.c.takeAll();
        waitUntil([&] { return c.c.available() || c.c.eof(); }, until);
    }
    if (c.c.eof())
    {
        c.over = true;
        c.leave();
    }
}

void mutate(Bytes& b, size_t from)
{
    if (b.size() <= from)
    {
        return;
    }
    unsigned const n = 1 + draw(S_OPS, 4);
    for (unsigned i = 0; i < n && b.size() > from; ++i)
    {
        size_t const at = from + draw(S_OPS, static_cast<uint32_t>(b.size() - from));
        switch (draw(S_OPS, 6))
        {
        case 0: b[at] = static_cast<uint8_t>(draw(S_OPS, 256)); break;
        case 1: b.resize(at); break;                               // cut
        case 2:                                                    // a length or count
        {
            uint32_t const v = pick<uint32_t>(S_OPS, {0xffffffffu, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 4096, 65536, 100, 0});
            for (unsigned k = 0; k < 4 && at + k < b.size(); ++k)
            {
                b[at + k] = static_cast<uint8_t>(v >> (8 * k));
            }
            break;
        }
        case 3: b[at] ^= static_cast<uint8_t>(1u << draw(S_OPS, 8)); break;
        case 4: b.insert(b.begin() + static_cast<long>(at), 1 + draw(S_OPS, 200), static_cast<uint8_t>(draw(S_OPS, 256))); break;
        default: b[at] = pick<uint8_t>(S_OPS, {0xff, 0x80, 0x7f, 0x3f, 0xc0, 6}); break;
        }
    }
}

void setSize(Bytes& b)
{
    for (unsigned k = 0; k < 4; ++k)
    {
        b[4 + k] = static_cast<uint8_t>(b.size() >> (8 * k));
    }
}

// A client of hostile or broken messages: anything may happen to it, nothing to the server.
void fuzzClient()
{
    Client c(w->sh);
    ++w->open;
    w->fuzzed = true;
    countFault(F_PEER_GARBAGE);
    unsigned const stage = draw(S_OPS, 4);
    if (stage == 0)
    {
        if (c.connect(w->port))
        {
            Bytes b = helloMsg();
            switch (draw(S_OPS, 3))
            {
            case 0: mutate(b, 0); break;
            case 1:
                mutate(b, 8);
                setSize(b);
                break;
            default:
                b.resize(1 + draw(S_OPS, 6000));
                for (auto& x : b)
                {
                    x = static_cast<uint8_t>(draw(S_OPS, 256));
                }
                if (draw(S_OPS, 2) && b.size() >= 8 && b.size() < 4000)
                {
                    memcpy(b.data(), "HELF", 4);
                    setSize(b);
                }
            }
            c.send(b);
            rawDrain(c, now() + static_cast<Time>(draw(S_OPS, 3000)) * MS);
        }
    }
    else if (openUp(c, false))
    {
        Sess s;
        if (stage == 3 && mayCreate())
        {
            uint32_t const h = w->sh.nextHandle++;
            PendPtr p = c.expect(CREATE, CREATE_R, h);
            c.send(c.msgWire(p, createBody(h, 1000)));
            if (settle(c, {p}))
            {
                s.token = p->token;
                uint32_t const h2 = w->sh.nextHandle++;
                p = c.expect(ACTIVATE, ACTIVATE_R, h2);
                c.send(c.msgWire(p, activateBody(s.token, h2)));
                settle(c, {p});
                w->sh.tokens.erase(s.token);
            }
        }
        c.bad = true;
        unsigned const n = 1 + draw(S_OPS, 8);
        for (unsigned i = 0; i < n && !c.over; ++i)
        {
            uint32_t const h = w->sh.nextHandle++;
            PendPtr p = c.expect(GETENDP, GETENDP_R, h);
            Bytes body;
            unsigned const k = draw(S_OPS, 8);
            Bytes f;
            if (k == 0)
            {
                f = c.opnWire(p);
                mutate(f, 8);
            }
            else if (k == 1)
            {
                Enc e;
                e.nodeNum(CLO_).reqHdr(0, h);
                f = c.msgWire(p, e.b, c.chanId, c.tokenId, ++c.seqTx, "CLO");
                mutate(f, 24);
            }
            else
            {
                if (k == 2 && mayCreate())
                {
                    body = createBody(h, 1000);
                }
                else if (k == 3)
                {
                    // only a type and noise, sometimes with plausible lengths
                    Enc e;
                    e.nodeNum(pick<unsigned>(S_OPS, {GETENDP, ACTIVATE, CLOSES, READ, 0, 65535}));
                    for (unsigned x = 0, m = draw(S_OPS, 300); x < m; ++x)
                    {
                        e.u8(draw(S_OPS, 3) ? draw(S_OPS, 4) : draw(S_OPS, 256));
                    }
                    body = e.b;
                }
                else
                {
                    body = anyBody(c, h, s);
                }
                f = c.msgWire(p, body);
                if (k != 3)
                {
                    mutate(f, draw(S_OPS, 4) ? 24 : 0);
                }
            }
            if (f.size() >= 8 && draw(S_OPS, 8))
            {
                if (f.size() > 4032 && draw(S_OPS, 4))
                {
                    f.resize(4032);
                }
                setSize(f);
            }
            c.send(f);
            count("ua_mutants");
            if (draw(S_OPS, 2))
            {
                rawDrain(c, now() + static_cast<Time>(draw(S_OPS, 300)) * MS);
            }
        }
        rawDrain(c, now() + static_cast<Time>(draw(S_OPS, 1000)) * MS);
    }
    c.close(draw(S_OPS, 2));
    --w->open;
}

// Attacks on the transport (P10).
// A valid message but for the high part of its size.
void spoilSize(Bytes& b)
{
    b[6 + draw(S_OPS, 2)] |= static_cast<uint8_t>(1u << draw(S_OPS, 8));
    count("ua_spoiled_size");
}

void badTransport(Client& c)
{
    if (!c.connect(w->port))
    {
        c.over = true;
        return;
    }
    countFault(F_PEER_GARBAGE);
    bool mustClose = true;
    Time wait = RSP;
    Bytes b;
    unsigned const k = draw(S_OPS, 10);
    switch (k)
    {
    case 9:     // a message that never gets complete, byte by byte
    {
        countFault(F_PEER_SILENT);
        c.helloSent = true;
        b = draw(S_OPS, 2) ? helloMsg() : Bytes();
        PendPtr p;
        Bytes y = b.empty() ? frame("HEL", 'F', Bytes(60, 0)) : c.opnWire(p);
        if (p)
        {
            p->mustNot = true;
            p->tag = "P10";
        }
        if (!b.empty())
        {
            c.send(b);
            c.pump([&] { return c.acked; }, now() + RSP);
        }
        for (unsigned i = 0; i < 20 && !c.over && c.c.connected(); ++i)
        {
            c.c.send(&y[i], 1);
            c.pump({}, now() + 3 * SEC);
        }
        b.clear();
        wait = SEC;
        break;
    }
    case 0:     // something else instead of a hello
    {
        PendPtr p;
        b = c.opnWire(p);
        p->mustNot = true;
        p->tag = "P10";
        break;
    }
    case 1:
        b = helloMsg();
        memcpy(b.data(), pick<const char*>(S_OPS, {"HEX", "ACK", "ERR", "RHE", "hel", "MSG", "CLO"}), 3);
        break;
    case 2:     // impossible sizes
        b = frame(pick<const char*>(S_OPS, {"HEL", "XXX"}), 'F', Bytes(draw(S_OPS, 60), 1),
                  pick<int64_t>(S_OPS, {0, 1, 7, 4294967295ll, 4294967292ll, 0x80000000ll, 0x7fffffffll, 100000, 65536}));
        if (draw(S_OPS, 2))
        {
            b = helloMsg();
            spoilSize(b);
        }
        break;
    case 3:     // a hello whose contents do not fit its size
    {
        Enc e;
        e.u32(0).u32(65536).u32(65536).u32(0).u32(0);
        if (draw(S_OPS, 2))
        {
            e.u32(pick<uint32_t>(S_OPS, {100, 0x7fffffffu, 4096, 0xfffffff0u})).u32(1);
        }
        else
        {
            e.b.resize(draw(S_OPS, 20));
        }
        b = frame("HEL", 'F', e.b);
        if (e.b.size() > 20 && e.b[23] == 0xff)
        {
            mustClose = false;      // negative lengths may be taken as null
            c.helloSent = true;
        }
        break;
    }
    case 4:     // part of a hello, then silence
    {
        countFault(F_PEER_SILENT);
        b = helloMsg();
        b.resize(draw(S_OPS, static_cast<uint32_t>(b.size())));
        wait = IDLE + 15 * SEC;
        break;
    }
    case 5:     // gone in the middle of a hello
        countFault(F_PEER_CLOSE);
        b = helloMsg();
        b.resize(draw(S_OPS, static_cast<uint32_t>(b.size())));
        c.send(b);
        if (draw(S_OPS, 2))
        {
            c.c.shutdownWrite();
            b.clear();
            break;
        }
        c.close(draw(S_OPS, 2));
        return;
    case 6:     // a second hello, an unknown type, a broken size after the hello
    case 7:
    {
        c.helloSent = true;
        Bytes x = helloMsg();
        Bytes y = draw(S_OPS, 2) ? helloMsg() : frame(pick<const char*>(S_OPS, {"ACK", "ERR", "XYZ", "msg"}), 'F', Bytes(draw(S_OPS, 100), 2));
        if (draw(S_OPS, 3) == 2)
        {
            y = frame("OPN", 'F', Bytes(draw(S_OPS, 50), 3), pick<int64_t>(S_OPS, {0, 7, 4294967295ll, 1000000}));
            if (draw(S_OPS, 2))
            {
                PendPtr p;
                y = c.opnWire(p);
                p->mustNot = true;
                p->tag = "P10";
                spoilSize(y);
            }
        }
        b = x;
        if (draw(S_OPS, 2))
        {
            c.send(b);
            b.clear();
            c.pump([&] { return c.acked; }, now() + RSP);
        }
        b.insert(b.end(), y.begin(), y.end());
        break;
    }
    default:    // part of a message after the hello, then silence
    {
        countFault(F_PEER_SILENT);
        c.helloSent = true;
        b = helloMsg();
        PendPtr p;
        Bytes y = c.opnWire(p);
        p->mustNot = true;
        p->tag = "P10";
        y.resize(draw(S_OPS, static_cast<uint32_t>(y.size())));
        b.insert(b.end(), y.begin(), y.end());
        wait = IDLE + 15 * SEC;
        break;
    }
    }
    c.bad = true;
    c.send(b);
    c.pump({}, now() + wait);
    if (mustClose && !c.over && !c.cutOff())
    {
        violation("P10,P13", "client %d: the connection is still open after %s", c.id, wait == RSP ? "a message that breaks the protocol" : "an incomplete message and silence");
    }
    count("ua_bad_transport");
}

// Attacks on secure channels (P11).
void badChannel(Client& c)
{
    countFault(F_PEER_GARBAGE);
    unsigned const k = draw(S_OPS, 9);
    uint32_t const h = w->sh.nextHandle++;
    if (k == 0 || k == 1)
    {
        // a request or close before there is a channel, guessing one
        if (!c.connect(w->port))
        {
            c.over = true;
            return;
        }
        c.helloSent = true;
        c.send(helloMsg());
        if (!c.pump([&] { return c.acked; }, now() + RSP))
        {
            return;
        }
        uint32_t ch = draw(S_OPS, 34), tok = draw(S_OPS, 1u << 30), seq = ++c.seqTx;
        if (!w->sh.channels.empty() && draw(S_OPS, 4))
        {
            auto it = std::next(w->sh.channels.begin(), draw(S_OPS, static_cast<uint32_t>(w->sh.channels.size())));
            auto v = w->sh.clients.find(it->second);
            if (v != w->sh.clients.end())
            {
                ch = it->first;
                tok = v->second->tokenId;
                seq = v->second->seqTx + 1;
            }
        }
        bool const clo = draw(S_OPS, 3) == 2;
        PendPtr p = c.expect(clo ? CLO_ : GETENDP, clo ? CLO_R : GETENDP_R, h);
        Enc e;
        e.nodeNum(CLO_).reqHdr(0, h);
        refuse(c, "P11", p, c.msgWire(p, clo ? e.b : getEndpointsBody(0, h), ch, tok, seq, clo ? "CLO" : "MSG"), true);
        count("ua_bad_channel");
        return;
    }
    if (k == 2)
    {
        // an OPN that cannot be decoded
        if (!c.connect(w->port))
        {
            c.over = true;
            return;
        }
        c.helloSent = true;
        PendPtr p;
        Bytes y = c.opnWire(p);
        y.resize(12 + draw(S_OPS, static_cast<uint32_t>(y.size()) - 12));
        setSize(y);
        Bytes b = helloMsg();
        b.insert(b.end(), y.begin(), y.end());
        refuse(c, "P11", p, b, true);
        count("ua_bad_channel");
        return;
    }
    if (!openUp(c, false))
    {
        return;
    }
    bool const clo = draw(S_OPS, 4) == 3;
    PendPtr p = c.expect(clo ? CLO_ : GETENDP, clo ? CLO_R : GETENDP_R, h);
    Enc e;
    e.nodeNum(CLO_).reqHdr(0, h);
    Bytes const body = clo ? e.b : getEndpointsBody(0, h);
    char const* const t = clo ? "CLO" : "MSG";
    switch (k)
    {
    case 3:     // another token
        refuse(c, "P11", p, c.msgWire(p, body, c.chanId, c.tokenId ^ (1u << draw(S_OPS, 31)), ++c.seqTx, t), true);
        break;
    case 4:     // a sequence number that is not the next
        refuse(c, "P11", p, c.msgWire(p, body, c.chanId, c.tokenId, c.seqTx + pick<uint32_t>(S_OPS, {2, 0, 0xffffffffu, 1000}), t), true);
        break;
    case 5:     // a replay of an answered message
    {
        PendPtr q = c.expect(GETENDP, GETENDP_R, w->sh.nextHandle++);
        Bytes const m = c.msgWire(q, getEndpointsBody(0, q->handle));
        c.send(m);
        if (!settle(c, {q}))
        {
            return;
        }
        refuse(c, "P11,P13", p, m, true);
        break;
    }
    case 6:     // the channel before the last OPN
    {
        uint32_t const ch = c.chanId, tok = c.tokenId;
        PendPtr o;
        c.send(c.opnWire(o));
        if (!c.waitRsp(o, RSP))
        {
            return;
        }
        if (c.chanId != ch || c.tokenId != tok)
        {
            refuse(c, "P11", p, c.msgWire(p, body, c.chanId != ch ? ch : c.chanId, tok, ++c.seqTx, t), c.chanId != ch);
        }
        break;
    }
    default:    // somebody else's channel, with everything right for it
    {
        uint32_t ch = c.chanId, tok = c.tokenId, seq = ++c.seqTx;
        for (auto& x : w->sh.channels)
        {
            auto v = w->sh.clients.find(x.second);
            if (x.second != c.id && v != w->sh.clients.end() && (ch == c.chanId || draw(S_OPS, 2)))
            {
                ch = x.first;
                tok = v->second->tokenId;
                seq = v->second->seqTx + 1;
            }
        }
        if (ch == c.chanId)
        {
            ch = (ch + 1 + draw(S_OPS, 40)) % 60;
            ch += ch == c.chanId;
        }
        refuse(c, "P11", p, c.msgWire(p, body, ch, tok, seq, t), true);
        count("ua_foreign_channel");
        break;
    }
    }
    count("ua_bad_channel");
}

// Attacks on sessions (P12).
void badSession(Client& c)
{
    countFault(F_PEER_GARBAGE);
    if (!openUp(c, false))
    {
        return;
    }
    auto forged = [&](uint32_t own) -> uint32_t {
        uint32_t t = 0;
        switch (draw(S_OPS, 6))
        {
        case 0: t = draw(S_OPS, 40); break;
        case 5:
            if (!w->sh.tokens.empty())
            {
                // a live token but for one bit
                t = std::next(w->sh.tokens.begin(), draw(S_OPS, static_cast<uint32_t>(w->sh.tokens.size())))->first;
                t ^= 1u << draw(S_OPS, 32);
                break;
            }
            [[fallthrough]];
        case 1: t = own; break;
        case 2: t = own ^ (1u << draw(S_OPS, 31)); break;
        case 3:
            if (!w->sh.tokens.empty())
            {
                // the number of a live session, not its token
                t = std::next(w->sh.tokens.begin(), draw(S_OPS, static_cast<uint32_t>(w->sh.tokens.size())))->first;
                t = (t & 0xff) | (draw(S_OPS, 2) ? 0 : draw(S_OPS, 1u << 20) << 8);
                break;
            }
            [[fallthrough]];
        default: t = draw(S_OPS, 1u << 31); break;
        }
        return t;
    };
    auto tryOne = [&](uint32_t own) {
        uint32_t const h = w->sh.nextHandle++;
        unsigned const k = draw(S_OPS, 3);
        uint32_t t = forged(own);
        if (w->sh.tokens.count(t))
        {
            t = 0;
        }
        PendPtr p;
        Bytes body;
        if (k == 0)
        {
            p = c.expect(READ, READ_R, h);
            // without an activated session on this channel, not even a live token helps
            body = readBody(!w->sh.tokens.empty() && draw(S_OPS, 2) ? w->sh.tokens.begin()->first : t, h, draw(S_OPS, 3));
        }
        else
        {
            p = k == 1 ? c.expect(ACTIVATE, ACTIVATE_R, h) : c.expect(CLOSES, CLOSES_R, h);
            if (draw(S_OPS, 4) == 3)
            {
                // a token that is not a number
                Enc e;
                e.nodeNum(k == 1 ? ACTIVATE : CLOSES);
                e.u8(3).u16(0).str("1");
                e.u64(1).u32(h).u32(0).null().u32(0).u8(0).u8(0).u8(0);
                Bytes const x = k == 1 ? activateBody(0, h) : closeBody(0, h);
                Dec d(x);
                uint32_t id;
                d.node(id);
                d.node(id);
                d.u64();
                d.u32();
                d.u32();
                d.str();
                d.u32();
                d.ext();
                e.b.insert(e.b.end(), x.begin() + static_cast<long>(d.p), x.end());
                body = e.b;
            }
            else
            {
                body = k == 1 ? activateBody(t, h) : closeBody(t, h);
            }
        }
        refuse(c, "P12", p, c.msgWire(p, body), false);
    };
    unsigned const n = 1 + draw(S_OPS, 3);
    uint32_t own = 0;
    for (unsigned i = 0; i < n && !c.over; ++i)
    {
        unsigned const k = draw(S_OPS, 3);
        if (k == 0 || !mayCreate())
        {
            tryOne(own);
            continue;
        }
        // created, not activated; or closed again
        uint32_t h = w->sh.nextHandle++;
        PendPtr p = c.expect(CREATE, CREATE_R, h);
        c.send(c.msgWire(p, createBody(h, 1000)));
        if (!settle(c, {p}))
        {
            return;
        }
        uint32_t const tok = p->token;
        if (k == 2)
        {
            h = w->sh.nextHandle++;
            bool const act = draw(S_OPS, 2);
            if (act)
            {
                p = c.expect(ACTIVATE, ACTIVATE_R, h);
                c.send(c.msgWire(p, activateBody(tok, h)));
                if (!settle(c, {p}))
                {
                    return;
                }
                h = w->sh.nextHandle++;
            }
            p = c.expect(CLOSES, CLOSES_R, h);
            w->sh.tokens.erase(tok);
            c.send(c.msgWire(p, closeBody(tok, h)));
            if (!settle(c, {p}))
            {
                return;
            }
            own = tok;
            count("ua_closed_token_tried");
        }
        h = w->sh.nextHandle++;
        p = c.expect(READ, READ_R, h);
        refuse(c, "P12", p, c.msgWire(p, readBody(tok, h, 1)), false);
        if (!c.over)
        {
            tryOne(own);
        }
        if (k == 1 && !c.over)
        {
            // the created session is still usable
            h = w->sh.nextHandle++;
            p = c.expect(ACTIVATE, ACTIVATE_R, h);
            c.send(c.msgWire(p, activateBody(tok, h)));
            if (!settle(c, {p}))
            {
                return;
            }
            h = w->sh.nextHandle++;
            p = c.expect(READ, READ_R, h);
            c.send(c.msgWire(p, readBody(tok, h, 1)));
            if (!settle(c, {p}))
            {
                return;
            }
            return;     // it has an active session now
        }
    }
    count("ua_bad_session");
}

// Clients that take connections, channels and sessions and leave in every state.
void roughClient(bool burst)
{
    Client c(w->sh);
    c.bad = true;       // internal queues may overflow: requests may be lost
    ++w->open;
    unsigned const k = draw(S_OPS, 6);
    if (k == 0)
    {
        c.connect(w->port, 3 * SEC);
        c.c.connected() ? (void)c.pump({}, now() + static_cast<Time>(draw(S_OPS, 40)) * SEC) : (void)0;
    }
    else if (c.connect(w->port, 3 * SEC))
    {
        PendPtr p;
        c.helloSent = true;
        Bytes b = helloMsg();
        if (k >= 2)
        {
            Bytes o = c.opnWire(p);
            b.insert(b.end(), o.begin(), o.end());
        }
        c.send(b);
        if (draw(S_OPS, 3))
        {
            if (k >= 3 && c.waitRsp(p, 3 * SEC))
            {
                unsigned const n = k == 5 ? 80 + draw(S_OPS, 200) : 1 + draw(S_OPS, 8);
                Bytes out;
                for (unsigned i = 0; i < n; ++i)
                {
                    uint32_t const h = w->sh.nextHandle++;
                    bool const cr = (k != 5 || draw(S_OPS, 20) == 0) && draw(S_OPS, 2);
                    PendPtr q = cr ? c.expect(CREATE, CREATE_R, h) : c.expect(GETENDP, GETENDP_R, h);
                    Bytes m = c.msgWire(q, cr ? createBody(h, 1000) : getEndpointsBody(0, h));
                    out.insert(out.end(), m.begin(), m.end());
                }
                c.c.send(out);
                count(k == 5 ? "ua_pipelined_flood" : "ua_abandoned_sessions", k == 5 ? 1 : n);
            }
            if (draw(S_OPS, 2))
            {
                rawDrain(c, now() + static_cast<Time>(draw(S_OPS, 2000)) * MS);
            }
        }
    }
    countFault(F_PEER_CLOSE);
    if (draw(S_OPS, 3) == 0)
    {
        countFault(F_PEER_SILENT);
        rawDrain(c, now() + 60 * SEC);
        if (!c.over && c.c.connected() && !c.cutOff())
        {
            violation("P10,P13", "client %d: a silent connection is still open after a minute", c.id);
        }
    }
    c.close(draw(S_OPS, 2));
    --w->open;
}

// Keeps a connection and its channel.
void holder()
{
    Client c(w->sh);
    if (openUp(c, false))
    {
        while (!w->stop)
        {
            waitUntil([&] { return w->stop || c.c.eof(); }, now() + static_cast<Time>(1 + draw(S_OPS, 20)) * SEC);
            if (w->stop)
            {
                break;
            }
            uint32_t const h = w->sh.nextHandle++;
            PendPtr p = c.expect(GETENDP, GETENDP_R, h);
            c.send(c.msgWire(p, getEndpointsBody(0, h)));
            if (!settle(c, {p}))
            {
                break;
            }
        }
        count("ua_holders");
    }
    c.close(draw(S_OPS, 2));
}

// Comes and goes quickly, leaving requests unanswered. Its session, if it has one, survives its connections.
void churner()
{
    unsigned const n = 3 + draw(S_OPS, 25);
    uint32_t session = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        Client c(w->sh);
        if (c.connect(w->port, 3 * SEC))
        {
            PendPtr p;
            c.helloSent = true;
            Bytes b = helloMsg();
            c.seg = 0;
            unsigned const k = draw(S_OPS, 4);
            if (k == 3 && !w->sh.ended.empty() && draw(S_OPS, 3) == 2)
            {
                // names a channel of a client that has left, before opening its own
                auto const& e = w->sh.ended[draw(S_OPS, static_cast<uint32_t>(w->sh.ended.size()))];
                uint32_t const h = w->sh.nextHandle++;
                PendPtr q = c.expect(GETENDP, GETENDP_R, h);
                Bytes x = c.msgWire(q, getEndpointsBody(0, h), std::get<0>(e), std::get<1>(e), std::get<2>(e));
                b.insert(b.end(), x.begin(), x.end());
                refuse(c, "P11", q, b, true);
                count("ua_ended_channel_named");
                c.close(draw(S_OPS, 2));
                continue;
            }
            Bytes o = c.opnWire(p);
            b.insert(b.end(), o.begin(), o.end());
            c.send(b);
            if (k == 0)
            {
                c.close(draw(S_OPS, 2));
                continue;
            }
            if (c.waitRsp(p, RSP))
            {
                Bytes out;
                auto add = [&](PendPtr const& q, Bytes const& body) {
                    Bytes x = c.msgWire(q, body);
                    out.insert(out.end(), x.begin(), x.end());
                };
                unsigned const what = draw(S_OPS, 6);
                if (what == 5)
                {
                    // a channel that has just been opened has no session, whoever used its number before
                    uint32_t const h = w->sh.nextHandle++;
                    PendPtr q = c.expect(READ, READ_R, h);
                    q->mustNot = true;
                    q->tag = "P12";
                    add(q, readBody(!w->sh.tokens.empty() && draw(S_OPS, 2) ? w->sh.tokens.begin()->first : session, h, 1));
                    uint32_t const h2 = w->sh.nextHandle++;
                    q = c.expect(GETENDP, GETENDP_R, h2);
                    add(q, getEndpointsBody(0, h2));
                    c.send(out);
                    if (!c.waitRsp(q, RSP) && !c.over)
                    {
                        violation(ANSWERED, "client %d: a request after a read without a session is not answered", c.id);
                    }
                    count("ua_read_on_new_channel");
                    c.close(draw(S_OPS, 2));
                    continue;
                }
                if (what >= 3)
                {
                    // takes its session along and leaves
                    if (!session && mayCreate())
                    {
                        uint32_t const h = w->sh.nextHandle++;
                        PendPtr q = c.expect(CREATE, CREATE_R, h);
                        c.send(c.msgWire(q, createBody(h, 55000)));
                        if (c.waitRsp(q, RSP))
                        {
                            session = q->token;
                        }
                    }
                    if (session)
                    {
                        uint32_t const h = w->sh.nextHandle++;
                        add(c.expect(ACTIVATE, ACTIVATE_R, h), activateBody(session, h));
                        if (draw(S_OPS, 2))
                        {
                            uint32_t const h2 = w->sh.nextHandle++;
                            add(c.expect(READ, READ_R, h2), readBody(session, h2, 1));
                        }
                        count("ua_session_taken_along");
                    }
                }
                else
                {
                    for (unsigned m = 0, e = 1 + draw(S_OPS, 4); m < e; ++m)
                    {
                        uint32_t const h = w->sh.nextHandle++;
                        add(c.expect(GETENDP, GETENDP_R, h), getEndpointsBody(0, h));
                    }
                }
                uint32_t const ch = c.chanId, tok = c.tokenId;
                if (draw(S_OPS, 4) == 3)
                {
                    // a new channel, and requests for the one it replaces right behind
                    PendPtr q;
                    Bytes x = c.opnWire(q);
                    out.insert(out.end(), x.begin(), x.end());
                    c.bad = true;
                    count("ua_replaced_in_flight");
                }
                if (draw(S_OPS, 3) == 2)
                {
                    Enc e;
                    uint32_t const h = w->sh.nextHandle++;
                    PendPtr q = c.expect(CLO_, CLO_R, h);
                    e.nodeNum(CLO_).reqHdr(0, h);
                    Bytes x = c.msgWire(q, e.b, ch, tok, ++c.seqTx, "CLO");
                    out.insert(out.end(), x.begin(), x.end());
                }
                w->sh.ended.emplace_back(ch, tok, c.seqTx + 1);
                if (w->sh.ended.size() > 40)
                {
                    w->sh.ended.erase(w->sh.ended.begin());
                }
                c.send(out);
                count("ua_churned");
                sleepFor(static_cast<Time>(draw(S_OPS, k == 1 ? 3 : 3000)) * US);
            }
            else if (!c.over && !c.cutOff())
            {
                violation("P11,P13", "client %d: opening a secure channel is not answered", c.id);
            }
        }
        c.close(draw(S_OPS, 2));
        sleepFor(static_cast<Time>(draw(S_OPS, 3000)) * US);
    }
}

// What the clients know about the sessions of the server: each may still be there until its time is over.
struct SessModel
{
    std::map<uint32_t, Time> until;         // token -> end, if it is not used again
    unsigned inFlight = 0;
    unsigned closed = 0;
    unsigned refused = 0;
    bool ownersDone = false;
    unsigned alive(Time t) const
    {
        unsigned n = 0;
        for (auto& x : until)
        {
            n += x.second + 500 * MS > t;
        }
        return n;
    }
};
SessModel* sm;

Time msec(double v) { return static_cast<Time>(v * 1e6); }

// Creates a session; false when the server has no room for it (which is checked against the model).
PendPtr createSession(Client& c, double timeout)
{
    uint32_t const h = w->sh.nextHandle++;
    PendPtr p = c.expect(CREATE, CREATE_R, h);
    Time const t0 = now();
    unsigned const closed0 = sm->closed;
    ++sm->inFlight;
    c.send(c.msgWire(p, createBody(h, timeout)));
    bool const ok = c.pump([&] { return p->got; }, now() + 5 * SEC);
    --sm->inFlight;
    if (!ok)
    {
        if (lost(c, "while it creates a session"))
        {
            return {};
        }
        // all that were there at any moment since the request was sent
        unsigned const busy = sm->alive(t0) + sm->inFlight + (sm->closed - closed0);
        if (busy < 32)
        {
            violation("P13", "client %d: creating a session is not answered although only %u sessions can be alive", c.id, busy);
        }
        ++sm->refused;
        count("ua_session_pool_full");
        return {};
    }
    sm->until[p->token] = now() + msec(p->revised);
    return p;
}

bool useSession(Client& c, uint32_t token, double revised, bool read)
{
    uint32_t const h = w->sh.nextHandle++;
    PendPtr p = read ? c.expect(READ, READ_R, h) : c.expect(ACTIVATE, ACTIVATE_R, h);
    c.send(c.msgWire(p, read ? readBody(token, h, draw(S_OPS, 3)) : activateBody(token, h)));
    if (!settle(c, {p}))
    {
        return false;
    }
    sm->until[token] = now() + msec(revised);
    return true;
}

// Uses its session often enough: it must never be taken away from it.
void sessionOwner()
{
    auto cp = std::make_unique<Client>(w->sh);
    if (!openUp(*cp, true, true))
    {
        return;
    }
    PendPtr p = createSession(*cp, pick<double>(S_OPS, {10000, 0, 15000, 20000, 1, 12345.5}));
    if (!p)
    {
        return;
    }
    Time const revised = std::min<Time>(msec(p->revised), 24 * SEC);
    if (!useSession(*cp, p->token, p->revised, false))
    {
        return;
    }
    unsigned const style = draw(S_OPS, 4);      // 0 reads, 1 activations, 2 on a new connection each time, 3 mixed
    Time const end = now() + 3 * revised + static_cast<Time>(draw(S_OPS, 1000)) * revised / 500;
    while (now() < end)
    {
        cp->pump({}, now() + revised / 4 + static_cast<Time>(draw(S_OPS, 1000)) * revised / 2000);
        if (lost(*cp, "while it is idle for less than the receive timeout"))
        {
            return;
        }
        unsigned const k = style == 3 ? draw(S_OPS, 3) : style;
        if (k == 2)
        {
            auto d = std::make_unique<Client>(w->sh);
            d->seg = 0;
            bool const leaveFirst = draw(S_OPS, 2);
            if (leaveFirst)
            {
                cp->close(draw(S_OPS, 2));
            }
            if (!openUp(*d, true, true))
            {
                return;
            }
            if (!leaveFirst)
            {
                cp->close(draw(S_OPS, 2));
            }
            cp = std::move(d);
            if (!useSession(*cp, p->token, p->revised, false))
            {
                return;
            }
        }
        else if (!useSession(*cp, p->token, p->revised, k == 0))
        {
            return;
        }
        count("ua_session_kept");
    }
    if (draw(S_OPS, 3) == 2)
    {
        // leaves it behind: its number is reused some day, its token is not
        uint32_t const tok = p->token;
        w->sh.tokens.erase(tok);
        cp->close(false);
        sleepFor(revised + static_cast<Time>(draw(S_OPS, 20)) * SEC);
        return;
    }
    uint32_t const h = w->sh.nextHandle++;
    PendPtr q = cp->expect(CLOSES, CLOSES_R, h);
    w->sh.tokens.erase(p->token);
    cp->send(cp->msgWire(q, closeBody(p->token, h)));
    if (settle(*cp, {q}))
    {
        sm->until.erase(p->token);
        ++sm->closed;
    }
    cp->close(draw(S_OPS, 2));
}

// Creates sessions for as long as there is room, one after the other.
void sessionHog()
{
    Client c(w->sh);
    if (!openUp(c, true, true))
    {
        return;
    }
    std::vector<std::pair<uint32_t, double>> mine;
    while (!sm->ownersDone && !c.over)
    {
        PendPtr p = createSession(c, pick<double>(S_OPS, {60000, 30000, 10000, 0, 45000, 20000}));
        if (c.over)
        {
            break;
        }
        if (p)
        {
            mine.emplace_back(p->token, p->revised);
            if (draw(S_OPS, 4) == 3 && !useSession(c, p->token, p->revised, false))
            {
                break;
            }
            if (draw(S_OPS, 8) == 7)
            {
                // it is closed again (the last one this client created, so it is within its time)
                uint32_t const h = w->sh.nextHandle++;
                PendPtr q = c.expect(CLOSES, CLOSES_R, h);
                w->sh.tokens.erase(p->token);
                c.send(c.msgWire(q, closeBody(p->token, h)));
                if (!settle(c, {q}))
                {
                    break;
                }
                sm->until.erase(p->token);
                ++sm->closed;
            }
            c.pump({}, now() + static_cast<Time>(draw(S_OPS, 100)) * MS);
        }
        else
        {
            c.pump({}, now() + static_cast<Time>(1 + draw(S_OPS, 6000)) * MS);
        }
        lost(c, "between two requests");
    }
    for (auto& x : mine)
    {
        w->sh.tokens.erase(x.first);
    }
    c.close(draw(S_OPS, 2));
}

// Many requests on one connection: nothing may depend on how many came before.
void marathon(unsigned total)
{
    Client c(w->sh);
    c.seg = 0;
    ++w->open;
    if (openUp(c, true, true))
    {
        PendPtr cr = createSession(c, 3600000);
        if (!cr)
        {
            violation("P13", "client %d: no session for the only client", c.id);
        }
        uint32_t h = w->sh.nextHandle++;
        PendPtr p = c.expect(ACTIVATE, ACTIVATE_R, h);
        c.send(c.msgWire(p, activateBody(cr->token, h)));
        bool ok = settle(c, {p});
        for (unsigned n = 0; ok && n < total;)
        {
            std::vector<PendPtr> v;
            Bytes out;
            for (unsigned i = 0, k = 1 + draw(S_OPS, 16); i < k; ++i, ++n)
            {
                h = w->sh.nextHandle++;
                bool const rd = draw(S_OPS, 4);
                v.push_back(rd ? c.expect(READ, READ_R, h) : c.expect(GETENDP, GETENDP_R, h));
                Bytes m = c.msgWire(v.back(), rd ? readBody(cr->token, h, draw(S_OPS, 3)) : getEndpointsBody(0, h));
                out.insert(out.end(), m.begin(), m.end());
            }
            c.send(out);
            ok = settle(c, v);
            for (auto& x : v)
            {
                c.pend.erase(x->reqId);
            }
            if (draw(S_OPS, 16) == 15)
            {
                c.pump({}, now() + static_cast<Time>(draw(S_OPS, 20)) * SEC);
                ok = ok && !lost(c, "between two requests");
            }
        }
        count("ua_marathon_requests", total);
        h = w->sh.nextHandle++;
        p = c.expect(CLOSES, CLOSES_R, h);
        w->sh.tokens.erase(cr->token);
        c.send(c.msgWire(p, closeBody(cr->token, h)));
        settle(c, {p});
    }
    c.close(draw(S_OPS, 2));
    --w->open;
}

// Many connections, channels and sessions one after the other.
void relay(unsigned total)
{
    for (unsigned n = 0; n < total; ++n)
    {
        Client c(w->sh);
        c.seg = 0;
        ++w->open;
        if (openUp(c, true, true) && draw(S_OPS, 3))
        {
            PendPtr cr = createSession(c, 60000);
            if (!cr)
            {
                violation("P13", "client %d: no session although at most a few are in use", c.id);
            }
            uint32_t h = w->sh.nextHandle++;
            PendPtr a = c.expect(ACTIVATE, ACTIVATE_R, h);
            c.send(c.msgWire(a, activateBody(cr->token, h)));
            if (settle(c, {a}))
            {
                h = w->sh.nextHandle++;
                PendPtr r = c.expect(READ, READ_R, h);
                Bytes out = c.msgWire(r, readBody(cr->token, h, 1));
                h = w->sh.nextHandle++;
                PendPtr d = c.expect(CLOSES, CLOSES_R, h);
                Bytes m = c.msgWire(d, closeBody(cr->token, h));
                out.insert(out.end(), m.begin(), m.end());
                w->sh.tokens.erase(cr->token);
                c.send(out);
                settle(c, {r, d});
            }
        }
        c.close(draw(S_OPS, 2));
        --w->open;
        // the server notices within moments; the next client must not need the last slot
        sleepFor(static_cast<Time>(20 + draw(S_OPS, 30)) * MS);
    }
    count("ua_relay_connections", total);
}

void run(int mode)
{
    enum { GOOD, FAULT, FLOOD, CHURN, FUZZ, SESS, LONG, MARATHON };
    SessModel model;
    sm = &model;
    drawSched();
    drawLogs();
    W ww;
    w = &ww;
    w->sh.wallStable = !drawClockJumps();
    drawNet(mode == FAULT && draw(S_CFG, 2));
    net.spikeMax = std::min<Time>(net.spikeMax, 10 * MS);
    w->lossy = net.resetDen != 0;
    w->flood = mode == FLOOD;
    ReactorManager mgr;
    std::array<unsigned, 4> layout;
    for (auto& x : layout)
    {
        x = draw(S_CFG, 4);
    }
    UaApp app(mgr, layout);
    if (draw(S_CFG, 3) == 2)
    {
        enableFault(F_EPOLL_EINTR, 1, 8);
        enableFault(F_SPURIOUS_EVENT, 1, 50);
    }
    w->port = pick<uint16_t>(S_CFG, {4369, 4840, 0x80ff});
    mgr.start();
    if (!app.init())
    {
        violation("P13", "the OPC UA components do not answer their initialisation");
    }
    app.config(w->port);
    if (!waitUntil([&] { return portListening(w->port); }, now() + 5 * SEC))
    {
        violation("P13", "the OPC UA server does not listen");
    }
    sleepFor(100 * MS);
    int const timers0 = osStats().timers;
    if (mode == FAULT && draw(S_CFG, 3) == 2)
    {
        enableFault(F_READ_FAIL, 1, 100);
        enableFault(F_WRITE_FAIL, 1, 100);
        enableFault(F_ACCEPT_FAIL, 1, 10);
        enableFault(F_FCNTL_FAIL, 1, 10);
        enableFault(F_CLOSE_EINTR, 1, 10);
        enableFault(F_EPOLL_CTL_ADD, 1, 10);
        enableFault(F_TIMERFD_FAIL, 1, 10);
        w->lossy = true;
    }
    unsigned done = 0, total = 0, holders = 0;
    auto go = [&](std::string name, Time delay, std::function<void()> fn) {
        ++total;
        spawn(name, [delay, fn, &done] {
            sleepFor(delay);
            fn();
            ++done;
        });
    };
    unsigned nGood = mode == GOOD ? 1 + draw(S_CFG, 6) : mode == FLOOD || mode == SESS || mode == LONG || mode == MARATHON ? 0 : mode == CHURN ? 1 + draw(S_CFG, 2) : 1 + draw(S_CFG, 4);
    for (unsigned i = 0; i < nGood; ++i)
    {
        unsigned const rounds = 1 + draw(S_CFG, 8);
        go("client" + std::to_string(i), static_cast<Time>(draw(S_CFG, 2000)) * MS, [rounds, mode] { goodClient(rounds, mode == CHURN ? 50 : 1); });
    }
    if (mode == CHURN)
    {
        countFault(F_POOL_EXHAUST);
        w->churn = true;
        unsigned const n = draw(S_CFG, 2) ? 23 + draw(S_CFG, 8) : 28 + draw(S_CFG, 3);
        for (unsigned i = 0; i < n; ++i)
        {
            spawn("holder" + std::to_string(i), [&holders] {
                ++holders;
                holder();
                --holders;
            });
        }
        for (unsigned i = 0; i < 3; ++i)
        {
            go("churner" + std::to_string(i), SEC + static_cast<Time>(draw(S_CFG, 100)) * MS, [] { churner(); });
        }
    }
    if (mode == FAULT)
    {
        for (unsigned i = 0, n = 1 + draw(S_CFG, 5); i < n; ++i)
        {
            unsigned const kind = draw(S_CFG, 4);
            unsigned const reps = 1 + draw(S_CFG, 3);
            go("bad" + std::to_string(i), static_cast<Time>(draw(S_CFG, 5000)) * MS, [kind, reps] {
                for (unsigned r = 0; r < reps; ++r)
                {
                    if (kind == 3)
                    {
                        fuzzClient();
                        continue;
                    }
                    Client c(w->sh);
                    ++w->open;
                    kind == 0 ? badTransport(c) : kind == 1 ? badChannel(c) : badSession(c);
                    c.close(draw(S_OPS, 2));
                    --w->open;
                }
            });
        }
    }
    if (mode == SESS)
    {
        countFault(F_POOL_EXHAUST);
        w->sessBudget = 0;
        unsigned const n = 1 + draw(S_CFG, 3);
        auto left = std::make_shared<unsigned>(n);
        for (unsigned i = 0; i < n; ++i)
        {
            go("owner" + std::to_string(i), static_cast<Time>(draw(S_CFG, 50)) * MS, [left] {
                sessionOwner();
                sm->ownersDone = --*left == 0;
            });
        }
        for (unsigned i = 0, m = 1 + draw(S_CFG, 3); i < m; ++i)
        {
            go("hog" + std::to_string(i), SEC + static_cast<Time>(draw(S_CFG, 1000)) * MS, [] { sessionHog(); });
        }
    }
    if (mode == LONG)
    {
        longRun(4);
        bool const rel = draw(S_CFG, 2);
        unsigned const n = 1 + draw(S_CFG, 2);
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned const k = rel ? 260 + draw(S_CFG, 100) : 260 + draw(S_CFG, 800);
            go("long" + std::to_string(i), static_cast<Time>(draw(S_CFG, 50)) * MS, [rel, k] { rel ? relay(k) : marathon(k); });
        }
    }
    if (mode == MARATHON)
    {
        longRun(20);
        go("marathon", 0, [] { marathon(66000); });
    }
    if (mode == FUZZ)
    {
        w->sessBudget = 20;
        for (unsigned i = 0, n = 1 + draw(S_CFG, 6); i < n; ++i)
        {
            unsigned const reps = 1 + draw(S_CFG, 4);
            go("fuzz" + std::to_string(i), static_cast<Time>(draw(S_CFG, 1000)) * MS, [reps] {
                for (unsigned r = 0; r < reps; ++r)
                {
                    fuzzClient();
                }
            });
        }
    }
    if (mode == FLOOD)
    {
        countFault(F_POOL_EXHAUST);
        w->sessBudget = 0;
        unsigned const n = draw(S_CFG, 2) ? 20 + draw(S_CFG, 60) : 1 + draw(S_CFG, 40);
        bool const burst = draw(S_CFG, 2);
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned const reps = 1 + draw(S_CFG, 3);
            go("rough" + std::to_string(i), static_cast<Time>(draw(S_CFG, burst ? 5 : 20000)) * MS, [reps, burst] {
                for (unsigned r = 0; r < reps; ++r)
                {
                    roughClient(burst);
                }
            });
        }
    }
    if (!waitUntil([&] { return done == total; }, now() + (mode == MARATHON ? 100000 : 3000) * SEC))
    {
        harnessError("clients do not finish");
    }
    w->stop = true;
    waitUntil([&] { return holders == 0; }, now() + 100 * SEC);
    faultsOff();
    calmNet();
    w->lossy = false;
    nontrivial();
    if (!waitUntil([&] { return osStats().sockets == 0 && osStats().timers == timers0; }, now() + 60 * SEC))
    {
        violation("P13,P16", "connections or timers of gone clients are still held 60 s later: %s", fdDump().c_str());
    }
    if (osStats().badCloses)
    {
        violation("P13,P16", "%d closes of descriptors that were not open", osStats().badCloses);
    }
    // sessions of gone clients expire within a minute, those of malformed requests possibly only after the longest timeout
    bool const wait = w->fuzzed && draw(S_OPS, 8) == 7;
    sleepFor(wait ? 3610 * SEC : 65 * SEC);
    w->sessBudget = 1000;
    unsigned const fresh = w->fuzzed && !wait ? 1 : 1 + draw(S_OPS, 2) * 31;
    std::vector<std::unique_ptr<Client>> v;
    std::vector<PendPtr> ps(fresh);
    auto each = [&](const char* what, std::function<PendPtr(Client&)> fn) {
        for (unsigned i = 0; i < fresh; ++i)
        {
            ps[i] = fn(*v[i]);
        }
        for (unsigned i = 0; i < fresh; ++i)
        {
            if (!v[i]->pump([&] { return ps[i]->got; }, now() + RSP))
            {
                violation("P13", "%s of a fresh client is not answered after the others are gone (%u of %u at once)%s", what, i, fresh,
                          v[i]->over ? ": disconnected" : "");
            }
        }
    };
    for (unsigned i = 0; i < fresh; ++i)
    {
        v.push_back(std::make_unique<Client>(w->sh));
        v[i]->seg = 0;
        if (!v[i]->connect(w->port))
        {
            violation("P13", "a client cannot connect after the others are gone (%u open)", i);
        }
    }
    std::vector<uint32_t> tok(fresh);
    each("opening a channel", [&](Client& c) {
        PendPtr p;
        c.helloSent = true;
        Bytes b = helloMsg();
        Bytes o = c.opnWire(p);
        b.insert(b.end(), o.begin(), o.end());
        c.send(b);
        return p;
    });
    each("creating a session", [&](Client& c) {
        uint32_t const h = w->sh.nextHandle++;
        PendPtr p = c.expect(CREATE, CREATE_R, h);
        c.send(c.msgWire(p, createBody(h, 60000)));
        return p;
    });
    for (unsigned i = 0; i < fresh; ++i)
    {
        tok[i] = ps[i]->token;
    }
    unsigned idx = 0;
    each("activating a session", [&](Client& c) {
        uint32_t const h = w->sh.nextHandle++;
        PendPtr p = c.expect(ACTIVATE, ACTIVATE_R, h);
        c.send(c.msgWire(p, activateBody(tok[idx++], h)));
        return p;
    });
    idx = 0;
    each("a read", [&](Client& c) {
        uint32_t const h = w->sh.nextHandle++;
        PendPtr p = c.expect(READ, READ_R, h);
        c.send(c.msgWire(p, readBody(tok[idx++], h, 2)));
        return p;
    });
    count("ua_fresh_served", fresh);
    finishRun();
}

Register r1("ua", "P10,P11,P12,P13", [] { run(0); });
Register r2("uafault", "P10,P11,P12,P13,P14", [] { run(1); });
Register r3("uaflood", "P13", [] { run(2); });
Register r4("uachurn", "P11,P12,P13", [] { run(3); });
Register r7("ualong", "P11,P12,P13", [] { run(6); });
Register r8("uamarathon", "P11,P13", [] { run(7); });
Register r6("uasess", "P12,P13", [] { run(5); });
Register r5("uafuzz", "P14,P13", [] { run(4); });

} // namespace
