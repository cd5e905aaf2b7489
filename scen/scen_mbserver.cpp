// P08/P09: the Modbus server between its clients on the network and its user.
#include "mb.hpp"

using namespace mb;

namespace
{
struct PReq
{
    Bytes wire;
    uint8_t func;
    uint16_t addr, start, numItems;
    Bytes data;                     // as the user must see it
    unsigned tid;
    int peer;
    unsigned seen = 0;              // times the user got it
    Time seenAt = 0, sentAt = 0;
    bool answered = false;          // the user sent a response that must reach the peer
    bool maybe = false;             // ... that may reach the peer (near the time limit)
    Time answerAt = 0;
    Bytes rsp;                      // what the peer must receive
    unsigned got = 0;               // responses received
    bool partial = false;           // never sent completely
};

struct Peer
{
    int id;
    unsigned server = 0;
    PeerConn c;
    std::vector<std::shared_ptr<PReq>> reqs;    // in order of sending
    size_t nextSeen = 0;            // first request the user has not got yet
    size_t nextRsp = 0;
    bool trusted = true;            // well-behaved: everything must work
    bool everBad = false;           // sent something malformed: only safety counts afterwards
    bool over = false;              // closed or reset by either side
    unsigned firstTid = 0;
    Bytes rx;
};

struct W
{
    App* app = nullptr;
    std::vector<std::shared_ptr<Peer>> peers;
    std::map<std::pair<unsigned, unsigned>, std::shared_ptr<PReq>> byKey;    // (tid, start)
    bool faults = false;
    bool userFaults = false;
    unsigned nServers = 1;
    std::vector<uint16_t> ports;
    unsigned nextStart = 1;
    unsigned inDelay = 0;
    unsigned conns = 0;
    int timers0 = 0;
    bool flood = false;             // more clients than the server has room for: some may be turned away
};
W* w;

constexpr Time RSPLIMIT = 5 * SEC;

void sendRsp(unsigned server, unsigned session, unsigned tid, unsigned err, bool ok, Bytes const& data)
{
    MsgStore<app::MsgModbusAduRsp> st;
    auto& m = st.getMsg();
    m.serverId = server;
    m.sessionId = session;
    m.transactId = static_cast<uint16_t>(tid);
    m.error = static_cast<app::ModbusError>(err);
    m.status = ok ? app::MsgStatus::success : app::MsgStatus::error;
    m.numBytes = static_cast<uint16_t>(data.size());
    if (!data.empty())
    {
        memcpy(m.data, data.data(), data.size());
    }
    w->app->mgr.send(m);
}

// Builds the answer of the user and what the peer must see of it.
void answer(std::shared_ptr<PReq> r, unsigned server, unsigned session)
{
    Bytes user;
    unsigned err = 0;
    Bytes pdu;
    if (draw(S_OPS, 6) == 5)
    {
        err = pick<unsigned>(S_OPS, {1, 2, 3, 4, 6, 10, 11});
        pdu = {static_cast<uint8_t>(r->func | 0x80), static_cast<uint8_t>(err)};
    }
    else
    {
        switch (r->func)
        {
        case 3:
        case 4:
        {
            Bytes d;
            for (unsigned i = 0; i < r->numItems; ++i)
            {
                be16(d, word(r->tid, r->start, r->peer + 100, i));
            }
            user = swapped(d);
            pdu = {r->func, static_cast<uint8_t>(d.size())};
            pdu.insert(pdu.end(), d.begin(), d.end());
            break;
        }
        case 5:
        case 6:
            user = r->data;
            pdu.assign(r->wire.begin() + 7, r->wire.end());
            break;
        default:
            pdu.assign(r->wire.begin() + 7, r->wire.begin() + 12);
            break;
        }
    }
    r->rsp = adu(r->tid, r->addr, pdu);
    Time const took = now() - r->seenAt;
    if (took < 4 * SEC)
    {
        r->answered = true;
    }
    r->maybe = true;
    r->answerAt = now();
    trace("user answers tid %u start %u after %.3f s", r->tid, r->start, double(took) / SEC);
    count("mbs_user_answers");
    sendRsp(server, session, r->tid, err, true, user);
}

void onReq(app::MsgModbusAduReq const& m)
{
    trace("user gets request server %u session %u tid %u func %u start %u", m.serverId, m.sessionId, m.transactId, (unsigned)m.func, m.startItem);
    auto it = w->byKey.find({m.transactId, m.startItem});
    if (it == w->byKey.end())
    {
        violation("P08", "the user gets a request nobody sent: transaction %u function %u start %u", m.transactId, (unsigned)m.func, m.startItem);
    }
    auto r = it->second;
    Peer& p = *w->peers[r->peer];
    if (r->seen++)
    {
        violation("P08", "request transaction %u start %u reaches the user twice", r->tid, r->start);
    }
    if (r->partial)
    {
        violation("P08", "a request that was never sent completely reaches the user: transaction %u start %u", r->tid, r->start);
    }
    r->seenAt = now();
    Bytes got(m.data, m.data + m.numBytes);
    if (static_cast<unsigned>(m.func) != r->func || m.addr != r->addr || m.numItems != r->numItems || got != r->data)
    {
        violation("P08", "request transaction %u start %u reaches the user altered: func %u/%u addr %u/%u items %u/%u data %s/%s", r->tid, r->start,
                  (unsigned)m.func, r->func, m.addr, r->addr, m.numItems, r->numItems, hex(got).c_str(), hex(r->data).c_str());
    }
    if (m.serverId != p.server)
    {
        violation("P08", "request transaction %u is attributed to server %u instead of %u", r->tid, m.serverId, p.server);
    }
    // order on the connection; a malformed neighbour may be skipped but never reorders
    size_t k = 0;
    while (p.reqs[k] != r)
    {
        ++k;
    }
    if (k < p.nextSeen)
    {
        violation("P08", "request transaction %u start %u reaches the user after a later one of its connection", r->tid, r->start);
    }
    if (!p.everBad && k != p.nextSeen)
    {
        violation("P08", "a request sent before transaction %u start %u on the same connection was skipped", r->tid, r->start);
    }
    p.nextSeen = k + 1;
    count("mbs_requests_at_user");
    unsigned const server = m.serverId, session = m.sessionId;
    unsigned const how = w->userFaults ? pickw(S_FAULT, {10, 6, 2, 2, 2, 1, 1}) : pickw(S_OPS, {4, 3});
    switch (how)
    {
    case 0:
        answer(r, server, session);
        break;
    case 1:
    {
        Time const d = static_cast<Time>(draw(S_OPS, 3000)) * MS;
        ++w->inDelay;
        spawn("answer", [r, server, session, d] {
            sleepFor(d);
            answer(r, server, session);
            --w->inDelay;
        }, true);
        break;
    }
    case 2:
        countFault(F_PEER_SILENT);
        break;
    case 3:
    {
        countFault(F_PEER_LATE);
        Time const d = 5 * SEC + static_cast<Time>(draw(S_OPS, 3000)) * MS;
        ++w->inDelay;
        spawn("answer", [r, server, session, d] {
            sleepFor(d);
            answer(r, server, session);
            --w->inDelay;
        }, true);
        break;
    }
    case 4:
        // an answer to something else first, then the right one
        countFault(F_PEER_GARBAGE);
        switch (draw(S_OPS, 4))
        {
        case 1: sendRsp(server, pick<unsigned>(S_OPS, {256, 257, 1000, 0xffffffffu}), r->tid, 0, true, {1, 2}); break;
        case 2: sendRsp(pick<unsigned>(S_OPS, {200, 255, 0x7fffffff}), session, r->tid, 0, true, {1, 2}); break;
        default: sendRsp(server, session, r->tid ^ 0x8000, 0, true, {1, 2}); break;
        }
        answer(r, server, session);
        break;
    case 5:
        countFault(F_PEER_DUP);
        answer(r, server, session);
        {
            Bytes u;
            sendRsp(server, session, r->tid, 0, true, u);
        }
        break;
    default:
        // the user reports that it failed: nothing is sent
        sendRsp(server, session, r->tid, 0, false, {});
        break;
    }
}

std::shared_ptr<PReq> makeReq(Peer& p)
{
    auto r = std::make_shared<PReq>();
    r->peer = p.id;
    r->tid = (p.firstTid + static_cast<unsigned>(p.reqs.size())) & 0x7fff;      // same numbers on different connections
    r->start = static_cast<uint16_t>(w->nextStart++);
    r->addr = static_cast<uint16_t>(pick<unsigned>(S_OPS, {1, 0, 17, 247}));
    r->numItems = 0;
    Bytes pdu;
    switch (pickw(S_OPS, {5, 2, 1, 3, 1}))
    {
    case 0:
        r->func = draw(S_OPS, 2) ? 4 : 3;
        r->numItems = static_cast<uint16_t>(pick<unsigned>(S_OPS, {1, 2, 10, 60, 120, 125}));
        pdu = {r->func};
        be16(pdu, r->start);
        be16(pdu, r->numItems);
        break;
    case 1:
        r->func = 6;
        pdu = {6};
        be16(pdu, r->start);
        r->data = {static_cast<uint8_t>(draw(S_OPS, 256)), static_cast<uint8_t>(draw(S_OPS, 256))};
        pdu.push_back(r->data[1]);
        pdu.push_back(r->data[0]);
        break;
    case 2:
        r->func = 5;
        pdu = {5};
        be16(pdu, r->start);
        r->data = {static_cast<uint8_t>(draw(S_OPS, 2) ? 0xff : 0), 0};
        pdu.push_back(r->data[0]);
        pdu.push_back(0);
        break;
    case 3:
    {
        r->func = 16;
        r->numItems = static_cast<uint16_t>(pick<unsigned>(S_OPS, {1, 2, 7, 50, 100, 123}));
        pdu = {16};
        be16(pdu, r->start);
        be16(pdu, r->numItems);
        pdu.push_back(static_cast<uint8_t>(r->numItems * 2));
        Bytes d;
        for (unsigned i = 0; i < r->numItems; ++i)
        {
            be16(d, word(r->tid, r->start, 3, i));
        }
        pdu.insert(pdu.end(), d.begin(), d.end());
        r->data = swapped(d);
        break;
    }
    default:
        r->func = 4;
        r->numItems = 0;
        pdu = {r->func};
        be16(pdu, r->start);
        be16(pdu, 0);
        break;
    }
    r->wire = adu(r->tid, r->addr, pdu);
    r->sentAt = now();
    p.reqs.push_back(r);
    w->byKey[{r->tid, r->start}] = r;
    count("mbs_requests");
    return r;
}

// Reads what the server sent and compares it with what the user answered.
void drainPeer(Peer& p)
{
    Bytes b = p.c.takeAll();
    p.rx.insert(p.rx.end(), b.begin(), b.end());
    while (p.rx.size() >= 6)
    {
        size_t const len = 6 + rd16(&p.rx[4]);
        if (p.rx.size() < len)
        {
            break;
        }
        Bytes f(p.rx.begin(), p.rx.begin() + static_cast<long>(len));
        p.rx.erase(p.rx.begin(), p.rx.begin() + static_cast<long>(len));
        trace("peer %d gets response %s", p.id, hex(f).c_str());
        // the next request in order that has this response
        size_t k = p.nextRsp;
        while (k < p.reqs.size() && !(p.reqs[k]->maybe && p.reqs[k]->rsp == f))
        {
            if (p.reqs[k]->answered && !w->userFaults && !p.everBad)
            {
                violation("P08", "peer %d: the response to transaction %u is missing or altered; got %s, expected %s", p.id, p.reqs[k]->tid,
                          hex(f, 40).c_str(), hex(p.reqs[k]->rsp, 40).c_str());
            }
            ++k;
        }
        if (k == p.reqs.size())
        {
            violation("P08", "peer %d receives a response that does not answer any of its open requests: %s", p.id, hex(f, 40).c_str());
        }
        p.reqs[k]->got++;
        p.nextRsp = k + 1;
        count("mbs_responses_at_peer");
    }
}

void pump(Peer& p, Time until)
{
    while (now() < until)
    {
        waitUntil([&] { return p.c.available() || p.c.eof(); }, until);
        if (p.c.available())
        {
            drainPeer(p);
        }
        if (p.c.eof())
        {
            p.over = true;
            return;
        }
    }
}

bool connectPeer(Peer& p)
{
    if (!peerConnect(p.c, w->ports[p.server], now() + 10 * SEC))
    {
        return false;
    }
    ++w->conns;
    return true;
}

std::shared_ptr<Peer> newPeer(bool trusted)
{
    auto p = std::make_shared<Peer>();
    p->id = static_cast<int>(w->peers.size());
    p->server = draw(S_CFG, w->nServers);
    p->trusted = trusted;
    p->firstTid = pick<unsigned>(S_OPS, {0, 1, 0x7ffe, 255});
    w->peers.push_back(p);
    return p;
}

// A well-behaved client: one request at a time or pipelined, any segmentation.
void goodPeer(unsigned rounds)
{
    auto pp = newPeer(true);
    Peer& p = *pp;
    if (!connectPeer(p))
    {
        violation("P09", "a client cannot connect to the server");
    }
    bool const pipeline = draw(S_OPS, 2);
    for (unsigned k = 0; k < rounds; ++k)
    {
        unsigned const n = pipeline ? 1 + draw(S_OPS, 5) : 1;
        Bytes all;
        std::vector<std::shared_ptr<PReq>> batch;
        for (unsigned i = 0; i < n; ++i)
        {
            auto r = makeReq(p);
            batch.push_back(r);
            all.insert(all.end(), r->wire.begin(), r->wire.end());
        }
        unsigned const seg = pick<unsigned>(S_OPS, {0, 1, 2});
        if (seg == 0)
        {
            p.c.send(all);
        }
        else
        {
            Time const lim = now() + 3 * SEC;
            for (size_t i = 0; i < all.size() && p.c.connected();)
            {
                size_t m = std::min<size_t>(all.size() - i, seg == 1 ? 1 + draw(S_OPS, 9) : 1 + draw(S_OPS, 300));
                if (now() > lim)
                {
                    m = all.size() - i;
                }
                p.c.send(&all[i], m);
                i += m;
                if (draw(S_OPS, 2))
                {
                    sleepFor(static_cast<Time>(draw(S_OPS, 40)) * MS);
                }
            }
        }
        // wait for the answers
        Time const limit = now() + static_cast<Time>(n) * 6 * SEC + 5 * SEC;
        while (now() < limit && !p.over)
        {
            bool done = true;
            for (auto& r : batch)
            {
                done = done && r->seen && (r->got || (!r->answered && now() > r->seenAt + 9 * SEC) || (w->userFaults && now() > r->seenAt + 6 * SEC));
            }
            if (done)
            {
                break;
            }
            pump(p, std::min(limit, now() + 500 * MS));
        }
        if (p.over)
        {
            if (net.resetDen == 0 && !w->flood)
            {
                violation("P08,P09", "peer %d: the server closes the connection of a well-behaved client", p.id);
            }
            return;
        }
        for (auto& r : batch)
        {
            if (!r->seen)
            {
                violation("P08,P09", "peer %d: request transaction %u start %u never reaches the user", p.id, r->tid, r->start);
            }
            if (r->answered && !r->got)
            {
                violation("P08", "peer %d: the response to transaction %u start %u never arrives", p.id, r->tid, r->start);
            }
        }
        if (draw(S_OPS, 3) == 2)
        {
            sleepFor(static_cast<Time>(draw(S_OPS, 20)) * SEC);      // idle, below the inactivity limit
        }
    }
    if (draw(S_OPS, 3) == 2)
    {
        // stays connected and silent: the server drops it after its inactivity limit
        pump(p, now() + 50 * SEC);
        if (!p.over && !net.resetDen)
        {
            violation("P09", "peer %d: an inactive connection is still open after 50 s", p.id);
        }
        count("mbs_idle_dropped");
    }
    if (p.c.connected())
    {
        draw(S_OPS, 3) == 2 ? p.c.abort() : p.c.close();
    }
}

// A hostile or broken client.
void badPeer()
{
    auto pp = newPeer(false);
    Peer& p = *pp;
    p.everBad = true;
    if (!connectPeer(p))
    {
        return;         // no room: allowed for peers beyond the capacity
    }
    unsigned const steps = 1 + draw(S_OPS, 5);
    for (unsigned k = 0; k < steps && !p.over && p.c.connected(); ++k)
    {
        switch (draw(S_FAULT, 13))
        {
        case 11:
        case 12:
        {
            // a request that is right but for one thing
            countFault(F_PEER_GARBAGE);
            bool const wr = draw(S_OPS, 3) == 2;
            unsigned const n = 1 + draw(S_OPS, 4);
            Bytes pdu{static_cast<uint8_t>(wr ? 16 : 3 + draw(S_OPS, 2)), 0x7f, 0xf0, 0, static_cast<uint8_t>(n)};
            if (wr)
            {
                pdu.push_back(static_cast<uint8_t>(2 * n));
                pdu.resize(6 + 2 * n, 0x42);
            }
            unsigned addr = pick<unsigned>(S_OPS, {1, 0, 247});
            unsigned const what = draw(S_OPS, 7);
            if (what == 0)
            {
                addr = 248 + draw(S_OPS, 8);
            }
            else if (what == 1)
            {
                pdu[0] = pick<uint8_t>(S_OPS, {0, 7, 15, 22, 23, 0x2b, 0x80, 0x83, 0xff});
            }
            else if (what == 2)
            {
                if (wr)
                {
                    pdu[4] = static_cast<uint8_t>(n + 1 + draw(S_OPS, 3));
                    if (draw(S_OPS, 2))
                    {
                        pdu[3] = static_cast<uint8_t>(1u << draw(S_OPS, 8));
                        pdu[4] = static_cast<uint8_t>(n);
                    }
                }
                else
                {
                    unsigned const m = pick<unsigned>(S_OPS, {126, 127, 200, 256, 0x7fff, 0x8001, 0xffff});
                    pdu[3] = static_cast<uint8_t>(m >> 8);
                    pdu[4] = static_cast<uint8_t>(m);
                }
            }
            else if (what == 3)
            {
                pdu.resize(pdu.size() + 1 + draw(S_OPS, 4), 1);
            }
            else if (what == 4)
            {
                pdu.pop_back();
            }
            Bytes b = adu(0x7abc, addr, pdu);
            if (what == 5)
            {
                b[2 + draw(S_OPS, 2)] = static_cast<uint8_t>(1 + draw(S_OPS, 255));
            }
            if (what == 6)
            {
                b[4] = static_cast<uint8_t>(1u << draw(S_OPS, 8));      // the length: right but for its high part
            }
            p.c.send(b);
            count("mbs_one_defect");
            break;
        }
        case 0:
        {
            auto r = makeReq(p);
            p.c.send(r->wire);
            break;
        }
        case 1:
        {
            // abandoned in the middle of a request
            countFault(F_PEER_CLOSE);
            auto r = makeReq(p);
            r->partial = true;
            p.c.send(r->wire.data(), draw(S_OPS, static_cast<uint32_t>(r->wire.size())));
            draw(S_OPS, 2) ? p.c.abort() : p.c.close();
            p.over = true;
            break;
        }
        case 2:
        {
            countFault(F_PEER_GARBAGE);
            Bytes b(1 + draw(S_OPS, 600));
            for (auto& x : b)
            {
                x = static_cast<uint8_t>(draw(S_OPS, 256));
            }
            if (b.size() > 2)
            {
                b[2] |= 1;      // not Modbus
            }
            p.c.send(b);
            break;
        }
        case 3:
        {
            // wrong protocol, length or contents in a well-framed request
            countFault(F_PEER_GARBAGE);
            Bytes pdu{static_cast<uint8_t>(draw(S_OPS, 256))};
            for (unsigned i = 0, n = draw(S_OPS, 40); i < n; ++i)
            {
                pdu.push_back(static_cast<uint8_t>(draw(S_OPS, 256)));
            }
            Bytes b = adu(0x7abc, 255, pdu);
            p.c.send(b);
            break;
        }
        case 4:
        {
            countFault(F_PEER_GARBAGE);
            Bytes b = adu(1, 1, {3, 0, 0, 0, 1});
            b[4] = pick<uint8_t>(S_OPS, {1, 0x10, 0xff});
            b[5] = static_cast<uint8_t>(draw(S_OPS, 256));
            p.c.send(b);
            break;
        }
        case 5:
        {
            countFault(F_PEER_GARBAGE);
            Bytes b{0, 1, 0, 0, 0, static_cast<uint8_t>(draw(S_OPS, 5))};
            for (unsigned i = 0; i < b[5]; ++i)
            {
                b.push_back(0x7f);
            }
            p.c.send(b);
            break;
        }
        case 6:
            countFault(F_PEER_RESET);
            p.c.abort();
            p.over = true;
            break;
        case 7:
            p.c.shutdownWrite();
            countFault(F_PEER_CLOSE);
            pump(p, now() + static_cast<Time>(draw(S_OPS, 3)) * SEC);
            break;
        case 8:
        {
            // half a header and silence
            countFault(F_PEER_SILENT);
            Bytes b(draw(S_OPS, 7), 0);
            p.c.send(b);
            pump(p, now() + static_cast<Time>(draw(S_OPS, 60)) * SEC);
            break;
        }
        case 9:
        {
            // a write that is inconsistent in itself
            countFault(F_PEER_GARBAGE);
            unsigned const n = draw(S_OPS, 256);
            Bytes pdu{16, 0x7f, 0xff, 0, static_cast<uint8_t>(draw(S_OPS, 4)), static_cast<uint8_t>(n | 1)};
            pdu.resize(6 + draw(S_OPS, 240), 0xee);
            p.c.send(adu(0x7abd, 1, pdu));
            break;
        }
        default:
            countFault(F_PEER_SILENT);
            pump(p, now() + static_cast<Time>(draw(S_OPS, 70)) * SEC);
            break;
        }
        if (!p.over && draw(S_OPS, 2))
        {
            pump(p, now() + static_cast<Time>(draw(S_OPS, 4000)) * MS);
        }
    }
    if (!p.over && draw(S_OPS, 3))
    {
        p.c.connected() ? (draw(S_OPS, 2) ? p.c.abort() : p.c.close()) : (void)0;
    }
    else if (!p.over)
    {
        pump(p, now() + 100 * SEC);
        if (!p.over)
        {
            violation("P09", "peer %d: a connection that sends nothing valid is still open after 100 s", p.id);
        }
    }
    count("mbs_bad_peers");
}

// One short connection of many: the server reuses what it keeps per connection.
void shortPeer()
{
    // room for it: the server may keep what belongs to a gone client until the user answers or its time is up
    if (!waitUntil([] { return osStats().sockets < 20 && osStats().timers < w->timers0 + 20; }, now() + 60 * SEC))
    {
        violation("P09,P16", "connections of gone clients are still held 60 s later: %s", fdDump().c_str());
    }
    auto pp = newPeer(true);
    Peer& p = *pp;
    p.firstTid = (8 * static_cast<unsigned>(p.id)) & 0x7fff;       // an answer to a former client names another transaction
    if (!connectPeer(p))
    {
        violation("P09", "a client cannot connect to the server (connection %d)", p.id);
    }
    unsigned const how = pickw(S_OPS, {5, 3, 3, 2, 1, 1});
    if (how == 1)
    {
        // abandoned in the middle of a request
        countFault(F_PEER_CLOSE);
        auto r = makeReq(p);
        r->partial = true;
        p.c.send(r->wire.data(), 1 + draw(S_OPS, static_cast<uint32_t>(r->wire.size()) - 1));
        if (draw(S_OPS, 4))
        {
            sleepFor(static_cast<Time>(draw(S_OPS, 30)) * MS);
        }
    }
    else if (how == 2)
    {
        // abandoned while the user works on a request, or just before it gets there
        countFault(F_PEER_CLOSE);
        for (unsigned k = 0, n = 1 + draw(S_OPS, 3); k < n; ++k)
        {
            auto r = makeReq(p);
            p.c.send(r->wire);
        }
        if (draw(S_OPS, 4))
        {
            pump(p, now() + static_cast<Time>(draw(S_OPS, 30)) * MS);
        }
    }
    else if (how == 3)
    {
        sleepFor(static_cast<Time>(draw(S_OPS, 20)) * MS);
    }
    else if (how == 4)
    {
        countFault(F_PEER_GARBAGE);
        p.everBad = true;
        Bytes b(1 + draw(S_OPS, 300), static_cast<uint8_t>(draw(S_OPS, 256)));
        if (b.size() > 2)
        {
            b[2] |= 1;
        }
        p.c.send(b);
        pump(p, now() + static_cast<Time>(draw(S_OPS, 30)) * MS);
    }
    else
    {
        Bytes all;
        std::vector<std::shared_ptr<PReq>> batch;
        for (unsigned k = 0, n = 1 + draw(S_OPS, 3); k < n; ++k)
        {
            batch.push_back(makeReq(p));
            all.insert(all.end(), batch.back()->wire.begin(), batch.back()->wire.end());
        }
        p.c.send(all);
        Time const limit = now() + 25 * SEC;
        auto const served = [&] { return std::all_of(batch.begin(), batch.end(), [](auto& r) { return r->got != 0; }); };
        while (now() < limit && !p.over && !served())
        {
            pump(p, std::min(limit, now() + 200 * MS));
        }
        if (!served())
        {
            violation("P08,P09", "a well-behaved client is %s after %d connections", p.over ? "disconnected" : "not served", p.id);
        }
    }
    if (p.c.connected())
    {
        draw(S_OPS, 3) == 2 ? p.c.abort() : p.c.close();
    }
    p.over = true;
    count("mbs_short_connections");
}

void run(int mode, bool longer = false)
{
    if (longer)
    {
        longRun(4);
    }
    drawSched();
    drawLogs();
    drawClockJumps();
    W ww;
    w = &ww;
    w->faults = mode != 0;
    w->flood = mode == 2;
    drawNet(mode == 1);
    net.spikeMax = std::min<Time>(net.spikeMax, 10 * MS);
    ReactorManager mgr;
    App app(mgr, draw(S_CFG, 2));
    w->app = &app;
    app.onServerReq = onReq;
    w->nServers = mode == 3 ? 1 : 1 + draw(S_CFG, 2);
    std::vector<Cfg> cfg;
    for (unsigned s = 0; s < w->nServers; ++s)
    {
        uint16_t const port = static_cast<uint16_t>(pick<unsigned>(S_CFG, {12145, 502, 0x8081}) + s * 16);
        w->ports.push_back(port);
        cfg.push_back({true, s, port, 0x7f000001});
    }
    if (draw(S_CFG, 3) == 2)
    {
        enableFault(F_EPOLL_EINTR, 1, 8);
        enableFault(F_SPURIOUS_EVENT, 1, 50);
    }
    mgr.start();
    app.init(w->nServers, 1);
    app.config(cfg);
    if (!waitUntil([&] { return app.cfgRsps == 1; }, now() + 5 * SEC) || app.cfgIds[0].size() != cfg.size())
    {
        violation("P08,P09", "the configuration request is not answered");
    }
    int const timers0 = w->timers0 = osStats().timers;
    unsigned done = 0, total = 0;
    unsigned const nGood = mode >= 2 ? draw(S_CFG, 3) : 1 + draw(S_CFG, 4);
    unsigned const nBad = mode == 0 || mode == 3 ? 0 : mode == 1 ? 1 + draw(S_CFG, 10) : 20 + draw(S_CFG, 60);
    if (mode == 3)
    {
        unsigned const nShort = pick<unsigned>(S_CFG, {300, 280, 600}), workers = pick<unsigned>(S_CFG, {4, 1, 8});
        for (unsigned i = 0; i < workers; ++i)
        {
            ++total;
            spawn("short" + std::to_string(i), [nShort, workers, &done] {
                for (unsigned k = 0; k < nShort / workers; ++k)
                {
                    shortPeer();
                }
                ++done;
            });
        }
    }
    w->userFaults = mode == 1 && draw(S_CFG, 2);
    if (mode == 1 && draw(S_CFG, 3) == 2)
    {
        enableFault(F_READ_FAIL, 1, 100);
        enableFault(F_WRITE_FAIL, 1, 100);
        enableFault(F_ACCEPT_FAIL, 1, 10);
        enableFault(F_FCNTL_FAIL, 1, 10);
        enableFault(F_CLOSE_EINTR, 1, 10);
        enableFault(F_EPOLL_CTL_ADD, 1, 10);
        enableFault(F_TIMERFD_FAIL, 1, 10);
        net.resetDen = net.resetDen ? net.resetDen : 1000000;     // a good client may lose its connection
    }
    for (unsigned i = 0; i < nGood; ++i)
    {
        unsigned const rounds = longer ? 100 + draw(S_CFG, 200) : 1 + draw(S_CFG, 6);
        ++total;
        spawn("client" + std::to_string(i), [rounds, &done] {
            sleepFor(static_cast<Time>(draw(S_OPS, 500)) * MS);
            goodPeer(rounds);
            ++done;
        });
    }
    for (unsigned i = 0; i < nBad; ++i)
    {
        ++total;
        bool const burst = mode == 2 && draw(S_CFG, 2);
        spawn("bad" + std::to_string(i), [burst, &done] {
            sleepFor(static_cast<Time>(draw(S_OPS, burst ? 5 : 20000)) * MS);
            badPeer();
            ++done;
        });
    }
    if (!waitUntil([&] { return done == total; }, now() + (longer ? 30000 : 3000) * SEC))
    {
        harnessError("peers do not finish");
    }
    faultsOff();
    calmNet();
    net.resetDen = 0;
    w->userFaults = false;
    nontrivial();
    waitUntil([&] { return w->inDelay == 0; }, now() + 30 * SEC);
    // every connection and timer of a session is given back
    Time const t0 = now();
    if (!waitUntil([&] { return osStats().sockets == 0 && osStats().timers == timers0; }, now() + 60 * SEC))
    {
        violation("P09,P16", "connections or timers of gone clients are still held 60 s later: %s", fdDump().c_str());
    }
    if (osStats().badCloses)
    {
        violation("P09,P16", "%d closes of descriptors that were not open", osStats().badCloses);
    }
    // a fresh client is served on every server, as many at once as documented
    unsigned const fresh = 1 + draw(S_OPS, 2) * 30;
    std::vector<std::shared_ptr<Peer>> v;
    for (unsigned i = 0; i < fresh; ++i)
    {
        auto p = newPeer(true);
        p->server = i % w->nServers;
        if (!connectPeer(*p))
        {
            violation("P09", "a client cannot connect after the others are gone (%u open)", i);
        }
        v.push_back(p);
        auto r = makeReq(*p);
        p->c.send(r->wire);
    }
    Time const lim = now() + 15 * SEC;
    for (auto& p : v)
    {
        while (!p->over && now() < lim && !p->reqs[0]->got)
        {
            pump(*p, now() + 200 * MS);
        }
        if (!p->reqs[0]->got)
        {
            violation("P09", "a fresh client is not served after hostile and broken clients are gone (%u at once)", fresh);
        }
    }
    count("mbs_fresh_served", fresh);
    if (draw(S_OPS, 2))
    {
        // the servers are replaced while clients are connected and answers are outstanding
        for (auto& p : v)
        {
            if (draw(S_OPS, 2))
            {
                auto r = makeReq(*p);
                p->c.send(r->wire);
            }
        }
        if (draw(S_OPS, 2))
        {
            sleepFor(static_cast<Time>(draw(S_OPS, 100)) * pick<Time>(S_OPS, {100 * US, MS, 10 * MS}));
        }
        bool const release = draw(S_OPS, 2);
        if (release)
        {
            app.release();
            if (!waitUntil([&] { return app.relRsps == 1; }, now() + 5 * SEC))
            {
                violation("P09,P15", "the release request is not answered");
            }
            if (osStats().listeners || osStats().sockets || osStats().timers)
            {
                violation("P15,P16", "the Modbus servers are released, but descriptors are left: %s", fdDump().c_str());
            }
            app.init(w->nServers, 1);
        }
        app.config(cfg);
        if (!waitUntil([&] { return app.cfgRsps == 2; }, now() + 5 * SEC) || app.cfgIds[1].size() != cfg.size())
        {
            violation("P08,P09", "the configuration request is not answered");
        }
        for (bool ok : app.cfgOk[1])
        {
            if (!ok)
            {
                violation("P09,P15", "a Modbus server that was replaced cannot be configured again");
            }
        }
        if (osStats().sockets || osStats().timers != timers0 || osStats().listeners != static_cast<int>(w->nServers))
        {
            violation("P09,P16", "connections or timers of replaced servers are still held: %s", fdDump().c_str());
        }
        for (auto& p : v)
        {
            Time const until = now() + 5 * SEC;
            while (!p->over && now() < until)
            {
                pump(*p, now() + 200 * MS);
            }
            if (!p->over)
            {
                violation("P09,P15", "the connection of peer %d survives its server", p->id);
            }
        }
        for (unsigned i = 0; i < 2 * w->nServers; ++i)
        {
            auto p = newPeer(true);
            p->server = i % w->nServers;
            p->firstTid = 0x6000 + 64 * i;         // no answer that is still outstanding names it
            if (!connectPeer(*p))
            {
                violation("P09,P15", "a client cannot connect to a server that was configured again");
            }
            auto r = makeReq(*p);
            p->c.send(r->wire);
            Time const until = now() + 15 * SEC;
            while (!p->over && now() < until && !r->got)
            {
                pump(*p, now() + 200 * MS);
            }
            if (!r->got)
            {
                violation("P09,P15", "a client is not served by a server that was configured again");
            }
            if (draw(S_OPS, 2))
            {
                p->c.close();
            }
        }
        count("mbs_replaced");
    }
    finishRun();
}

Register r1("mbserver", "P08", [] { run(0); });
Register r5("mbserverlong", "P08,P09", [] { run(0, true); });
Register r2("mbserverfault", "P08,P09", [] { run(1); });
Register r4("mbserverchurn", "P08,P09,P16", [] { run(3); });
Register r3("mbserverflood", "P09,P08", [] { run(2); });

} // namespace
