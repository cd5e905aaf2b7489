// P05/P06/P07: the Modbus client between its user and devices that misbehave.
#include "mb.hpp"

using namespace mb;

namespace
{
enum Kind { OK_READ, OK_WRITE1, OK_COIL, OK_WRITEN, INVALID, BADCLIENT };

struct Req
{
    Item it;
    Kind kind;
    Bytes wire;                     // the exact request expected at the device (valid requests)
    uint64_t order = 0;
    Time sent = 0;
    unsigned ahead = 0;             // requests of the same client unanswered when it was sent
    unsigned seen = 0;              // times it reached the device
    unsigned answers = 0;
    bool strict = false;            // must succeed
    bool responded = false;         // the device sent a well-formed normal or error response for it
    Bytes expect;                   // what the user must see
    unsigned errCode = 0;
    bool success = false;
    bool forged = false;            // the device sent an answer before it was asked
    bool early = false;             // ... and the user got it before the request arrived there
    unsigned connsThen = 0;
};

struct Dev;
struct W
{
    App* app = nullptr;
    std::map<std::pair<unsigned, unsigned>, Req> reqs;      // (client, tid)
    std::vector<uint64_t> lastOkOrder;       // per client
    std::vector<unsigned> outstanding;
    std::vector<unsigned> conns;
    std::vector<Time> connSince;    // time since when the present connection is up (-1: none)
    unsigned total = 0;
    uint64_t order = 0;
    unsigned nextTid = 0;
    unsigned nClients = 0;
    bool faults = false;
    bool devFaults = false;
    bool reorg = false;             // clients were replaced while requests were waiting
    unsigned lateInFlight = 0;
    Time stallSlack = 0;
    unsigned tidHigh = 0;           // upper half of the transaction numbers, not visible to the devices
    std::vector<unsigned> ends;     // connections that ended, per device
    std::vector<std::vector<PeerConn>> open;
    std::vector<unsigned> weights;
};
W* w;

Req* find(unsigned c, unsigned t)
{
    auto i = w->reqs.find({c, t});
    return i == w->reqs.end() ? nullptr : &i->second;
}

Bytes expectedWire(Item const& it)
{
    Bytes p{it.func};
    be16(p, it.start);
    switch (it.func)
    {
    case 1: case 2: case 3: case 4:
        be16(p, it.numItems);
        break;
    case 6:
        p.push_back(it.data[1]);
        p.push_back(it.data[0]);
        break;
    case 5:
        p.push_back(it.data[0]);
        p.push_back(it.data[1]);
        break;
    default:
    {
        be16(p, it.numItems);
        p.push_back(static_cast<uint8_t>(it.data.size()));
        Bytes s = swapped(it.data);
        p.insert(p.end(), s.begin(), s.end());
        break;
    }
    }
    return adu(it.tid, it.addr, p);
}

void onRsp(app::MsgModbusClientAduRsp const& m)
{
    Req* r = find(m.clientId, m.transactId);
    trace("user gets response client %u tid %u status %d err %d bytes %u", m.clientId, m.transactId, (int)m.status, (int)m.error, m.numBytes);
    if (!r)
    {
        violation("P05,P06", "a response names client %u transaction %u that was never requested", m.clientId, m.transactId);
    }
    if (r->answers++)
    {
        violation("P05", "request client %u transaction %u is answered twice", m.clientId, m.transactId);
    }
    --w->total;
    if (r->kind != BADCLIENT)
    {
        --w->outstanding[m.clientId];
    }
    Time const bound = static_cast<Time>(r->ahead + 1) * (5 * SEC + 500 * MS) + 2 * SEC + w->stallSlack;
    if (now() - r->sent > bound)
    {
        violation("P05", "request client %u transaction %u answered only after %.1f s with %u requests before it", m.clientId, m.transactId,
                  double(now() - r->sent) / SEC, r->ahead);
    }
    count("mb_responses");
    if (m.status == app::MsgStatus::success)
    {
        if (r->kind == INVALID || r->kind == BADCLIENT)
        {
            violation("P05,P06", "an invalid request (client %u transaction %u) is reported as successful", m.clientId, m.transactId);
        }
        if (r->forged && !r->seen)
        {
            r->early = true;
        }
        if (!r->responded && !r->forged)
        {
            violation("P06", "request client %u transaction %u succeeds although the device never answered it", m.clientId, m.transactId);
        }
        Bytes got(m.data, m.data + m.numBytes);
        if (static_cast<unsigned>(m.error) != r->errCode)
        {
            violation("P06", "request client %u transaction %u: error code %u reported, the device answered %u", m.clientId, m.transactId,
                      static_cast<unsigned>(m.error), r->errCode);
        }
        if (got != r->expect)
        {
            violation("P06", "request client %u transaction %u returns %s (%zu bytes), the device answered %s (%zu bytes)", m.clientId, m.transactId,
                      hex(got).c_str(), got.size(), hex(r->expect).c_str(), r->expect.size());
        }
        if (r->order < w->lastOkOrder[m.clientId])
        {
            violation("P06", "request client %u transaction %u succeeds after a later one", m.clientId, m.transactId);
        }
        w->lastOkOrder[m.clientId] = r->order;
        r->success = true;
        count("mb_success");
    }
    else
    {
        if (m.numBytes)
        {
            violation("P06", "a failed request (client %u transaction %u) carries data", m.clientId, m.transactId);
        }
        if (r->strict)
        {
            violation(w->faults ? "P05,P07" : "P05,P06,P07", "request client %u transaction %u fails although device and network are healthy", m.clientId, m.transactId);
        }
        count("mb_errors");
    }
}

// ---- the device ------------------------------------------------------------------------------
enum Beh
{
    B_OK, B_DELAY, B_LATE, B_SILENT, B_DUP, B_WRONGTID, B_WRONGADDR, B_WRONGFUNC, B_EXC, B_CLOSEMID, B_RST, B_BADLEN, B_GARBAGE, B_STALE,
    B_SHORTLEN, B_ODD, B_PARTITION, B_SPLIT, B_CLOSEAFTER, B_HUGE, B_FUTURE, B_MISMATCH, B_WRONGEXC, B_NUM
};

Bytes response(Req& r, bool exc)
{
    Item const& it = r.it;
    r.responded = true;
    r.errCode = 0;
    r.expect.clear();
    Bytes p;
    if (exc)
    {
        r.errCode = pick<unsigned>(S_OPS, {1, 2, 3, 4, 6, 10, 11});
        p = {static_cast<uint8_t>(it.func | 0x80), static_cast<uint8_t>(r.errCode)};
        return adu(it.tid, it.addr, p);
    }
    switch (it.func)
    {
    case 3:
    case 4:
    {
        Bytes d;
        for (unsigned i = 0; i < it.numItems; ++i)
        {
            be16(d, word(it.client + 1, it.tid, it.start, i));
        }
        p = {it.func, static_cast<uint8_t>(d.size())};
        p.insert(p.end(), d.begin(), d.end());
        r.expect = swapped(d);
        break;
    }
    case 5:
    case 6:
        p.assign(r.wire.begin() + 7, r.wire.end());
        r.expect = it.data;
        break;
    default:
        p.assign(r.wire.begin() + 7, r.wire.begin() + 12);
        break;
    }
    return adu(it.tid, it.addr, p);
}

void later(PeerConn c, std::shared_ptr<bool> busy, Bytes b, Time d)
{
    ++w->lateInFlight;
    spawn("late", [c, busy, b, d]() mutable {
        sleepFor(d);
        waitUntil([busy, c] { return !*busy || !c.connected(); });       // never in the middle of another response
        if (c.connected())
        {
            c.send(b);
        }
        --w->lateInFlight;
    });
}

void serve(unsigned id, PeerConn c)
{
    Bytes lastRsp;
    uint64_t lastSeen = 0;
    auto busy = std::make_shared<bool>(false);
    for (;;)
    {
        Bytes h = c.recv(6, -1);
        if (h.size() < 6)
        {
            break;
        }
        unsigned const len = rd16(&h[4]);
        if (h[2] || h[3] || len < 2 || len + 6 > MAXADU)
        {
            violation("P06", "client %u sends a malformed request header %s", id, hex(h).c_str());
        }
        Bytes b = c.recv(len, -1);
        if (b.size() < len)
        {
            break;      // cut off by a reset or close
        }
        h.insert(h.end(), b.begin(), b.end());
        unsigned const tid = rd16(&h[0]);
        Req* r = find(id, tid | w->tidHigh);
        trace("device %u sees tid %u", id, tid);
        if (!r || r->kind == INVALID || r->kind == BADCLIENT)
        {
            violation("P06", "device %u receives a request nobody made: %s", id, hex(h).c_str());
        }
        if (h != r->wire)
        {
            violation("P06", "device %u receives %s (%zu bytes) for transaction %u, the user asked for %s (%zu bytes)", id, hex(h, 40).c_str(), h.size(),
                      tid, hex(r->wire, 40).c_str(), r->wire.size());
        }
        if (r->seen++)
        {
            violation("P05,P06", "transaction %u reaches device %u twice", tid, id);
        }
        if (r->answers && !w->faults && !w->reorg)
        {
            violation("P05,P06", "transaction %u reaches device %u after it was answered", tid, id);
        }
        // on one connection; what a slow network holds back on an abandoned one may arrive afterwards
        if (r->order < lastSeen)
        {
            violation("P06", "transaction %u reaches device %u after a later one", tid, id);
        }
        lastSeen = r->order;
        count("mb_requests_at_device");

        unsigned beh = B_OK;
        if (w->devFaults)
        {
            unsigned sum = 0;
            for (auto x : w->weights) sum += x;
            unsigned k = draw(S_FAULT, sum);
            while (k >= w->weights[beh])
            {
                k -= w->weights[beh++];
            }
        }
        else if (draw(S_OPS, 4) == 3)
        {
            beh = pick<unsigned>(S_OPS, {B_OK, B_DELAY, B_EXC, B_SPLIT});
        }
        if (r->forged)
        {
            beh = B_OK;
        }
        bool const readish = r->it.func == 3 || r->it.func == 4;
        trace("device %u behaviour %u for tid %u", id, beh, tid);
        switch (beh)
        {
        default:
        case B_OK:
            c.send(lastRsp = response(*r, false));
            break;
        case B_DELAY:
            sleepFor(static_cast<Time>(draw(S_OPS, w->devFaults ? 4500 : 2000)) * MS);
            c.send(lastRsp = response(*r, false));
            break;
        case B_LATE:
            countFault(F_PEER_LATE);
            later(c, busy, lastRsp = response(*r, false), 5 * SEC + static_cast<Time>(draw(S_OPS, 300)) * (draw(S_OPS, 2) ? 20 * MS : 1 * MS) - 100 * MS);
            break;
        case B_SILENT:
            countFault(F_PEER_SILENT);
            break;
        case B_DUP:
            countFault(F_PEER_DUP);
            lastRsp = response(*r, false);
            for (unsigned k = 0, n = 2 + draw(S_OPS, 3); k < n; ++k)
            {
                if (k && draw(S_OPS, 2))
                {
                    sleepFor(static_cast<Time>(draw(S_OPS, 30)) * MS);
                }
                c.send(lastRsp);
            }
            break;
        case B_WRONGTID:
        {
            countFault(F_PEER_GARBAGE);
            Bytes x = response(*r, false);
            Bytes y = x;
            y[0] ^= 0x80;       // never a transaction in use
            if (draw(S_OPS, 2))
            {
                r->responded = false;
                c.send(y);
            }
            else
            {
                c.send(y);
                c.send(lastRsp = x);
            }
            break;
        }
        case B_WRONGADDR:
        {
            countFault(F_PEER_GARBAGE);
            Bytes y = response(*r, false);
            r->responded = false;
            y[6] ^= static_cast<uint8_t>(1u << draw(S_OPS, 8));
            c.send(y);
            break;
        }
        case B_WRONGFUNC:
        {
            countFault(F_PEER_GARBAGE);
            Bytes y = response(*r, false);
            r->responded = false;
            y[7] = readish ? 7 - y[7] : pick<uint8_t>(S_OPS, {1, 2, 7, 0x2b});
            c.send(y);
            break;
        }
        case B_WRONGEXC:
        {
            countFault(F_PEER_GARBAGE);
            uint8_t x = static_cast<uint8_t>(0x80 | draw(S_OPS, 128));
            x = static_cast<uint8_t>(x == (r->it.func | 0x80) ? x ^ 1 : x);
            c.send(adu(tid, r->it.addr, {x, static_cast<uint8_t>(1 + draw(S_OPS, 4))}));
            break;
        }
        case B_MISMATCH:
        {
            // well-formed, but the answer to something else
            countFault(F_PEER_GARBAGE);
            Bytes y = response(*r, false);
            r->responded = false;
            if (readish)
            {
                unsigned n = draw(S_OPS, 126);
                n = n == r->it.numItems ? n ? n - 1 : 1 : n;
                Bytes p{r->it.func, static_cast<uint8_t>(2 * n)};
                for (unsigned k = 0; k < 2 * n; ++k)
                {
                    p.push_back(k + 9 < y.size() ? y[k + 9] : static_cast<uint8_t>(k));
                }
                y = adu(tid, r->it.addr, p);
            }
            else
            {
                y[8 + draw(S_OPS, 4)] ^= static_cast<uint8_t>(1 + draw(S_OPS, 255));
            }
            c.send(y);
            break;
        }
        case B_EXC:
            c.send(lastRsp = response(*r, true));
            break;
        case B_CLOSEMID:
        {
            countFault(F_PEER_CLOSE);
            Bytes y = response(*r, false);
            size_t n = draw(S_OPS, static_cast<uint32_t>(y.size()));
            if (n < y.size())
            {
                r->responded = false;
            }
            c.send(y.data(), n);
            c.close();
            break;
        }
        case B_CLOSEAFTER:
            countFault(F_PEER_CLOSE);
            c.send(lastRsp = response(*r, false));
            if (draw(S_OPS, 2))
            {
                sleepFor(static_cast<Time>(draw(S_OPS, 20)) * MS);
            }
            c.close();
            break;
        case B_RST:
        {
            countFault(F_PEER_RESET);
            Bytes y = response(*r, false);
            *busy = true;
            c.send(y.data(), draw(S_OPS, static_cast<uint32_t>(y.size() + 1)));
            if (draw(S_OPS, 2))
            {
                sleepFor(static_cast<Time>(draw(S_OPS, 20)) * MS);
            }
            c.abort();
            break;
        }
        case B_BADLEN:
        {
            countFault(F_PEER_GARBAGE);
            Bytes y = response(*r, false);
            r->responded = false;
            y[4] = pick<uint8_t>(S_OPS, {1, 0x7f, 0xff, 0x80, 0x10});
            y[5] = draw(S_OPS, 2) ? static_cast<uint8_t>(draw(S_OPS, 256)) : y[5];
            c.send(y);
            break;
        }
        case B_SHORTLEN:
        {
            countFault(F_PEER_GARBAGE);
            Bytes y = response(*r, false);
            r->responded = false;
            y[4] = 0;
            y[5] = static_cast<uint8_t>(draw(S_OPS, 5));
            y.resize(6 + y[5]);
            c.send(y);
            break;
        }
        case B_ODD:
        {
            // self-contradicting contents in a well-framed response
            countFault(F_PEER_GARBAGE);
            unsigned const claimed = draw(S_OPS, 2) ? 1 + 2 * draw(S_OPS, 60) : 2 * draw(S_OPS, 100);
            unsigned n = draw(S_OPS, 100);
            n += n == claimed;
            Bytes p{r->it.func, static_cast<uint8_t>(claimed)};
            for (unsigned k = 0; k < n; ++k)
            {
                p.push_back(static_cast<uint8_t>(draw(S_OPS, 256)));
            }
            if (!readish)
            {
                p.resize(4 + draw(S_OPS, 2) * 2, 0x11);
                p.resize(p.size() == 5 ? 6 : p.size(), 0);
            }
            c.send(adu(tid, r->it.addr, p));
            break;
        }
        case B_FUTURE:
        {
            // the device answers (or not), and then answers what it has not been asked yet
            countFault(F_PEER_GARBAGE);
            Bytes y;
            bool const silent = draw(S_OPS, 3) == 2;
            if (!silent)
            {
                y = lastRsp = response(*r, false);
            }
            Req* n = nullptr;
            for (auto& [k, x] : w->reqs)
            {
                if (k.first == id && x.kind < INVALID && !x.seen && !x.answers && x.order > r->order && (!n || x.order < n->order))
                {
                    n = &x;
                }
            }
            if (!n)
            {
                c.send(y);
                break;
            }
            Bytes f = response(*n, false);
            n->responded = false;
            n->forged = true;
            n->connsThen = w->ends[id];     // a connection that ends from here on may lose the request
            count("mb_forged");
            if (silent)
            {
                later(c, busy, f, 5 * SEC + static_cast<Time>(draw(S_OPS, 12)) * MS);
            }
            else if (draw(S_OPS, 2))
            {
                y.insert(y.end(), f.begin(), f.end());
                c.send(y);
            }
            else
            {
                c.send(y);
                later(c, busy, f, static_cast<Time>(draw(S_OPS, 12000)) * US);
            }
            break;
        }
        case B_GARBAGE:
        {
            countFault(F_PEER_GARBAGE);
            Bytes y(1 + draw(S_OPS, 700));
            for (auto& x : y)
            {
                x = static_cast<uint8_t>(draw(S_OPS, 256));
            }
            y[0] |= 0x80;
            c.send(y);
            break;
        }
        case B_HUGE:
        {
            countFault(F_PEER_GARBAGE);
            Bytes y = response(*r, false);
            Bytes z = adu(tid ^ 0x8000, r->it.addr, Bytes(253 - draw(S_OPS, 3), 0x33));
            c.send(z);
            c.send(lastRsp = y);
            break;
        }
        case B_STALE:
        {
            countFault(F_PEER_DUP);
            Bytes y = lastRsp;
            lastRsp = response(*r, false);
            if (!y.empty())
            {
                c.send(y);
            }
            c.send(lastRsp);
            break;
        }
        case B_PARTITION:
            countFault(F_NET_PARTITION);
            c.send(lastRsp = response(*r, false));
            c.partition(static_cast<Time>(1 + draw(S_OPS, 15)) * SEC);
            break;
        case B_SPLIT:
        {
            Bytes y = lastRsp = response(*r, false);
            *busy = true;
            Time const until = now() + 2 * SEC;
            for (size_t i = 0; i < y.size();)
            {
                size_t n = std::min<size_t>(y.size() - i, 1 + draw(S_OPS, 12));
                if (now() > until)
                {
                    n = y.size() - i;
                }
                c.send(&y[i], n);
                i += n;
                sleepFor(static_cast<Time>(draw(S_OPS, 20)) * MS);
            }
            *busy = false;
            break;
        }
        }
        // now and then the device says something nobody asked for
        if (w->devFaults && !lastRsp.empty() && draw(S_FAULT, 10) == 9)
        {
            countFault(F_PEER_DUP);
            later(c, busy, lastRsp, static_cast<Time>(draw(S_OPS, 100)) * MS);
        }
        if (w->devFaults && draw(S_FAULT, 25) == 24)
        {
            auto cc = c;
            spawn("dropper", [cc, id]() mutable {
                sleepFor(static_cast<Time>(draw(S_OPS, 200)) * MS);
                if (w->devFaults && cc.connected())
                {
                    bool const rst = draw(S_OPS, 2);
                    countFault(rst ? F_PEER_RESET : F_PEER_CLOSE);
                    ++w->ends[id];      // what is still on its way does not arrive any more
                    rst ? cc.abort() : cc.close();
                }
            });
        }
    }
    ++w->ends[id];
    if (c.connected())
    {
        c.close();
    }
}

void device(unsigned id, uint16_t port, uint32_t ip)
{
    PeerListener l(port, 10, ip);
    for (;;)
    {
        if (w->devFaults && draw(S_FAULT, 8) == 7)
        {
            countFault(F_PEER_REFUSED);
            l.close();
            Time const until = now() + static_cast<Time>(1 + draw(S_OPS, 5000)) * MS;
            waitUntil([&] { return !w->devFaults; }, until);
            l.reopen(port, 10, ip);
        }
        PeerConn c;
        if (!l.accept(c, -1))
        {
            continue;
        }
        ++w->conns[id];
        count("mb_device_connections");
        if (w->devFaults && draw(S_FAULT, 10) == 9)
        {
            countFault(F_PEER_CLOSE);
            c.close();
            continue;
        }
        spawn("serve", [id, c]() mutable {
            w->connSince[id] = now();
            w->open[id].push_back(c);
            serve(id, c);
        });
    }
}

// ---- the user --------------------------------------------------------------------------------
Req makeReq(unsigned client, bool valid)
{
    Req r;
    Item& it = r.it;
    it.client = client;
    it.tid = w->nextTid | w->tidHigh;
    w->nextTid = (w->nextTid + 1 + draw(S_OPS, 3)) & 0x7fff;     // the top bit stays free for forged ids
    it.addr = static_cast<uint16_t>(pick<unsigned>(S_OPS, {1, 17, 0, 247, 128}));
    it.start = static_cast<uint16_t>(pick<unsigned>(S_OPS, {0, 1, 100, 0x1234, 0xffff}));
    it.numItems = 0;
    if (client >= w->nClients)
    {
        r.kind = BADCLIENT;
        it.func = 3;
        it.numItems = 1;
        return r;
    }
    if (!valid)
    {
        r.kind = INVALID;
        switch (draw(S_OPS, 6))
        {
        case 0: it.func = 3; it.numItems = 126 + draw(S_OPS, 1000); break;
        case 1: it.func = 6; it.numItems = 1; it.data = {1, 2}; break;
        case 2: it.func = 16; it.numItems = 3; it.data = {1, 2}; break;
        case 3: it.func = 0x2b; break;
        case 4: it.func = 3; it.numItems = 1; it.addr = 248 + draw(S_OPS, 500); break;
        default: it.func = 6; it.data = {1, 2, 3, 4}; break;
        }
        return r;
    }
    switch (pickw(S_OPS, {5, 2, 1, 3}))
    {
    case 0:
        r.kind = OK_READ;
        it.func = draw(S_OPS, 2) ? 4 : 3;
        it.numItems = static_cast<uint16_t>(pick<unsigned>(S_OPS, {1, 2, 10, 60, 124, 125}));
        break;
    case 1:
        r.kind = OK_WRITE1;
        it.func = 6;
        it.data = {static_cast<uint8_t>(draw(S_OPS, 256)), static_cast<uint8_t>(draw(S_OPS, 256))};
        break;
    case 2:
        r.kind = OK_COIL;
        it.func = 5;
        it.data = {static_cast<uint8_t>(draw(S_OPS, 2) ? 0xff : 0), 0};
        break;
    default:
        r.kind = OK_WRITEN;
        it.func = 16;
        it.numItems = static_cast<uint16_t>(pick<unsigned>(S_OPS, {1, 2, 7, 50, 100, 123}));
        for (unsigned i = 0; i < it.numItems * 2u; ++i)
        {
            it.data.push_back(static_cast<uint8_t>(word(client, it.tid, i, 7)));
        }
        break;
    }
    r.wire = expectedWire(it);
    return r;
}

void submit(std::vector<Req> v)
{
    std::vector<Item> items;
    for (auto& r : v)
    {
        r.order = ++w->order;
        r.sent = now();
        r.ahead = r.kind == BADCLIENT ? 0 : w->outstanding[r.it.client]++;
        ++w->total;
        items.push_back(r.it);
        trace("user sends client %u tid %u func %u kind %d", r.it.client, r.it.tid, r.it.func, r.kind);
        w->reqs[{r.it.client, r.it.tid}] = r;
        count("mb_requests");
    }
    w->app->request(items);
}

bool allAnswered()
{
    return w->total == 0;
}

void awaitAnswers(const char* when)
{
    unsigned worst = 0;
    for (auto o : w->outstanding)
    {
        worst = std::max(worst, o);
    }
    if (!waitUntil(allAnswered, now() + static_cast<Time>(worst + 1) * (5 * SEC + 500 * MS) + 10 * SEC + w->stallSlack))
    {
        for (auto& [k, r] : w->reqs)
        {
            if (!r.answers)
            {
                violation("P05", "request client %u transaction %u is never answered (%s)", k.first, k.second, when);
            }
        }
    }
}

// Sends a configuration and checks its answer.
void configure(App& app, std::vector<Cfg> const& cfg, unsigned maxClients, unsigned maxServers)
{
    unsigned const before = app.cfgRsps;
    app.config(cfg);
    if (!waitUntil([&] { return app.cfgRsps > before; }, now() + 5 * SEC))
    {
        violation("P05", "the configuration request is not answered");
    }
    if (app.cfgIds.back().size() != cfg.size())
    {
        violation("P05", "the configuration is answered for %zu of %zu items", app.cfgIds.back().size(), cfg.size());
    }
    for (size_t i = 0; i < cfg.size(); ++i)
    {
        bool const valid = cfg[i].id < (cfg[i].server ? maxServers : maxClients);
        if (app.cfgIds.back()[i] != cfg[i].id)
        {
            violation("P05", "item %zu of the configuration is answered for id %u instead of %u", i, app.cfgIds.back()[i], cfg[i].id);
        }
        if (app.cfgOk.back()[i] != valid)
        {
            violation("P05", "the configuration of %s %u is reported as %s", cfg[i].server ? "server" : "client", cfg[i].id, valid ? "failed" : "successful");
        }
    }
}

// What the user can ask for while nothing is initialised is refused.
void uninitialised(App& app, std::vector<Cfg> const& cfg)
{
    if (draw(S_OPS, 2))
    {
        configure(app, cfg, 0, 0);
    }
    if (draw(S_OPS, 2))
    {
        unsigned const n = w->nClients;
        w->nClients = 0;
        submit({makeReq(draw(S_OPS, 2), true)});
        w->nClients = n;
        awaitAnswers("nothing is initialised");
    }
}

// Replaces clients (one by one, or all with a release or a new initialisation) while requests are waiting.
void reorganise(App& app, std::vector<Cfg> const& cfg)
{
    w->reorg = true;
    count("mb_reorganised");
    for (unsigned c = 0; c < w->nClients; ++c)
    {
        unsigned const n = draw(S_OPS, 60 / w->nClients / 2);
        std::vector<Req> v;
        size_t sz = 0;
        for (unsigned i = 0; i < n; ++i)
        {
            v.push_back(makeReq(c, true));
            sz += 32 + v.back().it.data.size();
            if (sz > 2500 || i + 1 == n)
            {
                submit(v);
                v.clear();
                sz = 0;
            }
        }
    }
    if (draw(S_OPS, 2))
    {
        sleepFor(static_cast<Time>(draw(S_OPS, 200)) * pick<Time>(S_OPS, {100 * US, MS, 5 * MS}));
    }
    auto const before = w->conns;
    std::vector<bool> replaced(w->nClients, true);
    switch (draw(S_OPS, 3))
    {
    case 0:
    {
        std::vector<Cfg> some;
        for (unsigned c = 0; c < w->nClients; ++c)
        {
            if (!(replaced[c] = draw(S_OPS, 2)))
            {
                continue;
            }
            some.push_back(cfg[c]);
        }
        if (draw(S_OPS, 2))
        {
            some.push_back({draw(S_OPS, 2) != 0, w->nClients + 1 + draw(S_OPS, 5), 77, 0x7f000001});      // there is no such client or server
        }
        configure(app, some, w->nClients, 1);
        break;
    }
    case 1:
    {
        unsigned const rel = app.relRsps;
        app.release();
        if (!waitUntil([&] { return app.relRsps == rel + 1; }, now() + 5 * SEC))
        {
            violation("P05,P15", "the release request is not answered");
        }
        if (!waitUntil(allAnswered, now() + 1 * SEC))
        {
            violation("P05", "requests that waited when the clients were released are not answered");
        }
        uninitialised(app, cfg);
    }
    [[fallthrough]];
    default:
    {
        unsigned const ini = app.initRsps;
        app.init(1, w->nClients);
        if (!waitUntil([&] { return app.initRsps == ini + 1; }, now() + 5 * SEC))
        {
            violation("P05", "the initialisation request is not answered");
        }
        configure(app, cfg, w->nClients, 1);
    }
    }
    awaitAnswers("after clients were replaced");
    for (unsigned c = 0; c < w->nClients; ++c)
    {
        if (replaced[c] && !waitUntil([&] { return w->conns[c] > before[c]; }, now() + 15 * SEC))
        {
            violation("P05,P07", "client %u does not connect after it was configured anew", c);
        }
    }
    sleepFor(2 * SEC);
    for (unsigned c = 0; c < w->nClients; ++c)
    {
        Req r = makeReq(c, true);
        r.strict = true;
        submit({r});
    }
    awaitAnswers("after clients were replaced and connected");
}

// More requests than a client keeps: those there is room for succeed, every one is answered.
void overload()
{
    unsigned const c = draw(S_OPS, w->nClients);
    sleepFor(8 * SEC);      // a client without connection refuses requests: let it connect
    unsigned const n = 64 + 1 + draw(S_OPS, 20);
    unsigned const per = pick<unsigned>(S_OPS, {20, 7, 30});
    std::vector<unsigned> tids;
    std::vector<Req> v;
    size_t sz = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        Req r = makeReq(c, true);
        r.strict = i < 64;
        tids.push_back(r.it.tid);
        sz += 32 + r.it.data.size();
        v.push_back(r);
        if (sz > 2500 || v.size() == per || i + 1 == n)
        {
            submit(v);
            v.clear();
            sz = 0;
        }
    }
    awaitAnswers("more requests than fit");
    for (unsigned i = 0; i < 3; ++i)
    {
        Req r = makeReq(c, true);
        r.strict = true;
        submit({r});
    }
    awaitAnswers("after more requests than fit");
    count("mb_overload");
}

void run(int mode, bool longer = false)
{
    if (longer)
    {
        longRun(4);
    }
    drawSched();
    drawLogs();
    drawClockJumps();
    W ww;
    w = &ww;
    w->faults = mode == 1;
    if (mode == 1)
    {
        drawNet(true);
    }
    else
    {
        drawNet(false);
        net.spikeMax = std::min<Time>(net.spikeMax, 10 * MS);    // a healthy network answers well within the time limits
    }
    w->stallSlack = 5 * SEC;
    ReactorManager mgr;
    App app(mgr, draw(S_CFG, 2));
    w->app = &app;
    app.onClientRsp = onRsp;
    w->nClients = 1 + draw(S_CFG, 3);
    w->nextTid = draw(S_CFG, 2) ? 0x7f00 : draw(S_CFG, 100);
    w->lastOkOrder.assign(w->nClients, 0);
    w->outstanding.assign(w->nClients, 0);
    w->conns.assign(w->nClients, 0);
    w->connSince.assign(w->nClients, -1);
    w->ends.assign(w->nClients, 0);
    w->open.resize(w->nClients);
    w->tidHigh = draw(S_CFG, 3) == 2 ? pick<unsigned>(S_CFG, {0x10000, 0x80000000, 0xffff0000, 0x12340000}) : 0;
    // swarm: a subset of device behaviours per run
    w->weights.assign(B_NUM, 0);
    w->weights[B_OK] = pick<unsigned>(S_CFG, {10, 30, 3});
    if (mode == 1)
    {
        bool const all = draw(S_CFG, 4) == 3;
        for (unsigned b = 1; b < B_NUM; ++b)
        {
            if (all || draw(S_CFG, 4) == 3)
            {
                w->weights[b] = 1 + draw(S_CFG, 4);
            }
        }
    }
    std::vector<Cfg> cfg;
    for (unsigned c = 0; c < w->nClients; ++c)
    {
        uint16_t const port = static_cast<uint16_t>(pick<unsigned>(S_CFG, {12145, 502, 0x8081}) + c * 16);
        uint32_t const ip = draw(S_CFG, 3) ? 0x7f000001 : 0x0a00c8fe + c;
        cfg.push_back({false, c, port, ip});
        spawn("device" + std::to_string(c), [c, port, ip] { device(c, port, ip); });
    }
    if (draw(S_CFG, 3) == 2)
    {
        enableFault(F_EPOLL_EINTR, 1, 8);
        enableFault(F_SPURIOUS_EVENT, 1, 50);
    }
    if (mode == 1 && draw(S_CFG, 3) == 2)
    {
        enableFault(F_CONNECT_BLACKHOLE, 1, 4);
    }
    mgr.start();
    uninitialised(app, cfg);
    app.init(1, w->nClients);
    if (!waitUntil([&] { return app.initRsps == 1; }, now() + 5 * SEC))
    {
        violation("P05", "the initialisation request is not answered");
    }
    if (draw(S_CFG, 3) == 2)
    {
        Req r = makeReq(0, true);        // not configured yet
        r.kind = BADCLIENT;
        submit({r});
        awaitAnswers("client not configured yet");
    }
    configure(app, cfg, w->nClients, 1);
    if (draw(S_CFG, 3) == 2)
    {
        submit({makeReq(0, true)});        // possibly before the connection is up
    }
    if (draw(S_CFG, 4))
    {
        // wait until every client is connected
        if (!waitUntil([&] {
                for (auto t : w->connSince)
                {
                    if (t < 0 || now() < t + 1 * SEC)
                    {
                        return false;
                    }
                }
                return true;
            }, now() + 30 * SEC))
        {
            if (mode == 0)
            {
                violation("P05,P07", "a configured client does not connect to its device");
            }
        }
    }
    else if (mode == 0)
    {
        sleepFor(static_cast<Time>(draw(S_OPS, 2000)) * MS);
    }
    bool upFirst = true;
    for (auto t : w->connSince)
    {
        upFirst = upFirst && t >= 0 && now() >= t + 1 * SEC;
    }
    w->devFaults = mode == 1;
    if (mode == 1)
    {
        if (draw(S_CFG, 4) == 3)
        {
            enableFault(F_READ_FAIL, 1, 60);
            enableFault(F_WRITE_FAIL, 1, 60);
        }
        if (draw(S_CFG, 4) == 3)
        {
            enableFault(F_SOCKET_EMFILE, 1, 3);
            enableFault(F_CONNECT_SYNC_FAIL, 1, 3);
            enableFault(F_EPOLL_CTL_ADD, 1, 4);
            enableFault(F_EPOLL_CTL_MOD, 1, 4);
        }
    }
    // traffic: one sending thread per client, so that the order of its requests is defined
    unsigned doneUsers = 0;
    unsigned const cap = 60 / w->nClients;
    for (unsigned c = 0; c < w->nClients; ++c)
    {
        unsigned const n = longer ? 260 + draw(S_CFG, 500) : pick<unsigned>(S_CFG, {4, 12, 30});
        unsigned const burst = pick<unsigned>(S_CFG, {1, 4, 15, 60});
        spawn("user" + std::to_string(c), [c, n, burst, cap, upFirst, &doneUsers] {
            for (unsigned i = 0; i < n;)
            {
                unsigned k = 1 + draw(S_OPS, burst);
                k = std::min(k, cap - 2 - std::min(cap - 2, w->outstanding[c]));
                std::vector<Req> v;
                size_t sz = 0;
                for (unsigned j = 0; j < k; ++j)
                {
                    unsigned const what = pickw(S_OPS, {14, 1, 1});
                    Req r = makeReq(what == 2 && w->total + v.size() < 60 ? w->nClients + draw(S_OPS, 3) : c, what != 1);
                    sz += 32 + r.it.data.size();
                    r.strict = !w->faults && upFirst && r.kind < INVALID;
                    v.push_back(r);
                    ++i;
                    if (sz > 2500 || draw(S_OPS, 2) == 0)
                    {
                        submit(v);
                        v.clear();
                        sz = 0;
                    }
                }
                if (!v.empty())
                {
                    submit(v);
                }
                if (draw(S_OPS, 2))
                {
                    waitUntil([c] { return w->outstanding[c] == 0; }, now() + static_cast<Time>(draw(S_OPS, 20)) * SEC);
                }
                else
                {
                    sleepFor(static_cast<Time>(1 + draw(S_OPS, 300)) * pick<Time>(S_OPS, {MS, 10 * MS, 50 * MS}));
                }
                if (w->outstanding[c] >= cap - 2)
                {
                    waitUntil([c] { return w->outstanding[c] == 0; }, now() + 600 * SEC);
                }
            }
            ++doneUsers;
        }, true);
    }
    if (!waitUntil([&] { return doneUsers == w->nClients; }, now() + (longer ? 80000 : 4000) * SEC))
    {
        violation("P05,P07", "the client stops answering");
    }
    awaitAnswers("after the traffic");
    // faults stop; what was sent late by a device may still arrive
    w->devFaults = false;
    faultsOff();
    calmNet();
    nontrivial();
    waitUntil([] { return w->lateInFlight == 0; }, now() + 60 * SEC);
    if (mode == 1)
    {
        Time const t0 = now();
        for (unsigned c = 0; c < w->nClients; ++c)
        {
            bool good = false;
            while (!good && now() < t0 + 60 * SEC)
            {
                Req r = makeReq(c, true);
                submit({r});
                unsigned const tid = r.it.tid;
                waitUntil([&] { return find(c, tid)->answers != 0; }, now() + 15 * SEC);
                if (!find(c, tid)->answers)
                {
                    violation("P05", "request client %u transaction %u is never answered (after the faults)", c, tid);
                }
                good = find(c, tid)->success;
                if (!good)
                {
                    sleepFor(1 * SEC);
                }
            }
            if (!good)
            {
                violation("P07", "client %u does not work again within 60 s after device and network recovered", c);
            }
            count("mb_recovered");
        }
        for (unsigned i = 0; i < 3; ++i)
        {
            for (unsigned c = 0; c < w->nClients; ++c)
            {
                Req r = makeReq(c, true);
                r.strict = true;
                submit({r});
            }
            if (draw(S_OPS, 2))
            {
                waitUntil(allAnswered, now() + 20 * SEC);
            }
        }
        awaitAnswers("after the recovery");
    }
    if (draw(S_OPS, 3) == 2)
    {
        // a device ends the connection while nothing is to be done: the client connects again by itself
        unsigned const c = draw(S_OPS, w->nClients);
        unsigned const before = w->conns[c];
        bool const rst = draw(S_OPS, 2);
        for (auto& x : w->open[c])
        {
            if (x.connected())
            {
                countFault(rst ? F_PEER_RESET : F_PEER_CLOSE);
                rst ? x.abort() : x.close();
            }
        }
        if (!waitUntil([&] { return w->conns[c] > before; }, now() + 15 * SEC))
        {
            violation("P07", "client %u does not connect again by itself after an idle connection was ended", c);
        }
        sleepFor(1 * SEC);
        Req r = makeReq(c, true);
        r.strict = true;
        submit({r});
        awaitAnswers("after an idle connection was ended");
        count("mb_idle_reconnect");
    }
    if (draw(S_OPS, 3) == 2)
    {
        overload();
    }
    if (draw(S_OPS, 2))
    {
        reorganise(app, cfg);
    }
    sleepFor(12 * SEC);     // no second answer trickles in
    for (auto& [k, r] : w->reqs)
    {
        if (r.early && !r.seen && w->ends[k.first] == r.connsThen)
        {
            violation("P06", "request client %u transaction %u succeeds although it was never sent to the device", k.first, k.second);
        }
    }
    finishRun();
}

Register r1("mbclient", "P05,P06", [] { run(0); });
Register r3("mbclientlong", "P05,P06", [] { run(0, true); });
Register r4("mbclientlongfault", "P05,P06,P07", [] { run(1, true); });
Register r2("mbclientfault", "P05,P06,P07", [] { run(1); });

} // namespace
