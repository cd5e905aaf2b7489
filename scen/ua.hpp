// Shared pieces of the OPC UA scenarios: the application's three OPC UA components with a harness user, and an
// independent OPC UA binary client.
#pragma once
#include <cstring>
#include <map>
#include <set>
#include "common.hpp"
#include "CompDefs.hpp"
#include "UaTransportComponent.hpp"
#include "UaTransport.hpp"
#include "UaSecureChannelComponent.hpp"
#include "UaSecureChannel.hpp"
#include "UaServiceComponent.hpp"
#include "UaService.hpp"
#include "MsgUaTransportInitReq.hpp"
#include "MsgUaTransportInitRsp.hpp"
#include "MsgUaTransportConfigReq.hpp"
#include "MsgUaTransportReleaseReq.hpp"
#include "MsgUaTransportReleaseRsp.hpp"
#include "MsgUaSecureChannelInitReq.hpp"
#include "MsgUaSecureChannelInitRsp.hpp"
#include "MsgUaSecureChannelConfigReq.hpp"
#include "MsgUaSecureChannelReleaseReq.hpp"
#include "MsgUaSecureChannelReleaseRsp.hpp"
#include "MsgUaServiceInitReq.hpp"
#include "MsgUaServiceInitRsp.hpp"
#include "MsgUaServiceConfigReq.hpp"
#include "MsgUaServiceReleaseReq.hpp"
#include "MsgUaServiceReleaseRsp.hpp"

namespace uac
{
using namespace scen;
using namespace app::reactor;
using Bytes = std::vector<uint8_t>;

// ---- encoding ---------------------------------------------------------------------------------
struct Enc
{
    Bytes b;
    Enc& u8(unsigned v) { b.push_back(static_cast<uint8_t>(v)); return *this; }
    Enc& u16(unsigned v) { return u8(v).u8(v >> 8); }
    Enc& u32(uint32_t v) { return u16(v).u16(v >> 16); }
    Enc& u64(uint64_t v) { return u32(static_cast<uint32_t>(v)).u32(static_cast<uint32_t>(v >> 32)); }
    Enc& f64(double v) { uint64_t x; memcpy(&x, &v, 8); return u64(x); }
    Enc& str(std::string const& s)
    {
        u32(static_cast<uint32_t>(s.size()));
        b.insert(b.end(), s.begin(), s.end());
        return *this;
    }
    Enc& null() { return u32(0xffffffffu); }
    Enc& raw(Bytes const& x) { b.insert(b.end(), x.begin(), x.end()); return *this; }
    // a string that is sometimes null, empty or long
    Enc& anyStr(unsigned maxLen = 60)
    {
        switch (draw(S_OPS, 4))
        {
        case 0: return null();
        case 1: return u32(0);
        default:
        {
            std::string s(1 + draw(S_OPS, maxLen), 'a');
            for (auto& c : s)
            {
                c = static_cast<char>(draw(S_OPS, 256));
            }
            return str(s);
        }
        }
    }
    Enc& anyStrs(unsigned max = 3)
    {
        unsigned const n = draw(S_OPS, max + 2);
        if (n == max + 1)
        {
            return null();
        }
        u32(n);
        for (unsigned i = 0; i < n; ++i)
        {
            anyStr(20);
        }
        return *this;
    }
    Enc& nodeNum(uint32_t id, unsigned ns = 0)
    {
        if (ns == 0 && id < 256 && draw(S_OPS, 2))
        {
            return u8(0).u8(id);
        }
        if (ns < 256 && id < 65536 && draw(S_OPS, 4))
        {
            return u8(1).u8(ns).u16(id);
        }
        return u8(2).u16(ns).u32(id);
    }
    Enc& anyNode()
    {
        switch (draw(S_OPS, 4))
        {
        case 0: return nodeNum(draw(S_OPS, 70000), draw(S_OPS, 3));
        case 1: u8(3).u16(draw(S_OPS, 5)); return anyStr(30);
        case 2: u8(4).u16(draw(S_OPS, 5)); return u64(draw(S_OPS, 1u << 30)).u64(draw(S_OPS, 1u << 30));
        default: u8(5).u16(draw(S_OPS, 5)); return anyStr(30);
        }
    }
    Enc& reqHdr(uint32_t token, uint32_t handle)
    {
        nodeNum(token);
        u64(draw(S_OPS, 4) ? draw(S_OPS, 1u << 30) : 0xfedcba9876543210ull >> draw(S_OPS, 8)).u32(handle);
        u32(draw(S_OPS, 4) ? 0 : draw(S_OPS, 0x400));
        anyStr(10);
        u32(draw(S_OPS, 4) ? draw(S_OPS, 10000) : 0xffffffffu - draw(S_OPS, 2));
        if (draw(S_OPS, 8) == 7)
        {
            // an additional header nobody knows
            nodeNum(draw(S_OPS, 70000), draw(S_OPS, 3));
            unsigned const how = draw(S_OPS, 3);
            u8(how);
            if (how)
            {
                Bytes x(draw(S_OPS, 20), static_cast<uint8_t>(draw(S_OPS, 256)));
                u32(static_cast<uint32_t>(x.size())).raw(x);
            }
            return *this;
        }
        return u8(0).u8(0).u8(0);       // no additional header
    }
};

struct DecErr
{
};
struct Dec
{
    Bytes const& b;
    size_t p = 0;
    explicit Dec(Bytes const& x, size_t at = 0) : b(x), p(at) {}
    uint8_t u8()
    {
        if (p >= b.size())
        {
            throw DecErr{};
        }
        return b[p++];
    }
    uint16_t u16() { uint16_t a = u8(); return static_cast<uint16_t>(a | u8() << 8); }
    uint32_t u32() { uint32_t a = u16(); return a | static_cast<uint32_t>(u16()) << 16; }
    uint64_t u64() { uint64_t a = u32(); return a | static_cast<uint64_t>(u32()) << 32; }
    double f64() { uint64_t x = u64(); double d; memcpy(&d, &x, 8); return d; }
    std::string str()
    {
        int32_t n = static_cast<int32_t>(u32());
        std::string s;
        for (int32_t i = 0; i < n; ++i)
        {
            s.push_back(static_cast<char>(u8()));
        }
        return s;
    }
    // numeric node ids only (what the server issues); others are skipped and give false
    bool node(uint32_t& id, unsigned* ns = nullptr)
    {
        unsigned n = 0;
        bool num = true;
        uint8_t const e = u8();
        switch (e & 0x3f)
        {
        case 0: id = u8(); break;
        case 1: n = u8(); id = u16(); break;
        case 2: n = u16(); id = u32(); break;
        case 3:
        case 5: n = u16(); str(); num = false; break;
        case 4: n = u16(); u64(); u64(); num = false; break;
        default: throw DecErr{};
        }
        if (ns)
        {
            *ns = n;
        }
        return num;
    }
    void ext()
    {
        uint32_t i;
        node(i);
        if (u8())
        {
            str();
        }
    }
    void diag()
    {
        uint8_t m = u8();
        for (unsigned k = 0; k < 4; ++k)
        {
            if (m & (1 << k))
            {
                u32();
            }
        }
        if (m & 0x10) str();
        if (m & 0x20) u32();
        if (m & 0x40) diag();
    }
};

enum : unsigned
{
    GETENDP = 428, GETENDP_R = 431, OPN_ = 446, OPN_R = 449, CLO_ = 452, CLO_R = 455, CREATE = 461, CREATE_R = 464,
    ACTIVATE = 467, ACTIVATE_R = 470, CLOSES = 473, CLOSES_R = 476, READ = 631, READ_R = 634, FAULT_R = 397
};

inline Bytes frame(char const* type, char chunk, Bytes const& body, int64_t size = -1)
{
    Enc e;
    for (int i = 0; i < 3; ++i)
    {
        e.u8(static_cast<uint8_t>(type[i]));
    }
    e.u8(static_cast<uint8_t>(chunk));
    e.u32(static_cast<uint32_t>(size < 0 ? static_cast<int64_t>(body.size()) + 8 : size));
    e.raw(body);
    return e.b;
}

inline Bytes helloMsg()
{
    Enc e;
    e.u32(0).u32(pick<uint32_t>(S_OPS, {65536, 8192, 0xffffffffu})).u32(pick<uint32_t>(S_OPS, {65536, 8192})).u32(0).u32(0);
    e.anyStr(pick<unsigned>(S_OPS, {200, 200, 200, 3900}));
    return frame("HEL", 'F', e.b);
}

inline Bytes getEndpointsBody(uint32_t token, uint32_t handle)
{
    Enc e;
    e.nodeNum(GETENDP).reqHdr(token, handle);
    e.anyStr(pick<unsigned>(S_OPS, {60, 60, 60, 1500})).anyStrs().anyStrs(pick<unsigned>(S_OPS, {3, 3, 60}));
    return e.b;
}
inline Bytes createBody(uint32_t handle, double timeout)
{
    Enc e;
    e.nodeNum(CREATE).reqHdr(0, handle);
    e.anyStr().anyStr();                                    // application description
    unsigned const m = draw(S_OPS, 4);
    e.u8(m);
    if (m & 1) e.str("en");
    if (m & 2) e.str("name");
    e.u32(draw(S_OPS, 4));
    e.anyStr().anyStr().anyStrs();
    e.anyStr().anyStr(100).anyStr();                          // server uri, endpoint url, session name
    e.anyStr(32).anyStr(pick<unsigned>(S_OPS, {20, 20, 1500})); // nonce, certificate
    e.f64(timeout).u32(draw(S_OPS, 1u << 20));
    return e.b;
}
inline Bytes activateBody(uint32_t token, uint32_t handle)
{
    Enc e;
    e.nodeNum(ACTIVATE).reqHdr(token, handle);
    e.anyStr().anyStr();
    draw(S_OPS, 2) ? e.null() : e.u32(0);
    e.anyStrs();
    if (draw(S_OPS, 2))
    {
        e.u8(0).u8(0).u8(0);
    }
    else
    {
        Enc t;
        t.str("anonymous");
        e.u8(1).u8(0).u16(321).u8(1).u32(static_cast<uint32_t>(t.b.size())).raw(t.b);
    }
    e.anyStr().anyStr();
    return e.b;
}
inline Bytes closeBody(uint32_t token, uint32_t handle)
{
    Enc e;
    e.nodeNum(CLOSES).reqHdr(token, handle).u8(draw(S_OPS, 2));
    return e.b;
}
inline Bytes readBody(uint32_t token, uint32_t handle, unsigned nodes)
{
    Enc e;
    e.nodeNum(READ).reqHdr(token, handle).f64(pick<double>(S_OPS, {0, 1e300, -5, 100.5})).u32(draw(S_OPS, 4));
    if (nodes == 0 && draw(S_OPS, 2))
    {
        e.null();
        return e.b;
    }
    e.u32(nodes);
    for (unsigned i = 0; i < nodes; ++i)
    {
        e.anyNode().u32(1 + draw(S_OPS, 22)).anyStr(10).u16(draw(S_OPS, 4) ? 0 : draw(S_OPS, 65536)).anyStr(10);
    }
    return e.b;
}
// a read whose message has exactly the given size
inline Bytes sizedReadBody(uint32_t token, uint32_t handle, size_t msgSize)
{
    Enc e;
    e.nodeNum(READ).reqHdr(token, handle).f64(0).u32(0).u32(1);
    e.u8(3).u16(1);
    size_t const rest = 24 + e.b.size() + 4 + 4 + 4 + 2 + 4;
    e.str(std::string(msgSize > rest ? msgSize - rest : 0, 'n')).u32(13).null().u16(0).null();
    return e.b;
}
inline Bytes opnBody(uint32_t seq, uint32_t reqId, uint32_t handle, uint32_t lifetime)
{
    Enc e;
    e.str("http://opcfoundation.org/UA/SecurityPolicy#None");
    draw(S_OPS, 4) ? e.null().null() : e.u32(0).u32(0);
    e.u32(seq).u32(reqId).nodeNum(OPN_).reqHdr(0, handle);
    e.u32(0).u32(0).u32(1);
    e.anyStr(32).u32(lifetime);
    return e.b;
}

// ---- the application ------------------------------------------------------------------------
struct UaApp
{
    ReactorManager& mgr;
    unsigned initRsps = 0, relRsps = 0;
    Reactor* user = nullptr;

    // layout: which event loop hosts transport, secure channel, service and the user
    UaApp(ReactorManager& m, std::array<unsigned, 4> const& layout) : mgr(m)
    {
        std::map<unsigned, std::unique_ptr<Reactor>> rs;
        for (unsigned x : layout)
        {
            if (!rs[x])
            {
                rs[x] = std::make_unique<Reactor>(Reactor::Init{x, 1, 0});
            }
        }
        mgr.addComponent(std::make_unique<app::ua::transport::UaTransportComponent>(mgr, *rs[layout[0]]));
        mgr.addComponent(std::make_unique<app::ua::securechannel::UaSecureChannelComponent>(mgr, *rs[layout[1]]));
        mgr.addComponent(std::make_unique<app::ua::service::UaServiceComponent>(mgr, *rs[layout[2]]));
        mgr.addComponent(std::make_unique<Comp<app::CompIds::compController>>(mgr, *rs[layout[3]]));
        user = rs[layout[3]].get();
        for (auto& r : rs)
        {
            mgr.addReactor(std::move(r.second));
        }
        auto ini = [this](MsgInterface const&) { ++initRsps; };
        user->registerHandler(app::MsgUaTransportInitRsp::msgId(), ini);
        user->registerHandler(app::MsgUaSecureChannelInitRsp::msgId(), ini);
        user->registerHandler(app::MsgUaServiceInitRsp::msgId(), ini);
        auto rel = [this](MsgInterface const&) { ++relRsps; };
        user->registerHandler(app::MsgUaTransportReleaseRsp::msgId(), rel);
        user->registerHandler(app::MsgUaSecureChannelReleaseRsp::msgId(), rel);
        user->registerHandler(app::MsgUaServiceReleaseRsp::msgId(), rel);
    }
    bool init(Time limit = 5 * SEC)
    {
        initRsps = 0;
        mgr.send(app::MsgUaSecureChannelInitReq{});
        mgr.send(app::MsgUaTransportInitReq{});
        mgr.send(app::MsgUaServiceInitReq{});
        return waitUntil([this] { return initRsps == 3; }, now() + limit);
    }
    void config(uint16_t port)
    {
        mgr.send(app::MsgUaSecureChannelConfigReq{});
        mgr.send(app::MsgUaServiceConfigReq{});
        app::MsgUaTransportConfigReq m;
        m.addr = addr4(port, 0x7f000001);
        mgr.send(m);
    }
    bool release(Time limit = 5 * SEC)
    {
        relRsps = 0;
        mgr.send(app::MsgUaTransportReleaseReq{});
        mgr.send(app::MsgUaSecureChannelReleaseReq{});
        mgr.send(app::MsgUaServiceReleaseReq{});
        return waitUntil([this] { return relRsps == 3; }, now() + limit);
    }
};

inline std::string hex(Bytes const& b, size_t max = 32)
{
    std::string s;
    char t[4];
    for (size_t i = 0; i < b.size() && i < max; ++i)
    {
        snprintf(t, sizeof t, "%02x", b[i]);
        s += t;
    }
    return b.size() > max ? s + ".." : s;
}

// ---- a client -----------------------------------------------------------------------------
struct Pend
{
    uint32_t reqId, handle;
    unsigned type, expect;      // service, response
    bool mustNot;               // the server has to refuse it
    const char* tag;            // property an acceptance would break
    Time sentAt;
    int64_t wallAt;
    unsigned got = 0;
    bool refused = false;
    uint32_t token = 0;         // CreateSession: the token it returned
    double revised = 0;
    double requested = 0;
};
using PendPtr = std::shared_ptr<Pend>;

// Channel ids that are open at this moment, by the clients' knowledge (shared by all clients of a run).
struct Shared
{
    std::map<uint32_t, int> channels;       // channel id -> client
    std::map<int, struct Client*> clients;  // connected clients
    std::map<uint32_t, int> tokens;         // live session tokens -> client
    std::vector<std::tuple<uint32_t, uint32_t, uint32_t>> ended;    // channel, token, next sequence number of gone clients
    unsigned nextClient = 0;
    uint32_t nextHandle = pick<uint32_t>(S_CFG, {1, 0xfd, 0xfffd, 0x7ffffffdu, 0xffff0000u});
    bool wallStable = true;                 // no clock jumps in this run
};

inline int64_t wallDateTime() { return wallNow() / 100 + 116444736000000000ll; }

struct Client
{
    Shared& sh;
    int id;
    PeerConn c;
    Bytes rx;
    bool helloSent = false, acked = false;
    bool opnSent = false, chan = false, cloSent = false;
    bool bad = false;               // has sent something the server must refuse: it may be disconnected
    bool over = false;              // no longer connected
    uint32_t chanId = 0, tokenId = 0;
    uint32_t seqTx = 0, reqId = 0;
    bool seqKnown = false;
    uint32_t seqRx = 0;
    std::map<uint32_t, PendPtr> pend;
    unsigned seg = 0;
    bool errSeen = false;
    explicit Client(Shared& s) : sh(s), id(static_cast<int>(s.nextClient++))
    {
        seqTx = pick<uint32_t>(S_OPS, {1, 0, 51, 0xfffffffdu, 0xfd, 0xfffd, 0x7ffffffdu});
        reqId = pick<uint32_t>(S_OPS, {1, 0, 1000, 0xfffffffeu, 0xfd, 0xfffd, 0x7ffffffdu});
        seg = draw(S_OPS, 4);
        sh.clients[id] = this;
    }
    ~Client()
    {
        leave();
        sh.clients.erase(id);
    }
    void leave()
    {
        for (auto it = sh.channels.begin(); it != sh.channels.end();)
        {
            it = it->second == id ? sh.channels.erase(it) : std::next(it);
        }
    }
    void send(Bytes const& b)
    {
        if (!c.connected())
        {
            return;
        }
        if (seg == 0 || seg == 3)
        {
            c.send(b);
            return;
        }
        Time const lim = now() + 2 * SEC;
        for (size_t i = 0; i < b.size() && c.connected();)
        {
            size_t n = std::min<size_t>(b.size() - i, seg == 1 ? 1 + draw(S_OPS, 9) : 1 + draw(S_OPS, 300));
            if (now() > lim)
            {
                n = b.size() - i;
            }
            c.send(&b[i], n);
            i += n;
            if (draw(S_OPS, 2))
            {
                sleepFor(static_cast<Time>(draw(S_OPS, 20)) * MS);
            }
        }
    }
    bool connect(uint16_t port, Time limit = 10 * SEC) { return peerConnect(c, port, now() + limit); }

    PendPtr expect(unsigned type, unsigned rsp, uint32_t handle)
    {
        auto p = std::make_shared<Pend>();
        p->reqId = ++reqId;
        p->handle = handle;
        p->type = type;
        p->expect = rsp;
        p->mustNot = false;
        p->tag = "P13";
        p->sentAt = now();
        p->wallAt = wallDateTime();
        pend[p->reqId] = p;
        return p;
    }
    Bytes opnWire(PendPtr& p, uint32_t lifetime = 3600000)
    {
        uint32_t const h = sh.nextHandle++;
        p = expect(OPN_, OPN_R, h);
        opnSent = true;
        Enc e;
        e.u32(0).raw(opnBody(++seqTx, p->reqId, h, lifetime));
        return frame("OPN", 'F', e.b);
    }
    // a MSG frame with explicit channel, token and sequence number
    Bytes msgWire(PendPtr const& p, Bytes const& body, uint32_t ch, uint32_t tok, uint32_t seq, const char* t = "MSG")
    {
        Enc e;
        e.u32(ch).u32(tok).u32(seq).u32(p->reqId).raw(body);
        return frame(t, 'F', e.b);
    }
    Bytes msgWire(PendPtr const& p, Bytes const& body) { return msgWire(p, body, chanId, tokenId, ++seqTx); }

    void process()
    {
        Bytes b = c.takeAll();
        rx.insert(rx.end(), b.begin(), b.end());
        while (rx.size() >= 8)
        {
            uint32_t const size = rx[4] | rx[5] << 8 | rx[6] << 16 | static_cast<uint32_t>(rx[7]) << 24;
            if (size < 8 || size > 65536)
            {
                violation("P10", "client %d receives a message of size %u: %s", id, size, hex(rx).c_str());
            }
            if (rx.size() < size)
            {
                return;
            }
            Bytes f(rx.begin(), rx.begin() + size);
            rx.erase(rx.begin(), rx.begin() + size);
            try
            {
                onFrame(f);
            }
            catch (DecErr const&)
            {
                violation("P10,P13", "client %d receives a message that ends in the middle of a field: %s", id, hex(f, 64).c_str());
            }
        }
    }
    void onFrame(Bytes const& f)
    {
        std::string const t(f.begin(), f.begin() + 3);
        trace("client %d gets %s %zu bytes", id, t.c_str(), f.size());
        if (t == "ERR")
        {
            errSeen = true;
            return;
        }
        if (t == "ACK")
        {
            if (!helloSent || acked)
            {
                violation("P10", "client %d receives an acknowledge %s", id, acked ? "twice" : "without a hello");
            }
            Dec d(f, 8);
            uint32_t const ver = d.u32(), rbuf = d.u32(), sbuf = d.u32();
            d.u32();
            d.u32();
            if (ver != 0 || rbuf < 8192 || sbuf < 8192 || d.p != f.size())
            {
                violation("P10", "client %d receives a malformed acknowledge: %s", id, hex(f, 40).c_str());
            }
            acked = true;
            return;
        }
        if (!acked)
        {
            violation("P10", "client %d receives %s before the acknowledge", id, t.c_str());
        }
        Dec d(f, 8);
        uint32_t const ch = d.u32();
        if (t == "OPN")
        {
            d.str();
            d.str();
            d.str();
        }
        else if (t == "MSG" || t == "CLO")
        {
            if (!chan || ch != chanId)
            {
                violation("P11", "client %d receives %s on channel %u, its channel is %u", id, t.c_str(), ch, chan ? chanId : 0);
            }
            uint32_t const tok = d.u32();
            if (tok != tokenId)
            {
                violation("P11", "client %d receives %s with token %u, its token is %u", id, t.c_str(), tok, tokenId);
            }
        }
        else
        {
            violation("P10", "client %d receives a message of unknown type: %s", id, hex(f).c_str());
        }
        uint32_t const seq = d.u32(), rid = d.u32();
        if (t != "OPN")
        {
            if (seqKnown && seq != seqRx + 1)
            {
                violation("P11", "client %d: sequence number %u follows %u", id, seq, seqRx);
            }
        }
        auto it = pend.find(rid);
        if (it == pend.end())
        {
            violation("P13,P11", "client %d receives a response to request id %u, which it did not send", id, rid);
        }
        auto p = it->second;
        uint32_t type = 0;
        unsigned ns = 0;
        if (!d.node(type, &ns) || ns)
        {
            violation("P13", "client %d: response with a malformed type", id);
        }
        uint64_t const ts = d.u64();
        uint32_t const handle = d.u32(), result = d.u32();
        d.diag();
        int32_t const nstr = static_cast<int32_t>(d.u32());
        for (int32_t i = 0; i < nstr; ++i)
        {
            d.str();
        }
        d.ext();
        bool const good = !(result & 0x80000000u) && type != FAULT_R;
        if (p->got++ || p->refused)
        {
            violation("P13", "client %d receives a second response to request id %u (service %u)", id, rid, p->type);
        }
        if (handle != p->handle)
        {
            violation("P13", "client %d: response to request id %u carries handle %u instead of %u", id, rid, handle, p->handle);
        }
        bool const opn = t == "OPN";
        if (opn != (p->type == OPN_) || (t == "CLO") != (p->type == CLO_) || (good && type != p->expect))
        {
            violation("P13", "client %d: service %u (request id %u) is answered by %s type %u", id, p->type, rid, t.c_str(), type);
        }
        if (sh.wallStable && (static_cast<int64_t>(ts) < p->wallAt - 10000 || static_cast<int64_t>(ts) > wallDateTime() + 10000))
        {
            violation("P13", "client %d: response to request id %u is stamped %lld, the request was sent at %lld and it is %lld now", id, rid,
                      static_cast<long long>(ts), static_cast<long long>(p->wallAt), static_cast<long long>(wallDateTime()));
        }
        if (good && p->mustNot)
        {
            violation(p->tag, "client %d: a request that must be refused is carried out (service %u)", id, p->type);
        }
        if (!good)
        {
            if (!p->mustNot)
            {
                bool const sess = p->type == CREATE || p->type == ACTIVATE || p->type == READ || p->type == CLOSES;
                violation(sess ? "P12,P13" : "P11,P13", "client %d: valid request (service %u) is refused with 0x%08x", id, p->type, result);
            }
            p->refused = true;
            return;
        }
        if (opn)
        {
            d.u32();
            uint32_t const ch2 = d.u32(), tok = d.u32();
            d.u64();
            d.u32();
            d.str();
            if (ch2 != ch || ch == 0)
            {
                violation("P11", "client %d: channel %u is announced as %u", id, ch, ch2);
            }
            auto const mine = sh.channels.find(chanId);
            if (chan && chanId != ch && mine != sh.channels.end() && mine->second == id)
            {
                sh.channels.erase(mine);
            }
            auto o = sh.channels.find(ch);
            auto const oc = o == sh.channels.end() ? sh.clients.end() : sh.clients.find(o->second);
            // (the server may be about to disconnect an owner that misbehaved, or the owner has given it up)
            if (o != sh.channels.end() && o->second != id && (oc == sh.clients.end() || !(oc->second->bad || oc->second->givingUp() || oc->second->serverGone())))
            {
                violation("P11", "client %d is given channel %u, which client %d has open", id, ch, o->second);
            }
            sh.channels[ch] = id;
            chan = true;
            chanId = ch;
            tokenId = tok;
        }
        seqKnown = true;
        seqRx = seq;
        if (p->type == CREATE)
        {
            uint32_t sid = 0, tok = 0;
            d.node(sid);
            if (!d.node(tok) || tok == 0)
            {
                violation("P12", "client %d: the authentication token of a new session is not usable", id);
            }
            p->token = tok;
            p->revised = d.f64();
            if (!(p->revised > 0))
            {
                violation("P13", "client %d: revised session timeout %g", id, p->revised);
            }
            auto o = sh.tokens.find(tok);
            if (o != sh.tokens.end())
            {
                violation("P12", "client %d is given the session token %u of client %d", id, tok, o->second);
            }
            sh.tokens[tok] = id;
        }
        switch (p->type)
        {
        case CREATE:
            d.str();
            d.str();
            endpoints(d);
            arr(d, [&] { d.str(); d.str(); });
            d.str();
            d.str();
            d.u32();
            break;
        case GETENDP:
            if (endpoints(d) == 0)
            {
                violation("P13", "client %d: GetEndpoints returns no endpoint", id);
            }
            break;
        case ACTIVATE:
            d.str();
            arr(d, [&] { d.u32(); });
            arr(d, [&] { d.diag(); });
            break;
        case READ:
            if (static_cast<int32_t>(d.u32()) > 0)
            {
                d.p = f.size();     // values: not interpreted
                break;
            }
            arr(d, [&] { d.diag(); });
            break;
        default:
            break;
        }
        if (d.p != f.size())
        {
            violation("P13", "client %d: response to service %u has %zu bytes too many: %s", id, p->type, f.size() - d.p, hex(f, 400).c_str());
        }
        count("ua_responses");
    }
    unsigned arr(Dec& d, std::function<void()> f)
    {
        int32_t const n = static_cast<int32_t>(d.u32());
        for (int32_t i = 0; i < n; ++i)
        {
            f();
        }
        return n < 0 ? 0 : static_cast<unsigned>(n);
    }
    unsigned endpoints(Dec& d)
    {
        return arr(d, [&] {
            std::string const url = d.str();
            d.str();
            d.str();
            uint8_t const m = d.u8();
            if (m & 1) d.str();
            if (m & 2) d.str();
            d.u32();
            d.str();
            d.str();
            arr(d, [&] { d.str(); });
            d.str();
            uint32_t const mode = d.u32();
            std::string const policy = d.str();
            if (url != "opc.tcp://localhost:4369" || mode != 1 || policy != "http://opcfoundation.org/UA/SecurityPolicy#None")
            {
                violation("P13", "client %d: the server describes its endpoint as \"%s\", mode %u, policy \"%s\"", id, url.c_str(), mode, policy.c_str());
            }
            arr(d, [&] { d.str(); d.u32(); d.str(); d.str(); d.str(); });
            d.str();
            d.u8();
        });
    }
    // Handles what arrives until pred holds, the connection ends or the deadline passes.
    bool pump(std::function<bool()> pred, Time until)
    {
        for (;;)
        {
            if (c.available())
            {
                process();
            }
            if (pred && pred())
            {
                return true;
            }
            if (c.eof())
            {
                if (!over)
                {
                    over = true;
                    leave();
                }
                return false;
            }
            if (now() >= until)
            {
                return false;
            }
            waitUntil([&] { return c.available() || c.eof(); }, until);
        }
    }
    // nothing the server does can reach this client any more
    bool cutOff() const { return !c.sock() || c.sock()->cut || (c.sock()->peer.lock() && c.sock()->peer.lock()->cut); }
    // a request to close or replace the channel is on its way
    bool givingUp() const
    {
        if (cloSent)
        {
            return true;
        }
        for (auto& x : pend)
        {
            if (x.second->type == OPN_ && !x.second->got)
            {
                return true;
            }
        }
        return false;
    }
    // the server has given up this connection (the client may not know yet)
    bool serverGone() const
    {
        auto const s = c.sock() ? c.sock()->peer.lock() : nullptr;
        return !s || s->orphan || s->state != Sock::ESTAB;
    }
    bool waitRsp(PendPtr const& p, Time d) { return pump([&] { return p->got; }, now() + d); }
    void close(bool rst)
    {
        if (c.connected())
        {
            leave();
            rst ? c.abort() : c.close();
        }
        over = true;
    }
};
} // namespace uac
