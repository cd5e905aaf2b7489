// The three OPC UA components with a harness user (the controller's place) and a plain OPC UA client, for demonstrations.
#pragma once
#include "demo.hpp"
#include "CompDefs.hpp"
#include "UaTransportComponent.hpp"
#include "UaTransport.hpp"
#include "UaSecureChannelComponent.hpp"
#include "UaSecureChannel.hpp"
#include "UaServiceComponent.hpp"
#include "UaService.hpp"
#include "MsgUaTransportInitReq.hpp"
#include "MsgUaTransportInitRsp.hpp"
#include "MsgUaTransportConfigReq.hpp"
#include "MsgUaTransportReleaseRsp.hpp"
#include "MsgUaSecureChannelInitReq.hpp"
#include "MsgUaSecureChannelInitRsp.hpp"
#include "MsgUaSecureChannelConfigReq.hpp"
#include "MsgUaServiceInitReq.hpp"
#include "MsgUaServiceInitRsp.hpp"
#include "MsgUaServiceConfigReq.hpp"

struct UaApp
{
    ReactorManager mgr;
    std::atomic<int> inits{0};
    uint16_t port;
    UaApp()
    {
        auto a = std::make_unique<Reactor>(Reactor::Init{0, 1, 0});
        auto b = std::make_unique<Reactor>(Reactor::Init{1, 1, 0});
        mgr.addComponent(std::make_unique<app::ua::transport::UaTransportComponent>(mgr, *a));
        mgr.addComponent(std::make_unique<app::ua::securechannel::UaSecureChannelComponent>(mgr, *a));
        mgr.addComponent(std::make_unique<app::ua::service::UaServiceComponent>(mgr, *a));
        mgr.addComponent(std::make_unique<Comp<app::CompIds::compController>>(mgr, *b));
        auto ini = [this](MsgInterface const&) { ++inits; };
        b->registerHandler(app::MsgUaTransportInitRsp::msgId(), ini);
        b->registerHandler(app::MsgUaSecureChannelInitRsp::msgId(), ini);
        b->registerHandler(app::MsgUaServiceInitRsp::msgId(), ini);
        mgr.addReactor(std::move(a));
        mgr.addReactor(std::move(b));
        mgr.start();
        mgr.send(app::MsgUaSecureChannelInitReq{});
        mgr.send(app::MsgUaTransportInitReq{});
        mgr.send(app::MsgUaServiceInitReq{});
        if (!waitFor([&] { return inits == 3; }, 5000)) FAIL("harness: init");
        mgr.send(app::MsgUaSecureChannelConfigReq{});
        mgr.send(app::MsgUaServiceConfigReq{});
        port = freePort();
        app::MsgUaTransportConfigReq m;
        m.addr = addr4(port);
        mgr.send(m);
        int fd = tcpConnect(port);
        if (fd < 0) FAIL("harness: listen");
        close(fd);
    }
};

struct Enc
{
    Bytes b;
    Enc& u8(unsigned v) { b.push_back(uint8_t(v)); return *this; }
    Enc& u16(unsigned v) { return u8(v).u8(v >> 8); }
    Enc& u32(uint32_t v) { return u16(v).u16(v >> 16); }
    Enc& u64(uint64_t v) { return u32(uint32_t(v)).u32(uint32_t(v >> 32)); }
    Enc& f64(double v) { uint64_t x; memcpy(&x, &v, 8); return u64(x); }
    Enc& str(std::string const& s) { u32(s.size()); b.insert(b.end(), s.begin(), s.end()); return *this; }
    Enc& null() { return u32(0xffffffffu); }
    Enc& raw(Bytes const& x) { b.insert(b.end(), x.begin(), x.end()); return *this; }
    Enc& type(unsigned id) { return u8(1).u8(0).u16(id); }
    Enc& node(uint32_t id) { return u8(2).u16(0).u32(id); }
    Enc& reqHdr(uint32_t token, uint32_t handle) { return node(token).u64(0).u32(handle).u32(0).null().u32(0).u8(0).u8(0).u8(0); }
};
inline uint32_t get32(Bytes const& b, size_t p)
{
    return p + 4 <= b.size() ? b[p] | b[p + 1] << 8 | b[p + 2] << 16 | uint32_t(b[p + 3]) << 24 : 0;
}
inline unsigned get16(Bytes const& b, size_t p) { return p + 2 <= b.size() ? b[p] | b[p + 1] << 8 : 0; }

enum : unsigned { GETENDP = 428, CREATE = 461, ACTIVATE = 467, CLOSES = 473, READ = 631 };

struct UaClient
{
    int fd = -1;
    uint32_t chan = 0, tok = 0, seq = 1, req = 1, handle = 1, auth = 0;
    bool opened = false;
    static Bytes frame(char const* t, Bytes const& body)
    {
        Enc e;
        e.u8(t[0]).u8(t[1]).u8(t[2]).u8('F').u32(body.size() + 8).raw(body);
        return e.b;
    }
    // one message, or nothing
    Bytes recv(int ms = 3000)
    {
        Bytes h = tcpRecv(fd, 8, ms);
        if (h.size() < 8) return {};
        Bytes r = tcpRecv(fd, get32(h, 4) - 8, ms);
        h.insert(h.end(), r.begin(), r.end());
        return h;
    }
    bool connect(uint16_t port)
    {
        fd = tcpConnect(port);
        if (fd < 0) return false;
        Enc e;
        e.u32(0).u32(65536).u32(65536).u32(0).u32(0).str("opc.tcp://localhost:4369");
        tcpSend(fd, frame("HEL", e.b));
        Bytes r = recv();
        return r.size() >= 8 && r[0] == 'A';
    }
    void sendOpn()
    {
        Enc e;
        e.u32(0).str("http://opcfoundation.org/UA/SecurityPolicy#None").null().null().u32(seq++).u32(req++);
        e.type(446).reqHdr(0, handle++).u32(0).u32(0).u32(1).null().u32(3600000);
        tcpSend(fd, frame("OPN", e.b));
    }
    // the channel and token of an answer to an opening
    bool recvOpn(int ms = 3000)
    {
        Bytes r = recv(ms);
        if (r.size() < 40 || r[0] != 'O') return false;
        chan = get32(r, 8);
        size_t p = 12;
        for (int i = 0; i < 3; ++i)
        {
            int32_t n = int32_t(get32(r, p));
            p += 4 + (n > 0 ? n : 0);
        }
        p += 8;                     // sequence header
        p += 4;                     // type
        p += 8 + 4 + 4 + 1;         // timestamp, handle, result, diagnostics
        int32_t n = int32_t(get32(r, p));
        p += 4 + (n > 0 ? 0 : 0) + 3;   // string table (none), additional header
        p += 4;                     // protocol version
        tok = get32(r, p + 4);
        return opened = true;
    }
    bool open(uint16_t port)
    {
        if (!connect(port)) return false;
        sendOpn();
        return recvOpn();
    }
    Bytes msgBytes(Bytes const& body)
    {
        Enc e;
        e.u32(chan).u32(tok).u32(seq++).u32(req++).raw(body);
        return frame("MSG", e.b);
    }
    Bytes body(unsigned type, uint32_t token)
    {
        Enc e;
        e.type(type).reqHdr(token, handle++);
        switch (type)
        {
        case GETENDP: e.null().null().null(); break;
        case CREATE:
            e.null().null().u8(0).u32(1).null().null().null().null().null().null().null().null().f64(60000).u32(0);
            break;
        case ACTIVATE: e.null().null().null().null().u8(0).u8(0).u8(0).null().null(); break;
        case CLOSES: e.u8(1); break;
        case READ: e.f64(0).u32(0).null(); break;
        }
        return e.b;
    }
    // type of the response, 0 for none
    unsigned call(unsigned type, uint32_t token = 0, int ms = 2000)
    {
        tcpSend(fd, msgBytes(body(type, token)));
        return answer(ms);
    }
    Bytes last;
    unsigned answer(int ms = 2000)
    {
        last = recv(ms);
        return last.size() > 28 && last[0] == 'M' ? get16(last, 26) : 0;
    }
    bool createSession()
    {
        if (call(CREATE) != 464) return false;
        size_t p = 24 + 4 + 8 + 4 + 4 + 1 + 4 + 3;
        auto nodeId = [&]() -> uint32_t {
            switch (last.at(p))
            {
            case 0: p += 2; return last.at(p - 1);
            case 1: p += 4; return get16(last, p - 2);
            default: p += 7; return get32(last, p - 4);
            }
        };
        nodeId();
        auth = nodeId();
        return true;
    }
    bool session() { return createSession() && call(ACTIVATE, auth) == 470; }
    void sendClo()
    {
        Enc e;
        e.u32(chan).u32(tok).u32(seq++).u32(req++).type(452).reqHdr(0, handle++);
        tcpSend(fd, frame("CLO", e.b));
    }
    void end() { if (fd >= 0) close(fd); fd = -1; opened = false; }
};
