// The Modbus component with a harness user (the controller's place), for demonstrations.
#pragma once
#include "demo.hpp"
#include "CompDefs.hpp"
#include "ModbusComponent.hpp"
#include "Modbus.hpp"
#include "MsgModbusAduReq.hpp"
#include "MsgModbusAduRsp.hpp"
#include "MsgModbusClientAduReq.hpp"
#include "MsgModbusClientAduRsp.hpp"
#include "MsgModbusConfigReq.hpp"
#include "MsgModbusConfigRsp.hpp"
#include "MsgModbusInitReq.hpp"
#include "MsgModbusInitRsp.hpp"
#include "MsgStore.hpp"

struct MbApp
{
    ReactorManager mgr;
    Reactor *mr, *ur;
    std::atomic<int> initRsps{0}, cfgRsps{0};
    std::mutex m;
    std::vector<Bytes> rspData;
    struct Rsp { unsigned client, tid; bool ok; };
    std::vector<Rsp> rsps;
    std::function<void(app::MsgModbusAduReq const&)> onReq;
    MbApp()
    {
        auto a = std::make_unique<Reactor>(Reactor::Init{0, 1, 0});
        auto b = std::make_unique<Reactor>(Reactor::Init{1, 1, 0});
        mr = a.get();
        ur = b.get();
        mgr.addComponent(std::make_unique<app::modbus::ModbusComponent>(mgr, *mr));
        mgr.addComponent(std::make_unique<Comp<app::CompIds::compController>>(mgr, *ur));
        mgr.addReactor(std::move(a));
        mgr.addReactor(std::move(b));
        ur->registerHandler(app::MsgModbusInitRsp::msgId(), [this](MsgInterface const&) { ++initRsps; });
        ur->registerHandler(app::MsgModbusConfigRsp::msgId(), [this](MsgInterface const&) { ++cfgRsps; });
        ur->registerHandler(app::MsgModbusClientAduRsp::msgId(), [this](MsgInterface const& i) {
            auto const& x = static_cast<app::MsgModbusClientAduRsp const&>(i);
            std::lock_guard<std::mutex> g(m);
            rsps.push_back(Rsp{x.clientId, x.transactId, x.status == app::MsgStatus::success});
            rspData.push_back(Bytes(x.data, x.data + x.numBytes));
        });
        ur->registerHandler(app::MsgModbusAduReq::msgId(), [this](MsgInterface const& i) {
            if (onReq) onReq(static_cast<app::MsgModbusAduReq const&>(i));
        });
    }
    void start(unsigned servers, unsigned clients)
    {
        mgr.start();
        app::MsgModbusInitReq r;
        r.maxNumServers = servers;
        r.maxNumClients = clients;
        mgr.send(r);
        if (!waitFor([&] { return initRsps > 0; }, 5000)) FAIL("harness: init");
    }
    void config(bool server, unsigned id, uint16_t port)
    {
        int n = cfgRsps;
        MsgStore<app::MsgModbusConfigReq> st;
        auto& r = st.getMsg();
        r.numItems = 1;
        r.items[0].id = id;
        r.items[0].mode = server ? app::ModbusConfig::Mode::server : app::ModbusConfig::Mode::client;
        r.items[0].addr = addr4(port);
        mgr.send(r);
        if (!waitFor([&] { return cfgRsps > n; }, 5000)) FAIL("harness: config");
    }
    void request(unsigned tid, unsigned func, unsigned start, unsigned num, Bytes const& data = {}, unsigned addr = 1, unsigned client = 0)
    {
        MsgStore<app::MsgModbusClientAduReq> st;
        auto& r = st.getMsg();
        r.numItems = 1;
        auto& x = r.item(0);
        x.clientId = client;
        x.transactId = tid;
        x.func = static_cast<app::ModbusFunction>(func);
        x.addr = addr;
        x.startItem = start;
        x.numItems = num;
        x.numBytes = data.size();
        if (!data.empty()) memcpy(x.data, data.data(), data.size());
        mgr.send(r);
    }
    // answer of the application to a request of a remote client
    template <class Q> void answer(Q const& q, Bytes const& data)
    {
        MsgStore<app::MsgModbusAduRsp> st;
        auto& r = st.getMsg();
        r.serverId = q.serverId;
        r.sessionId = q.sessionId;
        r.transactId = q.transactId;
        r.status = app::MsgStatus::success;
        r.error = app::ModbusError::noerror;
        r.numBytes = data.size();
        memcpy(r.data, data.data(), data.size());
        mgr.send(r);
    }
    size_t numRsps()
    {
        std::lock_guard<std::mutex> g(m);
        return rsps.size();
    }
};

inline Bytes be(std::initializer_list<unsigned> l)
{
    Bytes b;
    for (unsigned v : l) { b.push_back(v >> 8); b.push_back(v); }
    return b;
}
// read holding registers request / response
inline Bytes rdReq(unsigned tid, unsigned start, unsigned num) 
{
    Bytes b = be({tid, 0, 6});
    b.push_back(1);
    b.push_back(3);
    Bytes t = be({start, num});
    b.insert(b.end(), t.begin(), t.end());
    return b;
}
inline Bytes rdRsp(unsigned tid, unsigned addr, std::initializer_list<unsigned> regs)
{
    Bytes b = be({tid, 0, unsigned(3 + 2 * regs.size())});
    b.push_back(addr);
    b.push_back(3);
    b.push_back(2 * regs.size());
    Bytes t = be(regs);
    b.insert(b.end(), t.begin(), t.end());
    return b;
}
