// Shared pieces of the Modbus scenarios: the application under test with a harness user (controller component).
#pragma once
#include <cstring>
#include <map>
#include "common.hpp"
#include "CompDefs.hpp"
#include "ModbusComponent.hpp"
#include "Modbus.hpp"
#include "MsgModbusAduReq.hpp"
#include "MsgModbusAduRsp.hpp"
#include "MsgModbusClientAduReq.hpp"
#include "MsgModbusClientAduRsp.hpp"
#include "MsgModbusConfigReq.hpp"
#include "MsgModbusConfigRsp.hpp"
#include "MsgModbusInitReq.hpp"
#include "MsgModbusInitRsp.hpp"
#include "MsgModbusReleaseReq.hpp"
#include "MsgModbusReleaseRsp.hpp"
#include "MsgStore.hpp"

namespace mb
{
using namespace scen;
using namespace app::reactor;
using Bytes = std::vector<uint8_t>;

constexpr unsigned MAXADU = 260;

// One configured instance to ask for.
struct Cfg
{
    bool server;
    unsigned id;
    uint16_t port;
    uint32_t ip;
};

struct Item
{
    unsigned client, tid;
    uint8_t func;
    uint16_t addr, start, numItems;
    Bytes data;
};

// ModbusComponent on one event loop, the user (component 2) on the same or another one.
struct App
{
    ReactorManager& mgr;
    Reactor* modbusReactor;
    Reactor* userReactor;
    unsigned initRsps = 0, cfgRsps = 0, relRsps = 0;
    std::vector<std::vector<unsigned>> cfgIds;
    std::vector<std::vector<bool>> cfgOk;
    std::function<void(app::MsgModbusClientAduRsp const&)> onClientRsp;
    std::function<void(app::MsgModbusAduReq const&)> onServerReq;

    explicit App(ReactorManager& m, bool separate) : mgr(m)
    {
        auto a = std::make_unique<Reactor>(Reactor::Init{0, 1, 0});
        modbusReactor = userReactor = a.get();
        std::unique_ptr<Reactor> b;
        if (separate)
        {
            b = std::make_unique<Reactor>(Reactor::Init{1, 1, 0});
            userReactor = b.get();
        }
        mgr.addComponent(std::make_unique<app::modbus::ModbusComponent>(mgr, *modbusReactor));
        mgr.addComponent(std::make_unique<Comp<app::CompIds::compController>>(mgr, *userReactor));
        mgr.addReactor(std::move(a));
        if (b)
        {
            mgr.addReactor(std::move(b));
        }
        userReactor->registerHandler(app::MsgModbusInitRsp::msgId(), [this](MsgInterface const&) { ++initRsps; });
        userReactor->registerHandler(app::MsgModbusReleaseRsp::msgId(), [this](MsgInterface const&) { ++relRsps; });
        userReactor->registerHandler(app::MsgModbusConfigRsp::msgId(), [this](MsgInterface const& i) {
            auto const& x = static_cast<app::MsgModbusConfigRsp const&>(i);
            ++cfgRsps;
            std::vector<unsigned> v;
            std::vector<bool> ok;
            for (unsigned k = 0; k < x.numItems; ++k)
            {
                v.push_back(x.items[k].id);
                ok.push_back(x.items[k].status == app::MsgStatus::success);
            }
            cfgIds.push_back(v);
            cfgOk.push_back(ok);
        });
        userReactor->registerHandler(app::MsgModbusClientAduRsp::msgId(), [this](MsgInterface const& i) {
            if (onClientRsp)
            {
                onClientRsp(static_cast<app::MsgModbusClientAduRsp const&>(i));
            }
        });
        userReactor->registerHandler(app::MsgModbusAduReq::msgId(), [this](MsgInterface const& i) {
            if (onServerReq)
            {
                onServerReq(static_cast<app::MsgModbusAduReq const&>(i));
            }
        });
    }

    void init(unsigned servers, unsigned clients)
    {
        app::MsgModbusInitReq m;
        m.maxNumServers = servers;
        m.maxNumClients = clients;
        mgr.send(m);
    }
    void release()
    {
        app::MsgModbusReleaseReq m;
        mgr.send(m);
    }
    void config(std::vector<Cfg> const& v)
    {
        MsgStore<app::MsgModbusConfigReq> st;
        auto& m = st.getMsg();
        m.numItems = static_cast<unsigned>(v.size());
        for (size_t i = 0; i < v.size(); ++i)
        {
            m.items[i].id = v[i].id;
            m.items[i].mode = v[i].server ? app::ModbusConfig::Mode::server : app::ModbusConfig::Mode::client;
            m.items[i].addr = addr4(v[i].port, v[i].ip);
        }
        mgr.send(m);
    }
    void request(std::vector<Item> const& v)
    {
        MsgStore<app::MsgModbusClientAduReq> st;
        auto& m = st.getMsg();
        m.numItems = static_cast<uint16_t>(v.size());
        for (size_t i = 0; i < v.size(); ++i)
        {
            auto& x = m.item(static_cast<uint16_t>(i));
            x.clientId = v[i].client;
            x.transactId = v[i].tid;
            x.func = static_cast<app::ModbusFunction>(v[i].func);
            x.addr = v[i].addr;
            x.startItem = v[i].start;
            x.numItems = v[i].numItems;
            x.numBytes = static_cast<uint16_t>(v[i].data.size());
            if (!v[i].data.empty())
            {
                memcpy(x.data, v[i].data.data(), v[i].data.size());
            }
        }
        mgr.send(m);
    }
};

inline void be16(Bytes& b, unsigned v)
{
    b.push_back(static_cast<uint8_t>(v >> 8));
    b.push_back(static_cast<uint8_t>(v));
}
inline unsigned rd16(uint8_t const* p) { return p[0] << 8 | p[1]; }

inline Bytes adu(unsigned tid, unsigned addr, Bytes const& pdu)
{
    Bytes b;
    be16(b, tid);
    be16(b, 0);
    be16(b, static_cast<unsigned>(pdu.size()) + 1);
    b.push_back(static_cast<uint8_t>(addr));
    b.insert(b.end(), pdu.begin(), pdu.end());
    return b;
}
// Register contents arrive as 16-bit big-endian words and are shown to the user in host (little-endian) order.
inline Bytes swapped(Bytes b)
{
    for (size_t i = 0; i + 1 < b.size(); i += 2)
    {
        std::swap(b[i], b[i + 1]);
    }
    return b;
}
inline std::string hex(Bytes const& b, size_t max = 24)
{
    std::string s;
    char t[4];
    for (size_t i = 0; i < b.size() && i < max; ++i)
    {
        snprintf(t, sizeof t, "%02x", b[i]);
        s += t;
    }
    return b.size() > max ? s + ".." : s;
}
inline uint16_t word(unsigned a, unsigned b, unsigned c, unsigned d)
{
    uint64_t x = (uint64_t(a) << 48 ^ uint64_t(b) << 32 ^ uint64_t(c) << 16 ^ d) * 0x9E3779B97F4A7C15ull;
    x ^= x >> 31;
    return static_cast<uint16_t>((x * 0xBF58476D1CE4E5B9ull) >> 48);
}
} // namespace mb
