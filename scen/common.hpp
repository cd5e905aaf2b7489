#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include "sim.hpp"
#include "simos.hpp"

#include "ComponentBase.hpp"
#include "Logger.hpp"
#include "MsgBase.hpp"
#include "Reactor.hpp"
#include "ReactorManager.hpp"
#include "MaxMsgSize.hpp"

namespace scen
{
using namespace sim;

inline void setLogs(bool verbose)
{
    for (int i = 0; i < static_cast<int>(app::LogTask::NUM); ++i)
    {
        app::Logger::getInst().setTaskLogLevel(static_cast<app::LogTask>(i), verbose ? app::LogLevel::LD : app::LogLevel::NA);
    }
}

// Log output off in most runs (it is only a source of extra preemption points); on in some, and whenever a trace is kept.
inline void drawLogs() { setLogs(draw(S_CFG, 8) == 7); }

// The wall clock is set back and forth in some runs; nothing but log lines and time stamps may notice.
inline bool drawClockJumps()
{
    if (draw(S_CFG, 3) != 2)
    {
        return false;
    }
    unsigned const n = 1 + draw(S_CFG, 8);
    Time const gap = pick<Time>(S_CFG, {300 * MS, 3 * SEC, 20 * SEC, 60 * SEC});
    spawn("clock", [n, gap] {
        for (unsigned i = 0; i < n; ++i)
        {
            sleepFor(static_cast<Time>(draw(S_OPS, 1000)) * gap / 1000);
            Time const d = static_cast<Time>(1 + draw(S_OPS, 1000)) * pick<Time>(S_OPS, {MS, SEC, 60 * SEC, 3600 * SEC});
            jumpClock(draw(S_OPS, 2) ? d : -d);
        }
    });
    return true;
}

// A handler fails: some exception derived from std::exception.
struct OddError : std::exception
{
    char const* what() const noexcept override { return "%s%n%d"; }
};
[[noreturn]] inline void fail()
{
    countFault(F_HANDLER_THROW);
    unsigned const k = draw(S_OPS, 7);
    trace("handler throws %u", k);
    switch (k)
    {
    case 1: throw std::runtime_error(std::string(900 + draw(S_OPS, 3000), 'x'));
    case 2: throw std::logic_error("handler failure");
    case 3: throw std::bad_alloc();
    case 4: throw OddError();
    case 5: throw std::system_error(ENOSPC, std::generic_category());
    case 6: throw std::out_of_range("handler failure");
    default: throw std::runtime_error("handler failure");
    }
}

inline app::reactor::LinkAddr addr4(uint16_t port, uint32_t a = 0x7f000001u)
{
    app::reactor::LinkAddr r;
    r.type = app::reactor::LinkAddr::Type::ipv4;
    for (auto& c : r.data)
    {
        c = 0;
    }
    r.data[0] = static_cast<char>(a >> 24);
    r.data[1] = static_cast<char>(a >> 16);
    r.data[2] = static_cast<char>(a >> 8);
    r.data[3] = static_cast<char>(a);
    r.data[4] = static_cast<char>(port >> 8);
    r.data[5] = static_cast<char>(port);
    return r;
}

template <app::reactor::ComponentId ID> struct Comp : app::reactor::ComponentBase<ID>
{
    using app::reactor::ComponentBase<ID>::ComponentBase;
};

// A message that runs a closure on the thread of the reactor hosting component ID.
template <app::reactor::ComponentId ID, app::reactor::MsgId MID = 9000 + ID>
struct ExecMsg : app::reactor::MsgBase<ExecMsg<ID, MID>, ID, MID>
{
    std::function<void()>* fn = nullptr;
    uint64_t magic = 0x45584543ull;
};

} // namespace scen

namespace scen
{
// A reactor with one harness component; closures can be run on its thread.
struct ExecReactor
{
    app::reactor::ReactorManager& mgr;
    app::reactor::Reactor* reactor;
    using Msg = ExecMsg<30>;
    explicit ExecReactor(app::reactor::ReactorManager& m, unsigned id = 0) : mgr(m)
    {
        auto r = std::make_unique<app::reactor::Reactor>(app::reactor::Reactor::Init{id, 1, 0});
        reactor = r.get();
        mgr.addComponent(std::make_unique<Comp<30>>(mgr, *r));
        mgr.addReactor(std::move(r));
        reactor->registerHandler(Msg::msgId(), [](app::reactor::MsgInterface const& m) {
            auto const& x = static_cast<Msg const&>(m);
            std::unique_ptr<std::function<void()>> f(x.fn);
            (*f)();
        });
    }
    void post(std::function<void()> fn)
    {
        Msg m;
        m.fn = new std::function<void()>(std::move(fn));
        mgr.send(m);
    }
    // Runs fn on the reactor thread and waits for it; false if it did not run within the limit.
    bool exec(std::function<void()> fn, Time limit = 30 * SEC)
    {
        auto done = std::make_shared<bool>(false);
        post([done, fn] {
            try
            {
                fn();
            }
            catch (...)
            {
                *done = true;
                throw;
            }
            *done = true;
        });
        return waitUntil([done] { return *done; }, now() + limit);
    }
};
} // namespace scen
