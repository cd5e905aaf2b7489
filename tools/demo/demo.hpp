// Helpers of the demonstrations: an event loop with one component, closures run on its thread, plain blocking TCP peers.
#pragma once
#include <arpa/inet.h>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <netinet/tcp.h>
#include <poll.h>
#include <string>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include "ComponentBase.hpp"
#include "Logger.hpp"
#include "MsgBase.hpp"
#include "Reactor.hpp"
#include "ReactorManager.hpp"
#include "LinkInterface.hpp"
#include "TimerInterface.hpp"
#include "AcceptorInterface.hpp"

using namespace app::reactor;
using Bytes = std::vector<uint8_t>;

#define FAIL(...) do { printf("DEMO FAILED: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } while (0)
#define PASS() do { printf("DEMO OK\n"); fflush(stdout); _exit(0); } while (0)
inline void msleep(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
inline bool waitFor(std::function<bool()> f, int ms)
{
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
    while (!f())
    {
        if (std::chrono::steady_clock::now() > end) return false;
        msleep(2);
    }
    return true;
}

template <ComponentId ID> struct Comp : ComponentBase<ID> { using ComponentBase<ID>::ComponentBase; };
struct ExecMsg : MsgBase<ExecMsg, 30, 9030> { std::function<void()>* fn = nullptr; };

struct Loop
{
    ReactorManager& mgr;
    Reactor* reactor;
    explicit Loop(ReactorManager& m, unsigned id = 0) : mgr(m)
    {
        auto r = std::make_unique<Reactor>(Reactor::Init{id, 1, 0});
        reactor = r.get();
        mgr.addComponent(std::make_unique<Comp<30>>(mgr, *r));
        mgr.addReactor(std::move(r));
        reactor->registerHandler(ExecMsg::msgId(), [](MsgInterface const& m) {
            std::unique_ptr<std::function<void()>> f(static_cast<ExecMsg const&>(m).fn);
            (*f)();
        });
    }
    void post(std::function<void()> fn)
    {
        ExecMsg m;
        m.fn = new std::function<void()>(std::move(fn));
        mgr.send(m);
    }
    bool exec(std::function<void()> fn, int ms = 10000)
    {
        auto done = std::make_shared<std::atomic<bool>>(false);
        post([done, fn] { try { fn(); } catch (...) { *done = true; throw; } *done = true; });
        return waitFor([done] { return done->load(); }, ms);
    }
};

inline LinkAddr addr4(uint16_t port, uint32_t a = 0x7f000001u)
{
    LinkAddr r;
    r.type = LinkAddr::Type::ipv4;
    for (auto& c : r.data) c = 0;
    for (int i = 0; i < 4; ++i) r.data[i] = static_cast<char>(a >> (24 - 8 * i));
    r.data[4] = static_cast<char>(port >> 8);
    r.data[5] = static_cast<char>(port);
    return r;
}

inline sockaddr_in sa(uint16_t port)
{
    sockaddr_in s{};
    s.sin_family = AF_INET;
    s.sin_port = htons(port);
    s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    return s;
}
inline int tcpListen(uint16_t& port)
{
    int fd = socket(AF_INET, SOCK_STREAM, 0), one = 1;
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    auto s = sa(port);
    if (bind(fd, (sockaddr*)&s, sizeof s) || listen(fd, 64)) FAIL("harness: listen");
    socklen_t l = sizeof s;
    getsockname(fd, (sockaddr*)&s, &l);
    port = ntohs(s.sin_port);
    return fd;
}
inline uint16_t freePort()
{
    uint16_t p = 0;
    int fd = tcpListen(p);
    close(fd);
    return p;
}
inline int tcpAccept(int lfd, int ms = 20000)
{
    pollfd p{lfd, POLLIN, 0};
    if (poll(&p, 1, ms) != 1) return -1;
    int fd = accept(lfd, nullptr, nullptr), one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    return fd;
}
inline int tcpConnect(uint16_t port, int ms = 5000)
{
    auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
    do
    {
        int fd = socket(AF_INET, SOCK_STREAM, 0), one = 1;
        auto s = sa(port);
        if (0 == connect(fd, (sockaddr*)&s, sizeof s))
        {
            setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
            return fd;
        }
        close(fd);
        msleep(20);
    } while (std::chrono::steady_clock::now() < end);
    return -1;
}
inline void tcpSend(int fd, Bytes const& b) { ::send(fd, b.data(), b.size(), MSG_NOSIGNAL); }
// Up to n bytes; fewer on close or after ms milliseconds without input.
inline Bytes tcpRecv(int fd, size_t n, int ms = 5000)
{
    Bytes out;
    while (out.size() < n)
    {
        pollfd p{fd, POLLIN, 0};
        if (poll(&p, 1, ms) != 1) break;
        uint8_t buf[4096];
        ssize_t r = recv(fd, buf, std::min(sizeof buf, n - out.size()), 0);
        if (r <= 0) break;
        out.insert(out.end(), buf, buf + r);
    }
    return out;
}
inline bool tcpClosed(int fd, int ms)
{
    pollfd p{fd, POLLIN, 0};
    if (poll(&p, 1, ms) != 1) return false;
    char c;
    return recv(fd, &c, 1, MSG_PEEK) <= 0;
}
inline void tcpReset(int fd)
{
    linger l{1, 0};
    setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
    close(fd);
}
