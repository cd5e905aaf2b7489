// P18: the log.
#include "common.hpp"

#include <ctime>
#include <cstring>

using namespace scen;

namespace
{

struct Line
{
    unsigned task, level;
    bool must = false, may = false;
    uint64_t begin = 0, end = 0;        // order of calls and returns
    Time wallBegin = 0, wallEnd = 0;
    int line = 0;
    unsigned thread = 0;
    std::string text;
    int at = -1;                        // where it was found
};

struct W
{
    std::vector<Line> lines;
    unsigned level[7] = {};
    unsigned changes[7] = {};
    uint64_t clock = 0;
    unsigned running = 0, busy = 0;
};
W* w;

char const* const TASKS[7] = {"GEN", "CTRL", "MODBUS", "UATL", "UASC", "UASRV", "UA"};
char const* const LEVELS[4] = {"DBG", "INF", "WRN", "ERR"};

#define L4(T) \
    switch (level) \
    { \
    case 0: LM(T, LD, "%s", s) return __LINE__; \
    case 1: LM(T, LI, "%s", s) return __LINE__; \
    case 2: LM(T, LW, "%s", s) return __LINE__; \
    default: LM(T, LE, "%s", s) return __LINE__; \
    }

int emit(unsigned task, unsigned level, char const* s)
{
    switch (task)
    {
    case 0: L4(GEN)
    case 1: L4(CTRL)
    case 2: L4(MODBUS)
    case 3: L4(UATL)
    case 4: L4(UASC)
    case 5: L4(UASRV)
    default: L4(UA)
    }
}

void setLevel(unsigned task, unsigned level)
{
    ++w->changes[task];
    app::Logger::getInst().setTaskLogLevel(static_cast<app::LogTask>(task), static_cast<app::LogLevel>(level));
    w->level[task] = level;
    ++w->changes[task];
}

void logOne(unsigned thread, unsigned task, unsigned level)
{
    size_t const i = w->lines.size();
    w->lines.emplace_back();
    std::string text = "<" + std::to_string(i) + ">";
    size_t const n = pick<size_t>(S_OPS, {0, 5, 60, 300, 900, 1010, 1019, 1030, 3000});
    if (n)
    {
        text += draw(S_OPS, 4) == 3 ? " %s%d%n " : " ";
        while (text.size() < n)
        {
            text += static_cast<char>('a' + (i + text.size()) % 26);
        }
    }
    {
        Line& l = w->lines[i];
        l.task = task;
        l.level = level;
        l.thread = thread;
        l.text = text;
        l.begin = ++w->clock;
        l.wallBegin = wallNow();
    }
    ++w->busy;
    unsigned const before = w->changes[task], lv = w->level[task];
    int const line = emit(task, level, text.c_str());
    --w->busy;
    Line& l = w->lines[i];
    l.line = line;
    l.end = ++w->clock;
    l.wallEnd = wallNow();
    bool const sure = before == w->changes[task] && !(before & 1);
    l.must = sure && level >= lv;
    l.may = !sure || l.must;
    count("log_calls");
}

// time, level, task, place and message of one printed line
void parse(std::string const& s, unsigned at)
{
    auto bad = [&](char const* why) { violation("P18", "a printed line is %s: \"%.160s\"", why, s.c_str()); };
    int d, mo, y, h, mi, se, ms, n = 0;
    if (sscanf(s.c_str(), "%2d-%2d-%4d %2d:%2d:%2d.%3d %n", &d, &mo, &y, &h, &mi, &se, &ms, &n) != 7 || !n)
    {
        bad("damaged (time)");
    }
    size_t p = n;
    size_t const e = s.find(' ', p);
    size_t const b = e == std::string::npos ? e : s.find("] ", e);
    size_t const c = b == std::string::npos ? b : s.find(": ", b);
    if (c == std::string::npos || s[e + 1] != '[')
    {
        bad("damaged");
    }
    std::string const level = s.substr(p, e - p), task = s.substr(e + 2, b - e - 2), place = s.substr(b + 2, c - b - 2), msg = s.substr(c + 2);
    unsigned id = 0;
    char close = 0;
    if (sscanf(msg.c_str(), "<%u%c", &id, &close) != 2 || close != '>' || id >= w->lines.size())
    {
        bad("damaged (message)");
    }
    Line& l = w->lines[id];
    if (l.at != -1)
    {
        bad("printed twice");
    }
    l.at = static_cast<int>(at);
    if (!l.may)
    {
        bad("printed although its level is switched off");
    }
    if (l.text.compare(0, msg.size(), msg) || msg.size() < std::min<size_t>(l.text.size(), 1000))
    {
        bad("not the message that was logged");
    }
    if (level != LEVELS[l.level] || task != TASKS[l.task])
    {
        bad("marked with another level or task");
    }
    if (place != "scen_log.cpp " + std::to_string(l.line))
    {
        bad("marked with another place");
    }
    struct tm tm = {};
    tm.tm_year = y - 1900;
    tm.tm_mon = mo - 1;
    tm.tm_mday = d;
    tm.tm_hour = h;
    tm.tm_min = mi;
    tm.tm_sec = se;
    Time const t = (static_cast<Time>(timegm(&tm)) * 1000 + ms) * MS;
    if (t < l.wallBegin / MS * MS || t > l.wallEnd)
    {
        violation("P18", "a printed line carries a time that is %.3f s off: \"%.60s\"", (t < l.wallBegin ? t - l.wallBegin : t - l.wallEnd) / 1e9, s.c_str());
    }
}

void run()
{
    setenv("TZ", "UTC", 1);
    tzset();
    drawSched();
    sched.stallMax = pick<Time>(S_CFG, {20 * MS, 3 * SEC});
    sched.stallBudget = 100 * SEC;
    W ww;
    w = &ww;
    captureOutput();
    for (unsigned i = 0; i < 7; ++i)
    {
        setLevel(i, pick<unsigned>(S_CFG, {0, 0, 1, 2, 3, 4}));
    }
    unsigned const n = 2 + draw(S_CFG, 5), per = pick<unsigned>(S_CFG, {4, 12, 30});
    bool const pauses = draw(S_CFG, 2), reconfigure = draw(S_CFG, 3) == 2;
    for (unsigned i = 0; i < n; ++i)
    {
        ++w->running;
        spawn("logger" + std::to_string(i), [=] {
            for (unsigned k = 0; k < per; ++k)
            {
                logOne(i, draw(S_OPS, 7), draw(S_OPS, 4));
                if (pauses && draw(S_OPS, 2))
                {
                    sleepFor(static_cast<Time>(draw(S_OPS, 100)) * 10 * MS);
                }
            }
            --w->running;
        }, true);
    }
    if (reconfigure)
    {
        ++w->running;
        spawn("config", [=] {
            for (unsigned k = 0; k < 10; ++k)
            {
                setLevel(draw(S_OPS, 7), draw(S_OPS, 5));
                sleepFor(static_cast<Time>(draw(S_OPS, 50)) * MS / 5);
            }
            --w->running;
        }, true);
    }
    if (draw(S_CFG, 3) == 2)
    {
        // the clock is set while nobody logs (in the middle of a call the time of the call is anybody's guess)
        spawn("clock", [] {
            for (unsigned k = 0; k < 3; ++k)
            {
                sleepFor(static_cast<Time>(1 + draw(S_OPS, 3000)) * MS);
                if (!w->running || !waitUntil([] { return !w->busy; }, now() + 2 * SEC))
                {
                    continue;
                }
                jumpClock((static_cast<Time>(draw(S_OPS, 200000)) - 100000) * SEC);
            }
        });
    }
    if (!waitUntil([] { return !w->running; }, now() + 1000 * SEC))
    {
        violation("P18", "logging does not come to an end");
    }
    nontrivial();
    std::string const out = capturedOutput();
    unsigned at = 0;
    std::vector<unsigned> order;
    for (size_t p = 0; p < out.size();)
    {
        size_t const e = out.find('\n', p);
        if (e == std::string::npos)
        {
            violation("P18", "the last line is incomplete");
        }
        parse(out.substr(p, e - p), at++);
        p = e + 1;
    }
    count("log_lines", at);
    std::vector<Line const*> v(at);
    for (auto& l : w->lines)
    {
        if (l.at == -1 && l.must)
        {
            violation("P18", "a message logged at a level that is switched on is not printed: \"%.40s\"", l.text.c_str());
        }
        if (l.at != -1)
        {
            v[l.at] = &l;
        }
    }
    uint64_t maxBegin = 0;
    for (auto* l : v)
    {
        if (l->end < maxBegin)
        {
            violation("P18", "a message is printed after one that was logged later: \"%.40s\"", l->text.c_str());
        }
        maxBegin = std::max(maxBegin, l->begin);
    }
    finishRun();
}

Register r1("log", "P18", run);

} // namespace
