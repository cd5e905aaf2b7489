#pragma once
#include "sim.hpp"
namespace sim
{
constexpr uint32_t STREAM_CAP = 1u << 22;
constexpr uint32_t TRACE_CAP = 4u << 20;
constexpr uint32_t COV_BITS = 1u << 16;
struct Counter { char name[40]; uint64_t n; };
struct Shared
{
    enum Status { NONE = 0, OK = 1, VIOLATION = 2, HARNESS = 3 };
    int status;
    int nontriv;
    char props[64];
    char key[256];
    char msg[2048];
    uint64_t hash, schedHash;
    int64_t simNs;
    uint64_t steps, switches, blocks;
    uint64_t faults[F_NUM];
    Counter counters[128];
    uint32_t len[S_NUM];
    uint32_t overflow;
    uint32_t traceLen;
    uint32_t data[S_NUM][STREAM_CAP];
    char traceBuf[TRACE_CAP];
};
extern Shared* sh;
extern uint8_t* covMap;             // COV_BITS bytes
extern bool g_trace;
extern bool g_replay;
extern std::vector<uint32_t> g_replayData[S_NUM];
void runScenario(const Scenario& s, uint64_t seed, const char* variant);  // never returns
[[noreturn]] void crashed(const char* key, const char* msg);
struct ThreadRec;
// used by the OS layer
void blockOn(std::function<bool()> pred, Time deadline, unsigned kind);
void osReset();
} // namespace sim
