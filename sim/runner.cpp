// Zygote / search / replay / minimise driver.  Every simulated run is one forked child.
#include "internal.hpp"

#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

using namespace sim;

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:handle_abort=1:exitcode=77:detect_stack_use_after_return=0:allocator_may_return_null=1:"
           "max_allocation_size_mb=256:quarantine_size_mb=8:malloc_context_size=6:print_legend=0:"
           "symbolize=1:fast_unwind_on_malloc=1:allow_user_segv_handler=0";
}
extern "C" int __real_close(int);
extern "C" ssize_t __real_read(int, void*, size_t);
extern "C" int __real_clock_gettime(clockid_t, struct timespec*);

namespace
{

int errFd = -1;
int nullFd = -1;

double wall()
{
    struct timespec ts;
    __real_clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}

struct Outcome
{
    int status = Shared::NONE;
    std::string props, key, msg;
    uint64_t hash = 0;
    bool matches(std::string const& p) const
    {
        if (status != Shared::VIOLATION)
        {
            return false;
        }
        if (props == "*" || p == "*")
        {
            return true;
        }
        return ("," + props + ",").find("," + p + ",") != std::string::npos;
    }
};

std::string readErr()
{
    off_t n = lseek(errFd, 0, SEEK_END);
    if (n <= 0)
    {
        return "";
    }
    n = std::min<off_t>(n, 1 << 17);
    std::string s(n, 0);
    ssize_t r = pread(errFd, s.data(), n, 0);
    s.resize(r > 0 ? r : 0);
    return s;
}

void crashOutcome(Outcome& o, int st)
{
    std::string e = readErr();
    o.status = Shared::VIOLATION;
    o.props = "*";
    std::string type, frame;
    size_t p = e.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos)
    {
        p += 25;
        type = e.substr(p, e.find_first_of(" \n", p) - p);
        // first frame of the code under test
        size_t q = p;
        while ((q = e.find(" in ", q)) != std::string::npos)
        {
            size_t nl = e.find('\n', q);
            std::string line = e.substr(q + 4, nl - q - 4);
            if (line.find("/src/app/") != std::string::npos)
            {
                frame = line.substr(0, line.find(' ') == std::string::npos ? line.size() : line.find('('));
                size_t at = line.rfind('/');
                frame += " " + (at == std::string::npos ? "" : line.substr(at + 1, line.find(':', at) - at - 1));
                break;
            }
            q = nl == std::string::npos ? e.size() : nl;
        }
    }
    else if (WIFSIGNALED(st))
    {
        type = std::string("signal ") + strsignal(WTERMSIG(st));
    }
    else
    {
        type = "exit " + std::to_string(WEXITSTATUS(st));
    }
    o.key = "crash: " + type + " in " + frame;
    o.msg = "process crash (" + type + (frame.empty() ? "" : " in " + frame) + ")";
    o.hash = sh->hash;
}

Outcome runChild(const Scenario& s, const char* variant, uint64_t seed)
{
    sh->status = Shared::NONE;
    if (ftruncate(errFd, 0))
    {
    }
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        dup2(errFd, 2);
        lseek(2, 0, SEEK_SET);
        dup2(nullFd, 1);            // whatever the program prints by other means is not ours
        alarm(120);
        struct rlimit rl = {1, 0};
        setrlimit(RLIMIT_CORE, &rl);
        runScenario(s, seed, variant);
        _exit(9);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
    {
    }
    Outcome o;
    if (sh->status != Shared::NONE)
    {
        o.status = sh->status;
        o.props = sh->props;
        o.key = sh->key;
        o.msg = sh->msg;
        o.hash = sh->hash;
    }
    else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGKILL))
    {
        o.status = Shared::HARNESS;
        o.key = o.msg = "watchdog: run exceeded its real-time limit or was killed";
    }
    else
    {
        crashOutcome(o, st);
    }
    return o;
}

std::string esc(std::string const& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += c;
        }
        else if (c < 0x20 || c > 0x7e)
        {
            char b[8];
            snprintf(b, sizeof(b), "\\u%04x", c);
            r += b;
        }
        else
        {
            r += c;
        }
    }
    return r;
}

uint64_t mixSeed(uint64_t base, std::string const& name, uint64_t idx)
{
    uint64_t h = 1469598103934665603ull ^ base * 0x9E3779B97F4A7C15ull;
    for (unsigned char c : name)
    {
        h = (h ^ c) * 1099511628211ull;
    }
    h ^= idx * 0xD1B54A32D192ED03ull;
    h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9ull;
    h = (h ^ (h >> 27)) * 0x94d049bb133111ebull;
    return h ^ (h >> 31);
}

const Scenario* find(std::string const& full, std::string& variant)
{
    std::string n = full;
    size_t c = n.find(':');
    if (c != std::string::npos)
    {
        variant = n.substr(c + 1);
        n = n.substr(0, c);
    }
    for (auto& s : scenarios())
    {
        if (n == s.name)
        {
            return &s;
        }
    }
    fprintf(stderr, "unknown scenario %s\n", full.c_str());
    exit(3);
}

const char* const streamNames[S_NUM] = {"cfg", "sched", "net", "fault", "ops"};

using Streams = std::vector<std::vector<uint32_t>>;

Streams grabStreams()
{
    Streams v(S_NUM);
    for (unsigned i = 0; i < S_NUM; ++i)
    {
        v[i].assign(sh->data[i], sh->data[i] + sh->len[i]);
    }
    return v;
}

void trimZeros(Streams& v)
{
    for (auto& s : v)
    {
        while (!s.empty() && s.back() == 0)
        {
            s.pop_back();
        }
    }
}

Outcome replayStreams(const Scenario& s, std::string const& var, Streams const& v, bool tr)
{
    g_replay = true;
    for (unsigned i = 0; i < S_NUM; ++i)
    {
        g_replayData[i] = v[i];
    }
    g_trace = tr;
    Outcome o = runChild(s, var.c_str(), 0);
    g_replay = false;
    g_trace = false;
    return o;
}

bool writeReplay(std::string const& path, std::string const& scen, std::string const& prop, Outcome const& o,
                 Streams const& v, uint64_t seed, std::string const& extra, bool fromSeed = false)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f)
    {
        return false;
    }
    fprintf(f, "uscada-sim-replay 1\nscenario %s\nproperty %s\nseed %lu\nkey %s\nhash %016lx\nmessage %s\n", scen.c_str(),
            prop.c_str(), (unsigned long)seed, o.key.c_str(), (unsigned long)o.hash, esc(o.msg).c_str());
    if (fromSeed)
    {
        fprintf(f, "from-seed\n");
    }
    for (unsigned i = 0; i < S_NUM; ++i)
    {
        fprintf(f, "stream %s %zu", streamNames[i], v[i].size());
        for (size_t k = 0; k < v[i].size(); ++k)
        {
            if (v[i][k])
            {
                fprintf(f, " %zu:%u", k, v[i][k]);
            }
        }
        fprintf(f, "\n");
    }
    fprintf(f, "note %s\ntrace\n", extra.c_str());
    fwrite(sh->traceBuf, 1, sh->traceLen, f);
    std::string e = readErr();
    if (o.key.rfind("crash", 0) == 0)
    {
        fprintf(f, "--- stderr of the run\n%s\n", e.c_str());
    }
    fclose(f);
    return true;
}

struct ReplayFile
{
    std::string scenario, property, key;
    uint64_t hash = 0, seed = 0;
    bool fromSeed = false;
    Streams v{S_NUM};
};

bool loadReplay(const char* path, ReplayFile& r)
{
    FILE* f = fopen(path, "r");
    if (!f)
    {
        return false;
    }
    char* line = nullptr;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0)
    {
        std::string l(line, n);
        while (!l.empty() && l.back() == '\n')
        {
            l.pop_back();
        }
        if (l == "trace")
        {
            break;
        }
        auto val = [&](const char* k) -> const char* {
            size_t kl = strlen(k);
            return l.compare(0, kl, k) == 0 && l.size() > kl && l[kl] == ' ' ? l.c_str() + kl + 1 : nullptr;
        };
        if (auto* x = val("scenario")) r.scenario = x;
        else if (auto* x = val("property")) r.property = x;
        else if (auto* x = val("key")) r.key = x;
        else if (auto* x = val("seed")) r.seed = strtoull(x, nullptr, 10);
        else if (l == "from-seed") r.fromSeed = true;
        else if (auto* x = val("hash")) r.hash = strtoull(x, nullptr, 16);
        else if (auto* x = val("stream"))
        {
            for (unsigned i = 0; i < S_NUM; ++i)
            {
                size_t sl = strlen(streamNames[i]);
                if (!strncmp(x, streamNames[i], sl) && x[sl] == ' ')
                {
                    char* p;
                    size_t len = strtoull(x + sl + 1, &p, 10);
                    r.v[i].assign(len, 0);
                    while (*p == ' ')
                    {
                        size_t k = strtoull(p + 1, &p, 10);
                        if (*p != ':')
                        {
                            break;
                        }
                        uint32_t val = strtoul(p + 1, &p, 10);
                        if (k < len)
                        {
                            r.v[i][k] = val;
                        }
                    }
                }
            }
        }
    }
    free(line);
    fclose(f);
    return !r.scenario.empty();
}

int cmdBatch(int argc, char** argv)
{
    if (argc < 9)
    {
        return 3;
    }
    std::string full = argv[2], prop = argv[3], var;
    uint64_t base = strtoull(argv[4], nullptr, 10), start = strtoull(argv[5], nullptr, 10),
             stepN = strtoull(argv[6], nullptr, 10), count = strtoull(argv[7], nullptr, 10);
    double limit = atof(argv[8]);
    bool hashes = argc > 9 && !strcmp(argv[9], "hashes");
    const Scenario* s = find(full, var);
    double t0 = wall();
    uint64_t runs = 0, nontriv = 0, steps = 0, switches = 0, blocks = 0, other = 0;
    double simSec = 0;
    uint64_t faults[F_NUM] = {}, faultRuns[F_NUM] = {};
    std::map<std::string, std::pair<uint64_t, uint64_t>> counters;
    std::map<std::string, uint64_t> others;
    int rc = 0;
    std::string sched;
    for (uint64_t i = start; i < count; i += stepN)
    {
        if (wall() - t0 > limit)
        {
            break;
        }
        uint64_t seed = mixSeed(base, full, i);
        Outcome o = runChild(*s, var.c_str(), seed);
        ++runs;
        nontriv += sh->nontriv != 0;
        steps += sh->steps;
        switches += sh->switches;
        blocks += sh->blocks;
        simSec += sh->simNs / 1e9;
        for (unsigned k = 0; k < F_NUM; ++k)
        {
            faults[k] += sh->faults[k];
            faultRuns[k] += sh->faults[k] != 0;
        }
        for (auto& c : sh->counters)
        {
            if (!c.name[0])
            {
                break;
            }
            auto& x = counters[c.name];
            x.first += c.n;
            x.second += 1;
        }
        printf("H %016lx %016lx %lu\n", (unsigned long)sh->schedHash, (unsigned long)o.hash, (unsigned long)seed);
        if (hashes)
        {
            printf("D %lu %016lx %d\n", (unsigned long)i, (unsigned long)o.hash, o.status);
        }
        if (o.status == Shared::HARNESS)
        {
            printf("E %lu {\"seed\":%lu,\"msg\":\"%s\"}\n", (unsigned long)i, (unsigned long)seed, esc(o.msg).c_str());
            rc = 3;
            break;
        }
        if (o.status == Shared::VIOLATION)
        {
            if (o.matches(prop))
            {
                printf("V %lu {\"seed\":%lu,\"props\":\"%s\",\"key\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016lx\"}\n",
                       (unsigned long)i, (unsigned long)seed, o.props.c_str(), esc(o.key).c_str(), esc(o.msg).c_str(),
                       (unsigned long)o.hash);
                fflush(stdout);
                rc = 1;
                if (getenv("SIM_KEEP_GOING") == nullptr)
                {
                    break;
                }
            }
            else
            {
                ++other;
                others[o.props + ": " + o.key]++;
            }
        }
    }
    printf("S {\"runs\":%lu,\"nontrivial\":%lu,\"steps\":%lu,\"switches\":%lu,\"blocks\":%lu,\"sim_s\":%.3f,\"other\":%lu,"
           "\"wall\":%.3f,\"faults\":{",
           runs, nontriv, steps, switches, blocks, simSec, other, wall() - t0);
    for (unsigned k = 0; k < F_NUM; ++k)
    {
        printf("%s\"%s\":[%lu,%lu]", k ? "," : "", faultNames[k], (unsigned long)faults[k], (unsigned long)faultRuns[k]);
    }
    printf("},\"counters\":{");
    bool first = true;
    for (auto& [k, v] : counters)
    {
        printf("%s\"%s\":[%lu,%lu]", first ? "" : ",", k.c_str(), (unsigned long)v.first, (unsigned long)v.second);
        first = false;
    }
    printf("},\"others\":{");
    first = true;
    for (auto& [k, v] : others)
    {
        printf("%s\"%s\":%lu", first ? "" : ",", esc(k).c_str(), (unsigned long)v);
        first = false;
    }
    std::string bits;
    size_t cov = 0;
    for (uint32_t k = 0; k < COV_BITS; ++k)
    {
        cov += covMap[k];
    }
    printf("},\"blocks_covered\":%zu}\n", cov);
    // coverage bitmap in hex so that the driver can take the union
    bits.reserve(COV_BITS / 4);
    for (uint32_t k = 0; k < COV_BITS; k += 4)
    {
        bits += "0123456789abcdef"[covMap[k] | covMap[k + 1] << 1 | covMap[k + 2] << 2 | covMap[k + 3] << 3];
    }
    printf("C %s\n", bits.c_str());
    return rc;
}

int cmdMinimise(int argc, char** argv)
{
    if (argc < 7)
    {
        return 3;
    }
    std::string full = argv[2], prop = argv[3], var;
    uint64_t seed = strtoull(argv[4], nullptr, 10);
    std::string out = argv[5];
    double budget = atof(argv[6]);
    const Scenario* s = find(full, var);
    Outcome o1 = runChild(*s, var.c_str(), seed);
    Streams v = grabStreams();
    Outcome o2 = runChild(*s, var.c_str(), seed);
    if (!o1.matches(prop) || !o2.matches(prop) || o1.hash != o2.hash || o1.key != o2.key)
    {
        printf("M {\"ok\":false,\"why\":\"the same seed did not reproduce: %s / %s\"}\n", esc(o1.msg).c_str(), esc(o2.msg).c_str());
        return 3;
    }
    // A run that makes no progress draws more choices than are recorded. Nearly always the recorded ones alone lead
    // there as well; otherwise the replay file names the seed, which is the same execution, not minimised.
    bool const overflow = sh->overflow;
    double t0 = wall();
    uint64_t trials = 0, accepted = 0;
    size_t before = 0;
    for (auto& x : v)
    {
        before += x.size() - std::count(x.begin(), x.end(), 0u);
    }
    auto test = [&](Streams const& c) {
        ++trials;
        Outcome o = replayStreams(*s, var, c, false);
        return o.matches(prop) && o.key == o1.key;
    };
    auto attempt = [&](Streams c) {
        if (wall() - t0 > budget)
        {
            return false;
        }
        if (test(c))
        {
            v = std::move(c);
            ++accepted;
            return true;
        }
        return false;
    };
    if (overflow && !test(v))
    {
        g_trace = true;
        Outcome f = runChild(*s, var.c_str(), seed);
        g_trace = false;
        bool ok = f.matches(prop) && f.key == o1.key && writeReplay(out, full, prop, f, Streams(S_NUM), seed, "not minimised", true);
        printf("M {\"ok\":%s,\"msg\":\"%s\",\"key\":\"%s\",\"before\":%zu,\"after\":%zu,\"trials\":0,\"hash\":\"%016lx\"}\n",
               ok ? "true" : "false", esc(f.msg).c_str(), esc(f.key).c_str(), before, before, (unsigned long)f.hash);
        return ok ? 0 : 3;
    }
    trimZeros(v);
    // order: scheduling noise first, then network, faults, operations, configuration
    const unsigned order[] = {S_SCHED, S_NET, S_FAULT, S_OPS, S_CFG};
    for (int round = 0; round < 3 && wall() - t0 < budget; ++round)
    {
        uint64_t acc0 = accepted;
        for (unsigned st : order)
        {
            if (v[st].empty())
            {
                continue;
            }
            {
                Streams c = v;
                c[st].clear();
                if (attempt(std::move(c)))
                {
                    continue;
                }
            }
            // truncate the tail
            for (size_t cut = v[st].size() / 2; cut > 0; cut /= 2)
            {
                while (cut <= v[st].size() && wall() - t0 < budget)
                {
                    Streams c = v;
                    c[st].resize(v[st].size() - cut);
                    if (!attempt(std::move(c)))
                    {
                        break;
                    }
                }
            }
            // zero chunks
            for (size_t sz = std::max<size_t>(1, v[st].size() / 2); sz > 0 && wall() - t0 < budget; sz /= 2)
            {
                for (size_t off = 0; off < v[st].size() && wall() - t0 < budget; off += sz)
                {
                    size_t end = std::min(off + sz, v[st].size());
                    bool any = false;
                    for (size_t k = off; k < end; ++k)
                    {
                        any |= v[st][k] != 0;
                    }
                    if (!any)
                    {
                        continue;
                    }
                    Streams c = v;
                    std::fill(c[st].begin() + off, c[st].begin() + end, 0u);
                    attempt(std::move(c));
                }
                if (sz == 1)
                {
                    break;
                }
            }
            // delete chunks of operations
            if (st == S_OPS || st == S_FAULT)
            {
                for (size_t sz = std::max<size_t>(1, v[st].size() / 2); sz > 0 && wall() - t0 < budget; sz /= 2)
                {
                    for (size_t off = 0; off < v[st].size() && wall() - t0 < budget;)
                    {
                        size_t end = std::min(off + sz, v[st].size());
                        Streams c = v;
                        c[st].erase(c[st].begin() + off, c[st].begin() + end);
                        if (!attempt(std::move(c)))
                        {
                            off += sz;
                        }
                    }
                    if (sz == 1)
                    {
                        break;
                    }
                }
            }
            // shrink values
            for (size_t k = 0; k < v[st].size() && wall() - t0 < budget; ++k)
            {
                while (v[st][k] > 1)
                {
                    Streams c = v;
                    c[st][k] /= 2;
                    if (!attempt(std::move(c)))
                    {
                        break;
                    }
                }
            }
            trimZeros(v);
        }
        if (accepted == acc0)
        {
            break;
        }
    }
    Outcome f1 = replayStreams(*s, var, v, true);
    Outcome f2 = replayStreams(*s, var, v, true);
    if (!f1.matches(prop) || f1.key != o1.key || f1.hash != f2.hash || f1.key != f2.key)
    {
        printf("M {\"ok\":false,\"why\":\"minimised run does not replay: %s / %s\"}\n", esc(f1.msg).c_str(), esc(f2.msg).c_str());
        return 3;
    }
    size_t after = 0;
    for (auto& x : v)
    {
        after += x.size() - std::count(x.begin(), x.end(), 0u);
    }
    char note[200];
    snprintf(note, sizeof(note), "minimised from %zu to %zu non-default choices in %lu trials (%lu accepted)", before, after,
             (unsigned long)trials, (unsigned long)accepted);
    if (!writeReplay(out, full, prop, f2, v, seed, note))
    {
        printf("M {\"ok\":false,\"why\":\"cannot write %s\"}\n", out.c_str());
        return 3;
    }
    printf("M {\"ok\":true,\"msg\":\"%s\",\"key\":\"%s\",\"before\":%zu,\"after\":%zu,\"trials\":%lu,\"hash\":\"%016lx\"}\n",
           esc(f2.msg).c_str(), esc(f2.key).c_str(), before, after, (unsigned long)trials, (unsigned long)f2.hash);
    return 0;
}

int cmdReplay(int argc, char** argv)
{
    ReplayFile r;
    if (argc < 3 || !loadReplay(argv[2], r))
    {
        fprintf(stderr, "cannot load replay file\n");
        return 3;
    }
    bool quiet = argc > 3 && !strcmp(argv[3], "--quiet");
    std::string var;
    const Scenario* s = find(r.scenario, var);
    g_trace = true;
    Outcome o = r.fromSeed ? runChild(*s, var.c_str(), r.seed) : replayStreams(*s, var, r.v, true);
    g_trace = false;
    if (!quiet)
    {
        fwrite(sh->traceBuf, 1, sh->traceLen, stdout);
    }
    bool same = o.matches(r.property) && o.key == r.key && o.hash == r.hash;
    printf("REPLAY scenario=%s property=%s status=%d hash=%016lx expected=%016lx %s: %s\n", r.scenario.c_str(),
           r.property.c_str(), o.status, (unsigned long)o.hash, (unsigned long)r.hash,
           same ? "REPRODUCED" : (o.matches(r.property) ? "DIFFERENT" : "NOT-REPRODUCED"), o.msg.c_str());
    if (o.status == Shared::HARNESS)
    {
        return 3;
    }
    return same ? 1 : (o.matches(r.property) ? 2 : 0);
}

int cmdOnce(int argc, char** argv)
{
    std::string full = argv[2], var;
    uint64_t seed = strtoull(argv[3], nullptr, 10);
    const Scenario* s = find(full, var);
    g_trace = argc > 4;
    Outcome o = runChild(*s, var.c_str(), seed);
    if (g_trace)
    {
        fwrite(sh->traceBuf, 1, sh->traceLen, stdout);
    }
    printf("status=%d props=%s key=%s\nmsg=%s\nhash=%016lx sched=%016lx sim=%.6fs steps=%lu switches=%lu blocks=%lu draws=%u/%u/%u/%u/%u\n",
           o.status, o.props.c_str(), o.key.c_str(), o.msg.c_str(), (unsigned long)o.hash, (unsigned long)sh->schedHash,
           sh->simNs / 1e9, (unsigned long)sh->steps, (unsigned long)sh->switches, (unsigned long)sh->blocks, sh->len[0],
           sh->len[1], sh->len[2], sh->len[3], sh->len[4]);
    for (auto& c : sh->counters)
    {
        if (c.name[0])
        {
            printf("  %s=%lu", c.name, (unsigned long)c.n);
        }
    }
    printf("\n");
    if (o.status == Shared::VIOLATION && o.key.rfind("crash", 0) == 0)
    {
        printf("%s\n", readErr().c_str());
    }
    return o.status == Shared::OK ? 0 : 1;
}

} // namespace

int main(int argc, char** argv)
{
    // identical address-space layout in every process
    if (!getenv("SIM_NOASLR"))
    {
        setenv("SIM_NOASLR", "1", 1);
        setenv("TZ", "UTC", 1);
        int p = personality(0xffffffff);
        if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1)
        {
            execv("/proc/self/exe", argv);
        }
    }
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    covMap = static_cast<uint8_t*>(mmap(nullptr, COV_BITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    errFd = memfd_create("stderr", 0);
    nullFd = open("/dev/null", O_WRONLY);
    if (argc < 2)
    {
        return 3;
    }
    int rc = 3;
    std::string c = argv[1];
    if (c == "list")
    {
        for (auto& s : scenarios())
        {
            printf("%s %s\n", s.name, s.props);
        }
        rc = 0;
    }
    else if (c == "batch") rc = cmdBatch(argc, argv);
    else if (c == "minimise") rc = cmdMinimise(argc, argv);
    else if (c == "replay") rc = cmdReplay(argc, argv);
    else if (c == "once") rc = cmdOnce(argc, argv);
    fflush(stdout);
    _exit(rc);
}
