// Shared by every driver: a tiny JSON event writer, a deterministic scenario generator,
// and a runner that executes each scenario in its own child process, so that a crash or a
// hang of the code under test becomes an event of the trace instead of the end of the run.
#pragma once
#include <sys/types.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <bit>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <mutex>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <stdexcept>

namespace vf {

struct Rng {                       // splitmix64: independent of the library and of libstdc++
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed ^ 0xD1B54A32D192ED03ull) { s = next() ^ (seed << 32); s = next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int in(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); } // inclusive
    bool chance(int percent) { return in(0, 99) < percent; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[(size_t)in(0, (int)v.size() - 1)]; }
};

inline bool notFinite(float f) { return (std::bit_cast<uint32_t>(f) & 0x7F800000u) == 0x7F800000u; }

constexpr int BAD = 2000000000;    // sentinel: not a finite value in range
inline int fix(float f, double scale) { // fixed point, with sentinels for what TLC's 32-bit integers cannot hold
    if (notFinite(f)) return BAD;
    double v = (double)f * scale;
    if (v > 1.9e9 || v < -1.9e9) return BAD - 1;
    return (int)std::floor(v + 0.5);
}

inline int traceFd = -1;
inline std::mutex traceMutex;

struct Ev {
    std::string s;
    explicit Ev(const char* e) { s = std::string("{\"e\":\"") + e + "\""; }
    Ev& k(const char* key) { s += ",\""; s += key; s += "\":"; return *this; }
    Ev& i(const char* key, long long v) { k(key); s += std::to_string(v); return *this; }
    Ev& b(const char* key, bool v) { k(key); s += v ? "true" : "false"; return *this; }
    Ev& str(const char* key, const std::string& v) { k(key); s += '"'; for (char c : v) { if (c == '"' || c == '\\') { s += '\\'; s += c; } else if ((unsigned char)c < 32) s += ' '; else s += c; } s += '"'; return *this; }
    static std::string arr(const std::vector<int>& v) { std::string r = "["; for (size_t j = 0; j < v.size(); ++j) { if (j) r += ','; r += std::to_string(v[j]); } return r + "]"; }
    Ev& a(const char* key, const std::vector<int>& v) { k(key); s += arr(v); return *this; }
    Ev& a(const char* key, const std::vector<bool>& v) { k(key); s += '['; for (size_t j = 0; j < v.size(); ++j) { if (j) s += ','; s += v[j] ? "true" : "false"; } s += ']'; return *this; }
    Ev& aa(const char* key, const std::vector<std::vector<int>>& v) { k(key); s += '['; for (size_t j = 0; j < v.size(); ++j) { if (j) s += ','; s += arr(v[j]); } s += ']'; return *this; }
    Ev& as(const char* key, const std::vector<std::string>& v) { k(key); s += '['; for (size_t j = 0; j < v.size(); ++j) { if (j) s += ','; s += '"' + v[j] + '"'; } s += ']'; return *this; }
    Ev& raw(const char* key, const std::string& json) { k(key); s += json; return *this; }
    Ev& fx(const char* key, const std::vector<float>& v, double scale) { std::vector<int> r; for (float f : v) r.push_back(fix(f, scale)); return a(key, r); }
    // write under the trace mutex
    void out() { std::lock_guard<std::mutex> g(traceMutex); outLocked(); }
    // a scenario that writes without end (a training that nothing stops) is ended: see runAll
    void outLocked() { static size_t written = 0; std::string t = s + "}\n"; size_t o = 0; if ((written += t.size()) > 64000000) _exit(96); while (o < t.size()) { ssize_t n = ::write(traceFd, t.data() + o, t.size() - o); if (n <= 0) _exit(97); o += (size_t)n; } }
};

struct Scenario { std::string json; std::function<void()> run; int timeoutSec = 20; };

inline unsigned libSeed = 1;       // what std::random_device yields to the library
inline int onlyIdx = -1;           // run a single scenario

// Runs the scenarios, each in a child process, at most `jobs` at a time; concatenates the traces in order.
inline int runAll(std::vector<Scenario>& scs, const std::string& outPath, int jobs)
{
    struct Job { pid_t pid; size_t idx; double end; };
    std::vector<Job> live;
    auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + t.tv_nsec * 1e-9; };
    std::vector<std::string> part(scs.size());
    auto append = [&](size_t idx, const std::string& line) { FILE* f = fopen(part[idx].c_str(), "a"); if (f) { fputs((line + "\n").c_str(), f); fclose(f); } };
    auto cut = [](const std::string& path) {   // keeps the beginning, in whole lines
        FILE* f = fopen(path.c_str(), "r"); if (!f) return;
        std::string b(400000, 0); size_t n = fread(b.data(), 1, b.size(), f); fclose(f); size_t e = b.rfind('\n', n ? n - 1 : 0);
        if (e != std::string::npos && truncate(path.c_str(), (off_t)e + 1) != 0) return;
    };
    size_t next = 0; int endless = 0;   // scenarios that did not come to an end: after many of them, no further ones
    while (next < scs.size() || !live.empty())
    {
        while (next < scs.size() && (int)live.size() < jobs)
        {
            part[next] = outPath + "." + std::to_string(next);
            if (onlyIdx >= 0 && (int)next != onlyIdx) { ++next; continue; }
            fflush(nullptr);
            pid_t p = fork();
            if (p == 0)
            {
                setpgid(0, 0);
                struct rlimit rl { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
                int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1);
                traceFd = open(part[next].c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
                { std::string t = "{\"e\":\"scenario\",\"n\":" + std::to_string(next) + "," + scs[next].json + "}\n"; if (write(traceFd, t.data(), t.size()) < 0) _exit(97); }
                try { scs[next].run(); }
                catch (const std::exception& ex) { Ev("uncaught").str("what", ex.what()).out(); }
                catch (...) { Ev("uncaught").str("what", "?").out(); }
                _exit(0);
            }
            setpgid(p, p);
            live.push_back({p, next, now() + scs[next].timeoutSec});
            ++next;
        }
        bool progressed = false;
        for (size_t j = 0; j < live.size();)
        {
            int st = 0;
            pid_t r = waitpid(live[j].pid, &st, WNOHANG);
            if (r == live[j].pid && WIFEXITED(st) && WEXITSTATUS(st) == 96)
            {
                cut(part[live[j].idx]); append(live[j].idx, Ev("hang").b("endless", true).s + "}");
                if (++endless >= 12) next = scs.size();
                live.erase(live.begin() + (long)j); progressed = true;
            }
            else if (r == live[j].pid)
            {
                if (WIFSIGNALED(st)) append(live[j].idx, Ev("crash").i("sig", WTERMSIG(st)).s + "}");
                else if (WEXITSTATUS(st) != 0) append(live[j].idx, Ev("crash").i("sig", 1000 + WEXITSTATUS(st)).s + "}");
                live.erase(live.begin() + (long)j); progressed = true;
            }
            else if (now() > live[j].end)
            {
                kill(-live[j].pid, SIGKILL); waitpid(live[j].pid, &st, 0);
                cut(part[live[j].idx]); append(live[j].idx, Ev("hang").s + "}");
                if (++endless >= 12) next = scs.size();
                live.erase(live.begin() + (long)j); progressed = true;
            }
            else ++j;
        }
        if (!progressed) usleep(500);
    }
    FILE* o = fopen(outPath.c_str(), "w");
    if (!o) return 1;
    char buf[65536];
    for (auto& p : part)
    {
        if (p.empty()) continue;
        FILE* f = fopen(p.c_str(), "r");
        if (!f) { if (onlyIdx >= 0) continue; return 1; }
        size_t n; bool nl = true;
        while ((n = fread(buf, 1, sizeof buf, f)) > 0) { fwrite(buf, 1, n, o); nl = buf[n - 1] == '\n'; }
        if (!nl) fputc('\n', o);
        fclose(f); unlink(p.c_str());
    }
    fclose(o);
    return 0;
}

struct Args { std::string prop, out, in; uint64_t seed = 1; bool thorough = false; int jobs = 8; std::string work; int only = -1; };
inline Args parse(int argc, char** argv)
{
    Args a;
    for (int j = 1; j + 1 < argc; j += 2)
    {
        std::string k = argv[j], v = argv[j + 1];
        if (k == "--prop") a.prop = v; else if (k == "--out") a.out = v; else if (k == "--seed") a.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--tier") a.thorough = v == "thorough"; else if (k == "--jobs") a.jobs = atoi(v.c_str()); else if (k == "--work") a.work = v; else if (k == "--in") a.in = v; else if (k == "--only") onlyIdx = a.only = atoi(v.c_str());
    }
    libSeed = (unsigned)a.seed;
    return a;
}
} // namespace vf

// The library seeds its generators from std::random_device: make it deterministic, so a run is reproducible from VERIF_SEED.
#ifdef VF_MAIN
extern "C" unsigned int _ZNSt13random_device9_M_getvalEv(void*) { static unsigned c = 0; const char* e = getenv("VF_LIBSEED"); unsigned b = e ? (unsigned)strtoul(e, nullptr, 10) : 1u; return b * 2654435761u + 97u * ++c; }
#endif
