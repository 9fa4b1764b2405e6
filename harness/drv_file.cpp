// Saves and loads of real networks, complete, cut at any byte, failing (no space left) or dying at any point.
// Judged by spec/FileTrace.tla (C27). Everything happens in files of the working directory.
#define VF_MAIN
#include "snn.hpp"
#include "tap.hpp"
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <dlfcn.h>
using namespace vf;
using namespace snn;
using Net = StraightforwardNeuralNetwork;
// a death of the process just before its n-th call that touches files
static long fuse = -1;
static void spend() { if (fuse >= 0 && fuse-- == 0) _exit(98); }
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" ssize_t write(int fd, const void* b, size_t n) { static auto f = real<ssize_t (*)(int, const void*, size_t)>("write"); spend(); return f(fd, b, n); }
extern "C" ssize_t writev(int fd, const iovec* v, int n) { static auto f = real<ssize_t (*)(int, const iovec*, int)>("writev"); spend(); return f(fd, v, n); }
extern "C" int rename(const char* a, const char* b) noexcept { static auto f = real<int (*)(const char*, const char*)>("rename"); spend(); return f(a, b); }
extern "C" int remove(const char* a) noexcept { static auto f = real<int (*)(const char*)>("remove"); spend(); return f(a); }
extern "C" int unlink(const char* a) noexcept { static auto f = real<int (*)(const char*)>("unlink"); spend(); return f(a); }
extern "C" FILE* fopen64(const char* a, const char* m) { static auto f = real<FILE* (*)(const char*, const char*)>("fopen64"); spend(); return f(a, m); }
extern "C" FILE* fopen(const char* a, const char* m) { static auto f = real<FILE* (*)(const char*, const char*)>("fopen"); spend(); return f(a, m); }
extern "C" int fclose(FILE* a) { static auto f = real<int (*)(FILE*)>("fclose"); spend(); return f(a); }

static std::string workDir = "/tmp";
static std::vector<LayerModel> arch(int a)
{
    switch (a)
    {
    case 0: return {Input(2), FullyConnected(1)};
    case 1: return {Input(2, 3, 3), Convolution(2, 2), MaxPooling(2), FullyConnected(3, activation::ReLU), FullyConnected(2)};
    case 2: return {Input(2), Recurrence(2), GruLayer(2), FullyConnected(2, activation::tanh)};
    case 3: return {Input(4, 2), LocallyConnected(2, 2, activation::identity, L1Regularization(0.01f)), Convolution(2, 1), FullyConnected(2, activation::sigmoid, Dropout(0.25f), Softmax())};
    case 4: return {Input(3), FullyConnected(4, activation::GELU, L2Regularization(0.001f), ErrorMultiplier(2)), FullyConnected(2, activation::gaussian)};
    case 5: return {Input(1, 6, 6), LocallyConnected(2, 3), FullyConnected(2, activation::iSigmoid)};
    case 6: return {Input(20), FullyConnected(30), FullyConnected(20), FullyConnected(2)};              // several buffers
    default: return {Input(1, 12, 12), Convolution(6, 5), FullyConnected(60), GruLayer(5), FullyConnected(2)};
    }
}
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spill(const std::string& f, const std::string& s) { std::ofstream o(f, std::ios::binary); o << s; }
struct Plan { int arch; uint64_t seed; int cuts, saves; };

struct Run
{
    Plan P; Rng rng; std::unique_ptr<Net> net; std::vector<std::unique_ptr<Net>> versions; std::string path, probe; int nin = 1;
    std::unique_ptr<Data> data; std::vector<std::vector<float>> in, lab;
    Run(const Plan& p, int idx) : P(p), rng(p.seed)
    {
        path = workDir + "/f" + std::to_string(idx) + ".snn"; probe = workDir + "/g" + std::to_string(idx) + ".snn";
        net = std::make_unique<Net>(arch(P.arch));
        for (int d : net->layers[0]->getShapeOfInput()) nin *= d;
        const int nout = (int)net->computeOutput(fvec(nin, 0.f)).size();
        for (int i = 0; i < 4; ++i) { fvec x, y; for (int j = 0; j < nin; ++j) x.push_back((float)rng.in(-8, 8) / 8.f); for (int j = 0; j < nout; ++j) y.push_back(rng.chance(50) ? 1.f : 0.f); in.push_back(x); lab.push_back(y); }
        data = std::make_unique<Data>(problem::multipleClassification, in, lab);
        net->setNumberOfTrainingsBetweenTwoEvaluations(rng.in(10, 9999));
    }
    void change() // another network: its weights, sometimes its counters
    {
        for (int i = 0; i < 1 + rng.in(0, 2); ++i) (void)net->trainOnce(in[(size_t)rng.in(0, 3)], lab[(size_t)rng.in(0, 3)]);
        if (rng.chance(50)) net->setNumberOfTrainingsBetweenTwoEvaluations(rng.in(10, 9999));
    }
    int identify(const std::string& f) // which version the file holds; 0: refused; -1: something else
    {
        try { std::unique_ptr<Net> m(&Net::loadFrom(f)); for (size_t v = versions.size(); v > 0; --v) if (versions[v - 1] && *m == *versions[v - 1]) return (int)v; return -1; }
        catch (const std::exception&) { return 0; }
    }
    void load(const char* when) { Ev("load").i("v", identify(path)).b("idle", !net->isTraining()).str("when", when).out(); }
    static void setLimit(long k) { rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = k < 0 ? r.rlim_max : (rlim_t)k; setrlimit(RLIMIT_FSIZE, &r); }
    void act(Net& n, const std::string& how, const std::string& to)
    {
        if (how == "manual") n.saveAs(to);
        else { n.autoSaveFilePath = to; n.autoSaveWhenBetter = true; n.evaluate(*data); n.autoSaveWhenBetter = false; }
    }
    void save()
    {
        change();
        std::string how = rng.chance(30) ? "auto" : "manual", mode = rng.pick<std::string>({"free", "full", "full", "cut", "cut", "fuse", "fuse"});
        if (how == "auto" && mode != "free" && mode != "full") how = "manual";
        auto* fresh = how == "auto" ? new Net(arch(P.arch)) : nullptr;         // its first evaluation with a right answer is its best: saved
        Net& n = fresh ? *fresh : *net;
        if (fresh) { data->setSeparator(-1e30f); for (auto& l : lab) for (auto& x : l) x = 1.f; data = std::make_unique<Data>(problem::multipleClassification, in, lab); data->setSeparator(-100.f); }
        long size;
        { Net c(n); c.autoSaveWhenBetter = fresh != nullptr; std::string p2 = probe; act(c, how, p2); size = (long)slurp(p2).size(); ::unlink(p2.c_str()); }
        long k = rng.chance(40) ? rng.in(0, 3) : 0; k = rng.chance(30) ? std::max(0L, size - 1 - k) : rng.chance(20) ? k : rng.in(0, (int)size - 1);
        std::string outcome = "ok"; int v = (int)versions.size() + 1; bool fits = true;
        if (mode == "free" || mode == "full")
        {
            if (mode == "full" && rng.chance(15)) k = size;
            if (mode == "full") { fits = k >= size; signal(SIGXFSZ, SIG_IGN); setLimit(k); }
            try { act(n, how, path); } catch (const std::exception&) { outcome = "refused"; }
            setLimit(-1); signal(SIGXFSZ, SIG_DFL);
        }
        else
        {
            fflush(nullptr);
            const long f = rng.in(0, (int)(size / 8191) + 5);
            pid_t p = fork();
            if (p == 0) { if (mode == "cut") setLimit(k); else fuse = f; try { act(n, how, path); } catch (...) { _exit(96); } _exit(0); }
            int st; waitpid(p, &st, 0); fits = mode != "cut";
            outcome = WIFSIGNALED(st) && mode == "cut" ? "died" : WIFEXITED(st) && WEXITSTATUS(st) == 98 ? "died" : WIFEXITED(st) && WEXITSTATUS(st) == 96 ? "refused" : WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "ok" : "crash";
            n.autoSaveFilePath = path;
        }
        if (fresh) { versions.emplace_back(fresh); fresh->autoSaveWhenBetter = true; } else { versions.push_back(std::make_unique<Net>(n)); }
        Ev("save").str("how", how).str("mode", mode).b("fits", fits).str("outcome", outcome).i("v", v).out();
        load("after a save");
    }
};
static void runPlan(const Plan& P, int idx)
{
    Run r(P, idx);
    r.load("before any save");
    for (int i = 0; i < P.saves; ++i) r.save();
    // every file cut anywhere
    r.change(); r.net->saveAs(r.path); r.versions.push_back(std::make_unique<Net>(*r.net));
    const int v = (int)r.versions.size();
    Ev("save").str("how", "manual").str("mode", "free").b("fits", true).str("outcome", "ok").i("v", v).out();
    const std::string s = slurp(r.path);
    const int n = (int)s.size();
    auto cut = [&](int k) { spill(r.probe, s.substr(0, (size_t)k)); const int w = r.identify(r.probe); Ev("cut").i("left", n - k).i("at", k).b("nl", k == n - 1 && s.back() == '\n').i("v", w).out(); };
    for (int k = 0; k < 40 && k <= n; ++k) { cut(k); cut(n - k); }
    for (int k = 0; k < P.cuts; ++k) cut(P.cuts >= n ? k % (n + 1) : r.rng.in(0, n));
    for (const std::string& junk : {std::string(""), std::string("\n"), std::string("not a network"), std::string("22 serialization::archive"), std::string("22 serialization::archive 19 "), s.substr(1), std::string(2000, '0')})
    { spill(r.probe, junk); Ev("junk").i("v", r.identify(r.probe)).out(); }
    ::unlink(r.probe.c_str()); Ev("junk").i("v", r.identify(r.probe)).out();
    Ev("junk").i("v", r.identify(workDir)).out();
    r.load("at the end");
    ::unlink(r.path.c_str());
    Ev("done").out();
}
int main(int argc, char** argv)
{
    Args A = parse(argc, argv);
    if (!A.work.empty()) workDir = A.work;
    Rng g(A.seed);
    std::vector<Plan> plans;
    for (int r = 0; r < (A.thorough ? 40 : 6); ++r) for (int a = 0; a < 8; ++a) plans.push_back({a, g.next(), A.thorough && r == 0 && a < 6 ? 20000 : A.thorough ? 600 : a < 6 ? 250 : 60, A.thorough ? 40 : 25});
    std::vector<Scenario> scs;
    for (size_t i = 0; i < plans.size(); ++i) { auto& q = plans[i]; scs.push_back({"\"arch\":" + std::to_string(q.arch), [q, i] { runPlan(q, (int)i); }, 60}); }
    return runAll(scs, A.out, A.jobs);
}
