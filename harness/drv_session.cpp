// Runs schedules of user calls against a background training whose thread is held at chosen points, and free-running
// histories. Judged by spec/SessionTrace.tla (C01 C02, and C04 C12 for waits).
#define VF_MAIN
#include "snn.hpp"
#include <dlfcn.h>
#include <pthread.h>
#include <condition_variable>
#include <fstream>
#include <atomic>
using namespace vf;
using namespace snn;

// ---- the gate ------------------------------------------------------------------------------------------------
static thread_local int me = 0;            // 0: a thread of the harness; k: the k-th thread the library created
static std::mutex gm; static std::condition_variable gcv;
static bool gating = false, armed = false; static int heldTid = 0; static bool permit = false; static int created = 0, exited = 0, holds = 0, curF = 0;
static std::atomic<bool> userJoining{false};
// A training that runs freely goes on until it is stopped: after a while it slows down, so that a loaded machine does not record it for ever.
static std::atomic<int> flow{0};
static void slowDown() { if (me && !gating && ++flow > 80) usleep(500); }

static void gate(const char* at)           // the calling training thread stops here until it is advanced
{
    std::unique_lock<std::mutex> g(gm);
    if (!gating) return;
    heldTid = me; permit = false; ++holds;
    Ev("held").i("t", me).str("at", at).out();
    gcv.notify_all();
    gcv.wait(g, [] { return permit || !gating; });
    Ev("go").i("t", me).out();
    heldTid = 0; permit = false;
    gcv.notify_all();
}

struct Boot { void* (*fn)(void*); void* arg; int tid; int f; };
static void* bootstrap(void* p)
{
    Boot b = *(Boot*)p; delete (Boot*)p;
    me = b.tid;
    gate("start");
    Ev("tbegin").i("t", me).i("f", b.f).out();
    void* r = b.fn(b.arg);
    { std::unique_lock<std::mutex> g(gm); ++exited; Ev("texit").i("t", me).out(); gcv.notify_all(); }
    return r;
}
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    static auto real = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
    if (!armed) return real(t, a, fn, arg);
    int id; { std::unique_lock<std::mutex> g(gm); id = ++created; }
    return real(t, a, bootstrap, new Boot{fn, arg, id, curF});
}
extern "C" int pthread_join(pthread_t t, void** r)
{
    static auto real = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
    if (armed && me == 0) { Ev("joining").out(); userJoining = true; }
    int x = real(t, r);
    userJoining = false;
    return x;
}

// ---- the user thread ------------------------------------------------------------------------------------------
struct Op { std::string op; std::string wait = "{\"k\":\"never\"}"; std::function<Wait()> w; int f = 0; int patience = 0; };
static std::mutex um; static std::condition_variable ucv; static std::vector<Op> queue_; static bool busy = false, quit = false;

struct Plan { std::vector<std::string> nested; std::string kind; int f = 0; std::vector<std::string> sched; std::vector<Op> ops; int nanAt = -1; int firstBad = -1; uint64_t seed = 1; std::vector<int> wells; };
static std::string workDir = "/tmp";
static StraightforwardNeuralNetwork* net = nullptr;
static const int N = 2, NT = 2;

static fmat onehots(int n, int size, int at) { fmat r; for (int i = 0; i < n; ++i) { fvec v((size_t)size, 0.f); v[(size_t)(at + i)] = 1.f; r.push_back(v); } return r; }

// Data and batch sizes that do not fit the network: which one is meant by the k-th ill-fitting call of a scenario.
struct Unfit { std::string why; Data* data; int batch; };
struct Sets { Data* data; std::vector<Unfit> unfit; std::atomic<int> next{0}; };

// "startbad", "trainbad", "evalbad": the call without "bad", with what does not fit
static bool splitBad(std::string& name) { if (name.size() < 4 || name.substr(name.size() - 3) != "bad") return false; name.resize(name.size() - 3); return true; }
static const Unfit& pickUnfit(Sets& d, const std::string& name)
{
    for (;;) { auto& u = d.unfit[(size_t)(d.next++) % d.unfit.size()]; if (name != "eval" || u.data->sizeOfData != d.data->sizeOfData || u.data->numberOfLabels != d.data->numberOfLabels) return u; } // an evaluation has no batch size
}

static void runOp(const Op& op, Sets& sets, const std::string& file)
{
    std::string name = op.op; bool isBad = splitBad(name);
    static const Unfit none{"", nullptr, 1};
    const Unfit& u = isBad ? pickUnfit(sets, name) : none;
    Data& data = isBad ? *u.data : *sets.data; const int batch = isBad ? u.batch : 1;
    unlink(file.c_str());
    { std::unique_lock<std::mutex> g(gm); curF = op.f; }
    flow = 0;
    Ev("call").str("op", name).b("bad", isBad).str("why", u.why).i("f", op.f).raw("wait", op.wait).out();
    bool threw = false;
    timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
    try
    {
        armed = true;
        if (name == "start") net->startTrainingAsync(data, batch, op.f);
        else if (name == "stop") net->stopTrainingAsync();
        else if (name == "train") net->train(data, 1_ep, batch, op.f);
        else if (name == "eval") net->evaluate(data);
        else if (name == "save") net->saveAs(file);
        else if (name == "copy") { StraightforwardNeuralNetwork c(*net); }
        else if (name == "wait") net->waitFor(op.w());
        else if (name == "destroy") { auto* n = net; delete n; }
    }
    catch (...) { threw = true; }
    clock_gettime(CLOCK_MONOTONIC, &b);
    bool made = access(file.c_str(), F_OK) == 0;
    Ev("ret").str("op", name).b("threw", threw).b("made", made).i("ms", (b.tv_sec - a.tv_sec) * 1000 + (b.tv_nsec - a.tv_nsec) / 1000000 + 1).out();
    { std::lock_guard<std::mutex> g(traceMutex); bool v = name == "destroy" ? false : net->isTraining(); Ev("training").b("v", v).outLocked(); }
    if (name == "destroy") net = nullptr;
}

// a call made by another thread of the user, while a blocking training of this thread is in the middle of a training step
static void nestedCall(std::string op, Sets& sets, const std::string& file)
{
    const bool isBad = splitBad(op);
    static const Unfit none{"", nullptr, 1};
    const Unfit& u = isBad ? pickUnfit(sets, op) : none;
    Data& data = isBad ? *u.data : *sets.data; const int batch = isBad ? u.batch : 1;
    std::atomic<bool> open{false}, over{false}; bool threw = false, v = false;
    unlink(file.c_str());
    armed = false;
    std::thread t([&] {
        while (!open) usleep(20);
        try
        {
            if (op == "start") net->startTrainingAsync(data, batch, curF);
            else if (op == "stop") net->stopTrainingAsync();
            else if (op == "train") net->train(data, 1_ep, batch, curF);
            else if (op == "eval") net->evaluate(data);
            else if (op == "save") net->saveAs(file);
            else if (op == "copy") { StraightforwardNeuralNetwork c(*net); }
        }
        catch (...) { threw = true; }
        v = net->isTraining();
        over = true;
    });
    armed = true; open = true;
    while (!over) usleep(20);
    armed = false; t.join(); armed = true;
    Ev("nested").str("op", op).b("bad", isBad).str("why", u.why).b("threw", threw).b("v", v).b("made", access(file.c_str(), F_OK) == 0).out();
    unlink(file.c_str());
}

static void runPlan(Plan P, int n)
{
    Rng rng(P.seed); std::mutex rm;
    auto I = onehots(N, N + NT, 0), L = onehots(N, N, 0), TI = onehots(NT, N + NT, N), TL = onehots(NT, N, 0);
    Data data(problem::classification, I, L, TI, TL);
    auto I2 = onehots(N, N + NT + 1, 0), TI2 = onehots(NT, N + NT + 1, N);
    auto L3 = onehots(N, N + 1, 0), TL3 = onehots(NT, N + 1, 0);
    Data inputs(problem::classification, I2, L, TI2, TL), outputs(problem::classification, I, L3, TI, TL3);
    auto I3 = onehots(N, N + NT - 1, 0), TI3 = onehots(NT, N + NT - 1, 0);
    Data sameSum(problem::classification, I3, L3, TI3, TL3);
    std::vector<fmat> SI{I}, STI{TI};
    Data sequences(problem::classification, SI, L, STI, TL, nature::sequential);
    Sets sets; sets.data = &data;
    sets.unfit = {{"inputs", &inputs, 1}, {"batch 0", &data, 0}, {"outputs", &outputs, 1}, {"batch too large", &data, N + 1}, {"sequences in batches", &sequences, 2},
                  {"inputs and outputs", &sameSum, 1}, {"batch -1", &data, -1}, {"inputs and batch", &inputs, N + 1}, {"outputs and batch", &outputs, 2}};
    sets.next = P.firstBad >= 0 ? P.firstBad : rng.in(0, 8);
    net = new StraightforwardNeuralNetwork({Input(N + NT), FullyConnected(N)});
    net->layers.clear(); net->layers.push_back(std::make_unique<Probe>(N + NT, N));
    const std::string file = workDir + "/session" + std::to_string(n) + ".snn";
    net->autoSaveFilePath = file;
    std::atomic<int> calls{0}, evs{0}, nestedDepth{0};
    const bool stress = P.kind == "stress";
    auto pause = [&](int maxUs) { if (!stress) return; int us; { std::lock_guard<std::mutex> g(rm); us = rng.in(0, maxUs); } if (us > maxUs / 2) usleep((unsigned)us); };
    ProbeHooks h;
    h.train = [&](const fvec&, bool) {
        bool nan = ++calls == P.nanAt + 1 && P.nanAt >= 0;
        Ev("b").i("t", me).b("nan", nan).out();
        if (me) gate("b");
        else if (!P.nested.empty() && nestedDepth == 0) { std::string o = P.nested.front(); P.nested.erase(P.nested.begin()); if (o != "none") { ++nestedDepth; nestedCall(o, sets, file); --nestedDepth; } }
        pause(200); slowDown();
        fvec o((size_t)N, 0.25f); if (nan) { o[0] = std::numeric_limits<float>::quiet_NaN(); Ev("x").i("t", me).out(); if (me) gate("x"); }
        return o;
    };
    h.learn = [&](fvec&, bool) { pause(100); slowDown(); Ev("x").i("t", me).out(); if (me) gate("x"); return fvec(); };
    h.eval = [&](const fvec& in, bool) {
        bool nan = ++calls == P.nanAt + 1 && P.nanAt >= 0;
        int k = evs++; int which = in[(size_t)N] > 0.5f ? 0 : 1;
        int well = P.wells.empty() ? 1 : P.wells[std::min((size_t)(k / NT), P.wells.size() - 1)];
        bool ok = which < well;
        fvec o((size_t)N, 0.f); o[(size_t)(ok ? which : 1 - which)] = 1.f;
        if (nan) o[0] = std::numeric_limits<float>::infinity();
        Ev("ev").i("t", me).b("nan", nan).b("ok", ok).out();
        if (me) gate("ev");
        pause(60); slowDown();
        return o;
    };
    hooks = &h;
    gating = !stress;
    // a user thread, so that a blocked call does not block the schedule
    std::thread user([&] {
        for (;;)
        {
            Op op;
            { std::unique_lock<std::mutex> g(um); ucv.wait(g, [] { return !queue_.empty() || quit; }); if (queue_.empty()) return; op = queue_.front(); queue_.erase(queue_.begin()); }
            runOp(op, sets, file);
            armed = false;
            { std::unique_lock<std::mutex> g(um); busy = false; } ucv.notify_all();
        }
    });
    auto waitUser = [&](int ms, bool orJoining) { // until the call returned, or blocks
        for (int t = 0; t < ms * 10; ++t)
        {
            { std::unique_lock<std::mutex> g(um); if (!busy) return true; }
            if (orJoining && userJoining) { return false; }
            usleep(100);
        }
        std::unique_lock<std::mutex> g(um); return !busy;
    };
    auto issue = [&](const Op& o) { { std::unique_lock<std::mutex> g(um); busy = true; queue_.push_back(o); } ucv.notify_all(); };
    auto settle = [&] { // until the training thread is held again, or over
        std::unique_lock<std::mutex> g(gm);
        gcv.wait_for(g, std::chrono::seconds(3), [] { return heldTid != 0 || exited == created; });
    };
    auto advance = [&] {
        int over;
        { std::unique_lock<std::mutex> g(gm);
          if (heldTid == 0) return;
          int h = holds, x = exited; over = x;
          permit = true; gcv.notify_all();
          gcv.wait_for(g, std::chrono::seconds(3), [&] { return holds > h || exited > x; });
          over = exited - x; }
        if (over) { waitUser(25, false); settle(); } // a blocked call goes on
    };
    size_t oi = 0;
    for (auto& tok : P.sched)
    {
        if (tok == "adv") advance();
        else if (tok == "free") { std::unique_lock<std::mutex> g(gm); gating = false; gcv.notify_all(); }
        else
        {
            for (int k = 0; !stress && gating && k < 40 && !waitUser(25, false); ++k) advance(); // still in the previous call: let the training go on
            if (!waitUser(15000, false)) break;
            Op o; if (tok == "op") o = P.ops[oi++]; else { o.op = tok; }
            if (o.f == 0) o.f = P.f;
            if (!net && o.op != "none") break;
            issue(o);
            if (stress) { if (rng.chance(60)) usleep((unsigned)rng.in(0, 1500)); continue; }
            if (o.op == "wait")
            {
                if (o.patience > 0) { if (!waitUser(o.patience, false)) { Ev("blocked").i("ms", o.patience).out(); } }
                else waitUser(25, false);
            }
            else waitUser(2000, true);
            settle();
        }
    }
    { std::unique_lock<std::mutex> g(gm); gating = false; gcv.notify_all(); }
    waitUser(15000, false);
    // afterwards: the network is stopped, and everything is accepted again
    if (net) for (auto* nm : {"stop", "save", "copy", "train", "destroy"}) { Op o; o.op = nm; issue(o); if (!waitUser(15000, false)) break; }
    { std::unique_lock<std::mutex> g(um); if (busy) { pause(0); } quit = true; }
    ucv.notify_all();
    for (int t = 0; t < 50000; ++t) { std::unique_lock<std::mutex> g(um); if (!busy) break; g.unlock(); usleep(100); }
    Ev("done").out();
    unlink(file.c_str());
    { std::unique_lock<std::mutex> g(um); if (busy) { for (;;) { g.unlock(); usleep(100000); g.lock(); } } } // a call never returned: a hang
    _exit(0);
}

static std::string leafj(const char* k, int v) { return std::string("{\"k\":\"") + k + "\",\"v\":" + std::to_string(v) + "}"; }

int main(int argc, char** argv)
{
    Args A = parse(argc, argv);
    if (!A.work.empty()) workDir = A.work;
    Rng g(A.seed);
    std::vector<Plan> plans;
    const std::string& p = A.prop;
    bool c12 = p == "C12", c04 = p == "C04", c08 = p == "C08", main_ = p.empty() || p == "C01" || p == "C02";
    if (main_ && !A.in.empty())
    {   // schedules generated from the specification: one per line, "f tok tok ..."
        std::ifstream f(A.in); std::string line;
        while (std::getline(f, line)) { Plan q; q.kind = "sched"; std::istringstream ss(line); ss >> q.f; std::string t; while (ss >> t) q.sched.push_back(t); q.seed = g.next(); plans.push_back(q); }
    }
    if (main_) for (int k = 0; k < (A.thorough ? 400 : 60); ++k)
    {   // free-running histories
        Plan q; q.kind = "stress"; q.f = g.in(0, 2); q.seed = g.next();
        int n = g.in(3, 12);
        q.sched.push_back("start");
        for (int i = 0; i < n; ++i) q.sched.push_back(g.pick(std::vector<std::string>{"start", "start", "stop", "stop", "train", "save", "copy", "startbad", "trainbad", "evalbad"}));
        if (g.chance(40)) q.sched.push_back("destroy");
        if (g.chance(20)) q.nanAt = g.in(0, 12);
        plans.push_back(q);
    }
    auto nestOp = [&] { return g.pick(std::vector<std::string>{"save", "copy", "train", "start", "stop", "startbad", "trainbad", "evalbad", "none", "none"}); };
    if (main_) for (auto& q : plans) if (g.chance(70)) for (int i = 0; i < 8; ++i) q.nested.push_back(nestOp());
    if (main_) for (auto* o : {"save", "copy", "train", "start", "stop"}) for (int at = 0; at < 2; ++at) for (int f = 0; f < 2; ++f)
    {   // every call during a blocking training, at each of its steps
        Plan q; q.kind = "nested"; q.f = f; q.seed = g.next(); q.sched = {"train", "save", "train"};
        for (int i = 0; i < at; ++i) q.nested.push_back("none");
        q.nested.push_back(o); q.nested.push_back(nestOp());
        plans.push_back(q);
    }
    if (main_ || c08) for (int bad = 0; bad < 9; ++bad) for (auto* o : {"startbad", "trainbad", "evalbad"}) for (int f = 0; f < 2; ++f) for (int at = 0; at < (A.thorough ? 12 : 6); ++at)
    {   // data that do not fit, offered on an idle network (at = 0), at each point of a background training, in a blocking one (the last two)
        Plan q; q.kind = "unfit"; q.f = f; q.seed = g.next(); q.firstBad = bad;
        const int nestedFrom = A.thorough ? 10 : 4;
        if (at >= nestedFrom) { q.sched = {"train", "save", "start", "adv", "adv", "stop"}; if (at > nestedFrom) q.nested.push_back("none"); q.nested.push_back(o); q.nested.push_back("none"); }
        else if (at == 0) { q.sched = {o, g.pick(std::vector<std::string>{"save", "copy", "train"}), o, "start", "adv", "adv", o, "adv", "stop"}; }
        else { q.sched = {"start"}; int n = A.thorough ? at - 1 : (at - 1) * 3 + g.in(0, 2); for (int i = 0; i < n; ++i) q.sched.push_back("adv"); q.sched.push_back(o);
               for (int i = g.in(1, 4); i > 0; --i) q.sched.push_back("adv"); q.sched.push_back(g.pick(std::vector<std::string>{"stop", "save", "startbad", "start"})); q.sched.push_back("adv"); }
        plans.push_back(q);
    }
    if (main_ || c12) for (int k = 0; k < (c12 ? (A.thorough ? 400 : 100) : (A.thorough ? 200 : 60)); ++k)
    {   // a background training that meets a non-finite output, and calls around it
        Plan q; q.kind = "nan"; q.f = g.in(0, 1); q.nanAt = g.in(0, 9); q.seed = g.next();
        q.sched.push_back("start");
        int n = g.in(0, 24); for (int i = 0; i < n; ++i) q.sched.push_back("adv");
        if (g.chance(60)) { Op w; w.op = "wait"; w.w = [] { return Wait(); }; q.ops.push_back(w); q.sched.push_back(g.chance(50) ? "free" : "adv"); q.sched.push_back("op"); q.sched.push_back("free"); }
        else q.sched.push_back(g.pick(std::vector<std::string>{"stop", "start", "train", "save", "copy", "destroy"}));
        if (g.chance(40)) q.sched.push_back("adv");
        plans.push_back(q);
    }
    if (c04 || p.empty() || c12)
    {   // waits: the training is held at known points
        struct C { std::string j; std::function<Wait()> w; };
        auto E = [](int v) { return C{leafj("ep", v), [v] { return operator""_ep((unsigned long long)v); }}; };
        auto Ac = [](int v) { return C{leafj("acc", v), [v] { return operator""_acc((long double)v / 8); }}; };
        auto M = [](int v) { return C{leafj("mae", v), [v] { return operator""_mae((long double)v / 4); }}; };
        auto T = [](int v) { return C{leafj("ms", v), [v] { return operator""_ms((unsigned long long)v); }}; };
        auto AN = [](C a, C b) { return C{"{\"k\":\"and\",\"l\":" + a.j + ",\"r\":" + b.j + "}", [a, b] { Wait l = a.w(); Wait r = b.w(); return l && r; }}; };
        auto ORR = [](C a, C b) { return C{"{\"k\":\"or\",\"l\":" + a.j + ",\"r\":" + b.j + "}", [a, b] { Wait l = a.w(); Wait r = b.w(); return l || r; }}; };
        std::vector<C> cs = {E(0), E(1), E(2), Ac(4), Ac(8), Ac(0), M(8), M(0), M(4), T(0), T(30), AN(E(1), Ac(8)), AN(Ac(4), E(2)), AN(T(20), E(1)), ORR(E(3), Ac(4)), ORR(M(0), E(2)),
                             ORR(Ac(8), T(60)), AN(M(0), Ac(8)), AN(AN(E(1), Ac(4)), M(8)), ORR(ORR(E(2), Ac(8)), M(0)), AN(Ac(8), M(4)), AN(T(10), M(8))};
        int reps = c12 ? 0 : A.thorough ? 8 : 1;
        for (int r = 0; r < reps; ++r) for (size_t c = 0; c < cs.size(); ++c) for (int pos = 1; pos <= 3; ++pos)
        {
            Plan q; q.kind = "wait"; q.f = 1; q.seed = g.next(); q.wells = g.pick(std::vector<ivec>{{0, 1, 2}, {0, 0, 1, 2}, {1, 2}, {0, 1, 1, 1, 2}, {0, 2, 0, 2}});
            q.sched.push_back("start");
            // one epoch: evaluation (first one: before), 2 steps: tokens until the begin of the first step of epoch e+1
            int e = pos - 1;                                    // epochs over when the wait is called
            int adv = 1 + NT + e * (2 * N + NT);                // start, initial evaluation, then (b x) per step and the evaluation
            for (int i = 0; i < adv; ++i) q.sched.push_back("adv");
            Op w; w.op = "wait"; w.wait = cs[c].j; w.w = cs[c].w;
            // when the criterion must already hold here, the wait has to return while the training is held
            w.patience = 1100 + (int)(g.next() % 7); if (pos != 1 + (int)((c + (size_t)r) % 3) && !A.thorough) w.patience = 0;
            q.ops.push_back(w); q.sched.push_back("op");
            int more = g.in(0, 14); for (int i = 0; i < more; ++i) q.sched.push_back("adv");
            plans.push_back(q);
        }
    }
    std::vector<Scenario> scs;
    for (size_t i = 0; i < plans.size(); ++i)
    {
        auto& q = plans[i];
        std::string sj = "["; for (size_t k = 0; k < q.sched.size(); ++k) sj += (k ? ",\"" : "\"") + q.sched[k] + "\""; sj += "]";
        scs.push_back({"\"kind\":\"" + q.kind + "\",\"f\":" + std::to_string(q.f) + ",\"per\":" + std::to_string(N) + ",\"nt\":" + std::to_string(NT) + ",\"sched\":" + sj, [q, i] { runPlan(q, (int)i); }, 40});
    }
    return runAll(scs, A.out, A.jobs);
}
