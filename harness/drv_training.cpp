// Drives trainings, evaluations, predictions and data accessors from one thread, and records what the network
// presents to its layer. Judged by spec/TrainingTrace.tla (C03-C08, C10-C12, C21).
#define VF_MAIN
#include "snn.hpp"
using namespace vf;
using namespace snn;

// ---- virtual clock: time passes only inside the probe -------------------------------------------------------
static int vnow = 0;
extern "C" long _ZNSt6chrono3_V212system_clock3nowEv() { return 1700000000000000000L + (long)vnow * 1000000L; }
extern "C" long _ZNSt6chrono3_V212steady_clock3nowEv() { return 5000000000L + (long)vnow * 1000000L; }

struct W { std::string k; int v = 0; std::shared_ptr<W> l, r; };
using PW = std::shared_ptr<W>;
static PW leaf(const std::string& k, int v) { auto w = std::make_shared<W>(); w->k = k; w->v = v; return w; }
static PW node(const std::string& k, PW l, PW r) { auto w = std::make_shared<W>(); w->k = k; w->l = l; w->r = r; return w; }
static std::string wjson(const PW& w) { if (w->l) return "{\"k\":\"" + w->k + "\",\"l\":" + wjson(w->l) + ",\"r\":" + wjson(w->r) + "}"; return "{\"k\":\"" + w->k + "\",\"v\":" + std::to_string(w->v) + "}"; }
static Wait build(const PW& w)
{
    if (w->k == "ep") return operator""_ep((unsigned long long)w->v);
    if (w->k == "acc") return operator""_acc((long double)w->v / 8);
    if (w->k == "mae") return operator""_mae((long double)w->v / 4);
    if (w->k == "ms") return operator""_ms((unsigned long long)w->v);
    if (w->k == "never") return Wait();
    Wait l = build(w->l); const Wait r = build(w->r);
    return w->k == "and" ? (l && r) : (l || r);
}

struct DS
{
    std::string prob = "cls", nat = "non"; int n = 4, nt = 4, R = 0, lim = 2, nin = 0, nout = 0; ivec st, sv; std::vector<ivec> des; bool d3 = false;
    fmat trI, trL, teI, teL; std::shared_ptr<Data> data;
    std::string json() const
    {
        Ev e("x"); e.s = "{\"prob\":\"" + prob + "\",\"nat\":\"" + nat + "\"";
        e.i("n", n).i("nt", nt).i("R", R).i("lim", lim).i("nin", nin).i("nout", nout).a("st", st).a("sv", sv).aa("des", des); return e.s + "}";
    }
    void make()
    {
        auto onehot = [](int size, int at, float v = 1.f) { fvec r((size_t)size, 0.f); if (at < size) r[(size_t)at] = v; return r; };
        trI.clear(); trL.clear(); teI.clear(); teL.clear();
        for (int i = 0; i < n; ++i) { trI.push_back(onehot(nin, i)); trL.push_back(onehot(nout, i)); }
        for (int j = 0; j < nt; ++j) { teI.push_back(onehot(nin, n + j)); fvec l; for (int q : des[(size_t)j]) l.push_back((float)q / 4.f); teL.push_back(l); }
        auto p = prob == "cls" ? problem::classification : prob == "mul" ? problem::multipleClassification : problem::regression;
        if (nat == "seq")
        {
            std::vector<fmat> a, b; size_t k = 0;
            for (int len : st) { fmat s; for (int j = 0; j < len; ++j) s.push_back(trI[k++]); a.push_back(s); }
            k = 0;
            for (int len : sv) { fmat s; for (int j = 0; j < len; ++j) s.push_back(teI[k++]); b.push_back(s); }
            auto la = trL, lb = teL;
            data = std::make_shared<Data>(p, a, la, b, lb, nature::sequential);
        }
        else
        {
            auto a = trI, la = trL, b = teI, lb = teL;
            if (nat == "ts") data = std::make_shared<Data>(p, a, la, b, lb, nature::timeSeries, R);
            else data = std::make_shared<Data>(p, a, la, b, lb);
        }
        if (prob == "reg") data->setPrecision((float)lim / 4.f); else data->setSeparator((float)lim / 4.f);
    }
    bool same() const { return data->sets[snn::training].inputs == trI && data->sets[snn::training].labels == trL && data->sets[snn::testing].inputs == teI && data->sets[snn::testing].labels == teL; }
};

// counts of a batched one-hot vector -> ids (with repetitions); [-1] if it is not an average of `b` one-hot vectors
static ivec decode(const fvec& v, int b)
{
    ivec r;
    for (size_t i = 0; i < v.size(); ++i)
    {
        float x = v[i] * (float)b; int c = (int)std::lround(x);
        if (notFinite(x) || std::fabs(x - (float)c) > 0.02f || c < 0 || c > 64) return {-1};
        for (int j = 0; j < c; ++j) r.push_back((int)i);
    }
    return r;
}

struct Op { std::string op; int d = 0; PW wait; int b = 1, f = 0, i = 0; };
struct Plan { int nin = 0, nout = 0; bool autosave = false; std::vector<DS> ds; std::vector<Op> ops; uint64_t seed = 1; int nanAt = -1, nanKind = 0, dt = 1, style = 0; };

static std::string workDir = "/tmp";

static void runPlan(Plan P, int n)
{
    vnow = 0;
    Rng rng(P.seed);
    for (auto& d : P.ds) d.make();
    StraightforwardNeuralNetwork net({Input(P.nin), FullyConnected(P.nout)});
    net.layers.clear();
    net.layers.push_back(std::make_unique<Probe>(P.nin, P.nout));
    const std::string file = workDir + "/auto" + std::to_string(n) + ".snn";
    unlink(file.c_str());
    net.autoSaveFilePath = file;
    net.autoSaveWhenBetter = P.autosave;
    int curB = 1, curD = 0, calls = 0; bool evalPending = false, predicting = false; fvec lastTrainOut, lastOut; ivec lastIds; ProbeHooks h;
    auto stats = [&](Ev& e) {
        auto fxs = [](float a, float b, float c, float d, float m) { return "{\"acc\":" + std::to_string(fix(a, 1e6)) + ",\"wr\":" + std::to_string(fix(b, 1e6)) + ",\"f1\":" + std::to_string(fix(c, 1e6)) + ",\"mae\":" + std::to_string(fix(d, 1e5)) + ",\"rm2\":" + std::to_string(fix(m, 1e2)) + ",\"rm3\":" + std::to_string(fix(m, 1e3)) + "}"; };
        e.raw("st", fxs(net.getGlobalClusteringRate(), net.getWeightedClusteringRate(), net.getF1Score(), net.getMeanAbsoluteError(), net.getRootMeanSquaredError()));
        e.raw("mx", fxs(net.getGlobalClusteringRateMax(), net.getWeightedClusteringRateMax(), net.getF1ScoreMax(), net.getMeanAbsoluteErrorMin(), net.getRootMeanSquaredErrorMin()));
    };
    auto saved = [&] {
        if (access(file.c_str(), F_OK) != 0) return;
        int steps = -1, evals = -1; bool tr = false, loads = true;
        try { auto& l = StraightforwardNeuralNetwork::loadFrom(file); tr = l.isTraining(); auto* p = dynamic_cast<Probe*>(l.layers.at(0).get()); if (p) { steps = p->steps; evals = p->evals; } loads = p != nullptr && l.isValid() == 0 ; delete &l; }
        catch (...) { loads = false; }
        unlink(file.c_str());
        Ev("saved").i("steps", steps).i("evals", evals).b("training", tr).b("loads", loads).out();
    };
    auto maybeNan = [&](fvec& o) {
        ++calls;
        if (P.nanAt >= 0 && calls == P.nanAt + 1) {
            o[(size_t)rng.in(0, (int)o.size() - 1)] = P.nanKind == 0 ? std::numeric_limits<float>::quiet_NaN() : P.nanKind == 1 ? std::numeric_limits<float>::infinity() : -std::numeric_limits<float>::infinity();
            return true;
        }
        return false;
    };
    auto randomOut = [&] {
        fvec o;
        for (int i = 0; i < P.nout; ++i) {
            int q = P.style == 1 ? rng.in(-4, -1) : P.style == 2 ? rng.pick(ivec{-4, 0, 1, 2, 2, 3, 4}) : rng.in(-4, 4);
            o.push_back((float)q / 4.f);
        }
        return o;
    };
    h.train = [&](const fvec& in, bool reset) {
        saved();
        if (evalPending) { evalPending = false; Ev e("st"); stats(e); e.out(); }
        vnow += rng.in(0, P.dt);
        fvec o = randomOut();
        if (P.style == 3) for (auto& x : o) x *= rng.chance(50) ? 1e30f : 1e-38f;   // large and tiny finite values
        bool nan = maybeNan(o);
        lastTrainOut = o;
        lastIds = decode(in, curB);
        Ev("fwd").a("ids", lastIds).b("reset", reset).i("t", vnow).b("nan", nan).out();
        return o;
    };
    h.learn = [&](fvec& err, bool) {
        saved();
        vnow += rng.in(0, P.dt);
        fvec des;
        if (err.size() == lastTrainOut.size() && P.style != 3) for (size_t i = 0; i < err.size(); ++i) des.push_back(err[i] / 2.f + lastTrainOut[i]);
        ivec ids = P.style == 3 ? ivec{} : decode(des, curB);
        if (P.style == 3) { // the expected outputs cannot be recovered beside huge outputs: only the presence of the step is judged
            Ev("learn").a("ids", lastIds).i("t", vnow).out();
        } else Ev("learn").a("ids", ids).i("t", vnow).out();
        return fvec((size_t)P.nin, 0.f);
    };
    h.eval = [&](const fvec& in, bool reset) {
        saved();
        vnow += rng.in(0, P.dt);
        fvec o = randomOut();
        const DS& d = P.ds[(size_t)curD];
        if (P.style == 4 && !predicting) { ivec id = decode(in, 1); if (id.size() == 1 && id[0] >= d.n && id[0] < d.n + d.nt && rng.chance(70)) for (int k = 0; k < P.nout; ++k) o[(size_t)k] = (float)d.des[(size_t)(id[0] - d.n)][(size_t)k] / 4.f; }
        bool nan = maybeNan(o);
        lastOut = o;
        ivec id = decode(in, 1);
        ivec q; for (float x : o) q.push_back(fix(x, 4));
        Ev("ev").i("id", id.size() == 1 ? (predicting ? id[0] : id[0] - d.n) : -1).b("reset", reset).a("out", q).i("t", vnow).b("nan", nan).out();
        if (!predicting) evalPending = true;
        return o;
    };
    hooks = &h;
    bool fresh = false;
    for (auto& op : P.ops)
    {
        auto& ds = P.ds[(size_t)op.d];
        Data& D = *ds.data;
        if (op.op == "train" || op.op == "evaluate" || op.op == "predict")
        {
            Ev c("call"); c.str("op", op.op).i("d", op.d + 1);
            if (op.op == "train") c.raw("wait", wjson(op.wait)).i("b", op.b).i("f", op.f);
            c.out();
            curB = op.op == "train" ? op.b : 1; curD = op.d; predicting = op.op == "predict"; evalPending = false;
            bool threw = false, same = true; int cls = -1; lastOut.clear();
            try
            {
                if (op.op == "train") { Wait w = build(op.wait); net.train(D, w, op.b, op.f); }
                else if (op.op == "evaluate") net.evaluate(D);
                else if (rng.chance(50)) { cls = net.computeCluster(ds.trI[0]); }
                else { auto o = net.computeOutput(ds.trI[0]); same = o.size() == lastOut.size() && std::memcmp(o.data(), lastOut.data(), o.size() * 4) == 0;
                       // the class, from the outputs the caller got
                       cls = -1; float m = 0; for (size_t k = 0; k < o.size(); ++k) if (cls < 0 || o[k] > m) { m = o[k]; cls = (int)k; } }
            }
            catch (...) { threw = true; }
            saved();
            evalPending = false;
            Ev r("ret"); r.b("threw", threw).b("training", net.isTraining()).b("nan", net.hasNan()).i("ntr", net.getNumberOfTraining()).i("cls", cls).b("same", same);
            stats(r); r.out();
        }
        else if (op.op == "shuffle") { D.shuffle(); fresh = true; Ev("shuffle").i("d", op.d + 1).out(); }
        else if (op.op == "unshuffle") { D.unshuffle(); Ev("unshuffle").i("d", op.d + 1).out(); }
        if (op.op == "shuffle" || op.op == "unshuffle" || op.op == "order")
        {
            ivec ids, lab, cls; std::vector<bool> first, need, tneed, tfirst; ivec tids; bool tlab = true;
            for (int i = 0; i < ds.n; ++i)
            {
                auto a = decode(D.getTrainingData(i), 1), b = decode(D.getTrainingOutputs(i), 1);
                auto a2 = decode(D.getData(snn::training, i), 1), b2 = decode(D.getOutputs(snn::training, i), 1);
                ids.push_back(a.size() == 1 && a == a2 ? a[0] : -1); lab.push_back(b.size() == 1 && b == b2 ? b[0] : -2);
                if (ds.prob == "cls") { int l = -3; try { l = D.getTrainingLabel(i); if (D.getLabel(snn::training, i) != l) l = -4; } catch (...) {} cls.push_back(l); }
                first.push_back(D.isFirstTrainingDataOfTemporalSequence(i)); need.push_back(D.needToLearnOnTrainingData(i));
            }
            for (int j = 0; j < ds.nt; ++j)
            {
                tneed.push_back(D.needToEvaluateOnTestingData(j)); tfirst.push_back(D.isFirstTestingDataOfTemporalSequence(j));
                auto a = decode(D.getTestingData(j), 1); tids.push_back(a.size() == 1 && D.getData(snn::testing, j) == D.getTestingData(j) ? a[0] - ds.n : -1);
                if (ds.prob == "cls") { int l = -1; try { l = D.getTestingLabel(j); if (D.getLabel(snn::testing, j) != l) l = -1; } catch (...) {} if (l < 0 || ds.des[(size_t)j][(size_t)l] != 4) tlab = false; }
                else { const auto& o = D.getTestingOutputs(j); for (int k = 0; k < ds.nout; ++k) if (o[(size_t)k] != (float)ds.des[(size_t)j][(size_t)k] / 4.f) tlab = false; if (D.getOutputs(snn::testing, j) != o) tlab = false; }
            }
            Ev("order").i("d", op.d + 1).a("ids", ids).a("lab", lab).a("cls", cls).a("first", first).a("need", need).a("tneed", tneed).a("tfirst", tfirst).a("tids", tids).b("tlab", tlab).b("fresh", fresh).out();
            fresh = false;
        }
        if (op.op == "batch")
            Ev("batch").i("d", op.d + 1).i("i", op.i).i("b", op.b).a("ids", decode(D.getTrainingData(op.i, op.b), op.b)).a("lab", decode(D.getTrainingOutputs(op.i, op.b), op.b)).out();
        for (size_t k = 0; k < P.ds.size(); ++k) if (!P.ds[k].same()) Ev("content").i("d", (int)k + 1).b("same", false).out();
    }
    hooks = nullptr;
    Ev("done").out();
    unlink(file.c_str());
}

// ---- scenario generation --------------------------------------------------------------------------------------
static ivec parts(Rng& g, int total, int maxLen) { ivec r; while (total > 0) { int l = g.in(1, std::min(maxLen, total)); r.push_back(l); total -= l; } return r; }

static DS randomData(Rng& g, const std::string& nat, const std::string& prob, int nout, bool pow2)
{
    DS d; d.nat = nat; d.prob = prob; d.nout = nout;
    const bool big = nout > 9;
    if (nat == "seq") d.st = parts(g, g.in(1, nout), big ? 12 : 4), d.n = 0; else d.n = g.in(1, nout);
    for (int x : d.st) d.n += x;
    if (nat == "ts") d.R = g.in(1, big ? 12 : 4);
    if (nat == "seq") { int k = pow2 ? g.pick(ivec{1, 2, 4}) : g.in(1, 5); for (int i = 0; i < k; ++i) d.sv.push_back(g.in(1, 3)); d.nt = 0; for (int x : d.sv) d.nt += x; }
    else d.nt = pow2 ? g.pick(ivec{1, 2, 4, 8}) : g.in(1, big ? 14 : 9);
    for (int j = 0; j < d.nt; ++j)
    {
        ivec row((size_t)nout, 0);
        if (prob == "cls") row[(size_t)g.in(0, g.chance(40) ? std::min(1, nout - 1) : nout - 1)] = 4;
        else if (prob == "mul") for (auto& q : row) q = g.chance(40) ? 4 : 0;
        else for (auto& q : row) q = g.in(-4, 4);
        d.des.push_back(row);
    }
    d.lim = prob == "reg" ? g.pick(ivec{0, 1, 2, 4}) : g.pick(ivec{1, 2, 2, 2, 3, 0});
    return d;
}

static PW randomWait(Rng& g, bool thresholds)
{
    auto lf = [&]() -> PW { switch (g.in(0, thresholds ? 5 : 1)) { case 0: case 1: return leaf("ep", g.in(0, 4)); case 2: return leaf("acc", g.in(0, 8)); case 3: return leaf("mae", g.in(0, 10)); case 4: return leaf("ms", g.in(0, 40)); default: return leaf("ep", g.in(1, 3)); } };
    if (!thresholds || g.chance(45)) return lf();
    std::string op = g.chance(50) ? "and" : "or";
    PW w = lf(); int k = g.in(1, 3);
    for (int i = 0; i < k; ++i) w = g.chance(50) ? node(op, w, lf()) : node(op, lf(), w);
    return w;
}
// a criterion that ends for sure, so that a scenario does: bounded by epochs whatever the statistics do
static PW bounded(Rng& g, PW w, int ep)
{
    std::function<bool(const PW&)> hasAnd = [&](const PW& x) { return x->k == "and" || (x->l && (hasAnd(x->l) || hasAnd(x->r))); };
    if (!hasAnd(w)) return g.chance(50) ? node("or", w, leaf("ep", ep)) : node("or", leaf("ep", ep), w);
    return nullptr;
}

int main(int argc, char** argv)
{
    Args A = parse(argc, argv);
    if (!A.work.empty()) workDir = A.work;
    std::vector<Plan> plans;
    Rng g(A.seed);
    auto add = [&](Plan p) { // sizes
        int nin = 0, nout = 0;
        for (auto& d : p.ds) { nin = std::max(nin, d.n + d.nt); nout = std::max(nout, d.nout); }
        p.nin = nin + 1; p.nout = nout; p.seed = g.next();
        for (auto& d : p.ds) { if (d.nin == 0) d.nin = p.nin; }
        plans.push_back(p);
    };
    const std::string& prop = A.prop;
    auto is = [&](const char* id) { return prop.empty() || prop == id; };
    auto probFor = [&] { return g.pick(std::vector<std::string>{"cls", "mul", "reg"}); };
    auto natFor = [&] { return g.pick(std::vector<std::string>{"non", "non", "seq", "ts"}); };
    const int scale = A.thorough ? 8 : 1;

    // systematic: shuffles and accessors (C05 C06 C07)
    auto dataOnly = [&](DS d, int shuffles, bool batches) {
        Plan p; p.ds.push_back(d);
        p.ops.push_back({"order", 0});
        for (int i = 0; i < shuffles; ++i)
        {
            p.ops.push_back({"shuffle", 0});
            if (batches) { for (int b = 1; b <= d.n; ++b) for (int k = 0; k + b <= d.n; k += b) p.ops.push_back({"batch", 0, nullptr, b, 0, k}); }
            if (d.nat == "non" && i == shuffles / 2) { p.ops.push_back({"unshuffle", 0}); p.ops.push_back({"batch", 0, nullptr, 1, 0, 0}); }
            if (d.nat == "seq" && i == shuffles / 2) p.ops.push_back({"unshuffle", 0});
        }
        p.ops.push_back({"unshuffle", 0});
        add(p);
    };
    if (is("C05")) for (int n = 1; n <= (A.thorough ? 12 : 8); ++n) for (auto prob : {"cls", "mul", "reg"}) { DS d = randomData(g, "non", prob, std::max(2, n), false); d.n = n; dataOnly(d, 3 * (A.thorough ? 4 : 1), true); }
    if (is("C05")) for (int k = 0; k < 12 * scale; ++k)
    {   // larger sets and batches
        int size = k % 4 == 3 ? g.in(70, 150) : g.in(13, 60); DS d = randomData(g, "non", probFor(), size, false); d.n = size;
        Plan p; p.ds.push_back(d);
        for (int i = 0; i < 2; ++i) { p.ops.push_back({"shuffle", 0}); for (int j = 0; j < 6; ++j) { int b = g.chance(50) ? g.in(2, 12) : g.in(2, d.n); p.ops.push_back({"batch", 0, nullptr, b, 0, g.in(0, d.n - b)}); } }
        p.ops.push_back({"train", 0, leaf("ep", 2), g.in(1, d.n), g.in(0, 1)});
        if (g.chance(50)) { p.ops.push_back({"unshuffle", 0}); p.ops.push_back({"batch", 0, nullptr, d.n, 0, 0}); }
        p.ops.push_back({"train", 0, leaf("ep", 2), g.in(d.n / 2, d.n), 0});
        add(p);
    }
    if (is("C06")) for (int k = 0; k < 25 * scale; ++k) { DS d = randomData(g, "seq", probFor(), g.in(2, 10), false); dataOnly(d, 4, false); }
    if (is("C06")) for (int k = 0; k < 6 * scale; ++k) { DS d = randomData(g, "seq", probFor(), g.in(11, 32), false); dataOnly(d, 3, false); }
    if (is("C07")) for (int k = 0; k < 4 * scale; ++k) { DS d = randomData(g, "ts", probFor(), g.in(11, 32), false); d.n = g.in(d.nout / 2, d.nout); d.R = g.in(5, 14); dataOnly(d, 2 * (d.R + 1) + 1, false); }
    if (is("C07")) for (int n = 1; n <= (A.thorough ? 14 : 9); ++n) for (int R = 1; R <= (A.thorough ? 6 : 4); ++R) { DS d = randomData(g, "ts", probFor(), std::max(2, n), false); d.n = n; d.R = R; dataOnly(d, 2 * (R + 1) + 1, false); }

    // systematic: the epoch schedule (C03), every small size, batch, number of epochs and evaluation frequency
    if (is("C03")) for (int n = 1; n <= 6; ++n) for (int b = 1; b <= n; ++b) for (int f = 0; f <= 3; ++f)
    {
        DS d = randomData(g, b == 1 ? natFor() : "non", probFor(), std::max(2, n), false);
        if (d.nat != "seq") d.n = n;
        Plan p; p.ds.push_back(d); p.style = g.pick(ivec{0, 4, 2});
        for (int N : {g.in(1, 2), g.in(3, 5)}) p.ops.push_back({"train", 0, leaf("ep", N), d.nat == "non" ? b : 1, f});
        if (g.chance(50)) p.ops.push_back({"evaluate", 0});
        add(p);
    }
    if (is("C03")) for (int k = 0; k < 16 * scale; ++k)   // longer trainings
    {
        DS d = randomData(g, natFor(), probFor(), g.in(2, 20), false);
        Plan p; p.ds.push_back(d); p.style = g.pick(ivec{0, 4, 2});
        int b = d.nat == "non" ? g.in(1, d.n) : 1, N = std::min(g.in(6, 40), 1 + 150 * b / d.n);
        p.ops.push_back({"train", 0, leaf("ep", N), b, g.in(0, 12)}); p.ops.push_back({"train", 0, leaf("ep", 1), 1, 1});
        add(p);
    }
    // refused data (C08)
    if (is("C08")) for (int k = 0; k < 60 * scale; ++k)
    {
        Plan p; int nout = g.in(2, 6);
        p.ds.push_back(randomData(g, natFor(), probFor(), nout, false));
        DS bad = randomData(g, natFor(), probFor(), nout, false);
        DS bad2 = bad;
        add(p); Plan& q = plans.back();
        int nin = std::max(q.nin, std::max(bad.n + bad.nt, 1) + 2);
        q.nin = nin; q.ds[0].nin = nin;
        bad.nin = g.chance(50) ? nin + g.in(1, 3) : nin - 1; // another number of inputs
        bad2.nin = nin; bad2.nout = nout + 1; if (bad2.prob == "cls" || true) for (auto& r : bad2.des) r.push_back(0);
        if (g.chance(40) && nout > 2) { bad2.nout = nout - 1; bad2.nat = "non"; bad2.R = 0; bad2.st.clear(); bad2.sv.clear(); bad2.n = std::min(bad2.n, nout - 1); for (auto& r : bad2.des) { r.pop_back(); r.pop_back(); if (bad2.prob == "cls") { r.assign((size_t)nout - 1, 0); r[0] = 4; } else r.resize((size_t)nout - 1, 0); } }
        q.ds.push_back(bad); q.ds.push_back(bad2);
        {   // both sizes differ, their sum or product not always
            DS both; both.prob = g.pick(std::vector<std::string>{"cls", "mul", "reg"});
            const int k = g.in(1, nout - 1);
            switch (g.in(0, 5))
            {
                case 0: both.nin = nin + k; both.nout = nout - k; break;
                case 1: both.nin = nin - 1; both.nout = nout + 1; break;
                case 2: both.nin = nout; both.nout = nin; break;
                case 3: both.nin = 2 * nin; both.nout = nout / 2; break;
                case 4: both.nin = nin + 1; both.nout = nout + 1; break;
                default: both.nin = nin - 1; both.nout = nout > 2 ? nout - 1 : nout + 2;
            }
            if (both.nout < 2 && both.prob == "cls") both.prob = "reg";
            both.n = g.in(1, 4); both.nt = g.in(1, 3);
            for (int j = 0; j < both.nt; ++j) { ivec row((size_t)both.nout, 0); row[(size_t)g.in(0, both.nout - 1)] = 4; both.des.push_back(row); }
            q.ds.push_back(both);
        }
        for (int o = 0; o < 10; ++o)
        {
            int d = g.in(0, 3); auto& D = q.ds[(size_t)d];
            int b = g.pick(ivec{1, 1, 0, -1, D.n, D.n + 1, D.n + 2, 2});
            if (g.chance(30)) q.ops.push_back({"evaluate", d}); else q.ops.push_back({"train", d, leaf("ep", 1), b, g.in(0, 2)});
        }
        q.ops.push_back({"train", 0, leaf("ep", 1), 1, 1});
    }
    // stop criteria (C04)
    if (is("C04")) for (int k = 0; k < 120 * scale; ++k)
    {
        Plan p; p.ds.push_back(randomData(g, g.chance(60) ? "non" : natFor(), probFor(), g.in(2, 5), true));
        p.style = g.pick(ivec{0, 4, 4, 2}); p.dt = g.pick(ivec{0, 1, 3}); 
        for (int o = 0; o < 3; ++o)
        {
            PW w = randomWait(g, true); PW bw = bounded(g, w, g.in(1, 6));
            if (!bw) { // conjunction: make sure it ends
                PW c = node("and", leaf("ep", g.in(0, 4)), leaf("ms", p.dt ? g.in(0, 60) : 0));
                if (g.chance(50)) c = node("and", c, leaf("acc", g.in(0, 2)));
                if (g.chance(50)) c = node("and", leaf("mae", 4 * p.ds[0].nout * 2), c);
                bw = c;
            }
            bool needsEval = true;
            p.ops.push_back({"train", 0, bw, p.ds[0].nat == "non" ? g.in(1, p.ds[0].n) : 1, needsEval ? g.in(1, 2) : 0});
        }
        p.style = 4;
        add(p);
    }
    // statistics (C10), best so far and saving (C11), anomalies (C12), predictions (C21): random histories
    int hist = (prop.empty() ? 200 : is("C10") || is("C11") || is("C12") || is("C21") ? 220 : is("C05") || is("C06") || is("C07") ? 180 : 60) * scale;
    for (int k = 0; k < hist; ++k)
    {
        Plan p; int nout = g.chance(8) ? g.in(10, 16) : g.in(2, 7), sets = g.in(1, 2);
        std::string nat = prop == "C05" ? "non" : prop == "C06" ? "seq" : prop == "C07" ? "ts" : "";
        for (int i = 0; i < sets; ++i) p.ds.push_back(randomData(g, nat.empty() ? natFor() : nat, probFor(), nout, false));
        p.autosave = g.chance(prop == "C11" ? 80 : 40);
        p.style = g.pick(ivec{0, 0, 1, 2, 4});
        p.dt = g.in(0, 2);
        if (prop == "C12" || (prop.empty() && g.chance(25))) { if (g.chance(75)) p.nanAt = g.in(0, 40), p.nanKind = g.in(0, 2); else p.style = 3; }
        int ops = g.in(2, 7);
        for (int o = 0; o < ops; ++o)
        {
            int d = g.in(0, sets - 1); auto& D = p.ds[(size_t)d];
            int c = g.in(0, 99), predictUpTo = prop == "C21" ? 50 : 15;
            if (c < predictUpTo) p.ops.push_back({"predict", d});
            else if (c < 45) p.ops.push_back({"evaluate", d});
            else if (c < 55) { p.ops.push_back({"shuffle", d}); if (D.nat == "non") { int b = g.in(1, D.n); p.ops.push_back({"batch", d, nullptr, b, 0, g.in(0, D.n - b)}); } }
            else if (c < 60) p.ops.push_back({"unshuffle", d});
            else p.ops.push_back({"train", d, leaf("ep", g.in(1, D.nat == "ts" ? D.R + 3 : 4)), D.nat == "non" ? g.in(1, D.n) : 1, g.in(0, 3)});
        }
        if (p.nanAt >= 0) p.ops.push_back({"train", 0, leaf("ep", 2), 1, 1});
        add(p);
    }
    std::vector<Scenario> scs;
    for (size_t i = 0; i < plans.size(); ++i)
    {
        auto& p = plans[i];
        std::string j = "\"nin\":" + std::to_string(p.nin) + ",\"nout\":" + std::to_string(p.nout) + ",\"autosave\":" + (p.autosave ? "true" : "false") + ",\"data\":[";
        for (size_t k = 0; k < p.ds.size(); ++k) j += (k ? "," : "") + p.ds[k].json();
        j += "]";
        scs.push_back({j, [p, i] { runPlan(p, (int)i); }, 20});
    }
    return runAll(scs, A.out, A.jobs);
}
