// Networks copied, saved, loaded, destroyed and operated on side by side: after every operation the parameters and
// statistics of all of them, and every result, are recorded as fingerprints. Judged by spec/TwinsTrace.tla (C13 C14 C15 C21).
#define VF_MAIN
#include "tap.hpp"
#include <thread>
using namespace vf;
using namespace snn;
struct Opt { std::string k; float v; };
struct M { std::string t; int n = 0, k = 0; std::string act = "id"; std::vector<Opt> opts; };
struct Desc { ivec shape; std::vector<M> ms; float lr = 0.25f, mom = 0.5f; };
struct Op { std::string k; int a = 0, b = 0; uint64_t seed = 0; int n = 0; bool reset = true, wild = false; Desc d; };
struct Plan { std::vector<Op> ops; std::string prob = "reg"; };
static std::string workDir = "/tmp";

static std::string hex(uint64_t h) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }
struct Hash
{
    uint64_t h = 1469598103934665603ull;
    void u(uint64_t x) { for (int i = 0; i < 8; ++i) { h ^= (x >> (8 * i)) & 255; h *= 1099511628211ull; } }
    void f(float x) { uint32_t b = std::bit_cast<uint32_t>(x); if ((b & 0x7FFFFFFFu) == 0) b = 0; if ((b & 0x7F800000u) == 0x7F800000u && (b & 0x7FFFFFu)) b = 0x7FC00000u; u(b); } // zeros and NaNs without their signs
    void v(const fvec& x) { u(x.size()); for (float y : x) f(y); }
    void s(const std::string& x) { for (char c : x) u((unsigned char)c); }
};
static LayerModel model(const M& m)
{
    LayerModel r = m.t == "fc" ? FullyConnected(m.n, actOf(m.act)) : m.t == "rec" ? Recurrence(m.n, actOf(m.act)) : m.t == "gru" ? GruLayer(m.n) : m.t == "conv" ? Convolution(m.n, m.k, actOf(m.act)) : m.t == "lc" ? LocallyConnected(m.n, m.k, actOf(m.act)) : MaxPooling(m.k);
    for (auto& o : m.opts) r.optimizers.push_back(o.k == "mul" ? ErrorMultiplier(o.v) : o.k == "l1" ? L1Regularization(o.v) : o.k == "l2" ? L2Regularization(o.v) : o.k == "drop" ? Dropout(o.v) : Softmax());
    return r;
}
static std::string descJson(const Desc& d)
{
    std::string s = "[{\"t\":\"input\",\"n\":0,\"k\":0,\"act\":\"\",\"opts\":[],\"shape\":" + Ev::arr(d.shape) + "}";
    for (auto& m : d.ms)
    {
        s += ",{\"t\":\"" + m.t + "\",\"n\":" + std::to_string(m.n) + ",\"k\":" + std::to_string(m.k) + ",\"act\":\"" + (m.t == "gru" || m.t == "pool" ? "" : m.act) + "\",\"opts\":[";
        for (size_t o = 0; o < m.opts.size(); ++o) s += std::string(o ? "," : "") + "{\"k\":\"" + m.opts[o].k + "\",\"v\":" + std::to_string(fix(m.opts[o].v, 1e6)) + "}";
        s += "]}";
    }
    return s + "]";
}
using Net = StraightforwardNeuralNetwork;
template <class F> static void eachNeuron(Net& n, F f)
{
    for (auto& l : n.layers)
    {
        if (auto* q = dynamic_cast<internal::Layer<internal::SimpleNeuron>*>(l.get())) for (auto& x : q->neurons) f(x);
        if (auto* q = dynamic_cast<internal::Layer<internal::RecurrentNeuron>*>(l.get())) for (auto& x : q->neurons) f(x);
    }
}
static internal::StochasticGradientDescent* sgd(Net& n) { return dynamic_cast<internal::StochasticGradientDescent*>(n.optimizer.get()); }
static bool recurrent(const Desc& d) { for (auto& m : d.ms) if (m.t == "rec" || m.t == "gru") return true; return false; }
static bool has(const Desc& d, const std::string& t) { for (auto& m : d.ms) { if (m.t == t) return true; for (auto& o : m.opts) if (o.k == t) return true; } return false; }

static std::string fpP(Net& n)
{
    Hash h; h.s(layersJson(n));
    for (auto& l : n.layers) for (auto& w : weightsOf(l.get())) h.v(w);
    h.f(sgd(n)->learningRate); h.f(sgd(n)->momentum);
    return hex(h.h);
}
static std::string fpW(Net& n) { Hash h; h.s(fpP(n)); h.u((uint64_t)n.getNumberOfTraining()); h.u((uint64_t)n.isValid()); return hex(h.h); }
static std::string fpS(Net& n)
{
    Hash h;
    for (float f : {n.getGlobalClusteringRate(), n.getWeightedClusteringRate(), n.getF1Score(), n.getMeanAbsoluteError(), n.getRootMeanSquaredError(), n.getGlobalClusteringRateMax(), n.getWeightedClusteringRateMax(), n.getF1ScoreMax(), n.getMeanAbsoluteErrorMin(), n.getRootMeanSquaredErrorMin()}) h.f(f);
    return hex(h.h);
}
static fvec vec(Rng& r, int k) { fvec v; for (int i = 0; i < k; ++i) v.push_back((float)r.in(-8, 8) / 4.f); return v; }
struct TD { std::vector<std::vector<fvec>> tr3, te3; fmat tr, te, trL, teL; std::unique_ptr<Data> d; };
// data whose order of presentation does not depend on the shuffling: copies of one datum, or a single sequence
static std::unique_ptr<TD> makeData(uint64_t seed, int nin, int nout, bool rec, const std::string& asked)
{
    const std::string prob = asked == "cls" && nout < 2 ? "mul" : asked;   // a classification needs two labels
    Rng r(seed); auto t = std::make_unique<TD>();
    auto label = [&] { fvec v((size_t)nout, 0.f); if (prob == "cls") v[(size_t)r.in(0, nout - 1)] = 1; else for (auto& x : v) x = prob == "mul" ? (float)r.in(0, 1) : (float)r.in(-4, 4) / 4.f; return v; };
    const problem p = prob == "cls" ? problem::classification : prob == "mul" ? problem::multipleClassification : problem::regression;
    int te = r.in(1, 5);
    if (rec)
    {
        t->tr3.emplace_back(); int len = r.in(1, 4); for (int i = 0; i < len; ++i) { t->tr3[0].push_back(vec(r, nin)); t->trL.push_back(label()); }
        for (int j = 0; j < te; ++j) { t->te3.emplace_back(); int l = r.in(1, 3); for (int i = 0; i < l; ++i) { t->te3.back().push_back(vec(r, nin)); t->teL.push_back(label()); } }
        t->d = std::make_unique<Data>(p, t->tr3, t->trL, t->te3, t->teL, nature::sequential);
    }
    else
    {
        auto x = vec(r, nin); auto y = label(); int n = r.in(1, 4);
        for (int i = 0; i < n; ++i) { t->tr.push_back(x); t->trL.push_back(y); }
        for (int j = 0; j < te; ++j) { t->te.push_back(vec(r, nin)); t->teL.push_back(label()); }
        t->d = std::make_unique<Data>(p, t->tr, t->trL, t->te, t->teL);
    }
    if (prob == "reg") t->d->setPrecision(0.5f); else t->d->setSeparator(0.25f);
    return t;
}

static void runPlan(const Plan& P, int idx)
{
    std::map<int, std::unique_ptr<Net>> nets; std::map<int, Desc> ds;
    std::map<int, std::string> fileOf; int nfile = 0;
    for (auto& op : P.ops)
    {
        std::string reply, arg = hex(op.seed) + "/" + std::to_string(op.n), file; bool det = true, saved = false; std::string extra;
        Rng r(op.seed);
        const bool needs = op.k != "build" && op.k != "load";
        if (needs && !nets.count(op.a)) continue;
        if ((op.k == "eq" || op.k == "restore") && !nets.count(op.b)) continue;
        if (op.k == "load" && !fileOf.count(op.n)) continue;
        Net* net = needs ? nets[op.a].get() : nullptr;
        const bool rec = needs && recurrent(ds[op.a]), drop = needs && has(ds[op.a], "drop");
        const int nin = net ? net->getNumberOfInputs() : 0, nout = net ? net->getNumberOfOutputs() : 0;
        auto scaled = [&](fvec v) { if (op.wild) for (auto& x : v) x *= op.k == "cluster" ? 1e30f : 1e38f; return v; };
        Ev e("op"); e.str("k", op.k).i("a", op.a).i("b", op.b).b("reset", op.reset).b("wild", op.wild);
        std::string threw;
        try
        {
            if (op.k == "build")
            {
                std::vector<LayerModel> arch{inputModel(op.d.shape)}; for (auto& m : op.d.ms) arch.push_back(model(m));
                nets[op.a] = std::make_unique<Net>(arch, StochasticGradientDescent(op.d.lr, op.d.mom)); ds[op.a] = op.d;
                eachNeuron(*nets[op.a], [&](auto& q) { auto w = q.getWeights(); for (auto& x : w) x = (float)r.in(-6, 6) / 8.f; q.setWeights(w); });
                det = !has(op.d, "gru");      // the weights of a gated unit cannot be chosen
                e.raw("desc", descJson(op.d)).i("lr", fix(op.d.lr, 1e6)).i("mom", fix(op.d.mom, 1e6));
            }
            else if (op.k == "predict") { Hash h; h.v(net->computeOutput(scaled(vec(r, nin)), op.reset)); reply = hex(h.h); }
            else if (op.k == "cluster")
            {
                auto in = scaled(vec(r, nin)); fvec out; int c;
                c = net->computeCluster(in, op.reset);
                if (!rec) { out = net->computeOutput(in, op.reset); std::vector<int> rk; bool fin = true; for (float o : out) { int k = 0; fin &= !notFinite(o); for (float p : out) k += p < o; rk.push_back(k); } if (fin) extra = ",\"rank\":" + Ev::arr(rk); }
                reply = std::to_string(c);
            }
            else if (op.k == "evaluate" || op.k == "evalsave")
            {
                auto t = makeData(op.seed, nin, nout, rec, P.prob);
                if (op.k == "evalsave") { file = workDir + "/twins" + std::to_string(idx) + "_" + std::to_string(nfile) + ".snn"; unlink(file.c_str()); net->autoSaveFilePath = file; net->autoSaveWhenBetter = true; }
                net->evaluate(*t->d);
                net->autoSaveWhenBetter = false;
                saved = !file.empty() && access(file.c_str(), F_OK) == 0;
                reply = saved ? "saved" : "";
                if (saved) fileOf[nfile] = file;
            }
            else if (op.k == "once") { auto x = scaled(vec(r, nin)); auto y = vec(r, nout); for (int t = 0; t <= op.n; ++t) net->trainOnce(x, y, op.reset); det = !drop; }   // many times for some
            else if (op.k == "train" || op.k == "autotrain")
            {
                auto t = makeData(op.seed, nin, nout, rec, P.prob); const int n = r.in(1, 3), f = r.in(0, 2);
                if (op.k == "autotrain") { file = workDir + "/twins" + std::to_string(idx) + "_" + std::to_string(nfile) + ".snn"; unlink(file.c_str()); net->autoSaveFilePath = file; net->autoSaveWhenBetter = true; }
                net->train(*t->d, operator""_ep((unsigned long long)n), 1, op.k == "autotrain" ? 1 : f);
                net->autoSaveWhenBetter = false;
                saved = !file.empty() && access(file.c_str(), F_OK) == 0;
                if (saved) fileOf[nfile] = file;
                det = !drop;
            }
            else if (op.k == "async") { auto t = makeData(op.seed, nin, nout, rec, P.prob); net->startTrainingAsync(*t->d, 1, 1); net->waitFor(1_ep || 1_s); net->stopTrainingAsync(); det = false; }
            else if (op.k == "setw")
            {
                int total = 0; eachNeuron(*net, [&](auto&) { ++total; });
                if (total == 0) continue;
                int who = r.in(0, total - 1), at = 0; float to = (float)r.in(-16, 16) / 8.f; int which = r.in(0, 1000);
                eachNeuron(*net, [&](auto& q) { if (at++ == who) { auto w = q.getWeights(); auto& x = w[(size_t)which % w.size()]; x = x == to ? to + 1.f : to; q.setWeights(w); } });
            }
            else if (op.k == "restore")       // the weights of another network of the same description
            {
                std::vector<fvec> ws; eachNeuron(*nets[op.b], [&](auto& q) { ws.push_back(q.getWeights()); }); size_t at = 0;
                eachNeuron(*net, [&](auto& q) { if (at < ws.size()) q.setWeights(ws[at++]); });
                det = false;
            }
            else if (op.k == "setlr") { auto& x = sgd(*net)->learningRate; const float to = r.pick(fvec{0.125f, 0.0625f, 0.5f, 0.03125f}); x = to; e.i("lr", fix(to, 1e6)); }
            else if (op.k == "setmom") { auto& x = sgd(*net)->momentum; const float to = r.pick(fvec{0.125f, 0.f, 0.75f, 0.25f}); x = to; e.i("mom", fix(to, 1e6)); }
            else if (op.k == "copy") { nets[op.b] = std::make_unique<Net>(*net); ds[op.b] = ds[op.a]; }
            else if (op.k == "save") { file = workDir + "/twins" + std::to_string(idx) + "_" + std::to_string(nfile) + ".snn"; net->saveAs(file); saved = true; fileOf[nfile] = file; ds[-1000 - nfile] = ds[op.a]; }
            else if (op.k == "load") { nets[op.b].reset(&Net::loadFrom(fileOf[op.n])); ds[op.b] = ds[-1000 - op.n]; e.b("auto", nets[op.b]->autoSaveWhenBetter).b("path", nets[op.b]->autoSaveFilePath == fileOf[op.n]); nets[op.b]->autoSaveWhenBetter = false; }
            else if (op.k == "destroy") { nets.erase(op.a); }
            else if (op.k == "eq")
            {
                Net& x = *nets[op.a]; Net& y = *nets[op.b];
                e.b("xy", x == y).b("yx", y == x).b("nxy", x != y).b("nyx", y != x);
            }
        }
        catch (const std::exception& ex) { threw = ex.what(); if (threw.empty()) threw = "?"; }
        if (!file.empty()) { ds[-1000 - nfile] = ds[op.a]; }
        const int fid = op.k == "load" ? op.n : file.empty() ? -1 : nfile;
        if (!file.empty()) ++nfile;
        e.str("arg", arg).b("det", det).str("reply", reply).i("file", fid).b("saved", saved).str("threw", threw);
        std::string live = "[";
        for (auto& [s, n] : nets) live += std::string(live.size() > 1 ? "," : "") + "{\"s\":" + std::to_string(s) + ",\"W\":\"" + fpW(*n) + "\",\"S\":\"" + fpS(*n) + "\",\"P\":\"" + fpP(*n) + "\",\"nan\":" + (n->hasNan() ? "true" : "false") + ",\"idle\":" + (n->isTraining() ? "false" : "true") + "}";
        e.raw("live", live + "]"); e.s += extra; e.out();
        if (!threw.empty()) break;
    }
    for (auto& [i, f] : fileOf) unlink(f.c_str());
    Ev("done").out();
}

static int sizeOf(const ivec& s) { int r = 1; for (int x : s) r *= x; return r; }
static bool sizeAfter(ivec& s, const M& m)
{
    if (m.t == "fc" || m.t == "rec" || m.t == "gru") { s = {m.n}; return true; }
    ivec q = s.size() == 1 ? ivec{1, s[0]} : s;
    for (size_t i = 1; i < q.size(); ++i) { if (m.k > q[i]) return false; q[i] = m.t == "conv" ? q[i] - m.k + 1 : (q[i] + m.k - 1) / m.k; }
    if (m.t != "pool") q[0] = m.n;
    s = q; return true;
}
static bool good(const Desc& d) { ivec s = d.shape; for (auto& m : d.ms) if (!sizeAfter(s, m)) return false; return sizeOf(s) <= 24; }
static const std::vector<std::string> acts = {"id", "relu", "sig", "isig", "tanh", "gelu", "gauss"};
static Opt randomOpt(Rng& g, bool last)
{
    std::string k = g.pick(std::vector<std::string>{"mul", "l1", "l2", "drop", "soft"});
    if (k == "soft" && !last) k = "mul";
    return {k, k == "mul" ? g.pick(fvec{0.5f, 2.f, 1.5f, 0.25f}) : k == "drop" ? g.pick(fvec{0.25f, 0.5f, 0.125f}) : k == "soft" ? 0.f : g.pick(fvec{0.0625f, 0.03125f, 0.015625f})};
}
static Desc randomDesc(Rng& g, int rec /*0 none, 1 some, 2 any*/, int drop)
{
    for (;;)
    {
        Desc d; int dims = g.in(1, 3); const bool big = g.chance(12);
        if (big) d.shape = dims == 1 ? ivec{g.in(9, 24)} : dims == 2 ? ivec{g.in(1, 4), g.in(5, 14)} : ivec{g.in(1, 3), g.in(4, 8), g.in(4, 8)};
        else if (dims == 1) d.shape = {g.in(1, 8)}; else if (dims == 2) d.shape = {g.in(1, 3), g.in(2, 6)}; else d.shape = {g.in(1, 2), g.in(2, 5), g.in(2, 5)};
        int len = big ? g.in(2, 8) : g.in(1, 4);
        for (int i = 0; i < len; ++i)
        {
            M m; m.t = g.pick(rec == 0 ? std::vector<std::string>{"fc", "conv", "lc", "pool"} : std::vector<std::string>{"fc", "conv", "lc", "pool", "rec", "rec", "gru"});
            m.n = g.in(1, (m.t == "fc" || m.t == "rec" || m.t == "gru" ? 4 : 3) * (big ? 2 : 1)); m.k = m.t == "fc" || m.t == "rec" || m.t == "gru" ? 0 : g.in(1, 3); if (m.t == "pool") m.n = 0;
            m.act = g.pick(acts);
            if (m.t != "pool" && g.chance(35)) { int k = g.in(1, 2); for (int o = 0; o < k; ++o) { auto x = randomOpt(g, i + 1 == len); if (x.k == "drop" && !drop) continue; m.opts.push_back(x); } }
            d.ms.push_back(m);
        }
        d.lr = g.pick(fvec{0.125f, 0.0625f, 0.03125f, 0.25f}); d.mom = g.pick(fvec{0.f, 0.5f, 0.25f, 0.875f});
        if (!good(d)) continue;
        if (rec == 1 && !recurrent(d)) continue;
        return d;
    }
}
// the same description with a single difference
static bool vary(Desc& d, Rng& g)
{
    auto& m = d.ms[(size_t)g.in(0, (int)d.ms.size() - 1)];
    switch (g.in(0, 11))
    {
        case 0: d.lr = d.lr == 0.125f ? 0.126f : d.lr + 0.001f; break;
        case 1: d.mom = d.mom == 0.f ? 0.001f : d.mom - 0.001f; break;
        case 2: { if (m.t == "pool" || m.t == "gru") return false; auto a = m.act; m.act = g.pick(acts); if (m.act == a) return false; break; }
        case 3: m.k = m.t == "fc" || m.t == "rec" || m.t == "gru" ? m.k : g.in(1, 4); break;
        case 4: m.n = m.t == "pool" ? 0 : g.in(1, 4); break;
        case 5: m.t = m.t == "conv" ? "lc" : m.t == "lc" ? "conv" : m.t == "fc" ? "rec" : m.t == "rec" ? (g.chance(50) ? "gru" : "fc") : m.t == "gru" ? "rec" : m.t; break;
        case 6: d.ms.push_back(d.ms.back()); break;
        case 7: if (d.ms.size() < 2) return false; d.ms.pop_back(); break;
        case 8: if (m.t == "pool") return false; m.opts.push_back(randomOpt(g, false)); break;
        case 9: if (m.opts.empty()) return false; m.opts.erase(m.opts.begin() + g.in(0, (int)m.opts.size() - 1)); break;
        case 10: if (m.opts.empty()) return false; { auto& o = m.opts[(size_t)g.in(0, (int)m.opts.size() - 1)]; if (o.k == "soft") return false; if (g.chance(60)) o.v += g.chance(50) ? 0.25f : 0.001f; else o = randomOpt(g, false); } break;
        case 11: if (m.opts.size() < 2) return false; std::swap(m.opts[0], m.opts[1]); break;
    }
    return good(d);
}

int main(int argc, char** argv)
{
    Args A = parse(argc, argv);
    if (!A.work.empty()) workDir = A.work;
    Rng g(A.seed);
    const std::string& p = A.prop;
    std::vector<Plan> plans;
    const int scale = A.thorough ? 10 : 1;
    auto is = [&](const char* id) { return p.empty() || p == id; };
    auto op = [&](const std::string& k, int a, int b = 0) { Op o; o.k = k; o.a = a; o.b = b; o.seed = g.next() % 3 + 100 * (g.next() % 3); o.reset = g.chance(50); return o; };
    const std::vector<std::string> probs = {"reg", "reg", "mul", "cls"};
    auto history = [&](int slots, int len, int drop, bool copies, bool saves, int rec) {
        Plan P; P.prob = g.pick(probs); int files = 0;
        Desc d = randomDesc(g, rec, drop);
        Op b = op("build", 0); b.d = d; P.ops.push_back(b);
        if (slots > 1 && g.chance(50)) { b.a = 1; P.ops.push_back(b); }          // the same network, built twice
        const bool wild = g.chance(12);
        // seeds from a small range: the same operations happen to different networks
        for (int i = 0; i < len; ++i)
        {
            int a = g.in(0, slots - 1), c = g.in(0, slots - 1);
            switch (g.in(0, 19))
            {
                case 0: case 1: case 2: P.ops.push_back(op("predict", a)); if (wild && g.chance(25)) P.ops.back().wild = true; break;
                case 3: P.ops.push_back(op("cluster", a)); if (wild && g.chance(50)) P.ops.back().wild = true; break;
                case 4: case 5: P.ops.push_back(op("evaluate", a)); break;
                case 6: case 7: case 8: case 9: P.ops.push_back(op("once", a)); if (g.chance(4)) P.ops.back().n = g.in(60, 400); if (wild && g.chance(15)) P.ops.back().wild = true; break;
                case 10: P.ops.push_back(op("train", a)); break;
                case 11: P.ops.push_back(op(g.pick(std::vector<std::string>{"setw", "setlr", "setmom"}), a)); break;
                case 12: case 13: if (copies && a != c) { P.ops.push_back(op("copy", a, c)); P.ops.push_back(op("eq", a, c)); } break;
                case 14: case 15: if (saves) { P.ops.push_back(op("save", a)); Op o = op("load", c, c); o.n = files++; P.ops.push_back(o); if (a != c) P.ops.push_back(op("eq", a, c)); } break;
                case 16: if (saves && files > 0) { Op o = op("load", c, c); o.n = g.in(0, files - 1); P.ops.push_back(o); } break;
                case 17: if (slots > 2 && g.chance(40)) P.ops.push_back(op("destroy", a)); else if (saves && g.chance(70)) { P.ops.push_back(op(g.chance(60) ? "evalsave" : "autotrain", a)); Op o = op("load", c, c); o.n = files++; P.ops.push_back(o); } break;
                case 18: if (a != c) P.ops.push_back(op("eq", a, c)); break;
                case 19: if (g.chance(15)) P.ops.push_back(op("async", a)); else P.ops.push_back(op("once", a)); break;
            }
        }
        plans.push_back(P);
    };
    // every pair of networks gets the same operations: any difference shows
    auto twins = [&](const std::string& how, int rec, int drop) {
        Plan P; P.prob = g.pick(probs);
        Op b = op("build", 0); b.d = randomDesc(g, rec, drop); P.ops.push_back(b);
        int pre = g.in(0, 6); for (int i = 0; i < pre; ++i) P.ops.push_back(op(g.pick(std::vector<std::string>{"once", "once", "train", "predict", "evaluate", "setlr", "setw"}), 0)); if (g.chance(10)) { P.ops.push_back(op("once", 0)); P.ops.back().n = g.in(60, 400); }
        if (how == "copy") P.ops.push_back(op("copy", 0, 1));
        else if (how == "build") { auto q = P.ops; for (auto o : q) { o.a = 1; P.ops.push_back(o); } }
        else { P.ops.push_back(op(how == "load" ? "save" : how, 0)); Op o = op("load", 1, 1); o.n = 0; P.ops.push_back(o); }
        P.ops.push_back(op("eq", 0, 1));
        int post = g.in(4, 10);
        for (int i = 0; i < post; ++i)
        {
            Op o = op(g.pick(std::vector<std::string>{"once", "once", "once", "train", "predict", "evaluate", "setlr", "setmom", "cluster"}), 0);
            P.ops.push_back(o); o.a = 1; P.ops.push_back(o);
            if (g.chance(30)) P.ops.push_back(op("eq", 0, 1));
        }
        plans.push_back(P);
    };
    for (int r = 0; r < 150 * scale; ++r)
    {
        if (is("C13")) { history(3, g.in(10, 30), r % 4 == 0, false, true, r % 3 == 0 ? 1 : 0); twins(r % 5 == 0 ? "evalsave" : "load", r % 3 == 0 ? 1 : 0, r % 4 == 1); }
        if (is("C14")) { history(3, g.in(10, 30), r % 4 == 0, true, false, r % 3 == 0 ? 1 : 0); twins("copy", r % 3 == 0 ? 1 : 0, r % 4 == 1); }
        if (is("C15")) { twins("build", r % 3 == 0 ? 1 : 0, r % 4 == 1); }
        if (is("C21"))
        {   // two networks with the same learning history and different predictions and evaluations in between
            Plan P; P.prob = g.pick(probs); Op b = op("build", 0); b.d = randomDesc(g, 0, 0); P.ops.push_back(b); b.a = 1; P.ops.push_back(b);
            int n = g.in(4, 12);
            for (int i = 0; i < n; ++i)
            {
                Op o = op(g.pick(std::vector<std::string>{"once", "once", "train", "setw", "setlr"}), 0); o.a = 0; P.ops.push_back(o); o.a = 1;
                int k = g.in(0, 4); for (int j = 0; j < k; ++j) P.ops.push_back(op(g.pick(std::vector<std::string>{"predict", "cluster", "evaluate", "predict", "cluster"}), 1));
                P.ops.push_back(o);
                k = g.in(0, 2); for (int j = 0; j < k; ++j) { P.ops.push_back(op(g.pick(std::vector<std::string>{"predict", "cluster", "evaluate"}), g.in(0, 1))); if (P.ops.back().k == "cluster" && g.chance(40)) P.ops.back().wild = true; }
            }
            plans.push_back(P);
        }
    }
    if (is("C14") || is("C13")) for (int r = 0; r < 90 * scale; ++r)
    {   // two copies do the same, one before, one after the original is changed, learns or is destroyed
        Plan P; P.prob = g.pick(probs); const bool files = !is("C14") || (is("C13") && g.chance(50));
        Op b = op("build", 0); b.d = randomDesc(g, r % 2, 0); P.ops.push_back(b);
        int pre = g.in(0, 3); for (int i = 0; i < pre; ++i) P.ops.push_back(op(g.pick(std::vector<std::string>{"once", "train", "setlr", "setmom"}), 0));
        if (files) { P.ops.push_back(op("save", 0)); for (int c = 1; c < 3; ++c) { Op o = op("load", c, c); o.n = 0; P.ops.push_back(o); } }
        else { P.ops.push_back(op("copy", 0, 1)); P.ops.push_back(op("copy", g.chance(70) ? 0 : 1, 2)); }
        std::vector<Op> same; int n = g.in(2, 5); for (int i = 0; i < n; ++i) same.push_back(op(g.pick(std::vector<std::string>{"once", "once", "once", "train", "predict", "evaluate"}), 1));
        const size_t cut = (size_t)g.in(0, n - 1);
        for (size_t i = 0; i < cut; ++i) { P.ops.push_back(same[i]); auto o = same[i]; o.a = 2; P.ops.push_back(o); }
        for (size_t i = cut; i < same.size(); ++i) P.ops.push_back(same[i]);
        int ch = g.in(1, 3); for (int i = 0; i < ch; ++i) P.ops.push_back(op(g.pick(std::vector<std::string>{"setlr", "setlr", "setmom", "setw", "once", "train"}), 0));
        if (g.chance(25)) P.ops.push_back(op("destroy", 0));
        for (size_t i = cut; i < same.size(); ++i) { auto o = same[i]; o.a = 2; P.ops.push_back(o); }
        P.ops.push_back(op("eq", 1, 2));
        plans.push_back(P);
    }
    if (is("C15")) for (int r = 0; r < 200 * scale; ++r)
    {   // one difference in the description
        Plan P; Op b = op("build", 0); b.d = randomDesc(g, r % 2 ? 2 : 0, 1); P.ops.push_back(b);
        for (int v = 0; v < 12; ++v) { Op c = b; c.a = 1; if (g.chance(85) && !vary(c.d, g)) continue; P.ops.push_back(c); P.ops.push_back(op("eq", 0, 1)); if (g.chance(20)) { P.ops.push_back(op(g.chance(50) ? "copy" : "once", 1, 2)); P.ops.push_back(op("eq", 0, 1)); P.ops.push_back(op("eq", 0, 2)); } }
        P.ops.push_back(op("copy", 0, 1)); for (int v = 0; v < 4; ++v) { P.ops.push_back(op("setw", 1)); P.ops.push_back(op("eq", 0, 1)); }
        plans.push_back(P);
    }
    if (is("C15")) for (int r = 0; r < 60 * scale; ++r)
    {   // the same parameters after different pasts: where they compare equal they must go on alike
        Plan P; Op b = op("build", 0); b.d = randomDesc(g, r % 3 == 0 ? 1 : 0, 0); P.ops.push_back(b);
        for (int c = 1; c < 3; ++c) P.ops.push_back(op("copy", 0, c));
        const int pasts = g.in(1, 2), same = g.in(1, 2);
        for (int i = 0; i < pasts; ++i) { P.ops.push_back(op("once", 0)); P.ops.push_back(op("once", 1)); }
        for (int c = 0; c < 2; ++c) P.ops.push_back(op("restore", c, 2));
        for (int i = 0; i < same; ++i)
        {
            Op o = op("once", 0); P.ops.push_back(o); o.a = 1; P.ops.push_back(o);
            for (int c = 0; c < 2; ++c) P.ops.push_back(op("restore", c, 2));
            P.ops.push_back(op("eq", 0, 1));
        }
        for (int i = 0; i < 4; ++i) { Op o = op(g.pick(std::vector<std::string>{"once", "once", "predict", "train"}), 0); P.ops.push_back(o); o.a = 1; P.ops.push_back(o); }
        plans.push_back(P);
    }
    std::vector<Scenario> scs;
    for (size_t i = 0; i < plans.size(); ++i) { auto& q = plans[i]; scs.push_back({"\"prob\":\"" + q.prob + "\"", [q, i] { runPlan(q, (int)i); }, 60}); }
    return runAll(scs, A.out, A.jobs);
}
