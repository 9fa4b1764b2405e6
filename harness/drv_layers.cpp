// Chains of real layers with chosen parameters: predictions, training steps, copies and reloads, with everything that
// flows between the layers recorded. Judged by spec/LayersTrace.tla (C16 C17 C18 C23).
#define VF_MAIN
#include "tap.hpp"
using namespace vf;
using namespace snn;
struct Opt { std::string k; float v; };
struct M { std::string t; int n = 0, k = 0; std::string act = "id"; std::vector<Opt> opts; };
struct Plan { bool seq = false, big = false; ivec shape; std::vector<M> ms; float lr = 0.125f, mom = 0, unit = 1; std::vector<std::string> ops; uint64_t seed = 1; };
static std::string workDir = "/tmp";

static LayerModel model(const M& m)
{
    LayerModel r = m.t == "fc" ? FullyConnected(m.n, actOf(m.act)) : m.t == "conv" ? Convolution(m.n, m.k, actOf(m.act)) : m.t == "lc" ? LocallyConnected(m.n, m.k, actOf(m.act)) : m.t == "rec" ? Recurrence(m.n, actOf(m.act)) : m.t == "gru" ? GruLayer(m.n) : MaxPooling(m.k);
    for (auto& o : m.opts) r.optimizers.push_back(o.k == "drop" ? Dropout(o.v) : o.k == "mul" ? ErrorMultiplier(o.v) : o.k == "l1" ? L1Regularization(o.v) : L2Regularization(o.v));
    return r;
}
using SL = internal::Layer<internal::SimpleNeuron>;
static std::vector<SL*> real(StraightforwardNeuralNetwork& n) { std::vector<SL*> r; for (size_t i = 0; i < n.layers.size(); i += 2) r.push_back(dynamic_cast<SL*>(n.layers[i].get())); return r; }

static void runPlan(const Plan& P, int idx)
{
    Rng rng(P.seed);
    std::vector<LayerModel> arch{inputModel(P.shape)};
    for (auto& m : P.ms) arch.push_back(model(m));
    auto* net = new StraightforwardNeuralNetwork(arch, StochasticGradientDescent(P.unit > 1 ? P.lr / (P.unit * P.unit) : P.lr, P.mom));
    Ev("arch").raw("ls", layersJson(*net)).out();
    tapAll(*net);
    int nin = 1; for (int s : P.shape) nin *= s;
    int nout = dynamic_cast<Tap*>(net->layers.back().get())->size();
    auto quarter = [&](int lo, int hi) { return (float)rng.in(lo, hi) / 4.f; };
    auto setWeights = [&](StraightforwardNeuralNetwork& t) {
        auto r = real(t);
        for (size_t i = 0; i < r.size(); ++i) if (r[i]) for (auto& q : r[i]->neurons)
        {
            auto w = q.getWeights();
            for (auto& x : w) x = P.big ? quarter(-1, 1) : quarter(-3, 3);
            bool shared = P.ms[i].t != "fc";
            bool reg = false; for (auto& o : P.ms[i].opts) reg |= o.k != "mul";
            float odd = (float)(2 * rng.in(-4, 3) + 1);
            w.back() = P.unit > 1 && P.lr > 1e-4f ? 0.f : P.unit * (!shared ? odd / 16.f : reg || (P.ms[i].act == "id" && rng.chance(60)) ? odd / 2.f : odd * 62.5f);
            q.setWeights(w);
        }
    };
    int stepNo = 0;
    // The values that flow are powers of two apart from those the specification computes with: linear layers do not care.
    const float u = P.unit;
    auto down = [&](auto& m) { if (u != 1) for (auto& r : m) for (auto& x : r) x /= u; };
    auto ws = [&](StraightforwardNeuralNetwork& t) { auto w = weights(t); if (u != 1) for (auto& l : w) for (auto& q : l) if (!q.empty()) q.back() /= u; return w; };
    auto up = [&](fvec v) { for (auto& x : v) x *= u; return v; };
    setWeights(*net);
    Ev("setw").raw("w", j3(ws(*net))).out();
    auto vec = [&](int k) { fvec v; for (int i = 0; i < k; ++i) v.push_back((float)rng.in(-4, 4) / 2.f); return v; };
    for (auto& op : P.ops)
    {
        if (op == "fwd")
        {
            auto in = vec(nin);
            if (rng.chance(30)) (void)net->computeCluster(up(in), rng.chance(50)); else (void)net->computeOutput(up(in), rng.chance(50));
            down(tapOut);
            bool over = false;
            for (auto& o : tapOut) for (float v : o) over |= !(std::abs(v) < 120);
            if (over) break; // beyond the range of the specification's numbers
            Ev("fwd").raw("in", j1(in)).raw("outs", j2(tapOut)).raw("w", j3(ws(*net))).out();
        }
        else if (op == "step")
        {
            auto in = vec(nin); auto des = vec(nout);
            auto w0 = weights(*net);
            bool reset = !P.seq || rng.chance(40) || ++stepNo == 1;
            net->trainOnce(up(in), up(des), reset);
            down(tapOut); down(tapErr);
            auto w1 = weights(*net); W3 dw = w1; const auto wr = ws(*net);
            bool wild = false;
            for (size_t i = 0; i < w0.size(); ++i) for (size_t a = 0; a < w0[i].size(); ++a)
                for (size_t b = 0; b < w0[i][a].size(); ++b)
                {
                    double unit = b + 1 == w0[i][a].size() && P.ms[i].t != "fc" ? 1000 : 1;
                    if (b + 1 == w0[i][a].size()) unit *= u;
                    double d = ((double)w1[i][a][b] - (double)w0[i][a][b]) * unit;
                    dw[i][a][b] = (float)d; wild |= !(std::abs(d) < 40) || !(std::abs(wr[i][a][b]) < 700);
                }
            for (auto& o : tapOut) for (float v : o) wild |= !(std::abs(v) < 60);
            for (auto& o : tapErr) for (float v : o) wild |= !(std::abs(v) < 60);
            if (wild) break; // beyond the range of the specification's numbers
            Ev("step").b("reset", reset).raw("in", j1(in)).raw("des", j1(des)).raw("outs", j2(tapOut)).raw("errs", j2(tapErr)).raw("dw", j3(dw)).raw("w", j3(wr)).out();
        }
        else if (op == "copy" || op == "reload")
        {
            auto* old = net;
            if (op == "copy") net = new StraightforwardNeuralNetwork(*old);
            else
            {
                std::string f = workDir + "/layers" + std::to_string(idx) + ".snn";
                old->saveAs(f); net = &StraightforwardNeuralNetwork::loadFrom(f); unlink(f.c_str());
            }
            for (auto* l : real(*old)) if (l) for (auto& q : l->neurons) { auto w = q.getWeights(); for (auto& x : w) x = 3.f; q.setWeights(w); } // the old one changes, or goes away
            if (rng.chance(50)) delete old;
            Ev("copied").str("how", op).raw("w", j3(ws(*net))).out();
        }
        else if (op.compare(0, 5, "draws") == 0)
        {   // many passes; the outputs of a layer that are exactly zero were silenced, since all weights and inputs are positive
            for (auto& l : net->layers)
            {
                if (auto* q = dynamic_cast<SL*>(l.get())) for (auto& n : q->neurons) { auto w = n.getWeights(); for (auto& x : w) x = 0.25f; n.setWeights(w); }
                if (auto* q = dynamic_cast<internal::Layer<internal::RecurrentNeuron>*>(l.get())) for (auto& n : q->neurons) { auto w = n.getWeights(); for (auto& x : w) x = 0.125f; n.setWeights(w); }
            }
            fvec in((size_t)nin, 1.f), des((size_t)nout, 0.f);
            std::vector<std::vector<ivec>> z(tapOut.size()); ivec first;
            bool want = op != "draws:use" && op != "draws:eval";
            tapPass = [&](int id, const fvec& o, bool training) { if (training != want) return; ivec r; for (float x : o) r.push_back(x == 0.f); z[(size_t)id].push_back(r); };
            const int many = 1500, len = 3;
            if (op == "draws:once") for (int t = 0; t < many; ++t) { net->trainOnce(in, des, true); first.push_back(1); }
            else if (op == "draws:steps") for (int t = 0; t < many; ++t) { bool r = t == 0 || rng.chance(60); net->trainOnce(in, des, r); first.push_back(r); }
            else if (op == "draws:use") for (int t = 0; t < 40; ++t) { (void)net->computeOutput(in, rng.chance(50)); first.push_back(1); }
            else if (op == "draws:seq")
            {
                std::vector<fmat> I(30, fmat(len, in)), TI = I; fmat L(30 * len, des), TL = L;
                Data data(problem::regression, I, L, TI, TL, nature::sequential);
                net->train(data, 12_ep, 1, 1);
                for (size_t t = 0; t < z[0].size(); ++t) first.push_back(t % len == 0);
            }
            else
            {
                fmat I(60, in), L(60, des), TI(60, in), TL(60, des);
                Data data(problem::regression, I, L, TI, TL);
                if (want) net->train(data, 20_ep, 1, 4); else net->evaluate(data);
                for (size_t t = 0; t < z[0].size(); ++t) first.push_back(1);
            }
            tapPass = nullptr;
            for (size_t i = 0; i < z.size(); ++i)
            {
                bool dropping = false; for (auto& o : P.ms[i].opts) dropping |= o.k == "drop";
                if (!dropping) continue;
                std::string zs = "["; for (size_t t = 0; t < z[i].size(); ++t) zs += (t ? "," : "") + Ev::arr(z[i][t]);
                Ev("draws").i("layer", (int)i + 1).b("training", want).str("how", op).a("first", first).raw("z", zs + "]").out();
            }
        }
        else if (op == "setw") { setWeights(*net); Ev("setw").raw("w", j3(ws(*net))).out(); }
    }
    Ev("done").out();
}

int main(int argc, char** argv)
{
    Args A = parse(argc, argv);
    if (!A.work.empty()) workDir = A.work;
    Rng g(A.seed);
    const std::string& p = A.prop;
    std::vector<Plan> plans;
    const int scale = A.thorough ? 12 : 1;
    bool big = false;
    auto sizeAfter = [&big](ivec& s, const M& m) -> bool { // shape after a layer; false if impossible
        auto prod = [](const ivec& v) { long r = 1; for (int x : v) r *= x; return r; };
        if (m.t == "fc") { s = {m.n}; return true; }
        ivec q = s.size() == 1 ? ivec{1, s[0]} : s;
        for (size_t i = 1; i < q.size(); ++i) { if (m.k > q[i]) return false; q[i] = m.t == "conv" ? q[i] - m.k + 1 : (q[i] + m.k - 1) / m.k; }
        if (m.t != "pool") q[0] = m.n;
        s = q; return prod(s) <= (big ? 200 : 64);
    };
    auto K = [](const ivec& s, const M& m) { if (m.t != "conv") return 1; ivec q = s.size() == 1 ? ivec{1, s[0]} : s; int r = 1; for (size_t i = 1; i < q.size(); ++i) r *= q[i] - m.k + 1; return r; };
    auto make = [&](const std::string& first, int dims, int len, bool opts, const std::string& acts) {
        for (;;)
        {
            Plan P; P.seed = g.next();
            P.big = big;
            if (big) P.shape = dims == 1 ? ivec{g.in(10, 48)} : dims == 2 ? ivec{g.in(1, 7), g.in(5, 20)} : ivec{g.in(1, 4), g.in(3, 9), g.in(3, 9)};
            else if (dims == 1) P.shape = {g.in(1, 12)}; else if (dims == 2) P.shape = {g.in(1, 3), g.in(1, 8)}; else P.shape = {g.in(1, 3), g.in(1, 5), g.in(1, 5)};
            ivec s = P.shape; bool ok = true; int kk = 1;
            for (int i = 0; i < len && ok; ++i)
            {
                M m; m.t = i == 0 && !first.empty() ? first : g.pick(std::vector<std::string>{"fc", "conv", "lc", "pool", "conv", "lc"});
                m.n = m.t == "fc" ? g.in(1, 6) : g.in(1, 3); m.k = m.t == "fc" ? 0 : g.in(1, dims == 3 ? 3 : 4); if (m.t == "pool") m.n = 0;
                if (big) { m.n = m.t == "fc" ? g.in(5, 40) : m.t == "pool" ? 0 : g.in(2, 11); m.k = m.t == "fc" ? 0 : g.in(1, dims == 3 ? 5 : 9); }
                if (m.t == "pool" && g.chance(70) && m.k == 1) m.k = 2;
                if (m.t != "pool") { m.act = acts == "plain" ? (g.chance(60) ? "id" : "relu") : g.pick(std::vector<std::string>{"id", "relu", "sig", "isig", "tanh", "gelu", "gauss"});
                    if (opts && (i == 0 || g.chance(50))) { int k = g.in(1, 3); for (int o = 0; o < k; ++o) { std::string kind = g.pick(std::vector<std::string>{"mul", "l1", "l2"}); m.opts.push_back({kind, kind == "mul" ? g.pick(fvec{0.5f, 2.f, -1.f, 1.5f, 0.25f, 0.f, 4.f, -0.0625f, 1.f}) : g.pick(fvec{0.0625f, 0.125f, 0.25f, 0.5f, -0.125f, 0.015625f})}); } if (m.t != "fc") m.act = "id"; } }
                kk = std::max(kk, K(s, m));
                ok = sizeAfter(s, m);
                P.ms.push_back(m);
            }
            long n = 1; for (int x : s) n *= x; if (!ok || n > (big ? 64 : 24)) continue;
            float base = len > 1 || acts != "plain" ? 0.0625f : 0.125f;
            P.lr = std::min(0.96875f, base * (float)kk);
            P.lr = std::round(P.lr * 1024.f) / 1024.f;
            return P;
        }
    };
    const std::vector<std::string> kinds = {"fc", "conv", "lc", "pool"};
    auto is = [&](const char* id) { return p.empty() || p == id; };
    for (auto& kind : kinds) for (int dims = 1; dims <= 3; ++dims) for (int r = 0; r < 4 * scale; ++r)
    {
        std::string acts = r % 4 < 3 ? "plain" : "any";
        if (is("C16")) for (int len = 1; len <= 3; ++len) { auto P = make(kind, dims, len, false, acts); P.ops = {"fwd", "fwd", "step", "fwd"}; plans.push_back(P); }
        if (is("C17")) for (int len = 2; len <= 3; ++len)
        {   // the kind under test second (its error is handed back to the first), or first of three
            auto P = make(len == 2 ? "" : kind, dims, len, false, acts);
            if (len == 2) { for (int t = 0; t < 400 && P.ms[1].t != kind; ++t) P = make("", dims, len, false, acts); }
            P.lr = 9.5367431640625e-07f; P.ops = {"step", "fwd", "step", "setw", "step"}; plans.push_back(P);
            auto P2 = make("", dims, 2, false, "plain"); P2.ops = {"step", "step"}; plans.push_back(P2);
        }
        if (is("C18")) for (int len = 1; len <= 2; ++len)
        {
            if (kind == "pool" && len == 1) continue;
            auto P = make(kind, dims, len, false, acts); P.mom = g.pick(fvec{0, 0, 0.5f, 0.25f, 0.875f});
            int steps = g.in(2, 5); for (int i = 0; i < steps; ++i) { P.ops.push_back("step"); if (g.chance(30)) P.ops.push_back("fwd"); if (g.chance(15)) P.ops.push_back(g.chance(50) ? "copy" : "reload"); }
            plans.push_back(P);
        }
        if (is("C23") && kind != "pool")
        {
            auto P = make(kind, dims, g.in(1, 2), true, r % 2 ? "plain" : "any"); P.mom = g.pick(fvec{0, 0, 0.5f});
            P.lr = std::min(P.lr, 0.25f);
            P.ops = {"fwd", "step", "step"}; if (g.chance(70)) { P.ops.push_back(g.chance(50) ? "copy" : "reload"); P.ops.push_back("fwd"); P.ops.push_back("step"); }
            plans.push_back(P);
        }
    }
    if (is("C16")) for (int r = 0; r < 24 * scale; ++r) { auto P = make("", 1 + r % 3, g.in(4, 7), false, "plain"); P.ops = {"fwd", "step", "fwd"}; plans.push_back(P); }
    big = true;
    if (!is("C22") || p.empty()) for (auto& kind : kinds) for (int dims = 1; dims <= 3; ++dims) for (int r = 0; r < scale; ++r)
    {
        const bool opts = is("C23") && kind != "pool";
        auto P = make(kind, dims, g.in(1, 2), opts, "plain"); P.mom = g.pick(fvec{0, 0.5f});
        if (is("C17")) P.lr = 9.5367431640625e-07f;
        P.ops = {"fwd", "step", "step", "fwd"}; plans.push_back(P);
    }
    big = false;
    if (is("C16") || is("C17") || is("C18")) for (auto& kind : kinds) for (int dims = 1; dims <= 3; ++dims) for (int r = 0; r < 4 * scale; ++r)
    {   // values far larger and smaller than the others
        auto P = make(kind == "pool" ? "" : kind, dims, kind == "pool" ? 3 : g.in(1, 3), false, "plain");
        const bool steps = is("C18") && (!is("C17") || g.chance(50));
        P.unit = std::ldexp(1.f, steps || g.chance(60) ? g.pick(ivec{6, 10, 16, 24, 40}) : g.pick(ivec{-6, -10, -20, -30}));
        if (!steps) P.lr = 9.5367431640625e-07f;
        P.mom = steps ? g.pick(fvec{0, 0, 0.5f}) : 0.f;
        P.ops = {"fwd", "step", "step", "setw", "step", g.chance(50) ? "copy" : "reload", "step", "fwd"}; plans.push_back(P);
    }
    if (is("C22"))
    {
        for (auto& kind : {"fc", "conv", "lc"}) for (int dims = 1; dims <= 3; ++dims) for (int r = 0; r < 5 * scale; ++r)
        {   // every output, error and step of passes with silenced outputs
            auto P = make(kind, dims, g.in(1, 3), false, "plain"); P.seq = g.chance(60); P.mom = g.pick(fvec{0, 0, 0.5f}); P.lr = g.chance(50) ? 9.5367431640625e-07f : std::min(P.lr, 0.125f);
            bool any = false;
            for (size_t i = 0; i < P.ms.size(); ++i) if (P.ms[i].t != "pool")
            {
                if (any && g.chance(40)) continue;
                any = true; P.ms[i].act = "id";
                if (g.chance(25)) P.ms[i].opts.push_back({"mul", g.pick(fvec{0.5f, 2.f, -1.f, 0.f})});
                P.ms[i].opts.push_back({"drop", g.pick(fvec{0.125f, 0.25f, 0.5f, 0.5f, 0.75f, 0, 0.0625f, 0.015625f, 0.9375f, 1})});
                if (g.chance(25)) P.ms[i].opts.push_back({"mul", g.pick(fvec{0.5f, 1.5f})});
            }
            P.ops = {"fwd"}; int steps = g.in(4, 8);
            for (int i = 0; i < steps; ++i) { P.ops.push_back("step"); if (g.chance(30)) P.ops.push_back("fwd"); if (g.chance(15)) P.ops.push_back(g.chance(50) ? "copy" : "reload"); if (g.chance(15)) P.ops.push_back("setw"); }
            plans.push_back(P);
        }
        for (auto& kind : {"fc", "conv", "lc", "rec", "gru"}) for (auto& how : {"draws:once", "draws:steps", "draws:seq", "draws:data", "draws:use", "draws:eval"}) for (int r = 0; r < (A.thorough ? 4 : 1); ++r)
        {
            Plan P; P.seed = g.next(); P.lr = 9.5367431640625e-07f;
            auto drop = [&] { return Opt{"drop", g.pick(fvec{0.125f, 0.25f, 0.375f, 0.5f, 0.75f, 0.0625f, 0.9375f})}; };
            P.shape = std::string(kind) == "conv" || std::string(kind) == "lc" ? (g.chance(50) ? ivec{1, 6} : ivec{1, 4, 4}) : ivec{3};
            M m; m.t = kind; m.n = g.in(2, 4); m.k = 2; m.act = "id"; m.opts = {drop()}; P.ms.push_back(m);
            if (g.chance(50)) { M q; q.t = "fc"; q.n = g.in(1, 5); q.k = 0; if (g.chance(50)) q.opts = {drop()}; P.ms.push_back(q); }
            if (std::string(how) == "draws:steps" && g.chance(50)) P.ops.push_back(g.chance(50) ? "copy" : "reload");
            P.ops.push_back(how); plans.push_back(P);
        }
    }
    std::vector<Scenario> scs;
    for (size_t i = 0; i < plans.size(); ++i)
    {
        auto& q = plans[i];
        std::string ms = "[{\"t\":\"input\",\"n\":0,\"k\":0,\"shape\":" + Ev::arr(q.shape) + "}";
        for (auto& m : q.ms)
        {
            ms += ",{\"t\":\"" + m.t + "\",\"n\":" + std::to_string(m.n) + ",\"k\":" + std::to_string(m.k) + ",\"act\":\"" + m.act + "\",\"opts\":[";
            for (size_t o = 0; o < m.opts.size(); ++o) ms += std::string(o ? "," : "") + "{\"k\":\"" + m.opts[o].k + "\",\"v\":" + std::to_string(fix(m.opts[o].v, Q)) + "}";
            ms += "]}";
        }
        ms += "]";
        scs.push_back({"\"models\":" + ms + ",\"lr\":" + std::to_string(fix(q.lr, 1048576)) + ",\"mom\":" + std::to_string(fix(q.mom, Q)), [q, i] { runPlan(q, (int)i); }, 20});
    }
    return runAll(scs, A.out, A.jobs);
}
