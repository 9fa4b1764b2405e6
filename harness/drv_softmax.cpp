// Layers with softmax beside the same layers without: what comes out, in use and in training. Judged by spec/SoftmaxTrace.tla (C24).
#define VF_MAIN
#include "tap.hpp"
#include <algorithm>
#include <cmath>
using namespace vf;
using namespace snn;
struct Plan { std::string kind; ivec shape; int n = 1, k = 1; int scale = 0; uint64_t seed = 1; bool front = false; };
static std::string workDir = "/tmp";
using SL = internal::Layer<internal::SimpleNeuron>;
using RL = internal::Layer<internal::RecurrentNeuron>;

template <class... O> static LayerModel layer(const Plan& P, O... o)
{
    if (P.kind == "conv") return Convolution(P.n, P.k, activation::identity, o...);
    if (P.kind == "lc") return LocallyConnected(P.n, P.k, activation::identity, o...);
    if (P.kind == "rec") return Recurrence(P.n, activation::identity, o...);
    return FullyConnected(P.n, activation::identity, o...);
}
static void emit(const std::string& how, const fvec& raw, const fvec& out)
{
    bool neg = out.size() != raw.size(); double sum = 0;
    for (float x : out) { neg |= notFinite(x) || x < 0; sum += x; }
    if (neg) { Ev("softmax").str("how", how).str("raw", "?").b("neg", true).i("sum", 0).a("rr", ivec{}).a("ro", ivec{}).a("d", ivec{}).a("q", ivec{}).out(); return; }
    auto rank = [](const fvec& v) { fvec u = v; std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); ivec r; for (float x : v) r.push_back((int)(std::lower_bound(u.begin(), u.end(), x) - u.begin())); return r; };
    size_t m = 0; for (size_t i = 0; i < raw.size(); ++i) if (raw[i] > raw[m]) m = i;
    ivec d, q; std::string rs;
    for (size_t i = 0; i < raw.size(); ++i)
    {
        d.push_back((int)std::max(-1e6, std::round(((double)raw[i] - (double)raw[m]) * 1442.6950408889634)));
        q.push_back(out[i] > 0 && out[m] > 0 ? (int)std::max(-1e6, std::round(1000 * std::log2((double)out[i] / (double)out[m]))) : -1000000);
        if (i < 6) { char b[32]; std::snprintf(b, sizeof b, "%s%g", i ? " " : "", raw[i]); rs += b; }
    }
    Ev("softmax").str("how", how).str("raw", rs).b("neg", false).i("sum", (int)std::llround(std::min(sum, 1000.) * 1e6)).a("rr", rank(raw)).a("ro", rank(out)).a("d", d).a("q", q).out();
}
static void copyWeights(StraightforwardNeuralNetwork& a, StraightforwardNeuralNetwork& b, size_t ia)
{
    auto* p = a.layers[ia].get(); auto* q = b.layers[0].get();
    if (auto* x = dynamic_cast<SL*>(p)) { auto* y = dynamic_cast<SL*>(q); for (size_t i = 0; i < x->neurons.size(); ++i) y->neurons[i].setWeights(x->neurons[i].getWeights()); }
    if (auto* x = dynamic_cast<RL*>(p)) { auto* y = dynamic_cast<RL*>(q); for (size_t i = 0; i < x->neurons.size(); ++i) y->neurons[i].setWeights(x->neurons[i].getWeights()); }
}
static void runPlan(const Plan& P, int idx)
{
    Rng rng(P.seed);
    int nin = 1; for (int s : P.shape) nin *= s;
    std::vector<LayerModel> arch{inputModel(P.shape)};
    if (P.front) arch.push_back(Convolution(1, 1, activation::identity));
    arch.push_back(layer(P, Softmax()));
    auto* net = new StraightforwardNeuralNetwork(arch, StochasticGradientDescent(9.5367431640625e-07f, 0));
    auto* lay = net->layers.back().get();
    StraightforwardNeuralNetwork twin({inputModel(lay->getShapeOfInput()), layer(P)}, StochasticGradientDescent(9.5367431640625e-07f, 0));
    tapAll(*net);
    size_t at = P.front ? 2 : 0;
    auto big = [&]() -> float { // a raw value
        switch (P.scale)
        {
        case 0: return (float)rng.in(-16, 16) / 4.f;
        case 1: return (float)rng.in(-200, 200) / 4.f;
        case 2: return (float)rng.in(-8, 8) * 0.6931472f;                                            // multiples of ln 2
        case 3: return (float)rng.in(-40, 40) / 40.f * 3e38f;
        case 4: return -(float)rng.in(1, 40) * 25.f;                                                 // all negative, far from zero
        case 5: return (float)rng.in(-2, 2) + 1000.f;                                                // a constant added
        case 6: return 0.25f;
        case 7: return std::ldexp((float)rng.in(-100, 100) / 100.f, rng.in(-30, 126));
        default: return (float)rng.in(0, 3) - 5000.f;
        }
    };
    auto set = [&] {
        for (auto& l : net->layers)
        {
            if (auto* x = dynamic_cast<SL*>(l.get())) for (auto& n : x->neurons)
            {
                auto w = n.getWeights();
                bool fc = P.kind == "fc" && l.get() == net->layers[at].get();
                for (auto& v : w) v = fc ? 0.f : (float)rng.in(-8, 8) / 8.f;
                if (fc) w.back() = big();                                          // the bias alone decides
                else if (P.front && l.get() == net->layers[0].get()) { for (auto& v : w) v = 0.f; w[0] = 1.f; }
                else w.back() = 0.f;
                n.setWeights(w);
            }
            if (auto* x = dynamic_cast<RL*>(l.get())) for (auto& n : x->neurons) { auto w = n.getWeights(); for (auto& v : w) v = (float)rng.in(-4, 4) / 8.f; n.setWeights(w); }
        }
    };
    set();
    auto input = [&] { fvec v; float s = P.kind == "fc" ? 0.f : P.scale == 3 || P.scale == 7 ? 0.01f : 1.f; for (int i = 0; i < nin; ++i) v.push_back(big() * s); return v; };
    auto bad = [](const fvec& v) { for (float x : v) if (notFinite(x)) return true; return false; };
    const size_t last = net->layers.size() / 2 - 1;
    for (int op = 0; op < 10; ++op)
    {
        int c = rng.in(0, 9);
        if (c == 0) set();
        if (c == 1) { auto* o = net; net = new StraightforwardNeuralNetwork(*o); delete o; }
        if (c == 2) { auto* o = net; std::string f = workDir + "/softmax" + std::to_string(idx) + ".snn"; o->saveAs(f); net = &StraightforwardNeuralNetwork::loadFrom(f); unlink(f.c_str()); delete o; }
        copyWeights(*net, twin, at);
        auto in = input(); bool reset = rng.chance(60) || op == 0;
        int how = rng.in(0, 3);
        if (how == 0) (void)net->computeOutput(in, reset);
        else if (how == 1) (void)net->computeCluster(in, reset);
        else if (how == 2) { fvec des((size_t)net->layers.back()->getNumberOfNeurons(), 0.f); des.resize(tapOut[last].empty() ? (size_t)dynamic_cast<Tap*>(net->layers.back().get())->size() : tapOut[last].size()); net->trainOnce(in, des, reset); }
        else { fmat I{in}, L{fvec((size_t)dynamic_cast<Tap*>(net->layers.back().get())->size(), 0.f)}, TI = I, TL = L; Data d(problem::regression, I, L, TI, TL); net->evaluate(d); reset = true; }
        fvec x = P.front ? tapOut[0] : in;
        fvec raw = twin.computeOutput(x, reset);
        if (bad(raw) || bad(x)) break;                                             // only finite raw outputs are spoken of
        emit(how == 2 ? "training" : "use", raw, tapOut[last]);
        if (P.kind == "fc") { set(); }
    }
    Ev("done").out();
}
int main(int argc, char** argv)
{
    Args A = parse(argc, argv);
    if (!A.work.empty()) workDir = A.work;
    Rng g(A.seed);
    std::vector<Plan> plans;
    for (int r = 0; r < (A.thorough ? 40 : 3); ++r) for (auto* kind : {"fc", "conv", "lc", "rec"}) for (int scale = 0; scale <= 8; ++scale)
    {
        Plan P; P.kind = kind; P.scale = scale; P.seed = g.next();
        P.n = P.kind == "fc" || P.kind == "rec" ? g.pick(ivec{1, 2, 3, 5, 10, 40}) : g.in(1, 3); P.k = g.in(1, 2);
        bool flat = P.kind == "fc" || P.kind == "rec";
        P.shape = flat ? ivec{g.in(1, 4)} : g.chance(50) ? ivec{g.in(1, 2), g.in(2, 6)} : ivec{g.in(1, 2), g.in(2, 4), g.in(2, 4)};
        P.front = !flat && P.shape[0] == 1 && g.chance(50);
        plans.push_back(P);
    }
    std::vector<Scenario> scs;
    for (size_t i = 0; i < plans.size(); ++i) { auto& q = plans[i]; scs.push_back({"\"kind\":\"" + q.kind + "\",\"scale\":" + std::to_string(q.scale), [q, i] { runPlan(q, (int)i); }, 20}); }
    return runAll(scs, A.out, A.jobs);
}
