// Sequences through real recurrent layers (and fully connected ones around them): predictions, training steps, resets,
// copies and reloads, everything between the layers recorded. Judged by spec/RecurrentTrace.tla (C19, C18, C17).
#define VF_MAIN
#include "tap.hpp"
using namespace vf;
using namespace snn;
struct M { std::string t; int n; std::string act; };
struct Plan { int nin = 1; std::vector<M> ms; float lr = 0.125f, mom = 0; std::vector<std::string> ops; uint64_t seed = 1; bool big = false; };
static std::string workDir = "/tmp";

static void runPlan(const Plan& P, int idx)
{
    Rng rng(P.seed);
    std::vector<LayerModel> arch{Input(P.nin)};
    for (auto& m : P.ms) arch.push_back(m.t == "fc" ? FullyConnected(m.n, actOf(m.act)) : m.t == "rec" ? Recurrence(m.n, actOf(m.act)) : GruLayer(m.n));
    auto* net = new StraightforwardNeuralNetwork(arch, StochasticGradientDescent(P.lr, P.mom));
    Ev("arch").raw("ls", layersJson(*net)).out();
    tapAll(*net);
    int nout = P.ms.back().n;
    auto setWeights = [&](StraightforwardNeuralNetwork& t) {
        auto draw = [&](fvec w) { for (auto& x : w) x = (float)rng.in(-3, 3) / (P.big ? 8.f : 4.f); w.back() = (float)(2 * rng.in(-4, 3) + 1) / 16.f; return w; };
        for (auto& l : t.layers)
        {
            if (auto* q = dynamic_cast<internal::Layer<internal::SimpleNeuron>*>(l.get())) for (auto& n : q->neurons) n.setWeights(draw(n.getWeights()));
            if (auto* q = dynamic_cast<internal::Layer<internal::RecurrentNeuron>*>(l.get())) for (auto& n : q->neurons) n.setWeights(draw(n.getWeights()));
        }
    };
    setWeights(*net);
    Ev("setw").raw("w", j3(weights(*net))).out();
    auto vec = [&](int k) { fvec v; for (int i = 0; i < k; ++i) v.push_back((float)rng.in(-4, 4) / 2.f); return v; };
    std::vector<fvec> seq;   // a sequence, to be played again
    bool over = false;
    for (auto& op : P.ops)
    {
        if (over) break;
        auto fwd = [&](const fvec& in, bool reset) {
            if (rng.chance(20)) (void)net->computeCluster(in, reset); else (void)net->computeOutput(in, reset);
            for (auto& o : tapOut) for (float v : o) if (!(std::abs(v) < 60)) { over = true; return; } // beyond the range of the specification's numbers
            Ev("fwd").raw("in", j1(in)).b("reset", reset).raw("outs", j2(tapOut)).raw("w", j3(weights(*net))).out();
        };
        if (op == "fwd") fwd(vec(P.nin), false);
        else if (op == "rfwd") fwd(vec(P.nin), true);
        else if (op == "play")
        {
            if (seq.empty()) { int n = P.big ? rng.in(6, 14) : rng.in(2, 5); for (int i = 0; i < n; ++i) seq.push_back(vec(P.nin)); }
            for (size_t i = 0; i < seq.size() && !over; ++i) fwd(seq[i], i == 0);
        }
        else if (op == "step" || op == "rstep")
        {
            auto in = vec(P.nin); auto des = vec(nout);
            auto w0 = weights(*net);
            net->trainOnce(in, des, op == "rstep");
            auto w1 = weights(*net); W3 dw = w1;
            bool wild = false;
            for (size_t i = 0; i < w0.size(); ++i) for (size_t a = 0; a < w0[i].size(); ++a) for (size_t b = 0; b < w0[i][a].size(); ++b)
            { dw[i][a][b] = w1[i][a][b] - w0[i][a][b]; wild |= !(std::abs(w1[i][a][b]) < 3); }
            for (auto& o : tapOut) for (float v : o) wild |= !(std::abs(v) < 30);
            for (auto& o : tapErr) for (float v : o) wild |= !(std::abs(v) < 30);
            if (wild) break; // beyond the range of the specification's numbers
            Ev("step").raw("in", j1(in)).b("reset", op == "rstep").raw("des", j1(des)).raw("outs", j2(tapOut)).raw("errs", j2(tapErr)).raw("dw", j3(dw)).raw("w", j3(w1)).out();
        }
        else if (op == "copy" || op == "reload")
        {
            auto* old = net;
            if (op == "copy") net = new StraightforwardNeuralNetwork(*old);
            else
            {
                std::string f = workDir + "/rec" + std::to_string(idx) + ".snn";
                old->saveAs(f); net = &StraightforwardNeuralNetwork::loadFrom(f); unlink(f.c_str());
            }
            setWeights(*old);   // the old one changes, goes on, or goes away
            (void)old->computeOutput(vec(P.nin), rng.chance(50));
            if (rng.chance(50)) delete old;
            Ev("copied").str("how", op).raw("w", j3(weights(*net))).out();
        }
    }
    Ev("done").out();
}

int main(int argc, char** argv)
{
    Args A = parse(argc, argv);
    if (!A.work.empty()) workDir = A.work;
    Rng g(A.seed);
    std::vector<Plan> plans;
    const int count = (A.prop == "C19" ? 160 : 90) * (A.thorough ? 15 : 1);
    for (int i = 0; i < count; ++i)
    {
        Plan P; P.seed = g.next(); P.big = g.chance(15); P.nin = P.big ? g.in(3, 9) : g.in(1, 4);
        std::string main = i % 2 ? "gru" : "rec";
        int len = P.big ? g.in(1, 5) : g.in(1, 3), at = g.in(0, len - 1);
        for (int k = 0; k < len; ++k)
        {
            M m; m.t = k == at ? main : g.pick(std::vector<std::string>{"fc", "fc", "rec", "gru"}); m.n = P.big ? g.in(2, len > 2 ? 4 : 7) : g.in(1, 3);
            m.act = m.t == "rec" ? g.pick(std::vector<std::string>{"tanh", "id", "sig", "relu", "gauss", "isig"}) : g.pick(std::vector<std::string>{"id", "tanh", "sig"});
            if (m.t == "gru") m.act = "tanh";
            P.ms.push_back(m);
        }
        P.lr = g.pick(fvec{0.125f, 0.25f, 0.5f, 0.0625f}); P.mom = g.pick(fvec{0, 0, 0.5f, 0.25f, 0.75f});
        if (A.prop == "C19")
        {
            P.ops = {"play"};
            int n = g.in(3, 8); for (int k = 0; k < n; ++k) P.ops.push_back(g.pick(std::vector<std::string>{"fwd", "rfwd", "step", "rstep", "play", "fwd", "copy", "reload"}));
            P.ops.push_back("play");
        }
        else { int n = g.in(3, 7); P.ops = {"rstep"}; for (int k = 0; k < n; ++k) { P.ops.push_back(g.chance(70) ? "step" : "rstep"); if (g.chance(20)) P.ops.push_back(g.chance(50) ? "fwd" : "rfwd"); if (g.chance(10)) P.ops.push_back(g.chance(50) ? "copy" : "reload"); } }
        plans.push_back(P);
    }
    std::vector<Scenario> scs;
    for (size_t i = 0; i < plans.size(); ++i)
    {
        auto& q = plans[i];
        std::string ms = "[{\"t\":\"input\",\"n\":0,\"k\":0,\"shape\":[" + std::to_string(q.nin) + "]}";
        for (auto& m : q.ms) ms += ",{\"t\":\"" + m.t + "\",\"n\":" + std::to_string(m.n) + ",\"k\":0,\"act\":\"" + m.act + "\"}";
        scs.push_back({"\"models\":" + ms + "],\"lr\":" + std::to_string(fix(q.lr, 1048576)) + ",\"mom\":" + std::to_string(fix(q.mom, Q)), [q, i] { runPlan(q, (int)i); }, 20});
    }
    return runAll(scs, A.out, A.jobs);
}
