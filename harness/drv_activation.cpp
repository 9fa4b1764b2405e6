// Outputs and learning slopes of one real neuron with each activation function. Judged by spec/ActivationTrace.tla (C25).
#define VF_MAIN
#include "snn.hpp"
#include <cmath>
using namespace vf;
using namespace snn;
using SL = internal::Layer<internal::SimpleNeuron>;
struct Plan { std::string name; activation a; std::string kind; uint64_t seed; int count; };
static std::string workDir = "/tmp";
static const double U = 16384;

static void runPlan(const Plan& P, int idx)
{
    Rng rng(P.seed);
    const float lr = 0.5f;
    auto* net = P.kind == "conv" ? new StraightforwardNeuralNetwork({Input(1), Convolution(1, 1, P.a)}, StochasticGradientDescent(lr, 0))
              : P.kind == "lc" ? new StraightforwardNeuralNetwork({Input(1), LocallyConnected(1, 1, P.a)}, StochasticGradientDescent(lr, 0))
                               : new StraightforwardNeuralNetwork({Input(1), FullyConnected(1, P.a)}, StochasticGradientDescent(lr, 0));
    std::string how = "built";
    if (idx % 3 == 1) { auto* o = net; net = new StraightforwardNeuralNetwork(*o); delete o; how = "copied"; }
    if (idx % 3 == 2) { auto* o = net; std::string f = workDir + "/act" + std::to_string(idx) + ".snn"; o->saveAs(f); net = &StraightforwardNeuralNetwork::loadFrom(f); unlink(f.c_str()); delete o; how = "loaded"; }
    auto& n = dynamic_cast<SL&>(*net->layers[0]).neurons[0];
    auto point = [&](float x) {
        char t[32]; std::snprintf(t, sizeof t, "%g", x);
        n.setWeights({1.f, 0.f});
        float y = net->computeOutput({x})[0], d = n.outputFunction->derivative(x); std::string h = how;
        if (P.kind == "fc" && std::fabs(x) <= 16 && rng.chance(50))    // the slope as the learning applies it: the change of the bias under an error of one
        {
            (void)net->trainOnce({x}, {y + 0.5f});
            d = (float)((double)n.getWeights()[1] / ((double)lr * 2. * ((double)(y + 0.5f) - (double)y))); h += ", learning";
        }
        int sgn = x > 0 ? 1 : x < 0 ? -1 : 0;
        if (std::fabs(x) <= 16) Ev("near").i("x", fix(x, U)).i("y", fix(y, U)).i("d", fix(d, U)).i("sgn", sgn).str("t", t).str("how", h).out();
        else Ev("far").i("y", fix(y, U)).i("ratio", notFinite(y) ? BAD : fix((float)((double)y / (double)x), U)).i("inv", fix((float)(1 / std::fabs((double)x)), U)).i("d", fix(d, U)).i("sgn", sgn).str("t", t).str("how", h).out();
    };
    for (float x : {0.f, 1.f, -1.f, 1e-30f, -1e-30f, 1e-7f, -1e-7f, 16.f, -16.f, 20.f, -20.f, 44.5f, -44.5f, 88.f, -88.f, 89.f, -89.f, 104.f, -104.f, 1e3f, -1e3f, 1e10f, -1e10f, 1e19f, -1e19f, 3e19f, -3e19f, 1e30f, -1e30f, 1e38f, -1e38f}) point(x);
    for (int k = 0; k < P.count; ++k)
        switch (rng.in(0, 5))
        {
        case 0: point((float)rng.in(-512, 512) / 32.f); break;
        case 1: point((float)rng.in(-262144, 262144) / 16384.f); break;
        case 2: point((float)rng.in(-32768, 32768) / 16384.f); break;
        case 3: point((float)rng.in(-65536, 65536) / 16384.f); break;
        case 4: point(std::ldexp((float)rng.in(512, 1023) / 1024.f, rng.in(-90, 126)) * (rng.chance(50) ? 1.f : -1.f)); break;
        default: point((float)rng.in(-130, 130)); break;
        }
    Ev("done").out();
}
int main(int argc, char** argv)
{
    Args A = parse(argc, argv);
    if (!A.work.empty()) workDir = A.work;
    Rng g(A.seed);
    std::vector<Plan> plans;
    const std::vector<std::pair<std::string, activation>> all{{"sigmoid", activation::sigmoid}, {"iSigmoid", activation::iSigmoid}, {"tanh", activation::tanh}, {"ReLU", activation::ReLU}, {"GELU", activation::GELU}, {"gaussian", activation::gaussian}, {"identity", activation::identity}};
    for (int r = 0; r < (A.thorough ? 20 : 1); ++r) for (auto& [name, a] : all) for (auto* kind : {"fc", "fc", "fc", "conv", "lc", "conv"}) plans.push_back({name, a, kind, g.next(), A.thorough ? 400 : 220});
    std::vector<Scenario> scs;
    for (size_t i = 0; i < plans.size(); ++i) { auto& q = plans[i]; scs.push_back({"\"a\":\"" + q.name + "\"", [q, i] { runPlan(q, (int)i); }, 20}); }
    return runAll(scs, A.out, A.jobs);
}
