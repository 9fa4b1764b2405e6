// Descriptions of networks, well-formed or not, given to the real constructor. Judged by spec/ArchTrace.tla (C20).
#define VF_MAIN
#include "tap.hpp"
using namespace vf;
using namespace snn;
struct M { std::string t; int n = 0, k = 0; ivec shape; };
struct D { std::vector<M> ms; float lr = 0.25f, mom = 0.5f; bool heavy = false; };
static std::string workDir = "/tmp";
static LayerModel model(const M& m)
{
    if (m.t == "input") return inputModel(m.shape);
    if (m.t == "fc") return FullyConnected(m.n); if (m.t == "rec") return Recurrence(m.n); if (m.t == "gru") return GruLayer(m.n);
    if (m.t == "conv") return Convolution(m.n, m.k); if (m.t == "lc") return LocallyConnected(m.n, m.k); return MaxPooling(m.k);
}
static std::string kindOf(internal::BaseLayer* l)
{
    using snn::internal::Convolution1D; using snn::internal::Convolution2D; using snn::internal::LocallyConnected1D; using snn::internal::LocallyConnected2D; using snn::internal::MaxPooling1D; using snn::internal::MaxPooling2D;
    if (dynamic_cast<Convolution1D*>(l)) return "conv1"; if (dynamic_cast<Convolution2D*>(l)) return "conv2"; if (dynamic_cast<LocallyConnected1D*>(l)) return "lc1"; if (dynamic_cast<LocallyConnected2D*>(l)) return "lc2";
    if (dynamic_cast<MaxPooling1D*>(l)) return "pool1"; if (dynamic_cast<MaxPooling2D*>(l)) return "pool2"; if (dynamic_cast<internal::FullyConnected*>(l)) return "fc"; if (dynamic_cast<internal::Recurrence*>(l)) return "rec"; if (dynamic_cast<internal::GruLayer*>(l)) return "gru";
    return "?";
}
static void shown(Ev& e, StraightforwardNeuralNetwork& n)
{
    std::string ls = "[";
    for (size_t i = 0; i < n.layers.size(); ++i) { auto* l = n.layers[i].get(); ls += std::string(i ? "," : "") + "{\"kind\":\"" + kindOf(l) + "\",\"in\":" + Ev::arr(l->getShapeOfInput()) + ",\"out\":" + Ev::arr(l->getShapeOfOutput()) + ",\"nin\":" + std::to_string(l->getNumberOfInputs()) + ",\"neurons\":" + std::to_string(l->getNumberOfNeurons()) + ",\"params\":" + std::to_string(l->getNumberOfParameters()) + "}"; }
    e.raw("ls", ls + "]");
    e.raw("tot", "{\"layers\":" + std::to_string(n.getNumberOfLayers()) + ",\"nin\":" + std::to_string(n.getNumberOfInputs()) + ",\"nout\":" + std::to_string(n.getNumberOfOutputs()) + ",\"neurons\":" + std::to_string(n.getNumberOfNeurons()) + ",\"params\":" + std::to_string(n.getNumberOfParameters()) + "}");
}
static std::string desc(const D& d)
{
    std::string s = "[";
    for (size_t i = 0; i < d.ms.size(); ++i) { auto& m = d.ms[i]; s += std::string(i ? "," : "") + "{\"t\":\"" + m.t + "\",\"n\":" + std::to_string(m.n) + ",\"k\":" + std::to_string(m.k) + ",\"shape\":" + Ev::arr(m.shape) + "}"; }
    return s + "]";
}
static void give(const D& d, Rng& rng, const std::string& file)
{
    std::unique_ptr<StraightforwardNeuralNetwork> net;
    try { std::vector<LayerModel> a; for (auto& m : d.ms) a.push_back(model(m)); net = std::make_unique<StraightforwardNeuralNetwork>(a, StochasticGradientDescent(d.lr, d.mom)); }
    catch (const std::exception&) {}
    auto head = [&](const char* e) { Ev v(e); v.raw("models", desc(d)).i("lr", fix(d.lr, 1e6)).i("mom", fix(d.mom, 1e6)); return v; };
    if (!net) { head("refused").out(); return; }
    { auto e = head("built"); shown(e, *net); e.out(); }
    if (d.heavy) return;
    fvec in; for (int i = 0; i < net->getNumberOfInputs(); ++i) in.push_back((float)rng.in(-4, 4) / 2.f);
    auto out = net->computeOutput(in, true);
    Ev("used").i("out", (long long)out.size()).out();
    net->trainOnce(in, out, true); net->trainOnce(in, fvec(out.size(), 0.f), true);
    Ev("used").i("out", (long long)net->computeOutput(in, true).size()).out();
    if (rng.chance(30)) { StraightforwardNeuralNetwork c(*net); Ev e("again"); shown(e, c); e.str("how", "copy").out(); Ev("used").i("out", (long long)c.computeOutput(in, true).size()).out(); }
    if (rng.chance(20)) { net->saveAs(file); auto& c = StraightforwardNeuralNetwork::loadFrom(file); unlink(file.c_str()); Ev e("again"); shown(e, c); e.str("how", "save and load").out(); c.trainOnce(in, out, true); Ev("used").i("out", (long long)c.computeOutput(in, true).size()).out(); delete &c; }
}
int main(int argc, char** argv)
{
    Args A = parse(argc, argv);
    if (!A.work.empty()) workDir = A.work;
    Rng g(A.seed);
    std::vector<D> ds, heavy;
    const std::vector<std::string> kinds = {"fc", "rec", "gru", "conv", "lc", "pool"};
    auto input = [](ivec s) { return M{"input", 0, 0, std::move(s)}; };
    // one layer: every kind, small sizes including none, every shape of up to 4 dimensions
    auto pick = [&](bool thorough, int p) { return thorough || g.chance(p); };
    std::vector<ivec> shapes = {{}, {0}, {-1}, {1, 0}, {0, 3}, {2, 0, 3}, {2, 3, 0}, {2, 3, -2}, {1, 2, 2, 2}, {2, 2, 0, 2}, {1, 1, 1, 1, 2}};
    for (int x = 1; x <= 6; ++x) shapes.push_back({x});
    for (int c = 1; c <= 3; ++c) for (int x = 1; x <= 5; ++x) shapes.push_back({c, x});
    for (int c = 1; c <= 3; ++c) for (int x = 1; x <= 4; ++x) for (int y = 1; y <= 4; ++y) shapes.push_back({c, x, y});
    for (auto& t : kinds) for (auto& s : shapes)
        if (t == "fc" || t == "rec" || t == "gru") { for (int n = -1; n <= 3; ++n) if (pick(A.thorough, 50)) ds.push_back({{input(s), M{t, n, 0, {}}}}); }
        else for (int k = -1; k <= 6; ++k) for (int n = (t == "pool" ? 1 : -1); n <= (t == "pool" ? 1 : 3); ++n) if (pick(A.thorough, k <= 5 && n > 0 ? 40 : 15)) ds.push_back({{input(s), M{t, n, k, {}}}});
    // chains, mostly well-formed, some with one flaw
    for (int r = 0; r < (A.thorough ? 12000 : 900); ++r)
    {
        D d; ivec s; int dims = g.in(1, 3);
        if (dims == 1) s = {g.in(1, 30)}; else if (dims == 2) s = {g.in(1, 4), g.in(1, 16)}; else s = {g.in(1, 3), g.in(1, 9), g.in(1, 9)};
        d.ms.push_back(input(s));
        int len = g.chance(85) ? g.in(1, 5) : g.in(6, 14);
        for (int i = 0; i < len; ++i)
        {
            M m; m.t = g.pick(kinds); m.n = g.chance(90) ? g.in(1, 5) : g.in(6, 40); m.k = len > 5 ? g.in(1, 2) : g.chance(85) ? g.in(1, 3) : g.in(1, 9);
            d.ms.push_back(m);
        }
        if (g.chance(20)) switch (g.in(0, 4))
        {
            case 0: d.ms.insert(d.ms.begin() + g.in(1, (int)d.ms.size()), input({g.in(1, 4)})); break;
            case 1: d.ms.erase(d.ms.begin()); break;
            case 2: d.ms[(size_t)g.in(1, (int)d.ms.size() - 1)].n = g.pick(ivec{0, -1, -1000}); break;
            case 3: d.ms[(size_t)g.in(1, (int)d.ms.size() - 1)].k = g.pick(ivec{0, -1, -3, 100, 1000000}); break;
            case 4: std::swap(d.ms[0], d.ms.back()); break;
        }
        if (g.chance(20)) d.lr = g.pick(fvec{0.f, -0.25f, 1.f, 1.5f, 1e-5f, 0.5f, 0.999f, 100.f});
        if (g.chance(20)) d.mom = g.pick(fvec{0.f, -0.25f, 1.f, 1.01f, -1e-4f, 0.999f, 3.f});
        ds.push_back(d);
    }
    ds.push_back({{}}); ds.push_back({{M{"fc", 3, 0, {}}}}); ds.push_back({{input({3})}}); ds.push_back({{input({3}), input({3})}}); ds.push_back({{input({3}), input({3}), M{"fc", 2, 0, {}}}});
    for (float lr : {-1.f, 0.f, 1e-5f, 0.5f, 0.9999f, 1.f, 1.0001f, 2.f}) for (float mom : {-1.f, -1e-4f, 0.f, 0.5f, 1.f, 1.0001f, 2.f}) { D d{{input({2}), M{g.pick(std::vector<std::string>{"fc", "rec", "gru"}), 2, 0, {}}}}; d.lr = lr; d.mom = mom; ds.push_back(d); }
    // sizes around the limits, and far beyond them
    for (auto s : std::vector<ivec>{{1000000}, {1000001}, {2073600}, {2073601}, {1000, 1000}, {1, 1000, 1000}, {1, 1000, 1001}, {1001, 1000}, {65536, 65537}, {65536, 65536}, {46341, 46341}, {3, 1431655766}, {2, 2147483647, 2}, {4, 1073741825}, {2147483647, 2147483647}, {65536, 65536, 65536, 65536}, {2000000000, 2000000000, 3}, {-2000000000, 2000000000, 2000000000}})
        for (auto& t : kinds) { if (!A.thorough && t != "fc" && t != "pool" && g.chance(50)) continue; if ((t == "conv" || t == "lc") && s.size() < 5 && ivec(s) == ivec{1000000}) continue; heavy.push_back({{input(s), M{t, 1, t == "conv" || t == "lc" || t == "pool" ? 1000 : 0, {}}}}); }
    heavy.push_back({{input({600, 300}), M{"conv", 6, 1, {}}, M{"fc", 1, 0, {}}}});            // 1800
    heavy.push_back({{input({1, 1000, 600}), M{"conv", 2, 1, {}}, M{"fc", 1, 0, {}}}});        // 1200000 inputs of the second layer
    heavy.push_back({{input({1}), M{"fc", 1000001, 0, {}}}});
    if (A.thorough) { heavy.push_back({{input({1}), M{"fc", 1000000, 0, {}}}}); heavy.push_back({{input({1}), M{"rec", 1000001, 0, {}}}}); heavy.push_back({{input({1}), M{"gru", 1000001, 0, {}}}}); heavy.push_back({{input({1}), M{"conv", 1000001, 1, {}}}}); heavy.push_back({{input({2}), M{"lc", 500001, 1, {}}}}); }
    for (int n : {998, 999, 1000, 1001, 1500}) { D d{{input({2})}}; for (int i = 0; i < n; ++i) d.ms.push_back(M{g.pick(std::vector<std::string>{"fc", "rec"}), 1, 0, {}}); heavy.push_back(d); }
    std::vector<Scenario> scs;
    const size_t per = 25;
    for (size_t i = 0; i < ds.size(); i += per)
    {
        std::vector<D> part(ds.begin() + (long)i, ds.begin() + (long)std::min(ds.size(), i + per)); uint64_t seed = g.next(); size_t n = scs.size();
        scs.push_back({"\"k\":\"small\"", [part, seed, n] { Rng r(seed); for (auto& d : part) give(d, r, workDir + "/arch" + std::to_string(n) + ".snn"); Ev("done").out(); }, 60});
    }
    for (auto& d : heavy) { D h = d; h.heavy = true; scs.push_back({"\"k\":\"large\"", [h] { Rng r(1); give(h, r, ""); Ev("done").out(); }, 120}); }
    return runAll(scs, A.out, A.jobs);
}
