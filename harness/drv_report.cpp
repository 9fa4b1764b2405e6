// What the library says about networks: summaries and pictures. Judged by spec/ReportTrace.tla (C29 C30).
#define VF_MAIN
#include "tap.hpp"
#include <fstream>
#include <sstream>
#include <filesystem>
#include <cmath>
using namespace vf;
using namespace snn;
struct Opt { std::string k; float v; };
struct M { std::string t; int n = 0, k = 0; std::string act = "id"; std::vector<Opt> opts; };
struct Desc { ivec shape; std::vector<M> ms; float lr = 0.25f, mom = 0.5f; };
struct Op { std::string k; int a = 0, b = 0; uint64_t seed = 0; Desc d; };
using Net = StraightforwardNeuralNetwork;
static std::string workDir = "/tmp";
static LayerModel model(const M& m)
{
    LayerModel r = m.t == "fc" ? FullyConnected(m.n, actOf(m.act)) : m.t == "rec" ? Recurrence(m.n, actOf(m.act)) : m.t == "gru" ? GruLayer(m.n) : m.t == "conv" ? Convolution(m.n, m.k, actOf(m.act)) : m.t == "lc" ? LocallyConnected(m.n, m.k, actOf(m.act)) : MaxPooling(m.k);
    for (auto& o : m.opts) r.optimizers.push_back(o.k == "ErrorMultiplier" ? ErrorMultiplier(o.v) : o.k == "L1Regularization" ? L1Regularization(o.v) : o.k == "L2Regularization" ? L2Regularization(o.v) : o.k == "Dropout" ? Dropout(o.v) : Softmax());
    return r;
}
static const std::map<std::string, std::string> actName = {{"id", "identity"}, {"relu", "ReLU"}, {"sig", "sigmoid"}, {"isig", "iSigmoid"}, {"tanh", "tanh"}, {"gelu", "GELU"}, {"gauss", "gaussian"}};
static std::string descJson(const Desc& d)
{
    std::string s = "[{\"t\":\"input\",\"n\":0,\"k\":0,\"act\":\"\",\"opts\":[],\"shape\":" + Ev::arr(d.shape) + "}";
    for (auto& m : d.ms)
    {
        s += ",{\"t\":\"" + m.t + "\",\"n\":" + std::to_string(m.n) + ",\"k\":" + std::to_string(m.k) + ",\"act\":\"" + actName.at(m.act) + "\",\"opts\":[";
        for (size_t o = 0; o < m.opts.size(); ++o) s += std::string(o ? "," : "") + "{\"k\":\"" + m.opts[o].k + "\",\"v\":" + std::to_string(m.opts[o].k == "Softmax" ? 0 : fix(m.opts[o].v, 1e6)) + "}";
        s += "]}";
    }
    return s + "]";
}
static internal::StochasticGradientDescent* sgd(Net& n) { return dynamic_cast<internal::StochasticGradientDescent*>(n.optimizer.get()); }

// ---- summaries: labels and values, whatever their layout ----
static std::string trim(std::string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); size_t i = 0; while (i < s.size() && isspace((unsigned char)s[i])) ++i; return s.substr(i); }
static ivec numbers(const std::string& s) { ivec r; std::string t; for (char c : s + " ") if (isdigit((unsigned char)c) || c == '-') t += c; else if (!t.empty()) { r.push_back(atoi(t.c_str())); t.clear(); } return r; }
static int millionths(const std::string& s) { try { return fix((float)std::stod(s), 1e6); } catch (...) { return BAD; } }
static const std::vector<std::string> labels = {"Name:", "Parameters:", "Epochs:", "Trainnig:", "Training:", "Input shape:", "Filters:", "Neurons:", "Kernel size:", "Activation:", "Output shape:", "Optimizers:", "Learning rate:", "Momentum:"};
static void parsed(Ev& e, const std::string& text)
{
    struct L { std::string title; ivec in, out, k; int units = -1, params = -1; std::string act; std::vector<std::pair<std::string, int>> opts; };
    std::vector<L> ls; std::string name; int params = -1, epochs = -1, trainings = -1, lr = BAD, mom = BAD; bool optimizer = false, layersPart = false, inOpts = false; std::string optName;
    std::istringstream is(text); std::string line; int strange = 0;
    while (std::getline(is, line))
    {
        if (line.find("| ") == 0 || line.find("|  ") == 0) { if (line.find("Layers") != std::string::npos) layersPart = true; if (line.find("Optimizer") != std::string::npos) optimizer = true; continue; }
        if (line.find("====") == 0 || line.find("----") == 0 || trim(line).empty()) continue;
        std::string label; size_t at = std::string::npos;
        for (auto& l : labels) { size_t p = line.find(l); if (p != std::string::npos && p < at) { at = p; label = l; } }
        std::string title = trim(at == std::string::npos ? line : line.substr(0, at)), value = at == std::string::npos ? "" : trim(line.substr(at + label.size()));
        auto opt = [&](const std::string& s) { size_t p = s.find('('); ls.back().opts.push_back({trim(s.substr(0, p)), p == std::string::npos ? 0 : millionths(s.substr(p + 1))}); };
        if (optimizer) { if (!title.empty()) optName = title; if (label == "Learning rate:") lr = millionths(value); if (label == "Momentum:") mom = millionths(value); continue; }
        if (layersPart && at == std::string::npos && inOpts && (title.find('(') != std::string::npos || title == "Softmax")) { opt(title); continue; }
        if (layersPart && !title.empty()) { ls.emplace_back(); ls.back().title = title; inOpts = false; }
        if (at == std::string::npos) continue;
        if (!layersPart) { if (label == "Name:") name = value; else if (label == "Parameters:") params = atoi(value.c_str()); else if (label == "Epochs:") epochs = atoi(value.c_str()); else if (label == "Trainnig:" || label == "Training:") trainings = atoi(value.c_str()); else ++strange; continue; }
        if (ls.empty()) { ++strange; continue; }
        L& l = ls.back();
        if (label == "Input shape:") l.in = numbers(value); else if (label == "Output shape:") l.out = numbers(value); else if (label == "Filters:" || label == "Neurons:") l.units = atoi(value.c_str());
        else if (label == "Kernel size:") l.k = numbers(value); else if (label == "Parameters:") l.params = atoi(value.c_str()); else if (label == "Activation:") l.act = value;
        else if (label == "Optimizers:") { inOpts = true; opt(value); } else ++strange;
    }
    std::string s = "[";
    for (size_t i = 0; i < ls.size(); ++i)
    {
        auto& l = ls[i];
        s += std::string(i ? "," : "") + "{\"title\":\"" + l.title + "\",\"in\":" + Ev::arr(l.in) + ",\"out\":" + Ev::arr(l.out) + ",\"units\":" + std::to_string(l.units) + ",\"k\":" + Ev::arr(l.k) + ",\"params\":" + std::to_string(l.params) + ",\"act\":\"" + l.act + "\",\"opts\":[";
        for (size_t o = 0; o < l.opts.size(); ++o) s += std::string(o ? "," : "") + "{\"k\":\"" + l.opts[o].first + "\",\"v\":" + std::to_string(l.opts[o].second) + "}";
        s += "]}";
    }
    e.raw("sum", "{\"name\":\"" + name + "\",\"params\":" + std::to_string(params) + ",\"epochs\":" + std::to_string(epochs) + ",\"trainings\":" + std::to_string(trainings) + ",\"layers\":" + s + "],\"lr\":" + std::to_string(lr) + ",\"mom\":" + std::to_string(mom) + "}").str("opt", optName).i("strange", strange);
}
static fvec vec(Rng& r, int k) { fvec v; for (int i = 0; i < k; ++i) v.push_back((float)r.in(-4, 4) / 4.f); return v; }
static void summaries(const std::vector<Op>& ops, int idx)
{
    std::map<int, std::unique_ptr<Net>> nets; int nfile = 0;
    for (auto& op : ops)
    {
        Rng r(op.seed);
        if (op.k != "build" && !nets.count(op.a)) continue;
        Ev e("op"); e.str("k", op.k).i("a", op.a).i("b", op.b); int more = 0; std::string name;
        int shown = op.a;
        if (op.k == "build") { std::vector<LayerModel> arch{inputModel(op.d.shape)}; for (auto& m : op.d.ms) arch.push_back(model(m)); nets[op.a] = std::make_unique<Net>(arch, StochasticGradientDescent(op.d.lr, op.d.mom)); e.raw("desc", descJson(op.d)).i("lr", fix(op.d.lr, 1e6)).i("mom", fix(op.d.mom, 1e6)); }
        Net& n = *nets[op.a];
        if (op.k == "once") { auto x = vec(r, n.getNumberOfInputs()), y = vec(r, n.getNumberOfOutputs()); n.trainOnce(x, y, true); more = 1; }
        else if (op.k == "train")
        {
            const int size = r.in(1, 6), batch = r.in(1, size), epochs = r.in(1, 3); fmat x, y; for (int i = 0; i < size; ++i) { x.push_back(vec(r, n.getNumberOfInputs())); y.push_back(vec(r, n.getNumberOfOutputs())); }
            Data d(problem::regression, x, y); d.setPrecision(0.5f); n.train(d, operator""_ep((unsigned long long)epochs), batch, r.in(0, 2)); more = epochs * (size / batch);
            if (n.hasNan()) break;
        }
        else if (op.k == "setlr") { const float to = r.pick(fvec{0.125f, 0.0625f, 0.001f, 0.03f, 0.5f}); sgd(n)->learningRate = to; e.i("lr", fix(to, 1e6)); }
        else if (op.k == "setmom") { const float to = r.pick(fvec{0.125f, 0.f, 0.9f, 1.f}); sgd(n)->momentum = to; e.i("mom", fix(to, 1e6)); }
        else if (op.k == "predict") n.computeOutput(vec(r, n.getNumberOfInputs()), true);
        else if (op.k == "save" || op.k == "reload") { name = workDir + "/report" + std::to_string(idx) + "_" + std::to_string(nfile++) + ".snn"; n.saveAs(name); if (op.k == "reload") { nets[op.b].reset(&Net::loadFrom(name)); shown = op.b; } unlink(name.c_str()); }
        else if (op.k == "copy") { nets[op.b] = std::make_unique<Net>(n); shown = op.b; }
        else if (op.k == "rename") { name = "net" + std::to_string(r.in(1, 99)) + ".snn"; n.autoSaveFilePath = name; }
        Net& s = *nets[shown];
        e.i("more", more).str("name", name).i("epoch", s.getCurrentEpoch()).i("trainings", (long long)s.getNumberOfTraining()); parsed(e, s.summary()); e.out();
    }
    Ev("done").out();
}

// ---- pictures ----
struct Bmp { int w = 0, h = 0; std::vector<ivec> px; bool ok = false; };
static Bmp readBmp(const std::string& path)
{
    Bmp b; std::ifstream f(path, std::ios::binary); std::string s((std::istreambuf_iterator<char>(f)), {});
    auto u = [&](size_t o, int n) { unsigned v = 0; for (int i = n - 1; i >= 0; --i) v = (v << 8) | (o + (size_t)i < s.size() ? (unsigned char)s[o + (size_t)i] : 0u); return v; };
    if (s.size() < 54 || s[0] != 'B' || s[1] != 'M' || u(28, 2) != 24) return b;
    b.w = (int)u(18, 4); b.h = (int)u(22, 4); const size_t off = u(10, 4), row = ((size_t)b.w * 3 + 3) / 4 * 4;
    if (b.w < 1 || b.h < 1 || b.w > 2000 || b.h > 2000 || s.size() < off + row * (size_t)b.h) return b;
    for (int y = 0; y < b.h; ++y) for (int x = 0; x < b.w; ++x) { size_t o = off + row * (size_t)(b.h - 1 - y) + (size_t)x * 3; b.px.push_back({(int)u(o + 2, 1), (int)u(o + 1, 1), (int)u(o, 1)}); }
    b.ok = true; return b;
}
static void picture(const std::string& what, const std::string& path, int layer, const ivec& shape, const fvec& values)
{
    const bool there = access(path.c_str(), F_OK) == 0; Bmp b = readBmp(path);
    Ev("pic").str("what", what).i("layer", layer).a("shape", shape).b("there", there).b("ok", b.ok).i("w", b.w).i("h", b.h).aa("px", b.px).fx("v", values, 1048576.0).out();
    unlink(path.c_str());
}
static void pictures(const Desc& d, uint64_t seed, int idx)
{
    Rng r(seed);
    std::vector<LayerModel> arch{inputModel(d.shape)}; for (auto& m : d.ms) arch.push_back(model(m));
    Net net(arch, StochasticGradientDescent(d.lr, d.mom));
    const std::string dir = workDir + "/pictures" + std::to_string(idx); std::filesystem::create_directories(dir);
    fmat x, y, u, v; auto datum = [&] { fvec q; for (int i = 0; i < net.getNumberOfInputs(); ++i) q.push_back((float)r.in(0, 256) / 256.f); return q; };
    for (int i = 0; i < 4; ++i) { x.push_back(datum()); y.push_back(vec(r, net.getNumberOfOutputs())); }
    const bool two = r.chance(60); if (two) for (int i = 0; i < 3; ++i) { u.push_back(datum()); v.push_back(vec(r, net.getNumberOfOutputs())); }
    auto data = two ? std::make_unique<Data>(problem::regression, x, y, u, v) : std::make_unique<Data>(problem::regression, x, y);
    data->setPrecision(0.5f);
    const fmat& test = two ? u : x;
    Ev("net").raw("desc", descJson(d)).out();
    for (int i = 0; i < 3; ++i)
    {
        const int at = r.in(0, (int)test.size() - 1);
        if (d.shape.size() == 3) { net.saveData2DAsBitmap(dir + "/p", *data, at); picture("datum", dir + "/p_input" + std::to_string(at) + ".bmp", 0, d.shape, test[(size_t)at]); }
        Net tapped(net); tapAll(tapped); tapped.computeOutput(test[(size_t)at], true); const auto outs = tapOut;
        net.saveFilterLayersAsBitmap(dir + "/f", *data, at);
        for (size_t l = 0; l < net.layers.size(); ++l) picture("outputs", dir + "/f_layer_" + std::to_string(l) + ".bmp", (int)l + 1, net.layers[l]->getShapeOfOutput(), outs[l]);
        int left = 0; for ([[maybe_unused]] auto& f : std::filesystem::directory_iterator(dir)) ++left;
        Ev("left").i("n", left).out();
        if (i == 0) net.train(*data, 1_ep, 1, 0);
        if (i == 1) data->shuffle();
    }
    // refused while training
    net.startTrainingAsync(*data, 1, 0);
    bool threw = false; try { net.saveFilterLayersAsBitmap(dir + "/t", *data, 0); } catch (const std::exception&) { threw = true; }
    net.stopTrainingAsync();
    int left = 0; for ([[maybe_unused]] auto& f : std::filesystem::directory_iterator(dir)) ++left;
    Ev("busy").b("threw", threw).i("n", left).out();
    std::filesystem::remove_all(dir);
    Ev("done").out();
}
static int sizeOf(const ivec& s) { int r = 1; for (int x : s) r *= x; return r; }
static bool sizeAfter(ivec& s, const M& m)
{
    if (m.t == "fc" || m.t == "rec" || m.t == "gru") { s = {m.n}; return true; }
    ivec q = s.size() == 1 ? ivec{1, s[0]} : s;
    for (size_t i = 1; i < q.size(); ++i) { if (m.k > q[i]) return false; q[i] = m.t == "conv" ? q[i] - m.k + 1 : (q[i] + m.k - 1) / m.k; }
    if (m.t != "pool") q[0] = m.n;
    s = q; return true;
}
static bool good(const Desc& d) { ivec s = d.shape; for (auto& m : d.ms) if (!sizeAfter(s, m) || sizeOf(s) > 120) return false; return true; }
int main(int argc, char** argv)
{
    Args A = parse(argc, argv);
    if (!A.work.empty()) workDir = A.work;
    Rng g(A.seed); const std::string& p = A.prop; auto is = [&](const char* id) { return p.empty() || p == id; };
    const int scale = A.thorough ? 12 : 1;
    const std::vector<std::string> acts = {"id", "relu", "sig", "isig", "tanh", "gelu", "gauss"};
    std::vector<Scenario> scs;
    auto randomOpt = [&](bool last) { std::string k = g.pick(std::vector<std::string>{"ErrorMultiplier", "L1Regularization", "L2Regularization", "Dropout", "Softmax"}); if (k == "Softmax" && !last) k = "Dropout"; return Opt{k, k == "Dropout" ? g.pick(fvec{0.25f, 0.5f, 0.3f}) : g.pick(fvec{0.5f, 0.0625f, 0.001f, 0.9f})}; };
    if (is("C29")) for (int rd = 0; rd < 250 * scale; ++rd)
    {
        auto desc = [&] {
            for (;;)
            {
                Desc d; int dims = g.in(1, 3); if (dims == 1) d.shape = {g.in(1, 9)}; else if (dims == 2) d.shape = {g.in(1, 3), g.in(1, 7)}; else d.shape = {g.in(1, 3), g.in(1, 6), g.in(1, 6)};
                int len = g.chance(20) ? g.in(5, 9) : g.in(1, 4);
                for (int i = 0; i < len; ++i)
                {
                    M m; m.t = g.pick(std::vector<std::string>{"fc", "conv", "lc", "pool", "rec", "gru"}); const bool dense = m.t == "fc" || m.t == "rec" || m.t == "gru";
                    m.n = m.t == "pool" ? 0 : g.in(1, 5); m.k = dense ? 0 : g.in(1, 3); m.act = g.pick(acts);
                    if (m.t != "pool") { int k = g.in(0, 2); for (int o = 0; o < k; ++o) m.opts.push_back(randomOpt(i + 1 == len)); }
                    d.ms.push_back(m);
                }
                d.lr = g.pick(fvec{0.125f, 0.01f, 0.03f, 0.0005f}); d.mom = g.pick(fvec{0.f, 0.5f, 0.25f, 0.9f});
                if (good(d)) return d;
            }
        };
        std::vector<Op> ops; Op b; b.k = "build"; b.d = desc(); ops.push_back(b);
        int len = g.in(2, 8);
        for (int i = 0; i < len; ++i) { Op o; o.k = g.pick(std::vector<std::string>{"once", "once", "train", "setlr", "setmom", "predict", "save", "reload", "copy", "rename", "build"}); o.a = g.in(0, 1); o.b = g.in(0, 1); o.seed = g.next(); if (o.k == "build") o.d = desc(); if ((o.k == "copy" || o.k == "reload") && o.a == o.b) o.b = 1 - o.a; ops.push_back(o); }
        int idx = (int)scs.size(); scs.push_back({"\"kind\":\"summary\"", [ops, idx] { summaries(ops, idx); }, 60});
    }
    if (is("C30")) for (int rd = 0; rd < 220 * scale; ++rd)
    {
        Desc d;
        for (;;)
        {
            d = Desc(); d.lr = 0.01f; d.mom = 0;
            d.shape = g.chance(85) ? ivec{g.chance(50) ? 1 : 3, g.in(1, 7), g.in(1, 7)} : ivec{g.in(1, 3), g.in(2, 9)};
            int len = g.in(1, 4);
            for (int i = 0; i < len; ++i)
            {
                M m; m.t = g.pick(std::vector<std::string>{"conv", "conv", "lc", "lc", "pool", "fc"});
                m.n = m.t == "pool" ? 0 : g.in(1, m.t == "fc" ? 3 : 7); m.k = m.t == "fc" ? 0 : g.in(1, 3); m.act = g.pick(std::vector<std::string>{"sig", "gauss"});
                if (m.t != "pool" && m.t != "fc" && g.chance(15)) m.opts.push_back({"Dropout", 0.5f});
                d.ms.push_back(m);
            }
            if (good(d)) break;
        }
        int idx = (int)scs.size(); uint64_t seed = g.next(); scs.push_back({"\"kind\":\"pictures\"", [d, seed, idx] { pictures(d, seed, idx); }, 60});
    }
    return runAll(scs, A.out, A.jobs);
}
