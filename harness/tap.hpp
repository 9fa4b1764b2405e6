// A pass-through layer that records everything that flows between the layers of a network, and the weights of its real layers.
#pragma once
#include "snn.hpp"
namespace vf {
using namespace snn;
inline fmat tapOut, tapErr;
inline std::function<void(int id, const fvec& out, bool training)> tapPass;   // told of every pass

// A layer that passes everything through and records it.
class Tap final : public internal::BaseLayer
{
    friend class boost::serialization::access;
    template <class A> void serialize(A& ar, unsigned) { ar & boost::serialization::base_object<internal::BaseLayer>(*this); ar & id & shape; }
public:
    int id = 0; ivec shape;
    Tap() = default;
    Tap(int i, ivec s) : id(i), shape(std::move(s)) {}
    int size() const { int n = 1; for (int s : shape) n *= s; return n; }
    std::unique_ptr<BaseLayer> clone(std::shared_ptr<internal::NeuralNetworkOptimizer>) const override { return std::make_unique<Tap>(*this); }
    void* getNeuron(int) override { return nullptr; }
    float getAverageOfAbsNeuronWeights() const override { return 0; }
    float getAverageOfSquareNeuronWeights() const override { return 0; }
    int getNumberOfInputs() const override { return size(); }
    int getNumberOfNeurons() const override { return size(); }
    int getNumberOfParameters() const override { return 0; }
    ivec getShapeOfInput() const override { return shape; }
    ivec getShapeOfOutput() const override { return shape; }
    fvec output(const fvec& in, bool) override { if (tapPass) tapPass(id, in, false); tapOut[(size_t)id] = in; return in; }
    fvec outputForTraining(const fvec& in, bool) override { if (tapPass) tapPass(id, in, true); tapOut[(size_t)id] = in; return in; }
    fvec backOutput(fvec& e) override { tapErr[(size_t)id] = e; return e; }
    void train(fvec& e) override { tapErr[(size_t)id] = e; }
    int isValid() const override { return 0; }
    std::string summary() const override { return "tap"; }
    bool operator==(const BaseLayer& o) const override { auto* p = dynamic_cast<const Tap*>(&o); return p && p->id == id; }
    bool operator!=(const BaseLayer& o) const override { return !(*this == o); }
};

inline const double Q = 4096;
// every real layer gets a tap behind it
inline void tapAll(StraightforwardNeuralNetwork& net)
{
    std::vector<std::unique_ptr<internal::BaseLayer>> ls; ls.swap(net.layers);
    for (size_t i = 0; i < ls.size(); ++i) { auto shape = ls[i]->getShapeOfOutput(); net.layers.push_back(std::move(ls[i])); net.layers.push_back(std::make_unique<Tap>((int)i, shape)); }
    tapOut.assign(ls.size(), {}); tapErr.assign(ls.size(), {});
}
inline std::string layersJson(StraightforwardNeuralNetwork& net)
{
    std::string ls = "[";
    for (size_t i = 0; i < net.layers.size(); ++i) { auto& l = net.layers[i]; ls += std::string(i ? "," : "") + "{\"in\":" + Ev::arr(l->getShapeOfInput()) + ",\"out\":" + Ev::arr(l->getShapeOfOutput()) + ",\"nin\":" + std::to_string(l->getNumberOfInputs()) + ",\"neurons\":" + std::to_string(l->getNumberOfNeurons()) + ",\"params\":" + std::to_string(l->getNumberOfParameters()) + "}"; }
    return ls + "]";
}
using W3 = std::vector<std::vector<fvec>>;
inline std::vector<fvec> weightsOf(internal::BaseLayer* b)
{
    std::vector<fvec> r;
    if (auto* l = dynamic_cast<internal::Layer<internal::SimpleNeuron>*>(b)) for (auto& q : l->neurons) r.push_back(q.getWeights());
    if (auto* l = dynamic_cast<internal::Layer<internal::RecurrentNeuron>*>(b)) for (auto& q : l->neurons) r.push_back(q.getWeights());
    if (auto* l = dynamic_cast<internal::Layer<internal::GatedRecurrentUnit>*>(b)) for (auto& q : l->neurons) r.push_back(q.getWeights());
    return r;
}
inline W3 weights(StraightforwardNeuralNetwork& n) { W3 r; for (auto& l : n.layers) if (!dynamic_cast<Tap*>(l.get())) r.push_back(weightsOf(l.get())); return r; }
inline std::string j1(const fvec& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += std::to_string(fix(v[i], Q)); } return s + "]"; }
inline std::string j2(const fmat& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += j1(v[i]); } return s + "]"; }
inline std::string j3(const W3& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += j2(v[i]); } return s + "]"; }

inline LayerModel inputModel(const ivec& s) { LayerModel r = Input(1); r.shapeOfInput = s; return r; }
inline activation actOf(const std::string& a)
{
    if (a == "id") return activation::identity; if (a == "relu") return activation::ReLU; if (a == "sig") return activation::sigmoid;
    if (a == "isig") return activation::iSigmoid; if (a == "tanh") return activation::tanh; if (a == "gelu") return activation::GELU; return activation::gaussian;
}
} // namespace vf
BOOST_CLASS_EXPORT(vf::Tap)
