// Includes of the library's public headers, the Probe layer, and small helpers over the public API.
#pragma once
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/serialization/export.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/base_object.hpp>
#include "neural_network/StraightforwardNeuralNetwork.hpp"
#include "neural_network/layer/LayerFactory.hpp"
#include "neural_network/layer/Convolution1D.hpp"
#include "neural_network/layer/Convolution2D.hpp"
#include "neural_network/layer/FullyConnected.hpp"
#include "neural_network/layer/GruLayer.hpp"
#include "neural_network/layer/LocallyConnected1D.hpp"
#include "neural_network/layer/LocallyConnected2D.hpp"
#include "neural_network/layer/MaxPooling1D.hpp"
#include "neural_network/layer/MaxPooling2D.hpp"
#include "neural_network/layer/Recurrence.hpp"
#include "neural_network/optimizer/LayerOptimizerFactory.hpp"
#include "neural_network/optimizer/NeuralNetworkOptimizerFactory.hpp"
#include "data/Data.hpp"
#include "tools/ExtendedExpection.hpp"
#include "common.hpp"

namespace vf {
using fvec = std::vector<float>;
using fmat = std::vector<fvec>;
using ivec = std::vector<int>;

// What a probe does is decided by the scenario; the hooks see every call the network makes to its layer.
struct ProbeHooks
{
    std::function<fvec(const fvec&, bool reset)> train;            // outputForTraining
    std::function<fvec(const fvec&, bool reset)> eval;             // output
    std::function<fvec(fvec& errors, bool isTrain)> learn;         // train / backOutput
};
inline ProbeHooks* hooks = nullptr;

// A layer, plugged into a network through its public `layers` member, that records what the network asks of it.
// It serializes the number of learning steps and evaluation passes it has seen, so a saved file tells when it was written.
class Probe final : public snn::internal::BaseLayer
{
    friend class boost::serialization::access;
    template <class A> void serialize(A& ar, unsigned)
    {
        ar & boost::serialization::base_object<snn::internal::BaseLayer>(*this);
        ar & nIn & nOut & steps & evals & pass;
    }
public:
    int nIn = 0, nOut = 0, steps = 0, evals = 0; bool pass = false;
    Probe() = default;
    Probe(int i, int o, bool passThrough = false) : nIn(i), nOut(o), pass(passThrough) {}
    std::unique_ptr<BaseLayer> clone(std::shared_ptr<snn::internal::NeuralNetworkOptimizer>) const override { return std::make_unique<Probe>(*this); }
    void* getNeuron(int) override { return nullptr; }
    float getAverageOfAbsNeuronWeights() const override { return 0; }
    float getAverageOfSquareNeuronWeights() const override { return 0; }
    int getNumberOfInputs() const override { return nIn; }
    int getNumberOfNeurons() const override { return nOut; }
    int getNumberOfParameters() const override { return 0; }
    ivec getShapeOfInput() const override { return {nIn}; }
    ivec getShapeOfOutput() const override { return {nOut}; }
    fvec output(const fvec& in, bool reset) override { ++evals; if (hooks && hooks->eval) return hooks->eval(in, reset); return pass ? in : fvec((size_t)nOut, 0.f); }
    fvec outputForTraining(const fvec& in, bool reset) override { if (hooks && hooks->train) return hooks->train(in, reset); return pass ? in : fvec((size_t)nOut, 0.f); }
    fvec backOutput(fvec& e) override { ++steps; if (hooks && hooks->learn) return hooks->learn(e, false); return pass ? e : fvec((size_t)nIn, 0.f); }
    void train(fvec& e) override { ++steps; if (hooks && hooks->learn) (void)hooks->learn(e, true); }
    int isValid() const override { return 0; }
    std::string summary() const override { return "probe"; }
    bool operator==(const BaseLayer& o) const override { auto* p = dynamic_cast<const Probe*>(&o); return p && p->nIn == nIn && p->nOut == nOut && p->steps == steps && p->evals == evals; }
    bool operator!=(const BaseLayer& o) const override { return !(*this == o); }
};
} // namespace vf
BOOST_CLASS_EXPORT(vf::Probe)
