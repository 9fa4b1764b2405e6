From 983c5b608cbc4bc9ebb1109f1d7aa0f87e10117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 01/41] fix: accumulate the bias weight update of simple
 neurons instead of overwriting the weight

---
 src/neural_network/optimizer/StochasticGradientDescent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/optimizer/StochasticGradientDescent.cpp b/src/neural_network/optimizer/StochasticGradientDescent.cpp
index 45971f0..59389c3 100644
--- a/src/neural_network/optimizer/StochasticGradientDescent.cpp
+++ b/src/neural_network/optimizer/StochasticGradientDescent.cpp
@@ -34,7 +34,7 @@ void StochasticGradientDescent::updateWeights(SimpleNeuron& neuron, const float
         neuron.weights[w] += deltaWeights[w];
     }
     deltaWeights[w] = lr * error * neuron.bias + m * previousDeltaWeights[w];
-    neuron.weights[w] = deltaWeights[w];
+    neuron.weights[w] += deltaWeights[w];
     neuron.previousDeltaWeights.pushBack(deltaWeights);
 }
 
-- 
2.43.0


From ac3a6906960ae36380b8325af48375cbe37a94ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 02/41] fix: train a first convolution layer on the errors of
 every kernel position

---
 src/neural_network/layer/Convolution1D.cpp | 10 ++++++++--
 src/neural_network/layer/Convolution2D.cpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/layer/Convolution1D.cpp b/src/neural_network/layer/Convolution1D.cpp
index f5cb6d9..28d2e4e 100644
--- a/src/neural_network/layer/Convolution1D.cpp
+++ b/src/neural_network/layer/Convolution1D.cpp
@@ -126,8 +126,14 @@ vector<float> Convolution1D::computeBackOutput(vector<float>& inputErrors)
 inline
 void Convolution1D::computeTrain(std::vector<float>& inputErrors)
 {
-    for (int n = 0; n < this->numberOfFilters; ++n)
-        this->neurons[n].train(inputErrors[n]);
+    for (size_t k = 0, i = 0; k < this->kernelIndexes.size(); ++k)
+    {
+        for (auto& neuron : this->neurons)
+        {
+            neuron.train(inputErrors[i]);
+            ++i;
+        }
+    }
 }
 bool Convolution1D::operator==(const BaseLayer& layer) const
 {
diff --git a/src/neural_network/layer/Convolution2D.cpp b/src/neural_network/layer/Convolution2D.cpp
index 0492c99..fb50814 100644
--- a/src/neural_network/layer/Convolution2D.cpp
+++ b/src/neural_network/layer/Convolution2D.cpp
@@ -134,8 +134,14 @@ vector<float> Convolution2D::computeBackOutput(vector<float>& inputErrors)
 inline
 void Convolution2D::computeTrain(std::vector<float>& inputErrors)
 {
-    for (size_t n = 0; n < this->neurons.size(); ++n)
-        this->neurons[n].train(inputErrors[n]);
+    for (size_t k = 0, i = 0; k < this->kernelIndexes.size(); ++k)
+    {
+        for (auto& neuron : this->neurons)
+        {
+            neuron.train(inputErrors[i]);
+            ++i;
+        }
+    }
 }
 inline
 bool Convolution2D::operator==(const BaseLayer& layer) const
-- 
2.43.0


From 2ae8ca2a643c24f4ef4b8f0cc06d1d33aabdf2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 03/41] fix: derive each kernel position of a convolution from
 its own weighted sum

---
 .../layer/neuron/SimpleNeuron.hpp             |  8 ++++++++
 .../layer/neuron/SimpleNeuron.cpp             | 20 +++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp b/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp
index c152c83..7c26bc3 100644
--- a/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp
+++ b/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp
@@ -13,6 +13,13 @@ namespace snn::internal
         template <class Archive>
         void serialize(Archive& ar, unsigned version);
 
+        std::vector<float> lastSums; // one per position of the kernel, because of the neurons shared by several positions
+        size_t indexPushSum = 0;
+        size_t indexGetSum = 0;
+
+        void pushSum();
+        [[nodiscard]] float getNextSum();
+
     public:
         SimpleNeuron() = default; // use restricted to Boost library only
         SimpleNeuron(NeuronModel model, std::shared_ptr<NeuralNetworkOptimizer> optimizer);
@@ -35,5 +42,6 @@ namespace snn::internal
     {
         boost::serialization::void_cast_register<SimpleNeuron, Neuron>();
         ar & boost::serialization::base_object<Neuron>(*this);
+        this->lastSums.resize(this->batchSize, this->sum);
     }
 }
diff --git a/src/neural_network/layer/neuron/SimpleNeuron.cpp b/src/neural_network/layer/neuron/SimpleNeuron.cpp
index a75561d..a95c1b9 100644
--- a/src/neural_network/layer/neuron/SimpleNeuron.cpp
+++ b/src/neural_network/layer/neuron/SimpleNeuron.cpp
@@ -8,6 +8,21 @@ using namespace internal;
 SimpleNeuron::SimpleNeuron(NeuronModel model, shared_ptr<NeuralNetworkOptimizer> optimizer)
     : Neuron(model, optimizer)
 {
+    this->lastSums.resize(this->batchSize, 0.0f);
+}
+
+void SimpleNeuron::pushSum()
+{
+    if (this->indexPushSum >= this->lastSums.size())
+        this->indexPushSum = 0;
+    this->lastSums[this->indexPushSum++] = this->sum;
+}
+
+float SimpleNeuron::getNextSum()
+{
+    if (this->indexGetSum >= this->lastSums.size())
+        this->indexGetSum = 0;
+    return this->lastSums[this->indexGetSum++];
 }
 
 float SimpleNeuron::output(const vector<float>& inputs)
@@ -22,12 +37,13 @@ float SimpleNeuron::output(const vector<float>& inputs)
         tmp += inputs[w] * this->weights[w];
     }
     this->sum = tmp + this->weights[w] * bias;
+    this->pushSum();
     return this->outputFunction->function(this->sum);
 }
 
 vector<float>& SimpleNeuron::backOutput(float error)
 {
-    error = error * this->outputFunction->derivative(this->sum);
+    error = error * this->outputFunction->derivative(this->getNextSum());
     assert(this->weights.size() == this->errors.size() + 1);
     #pragma omp simd // seems to do nothing
     for (size_t w = 0; w < this->errors.size(); ++w)
@@ -40,7 +56,7 @@ vector<float>& SimpleNeuron::backOutput(float error)
 
 void SimpleNeuron::train(float error)
 {
-    error = error * this->outputFunction->derivative(this->sum);
+    error = error * this->outputFunction->derivative(this->getNextSum());
     this->optimizer->updateWeights(*this, error);
 }
 
-- 
2.43.0


From c037519d692d0ee1863d51dec4708c4b3e773b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 04/41] fix: locate kernels of locally connected and max
 pooling 2D layers on non square outputs

---
 src/neural_network/layer/LocallyConnected2D.cpp | 2 +-
 src/neural_network/layer/MaxPooling2D.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/layer/LocallyConnected2D.cpp b/src/neural_network/layer/LocallyConnected2D.cpp
index 9064ada..f756674 100644
--- a/src/neural_network/layer/LocallyConnected2D.cpp
+++ b/src/neural_network/layer/LocallyConnected2D.cpp
@@ -31,7 +31,7 @@ void LocallyConnected2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = k % this->shapeOfOutput[X];
-        const int kernelPosY = k / this->shapeOfOutput[Y];
+        const int kernelPosY = k / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
diff --git a/src/neural_network/layer/MaxPooling2D.cpp b/src/neural_network/layer/MaxPooling2D.cpp
index 53998eb..6add766 100644
--- a/src/neural_network/layer/MaxPooling2D.cpp
+++ b/src/neural_network/layer/MaxPooling2D.cpp
@@ -35,7 +35,7 @@ void MaxPooling2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = (k / maxC) % this->shapeOfOutput[X];
-        const int kernelPosY = (k / maxC) / this->shapeOfOutput[Y];
+        const int kernelPosY = (k / maxC) / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
-- 
2.43.0


From 4c398c2a876777b229bca5af52304c0dce678e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 05/41] fix: give one output per channel to max pooling 1D
 layers

---
 src/neural_network/layer/LayerFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index 0e158ae..d3460ac 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -28,7 +28,7 @@ int computeNumberOfOutputsForMaxPooling1D(int kernelSize, const vector<int>& sha
 {
     const int rest = shapeOfInput[X] % kernelSize == 0 ? 0 : 1;
 
-    return ((shapeOfInput[X] / kernelSize) + rest);
+    return shapeOfInput[C] * ((shapeOfInput[X] / kernelSize) + rest);
 }
 
 inline
-- 
2.43.0


From 986edbedbcea893336b48add3db196efa6bc94a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 06/41] fix: count the outputs of the network from the output
 shape of its last layer

---
 src/neural_network/NeuralNetwork.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index b4ba4f1..e3327f3 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -14,7 +14,7 @@ NeuralNetwork::NeuralNetwork(vector<LayerModel>& architecture, NeuralNetworkOpti
 {
     this->optimizer = NeuralNetworkOptimizerFactory::build(optimizer);
     LayerFactory::build(this->layers, architecture, this->optimizer);
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
@@ -26,7 +26,7 @@ NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
     this->layers.reserve(neuralNetwork.layers.size());
     for (const auto& layer : neuralNetwork.layers)
         this->layers.push_back(layer->clone(this->optimizer));
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 
@@ -100,7 +100,7 @@ void NeuralNetwork::backpropagationAlgorithm(const vector<float>& inputs, const
 inline
 vector<float> NeuralNetwork::calculateError(const vector<float>& outputs, const vector<float>& desired) const
 {
-    vector<float> errors(this->layers.back()->getNumberOfNeurons(), 0);
+    vector<float> errors(outputs.size(), 0);
     for (size_t n = 0; n < errors.size(); ++n)
     {
         errors[n] = 2 * (desired[n] - outputs[n]);
@@ -144,7 +144,10 @@ int NeuralNetwork::getNumberOfInputs() const
 
 int NeuralNetwork::getNumberOfOutputs() const
 {
-    return this->layers.back()->getNumberOfNeurons();
+    int numberOfOutputs = 1;
+    for (const int size : this->layers.back()->getShapeOfOutput())
+        numberOfOutputs *= size;
+    return numberOfOutputs;
 }
 
 int NeuralNetwork::getNumberOfNeurons() const
-- 
2.43.0


From 2212d6588eede072f0c16f07ea99d5f7bf5fa5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 07/41] fix: compare the number of optimizers before comparing
 the optimizers of two layers

---
 include/snn/neural_network/layer/Layer.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/snn/neural_network/layer/Layer.tpp b/include/snn/neural_network/layer/Layer.tpp
index 8098297..943aba8 100644
--- a/include/snn/neural_network/layer/Layer.tpp
+++ b/include/snn/neural_network/layer/Layer.tpp
@@ -134,6 +134,7 @@ bool Layer<N>::operator==(const BaseLayer& layer) const
         return typeid(*this).hash_code() == typeid(layer).hash_code()
             && this->numberOfInputs == l.numberOfInputs
             && this->neurons == l.neurons
+            && this->optimizers.size() == l.optimizers.size()
             && [this, &l]()
             {
                 for (size_t o = 0; o < this->optimizers.size(); ++o)
-- 
2.43.0


From 8597c6529828aea3ae215b904ee379f0a7d134e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 08/41] fix: stop on NaN and infinite outputs only, not on
 subnormal outputs

---
 src/neural_network/NeuralNetwork.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index e3327f3..baec20a 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -1,4 +1,6 @@
+#include <bit>
 #include <cmath>
+#include <cstdint>
 #include <ctime>
 #include <boost/serialization/export.hpp>
 #include "NeuralNetwork.hpp"
@@ -57,6 +59,12 @@ void NeuralNetwork::trainOnce(const vector<float>& inputs, const vector<float>&
     this->numberOfTraining++;
 }
 
+static bool isNotFinite(const float value)
+{
+    // the standard classification functions cannot be used because -ffast-math assumes that all the values are finite
+    return (bit_cast<uint32_t>(value) & 0x7F800000u) == 0x7F800000u;
+}
+
 vector<float> NeuralNetwork::output(const vector<float>& inputs, bool temporalReset)
 {
     auto outputs = layers[0]->output(inputs, temporalReset);
@@ -64,7 +72,7 @@ vector<float> NeuralNetwork::output(const vector<float>& inputs, bool temporalRe
     for (size_t l = 1; l < this->layers.size(); ++l)
         outputs = layers[l]->output(outputs, temporalReset);
 
-    if (ranges::any_of(outputs, [](const float& v) { return fpclassify(v) != FP_NORMAL && fpclassify(v) != FP_ZERO; }))
+    if (ranges::any_of(outputs, isNotFinite))
         this->outputNan = true;
 
     return outputs;
@@ -77,7 +85,7 @@ std::vector<float> NeuralNetwork::outputForTraining(const std::vector<float>& in
     for (size_t l = 1; l < this->layers.size(); ++l)
         outputs = layers[l]->outputForTraining(outputs, temporalReset);
 
-    if (ranges::any_of(outputs, [](const float& v) { return fpclassify(v) != FP_NORMAL && fpclassify(v) != FP_ZERO; }))
+    if (ranges::any_of(outputs, isNotFinite))
         this->outputNan = true;
 
     return outputs;
-- 
2.43.0


From 54c05cdb67188fb70d979828393fb0a6865c8b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 09/41] fix: select the class of the highest output even when
 every output is below -2

---
 src/neural_network/StatisticAnalysis.cpp            | 3 ++-
 src/neural_network/StraightforwardNeuralNetwork.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 357d477..7b550af 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -1,4 +1,5 @@
 #include <cmath>
+#include <limits>
 #include "StatisticAnalysis.hpp"
 
 using namespace snn;
@@ -149,7 +150,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
 
 void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>& outputs, int classNumber, float separator)
 {
-    float maxOutputValue = -2;
+    float maxOutputValue = std::numeric_limits<float>::lowest();
     int maxOutputIndex = -1;
 
     for (int i = 0; i < (int)clusters.size(); i++)
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index d9e7f71..aa5007c 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -1,4 +1,5 @@
 #include <fstream>
+#include <limits>
 #include <thread>
 #include <stdexcept>
 #include <boost/serialization/export.hpp>
@@ -50,7 +51,7 @@ vector<float> StraightforwardNeuralNetwork::computeOutput(const vector<float>& i
 int StraightforwardNeuralNetwork::computeCluster(const vector<float>& inputs, bool temporalReset)
 {
     const auto outputs = this->output(inputs, temporalReset);
-    float maxOutputValue = -2;
+    float maxOutputValue = numeric_limits<float>::lowest();
     int maxOutputIndex = -1;
     for (int i = 0; i < (int)outputs.size(); i++)
     {
-- 
2.43.0


From 55986f3746f1d69109e2be7106aa350bff5c07a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 10/41] fix: keep the best F1 score and the best root mean
 squared error of the evaluations

---
 src/neural_network/StatisticAnalysis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 7b550af..872c310 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -63,15 +63,15 @@ void StatisticAnalysis::stopTesting()
 
     this->f1ScoreIsBetterThanMax = newF1Score > this->f1ScoreMax;
     if (this->f1ScoreIsBetterThanMax)
-        this->f1Score = newF1Score;
+        this->f1ScoreMax = newF1Score;
 
     this->meanAbsoluteErrorIsBetterThanMin = newMeanAbsoluteError < this->meanAbsoluteErrorMin || this->meanAbsoluteErrorMin < 0;
     if (this->meanAbsoluteErrorIsBetterThanMin)
         this->meanAbsoluteErrorMin = newMeanAbsoluteError;
 
-    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->meanAbsoluteErrorMin < 0;
+    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->rootMeanSquaredErrorMin < 0;
     if (this->rootMeanSquaredErrorIsBetterThanMin)
-        this->rootMeanSquaredErrorMin = newMeanAbsoluteError;
+        this->rootMeanSquaredErrorMin = newRootMeanSquaredError;
 
     this->globalClusteringRate = newGlobalClusteringRate;
     this->weightedClusteringRate = newWeightedClusteringRate;
-- 
2.43.0


From 72a073e0ff622b366bcb6bd02db4c4d7543874bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 11/41] fix: compute the root mean squared error from the
 squared errors

---
 include/snn/neural_network/StatisticAnalysis.hpp |  8 ++++++++
 src/neural_network/StatisticAnalysis.cpp         | 16 +++++++++-------
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/snn/neural_network/StatisticAnalysis.hpp b/include/snn/neural_network/StatisticAnalysis.hpp
index 4a77a70..e146ecf 100644
--- a/include/snn/neural_network/StatisticAnalysis.hpp
+++ b/include/snn/neural_network/StatisticAnalysis.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <cmath>
 #include <vector>
 #include <boost/serialization/access.hpp>
 
@@ -11,6 +12,13 @@ namespace snn::internal
         float falsePositive{};
         float falseNegative{};
         float totalError{};
+        float totalSquaredError{};
+
+        void addError(float error)
+        {
+            totalError += std::abs(error);
+            totalSquaredError += error * error;
+        }
 
         bool operator==(const binaryClassification&) const
         {
diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 872c310..922e50f 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -20,6 +20,7 @@ void StatisticAnalysis::setResultsAsNan()
         c.falsePositive = NAN;
         c.falseNegative = NAN;
         c.totalError = NAN;
+        c.totalSquaredError = NAN;
     }
     numberOfDataWellClassified = NAN;
     numberOfDataMisclassified = NAN;
@@ -40,6 +41,7 @@ void StatisticAnalysis::startTesting()
         c.falsePositive = 0;
         c.falseNegative = 0;
         c.totalError = 0;
+        c.totalSquaredError = 0;
     }
     numberOfDataWellClassified = 0;
     numberOfDataMisclassified = 0;
@@ -106,7 +108,7 @@ void StatisticAnalysis::evaluateOnceForRegression(const std::vector<float>& outp
             clusters[i].trueNegative ++;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].addError(desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -140,7 +142,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
             classifiedWell = false;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].addError(desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -162,7 +164,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         if (i == classNumber)
         {
-            clusters[i].totalError += abs(1 - outputs[i]);
+            clusters[i].addError(1 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -175,7 +177,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         else
         {
-            clusters[i].totalError += abs(0 - outputs[i]);
+            clusters[i].addError(0 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -236,12 +238,12 @@ float StatisticAnalysis::computeMeanAbsoluteError() const
 
 float StatisticAnalysis::computeRootMeanSquaredError() const
 {
-    float totalError = 0;
+    float totalSquaredError = 0;
     for (const auto& c : clusters)
     {
-        totalError += c.totalError * c.totalError;
+        totalSquaredError += c.totalSquaredError;
     }
-    const float meanSquaredError = totalError / (numberOfDataWellClassified + numberOfDataMisclassified);
+    const float meanSquaredError = totalSquaredError / (numberOfDataWellClassified + numberOfDataMisclassified);
     return sqrt(meanSquaredError);
 }
 
-- 
2.43.0


From 78fe7512879d9646ad2e44e2b1960ab3749ee138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 12/41] fix: keep the MAE criterion of waits combined with the
 && operator

---
 src/neural_network/Wait.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 36d7eaf..f5fa7c2 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -44,12 +44,11 @@ Wait& Wait::operator&&(const Wait& wait)
     this->epochs = max(this->epochs, wait.epochs);
     this->accuracy = max(this->accuracy, wait.accuracy);
 
-    if (this->mae > 0 && wait.duration > 0)
+    if (this->mae >= 0 && wait.mae >= 0)
         this->mae = min(this->mae, wait.mae);
     else
         this->mae = max(this->mae, wait.mae);
 
-    this->mae = min(this->mae, wait.mae);
     this->duration = max(this->duration, wait.duration);
 
     return *this;
-- 
2.43.0


From 6d79db8699c73048a1bfca018fc2d5f472768a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 13/41] fix: keep the criteria equal to zero of waits combined
 with the || operator

---
 src/neural_network/Wait.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index f5fa7c2..802e89a 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -14,19 +14,19 @@ Wait& Wait::operator||(const Wait& wait)
 
     this->op = waitOperator::orOp;
 
-    if (this->epochs > 0 && wait.epochs > 0)
+    if (this->epochs >= 0 && wait.epochs >= 0)
         this->epochs = min(this->epochs, wait.epochs);
     else
         this->epochs = max(this->epochs, wait.epochs);
 
-    if (this->accuracy > 0 && wait.accuracy > 0)
+    if (this->accuracy >= 0 && wait.accuracy >= 0)
         this->accuracy = min(this->accuracy, wait.accuracy);
     else
         this->accuracy = max(this->accuracy, wait.accuracy);
 
     this->mae = max(this->mae, wait.mae);
 
-    if (this->duration > 0 && wait.duration > 0)
+    if (this->duration >= 0 && wait.duration >= 0)
         this->duration = min(this->duration, wait.duration);
     else
         this->duration = max(this->duration, wait.duration);
-- 
2.43.0


From 9b80f1719cddf5050517aff97646d4baa4e57b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 14/41] fix: refuse to mix the || and && operators on both
 sides of waits

---
 src/neural_network/Wait.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 802e89a..1ae0226 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -9,7 +9,7 @@ using namespace snn;
 
 Wait& Wait::operator||(const Wait& wait)
 {
-    if (op == waitOperator::andOp)
+    if (this->op == waitOperator::andOp || wait.op == waitOperator::andOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::orOp;
@@ -36,7 +36,7 @@ Wait& Wait::operator||(const Wait& wait)
 
 Wait& Wait::operator&&(const Wait& wait)
 {
-    if (op == waitOperator::orOp)
+    if (this->op == waitOperator::orOp || wait.op == waitOperator::orOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::andOp;
-- 
2.43.0


From 263e1de93abc4f6b3e3c15c573e21d0864be12b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 15/41] fix: accept a MAE of zero as better than the MAE
 criterion of waits

---
 src/neural_network/Wait.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 1ae0226..f7ed8b6 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -67,7 +67,7 @@ bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) co
 
     const bool isValidEpochs = currentEpochs > this->epochs && currentEpochs > 0;
     const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy > 0;
-    const bool isValidMae = currentMae <= this->mae && currentMae > 0;
+    const bool isValidMae = currentMae <= this->mae && currentMae >= 0;
     const bool isValidDuration = currentDuration >= this->duration;
 
     if (this->op == waitOperator::andOp)
-- 
2.43.0


From 8d52f4003037676acf3b65b0b2804c6da9a1833a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 16/41] fix: mark the network as training before its thread
 starts, so that an early stop request is not lost

---
 .../neural_network/StraightforwardNeuralNetwork.hpp  |  1 +
 src/neural_network/StraightforwardNeuralNetwork.cpp  | 12 +++++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index e5467e9..9ced9dd 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -23,6 +23,7 @@ namespace snn
         int epoch = 0;
         int numberOfTrainingsBetweenTwoEvaluations = 0;
 
+        void startTrainingValues();
         void resetTrainingValues();
 
         void trainSync(Data& data, Wait wait, int batchSize, int evaluationFrequency);
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index aa5007c..18ce5db 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -74,6 +74,7 @@ void StraightforwardNeuralNetwork::startTrainingAsync(Data& data, int batchSize,
     this->validData(data, batchSize);
     this->stopTrainingAsync();
     log<complete>("Start a new thread");
+    this->startTrainingValues();
     this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
 }
 
@@ -83,6 +84,7 @@ void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, i
     if (!this->isIdle)
         throw runtime_error("Neural network is already training");
     this->stopTrainingAsync();
+    this->startTrainingValues();
     this->trainSync(data, wait, batchSize, evaluationFrequency);
 }
 
@@ -90,10 +92,7 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
 {
     log<minimal>("Start training");
     wait.startClock();
-    this->epoch = 0;
     this->numberOfTrainingsBetweenTwoEvaluations = data.sets[training].size;
-    this->wantToStopTraining = false;
-    this->isIdle = false;
     if (evaluationFrequency > 0)
         this->evaluate(data, &wait);
     for (this->epoch = 1; this->continueTraining(wait); this->epoch++)
@@ -193,6 +192,13 @@ void StraightforwardNeuralNetwork::stopTrainingAsync()
     }
 }
 
+void StraightforwardNeuralNetwork::startTrainingValues()
+{
+    this->epoch = 0;
+    this->wantToStopTraining = false;
+    this->isIdle = false;
+}
+
 void StraightforwardNeuralNetwork::resetTrainingValues()
 {
     this->index = 0;
-- 
2.43.0


From 94a19cec6724b6df2687dec11e503722a3b01ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 17/41] fix: refuse to copy a network that is training

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 18ce5db..1bed972 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -34,7 +34,7 @@ StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(vector<LayerModel> ar
 StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(const StraightforwardNeuralNetwork& neuralNetwork)
     : NeuralNetwork(neuralNetwork)
 {
-    if (!this->isIdle)
+    if (!neuralNetwork.isIdle)
         throw runtime_error("StraightforwardNeuralNetwork must be idle to be copy");
     this->autoSaveFilePath = neuralNetwork.autoSaveFilePath;
     this->autoSaveWhenBetter = neuralNetwork.autoSaveWhenBetter;
-- 
2.43.0


From 019fbba6b53b9a532634ea28ea48c8a23c01f35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 18/41] fix: forget the stop request once the network is idle

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 1bed972..aa495c0 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -190,6 +190,8 @@ void StraightforwardNeuralNetwork::stopTrainingAsync()
         this->thread.join();
         log<complete>("Thread closed");
     }
+    if (this->isIdle)
+        this->wantToStopTraining = false;
 }
 
 void StraightforwardNeuralNetwork::startTrainingValues()
-- 
2.43.0


From 8379db06c43ac9053b00b80e345adf24007b03e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 19/41] fix: load as idle a network automatically saved during
 its training

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index aa495c0..4499d86 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -307,6 +307,7 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
     ifstream ifs(filePath);
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
+    neuralNetwork->resetTrainingValues(); // the file may have been saved during a training
     return *neuralNetwork;
 }
 
-- 
2.43.0


From 705f229b5c5fb7d3d4fdab4441d231f1f26a94b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 20/41] fix: go back to idle when a training throws an
 exception

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 4499d86..65af183 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -85,7 +85,15 @@ void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, i
         throw runtime_error("Neural network is already training");
     this->stopTrainingAsync();
     this->startTrainingValues();
-    this->trainSync(data, wait, batchSize, evaluationFrequency);
+    try
+    {
+        this->trainSync(data, wait, batchSize, evaluationFrequency);
+    }
+    catch (...)
+    {
+        this->resetTrainingValues();
+        throw;
+    }
 }
 
 void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int batchSize, const int evaluationFrequency)
-- 
2.43.0


From 46b7c101dee2c2c4150363c8c0bad42dc6219d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:28 +0000
Subject: [PATCH 21/41] fix: refuse to evaluate data that has not the format of
 the network

---
 .../snn/neural_network/StraightforwardNeuralNetwork.hpp   | 2 +-
 src/neural_network/StraightforwardNeuralNetwork.cpp       | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index 9ced9dd..4bbf0d7 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -63,7 +63,7 @@ namespace snn
         void waitFor(Wait wait) const;
         void train(Data& data, Wait wait, int batchSize = 1, int evaluationFrequency = 1);
 
-        void evaluate(const Data& data) { return this->evaluate(data, nullptr); }
+        void evaluate(const Data& data);
 
         std::vector<float> computeOutput(const std::vector<float>& inputs, bool temporalReset = false);
         int computeCluster(const std::vector<float>& inputs, bool temporalReset = false);
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 65af183..0bd91c7 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -130,6 +130,14 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
     log<minimal>("Stop training");
 }
 
+void StraightforwardNeuralNetwork::evaluate(const Data& data)
+{
+    this->validData(data, 1);
+    Wait wait;
+    wait.startClock();
+    this->evaluate(data, &wait);
+}
+
 void StraightforwardNeuralNetwork::evaluate(const Data& data, Wait* wait)
 {
     this->startTesting();
-- 
2.43.0


From 2e1b7331a542afb3617dd57d3e0e35cb168d0f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 22/41] fix: shuffle the sequences of sequential data

---
 src/data/CompositeForTemporalData.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/CompositeForTemporalData.cpp b/src/data/CompositeForTemporalData.cpp
index f5f1570..c04618e 100644
--- a/src/data/CompositeForTemporalData.cpp
+++ b/src/data/CompositeForTemporalData.cpp
@@ -9,7 +9,7 @@ using namespace internal;
 CompositeForTemporalData::CompositeForTemporalData(Set sets[2])
     : TemporalComposite(sets)
 {
-    for (int i = 0; i > this->sets[training].size; ++i)
+    for (int i = 0; i < (int)this->sets[training].areFirstDataOfTemporalSequence.size(); ++i)
     {
         if (this->sets[training].areFirstDataOfTemporalSequence[i])
         {
@@ -27,7 +27,7 @@ void CompositeForTemporalData::shuffle()
         this->sets[training].shuffledIndexes[j++] = this->indexesForShuffles[i];
 
         int index = this->indexesForShuffles[i] + 1;
-        while (!this->sets[training].areFirstDataOfTemporalSequence[index])
+        while (index < this->sets[training].size && !this->sets[training].areFirstDataOfTemporalSequence[index])
         {
             this->sets[training].shuffledIndexes[j++] = index++;
         }
@@ -41,7 +41,7 @@ void CompositeForTemporalData::unshuffle()
 
 bool CompositeForTemporalData::isFirstTrainingDataOfTemporalSequence(int index) const
 {
-    return this->sets[training].areFirstDataOfTemporalSequence[index];
+    return this->sets[training].areFirstDataOfTemporalSequence[this->sets[training].shuffledIndexes[index]];
 }
 
 bool CompositeForTemporalData::isFirstTestingDataOfTemporalSequence(int index) const
-- 
2.43.0


From 6027abe1a0eb26966c65bd65ed4847bc17c29a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 23/41] fix: refuse data whose inputs and labels have not the
 same size

---
 src/data/Data.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 0ab97fd..24f0baa 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -268,14 +268,13 @@ void Data::unshuffle()
 
 int Data::isValid()
 {
-    if (!this->sets[testing].shuffledIndexes.empty()
-        && this->sets[training].size != (int)this->sets[training].shuffledIndexes.size())
+    if (this->sets[training].size != (int)this->sets[training].shuffledIndexes.size())
         return 403;
 
     if (this->sets[training].size != (int)this->sets[training].inputs.size()
-        && this->sets[training].size != (int)this->sets[training].labels.size()
-        && this->sets[testing].size != (int)this->sets[training].inputs.size()
-        && this->sets[testing].size != (int)this->sets[training].labels.size())
+        || this->sets[training].size != (int)this->sets[training].labels.size()
+        || this->sets[testing].size != (int)this->sets[testing].inputs.size()
+        || this->sets[testing].size != (int)this->sets[testing].labels.size())
         return 405;
 
     int err = this->problemComposite->isValid();
-- 
2.43.0


From 3864efab206474c08ec3eba0147cc6100bbea6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 24/41] fix: give the training label of the shuffled data

---
 src/data/CompositeForClassification.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/CompositeForClassification.cpp b/src/data/CompositeForClassification.cpp
index 175fd65..e3a7b28 100644
--- a/src/data/CompositeForClassification.cpp
+++ b/src/data/CompositeForClassification.cpp
@@ -20,9 +20,10 @@ int CompositeForClassification::isValid()
 
 int CompositeForClassification::getTrainingLabel(const int index)
 {
-    for (int i = 0; i < (int)this->sets[training].labels[index].size(); i++)
+    const auto& labels = this->sets[training].labels[this->sets[training].shuffledIndexes[index]];
+    for (int i = 0; i < (int)labels.size(); i++)
     {
-        if (this->sets[training].labels[index][i] == 1)
+        if (labels[i] == 1)
             return i;
     }
     throw std::runtime_error("wrong label");
-- 
2.43.0


From 977a65cf3f3de313162907abacc18d1be3d919a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 25/41] fix: shuffle time series shorter than their number of
 recurrences

---
 src/data/CompositeForTimeSeries.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/CompositeForTimeSeries.cpp b/src/data/CompositeForTimeSeries.cpp
index 22fa3b8..813055a 100644
--- a/src/data/CompositeForTimeSeries.cpp
+++ b/src/data/CompositeForTimeSeries.cpp
@@ -35,12 +35,12 @@ void CompositeForTimeSeries::shuffle()
 {
     ranges::shuffle(this->indexesForShuffling, tools::rng);
 
-    for (int i = this->sets[training].size - (this->numberOfRecurrences + 1); i < this->sets[training].size; ++i)
+    for (int i = max(0, this->sets[training].size - (this->numberOfRecurrences + 1)); i < this->sets[training].size; ++i)
     {
         this->sets[training].needToTrainOnData[i] = false;
     }
 
-    for (int i = 0; i < offset; ++i)
+    for (int i = 0; i < min(offset, this->sets[training].size); ++i)
     {
         this->sets[training].shuffledIndexes[i] = i;
         this->sets[training].needToTrainOnData[i] = true;
-- 
2.43.0


From 057af5af9a1dbe9cd4f021e58059e8bb3d53dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 26/41] fix: refuse layers without input, kernel or filter
 instead of dividing by zero

---
 src/neural_network/layer/LayerFactory.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index d3460ac..730559d 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "LayerFactory.hpp"
 #include "ExtendedExpection.hpp"
 #include "FullyConnected.hpp"
@@ -90,6 +91,18 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
     if (shapeOfInput.empty())
         throw InvalidArchitectureException("Input of layer has size of 0.");
 
+    if (ranges::any_of(shapeOfInput, [](const int size) { return size < 1; }))
+        throw InvalidArchitectureException("Input of layer has size of 0.");
+
+    if (model.type == maxPooling || model.type == locallyConnected || model.type == convolution)
+    {
+        if (model.kernelSize < 1)
+            throw InvalidArchitectureException("Kernel of layer has size of 0.");
+
+        if (model.type != maxPooling && model.numberOfFilters < 1)
+            throw InvalidArchitectureException("Layer must have at least 1 filter.");
+    }
+
     if (model.numberOfInputs > 1000000)
         throw InvalidArchitectureException("Layer is too big.");
 
-- 
2.43.0


From 778d1bc08606000e15a19e1979d9b276bd2e5ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 27/41] fix: drop out every output of the layers with several
 outputs by neuron

---
 src/neural_network/optimizer/Dropout.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/optimizer/Dropout.cpp b/src/neural_network/optimizer/Dropout.cpp
index 4e41804..203dd96 100644
--- a/src/neural_network/optimizer/Dropout.cpp
+++ b/src/neural_network/optimizer/Dropout.cpp
@@ -36,7 +36,10 @@ unique_ptr<LayerOptimizer> Dropout::clone(const BaseLayer* newLayer) const
 
 void Dropout::applyAfterOutputForTraining(std::vector<float>& outputs, bool temporalReset)
 {
-    if (temporalReset)
+    const bool hasWrongSize = this->presenceProbabilities.size() != outputs.size(); // filters have several outputs by neuron
+    if (hasWrongSize)
+        this->presenceProbabilities.resize(outputs.size());
+    if (temporalReset || hasWrongSize)
         std::generate(this->presenceProbabilities.begin(),
                       this->presenceProbabilities.end(),
                       [&] { return dist(tools::rng) >= this->value; });
-- 
2.43.0


From c386fbdb371e8fb05e8bd5b8c569b39fe8a9bd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 28/41] fix: an accuracy criterion of zero is reached by a null
 accuracy

---
 src/neural_network/Wait.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index f7ed8b6..250e935 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -66,7 +66,7 @@ bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) co
     const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(system_clock::now() - this->start).count());
 
     const bool isValidEpochs = currentEpochs > this->epochs && currentEpochs > 0;
-    const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy > 0;
+    const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy >= 0;
     const bool isValidMae = currentMae <= this->mae && currentMae >= 0;
     const bool isValidDuration = currentDuration >= this->duration;
 
-- 
2.43.0


From f6b080d4494af52259a8937f64f81cc1731810e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 29/41] fix: do not resume a training whose stop criterion was
 reached during an epoch

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 0bd91c7..36a2f1f 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -103,7 +103,8 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
     this->numberOfTrainingsBetweenTwoEvaluations = data.sets[training].size;
     if (evaluationFrequency > 0)
         this->evaluate(data, &wait);
-    for (this->epoch = 1; this->continueTraining(wait); this->epoch++)
+    bool isInterrupted = false; // the end of the training was decided before the end of an epoch
+    for (this->epoch = 1; !isInterrupted && this->continueTraining(wait); this->epoch++)
     {
         data.shuffle();
         for (this->index = 0; index + batchSize <= this->numberOfTrainingsBetweenTwoEvaluations && this->continueTraining(wait);
@@ -123,6 +124,7 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
                 this->outputForTraining(data.getTrainingData(this->index, batchSize), data.isFirstTrainingDataOfTemporalSequence(this->index));
             this->logInProgress<minimal>(wait, data, training);
         }
+        isInterrupted = this->index + batchSize <= this->numberOfTrainingsBetweenTwoEvaluations;
         if (evaluationFrequency > 0 && this->epoch % evaluationFrequency == 0)
             this->evaluate(data, &wait);
     }
-- 
2.43.0


From d12fec0dc3818eae2e9c68e30730038c0ccadbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:35 +0000
Subject: [PATCH 30/41] fix: a non finite output on the last data of an
 evaluation gives no result to save

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 36a2f1f..d43bccc 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -158,6 +158,12 @@ void StraightforwardNeuralNetwork::evaluate(const Data& data, Wait* wait)
             this->output(data.getTestingData(this->index), data.isFirstTestingDataOfTemporalSequence(this->index));
         this->logInProgress<minimal>(*wait, data, testing);
     }
+    if (this->hasNan()) // detected on the last data
+    {
+        this->setResultsAsNan();
+        this->resetTrainingValues();
+        return;
+    }
     this->stopTesting();
     if (this->autoSaveWhenBetter && this->globalClusteringRateIsBetterThanMax)
     {
-- 
2.43.0


From 318e36ca6e298ab7315c1270adbde215403be889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 31/41] fix: slope of the improved sigmoid lacks its linear
 term and is not a number for large sums

---
 .../layer/neuron/activation_function/ImprovedSigmoid.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
index bc195ce..6f6393f 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
@@ -26,7 +26,8 @@ namespace snn::internal
 
         float derivative(const float x) const override
         {
-            return std::exp(x) / powf((std::exp(x) + 1.0f), 2);
+            const float sigmoid = 1.0f / (1.0f + std::exp(-x));
+            return sigmoid * (1.0f - sigmoid) + 0.05f;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From be16b3c10bdd712120db579cb89fe5beea0bd135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:20 +0000
Subject: [PATCH 32/41] fix: the size of an input shape does not overflow, so a
 too large one is refused

---
 src/neural_network/layer/LayerFactory.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index 730559d..79e6d40 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -1,4 +1,6 @@
 #include <algorithm>
+#include <cstdint>
+#include <limits>
 #include "LayerFactory.hpp"
 #include "ExtendedExpection.hpp"
 #include "FullyConnected.hpp"
@@ -18,10 +20,16 @@ using namespace internal;
 inline
 int computeNumberOfInputs(const vector<int>& shapeOfInput)
 {
-    int numberOfInputs = 1;
+    int64_t numberOfInputs = 1;
     for (auto size : shapeOfInput)
+    {
+        if (size < 1)
+            return 0;
         numberOfInputs *= size;
-    return numberOfInputs;
+        if (numberOfInputs > numeric_limits<int>::max())
+            return numeric_limits<int>::max(); // too big, whatever the other dimensions
+    }
+    return (int)numberOfInputs;
 }
 
 inline
@@ -275,10 +283,7 @@ void LayerFactory::build(vector<unique_ptr<BaseLayer>>& layers,
     if (models.size() < 2)
         throw InvalidArchitectureException("Neural Network must have at least 1 layer.");
 
-    int numberOfInputs = 1;
-    for (auto size : models[0].shapeOfInput)
-        numberOfInputs *= size;
-    if (numberOfInputs > 2073600)
+    if (computeNumberOfInputs(models[0].shapeOfInput) > 2073600)
         throw InvalidArchitectureException("Layer is too big.");
 
     auto& currentShapeOfInput = models[0].shapeOfInput;
-- 
2.43.0


From 9a040c11ba38c9c4c0001605fdec6a88a6c099a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:14 +0000
Subject: [PATCH 33/41] fix: a network loaded from a file saved when idle keeps
 its progress values, hence equals the saved one

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index d43bccc..d41a6c3 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -331,7 +331,8 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
     ifstream ifs(filePath);
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
-    neuralNetwork->resetTrainingValues(); // the file may have been saved during a training
+    if (!neuralNetwork->isIdle) // the file has been saved during a training
+        neuralNetwork->resetTrainingValues();
     return *neuralNetwork;
 }
 
-- 
2.43.0


From 5618301d6186999f5686712f7990cea6c7fde196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:14 +0000
Subject: [PATCH 34/41] fix: a loaded network knows whether the saved one had
 met a non finite output

---
 include/snn/neural_network/NeuralNetwork.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/NeuralNetwork.hpp b/include/snn/neural_network/NeuralNetwork.hpp
index 49c54af..4a47fd7 100644
--- a/include/snn/neural_network/NeuralNetwork.hpp
+++ b/include/snn/neural_network/NeuralNetwork.hpp
@@ -97,8 +97,11 @@ namespace snn::internal
         if (version >= 1) {
             ar & this->numberOfTraining;
         }
+        if (version >= 2) {
+            ar & this->outputNan;
+        }
         ar & this->layers;
         ar & this->optimizer;
     }
 }
-BOOST_CLASS_VERSION(snn::internal::NeuralNetwork, 1)
+BOOST_CLASS_VERSION(snn::internal::NeuralNetwork, 2)
-- 
2.43.0


From 19ab9944e517ec90fd1684bea99361e513209ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 35/41] fix: a network holding non finite values can be loaded
 from its file

---
 .../StraightforwardNeuralNetwork.cpp          | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index d41a6c3..9409f01 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -1,5 +1,10 @@
+#include <cctype>
+#include <charconv>
 #include <fstream>
 #include <limits>
+#include <locale>
+#include <string>
+#include <system_error>
 #include <thread>
 #include <stdexcept>
 #include <boost/serialization/export.hpp>
@@ -325,10 +330,30 @@ void StraightforwardNeuralNetwork::saveSync(const string filePath)
 }
 
 
+// The streams write "nan" and "inf" but are not able to read them.
+class NonFiniteNumGet final : public num_get<char>
+{
+protected:
+    iter_type do_get(iter_type in, iter_type end, ios_base&, ios_base::iostate& state, float& value) const override
+    {
+        string text;
+        for (; in != end && !isspace(static_cast<unsigned char>(*in)); ++in)
+            text += *in;
+        const char* const last = text.data() + text.size();
+        const auto result = from_chars(text.data(), last, value);
+        if (result.ec != errc() || result.ptr != last)
+            state |= ios_base::failbit;
+        if (in == end)
+            state |= ios_base::eofbit;
+        return in;
+    }
+};
+
 StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const string filePath)
 {
     StraightforwardNeuralNetwork* neuralNetwork = nullptr;
     ifstream ifs(filePath);
+    ifs.imbue(locale(ifs.getloc(), new NonFiniteNumGet));
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
     if (!neuralNetwork->isIdle) // the file has been saved during a training
-- 
2.43.0


From 9057b1a35e20cffbbf4d6dbca0a87f8e1bbd211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:18 +0000
Subject: [PATCH 36/41] fix: a background training does not start beside a
 blocking one

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 9409f01..9434f4e 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -78,6 +78,8 @@ void StraightforwardNeuralNetwork::startTrainingAsync(Data& data, int batchSize,
 {
     this->validData(data, batchSize);
     this->stopTrainingAsync();
+    if (!this->isIdle) // a blocking training of another thread
+        throw runtime_error("Neural network is already training");
     log<complete>("Start a new thread");
     this->startTrainingValues();
     this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
-- 
2.43.0


From 8d2e0084810181e43bae79f07f6187972803d6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:36 +0000
Subject: [PATCH 37/41] fix: empty training sets and data of different sizes in
 the same set are refused

---
 src/data/Data.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 24f0baa..9b10b97 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -99,6 +99,9 @@ void Data::initialize(vector<vector<float>>& trainingInputs,
                       vector<vector<float>>& testingInputs,
                       vector<vector<float>>& testingLabels)
 {
+    if (trainingInputs.empty() || trainingLabels.empty())
+        throw runtime_error("The training set is empty.");
+
     this->precision = 0.1f;
     this->separator = 0.5f;
     this->sets[training].inputs = trainingInputs;
@@ -277,6 +280,13 @@ int Data::isValid()
         || this->sets[testing].size != (int)this->sets[testing].labels.size())
         return 405;
 
+    for (const auto& set : this->sets)
+    {
+        if (ranges::any_of(set.inputs, [this](const auto& data) { return static_cast<int>(data.size()) != this->sizeOfData; })
+            || ranges::any_of(set.labels, [this](const auto& label) { return static_cast<int>(label.size()) != this->numberOfLabels; }))
+            return 407;
+    }
+
     int err = this->problemComposite->isValid();
     if (err != 0)
         return err;
-- 
2.43.0


From 751f5bdce3e796bc0d01a06cd6468d8bfa1ae1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 38/41] fix: an empty temporal sequence is refused instead of
 written out of bounds

---
 src/data/Data.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 9b10b97..24aa47d 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -160,6 +160,9 @@ void Data::initialize(vector<vector<float>>& trainingInputs,
 
 void Data::flatten(set set, vector<vector<vector<float>>>& input3D)
 {
+    if (ranges::any_of(input3D, [](const vector2D<float>& sequence) { return sequence.empty(); }))
+        throw runtime_error("A temporal sequence is empty.");
+
     this->sets[set].numberOfTemporalSequence = (int)input3D.size();
     size_t size = accumulate(input3D.begin(), input3D.end(), (size_t)0,
                            [](size_t sum, vector2D<float>& v)
@@ -186,6 +189,9 @@ void Data::flatten(set set, vector<vector<vector<float>>>& input3D)
 
 void Data::flatten(vector<vector<vector<float>>>& input3D)
 {
+    if (ranges::any_of(input3D, [](const vector2D<float>& sequence) { return sequence.empty(); }))
+        throw runtime_error("A temporal sequence is empty.");
+
     this->sets[training].numberOfTemporalSequence = (int)input3D.size();
     this->sets[testing].numberOfTemporalSequence = (int)input3D.size();
     size_t size = accumulate(input3D.begin(), input3D.end(), (size_t)0,
-- 
2.43.0


From 3b2dd15b8d22d1ec135af3ec8046088577b06d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 39/41] fix: a file cut within its last number is no longer
 loaded as a different network

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 9434f4e..384b850 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -358,6 +358,11 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
     ifs.imbue(locale(ifs.getloc(), new NonFiniteNumGet));
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
+    if (ifs.get() != '\n') // the archives end with a new line
+    {
+        delete neuralNetwork;
+        throw runtime_error("The file of the neural network is incomplete");
+    }
     if (!neuralNetwork->isIdle) // the file has been saved during a training
         neuralNetwork->resetTrainingValues();
     return *neuralNetwork;
-- 
2.43.0


From f5556dd4b75f226d6bd22827209b09d7a6ab2f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 40/41] fix: a save that fails is reported and leaves the
 previous file complete

---
 .../StraightforwardNeuralNetwork.cpp          | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 384b850..913a150 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -1,5 +1,6 @@
 #include <cctype>
 #include <charconv>
+#include <filesystem>
 #include <fstream>
 #include <limits>
 #include <locale>
@@ -326,9 +327,25 @@ void StraightforwardNeuralNetwork::saveFilterLayersAsBitmap(string filePath, con
 void StraightforwardNeuralNetwork::saveSync(const string filePath)
 {
     this->autoSaveFilePath = filePath;
-    ofstream ofs(filePath);
-    boost::archive::text_oarchive archive(ofs);
-    archive << this;
+    const string temporaryFilePath = filePath + ".tmp";
+    try
+    {
+        ofstream ofs(temporaryFilePath);
+        {
+            boost::archive::text_oarchive archive(ofs);
+            archive << this;
+        }
+        ofs.close();
+        if (!ofs)
+            throw runtime_error("Neural network cannot be saved in " + filePath);
+        filesystem::rename(temporaryFilePath, filePath); // replaces the previous file only when the new one is complete
+    }
+    catch (...)
+    {
+        error_code ignored;
+        filesystem::remove(temporaryFilePath, ignored);
+        throw;
+    }
 }
 
 
-- 
2.43.0


From 33e91da6d0b048be901d70fb6de6f36086789838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:22 +0000
Subject: [PATCH 41/41] fix: the summary of recurrent and gated layers shows
 their input and output sizes the right way round

---
 src/neural_network/layer/GruLayer.cpp   | 4 ++--
 src/neural_network/layer/Recurrence.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/layer/GruLayer.cpp b/src/neural_network/layer/GruLayer.cpp
index 3934f57..c99ccac 100644
--- a/src/neural_network/layer/GruLayer.cpp
+++ b/src/neural_network/layer/GruLayer.cpp
@@ -25,10 +25,10 @@ std::string snn::internal::GruLayer::summary() const
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
     ss << " GruLayer" << endl;
-    ss << "                Input shape:  [" << this->getNumberOfNeurons() << "]" << endl;
+    ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
     ss << "                Neurons:      " << this->getNumberOfNeurons() << endl;
     ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
-    ss << "                Output shape: [" << this->getNumberOfInputs() << "]" << endl;
+    ss << "                Output shape: [" << this->getNumberOfNeurons() << "]" << endl;
     if (!optimizers.empty())
     {
         ss << "                Optimizers:   " << optimizers[0]->summary() << endl;
diff --git a/src/neural_network/layer/Recurrence.cpp b/src/neural_network/layer/Recurrence.cpp
index 0b0470b..6cc5b4e 100644
--- a/src/neural_network/layer/Recurrence.cpp
+++ b/src/neural_network/layer/Recurrence.cpp
@@ -25,11 +25,11 @@ string Recurrence::summary() const
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
     ss << " Recurrence" << endl;
-    ss << "                Input shape:  [" << this->getNumberOfNeurons() << "]" << endl;
+    ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
     ss << "                Neurons:      " << this->getNumberOfNeurons() << endl;
     ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
     ss << "                Activation:   " << this->neurons[0].outputFunction->getName() << endl;
-    ss << "                Output shape: [" << this->getNumberOfInputs() << "]" << endl;
+    ss << "                Output shape: [" << this->getNumberOfNeurons() << "]" << endl;
     if (!optimizers.empty())
     {
         ss << "                Optimizers:   " << optimizers[0]->summary() << endl;
-- 
2.43.0

