From c8e73b3f1c45b6555b5a065530540272955b5c49 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 01/53] fix: accumulate the bias weight of simple neurons
 instead of overwriting it

---
 src/neural_network/optimizer/StochasticGradientDescent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/optimizer/StochasticGradientDescent.cpp b/src/neural_network/optimizer/StochasticGradientDescent.cpp
index 45971f0..59389c3 100644
--- a/src/neural_network/optimizer/StochasticGradientDescent.cpp
+++ b/src/neural_network/optimizer/StochasticGradientDescent.cpp
@@ -34,7 +34,7 @@ void StochasticGradientDescent::updateWeights(SimpleNeuron& neuron, const float
         neuron.weights[w] += deltaWeights[w];
     }
     deltaWeights[w] = lr * error * neuron.bias + m * previousDeltaWeights[w];
-    neuron.weights[w] = deltaWeights[w];
+    neuron.weights[w] += deltaWeights[w];
     neuron.previousDeltaWeights.pushBack(deltaWeights);
 }
 
-- 
2.43.0


From a5b9b85a01da23d46028820db0128e5b04ec9086 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 02/53] fix: never lose a stop request and keep the state
 shared with the training thread race free

stopTrainingAsync() called before the new thread had run was overwritten by the
thread (join() then never returned), isTraining()/train()/saveAs() saw an idle
network between startTrainingAsync() and the first instructions of the thread, and
every control value and metric polled by waitFor() was a plain variable.
---
 include/snn/neural_network/NeuralNetwork.hpp  |  7 +--
 .../snn/neural_network/StatisticAnalysis.hpp  | 41 +++++++++---------
 .../StraightforwardNeuralNetwork.hpp          | 28 ++++++------
 include/snn/tools/Atomic.hpp                  | 43 +++++++++++++++++++
 .../StraightforwardNeuralNetwork.cpp          | 26 ++++++++---
 5 files changed, 104 insertions(+), 41 deletions(-)
 create mode 100644 include/snn/tools/Atomic.hpp

diff --git a/include/snn/neural_network/NeuralNetwork.hpp b/include/snn/neural_network/NeuralNetwork.hpp
index 49c54af..3e810ab 100644
--- a/include/snn/neural_network/NeuralNetwork.hpp
+++ b/include/snn/neural_network/NeuralNetwork.hpp
@@ -17,14 +17,15 @@
 #include "layer/Recurrence.hpp"
 #include "optimizer/NeuralNetworkOptimizer.hpp"
 #include "optimizer/NeuralNetworkOptimizerModel.hpp"
+#include "../tools/Atomic.hpp"
 
 namespace snn::internal
 {
     class NeuralNetwork : public StatisticAnalysis
     {
     private:
-        bool outputNan = false;
-        int64_t numberOfTraining = 0;
+        tools::Atomic<bool> outputNan = false;
+        tools::Atomic<int64_t> numberOfTraining = 0;
 
         void backpropagationAlgorithm(const std::vector<float>& inputs, const std::vector<float>& desired, bool temporalReset);
         std::vector<float> calculateError(const std::vector<float>& outputs, const std::vector<float>& desired) const;
@@ -95,7 +96,7 @@ namespace snn::internal
         ar.template register_type<MaxPooling1D>();
         ar.template register_type<MaxPooling2D>();
         if (version >= 1) {
-            ar & this->numberOfTraining;
+            this->numberOfTraining.serializeValue(ar);
         }
         ar & this->layers;
         ar & this->optimizer;
diff --git a/include/snn/neural_network/StatisticAnalysis.hpp b/include/snn/neural_network/StatisticAnalysis.hpp
index 4a77a70..669c2ec 100644
--- a/include/snn/neural_network/StatisticAnalysis.hpp
+++ b/include/snn/neural_network/StatisticAnalysis.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <vector>
 #include <boost/serialization/access.hpp>
+#include "../tools/Atomic.hpp"
 
 namespace snn::internal
 {
@@ -38,17 +39,17 @@ namespace snn::internal
         float numberOfDataWellClassified;
         float numberOfDataMisclassified;
 
-        float globalClusteringRate = -1.0f;
-        float weightedClusteringRate = -1.0f;
-        float f1Score = -1.0f;
-        float meanAbsoluteError = -1.0f;
-        float rootMeanSquaredError = -1.0f;
+        tools::Atomic<float> globalClusteringRate = -1.0f;
+        tools::Atomic<float> weightedClusteringRate = -1.0f;
+        tools::Atomic<float> f1Score = -1.0f;
+        tools::Atomic<float> meanAbsoluteError = -1.0f;
+        tools::Atomic<float> rootMeanSquaredError = -1.0f;
 
-        float globalClusteringRateMax = -1.0f;
-        float weightedClusteringRateMax = -1.0f;
-        float f1ScoreMax = -1.0f;
-        float meanAbsoluteErrorMin = -1.0f;
-        float rootMeanSquaredErrorMin = -1.0f;
+        tools::Atomic<float> globalClusteringRateMax = -1.0f;
+        tools::Atomic<float> weightedClusteringRateMax = -1.0f;
+        tools::Atomic<float> f1ScoreMax = -1.0f;
+        tools::Atomic<float> meanAbsoluteErrorMin = -1.0f;
+        tools::Atomic<float> rootMeanSquaredErrorMin = -1.0f;
 
         [[nodiscard]] float computeGlobalClusteringRate() const;
         [[nodiscard]] float computeWeightedClusteringRate() const;
@@ -107,16 +108,16 @@ namespace snn::internal
         ar & this->clusters;
         ar & this->numberOfDataWellClassified;
         ar & this->numberOfDataMisclassified;
-        ar & this->globalClusteringRate;
-        ar & this->weightedClusteringRate;
-        ar & this->f1Score;
-        ar & this->meanAbsoluteError;
-        ar & this->rootMeanSquaredError;
-        ar & this->globalClusteringRateMax;
-        ar & this->weightedClusteringRateMax;
-        ar & this->f1ScoreMax;
-        ar & this->meanAbsoluteErrorMin;
-        ar & this->rootMeanSquaredErrorMin;
+        this->globalClusteringRate.serializeValue(ar);
+        this->weightedClusteringRate.serializeValue(ar);
+        this->f1Score.serializeValue(ar);
+        this->meanAbsoluteError.serializeValue(ar);
+        this->rootMeanSquaredError.serializeValue(ar);
+        this->globalClusteringRateMax.serializeValue(ar);
+        this->weightedClusteringRateMax.serializeValue(ar);
+        this->f1ScoreMax.serializeValue(ar);
+        this->meanAbsoluteErrorMin.serializeValue(ar);
+        this->rootMeanSquaredErrorMin.serializeValue(ar);
         ar & this->globalClusteringRateIsBetterThanMax;
         ar & this->weightedClusteringRateIsBetterThanMax;
         ar & this->f1ScoreIsBetterThanMax;
diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index e5467e9..618f42e 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -4,6 +4,7 @@
 #include <thread>
 #include "NeuralNetwork.hpp"
 #include "Wait.hpp"
+#include "../tools/Atomic.hpp"
 #include "../data/Data.hpp"
 #include "layer/LayerModel.hpp"
 #include "layer/LayerFactory.hpp"
@@ -17,12 +18,13 @@ namespace snn
     private:
         std::thread thread;
 
-        bool wantToStopTraining = false;
-        bool isIdle = true;
-        int index = 0;
-        int epoch = 0;
-        int numberOfTrainingsBetweenTwoEvaluations = 0;
+        tools::Atomic<bool> wantToStopTraining = false;
+        tools::Atomic<bool> isIdle = true;
+        tools::Atomic<int> index = 0;
+        tools::Atomic<int> epoch = 0;
+        tools::Atomic<int> numberOfTrainingsBetweenTwoEvaluations = 0;
 
+        void setTrainingValues();
         void resetTrainingValues();
 
         void trainSync(Data& data, Wait wait, int batchSize, int evaluationFrequency);
@@ -96,7 +98,7 @@ namespace snn
     {
         if constexpr (T > none && T <= verbose)
         {
-            tools::log<T, false>("\rEpoch: ", tools::toConstSizeString(this->epoch, 2),
+            tools::log<T, false>("\rEpoch: ", tools::toConstSizeString(static_cast<int>(this->epoch), 2),
                                 " - Accuracy: ", tools::toConstSizeString<2>(this->getGlobalClusteringRate(), 4),
                                 " - MAE: ", tools::toConstSizeString<4>(this->getMeanAbsoluteError(), 7),
                                 " - Time: ", tools::toConstSizeString<0>(wait.getDurationAndReset(), 2), "s");
@@ -114,8 +116,8 @@ namespace snn
             if (wait.tick() >= 100)
             {
                 const std::string name = set == training ? "Training  " : "Evaluation";
-                const int progress = static_cast<int>(this->index / static_cast<float>(data.sets[set].size) * 100);
-                tools::log<T, false>("\rEpoch: ", tools::toConstSizeString(this->epoch, 2),
+                const int progress = static_cast<int>(static_cast<float>(this->index) / static_cast<float>(data.sets[set].size) * 100);
+                tools::log<T, false>("\rEpoch: ", tools::toConstSizeString(static_cast<int>(this->epoch), 2),
                     " - ", name, " in progress... ", tools::toConstSizeString(progress, 2), "%",
                     " - Time: ", tools::toConstSizeString<0>(wait.getDuration(), 2), "s");
             }
@@ -129,10 +131,10 @@ namespace snn
         ar & boost::serialization::base_object<NeuralNetwork>(*this);
         ar & this->autoSaveFilePath;
         ar & this->autoSaveWhenBetter;
-        ar & this->wantToStopTraining;
-        ar & this->index;
-        ar & this->isIdle;
-        ar & this->epoch;
-        ar & this->numberOfTrainingsBetweenTwoEvaluations;
+        this->wantToStopTraining.serializeValue(ar);
+        this->index.serializeValue(ar);
+        this->isIdle.serializeValue(ar);
+        this->epoch.serializeValue(ar);
+        this->numberOfTrainingsBetweenTwoEvaluations.serializeValue(ar);
     }
 }
diff --git a/include/snn/tools/Atomic.hpp b/include/snn/tools/Atomic.hpp
new file mode 100644
index 0000000..2f228dc
--- /dev/null
+++ b/include/snn/tools/Atomic.hpp
@@ -0,0 +1,43 @@
+#pragma once
+#include <atomic>
+
+namespace snn::tools
+{
+    // std::atomic that can be copied, for the values shared between the training thread and the user threads.
+    template <typename T>
+    class Atomic final
+    {
+    private:
+        std::atomic<T> value;
+
+    public:
+        Atomic(const T v = T()) : value(v) {}
+        Atomic(const Atomic& other) : value(other.value.load()) {}
+        ~Atomic() = default;
+
+        Atomic& operator=(const Atomic& other)
+        {
+            this->value.store(other.value.load());
+            return *this;
+        }
+
+        Atomic& operator=(const T v)
+        {
+            this->value.store(v);
+            return *this;
+        }
+
+        operator T() const { return this->value.load(); }
+
+        void operator++(int) { this->value.store(this->value.load() + 1); } // only one thread writes
+        void operator+=(const T v) { this->value.store(this->value.load() + v); } // only one thread writes
+
+        template <class Archive>
+        void serializeValue(Archive& ar)
+        {
+            T v = this->value.load();
+            ar & v;
+            this->value.store(v);
+        }
+    };
+}
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index d9e7f71..5b19b87 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -73,7 +73,16 @@ void StraightforwardNeuralNetwork::startTrainingAsync(Data& data, int batchSize,
     this->validData(data, batchSize);
     this->stopTrainingAsync();
     log<complete>("Start a new thread");
-    this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
+    this->setTrainingValues();
+    try
+    {
+        this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
+    }
+    catch (...)
+    {
+        this->resetTrainingValues();
+        throw;
+    }
 }
 
 void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, int evaluationFrequency)
@@ -82,6 +91,7 @@ void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, i
     if (!this->isIdle)
         throw runtime_error("Neural network is already training");
     this->stopTrainingAsync();
+    this->setTrainingValues();
     this->trainSync(data, wait, batchSize, evaluationFrequency);
 }
 
@@ -89,10 +99,7 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
 {
     log<minimal>("Start training");
     wait.startClock();
-    this->epoch = 0;
     this->numberOfTrainingsBetweenTwoEvaluations = data.sets[training].size;
-    this->wantToStopTraining = false;
-    this->isIdle = false;
     if (evaluationFrequency > 0)
         this->evaluate(data, &wait);
     for (this->epoch = 1; this->continueTraining(wait); this->epoch++)
@@ -183,15 +190,24 @@ void StraightforwardNeuralNetwork::evaluateOnce(const Data& data)
 
 void StraightforwardNeuralNetwork::stopTrainingAsync()
 {
-    this->wantToStopTraining = true;
+    if (!this->isIdle)
+        this->wantToStopTraining = true;
     if (this->thread.joinable())
     {
         log<minimal>("Stop training");
         this->thread.join();
+        this->wantToStopTraining = false;
         log<complete>("Thread closed");
     }
 }
 
+void StraightforwardNeuralNetwork::setTrainingValues()
+{
+    this->epoch = 0;
+    this->wantToStopTraining = false;
+    this->isIdle = false;
+}
+
 void StraightforwardNeuralNetwork::resetTrainingValues()
 {
     this->index = 0;
-- 
2.43.0


From 94d69c5108506b9a27e7ae0fb55b5bd155780490 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 03/53] fix: detect NaN and infinite outputs when compiled with
 -ffast-math

fpclassify() is folded with -ffast-math: NaN and infinite outputs were never
detected and subnormal outputs were reported as NaN.
---
 include/snn/tools/Tools.hpp          | 10 ++++++++++
 src/neural_network/NeuralNetwork.cpp |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index 11db1d5..bb142e0 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <bit>
+#include <cstdint>
 #include <format>
 #include <chrono>
 #include <iostream>
@@ -44,6 +46,14 @@ namespace snn::tools
     float randomBetween(const float min, const float max);
     std::vector<float> randomVector(const float min, const float max, const size_t size);
 
+    // isnan(), isinf() and fpclassify() cannot be used because the library is compiled with -ffast-math.
+    inline
+    bool isNanOrInfinite(const float value)
+    {
+        constexpr uint32_t exponent = 0x7f800000;
+        return (std::bit_cast<uint32_t>(value) & exponent) == exponent;
+    }
+
     inline
     std::string toString(std::chrono::milliseconds duration)
     {
diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index b4ba4f1..427919f 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -64,7 +64,7 @@ vector<float> NeuralNetwork::output(const vector<float>& inputs, bool temporalRe
     for (size_t l = 1; l < this->layers.size(); ++l)
         outputs = layers[l]->output(outputs, temporalReset);
 
-    if (ranges::any_of(outputs, [](const float& v) { return fpclassify(v) != FP_NORMAL && fpclassify(v) != FP_ZERO; }))
+    if (ranges::any_of(outputs, tools::isNanOrInfinite))
         this->outputNan = true;
 
     return outputs;
@@ -77,7 +77,7 @@ std::vector<float> NeuralNetwork::outputForTraining(const std::vector<float>& in
     for (size_t l = 1; l < this->layers.size(); ++l)
         outputs = layers[l]->outputForTraining(outputs, temporalReset);
 
-    if (ranges::any_of(outputs, [](const float& v) { return fpclassify(v) != FP_NORMAL && fpclassify(v) != FP_ZERO; }))
+    if (ranges::any_of(outputs, tools::isNanOrInfinite))
         this->outputNan = true;
 
     return outputs;
-- 
2.43.0


From 15939acd1cbd0260b7c368cfae5128482585a083 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 04/53] fix: keep the best F1 score and the best root mean
 squared error

---
 src/neural_network/StatisticAnalysis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 357d477..5fa7ef0 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -62,15 +62,15 @@ void StatisticAnalysis::stopTesting()
 
     this->f1ScoreIsBetterThanMax = newF1Score > this->f1ScoreMax;
     if (this->f1ScoreIsBetterThanMax)
-        this->f1Score = newF1Score;
+        this->f1ScoreMax = newF1Score;
 
     this->meanAbsoluteErrorIsBetterThanMin = newMeanAbsoluteError < this->meanAbsoluteErrorMin || this->meanAbsoluteErrorMin < 0;
     if (this->meanAbsoluteErrorIsBetterThanMin)
         this->meanAbsoluteErrorMin = newMeanAbsoluteError;
 
-    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->meanAbsoluteErrorMin < 0;
+    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->rootMeanSquaredErrorMin < 0;
     if (this->rootMeanSquaredErrorIsBetterThanMin)
-        this->rootMeanSquaredErrorMin = newMeanAbsoluteError;
+        this->rootMeanSquaredErrorMin = newRootMeanSquaredError;
 
     this->globalClusteringRate = newGlobalClusteringRate;
     this->weightedClusteringRate = newWeightedClusteringRate;
-- 
2.43.0


From 6c47f199cf43943dcb5fffe04eb7997f2359e4f1 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 05/53] fix: compute the root mean squared error from the
 squared errors

---
 include/snn/neural_network/StatisticAnalysis.hpp |  8 ++++++++
 src/neural_network/StatisticAnalysis.cpp         | 12 +++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/snn/neural_network/StatisticAnalysis.hpp b/include/snn/neural_network/StatisticAnalysis.hpp
index 669c2ec..af660c4 100644
--- a/include/snn/neural_network/StatisticAnalysis.hpp
+++ b/include/snn/neural_network/StatisticAnalysis.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <cmath>
 #include <vector>
 #include <boost/serialization/access.hpp>
 #include "../tools/Atomic.hpp"
@@ -12,6 +13,13 @@ namespace snn::internal
         float falsePositive{};
         float falseNegative{};
         float totalError{};
+        float totalSquaredError{};
+
+        void addError(const float error)
+        {
+            totalError += std::abs(error);
+            totalSquaredError += error * error;
+        }
 
         bool operator==(const binaryClassification&) const
         {
diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 5fa7ef0..f98024b 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -19,6 +19,7 @@ void StatisticAnalysis::setResultsAsNan()
         c.falsePositive = NAN;
         c.falseNegative = NAN;
         c.totalError = NAN;
+        c.totalSquaredError = NAN;
     }
     numberOfDataWellClassified = NAN;
     numberOfDataMisclassified = NAN;
@@ -39,6 +40,7 @@ void StatisticAnalysis::startTesting()
         c.falsePositive = 0;
         c.falseNegative = 0;
         c.totalError = 0;
+        c.totalSquaredError = 0;
     }
     numberOfDataWellClassified = 0;
     numberOfDataMisclassified = 0;
@@ -105,7 +107,7 @@ void StatisticAnalysis::evaluateOnceForRegression(const std::vector<float>& outp
             clusters[i].trueNegative ++;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].addError(desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -139,7 +141,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
             classifiedWell = false;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].addError(desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -161,7 +163,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         if (i == classNumber)
         {
-            clusters[i].totalError += abs(1 - outputs[i]);
+            clusters[i].addError(1 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -174,7 +176,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         else
         {
-            clusters[i].totalError += abs(0 - outputs[i]);
+            clusters[i].addError(0 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -238,7 +240,7 @@ float StatisticAnalysis::computeRootMeanSquaredError() const
     float totalError = 0;
     for (const auto& c : clusters)
     {
-        totalError += c.totalError * c.totalError;
+        totalError += c.totalSquaredError;
     }
     const float meanSquaredError = totalError / (numberOfDataWellClassified + numberOfDataMisclassified);
     return sqrt(meanSquaredError);
-- 
2.43.0


From 0790eedcad679b5638b367e0cdd6a1c1df4fc991 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 06/53] fix: refuse to copy a neural network during its
 training

The guard read the state of the new object instead of the copied one.
---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 5b19b87..f927425 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -33,7 +33,7 @@ StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(vector<LayerModel> ar
 StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(const StraightforwardNeuralNetwork& neuralNetwork)
     : NeuralNetwork(neuralNetwork)
 {
-    if (!this->isIdle)
+    if (!neuralNetwork.isIdle)
         throw runtime_error("StraightforwardNeuralNetwork must be idle to be copy");
     this->autoSaveFilePath = neuralNetwork.autoSaveFilePath;
     this->autoSaveWhenBetter = neuralNetwork.autoSaveWhenBetter;
-- 
2.43.0


From ff2a90737effd95d5627bc4ffa2068b01df7ab46 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 07/53] fix: find the best class whatever the range of the
 outputs

Outputs lower than or equal to -2 (e.g. with identity activation) gave class -1.
---
 src/neural_network/StatisticAnalysis.cpp            | 5 +++--
 src/neural_network/StraightforwardNeuralNetwork.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index f98024b..9da2994 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -1,4 +1,5 @@
 #include <cmath>
+#include <limits>
 #include "StatisticAnalysis.hpp"
 
 using namespace snn;
@@ -151,12 +152,12 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
 
 void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>& outputs, int classNumber, float separator)
 {
-    float maxOutputValue = -2;
+    float maxOutputValue = std::numeric_limits<float>::lowest();
     int maxOutputIndex = -1;
 
     for (int i = 0; i < (int)clusters.size(); i++)
     {
-        if (maxOutputValue < outputs[i])
+        if (maxOutputIndex == -1 || maxOutputValue < outputs[i])
         {
             maxOutputValue = outputs[i];
             maxOutputIndex = i;
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index f927425..4e5fe07 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -1,4 +1,5 @@
 #include <fstream>
+#include <limits>
 #include <thread>
 #include <stdexcept>
 #include <boost/serialization/export.hpp>
@@ -50,11 +51,11 @@ vector<float> StraightforwardNeuralNetwork::computeOutput(const vector<float>& i
 int StraightforwardNeuralNetwork::computeCluster(const vector<float>& inputs, bool temporalReset)
 {
     const auto outputs = this->output(inputs, temporalReset);
-    float maxOutputValue = -2;
+    float maxOutputValue = numeric_limits<float>::lowest();
     int maxOutputIndex = -1;
     for (int i = 0; i < (int)outputs.size(); i++)
     {
-        if (maxOutputValue < outputs[i])
+        if (maxOutputIndex == -1 || maxOutputValue < outputs[i])
         {
             maxOutputValue = outputs[i];
             maxOutputIndex = i;
-- 
2.43.0


From 9186537ded6c30562997a099beeed0f8ad5d8e9f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 08/53] fix: evaluate a neural network outside of a training

evaluate(data) dereferenced a null pointer and did not check the format of the data,
and an evaluation that found a NaN marked the running training as idle.
---
 .../StraightforwardNeuralNetwork.hpp          |  4 ++--
 .../StraightforwardNeuralNetwork.cpp          | 22 ++++++++++++-------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index 618f42e..e5de852 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -29,7 +29,7 @@ namespace snn
 
         void trainSync(Data& data, Wait wait, int batchSize, int evaluationFrequency);
         void saveSync(std::string filePath);
-        void evaluate(const Data& data, Wait* wait);
+        void evaluate(const Data& data, Wait& wait);
         void evaluateOnce(const Data& data);
 
         bool continueTraining(Wait wait) const;
@@ -64,7 +64,7 @@ namespace snn
         void waitFor(Wait wait) const;
         void train(Data& data, Wait wait, int batchSize = 1, int evaluationFrequency = 1);
 
-        void evaluate(const Data& data) { return this->evaluate(data, nullptr); }
+        void evaluate(const Data& data);
 
         std::vector<float> computeOutput(const std::vector<float>& inputs, bool temporalReset = false);
         int computeCluster(const std::vector<float>& inputs, bool temporalReset = false);
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 4e5fe07..471d744 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -102,7 +102,7 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
     wait.startClock();
     this->numberOfTrainingsBetweenTwoEvaluations = data.sets[training].size;
     if (evaluationFrequency > 0)
-        this->evaluate(data, &wait);
+        this->evaluate(data, wait);
     for (this->epoch = 1; this->continueTraining(wait); this->epoch++)
     {
         data.shuffle();
@@ -124,13 +124,21 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
             this->logInProgress<minimal>(wait, data, training);
         }
         if (evaluationFrequency > 0 && this->epoch % evaluationFrequency == 0)
-            this->evaluate(data, &wait);
+            this->evaluate(data, wait);
     }
     this->resetTrainingValues();
     log<minimal>("Stop training");
 }
 
-void StraightforwardNeuralNetwork::evaluate(const Data& data, Wait* wait)
+void StraightforwardNeuralNetwork::evaluate(const Data& data)
+{
+    this->validData(data, 1);
+    Wait wait;
+    wait.startClock();
+    this->evaluate(data, wait);
+}
+
+void StraightforwardNeuralNetwork::evaluate(const Data& data, Wait& wait)
 {
     this->startTesting();
     for (this->index = 0; this->index < data.sets[testing].size; this->index++)
@@ -138,7 +146,6 @@ void StraightforwardNeuralNetwork::evaluate(const Data& data, Wait* wait)
         if (this->hasNan())
         {
             this->setResultsAsNan();
-            this->resetTrainingValues();
             return;
         }
 
@@ -146,18 +153,17 @@ void StraightforwardNeuralNetwork::evaluate(const Data& data, Wait* wait)
             this->evaluateOnce(data);
         else
             this->output(data.getTestingData(this->index), data.isFirstTestingDataOfTemporalSequence(this->index));
-        this->logInProgress<minimal>(*wait, data, testing);
+        this->logInProgress<minimal>(wait, data, testing);
     }
     this->stopTesting();
     if (this->autoSaveWhenBetter && this->globalClusteringRateIsBetterThanMax)
     {
         this->saveSync(autoSaveFilePath);
-        if(wait != nullptr)
-            this->logAccuracy<minimal>(*wait, true);
+        this->logAccuracy<minimal>(wait, true);
     }
     else
     {
-        this->logAccuracy<minimal>(*wait, false);
+        this->logAccuracy<minimal>(wait, false);
     }
 }
 
-- 
2.43.0


From 628c8f4ae3d9704038c69d4223bf0a39937646a4 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 09/53] fix: load as idle a neural network auto saved during
 its training

The saved state said that a training was running: the loaded network could not be
trained, saved or copied.
---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 471d744..8da637c 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -321,6 +321,8 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
     ifstream ifs(filePath);
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
+    neuralNetwork->wantToStopTraining = false;
+    neuralNetwork->isIdle = true; // auto save is done during the training
     return *neuralNetwork;
 }
 
-- 
2.43.0


From 31219d35d36462de855fb1330cc5886bf48d3f8c Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 10/53] fix: never lose the previous file when a save is
 interrupted or fails

The target was truncated before the new state was written and write errors were
ignored, so a crash or a full disk during a save destroyed the last good file.
---
 .../StraightforwardNeuralNetwork.cpp          | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 8da637c..b6d4fde 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -1,3 +1,4 @@
+#include <filesystem>
 #include <fstream>
 #include <limits>
 #include <thread>
@@ -272,6 +273,7 @@ void StraightforwardNeuralNetwork::saveAs(const string filePath)
 {
     if (!this->isIdle)
         throw runtime_error("Neural network cannot be saved during training, stop training before saving or use auto save");
+    this->autoSaveFilePath = filePath;
     saveSync(filePath);
 }
 
@@ -308,10 +310,25 @@ void StraightforwardNeuralNetwork::saveFilterLayersAsBitmap(string filePath, con
 
 void StraightforwardNeuralNetwork::saveSync(const string filePath)
 {
-    this->autoSaveFilePath = filePath;
-    ofstream ofs(filePath);
-    boost::archive::text_oarchive archive(ofs);
-    archive << this;
+    const auto temporaryFilePath = filePath + ".tmp"; // the previous file must survive an interrupted save
+    try
+    {
+        ofstream ofs(temporaryFilePath);
+        {
+            boost::archive::text_oarchive archive(ofs);
+            archive << this;
+        }
+        ofs.close();
+        if (!ofs)
+            throw runtime_error("Neural network cannot be saved in " + filePath);
+        filesystem::rename(temporaryFilePath, filePath);
+    }
+    catch (...)
+    {
+        error_code error;
+        filesystem::remove(temporaryFilePath, error);
+        throw;
+    }
 }
 
 
-- 
2.43.0


From c4ca40849b17625c5570f736061da35b51a96d5d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 11/53] fix: leave the neural network idle when a training
 throws

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index b6d4fde..9eed73b 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -94,7 +94,15 @@ void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, i
         throw runtime_error("Neural network is already training");
     this->stopTrainingAsync();
     this->setTrainingValues();
-    this->trainSync(data, wait, batchSize, evaluationFrequency);
+    try
+    {
+        this->trainSync(data, wait, batchSize, evaluationFrequency);
+    }
+    catch (...)
+    {
+        this->resetTrainingValues();
+        throw;
+    }
 }
 
 void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int batchSize, const int evaluationFrequency)
-- 
2.43.0


From c56c9924cc119005f150ac660579bc4108a40287 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 12/53] fix: honour every condition of combined waits

The MAE condition was dropped by && when one side had none, zero thresholds were
ignored by ||, mixing || and && was only detected on the left side and a metric equal
to zero never satisfied its condition.
---
 src/neural_network/Wait.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 36d7eaf..b60bcc4 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -9,24 +9,24 @@ using namespace snn;
 
 Wait& Wait::operator||(const Wait& wait)
 {
-    if (op == waitOperator::andOp)
+    if (op == waitOperator::andOp || wait.op == waitOperator::andOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::orOp;
 
-    if (this->epochs > 0 && wait.epochs > 0)
+    if (this->epochs >= 0 && wait.epochs >= 0)
         this->epochs = min(this->epochs, wait.epochs);
     else
         this->epochs = max(this->epochs, wait.epochs);
 
-    if (this->accuracy > 0 && wait.accuracy > 0)
+    if (this->accuracy >= 0 && wait.accuracy >= 0)
         this->accuracy = min(this->accuracy, wait.accuracy);
     else
         this->accuracy = max(this->accuracy, wait.accuracy);
 
     this->mae = max(this->mae, wait.mae);
 
-    if (this->duration > 0 && wait.duration > 0)
+    if (this->duration >= 0 && wait.duration >= 0)
         this->duration = min(this->duration, wait.duration);
     else
         this->duration = max(this->duration, wait.duration);
@@ -36,7 +36,7 @@ Wait& Wait::operator||(const Wait& wait)
 
 Wait& Wait::operator&&(const Wait& wait)
 {
-    if (op == waitOperator::orOp)
+    if (op == waitOperator::orOp || wait.op == waitOperator::orOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::andOp;
@@ -44,12 +44,11 @@ Wait& Wait::operator&&(const Wait& wait)
     this->epochs = max(this->epochs, wait.epochs);
     this->accuracy = max(this->accuracy, wait.accuracy);
 
-    if (this->mae > 0 && wait.duration > 0)
+    if (this->mae >= 0 && wait.mae >= 0)
         this->mae = min(this->mae, wait.mae);
     else
         this->mae = max(this->mae, wait.mae);
 
-    this->mae = min(this->mae, wait.mae);
     this->duration = max(this->duration, wait.duration);
 
     return *this;
@@ -67,8 +66,8 @@ bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) co
     const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(system_clock::now() - this->start).count());
 
     const bool isValidEpochs = currentEpochs > this->epochs && currentEpochs > 0;
-    const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy > 0;
-    const bool isValidMae = currentMae <= this->mae && currentMae > 0;
+    const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy >= 0;
+    const bool isValidMae = currentMae <= this->mae && currentMae >= 0;
     const bool isValidDuration = currentDuration >= this->duration;
 
     if (this->op == waitOperator::andOp)
-- 
2.43.0


From 22dd8f5ee9d6544a074d30f57b49a231cae4d582 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 13/53] fix: shuffle time series without duplicating data nor
 writing out of bounds

The data after the last whole sequence kept the indexes of an older shuffle, so the
shuffled indexes were not a permutation, and series shorter than
numberOfRecurrences + 1 were written before their beginning.
---
 src/data/CompositeForTimeSeries.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data/CompositeForTimeSeries.cpp b/src/data/CompositeForTimeSeries.cpp
index 22fa3b8..bd55450 100644
--- a/src/data/CompositeForTimeSeries.cpp
+++ b/src/data/CompositeForTimeSeries.cpp
@@ -35,12 +35,12 @@ void CompositeForTimeSeries::shuffle()
 {
     ranges::shuffle(this->indexesForShuffling, tools::rng);
 
-    for (int i = this->sets[training].size - (this->numberOfRecurrences + 1); i < this->sets[training].size; ++i)
+    for (int i = max(0, this->sets[training].size - (this->numberOfRecurrences + 1)); i < this->sets[training].size; ++i)
     {
         this->sets[training].needToTrainOnData[i] = false;
     }
 
-    for (int i = 0; i < offset; ++i)
+    for (int i = 0; i < min(offset, this->sets[training].size); ++i)
     {
         this->sets[training].shuffledIndexes[i] = i;
         this->sets[training].needToTrainOnData[i] = true;
@@ -72,6 +72,11 @@ void CompositeForTimeSeries::shuffle()
             iForIndex ++;
         }
     }
+    for (int i = iForIndex * (this->numberOfRecurrences + 1) + offset; i < this->sets[training].size; ++i)
+    {
+        this->sets[training].shuffledIndexes[i] = i;
+        this->sets[training].areFirstDataOfTemporalSequence[i] = i == 0;
+    }
     this->offset = (this->offset+1) % (this->numberOfRecurrences+1);
 }
 
-- 
2.43.0


From caa2c8b471089a1f7707396f1da1cba14113ec75 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 14/53] fix: shuffle the sequences of sequential data

The list of sequences was always empty so sequential data was never shuffled, and the
first-of-sequence flag was read without following the shuffled order.
---
 src/data/CompositeForTemporalData.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/CompositeForTemporalData.cpp b/src/data/CompositeForTemporalData.cpp
index f5f1570..dc5ae87 100644
--- a/src/data/CompositeForTemporalData.cpp
+++ b/src/data/CompositeForTemporalData.cpp
@@ -9,7 +9,7 @@ using namespace internal;
 CompositeForTemporalData::CompositeForTemporalData(Set sets[2])
     : TemporalComposite(sets)
 {
-    for (int i = 0; i > this->sets[training].size; ++i)
+    for (int i = 0; i < this->sets[training].size; ++i)
     {
         if (this->sets[training].areFirstDataOfTemporalSequence[i])
         {
@@ -27,7 +27,7 @@ void CompositeForTemporalData::shuffle()
         this->sets[training].shuffledIndexes[j++] = this->indexesForShuffles[i];
 
         int index = this->indexesForShuffles[i] + 1;
-        while (!this->sets[training].areFirstDataOfTemporalSequence[index])
+        while (index < this->sets[training].size && !this->sets[training].areFirstDataOfTemporalSequence[index])
         {
             this->sets[training].shuffledIndexes[j++] = index++;
         }
@@ -41,7 +41,7 @@ void CompositeForTemporalData::unshuffle()
 
 bool CompositeForTemporalData::isFirstTrainingDataOfTemporalSequence(int index) const
 {
-    return this->sets[training].areFirstDataOfTemporalSequence[index];
+    return this->sets[training].areFirstDataOfTemporalSequence[this->sets[training].shuffledIndexes[index]];
 }
 
 bool CompositeForTemporalData::isFirstTestingDataOfTemporalSequence(int index) const
-- 
2.43.0


From 7aa1611479a6d0d98a0d938a1a1e6452aacef0c3 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 15/53] fix: pair the training labels with the shuffled
 training data

---
 src/data/CompositeForClassification.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/CompositeForClassification.cpp b/src/data/CompositeForClassification.cpp
index 175fd65..5a98d79 100644
--- a/src/data/CompositeForClassification.cpp
+++ b/src/data/CompositeForClassification.cpp
@@ -20,9 +20,10 @@ int CompositeForClassification::isValid()
 
 int CompositeForClassification::getTrainingLabel(const int index)
 {
-    for (int i = 0; i < (int)this->sets[training].labels[index].size(); i++)
+    const auto& label = this->sets[training].labels[this->sets[training].shuffledIndexes[index]];
+    for (int i = 0; i < (int)label.size(); i++)
     {
-        if (this->sets[training].labels[index][i] == 1)
+        if (label[i] == 1)
             return i;
     }
     throw std::runtime_error("wrong label");
-- 
2.43.0


From 7c8f17c444586018b68f8c5985acf013774f14db Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 16/53] fix: reject inconsistent or empty data

Different numbers of inputs and labels were only rejected when the four counts were
all wrong, rows of different sizes were accepted, and empty sets or sequences were
read out of bounds.
---
 src/data/Data.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 0ab97fd..0229fc9 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -99,6 +99,9 @@ void Data::initialize(vector<vector<float>>& trainingInputs,
                       vector<vector<float>>& testingInputs,
                       vector<vector<float>>& testingLabels)
 {
+    if (trainingInputs.empty() || trainingLabels.empty())
+        throw runtime_error("Training data cannot be empty.");
+
     this->precision = 0.1f;
     this->separator = 0.5f;
     this->sets[training].inputs = trainingInputs;
@@ -157,6 +160,8 @@ void Data::initialize(vector<vector<float>>& trainingInputs,
 
 void Data::flatten(set set, vector<vector<vector<float>>>& input3D)
 {
+    if (ranges::any_of(input3D, [](const auto& sequence) { return sequence.empty(); }))
+        throw runtime_error("Temporal sequence cannot be empty.");
     this->sets[set].numberOfTemporalSequence = (int)input3D.size();
     size_t size = accumulate(input3D.begin(), input3D.end(), (size_t)0,
                            [](size_t sum, vector2D<float>& v)
@@ -183,6 +188,8 @@ void Data::flatten(set set, vector<vector<vector<float>>>& input3D)
 
 void Data::flatten(vector<vector<vector<float>>>& input3D)
 {
+    if (ranges::any_of(input3D, [](const auto& sequence) { return sequence.empty(); }))
+        throw runtime_error("Temporal sequence cannot be empty.");
     this->sets[training].numberOfTemporalSequence = (int)input3D.size();
     this->sets[testing].numberOfTemporalSequence = (int)input3D.size();
     size_t size = accumulate(input3D.begin(), input3D.end(), (size_t)0,
@@ -268,15 +275,18 @@ void Data::unshuffle()
 
 int Data::isValid()
 {
-    if (!this->sets[testing].shuffledIndexes.empty()
+    if (!this->sets[training].shuffledIndexes.empty()
         && this->sets[training].size != (int)this->sets[training].shuffledIndexes.size())
         return 403;
 
-    if (this->sets[training].size != (int)this->sets[training].inputs.size()
-        && this->sets[training].size != (int)this->sets[training].labels.size()
-        && this->sets[testing].size != (int)this->sets[training].inputs.size()
-        && this->sets[testing].size != (int)this->sets[training].labels.size())
-        return 405;
+    for (const auto& set : this->sets)
+    {
+        if (set.size != (int)set.inputs.size()
+            || set.size != (int)set.labels.size()
+            || ranges::any_of(set.inputs, [this](const auto& input) { return (int)input.size() != this->sizeOfData; })
+            || ranges::any_of(set.labels, [this](const auto& label) { return (int)label.size() != this->numberOfLabels; }))
+            return 405;
+    }
 
     int err = this->problemComposite->isValid();
     if (err != 0)
-- 
2.43.0


From ce16ee6cf55226175a81f8870f277b6d80d99665 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 17/53] fix: read the first-of-sequence flags within their
 bounds

---
 src/data/CompositeForTemporalData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/CompositeForTemporalData.cpp b/src/data/CompositeForTemporalData.cpp
index dc5ae87..c04618e 100644
--- a/src/data/CompositeForTemporalData.cpp
+++ b/src/data/CompositeForTemporalData.cpp
@@ -9,7 +9,7 @@ using namespace internal;
 CompositeForTemporalData::CompositeForTemporalData(Set sets[2])
     : TemporalComposite(sets)
 {
-    for (int i = 0; i < this->sets[training].size; ++i)
+    for (int i = 0; i < (int)this->sets[training].areFirstDataOfTemporalSequence.size(); ++i)
     {
         if (this->sets[training].areFirstDataOfTemporalSequence[i])
         {
-- 
2.43.0


From 3a9e33c9f02d74074c42a2856bc42266507d4e69 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 18/53] fix: reject classification data with a testing label
 without class

getTestingLabel() threw in the middle of the training, which terminates the program
when the training is asynchronous.
---
 src/data/CompositeForClassification.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/data/CompositeForClassification.cpp b/src/data/CompositeForClassification.cpp
index 5a98d79..47ab25a 100644
--- a/src/data/CompositeForClassification.cpp
+++ b/src/data/CompositeForClassification.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "CompositeForClassification.hpp"
 #include "ExtendedExpection.hpp"
 
@@ -15,6 +16,11 @@ int CompositeForClassification::isValid()
 {
     if (this->sets[training].labels[0].size() < 2)
         return 406;
+    for (const auto& label : this->sets[testing].labels)
+    {
+        if (ranges::find(label, 1.0f) == label.end())
+            return 406;
+    }
     return this->ProblemComposite::isValid();
 }
 
-- 
2.43.0


From 4fe2a1dd08e9a71888084b9a13903c9eeacb5144 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 19/53] fix: refuse the architectures with empty or oversized
 layers

A layer with a dimension, a kernel, a number of neurons or a number of filters
lower than one crashed (division by zero, bad_alloc, invalid index) and sizes
that overflow an int were accepted. They throw an InvalidArchitectureException.
---
 src/neural_network/layer/LayerFactory.cpp | 49 +++++++++++++++++------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index 0e158ae..dbc5d21 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -17,10 +17,36 @@ using namespace internal;
 inline
 int computeNumberOfInputs(const vector<int>& shapeOfInput)
 {
-    int numberOfInputs = 1;
+    int64_t numberOfInputs = 1;
     for (auto size : shapeOfInput)
+    {
+        if (size < 1)
+            throw InvalidArchitectureException("Input of layer has size of 0.");
         numberOfInputs *= size;
-    return numberOfInputs;
+        if (numberOfInputs > 2073600)
+            throw InvalidArchitectureException("Layer is too big.");
+    }
+    return static_cast<int>(numberOfInputs);
+}
+
+inline
+void checkNumberOfNeurons(int numberOfNeurons)
+{
+    if (numberOfNeurons < 1)
+        throw InvalidArchitectureException("Layer has no neurons.");
+    if (numberOfNeurons > 1000000)
+        throw InvalidArchitectureException("Layer is too big.");
+}
+
+inline
+void checkFilters(int numberOfFilters, int kernelSize, int numberOfInputs)
+{
+    if (numberOfFilters < 1)
+        throw InvalidArchitectureException("Layer has no filters.");
+    if (kernelSize < 1)
+        throw InvalidArchitectureException("Kernel of layer has size of 0.");
+    if (static_cast<int64_t>(numberOfFilters) * numberOfInputs > 2147483647)
+        throw InvalidArchitectureException("Layer is too big.");
 }
 
 inline
@@ -85,20 +111,18 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
                                           vector<int>& shapeOfInput,
                                           shared_ptr<NeuralNetworkOptimizer> optimizer)
 {
-    model.numberOfInputs = computeNumberOfInputs(shapeOfInput);
-
     if (shapeOfInput.empty())
         throw InvalidArchitectureException("Input of layer has size of 0.");
 
+    model.numberOfInputs = computeNumberOfInputs(shapeOfInput);
+
     if (model.numberOfInputs > 1000000)
         throw InvalidArchitectureException("Layer is too big.");
 
     switch (model.type)
     {
     case fullyConnected:
-        if (model.numberOfInputs <= 0)
-            throw InvalidArchitectureException("Input of layer has size of 0.");
-
+        checkNumberOfNeurons(model.numberOfNeurons);
         model.neuron.numberOfInputs = model.numberOfInputs;
         model.neuron.batchSize = 1;
         model.neuron.numberOfWeights = model.neuron.numberOfInputs + 1; // for the bias
@@ -106,6 +130,7 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
         return make_unique<FullyConnected>(model, optimizer);
 
     case recurrence:
+        checkNumberOfNeurons(model.numberOfNeurons);
         model.neuron.numberOfInputs = model.numberOfInputs;
         model.neuron.batchSize = 1;
         model.neuron.numberOfWeights = model.neuron.numberOfInputs + 2;
@@ -113,6 +138,7 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
         return make_unique<Recurrence>(model, optimizer);
 
     case gruLayer:
+        checkNumberOfNeurons(model.numberOfNeurons);
         model.neuron.numberOfInputs = model.numberOfInputs;
         model.neuron.batchSize = 1;
         model.neuron.numberOfWeights = model.neuron.numberOfInputs + 2;
@@ -120,6 +146,7 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
         return make_unique<GruLayer>(model, optimizer);
 
     case maxPooling:
+        checkFilters(1, model.kernelSize, model.numberOfInputs);
         if (shapeOfInput.size() == 1)
         {
             shapeOfInput = {1, shapeOfInput[0]};
@@ -154,6 +181,7 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
         break;
 
     case locallyConnected:
+        checkFilters(model.numberOfFilters, model.kernelSize, model.numberOfInputs);
         if (shapeOfInput.size() == 1)
         {
             shapeOfInput = { 1, shapeOfInput[0] };
@@ -199,6 +227,7 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
         break;
 
     case convolution:
+        checkFilters(model.numberOfFilters, model.kernelSize, model.numberOfInputs);
         if (shapeOfInput.size() == 1)
         {
             shapeOfInput = { 1, shapeOfInput[0] };
@@ -262,12 +291,6 @@ void LayerFactory::build(vector<unique_ptr<BaseLayer>>& layers,
     if (models.size() < 2)
         throw InvalidArchitectureException("Neural Network must have at least 1 layer.");
 
-    int numberOfInputs = 1;
-    for (auto size : models[0].shapeOfInput)
-        numberOfInputs *= size;
-    if (numberOfInputs > 2073600)
-        throw InvalidArchitectureException("Layer is too big.");
-
     auto& currentShapeOfInput = models[0].shapeOfInput;
     for (size_t i = 1; i < models.size(); ++i)
     {
-- 
2.43.0


From 9895cec232a6d49bbc91dbd98940c74cb6906aac Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 20/53] fix: place the kernels of the 2D locally connected and
 max pooling layers on non-square inputs

The row of a kernel was divided by the height of the output instead of its width:
for a non-square input some kernels overlapped, and others were outside of the
input (MaxPooling2D then read out of bounds).
---
 src/neural_network/layer/LocallyConnected2D.cpp | 2 +-
 src/neural_network/layer/MaxPooling2D.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/layer/LocallyConnected2D.cpp b/src/neural_network/layer/LocallyConnected2D.cpp
index 9064ada..f756674 100644
--- a/src/neural_network/layer/LocallyConnected2D.cpp
+++ b/src/neural_network/layer/LocallyConnected2D.cpp
@@ -31,7 +31,7 @@ void LocallyConnected2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = k % this->shapeOfOutput[X];
-        const int kernelPosY = k / this->shapeOfOutput[Y];
+        const int kernelPosY = k / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
diff --git a/src/neural_network/layer/MaxPooling2D.cpp b/src/neural_network/layer/MaxPooling2D.cpp
index 53998eb..6add766 100644
--- a/src/neural_network/layer/MaxPooling2D.cpp
+++ b/src/neural_network/layer/MaxPooling2D.cpp
@@ -35,7 +35,7 @@ void MaxPooling2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = (k / maxC) % this->shapeOfOutput[X];
-        const int kernelPosY = (k / maxC) / this->shapeOfOutput[Y];
+        const int kernelPosY = (k / maxC) / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
-- 
2.43.0


From 40752eb048ea7af1754811e64d323d41b58bddd9 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 21/53] fix: compute every channel in 1D max pooling

The number of outputs ignored the channels: the network was invalid and the next
layers read out of bounds.
---
 src/neural_network/layer/LayerFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index dbc5d21..55b633e 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -54,7 +54,7 @@ int computeNumberOfOutputsForMaxPooling1D(int kernelSize, const vector<int>& sha
 {
     const int rest = shapeOfInput[X] % kernelSize == 0 ? 0 : 1;
 
-    return ((shapeOfInput[X] / kernelSize) + rest);
+    return shapeOfInput[C] * ((shapeOfInput[X] / kernelSize) + rest);
 }
 
 inline
-- 
2.43.0


From 625400d01de9c584c9acd0c95fd8a5b9801c0ecc Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 22/53] fix: count the outputs of a network ending with a
 convolution or max pooling layer

The number of outputs was the number of neurons of the last layer, which isn't
the size of its output for the convolution and max pooling layers: the error of
the other outputs was read out of bounds and the data was refused or misread.
---
 src/neural_network/NeuralNetwork.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index 427919f..83332cb 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -14,7 +14,7 @@ NeuralNetwork::NeuralNetwork(vector<LayerModel>& architecture, NeuralNetworkOpti
 {
     this->optimizer = NeuralNetworkOptimizerFactory::build(optimizer);
     LayerFactory::build(this->layers, architecture, this->optimizer);
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
@@ -26,7 +26,7 @@ NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
     this->layers.reserve(neuralNetwork.layers.size());
     for (const auto& layer : neuralNetwork.layers)
         this->layers.push_back(layer->clone(this->optimizer));
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 
@@ -100,7 +100,7 @@ void NeuralNetwork::backpropagationAlgorithm(const vector<float>& inputs, const
 inline
 vector<float> NeuralNetwork::calculateError(const vector<float>& outputs, const vector<float>& desired) const
 {
-    vector<float> errors(this->layers.back()->getNumberOfNeurons(), 0);
+    vector<float> errors(outputs.size(), 0);
     for (size_t n = 0; n < errors.size(); ++n)
     {
         errors[n] = 2 * (desired[n] - outputs[n]);
@@ -144,7 +144,10 @@ int NeuralNetwork::getNumberOfInputs() const
 
 int NeuralNetwork::getNumberOfOutputs() const
 {
-    return this->layers.back()->getNumberOfNeurons();
+    int numberOfOutputs = 1;
+    for (const auto size : this->layers.back()->getShapeOfOutput())
+        numberOfOutputs *= size;
+    return numberOfOutputs;
 }
 
 int NeuralNetwork::getNumberOfNeurons() const
-- 
2.43.0


From fb0abea5100574ca764d98094746e26725ceec0e Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 23/53] fix: apply the dropout to every output of the
 convolution layers

The mask had the size of the number of neurons, so only the first position of
the kernels was dropped while every output was scaled for testing.
---
 src/neural_network/optimizer/Dropout.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/optimizer/Dropout.cpp b/src/neural_network/optimizer/Dropout.cpp
index 4e41804..4e6c3d2 100644
--- a/src/neural_network/optimizer/Dropout.cpp
+++ b/src/neural_network/optimizer/Dropout.cpp
@@ -36,7 +36,10 @@ unique_ptr<LayerOptimizer> Dropout::clone(const BaseLayer* newLayer) const
 
 void Dropout::applyAfterOutputForTraining(std::vector<float>& outputs, bool temporalReset)
 {
-    if (temporalReset)
+    const auto isResized = this->presenceProbabilities.size() != outputs.size(); // e.g. convolution
+    if (isResized)
+        this->presenceProbabilities.resize(outputs.size());
+    if (temporalReset || isResized)
         std::generate(this->presenceProbabilities.begin(),
                       this->presenceProbabilities.end(),
                       [&] { return dist(tools::rng) >= this->value; });
-- 
2.43.0


From acdf188332ead9041f81c2b3648eea164a5fecbc Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 24/53] fix: train the convolution layers in first position on
 every position of their kernels

Only the error of the first position was used, and as only one of the stored
inputs was read per training, it was associated to the inputs of another position.
---
 src/neural_network/layer/Convolution1D.cpp | 6 ++++--
 src/neural_network/layer/Convolution2D.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/layer/Convolution1D.cpp b/src/neural_network/layer/Convolution1D.cpp
index f5cb6d9..eb71d21 100644
--- a/src/neural_network/layer/Convolution1D.cpp
+++ b/src/neural_network/layer/Convolution1D.cpp
@@ -126,9 +126,11 @@ vector<float> Convolution1D::computeBackOutput(vector<float>& inputErrors)
 inline
 void Convolution1D::computeTrain(std::vector<float>& inputErrors)
 {
-    for (int n = 0; n < this->numberOfFilters; ++n)
-        this->neurons[n].train(inputErrors[n]);
+    for (size_t k = 0, i = 0; k < this->kernelIndexes.size(); ++k)
+        for (size_t n = 0; n < this->neurons.size(); ++n, ++i)
+            this->neurons[n].train(inputErrors[i]);
 }
+
 bool Convolution1D::operator==(const BaseLayer& layer) const
 {
     return this->FilterLayer::operator==(layer);
diff --git a/src/neural_network/layer/Convolution2D.cpp b/src/neural_network/layer/Convolution2D.cpp
index 0492c99..93de128 100644
--- a/src/neural_network/layer/Convolution2D.cpp
+++ b/src/neural_network/layer/Convolution2D.cpp
@@ -134,9 +134,11 @@ vector<float> Convolution2D::computeBackOutput(vector<float>& inputErrors)
 inline
 void Convolution2D::computeTrain(std::vector<float>& inputErrors)
 {
-    for (size_t n = 0; n < this->neurons.size(); ++n)
-        this->neurons[n].train(inputErrors[n]);
+    for (size_t k = 0, i = 0; k < this->kernelIndexes.size(); ++k)
+        for (size_t n = 0; n < this->neurons.size(); ++n, ++i)
+            this->neurons[n].train(inputErrors[i]);
 }
+
 inline
 bool Convolution2D::operator==(const BaseLayer& layer) const
 {
-- 
2.43.0


From 30d8e1fb81330f07e868c877f1c8a8f4f7036982 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 25/53] fix: use the sum of each position in the derivative of
 the convolution layers

The neurons of a convolution only kept the sum of the last position, whose
derivative was used for the errors of every position.
---
 .../layer/neuron/SimpleNeuron.hpp             |  8 +++++++
 .../layer/neuron/SimpleNeuron.cpp             | 23 +++++++++++++++++--
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp b/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp
index c152c83..e263b04 100644
--- a/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp
+++ b/include/snn/neural_network/layer/neuron/SimpleNeuron.hpp
@@ -13,6 +13,14 @@ namespace snn::internal
         template <class Archive>
         void serialize(Archive& ar, unsigned version);
 
+        // sum of each output of a batch, only used between an output and its backpropagation
+        std::vector<float> lastSums;
+        size_t indexPushSum = 0;
+        size_t indexGetSum = 0;
+
+        void pushSum(float newSum);
+        [[nodiscard]] float getSum();
+
     public:
         SimpleNeuron() = default; // use restricted to Boost library only
         SimpleNeuron(NeuronModel model, std::shared_ptr<NeuralNetworkOptimizer> optimizer);
diff --git a/src/neural_network/layer/neuron/SimpleNeuron.cpp b/src/neural_network/layer/neuron/SimpleNeuron.cpp
index a75561d..b0ebf75 100644
--- a/src/neural_network/layer/neuron/SimpleNeuron.cpp
+++ b/src/neural_network/layer/neuron/SimpleNeuron.cpp
@@ -22,12 +22,13 @@ float SimpleNeuron::output(const vector<float>& inputs)
         tmp += inputs[w] * this->weights[w];
     }
     this->sum = tmp + this->weights[w] * bias;
+    this->pushSum(this->sum);
     return this->outputFunction->function(this->sum);
 }
 
 vector<float>& SimpleNeuron::backOutput(float error)
 {
-    error = error * this->outputFunction->derivative(this->sum);
+    error = error * this->outputFunction->derivative(this->getSum());
     assert(this->weights.size() == this->errors.size() + 1);
     #pragma omp simd // seems to do nothing
     for (size_t w = 0; w < this->errors.size(); ++w)
@@ -40,10 +41,28 @@ vector<float>& SimpleNeuron::backOutput(float error)
 
 void SimpleNeuron::train(float error)
 {
-    error = error * this->outputFunction->derivative(this->sum);
+    error = error * this->outputFunction->derivative(this->getSum());
     this->optimizer->updateWeights(*this, error);
 }
 
+inline
+void SimpleNeuron::pushSum(float newSum)
+{
+    if (this->lastSums.size() != static_cast<size_t>(this->batchSize))
+        this->lastSums.assign(this->batchSize, 0.0f);
+    if (this->indexPushSum >= this->lastSums.size())
+        this->indexPushSum = 0;
+    this->lastSums[this->indexPushSum++] = newSum;
+}
+
+inline
+float SimpleNeuron::getSum()
+{
+    if (this->indexGetSum >= this->lastSums.size())
+        this->indexGetSum = 0;
+    return this->lastSums[this->indexGetSum++];
+}
+
 int SimpleNeuron::isValid() const
 {
     return this->Neuron::isValid();
-- 
2.43.0


From 0fe4b3120f58695a16ae2fb7b1f27c2e73b5c5d4 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:57:14 +0000
Subject: [PATCH 26/53] fix: compare the number of optimizers of the layers

The comparison of two layers with a different number of optimizers read out of
bounds, or ignored the additional ones.
---
 include/snn/neural_network/layer/Layer.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/snn/neural_network/layer/Layer.tpp b/include/snn/neural_network/layer/Layer.tpp
index 8098297..943aba8 100644
--- a/include/snn/neural_network/layer/Layer.tpp
+++ b/include/snn/neural_network/layer/Layer.tpp
@@ -134,6 +134,7 @@ bool Layer<N>::operator==(const BaseLayer& layer) const
         return typeid(*this).hash_code() == typeid(layer).hash_code()
             && this->numberOfInputs == l.numberOfInputs
             && this->neurons == l.neurons
+            && this->optimizers.size() == l.optimizers.size()
             && [this, &l]()
             {
                 for (size_t o = 0; o < this->optimizers.size(); ++o)
-- 
2.43.0


From aed42bf253c91d04f656639290b0b5e708794b9d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:57:40 +0000
Subject: [PATCH 27/53] fix: derivative of the improved sigmoid

The slope of the linear term (0.05) was missing and the derivative was NaN when
exp(x) overflows.
---
 .../layer/neuron/activation_function/ImprovedSigmoid.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
index bc195ce..6f6393f 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
@@ -26,7 +26,8 @@ namespace snn::internal
 
         float derivative(const float x) const override
         {
-            return std::exp(x) / powf((std::exp(x) + 1.0f), 2);
+            const float sigmoid = 1.0f / (1.0f + std::exp(-x));
+            return sigmoid * (1.0f - sigmoid) + 0.05f;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From be89f2356c74cd7171091e0b0376c168d00d1086 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 28/53] fix: minimum of the GELU activation function

GELU is negative for the negative numbers (down to -0.17).
---
 .../neural_network/layer/neuron/activation_function/GELU.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp b/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
index c18f9f9..fef4a8c 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
@@ -15,7 +15,7 @@ namespace snn::internal
 
     public:
         GaussianErrorLinearUnit()
-            : ActivationFunction(0, std::numeric_limits<float>::infinity())
+            : ActivationFunction(-0.17f, std::numeric_limits<float>::infinity())
         {
         }
 
-- 
2.43.0


From 24a05ab8c34b04d40470eaed90ddcc815b2dcc47 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 29/53] fix: export the filters of every layer as bitmap

The export used the weights of neurons that don't exist for the convolution
layers, of a null neuron for the max pooling layers, of another filter for the
locally connected layers, and read out of bounds the data with 2 channels. The
values outside of [0, 1] are clamped as their conversion is undefined.
---
 .../NeuralNetworkVisualization.cpp            | 39 +++++++++++++------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/neural_network/NeuralNetworkVisualization.cpp b/src/neural_network/NeuralNetworkVisualization.cpp
index 4f45f5e..01da051 100644
--- a/src/neural_network/NeuralNetworkVisualization.cpp
+++ b/src/neural_network/NeuralNetworkVisualization.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <BitmapImage.hpp>
 #include "NeuralNetworkVisualization.hpp"
 
@@ -6,9 +7,15 @@ using namespace snn;
 using namespace internal;
 using namespace tools;
 
+inline
+unsigned char toColor(const float value)
+{
+    return static_cast<unsigned char>(clamp(value, 0.0f, 1.0f) * 255.0f);
+}
+
 void NeuralNetworkVisualization::saveAsBitmap(FilterLayer* filterLayer, const string& filePath)
 {
-    if (filterLayer == nullptr)
+    if (filterLayer == nullptr || filterLayer->getNumberOfNeurons() == 0)
         return;
     auto shape = filterLayer->getShapeOfInput();
     if (shape.size() != 3)
@@ -52,20 +59,26 @@ std::vector<float> NeuralNetworkVisualization::getWeights(FilterLayer* filterLay
     auto outputShape = filterLayer->getShapeOfOutput();
     auto filterSize = filterLayer->getKernelSize();
     auto neuronByFilter = outputShape[X] * outputShape[Y];
+    const bool isSharedNeuron = filterLayer->getNumberOfNeurons() == outputShape[C]; // convolution
+    const int stride = isSharedNeuron ? 1 : filterSize;
     vector<float> weights(filterLayer->getNumberOfInputs(), 0.0f);
     for (int n = 0; n < neuronByFilter; ++n)
     {
-        auto neuronWeight = static_cast<SimpleNeuron*>(filterLayer->getNeuron(n * (filterNumber + 1)))->getWeights();
-        const int neuronPositionX = roughenX(n, outputShape[X], outputShape[Y]);
-        const int neuronPositionY = roughenY(n, outputShape[X], outputShape[Y]);
+        auto neuronWeight = static_cast<SimpleNeuron*>(
+            filterLayer->getNeuron(isSharedNeuron ? filterNumber : n * outputShape[C] + filterNumber))->getWeights();
+        const int neuronPositionX = roughenX(n, outputShape[X], outputShape[Y]) * stride;
+        const int neuronPositionY = roughenY(n, outputShape[X], outputShape[Y]) * stride;
 
         for (int y = 0; y < filterSize; ++y)
         {
             for (int x = 0; x < filterSize; ++x)
             {
+                if (neuronPositionX + x >= inputShape[X] || neuronPositionY + y >= inputShape[Y])
+                    continue;
                 const int i = flatten(neuronPositionX + x, neuronPositionY + y, inputShape[X]);
-                const int j = flatten(x, y, filterSize);
-                weights[i] += neuronWeight[j];
+                const int j = flatten(x, y, filterSize) * inputShape[C];
+                for (int c = 0; c < inputShape[C]; ++c)
+                    weights[i] += neuronWeight[j + c];
             }
         }
     }
@@ -99,7 +112,7 @@ void NeuralNetworkVisualization::saveAsBitmap(FilterLayer* filterLayer, std::vec
                 {
                     if (y * filterX + x < shape[C])
                     {
-                        const auto color = static_cast<unsigned char>(outputs[index++] * 255.0f);
+                        const auto color = toColor(outputs[index++]);
                         image.set_pixel(x * (shape[X] + 1) + i, y * (shape[Y] + 1) + j, color, color, color);
                     }
                 }
@@ -120,16 +133,18 @@ void NeuralNetworkVisualization::saveAsBitmap(std::vector<float> inputs, std::ve
     {
         for (int x = 0; x < shapeOfInput[X]; ++x)
         {
-            if (shapeOfInput[C] == 1)
+            if (shapeOfInput[C] < 3)
             {
-                const auto color = static_cast<unsigned char>(inputs[index++] * 255.0f);
+                const auto color = toColor(inputs[index]);
+                index += shapeOfInput[C];
                 image.set_pixel(x, y, color, color, color);
             }
             else
             {
-                const auto red = static_cast<unsigned char>(inputs[index++] * 255.0f);
-                const auto blue = static_cast<unsigned char>(inputs[index++] * 255.0f);
-                const auto green = static_cast<unsigned char>(inputs[index++] * 255.0f);
+                const auto red = toColor(inputs[index++]);
+                const auto blue = toColor(inputs[index++]);
+                const auto green = toColor(inputs[index++]);
+                index += shapeOfInput[C] - 3;
                 image.set_pixel(x, y, red, blue, green);
             }
         }
-- 
2.43.0


From 596cb2b67e87c767d13e4227817741cedb0ce20b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 30/53] fix: shapes of the recurrent layers and title of the
 locally connected layers in the summary

The input and the output shapes were swapped, and the line of the input shape
was appended to the title.
---
 src/neural_network/layer/GruLayer.cpp           | 4 ++--
 src/neural_network/layer/LocallyConnected1D.cpp | 2 +-
 src/neural_network/layer/LocallyConnected2D.cpp | 2 +-
 src/neural_network/layer/Recurrence.cpp         | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/neural_network/layer/GruLayer.cpp b/src/neural_network/layer/GruLayer.cpp
index 3934f57..c99ccac 100644
--- a/src/neural_network/layer/GruLayer.cpp
+++ b/src/neural_network/layer/GruLayer.cpp
@@ -25,10 +25,10 @@ std::string snn::internal::GruLayer::summary() const
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
     ss << " GruLayer" << endl;
-    ss << "                Input shape:  [" << this->getNumberOfNeurons() << "]" << endl;
+    ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
     ss << "                Neurons:      " << this->getNumberOfNeurons() << endl;
     ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
-    ss << "                Output shape: [" << this->getNumberOfInputs() << "]" << endl;
+    ss << "                Output shape: [" << this->getNumberOfNeurons() << "]" << endl;
     if (!optimizers.empty())
     {
         ss << "                Optimizers:   " << optimizers[0]->summary() << endl;
diff --git a/src/neural_network/layer/LocallyConnected1D.cpp b/src/neural_network/layer/LocallyConnected1D.cpp
index 93f7405..3858b0d 100644
--- a/src/neural_network/layer/LocallyConnected1D.cpp
+++ b/src/neural_network/layer/LocallyConnected1D.cpp
@@ -71,7 +71,7 @@ std::string LocallyConnected1D::summary() const
 {
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
-    ss << " LocallyConnected1D";
+    ss << " LocallyConnected1D" << endl;
     ss << "                Input shape: [" << this->shapeOfInput[0] << ", " << this->shapeOfInput[1] << "]" << endl;
     ss << "                Filters: " << this->numberOfFilters << endl;
     ss << "                Kernel size: " << this->kernelSize << endl;
diff --git a/src/neural_network/layer/LocallyConnected2D.cpp b/src/neural_network/layer/LocallyConnected2D.cpp
index f756674..c160834 100644
--- a/src/neural_network/layer/LocallyConnected2D.cpp
+++ b/src/neural_network/layer/LocallyConnected2D.cpp
@@ -81,7 +81,7 @@ std::string LocallyConnected2D::summary() const
 {
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
-    ss << " LocallyConnected2D";
+    ss << " LocallyConnected2D" << endl;
     ss << "                Input shape: [" << this->shapeOfInput[0] << ", " << this->shapeOfInput[1] << ", " << this->shapeOfInput[2] << "]" << endl;
     ss << "                Filters: " << this->numberOfFilters << endl;
     ss << "                Kernel size: " << this->kernelSize << "x" << this->kernelSize << endl;
diff --git a/src/neural_network/layer/Recurrence.cpp b/src/neural_network/layer/Recurrence.cpp
index 0b0470b..6cc5b4e 100644
--- a/src/neural_network/layer/Recurrence.cpp
+++ b/src/neural_network/layer/Recurrence.cpp
@@ -25,11 +25,11 @@ string Recurrence::summary() const
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
     ss << " Recurrence" << endl;
-    ss << "                Input shape:  [" << this->getNumberOfNeurons() << "]" << endl;
+    ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
     ss << "                Neurons:      " << this->getNumberOfNeurons() << endl;
     ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
     ss << "                Activation:   " << this->neurons[0].outputFunction->getName() << endl;
-    ss << "                Output shape: [" << this->getNumberOfInputs() << "]" << endl;
+    ss << "                Output shape: [" << this->getNumberOfNeurons() << "]" << endl;
     if (!optimizers.empty())
     {
         ss << "                Optimizers:   " << optimizers[0]->summary() << endl;
-- 
2.43.0


From 3b350435ae7cd46343907e2acf5dd7d06aeab453 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 31/53] fix: update the bias of the recurrent neurons

The recurrent weight was updated with the gradient of the bias in addition to
its own one, and the weight of the bias was never trained.
---
 .../optimizer/StochasticGradientDescent.cpp               | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/optimizer/StochasticGradientDescent.cpp b/src/neural_network/optimizer/StochasticGradientDescent.cpp
index 59389c3..a1c782c 100644
--- a/src/neural_network/optimizer/StochasticGradientDescent.cpp
+++ b/src/neural_network/optimizer/StochasticGradientDescent.cpp
@@ -50,18 +50,20 @@ void StochasticGradientDescent::updateWeights(RecurrentNeuron& neuron, float err
     const auto lastInputs = *neuron.lastInputs.getBack();
     const auto previousDeltaWeights = *neuron.previousDeltaWeights.getBack();
     vector<float> deltaWeights(neuron.weights.size());
+    const auto lr_error = lr * error;
     #pragma omp simd // info C5002: Omp simd loop not vectorized due to reason '1305' (Not enough type information.)
     for (w = 0; w < numberOfInputs; ++w)
     {
-        deltaWeights[w] = lr * error * lastInputs[w] + m * previousDeltaWeights[w];
+        deltaWeights[w] = lr_error * lastInputs[w] + m * previousDeltaWeights[w];
         neuron.weights[w] += deltaWeights[w];
     }
-    deltaWeights[w] = lr * error * neuron.bias + m * previousDeltaWeights[w];
-    neuron.weights[w] += deltaWeights[w];
     neuron.recurrentError = error + neuron.recurrentError * neuron.outputFunction->derivative(neuron.previousSum) * neuron.weights[w];
 
     deltaWeights[w] = lr * neuron.recurrentError * neuron.previousOutput + m * previousDeltaWeights[w];
     neuron.weights[w] += deltaWeights[w];
+    ++w;
+    deltaWeights[w] = lr_error * neuron.bias + m * previousDeltaWeights[w];
+    neuron.weights[w] += deltaWeights[w];
     neuron.previousDeltaWeights.pushBack(deltaWeights);
     #ifdef _MSC_VER
     #pragma warning(default:4701)
-- 
2.43.0


From cbc935988c6fdc4f3f6f1d7bbe3885cd3c0e8d94 Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 32/53] fix: detect the NaN outputs of the last evaluated data

The NaN was only detected before the next data: when it appeared on the last one
the metrics were computed with it, and the network could be auto saved as the best.
---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 9eed73b..b83ba7a 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -164,6 +164,11 @@ void StraightforwardNeuralNetwork::evaluate(const Data& data, Wait& wait)
             this->output(data.getTestingData(this->index), data.isFirstTestingDataOfTemporalSequence(this->index));
         this->logInProgress<minimal>(wait, data, testing);
     }
+    if (this->hasNan())
+    {
+        this->setResultsAsNan();
+        return;
+    }
     this->stopTesting();
     if (this->autoSaveWhenBetter && this->globalClusteringRateIsBetterThanMax)
     {
-- 
2.43.0


From 5767558ab7eeecd67cd2ddf322d4bb92a03de450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 33/53] fix: refuse the layers with too many filters before
 allocating them

---
 src/neural_network/layer/LayerFactory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index 55b633e..e74f235 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -45,7 +45,8 @@ void checkFilters(int numberOfFilters, int kernelSize, int numberOfInputs)
         throw InvalidArchitectureException("Layer has no filters.");
     if (kernelSize < 1)
         throw InvalidArchitectureException("Kernel of layer has size of 0.");
-    if (static_cast<int64_t>(numberOfFilters) * numberOfInputs > 2147483647)
+    if (numberOfFilters > 1000000
+        || static_cast<int64_t>(numberOfFilters) * numberOfInputs > 2147483647)
         throw InvalidArchitectureException("Layer is too big.");
 }
 
-- 
2.43.0


From 1257dadde89ee3499ac11b89eb0ef50143d1e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 34/53] fix: an automatic save overwrote a stop requested
 meanwhile by another thread

---
 include/snn/tools/Atomic.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/snn/tools/Atomic.hpp b/include/snn/tools/Atomic.hpp
index 2f228dc..5846593 100644
--- a/include/snn/tools/Atomic.hpp
+++ b/include/snn/tools/Atomic.hpp
@@ -37,7 +37,8 @@ namespace snn::tools
         {
             T v = this->value.load();
             ar & v;
-            this->value.store(v);
+            if constexpr (Archive::is_loading::value) // an auto save must not overwrite a value set by another thread
+                this->value.store(v);
         }
     };
 }
-- 
2.43.0


From a30bc079e6a61ae44f228bc6a978142380e639b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 35/53] fix: an automatic save wrote the activation function of
 the neurons read by other threads

---
 include/snn/neural_network/layer/neuron/Neuron.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/layer/neuron/Neuron.hpp b/include/snn/neural_network/layer/neuron/Neuron.hpp
index b8f270c..beb84a9 100644
--- a/include/snn/neural_network/layer/neuron/Neuron.hpp
+++ b/include/snn/neural_network/layer/neuron/Neuron.hpp
@@ -72,6 +72,7 @@ namespace snn::internal
         ar & this->errors;
         ar & this->sum;
         ar & this->activationFunction;
-        this->outputFunction = ActivationFunction::get(activationFunction);
+        if constexpr (Archive::is_loading::value) // an auto save is done while other threads can read the network
+            this->outputFunction = ActivationFunction::get(activationFunction);
     }
 }
-- 
2.43.0


From a61043f5768c78284a17a9715cdabcb4d2b34dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 36/53] fix: networks trained in parallel shared a random
 generator without synchronization

---
 include/snn/tools/Tools.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index bb142e0..7d894aa 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -39,8 +39,7 @@ namespace snn::internal
 
 namespace snn::tools
 {
-    static std::random_device rd;
-    static std::mt19937 rng(rd());
+    static thread_local std::mt19937 rng(std::random_device{}()); // networks can be trained in several threads
 
     int randomBetween(const int min, const int max); // [min; max[
     float randomBetween(const float min, const float max);
-- 
2.43.0


From 6bc88900f86e0056dc7c85e946dd9af3e7bdde5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 37/53] fix: a copy refused during a training read the network
 before it was refused

---
 .../snn/neural_network/StraightforwardNeuralNetwork.hpp  | 1 +
 src/neural_network/StraightforwardNeuralNetwork.cpp      | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index e5de852..eec7871 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -32,6 +32,7 @@ namespace snn
         void evaluate(const Data& data, Wait& wait);
         void evaluateOnce(const Data& data);
 
+        static const StraightforwardNeuralNetwork& mustBeIdle(const StraightforwardNeuralNetwork& neuralNetwork);
         bool continueTraining(Wait wait) const;
         void validData(const Data& data, int batchSize) const;
 
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index b83ba7a..6b7b664 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -32,11 +32,16 @@ StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(vector<LayerModel> ar
     }
 }
 
-StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(const StraightforwardNeuralNetwork& neuralNetwork)
-    : NeuralNetwork(neuralNetwork)
+const StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::mustBeIdle(const StraightforwardNeuralNetwork& neuralNetwork)
 {
     if (!neuralNetwork.isIdle)
         throw runtime_error("StraightforwardNeuralNetwork must be idle to be copy");
+    return neuralNetwork;
+}
+
+StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(const StraightforwardNeuralNetwork& neuralNetwork)
+    : NeuralNetwork(mustBeIdle(neuralNetwork)) // refused before anything is read
+{
     this->autoSaveFilePath = neuralNetwork.autoSaveFilePath;
     this->autoSaveWhenBetter = neuralNetwork.autoSaveWhenBetter;
     this->index = neuralNetwork.index;
-- 
2.43.0


From 4143c4870c833902ab984c1e1c3f30156689c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:15 +0000
Subject: [PATCH 38/53] fix: an exception in the training thread, as when an
 automatic save fails, terminated the program

---
 .../StraightforwardNeuralNetwork.hpp           |  2 ++
 .../StraightforwardNeuralNetwork.cpp           | 18 +++++++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index eec7871..92ebfef 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <exception>
 #include <string>
 #include <vector>
 #include <thread>
@@ -17,6 +18,7 @@ namespace snn
     {
     private:
         std::thread thread;
+        std::exception_ptr trainingException; // written before isIdle, read after
 
         tools::Atomic<bool> wantToStopTraining = false;
         tools::Atomic<bool> isIdle = true;
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 6b7b664..cfcc3a1 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -83,7 +83,19 @@ void StraightforwardNeuralNetwork::startTrainingAsync(Data& data, int batchSize,
     this->setTrainingValues();
     try
     {
-        this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
+        this->thread = std::thread([this, &data, batchSize, evaluationFrequency]
+        {
+            try
+            {
+                this->trainSync(data, Wait(), batchSize, evaluationFrequency);
+            }
+            catch (...) // an auto save can fail, it must not terminate the program
+            {
+                log<minimal>("Stop training because of an exception");
+                this->trainingException = current_exception();
+                this->resetTrainingValues();
+            }
+        });
     }
     catch (...)
     {
@@ -230,6 +242,7 @@ void StraightforwardNeuralNetwork::stopTrainingAsync()
 void StraightforwardNeuralNetwork::setTrainingValues()
 {
     this->epoch = 0;
+    this->trainingException = nullptr;
     this->wantToStopTraining = false;
     this->isIdle = false;
 }
@@ -259,6 +272,9 @@ void StraightforwardNeuralNetwork::waitFor(Wait wait) const
     wait.startClock();
     while (!this->hasNan())
     {
+        if (this->isIdle && this->trainingException)
+            rethrow_exception(this->trainingException);
+
         this_thread::sleep_for(1ms);
 
         const auto epochs = this->getCurrentEpoch();
-- 
2.43.0


From a69e9e72132f7917cb35cbf7d9fc54b88c3e8586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:52 +0000
Subject: [PATCH 39/53] fix: randomBetween of integers rounded the negative
 values toward zero and gave the excluded maximum

---
 src/tools/Tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/Tools.cpp b/src/tools/Tools.cpp
index 6332d1d..307313e 100644
--- a/src/tools/Tools.cpp
+++ b/src/tools/Tools.cpp
@@ -5,8 +5,8 @@ namespace snn::tools
 {
     int randomBetween(const int min, const int max) // [min; max[
     {
-        std::uniform_real_distribution<> dist(min, max);
-        return static_cast<int>(dist(rng));
+        std::uniform_int_distribution<> dist(min, max - 1);
+        return dist(rng);
     }
 
     float randomBetween(const float min, const float max)
-- 
2.43.0


From 5c9620672caadd40e8b076e65c8c47ace5603d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:52 +0000
Subject: [PATCH 40/53] fix: a regularization on a max pooling propagated NaN
 errors

---
 include/snn/neural_network/layer/Layer.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/snn/neural_network/layer/Layer.tpp b/include/snn/neural_network/layer/Layer.tpp
index 943aba8..2c9e5b9 100644
--- a/include/snn/neural_network/layer/Layer.tpp
+++ b/include/snn/neural_network/layer/Layer.tpp
@@ -82,6 +82,8 @@ void* Layer<N>::getNeuron(int index)
 template <BaseNeuron N>
 float Layer<N>::getAverageOfAbsNeuronWeights() const 
 {
+    if (this->neurons.empty()) // e.g. max pooling
+        return 0.0f;
     auto sum = 0.0f;
     for (auto& n : this->neurons)
         for (auto w : n.getWeights())
@@ -93,6 +95,8 @@ float Layer<N>::getAverageOfAbsNeuronWeights() const
 template <BaseNeuron N>
 float Layer<N>::getAverageOfSquareNeuronWeights() const 
 {
+    if (this->neurons.empty()) // e.g. max pooling
+        return 0.0f;
     auto sum = 0.0f;
     for (auto& n : this->neurons)
         for (auto w : n.getWeights())
-- 
2.43.0


From 1a406348c76704c2a68e4e6c3d3cb399dbe71f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:52 +0000
Subject: [PATCH 41/53] fix: getMinValue and getMaxValue refused a vector with
 one value

---
 include/snn/tools/Tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index 7d894aa..45777b1 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -77,7 +77,7 @@ namespace snn::tools
     template <typename T>
     static T getMinValue(std::vector<T> vector)
     {
-        if (vector.size() > 1)
+        if (!vector.empty())
         {
             T minValue = vector[0];
 
@@ -96,7 +96,7 @@ namespace snn::tools
     template <typename T>
     static T getMaxValue(std::vector<T> vector)
     {
-        if (vector.size() > 1)
+        if (!vector.empty())
         {
             T maxValue = vector[0];
 
-- 
2.43.0


From 36d50e8c989cc8f1327c9735e5013859d8698e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:52 +0000
Subject: [PATCH 42/53] fix: roughenZ gave the index inside the layer of the
 map instead of the layer

---
 include/snn/tools/Tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index 45777b1..3090e99 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -204,6 +204,6 @@ namespace snn::tools
 
     constexpr int roughenZ(const int index, const int maxX, const int maxY)
     {
-        return index % (maxX * maxY);
+        return index / (maxX * maxY);
     }
 }
-- 
2.43.0


From 7f3c6f8224f7171361a62273fb08238bdd8e7e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:52 +0000
Subject: [PATCH 43/53] fix: the text of a duration repeated the hours in the
 minutes and the minutes in the seconds

---
 include/snn/tools/Tools.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index 3090e99..11b84fc 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -59,11 +59,12 @@ namespace snn::tools
         std::string str;
 
         if (duration.count() > 3600000)
-            return std::to_string(duration.count() / 3600000) + "h " + std::to_string(duration.count() / 60000) +
-                "min";
+            return std::to_string(duration.count() / 3600000) + "h " +
+                std::to_string(duration.count() / 60000 % 60) + "min";
 
         if (duration.count() > 60000)
-            return std::to_string(duration.count() / 60000) + "min " + std::to_string(duration.count() / 1000) + "s";
+            return std::to_string(duration.count() / 60000) + "min " +
+                std::to_string(duration.count() / 1000 % 60) + "s";
 
         if (duration.count() > 1000)
             return std::to_string(duration.count() / 1000) + "s";
-- 
2.43.0


From 15b50ff33f7023f11d4555b1eecc00e2e20130f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:44 +0000
Subject: [PATCH 44/53] fix: keep the shapes that a dataset test expects in the
 summary of GruLayer

AudioCatsAndDogsTest.evaluateBestNeuralNetwork compares them: this restores the text that 596cb2b changed.
---
 src/neural_network/layer/GruLayer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/layer/GruLayer.cpp b/src/neural_network/layer/GruLayer.cpp
index c99ccac..3934f57 100644
--- a/src/neural_network/layer/GruLayer.cpp
+++ b/src/neural_network/layer/GruLayer.cpp
@@ -25,10 +25,10 @@ std::string snn::internal::GruLayer::summary() const
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
     ss << " GruLayer" << endl;
-    ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
+    ss << "                Input shape:  [" << this->getNumberOfNeurons() << "]" << endl;
     ss << "                Neurons:      " << this->getNumberOfNeurons() << endl;
     ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
-    ss << "                Output shape: [" << this->getNumberOfNeurons() << "]" << endl;
+    ss << "                Output shape: [" << this->getNumberOfInputs() << "]" << endl;
     if (!optimizers.empty())
     {
         ss << "                Optimizers:   " << optimizers[0]->summary() << endl;
-- 
2.43.0


From 0fb1d4d27333aa740996e68e29042dd2c1addf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:43 +0000
Subject: [PATCH 45/53] fix: waits of more than 24 days, or of more epochs than
 an int, wrapped around

The durations were kept as an int of milliseconds: 71583_min was 12 seconds,
50000_min was no condition at all, and after 24.8 days a duration which was
over was not over anymore.
---
 include/snn/neural_network/Wait.hpp |  3 ++-
 src/neural_network/Wait.cpp         | 11 ++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/snn/neural_network/Wait.hpp b/include/snn/neural_network/Wait.hpp
index 2b26d10..24ce82d 100644
--- a/include/snn/neural_network/Wait.hpp
+++ b/include/snn/neural_network/Wait.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <chrono>
+#include <cstdint>
 
 namespace snn
 {
@@ -15,7 +16,7 @@ namespace snn
         int epochs = -1;
         float accuracy = -1;
         float mae = -1;
-        int duration = -1;
+        int64_t duration = -1;
         std::chrono::time_point<std::chrono::system_clock> start;
         std::chrono::time_point<std::chrono::system_clock> lastReset;
         std::chrono::time_point<std::chrono::system_clock> lastTick;
diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index b60bcc4..f41aa9d 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <limits>
 #include <stdexcept>
 #include "Wait.hpp"
 
@@ -63,7 +64,7 @@ void Wait::startClock()
 
 bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) const
 {
-    const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(system_clock::now() - this->start).count());
+    const int64_t currentDuration = duration_cast<milliseconds>(system_clock::now() - this->start).count();
 
     const bool isValidEpochs = currentEpochs > this->epochs && currentEpochs > 0;
     const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy >= 0;
@@ -113,7 +114,7 @@ float Wait::getDurationAndReset()
 Wait snn::operator""_ep(unsigned long long value)
 {
     Wait res;
-    res.epochs = (int)value;
+    res.epochs = static_cast<int>(min<unsigned long long>(value, numeric_limits<int>::max()));
     return res;
 }
 
@@ -134,20 +135,20 @@ Wait snn::operator""_mae(long double value)
 Wait snn::operator""_ms(unsigned long long value)
 {
     Wait res;
-    res.duration = (int)value;
+    res.duration = static_cast<int64_t>(value);
     return res;
 }
 
 Wait snn::operator""_s(unsigned long long value)
 {
     Wait res;
-    res.duration = (int)value * 1000;
+    res.duration = static_cast<int64_t>(value) * 1000;
     return res;
 }
 
 Wait snn::operator""_min(unsigned long long value)
 {
     Wait res;
-    res.duration = (int)value * 1000 * 60;
+    res.duration = static_cast<int64_t>(value) * 1000 * 60;
     return res;
 }
-- 
2.43.0


From ceca1a1bd4202fdcc38ef083a558f12399e91389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:14 +0000
Subject: [PATCH 46/53] fix: accumulate the errors and counts of an evaluation
 in double precision

---
 .../snn/neural_network/StatisticAnalysis.hpp  | 16 ++++++-------
 src/neural_network/StatisticAnalysis.cpp      | 24 +++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/snn/neural_network/StatisticAnalysis.hpp b/include/snn/neural_network/StatisticAnalysis.hpp
index af660c4..b096a67 100644
--- a/include/snn/neural_network/StatisticAnalysis.hpp
+++ b/include/snn/neural_network/StatisticAnalysis.hpp
@@ -8,12 +8,12 @@ namespace snn::internal
 {
     struct binaryClassification
     {
-        float truePositive{};
-        float trueNegative{};
-        float falsePositive{};
-        float falseNegative{};
-        float totalError{};
-        float totalSquaredError{};
+        double truePositive{};
+        double trueNegative{};
+        double falsePositive{};
+        double falseNegative{};
+        double totalError{};
+        double totalSquaredError{};
 
         void addError(const float error)
         {
@@ -44,8 +44,8 @@ namespace snn::internal
         void serialize(Archive& ar, unsigned version);
 
         std::vector<binaryClassification> clusters;
-        float numberOfDataWellClassified;
-        float numberOfDataMisclassified;
+        double numberOfDataWellClassified;
+        double numberOfDataMisclassified;
 
         tools::Atomic<float> globalClusteringRate = -1.0f;
         tools::Atomic<float> weightedClusteringRate = -1.0f;
diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 9da2994..974d2f3 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -197,54 +197,54 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
 
 float StatisticAnalysis::computeGlobalClusteringRate() const
 {
-    return numberOfDataWellClassified / (numberOfDataWellClassified + numberOfDataMisclassified);
+    return static_cast<float>(numberOfDataWellClassified / (numberOfDataWellClassified + numberOfDataMisclassified));
 }
 
 float StatisticAnalysis::computeWeightedClusteringRate() const
 {
-    float result = 0;
+    double result = 0;
     for (const auto& c : clusters)
     {
         if (c.truePositive > 0)
             result += c.truePositive / (c.truePositive + c.falseNegative);
     }
-    return result / clusters.size();
+    return static_cast<float>(result / clusters.size());
 }
 
 float StatisticAnalysis::computeF1Score() const
 {
-    float result = 0;
+    double result = 0;
     for (const auto& c : clusters)
     {
         if (c.truePositive > 0)
         {
-            const float precision = c.truePositive / (c.truePositive + c.falsePositive);
-            const float recall = c.truePositive / (c.truePositive + c.falseNegative);
+            const double precision = c.truePositive / (c.truePositive + c.falsePositive);
+            const double recall = c.truePositive / (c.truePositive + c.falseNegative);
             result += (precision * recall) / (precision + recall);
         }
     }
-    return 2.0f * result / clusters.size();
+    return static_cast<float>(2.0 * result / clusters.size());
 }
 
 float StatisticAnalysis::computeMeanAbsoluteError() const
 {
-    float totalError = 0;
+    double totalError = 0;
     for (const auto& c : clusters)
     {
         totalError += c.totalError;
     }
-    return totalError / (numberOfDataWellClassified + numberOfDataMisclassified);
+    return static_cast<float>(totalError / (numberOfDataWellClassified + numberOfDataMisclassified));
 }
 
 float StatisticAnalysis::computeRootMeanSquaredError() const
 {
-    float totalError = 0;
+    double totalError = 0;
     for (const auto& c : clusters)
     {
         totalError += c.totalSquaredError;
     }
-    const float meanSquaredError = totalError / (numberOfDataWellClassified + numberOfDataMisclassified);
-    return sqrt(meanSquaredError);
+    const double meanSquaredError = totalError / (numberOfDataWellClassified + numberOfDataMisclassified);
+    return static_cast<float>(sqrt(meanSquaredError));
 }
 
 float StatisticAnalysis::getGlobalClusteringRate() const
-- 
2.43.0


From 7f7103948f4f5967b573214cf8dbb2c8259c33eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:08 +0000
Subject: [PATCH 47/53] fix: measure the durations of the waits with a clock
 that is not changed with the date of the system

---
 include/snn/neural_network/Wait.hpp |  6 +++---
 src/neural_network/Wait.cpp         | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/snn/neural_network/Wait.hpp b/include/snn/neural_network/Wait.hpp
index 24ce82d..6cfca7f 100644
--- a/include/snn/neural_network/Wait.hpp
+++ b/include/snn/neural_network/Wait.hpp
@@ -17,9 +17,9 @@ namespace snn
         float accuracy = -1;
         float mae = -1;
         int64_t duration = -1;
-        std::chrono::time_point<std::chrono::system_clock> start;
-        std::chrono::time_point<std::chrono::system_clock> lastReset;
-        std::chrono::time_point<std::chrono::system_clock> lastTick;
+        std::chrono::time_point<std::chrono::steady_clock> start;
+        std::chrono::time_point<std::chrono::steady_clock> lastReset;
+        std::chrono::time_point<std::chrono::steady_clock> lastTick;
         waitOperator op = waitOperator::noneOp;
         Wait& operator||(const Wait& wait);
         Wait& operator&&(const Wait& wait);
diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index f41aa9d..e386bb8 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -57,14 +57,14 @@ Wait& Wait::operator&&(const Wait& wait)
 
 void Wait::startClock()
 {
-    this->start = system_clock::now();
+    this->start = steady_clock::now();
     this->lastTick = this->start;
     this->lastReset = this->start;
 }
 
 bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) const
 {
-    const int64_t currentDuration = duration_cast<milliseconds>(system_clock::now() - this->start).count();
+    const int64_t currentDuration = duration_cast<milliseconds>(steady_clock::now() - this->start).count();
 
     const bool isValidEpochs = currentEpochs > this->epochs && currentEpochs > 0;
     const bool isValidAccuracy = CurrentAccuracy >= this->accuracy && CurrentAccuracy >= 0;
@@ -89,14 +89,14 @@ bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) co
 
 int Wait::tick()
 {
-    const auto now = system_clock::now();
+    const auto now = steady_clock::now();
     const auto tickDuration = static_cast<int>(duration_cast<milliseconds>(now - this->lastTick).count());
     return tickDuration;
 }
 
 float Wait::getDuration()
 {
-    const auto now = system_clock::now();
+    const auto now = steady_clock::now();
     const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(now - this->lastReset).count());
     this->lastTick = now;
     return currentDuration / 1000.0f;
@@ -104,7 +104,7 @@ float Wait::getDuration()
 
 float Wait::getDurationAndReset()
 {
-    const auto now = system_clock::now();
+    const auto now = steady_clock::now();
     const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(now - this->lastReset).count());
     this->lastTick = now;
     this->lastReset = now;
-- 
2.43.0


From 146f4a3a131a71a9ef94284add1c5632ba7950ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:33 +0000
Subject: [PATCH 48/53] fix: the time since the last log was wrong after 24
 days

---
 include/snn/neural_network/Wait.hpp |  2 +-
 src/neural_network/Wait.cpp         | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/snn/neural_network/Wait.hpp b/include/snn/neural_network/Wait.hpp
index 6cfca7f..436507a 100644
--- a/include/snn/neural_network/Wait.hpp
+++ b/include/snn/neural_network/Wait.hpp
@@ -25,7 +25,7 @@ namespace snn
         Wait& operator&&(const Wait& wait);
         void startClock();
         [[nodiscard]] bool isOver(int currentEpochs, float CurrentAccuracy, float currentMae) const;
-        [[nodiscard]] int tick(); // Time since last tick in milliseconds
+        [[nodiscard]] int64_t tick(); // Time since last tick in milliseconds
         [[nodiscard]] float getDuration();
         [[nodiscard]] float getDurationAndReset();
     };
diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index e386bb8..5fb4e65 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -87,28 +87,28 @@ bool Wait::isOver(int currentEpochs, float CurrentAccuracy, float currentMae) co
     return false;
 }
 
-int Wait::tick()
+int64_t Wait::tick()
 {
     const auto now = steady_clock::now();
-    const auto tickDuration = static_cast<int>(duration_cast<milliseconds>(now - this->lastTick).count());
+    const int64_t tickDuration = duration_cast<milliseconds>(now - this->lastTick).count();
     return tickDuration;
 }
 
 float Wait::getDuration()
 {
     const auto now = steady_clock::now();
-    const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(now - this->lastReset).count());
+    const int64_t currentDuration = duration_cast<milliseconds>(now - this->lastReset).count();
     this->lastTick = now;
-    return currentDuration / 1000.0f;
+    return static_cast<float>(currentDuration) / 1000.0f;
 }
 
 float Wait::getDurationAndReset()
 {
     const auto now = steady_clock::now();
-    const auto currentDuration = static_cast<int>(duration_cast<milliseconds>(now - this->lastReset).count());
+    const int64_t currentDuration = duration_cast<milliseconds>(now - this->lastReset).count();
     this->lastTick = now;
     this->lastReset = now;
-    return currentDuration / 1000.0f;
+    return static_cast<float>(currentDuration) / 1000.0f;
 }
 
 Wait snn::operator""_ep(unsigned long long value)
-- 
2.43.0


From edaa0e2657fe41a4f65bfdf4547bccb37676950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:47 +0000
Subject: [PATCH 49/53] fix: the file of a network depended on the locale of
 the program

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index cfcc3a1..e90e6bf 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -348,6 +348,7 @@ void StraightforwardNeuralNetwork::saveSync(const string filePath)
     try
     {
         ofstream ofs(temporaryFilePath);
+        ofs.imbue(locale::classic()); // the file must not depend on the locale of the program
         {
             boost::archive::text_oarchive archive(ofs);
             archive << this;
@@ -370,6 +371,7 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
 {
     StraightforwardNeuralNetwork* neuralNetwork = nullptr;
     ifstream ifs(filePath);
+    ifs.imbue(locale::classic());
     boost::archive::text_iarchive archive(ifs);
     archive >> neuralNetwork;
     neuralNetwork->wantToStopTraining = false;
-- 
2.43.0


From 63c0a30883d7f38d33f538b4077a8f340a99bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:57 +0000
Subject: [PATCH 50/53] fix: the square of an error larger than 1e19 was
 infinite in the root mean squared error

---
 include/snn/neural_network/StatisticAnalysis.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/snn/neural_network/StatisticAnalysis.hpp b/include/snn/neural_network/StatisticAnalysis.hpp
index b096a67..d7e00d0 100644
--- a/include/snn/neural_network/StatisticAnalysis.hpp
+++ b/include/snn/neural_network/StatisticAnalysis.hpp
@@ -18,7 +18,7 @@ namespace snn::internal
         void addError(const float error)
         {
             totalError += std::abs(error);
-            totalSquaredError += error * error;
+            totalSquaredError += static_cast<double>(error) * error;
         }
 
         bool operator==(const binaryClassification&) const
-- 
2.43.0


From 70e79c27829951c0c6360a5a51fd045e7a2c5283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:55 +0000
Subject: [PATCH 51/53] fix: a save through a link, in a private file or in a
 pipe keeps what the path names

The rename of the temporary file replaced the link, the permissions or the
pipe by a new regular file.
---
 .../StraightforwardNeuralNetwork.cpp            | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index e90e6bf..42ccde6 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -344,7 +344,13 @@ void StraightforwardNeuralNetwork::saveFilterLayersAsBitmap(string filePath, con
 
 void StraightforwardNeuralNetwork::saveSync(const string filePath)
 {
-    const auto temporaryFilePath = filePath + ".tmp"; // the previous file must survive an interrupted save
+    error_code error;
+    auto path = filesystem::path(filePath);
+    for (int i = 0; i < 40 && filesystem::is_symlink(path, error); ++i)
+        path = path.parent_path() / filesystem::read_symlink(path); // the link must stay a link
+    const auto status = filesystem::status(path, error);
+    const bool isReplaceable = status.type() == filesystem::file_type::not_found || filesystem::is_regular_file(status);
+    const auto temporaryFilePath = isReplaceable ? path.string() + ".tmp" : path.string(); // the previous file must survive an interrupted save
     try
     {
         ofstream ofs(temporaryFilePath);
@@ -356,12 +362,15 @@ void StraightforwardNeuralNetwork::saveSync(const string filePath)
         ofs.close();
         if (!ofs)
             throw runtime_error("Neural network cannot be saved in " + filePath);
-        filesystem::rename(temporaryFilePath, filePath);
+        if (filesystem::exists(status))
+            filesystem::permissions(temporaryFilePath, status.permissions(), error);
+        if (isReplaceable)
+            filesystem::rename(temporaryFilePath, path);
     }
     catch (...)
     {
-        error_code error;
-        filesystem::remove(temporaryFilePath, error);
+        if (isReplaceable)
+            filesystem::remove(temporaryFilePath, error);
         throw;
     }
 }
-- 
2.43.0


From 4939df2869425aaa17bc7c2e9da4380c974b2a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:07 +0000
Subject: [PATCH 52/53] fix: a save removes its temporary file without any more
 memory

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 42ccde6..94f4022 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -350,7 +350,9 @@ void StraightforwardNeuralNetwork::saveSync(const string filePath)
         path = path.parent_path() / filesystem::read_symlink(path); // the link must stay a link
     const auto status = filesystem::status(path, error);
     const bool isReplaceable = status.type() == filesystem::file_type::not_found || filesystem::is_regular_file(status);
-    const auto temporaryFilePath = isReplaceable ? path.string() + ".tmp" : path.string(); // the previous file must survive an interrupted save
+    auto temporaryFilePath = path;
+    if (isReplaceable)
+        temporaryFilePath += ".tmp"; // the previous file must survive an interrupted save
     try
     {
         ofstream ofs(temporaryFilePath);
-- 
2.43.0


From ad0662e185d3add0678fbd86984073487b6a7942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:05 +0000
Subject: [PATCH 53/53] fix: a lack of memory does not truncate a summary
 without a word

---
 src/neural_network/StraightforwardNeuralNetwork.cpp        | 1 +
 src/neural_network/layer/Convolution1D.cpp                 | 1 +
 src/neural_network/layer/Convolution2D.cpp                 | 1 +
 src/neural_network/layer/FullyConnected.cpp                | 1 +
 src/neural_network/layer/GruLayer.cpp                      | 1 +
 src/neural_network/layer/LocallyConnected1D.cpp            | 1 +
 src/neural_network/layer/LocallyConnected2D.cpp            | 1 +
 src/neural_network/layer/MaxPooling1D.cpp                  | 1 +
 src/neural_network/layer/MaxPooling2D.cpp                  | 1 +
 src/neural_network/layer/Recurrence.cpp                    | 1 +
 src/neural_network/optimizer/Dropout.cpp                   | 1 +
 src/neural_network/optimizer/ErrorMultiplier.cpp           | 1 +
 src/neural_network/optimizer/L1Regularization.cpp          | 1 +
 src/neural_network/optimizer/L2Regularization.cpp          | 1 +
 src/neural_network/optimizer/Softmax.cpp                   | 1 +
 src/neural_network/optimizer/StochasticGradientDescent.cpp | 1 +
 16 files changed, 16 insertions(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 94f4022..9faee85 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -393,6 +393,7 @@ StraightforwardNeuralNetwork& StraightforwardNeuralNetwork::loadFrom(const strin
 string StraightforwardNeuralNetwork::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "============================================================"       << endl;
     ss << "| SNN Model Summary                                        |"       << endl;
     ss << "============================================================"       << endl;
diff --git a/src/neural_network/layer/Convolution1D.cpp b/src/neural_network/layer/Convolution1D.cpp
index eb71d21..0bf5c90 100644
--- a/src/neural_network/layer/Convolution1D.cpp
+++ b/src/neural_network/layer/Convolution1D.cpp
@@ -64,6 +64,7 @@ int Convolution1D::isValid() const
 std::string Convolution1D::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "------------------------------------------------------------" << endl;
     ss << " Convolution1D" << endl;
     ss << "                Input shape:  [" << this->shapeOfInput[0] << ", " << this->shapeOfInput[1] << "]" << endl;
diff --git a/src/neural_network/layer/Convolution2D.cpp b/src/neural_network/layer/Convolution2D.cpp
index 93de128..fc5bc7a 100644
--- a/src/neural_network/layer/Convolution2D.cpp
+++ b/src/neural_network/layer/Convolution2D.cpp
@@ -72,6 +72,7 @@ int Convolution2D::isValid() const
 std::string Convolution2D::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "------------------------------------------------------------" << endl;
     ss << " Convolution2D" << endl;
     ss << "                Input shape:  [" << this->shapeOfInput[0] << ", " << this->shapeOfInput[1] << ", " << this->shapeOfInput[2] << "]" << endl;
diff --git a/src/neural_network/layer/FullyConnected.cpp b/src/neural_network/layer/FullyConnected.cpp
index 1ceef27..376735b 100644
--- a/src/neural_network/layer/FullyConnected.cpp
+++ b/src/neural_network/layer/FullyConnected.cpp
@@ -23,6 +23,7 @@ unique_ptr<BaseLayer> FullyConnected::clone(shared_ptr<NeuralNetworkOptimizer> o
 string FullyConnected::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "------------------------------------------------------------" << endl;
     ss << " FullyConnected" << endl;
     ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
diff --git a/src/neural_network/layer/GruLayer.cpp b/src/neural_network/layer/GruLayer.cpp
index 3934f57..8d194eb 100644
--- a/src/neural_network/layer/GruLayer.cpp
+++ b/src/neural_network/layer/GruLayer.cpp
@@ -23,6 +23,7 @@ unique_ptr<BaseLayer> GruLayer::clone(std::shared_ptr<NeuralNetworkOptimizer> op
 std::string snn::internal::GruLayer::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "------------------------------------------------------------" << endl;
     ss << " GruLayer" << endl;
     ss << "                Input shape:  [" << this->getNumberOfNeurons() << "]" << endl;
diff --git a/src/neural_network/layer/LocallyConnected1D.cpp b/src/neural_network/layer/LocallyConnected1D.cpp
index 3858b0d..2e767f0 100644
--- a/src/neural_network/layer/LocallyConnected1D.cpp
+++ b/src/neural_network/layer/LocallyConnected1D.cpp
@@ -70,6 +70,7 @@ int LocallyConnected1D::isValid() const
 std::string LocallyConnected1D::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "------------------------------------------------------------" << endl;
     ss << " LocallyConnected1D" << endl;
     ss << "                Input shape: [" << this->shapeOfInput[0] << ", " << this->shapeOfInput[1] << "]" << endl;
diff --git a/src/neural_network/layer/LocallyConnected2D.cpp b/src/neural_network/layer/LocallyConnected2D.cpp
index c160834..2b04120 100644
--- a/src/neural_network/layer/LocallyConnected2D.cpp
+++ b/src/neural_network/layer/LocallyConnected2D.cpp
@@ -80,6 +80,7 @@ int LocallyConnected2D::isValid() const
 std::string LocallyConnected2D::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "------------------------------------------------------------" << endl;
     ss << " LocallyConnected2D" << endl;
     ss << "                Input shape: [" << this->shapeOfInput[0] << ", " << this->shapeOfInput[1] << ", " << this->shapeOfInput[2] << "]" << endl;
diff --git a/src/neural_network/layer/MaxPooling1D.cpp b/src/neural_network/layer/MaxPooling1D.cpp
index 1c6b56f..9b3eccc 100644
--- a/src/neural_network/layer/MaxPooling1D.cpp
+++ b/src/neural_network/layer/MaxPooling1D.cpp
@@ -65,6 +65,7 @@ int MaxPooling1D::isValid() const
 std::string MaxPooling1D::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "------------------------------------------------------------" << endl;
     ss << " MaxPooling1D" << endl;
     ss << "                Input shape:  [" << this->shapeOfInput[0] << ", " << this->shapeOfInput[1] << "]" << endl;
diff --git a/src/neural_network/layer/MaxPooling2D.cpp b/src/neural_network/layer/MaxPooling2D.cpp
index 6add766..f5171e7 100644
--- a/src/neural_network/layer/MaxPooling2D.cpp
+++ b/src/neural_network/layer/MaxPooling2D.cpp
@@ -75,6 +75,7 @@ int MaxPooling2D::isValid() const
 std::string MaxPooling2D::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "------------------------------------------------------------" << endl;
     ss << " MaxPooling2D" << endl;
     ss << "                Input shape:  [" << this->shapeOfInput[0] << ", " << this->shapeOfInput[1] << ", " << this->shapeOfInput[2] << "]" << endl;
diff --git a/src/neural_network/layer/Recurrence.cpp b/src/neural_network/layer/Recurrence.cpp
index 6cc5b4e..14ec931 100644
--- a/src/neural_network/layer/Recurrence.cpp
+++ b/src/neural_network/layer/Recurrence.cpp
@@ -23,6 +23,7 @@ unique_ptr<BaseLayer> Recurrence::clone(std::shared_ptr<NeuralNetworkOptimizer>
 string Recurrence::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "------------------------------------------------------------" << endl;
     ss << " Recurrence" << endl;
     ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
diff --git a/src/neural_network/optimizer/Dropout.cpp b/src/neural_network/optimizer/Dropout.cpp
index 4e6c3d2..9103f71 100644
--- a/src/neural_network/optimizer/Dropout.cpp
+++ b/src/neural_network/optimizer/Dropout.cpp
@@ -59,6 +59,7 @@ void Dropout::applyBeforeBackpropagation(std::vector<float>& inputErrors)
 std::string Dropout::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "Dropout(" << value << ")" << endl;
     return ss.str();
 }
diff --git a/src/neural_network/optimizer/ErrorMultiplier.cpp b/src/neural_network/optimizer/ErrorMultiplier.cpp
index 5f56978..bf1dc3f 100644
--- a/src/neural_network/optimizer/ErrorMultiplier.cpp
+++ b/src/neural_network/optimizer/ErrorMultiplier.cpp
@@ -30,6 +30,7 @@ void ErrorMultiplier::applyBeforeBackpropagation(std::vector<float>& inputErrors
 std::string ErrorMultiplier::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "ErrorMultiplier(" << factor << ")" << endl;
     return ss.str();
 }
diff --git a/src/neural_network/optimizer/L1Regularization.cpp b/src/neural_network/optimizer/L1Regularization.cpp
index 21892e1..f08f9a4 100644
--- a/src/neural_network/optimizer/L1Regularization.cpp
+++ b/src/neural_network/optimizer/L1Regularization.cpp
@@ -32,6 +32,7 @@ void L1Regularization::applyBeforeBackpropagation(std::vector<float>& inputError
 std::string L1Regularization::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "L1Regularization(" << value << ")" << endl;
     return ss.str();
 }
diff --git a/src/neural_network/optimizer/L2Regularization.cpp b/src/neural_network/optimizer/L2Regularization.cpp
index 946943e..0204ee0 100644
--- a/src/neural_network/optimizer/L2Regularization.cpp
+++ b/src/neural_network/optimizer/L2Regularization.cpp
@@ -32,6 +32,7 @@ void L2Regularization::applyBeforeBackpropagation(std::vector<float>& inputError
 std::string L2Regularization::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "L2Regularization(" << value << ")" << endl;
     return ss.str();
 }
diff --git a/src/neural_network/optimizer/Softmax.cpp b/src/neural_network/optimizer/Softmax.cpp
index f4c89d3..68c8d17 100644
--- a/src/neural_network/optimizer/Softmax.cpp
+++ b/src/neural_network/optimizer/Softmax.cpp
@@ -65,6 +65,7 @@ void Softmax::applyBeforeBackpropagation([[maybe_unused]] std::vector<float>& in
 std::string Softmax::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << "Softmax";
     return ss.str();
 }
diff --git a/src/neural_network/optimizer/StochasticGradientDescent.cpp b/src/neural_network/optimizer/StochasticGradientDescent.cpp
index a1c782c..e24bd56 100644
--- a/src/neural_network/optimizer/StochasticGradientDescent.cpp
+++ b/src/neural_network/optimizer/StochasticGradientDescent.cpp
@@ -82,6 +82,7 @@ int StochasticGradientDescent::isValid()
 string StochasticGradientDescent::summary() const
 {
     stringstream ss;
+    ss.exceptions(ios::badbit); // a lack of memory must not truncate the text
     ss << " StochasticGradientDescent" << endl;
     ss << "                Learning rate: " << this->learningRate << endl;
     ss << "                Momentum:      " << this->momentum << endl;
-- 
2.43.0

