// Operations of the public interface of a network, with deterministic arguments.
#pragma once
#include "grammar.hpp"

namespace ops
{
    using namespace grammar;
    using snn::problem;

    enum Op { TRAIN_ONCE, TRAIN_ONCE_NO_RESET, OUTPUT, OUTPUT_NO_RESET, CLUSTER, TRAIN, EVALUATE, WEIGHTS, RATE, AUTOSAVE, BETWEEN, NOPS };

    inline const char* name(int op)
    {
        static const char* names[] = {"trainOnce", "trainOnce(no reset)", "computeOutput", "computeOutput(no reset)", "computeCluster", "train", "evaluate",
                                      "setWeights", "learning rate", "auto save", "trainings between evaluations"};
        return names[op];
    }

    inline snn::internal::StochasticGradientDescent* sgd(const Net& n)
    {
        return dynamic_cast<snn::internal::StochasticGradientDescent*>(n.optimizer.get());
    }

    inline std::unique_ptr<Data> data(const Net& n, int seed, int items = 3)
    {
        VV X, Y;
        const int inputs = n.getNumberOfInputs(), outputs = n.getNumberOfOutputs();
        for (int i = 0; i < items; ++i)
        {
            X.push_back(values(seed * 7 + i, inputs));
            V y(outputs, 0.0f);
            y[(i + seed) % outputs] = 1.0f;
            Y.push_back(y);
        }
        return std::make_unique<Data>(outputs > 1 ? problem::classification : problem::multipleClassification, X, Y, X, Y);
    }

    // Returns the observable result.
    inline V apply(Net& n, int op, int seed)
    {
        V r;
        const V x = values(seed + 100, n.getNumberOfInputs());
        switch (op)
        {
        case TRAIN_ONCE:
        case TRAIN_ONCE_NO_RESET:
            {
                V y = values(seed + 50, n.getNumberOfOutputs());
                n.trainOnce(x, y, op == TRAIN_ONCE);
                break;
            }
        case OUTPUT: r = n.computeOutput(x, true); break;
        case OUTPUT_NO_RESET: r = n.computeOutput(x, false); break;
        case CLUSTER: r = {static_cast<float>(n.computeCluster(x, true))}; break;
        case TRAIN:
            {
                auto d = data(n, seed);
                n.train(*d, snn::operator""_ep(1ull), 1, 1);
                break;
            }
        case EVALUATE:
            {
                auto d = data(n, seed);
                n.evaluate(*d);
                break;
            }
        case WEIGHTS: setWeights(n, 900 + seed, 0.6f); break;
        case RATE:
            sgd(n)->learningRate = 0.001f * (1 + seed % 50);
            sgd(n)->momentum = 0.01f * (1 + seed % 50);
            break;
        case AUTOSAVE: n.autoSaveFilePath = "path " + std::to_string(seed); break;
        case BETWEEN: n.setNumberOfTrainingsBetweenTwoEvaluations(1 + seed); break;
        }
        return r;
    }

    // Optimizers on the layers which accept them, as a function of a rotation.
    inline void decorate(ArchSpec& a, int rotation)
    {
        int i = rotation;
        for (size_t l = 0; l < a.layers.size(); ++l, ++i)
        {
            auto& s = a.layers[l];
            const bool last = l + 1 == a.layers.size();
            switch (i % 6)
            {
            case 0: break;
            case 1: s.optimizers = {snn::Dropout(0.4f)}; break;
            case 2: s.optimizers = {snn::L1Regularization(0.02f)}; break;
            case 3: s.optimizers = {snn::L2Regularization(0.03f), snn::ErrorMultiplier(1.5f)}; break;
            case 4: s.optimizers = {snn::ErrorMultiplier(0.5f)}; break;
            case 5:
                if (last)
                    s.optimizers = {snn::Softmax()};
                else
                    s.optimizers = {snn::Dropout(0.7f), snn::L1Regularization(0.01f)};
            }
        }
    }
}
