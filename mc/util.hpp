// Helpers of the harnesses: alphabets of architectures, deterministic weights, observation of a network.
#pragma once
#include <memory>
#include <random>
#include "neural_network/StraightforwardNeuralNetwork.hpp"
#include "data/Data.hpp"
#include "tools/ExtendedExpection.hpp"
#include "mc.hpp"

namespace u
{
    using snn::activation;
    using snn::Data;
    using snn::LayerModel;
    using snn::LayerOptimizerModel;
    using snn::StraightforwardNeuralNetwork;
    using Net = StraightforwardNeuralNetwork;
    using snn::internal::RecurrentNeuron;
    using snn::internal::SimpleNeuron;
    using V = std::vector<float>;
    using VV = std::vector<std::vector<float>>;
    using VVV = std::vector<VV>;

    enum Kind { FC, RNN, GRU, CONV, LC, POOL };
    inline const char* kindName(Kind k)
    {
        static const char* names[] = {"FullyConnected", "Recurrence", "GruLayer", "Convolution", "LocallyConnected", "MaxPooling"};
        return names[k];
    }
    inline const char* actName(activation a)
    {
        static const char* names[] = {"sigmoid", "iSigmoid", "tanh", "ReLU", "GELU", "gaussian", "identity"};
        return names[static_cast<int>(a)];
    }
    const std::vector<activation> allActivations = {activation::sigmoid, activation::iSigmoid, activation::tanh, activation::ReLU,
                                                    activation::GELU, activation::gaussian, activation::identity};

    struct LayerSpec
    {
        Kind kind;
        int n = 1; // neurons or filters
        int k = 1; // kernel size
        activation act = activation::sigmoid;
        std::vector<LayerOptimizerModel> optimizers{};
    };

    struct ArchSpec
    {
        std::vector<int> input;
        std::vector<LayerSpec> layers;
        float lr = 0.03f, momentum = 0.0f;
    };

    inline LayerModel inputModel(const std::vector<int>& shape)
    {
        auto m = snn::Input();
        m.shapeOfInput = shape;
        return m;
    }

    inline LayerModel layerModel(const LayerSpec& s)
    {
        LayerModel m = s.kind == FC ? snn::FullyConnected(s.n, s.act)
            : s.kind == RNN ? snn::Recurrence(s.n, s.act)
            : s.kind == GRU ? snn::GruLayer(s.n)
            : s.kind == CONV ? snn::Convolution(s.n, s.k, s.act)
            : s.kind == LC ? snn::LocallyConnected(s.n, s.k, s.act)
            : snn::MaxPooling(s.k);
        m.optimizers = s.optimizers;
        return m;
    }

    inline std::vector<LayerModel> models(const ArchSpec& a)
    {
        std::vector<LayerModel> r{inputModel(a.input)};
        for (const auto& l : a.layers)
            r.push_back(layerModel(l));
        return r;
    }

    inline std::unique_ptr<Net> make(const ArchSpec& a)
    {
        return std::make_unique<Net>(models(a), snn::StochasticGradientDescent(a.lr, a.momentum));
    }

    inline std::string describe(const ArchSpec& a)
    {
        std::string r = "Input(";
        for (size_t i = 0; i < a.input.size(); ++i)
            r += (i ? "," : "") + std::to_string(a.input[i]);
        r += ")";
        for (const auto& l : a.layers)
        {
            r += std::string(" ") + kindName(l.kind) + "(";
            if (l.kind == POOL)
                r += std::to_string(l.k);
            else
            {
                r += std::to_string(l.n);
                if (l.kind == CONV || l.kind == LC)
                    r += "," + std::to_string(l.k);
                if (l.kind != GRU)
                    r += std::string(",") + actName(l.act);
            }
            for (const auto& o : l.optimizers)
            {
                static const char* names[] = {"dropout", "l1", "l2", "errorMultiplier", "softmax"};
                r += mc::format(",%s %g", (int)o.type >= 0 && (int)o.type < 5 ? names[(int)o.type] : "?", o.value);
            }
            r += ")";
        }
        return r;
    }

    inline snn::internal::BaseLayer& layer(const Net& net, int l) { return *net.layers[l]; }

    inline Kind kindOf(const Net& net, int l)
    {
        using namespace snn::internal;
        auto* p = net.layers[l].get();
        if (dynamic_cast<FullyConnected*>(p)) return FC;
        if (dynamic_cast<Recurrence*>(p)) return RNN;
        if (dynamic_cast<GruLayer*>(p)) return GRU;
        if (dynamic_cast<Convolution1D*>(p) || dynamic_cast<Convolution2D*>(p)) return CONV;
        if (dynamic_cast<LocallyConnected1D*>(p) || dynamic_cast<LocallyConnected2D*>(p)) return LC;
        return POOL;
    }

    inline V neuronWeights(const Net& net, int l, int n)
    {
        void* p = net.layers[l]->getNeuron(n);
        switch (kindOf(net, l))
        {
        case RNN: return static_cast<RecurrentNeuron*>(p)->getWeights();
        case GRU: return static_cast<snn::internal::GatedRecurrentUnit*>(p)->getWeights();
        case POOL: return {};
        default: return static_cast<SimpleNeuron*>(p)->getWeights();
        }
    }

    inline VVV weights(const Net& net) // [layer][neuron][weight]
    {
        VVV r;
        for (int l = 0; l < net.getNumberOfLayers(); ++l)
        {
            r.emplace_back();
            if (kindOf(net, l) == POOL)
                continue;
            for (int n = 0; n < net.layers[l]->getNumberOfNeurons(); ++n)
                r.back().push_back(neuronWeights(net, l, n));
        }
        return r;
    }

    inline void setNeuronWeights(Net& net, int l, int n, const V& w)
    {
        void* p = net.layers[l]->getNeuron(n);
        switch (kindOf(net, l))
        {
        case RNN: static_cast<RecurrentNeuron*>(p)->setWeights(w); break;
        case GRU: case POOL: break; // cannot be set
        default: static_cast<SimpleNeuron*>(p)->setWeights(w);
        }
    }

    inline uint64_t hashWeights(const Net& net)
    {
        uint64_t h = 3;
        for (const auto& l : weights(net))
            for (const auto& n : l)
                h = mc::hash(n, h);
        return h;
    }

    // Deterministic values without symmetry in [-1, 1].
    inline float value(uint64_t seed, uint64_t i)
    {
        uint64_t h = mc::mix(mc::mix(seed * 7919 + 17, i * 104729 + 3), 12345);
        h = mc::mix(h, i);
        return static_cast<float>(static_cast<int>(h % 2001) - 1000) / 1000.0f;
    }

    inline V values(uint64_t seed, size_t n, float scale = 1.0f)
    {
        V r(n);
        for (size_t i = 0; i < n; ++i)
            r[i] = scale * value(seed, i);
        return r;
    }

    // Weights which do not depend on the random generator (except for GRU layers, which have no setter).
    inline void setWeights(Net& net, uint64_t seed, float scale = 0.7f)
    {
        uint64_t i = 0;
        for (int l = 0; l < net.getNumberOfLayers(); ++l)
        {
            if (kindOf(net, l) == POOL || kindOf(net, l) == GRU)
                continue;
            for (int n = 0; n < net.layers[l]->getNumberOfNeurons(); ++n)
            {
                V w = neuronWeights(net, l, n);
                for (auto& v : w)
                {
                    v = scale * value(seed, i++);
                    if (std::fabs(v) < std::min(0.02f, scale / 10))
                        v = std::min(0.05f, scale / 5);
                }
                setNeuronWeights(net, l, n, w);
            }
        }
    }

    inline bool same(const V& a, const V& b) // bit for bit
    {
        return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(float)) == 0);
    }

    inline bool same(const VVV& a, const VVV& b)
    {
        if (a.size() != b.size())
            return false;
        for (size_t l = 0; l < a.size(); ++l)
        {
            if (a[l].size() != b[l].size())
                return false;
            for (size_t n = 0; n < a[l].size(); ++n)
                if (!same(a[l][n], b[l][n]))
                    return false;
        }
        return true;
    }

    inline bool near(double a, double b, double absolute, double relative)
    {
        return std::isfinite(a) && std::isfinite(b) ? std::fabs(a - b) <= absolute + relative * std::max(std::fabs(a), std::fabs(b)) : a == b;
    }

    inline std::string text(const V& v)
    {
        std::string r = "[";
        for (size_t i = 0; i < v.size() && i < 24; ++i)
            r += mc::format(i ? ", %.9g" : "%.9g", v[i]);
        return r + (v.size() > 24 ? ", ...]" : "]");
    }

    inline std::string text(const std::vector<double>& v)
    {
        std::string r = "[";
        for (size_t i = 0; i < v.size() && i < 24; ++i)
            r += mc::format(i ? ", %.9g" : "%.9g", v[i]);
        return r + (v.size() > 24 ? ", ...]" : "]");
    }

    inline std::string text(const std::vector<int>& v)
    {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); ++i)
            r += (i ? ", " : "") + std::to_string(v[i]);
        return r + "]";
    }

    // Sizes around the ones where an implementation may change its way: vectors, blocks, bytes.
    inline const std::vector<int>& largeSizes()
    {
        static const std::vector<int> quick = {15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 129, 255, 256, 257, 300, 513, 1023, 1025};
        static const std::vector<int> deep = {15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2047, 2049, 4097};
        return mc::thorough() ? deep : quick;
    }

    // Everything a user can observe without changing the network.
    struct Observation
    {
        std::vector<double> metrics;
        std::vector<long> numbers;
        std::string summary, path;
        bool autoSave = false, nan = false, training = false;
        VVV weights;

        bool operator==(const Observation& o) const
        {
            return memcmp(metrics.data(), o.metrics.data(), metrics.size() * sizeof(double)) == 0 && numbers == o.numbers
                && summary == o.summary && path == o.path && autoSave == o.autoSave && nan == o.nan && training == o.training
                && same(weights, o.weights);
        }
    };

    inline Observation observe(const Net& n)
    {
        Observation o;
        o.metrics = {n.getGlobalClusteringRate(), n.getWeightedClusteringRate(), n.getF1Score(), n.getMeanAbsoluteError(),
                     n.getRootMeanSquaredError(), n.getGlobalClusteringRateMax(), n.getWeightedClusteringRateMax(), n.getF1ScoreMax(),
                     n.getMeanAbsoluteErrorMin(), n.getRootMeanSquaredErrorMin()};
        o.numbers = {n.getCurrentEpoch(), n.getCurrentIndex(), n.getNumberOfTrainingsBetweenTwoEvaluations(), (long)n.getNumberOfTraining(),
                     n.getNumberOfLayers(), n.getNumberOfInputs(), n.getNumberOfOutputs(), n.getNumberOfNeurons(), n.getNumberOfParameters(),
                     n.isValid()};
        o.summary = n.summary();
        o.path = n.autoSaveFilePath;
        o.autoSave = n.autoSaveWhenBetter;
        o.nan = n.hasNan();
        o.training = n.isTraining();
        o.weights = weights(n);
        return o;
    }

    inline std::string difference(const Observation& a, const Observation& b)
    {
        std::string r;
        for (size_t i = 0; i < a.metrics.size(); ++i)
            if (memcmp(&a.metrics[i], &b.metrics[i], sizeof(double)) != 0)
                r += mc::format(" metric %zu: %.9g/%.9g", i, a.metrics[i], b.metrics[i]);
        for (size_t i = 0; i < a.numbers.size(); ++i)
            if (a.numbers[i] != b.numbers[i])
                r += mc::format(" number %zu: %ld/%ld", i, a.numbers[i], b.numbers[i]);
        if (a.summary != b.summary) r += " summary:\n" + a.summary + "/\n" + b.summary;
        if (a.path != b.path) r += " path";
        if (a.autoSave != b.autoSave) r += " autoSave";
        if (a.nan != b.nan) r += " nan";
        if (a.training != b.training) r += " training";
        if (!same(a.weights, b.weights)) r += " weights";
        return r;
    }

    inline std::string readFile(const std::string& path)
    {
        std::ifstream f(path, std::ios::binary);
        return {std::istreambuf_iterator<char>(f), {}};
    }

    inline void writeFile(const std::string& path, const std::string& content)
    {
        std::ofstream f(path, std::ios::binary);
        f << content;
    }

    template <class E = std::exception, class F>
    bool throws(F&& f, std::string* what = nullptr)
    {
        try { f(); }
        catch (const E& e)
        {
            if (what)
                *what = e.what();
            return true;
        }
        return false;
    }

    inline std::unique_ptr<Net> load(const std::string& path)
    {
        return std::unique_ptr<Net>(&Net::loadFrom(path));
    }
}

// ---- determinism of the random device: the generators of the library are seeded from it
namespace rng
{
    inline int alternatives = 0; // > 0: the values of the generators are choices of the explorer
    inline int budget = 0; // number of values which are choices, the next ones follow a fixed sequence
    inline uint64_t counter = 0;
    inline std::vector<int> scripted; // values of the next draws, out of scriptedAlternatives
    inline int scriptedAlternatives = 1;
    inline std::vector<uint32_t> raw; // values of the next draws
    inline uint32_t fixed() // a fixed sequence
    {
        uint64_t h = mc::mix(mc::mix(0x5eed, counter++), 77);
        return static_cast<uint32_t>(h >> 16);
    }
    inline uint32_t next()
    {
        if (!raw.empty())
        {
            const uint32_t r = raw.front();
            raw.erase(raw.begin());
            return r;
        }
        if (!scripted.empty())
        {
            const int c = scripted.front();
            scripted.erase(scripted.begin());
            return static_cast<uint32_t>((2.0 * c + 1.0) / (2.0 * scriptedAlternatives) * 4294967296.0);
        }
        if (alternatives > 0 && budget != 0)
        {
            if (budget > 0)
                --budget;
            // the middle of one of the equal intervals of [0; 2^32[
            const int c = mc::choose(alternatives);
            return static_cast<uint32_t>((2.0 * c + 1.0) / (2.0 * alternatives) * 4294967296.0);
        }
        return fixed();
    }
}

#ifdef MC_CONTROL_RNG // every std::mt19937 of the process (flavors det and san)
template <>
std::mt19937::result_type std::mt19937::operator()()
{
    return rng::next();
}
#endif

#ifdef MC_MAIN
unsigned int std::random_device::_M_getval()
{
    static unsigned int seed = getenv("VERIF_SEED") ? static_cast<unsigned>(atoi(getenv("VERIF_SEED"))) : 1;
    return seed;
}
int main(int argc, char** argv) { return mc::main(argc, argv); }
#endif
