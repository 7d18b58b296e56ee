// C15: the outputs of a recurrent network over a history of data are the ones of the recurrence, restarted by the first data
// of each sequence.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "grammar.hpp"
using namespace grammar;

static const std::vector<std::vector<LayerSpec>>& architectures()
{
    const auto T = activation::tanh, S = activation::sigmoid, I = activation::identity;
    static const std::vector<std::vector<LayerSpec>> r = {
        {{RNN, 1, 1, T}}, {{RNN, 2, 1, S}}, {{RNN, 2, 1, I}}, {{GRU, 1}}, {{GRU, 2}},
        {{RNN, 2, 1, T}, {FC, 2, 1, I}}, {{FC, 2, 1, T}, {RNN, 1, 1, T}}, {{RNN, 2, 1, T}, {RNN, 2, 1, T}}, {{GRU, 2}, {FC, 1, 1, I}},
        {{GRU, 1}, {RNN, 2, 1, T}}, {{FC, 3, 1, S}, {GRU, 2}}, {{FC, 2, 1, S}},
        {{RNN, 2, 1, activation::ReLU}}, {{RNN, 1, 1, activation::gaussian}, {GRU, 1}, {FC, 1, 1, S}}};
    return r;
}

enum Operation { ComputeFirst, Compute, TrainFirst, Train, ClusterNext, Copy };

static void history(int length, const std::vector<Operation>& operations, int inputs)
{
    ArchSpec a;
    a.input = {2};
    a.lr = 1e-6f;
    a.layers = mc::pick(architectures());
    const bool gru = std::any_of(a.layers.begin(), a.layers.end(), [](const auto& l) { return l.kind == GRU; });
    const bool rnn = std::any_of(a.layers.begin(), a.layers.end(), [](const auto& l) { return l.kind == RNN; });
    auto net = make(a);
    setWeights(*net, 5, 0.9f);
    ref::Net correct(a), leak(a);
    leak.defects = ref::TEMPORAL_LEAK;
    correct.readWeights(*net);
    leak.readWeights(*net);
    mc::note("%s:", describe(a).c_str());
    bool isCorrect = true, isLeak = true;
    std::string trace;
    for (int i = 0; i < length; ++i)
    {
        const auto op = mc::pick(operations);
        if (op == Copy)
        {
            net = std::make_unique<Net>(*net); // the history is part of the copy
            mc::note(" copy");
            continue;
        }
        const int input = mc::choose(inputs);
        const V x = input == 0 ? V{0.8f, -0.5f} : input == 1 ? V{-0.3f, 1.0f} : V{0.0f, 0.0f};
        const bool reset = op == ComputeFirst || op == TrainFirst;
        const V y(correct.outputs(), 0.25f);
        mc::note(" %s(%d,%s)", op == ComputeFirst || op == Compute ? "compute" : op == ClusterNext ? "cluster" : "train", input, reset ? "first" : "next");
        mc::step();
        const auto c = correct.forward(x, reset), l = leak.forward(x, reset);
        if (op == TrainFirst || op == Train)
        {
            net->trainOnce(x, y, reset);
            correct.readWeights(*net);
            leak.readWeights(*net);
            continue;
        }
        if (op == ClusterNext)
        {
            (void)net->computeCluster(x, reset);
            continue;
        }
        const V out = net->computeOutput(x, reset);
        mc::checked();
        if (ref::maxDifference(c, out) > 2e-5)
            isCorrect = false;
        if (ref::maxDifference(l, out) > 2e-5)
            isLeak = false;
        if (!isCorrect && !isLeak)
            mc::fail("temporal output", mc::format("%s: step %d: output %s, reference %s", describe(a).c_str(), i, text(out).c_str(), text(c).c_str()));
        mc::state(mc::mix(mc::hash(out), hash(a)));
        mc::outcome(mc::hash(out));
    }
    if (!isCorrect)
        mc::finding(rnn && gru ? "temporal state of recurrent and gated units is not reset" : gru ? "temporal state of gated units" : "temporal state of recurrent units is not reset",
                    std::string(mc::g.sh->note));
}

MC_SCENARIO(outputs) { history(mc::thorough() ? 5 : 4, {ComputeFirst, Compute}, mc::thorough() ? 3 : 2); }
MC_SCENARIO(outputs_and_trainings) { history(mc::thorough() ? 4 : 3, {ComputeFirst, Compute, TrainFirst, Train, ClusterNext, Copy}, 2); }
static void sequence(const ArchSpec& a, int length, float scale, float inputScale = 1)
{
    auto net = make(a);
    setWeights(*net, 6, scale);
    ref::Net correct(a), leak(a);
    leak.defects = ref::TEMPORAL_LEAK;
    correct.readWeights(*net);
    leak.readWeights(*net);
    mc::note("%s: %d data of %g", describe(a).c_str(), length, inputScale);
    bool isCorrect = true, isLeak = true;
    for (int i = 0; i < length; ++i)
    {
        const V x = values(9 + i, a.input[0], inputScale);
        const auto c = correct.forward(x, i == 0), l = leak.forward(x, i == 0);
        const V out = net->computeOutput(x, i == 0);
        mc::step();
        mc::checked();
        double largest = 1;
        for (const double v : c)
            largest = std::max(largest, std::fabs(v));
        isCorrect = isCorrect && ref::maxDifference(c, out) <= 5e-5 * largest;
        isLeak = isLeak && ref::maxDifference(l, out) <= 5e-5 * largest;
        if (!isCorrect && !isLeak)
            mc::fail("temporal output", mc::format("%s: data %d: output %s, reference %s", describe(a).c_str(), i, text(out).c_str(), text(c).c_str()));
        mc::state(mc::mix(mc::hash(out), hash(a)));
    }
    if (!isCorrect)
        mc::finding("temporal state of gated units", std::string(mc::g.sh->note));
}

MC_SCENARIO(long_sequences) // one sequence of each length in a new network: no reset is needed
{
    const int length = mc::flag() ? 1 + mc::choose(mc::thorough() ? 60 : 30) : mc::pick(largeSizes());
    ArchSpec a;
    a.input = {2};
    a.layers = mc::pick(architectures());
    sequence(a, length, 0.9f);
}

MC_SCENARIO(large_sizes) // many inputs or neurons
{
    ArchSpec a;
    const int n = mc::pick(largeSizes());
    LayerSpec l{mc::pick(std::vector<Kind>{RNN, GRU}), 2, 1, activation::tanh};
    if (mc::flag())
    {
        a.input = {n};
        a.layers = {l};
    }
    else
    {
        l.n = n;
        a.input = {2};
        a.layers = {l, {FC, 2, 1, activation::identity}};
    }
    sequence(a, 5, 1.5f / std::sqrt((float)n));
}

MC_SCENARIO(magnitudes) // small and large data
{
    ArchSpec a;
    LayerSpec l{mc::pick(std::vector<Kind>{RNN, GRU}), 1 + mc::choose(3), 1, activation::tanh};
    if (l.kind == RNN)
        l.act = mc::pick(std::vector<activation>{activation::tanh, activation::identity, activation::ReLU, activation::sigmoid, activation::GELU});
    a.input = {2};
    a.layers = {l};
    if (mc::flag())
        a.layers.push_back({RNN, 2, 1, l.act});
    sequence(a, mc::thorough() ? 8 : 5, mc::pick(V{0.01f, 0.5f, 0.9f}), mc::pick(V{1e-4f, 0.1f, 3.0f, 30.0f, 1000.0f, 1e6f}));
}
