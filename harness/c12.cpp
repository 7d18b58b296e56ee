// C12: the output of every network of a bounded grammar is the one of the reference model.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "grammar.hpp"
using namespace grammar;

static void compare(const ArchSpec& a, uint64_t seed, float scale)
{
    auto net = make(a);
    setWeights(*net, seed, scale);
    ref::Net model(a);
    model.readWeights(*net);
    mc::note("%s weights %d", describe(a).c_str(), (int)seed);
    const int calls = temporal(a) ? 1 : 3; // the history of the temporal layers is the subject of another property
    for (int c = 0; c < calls; ++c)
    {
        const V x = values(seed * 31 + c, model.inputs(), c == 1 ? 3.0f : 1.0f);
        const V out = net->computeOutput(x, true);
        const auto expected = model.forward(x);
        mc::step();
        double tolerance = 0;
        for (const double v : expected)
            tolerance = std::max(tolerance, std::fabs(v));
        tolerance = 2e-5 * (1 + tolerance);
        MC_CHECK(out.size() == expected.size(), "size", "%zu outputs instead of %zu: %s", out.size(), expected.size(), describe(a).c_str());
        MC_CHECK(ref::maxDifference(expected, out) <= tolerance, "output", "%s input %s: output %s, reference %s", describe(a).c_str(),
                 text(x).c_str(), text(out).c_str(), text(expected).c_str());
        mc::outcome(mc::hash(out));
        mc::state(mc::mix(hash(a), mc::hash(out)));
    }
}

static Bounds small()
{
    Bounds b;
    b.inputs = {{1}, {3}, {4}, {1, 4}, {2, 3}, {3, 2}, {2, 5}, {1, 2, 2}, {1, 3, 2}, {2, 2, 3}, {3, 3, 3}, {1, 4, 3}, {2, 3, 5}};
    b.layers = layers({1, 2, 3}, {1, 2, 3}, {1, 2, 3});
    return b;
}

MC_SCENARIO(one_layer) // every activation, weights and scales
{
    auto a = grammar::choose(small(), 1);
    for (auto& l : a.layers)
        if (l.kind != GRU && l.kind != POOL)
            l.act = mc::pick(allActivations);
    const int seed = 1 + mc::choose(3);
    compare(a, seed, mc::pick(std::vector<float>{0.7f, 3.0f}));
}

MC_SCENARIO(two_layers)
{
    auto a = grammar::choose(small(), 2);
    mixActivations(a, mc::choose(7));
    compare(a, 1, 0.7f);
}

MC_SCENARIO_SPLIT(three_layers, 3)
{
    auto b = small();
    if (!mc::thorough())
        b.inputs = {{3}, {4}, {2, 3}, {1, 4}, {2, 2, 3}, {1, 4, 3}, {3, 3, 3}};
    auto a = grammar::choose(b, 3);
    mixActivations(a);
    compare(a, 2, 0.7f);
}

MC_SCENARIO(larger_shapes) // one layer on larger non-square inputs, all kernel sizes
{
    ArchSpec a;
    const bool map = mc::flag();
    const int c = 1 + mc::choose(mc::thorough() ? 4 : 3), x = 1 + mc::choose(mc::thorough() ? 9 : 7), y = map ? 1 + mc::choose(mc::thorough() ? 9 : 7) : 0;
    a.input = map ? std::vector<int>{c, x, y} : std::vector<int>{c, x};
    LayerSpec l;
    l.kind = mc::pick(std::vector<Kind>{CONV, LC, POOL});
    l.n = l.kind == POOL ? 1 : 1 + mc::choose(3);
    l.k = 1 + mc::choose(map ? std::min(x, y) : x);
    l.act = activation::identity;
    a.layers = {l};
    compare(a, 3, 0.7f);
}

MC_SCENARIO(channels) // every number of channels, alone and between two layers
{
    ArchSpec a;
    const bool map = mc::flag();
    const int c = 1 + mc::choose(mc::thorough() ? 18 : 10);
    a.input = map ? std::vector<int>{c, 1 + mc::choose(3), 1 + mc::choose(3)} : std::vector<int>{c, 1 + mc::choose(5)};
    LayerSpec l;
    l.kind = mc::pick(std::vector<Kind>{CONV, LC, POOL});
    l.n = l.kind == POOL ? 1 : mc::pick(std::vector<int>{1, 2, 5, 8});
    l.k = 1 + mc::choose(map ? std::min(a.input[1], a.input[2]) : a.input[1]);
    l.act = activation::identity;
    a.layers = {l};
    if (mc::flag()) // the filters of a layer are the channels of the next one
    {
        LayerSpec first{CONV, c, 1, activation::tanh};
        a.input[0] = 2;
        a.layers = {first, l, LayerSpec{POOL, 1, 1}, LayerSpec{FC, 2, 1, activation::tanh}};
    }
    compare(a, 6, 0.7f);
}

MC_SCENARIO(dense_sizes) // every number of inputs and neurons
{
    ArchSpec a;
    a.input = {1 + mc::choose(mc::thorough() ? 70 : 36)};
    LayerSpec l;
    l.kind = mc::pick(std::vector<Kind>{FC, RNN, GRU});
    l.n = 1 + mc::choose(mc::thorough() ? 20 : 9);
    l.act = activation::identity;
    a.layers = {l};
    compare(a, 4, 0.5f);
}

MC_SCENARIO(large_sizes) // many inputs, neurons, filters, channels or positions
{
    const int n = mc::pick(largeSizes());
    ArchSpec a;
    const auto I = activation::identity, T = activation::tanh;
    const float scale = 1.5f / std::sqrt((float)n);
    switch (mc::choose(9))
    {
    case 0: a.input = {n}, a.layers = {{mc::pick(std::vector<Kind>{FC, RNN, GRU}), 2, 1, I}}; break; // inputs
    case 1: a.input = {2}, a.layers = {{mc::pick(std::vector<Kind>{FC, RNN, GRU}), n, 1, I}}; break; // neurons
    case 2: a.input = {3}, a.layers = {{FC, n, 1, T}, {mc::pick(std::vector<Kind>{FC, RNN, GRU}), 3, 1, I}}; break; // between two layers
    case 3: a.input = {1, n}, a.layers = {{mc::pick(std::vector<Kind>{CONV, LC}), 2, std::min(n, mc::pick(std::vector<int>{2, 3, 16})), I}}; break; // positions
    case 4: a.input = {2, n}, a.layers = {{mc::pick(std::vector<Kind>{CONV, LC}), 1, mc::pick(std::vector<int>{n / 2, n - 1, n}), I}}; break; // kernels
    case 5: a.input = {n, 3}, a.layers = {{mc::pick(std::vector<Kind>{CONV, LC}), 2, 2, I}}; break; // channels
    case 6: a.input = {1, 3}, a.layers = {{mc::pick(std::vector<Kind>{CONV, LC}), n, 2, T}, {POOL, 1, mc::flag() ? 2 : 1}}; break; // filters
    case 7:
        a.input = mc::flag() ? std::vector<int>{1, n, 3} : std::vector<int>{2, 3, n};
        a.layers = {{mc::pick(std::vector<Kind>{CONV, LC, POOL}), 1, mc::pick(std::vector<int>{2, 3}), I}};
        break;
    default: a.input = {2, n}, a.layers = {{POOL, 1, std::min(n, mc::pick(std::vector<int>{2, 16, n / 2 + 1}))}, {FC, 2, 1, I}}; break;
    }
    compare(a, 7, scale);
}

MC_SCENARIO_THOROUGH(four_layers)
{
    auto b = small();
    b.inputs = {{4}, {2, 3}, {2, 2, 3}, {1, 4, 3}};
    b.layers = layers({2}, {1, 2}, {1, 2});
    auto a = grammar::choose(b, 4);
    mixActivations(a);
    compare(a, 5, 0.7f);
}
