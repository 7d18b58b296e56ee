// C17: a training step is a step of gradient descent with momentum on the squared error, for every layer of the network.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "grammar.hpp"
using namespace grammar;

// Difference between the changes of the weights of the network and of the model, relative to the changes of each layer.
static bool agrees(const VVV& before, const VVV& after, const std::vector<ref::DD>& expected, const std::vector<ref::DD>& sequential, double& largest, std::string& where)
{
    largest = 0;
    for (size_t l = 0; l < before.size(); ++l)
    {
        double change = 0, noise = 0;
        for (size_t n = 0; n < before[l].size(); ++n)
            for (size_t w = 0; w < before[l][n].size(); ++w)
            {
                change = std::max(change, std::fabs(expected[l][n][w] - before[l][n][w]));
                noise = std::max(noise, (double)std::fabs(before[l][n][w]));
            }
        largest = std::max(largest, change);
        for (size_t n = 0; n < before[l].size(); ++n)
            for (size_t w = 0; w < before[l][n].size(); ++w)
            {
                const double e = expected[l][n][w] - before[l][n][w], a = (double)after[l][n][w] - before[l][n][w];
                const double tolerance = 0.02 * std::fabs(e) + 0.005 * change + 4e-7 * (1 + noise) + 1.5 * std::fabs(expected[l][n][w] - sequential[l][n][w]);
                if (!(std::fabs(e - a) <= tolerance))
                {
                    where = mc::format("layer %zu neuron %zu weight %zu: change %.9g, gradient descent %.9g", l, n, w, a, e);
                    return false;
                }
            }
    }
    return true;
}

static std::vector<ref::DD> weightsOf(const ref::Net& m)
{
    std::vector<ref::DD> r;
    for (const auto& l : m.layers)
        r.push_back(l.w);
    return r;
}

// The gradient of the model is itself compared with finite differences of its error.
static void checkModel(const ArchSpec& a, const u::Net& net, const V& x, const V& y)
{
    for (const auto& l : a.layers)
        for (const auto& o : l.optimizers)
            if (o.type != snn::layerOptimizerType::dropout)
                return;
    ref::Net m(a);
    m.readWeights(net);
    m.lr = 1;
    m.momentum = 0;
    const auto before = weightsOf(m);
    m.forward(x, true, true);
    m.train(y);
    const auto after = weightsOf(m);
    const double h = 1e-6;
    for (size_t l = 0; l < before.size(); ++l)
        for (size_t n = 0; n < before[l].size(); ++n)
            for (size_t w = 0; w < before[l][n].size(); ++w)
            {
                const auto error = [&](double d)
                {
                    ref::Net p(a);
                    for (size_t i = 0; i < before.size(); ++i)
                        p.layers[i].w = before[i];
                    p.layers[l].w[n][w] += d;
                    return p.error(x, y);
                };
                double gradient = -(error(h) - error(-h)) / (2 * h);
                if (a.layers[l].kind == CONV)
                    gradient /= m.layers[l].positions(); // the learning rate is shared between the positions
                const double e = after[l][n][w] - before[l][n][w];
                if (std::fabs(e - gradient) > 1e-4 * (1 + std::fabs(gradient)))
                    mc::fail("harness", mc::format("%s: gradient of the model %g, finite difference %g", describe(a).c_str(), e, gradient));
                mc::checked();
            }
}

// The sequences of a recurrent network: bit s tells that the step s starts one.
static void check(ArchSpec a, int steps, float momentum, bool differences, uint64_t seed = 1, uint64_t starts = ~0ull, float scale = 0.7f,
                  float inputScale = 1, float labelScale = 1, float lr = 2e-3f)
{
    a.lr = lr;
    a.momentum = momentum;
    auto net = make(a);
    setWeights(*net, seed, scale);
    // the correct model, then the ones of the known defects; the state of the sequences is the subject of C15
    std::vector<ref::Net> models;
    std::vector<int> defects = {ref::CORRECT};
    if (temporal(a))
        defects.push_back(ref::TEMPORAL_LEAK);
    for (size_t i = 0, n = defects.size(); i < n; ++i)
        defects.push_back(defects[i] | ref::LC1D_ERRORS);
    if (std::any_of(a.layers.begin(), a.layers.end(), [](const auto& l) { return l.kind == GRU; }))
        for (size_t i = 0, n = defects.size(); i < n; ++i)
            defects.push_back(defects[i] | ref::GRU_GATES);
    for (int d : defects)
    {
        models.emplace_back(a);
        models.back().defects = d;
        models.back().readWeights(*net);
    }
    std::vector<bool> agree(models.size(), true);
    mc::note("%s learning rate %g momentum %g, %d steps, sequences %llx, inputs of %g, labels of %g", describe(a).c_str(), lr, momentum, steps, (unsigned long long)starts, inputScale, labelScale);
    bool significant = false;
    std::string where;
    for (int s = 0; s < steps; ++s)
    {
        const V x = values(20 + 3 * s + seed, models[0].inputs(), inputScale), y = values(50 + s, models[0].outputs(), labelScale);
        const bool reset = starts >> (s % 64) & 1;
        if (differences && s == 0)
            checkModel(a, *net, x, y);
        const auto before = u::weights(*net);
        // The filters of a convolution may be updated at once or position by position, this second order effect is tolerated.
        std::vector<std::vector<ref::DD>> sequential;
        for (auto& m : models)
        {
            m.forward(x, reset, true);
            auto other = m;
            other.sequential = true;
            other.train(y);
            sequential.push_back(weightsOf(other));
            m.train(y);
        }
        net->trainOnce(x, y, reset);
        const auto after = u::weights(*net);
        mc::step();
        mc::checked();
        bool any = false;
        for (size_t i = 0; i < models.size(); ++i)
        {
            double largest;
            std::string w;
            if (agree[i] && !agrees(before, after, weightsOf(models[i]), sequential[i], largest, w))
            {
                agree[i] = false;
                if (i == 0 || where.empty())
                    where = w;
            }
            significant |= largest > 1e-5;
            any |= agree[i];
            // the next step starts from the weights of the network, only the momentum is kept
            models[i].readWeights(*net);
        }
        if (!any)
            mc::fail("gradient", mc::format("%s step %d: %s", describe(a).c_str(), s, where.c_str()));
    }
    // the known defects which are needed to explain the history, except for the state of the sequences
    int needed = ref::LC1D_ERRORS | ref::GRU_GATES;
    for (size_t i = 0; i < models.size(); ++i)
        if (const int d = defects[i] & ~ref::TEMPORAL_LEAK; agree[i] && (d & needed) == d)
            needed = d;
    if (needed & ref::LC1D_ERRORS)
        mc::finding("errors propagated by locally connected layers on 1D inputs", std::string(mc::g.sh->note) + ": " + where);
    if (needed & ref::GRU_GATES)
        mc::finding("errors of the gates of gated units", std::string(mc::g.sh->note) + ": " + where);
    if (significant)
        mc::state(mc::mix(hash(a), hashWeights(*net)));
    mc::outcome(hashWeights(*net));
}

static Bounds bounds()
{
    Bounds b;
    b.inputs = {{1}, {3}, {1, 4}, {2, 3}, {1, 3, 2}, {2, 2, 3}, {2, 3, 3}, {4, 2}, {5, 2, 1}};
    b.layers = layers({1, 3}, {1, 2}, {1, 2, 3});
    return b;
}

MC_SCENARIO(one_layer)
{
    auto a = grammar::choose(bounds(), 1);
    for (auto& l : a.layers)
        if (l.kind != POOL && l.kind != GRU)
            l.act = mc::pick(allActivations);
    check(a, 3, mc::pick(std::vector<float>{0.0f, 0.5f, 0.9f}), true, 1 + mc::choose(2));
}

MC_SCENARIO(two_layers)
{
    auto a = grammar::choose(bounds(), 2);
    mixActivations(a, mc::choose(7));
    check(a, 2, mc::pick(std::vector<float>{0.0f, 0.6f}), true);
}

MC_SCENARIO_SPLIT(three_layers, 3)
{
    auto b = bounds();
    if (!mc::thorough())
        b.inputs = {{3}, {1, 4}, {2, 3, 3}};
    auto a = grammar::choose(b, 3);
    mixActivations(a, mc::thorough() ? mc::choose(7) : 0);
    check(a, 2, 0.5f, mc::thorough(), 3);
}

MC_SCENARIO(error_multipliers)
{
    auto b = bounds();
    b.inputs = {{3}, {2, 3}, {2, 3, 3}};
    b.layers = {{FC, 2}, {RNN, 2}, {GRU, 1}, {CONV, 2, 2}, {LC, 1, 2}};
    auto a = grammar::choose(b, 2);
    mixActivations(a);
    for (auto& l : a.layers)
    {
        const float factor = mc::pick(std::vector<float>{1.0f, 0.5f, 3.0f, -1.0f});
        if (factor != 1.0f)
            l.optimizers = {snn::ErrorMultiplier(factor)};
    }
    check(a, 2, 0.5f, false);
}

MC_SCENARIO(shapes) // one filter layer on larger inputs, then a dense layer
{
    ArchSpec a;
    const bool map = mc::flag();
    const int c = mc::pick(std::vector<int>{1, 2, 5}), x = 1 + mc::choose(5), y = map ? 1 + mc::choose(5) : 0;
    a.input = map ? std::vector<int>{c, x, y} : std::vector<int>{c, x};
    LayerSpec l;
    l.kind = mc::pick(std::vector<Kind>{CONV, LC, POOL});
    l.n = l.kind == POOL ? 1 : 1 + mc::choose(2);
    l.k = 1 + mc::choose(map ? std::min(x, y) : x);
    l.act = activation::tanh;
    const LayerSpec dense{FC, 2, 1, activation::tanh}, first{CONV, 2, 1, activation::sigmoid};
    a.layers = mc::flag() ? std::vector<LayerSpec>{first, l, dense} : std::vector<LayerSpec>{l, dense};
    check(a, 2, 0.5f, false);
}

MC_SCENARIO(long_trainings) // the momentum over many steps
{
    ArchSpec a;
    a.input = {2, 3};
    a.layers = {mc::pick(std::vector<LayerSpec>{{FC, 2, 1, activation::tanh}, {CONV, 2, 2, activation::tanh}, {LC, 2, 2, activation::tanh}}), {FC, 2, 1, activation::sigmoid}};
    check(a, 1 + mc::choose(40), mc::pick(std::vector<float>{0.0f, 0.3f, 0.9f, 1.0f}), false);
}

MC_SCENARIO_SPLIT(sequences, 3) // recurrent layers, every division of the trainings in sequences
{
    ArchSpec a;
    a.input = {1 + mc::choose(3)};
    const LayerSpec dense{FC, 2, 1, activation::tanh};
    LayerSpec r{mc::flag() ? GRU : RNN, 1 + mc::choose(2)};
    if (r.kind == RNN)
        r.act = mc::pick(allActivations);
    switch (mc::choose(5))
    {
    case 0: a.layers = {r}; break;
    case 1: a.layers = {dense, r}; break;
    case 2: a.layers = {r, dense}; break;
    case 3: a.layers = {r, {RNN, 2, 1, activation::sigmoid}}; break;
    case 4: a.layers = {{GRU, 2}, r}; break;
    }
    const int steps = mc::thorough() ? 6 : 4;
    const uint64_t starts = 1 | 2 * mc::choose(1 << (steps - 1));
    check(a, steps, mc::pick(std::vector<float>{0.0f, 0.5f, 0.9f, 1.0f}), false, 1 + mc::choose(2), starts);
}

MC_SCENARIO(large_sizes) // many inputs, neurons, filters, channels or positions
{
    const int n = mc::pick(largeSizes());
    ArchSpec a;
    const auto T = activation::tanh;
    const LayerSpec dense{FC, 2, 1, T};
    const auto filters = [] { return mc::pick(std::vector<Kind>{CONV, LC}); };
    const auto simple = [] { return mc::pick(std::vector<Kind>{FC, RNN, GRU}); };
    switch (mc::choose(7))
    {
    case 0: a.input = {n}, a.layers = {{simple(), 2, 1, T}}; break; // inputs
    case 1: a.input = {2}, a.layers = {{simple(), n, 1, T}, dense}; break; // neurons
    case 2: a.input = {3}, a.layers = {{FC, n, 1, T}, {simple(), 2, 1, T}}; break; // errors of many inputs
    case 3: a.input = {1, n}, a.layers = {{filters(), 2, 3, T}, dense}; break; // positions
    case 4: a.input = {n, 3}, a.layers = {{filters(), 1, 2, T}, dense}; break; // channels
    case 5: a.input = {1, 1, 3}, a.layers = {{filters(), n, 1, T}, {POOL, 1, 1}, {filters(), 1, 1, T}}; break; // filters
    default: a.input = {1, 2, n}, a.layers = {{CONV, 1, 1, T}, {mc::pick(std::vector<Kind>{CONV, LC, POOL}), 1, 2, T}, dense}; break;
    }
    check(a, 2, mc::pick(std::vector<float>{0.0f, 0.5f}), false, 1, ~0ull, 1.5f / std::sqrt((float)n));
}

MC_SCENARIO_SPLIT(magnitudes, 2) // small and large inputs, labels, learning rates and momentums
{
    const float lr = mc::pick(V{1e-5f, 0.05f, 0.4f, 0.7f, 0.99f}), label = mc::pick(V{0.01f, 1.0f, 30.0f, 1000.0f, 1e5f});
    ArchSpec a;
    const auto act = mc::pick(std::vector<activation>{activation::identity, activation::ReLU, activation::tanh, activation::GELU});
    // the derivatives of the functions with asymptotes are not accurate far from zero
    const float input = act == activation::tanh ? mc::pick(V{0.01f, 1.0f}) : mc::pick(V{0.01f, 1.0f, 50.0f, 3000.0f});
    const int shape = mc::choose(act == activation::tanh ? 7 : 6);
    const LayerSpec dense{FC, 2, 1, act};
    switch (shape)
    {
    case 0: a.input = {3}, a.layers = {dense}; break;
    case 1: a.input = {3}, a.layers = {{FC, 3, 1, act}, dense}; break;
    case 2: a.input = {3}, a.layers = {{RNN, 2, 1, act}}; break;
    case 3: a.input = {1, 4}, a.layers = {{CONV, 2, 2, act}, dense}; break;
    case 4: a.input = {2, 3, 3}, a.layers = {{LC, 2, 2, act}, dense}; break;
    case 5: a.input = {1, 4, 4}, a.layers = {{CONV, 1, 2, act}, {POOL, 1, 2}, dense}; break;
    default: a.input = {2}, a.layers = {{GRU, 2}}; break;
    }
    // the second step stays far from overflows
    const int steps = lr < 1 && label <= 30 && input <= 1 ? 2 : 1;
    check(a, steps, steps == 1 ? 0.0f : mc::pick(V{0.0f, 0.99f, 1.0f}), false, 1 + mc::choose(2), ~0ull, 0.7f, input, label, lr);
}
