// C19: softmax gives probabilities; dropout and error multiplier change exactly what their parameter says.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "grammar.hpp"
using namespace grammar;

// A layer whose outputs before the optimizers are its inputs.
static std::unique_ptr<Net> transparent(Kind kind, int n, std::vector<LayerOptimizerModel> optimizers)
{
    ArchSpec a;
    a.input = kind == FC ? std::vector<int>{n} : std::vector<int>{1, n};
    a.layers = {{kind, kind == FC ? n : 1, 1, activation::identity, std::move(optimizers)}};
    auto net = make(a);
    for (int i = 0; i < net->layers[0]->getNumberOfNeurons(); ++i)
    {
        V w = neuronWeights(*net, 0, i);
        std::fill(w.begin(), w.end(), 0.0f);
        w[kind == FC ? i : 0] = 1.0f;
        setNeuronWeights(*net, 0, i, w);
    }
    return net;
}

static void probabilities(const V& in, const V& out, const std::string& what)
{
    std::vector<double> e(in.size());
    const double max = *std::ranges::max_element(in);
    double sum = 0, total = 0;
    for (size_t i = 0; i < in.size(); ++i)
        sum += e[i] = std::exp(in[i] - max);
    MC_CHECK(out.size() == in.size(), "softmax", "%s: %zu outputs", what.c_str(), out.size());
    for (size_t i = 0; i < in.size(); ++i)
    {
        total += out[i];
        MC_CHECK(out[i] >= 0 && out[i] <= 1 && near(out[i], e[i] / sum, 1e-6, 1e-5), "softmax", "%s of %s: %s, output %zu should be %.9g", what.c_str(), u::text(in).c_str(), u::text(out).c_str(), i, e[i] / sum);
        for (size_t j = 0; j < in.size(); ++j)
            MC_CHECK(in[i] < in[j] ? out[i] <= out[j] : in[i] > in[j] || out[i] == out[j], "softmax order", "%s of %s: %s", what.c_str(), u::text(in).c_str(), u::text(out).c_str());
    }
    MC_CHECK(std::fabs(total - 1) < 1e-5, "softmax sum", "%s of %s: %s, sum %.9g", what.c_str(), u::text(in).c_str(), u::text(out).c_str(), total);
}

MC_SCENARIO_SPLIT(softmax, 3)
{
    static const V values = {-1e30f, -200.0f, -50.0f, -1.0f, 0.0f, 1.0f, 1.5f, 50.0f, 89.0f, 200.0f, 1e30f, 3e38f};
    const Kind kind = mc::pick(std::vector<Kind>{FC, CONV, LC});
    const int n = 1 + mc::choose(mc::thorough() ? 5 : 4);
    V in(n);
    for (auto& v : in)
        v = mc::pick(values);
    if (n > 1 && in[0] < -1e38f)
        return;
    auto net = transparent(kind, n, {snn::Softmax()});
    const V out = net->computeOutput(in, true);
    mc::note("%s softmax of %s: %s", kindName(kind), u::text(in).c_str(), u::text(out).c_str());
    probabilities(in, out, kindName(kind));
    MC_CHECK(!net->hasNan(), "softmax", "a NaN is reported");
    probabilities(in, net->layers[0]->outputForTraining(in, true), "training");
    mc::step(2);
    mc::outcome(mc::hash(out));
    mc::state(mc::mix(mc::hash(out), mc::hash(in)));
}

MC_SCENARIO(softmax_sizes)
{
    const int n = 1 + mc::choose(mc::thorough() ? 300 : 100);
    const V in = u::values(mc::choose(3), n, mc::pick(V{1.0f, 30.0f, 0.01f}));
    auto net = transparent(FC, n, {snn::Softmax()});
    probabilities(in, net->computeOutput(in, true), "size");
    mc::step();
    mc::state(mc::hash(in));
}

static std::vector<LayerSpec> dropped()
{
    return {{FC, 1, 1}, {FC, 2, 1}, {FC, 3, 1}, {RNN, 2, 1}, {CONV, 1, 2}, {CONV, 2, 2}, {CONV, 1, 1}, {LC, 1, 1}, {LC, 2, 2}};
}

static ArchSpec archOf(const LayerSpec& l)
{
    ArchSpec a;
    a.input = {1, 3};
    a.layers = {l};
    return a;
}

MC_SCENARIO(dropout_inference) // the outputs are scaled by the probability of presence
{
    LayerSpec l = mc::pick(dropped());
    l.act = mc::pick(allActivations);
    const float p = mc::pick(V{0.0f, 0.1f, 0.25f, 0.5f, 0.9f});
    auto plain = make(archOf(l));
    l.optimizers = {snn::Dropout(p)};
    const auto a = archOf(l);
    auto net = make(a);
    setWeights(*plain, 3);
    setWeights(*net, 3);
    const auto counter = rng::counter;
    for (int i = 0; i < 3; ++i)
    {
        const V x = u::values(10 + i, 3);
        const V e = plain->computeOutput(x, true), o = net->computeOutput(x, true);
        mc::step(2);
        MC_CHECK(e.size() == o.size(), "dropout", "%s", describe(a).c_str());
        for (size_t k = 0; k < e.size(); ++k)
            MC_CHECK(near(o[k], (1.0 - p) * e[k], 1e-6, 1e-6), "dropout inference", "%s: output %s, without dropout %s", describe(a).c_str(), u::text(o).c_str(), u::text(e).c_str());
        mc::outcome(mc::hash(o));
        mc::state(mc::hash(o));
    }
    MC_CHECK(rng::counter == counter, "dropout inference", "the inference is random");
}

// Every value of the random generator, out of 4 equiprobable ones: each output is dropped with its probability, and independently of the others.
MC_SCENARIO_SPLIT(dropout_training, 2)
{
    LayerSpec l = mc::pick(dropped());
    if (l.kind == RNN) // its outputs depend on the previous ones: the subject of another property
        return;
    l.act = activation::sigmoid;
    const int quarter = mc::choose(5);
    const float p = 0.25f * quarter;
    if (quarter == 4)
        return;
    auto plain = make(archOf(l));
    l.optimizers = {snn::Dropout(p)};
    const auto a = archOf(l);
    auto net = make(a);
    setWeights(*plain, 3);
    setWeights(*net, 3);
    const V x = u::values(10, 3), y = u::values(11, 3);
    const V e = plain->layers[0]->outputForTraining(x, true);
    const V f = plain->computeOutput(y, true);
    const int n = (int)e.size();
    (void)plain->layers[0]->outputForTraining(x, true);
    if (n > (mc::thorough() ? 5 : 4))
        return;
    mc::note("%s", describe(a).c_str());
    std::map<std::vector<bool>, int> masks;
    const auto start = rng::counter;
    (void)net->layers[0]->outputForTraining(x, true);
    const int draws = (int)(rng::counter - start), combinations = 1 << (2 * draws);
    const bool pairs = draws == 2 * n; // numbers in double precision
    MC_CHECK(pairs || draws == n, "dropout draws", "%s: %d values of the generator for %d outputs", describe(a).c_str(), draws, n);
    rng::scriptedAlternatives = 4;
    for (int c = 0; c < combinations; ++c)
    {
        // only the last draw of each number has a weight in it: the others take 2 values
        bool skip = false;
        rng::scripted.clear();
        for (int d = 0; d < draws; ++d)
        {
            const int v = c >> (2 * d) & 3;
            skip |= pairs && d % 2 == 0 && v % 3 != 0;
            rng::scripted.push_back(v);
        }
        if (skip)
            continue;
        const V o = net->layers[0]->outputForTraining(x, true);
        MC_CHECK(rng::scripted.empty(), "dropout draws", "%s: %zu values of the generator are not used", describe(a).c_str(), rng::scripted.size());
        std::vector<bool> mask(n);
        for (int k = 0; k < n; ++k)
        {
            mask[k] = o[k] == 0.0f;
            MC_CHECK(mask[k] || o[k] == e[k], "dropout training", "%s: output %s, without dropout %s", describe(a).c_str(), u::text(o).c_str(), u::text(e).c_str());
        }
        masks[mask]++;
        mc::step();
        if (c % 64 == 0) // the mask is kept until the next sequence
        {
            const auto counter = rng::counter;
            const V q = net->layers[0]->outputForTraining(y, false);
            const V all = plain->layers[0]->outputForTraining(y, false);
            for (int k = 0; k < n; ++k)
                MC_CHECK(q[k] == (mask[k] ? 0.0f : all[k]), "dropout sequence", "%s: the mask changes inside a sequence", describe(a).c_str());
            MC_CHECK(rng::counter == counter, "dropout sequence", "%s: the mask is drawn again inside a sequence", describe(a).c_str());
        }
    }
    rng::scripted.clear();
    double sum = 0;
    for (const auto& [mask, count] : masks)
        sum += count;
    for (int m = 0; m < 1 << n; ++m)
    {
        std::vector<bool> mask(n);
        double probability = 1;
        for (int k = 0; k < n; ++k)
        {
            mask[k] = m >> k & 1;
            probability *= mask[k] ? p : 1 - p;
        }
        const auto i = masks.find(mask);
        const double frequency = i == masks.end() ? 0 : i->second / sum;
        MC_CHECK(std::fabs(frequency - probability) < 1e-9, "dropout probability", "%s: mask %d of the outputs has probability %g instead of %g", describe(a).c_str(), m, frequency, probability);
        mc::state(mc::mix(mc::hash(describe(a)), m));
        mc::outcome(mc::format("%d %g", m, frequency));
    }
}

// The weights of dropped outputs are not trained, and the error of dropped outputs is not propagated.
MC_SCENARIO_SPLIT(dropout_backpropagation, 2)
{
    const bool hidden = mc::flag();
    const int n = 1 + mc::choose(mc::thorough() ? 4 : 3);
    ArchSpec a;
    a.input = {2};
    if (hidden)
        a.layers.push_back({FC, 2, 1, activation::tanh});
    a.layers.push_back({FC, n, 1, mc::pick(std::vector<activation>{activation::sigmoid, activation::identity}), {snn::Dropout(0.5f)}});
    const bool last = mc::flag();
    if (last)
        a.layers.push_back({FC, 2, 1, activation::sigmoid});
    a.lr = 0.1f;
    auto net = make(a), full = make(a);
    setWeights(*net, 4);
    const size_t l = hidden;
    const auto before = weights(*net);
    const V x = {0.7f, -0.4f}, y = {0.1f, 0.9f, 0.3f, 0.6f};
    rng::scriptedAlternatives = 4;
    std::vector<bool> mask;
    for (int d = 0; d < n; ++d)
    {
        rng::scripted.push_back(0);
        rng::scripted.push_back(mc::flag() ? 3 : 0);
    }
    const auto script = rng::scripted;
    // the mask, on a copy
    {
        Net copy(*net);
        V o = x;
        for (size_t i = 0; i <= l; ++i)
            o = copy.layers[i]->outputForTraining(o, true);
        for (float v : o)
            mask.push_back(v == 0.0f);
    }
    rng::scripted = script;
    net->trainOnce(x, V(y.begin(), y.begin() + net->getNumberOfOutputs()));
    rng::scripted.clear();
    const auto after = weights(*net);
    mc::step();
    std::string what = describe(a) + " dropped:";
    for (bool b : mask)
        what += b ? " 1" : " 0";
    mc::note("%s", what.c_str());
    bool all = true;
    for (int k = 0; k < n; ++k)
    {
        all &= mask[k];
        MC_CHECK(same(before[l][k], after[l][k]) == mask[k], "dropout backpropagation", "%s: weights of output %d from %s to %s", what.c_str(), k, u::text(before[l][k]).c_str(), u::text(after[l][k]).c_str());
        if (last)
            for (size_t m = 0; m < after[l + 1].size(); ++m)
                MC_CHECK((before[l + 1][m][k] == after[l + 1][m][k]) == mask[k], "dropout backpropagation", "%s: weight of input %d of the next layer", what.c_str(), k);
    }
    if (hidden)
        MC_CHECK((before[0] == after[0]) == all, "dropout backpropagation", "%s: the previous layer", what.c_str());
    mc::state(mc::hash(what));
    mc::outcome(hashWeights(*net));
}

MC_SCENARIO(error_multiplier) // the changes of the layer, and of the previous ones, are multiplied
{
    ArchSpec a;
    a.input = {1, 3};
    static const std::vector<LayerSpec> kinds = {{FC, 2, 1}, {RNN, 2, 1}, {CONV, 1, 2}, {LC, 1, 2}};
    const int depth = 1 + mc::choose(2);
    for (int i = 0; i < depth; ++i)
    {
        LayerSpec l = mc::pick(kinds);
        if (i && (a.layers[0].kind == FC || a.layers[0].kind == RNN) && filtered(l.kind))
            return;
        l.act = mc::pick(std::vector<activation>{activation::tanh, activation::sigmoid, activation::GELU});
        a.layers.push_back(l);
    }
    const int where = mc::choose(depth);
    const float factor = mc::pick(V{0.5f, 2.0f, 0.25f, 4.0f, 0.0f, -1.0f});
    a.lr = 0.125f;
    auto plain = make(a);
    a.layers[where].optimizers = {snn::ErrorMultiplier(factor)};
    auto net = make(a);
    setWeights(*plain, 4);
    setWeights(*net, 4);
    const auto before = weights(*net);
    const V x = {0.5f, -0.25f, 0.75f};
    const V y = u::values(77, net->getNumberOfOutputs());
    MC_CHECK(same(plain->computeOutput(x, true), net->computeOutput(x, true)), "error multiplier", "%s: the output changes", describe(a).c_str());
    plain->trainOnce(x, y);
    net->trainOnce(x, y);
    mc::step(4);
    const auto p = weights(*plain), q = weights(*net);
    for (size_t l = 0; l < p.size(); ++l)
        for (size_t n = 0; n < p[l].size(); ++n)
            for (size_t w = 0; w < p[l][n].size(); ++w)
            {
                const double f = (int)l <= where ? factor : 1.0;
                const double expected = f * ((double)p[l][n][w] - before[l][n][w]), got = (double)q[l][n][w] - before[l][n][w];
                MC_CHECK(near(got, expected, 5e-7, 1e-5), "error multiplier", "%s: weight %zu of neuron %zu of layer %zu changes of %.9g instead of %.9g", describe(a).c_str(), w, n, l, got, expected);
            }
    mc::state(mc::hash(describe(a)));
    mc::outcome(hashWeights(*net));
}

MC_SCENARIO(regularizations) // they add to the errors of their layer their coefficient times the norm of the weights per neuron, and nothing else
{
    static const std::vector<LayerSpec> kinds = {{FC, 1, 1}, {FC, 3, 1}, {RNN, 2, 1}, {GRU, 2, 1}, {CONV, 1, 2}, {CONV, 2, 1}, {LC, 1, 2}, {LC, 2, 1}, {POOL, 1, 2}};
    LayerSpec l = mc::pick(kinds);
    l.act = mc::pick(std::vector<activation>{activation::tanh, activation::identity, activation::sigmoid});
    static const std::vector<std::pair<float, float>> sizes = {{0.0f, 2.0f}, {0.001f, 0.3f}, {0.001f, 2.0f}, {0.1f, 0.3f}, {0.75f, 0.3f}, {0.75f, 2.0f}, {100.0f, 0.004f}, {0.01f, 30.0f}}; // of the coefficient and of the weights
    const auto [value, size] = mc::pick(sizes);
    const int which = mc::choose(3); // L1, L2, both
    const int multiplier = l.kind == POOL ? 0 : mc::choose(3); // none, before or after the regularizations: they are applied in their order
    const float factor = -2.0f;
    ArchSpec a;
    a.input = {1, 4};
    a.layers = {l};
    a.lr = 0.125f;
    const auto counter = rng::counter;
    auto plain = make(a);
    if (multiplier == 1)
        a.layers[0].optimizers.push_back(snn::ErrorMultiplier(factor));
    if (which != 1)
        a.layers[0].optimizers.push_back(snn::L1Regularization(value));
    if (which != 0)
        a.layers[0].optimizers.push_back(snn::L2Regularization(which == 2 ? value / 2 : value));
    if (multiplier == 2)
        a.layers[0].optimizers.push_back(snn::ErrorMultiplier(factor));
    rng::counter = counter; // the same weights in the layers which have no setter
    auto net = make(a);
    setWeights(*plain, 4, size);
    for (int n = 0; l.kind != POOL && n < net->layers[0]->getNumberOfNeurons(); ++n)
        setNeuronWeights(*net, 0, n, neuronWeights(*plain, 0, n));
    mc::note("%s", describe(a).c_str());
    double l1 = 0, l2 = 0;
    const auto before = weights(*plain);
    MC_CHECK(same(weights(*net), before), "regularization", "the weights differ: the scenario is wrong");
    for (const auto& n : before[0])
        for (const double w : n)
        {
            l1 += std::fabs(w);
            l2 += w * w;
        }
    const double neurons = std::max<size_t>(1, before[0].size());
    const double shift = (which != 1 ? value * l1 / neurons : 0.0) + (which != 0 ? (which == 2 ? value / 2 : value) * l2 / neurons : 0.0);
    const V x = u::values(mc::choose(2), 4);
    MC_CHECK(same(plain->computeOutput(x, true), net->computeOutput(x, true)), "regularization", "%s: the output changes", describe(a).c_str());
    const V o = plain->layers[0]->outputForTraining(x, true), r = net->layers[0]->outputForTraining(x, true);
    MC_CHECK(same(o, r), "regularization", "%s: the output in training changes", describe(a).c_str());
    V errors = u::values(31, o.size()), shifted = errors;
    for (auto& e : shifted)
        e = (float)(multiplier == 1 ? factor * e + shift : multiplier == 2 ? factor * (e + shift) : e + shift);
    double rounding = 1; // an error is a sum of products which can cancel each other
    for (const float e : shifted)
        rounding += std::fabs(e);
    const bool back = mc::flag();
    mc::step(3);
    if (back)
    {
        const V p = plain->layers[0]->backOutput(shifted), q = net->layers[0]->backOutput(errors);
        MC_CHECK(p.size() == q.size(), "regularization", "%s: %zu errors", describe(a).c_str(), q.size());
        for (size_t i = 0; i < p.size(); ++i)
            MC_CHECK(near(q[i], p[i], 1e-6 * rounding, 1e-4), "regularization", "%s: error %zu of the previous layer is %.9g instead of %.9g", describe(a).c_str(), i, q[i], p[i]);
        mc::outcome(mc::hash(q));
    }
    else
    {
        plain->layers[0]->train(shifted);
        net->layers[0]->train(errors);
    }
    const auto p = weights(*plain), q = weights(*net);
    for (size_t n = 0; n < p[0].size(); ++n)
        for (size_t w = 0; w < p[0][n].size(); ++w)
            MC_CHECK(near(q[0][n][w], p[0][n][w], 1e-6 * rounding, 1e-5), "regularization", "%s: weight %zu of neuron %zu from %.9g to %.9g instead of %.9g", describe(a).c_str(), w, n, before[0][n][w], q[0][n][w], p[0][n][w]);
    mc::outcome(hashWeights(*net));
    mc::state(mc::hash(describe(a)));
}

MC_SCENARIO(large_sizes) // layers with many outputs
{
    const int n = mc::pick(largeSizes());
    const int which = mc::choose(5);
    const Kind kind = mc::pick(std::vector<Kind>{FC, CONV, LC, RNN});
    ArchSpec a;
    a.input = kind == FC || kind == RNN ? std::vector<int>{3} : std::vector<int>{1, n};
    a.layers = {{kind, kind == FC || kind == RNN ? n : 1, 1, activation::tanh}};
    a.lr = 0.125f;
    auto plain = make(a);
    const float p = 0.5f;
    const std::vector<LayerOptimizerModel> optimizers = {snn::Softmax(), snn::Dropout(p), snn::ErrorMultiplier(-2.0f), snn::L1Regularization(0.25f), snn::L2Regularization(0.25f)};
    a.layers[0].optimizers = {optimizers[which]};
    auto net = make(a);
    setWeights(*plain, 4);
    setWeights(*net, 4);
    const std::string what = describe(a);
    mc::note("%s", what.c_str());
    const V x = u::values(3, plain->getNumberOfInputs());
    const V e = plain->computeOutput(x, true), o = net->computeOutput(x, true);
    mc::step(4);
    mc::state(mc::hash(what));
    if (which == 0)
    {
        double sum = 0;
        for (float v : e)
            sum += std::exp((double)v);
        for (int i = 0; i < n; ++i)
            MC_CHECK(near(o[i], std::exp((double)e[i]) / sum, 1e-6, 1e-4), "softmax", "%s: output %d", what.c_str(), i);
        return;
    }
    if (which == 1)
    {
        std::vector<int> dropped(n, 0);
        const int rounds = 64;
        for (int i = 0; i < n; ++i)
            MC_CHECK(near(o[i], (1.0 - p) * e[i], 1e-6, 1e-6), "dropout inference", "%s: output %d", what.c_str(), i);
        for (int r = 0; r < rounds; ++r)
        {
            const V t = net->layers[0]->outputForTraining(x, true);
            if (kind != RNN) // its outputs depend on the previous ones
                for (int i = 0; i < n; ++i)
                    MC_CHECK(t[i] == 0 || near(t[i], e[i], 1e-6, 1e-6), "dropout", "%s: output %d is %g instead of %g or 0", what.c_str(), i, t[i], e[i]);
            for (int i = 0; i < n; ++i)
                dropped[i] += t[i] == 0;
        }
        for (int i = 0; i < n; ++i)
            MC_CHECK(dropped[i] > 0 && dropped[i] < rounds, "dropout", "%s: output %d is dropped %d times out of %d", what.c_str(), i, dropped[i], rounds);
        // outputs which are removed do not learn
        const V t = net->layers[0]->outputForTraining(x, true);
        V errors = u::values(31, n);
        for (auto& v : errors)
            v += v < 0 ? -0.5f : 0.5f;
        const auto before = weights(*net);
        net->layers[0]->train(errors);
        const auto after = weights(*net);
        if (kind == FC || kind == RNN)
            for (int i = 0; i < n; ++i)
                MC_CHECK(same(before[0][i], after[0][i]) == (t[i] == 0), "dropout backpropagation", "%s: neuron %d", what.c_str(), i);
        return;
    }
    MC_CHECK(same(e, o), "output", "%s: the output changes", what.c_str());
    double l1 = 0, l2 = 0;
    const auto before = weights(*plain);
    for (const auto& k : before[0])
        for (const double w : k)
            l1 += std::fabs(w), l2 += w * w;
    const double neurons = (double)before[0].size();
    V errors = u::values(31, n), changed = errors;
    for (auto& v : changed)
        v = (float)(which == 2 ? -2.0 * v : v + 0.25 * (which == 3 ? l1 : l2) / neurons);
    (void)plain->layers[0]->outputForTraining(x, true);
    (void)net->layers[0]->outputForTraining(x, true);
    const bool back = mc::flag();
    if (back)
    {
        const V b = plain->layers[0]->backOutput(changed), c = net->layers[0]->backOutput(errors);
        for (size_t i = 0; i < b.size(); ++i)
            MC_CHECK(near(b[i], c[i], 1e-4, 1e-4), "errors", "%s: error %zu is %.9g instead of %.9g", what.c_str(), i, c[i], b[i]);
    }
    else
    {
        plain->layers[0]->train(changed);
        net->layers[0]->train(errors);
    }
    const auto q = weights(*plain), r = weights(*net);
    for (size_t k = 0; k < q[0].size(); ++k)
        for (size_t w = 0; w < q[0][k].size(); ++w)
            MC_CHECK(near(r[0][k][w], q[0][k][w], 2e-5, 1e-4), "changes", "%s: weight %zu of neuron %zu from %.9g to %.9g instead of %.9g", what.c_str(), w, k, before[0][k][w], r[0][k][w], q[0][k][w]);
    mc::outcome(hashWeights(*net));
}
