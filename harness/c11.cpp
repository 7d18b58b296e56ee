// C11: two networks are equal if and only if they have the same architecture, parameters and settings.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "ops.hpp"
using namespace ops;

static std::unique_ptr<Net> build(const ArchSpec& a, bool sameWeights = true)
{
    rng::counter = 0;
    auto net = make(a);
    if (sameWeights)
        setWeights(*net, 5);
    return net;
}

static void judge(const Net& a, const Net& b, bool equal, const std::string& what)
{
    mc::step();
    MC_CHECK((a == b) == equal && (b == a) == equal, equal ? "equal networks" : "different networks", "%s: == is %d and %d", what.c_str(), a == b, b == a);
    MC_CHECK((a != b) == !equal && (b != a) == !equal, "inequality", "%s: != is not the negation of ==", what.c_str());
    MC_CHECK(a == a && b == b, "reflexivity", "%s", what.c_str());
}

static std::vector<ArchSpec> singles()
{
    std::vector<ArchSpec> r;
    for (const auto& input : std::vector<std::vector<int>>{{4}, {3}, {1, 4}, {2, 2}, {4, 1}, {1, 2, 2}, {2, 1, 2}, {1, 3, 2}, {1, 2, 3}, {2, 3, 3}})
        for (auto l : layers({1, 2}, {1, 2}, {1, 2}))
        {
            if (!fits(l, input))
                continue;
            ArchSpec a;
            a.input = input;
            a.layers = {l};
            r.push_back(a);
            if (l.kind != POOL && l.kind != GRU && input.size() == (l.kind == CONV || l.kind == LC ? 2u : 1u))
            {
                a.layers[0].act = activation::tanh;
                r.push_back(a);
            }
        }
    return r;
}

static bool flat(Kind k) { return !filtered(k); }

MC_SCENARIO_SPLIT(pairs, 1) // every pair of networks of one layer
{
    static const auto all = singles();
    const auto& a = mc::pick(all);
    const auto& b = mc::pick(all);
    auto x = build(a), y = build(b);
    const std::string what = describe(a) + " and " + describe(b);
    mc::note("%s", what.c_str());
    // the shape of the input of these layers is only its size
    ArchSpec c = a, d = b;
    for (auto* s : {&c, &d})
        if (flat(s->layers[0].kind))
        {
            int n = 1;
            for (int i : s->input)
                n *= i;
            s->input = {n};
        }
        else
            s->input = ref::Net::asMap(s->input);
    judge(*x, *y, describe(c) == describe(d), what);
    mc::outcome(mc::hash(what));
    mc::state(mc::hash(what));
}

static std::vector<std::vector<LayerOptimizerModel>> decorations(bool last)
{
    std::vector<std::vector<LayerOptimizerModel>> r = {{}};
    std::vector<LayerOptimizerModel> single = {snn::Dropout(0.5f), snn::Dropout(0.25f), snn::L1Regularization(0.1f), snn::L1Regularization(0.2f), snn::L2Regularization(0.1f),
                                               snn::L2Regularization(0.2f), snn::ErrorMultiplier(0.5f), snn::ErrorMultiplier(2.0f)};
    if (last)
        single.push_back(snn::Softmax());
    for (const auto& o : single)
        r.push_back({o});
    for (const auto& o : single)
        for (const auto& p : single)
            if (o.type != p.type && o.type != snn::layerOptimizerType::softmax)
                r.push_back({o, p});
    return r;
}

MC_SCENARIO_SPLIT(optimizers, 1) // every pair of optimizers on the same layer
{
    static const auto all = decorations(true);
    ArchSpec a;
    const int kind = mc::choose(mc::thorough() ? 4 : 2);
    a.input = kind == 0 || kind == 2 ? std::vector<int>{3} : std::vector<int>{1, 3};
    a.layers = {{kind == 0 ? FC : kind == 1 ? CONV : kind == 2 ? RNN : LC, 2, 2, activation::tanh}};
    ArchSpec b = a;
    a.layers[0].optimizers = mc::pick(all);
    b.layers[0].optimizers = mc::pick(all);
    const std::string what = describe(a) + " and " + describe(b);
    mc::note("%s", what.c_str());
    judge(*build(a), *build(b), describe(a) == describe(b), what);
    mc::state(mc::hash(what));
}

static float next(float v, int k) { return k == 0 ? std::nextafterf(v, 10.0f) : k == 1 ? std::nextafterf(v, -10.0f) : k == 2 ? -v : v + 1.0f; }

MC_SCENARIO_SPLIT(parameters, 2) // one weight, or one other setting, differs between two networks
{
    static const std::vector<ArchSpec> nets = {
        {{3}, {{FC, 3, 1, activation::tanh}, {FC, 2, 1, activation::sigmoid, {snn::Softmax()}}}},
        {{2}, {{RNN, 2, 1, activation::tanh}, {RNN, 1, 1, activation::GELU}, {FC, 2, 1, activation::sigmoid}}},
        {{1, 3, 3}, {{CONV, 2, 2, activation::GELU}, {LC, 2, 2, activation::iSigmoid}, {FC, 2, 1, activation::gaussian}}},
        {{2, 4}, {{LC, 2, 2, activation::ReLU}, {CONV, 2, 2, activation::ReLU}, {POOL, 1, 1}, {FC, 2, 1, activation::identity}}},
        {{2, 3, 2}, {{LC, 1, 2, activation::ReLU}, {POOL, 1, 1}, {FC, 2, 1, activation::identity}}},
    };
    const auto& a = mc::pick(nets);
    auto x = build(a), y = build(a);
    judge(*x, *y, true, describe(a));
    const int where = mc::choose(9);
    std::string what = describe(a);
    switch (where)
    {
    case 0:
    case 1:
        {
            const int l = mc::choose((int)a.layers.size());
            if (a.layers[l].kind == POOL)
                return;
            const int n = mc::choose(x->layers[l]->getNumberOfNeurons());
            V w = neuronWeights(*y, l, n);
            const int i = mc::choose((int)w.size());
            w[i] = next(w[i], mc::choose(4));
            setNeuronWeights(*y, l, n, w);
            what += mc::format(" weight %d of neuron %d of layer %d", i, n, l);
            break;
        }
    case 8: // two small weights, or two large ones
        {
            const int l = mc::choose((int)a.layers.size());
            if (a.layers[l].kind == POOL)
                return;
            const float value = mc::pick(V{1e-44f, 1e-38f, 1e-30f, 1e-15f, 1e-8f, 1e5f, 1e15f, 1e38f});
            V v = neuronWeights(*x, l, 0), w = v;
            const int i = mc::pick(std::vector<int>{0, (int)w.size() - 1});
            v[i] = value;
            w[i] = mc::pick(V{0.0f, -value, 2 * value, std::nextafterf(value, 1.0f)});
            setNeuronWeights(*x, l, 0, v);
            setNeuronWeights(*y, l, 0, w);
            what += mc::format(" weights %g and %g at %d of layer %d", v[i], w[i], i, l);
            break;
        }
    case 2: sgd(*y)->learningRate = next(sgd(*y)->learningRate, mc::choose(2)); what += " learning rate"; break;
    case 3: sgd(*y)->momentum = 1e-30f; what += " momentum"; break;
    case 4: y->autoSaveFilePath += mc::flag() ? " " : "x"; what += " path"; break;
    case 5: y->autoSaveWhenBetter = true; what += " auto save"; break;
    case 6: y->setNumberOfTrainingsBetweenTwoEvaluations(x->getNumberOfTrainingsBetweenTwoEvaluations() + 1); what += " trainings between evaluations"; break;
    case 7: // one more training
        y->trainOnce(values(3, y->getNumberOfInputs()), V(y->getNumberOfOutputs(), 1.0f));
        what += " training";
    }
    mc::note("%s", what.c_str());
    judge(*x, *y, false, what);
    mc::state(mc::hash(what));
}

MC_SCENARIO_SPLIT(same_histories, 2) // the same operations give equal networks, an exchanged or missing operation does not give a false equality
{
    static const std::vector<ArchSpec> nets = {
        {{3}, {{FC, 2, 1, activation::tanh, {snn::Dropout(0.5f)}}, {FC, 2, 1, activation::sigmoid}}, 0.05f, 0.8f},
        {{2}, {{RNN, 2, 1, activation::tanh}, {GRU, 2}, {FC, 2, 1, activation::sigmoid}}, 0.05f, 0.8f},
        {{1, 2, 3}, {{CONV, 2, 2, activation::GELU}, {LC, 1, 1, activation::iSigmoid}, {FC, 2, 1, activation::gaussian}}, 0.05f, 0.8f},
    };
    const auto& a = mc::pick(nets);
    auto x = build(a), y = build(a);
    std::string what = describe(a) + ":";
    const int length = mc::thorough() ? 4 : 3;
    for (int i = 0; i < length; ++i)
    {
        const int op = mc::choose(NOPS);
        what += std::string(" ") + name(op);
        rng::counter = 5000 * i;
        apply(*x, op, i + 1);
        rng::counter = 5000 * i;
        apply(*y, op, i + 1);
        judge(*x, *y, true, what);
    }
    mc::note("%s", what.c_str());
    mc::state(mc::mix(hashWeights(*x), mc::hash(what)));
    mc::outcome(hashWeights(*x));
    if (!same(weights(*x), weights(*y)))
        mc::fail("harness", "not deterministic");
    rng::counter = 77777;
    apply(*y, TRAIN_ONCE, 33);
    if (!same(weights(*x), weights(*y)))
        judge(*x, *y, false, what + " | trainOnce");
}

// Networks with different pasts which were given the same weights and the same last inputs: if they are equal, they have the same future.
MC_SCENARIO_SPLIT(equal_means_same_future, 2)
{
    static const std::vector<ArchSpec> nets = {
        {{2}, {{FC, 2, 1, activation::tanh}}, 0.05f, 0.8f},
        {{2}, {{FC, 2, 1, activation::tanh}}, 0.05f, 0.0f},
        {{2}, {{FC, 2, 1, activation::sigmoid}, {FC, 1, 1, activation::identity}}, 0.05f, 0.8f},
        {{2}, {{RNN, 2, 1, activation::tanh}}, 0.05f, 0.0f},
        {{2}, {{RNN, 1, 1, activation::tanh}, {RNN, 1, 1, activation::identity}}, 0.05f, 0.8f},
        {{1, 2}, {{CONV, 1, 1, activation::tanh}}, 0.05f, 0.8f},
        {{1, 2}, {{LC, 1, 1, activation::tanh}}, 0.05f, 0.8f},
        {{1, 2, 2}, {{CONV, 1, 2, activation::tanh}, {POOL, 1, 1}, {FC, 1, 1, activation::tanh}}, 0.05f, 0.8f},
    };
    const auto& a = mc::pick(nets);
    std::unique_ptr<Net> n[2] = {build(a), build(a)};
    const int in = n[0]->getNumberOfInputs(), out = n[0]->getNumberOfOutputs();
    std::string what = describe(a);
    const bool reset = mc::flag();
    const bool zero = mc::flag(); // inputs and biases at zero: only the errors of the past are left
    const auto noBias = [&](Net& x)
    {
        setWeights(x, 5);
        for (int l = 0; l < x.getNumberOfLayers(); ++l)
            for (int i = 0; i < x.layers[l]->getNumberOfNeurons(); ++i)
            {
                V w = neuronWeights(x, l, i);
                w.back() = 0;
                setNeuronWeights(x, l, i, w);
            }
    };
    what += zero ? " zero" : "";
    for (auto& x : n)
    {
        what += " |";
        for (int i = 0; i < (mc::thorough() ? 3 : 2); ++i)
        {
            const int op = mc::choose(4); // nothing, or one of three steps
            what += mc::format(" %d", op);
            if (op && zero)
                noBias(*x);
            if (op)
                x->trainOnce(zero ? V(in, 0.0f) : values(op == 3 ? 8 : 3, in), V(out, op == 2 ? -1.0f : 0.75f), i == 0);
        }
        if (zero)
        {
            noBias(*x);
            x->trainOnce(V(in, 0.0f), V(out, 0.25f), false);
        }
        setWeights(*x, 5);
        for (int i = 0; i < 2; ++i)
            (void)x->computeOutput(values(4, in), reset);
    }
    what += reset ? " | restarted" : "";
    mc::note("%s", what.c_str());
    mc::step();
    const bool equal = *n[0] == *n[1];
    MC_CHECK(equal == (*n[1] == *n[0]) && equal != (*n[0] != *n[1]), "symmetry", "%s", what.c_str());
    V future[2];
    for (int k = 0; k < 2; ++k)
        for (int i = 0; i < 3; ++i)
        {
            n[k]->trainOnce(values(20 + i, in), V(out, 0.5f), false);
            const V o = n[k]->computeOutput(values(30 + i, in), false);
            future[k].insert(future[k].end(), o.begin(), o.end());
        }
    const bool sameFuture = u::same(future[0], future[1]) && u::same(weights(*n[0]), weights(*n[1]));
    MC_CHECK(!equal || sameFuture, "equal networks with different futures", "%s: %s and %s", what.c_str(), u::text(future[0]).c_str(), u::text(future[1]).c_str());
    mc::state(mc::hash(what));
    mc::outcome(mc::format("%d %d", equal, sameFuture));
}

MC_SCENARIO(large_sizes) // one weight differs, at any place of a network with many inputs, neurons, filters or layers
{
    const int n = mc::pick(largeSizes());
    ArchSpec a;
    const auto T = activation::tanh;
    const int kind = mc::choose(6);
    switch (kind)
    {
    case 0: a.input = {n}, a.layers = {{mc::pick(std::vector<Kind>{FC, RNN}), 2, 1, T}}; break;
    case 1: a.input = {2}, a.layers = {{mc::pick(std::vector<Kind>{FC, RNN}), n, 1, T}}; break;
    case 2: a.input = {1, n}, a.layers = {{mc::pick(std::vector<Kind>{CONV, LC}), 2, mc::flag() ? 3 : n, T}}; break;
    case 3: a.input = {n, 2}, a.layers = {{mc::pick(std::vector<Kind>{CONV, LC}), 2, 2, T}}; break;
    case 4: a.input = {1, 2, 2}, a.layers = {{mc::pick(std::vector<Kind>{CONV, LC}), n, 2, T}}; break;
    default: a.input = {2}, a.layers = std::vector<LayerSpec>(std::min(n, 130), LayerSpec{FC, 2, 1, T}); break;
    }
    if (kind < 5)
        a.layers.push_back({FC, 2, 1, T});
    auto x = build(a), y = build(a);
    setWeights(*x, 5);
    setWeights(*y, 5);
    const std::string what = kind < 5 ? describe(a) : mc::format("%zu layers", a.layers.size());
    mc::note("%s", what.c_str());
    judge(*x, *y, true, what);
    std::vector<std::array<int, 2>> neurons;
    for (int l = 0; l < (int)a.layers.size(); ++l)
        for (int k = 0; k < x->layers[l]->getNumberOfNeurons(); ++k)
            neurons.push_back({l, k});
    const int budget = mc::thorough() ? 64 : 16;
    const size_t stride = std::max<size_t>(1, neurons.size() / budget);
    for (size_t i = 0; i < neurons.size(); i = i + 1 == neurons.size() ? i + 1 : std::min(i + stride, neurons.size() - 1))
    {
        const auto [l, k] = neurons[i];
        const V before = neuronWeights(*y, l, k);
        const size_t step = std::max<size_t>(1, before.size() / budget);
        for (size_t w = 0; w < before.size(); w = w + 1 == before.size() ? w + 1 : std::min(w + step, before.size() - 1))
        {
            V changed = before;
            changed[w] = next(changed[w], 0);
            setNeuronWeights(*y, l, k, changed);
            mc::step();
            const bool equal = *x == *y || *y == *x, different = *x != *y;
            MC_CHECK(!equal && different, "a difference is not seen", "%s: weight %zu of neuron %d of layer %d", what.c_str(), w, k, l);
        }
        setNeuronWeights(*y, l, k, before);
        mc::state(mc::mix(mc::hash(what), i));
    }
    judge(*x, *y, true, what);
}
