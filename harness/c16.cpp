// C16: inference changes nothing and does not depend on the calls before it (without temporal layers); the cluster is the
// index of the highest output.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "grammar.hpp"
using namespace grammar;

MC_SCENARIO(cluster) // every order of the outputs, with ties and extreme values
{
    const std::vector<float> alphabet = mc::thorough() ? std::vector<float>{-1, 0, 1, -0.0f, 3e38f, -3e38f, 0.5f, -1e-30f, 1e-40f}
        : std::vector<float>{-1, 0, 1, 3e38f, -3e38f, -0.5f};
    const int n = 1 + mc::choose(4);
    ArchSpec a;
    a.input = {n};
    a.layers = {LayerSpec{FC, n, 1, activation::identity}};
    auto net = make(a);
    for (int i = 0; i < n; ++i)
    {
        V w(n + 1, 0.0f);
        w[i] = 1.0f;
        setNeuronWeights(*net, 0, i, w);
    }
    V x;
    for (int i = 0; i < n; ++i)
        x.push_back(mc::pick(alphabet));
    mc::note("outputs %s", text(x).c_str());
    const V out = net->computeOutput(x);
    int expected = 0;
    for (int i = 1; i < n; ++i)
        if (out[i] > out[expected])
            expected = i;
    mc::step();
    for (const bool reset : {false, true})
    {
        const int c = net->computeCluster(x, reset);
        MC_CHECK(c == expected, "cluster", "cluster of %s is %d instead of %d", text(out).c_str(), c, expected);
    }
    MC_CHECK(ref::maxDifference(ref::D(x.begin(), x.end()), out) == 0, "identity", "%s gives %s", text(x).c_str(), text(out).c_str());
    mc::outcome(expected);
    mc::state(mc::hash(out));
}

static const std::vector<ArchSpec>& architectures()
{
    const auto T = activation::tanh, S = activation::sigmoid, R = activation::ReLU;
    static const std::vector<ArchSpec> r = {
        {{3}, {{FC, 2, 1, S}}},
        {{3}, {{FC, 4, 1, T, {snn::Dropout(0.5f)}}, {FC, 2, 1, S, {snn::Softmax()}}}},
        {{2, 4}, {{CONV, 2, 2, R}, {POOL, 1, 2}, {FC, 2, 1, S}}},
        {{2, 3, 4}, {{CONV, 2, 2, R, {snn::Dropout(0.3f)}}, {POOL, 1, 2}, {FC, 3, 1, S}}},
        {{2, 3, 3}, {{LC, 2, 2, T, {snn::L2Regularization(0.01f)}}, {FC, 2, 1, S, {snn::L1Regularization(0.01f), snn::ErrorMultiplier(2.0f)}}}},
        {{5}, {{LC, 2, 2, T}, {CONV, 2, 2, T}}},
        {{1, 5}, {{POOL, 1, 2}, {FC, 2, 1, activation::GELU}, {FC, 2, 1, activation::gaussian}}},
    };
    return r;
}

MC_SCENARIO(purity) // every history of read-only operations
{
    const ArchSpec a = mc::pick(architectures());
    auto net = make(a);
    setWeights(*net, 8);
    const int inputs = net->getNumberOfInputs(), outputs = net->getNumberOfOutputs();
    const V x[3] = {values(1, inputs), values(2, inputs, 2.0f), V(inputs, 0.0f)};
    if (mc::flag()) // a network which was trained
        net->trainOnce(x[1], V(outputs, 0.5f));
    V expected[3];
    {
        Net fresh(*net);
        for (int i = 0; i < 3; ++i)
            expected[i] = fresh.computeOutput(x[i]);
    }
    VV inputs2 = {x[0], x[1]}, labels = {V(outputs, 0.0f), V(outputs, 1.0f)};
    Data data(snn::problem::regression, inputs2, labels);
    const auto before = observe(*net);
    const std::string path = mc::scratchDir() + "/net";
    mc::note("%s:", describe(a).c_str());
    const int length = mc::thorough() ? 5 : 4;
    bool evaluated = false;
    for (int i = 0; i < length; ++i)
    {
        const int op = mc::choose(9);
        mc::note(" %d", op);
        mc::step();
        if (op < 3)
        {
            const V out = net->computeOutput(x[op], op == 1);
            MC_CHECK(same(out, expected[op]), "output", "%s: operation %d: %s instead of %s", describe(a).c_str(), i, text(out).c_str(), text(expected[op]).c_str());
        }
        else if (op == 3)
        {
            const int c = net->computeCluster(x[1]);
            MC_CHECK(c == std::max_element(expected[1].begin(), expected[1].end()) - expected[1].begin(), "cluster", "%s", describe(a).c_str());
        }
        else if (op == 4)
            (void)net->summary();
        else if (op == 5)
        {
            const Net copy(*net);
            MC_CHECK(copy == *net && *net == copy, "copy", "%s", describe(a).c_str());
        }
        else if (op == 6)
            (void)net->isValid();
        else if (op == 7)
        {
            MC_CHECK(*net == *net, "equality", "%s", describe(a).c_str());
        }
        else
        {
            net->evaluate(data); // only the metrics change
            evaluated = true;
        }
        auto after = observe(*net);
        if (evaluated)
        {
            after.metrics = before.metrics;
            after.numbers[1] = before.numbers[1]; // current index
        }
        MC_CHECK(after == before, "purity", "%s: operation %d (%d) changed the network:%s", describe(a).c_str(), i, op, difference(before, after).c_str());
        mc::state(mc::mix(mc::mix(hash(a), i), op));
    }
    mc::outcome(mc::hash(expected[0]));
}

MC_SCENARIO(repeatability) // grammar: the same input gives the same bits after other inputs
{
    Bounds b;
    b.inputs = {{1}, {4}, {2, 4}, {2, 3, 4}, {3, 3, 3}};
    b.layers = layers({1, 3}, {1, 2}, {1, 2, 3}, false);
    auto a = grammar::choose(b, mc::thorough() ? 3 : 2);
    mixActivations(a);
    auto net = make(a);
    setWeights(*net, 2);
    const int inputs = net->getNumberOfInputs();
    const V x = values(1, inputs), y = values(2, inputs, 3.0f), z(inputs, 0.0f);
    const V first = net->computeOutput(x, true);
    const auto w = u::weights(*net);
    mc::note("%s", describe(a).c_str());
    for (const V& other : {y, z, x})
        for (const bool reset : {true, false})
        {
            (void)net->computeOutput(other, reset);
            const V again = net->computeOutput(x, !reset);
            mc::step(2);
            MC_CHECK(same(first, again), "output", "%s: %s then %s", describe(a).c_str(), text(first).c_str(), text(again).c_str());
        }
    MC_CHECK(same(w, u::weights(*net)), "weights", "%s", describe(a).c_str());
    mc::state(mc::mix(hash(a), mc::hash(first)));
}

MC_SCENARIO(large_cluster) // the highest output, alone or with a second one, at each place of many outputs
{
    const int n = mc::pick(largeSizes());
    ArchSpec a;
    a.input = {1};
    a.layers = {LayerSpec{FC, n, 1, activation::identity}};
    auto net = make(a);
    const auto out = [&](int i) { return 0.001f * ((i * 37) % 101); };
    for (int i = 0; i < n; ++i)
        setNeuronWeights(*net, 0, i, {out(i), 0.0f});
    const float highest = mc::flag() ? 1.0f : 0.1f; // a tie with the others which are at 0.1
    mc::note("%d outputs, %g", n, highest);
    for (int where = 0; where < n; ++where)
    {
        setNeuronWeights(*net, 0, where, {highest, 0.0f});
        int expected = 0;
        float max = 0;
        for (int i = n - 1; i >= 0; --i)
            if (const float v = i == where ? highest : out(i); v >= max)
                max = v, expected = i;
        mc::step();
        const int c = net->computeCluster({1.0f});
        MC_CHECK(c == expected, "cluster", "%d outputs, %g at %d: cluster %d instead of %d", n, highest, where, c, expected);
        setNeuronWeights(*net, 0, where, {out(where), 0.0f});
        mc::state(mc::mix(n, where));
        mc::outcome(c);
    }
}
