// C13: the shapes and the counts announced by a network are the ones of its architecture, and computing or training never
// touches memory out of its buffers (AddressSanitizer, container assertions and arithmetic checks abort the execution).
#define MC_MAIN
#define MC_CONTROL_RNG
#include "grammar.hpp"
using namespace grammar;

static void check(const ArchSpec& a, bool withOptimizers)
{
    mc::note("%s", describe(a).c_str());
    const auto name = describe(a);
    auto net = make(a);
    const ref::Net model(a);
    MC_CHECK(net->isValid() == 0, "valid", "isValid() is %d: %s", net->isValid(), name.c_str());
    MC_CHECK(net->getNumberOfLayers() == (int)a.layers.size(), "layers", "%d layers: %s", net->getNumberOfLayers(), name.c_str());
    MC_CHECK(net->getNumberOfInputs() == model.inputs(), "inputs", "%d inputs instead of %d: %s", net->getNumberOfInputs(), model.inputs(), name.c_str());
    MC_CHECK(net->getNumberOfOutputs() == model.outputs(), "outputs", "%d outputs instead of %d: %s", net->getNumberOfOutputs(), model.outputs(), name.c_str());
    MC_CHECK(net->getNumberOfNeurons() == model.neurons(), "neurons", "%d neurons instead of %d: %s", net->getNumberOfNeurons(), model.neurons(), name.c_str());
    MC_CHECK(net->getNumberOfParameters() == model.parameters(), "parameters", "%d parameters instead of %d: %s", net->getNumberOfParameters(), model.parameters(), name.c_str());
    MC_CHECK(!net->isTraining() && !net->hasNan() && net->getNumberOfTraining() == 0 && net->getCurrentEpoch() == 0, "initial", "%s", name.c_str());
    int parameters = 0;
    for (size_t l = 0; l < a.layers.size(); ++l)
    {
        const auto in = net->layers[l]->getShapeOfInput(), out = net->layers[l]->getShapeOfOutput();
        const auto& m = model.layers[l];
        MC_CHECK(ref::product(in) == ref::product(m.in) && net->layers[l]->getNumberOfInputs() == ref::product(m.in), "shape of input", "layer %zu: %s: %s", l, text(in).c_str(), name.c_str());
        if (filtered(a.layers[l].kind))
        {
            MC_CHECK(in == m.in, "shape of input", "layer %zu: %s instead of %s: %s", l, text(in).c_str(), text(m.in).c_str(), name.c_str());
            MC_CHECK(out == m.out, "shape of output", "layer %zu: %s instead of %s: %s", l, text(out).c_str(), text(m.out).c_str(), name.c_str());
        }
        else
            MC_CHECK(ref::product(out) == ref::product(m.out), "shape of output", "layer %zu: %s: %s", l, text(out).c_str(), name.c_str());
        for (int n = 0; n < m.neurons; ++n)
        {
            const auto w = neuronWeights(*net, l, n);
            MC_CHECK((int)w.size() == m.weightsPerNeuron, "weights", "layer %zu: %zu weights instead of %d: %s", l, w.size(), m.weightsPerNeuron, name.c_str());
            parameters += (int)w.size();
            for (const float v : w)
                MC_CHECK(std::isfinite(v), "initial weights", "weight %g: %s", v, name.c_str());
        }
    }
    MC_CHECK(parameters == net->getNumberOfParameters(), "parameters", "%d weights for %d parameters: %s", parameters, net->getNumberOfParameters(), name.c_str());
    const V x = values(1, model.inputs()), y = values(2, model.outputs());
    const int trainings = 2;
    for (int i = 0; i < trainings; ++i)
    {
        const V out = net->computeOutput(x, i == 0);
        MC_CHECK((int)out.size() == model.outputs(), "size of outputs", "%zu outputs instead of %d: %s", out.size(), model.outputs(), name.c_str());
        for (const float v : out)
            MC_CHECK(std::isfinite(v), "finite output", "%g: %s", v, name.c_str());
        net->trainOnce(x, y, i == 0);
        mc::step(2);
        mc::state(mc::mix(mc::hash(name), hashWeights(*net)));
    }
    MC_CHECK(net->getNumberOfTraining() == trainings, "trainings", "%d: %s", (int)net->getNumberOfTraining(), name.c_str());
    const int cluster = net->computeCluster(x);
    MC_CHECK(cluster >= 0 && cluster < model.outputs(), "cluster", "%d: %s", cluster, name.c_str());
    mc::outcome(mc::format("%d %d %d %d", model.inputs(), model.outputs(), model.neurons(), model.parameters()));
}

static Bounds bounds()
{
    Bounds b;
    b.inputs = {{1}, {2}, {5}, {1, 1}, {1, 5}, {3, 4}, {2, 7}, {1, 1, 1}, {1, 2, 5}, {1, 5, 2}, {2, 4, 3}, {3, 3, 4}, {2, 6, 5}, {5, 3}, {4, 2, 3}};
    b.layers = layers({1, 2, 4}, {1, 2, 4}, {1, 2, 3, 5});
    return b;
}

MC_SCENARIO(one_layer)
{
    auto a = grammar::choose(bounds(), 1);
    for (auto& l : a.layers)
        if (l.kind != GRU && l.kind != POOL)
            l.act = mc::pick(allActivations);
    check(a, false);
}

MC_SCENARIO(two_layers)
{
    auto a = grammar::choose(bounds(), 2);
    mixActivations(a);
    check(a, false);
}

MC_SCENARIO_SPLIT(three_layers, 3)
{
    auto b = bounds();
    b.inputs = {{2}, {5}, {1, 5}, {3, 4}, {2, 4, 3}, {3, 5, 4}};
    b.layers = layers({1, 3}, {1, 2}, {1, 2, 3});
    auto a = grammar::choose(b, 3);
    mixActivations(a);
    check(a, false);
}

MC_SCENARIO(optimizers) // every layer optimizer after every kind of layer
{
    auto b = bounds();
    b.inputs = {{2}, {3, 4}, {2, 4, 3}};
    b.layers = layers({2}, {1, 2}, {1, 2});
    auto a = grammar::choose(b, 2);
    mixActivations(a);
    const std::vector<std::vector<LayerOptimizerModel>> sets = {
        {snn::Dropout(0.0f)}, {snn::Dropout(0.5f)}, {snn::L1Regularization(0.01f)}, {snn::L2Regularization(0.01f)},
        {snn::ErrorMultiplier(0.5f)}, {snn::Softmax()}, {snn::Dropout(0.3f), snn::L2Regularization(0.01f), snn::ErrorMultiplier(2.0f)}};
    const int at = mc::choose(2);
    if (a.layers[at].kind == POOL)
        return;
    a.layers[at].optimizers = mc::pick(sets);
    check(a, true);
}

MC_SCENARIO(larger_shapes)
{
    ArchSpec a;
    const bool map = mc::flag();
    const int c = mc::pick(mc::thorough() ? std::vector<int>{1, 2, 3, 4, 7} : std::vector<int>{1, 2, 5}), x = 1 + mc::choose(mc::thorough() ? 10 : 7), y = map ? 1 + mc::choose(mc::thorough() ? 10 : 7) : 0;
    a.input = map ? std::vector<int>{c, x, y} : std::vector<int>{c, x};
    LayerSpec l;
    l.kind = mc::pick(std::vector<Kind>{CONV, LC, POOL});
    l.n = l.kind == POOL ? 1 : 1 + mc::choose(3);
    l.k = 1 + mc::choose(map ? std::min(x, y) : x);
    a.layers = {l, LayerSpec{FC, 2}};
    check(a, false);
}

MC_SCENARIO_SPLIT(large_networks, 2) // many inputs, neurons, filters, channels, positions or layers
{
    auto a = large();
    a.lr = 1e-4f;
    check(a, false);
}

MC_SCENARIO(large_products) // many neurons with many inputs: more than 65536 parameters
{
    auto a = largeProduct();
    a.lr = 1e-5f;
    check(a, false);
}

MC_SCENARIO_THOROUGH(four_layers)
{
    auto b = bounds();
    b.inputs = {{5}, {3, 4}, {2, 4, 3}};
    b.layers = layers({2}, {1, 2}, {1, 2});
    auto a = grammar::choose(b, 4);
    mixActivations(a);
    check(a, false);
}
