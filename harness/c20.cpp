// C20: a NaN or an infinite output is always detected, stops the training, and never reaches the metrics or the files.
#define MC_MAIN
#include "ops.hpp"
#include <bit>
using namespace ops;

static bool special(float v) { return (std::bit_cast<uint32_t>(v) & 0x7f800000u) == 0x7f800000u; }
static bool special(const V& v) { return std::ranges::any_of(v, [](float x) { return special(x); }); }
static bool isNan(double v)
{
    const auto b = std::bit_cast<uint64_t>(v);
    return (b & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (b & 0xfffffffffffffull);
}

static const std::vector<uint32_t> poisons = {0x7fc00000u, 0xffc00000u, 0x7f800000u, 0xff800000u, 0x7fffffffu, 0x7f7fffffu /* the largest number: overflows */};

static const std::vector<ArchSpec>& nets()
{
    static const std::vector<ArchSpec> n = {
        {{2}, {{FC, 2, 1, activation::identity}}},
        {{2}, {{FC, 2, 1, activation::sigmoid}}},
        {{2}, {{FC, 3, 1, activation::ReLU}, {FC, 2, 1, activation::tanh}}},
        {{2}, {{FC, 2, 1, activation::GELU}, {FC, 2, 1, activation::gaussian}}},
        {{2}, {{FC, 2, 1, activation::iSigmoid}, {FC, 2, 1, activation::identity}}},
        {{2}, {{RNN, 2, 1, activation::tanh}, {FC, 2, 1, activation::identity}}},
        {{2}, {{GRU, 2}, {FC, 2, 1, activation::identity}}},
        {{1, 2}, {{CONV, 2, 1, activation::tanh}, {FC, 2, 1, activation::identity}}},
        {{1, 2}, {{LC, 1, 2, activation::identity}, {FC, 2, 1, activation::identity}}},
        {{1, 2}, {{POOL, 1, 1}, {FC, 2, 1, activation::identity}}},
        {{1, 1, 2}, {{CONV, 2, 1, activation::identity}, {FC, 2, 1, activation::sigmoid}}},
        {{1, 1, 2}, {{LC, 2, 1, activation::identity}, {POOL, 1, 1}, {FC, 2, 1, activation::tanh}}},
    };
    return n;
}

static void judgeMetrics(const Net& n, const std::string& what)
{
    const double m[] = {n.getGlobalClusteringRate(), n.getWeightedClusteringRate(), n.getF1Score(), n.getMeanAbsoluteError(), n.getRootMeanSquaredError()};
    for (int i = 0; i < 5; ++i)
        MC_CHECK(isNan(m[i]), "metrics", "%s: metric %d is %g although the network is broken", what.c_str(), i, m[i]);
    const double best[] = {n.getGlobalClusteringRateMax(), n.getWeightedClusteringRateMax(), n.getF1ScoreMax(), n.getMeanAbsoluteErrorMin(), n.getRootMeanSquaredErrorMin()};
    for (int i = 0; i < 5; ++i)
        MC_CHECK(!isNan(best[i]), "best metrics", "%s: best metric %d is NaN", what.c_str(), i);
}

// Histories of outputs, trainings and evaluations with and without poison.
MC_SCENARIO_SPLIT(histories, 3)
{
    const auto& a = mc::pick(nets());
    const float poison = std::bit_cast<float>(mc::pick(poisons));
    auto net = make(a);
    setWeights(*net, 9);
    bool broken = false;
    std::string what = describe(a) + mc::format(" poison %08x:", std::bit_cast<uint32_t>(poison));
    const int length = mc::thorough() ? 4 : 3;
    bool poisoned = false; // the memory of recurrent layers
    for (int i = 0; i < length; ++i)
    {
        const int op = mc::choose(6);
        V x = values(i + 1, 2);
        const V y = {0.25f, 0.5f};
        if (op == 1 || op == 3)
            x[i % 2] = poison;
        const auto before = weights(*net);
        mc::step();
        if (op < 2)
        {
            const V o = net->computeOutput(x, true);
            what += " output" + u::text(x) + "=" + u::text(o);
            broken |= special(o);
        }
        else if (op < 4)
        {
            Net copy(*net);
            const bool wasBroken = broken;
            const V o = copy.computeOutput(x, true);
            broken |= special(o);
            net->trainOnce(x, y);
            what += " train" + u::text(x) + " output " + u::text(o);
            MC_CHECK(!broken || u::same(before, weights(*net)), "training of a broken network", "%s: the weights change%s", what.c_str(), wasBroken ? " again" : "");
        }
        else if (op == 4)
        {
            auto d = data(*net, i);
            net->evaluate(*d);
            what += " evaluate";
            if (broken)
                judgeMetrics(*net, what);
            else
                broken |= net->hasNan(); // weights which became special in a training
        }
        else
        {
            Net copy(*net); // a copy is broken too
            MC_CHECK(copy.hasNan() == broken, "copy", "%s: the copy has %d", what.c_str(), copy.hasNan());
            what += " copy";
        }
        MC_CHECK(net->hasNan() == broken, "detection", "%s: hasNan() is %d", what.c_str(), net->hasNan());
        poisoned |= broken;
    }
    mc::note("%s", what.c_str());
    if (broken)
    {
        const auto before = weights(*net);
        auto d = data(*net, 3);
        net->train(*d, snn::operator""_ep(3ull), 1, 1); // ends at once
        MC_CHECK(!net->isTraining() && u::same(before, weights(*net)) && net->hasNan(), "training", "%s: a broken network is trained", what.c_str());
        judgeMetrics(*net, what + " train");
        net->waitFor(snn::operator""_ep(1000000ull));
    }
    mc::state(mc::hash(what));
    mc::outcome(mc::format("%d", broken));
}

// A poison at each position of the data stops the training at this position.
MC_SCENARIO_SPLIT(training_stops, 3)
{
    const auto& a = mc::pick(nets());
    const float poison = std::bit_cast<float>(mc::pick(poisons));
    const bool testing = mc::flag();
    const int items = 4, position = mc::choose(items), frequency = mc::choose(3);
    const bool async = mc::flag();
    auto net = make(a);
    setWeights(*net, 9);
    sgd(*net)->learningRate = 1e-6f;
    VV X, Y, tX;
    for (int i = 0; i < items; ++i)
    {
        X.push_back(values(i + 1, 2));
        Y.push_back({i % 2 ? 1.0f : 0.0f, i % 2 ? 0.0f : 1.0f});
    }
    tX = X;
    (testing ? tX : X)[position][0] = poison;
    Net probe(*net);
    const bool breaks = special(probe.computeOutput((testing ? tX : X)[position], true));
    Data d(problem::classification, X, Y, tX, Y);
    const std::string path = mc::scratchDir() + "/c20.snn";
    std::filesystem::remove(path);
    net->autoSaveFilePath = path;
    net->autoSaveWhenBetter = true;
    const std::string what = describe(a) + mc::format(" poison %08x in the %s data %d, evaluation every %d epochs%s", std::bit_cast<uint32_t>(poison), testing ? "testing" : "training", position, frequency, async ? ", async" : "");
    mc::note("%s", what.c_str());
    mc::step();
    if (async)
    {
        net->startTrainingAsync(d, 1, frequency);
        net->waitFor(breaks && (!testing || frequency > 0) ? snn::operator""_ep(1000000ull) : snn::operator""_ep(3ull)); // ends because of the NaN
        if (breaks && (!testing || frequency > 0))
            for (int i = 0; net->isTraining() && i < 20000; ++i)
                usleep(100);
        MC_CHECK(!net->isTraining() || !breaks || (testing && frequency == 0), "termination", "%s: the training goes on", what.c_str());
        net->stopTrainingAsync();
    }
    else
        net->train(d, snn::operator""_ep(4ull), 1, frequency);
    const bool detected = breaks && (!testing || frequency > 0);
    if (breaks || testing) // a poison which does not break the output can still break the weights
        MC_CHECK(net->hasNan() == detected, "detection", "%s: hasNan() is %d", what.c_str(), net->hasNan());
    for (const auto& l : weights(*net))
        for (const auto& n : l)
            MC_CHECK(!special(n) || !breaks, "weights", "%s: the weights are %s", what.c_str(), u::text(n).c_str());
    if (detected)
    {
        if (testing || frequency == 1) // evaluated after the detection
            judgeMetrics(*net, what);
        const int done = (int)net->getNumberOfTraining();
        MC_CHECK(testing ? done == 0 : done <= items, "termination", "%s: %d trainings", what.c_str(), done);
    }
    else if (!async && !net->hasNan())
        MC_CHECK(net->getNumberOfTraining() == 3 * items || net->getNumberOfTraining() == 4 * items, "termination", "%s: %d trainings", what.c_str(), (int)net->getNumberOfTraining());
    if (breaks && std::filesystem::exists(path))
    {
        auto saved = load(path);
        MC_CHECK(!isNan(saved->getGlobalClusteringRate()) && !saved->hasNan(), "automatic save", "%s: a broken network is saved", what.c_str());
        for (const auto& l : weights(*saved))
            for (const auto& n : l)
                MC_CHECK(!special(n), "automatic save", "%s: broken weights are saved", what.c_str());
    }
    MC_CHECK(!(testing && detected && position == 0 && std::filesystem::exists(path)), "automatic save", "%s: saved", what.c_str());
    mc::state(mc::hash(what));
    mc::outcome(mc::format("%d %d", breaks, detected));
}

MC_SCENARIO_SPLIT(weights_and_labels, 2) // a poison in one weight, or in the expected output
{
    const auto& a = mc::pick(nets());
    const float poison = std::bit_cast<float>(mc::pick(poisons));
    auto net = make(a);
    setWeights(*net, 9);
    std::string what = describe(a) + mc::format(" poison %08x", std::bit_cast<uint32_t>(poison));
    const bool label = mc::flag();
    if (label)
    {
        V y = {0.5f, 0.5f};
        y[mc::choose(2)] = poison;
        net->trainOnce(values(1, 2), y);
        what += " in the label";
    }
    else
    {
        const int l = mc::choose((int)a.layers.size());
        if (a.layers[l].kind == POOL || a.layers[l].kind == GRU)
            return;
        const int n = mc::choose(net->layers[l]->getNumberOfNeurons());
        V w = neuronWeights(*net, l, n);
        const int i = mc::choose((int)w.size());
        w[i] = poison;
        setNeuronWeights(*net, l, n, w);
        what += mc::format(" in the weight %d of the neuron %d of the layer %d", i, n, l);
    }
    mc::note("%s", what.c_str());
    bool broken = net->hasNan();
    MC_CHECK(!broken, "detection", "%s: detected before any output", what.c_str());
    for (int i = 0; i < 3; ++i)
    {
        const V o = net->computeOutput(values(5 + i, 2), true);
        broken |= special(o);
        MC_CHECK(net->hasNan() == broken, "detection", "%s: hasNan() is %d with output %s", what.c_str(), net->hasNan(), u::text(o).c_str());
        const auto before = weights(*net);
        if (!broken && !label)
        {
            Net copy(*net);
            broken = special(copy.computeOutput(values(9, 2), true));
            net->trainOnce(values(9, 2), {0.1f, 0.2f});
            MC_CHECK(!broken || u::same(before, weights(*net)), "training of a broken network", "%s: the weights change", what.c_str());
            MC_CHECK(net->hasNan() == broken, "detection", "%s: hasNan() is %d after a training", what.c_str(), net->hasNan());
        }
        mc::step(2);
    }
    mc::state(mc::hash(what));
    mc::outcome(mc::format("%d", broken));
}

// A poison at each position of the testing data of every problem and nature of data, evaluated alone or by a training.
MC_SCENARIO_SPLIT(evaluations, 2)
{
    static const std::vector<ArchSpec> some = {
        {{2}, {{FC, 2, 1, activation::identity}}},
        {{2}, {{FC, 2, 1, activation::sigmoid}}},
        {{2}, {{RNN, 2, 1, activation::tanh}, {FC, 2, 1, activation::identity}}},
        {{2}, {{GRU, 2}, {FC, 2, 1, activation::tanh}}},
        {{1, 2}, {{CONV, 2, 1, activation::tanh}, {FC, 2, 1, activation::identity, {snn::Softmax()}}}},
    };
    const auto& a = mc::pick(some);
    const auto type = std::vector<problem>{problem::classification, problem::multipleClassification, problem::regression}[mc::choose(3)];
    const auto kind = std::vector<snn::nature>{snn::nature::nonTemporal, snn::nature::sequential, snn::nature::timeSeries}[mc::choose(3)];
    const float poison = std::bit_cast<float>(mc::pick(poisons));
    const int items = 4, position = mc::choose(items + 1) - 1; // -1: no poison
    const bool train = mc::flag();
    auto net = make(a);
    setWeights(*net, 9);
    sgd(*net)->learningRate = 1e-6f;
    VV X, Y, tX;
    for (int i = 0; i < items; ++i)
    {
        X.push_back(values(i + 1, 2));
        Y.push_back({i % 2 ? 1.0f : 0.0f, i % 2 ? 0.0f : 1.0f});
    }
    tX = X;
    if (position >= 0)
        tX[position][0] = poison;
    std::unique_ptr<Data> d;
    if (kind == snn::nature::sequential)
    {
        VVV S = {{X[0]}, {X[1]}, {X[2]}, {X[3]}}, T = {{tX[0]}, {tX[1]}, {tX[2]}, {tX[3]}};
        if (mc::flag()) // only the last data of the sequences are evaluated
        {
            S = {{X[0], X[1]}, {X[2], X[3]}};
            T = {{tX[0], tX[1]}, {tX[2], tX[3]}};
        }
        d = std::make_unique<Data>(type, S, Y, T, Y, kind);
    }
    else
        d = std::make_unique<Data>(type, X, Y, tX, Y, kind, kind == snn::nature::timeSeries ? 1 : 0);
    // what the network gives on the testing data, in order
    bool breaks = false;
    {
        Net probe(*net);
        for (int i = 0; i < items && !breaks; ++i)
            breaks = special(probe.computeOutput(tX[i], d->isFirstTestingDataOfTemporalSequence(i)));
    }
    const std::string path = mc::scratchDir() + "/c20e.snn";
    std::filesystem::remove(path);
    net->autoSaveFilePath = path;
    net->autoSaveWhenBetter = true;
    const std::string what = describe(a) + mc::format(" poison %08x in the testing data %d, problem %d nature %d sequences %d, %s", std::bit_cast<uint32_t>(poison), position, (int)type, (int)kind, d->sets[snn::testing].numberOfTemporalSequence, train ? "training" : "evaluation");
    mc::note("%s", what.c_str());
    mc::step();
    const auto before = weights(*net);
    if (train)
        net->train(*d, snn::operator""_ep(2ull), 1, 1);
    else
        net->evaluate(*d);
    MC_CHECK(net->hasNan() == breaks, "detection", "%s: hasNan() is %d", what.c_str(), net->hasNan());
    MC_CHECK(std::filesystem::exists(path) == !breaks, "automatic save", "%s: saved %d", what.c_str(), !breaks);
    if (breaks)
    {
        judgeMetrics(*net, what);
        MC_CHECK(net->getGlobalClusteringRateMax() == -1.0f && net->getMeanAbsoluteErrorMin() == -1.0f && net->getF1ScoreMax() == -1.0f && net->getWeightedClusteringRateMax() == -1.0f && net->getRootMeanSquaredErrorMin() == -1.0f, "best metrics", "%s: a best metric is updated", what.c_str());
        MC_CHECK(net->getNumberOfTraining() == 0 && u::same(before, weights(*net)), "training of a broken network", "%s: %d trainings", what.c_str(), (int)net->getNumberOfTraining());
    }
    mc::state(mc::hash(what));
    mc::outcome(mc::format("%d", breaks));
}

// A poison in one output among many: at each place, it is detected.
MC_SCENARIO(large_outputs)
{
    const int n = mc::pick(largeSizes());
    const float poison = std::bit_cast<float>(mc::pick(std::vector<uint32_t>{0x7fc00000u, 0x7f800000u, 0xff800000u}));
    const int way = mc::choose(4);
    ArchSpec a;
    a.input = {1};
    a.layers = {{FC, n, 1, activation::identity}};
    a.lr = 1e-6f;
    const auto net = make(a);
    setWeights(*net, 9);
    mc::note("%d outputs, poison %08x, way %d", n, std::bit_cast<uint32_t>(poison), way);
    VV X = {{0.5f}}, Y = {V(n, 0.25f)};
    Data d(problem::regression, X, Y);
    const int stride = std::max(1, n / (mc::thorough() ? 128 : 24));
    for (int i = 0; i < n; i = i == n - 1 ? n : std::min(i + stride, n - 1))
    {
        Net broken(*net);
        (void)broken.computeOutput({0.5f});
        MC_CHECK(!broken.hasNan(), "detection", "%d outputs: detected before", n);
        setNeuronWeights(broken, 0, i, {0.0f, poison});
        const auto before = weights(broken);
        mc::step();
        if (way == 0)
            (void)broken.computeOutput({0.5f});
        else if (way == 1)
            (void)broken.computeCluster({0.5f});
        else if (way == 2)
            broken.trainOnce({0.5f}, Y[0]);
        else
            broken.evaluate(d);
        MC_CHECK(broken.hasNan(), "detection", "%d outputs, the one at %d is %08x, way %d: not detected", n, i, std::bit_cast<uint32_t>(poison), way);
        MC_CHECK(u::same(before, weights(broken)), "training of a broken network", "%d outputs, way %d: the weights change", n, way);
        if (way == 3)
            judgeMetrics(broken, mc::format("%d outputs, the one at %d is broken", n, i));
        mc::state(mc::mix(mc::mix(n, i), way));
    }
}
