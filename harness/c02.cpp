// C02: a network can be observed during its training: in every schedule the readings are free of data races, are values
// the training published, and do not change the training.
#define MC_MAIN
#include "threads.hpp"
#include <array>
#include <cstring>
using namespace threads;

struct Seen
{
    int epoch = 0;
    int64_t trainings = 0;
    float best = -1, lowest = -1;
};

enum Read { EPOCH, INDEX, TRAININGS, RATE, RATES, ERRORS, BEST, STATE, NUMBERS, SUMMARY, BETWEEN, WAIT, READS };
static const char* readName[] = {"epoch", "index", "trainings", "rate", "rates", "errors", "best", "state", "numbers", "summary", "trainings between evaluations", "wait"};

static bool rate(float v, int items)
{
    if (v == -1.0f)
        return true;
    for (int i = 0; i <= items; ++i)
        if (std::fabs(v - (float)i / items) < 1e-6)
            return true;
    return false;
}

static bool error(float v) { return v == -1.0f || (v >= 0 && v < 100); }

static void read(const Net& net, const Data& d, int what, Seen& seen)
{
    const int train = d.sets[snn::training].size, test = d.sets[snn::testing].size;
    switch (what)
    {
    case EPOCH:
    {
        const int e = net.getCurrentEpoch();
        MC_CHECK(e >= seen.epoch && e <= 1000, "epoch", "epoch %d after %d", e, seen.epoch);
        seen.epoch = e;
        break;
    }
    case INDEX:
    {
        const int i = net.getCurrentIndex();
        MC_CHECK(i >= 0 && i <= std::max(train, test), "index", "index %d", i);
        break;
    }
    case TRAININGS:
    {
        const auto t = net.getNumberOfTraining();
        MC_CHECK(t >= seen.trainings, "trainings", "%lld trainings after %lld", (long long)t, (long long)seen.trainings);
        seen.trainings = t;
        break;
    }
    case RATE:
    {
        const float v = net.getGlobalClusteringRate();
        MC_CHECK(rate(v, test), "rate", "rate %g", v);
        break;
    }
    case RATES:
    {
        const float w = net.getWeightedClusteringRate(), f = net.getF1Score();
        MC_CHECK((w == -1 || (w >= 0 && w <= 1)) && (f == -1 || (f >= 0 && f <= 1)), "rate", "weighted rate %g, F1 score %g", w, f);
        break;
    }
    case ERRORS:
    {
        const float m = net.getMeanAbsoluteError(), r = net.getRootMeanSquaredError();
        MC_CHECK(error(m) && error(r), "error", "errors %g %g", m, r);
        break;
    }
    case BEST:
    {
        const float g = net.getGlobalClusteringRateMax(), m = net.getMeanAbsoluteErrorMin();
        MC_CHECK(rate(g, test) && g >= seen.best, "best", "best rate %g after %g", g, seen.best);
        MC_CHECK(error(m) && (seen.lowest < 0 || m <= seen.lowest), "best", "lowest error %g after %g", m, seen.lowest);
        const float w = net.getWeightedClusteringRateMax(), f = net.getF1ScoreMax(), r = net.getRootMeanSquaredErrorMin();
        MC_CHECK((w == -1 || (w >= 0 && w <= 1)) && (f == -1 || (f >= 0 && f <= 1)) && error(r), "best", "%g %g %g", w, f, r);
        seen.best = g;
        seen.lowest = m;
        break;
    }
    case STATE:
        MC_CHECK(net.isTraining() && !net.hasNan(), "state", "not training, or NaN");
        break;
    case NUMBERS:
        MC_CHECK(net.getNumberOfInputs() > 0 && net.getNumberOfOutputs() > 0 && net.getNumberOfLayers() > 0 && net.getNumberOfNeurons() >= 0 && net.getNumberOfParameters() > 0, "numbers", "numbers");
        break;
    case SUMMARY:
    {
        const auto s = net.summary();
        MC_CHECK(s.find("Epochs") != std::string::npos && s.find("Layers") != std::string::npos, "summary", "%s", s.c_str());
        break;
    }
    case BETWEEN:
    {
        const int b = net.getNumberOfTrainingsBetweenTwoEvaluations();
        MC_CHECK(b >= 0 && b <= train, "between", "%d", b);
        break;
    }
    case WAIT:
        net.waitFor(1_ep);
        MC_CHECK(net.getCurrentEpoch() > 1, "wait", "epoch %d", net.getCurrentEpoch());
        break;
    }
}

// The training of the background is the one of a twin network, stopped after the same number of trainings.
static void sameAsTwin(const Net& net, Net& twin, Data& d, const std::vector<bool>& first)
{
    const auto trainings = net.getNumberOfTraining();
    MC_CHECK(trainings < 100000, "trainings", "%lld trainings", (long long)trainings);
    for (int64_t t = 0; t < trainings; ++t)
        twin.trainOnce(d.sets[snn::training].inputs[0], d.sets[snn::training].labels[0], first[0]);
    MC_CHECK(weights(net) == weights(twin), "weights", "the weights are not the ones of %lld trainings", (long long)trainings);
}

static void observe(const ArchSpec& a, const std::vector<int>& reads, int items, const sched::Options& o, int readers = 0, bool twins = true)
{
    auto net = make(a);
    setWeights(*net, 3, 0.5f);
    auto twin = make(a);
    setWeights(*twin, 3, 0.5f);
    auto d = data(*net, items);
    std::string text;
    for (int r : reads)
        text += std::string(readName[r]) + ", ";
    mc::note("%s: start, %sstop; %d data, %d more readers", describe(a).c_str(), text.c_str(), items, readers);
    run(o, [&]
    {
        sched::watch(net.get(), sizeof(Net));
        net->startTrainingAsync(*d);
        std::vector<std::thread> others;
        for (int i = 0; i < readers; ++i)
            others.emplace_back([&]
            {
                Seen s;
                for (int r : reads)
                    read(*net, *d, r, s);
            });
        Seen seen;
        if (readers == 0)
            for (int r : reads)
                read(*net, *d, r, seen);
        for (auto& t : others)
            t.join();
        net->stopTrainingAsync();
        if (twins && items == 1)
            sameAsTwin(*net, *twin, *d, {true});
        mc::outcome(mc::mix(net->getNumberOfTraining(), hashWeights(*net)));
        net.reset();
    });
}

MC_SCENARIO_THREADS(readings) // every sequence of readings
{
    std::vector<int> reads;
    const int length = 1 + mc::choose(mc::thorough() ? 3 : 2);
    for (int i = 0; i < length; ++i)
        reads.push_back(mc::choose(READS));
    sched::Options o;
    o.preemptions = 1;
    o.together = true;
    observe(smallest(), reads, 1, o);
}

MC_SCENARIO_THREADS(more_preemptions)
{
    sched::Options o;
    o.preemptions = mc::thorough() ? 3 : 2;
    const int r = mc::choose(READS);
    o.together = false;
    observe(smallest(), {r}, 1, o);
}

static std::vector<ArchSpec> architectures()
{
    std::vector<ArchSpec> r;
    const auto add = [&](std::vector<int> input, std::vector<LayerSpec> layers)
    {
        ArchSpec a;
        a.input = input;
        a.layers = layers;
        r.push_back(a);
    };
    LayerSpec dropout{FC, 2, 1, activation::tanh};
    dropout.optimizers = {snn::Dropout(0.4f)};
    LayerSpec softmax{FC, 2, 1, activation::sigmoid};
    softmax.optimizers = {snn::Softmax()};
    add({2}, {dropout, softmax});
    add({2}, {{RNN, 1, 1, activation::tanh}, {FC, 1, 1, activation::sigmoid}});
    add({2}, {{GRU, 1}, {FC, 1, 1, activation::sigmoid}});
    add({1, 3}, {{CONV, 1, 2, activation::ReLU}, {POOL, 1, 2}});
    add({1, 3, 3}, {{CONV, 1, 2, activation::tanh}, {LC, 1, 2, activation::tanh}, {FC, 1, 1, activation::tanh}});
    return r;
}

MC_SCENARIO_THREADS(every_layer) // the reading of a network with every kind of layer
{
    sched::Options o;
    o.preemptions = 1;
    o.together = true;
    const auto a = mc::pick(architectures());
    const int r = mc::choose(READS);
    observe(a, {r, STATE}, 1 + mc::choose(2), o, 0, false);
}

MC_SCENARIO_THREADS(several_readers) // a reader in another thread, with the training and the main thread
{
    sched::Options o;
    o.preemptions = 1;
    o.together = true;
    const int first = mc::choose(READS), second = mc::choose(READS);
    observe(smallest(), {first, second}, 1, o, 1 + mc::choose(mc::thorough() ? 2 : 1));
}

MC_SCENARIO_THREADS(auto_save) // the training thread saves the network
{
    sched::Options o;
    o.preemptions = 1;
    o.quantum = 400;
    o.together = true;
    const int r = mc::choose(READS);
    auto net = make(smallest());
    setWeights(*net, 3, 0.5f);
    auto d = data(*net, 1);
    const std::string path = mc::scratchDir() + "/auto.snn";
    net->autoSaveWhenBetter = true;
    net->autoSaveFilePath = path;
    mc::note("auto save, %s", readName[r]);
    std::filesystem::remove(path);
    run(o, [&]
    {
        sched::watch(net.get(), sizeof(Net));
        Seen s;
        net->startTrainingAsync(*d);
        read(*net, *d, r, s);
        net->stopTrainingAsync();
        if (net->getGlobalClusteringRateMax() > -1)
        {
            auto loaded = load(path);
            MC_CHECK(!loaded->isTraining() && loaded->isValid() == 0, "saved", "the saved network is not idle or not valid");
        }
        net.reset();
    });
    std::filesystem::remove(path);
}

MC_SCENARIO_THREADS(worse_evaluations) // the evaluations of the training are worse and worse
{
    sched::Options o;
    const int first = mc::pick(std::vector<int>{BEST, RATE, RATES, ERRORS}), second = mc::thorough() || first != BEST ? mc::pick(std::vector<int>{BEST, RATE, RATES, ERRORS}) : BEST;
    o.preemptions = mc::thorough() || first == BEST ? 2 : 1;
    const int sleeps = mc::choose(mc::thorough() ? 3 : 1);
    const int kind = mc::choose(2);
    auto a = smallest();
    a.lr = 0.9f;
    if (kind == 1)
        a.layers[0].n = 2;
    auto net = make(a);
    for (int n = 0; n < a.layers[0].n; ++n)
        setNeuronWeights(*net, 0, n, {n == 0 ? 1.4f : -1.4f, 0.0f});
    VV X = {{1.0f}}, x = X;
    VV Y = kind == 0 ? VV{{-0.9f}} : VV{{0.0f, 1.0f}}, y = kind == 0 ? VV{{0.9f}} : VV{{1.0f, 0.0f}};
    auto d = std::make_unique<Data>(kind == 0 ? problem::regression : problem::classification, X, Y, x, y);
    if (kind == 0)
        d->setPrecision(0.2f);
    mc::note("%s: start, wait, %s, wait, %s, stop", describe(a).c_str(), readName[first], readName[second]);
    run(o, [&]
    {
        sched::watch(net.get(), sizeof(Net));
        Seen s;
        net->startTrainingAsync(*d);
        std::this_thread::sleep_for(std::chrono::milliseconds(1 + sleeps));
        read(*net, *d, first, s);
        std::this_thread::sleep_for(std::chrono::microseconds(200));
        read(*net, *d, second, s);
        net->stopTrainingAsync();
        mc::outcome(mc::mix((int)(s.best * 10), net->getNumberOfTraining()));
        net.reset();
    });
}

MC_SCENARIO_THREADS(synchronous) // another thread observes a training of the foreground, from its beginning to its end
{
    sched::Options o;
    o.together = true;
    o.quantum = 400;
    const int r = mc::pick(std::vector<int>{EPOCH, INDEX, TRAININGS, RATE, RATES, ERRORS, BEST, NUMBERS, SUMMARY, BETWEEN});
    const int items = 1 + mc::choose(2), frequency = mc::choose(2), epochs = 1 + mc::choose(mc::thorough() ? 2 : 1);
    o.preemptions = mc::thorough() ? 2 : 1;
    auto net = make(smallest());
    auto twin = make(smallest());
    setWeights(*net, 3, 0.5f);
    setWeights(*twin, 3, 0.5f);
    auto d = data(*net, items), e = data(*net, items);
    mc::note("train %d epochs of %d data, frequency %d; another thread reads the state, %s, the state", epochs, items, frequency, readName[r]);
    run(o, [&]
    {
        sched::watch(net.get(), sizeof(Net));
        std::thread observer([&]
        {
            Seen s;
            bool begun = false, over = false;
            int64_t trainings = 0;
            int epoch = 0;
            for (int i = 0; i < 6; ++i)
            {
                const bool between = net->getNumberOfTrainingsBetweenTwoEvaluations() > 0;
                begun = begun || between;
                const bool training = net->isTraining();
                MC_CHECK(!over || !training, "state", "training again");
                if (begun && !training && !over) // it began and is no more training: it is over
                {
                    over = true;
                    trainings = net->getNumberOfTraining();
                    epoch = net->getCurrentEpoch();
                    MC_CHECK(trainings == (int64_t)epochs * items, "state", "not training any more after %lld trainings", (long long)trainings);
                }
                if (over)
                    MC_CHECK(net->getNumberOfTraining() == trainings && net->getCurrentEpoch() == epoch && net->getCurrentIndex() == 0, "state", "the training continues when it is over");
                read(*net, *d, r, s);
                std::this_thread::sleep_for(std::chrono::microseconds(i < 3 ? 100 : 1000));
            }
        });
        net->train(*d, snn::Wait(epochs == 1 ? 1_ep : 2_ep), 1, frequency);
        MC_CHECK(!net->isTraining() && net->getNumberOfTraining() == (int64_t)epochs * items, "end", "%lld trainings", (long long)net->getNumberOfTraining());
        observer.join();
        if (items == 1)
            sameAsTwin(*net, *twin, *e, {true});
        mc::outcome(mc::mix(net->getNumberOfTraining(), hashWeights(*net)));
    });
}

static std::array<float, 10> metricsOf(const Net& net)
{
    return {net.getGlobalClusteringRate(), net.getWeightedClusteringRate(), net.getF1Score(), net.getMeanAbsoluteError(), net.getRootMeanSquaredError(),
            net.getGlobalClusteringRateMax(), net.getWeightedClusteringRateMax(), net.getF1ScoreMax(), net.getMeanAbsoluteErrorMin(), net.getRootMeanSquaredErrorMin()};
}

static float metric(const Net& net, int m)
{
    switch (m)
    {
    case 0: return net.getGlobalClusteringRate();
    case 1: return net.getWeightedClusteringRate();
    case 2: return net.getF1Score();
    case 3: return net.getMeanAbsoluteError();
    case 4: return net.getRootMeanSquaredError();
    case 5: return net.getGlobalClusteringRateMax();
    case 6: return net.getWeightedClusteringRateMax();
    case 7: return net.getF1ScoreMax();
    case 8: return net.getMeanAbsoluteErrorMin();
    default: return net.getRootMeanSquaredErrorMin();
    }
}

MC_SCENARIO_THREADS(published_values) // every value read is the one of an evaluation, and the evaluations come in order
{
    static const char* names[] = {"global rate", "weighted rate", "F1 score", "absolute error", "square error", "best global rate", "best weighted rate", "best F1 score", "lowest absolute error", "lowest square error"};
    const int kind = mc::choose(3);
    const int m = mc::choose(10);
    const bool better = m < 5 && !mc::thorough() ? true : mc::flag();
    sched::Options o;
    o.preemptions = mc::thorough() ? 2 : 1;
    o.together = true;
    auto a = smallest();
    a.input = {2};
    a.layers[0].n = 3;
    a.lr = 0.3f;
    auto net = make(a), twin = make(a);
    for (auto* n : {net.get(), twin.get()})
        for (int i = 0; i < 3; ++i)
            setNeuronWeights(*n, 0, i, {0.9f - 0.7f * i, 0.3f * i - 0.5f, 0.1f});
    VV X = {{0.8f, -0.6f}}, Y = {{0.0f, 1.0f, 0.0f}};
    if (!better)
        Y = {{1.0f, 0.0f, 0.0f}};
    VV x = {{0.7f, -0.5f}, {-0.9f, 0.4f}, {0.5f, 0.5f}}, y = {{0, 1, 0}, {1, 0, 0}, {0, 0, 1}};
    Data d(kind == 0 ? problem::classification : kind == 1 ? problem::multipleClassification : problem::regression, X, Y, x, y);
    if (kind == 2)
        d.setPrecision(0.5f);
    std::vector<std::array<float, 10>> values = {metricsOf(*twin)};
    for (int e = 0; e < 40; ++e)
    {
        if (e > 0)
            twin->trainOnce(X[0], Y[0], true);
        twin->evaluate(d);
        values.push_back(metricsOf(*twin));
    }
    mc::note("kind %d, the network gets %s; start, 2 readings of the %s, stop", kind, better ? "better" : "worse", names[m]);
    run(o, [&]
    {
        sched::watch(net.get(), sizeof(Net));
        net->startTrainingAsync(d);
        size_t index = 0;
        for (int i = 0; i < 3; ++i)
        {
            const float v = metric(*net, m);
            const size_t before = index;
            while (index < values.size() && std::memcmp(&values[index][m], &v, sizeof(v)) != 0)
                ++index;
            MC_CHECK(index < values.size(), "published", "the %s %.9g is not the one of an evaluation after the number %d", names[m], v, (int)before - 1);
            std::this_thread::sleep_for(std::chrono::microseconds(i == 0 ? 1500 : 600));
        }
        net->stopTrainingAsync();
        mc::outcome(mc::mix(index, net->getNumberOfTraining()));
        net.reset();
    });
}
