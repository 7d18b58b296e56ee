// C07: the best metrics are the extremes of the evaluations, and the automatic save keeps exactly the best network.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "metrics.hpp"
using namespace metrics;
using snn::Wait;

static std::vector<Item> quality(int k) // classification data with accuracy k / 3 and various errors
{
    std::vector<Item> items;
    for (int i = 0; i < 3; ++i)
        items.push_back({i < k ? V{0.875f, 0.0f} : V{0.125f, 0.75f}, V{1, 0}});
    return items;
}

struct Best
{
    double value[5] = {-1, -1, -1, -1, -1};
    void add(const double (&m)[5])
    {
        for (int i = 0; i < 5; ++i)
            if (i < 3 ? m[i] > value[i] : value[i] < 0 || m[i] < value[i])
                value[i] = m[i];
    }
};

static void current(const Net& n, double (&m)[5])
{
    m[0] = n.getGlobalClusteringRate();
    m[1] = n.getWeightedClusteringRate();
    m[2] = n.getF1Score();
    m[3] = n.getMeanAbsoluteError();
    m[4] = n.getRootMeanSquaredError();
}

static void best(const Net& n, double (&m)[5])
{
    m[0] = n.getGlobalClusteringRateMax();
    m[1] = n.getWeightedClusteringRateMax();
    m[2] = n.getF1ScoreMax();
    m[3] = n.getMeanAbsoluteErrorMin();
    m[4] = n.getRootMeanSquaredErrorMin();
}

static void checkBest(const Net& net, const Best& b, const std::string& what)
{
    double got[5];
    best(net, got);
    for (int i = 0; i < 5; ++i)
        MC_CHECK(got[i] == b.value[i], "best metric", "%s: best metric %d is %.9g instead of %.9g", what.c_str(), i, got[i], b.value[i]);
}

static std::string fileOrNothing(const std::string& path)
{
    return std::filesystem::exists(path) ? readFile(path) : std::string("nothing");
}

MC_SCENARIO_SPLIT(history, 3)
{
    const int length = mc::thorough() ? 6 : 5;
    auto net = identity(2);
    const std::string dir = mc::scratchDir() + "/c07";
    std::filesystem::remove_all(dir);
    std::filesystem::create_directories(dir);
    net->autoSaveFilePath = dir + "/best.snn";
    net->autoSaveWhenBetter = true;
    Best b;
    bool nan = false;
    std::string what;
    for (int i = 0; i < length; ++i)
    {
        const int op = mc::choose(7);
        const std::string path = net->autoSaveFilePath;
        const std::string before = fileOrNothing(path);
        mc::step();
        setNeuronWeights(*net, 0, 0, {1.0f, 0.0f, 0.0001f * (i + 1)}); // another network, in the file too
        if (op < 4)
        {
            what += mc::format(" evaluate(%d)", op);
            auto d = data(problem::classification, quality(op), 0.5f);
            net->evaluate(*d);
            double m[5];
            current(*net, m);
            if (nan)
            {
                for (double v : m)
                    MC_CHECK(v != v, "nan metrics", "%s: %g", what.c_str(), v);
                MC_CHECK(fileOrNothing(path) == before, "save of NaN", "%s: the file changes", what.c_str());
                checkBest(*net, b, what);
                continue;
            }
            MC_CHECK(near(m[0], op / 3.0, 1e-6, 0), "accuracy", "%s: %g", what.c_str(), m[0]);
            const bool better = m[0] > b.value[0];
            b.add(m);
            checkBest(*net, b, what);
            const std::string after = fileOrNothing(path);
            if (better && net->autoSaveWhenBetter)
            {
                MC_CHECK(after != before && after != "nothing", "automatic save", "%s: the better network is not saved", what.c_str());
                auto loaded = load(path);
                MC_CHECK(*loaded == *net, "automatic save", "%s: the file is not the better network", what.c_str());
                const auto x = observe(*net);
                const auto y = observe(*loaded);
                MC_CHECK(memcmp(x.metrics.data(), y.metrics.data(), 10 * sizeof(double)) == 0 && same(x.weights, y.weights) && !y.training, "automatic save", "%s: the file differs:%s", what.c_str(), difference(x, y).c_str());
            }
            else
                MC_CHECK(after == before, "automatic save", "%s: the file changes although the network is not better", what.c_str());
        }
        else if (op == 4)
        {
            what += " autoSave";
            net->autoSaveWhenBetter = !net->autoSaveWhenBetter;
        }
        else if (op == 5)
        {
            what += " saveAs";
            net->saveAs(dir + "/best.snn" + (i % 2 ? "2" : ""));
        }
        else
        {
            what += " infinite";
            (void)net->computeOutput({INFINITY, 0.0f});
            nan = true;
        }
        const auto files = std::distance(std::filesystem::directory_iterator(dir), std::filesystem::directory_iterator());
        MC_CHECK(files <= 2, "files", "%s: %ld files", what.c_str(), (long)files);
        checkBest(*net, b, what);
        mc::state(mc::mix(mc::hash(what), 0));
        mc::outcome(mc::format("%g %d", b.value[0], nan));
    }
    mc::note("%s", what.c_str());
}

MC_SCENARIO_SPLIT(regression_history, 3) // metrics which move in opposite directions
{
    auto net = identity(2);
    Best b;
    std::string what;
    const int length = mc::thorough() ? 5 : 4;
    for (int i = 0; i < length; ++i)
    {
        const problem p = mc::flag() ? problem::regression : problem::multipleClassification;
        std::vector<Item> items;
        const int k = mc::choose(5);
        // a large error on one data, or small errors on both
        items.push_back({V{k == 0 ? 1.0f : k == 1 ? 0.6f : k == 2 ? 0.0f : k == 3 ? 5.0f : 0.9f, 1.0f}, V{1, 1}});
        items.push_back({V{k == 1 ? 0.6f : k == 2 ? 1.0f : k == 4 ? 0.2f : 1.0f, 0.0f}, V{1, 0}});
        auto d = data(p, items, 0.5f);
        net->evaluate(*d);
        double m[5];
        current(*net, m);
        b.add(m);
        what += mc::format(" %s(%d)", p == problem::regression ? "regression" : "multiple", k);
        mc::step();
        compare(*net, compute(p, items, 0.5f), what);
        checkBest(*net, b, what);
        mc::state(mc::hash(what));
        mc::outcome(mc::format("%g %g", b.value[3], b.value[4]));
    }
    mc::note("%s", what.c_str());
}

static void trained(bool longer)
{
    rng::alternatives = 0;
    rng::counter = 0;
    const auto T = activation::tanh, S = activation::sigmoid;
    const std::vector<ArchSpec> architectures = {
        {{2}, {{FC, 2, 1, S}}, 0.9f}, {{2}, {{FC, 3, 1, T, {snn::Dropout(0.3f)}}, {FC, 2, 1, S}}, 0.7f, 0.4f},
        {{1, 2}, {{LC, 2, 1, T}, {FC, 2, 1, S}}, 0.8f}, {{2, 1}, {{CONV, 2, 1, T}, {FC, 2, 1, S, {snn::Softmax()}}}, 0.5f}};
    auto a = mc::pick(architectures);
    if (longer)
        a.lr *= mc::pick(V{0.003f, 0.01f, 0.03f, 0.1f});
    auto net = make(a);
    setWeights(*net, 11 + mc::choose(4), 1.5f);
    VV X, Y, TX, TY;
    const int pattern = mc::choose(4);
    for (int i = 0; i < 4; ++i)
    {
        X.push_back({(float)(i & 1), (float)(i / 2)});
        const int c = pattern == 0 ? i & 1 : pattern == 1 ? i / 2 : pattern == 2 ? (i == 3) : ((i & 1) ^ (i / 2));
        Y.push_back(c ? V{0, 1} : V{1, 0});
    }
    Data d(problem::classification, X, Y);
    const std::string path = mc::scratchDir() + "/training.snn";
    std::filesystem::remove(path);
    net->autoSaveFilePath = path;
    net->autoSaveWhenBetter = true;
    Wait w;
    w.epochs = longer ? mc::thorough() ? 600 : 200 : 1 + mc::choose(8);
    const int frequency = 1 + mc::choose(2), batch = 1 + mc::choose(2);
    net->train(d, w, batch, frequency);
    mc::step(4 * w.epochs);
    const auto what = mc::format("%s pattern %d, %d epochs, frequency %d, batch %d: best accuracy %g, last %g", describe(a).c_str(), pattern, w.epochs, frequency, batch, net->getGlobalClusteringRateMax(), net->getGlobalClusteringRate());
    mc::note("%s", what.c_str());
    MC_CHECK(std::filesystem::exists(path) && !std::filesystem::exists(path + ".tmp"), "file", "%s", what.c_str());
    auto loaded = load(path);
    MC_CHECK(!loaded->isTraining() && loaded->getGlobalClusteringRate() == net->getGlobalClusteringRateMax() && loaded->getGlobalClusteringRateMax() == net->getGlobalClusteringRateMax(), "saved metrics", "%s: %g in the file", what.c_str(), loaded->getGlobalClusteringRate());
    loaded->autoSaveWhenBetter = false;
    const float best = loaded->getGlobalClusteringRate();
    loaded->evaluate(d);
    MC_CHECK(loaded->getGlobalClusteringRate() == best, "saved network", "%s: the network of the file has an accuracy of %g", what.c_str(), loaded->getGlobalClusteringRate());
    mc::state(hashWeights(*net));
    mc::outcome(mc::format("%g %g", net->getGlobalClusteringRateMax(), net->getGlobalClusteringRate()));
}

MC_SCENARIO_SPLIT(training, 3) // the file of a training is the network which reached the best accuracy
{
    trained(false);
}

MC_SCENARIO_SPLIT(long_training, 2) // which may be reached late
{
    trained(true);
}

// The accuracy of the evaluations follows an order over a long time: the best one, and the file, at every moment.
MC_SCENARIO(long_history)
{
    const int length = mc::thorough() ? 700 : 150;
    const int order = mc::choose(6), kind = mc::choose(2);
    const int at = mc::pick(std::vector<int>{1, 7, 16, 20, 32, 50, 64, 100, 128, 140}); // where the order changes
    auto net = identity(2);
    const std::string path = mc::scratchDir() + "/long.snn";
    std::filesystem::remove(path);
    net->autoSaveFilePath = path;
    net->autoSaveWhenBetter = true;
    Best b;
    const std::string what = mc::format("order %d at %d, %s", order, at, kind ? "accuracy" : "error");
    mc::note("%s", what.c_str());
    for (int i = 0; i < length; ++i)
    {
        // a level between 0 and 1
        const double t = (double)i / length;
        const double level = order == 0 ? t : order == 1 ? 1 - t : order == 2 ? (i < at ? 0.2 : 0.6) : order == 3 ? (i < at ? 0.6 : 0.2) : order == 4 ? (i == at ? 0.9 : 0.3) : 0.5 + 0.4 * ((i + at) % 7 - 3) / 3 * t;
        setNeuronWeights(*net, 0, 0, {1.0f, 0.0f, 1e-5f * (float)(i + 1)}); // another network, in the file too
        std::vector<Item> items;
        if (kind)
        {
            for (int k = 0; k < 10; ++k)
                items.push_back({k < std::lround(level * 10) ? V{0.875f, 0.0f} : V{0.125f, 0.75f}, V{1, 0}});
        }
        else
            items.push_back({V{(float)(2 - level), 0.0f}, V{1, 0}});
        const std::string before = fileOrNothing(path);
        auto d = data(kind ? problem::classification : problem::regression, items, 0.5f);
        net->evaluate(*d);
        mc::step();
        double m[5];
        current(*net, m);
        const bool better = m[0] > b.value[0];
        b.add(m);
        checkBest(*net, b, mc::format("%s, evaluation %d", what.c_str(), i));
        const std::string after = fileOrNothing(path);
        MC_CHECK(better == (after != before), "automatic save", "%s: evaluation %d %s", what.c_str(), i, better ? "is better but not saved" : "is not better but saved");
        mc::state(mc::mix(mc::hash(what), i));
    }
    mc::outcome(mc::format("%g %g", b.value[0], b.value[3]));
}
