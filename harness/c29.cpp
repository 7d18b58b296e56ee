// C29: a training or an evaluation begins exactly when the data and the batch size suit the network.
#define MC_MAIN
#define MC_CONTROL_RNG
#include <climits>
#include "grammar.hpp"
using namespace grammar;
using snn::nature;
using snn::problem;
using namespace snn;

enum Call { TRAIN, START, EVALUATE, CALLS };
static const char* callName[] = {"train", "startTrainingAsync", "evaluate"};
static const char* natureName[] = {"non temporal", "sequential", "time series"};
static const char* problemName[] = {"classification", "multiple classification", "regression"};

static std::unique_ptr<Data> data(int size, int inputs, int labels, problem p, nature n, int moreTesting = 0)
{
    VV X, Y;
    for (int i = 0; i < size + std::max(0, moreTesting); ++i)
    {
        X.push_back(u::values(i + 1, inputs, 0.9f));
        V y(labels, 0.0f);
        y[i % labels] = 1.0f;
        Y.push_back(y);
    }
    if (moreTesting != 0 && n != nature::sequential) // the sizes of the two sets differ
    {
        VV x = X, y = Y;
        X.resize(size);
        Y.resize(size);
        x.resize(size + moreTesting);
        y.resize(size + moreTesting);
        return std::make_unique<Data>(p, X, Y, x, y, n, n == nature::timeSeries ? 1 : 0);
    }
    if (n == nature::sequential)
    {
        VVV S;
        for (const auto& x : X)
            S.push_back({x, u::values(99, inputs, 0.5f)});
        VV L;
        for (const auto& y : Y) // one label for each data
        {
            L.push_back(y);
            L.push_back(y);
        }
        return std::make_unique<Data>(p, S, L, n);
    }
    return std::make_unique<Data>(p, X, Y, n, n == nature::timeSeries ? 1 : 0);
}

static VV content(Data& d)
{
    VV r;
    for (const auto& s : d.sets)
    {
        r.insert(r.end(), s.inputs.begin(), s.inputs.end());
        r.insert(r.end(), s.labels.begin(), s.labels.end());
    }
    r.emplace_back();
    for (int i : d.sets[training].shuffledIndexes)
        r.back().push_back((float)i);
    return r;
}

static const std::vector<ArchSpec>& architectures()
{
    static std::vector<ArchSpec> r;
    if (r.empty())
    {
        r.push_back({{1}, {{FC, 2, 1, activation::sigmoid}}, 0.1f});
        r.push_back({{2}, {{RNN, 2, 1, activation::tanh}, {FC, 3, 1, activation::sigmoid}}, 0.1f});
        r.push_back({{1, 4}, {{CONV, 1, 2, activation::tanh}}, 0.1f});
        r.push_back({{1, 2, 3}, {{LC, 1, 2, activation::tanh}, {GRU, 2}}, 0.1f});
    }
    return r;
}

MC_SCENARIO_SPLIT(requests, 3)
{
    const auto& a = mc::pick(architectures());
    const int inputs = ref::product(a.input), outputs = ref::Net(a).outputs();
    const nature n = mc::pick(std::vector<nature>{nature::nonTemporal, nature::sequential, nature::timeSeries});
    const problem p = mc::pick(std::vector<problem>{problem::classification, problem::multipleClassification, problem::regression});
    const int size = 1 + mc::choose(mc::thorough() ? 6 : 4);
    const int dataInputs = inputs + mc::pick(std::vector<int>{0, 1, -1}), dataLabels = outputs + mc::pick(std::vector<int>{0, 1, -1});
    if (dataInputs < 1 || dataLabels < 1 || (p == problem::classification && dataLabels < 2))
        return;
    const int call = mc::choose(CALLS);
    const int moreTesting = n == nature::sequential ? 0 : mc::pick(std::vector<int>{0, 2, -1});
    if (size + moreTesting < 1)
        return;
    auto d = data(size, dataInputs, dataLabels, p, n, moreTesting);
    const int trainingSize = d->sets[training].size;
    const int batch = call == EVALUATE ? 1 : mc::pick(std::vector<int>{1, 2, 3, trainingSize, trainingSize + 1, 0, -1, INT_MAX, INT_MIN});
    const bool trainedBefore = mc::flag();
    const bool suits = dataInputs == inputs && dataLabels == outputs && batch >= 1 && batch <= trainingSize && (batch == 1 || n == nature::nonTemporal);
    const std::string what = mc::format("%s, %s, %s data: %d (%+d of testing) of %d inputs and %d labels, batch of %d%s", describe(a).c_str(), callName[call], (std::string(natureName[(int)n]) + " " + problemName[(int)p]).c_str(),
                                        trainingSize, moreTesting, dataInputs, dataLabels, batch, trainedBefore ? ", after a training" : "");
    mc::note("%s", what.c_str());
    auto net = make(a);
    setWeights(*net, 3);
    net->autoSaveFilePath = mc::scratchDir() + "/net.snn";
    net->autoSaveWhenBetter = true;
    if (trainedBefore)
    {
        auto good = data(2, inputs, outputs, outputs > 1 ? problem::classification : problem::regression, nature::nonTemporal);
        net->train(*good, 1_ep, 1, 1);
    }
    writeFile(net->autoSaveFilePath, "previous");
    const auto before = observe(*net);
    const auto dataBefore = content(*d);
    bool refused = false;
    std::string error;
    try
    {
        switch (call)
        {
        case TRAIN: net->train(*d, 1_ep, batch, 0); break;
        case START: net->startTrainingAsync(*d, batch, 0); break;
        default: net->evaluate(*d);
        }
    }
    catch (const std::runtime_error& e)
    {
        refused = true;
        error = e.what();
    }
    mc::step();
    MC_CHECK(refused == !suits, refused ? "refused" : "accepted", "%s: %s %s", what.c_str(), refused ? "refused:" : "accepted", error.c_str());
    if (refused)
    {
        const auto after = observe(*net);
        MC_CHECK(before == after, "effect of a refusal", "%s:%s", what.c_str(), difference(before, after).c_str());
        MC_CHECK(content(*d) == dataBefore, "effect of a refusal", "%s: the data changed", what.c_str());
        MC_CHECK(readFile(net->autoSaveFilePath) == "previous", "effect of a refusal", "%s: the file changed", what.c_str());
        MC_CHECK(!error.empty(), "message", "%s", what.c_str());
        // It can still be trained.
        auto good = data(2, inputs, outputs, problem::regression, nature::nonTemporal);
        net->train(*good, 1_ep, 2, 0);
        MC_CHECK(net->getNumberOfTraining() == before.numbers[3] + 1, "training after a refusal", "%s: %ld trainings", what.c_str(), (long)net->getNumberOfTraining());
    }
    else if (call == TRAIN && n == nature::nonTemporal)
        MC_CHECK(net->getNumberOfTraining() == before.numbers[3] + trainingSize / batch, "trainings", "%s: %ld", what.c_str(), (long)net->getNumberOfTraining() - before.numbers[3]);
    else if (call == START)
        net->stopTrainingAsync();
    MC_CHECK(!net->isTraining(), "idle", "%s: the network is not idle", what.c_str());
    mc::state(mc::hash(what));
    mc::outcome(mc::format("%d %s", refused, error.c_str()));
}

MC_SCENARIO_SPLIT(large_sizes, 2) // the differences of sizes are seen at every size
{
    const int n = mc::pick(largeSizes());
    const int which = mc::choose(4), call = mc::choose(CALLS);
    const int difference = mc::pick(std::vector<int>{0, 1, -1, 256, -256, n, -n + 1, 65536 - n});
    if (difference + n < 1 || (which < 2 && difference + n > 3000))
        return;
    ArchSpec a{{which == 0 ? n : 2}, {{FC, which == 1 ? n : 2, 1, activation::sigmoid}}, 0.01f};
    if (which == 0 && mc::flag())
        a.input = {1, n};
    auto net = make(a);
    const int inputs = which == 0 ? n + difference : 2, labels = which == 1 ? n + difference : 2, size = which > 1 ? n : 3;
    int batch = which == 2 && call != EVALUATE ? n + difference : 1;
    const problem p = mc::flag() ? problem::regression : problem::multipleClassification;
    const nature temporal = which == 3 ? mc::pick(std::vector<nature>{nature::sequential, nature::timeSeries}) : nature::nonTemporal;
    if (which == 3 && difference > 1)
        batch = difference;
    else if (which == 3)
        batch = 1;
    if (call == EVALUATE)
        batch = 1;
    auto d = data(size, inputs, labels, p, temporal);
    const bool suits = inputs == net->getNumberOfInputs() && labels == net->getNumberOfOutputs() && batch <= d->sets[training].size && (batch == 1 || which != 3);
    const std::string what = mc::format("%s, %s, %s data: %d of %d inputs and %d labels, batch of %d", describe(a).c_str(), callName[call], natureName[(int)temporal], size, inputs, labels, batch);
    mc::note("%s", what.c_str());
    const auto before = observe(*net);
    const bool refused = throws([&] {
        switch (call)
        {
        case TRAIN: net->train(*d, 1_ep, batch, 0); break;
        case START: net->startTrainingAsync(*d, batch, 0); break;
        default: net->evaluate(*d);
        }
    });
    net->stopTrainingAsync();
    mc::step();
    MC_CHECK(refused == !suits, refused ? "refused" : "accepted", "%s: %s", what.c_str(), refused ? "refused" : "accepted");
    if (refused)
        MC_CHECK(before == observe(*net), "effect of a refusal", "%s", what.c_str());
    mc::state(mc::hash(what));
    mc::outcome(refused);
}

MC_SCENARIO(set_weights) // the weights of a neuron are replaced by as many weights, or not at all
{
    const auto& a = mc::pick(architectures());
    auto net = make(a);
    setWeights(*net, 3);
    const int l = mc::choose(net->getNumberOfLayers());
    if (kindOf(*net, l) == GRU || kindOf(*net, l) == POOL)
        return;
    const int n = mc::choose(net->layers[l]->getNumberOfNeurons());
    const V w = neuronWeights(*net, l, n);
    const int size = mc::choose((int)w.size() + 3);
    const V x = u::values(7, size);
    const auto before = observe(*net);
    bool refused = throws([&] { setNeuronWeights(*net, l, n, x); });
    mc::step();
    MC_CHECK(refused == (size != (int)w.size()), "weights", "%s: %d weights for %zu %s", describe(a).c_str(), size, w.size(), refused ? "refused" : "accepted");
    auto expected = before;
    if (!refused)
        expected.weights[l][n] = x;
    MC_CHECK(observe(*net) == expected, "weights", "%s:%s", describe(a).c_str(), difference(expected, observe(*net)).c_str());
    mc::state(mc::hash(mc::format("%s %d %d %d", describe(a).c_str(), l, n, size)));
}
