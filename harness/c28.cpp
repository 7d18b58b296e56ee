// C28: networks used in parallel do not interfere: whatever the schedule, each one gives what it gives alone.
#define MC_MAIN
#include "threads.hpp"
#include <fstream>
#include <map>
#include <thread>
using namespace threads;

static std::vector<ArchSpec> networks()
{
    std::vector<ArchSpec> r = {smallest()};
    const auto add = [&](std::vector<int> input, std::vector<LayerSpec> layers)
    {
        ArchSpec a;
        a.input = input;
        a.layers = layers;
        r.push_back(a);
    };
    LayerSpec softmax{FC, 2, 1, activation::sigmoid};
    softmax.optimizers = {snn::Softmax(), snn::L2Regularization(0.01f)};
    LayerSpec dropout{FC, 2, 1, activation::tanh};
    dropout.optimizers = {snn::Dropout(0.4f)};
    add({2}, {{FC, 1, 1, activation::GELU}, softmax});
    add({1, 2, 2}, {{CONV, 1, 2, activation::ReLU}, {POOL, 1, 1}, {FC, 1, 1, activation::iSigmoid}});
    add({2}, {{GRU, 1}, {FC, 1, 1, activation::sigmoid}});
    add({2}, {{RNN, 1, 1, activation::tanh}, {FC, 1, 1, activation::gaussian}});
    add({1, 3}, {{LC, 1, 2, activation::tanh}, dropout});
    return r;
}

static bool random(const ArchSpec& a)
{
    for (const auto& l : a.layers)
        for (const auto& o : l.optimizers)
            if (o.type == snn::layerOptimizerType::dropout)
                return true;
    return false;
}

// What the network does alone.
static void sameAsAlone(const Net& net, const ArchSpec& a, Net& twin, const Data& d, int frequency, const char* name)
{
    if (random(a))
        return;
    const auto trainings = net.getNumberOfTraining();
    if (frequency > 0)
        twin.evaluate(d); // changes the temporal state
    for (int64_t t = 0; t < trainings; ++t)
    {
        twin.trainOnce(d.sets[snn::training].inputs[0], d.sets[snn::training].labels[0], true);
        if (frequency > 0)
            twin.evaluate(d);
    }
    MC_CHECK(weights(net) == weights(twin), "alone", "%s: the weights are not the ones of %lld trainings", name, (long long)trainings);
}

enum Relation { DISTINCT, COPIED, LOADED, RELATIONS };
static const char* relationName[] = {"another network", "its copy", "the same network loaded from a file"};

MC_SCENARIO_THREADS(two_trainings) // two trainings in the background
{
    sched::Options o;
    o.preemptions = mc::thorough() ? 2 : 1;
    o.quantum = 40;
    const auto list = networks();
    const int i = mc::choose((int)list.size());
    const int relation = mc::choose(RELATIONS);
    const int j = relation == DISTINCT ? mc::thorough() ? mc::choose((int)list.size()) : i > 0 ? 0 : 1 : i;
    const int frequency = mc::choose(2);
    auto first = make(list[i]);
    setWeights(*first, 3, 0.5f);
    const std::string path = mc::scratchDir() + "/n.snn";
    std::unique_ptr<Net> second;
    if (relation == DISTINCT)
    {
        second = make(list[j]);
        setWeights(*second, 4, 0.5f);
    }
    else if (relation == COPIED)
        second = std::make_unique<Net>(*first);
    else
    {
        first->saveAs(path);
        second = load(path);
    }
    std::filesystem::remove(path);
    Net twin(*first), secondTwin(*second);
    auto d = data(*first, 1), e = data(*second, 1, 0.7f);
    mc::note("%s and %s: %s, frequency %d", describe(list[i]).c_str(), relationName[relation], describe(list[j]).c_str(), frequency);
    run(o, [&]
    {
        first->startTrainingAsync(*d, 1, frequency);
        second->startTrainingAsync(*e, 1, frequency);
        first->stopTrainingAsync();
        MC_CHECK(second->isTraining() && !first->isTraining(), "stopped", "the stop of a training changes the other one");
        second->stopTrainingAsync();
        MC_CHECK(!second->isTraining(), "stopped", "the training is not stopped");
        sameAsAlone(*first, list[i], twin, *d, frequency, "first");
        sameAsAlone(*second, list[j], secondTwin, *e, frequency, "second");
        mc::outcome(mc::mix(first->getNumberOfTraining(), second->getNumberOfTraining()));
        first.reset();
        second.reset();
    });
}

enum Op { CREATE, OUTPUT, TRAINED, EVALUATE, SHARED, SAVED, COPY, NORMALIZE, SUMMARY, DESTROY, GETTERS, COMPARE, EXPORT, READ_DATA, OPS };
static const char* opName[] = {"create", "outputs", "train", "evaluate", "evaluate on the data of the other one", "save and load", "copy", "create and normalize data", "summary", "destroy", "getters", "compare", "export", "shuffle and read data"};

struct Result
{
    std::vector<float> numbers;
    std::string text;
    bool operator==(const Result&) const = default;
};

static std::vector<float> flat(const Net& net)
{
    std::vector<float> r;
    for (const auto& layer : weights(net))
        for (const auto& neuron : layer)
            r.insert(r.end(), neuron.begin(), neuron.end());
    return r;
}

// What another network gives, whatever happens around it.
static Result use(const ArchSpec& a, int op, const Net& fresh, std::unique_ptr<Net>& net, Data& own, const Data& shared, const std::string& path)
{
    Result r;
    switch (op)
    {
    case CREATE:
    {
        auto other = make(a);
        r.numbers.push_back((float)other->getNumberOfParameters());
        break;
    }
    case OUTPUT:
        r.numbers = net->computeOutput(own.sets[snn::testing].inputs[0], true);
        break;
    case TRAINED:
        net->train(own, 1_ep);
        r.numbers = flat(*net);
        break;
    case EVALUATE:
    case SHARED:
        net->evaluate(op == EVALUATE ? own : shared);
        r.numbers = {net->getGlobalClusteringRate(), net->getMeanAbsoluteError()};
        break;
    case SAVED:
        net->saveAs(path);
        r.numbers = flat(*load(path));
        net->autoSaveFilePath = "";
        break;
    case COPY:
        r.numbers = flat(Net(*net));
        break;
    case NORMALIZE:
    {
        auto d = data(*net, 2);
        d->normalize(-1, 1);
        for (const auto& v : d->sets[snn::training].inputs)
            r.numbers.insert(r.numbers.end(), v.begin(), v.end());
        break;
    }
    case SUMMARY:
        r.text = net->summary();
        break;
    case DESTROY:
        net.reset();
        net = std::make_unique<Net>(fresh);
        break;
    case GETTERS:
        r.numbers = {net->getGlobalClusteringRate(), net->getWeightedClusteringRate(), net->getF1Score(), net->getMeanAbsoluteError(), net->getRootMeanSquaredError(),
                     net->getGlobalClusteringRateMax(), net->getWeightedClusteringRateMax(), net->getF1ScoreMax(), net->getMeanAbsoluteErrorMin(), net->getRootMeanSquaredErrorMin(),
                     (float)net->getNumberOfLayers(), (float)net->getNumberOfInputs(), (float)net->getNumberOfOutputs(), (float)net->getNumberOfNeurons(), (float)net->getNumberOfParameters(),
                     (float)net->getNumberOfTraining(), (float)net->getCurrentEpoch(), (float)net->getCurrentIndex(), (float)net->hasNan(), (float)net->isTraining(), (float)net->isValid()};
        for (const auto& layer : net->layers)
        {
            for (int s : layer->getShapeOfInput())
                r.numbers.push_back((float)s);
            for (int s : layer->getShapeOfOutput())
                r.numbers.push_back((float)s);
            r.numbers.push_back(layer->getAverageOfAbsNeuronWeights());
            r.numbers.push_back(layer->getAverageOfSquareNeuronWeights());
        }
        break;
    case COMPARE:
        r.numbers = {(float)(*net == fresh), (float)(*net != *net), (float)(*net == Net(*net))};
        break;
    case EXPORT:
    {
        const auto directory = path + ".maps";
        std::filesystem::create_directory(directory);
        net->saveFeatureMapsAsBitmap(directory + "/w");
        net->saveFilterLayersAsBitmap(directory + "/o", own, 0);
        net->saveData2DAsBitmap(directory + "/d", own, 0);
        std::map<std::string, std::string> files;
        for (const auto& f : std::filesystem::directory_iterator(directory))
        {
            std::ifstream in(f.path());
            files[f.path().filename().string()] = std::string(std::istreambuf_iterator<char>(in), {});
        }
        for (const auto& [name, content] : files)
            r.text += name + ":" + std::to_string(std::hash<std::string>()(content)) + " ";
        std::filesystem::remove_all(directory);
        break;
    }
    case READ_DATA:
    {
        auto d = data(*net, 3);
        d->shuffle();
        std::vector<float> all;
        for (int i = 0; i < 3; ++i)
            for (float v : d->getTrainingData(i))
                all.push_back(v);
        std::sort(all.begin(), all.end());
        d->unshuffle();
        r.numbers = d->getTrainingData(0, 3);
        const auto& labels = d->getTrainingOutputs(0, 3);
        r.numbers.insert(r.numbers.end(), labels.begin(), labels.end());
        r.numbers.insert(r.numbers.end(), all.begin(), all.end());
        break;
    }
    }
    return r;
}

static void parallel(const ArchSpec& a, const ArchSpec& b, const std::vector<int>& program, bool copied, const sched::Options& o)
{
    auto net = make(a);
    setWeights(*net, 3, 0.5f);
    auto d = data(*net, 1);
    std::unique_ptr<Net> other, alone;
    const auto second = [&]
    {
        if (copied)
            return std::make_unique<Net>(*net);
        auto n = make(b);
        setWeights(*n, 5, 0.5f);
        return n;
    };
    other = second();
    alone = std::make_unique<Net>(*other);
    Net twin(*net);
    const Net fresh(*other);
    auto own = data(*other, 1, 0.7f);
    const std::string path = mc::scratchDir() + "/m.snn";
    std::string text;
    for (int op : program)
        text += std::string(opName[op]) + ", ";
    mc::note("training of %s, with %s%s: %sstop", describe(a).c_str(), copied ? "its copy " : "", describe(b).c_str(), text.c_str());
    std::vector<Result> expected;
    for (int op : program)
        expected.push_back(use(b, op, fresh, alone, *own, *d, path));
    run(o, [&]
    {
        sched::watch(net.get(), sizeof(Net));
        net->startTrainingAsync(*d);
        for (size_t i = 0; i < program.size(); ++i)
        {
            const auto r = use(b, program[i], fresh, other, *own, *d, path);
            if (!random(b) || (program[i] != TRAINED && program[i] != SAVED && program[i] != COPY))
                MC_CHECK(r == expected[i], "other", "%s gives something else during a training of another network", opName[program[i]]);
            MC_CHECK(net->isTraining(), "stopped", "%s of another network stops the training", opName[program[i]]);
        }
        net->stopTrainingAsync();
        sameAsAlone(*net, a, twin, *d, 1, "training");
        mc::outcome(mc::mix(net->getNumberOfTraining(), net->getCurrentEpoch()));
        net.reset();
        other.reset();
    });
    std::filesystem::remove(path);
}

MC_SCENARIO_THREADS(beside_a_training) // everything done with a network while another one is trained
{
    sched::Options o;
    o.preemptions = mc::thorough() ? 2 : 1;
    o.together = true;
    const auto list = networks();
    const int i = mc::choose((int)list.size());
    const bool copied = mc::flag();
    const int j = copied ? i : mc::thorough() ? mc::choose((int)list.size()) : i;
    const int op = mc::choose(OPS);
    if (op == SHARED && (list[i].input != list[j].input || random(list[i])))
        return;
    parallel(list[i], list[j], {op}, copied, o);
}

MC_SCENARIO_THREADS(programs) // several operations
{
    sched::Options o;
    o.preemptions = 1;
    o.together = true;
    std::vector<int> program;
    for (int i = 0; i < (mc::thorough() ? 3 : 2); ++i)
        program.push_back(mc::choose(mc::thorough() ? OPS : GETTERS));
    parallel(smallest(), smallest(), program, !mc::thorough() || mc::flag(), o);
}

MC_SCENARIO_THREADS(two_users) // two threads, each one with its network
{
    sched::Options o;
    o.preemptions = mc::thorough() ? 2 : 1;
    o.together = true;
    const auto list = networks();
    const int i = mc::choose((int)list.size());
    const int relation = mc::choose(i == 0 || mc::thorough() ? RELATIONS : LOADED);
    const int j = relation == DISTINCT ? mc::thorough() ? mc::choose((int)list.size()) : i > 0 ? 0 : 1 : i;
    const int first = mc::choose(OPS);
    const int second = mc::thorough() ? mc::choose(OPS) : i == 0 && relation == DISTINCT ? first + mc::choose(OPS - first) : first;
    if ((first == SHARED || second == SHARED) && (list[i].input != list[j].input || random(list[i]) || random(list[j])))
        return;
    auto a = make(list[i]);
    setWeights(*a, 3, 0.5f);
    const auto scratch = mc::scratchDir();
    std::unique_ptr<Net> b;
    if (relation == DISTINCT)
    {
        b = make(list[j]);
        setWeights(*b, 5, 0.5f);
    }
    else if (relation == COPIED)
        b = std::make_unique<Net>(*a);
    else
    {
        a->saveAs(scratch + "/n.snn");
        b = load(scratch + "/n.snn");
        a->autoSaveFilePath = b->autoSaveFilePath = "";
        std::filesystem::remove(scratch + "/n.snn");
    }
    auto aAlone = std::make_unique<Net>(*a), bAlone = std::make_unique<Net>(*b);
    const Net aFresh(*a), bFresh(*b);
    auto aOwn = data(*a, 1), bOwn = data(*b, 1, 0.7f), both = data(*a, 1, 0.3f);
    mc::note("%s and %s: %s, %s beside %s", describe(list[i]).c_str(), relationName[relation], describe(list[j]).c_str(), opName[first], opName[second]);
    const auto aExpected = use(list[i], first, aFresh, aAlone, *aOwn, *both, scratch + "/a.snn");
    const auto bExpected = use(list[j], second, bFresh, bAlone, *bOwn, *both, scratch + "/b.snn");
    const auto compared = [](const ArchSpec& n, int op) { return !random(n) || (op != TRAINED && op != SAVED && op != COPY); };
    Result aResult, bResult;
    run(o, [&]
    {
        std::thread other([&] { bResult = use(list[j], second, bFresh, b, *bOwn, *both, scratch + "/b.snn"); });
        aResult = use(list[i], first, aFresh, a, *aOwn, *both, scratch + "/a.snn");
        other.join();
        if (compared(list[i], first))
            MC_CHECK(aResult == aExpected, "users", "%s gives something else beside %s of another network", opName[first], opName[second]);
        if (compared(list[j], second))
            MC_CHECK(bResult == bExpected, "users", "%s gives something else beside %s of another network", opName[second], opName[first]);
        a.reset();
        b.reset();
    });
    std::filesystem::remove(scratch + "/a.snn");
    std::filesystem::remove(scratch + "/b.snn");
}
