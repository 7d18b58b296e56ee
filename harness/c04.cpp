// C04: a training is exactly its sequence of steps: every data of every epoch once, in the order of the shuffle, in batches,
// evaluated with the requested frequency, until the condition holds.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "clock.hpp"
#include "grammar.hpp"
using namespace grammar;
using snn::nature;
using snn::problem;
using snn::Wait;

struct Condition // stop condition of the training
{
    int epochs = -1;
    float accuracy = -1, mae = -1;
    bool isAnd = false;
    int duration = -1; // milliseconds
    int64_t start = 0;

    bool over(int epoch, float a, float m) const
    {
        const bool e = epoch > epochs && epoch > 0, c = a >= accuracy && a >= 0, d = m <= mae && m >= 0;
        const bool t = vclock::now - start >= duration * 1000000ll;
        if (isAnd)
            return (epochs < 0 || e) && (accuracy < 0 || c) && (mae < 0 || d) && (duration < 0 || t);
        return (epochs >= 0 && e) || (accuracy >= 0 && c) || (mae >= 0 && d) || (duration >= 0 && t);
    }

    Wait wait() const
    {
        Wait w;
        w.epochs = epochs;
        w.accuracy = accuracy;
        w.mae = mae;
        w.duration = duration;
        const int count = (epochs >= 0) + (accuracy >= 0) + (mae >= 0) + (duration >= 0);
        w.op = count < 2 ? snn::waitOperator::noneOp : isAnd ? snn::waitOperator::andOp : snn::waitOperator::orOp;
        return w;
    }
};

static void forwardForTraining(Net& net, V x, bool reset)
{
    for (auto& l : net.layers)
        x = l->outputForTraining(x, reset);
}

struct Result
{
    int epochs = 0, evaluations = 0;
    long steps = 0;
};

static Result simulate(Net& net, Data& data, const Condition& c, int batch, int frequency, int limit)
{
    Result r;
    const int size = data.sets[snn::training].size;
    const auto over = [&](int epoch) { return c.over(epoch, net.getGlobalClusteringRate(), net.getMeanAbsoluteError()); };
    const auto evaluate = [&]
    {
        net.evaluate(data);
        ++r.evaluations;
    };
    if (frequency > 0)
        evaluate();
    int epoch = 1;
    for (; !over(epoch) && epoch < limit; ++epoch)
    {
        data.shuffle();
        bool complete = true;
        for (int i = 0; i + batch <= size; i += batch)
        {
            if (over(epoch)) // once the duration is reached, no other step
            {
                complete = false;
                break;
            }
            const bool reset = data.isFirstTrainingDataOfTemporalSequence(i);
            V x(data.sizeOfData), y(data.numberOfLabels);
            x = data.getTrainingData(i, batch);
            y = data.getTrainingOutputs(i, batch);
            if (data.needToLearnOnTrainingData(i))
            {
                net.trainOnce(x, y, reset);
                ++r.steps;
            }
            else
                forwardForTraining(net, x, reset);
            mc::step();
        }
        r.epochs += complete;
        if (frequency > 0 && epoch % frequency == 0)
            evaluate();
    }
    if (epoch >= limit)
        mc::fail("harness", "the condition does not end");
    return r;
}

static std::unique_ptr<Data> makeData(int kind, problem p, int size, int inputs, int outputs)
{
    VV X, Y, TX, TY;
    const auto label = [&](int i)
    {
        V y(outputs, 0.0f);
        if (p == problem::regression)
            y = values(300 + i, outputs, 0.5f);
        else
            y[i % outputs] = 1.0f;
        return y;
    };
    for (int i = 0; i < size; ++i)
    {
        X.push_back(values(10 + i, inputs));
        Y.push_back(label(i));
    }
    for (int i = 0; i < 3; ++i)
    {
        TX.push_back(values(100 + i, inputs));
        TY.push_back(label(i + 1));
    }
    if (kind == 0)
        return std::make_unique<Data>(p, X, Y, TX, TY);
    if (kind == 1)
    {
        VVV S, TS = {{TX[0]}, {TX[1], TX[2]}};
        for (int i = 0, l = 1; i < size; i += l, l = 3 - l)
            S.emplace_back(X.begin() + i, X.begin() + std::min(size, i + l));
        return std::make_unique<Data>(p, S, Y, TS, TY, nature::sequential);
    }
    return std::make_unique<Data>(p, X, Y, TX, TY, nature::timeSeries, kind - 1);
}

// makes the virtual clock advance at each step of the training, and at each evaluated data
struct Ticking final : snn::internal::LayerOptimizer
{
    int64_t training, testing; // milliseconds
    Ticking(int64_t training, int64_t testing)
        : training(training), testing(testing)
    {
    }
    std::unique_ptr<LayerOptimizer> clone(const snn::internal::BaseLayer*) const override { return std::make_unique<Ticking>(training, testing); }
    void applyAfterOutputForTraining(std::vector<float>&, bool) override { vclock::now += training * 1000000; }
    void applyAfterOutputForTesting(std::vector<float>&) override { vclock::now += testing * 1000000; }
    void applyBeforeBackpropagation(std::vector<float>&) override {}
    std::string summary() const override { return ""; }
};

static void compare(const ArchSpec& a, int kind, problem p, int size, int batch, int frequency, Condition c, int runs, bool extreme = false, const Ticking* ticking = nullptr)
{
    rng::alternatives = 0;
    rng::counter = 0;
    auto net = make(a);
    setWeights(*net, 6, extreme ? 2.0f : 0.7f);
    if (ticking)
        dynamic_cast<snn::internal::Layer<snn::internal::SimpleNeuron>&>(*net->layers.back()).optimizers.push_back(ticking->clone(nullptr));
    Net twin(*net);
    auto data = makeData(kind, p, size, net->getNumberOfInputs(), net->getNumberOfOutputs());
    auto twinData = makeData(kind, p, size, net->getNumberOfInputs(), net->getNumberOfOutputs());
    const auto what = mc::format("%s: data kind %d problem %d size %d batch %d frequency %d, %d epochs, accuracy %g, mae %g, %d ms%s", describe(a).c_str(), kind, (int)p,
        size, batch, frequency, c.epochs, c.accuracy, c.mae, c.duration, c.isAnd ? " (and)" : "");
    mc::note("%s", what.c_str());
    for (int r = 0; r < runs; ++r)
    {
        const auto before = net->getNumberOfTraining();
        const uint64_t seed = rng::counter;
        c.start = vclock::now;
        const bool rejected = throws([&] { net->train(*data, c.wait(), batch, frequency); });
        const bool mustReject = batch < 1 || batch > size || (kind > 0 && batch != 1);
        MC_CHECK(rejected == mustReject, "validation", "%s is %s", what.c_str(), rejected ? "rejected" : "accepted");
        if (rejected)
        {
            MC_CHECK(same(weights(*net), weights(twin)) && net->getNumberOfTraining() == 0 && !net->isTraining(), "rejected", "%s", what.c_str());
            mc::outcome(1);
            return;
        }
        const uint64_t end = rng::counter;
        rng::counter = seed;
        vclock::now = c.start;
        const Result result = simulate(twin, *twinData, c, batch, frequency, std::max(20, c.epochs + 2));
        rng::counter = end;
        MC_CHECK(net->getNumberOfTraining() - before == result.steps && twin.getNumberOfTraining() == net->getNumberOfTraining(), "number of trainings",
            "%s: %ld instead of %ld", what.c_str(), (long)(net->getNumberOfTraining() - before), result.steps);
        MC_CHECK(same(weights(*net), weights(twin)), "weights", "%s: the weights are not the ones of the sequence of steps", what.c_str());
        auto o = observe(*net), t = observe(twin);
        MC_CHECK(memcmp(o.metrics.data(), t.metrics.data(), o.metrics.size() * sizeof(double)) == 0, "metrics", "%s:%s", what.c_str(), difference(o, t).c_str());
        MC_CHECK(data->sets[snn::training].shuffledIndexes == twinData->sets[snn::training].shuffledIndexes, "shuffles", "%s", what.c_str());
        MC_CHECK(!net->isTraining() && net->getCurrentIndex() == 0 && !net->hasNan(), "idle", "%s", what.c_str());
        MC_CHECK(net->getNumberOfTrainingsBetweenTwoEvaluations() == size, "size", "%s", what.c_str());
        if (c.epochs >= 0 && c.accuracy < 0 && c.mae < 0 && c.duration < 0)
            MC_CHECK(result.epochs == c.epochs || (c.epochs == 0 && result.epochs == 0), "epochs", "%s: %d", what.c_str(), result.epochs);
        if (frequency > 0)
        {
            const V x = values(3, net->getNumberOfInputs());
            MC_CHECK(same(net->computeOutput(x, true), twin.computeOutput(x, true)), "outputs", "%s", what.c_str());
        }
        uint64_t h = mc::mix(hashWeights(*net), mc::hash(what));
        mc::state(h);
        mc::outcome(mc::mix(result.epochs, result.evaluations * 100 + result.steps));
    }
}

static const std::vector<ArchSpec>& architectures()
{
    const auto T = activation::tanh, S = activation::sigmoid, I = activation::identity;
    static const std::vector<ArchSpec> r = {
        {{2}, {{FC, 2, 1, T}}, 0.05f, 0.5f},
        {{3}, {{FC, 3, 1, S, {snn::Dropout(0.4f)}}, {FC, 2, 1, I}}, 0.1f},
        {{2, 4}, {{CONV, 2, 2, T}, {POOL, 1, 2}, {FC, 2, 1, S, {snn::Softmax()}}}, 0.1f, 0.2f},
        {{1, 3, 3}, {{LC, 1, 2, S}, {FC, 2, 1, S, {snn::L2Regularization(0.001f)}}}, 0.1f},
        {{2}, {{RNN, 2, 1, T}, {FC, 2, 1, S}}, 0.05f},
        {{2}, {{GRU, 2}, {FC, 2, 1, S}}, 0.05f},
    };
    return r;
}

MC_SCENARIO_SPLIT(epochs, 3) // sizes, batches, frequencies and numbers of epochs
{
    const auto& a = mc::pick(architectures());
    const int kind = mc::choose(4);
    const problem p = mc::pick(std::vector<problem>{problem::classification, problem::multipleClassification, problem::regression});
    const int size = 1 + mc::choose(mc::thorough() ? 7 : 5);
    const int batch = kind == 0 ? mc::choose(size + 2) : 1 + mc::choose(2);
    const int frequency = mc::choose(4);
    Condition c;
    c.epochs = mc::choose(4);
    compare(a, kind, p, size, batch, frequency, c, 2);
}

MC_SCENARIO_SPLIT(large_sizes, 2) // many data, large batches, many epochs
{
    const auto& a = architectures()[mc::pick(std::vector<int>{0, 4})];
    const int shape = mc::choose(4);
    const int n = mc::pick(largeSizes());
    int size = n, batch = 1, frequency = mc::choose(2), kind = 0;
    Condition c;
    c.epochs = 2;
    switch (shape)
    {
    case 0: batch = mc::pick(std::vector<int>{1, 2, n / 4, n / 2, n - 1, n}); break;
    case 1: kind = 1 + mc::choose(3); break; // the temporal data
    case 2: size = 3, c.epochs = n, frequency *= mc::pick(std::vector<int>{1, 2, 10, n / 3, n}); break;
    default: size = 2 * n + 1, batch = n, c.epochs = 3; break;
    }
    compare(a, kind, mc::flag() ? problem::classification : problem::regression, size, batch, frequency, c, 1 + (n < 300));
}

MC_SCENARIO_SPLIT(conditions, 3) // accuracy and error conditions, which depend on the evaluations
{
    const auto& a = mc::pick(architectures());
    const int kind = mc::choose(3);
    const problem p = mc::pick(std::vector<problem>{problem::classification, problem::regression});
    const int size = 3 + mc::choose(2), frequency = 1 + mc::choose(3);
    Condition c;
    c.isAnd = mc::flag();
    c.epochs = 1 + mc::choose(c.isAnd ? 2 : 4);
    // with "and" the other conditions must be reached: the thresholds are met by every network
    c.accuracy = mc::pick(c.isAnd ? std::vector<float>{-1, 0.0f} : std::vector<float>{-1, 0.0f, 0.3f, 0.6f, 1.0f});
    c.mae = mc::pick(c.isAnd ? std::vector<float>{-1, 1e6f} : std::vector<float>{-1, 0.3f, 0.6f, 0.8f, 1.0f, 1.5f});
    compare(a, kind, p, size, 1, frequency, c, 2);
}

MC_SCENARIO_SPLIT(durations, 3) // the time is looked at before every step: the training ends within an epoch
{
    const auto& a = mc::pick(architectures());
    const int kind = mc::choose(3);
    const problem p = mc::pick(std::vector<problem>{problem::classification, problem::regression});
    const int size = 1 + mc::choose(mc::thorough() ? 8 : 5), frequency = mc::choose(3);
    const int batch = kind == 0 ? 1 + mc::choose(std::min(size, 2)) : 1;
    Condition c;
    c.isAnd = mc::flag();
    c.duration = mc::pick(std::vector<int>{0, 1, 10, 25, 30, 100});
    c.epochs = mc::pick(std::vector<int>{-1, 1, 3});
    c.mae = c.isAnd || c.epochs >= 0 || frequency == 0 ? -1 : mc::pick(std::vector<float>{-1, 0.8f});
    const Ticking ticking(mc::pick(std::vector<int>{10, 13}), 10 * mc::choose(2));
    compare(a, kind, p, size, batch, frequency, c, 2, false, &ticking);
}

MC_SCENARIO(zero_frequency) // without evaluation the training is the same and the metrics are not touched
{
    const auto& a = architectures()[mc::choose(4)];
    const int size = 2 + mc::choose(3), batch = 1 + mc::choose(2), epochs = 1 + mc::choose(3), other = 1 + mc::choose(3);
    std::unique_ptr<Net> nets[2];
    for (int i = 0; i < 2; ++i)
    {
        rng::alternatives = 0;
        rng::counter = 0;
        nets[i] = make(a);
        setWeights(*nets[i], 6);
        auto data = makeData(0, problem::classification, size, nets[i]->getNumberOfInputs(), nets[i]->getNumberOfOutputs());
        Condition c;
        c.epochs = epochs;
        nets[i]->train(*data, c.wait(), batch, i ? other : 0);
        mc::step();
    }
    MC_CHECK(same(weights(*nets[0]), weights(*nets[1])), "evaluation changes the training", "%s", describe(a).c_str());
    MC_CHECK(nets[0]->getGlobalClusteringRate() == -1 && nets[0]->getMeanAbsoluteError() == -1, "metrics", "%s", describe(a).c_str());
    mc::state(hashWeights(*nets[0]));
}
