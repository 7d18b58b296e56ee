// C06: the metrics of an evaluation are the ones of their definition, on exactly the testing data which must be evaluated.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "metrics.hpp"
using namespace metrics;
using snn::nature;

static void evaluate(Net& net, problem p, const std::vector<Item>& items, float t)
{
    auto d = data(p, items, t);
    const auto before = weights(net);
    const auto trainings = net.getNumberOfTraining();
    net.evaluate(*d);
    mc::step((int64_t)items.size());
    const auto what = metrics::text(p, items, t);
    mc::note("%s", what.c_str());
    const auto m = compute(p, items, t);
    compare(net, m, what);
    MC_CHECK(same(before, weights(net)) && trainings == net.getNumberOfTraining() && !net.isTraining() && !net.hasNan(), "purity", "%s", what.c_str());
    mc::state(mc::hash(what));
    mc::outcome(mc::format("%.5f %.5f %.5f %.5f %.5f", m.accuracy, m.weighted, m.f1, m.mae, m.rmse));
}

static std::vector<Item> chooseItems(problem p, int count, int classes, const std::vector<float>& outputs, const std::vector<float>& labels)
{
    std::vector<Item> items;
    for (int i = 0; i < count; ++i)
    {
        Item item;
        for (int c = 0; c < classes; ++c)
            item.output.push_back(mc::pick(outputs));
        if (p == problem::classification)
        {
            item.label.assign(classes, 0.0f);
            item.label[mc::choose(classes)] = 1.0f;
        }
        else
            for (int c = 0; c < classes; ++c)
                item.label.push_back(mc::pick(labels));
        items.push_back(item);
    }
    return items;
}

MC_SCENARIO_SPLIT(two_classes, 3)
{
    const float t = mc::pick(std::vector<float>{0.5f, 0.0f, 1.0f});
    const int count = 1 + mc::choose(mc::thorough() ? 3 : 2);
    evaluate(*identity(2), problem::classification, chooseItems(problem::classification, count, 2, {0, 1, 0.5f, -0.25f, 0.75f}, {}), t);
}

MC_SCENARIO_SPLIT(three_classes, 3)
{
    const int count = 2 + mc::choose(mc::thorough() ? 2 : 1);
    evaluate(*identity(3), problem::classification, chooseItems(problem::classification, count, 3, count > 2 ? std::vector<float>{0, 1} : std::vector<float>{0, 1, 0.5f}, {}), 0.5f);
}

MC_SCENARIO_SPLIT(many_data, 3) // correct and wrong answers of each class, up to 7 data
{
    const int classes = 2 + mc::choose(2);
    const int count = 1 + mc::choose(classes == 2 ? 7 : 4);
    std::vector<Item> items;
    for (int i = 0; i < count; ++i)
    {
        Item item;
        item.output.assign(classes, 0.125f);
        item.label.assign(classes, 0.0f);
        item.label[mc::choose(classes)] = 1.0f;
        item.output[mc::choose(classes)] = 0.875f;
        items.push_back(item);
    }
    evaluate(*identity(classes), problem::classification, items, 0.5f);
}

MC_SCENARIO_SPLIT(multiple, 3)
{
    const float t = mc::pick(std::vector<float>{0.5f, 0.25f, 0.75f});
    const int count = 1 + mc::choose(2), classes = 1 + mc::choose(2);
    evaluate(*identity(classes), problem::multipleClassification,
        chooseItems(problem::multipleClassification, count, classes, count * classes > 3 ? std::vector<float>{0, 0.5f, 1, 0.25f} : std::vector<float>{0, 0.5f, 1, 0.25f, 0.75f, -1, 2},
            count * classes > 3 ? std::vector<float>{0, 1, 0.5f} : std::vector<float>{0, 1, 0.5f, 0.25f}), t);
}

MC_SCENARIO_SPLIT(regression, 3)
{
    const float t = mc::pick(std::vector<float>{0.1f, 0.25f, 0.0f, 1.0f});
    const int count = 1 + mc::choose(2), outputs = 1 + mc::choose(2);
    evaluate(*identity(outputs), problem::regression,
        chooseItems(problem::regression, count, outputs, count * outputs > 3 ? std::vector<float>{0, 0.25f, -1} : std::vector<float>{0, 0.25f, 0.5f, -1, 3, 1000},
            count * outputs > 3 ? std::vector<float>{0, 0.5f, -0.75f} : std::vector<float>{0, 0.5f, -0.75f, 1}), t);
}

static Item simple(problem p, int variant)
{
    Item i;
    i.output = {variant & 1 ? 1.0f : 0.0f, variant & 2 ? 1.0f : 0.25f};
    i.label = p == problem::regression ? V{variant & 4 ? 0.25f : 1.0f, 0.5f} : variant & 4 ? V{1, 0} : V{0, 1};
    return i;
}

MC_SCENARIO_SPLIT(history, 3) // an evaluation does not depend on the ones before it
{
    auto net = identity(2);
    const int length = mc::thorough() ? 4 : 3;
    const std::vector<problem> problems = {problem::classification, problem::multipleClassification, problem::regression};
    for (int i = 0; i < length; ++i)
    {
        const problem p = problems[mc::choose(3)];
        std::vector<Item> items;
        const int count = 1 + mc::choose(2);
        for (int k = 0; k < count; ++k)
            items.push_back(simple(p, k == 0 ? mc::choose(4) : 2 + i));
        evaluate(*net, p, items, i % 2 ? 0.5f : 0.25f);
    }
}

MC_SCENARIO_SPLIT(testing_set, 3) // the testing set is evaluated, with its labels, not the training set; shuffles do not matter
{
    const problem p = mc::pick(std::vector<problem>{problem::classification, problem::multipleClassification, problem::regression});
    const bool shuffled = mc::flag();
    const int trainCount = 1 + mc::choose(3), testCount = 1 + mc::choose(3);
    VV X, Y, TX, TY;
    std::vector<Item> items;
    for (int i = 0; i < trainCount; ++i)
    {
        const auto it = simple(p, 3 + i);
        X.push_back(it.output);
        Y.push_back(it.label);
    }
    for (int i = 0; i < testCount; ++i)
    {
        items.push_back(simple(p, mc::choose(8)));
        TX.push_back(items.back().output);
        TY.push_back(items.back().label);
    }
    const nature n = mc::flag() ? nature::timeSeries : nature::nonTemporal;
    Data d(p, X, Y, TX, TY, n, n == nature::timeSeries ? 1 : 0);
    threshold(d, p, 0.375f);
    if (shuffled)
        d.shuffle();
    auto net = identity(2);
    net->evaluate(d);
    mc::step(testCount);
    const auto what = metrics::text(p, items, 0.375f);
    compare(*net, compute(p, items, 0.375f), what);
    mc::state(mc::hash(what));
}

MC_SCENARIO_SPLIT(sequences, 3) // only the last data of each sequence is evaluated
{
    const problem p = mc::pick(std::vector<problem>{problem::classification, problem::multipleClassification, problem::regression});
    const int separate = mc::choose(4); // 0: one set; 1 to 3: a training set of its own, of sequences of this length
    const int count = 1 + mc::choose(3);
    VVV S;
    VV Y;
    std::vector<Item> items;
    std::string lengths;
    for (int s = 0; s < count; ++s)
    {
        const int length = 1 + mc::choose(3);
        S.emplace_back();
        for (int i = 0; i < length; ++i)
        {
            const auto it = simple(p, i == length - 1 ? mc::choose(8) : 3 * i + s + 1);
            S.back().push_back(it.output);
            Y.push_back(it.label);
            if (i == length - 1)
                items.push_back(it);
        }
        lengths += " " + std::to_string(length);
    }
    VVV T; // never evaluated
    VV TY;
    for (int s = 0; s < 2; ++s)
    {
        T.emplace_back();
        for (int i = 0; i < separate; ++i)
        {
            const auto it = simple(p, s + 2 * i);
            T.back().push_back(it.output);
            TY.push_back(it.label);
        }
    }
    const auto data = separate ? std::make_unique<Data>(p, T, TY, S, Y, nature::sequential)
                               : std::make_unique<Data>(p, S, Y, nature::sequential);
    Data& d = *data;
    threshold(d, p, 0.375f);
    auto net = identity(2);
    net->evaluate(d);
    mc::step((int64_t)Y.size());
    const auto what = "lengths" + lengths + ": " + metrics::text(p, items, 0.375f);
    mc::note("%s", what.c_str());
    compare(*net, compute(p, items, 0.375f), what);
    mc::state(mc::hash(what));
}

MC_SCENARIO_SPLIT(network_outputs, 3) // the metrics are computed from the outputs of the network, temporal or not
{
    const auto T = activation::tanh, S = activation::sigmoid;
    const std::vector<ArchSpec> architectures = {
        {{2}, {{FC, 3, 1, T}, {FC, 2, 1, S}}}, {{2}, {{FC, 3, 1, S, {snn::Dropout(0.5f)}}, {FC, 2, 1, S, {snn::Softmax()}}}},
        {{2}, {{RNN, 2, 1, T}}}, {{2}, {{GRU, 2}, {FC, 2, 1, S}}}, {{2, 1}, {{CONV, 2, 1, S}}}};
    const auto& a = mc::pick(architectures);
    const problem p = mc::pick(std::vector<problem>{problem::classification, problem::multipleClassification, problem::regression});
    const int kind = mc::choose(3);
    const int count = 1 + mc::choose(4);
    auto net = make(a);
    setWeights(*net, 3, 1.2f);
    const int outputs = net->getNumberOfOutputs();
    VV X, Y;
    for (int i = 0; i < count; ++i)
    {
        X.push_back(values(mc::choose(3), 2, 1.5f));
        V l(outputs, 0.0f);
        l[i % outputs] = 1.0f;
        Y.push_back(l);
    }
    std::unique_ptr<Data> d;
    std::vector<bool> first(count, false), evaluated(count, true);
    if (kind == 0)
        d = std::make_unique<Data>(p, X, Y);
    else if (kind == 1)
    {
        const int cut = mc::choose(count);
        VVV seq;
        if (cut > 0)
            seq.emplace_back(X.begin(), X.begin() + cut);
        seq.emplace_back(X.begin() + cut, X.end());
        evaluated.assign(count, false);
        first[0] = first[cut] = true;
        evaluated[count - 1] = true;
        if (cut > 0)
            evaluated[cut - 1] = true;
        VV flat = X;
        d = std::make_unique<Data>(p, seq, Y, nature::sequential);
        X = flat;
    }
    else
    {
        first[0] = true;
        d = std::make_unique<Data>(p, X, Y, nature::timeSeries, 1);
    }
    threshold(*d, p, 0.4f);
    Net twin(*net);
    std::vector<Item> items;
    bool close = false;
    for (int i = 0; i < count; ++i)
    {
        const V out = twin.computeOutput(X[i], first[i]);
        if (evaluated[i])
            items.push_back({out, Y[i]});
    }
    (void)close;
    net->evaluate(*d);
    mc::step(count);
    const auto what = describe(a) + ": " + metrics::text(p, items, 0.4f);
    mc::note("%s", what.c_str());
    compare(*net, compute(p, items, 0.4f), what);
    mc::state(mc::hash(what));
}

MC_SCENARIO(large_sizes) // many outputs or many testing data, all or the last of the sequences
{
    const problem p = mc::pick(std::vector<problem>{problem::classification, problem::multipleClassification, problem::regression});
    const int size = mc::pick(largeSizes());
    const bool manyOutputs = size < (mc::thorough() ? 1024 : 400) && mc::flag();
    const int outputs = manyOutputs ? size : 3, count = manyOutputs ? 5 : size, kind = mc::choose(3), salt = mc::choose(3);
    std::vector<Item> items, evaluated;
    VV X, Y;
    for (int i = 0; i < count; ++i) // dyadic values: the sums are exact
    {
        Item it;
        for (int c = 0; c < outputs; ++c)
        {
            it.output.push_back((float)((i * 13 + c * 7 + salt * 5 + i * c) % 17) / 16);
            it.label.push_back(p == problem::classification ? 0.0f : p == problem::regression ? it.output[c] + (float)((i * 5 + c * 11 + i * c + salt) % 9 - 4) / 16 : (float)((i * 3 + c + salt + i * c) % 5 > 2));
        }
        const int k = (i * 29 + salt * 3 + 31) % outputs;
        if (p == problem::classification)
        {
            it.label[k] = 1.0f;
            if (i % 2)
                it.output[k] = 1.5f;
        }
        X.push_back(it.output);
        Y.push_back(it.label);
        items.push_back(it);
    }
    std::unique_ptr<Data> d;
    if (kind == 1)
    {
        VVV S;
        for (int i = 0, l = 1; i < count; i += l, l = l % 4 + 1)
        {
            S.emplace_back(X.begin() + i, X.begin() + std::min(count, i + l));
            evaluated.push_back(items[std::min(count, i + l) - 1]);
        }
        d = std::make_unique<Data>(p, S, Y, nature::sequential);
    }
    else
    {
        evaluated = items;
        d = std::make_unique<Data>(p, X, Y, kind ? nature::timeSeries : nature::nonTemporal, kind ? 1 : 0);
    }
    threshold(*d, p, 0.1875f);
    auto net = identity(outputs);
    const auto what = mc::format("problem %d, %d outputs, %d testing data of kind %d, %d", (int)p, outputs, count, kind, salt);
    mc::note("%s", what.c_str());
    net->evaluate(*d);
    mc::step(count);
    const auto m = compute(p, evaluated, 0.1875f);
    compare(*net, m, what, 1e-5);
    mc::state(mc::hash(what));
    mc::outcome(mc::format("%.5f %.5f %.5f %.5f %.5f", m.accuracy, m.weighted, m.f1, m.mae, m.rmse));
}

MC_SCENARIO(long_testing_sets) // the small errors of many testing data are not lost in their sum
{
    const problem p = mc::pick(std::vector<problem>{problem::classification, problem::multipleClassification, problem::regression});
    const int count = mc::pick(mc::thorough() ? std::vector<int>{10000, 50000, 200000, 1000000} : std::vector<int>{10000, 50000, 200000});
    const float error = mc::pick(V{0.1f, 0.03f, 0.7f});
    std::vector<Item> items;
    VV X, Y;
    for (int i = 0; i < count; ++i)
    {
        Item it;
        it.label = {1.0f, 0.0f};
        it.output = {i % 5 ? 1.0f - error : 1.0f, i % 3 ? error : 0.0f};
        X.push_back(it.output);
        Y.push_back(it.label);
        items.push_back(std::move(it));
    }
    VV X2 = X, Y2 = Y;
    Data d(p, X, Y, X2, Y2);
    threshold(d, p, 0.5f);
    auto net = identity(2);
    const auto what = mc::format("problem %d, %d testing data, errors of %g", (int)p, count, error);
    mc::note("%s", what.c_str());
    net->evaluate(d);
    mc::step(count);
    compare(*net, compute(p, items, 0.5f), what, 1e-5);
    mc::state(mc::hash(what));
    mc::outcome(mc::format("%.5f %.5f", net->getMeanAbsoluteError(), net->getRootMeanSquaredError()));
}

MC_SCENARIO(magnitudes) // small and large errors
{
    const problem p = mc::pick(std::vector<problem>{problem::classification, problem::multipleClassification, problem::regression});
    const V outputs = {1e-12f, 1e-5f, 7.5f, -40.0f, 3000.0f, -2e5f, 3e8f, -1e15f, 2e25f, -1e37f};
    const float first = mc::pick(outputs), second = mc::pick(outputs), t = mc::pick(V{0.5f, 1e-3f, 100.0f, 1e10f});
    const int count = 1 + mc::choose(3);
    std::vector<Item> items;
    for (int i = 0; i < count; ++i)
    {
        Item it;
        it.output = i % 2 ? V{0.25f, second} : V{first, 1.0f};
        it.label = p == problem::regression && i == 2 ? V{second, first} : i ? V{0.0f, 1.0f} : V{1.0f, 0.0f};
        items.push_back(it);
    }
    evaluate(*identity(2), p, items, t);
}
