// C08: a network which is saved and loaded is the same network, now and for every continuation.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "ops.hpp"
using namespace ops;

static void sameNetwork(Net& net, Net& loaded, const std::string& what)
{
    MC_CHECK(loaded == net && net == loaded && !(loaded != net), "equality", "%s: the loaded network is not equal to the saved one", what.c_str());
    const auto a = observe(net), b = observe(loaded);
    MC_CHECK(a == b, "observation", "%s: the loaded network differs:%s", what.c_str(), difference(a, b).c_str());
    MC_CHECK(loaded.isValid() == net.isValid() && !loaded.isTraining(), "validity", "%s: the loaded network is not valid", what.c_str());
    MC_CHECK(sgd(loaded)->learningRate == sgd(net)->learningRate && sgd(loaded)->momentum == sgd(net)->momentum, "optimizer", "%s", what.c_str());
}

static std::unique_ptr<Net> roundTrip(Net& net, const std::string& path, const std::string& what)
{
    const auto before = observe(net);
    net.saveAs(path);
    auto after = observe(net);
    MC_CHECK(after.path == path, "path", "%s: %s", what.c_str(), after.path.c_str());
    after.path = before.path;
    after.summary = before.summary;
    MC_CHECK(before == after, "save", "%s: the save changes the network:%s", what.c_str(), difference(before, after).c_str());
    auto loaded = load(path);
    mc::step(2);
    sameNetwork(net, *loaded, what);
    const std::string file = readFile(path);
    loaded->saveAs(path);
    MC_CHECK(readFile(path) == file, "second save", "%s: the file of the loaded network differs", what.c_str());
    return loaded;
}

static void twins(Net& a, Net& b, const std::vector<int>& continuation, int seed, const std::string& what)
{
    for (int op : continuation)
    {
        const auto counter = rng::counter;
        const V x = apply(a, op, seed);
        rng::counter = counter;
        const V y = apply(b, op, seed);
        rng::counter = counter + 1000;
        mc::step(2);
        ++seed;
        MC_CHECK(same(x, y), "continuation", "%s then %s: %s instead of %s", what.c_str(), name(op), text(y).c_str(), text(x).c_str());
        MC_CHECK(same(weights(a), weights(b)), "continuation", "%s then %s: the weights differ", what.c_str(), name(op));
        const auto o = observe(a), p = observe(b);
        MC_CHECK(o == p, "continuation", "%s then %s: the networks differ:%s", what.c_str(), name(op), difference(o, p).c_str());
    }
}

static const std::vector<int> continuation = {OUTPUT_NO_RESET, TRAIN_ONCE_NO_RESET, TRAIN_ONCE, EVALUATE, OUTPUT, TRAIN, CLUSTER};

static Bounds small(bool deep)
{
    Bounds b;
    b.inputs = {{3}, {1, 4}, {2, 3}, {2, 2, 3}, {1, 4, 3}};
    b.layers = deep ? layers({2}, {2}, {2}) : layers({1, 2}, {1, 2}, {1, 2});
    return b;
}

static const std::vector<std::vector<int>> histories = {{}, {TRAIN_ONCE}, {TRAIN_ONCE, TRAIN_ONCE_NO_RESET, OUTPUT_NO_RESET}, {TRAIN, RATE}, {TRAIN, EVALUATE, OUTPUT}};

static void oneNetwork(ArchSpec a, const std::vector<int>& history)
{
    auto net = make(a);
    setWeights(*net, 5);
    int seed = 1;
    std::string what = describe(a) + mc::format(" learning rate %g momentum %g:", a.lr, a.momentum);
    for (int op : history)
    {
        apply(*net, op, seed++);
        what += std::string(" ") + name(op);
        mc::step();
    }
    mc::note("%s", what.c_str());
    auto loaded = roundTrip(*net, mc::scratchDir() + "/n.snn", what);
    mc::state(mc::hash(readFile(mc::scratchDir() + "/n.snn")));
    twins(*net, *loaded, continuation, 20, what);
    mc::outcome(hashWeights(*net));
}

MC_SCENARIO_SPLIT(architectures, 3)
{
    auto a = grammar::choose(small(false), 1);
    const int r = mc::choose(6);
    for (auto& l : a.layers)
        if (l.kind != GRU && l.kind != POOL)
            l.act = allActivations[mc::choose(7)];
    decorate(a, r);
    a.momentum = mc::pick(V{0.0f, 0.9f});
    a.lr = a.momentum == 0 ? 0.05f : 1e-3f;
    oneNetwork(a, mc::thorough() ? mc::pick(histories) : histories[2]);
}

MC_SCENARIO_SPLIT(stacks, 3)
{
    auto a = grammar::choose(small(!mc::thorough()), 2);
    mixActivations(a);
    decorate(a, mc::choose(6));
    a.momentum = 0.7f;
    oneNetwork(a, mc::pick(histories));
}

MC_SCENARIO_THOROUGH(deep_stacks)
{
    auto a = grammar::choose(small(true), 3);
    mixActivations(a);
    decorate(a, mc::choose(6));
    a.momentum = 0.7f;
    oneNetwork(a, mc::pick(histories));
}

MC_SCENARIO_SPLIT(large_networks, 2) // many inputs, neurons, filters, channels, positions or layers
{
    auto a = large();
    for (auto& l : a.layers)
        if (a.layers.size() < 3 && l.kind != POOL && l.n > 2)
            l.optimizers = {snn::Dropout(0.3f)};
    a.momentum = 0.9f;
    a.lr = 1e-3f;
    oneNetwork(a, mc::flag() ? histories[2] : histories[3]);
}

MC_SCENARIO_SPLIT(histories_of_operations, 3) // every sequence of operations, the save at every point
{
    static const std::vector<ArchSpec> nets = {
        {{3}, {{FC, 2, 1, activation::tanh, {snn::Dropout(0.5f)}}, {FC, 2, 1, activation::sigmoid, {snn::Softmax()}}}, 0.05f, 0.8f},
        {{2}, {{RNN, 2, 1, activation::tanh}, {GRU, 2}, {FC, 2, 1, activation::sigmoid}}, 0.05f, 0.8f},
        {{1, 2, 3}, {{CONV, 2, 2, activation::GELU}, {LC, 1, 1, activation::iSigmoid}, {FC, 2, 1, activation::gaussian}}, 0.05f, 0.8f},
    };
    const auto& a = mc::pick(nets);
    auto net = make(a);
    setWeights(*net, 6);
    std::string what = describe(a) + ":";
    const int length = mc::thorough() ? 4 : 3;
    for (int i = 0; i < length; ++i)
    {
        const int op = mc::choose(NOPS);
        apply(*net, op, i + 1);
        what += std::string(" ") + name(op);
        mc::step();
    }
    mc::note("%s", what.c_str());
    auto loaded = roundTrip(*net, mc::scratchDir() + "/h.snn", what);
    mc::state(mc::hash(readFile(mc::scratchDir() + "/h.snn")));
    twins(*net, *loaded, {OUTPUT_NO_RESET, TRAIN_ONCE_NO_RESET, TRAIN}, 20, what);
    // a second generation
    auto again = roundTrip(*loaded, mc::scratchDir() + "/i.snn", what + " (second generation)");
    twins(*loaded, *again, {OUTPUT_NO_RESET, TRAIN_ONCE}, 40, what);
}

MC_SCENARIO(special_values) // each weight takes each special value
{
    static const V special = {0.0f, -0.0f, 1e-45f, -1e-45f, 1.1754942e-38f, 1.17549435e-38f, 3.4028235e38f, -3.4028235e38f, 0.1f, 1.0f / 3, 16777217.0f, 1e10f, 123456.789f, 9.99999975e-5f, 1.00000012f, 0.99999994f};
    ArchSpec a = mc::pick(std::vector<ArchSpec>{{{3}, {{FC, 2, 1, activation::tanh}}}, {{2}, {{RNN, 2, 1, activation::tanh}}}, {{1, 3}, {{CONV, 2, 2, activation::sigmoid}}}, {{1, 3}, {{LC, 2, 2, activation::sigmoid}}}, {{1, 3, 3}, {{CONV, 1, 2, activation::sigmoid}}}, {{1, 2, 2}, {{LC, 2, 2, activation::sigmoid}}}});
    auto net = make(a);
    setWeights(*net, 8);
    const int n = mc::choose(net->layers[0]->getNumberOfNeurons());
    V w = neuronWeights(*net, 0, n);
    const int i = mc::choose((int)w.size());
    w[i] = mc::pick(special);
    setNeuronWeights(*net, 0, n, w);
    const std::string what = describe(a) + mc::format(" weight %d of neuron %d = %.9g", i, n, w[i]);
    mc::note("%s", what.c_str());
    auto loaded = roundTrip(*net, mc::scratchDir() + "/s.snn", what);
    mc::outcome(mc::hash(readFile(mc::scratchDir() + "/s.snn")));
    mc::state(hashWeights(*loaded));
}

MC_SCENARIO(learning_parameters) // each value of the parameters which are not weights
{
    static const V values = {0.0f, 1e-45f, 1e-7f, 0.03f, 1.0f / 3, 0.99999994f, 1.0f, 123456.789f};
    static const V probabilities = {0.0f, 1e-7f, 0.25f, 1.0f / 3, 0.9999999f};
    ArchSpec a{{3}, {{FC, 2, 1, activation::tanh}, {FC, 2, 1, activation::sigmoid}}};
    const int which = mc::choose(6);
    switch (which)
    {
    case 0: a.lr = mc::pick(V{1e-45f, 1e-7f, 0.03f, 1.0f / 3, 0.99999994f}); break;
    case 1: a.momentum = mc::pick(V{0.0f, 1e-45f, 1e-7f, 0.03f, 1.0f / 3, 0.99999994f, 1.0f}); break;
    case 2: a.layers[0].optimizers = {snn::Dropout(mc::pick(probabilities))}; break;
    case 3: a.layers[0].optimizers = {snn::L1Regularization(mc::pick(values))}; break;
    case 4: a.layers[0].optimizers = {snn::L2Regularization(mc::pick(values))}; break;
    default: a.layers[0].optimizers = {snn::ErrorMultiplier(mc::pick(values))}; break;
    }
    if (which >= 2 && mc::flag())
        a.layers[1].optimizers = {snn::ErrorMultiplier(0.3f), a.layers[0].optimizers[0], snn::Softmax()};
    oneNetwork(a, {TRAIN_ONCE, TRAIN_ONCE});
}

MC_SCENARIO(names) // the name of the file is part of the network
{
    static const std::vector<std::string> names = {"a", "with space", "é", "line\nfeed", "tab\tname", "12 3", "a.snn.tmp", ".hidden", "quote\"s", "back\\slash", "very_long_" + std::string(180, 'x'), "%s%n"};
    const std::string dir = mc::scratchDir() + "/names";
    std::filesystem::remove_all(dir);
    std::filesystem::create_directories(dir);
    auto net = make({{2}, {{FC, 2}}});
    setWeights(*net, 3);
    net->autoSaveWhenBetter = mc::flag();
    const std::string path = dir + "/" + mc::pick(names);
    mc::note("%s", path.c_str());
    auto loaded = roundTrip(*net, path, path);
    MC_CHECK(loaded->autoSaveWhenBetter == net->autoSaveWhenBetter && loaded->autoSaveFilePath == path, "path", "%s", path.c_str());
    MC_CHECK(std::distance(std::filesystem::directory_iterator(dir), std::filesystem::directory_iterator()) == 1, "files", "%s: other files are left", path.c_str());
    mc::outcome(mc::hash(readFile(path)));
    mc::state(mc::hash(path));
}

// A program which sets its locale to the one of the user, where numbers are written in another way.
struct Numbers : std::numpunct<char>
{
    char point, separator;
    std::string group;
    Numbers(char p, char s, std::string g) : point(p), separator(s), group(std::move(g)) {}
    char do_decimal_point() const override { return point; }
    char do_thousands_sep() const override { return separator; }
    std::string do_grouping() const override { return group; }
    std::string do_truename() const override { return "vrai"; }
};

static std::locale localeOf(int i)
{
    const auto& c = std::locale::classic();
    switch (i)
    {
    case 0: return c;
    case 1: return std::locale(c, new Numbers(',', '.', "\3"));
    case 2: return std::locale(c, new Numbers(',', ' ', "\3"));
    default: return std::locale(c, new Numbers('.', ',', "\1"));
    }
}

struct WithLocale
{
    std::locale previous;
    explicit WithLocale(int i) : previous(std::locale::global(localeOf(i))) {}
    ~WithLocale() { std::locale::global(previous); }
};

MC_SCENARIO(locales) // the file does not depend on the locale of the program which writes it, nor on the one which reads it
{
    const int first = mc::choose(4), second = mc::choose(4), which = mc::choose(4), history = mc::choose((int)histories.size());
    static const std::vector<ArchSpec> all = {{{3}, {{FC, 2}, {GRU, 1}}}, {{1200}, {{FC, 2, 1, activation::tanh}, {RNN, 1, 1, activation::tanh}}},
        {{1, 4, 4}, {{CONV, 2, 2, activation::ReLU}, {LC, 1, 2, activation::tanh}, {FC, 2}}}, {{2}, {{FC, 1100, 1, activation::tanh}, {FC, 1}}}};
    auto net = make(all[which]);
    setWeights(*net, 5);
    int seed = 1;
    for (int op : histories[history])
    {
        apply(*net, op, seed++);
        mc::step();
    }
    const auto what = mc::format("%s after %zu operations, saved with the locale %d and loaded with %d", describe(all[which]).c_str(), histories[history].size(), first, second);
    mc::note("%s", what.c_str());
    const std::string path = mc::scratchDir() + "/locale.snn";
    net->saveAs(path);
    const std::string classic = readFile(path);
    {
        WithLocale l(first);
        net->saveAs(path);
    }
    MC_CHECK(readFile(path) == classic, "locale", "%s: the file differs", what.c_str());
    std::unique_ptr<Net> loaded;
    {
        WithLocale l(second);
        loaded = load(path);
        mc::step();
    }
    sameNetwork(*net, *loaded, what);
    loaded->saveAs(path);
    MC_CHECK(readFile(path) == classic, "locale", "%s: the second file differs", what.c_str());
    mc::state(mc::hash(what));
    mc::outcome(mc::hash(classic));
}

// The archives written by the version of the project from which this verification started are still loaded.
static std::string archives()
{
    return getenv("SNN_ARCHIVES") ? getenv("SNN_ARCHIVES") : "/verif/archives";
}

MC_SCENARIO(old_archives)
{
    const auto T = activation::tanh, S = activation::sigmoid, R = activation::ReLU, I = activation::identity;
    static const std::vector<ArchSpec> as = {
        {{3}, {{FC, 2, 1, S}}},
        {{3}, {{FC, 4, 1, T, {snn::Dropout(0.5f)}}, {FC, 2, 1, S, {snn::Softmax()}}}, 0.02f, 0.9f},
        {{1, 6}, {{POOL, 1, 2}, {FC, 3, 1, R}, {FC, 2, 1, activation::iSigmoid}}},
        {{2, 3, 3}, {{CONV, 2, 2, activation::GELU}, {FC, 3, 1, S}}},
        {{2, 3, 3}, {{LC, 2, 2, T, {snn::L2Regularization(0.01f)}}, {FC, 2, 1, S, {snn::L1Regularization(0.01f), snn::ErrorMultiplier(2.0f)}}}},
        {{1, 5}, {{LC, 2, 2, activation::gaussian}, {FC, 2, 1, I}}},
        {{2}, {{RNN, 2, 1, T}, {FC, 2, 1, S}}},
        {{2}, {{GRU, 2}, {FC, 2, 1, S}}},
    };
    const int i = mc::choose((int)as.size());
    const std::string file = archives() + "/" + std::to_string(i) + ".snn";
    mc::note("%s", file.c_str());
    auto net = load(file);
    VV expected;
    double training = 0, accuracy = 0, mae = 0, epoch = 0;
    std::ifstream in(archives() + "/weights.txt");
    for (std::string line; std::getline(in, line);)
    {
        std::istringstream is(line);
        int network, n;
        is >> network >> n;
        if (network != i)
            continue;
        if (n < 0)
        {
            is >> training >> accuracy >> mae >> epoch;
            continue;
        }
        V w(n);
        for (auto& v : w)
            is >> v;
        expected.push_back(w);
    }
    VV got;
    for (const auto& l : weights(*net))
        got.insert(got.end(), l.begin(), l.end());
    MC_CHECK(got.size() == expected.size() && !got.empty(), "old archive", "%zu neurons", got.size());
    for (size_t n = 0; n < got.size(); ++n)
        MC_CHECK(same(got[n], expected[n]), "old archive", "%s: weights %s instead of %s", file.c_str(), text(got[n]).c_str(), text(expected[n]).c_str());
    MC_CHECK(net->getNumberOfTraining() == training && near(net->getGlobalClusteringRate(), accuracy, 1e-6, 0) && near(net->getMeanAbsoluteErrorMin(), mae, 1e-5, 1e-5)
        && net->getCurrentEpoch() == epoch, "old archive", "%s: statistics", file.c_str());
    MC_CHECK(net->isValid() == 0 && !net->isTraining() && net->autoSaveWhenBetter == (i % 2 == 1), "old archive", "%s: validity", file.c_str());
    MC_CHECK(std::fabs(sgd(*net)->learningRate - as[i].lr) < 1e-9 && std::fabs(sgd(*net)->momentum - as[i].momentum) < 1e-9, "old archive", "%s: optimizer", file.c_str());
    // the output is the one of the reference model of the same architecture
    ref::Net model(as[i]);
    model.readWeights(*net);
    if (i < 6)
        for (int c = 0; c < 3; ++c)
        {
            const V x = values(70 + c, model.inputs());
            const V out = net->computeOutput(x, true);
            const auto e = model.forward(x);
            MC_CHECK(out.size() == e.size() && ref::maxDifference(e, out) < 1e-4, "old archive", "%s: output %s instead of %s", file.c_str(), text(out).c_str(), text(e).c_str());
        }
    auto loaded = roundTrip(*net, mc::scratchDir() + "/old.snn", file);
    twins(*net, *loaded, continuation, 20, file);
    mc::step();
    mc::state(hashWeights(*net));
}

MC_SCENARIO(published_archive) // the trained network which the project publishes
{
    const std::string file = std::string(getenv("SNN_REPO") ? getenv("SNN_REPO") : "/repo") + "/build/BestNeuralNetworkForAudioCatsAndDogs.snn";
    if (!std::filesystem::exists(file))
        return;
    const int continued = mc::choose(3);
    mc::note("%s, %d", file.c_str(), continued);
    auto net = load(file);
    MC_CHECK(net->getNumberOfInputs() == 16000 && net->getNumberOfOutputs() == 2 && net->getNumberOfLayers() == 3 && net->getNumberOfParameters() == 9242, "published", "shape");
    MC_CHECK(net->getCurrentEpoch() == 6100 && net->autoSaveFilePath == "BestNeuralNetworkForAudioCatsAndDogs.snn" && net->autoSaveWhenBetter && !net->isTraining(), "published", "state");
    MC_CHECK(near(sgd(*net)->learningRate, 5e-6, 1e-12, 1e-6) && near(sgd(*net)->momentum, 0.99, 1e-7, 0), "published", "optimizer");
    MC_CHECK(near(net->getGlobalClusteringRateMax(), 0.92537314, 1e-6, 0), "published", "best rate %.9g", net->getGlobalClusteringRateMax());
    // the first sequence that the version of the project from which this verification started gives
    static const std::vector<double> expected = {1.10619701e-10, 0.559197783, 7.59676277e-06, 5.63649428e-06, 0.0251686797};
    for (size_t s = 0; s < expected.size(); ++s)
    {
        V x(16000);
        for (size_t i = 0; i < x.size(); ++i)
            x[i] = std::sin((float)i * 0.001f * (float)(s + 1)) * 0.7f;
        auto copy = continued == 0 ? nullptr : std::make_unique<Net>(*net);
        const V out = (continued == 1 ? copy : net)->computeOutput(x, s == 0);
        if (continued == 1)
            net->computeOutput(x, s == 0);
        mc::step();
        MC_CHECK(out.size() == 2 && near(out[1], expected[s], 1e-4, 0) && near(out[0], 1 - expected[s], 1e-4, 0), "published", "output %zu is %s instead of %g", s, text(out).c_str(), expected[s]);
        if (continued == 2)
            break;
    }
    if (continued == 2)
    {
        const std::string path = mc::scratchDir() + "/published.snn";
        net->saveAs(path);
        auto loaded = load(path);
        MC_CHECK(*loaded == *net && same(weights(*loaded), weights(*net)), "published", "the saved copy differs");
    }
    mc::state(hashWeights(*net));
}
