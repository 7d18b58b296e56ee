// C27: the summary and the numbers of a network describe its architecture and its history.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "ops.hpp"
using namespace ops;

struct Block
{
    std::string name;
    std::map<std::string, std::string> fields;
    std::vector<std::string> lines;
};

static std::string trim(std::string s)
{
    const auto a = s.find_first_not_of(" \t\r"), b = s.find_last_not_of(" \t\r");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}

static std::string squeeze(std::string s) // without spaces
{
    std::erase_if(s, [](unsigned char c) { return isspace(c); });
    return s;
}

// Lines "key: value" grouped by the ruled lines.
static std::vector<Block> parse(const std::string& summary)
{
    std::vector<Block> r(1);
    std::istringstream is(summary);
    for (std::string line; std::getline(is, line);)
    {
        line = trim(line);
        if (line.empty())
            continue;
        if (line[0] == '=' || line[0] == '-')
        {
            if (!r.back().lines.empty())
                r.emplace_back();
            continue;
        }
        auto& b = r.back();
        b.lines.push_back(line);
        const auto colon = line.find(':');
        if (colon == std::string::npos)
        {
            if (b.name.empty())
                b.name = line;
        }
        else
            b.fields[trim(line.substr(0, colon))] = trim(line.substr(colon + 1));
    }
    return r;
}

static std::string shapeText(const std::vector<int>& s)
{
    std::string r = "[";
    for (size_t i = 0; i < s.size(); ++i)
        r += (i ? "," : "") + std::to_string(s[i]);
    return r + "]";
}

static void judge(const Net& net, const ArchSpec& a, const ref::Net& model, int epochs, int trainings, const std::string& what)
{
    int total = 0, neurons = 0;
    std::vector<int> parameters;
    for (const auto& l : model.layers)
    {
        const int n = l.spec.kind == POOL ? 0 : (int)l.w.size();
        int p = 0;
        for (const auto& w : l.w)
            p += (int)w.size();
        if (l.spec.kind == GRU)
            p = l.neurons * l.weightsPerNeuron;
        parameters.push_back(p);
        total += p;
        neurons += l.spec.kind == GRU ? l.neurons : n;
    }
    MC_CHECK(net.getNumberOfLayers() == (int)a.layers.size(), "numbers", "%s: %d layers", what.c_str(), net.getNumberOfLayers());
    MC_CHECK(net.getNumberOfInputs() == ref::product(a.input), "numbers", "%s: %d inputs", what.c_str(), net.getNumberOfInputs());
    MC_CHECK(net.getNumberOfOutputs() == ref::product(model.layers.back().out), "numbers", "%s: %d outputs", what.c_str(), net.getNumberOfOutputs());
    MC_CHECK(net.getNumberOfNeurons() == neurons, "numbers", "%s: %d neurons instead of %d", what.c_str(), net.getNumberOfNeurons(), neurons);
    MC_CHECK(net.getNumberOfParameters() == total, "numbers", "%s: %d parameters instead of %d", what.c_str(), net.getNumberOfParameters(), total);
    MC_CHECK((int)net.getNumberOfTraining() == trainings && net.getCurrentEpoch() == epochs, "numbers", "%s: %d trainings and %d epochs instead of %d and %d", what.c_str(), (int)net.getNumberOfTraining(), net.getCurrentEpoch(), trainings, epochs);
    const std::string s = net.summary();
    const auto blocks = parse(s);
    std::map<std::string, std::string> head;
    size_t b = 0;
    while (b < blocks.size() && !blocks[b].fields.contains("Input shape"))
    {
        for (const auto& f : blocks[b].fields)
            head.insert(f);
        ++b;
    }
    MC_CHECK(head["Parameters"] == std::to_string(total) && head["Epochs"] == std::to_string(epochs) && (head["Trainnig"] == std::to_string(trainings) || head["Training"] == std::to_string(trainings)), "summary", "%s:\n%s", what.c_str(), s.c_str());
    MC_CHECK(head["Name"] == net.autoSaveFilePath, "summary", "%s:\n%s", what.c_str(), s.c_str());
    for (size_t l = 0; l < a.layers.size(); ++l, ++b)
    {
        MC_CHECK(b < blocks.size(), "summary", "%s: layer %zu is missing:\n%s", what.c_str(), l, s.c_str());
        const auto& L = model.layers[l];
        const auto& spec = a.layers[l];
        auto f = blocks[b].fields;
        std::string name = kindName(spec.kind);
        if (filtered(spec.kind))
            name += L.in.size() == 2 ? "1D" : "2D";
        const auto say = [&](const char* field) { return mc::format("%s: layer %zu, %s is %s:\n%s", what.c_str(), l, field, f[field].c_str(), s.c_str()); };
        MC_CHECK(blocks[b].name == name, "summary", "%s: layer %zu is %s:\n%s", what.c_str(), l, blocks[b].name.c_str(), s.c_str());
        const bool flat = !filtered(spec.kind);
        const std::string inputs = shapeText({ref::product(L.in)}), outputs = shapeText(L.out);
        if (spec.kind == GRU && inputs != outputs && squeeze(f["Input shape"]) == outputs && squeeze(f["Output shape"]) == inputs)
        {
            mc::finding("shapes of gated layers are swapped in the summary", what);
            f["Input shape"] = inputs;
            f["Output shape"] = outputs;
        }
        MC_CHECK(squeeze(f["Input shape"]) == shapeText(flat ? std::vector<int>{ref::product(L.in)} : L.in), "summary", "%s", say("Input shape").c_str());
        MC_CHECK(squeeze(f["Output shape"]) == shapeText(L.out), "summary", "%s", say("Output shape").c_str());
        if (flat)
            MC_CHECK(f["Neurons"] == std::to_string(spec.n), "summary", "%s", say("Neurons").c_str());
        else
            MC_CHECK(f["Kernel size"] == std::to_string(spec.k) + (L.in.size() == 2 ? "" : "x" + std::to_string(spec.k)), "summary", "%s", say("Kernel size").c_str());
        if (spec.kind == CONV || spec.kind == LC)
            MC_CHECK(f["Filters"] == std::to_string(spec.n), "summary", "%s", say("Filters").c_str());
        if (spec.kind != POOL)
            MC_CHECK(f["Parameters"] == std::to_string(parameters[l]), "summary", "%s", say("Parameters").c_str());
        if (spec.kind != POOL && spec.kind != GRU)
            MC_CHECK(f["Activation"] == actName(spec.act), "summary", "%s", say("Activation").c_str());
        std::string optimizers, expected;
        for (const auto& line : blocks[b].lines)
            for (const char* o : {"Dropout", "L1Regularization", "L2Regularization", "ErrorMultiplier", "Softmax"})
                if (const auto p = line.find(o); p != std::string::npos)
                    optimizers += line.substr(p) + " ";
        for (const auto& o : spec.optimizers)
        {
            static const char* names[] = {"Dropout", "L1Regularization", "L2Regularization", "ErrorMultiplier", "Softmax"};
            std::ostringstream os;
            os << names[(int)o.type];
            if ((int)o.type < 4)
                os << "(" << o.value << ")";
            expected += os.str() + " ";
        }
        MC_CHECK(optimizers == expected, "summary", "%s: optimizers %s instead of %s:\n%s", what.c_str(), optimizers.c_str(), expected.c_str(), s.c_str());
    }
    MC_CHECK(b < blocks.size() && !blocks[b].fields.contains("Input shape"), "summary", "%s: too many layers:\n%s", what.c_str(), s.c_str());
    std::map<std::string, std::string> tail;
    for (; b < blocks.size(); ++b)
        for (const auto& f : blocks[b].fields)
            tail.insert(f);
    std::ostringstream lr, momentum;
    lr << sgd(net)->learningRate;
    momentum << sgd(net)->momentum;
    MC_CHECK(tail["Learning rate"] == lr.str() && tail["Momentum"] == momentum.str(), "summary", "%s: optimizer:\n%s", what.c_str(), s.c_str());
}

// the layers that the other checks leave without optimizers
static void complete(ArchSpec& a, int rotation)
{
    for (auto& l : a.layers)
        if (l.kind == GRU || l.kind == POOL)
            switch (rotation % 6)
            {
            case 0: break;
            case 1: l.optimizers = {snn::Dropout(0.4f)}; break;
            case 2: l.optimizers = {snn::L1Regularization(0.02f), snn::ErrorMultiplier(0.25f)}; break;
            case 3: l.optimizers = {snn::ErrorMultiplier(1.5f), snn::Dropout(0.25f), snn::L2Regularization(0.03f)}; break;
            case 4: l.optimizers = {snn::ErrorMultiplier(0.5f), snn::Softmax()}; break;
            case 5: l.optimizers = {snn::Softmax()}; break;
            }
}

static void history(const ArchSpec& a)
{
    auto net = make(a);
    setWeights(*net, 3, 0.4f);
    ref::Net model(a);
    model.readWeights(*net);
    const std::string what = describe(a);
    mc::note("%s", what.c_str());
    judge(*net, a, model, 0, 0, what);
    apply(*net, TRAIN_ONCE, 1);
    judge(*net, a, model, 0, 1, what + " after a training");
    auto d = data(*net, 2, 3);
    const int epochs = 1 + mc::choose(2);
    if (!net->hasNan())
    {
        net->train(*d, snn::operator""_ep((unsigned long long)epochs), 1, 1);
        if (!net->hasNan())
        {
            const int e = net->getCurrentEpoch();
            MC_CHECK(e == epochs || e == epochs + 1, "numbers", "%s: %d epochs after %d", what.c_str(), e, epochs);
            judge(*net, a, model, e, (int)net->getNumberOfTraining(), what + " after epochs");
            MC_CHECK(net->getNumberOfTraining() >= 1 + 3 * epochs, "numbers", "%s: %d trainings", what.c_str(), (int)net->getNumberOfTraining());
        }
    }
    // the copies have the same history
    const int epochsDone = net->getCurrentEpoch(), trainings = (int)net->getNumberOfTraining();
    const Net copy = *net;
    judge(copy, a, model, epochsDone, trainings, what + ", copy");
    if (mc::thorough() ? mc::flag() : (mc::hash(what) >> 7) % 2 == 0)
    {
        const std::string path = mc::scratchDir() + "/n.snn";
        net->saveAs(path);
        judge(*load(path), a, model, epochsDone, trainings, what + ", loaded");
        std::filesystem::remove(path);
    }
    else
    {
        // the history continues in the copy
        Net next = copy;
        apply(next, TRAIN_ONCE, 2);
        judge(next, a, model, epochsDone, trainings + (net->hasNan() ? next.getNumberOfTraining() - trainings : 1), what + ", trained copy");
        judge(copy, a, model, epochsDone, trainings, what + ", copied copy");
    }
    mc::step(5);
    mc::state(mc::hash(net->summary()));
    mc::outcome(mc::hash(net->summary()));
}

MC_SCENARIO_SPLIT(one_layer, 2)
{
    Bounds b;
    b.inputs = {{1}, {3}, {1, 4}, {4, 1}, {2, 5}, {1, 2, 2}, {2, 2, 3}, {3, 3, 2}, {1, 5, 4}};
    b.layers = layers({1, 2, 3}, {1, 2, 3}, {1, 2, 3});
    auto a = grammar::choose(b, 1);
    const int rotation = mc::choose(6);
    decorate(a, rotation);
    complete(a, rotation);
    for (auto& l : a.layers)
        if (l.kind != GRU && l.kind != POOL)
            l.act = mc::pick(allActivations);
    a.lr = mc::pick(V{0.03f, 1e-5f});
    history(a);
}

MC_SCENARIO_SPLIT(stacks, 2)
{
    Bounds b;
    b.inputs = {{3}, {1, 4}, {2, 2, 3}, {1, 3, 2}, {2, 4, 4}};
    b.layers = layers({2}, {2}, {1, 2});
    auto a = grammar::choose(b, 2 + mc::choose(mc::thorough() ? 3 : 2));
    const int rotation = mc::choose(3);
    decorate(a, rotation);
    complete(a, rotation + 1);
    mixActivations(a);
    a.momentum = 0.5f;
    history(a);
}

MC_SCENARIO(large_networks) // many inputs, neurons, filters, channels, positions or layers
{
    auto a = large();
    a.lr = 1e-4f;
    history(a);
}

MC_SCENARIO(large_products) // many neurons with many inputs: more than 65536 parameters
{
    auto a = largeProduct();
    a.lr = 1e-5f;
    history(a);
}

MC_SCENARIO(long_history) // many trainings and epochs
{
    ArchSpec a{{2}, {{FC, 2, 1, activation::tanh}, {FC, 2, 1, activation::sigmoid}}, 0.01f};
    auto net = make(a);
    setWeights(*net, 3, 0.4f);
    ref::Net model(a);
    model.readWeights(*net);
    auto sizes = largeSizes();
    sizes.push_back(33000);
    sizes.push_back(66000);
    const int n = mc::pick(sizes), items = 1 + mc::choose(3);
    const std::string what = mc::format("%d epochs of %d data", n, items);
    mc::note("%s", what.c_str());
    auto d = data(*net, 2, items);
    net->train(*d, snn::operator""_ep((unsigned long long)n), 1, 0);
    const int epochs = net->getCurrentEpoch();
    MC_CHECK(epochs == n || epochs == n + 1, "numbers", "%s: %d epochs", what.c_str(), epochs);
    judge(*net, a, model, epochs, n * items, what);
    const std::string path = mc::scratchDir() + "/n.snn";
    net->saveAs(path);
    auto loaded = load(path);
    judge(*loaded, a, model, epochs, n * items, what + ", loaded");
    for (int i = 0; i < 3; ++i)
        apply(*loaded, TRAIN_ONCE, i);
    judge(*loaded, a, model, epochs, n * items + 3, what + ", loaded and trained");
    std::filesystem::remove(path);
    mc::step(n);
    mc::state(mc::hash(what));
    mc::outcome(mc::hash(loaded->summary()));
}
