// C09: a copy is equal to its original, and neither has an effect on the other afterwards.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "ops.hpp"
using namespace ops;

static const std::vector<std::vector<int>> histories = {{}, {TRAIN_ONCE, TRAIN_ONCE_NO_RESET, OUTPUT_NO_RESET}, {TRAIN, AUTOSAVE, RATE}, {TRAIN, EVALUATE, BETWEEN, OUTPUT}};

static uint64_t counterOf(int seed) { return 100000ull * (seed + 1); }

static V run(Net& n, int op, int seed)
{
    rng::counter = counterOf(seed);
    mc::step();
    return apply(n, op, seed);
}

static std::unique_ptr<Net> original(const ArchSpec& a, const std::vector<int>& history)
{
    rng::counter = 0;
    auto net = make(a);
    setWeights(*net, 5);
    int seed = 1;
    for (int op : history)
        run(*net, op, seed++);
    return net;
}

static void sameState(const Net& a, const Net& b, const char* signature, const std::string& what)
{
    const auto x = observe(a), y = observe(b);
    MC_CHECK(x == y, signature, "%s:%s", what.c_str(), difference(x, y).c_str());
}

// Operations on the original, its copy and the copy of the copy, in every order: each of them evolves as a lone twin.
static void play(const ArchSpec& a, const std::vector<int>& history, int steps, const std::vector<int>& alphabet, int networks)
{
    std::vector<std::unique_ptr<Net>> group;
    std::vector<std::vector<std::pair<int, int>>> done(networks);
    group.push_back(original(a, history));
    std::string what = describe(a) + ":";
    for (int op : history)
        what += std::string(" ") + name(op);
    const auto before = observe(*group[0]);
    for (int i = 1; i < networks; ++i)
        group.push_back(std::make_unique<Net>(*group[i - 1]));
    const auto after = observe(*group[0]);
    MC_CHECK(before == after, "copy", "%s: the copy changes the original:%s", what.c_str(), difference(before, after).c_str());
    for (int i = 1; i < networks; ++i)
    {
        sameState(*group[0], *group[i], "copy", what + ": the copy differs");
        MC_CHECK(*group[i] == *group[0] && *group[0] == *group[i] && !(*group[0] != *group[i]), "equality", "%s: the copy is not equal to the original", what.c_str());
        MC_CHECK(group[i]->isValid() == 0 && !group[i]->isTraining(), "validity", "%s", what.c_str());
    }
    what += " | copy |";
    std::vector<std::vector<V>> results(networks);
    for (int i = 0; i < steps; ++i)
    {
        std::vector<std::pair<int, int>> moves;
        for (int n = 0; n < networks; ++n)
            if (group[n])
            {
                for (int op : alphabet)
                    moves.emplace_back(n, op);
                moves.emplace_back(n, -1);
            }
        if (moves.empty())
            break;
        const auto [n, op] = moves[mc::choose((int)moves.size())];
        what += mc::format(" %d.%s", n, op < 0 ? "destroy" : name(op));
        if (op < 0)
            group[n].reset();
        else
        {
            results[n].push_back(run(*group[n], op, 10 + i));
            done[n].push_back({op, 10 + i});
        }
    }
    mc::note("%s", what.c_str());
    for (int n = 0; n < networks; ++n)
    {
        if (!group[n])
            continue;
        auto twin = original(a, history);
        for (size_t i = 0; i < done[n].size(); ++i)
        {
            const V r = run(*twin, done[n][i].first, done[n][i].second);
            MC_CHECK(same(r, results[n][i]), "independence", "%s: the result of network %d is %s instead of %s", what.c_str(), n, text(results[n][i]).c_str(), text(r).c_str());
        }
        sameState(*twin, *group[n], "independence", what + mc::format(": network %d differs from its lone twin", n));
        MC_CHECK(*twin == *group[n], "independence", "%s: network %d is not equal to its lone twin", what.c_str(), n);
        MC_CHECK(sgd(*twin)->learningRate == sgd(*group[n])->learningRate && sgd(*twin)->momentum == sgd(*group[n])->momentum, "independence", "%s: optimizer of network %d", what.c_str(), n);
        for (int op : {TRAIN_ONCE_NO_RESET, OUTPUT_NO_RESET, TRAIN_ONCE})
        {
            const V r = run(*twin, op, 60), s = run(*group[n], op, 60);
            MC_CHECK(same(r, s) && same(weights(*twin), weights(*group[n])), "independence", "%s: network %d evolves differently: %s instead of %s", what.c_str(), n, text(s).c_str(), text(r).c_str());
        }
        mc::outcome(hashWeights(*group[n]));
        mc::state(mc::mix(hashWeights(*group[n]), mc::hash(what)));
    }
}

static Bounds small(bool deep)
{
    Bounds b;
    b.inputs = {{3}, {1, 4}, {2, 3}, {2, 2, 3}, {1, 4, 3}};
    b.layers = deep ? layers({2}, {2}, {2}) : layers({1, 2}, {1, 2}, {1, 2});
    return b;
}

MC_SCENARIO_SPLIT(architectures, 3)
{
    auto a = grammar::choose(small(false), 1);
    decorate(a, mc::choose(6));
    for (auto& l : a.layers)
        if (l.kind != GRU && l.kind != POOL)
            l.act = mc::pick(mc::thorough() ? allActivations : std::vector<activation>{activation::tanh, activation::GELU});
    a.momentum = 0.9f;
    play(a, mc::pick(histories), 1, {TRAIN_ONCE, RATE}, 2);
}

MC_SCENARIO_SPLIT(stacks, 3)
{
    auto a = grammar::choose(small(true), mc::thorough() ? 3 : 2);
    mixActivations(a);
    decorate(a, mc::choose(6));
    a.momentum = 0.9f;
    play(a, histories[1 + mc::choose(2)], 1, {TRAIN_ONCE, RATE}, 2);
}

MC_SCENARIO_SPLIT(interleavings, 3)
{
    static const std::vector<ArchSpec> nets = {
        {{3}, {{FC, 2, 1, activation::tanh, {snn::Dropout(0.5f)}}, {FC, 2, 1, activation::sigmoid, {snn::L1Regularization(0.1f), snn::Softmax()}}}, 0.05f, 0.8f},
        {{2}, {{RNN, 2, 1, activation::tanh}, {GRU, 2}, {FC, 2, 1, activation::sigmoid}}, 0.05f, 0.8f},
        {{1, 2, 3}, {{CONV, 2, 2, activation::GELU, {snn::L2Regularization(0.1f)}}, {LC, 1, 1, activation::iSigmoid}, {FC, 2, 1, activation::gaussian}}, 0.05f, 0.8f},
        {{2, 4}, {{POOL, 1, 2}, {LC, 2, 2, activation::ReLU, {snn::ErrorMultiplier(2.0f)}}, {FC, 2, 1, activation::identity}}, 0.01f, 0.8f},
    };
    const auto& a = mc::pick(nets);
    play(a, histories[mc::choose(3)], mc::thorough() ? 3 : 2, {TRAIN_ONCE, TRAIN_ONCE_NO_RESET, OUTPUT_NO_RESET, TRAIN, EVALUATE, WEIGHTS, RATE, AUTOSAVE, BETWEEN}, 3);
}

MC_SCENARIO_SPLIT(large_networks, 2) // many inputs, neurons, filters, channels, positions or layers
{
    auto a = large();
    a.momentum = 0.9f;
    a.lr = 1e-3f;
    play(a, histories[1], 1, {TRAIN_ONCE}, 2);
}
