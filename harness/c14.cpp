// C14: a network is built exactly for the architectures and hyper-parameters which are accepted, the other ones are refused
// with an exception.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "grammar.hpp"
using namespace grammar;

// The rule: first an input without empty dimension, at least one layer, at least one neuron or filter, a kernel of at least 1
// which fits in the map, at most 3 dimensions before a filter layer.
static bool acceptable(const std::vector<int>& input, const std::vector<LayerSpec>& ls)
{
    if (input.empty() || ls.empty())
        return false;
    for (const int d : input)
        if (d < 1)
            return false;
    std::vector<int> shape = input;
    for (const auto& l : ls)
    {
        if (l.kind != POOL && l.n < 1)
            return false;
        if (filtered(l.kind) && (l.k < 1 || !fits(l, shape)))
            return false;
        shape = shapeAfter(l, shape);
    }
    return true;
}

static void check(const ArchSpec& a)
{
    const bool expected = acceptable(a.input, a.layers);
    mc::note("%s: %s", describe(a).c_str(), expected ? "accepted" : "refused");
    std::string what;
    std::unique_ptr<Net> net;
    const bool refused = throws<std::exception>([&] { net = make(a); }, &what);
    mc::step();
    MC_CHECK(refused != expected, expected ? "acceptable" : "refused", "%s is %s: %s", describe(a).c_str(), refused ? "refused" : "accepted", what.c_str());
    if (net)
    {
        const int inputs = ref::product(a.input);
        const V out = net->computeOutput(values(1, inputs));
        MC_CHECK(!out.empty() && net->isValid() == 0, "usable", "%s", describe(a).c_str());
    }
    mc::outcome(mc::hash(what));
    mc::state(mc::mix(hash(a), refused));
}

MC_SCENARIO(inputs) // every shape of up to 4 dimensions
{
    ArchSpec a;
    const int dimensions = mc::choose(5);
    for (int d = 0; d < dimensions; ++d)
        a.input.push_back(mc::pick(std::vector<int>{2, 1, 3, 0, -1, -2}));
    LayerSpec l;
    l.kind = mc::pick(std::vector<Kind>{FC, RNN, GRU, CONV, LC, POOL});
    l.n = mc::pick(std::vector<int>{1, 2, 0, -1});
    l.k = filtered(l.kind) ? mc::pick(std::vector<int>{1, 2, 3, 4, 0, -1, -2}) : 1;
    if (l.kind == POOL)
        l.n = 1;
    a.layers = {l};
    check(a);
}

MC_SCENARIO(second_layer)
{
    ArchSpec a;
    a.input = mc::pick(std::vector<std::vector<int>>{{3}, {1, 4}, {2, 3, 4}, {2, 2, 2, 2}, {2, 1, 2, 3, 2}});
    LayerSpec first;
    first.kind = mc::pick(std::vector<Kind>{FC, RNN, GRU, CONV, LC, POOL});
    first.n = mc::pick(std::vector<int>{1, 3});
    first.k = 1 + mc::choose(4);
    LayerSpec l;
    l.kind = mc::pick(std::vector<Kind>{FC, RNN, GRU, CONV, LC, POOL});
    l.n = l.kind == POOL ? 1 : mc::pick(std::vector<int>{2, 0, -3});
    l.k = filtered(l.kind) ? mc::pick(std::vector<int>{1, 2, 3, 5, 0, -1}) : 1;
    a.layers = {first, l};
    check(a);
}

MC_SCENARIO(third_layer)
{
    ArchSpec a;
    a.input = mc::pick(std::vector<std::vector<int>>{{4}, {2, 3}, {1, 4, 3}});
    for (int i = 0; i < 3; ++i)
    {
        LayerSpec l;
        l.kind = mc::pick(std::vector<Kind>{FC, GRU, CONV, LC, POOL});
        l.n = 2;
        l.k = filtered(l.kind) ? mc::pick(std::vector<int>{1, 2, 4}) : 1;
        a.layers.push_back(l);
    }
    check(a);
}

MC_SCENARIO(large_networks) // the large sizes are accepted, a kernel larger than its map is refused at every size
{
    if (mc::flag())
    {
        check(large());
        return;
    }
    const int n = mc::pick(largeSizes());
    ArchSpec a;
    a.input = mc::pick(std::vector<std::vector<int>>{{2, n}, {1, n, 3}, {1, 3, n}, {n, 2}, {n}});
    LayerSpec l;
    l.kind = mc::pick(std::vector<Kind>{CONV, LC, POOL});
    l.n = l.kind == POOL ? 1 : mc::pick(std::vector<int>{1, 0, -n});
    l.k = mc::pick(std::vector<int>{n - 1, n, n + 1, 2 * n, n + 256, n + 65536, -n});
    a.layers = {l};
    check(a);
}

MC_SCENARIO(structure) // position and presence of the input
{
    std::vector<LayerModel> architecture;
    const int length = mc::choose(4);
    bool expected = length >= 2;
    for (int i = 0; i < length; ++i)
    {
        const bool isInput = mc::flag();
        if (isInput)
            architecture.push_back(snn::Input(3));
        else
            architecture.push_back(snn::FullyConnected(2));
        expected = expected && isInput == (i == 0);
    }
    std::string what;
    const bool refused = throws([&] { Net net(architecture); }, &what);
    mc::note("%d layers, %s", length, what.c_str());
    mc::step();
    MC_CHECK(refused != expected, "structure", "%d layers: %s (%s)", length, refused ? "refused" : "accepted", what.c_str());
    mc::state(mc::mix(mc::hash(what), length));
    mc::outcome(mc::hash(what));
}

MC_SCENARIO(number_of_layers) // at most 1000
{
    const int length = mc::pick(std::vector<int>{1, 2, 500, 998, 999, 1000, 1001, 1500});
    std::vector<LayerModel> architecture{snn::Input(1)};
    for (int i = 0; i < length; ++i)
        architecture.push_back(snn::FullyConnected(1));
    const bool expected = length + 1 <= 1000;
    const bool refused = throws([&] { Net net(architecture); });
    mc::note("%d layers", length);
    mc::step();
    MC_CHECK(refused != expected, "number of layers", "%d layers: %s", length, refused ? "refused" : "accepted");
    mc::state(length);
}

MC_SCENARIO(sizes) // huge sizes are refused, they do not overflow
{
    ArchSpec a;
    const std::vector<int> huge = {1000, 46341, 65536, 100000, 1000000, 1000001, 2147483647};
    const int what = mc::choose(4);
    bool expected = true;
    if (what == 0)
    {
        const int x = mc::pick(huge), y = mc::pick(huge);
        a.input = {1, x, y};
        a.layers = {LayerSpec{FC, 1}};
        expected = (double)x * y < 1e6;
    }
    else if (what == 1)
    {
        const int x = mc::pick(huge);
        a.input = {x};
        a.layers = {LayerSpec{FC, 1}};
        expected = x < 1000000;
        if (x == 1000000)
            return; // limit between the inputs and the weights with the bias
    }
    else if (what == 2)
    {
        const int n = mc::pick(std::vector<int>{1000, 1000001, 100000000, 2147483647});
        a.input = {1};
        a.layers = {LayerSpec{mc::pick(std::vector<Kind>{FC, RNN, GRU}), n}};
        expected = n <= 1000000;
    }
    else
    {
        const int n = mc::pick(std::vector<int>{1000, 1000001, 100000000, 2147483647}), k = mc::pick(std::vector<int>{1, 2, 46341, 65536, 2147483647});
        a.input = {1, 3, 3};
        a.layers = {LayerSpec{mc::pick(std::vector<Kind>{CONV, LC}), n, k}};
        expected = n <= 1000 && k <= 3;
    }
    mc::note("%s", describe(a).c_str());
    std::string message;
    const bool refused = throws([&] { make(a); }, &message);
    mc::step();
    MC_CHECK(refused != expected, "sizes", "%s: %s %s", describe(a).c_str(), refused ? "refused" : "accepted", message.c_str());
    mc::state(hash(a));
    mc::outcome(mc::hash(message));
}

MC_SCENARIO(hyper_parameters)
{
    ArchSpec a;
    a.input = {2};
    a.layers = {LayerSpec{mc::pick(std::vector<Kind>{FC, RNN, GRU}), 1}};
    a.lr = mc::pick(std::vector<float>{0.03f, 1e-6f, 0.5f, 0.999f, 0.0f, -0.01f, 1.0f, 1.5f, 100.0f, -1e-30f});
    a.momentum = mc::pick(std::vector<float>{0.0f, 0.5f, 0.99f, 1.0f, -0.1f, 1.1f, -1e-30f, 50.0f});
    const bool expected = a.lr > 0 && a.lr < 1 && a.momentum >= 0 && a.momentum <= 1;
    mc::note("learning rate %g momentum %g", a.lr, a.momentum);
    const bool refused = throws([&] { make(a); });
    mc::step();
    MC_CHECK(refused != expected, "hyper-parameters", "learning rate %g, momentum %g: %s", a.lr, a.momentum, refused ? "refused" : "accepted");
    mc::state(mc::mix(mc::hash(V{a.lr, a.momentum}), (int)a.layers[0].kind));
    mc::outcome(refused);
}
