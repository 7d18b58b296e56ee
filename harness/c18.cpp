// C18: the activation functions and their derivatives, on the bit patterns of the finite floats.
#define MC_MAIN
#include "util.hpp"
#include "neural_network/layer/neuron/activation_function/ActivationFunction.hpp"
#include <bit>
using namespace u;
using snn::internal::ActivationFunction;

struct Value
{
    double f, d;
};

static double sigmoid(double x) { return 1 / (1 + std::exp(-x)); }

static Value reference(activation a, double x)
{
    switch (a)
    {
    case activation::sigmoid: { const double s = sigmoid(x); return {s, s * (1 - s)}; }
    case activation::iSigmoid: { const double s = sigmoid(x); return {s + 0.05f * x, s * (1 - s) + 0.05f}; }
    case activation::tanh: { const double t = std::tanh(x); return {t, 1 - t * t}; }
    case activation::ReLU: return {x > 0 ? x : 0, x > 0 ? 1.0 : 0.0};
    case activation::GELU: { const double s = sigmoid(1.702 * x); return {x * s, s + 1.702 * x * s * (1 - s)}; }
    case activation::gaussian: { const double e = std::exp(-x * x); return {e, -2 * x * e}; }
    default: return {x, 1};
    }
}

MC_SCENARIO(patterns) // sign and exponent, then every mantissa of a step
{
    const activation a = mc::pick(allActivations);
    const int sign = mc::choose(2), exponent = mc::choose(227); // up to 2^99
    const int block = mc::choose(mc::thorough() ? 8 : 1);
    // more patterns where the functions are not constant
    const bool dense = exponent >= 127 - 14 && exponent <= 127 + 7;
    const uint32_t stride = mc::thorough() ? 1 : dense ? 7 : 127;
    const uint32_t from = block << 20, to = mc::thorough() ? from + (1u << 20) : 1u << 23;
    const auto function = ActivationFunction::get(a);
    mc::note("%s sign %d exponent %d stride %u", actName(a), sign, exponent - 127, stride);
    double last = 0;
    uint64_t h = 0;
    int64_t n = 0;
    for (uint32_t m = from; m < to; m += stride)
    {
        const float x = std::bit_cast<float>(uint32_t(sign) << 31 | uint32_t(exponent) << 23 | m);
        const float f = function->function(x), d = function->derivative(x);
        const Value e = reference(a, x);
        ++n;
        const bool unbounded = a == activation::iSigmoid || a == activation::GELU || a == activation::ReLU || a == activation::identity;
        const double tf = 1.5e-6 + (unbounded ? 4e-6 * std::fabs(e.f) : 0), td = 5e-6;
        if (!(std::fabs(f - e.f) <= tf))
            mc::fail("function", mc::format("%s(%.9g) = %.9g instead of %.9g", actName(a), x, f, e.f));
        if (!(std::fabs(d - e.d) <= td))
            mc::fail("derivative", mc::format("%s'(%.9g) = %.9g instead of %.9g", actName(a), x, d, e.d));
        if (f < function->min || f > function->max)
            mc::fail("range", mc::format("%s(%.9g) = %.9g is out of [%g, %g]", actName(a), x, f, function->min, function->max));
        if (m != from && a != activation::GELU && a != activation::gaussian)
        {
            const double step = sign ? last - f : f - last;
            if (step < -4e-7 * (1 + std::fabs(f)))
                mc::fail("monotonicity", mc::format("%s(%.9g) = %.9g after %.9g", actName(a), x, f, last));
        }
        last = f;
        h = mc::mix(h, std::bit_cast<uint32_t>(f));
    }
    mc::step(n);
    mc::checked(n * 4);
    mc::state(mc::mix(h, (uint64_t)a * 1000 + exponent * 2 + sign + 100000 * block));
    mc::outcome(h);
}

MC_SCENARIO(special) // zero, denormals, and the identity of the functions
{
    const activation a = mc::pick(allActivations);
    const float x = mc::pick(V{0.0f, -0.0f, 1e-45f, -1e-45f, 1.1754942e-38f, -1.1754942e-38f});
    const auto function = ActivationFunction::get(a);
    const Value e = reference(a, x);
    MC_CHECK(std::fabs(function->function(x) - e.f) <= 1.5e-6, "function", "%s(%.9g) = %.9g instead of %.9g", actName(a), x, function->function(x), e.f);
    MC_CHECK(std::fabs(function->derivative(x) - e.d) <= 5e-6, "derivative", "%s'(%.9g) = %.9g instead of %.9g", actName(a), x, function->derivative(x), e.d);
    for (auto b : allActivations)
        MC_CHECK((ActivationFunction::get(a) == ActivationFunction::get(b)) == (a == b), "identity", "%s and %s", actName(a), actName(b));
    mc::step();
    mc::state(mc::hash(std::string(actName(a)) + mc::format("%a", x)));
}

MC_SCENARIO(neuron) // the neuron applies the function of its layer, for every kind of layer
{
    ArchSpec s;
    const int kind = mc::choose(5);
    s.input = kind < 2 ? std::vector<int>{1} : kind == 2 ? std::vector<int>{1, 1} : std::vector<int>{1, 1, 1};
    s.layers = {{kind == 0 ? FC : kind == 1 ? RNN : kind == 4 ? LC : CONV, 1, 1, mc::pick(allActivations)}};
    auto net = make(s);
    V w = neuronWeights(*net, 0, 0);
    std::fill(w.begin(), w.end(), 0.0f);
    w[0] = 1.0f;
    setNeuronWeights(*net, 0, 0, w);
    const float x = -8.0f + 0.125f * mc::choose(129);
    const float y = net->computeOutput({x}, true)[0];
    const Value e = reference(s.layers[0].act, x);
    MC_CHECK(std::fabs(y - e.f) <= 2e-6 * (1 + std::fabs(e.f)), "neuron", "%s of %g = %.9g instead of %.9g", describe(s).c_str(), x, y, e.f);
    mc::step();
    mc::state(mc::hash(describe(s) + mc::format("%a", x)));
    mc::outcome(std::bit_cast<uint32_t>(y));
}
