// C25: the random values (initial weights, helpers) stay in their range and cover it; the helpers of tools compute what they say.
#define MC_MAIN
#define MC_CONTROL_RNG
#include <climits>
#include <set>
#include "grammar.hpp"
using namespace grammar;
namespace tools = snn::tools;

static const std::vector<uint32_t>& extremes()
{
    static const std::vector<uint32_t> r = {0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu};
    return r;
}

// The weights of each unit of a network: one group per neuron, and per gate.
static std::vector<V> groups(const Net& net)
{
    std::vector<V> r;
    for (int l = 0; l < net.getNumberOfLayers(); ++l)
    {
        if (kindOf(net, l) == POOL)
            continue;
        for (int n = 0; n < net.layers[l]->getNumberOfNeurons(); ++n)
        {
            const V w = neuronWeights(net, l, n);
            const int gates = kindOf(net, l) == GRU ? 3 : 1;
            MC_CHECK(w.size() % gates == 0 && !w.empty(), "number of weights", "%zu weights in a neuron", w.size());
            for (int g = 0; g < gates; ++g)
                r.emplace_back(w.begin() + g * w.size() / gates, w.begin() + (g + 1) * w.size() / gates);
        }
    }
    return r;
}

static void inRange(const Net& net, const std::string& what)
{
    for (const auto& w : groups(net))
    {
        const double max = 2.4 / std::sqrt((double)w.size());
        for (const float v : w)
        {
            mc::step();
            MC_CHECK(!tools::isNanOrInfinite(v) && std::fabs(v) <= max * 1.000001, "initial weight", "%s: weight %g of a neuron with %zu weights", what.c_str(), v, w.size());
        }
        MC_CHECK(w.back() >= 0, "initial bias", "%s: %g", what.c_str(), w.back());
    }
    MC_CHECK(net.isValid() == 0, "validity", "%s: a new network is invalid: %d", what.c_str(), net.isValid());
    MC_CHECK(!net.hasNan(), "validity", "%s: a new network has a NaN", what.c_str());
    const V in = u::values(3, net.getNumberOfInputs());
    const V out = const_cast<Net&>(net).computeOutput(in, true);
    MC_CHECK((int)out.size() == net.getNumberOfOutputs() && !net.hasNan(), "first output", "%s: %s", what.c_str(), u::text(out).c_str());
}

MC_SCENARIO_SPLIT(initial_weights, 3) // every architecture, with extreme values in the first draws
{
    Bounds b;
    b.inputs = {{1}, {3}, {1, 4}, {2, 3}, {1, 3, 3}, {2, 2, 3}};
    b.layers = layers({1, 2, 3}, {1, 2}, {1, 2});
    const auto a = grammar::choose(b, 1 + mc::choose(mc::thorough() ? 3 : 2));
    const auto r = mc::pick(extremes());
    static const std::vector<size_t> counts = {0, 1, 2, 4, 1000};
    const size_t count = mc::pick(counts);
    rng::raw.assign(count, r);
    auto net = make(a);
    rng::raw.clear();
    const std::string what = describe(a) + mc::format(" with %zu draws of %u", count, r);
    mc::note("%s", what.c_str());
    inRange(*net, what);
    mc::state(hashWeights(*net));
}

MC_SCENARIO(large_layers)
{
    ArchSpec a;
    a.input = {mc::pick(std::vector<int>{1, 10, 100, 1000})};
    a.layers = {{mc::pick(std::vector<Kind>{FC, RNN, GRU}), mc::pick(std::vector<int>{1, 30}), 1}};
    auto net = make(a);
    inRange(*net, describe(a));
    std::vector<float> all;
    for (const auto& w : groups(*net))
        all.insert(all.end(), w.begin(), w.end());
    // The weights are not shared between the neurons, nor inside one.
    const size_t distinct = std::set<float>(all.begin(), all.end()).size();
    MC_CHECK(distinct + 2 + all.size() / 50 >= all.size(), "independent weights", "%s: %zu weights with %zu values", describe(a).c_str(), all.size(), distinct);
    // They use their whole range: at least 1 out of 16 in each quarter of it, when there are at least 300 of them in a neuron.
    for (const auto& w : groups(*net))
    {
        if (w.size() < 900)
            continue;
        const double max = 2.4 / std::sqrt((double)w.size());
        std::array<size_t, 4> n{};
        for (const float v : w)
            ++n[std::clamp((int)((v + max) / (2 * max) * 4), 0, 3)];
        for (const size_t c : n)
            MC_CHECK(c * 16 >= w.size(), "range of the weights", "%s: %zu of %zu weights in a quarter of the range", describe(a).c_str(), c, w.size());
    }
    mc::state(hashWeights(*net));
}

// Every sequence of equiprobable draws: each weight is uniform on its range, and independent of the other one.
MC_SCENARIO(distribution_of_weights)
{
    const int alternatives = 4, draws = 4;
    const auto kind = mc::pick(std::vector<Kind>{FC, CONV, LC});
    ArchSpec a;
    a.input = kind == FC ? std::vector<int>{1} : std::vector<int>{1, 1};
    a.layers = {{kind, 1, 1}};
    std::map<std::pair<int, int>, int> seen;
    int sequences = 1;
    for (int d = 0; d < draws; ++d)
        sequences *= alternatives;
    for (int s = 0; s < sequences; ++s)
    {
        rng::scripted.clear();
        rng::scriptedAlternatives = alternatives;
        for (int d = 0, v = s; d < draws; ++d, v /= alternatives)
            rng::scripted.push_back(v % alternatives);
        auto net = make(a);
        rng::scripted.clear();
        mc::step();
        const V w = neuronWeights(*net, 0, 0);
        MC_CHECK(w.size() == 2, "number of weights", "%s", describe(a).c_str());
        const double max = 2.4 / std::sqrt(2.0);
        const auto part = [&](float v, double from, int parts) { return std::clamp((int)std::floor((v - from) / (max - from) * parts), 0, parts - 1); };
        ++seen[{part(w[0], -max, 4), part(w[1], 0, 2)}];
    }
    MC_CHECK(seen.size() == 8, "distribution", "%s: %zu of 8 parts of the range are reached", describe(a).c_str(), seen.size());
    for (const auto& [p, n] : seen)
        MC_CHECK(n == sequences / 8, "distribution", "%s: %d of %d sequences in part %d, %d", describe(a).c_str(), n, sequences, p.first, p.second);
    mc::state(mc::hash(describe(a)));
}

MC_SCENARIO(random_helpers) // every pair of extreme draws
{
    rng::raw = {mc::pick(extremes()), mc::pick(extremes()), mc::pick(extremes()), mc::pick(extremes())};
    const int what = mc::choose(3);
    if (what == 0)
    {
        static const std::vector<std::pair<int, int>> ranges = {{0, 1}, {0, 2}, {0, 10}, {-1, 1}, {-5, 5}, {-7, -3}, {-1, 0}, {3, 4}, {1, 2}, {0, INT_MAX}, {INT_MIN, 0}, {INT_MIN, INT_MAX}, {1000000, 1000007}};
        const auto [min, max] = mc::pick(ranges);
        const int r = tools::randomBetween(min, max);
        MC_CHECK(r >= min && r < max, "random integer", "randomBetween(%d, %d) gives %d", min, max, r);
        mc::outcome(mc::hash(std::to_string(r)));
    }
    else
    {
        static const std::vector<std::pair<float, float>> ranges = {{0, 1}, {-1, 1}, {-2.5f, -1.5f}, {0, 0}, {3, 3}, {1, 1.0000001f}, {-3e38f, 3e38f}, {0, 1e-40f}, {16777216, 16777218}};
        const auto [min, max] = mc::pick(ranges);
        const size_t size = what == 1 ? 1 : mc::choose(5);
        const V r = what == 1 ? V{tools::randomBetween(min, max)} : tools::randomVector(min, max, size);
        MC_CHECK(r.size() == size, "random vector", "%zu values instead of %zu", r.size(), size);
        for (const float v : r)
            MC_CHECK(!tools::isNanOrInfinite(v) && v >= min && v <= max, "random float", "between %.9g and %.9g: %.9g", min, max, v);
        mc::outcome(mc::hash(r));
    }
    rng::raw.clear();
    mc::step();
}

// Every pair of equiprobable draws: each integer has the same share, each part of a range of floats too.
MC_SCENARIO(distribution_of_helpers)
{
    const int alternatives = 24;
    static const std::vector<std::pair<int, int>> ranges = {{0, 1}, {0, 2}, {0, 6}, {-1, 1}, {-3, 3}, {-2, 1}, {-6, -2}, {5, 9}, {-4, 4}};
    const auto [min, max] = mc::pick(ranges);
    const int what = mc::choose(3);
    std::map<int, int> seen;
    for (int i = 0; i < alternatives; ++i)
        for (int j = 0; j < alternatives; ++j)
        {
            rng::scripted = {i, j};
            rng::scriptedAlternatives = alternatives;
            mc::step();
            if (what == 0)
                ++seen[tools::randomBetween(min, max)];
            else if (what == 1)
                ++seen[(int)std::floor(tools::randomBetween((float)min, (float)max))];
            else
                ++seen[(int)std::floor(tools::randomVector((float)min, (float)max, 1)[0])];
            rng::scripted.clear();
        }
    for (int v = min; v < max; ++v)
        MC_CHECK(seen[v] * (max - min) == alternatives * alternatives, "uniform", "%s: %d out of [%d; %d[ comes %d times out of %d", what == 0 ? "int" : what == 1 ? "float" : "vector", v, min, max, seen[v], alternatives * alternatives);
    mc::state(mc::hash(mc::format("%d %d %d", what, min, max)));
}

MC_SCENARIO(extrema)
{
    static const V values = {0.0f, -0.5f, 1.0f, 3e38f, -3e38f, 2.0f};
    const int n = mc::choose(mc::thorough() ? 6 : 5);
    V v(n);
    for (auto& x : v)
        x = mc::pick(values);
    std::vector<int> ints(v.size());
    for (int i = 0; i < n; ++i)
        ints[i] = (int)std::clamp(v[i] * 4, -2e9f, 2e9f);
    mc::note("%s", u::text(v).c_str());
    if (v.empty())
    {
        MC_CHECK(u::throws([&] { tools::getMinValue(v); }) && u::throws([&] { tools::getMaxValue(v); }), "empty vector", "no exception");
        return;
    }
    float min = 0, max = 0;
    int imin = 0, imax = 0;
    std::string error;
    const bool thrown = u::throws([&] { min = tools::getMinValue(v); max = tools::getMaxValue(v); imin = tools::getMinValue(ints); imax = tools::getMaxValue(ints); }, &error);
    MC_CHECK(!thrown, "extrema", "%s: %s", u::text(v).c_str(), error.c_str());
    MC_CHECK(min == *std::ranges::min_element(v) && max == *std::ranges::max_element(v), "extrema", "%s: %g, %g", u::text(v).c_str(), min, max);
    MC_CHECK(imin == *std::ranges::min_element(ints) && imax == *std::ranges::max_element(ints), "extrema", "%s: %d, %d", u::text(ints).c_str(), imin, imax);
    mc::step();
    mc::outcome(mc::hash(V{min, max}));
}

MC_SCENARIO(coordinates) // flatten and roughen are inverse of each other on every map
{
    const int side = mc::thorough() ? 9 : 6;
    int maxX = 1 + mc::choose(side), maxY = 1 + mc::choose(side), maxZ = 1 + mc::choose(side);
    if (mc::flag()) // one dimension is large
    {
        int& dimension = *std::array<int*, 3>{&maxX, &maxY, &maxZ}[mc::choose(3)];
        if (dimension > 1)
            return;
        dimension = mc::pick(u::largeSizes());
    }
    std::set<int> seen;
    for (int z = 0; z < maxZ; ++z)
        for (int y = 0; y < maxY; ++y)
            for (int x = 0; x < maxX; ++x)
            {
                mc::step();
                const int i = tools::flatten(x, y, z, maxX, maxY);
                MC_CHECK(i >= 0 && i < maxX * maxY * maxZ && seen.insert(i).second, "flatten", "(%d, %d, %d) in %dx%dx%d: %d", x, y, z, maxX, maxY, maxZ, i);
                MC_CHECK(tools::roughenX(i, maxX, maxY) == x && tools::roughenY(i, maxX, maxY) == y && tools::roughenZ(i, maxX, maxY) == z, "roughen",
                         "%d in %dx%dx%d: (%d, %d, %d) instead of (%d, %d, %d)", i, maxX, maxY, maxZ, tools::roughenX(i, maxX, maxY), tools::roughenY(i, maxX, maxY), tools::roughenZ(i, maxX, maxY), x, y, z);
                if (z == 0)
                {
                    const int f = tools::flatten(x, y, maxX);
                    MC_CHECK(f == i && tools::roughenX(f, maxX) == x && tools::roughenY(f, maxX) == y, "flatten", "(%d, %d) in %dx%d: %d", x, y, maxX, maxY, f);
                }
            }
    mc::state(mc::mix(maxX * 10000 + maxY, maxZ));
}

MC_SCENARIO(flatten_vectors)
{
    const int n = mc::choose(5);
    VV v;
    V expected;
    for (int i = 0; i < n; ++i)
    {
        v.push_back(u::values(i, mc::choose(4)));
        expected.insert(expected.end(), v.back().begin(), v.back().end());
    }
    const V r = tools::flatten(v);
    mc::step();
    MC_CHECK(r == expected, "flatten", "%s instead of %s", u::text(r).c_str(), u::text(expected).c_str());
    mc::state(mc::hash(r));
}

MC_SCENARIO_SPLIT(durations, 1) // the text of a duration is the duration, to its last unit
{
    const auto ms = std::array<long, 7>{1, 999, 1000, 60000, 61000, 3600000, 86400000};
    const long base = mc::pick(std::vector<long>(ms.begin(), ms.end())) * (1 + mc::choose(4));
    for (long d = -1500; d <= 1500; ++d)
    {
        const long value = base + d;
        if (value < 0)
            continue;
        const std::string s = tools::toString(std::chrono::milliseconds(value));
        mc::step();
        long read = 0, unit = 1, previous = LONG_MAX;
        const char* p = s.c_str();
        while (*p)
        {
            char* end;
            const long number = strtol(p, &end, 10);
            MC_CHECK(end != p, "duration", "%ld ms: '%s'", value, s.c_str());
            p = end;
            std::string label;
            while (isalpha(*p))
                label += *p++;
            while (*p == ' ')
                ++p;
            unit = label == "h" ? 3600000 : label == "min" ? 60000 : label == "s" ? 1000 : label == "ms" ? 1 : 0;
            MC_CHECK(unit > 0 && unit < previous, "duration", "%ld ms: '%s'", value, s.c_str());
            previous = unit;
            read += number * unit;
        }
        MC_CHECK(read <= value && value < read + unit, "duration", "%ld ms is written '%s'", value, s.c_str());
    }
    mc::state(base);
}

MC_SCENARIO(aligned_texts) // a number padded to a length
{
    static const std::vector<double> values = {0, 1, -1, 9.5, 10, -10, 99.994, 99.996, 0.005, 0.00004, 0.00006, 123456, -0.5, 1e6};
    const double v = mc::pick(values);
    const size_t length = mc::choose(9);
    const auto judge = [&](const std::string& s, double value, int decimals)
    {
        mc::step();
        const size_t first = s.find_first_not_of(' ');
        MC_CHECK(first != std::string::npos && s.size() >= length && (s.size() == length || first == 0), "alignment", "'%s' for the length %zu", s.c_str(), length);
        char* end;
        const double read = strtod(s.c_str() + first, &end);
        MC_CHECK(*end == 0 && std::fabs(read - value) <= 0.5000001 * std::pow(10.0, -decimals) + 1e-6 * std::fabs(value), "alignment", "%g is written '%s'", value, s.c_str());
        const size_t dot = s.find('.');
        MC_CHECK((dot == std::string::npos ? 0 : s.size() - dot - 1) == (size_t)decimals, "alignment", "%g is written '%s'", value, s.c_str());
    };
    judge(tools::toConstSizeString((int)v, length), (int)v, 0);
    judge(tools::toConstSizeString<0>((float)v, length), (float)v, 0);
    judge(tools::toConstSizeString<2>((float)v, length), (float)v, 2);
    judge(tools::toConstSizeString<4>((float)v, length), (float)v, 4);
    mc::state(mc::hash(mc::format("%g %zu", v, length)));
}

MC_SCENARIO_SPLIT(nan_or_infinite, 1) // every float (quick: every exponent and sign, with a part of the mantissas)
{
    const uint32_t part = mc::choose(16);
    const uint32_t step = mc::thorough() ? 1 : 61;
    uint64_t wrong = 0, n = 0;
    for (uint64_t b = (uint64_t)part << 28; b < (uint64_t)(part + 1) << 28; b += step, ++n)
    {
        const float f = std::bit_cast<float>((uint32_t)b);
        const bool expected = (b >> 23 & 0xff) == 0xff;
        wrong += tools::isNanOrInfinite(f) != expected;
    }
    for (uint32_t exponent = 0; exponent < 256; ++exponent)
        for (const uint32_t mantissa : {0u, 1u, 0x3fffffu, 0x400000u, 0x7fffffu})
        {
            const uint32_t b = (part & 8) << 28 | exponent << 23 | mantissa;
            wrong += tools::isNanOrInfinite(std::bit_cast<float>(b)) != (exponent == 0xff);
        }
    MC_CHECK(wrong == 0, "not a finite number", "%lu floats of part %u are not recognized", (unsigned long)wrong, part);
    mc::step((int)std::min<uint64_t>(n, 1 << 30));
    mc::state(part);
}
