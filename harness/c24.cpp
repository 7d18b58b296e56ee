// C24: normalization rescales every input of the training set to [min, max] and the testing set by the same map.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "util.hpp"
using namespace u;
using snn::nature;
using snn::problem;

static void judge(const VV& X, const VV& TX, const VV& Y, Data& d, float lo, float hi, const std::string& what)
{
    const auto& x = d.sets[snn::training].inputs;
    const auto& tx = d.sets[snn::testing].inputs;
    MC_CHECK(x.size() == X.size() && tx.size() == TX.size(), "size", "%s", what.c_str());
    for (size_t j = 0; j < X[0].size(); ++j)
    {
        double min = X[0][j], max = X[0][j];
        for (const auto& row : X)
        {
            min = std::min<double>(min, row[j]);
            max = std::max<double>(max, row[j]);
        }
        const auto one = [&](float before, float after, const char* set, size_t i)
        {
            mc::step();
            if (min == max) // the map is not specified: the result is a number
            {
                MC_CHECK(std::isfinite(after), "constant input", "%s: %s %zu input %zu: %g becomes %g", what.c_str(), set, i, j, before, after);
                return;
            }
            const double expected = lo + (before - min) / (max - min) * ((double)hi - lo);
            const double scale = std::max({std::fabs((before - min) / (max - min)) * std::fabs((double)hi - lo), std::fabs((double)lo), std::fabs((double)hi)});
            MC_CHECK(std::fabs(after - expected) <= 4e-6 * scale + 1e-30, "rescaling", "%s: %s %zu input %zu: %.9g becomes %.9g instead of %.9g", what.c_str(), set, i, j, before, after, expected);
        };
        for (size_t i = 0; i < X.size(); ++i)
            one(X[i][j], x[i][j], "training", i);
        for (size_t i = 0; i < TX.size(); ++i)
            one(TX[i][j], tx[i][j], "testing", i);
    }
    MC_CHECK(d.sets[snn::training].labels == Y, "labels", "%s", what.c_str());
    MC_CHECK(d.isValid() == 0, "validity", "%s", what.c_str());
}

static const std::vector<std::pair<float, float>>& ranges()
{
    static const std::vector<std::pair<float, float>> r = {{0, 1}, {-1, 1}, {5, -3}, {0.25f, 0.75f}, {-100, 1000}};
    return r;
}

MC_SCENARIO(one_input) // every value of one input in 1..3 training data and a testing data
{
    const std::vector<float> a = mc::thorough() ? std::vector<float>{0, 1, -2, 0.5f, 1000, -1e-3f, 255, 1e6f, 3} : std::vector<float>{0, 1, -2, 0.5f, 1000, -1e-3f, 255};
    const auto [lo, hi] = mc::pick(ranges());
    const int n = 1 + mc::choose(mc::thorough() ? 4 : 3);
    VV X, TX;
    for (int i = 0; i < n; ++i)
        X.push_back({mc::pick(a)});
    const bool oneSet = mc::flag();
    if (!oneSet)
        TX.push_back({mc::pick(a)});
    std::string what = mc::format("normalize(%g, %g)", lo, hi);
    for (auto& x : X)
        what += " " + text(x);
    what += oneSet ? "" : " testing " + text(TX[0]);
    mc::note("%s", what.c_str());
    VV Y(n, V{0.25f, 0.5f}), TY(1, V{0.0f, 1.0f});
    std::unique_ptr<Data> d;
    if (oneSet)
    {
        TX = X;
        d = std::make_unique<Data>(problem::regression, X, Y);
    }
    else
        d = std::make_unique<Data>(problem::regression, X, Y, TX, TY);
    d->normalize(lo, hi);
    judge(X, TX, Y, *d, lo, hi, what);
    mc::state(mc::hash(what));
    mc::outcome(mc::hash(d->sets[snn::testing].inputs[0]));
}

MC_SCENARIO(several_inputs) // the inputs are independent, whatever the kind of data; twice is the same as once
{
    const std::vector<float> a = {-1, 0, 4, 9.5f};
    const auto [lo, hi] = mc::pick(ranges());
    const int kind = mc::choose(3);
    const bool shuffled = mc::flag();
    VV X;
    for (int i = 0; i < 3; ++i)
        X.push_back({mc::pick(a), mc::pick(a)});
    VV TX = {{0.0f, 2.0f}, {20.0f, -7.0f}}, Y = {{0.1f}, {0.2f}, {0.3f}}, TY = {{0.4f}, {0.5f}};
    std::string what = mc::format("normalize(%g, %g) kind %d%s", lo, hi, kind, shuffled ? " shuffled" : "");
    for (auto& x : X)
        what += " " + text(x);
    mc::note("%s", what.c_str());
    std::unique_ptr<Data> d;
    if (kind == 2)
    {
        VVV S = {{X[0]}, {X[1], X[2]}}, TS = {TX};
        d = std::make_unique<Data>(problem::regression, S, Y, TS, TY, nature::sequential);
    }
    else
        d = std::make_unique<Data>(problem::regression, X, Y, TX, TY, kind ? nature::timeSeries : nature::nonTemporal, kind);
    if (shuffled)
        d->shuffle();
    d->normalize(lo, hi);
    judge(X, TX, Y, *d, lo, hi, what);
    const VV once = d->sets[snn::training].inputs, onceT = d->sets[snn::testing].inputs;
    bool constant = false;
    for (int j = 0; j < 2; ++j)
        constant |= X[0][j] == X[1][j] && X[1][j] == X[2][j];
    if (!constant && lo < hi) // with reversed bounds the second call reverses the order
    {
        d->normalize(lo, hi);
        judge(once, onceT, Y, *d, lo, hi, what + " twice");
        for (size_t i = 0; i < once.size(); ++i)
            for (int j = 0; j < 2; ++j)
                MC_CHECK(near(once[i][j], d->sets[snn::training].inputs[i][j], 1e-6 * std::max(std::fabs(lo), std::fabs(hi)), 1e-5), "idempotence", "%s", what.c_str());
    }
    mc::state(mc::hash(what));
}

MC_SCENARIO(scales) // the same patterns of values at every scale and offset: the map only depends on their ratios
{
    static const std::vector<float> scales = {1e-44f, 1e-40f, 1e-38f, 1e-30f, 1e-20f, 1e-12f, 1e-9f, 1e-7f, 1e-6f, 1e-5f, 1e-3f, 1, 1e3f, 1e9f, 1e20f, 1e30f};
    static const std::vector<float> pattern = {-1, 0, 1, 3};
    const auto [lo, hi] = mc::pick(ranges());
    const float scale = mc::pick(scales);
    const float offset = mc::choose(3) * 1024.0f * scale;
    const int n = 2 + mc::choose(mc::thorough() ? 3 : 2);
    VV X, TX;
    for (int i = 0; i < n; ++i)
        X.push_back({offset + scale * mc::pick(pattern), -7.0f * i});
    TX.push_back({offset + scale * 2, -3.5f});
    std::string what = mc::format("normalize(%g, %g)", lo, hi);
    for (auto& x : X)
        what += " " + text(x);
    mc::note("%s", what.c_str());
    VV Y(n, V{0.25f}), TY(1, V{0.5f});
    Data d(problem::regression, X, Y, TX, TY);
    d.normalize(lo, hi);
    judge(X, TX, Y, d, lo, hi, what);
    mc::state(mc::hash(what));
    mc::outcome(mc::hash(d.sets[snn::training].inputs[n - 1]));
}

MC_SCENARIO(sizes) // whatever the sizes of the two sets (none, one the multiple of the other, ...), all the data are mapped
{
    const auto [lo, hi] = mc::pick(ranges());
    const int n = 1 + mc::choose(mc::thorough() ? 12 : 5);
    const int t = 1 + mc::choose(mc::thorough() ? 48 : 16);
    const int w = 1 + mc::choose(mc::thorough() ? 6 : 3);
    const int salt = mc::choose(2);
    const auto set = [&](int size, int seed)
    {
        VV s;
        for (int i = 0; i < size; ++i)
        {
            s.emplace_back();
            for (int j = 0; j < w; ++j)
                s.back().push_back(0.125f * ((i * (7 + 2 * j) + 3 * j + seed) % 31) - 1);
        }
        return s;
    };
    VV X = set(n, 5 * salt), TX = set(t, 11 + 4 * salt), Y(n, V{0.25f}), TY(t, V{0.5f});
    const std::string what = mc::format("normalize(%g, %g), %d training data, %d testing data of %d inputs", lo, hi, n, t, w);
    mc::note("%s", what.c_str());
    Data d(problem::regression, X, Y, TX, TY);
    d.normalize(lo, hi);
    judge(X, TX, Y, d, lo, hi, what);
    MC_CHECK(d.sets[snn::testing].labels == TY, "labels", "%s: testing", what.c_str());
    mc::state(mc::hash(what));
    mc::outcome(mc::hash(d.sets[snn::testing].inputs[t - 1]));
}

MC_SCENARIO(large_sizes) // many inputs, training data or testing data; the extremes are at each place
{
    const auto [lo, hi] = mc::pick(ranges());
    const int size = mc::pick(largeSizes());
    const int what = mc::choose(3);
    const int w = what == 0 ? size : 2, n = what == 1 ? size : 3, t = what == 2 ? size : 2;
    const int where = mc::choose(4); // the place of the highest value of the first input; the lowest one is at the opposite place
    VV X, TX, Y(n, V{0.25f}), TY(t, V{0.5f});
    for (int i = 0; i < n; ++i)
        X.push_back(values(i, w));
    for (int i = 0; i < t; ++i)
        TX.push_back(values(5000 + i, w, 2.0f));
    X[where * (n - 1) / 3][0] = 9.0f;
    X[(3 - where) * (n - 1) / 3][w - 1] = -7.0f;
    const auto text = mc::format("normalize(%g, %g), %d inputs, %d training data, %d testing data, %d", lo, hi, w, n, t, where);
    mc::note("%s", text.c_str());
    Data d(problem::regression, X, Y, TX, TY);
    d.normalize(lo, hi);
    judge(X, TX, Y, d, lo, hi, text);
    mc::state(mc::hash(text));
    mc::outcome(mc::hash(d.sets[snn::training].inputs[n - 1]));
}
