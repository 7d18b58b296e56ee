// C22: shuffles are permutations which keep every data with its label and the order of time; unshuffle restores the order.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "util.hpp"
using namespace u;
using snn::nature;
using snn::problem;

// Every data is recognized by its first value.
static VV numbered(int n, float base)
{
    VV r;
    for (int i = 0; i < n; ++i)
        r.push_back({base + i, -1.0f});
    return r;
}

static VV labelsFor(int n, problem p)
{
    VV r;
    for (int i = 0; i < n; ++i)
    {
        V l(4, 0.0f);
        if (p == problem::classification)
            l[(i * 7 + 1) % 4] = 1.0f;
        else
            l[0] = 1000.0f + i;
        r.push_back(l);
    }
    return r;
}

struct View // the training set in the order of the training
{
    std::vector<int> data;
    std::vector<bool> first, learn;
};

static View view(Data& d, const VV& Y, problem p, const std::string& what)
{
    View v;
    const int n = (int)Y.size();
    std::vector<bool> seen(n, false);
    for (int i = 0; i < n; ++i)
    {
        const V x = d.getTrainingData(i), y = d.getTrainingOutputs(i);
        const int k = (int)x[0];
        MC_CHECK(k >= 0 && k < n && x[1] == -1.0f, "data", "%s: position %d holds %s", what.c_str(), i, text(x).c_str());
        MC_CHECK(!seen[k], "permutation", "%s: data %d is used twice", what.c_str(), k);
        seen[k] = true;
        MC_CHECK(same(y, Y[k]), "label", "%s: data %d has the outputs %s", what.c_str(), k, text(y).c_str());
        MC_CHECK(same(d.getData(snn::training, i), x) && same(d.getOutputs(snn::training, i), y), "access", "%s: position %d", what.c_str(), i);
        if (p == problem::classification)
        {
            const int c = (k * 7 + 1) % 4;
            MC_CHECK(d.getTrainingLabel(i) == c && d.getLabel(snn::training, i) == c, "class", "%s: data %d has class %d", what.c_str(), k, d.getTrainingLabel(i));
        }
        v.data.push_back(k);
        v.first.push_back(d.isFirstTrainingDataOfTemporalSequence(i));
        v.learn.push_back(d.needToLearnOnTrainingData(i));
    }
    MC_CHECK(d.isValid() == 0, "validity", "%s: %d", what.c_str(), d.isValid());
    return v;
}

static void testingUnchanged(Data& d, const VV& TX, const VV& TY, problem p, const std::string& what)
{
    for (size_t i = 0; i < TX.size(); ++i)
    {
        MC_CHECK(same(d.getTestingData((int)i), TX[i]), "testing data", "%s: %zu", what.c_str(), i);
        if (p == problem::classification)
            MC_CHECK(d.getTestingLabel((int)i) == ((int)i * 7 + 1) % 4, "testing label", "%s: %zu", what.c_str(), i);
        else
            MC_CHECK(same(d.getTestingOutputs((int)i), TY[i]), "testing outputs", "%s: %zu", what.c_str(), i);
    }
}

static int factorial(int n) { return n < 2 ? 1 : n * factorial(n - 1); }

// Number of alternatives of one draw which reaches every permutation of n elements.
static int alternatives(int n) { return n <= 1 ? 1 : n == 2 ? 2 : n == 3 ? 6 : n == 4 ? 12 : 60; }

static void history(Data& d, const VV& Y, const VV& TX, const VV& TY, problem p, const std::string& base, int length, int alternativesOfDraw,
                    const std::function<void(const View&, const std::string&, int, bool)>& judge)
{
    std::string what = base;
    judge(view(d, Y, p, what), what, 0, true);
    rng::alternatives = alternativesOfDraw;
    int shuffles = 0;
    for (int i = 0; i < length; ++i)
    {
        const bool un = i > 0 && mc::flag();
        what += un ? " unshuffle" : " shuffle";
        if (un)
            d.unshuffle();
        else
        {
            d.shuffle();
            ++shuffles;
        }
        mc::step();
        const View v = view(d, Y, p, what);
        testingUnchanged(d, TX, TY, p, what);
        if (un)
            for (int k = 0; k < (int)Y.size(); ++k)
                MC_CHECK(v.data[k] == k, "unshuffle", "%s: %s", what.c_str(), text(v.data).c_str());
        judge(v, what, shuffles, un);
        uint64_t h = mc::hash(base);
        for (size_t k = 0; k < v.data.size(); ++k)
            h = mc::mix(h, v.data[k] * 4 + v.first[k] * 2 + v.learn[k]);
        mc::state(h);
        mc::outcome(h);
    }
    rng::alternatives = 0;
    mc::note("%s", what.c_str());
}

MC_SCENARIO(independent_data)
{
    rng::alternatives = 0;
    rng::counter = 0;
    const problem p = mc::pick(std::vector<problem>{problem::classification, problem::regression, problem::multipleClassification});
    const int n = 1 + mc::choose(5);
    VV X = numbered(n, 0), Y = labelsFor(n, p), TX = numbered(3, 50), TY = labelsFor(3, p);
    Data d(p, X, Y, TX, TY);
    rng::budget = mc::thorough() ? -1 : (n < 4 ? -1 : n == 4 ? 4 : 3);
    history(d, Y, TX, TY, p, mc::format("%d independent data:", n), n < 4 ? 4 : n == 4 ? 3 : 2, alternatives(n), [&](const View& v, const std::string& what, int, bool)
    {
        for (int i = 0; i < n; ++i)
            MC_CHECK(v.learn[i], "learn", "%s: data %d is not learned", what.c_str(), v.data[i]);
    });
}

MC_SCENARIO(sequences) // whole sequences are moved
{
    rng::alternatives = 0;
    rng::counter = 0;
    const problem p = mc::pick(std::vector<problem>{problem::classification, problem::regression});
    const int count = 1 + mc::choose(4);
    std::vector<int> lengths, start;
    int n = 0;
    for (int i = 0; i < count; ++i)
    {
        lengths.push_back(1 + mc::choose(count == 4 ? 2 : 3));
        start.push_back(n);
        n += lengths.back();
    }
    const VV flat = numbered(n, 0);
    VVV X;
    for (int i = 0; i < count; ++i)
        X.emplace_back(flat.begin() + start[i], flat.begin() + start[i] + lengths[i]);
    VV Y = labelsFor(n, p), TY = labelsFor(3, p);
    const VV TX = numbered(3, 50);
    VVV TX3 = {{TX[0]}, {TX[1], TX[2]}};
    Data d(p, X, Y, TX3, TY, nature::sequential);
    rng::budget = -1;
    history(d, Y, TX, TY, p, "sequences " + text(lengths) + ":", mc::thorough() ? 4 : count == 4 ? 2 : 3, alternatives(count), [&](const View& v, const std::string& what, int, bool)
    {
        for (int i = 0; i < n;)
        {
            const int s = (int)(std::ranges::find(start, v.data[i]) - start.begin());
            MC_CHECK(s < count, "sequence", "%s: %s cuts a sequence at position %d", what.c_str(), text(v.data).c_str(), i);
            for (int j = 0; j < lengths[s]; ++j, ++i)
            {
                MC_CHECK(i < n && v.data[i] == start[s] + j, "sequence", "%s: %s cuts a sequence at position %d", what.c_str(), text(v.data).c_str(), i);
                MC_CHECK(v.first[i] == (j == 0), "first", "%s: %s: position %d", what.c_str(), text(v.data).c_str(), i);
                MC_CHECK(v.learn[i], "learn", "%s: position %d", what.c_str(), i);
            }
        }
        for (int i = 0; i < 3; ++i)
            MC_CHECK(d.isFirstTestingDataOfTemporalSequence(i) == (i != 2) && d.needToEvaluateOnTestingData(i) == (i != 1), "testing flags", "%s: %d", what.c_str(), i);
    });
}

MC_SCENARIO(time_series) // windows of consecutive data, learned on their last data
{
    rng::alternatives = 0;
    rng::counter = 0;
    const problem p = problem::regression;
    const int recurrences = 1 + mc::choose(mc::thorough() ? 4 : 3);
    const int n = 1 + mc::choose(mc::thorough() ? 12 : 9);
    VV X = numbered(n, 0), Y = labelsFor(n, p), TX = numbered(3, 50), TY = labelsFor(3, p);
    Data d(p, X, Y, TX, TY, nature::timeSeries, recurrences);
    const int window = recurrences + 1;
    const int draws = (n / window + 1) / 2; // of each shuffle
    rng::budget = n / window <= 2 ? -1 : (mc::thorough() ? 3 : 2) * draws;
    std::vector<int> learned(n, 0);
    const int length = n / window <= 2 ? 2 * window : window + 1;
    const int last = length;
    history(d, Y, TX, TY, p, mc::format("%d data, %d recurrences:", n, recurrences), std::min(last, 6), alternatives(std::min(4, n / window)),
            [&](const View& v, const std::string& what, int shuffles, bool unshuffled)
    {
        const std::string all = what + " " + text(v.data);
        MC_CHECK(v.first[0], "first", "%s: the memory is not reset at the beginning", all.c_str());
        if (unshuffled)
        {
            for (int i = 0; i < n; ++i)
                MC_CHECK(v.first[i] == (i == 0) && v.learn[i], "flags", "%s: position %d", all.c_str(), i);
            return;
        }
        int begin = 0; // of the current sequence
        for (int i = 0; i < n; ++i)
        {
            if (v.first[i])
                begin = i;
            if (!v.learn[i])
                continue;
            for (int j = begin + 1; j <= i; ++j)
                MC_CHECK(v.data[j] == v.data[j - 1] + 1, "order of time", "%s: the data at position %d is learned after data which does not precede it", all.c_str(), i);
            MC_CHECK(i - begin == recurrences || v.data[begin] == 0, "recurrences", "%s: the data at position %d is learned after %d recurrences", all.c_str(), i, i - begin);
            MC_CHECK(i - begin <= recurrences, "recurrences", "%s: the data at position %d is learned after %d recurrences", all.c_str(), i, i - begin);
        }
        // every complete window of this offset is learned once
        const int offset = (shuffles - 1) % window;
        std::vector<bool> isLearned(n, false);
        for (int i = 0; i < n; ++i)
            if (v.learn[i])
                isLearned[v.data[i]] = true;
        for (int k = 0; k < n; ++k)
        {
            const bool expected = k < offset || (k - offset) % window == recurrences;
            MC_CHECK(isLearned[k] == expected, "windows", "%s: shuffle %d: data %d is %slearned", all.c_str(), shuffles, k, isLearned[k] ? "" : "not ");
        }
    });
}

MC_SCENARIO(every_order) // every order is reachable: a shuffle which never moves a data would train always in the same order
{
    rng::counter = 0;
    const int n = 2 + mc::choose(3);
    const int kind = mc::choose(3);
    rng::alternatives = 0;
    std::set<std::vector<int>> seen;
    VV flat = numbered(n, 0), Y = labelsFor(n, problem::regression), TX = flat, TY = Y;
    // all the sequences of draws, explored here to collect the set of orders
    std::vector<int> digits(3, 0);
    const int K = alternatives(n);
    (void)digits;
    for (int code = 0; code < K * K; ++code)
    {
        std::unique_ptr<Data> d;
        if (kind == 0)
            d = std::make_unique<Data>(problem::regression, flat, Y, TX, TY);
        else if (kind == 1)
        {
            VVV S, TS = {TX};
            for (auto& x : flat)
                S.push_back({x});
            d = std::make_unique<Data>(problem::regression, S, Y, TS, TY, nature::sequential);
        }
        else
        {
            VV S = numbered(2 * n, 0), SY = labelsFor(2 * n, problem::regression);
            d = std::make_unique<Data>(problem::regression, S, SY, TX, TY, nature::timeSeries, 1);
        }
        rng::scripted = {code % K, code / K};
        rng::scriptedAlternatives = K;
        d->shuffle();
        rng::scripted.clear();
        std::vector<int> order;
        for (int i = 0; i < n; ++i)
            order.push_back((int)d->getTrainingData(kind == 2 ? 2 * i : i)[0]);
        seen.insert(order);
        mc::step();
    }
    MC_CHECK((int)seen.size() == factorial(n), "orders", "%d data of kind %d: %zu orders out of %d", n, kind, seen.size(), factorial(n));
    mc::state(n * 3 + kind);
}

MC_SCENARIO(large_sets) // many data: permutations, whole sequences, windows, and every data changes its place
{
    rng::alternatives = 0;
    rng::counter = 0;
    const int n = mc::pick(largeSizes());
    const int kind = mc::choose(6); // independent data, sequences of 1 and of 1 to 4 data, time series of 1, 3 and 20 recurrences
    const problem p = mc::pick(std::vector<problem>{problem::classification, problem::regression});
    VV X = numbered(n, 0), Y = labelsFor(n, p), TX = numbered(3, 5000), TY = labelsFor(3, p);
    std::vector<int> end; // of the sequence which starts there
    std::unique_ptr<Data> d;
    const int recurrences = kind == 3 ? 1 : kind == 4 ? 3 : kind == 5 ? 20 : 0, window = recurrences + 1;
    if (kind == 0)
        d = std::make_unique<Data>(p, X, Y, TX, TY);
    else if (kind < 3)
    {
        VVV S, TS = {TX};
        for (int i = 0, l = 1; i < n; i += l, l = kind == 1 ? 1 : l % 4 + 1)
        {
            S.emplace_back(X.begin() + i, X.begin() + std::min(n, i + l));
            end.resize(n, 0);
            end[i] = std::min(n, i + l);
        }
        d = std::make_unique<Data>(p, S, Y, TS, TY, nature::sequential);
    }
    else
        d = std::make_unique<Data>(p, X, Y, TX, TY, nature::timeSeries, recurrences);
    const auto what = mc::format("%d data of kind %d, problem %d", n, kind, (int)p);
    mc::note("%s", what.c_str());
    std::vector<bool> moved(n, false);
    const int rounds = kind == 5 ? 45 : 12;
    for (int r = 1; r <= rounds; ++r)
    {
        d->shuffle();
        mc::step();
        const View v = view(*d, Y, p, what);
        testingUnchanged(*d, TX, TY, p, what);
        for (int i = 0; i < n; ++i)
            if (v.data[i] != i)
                moved[v.data[i]] = true;
        int i = 0;
        if (kind == 0)
            for (; i < n; ++i)
                MC_CHECK(v.learn[i], "learn", "%s: position %d", what.c_str(), i);
        while (i < n && kind < 3)
        {
            const int s = v.data[i];
            MC_CHECK(end[s] > s, "sequence", "%s: position %d is not the beginning of a sequence", what.c_str(), i);
            for (int j = s; j < end[s]; ++j, ++i)
                MC_CHECK(i < n && v.data[i] == j && v.first[i] == (j == s) && v.learn[i], "sequence", "%s: position %d", what.c_str(), i);
        }
        if (kind < 3)
            continue;
        std::vector<bool> learned(n, false);
        MC_CHECK(v.first[0], "first", "%s: the memory is not reset at the beginning", what.c_str());
        for (int begin = 0; i < n; ++i)
        {
            begin = v.first[i] ? i : begin;
            if (!v.learn[i])
                continue;
            learned[v.data[i]] = true;
            MC_CHECK(v.data[i] - v.data[begin] == i - begin && (i - begin == recurrences || v.data[begin] == 0), "windows", "%s: position %d", what.c_str(), i);
            for (int j = begin + 1; j <= i; ++j)
                MC_CHECK(v.data[j] == v.data[j - 1] + 1, "order of time", "%s: position %d", what.c_str(), i);
        }
        const int offset = (r - 1) % window;
        for (int k = 0; k < n; ++k)
            MC_CHECK(learned[k] == (k < offset || (k - offset) % window == recurrences), "windows", "%s: shuffle %d: data %d", what.c_str(), r, k);
        mc::state(mc::mix(mc::mix(mc::hash(what), v.data[n / 2]), v.data[n / 3]));
    }
    const int last = kind < 3 ? n : n - n % window - window; // the rest is not moved
    if (kind != 5)
        for (int i = 0; i < last; ++i)
            MC_CHECK(moved[i], "orders", "%s: the data %d is never moved in %d shuffles", what.c_str(), i, rounds);
    d->unshuffle();
    const View v = view(*d, Y, p, what);
    for (int i = 0; i < n; ++i)
        MC_CHECK(v.data[i] == i, "unshuffle", "%s: data %d at position %d", what.c_str(), v.data[i], i);
}
