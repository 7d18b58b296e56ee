// C21: inconsistent data is rejected when it is created, consistent data is accepted and readable everywhere.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "util.hpp"
using namespace u;
using snn::nature;
using snn::problem;

static const problem problems[] = {problem::classification, problem::multipleClassification, problem::regression};
static const char* problemNames[] = {"classification", "multipleClassification", "regression"};

// a list of vectors of the same width, one of which can be wider or narrower
static VV rows(int count, int width, int odd, int oddWidth)
{
    VV r;
    for (int i = 0; i < count; ++i)
        r.push_back(values(5 + i, i == odd ? oddWidth : width));
    return r;
}

static bool sameWidth(const VV& v, size_t width)
{
    return std::ranges::all_of(v, [&](const V& x) { return x.size() == width; });
}

static VV classes(int count, int width, int kind)
{
    VV r(count, V(width, 0.0f));
    for (int i = 0; i < count && width > 0; ++i)
        r[i][(i + kind) % width] = 1.0f;
    return r;
}

static bool hasClass(const VV& labels)
{
    return std::ranges::all_of(labels, [](const V& l) { return std::ranges::find(l, 1.0f) != l.end(); });
}

// reads everything which can be read
static void readAll(Data& d, const VV& trainX, const VV& trainY, const VV& testX, const VV& testY, const char* what)
{
    const bool single = d.typeOfProblem == problem::classification;
    const int trainSize = (int)trainY.size(), testSize = (int)testY.size();
    MC_CHECK(d.isValid() == 0, "valid", "%s: isValid() is %d", what, d.isValid());
    MC_CHECK(d.sizeOfData == (int)trainX[0].size() && d.numberOfLabels == (int)trainY[0].size(), "sizes", "%s", what);
    MC_CHECK(d.sets[snn::training].size == trainSize && d.sets[snn::testing].size == testSize, "set sizes", "%s", what);
    for (int i = 0; i < trainSize; ++i)
    {
        mc::step();
        MC_CHECK(same(d.getTrainingData(i), trainX[i]) && same(d.getData(snn::training, i), trainX[i]), "training data", "%s: %d", what, i);
        MC_CHECK(same(d.getTrainingOutputs(i), trainY[i]) && same(d.getOutputs(snn::training, i), trainY[i]), "training labels", "%s: %d", what, i);
        (void)d.needToLearnOnTrainingData(i);
        if (d.typeOfTemporal != nature::nonTemporal)
            MC_CHECK(d.isFirstTrainingDataOfTemporalSequence(0), "first", "%s", what);
        if (single && std::ranges::find(trainY[i], 1.0f) != trainY[i].end())
        {
            const int c = (int)(std::ranges::find(trainY[i], 1.0f) - trainY[i].begin());
            MC_CHECK(d.getTrainingLabel(i) == c && d.getLabel(snn::training, i) == c, "class", "%s: %d", what, i);
        }
    }
    for (int i = 0; i < testSize; ++i)
    {
        mc::step();
        MC_CHECK(same(d.getTestingData(i), testX[i]) && same(d.getData(snn::testing, i), testX[i]), "testing data", "%s: %d", what, i);
        if (single)
        {
            const int c = (int)(std::ranges::find(testY[i], 1.0f) - testY[i].begin());
            MC_CHECK(d.getTestingLabel(i) == c && d.getLabel(snn::testing, i) == c, "class", "%s: %d", what, i);
        }
        else
            MC_CHECK(same(d.getTestingOutputs(i), testY[i]) && same(d.getOutputs(snn::testing, i), testY[i]), "testing labels", "%s: %d", what, i);
        (void)d.needToEvaluateOnTestingData(i);
    }
    const auto set = [&](auto f) { return !throws([&] { f(); }); };
    const bool regression = d.typeOfProblem == problem::regression;
    MC_CHECK(set([&] { d.setPrecision(0.25f); }) == regression && set([&] { d.setSeparator(0.75f); }) == !regression, "setters", "%s", what);
    MC_CHECK(set([&] { (void)d.getPrecision(); }) == regression && set([&] { (void)d.getSeparator(); }) == !regression, "getters", "%s", what);
    MC_CHECK((regression ? d.getPrecision() == 0.25f : d.getSeparator() == 0.75f), "precision", "%s", what);
}

MC_SCENARIO(two_sets) // counts and widths of the four lists
{
    const int p = mc::choose(3);
    const nature n = mc::pick(std::vector<nature>{nature::nonTemporal, nature::timeSeries, nature::sequential});
    const int recurrences = mc::choose(3) - (n == nature::nonTemporal ? 0 : 1);
    const int nx = mc::choose(4), ny = mc::choose(4), tx = mc::choose(3), ty = mc::choose(3);
    const int width = 1 + mc::choose(2), labels = 1 + mc::choose(2);
    const int where = mc::choose(5); // the list which has a row of another width
    const int odd = where < 4 ? mc::choose(3) : -1, oddWidth = where < 4 ? mc::choose(2) : 0; // empty, or one more
    const auto list = [&](int i, int count, int w) { return rows(count, w, where == i ? odd : -1, oddWidth ? w + 1 : 0); };
    VV X = list(0, nx, width), Y = list(1, ny, labels), TX = list(2, tx, width), TY = list(3, ty, labels);
    if (p == 0)
        for (auto* l : {&Y, &TY})
            for (size_t i = 0; i < l->size(); ++i)
                if (!(*l)[i].empty())
                    (*l)[i][i % (*l)[i].size()] = 1.0f;
    const bool valid = !X.empty() && X.size() == Y.size() && TX.size() == TY.size()
        && sameWidth(X, X.empty() ? 0 : X[0].size()) && sameWidth(Y, Y.empty() ? 0 : Y[0].size())
        && sameWidth(TX, X.empty() ? 0 : X[0].size()) && sameWidth(TY, Y.empty() ? 0 : Y[0].size())
        && (p != 0 || (Y[0].size() >= 2 && hasClass(TY)))
        && (n != nature::timeSeries || recurrences >= 1)
        && n != nature::sequential; // sequences are given as 3D inputs
    const auto what = mc::format("%s nature %d recurrences %d: %d/%d training and %d/%d testing rows of %d inputs and %d labels, odd list %d row %d of width %s",
        problemNames[p], (int)n, recurrences, nx, ny, tx, ty, width, labels, where, odd, oddWidth ? "+1" : "0");
    mc::note("%s", what.c_str());
    mc::state(mc::hash(what));
    const VV x0 = X, y0 = Y, tx0 = TX, ty0 = TY;
    std::unique_ptr<Data> d;
    const bool rejected = throws([&] { d = std::make_unique<Data>(problems[p], X, Y, TX, TY, n, recurrences); });
    MC_CHECK(rejected == !valid, "validation", "%s is %s", what.c_str(), rejected ? "rejected" : "accepted");
    mc::step();
    if (!rejected)
        readAll(*d, x0, y0, tx0, ty0, what.c_str());
    mc::outcome(rejected);
}

MC_SCENARIO(one_set) // the same data is used for the training and the testing; values of the labels
{
    const int p = mc::choose(3);
    const bool series = mc::flag();
    const int nx = mc::choose(3), labels = 1 + mc::choose(3), count = mc::choose(4);
    VV X = rows(nx, 2, -1, 0), Y;
    const std::vector<float> alphabet = {0.0f, 1.0f, 0.5f, 2.0f};
    for (int i = 0; i < count; ++i)
    {
        V l(labels, 0.0f);
        if (i < 2)
            for (int j = 0; j < std::min(labels, 2); ++j)
                l[j] = mc::pick(alphabet);
        else
            l[labels - 1] = 1.0f;
        Y.push_back(l);
    }
    const bool valid = nx > 0 && nx == count && (p != 0 || (labels >= 2 && hasClass(Y)));
    std::string what = mc::format("%s: %d inputs, labels", problemNames[p], nx);
    for (auto& l : Y)
        what += " " + text(l);
    mc::note("%s", what.c_str());
    mc::state(mc::hash(what));
    const VV x0 = X, y0 = Y;
    std::unique_ptr<Data> d;
    const bool rejected = throws([&] { d = std::make_unique<Data>(problems[p], X, Y, series ? nature::timeSeries : nature::nonTemporal, series ? 1 : 0); });
    MC_CHECK(rejected == !valid, "validation", "%s is %s", what.c_str(), rejected ? "rejected" : "accepted");
    mc::step();
    if (!rejected)
        readAll(*d, x0, y0, x0, y0, what.c_str());
    mc::outcome(rejected);
}

static VVV sequences(int count, const std::vector<int>& lengths, int width, int odd)
{
    VVV r;
    for (int s = 0, k = 0; s < count; ++s)
    {
        r.emplace_back();
        for (int i = 0; i < lengths[s]; ++i, ++k)
            r.back().push_back(values(20 + k, k == odd ? width + 1 : width));
    }
    return r;
}

static VV flat(const VVV& v)
{
    VV r;
    for (auto& s : v)
        for (auto& x : s)
            r.push_back(x);
    return r;
}

MC_SCENARIO(sequences) // sequences of every length, with as many labels as data, or not
{
    const int p = mc::choose(3);
    const nature n = mc::pick(std::vector<nature>{nature::sequential, nature::nonTemporal, nature::timeSeries});
    const bool oneSet = mc::flag();
    const int count = mc::choose(4);
    std::vector<int> lengths, testLengths;
    for (int i = 0; i < count; ++i)
        lengths.push_back(mc::choose(n == nature::sequential ? 4 : 2));
    const int testCount = oneSet ? 0 : mc::choose(3);
    for (int i = 0; i < testCount; ++i)
        testLengths.push_back(mc::choose(3));
    const int odd = n == nature::sequential ? mc::choose(3) - 1 : -1;
    VVV X = sequences(count, lengths, 2, odd), TX = sequences(testCount, testLengths, 2, -1);
    const VV x0 = flat(X), tx0 = flat(oneSet ? X : TX);
    const int delta = mc::choose(3) - 1, testDelta = oneSet ? 0 : mc::choose(3) - 1;
    VV Y = classes(std::max(0, (int)x0.size() + delta), 2, 0), TY = oneSet ? Y : classes(std::max(0, (int)tx0.size() + testDelta), 2, 1);
    const auto any0 = [](const std::vector<int>& l) { return std::ranges::find(l, 0) != l.end(); };
    const bool valid = n == nature::sequential && !x0.empty() && x0.size() == Y.size() && tx0.size() == TY.size()
        && sameWidth(x0, 2) && sameWidth(tx0, 2) && !any0(lengths) && !any0(testLengths);
    const auto what = mc::format("%s nature %d: training sequences %s, %zu labels, %stesting sequences %s, %zu labels, odd data %d", problemNames[p], (int)n,
        text(lengths).c_str(), Y.size(), oneSet ? "one set, " : "", text(testLengths).c_str(), TY.size(), odd);
    mc::note("%s", what.c_str());
    mc::state(mc::hash(what));
    const VV y0 = Y, ty0 = TY;
    std::unique_ptr<Data> d;
    const bool uniform = sameWidth(x0, x0.empty() ? 0 : x0[0].size()); // a single data of another width is consistent with itself
    const bool valid2 = valid || (n == nature::sequential && !x0.empty() && uniform && x0.size() == Y.size() && tx0.size() == TY.size()
        && sameWidth(tx0, x0[0].size()) && !any0(lengths) && !any0(testLengths));
    const bool rejected = throws([&]
    {
        if (oneSet)
            d = std::make_unique<Data>(problems[p], X, Y, n);
        else
            d = std::make_unique<Data>(problems[p], X, Y, TX, TY, n);
    });
    MC_CHECK(rejected == !valid2, "validation", "%s is %s", what.c_str(), rejected ? "rejected" : "accepted");
    mc::step();
    mc::outcome(rejected);
    if (rejected)
        return;
    readAll(*d, x0, y0, tx0, ty0, what.c_str());
    for (int s = 0, k = 0; s < count; ++s)
        for (int i = 0; i < lengths[s]; ++i, ++k)
            MC_CHECK(d->isFirstTrainingDataOfTemporalSequence(k) == (i == 0), "first of the sequence", "%s: training %d", what.c_str(), k);
    const auto& tl = oneSet ? lengths : testLengths;
    for (int s = 0, k = 0; s < (int)tl.size(); ++s)
        for (int i = 0; i < tl[s]; ++i, ++k)
        {
            MC_CHECK(d->isFirstTestingDataOfTemporalSequence(k) == (i == 0), "first of the sequence", "%s: testing %d", what.c_str(), k);
            MC_CHECK(d->needToEvaluateOnTestingData(k) == (i == tl[s] - 1), "evaluated data", "%s: testing %d", what.c_str(), k);
        }
}

MC_SCENARIO(settings) // the precision and the separator are the ones which were set
{
    const int p = mc::choose(3);
    const float inf = std::numeric_limits<float>::infinity();
    const std::vector<float> alphabet = {0.0f, -0.0f, 0.1f, 0.5f, 0.9f, 1.0f, 1.5f, 100.0f, -1.0f, -100.0f, 1e-38f, 1e-45f, 3e38f, inf, -inf};
    VV X = rows(2, 2, -1, 0), Y = classes(2, 2, 0);
    Data d(problems[p], X, Y);
    const bool regression = problems[p] == problem::regression;
    MC_CHECK((regression ? d.getPrecision() == 0.1f : d.getSeparator() == 0.5f), "default", "%s", problemNames[p]);
    for (int i = 0; i < 2; ++i)
    {
        const float v = mc::pick(alphabet);
        mc::note("%s: %g", problemNames[p], v);
        regression ? d.setPrecision(v) : d.setSeparator(v);
        mc::step();
        MC_CHECK(same(V{regression ? d.getPrecision() : d.getSeparator()}, V{v}), "setting", "%s: %g instead of %g", problemNames[p], regression ? d.getPrecision() : d.getSeparator(), v);
        mc::state(mc::hash(mc::format("%s %a", problemNames[p], v)));
    }
    MC_CHECK(d.isValid() == 0, "valid", "%s", problemNames[p]);
}

MC_SCENARIO(damaged) // sets that were made inconsistent after their creation are recognized
{
    const int p = mc::choose(3);
    const nature n = mc::pick(std::vector<nature>{nature::nonTemporal, nature::timeSeries, nature::sequential});
    const int count = 2 + mc::choose(2);
    VV X = rows(count, 2, -1, 0), Y = classes(count, 2, 0), x = rows(count + 1, 2, -1, 0), y = classes(count + 1, 2, 0);
    VVV S = {X}, s = {x};
    auto d = n == nature::sequential ? std::make_unique<Data>(problems[p], S, Y, s, y, n) : std::make_unique<Data>(problems[p], X, Y, x, y, n, n == nature::timeSeries ? 1 : 0);
    MC_CHECK(d->isValid() == 0, "valid", "a consistent set has the error %d", d->isValid());
    const int kind = mc::choose(8), way = mc::choose(2);
    auto& set = d->sets[mc::choose(2)];
    const bool isTraining = &set == &d->sets[snn::training];
    const auto change = [&](auto& v) { way ? v.push_back(v.back()) : v.pop_back(); };
    bool wrong = true;
    switch (kind)
    {
    case 0: change(set.inputs); break;
    case 1: change(set.labels); break;
    case 2: change(set.inputs[1]); break;
    case 3: change(set.labels[1]); break;
    case 4: set.size += way ? 1 : -1; break;
    case 5:
        if ((wrong = isTraining))
            change(set.shuffledIndexes);
        break;
    case 6:
        if ((wrong = n == nature::sequential || (n == nature::timeSeries && isTraining)))
            change(set.areFirstDataOfTemporalSequence);
        break;
    default:
        if ((wrong = n == nature::timeSeries && isTraining))
            change(set.needToTrainOnData);
        else if ((wrong = n == nature::sequential && !isTraining))
            change(set.needToEvaluateOnData);
    }
    const auto what = mc::format("%s nature %d: %d data, %s set, damage %d %d", problemNames[p], (int)n, count, isTraining ? "training" : "testing", kind, way);
    mc::note("%s", what.c_str());
    mc::step();
    const int error = d->isValid();
    MC_CHECK((error != 0) == wrong, "damaged", "%s: error %d", what.c_str(), error);
    mc::state(mc::hash(what));
    mc::outcome(error);
}

MC_SCENARIO(large_sets) // many rows, inputs or labels; one row of another size, or without class, at any place of one of the lists
{
    const int p = mc::choose(3);
    const int size = mc::pick(largeSizes());
    const int dimension = mc::choose(3); // many rows, inputs or labels
    const int rowsOfSets = dimension == 0 ? size : 5, width = dimension == 1 ? size : 2, labels = dimension == 2 ? size : 3;
    const nature kind = mc::pick(std::vector<nature>{nature::nonTemporal, nature::timeSeries, nature::sequential});
    const int defect = mc::choose(7); // none; shorter or longer row in one of the four lists; no class in the training or testing labels
    const int list = defect == 1 || defect == 2 ? mc::choose(4) : 0;
    const int where = std::vector<int>{0, 1, rowsOfSets / 2, rowsOfSets - 2, rowsOfSets - 1}[defect ? mc::choose(5) : 0];
    VV lists[4] = {rows(rowsOfSets, width, -1, 0), classes(rowsOfSets, labels, 1), rows(rowsOfSets, width, -1, 0), classes(rowsOfSets, labels, 2)};
    bool valid = defect == 0;
    switch (defect)
    {
    case 1: lists[list][where].pop_back(); break;
    case 2: lists[list][where].push_back(0.5f); break;
    case 3: lists[1][where].assign(labels, 0.0f); valid = p != 0; break;
    case 4: lists[3][where].assign(labels, 0.0f); valid = p != 0; break;
    case 5: lists[2].pop_back(); valid = false; break;
    case 6: lists[1].pop_back(); valid = false; break;
    }
    const auto what = mc::format("%s nature %d: %d rows of %d inputs and %d labels, defect %d in list %d at %d", problemNames[p], (int)kind, rowsOfSets, width, labels, defect, list, where);
    mc::note("%s", what.c_str());
    mc::step();
    mc::state(mc::hash(what));
    const VV x0 = lists[0], y0 = lists[1], tx0 = lists[2], ty0 = lists[3];
    std::unique_ptr<Data> d;
    const bool rejected = throws([&]
    {
        if (kind == nature::sequential)
        {
            const auto cut = [](const VV& v)
            {
                VVV s;
                for (size_t i = 0, l = 1; i < v.size(); i += l, l = l % 3 + 1)
                    s.emplace_back(v.begin() + i, v.begin() + std::min(v.size(), i + l));
                return s;
            };
            VVV S = cut(lists[0]), T = cut(lists[2]);
            d = std::make_unique<Data>(problems[p], S, lists[1], T, lists[3], kind);
        }
        else
            d = std::make_unique<Data>(problems[p], lists[0], lists[1], lists[2], lists[3], kind, kind == nature::timeSeries ? 1 : 0);
    });
    if (defect == 3) // the labels of a training data without class are not asked for
        valid = valid || !rejected;
    MC_CHECK(rejected == !valid, "validation", "%s is %s", what.c_str(), rejected ? "rejected" : "accepted");
    if (!rejected)
        readAll(*d, x0, y0, tx0, ty0, what.c_str());
    mc::outcome(rejected);
}
