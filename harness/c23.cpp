// C23: a batch is the average of its data and of their labels, whatever was read before and in whatever order.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "util.hpp"
using namespace u;
using snn::nature;
using snn::problem;

static V mean(const VV& rows, const std::vector<int>& order, int index, int batch)
{
    V r(rows[0].size());
    for (size_t j = 0; j < r.size(); ++j)
    {
        double sum = 0;
        for (int i = index; i < index + batch; ++i)
            sum += rows[order[i]][j];
        r[j] = (float)(sum / batch);
    }
    return r;
}

static void compare(const V& got, const V& expected, double scale, const char* signature, const std::string& what)
{
    MC_CHECK(got.size() == expected.size(), signature, "%s: %zu values", what.c_str(), got.size());
    for (size_t i = 0; i < got.size(); ++i)
        MC_CHECK(std::fabs(got[i] - expected[i]) <= 3e-6 * scale, signature, "%s: %s instead of %s", what.c_str(), text(got).c_str(), text(expected).c_str());
}

MC_SCENARIO(batches) // every history of reads of batches
{
    rng::alternatives = 0;
    rng::counter = 0;
    const problem p = mc::pick(std::vector<problem>{problem::classification, problem::regression, problem::multipleClassification});
    const int n = 1 + mc::choose(mc::thorough() ? 7 : 6);
    const bool extreme = mc::flag();
    const bool shuffled = mc::flag();
    VV X, Y;
    for (int i = 0; i < n; ++i)
    {
        X.push_back(values(i, 3, extreme ? (i % 2 ? 1e6f : 1e-6f) : 1.0f));
        V y(2, 0.0f);
        if (p == problem::regression)
            y = values(100 + i, 2, 2.0f);
        else
            y[i % 2] = 1.0f;
        Y.push_back(y);
    }
    const VV X0 = X, Y0 = Y;
    const double scale = extreme ? 1e6 : 1.0;
    Data d(p, X, Y);
    if (shuffled)
        d.shuffle();
    std::string what = mc::format("%d data%s:", n, shuffled ? " shuffled" : "");
    const int length = mc::thorough() ? 3 : 2;
    for (int i = 0; i < length; ++i)
    {
        const auto& order = d.sets[snn::training].shuffledIndexes;
        const int batch = 1 + mc::choose(n);
        const int index = mc::choose(n - batch + 1);
        const bool labelsFirst = mc::flag();
        what += mc::format(" [%d,%d[", index, index + batch);
        const auto readData = [&] { compare(d.getTrainingData(index, batch), mean(X0, order, index, batch), scale, "data", what); };
        const auto readLabels = [&] { compare(d.getTrainingOutputs(index, batch), mean(Y0, order, index, batch), 2, "labels", what); };
        if (labelsFirst)
            readLabels();
        readData();
        if (!labelsFirst)
            readLabels();
        mc::step(2);
        // both are available together
        const V& x = d.getTrainingData(index, batch);
        const V& y = d.getTrainingOutputs(index, batch);
        compare(x, mean(X0, order, index, batch), scale, "data", what);
        compare(y, mean(Y0, order, index, batch), 2, "labels", what);
        if (batch == 1)
            MC_CHECK(same(x, X0[order[index]]) && same(y, Y0[order[index]]), "single", "%s", what.c_str());
        MC_CHECK(d.sets[snn::training].inputs == X0 && d.sets[snn::training].labels == Y0 && d.isValid() == 0, "data unchanged", "%s", what.c_str());
        mc::outcome(mc::hash(x));
        mc::state(mc::mix(mc::hash(x), mc::hash(y)));
    }
    mc::note("%s", what.c_str());
}

MC_SCENARIO(two_sets_of_data) // the batches of two data sets do not share anything
{
    const int n = 2 + mc::choose(3), batch = 1 + mc::choose(n);
    VV XA, XB, YA, YB;
    for (int i = 0; i < n; ++i)
    {
        XA.push_back(values(i, 2));
        XB.push_back(values(50 + i, 3));
        YA.push_back(values(70 + i, 1));
        YB.push_back(values(90 + i, 2));
    }
    Data a(problem::regression, XA, YA), b(problem::regression, XB, YB);
    std::vector<int> order(n);
    for (int i = 0; i < n; ++i)
        order[i] = i;
    const int interleaving = mc::choose(4);
    const V& xa = a.getTrainingData(0, batch);
    if (interleaving & 1)
        (void)b.getTrainingData(n - batch, batch);
    const V& ya = a.getTrainingOutputs(0, batch);
    if (interleaving & 2)
        (void)b.getTrainingOutputs(n - batch, batch);
    mc::step(4);
    compare(xa, mean(XA, order, 0, batch), 1, "data", "two data sets");
    compare(ya, mean(YA, order, 0, batch), 1, "labels", "two data sets");
    mc::state(n * 100 + batch * 10 + interleaving);
}

MC_SCENARIO(large_batches) // many data, many inputs or many labels
{
    rng::alternatives = 0;
    rng::counter = 0;
    const int size = mc::pick(largeSizes());
    const int what = mc::choose(3);
    const int n = what == 0 ? size : 5, inputs = what == 1 ? size : 3, labels = what == 2 ? size : 2;
    VV X, Y;
    for (int i = 0; i < n; ++i)
    {
        X.push_back(values(i, inputs));
        Y.push_back(values(2000 + i, labels));
    }
    const VV X0 = X, Y0 = Y;
    Data d(problem::regression, X, Y);
    const bool shuffled = mc::flag();
    if (shuffled)
        d.shuffle();
    const auto& order = d.sets[snn::training].shuffledIndexes;
    const int batch = mc::pick(what == 0 ? std::vector<int>{n, n - 1, n / 2, n / 3 + 1, 2} : std::vector<int>{1, 2, 3, 5});
    const auto text = mc::format("%d data of %d inputs and %d labels%s, batch of %d", n, inputs, labels, shuffled ? ", shuffled" : "", batch);
    mc::note("%s", text.c_str());
    for (int index = 0; index + batch <= n; index += std::max(1, (n - batch) / 5))
    {
        const V& x = d.getTrainingData(index, batch);
        const V& y = d.getTrainingOutputs(index, batch);
        compare(x, mean(X0, order, index, batch), 4, "data", text);
        compare(y, mean(Y0, order, index, batch), 4, "labels", text);
        mc::step(2);
        mc::state(mc::mix(mc::hash(x), mc::hash(y)));
    }
    MC_CHECK(d.sets[snn::training].inputs == X0 && d.sets[snn::training].labels == Y0, "data unchanged", "%s", text.c_str());
}
