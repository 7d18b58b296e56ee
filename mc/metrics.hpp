// Reference metrics, in double precision, from the definition of each metric.
#pragma once
#include "grammar.hpp"

namespace metrics
{
    using namespace grammar;
    using snn::problem;

    struct Counts
    {
        double tp = 0, tn = 0, fp = 0, fn = 0;
    };

    struct Metrics
    {
        double accuracy = -1, weighted = -1, f1 = -1, mae = -1, rmse = -1;
    };

    struct Item
    {
        V output, label;
    };

    inline Metrics compute(problem p, const std::vector<Item>& items, float threshold)
    {
        const size_t n = items[0].output.size();
        std::vector<Counts> c(n);
        double good = 0, absolute = 0, squared = 0;
        for (const auto& item : items)
        {
            bool ok = true;
            size_t best = 0, expected = 0;
            for (size_t i = 0; i < n; ++i)
            {
                const double o = item.output[i], l = item.label[i];
                if (item.output[i] > item.output[best])
                    best = i;
                bool positive, positiveLabel;
                double error;
                if (p == problem::regression)
                {
                    error = l - o;
                    if (o > (double)(item.label[i] + threshold))
                        c[i].fp++, ok = false;
                    else if (o < (double)(item.label[i] - threshold))
                        c[i].fn++, ok = false;
                    else
                        c[i].tn++;
                }
                else
                {
                    if (p == problem::classification)
                    {
                        const size_t k = std::ranges::find(item.label, 1.0f) - item.label.begin();
                        expected = k;
                        positiveLabel = i == k;
                        error = (i == k ? 1.0 : 0.0) - o;
                    }
                    else
                    {
                        positiveLabel = item.label[i] > threshold;
                        error = l - o;
                    }
                    positive = item.output[i] > threshold;
                    (positive ? positiveLabel ? c[i].tp : c[i].fp : positiveLabel ? c[i].fn : c[i].tn)++;
                    ok &= positive == positiveLabel;
                }
                absolute += std::fabs(error);
                squared += error * error;
            }
            if (p == problem::classification)
                ok = best == expected;
            good += ok;
        }
        Metrics m;
        m.accuracy = good / items.size();
        m.mae = absolute / items.size();
        m.rmse = std::sqrt(squared / items.size());
        m.weighted = m.f1 = 0;
        for (const auto& x : c)
            if (x.tp > 0)
            {
                m.weighted += x.tp / (x.tp + x.fn) / n;
                const double precision = x.tp / (x.tp + x.fp), recall = x.tp / (x.tp + x.fn);
                m.f1 += 2 * precision * recall / (precision + recall) / n;
            }
        return m;
    }

    inline std::unique_ptr<Net> identity(int n)
    {
        ArchSpec a;
        a.input = {n};
        a.layers = {{FC, n, 1, activation::identity}};
        auto net = make(a);
        for (int i = 0; i < n; ++i)
        {
            V w(n + 1, 0.0f);
            w[i] = 1.0f;
            setNeuronWeights(*net, 0, i, w);
        }
        return net;
    }

    inline std::string text(problem p, const std::vector<Item>& items, float threshold)
    {
        std::string s = mc::format("%s threshold %.9g:", p == problem::regression ? "regression" : p == problem::classification ? "classification" : "multiple classification", threshold);
        for (const auto& i : items)
            s += " " + u::text(i.output) + " for " + u::text(i.label);
        return s;
    }

    inline void compare(const Net& net, const Metrics& m, const std::string& what, double tolerance = 2e-6)
    {
        const double got[] = {net.getGlobalClusteringRate(), net.getWeightedClusteringRate(), net.getF1Score(), net.getMeanAbsoluteError(), net.getRootMeanSquaredError()};
        const double expected[] = {m.accuracy, m.weighted, m.f1, m.mae, m.rmse};
        static const char* names[] = {"accuracy", "weighted accuracy", "F1 score", "mean absolute error", "root mean squared error"};
        for (int i = 0; i < 5; ++i)
            MC_CHECK(near(got[i], expected[i], tolerance, tolerance), names[i], "%s: the %s is %.9g instead of %.9g", what.c_str(), names[i], got[i], expected[i]);
    }

    inline void threshold(Data& d, problem p, float t)
    {
        if (p == problem::regression)
            d.setPrecision(t);
        else
            d.setSeparator(t);
    }

    inline std::unique_ptr<Data> data(problem p, const std::vector<Item>& items, float t)
    {
        VV X, Y;
        for (const auto& i : items)
        {
            X.push_back(i.output);
            Y.push_back(i.label);
        }
        auto d = std::make_unique<Data>(p, X, Y);
        threshold(*d, p, t);
        return d;
    }
}
