// Small networks and data for the explorations of schedules.
#pragma once
#include "grammar.hpp"
#include "sched.hpp"

namespace threads
{
    using namespace grammar;
    using snn::problem;
    using snn::operator""_ep;
    using snn::operator""_ms;

    // Runs the body of an execution under the scheduler.
    template <class F>
    void run(const sched::Options& options, F body)
    {
        mc::g.split = 0; // the executions are shared by their first preemption
        sched::start(options);
        try
        {
            body();
        }
        catch (const std::exception& e)
        {
            mc::fail("exception", std::string("unexpected exception: ") + e.what());
        }
        sched::finish();
    }

    inline ArchSpec smallest()
    {
        ArchSpec a;
        a.input = {1};
        a.layers = {{FC, 1, 1, activation::tanh}};
        return a;
    }

    inline std::unique_ptr<Data> data(const Net& net, int items, float scale = 1.0f)
    {
        VV X, Y;
        for (int i = 0; i < items; ++i)
        {
            X.push_back(values(70 + i, net.getNumberOfInputs(), scale));
            Y.push_back(values(90 + i, net.getNumberOfOutputs(), 0.4f));
        }
        VV x = {X[0]}, y = {Y[0]};
        return std::make_unique<Data>(problem::regression, X, Y, x, y);
    }
}
