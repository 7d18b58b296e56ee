// C01: whatever the schedule of the threads, starting, waiting for, stopping and destroying a training ends, and leaves
// the network idle.
#define MC_MAIN
#include "threads.hpp"
using namespace threads;

enum Op { START, STOP, WAIT_EPOCH, WAIT_TIME, TRAIN, COMPUTE, OPS };
static const char* opName[] = {"start", "stop", "wait 1 epoch", "wait 2 ms", "train", "compute"};

static void idle(const Net& net, const char* what)
{
    MC_CHECK(!net.isTraining(), "idle", "%s: still training", what);
    MC_CHECK(net.getCurrentIndex() == 0, "idle", "%s: index %d", what, net.getCurrentIndex());
    const auto trainings = net.getNumberOfTraining();
    const int epoch = net.getCurrentEpoch();
    std::this_thread::sleep_for(std::chrono::milliseconds(3));
    MC_CHECK(trainings == net.getNumberOfTraining() && epoch == net.getCurrentEpoch() && !net.isTraining(), "idle", "%s: the training continues", what);
}

// The control of a training by one thread: every sequence of operations, with every schedule.
static void control(const std::vector<int>& program, int items, bool nan, const sched::Options& options, int frequency = 1)
{
    auto net = make(smallest());
    setWeights(*net, 3, 0.5f);
    auto d = data(*net, items, nan ? INFINITY : 1.0f);
    std::string text;
    for (int o : program)
        text += std::string(opName[o]) + ", ";
    mc::note("%sdestroy; %d data%s", text.c_str(), items, nan ? ", NaN" : "");
    run(options, [&]
    {
        sched::watch(net.get(), sizeof(Net));
        bool started = false;
        for (const int op : program)
        {
            switch (op)
            {
            case START:
                net->startTrainingAsync(*d, 1, frequency);
                started = true;
                if (!nan)
                    MC_CHECK(net->isTraining(), "started", "not training after the start");
                break;
            case STOP:
                net->stopTrainingAsync();
                started = false;
                idle(*net, "after the stop");
                break;
            case WAIT_EPOCH:
                if (!started && !nan)
                    break; // nothing to wait for
                if (!started && !net->hasNan())
                    break;
                net->waitFor(1_ep);
                MC_CHECK(net->getCurrentEpoch() > 1 || net->hasNan(), "waited", "epoch %d after the wait", net->getCurrentEpoch());
                break;
            case WAIT_TIME:
            {
                const auto time = sched::now();
                net->waitFor(2_ms);
                MC_CHECK(sched::now() - time >= 2000000 || net->hasNan(), "waited", "only %lld ns", (long long)(sched::now() - time));
                break;
            }
            case TRAIN:
                try
                {
                    net->train(*d, 1_ep, 1, frequency);
                    MC_CHECK(!started || nan, "refused", "trained during a training");
                    idle(*net, "after a training");
                    MC_CHECK(net->hasNan() || net->getCurrentEpoch() == 2, "trained", "epoch %d", net->getCurrentEpoch());
                }
                catch (const std::runtime_error& e)
                {
                    MC_CHECK(started, "refused", "%s", e.what());
                }
                break;
            case COMPUTE:
                if (started)
                    break;
                net->computeOutput({0.5f});
                MC_CHECK(!net->isTraining(), "idle", "training after an output");
                break;
            }
            if (started && nan && op != START)
            {
                // the training ends by itself
                for (int i = 0; i < 400 && net->isTraining(); ++i)
                    std::this_thread::sleep_for(std::chrono::milliseconds(1));
                MC_CHECK(!net->isTraining() && net->hasNan(), "NaN", "still training after a NaN");
                idle(*net, "after a NaN");
                started = false;
            }
        }
        mc::outcome(mc::mix(net->getNumberOfTraining(), mc::mix(net->getCurrentEpoch(), net->hasNan())));
        net.reset();
    });
    mc::checked();
}

static void chooseProgram(int length, std::vector<int>& program)
{
    for (int i = 0; i < length; ++i)
        program.push_back(mc::choose(OPS));
}

MC_SCENARIO_THREADS(programs) // every program
{
    std::vector<int> program = {START};
    chooseProgram(1 + mc::choose(mc::thorough() ? 4 : 3), program);
    const bool nan = mc::flag();
    sched::Options o;
    o.together = true;
    o.preemptions = 1;
    control(program, 1, nan, o, mc::choose(2));
}

MC_SCENARIO_THREADS(short_programs) // more preemptions
{
    std::vector<int> program = {START};
    chooseProgram(1 + mc::choose(mc::thorough() ? 2 : 1), program);
    sched::Options o;
    o.preemptions = 2;
    o.together = true;
    control(program, 1, mc::flag(), o);
}

MC_SCENARIO_THREADS(restarts) // two trainings, more preemptions
{
    sched::Options o;
    o.preemptions = mc::thorough() ? 3 : 2;
    o.quantum = 40;
    control(mc::pick(std::vector<std::vector<int>>{{START, START, STOP}, {START, STOP, START}, {START, STOP, TRAIN}, {START, WAIT_EPOCH, STOP, START}}), 1, false, o, 0);
}

MC_SCENARIO_THREADS(prompt_stop) // a stop ends the training at the next data, not at the end of the epoch
{
    auto net = make(smallest());
    setWeights(*net, 3, 0.5f);
    auto d = data(*net, 60);
    const int wait = mc::choose(mc::thorough() ? 4 : 3);
    const int frequency = mc::choose(2);
    mc::note("start, wait %d ms, stop, during an epoch of 60 data, frequency %d", wait, frequency);
    sched::Options o;
    o.preemptions = 1;
    run(o, [&]
    {
        net->startTrainingAsync(*d, 1, frequency);
        if (wait > 0)
            std::this_thread::sleep_for(std::chrono::milliseconds(wait));
        const auto before = sched::operations();
        net->stopTrainingAsync();
        const auto operations = sched::operations() - before;
        MC_CHECK(operations < 4 * o.quantum, "prompt", "the training continues during %lld operations after the stop", (long long)operations);
        idle(*net, "after the stop");
        net.reset();
    });
}

MC_SCENARIO_THREADS(failing_threads) // a thread cannot be created
{
    auto net = make(smallest());
    setWeights(*net, 3, 0.5f);
    auto d = data(*net, 1);
    const int starts = 1 + mc::choose(3);
    mc::note("%d starts", starts);
    sched::Options o;
    o.preemptions = 1;
    o.failThreads = true;
    run(o, [&]
    {
        bool started = false;
        for (int i = 0; i < starts; ++i)
        {
            const auto trainings = net->getNumberOfTraining();
            const int threads = sched::threads();
            try
            {
                net->startTrainingAsync(*d);
                MC_CHECK(sched::threads() == threads + 1 && net->isTraining(), "started", "start %d", i);
                started = true;
            }
            catch (const std::system_error&)
            {
                MC_CHECK(sched::threads() == threads, "started", "exception of a start which succeeded");
                idle(*net, "after the failure of a start");
                started = false;
            }
            mc::note(started ? "; started" : "; failed");
            MC_CHECK(net->getNumberOfTraining() >= trainings, "started", "trainings");
        }
        if (started && mc::choose(2))
            net->waitFor(1_ep);
        net->stopTrainingAsync();
        idle(*net, "after the stop");
        net->train(*d, 1_ep);
        MC_CHECK(net->getCurrentEpoch() == 2, "trained", "epoch %d", net->getCurrentEpoch());
        net.reset();
    });
}

MC_SCENARIO_THREADS(auto_save) // a stop during the automatic save of the training thread
{
    auto net = make(smallest());
    setWeights(*net, 3, 0.5f);
    auto d = data(*net, 1);
    const std::string path = mc::scratchDir() + "/auto.snn";
    net->autoSaveWhenBetter = true;
    net->autoSaveFilePath = path;
    const bool restart = mc::flag();
    mc::note("auto save, start, stop%s", restart ? ", start, stop" : "");
    sched::Options o;
    o.preemptions = mc::thorough() ? 3 : 2;
    o.quantum = 400; // a save is made of many visible operations
    run(o, [&]
    {
        sched::watch(net.get(), sizeof(Net));
        for (int i = 0; i < 1 + restart; ++i)
        {
            net->startTrainingAsync(*d);
            net->stopTrainingAsync();
            idle(*net, "after the stop");
        }
        net.reset();
    });
    std::filesystem::remove(path);
}

MC_SCENARIO_THREADS(failing_save) // the automatic save of the training thread fails
{
    auto net = make(smallest());
    setWeights(*net, 3, 0.5f);
    auto d = data(*net, 1);
    const std::string directory = mc::scratchDir() + "/missing";
    net->autoSaveWhenBetter = true;
    net->autoSaveFilePath = directory + "/auto.snn";
    const int wait = mc::choose(4);
    mc::note("auto save in a missing directory, start%s, stop", wait == 1 ? ", wait for 5 epochs" : wait == 2 ? ", wait 2 ms" : wait == 3 ? ", start" : "");
    sched::Options o;
    o.preemptions = mc::thorough() ? 2 : 1;
    o.quantum = 400;
    run(o, [&]
    {
        net->startTrainingAsync(*d);
        try
        {
            if (wait == 1)
            {
                net->waitFor(5_ep);
                mc::fail("not saved", "5 epochs although the save of the first evaluation fails");
            }
            if (wait == 2)
                net->waitFor(2_ms);
        }
        catch (const std::exception&)
        {
            idle(*net, "after the failure of a save");
        }
        if (wait == 3)
            net->startTrainingAsync(*d);
        net->stopTrainingAsync();
        idle(*net, "after the stop");
        MC_CHECK(!std::filesystem::exists(net->autoSaveFilePath), "saved", "saved in a missing directory");
        net->autoSaveWhenBetter = false;
        net->train(*d, 1_ep);
        MC_CHECK(net->getCurrentEpoch() == 2, "trained", "epoch %d", net->getCurrentEpoch());
        net.reset();
    });
}
