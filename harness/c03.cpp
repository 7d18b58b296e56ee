// C03: what is refused during a training is refused in every schedule, without any effect, and is accepted again when the
// training is over.
#define MC_MAIN
#include "threads.hpp"
#include <fstream>
#include <set>
using namespace threads;

enum Op { COPY, SAVE, TRAIN, FEATURES, FILTERS, EXPORTED, WAIT = EXPORTED, RESTART, UNSUITABLE, OPS };
static const char* opName[] = {"copy", "save", "train", "bitmap of the features", "bitmap of the filters", "wait 1 ms", "start again", "start with unsuitable data"};

static std::string bytes(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), {});
}

struct Directory
{
    std::string path = mc::scratchDir() + "/d";
    const std::string previous = "what was there before";

    Directory()
    {
        std::filesystem::remove_all(path);
        std::filesystem::create_directories(path);
        std::ofstream(file()) << previous;
    }
    ~Directory() { std::filesystem::remove_all(path); }

    [[nodiscard]] std::string file() const { return path + "/net.snn"; }
    [[nodiscard]] std::set<std::string> files() const
    {
        std::set<std::string> r;
        for (const auto& f : std::filesystem::directory_iterator(path))
            r.insert(f.path().filename().string());
        return r;
    }
    void check(const char* what) const
    {
        const auto f = files();
        MC_CHECK(f.size() == 1 && bytes(file()) == previous, "file", "%s: %zu files, %zu bytes in the previous one", what, f.size(), bytes(file()).size());
    }
};

static void apply(Net& net, Data& d, int op, const Directory& dir)
{
    switch (op)
    {
    case COPY:
    {
        const Net copy(net);
        MC_CHECK(!copy.isTraining(), "copied", "the copy is training");
        break;
    }
    case SAVE:
        net.saveAs(dir.file());
        break;
    case TRAIN:
        net.train(d, 1_ep);
        break;
    case FEATURES:
        net.saveFeatureMapsAsBitmap(dir.path + "/features");
        break;
    case FILTERS:
        net.saveFilterLayersAsBitmap(dir.path + "/filters", d, 0);
        break;
    }
}

static void accepted(Net& net, Data& d, int op, const Directory& dir, bool maps, bool finite)
{
    try
    {
        apply(net, d, op, dir);
    }
    catch (const std::exception& e)
    {
        mc::fail("refused when idle", mc::format("%s after the training: %s", opName[op], e.what()));
    }
    switch (op)
    {
    case SAVE:
        MC_CHECK(bytes(dir.file()) != dir.previous, "saved", "not saved");
        if (finite)
            MC_CHECK(*load(dir.file()) == net, "saved", "the file is not the network");
        break;
    case FEATURES:
    case FILTERS:
        MC_CHECK((dir.files().size() > 1) == maps, "bitmaps", "%zu files", dir.files().size());
        break;
    }
}

static std::vector<ArchSpec> networks()
{
    ArchSpec maps;
    maps.input = {1, 2, 2};
    maps.layers = {{CONV, 1, 2, activation::tanh}, {FC, 1, 1, activation::tanh}};
    ArchSpec recurrent;
    recurrent.input = {2};
    recurrent.layers = {{RNN, 2, 1, activation::tanh}, {FC, 1, 1, activation::tanh}};
    return {smallest(), maps, recurrent};
}

static void refuse(const ArchSpec& a, const std::vector<int>& program, bool nan, const sched::Options& o)
{
    auto net = make(a);
    setWeights(*net, 3, 0.5f);
    auto twin = make(a);
    setWeights(*twin, 3, 0.5f);
    auto d = data(*net, 1, nan ? INFINITY : 1.0f);
    const bool maps = a.input.size() > 1;
    const bool recurrent = a.layers[0].kind == RNN;
    std::string text;
    for (int op : program)
        text += std::string(opName[op]) + ", ";
    mc::note("%s: start, %sstop%s", describe(a).c_str(), text.c_str(), nan ? ", NaN" : "");
    const Directory dir;
    const std::string name = net->autoSaveFilePath;
    run(o, [&]
    {
        sched::watch(net.get(), sizeof(Net));
        bool trained = false; // by train()
        int64_t before = 0;
        net->startTrainingAsync(*d);
        for (const int op : program)
        {
            if (op == RESTART)
            {
                net->startTrainingAsync(*d);
                before = 1;
                continue;
            }
            if (op == WAIT)
            {
                std::this_thread::sleep_for(std::chrono::milliseconds(1));
                continue;
            }
            bool threw = false;
            const bool over = nan && !net->isTraining(); // it ended by itself: nothing is refused any more
            if (op == UNSUITABLE) // also refused when nothing is trained
            {
                VV X = {V(net->getNumberOfInputs() + 1, 0.5f)}, Y = {V(net->getNumberOfOutputs(), 0.5f)};
                Data wrong(problem::regression, X, Y);
                try
                {
                    net->startTrainingAsync(wrong);
                }
                catch (const std::runtime_error&)
                {
                    threw = true;
                }
                MC_CHECK(threw, "unsuitable", "a training begins with unsuitable data");
            }
            else try
            {
                apply(*net, *d, op, dir);
            }
            catch (const std::runtime_error&)
            {
                threw = true;
            }
            MC_CHECK(!threw || !over || op == UNSUITABLE, "refused when idle", "%s after a training which ended by itself", opName[op]);
            if (threw)
                dir.check(opName[op]);
            else
            {
                MC_CHECK(nan && !net->isTraining() && net->hasNan(), "accepted", "%s is accepted during the training", opName[op]);
                trained = trained || op == TRAIN;
                std::filesystem::remove_all(dir.path);
                std::filesystem::create_directories(dir.path);
                std::ofstream(dir.file()) << dir.previous;
                net->autoSaveFilePath = name;
            }
            MC_CHECK(net->autoSaveFilePath == name, "name", "the name of the file is %s after a refused %s", net->autoSaveFilePath.c_str(), opName[op]);
            if (!nan)
                MC_CHECK(net->isTraining() && !net->hasNan(), "disturbed", "the training is over after %s", opName[op]);
        }
        net->stopTrainingAsync();
        MC_CHECK(!net->isTraining(), "idle", "training after the stop");
        dir.check("at the end");
        if (!nan && !recurrent && before == 0)
        {
            const auto trainings = net->getNumberOfTraining();
            for (int64_t t = 0; t < trainings; ++t)
                twin->trainOnce(d->sets[snn::training].inputs[0], d->sets[snn::training].labels[0], true);
            MC_CHECK(weights(*net) == weights(*twin), "disturbed", "the weights are not the ones of %lld trainings", (long long)trainings);
        }
        mc::outcome(mc::mix(net->getNumberOfTraining(), net->getCurrentEpoch()));
        const int last = program[0] < EXPORTED ? program[0] : COPY;
        accepted(*net, *d, last, dir, maps, !nan);
        net.reset();
    });
}

MC_SCENARIO_THREADS(refused) // every operation on every network
{
    const auto a = mc::pick(networks());
    std::vector<int> program;
    const int length = 1 + mc::choose(mc::thorough() ? 3 : 2);
    for (int i = 0; i < length; ++i)
        program.push_back(mc::choose(OPS));
    const bool nan = mc::flag();
    sched::Options o;
    o.together = true;
    o.preemptions = 1;
    refuse(a, program, nan, o);
}

MC_SCENARIO_THREADS(more_preemptions)
{
    std::vector<int> program = {mc::choose(EXPORTED)};
    if (mc::thorough() && mc::flag())
        program.insert(program.begin() + mc::choose(2), mc::choose(OPS));
    sched::Options o;
    o.preemptions = 2;
    const bool nan = mc::flag();
    refuse(networks()[mc::choose(mc::thorough() ? 3 : 1)], program, nan, o);
}
