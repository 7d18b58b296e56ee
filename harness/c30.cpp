// C30: whatever allocation of an operation fails, the operation reports it, nothing is lost and the objects stay usable.
#define MC_MAIN
#define MC_CONTROL_RNG
#include <atomic>
#include <cstdlib>
#include <new>
#include <pthread.h>
#include "fs.hpp"
#include "ops.hpp"
using namespace ops;

namespace memory
{
    enum Side { THIS_THREAD, OTHER_THREADS };
    static std::atomic<bool> armed = false;
    static std::atomic<long> count = 0, live = 0, failAt = -1, failures = 0;
    static std::atomic<bool> lasting = false; // every allocation fails after the first one, or only one
    static Side side = THIS_THREAD;
    static pthread_t owner;

    static bool fails()
    {
        if (!armed || (pthread_equal(pthread_self(), owner) != 0) != (side == THIS_THREAD))
            return false;
        const long n = count++;
        if (failAt < 0 || !(lasting ? n >= failAt : n == failAt))
            return false;
        ++failures;
        return true;
    }
    static void* allocate(std::size_t size, std::size_t alignment)
    {
        if (fails())
            return nullptr;
        void* p = alignment ? aligned_alloc(alignment, (size + alignment - 1) / alignment * alignment) : malloc(size ? size : 1);
        if (p)
            ++live;
        return p;
    }
    static void release(void* p)
    {
        if (p)
            --live;
        free(p);
    }
    static void arm(Side s, long at, bool last)
    {
        owner = pthread_self();
        side = s;
        count = 0;
        failures = 0;
        failAt = at;
        lasting = last;
        armed = true;
    }
    static void disarm() { armed = false; }
}

void* operator new(std::size_t n) { if (void* p = memory::allocate(n, 0)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n) { if (void* p = memory::allocate(n, 0)) return p; throw std::bad_alloc(); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return memory::allocate(n, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return memory::allocate(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { if (void* p = memory::allocate(n, (std::size_t)a)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n, std::align_val_t a) { if (void* p = memory::allocate(n, (std::size_t)a)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { memory::release(p); }
void operator delete[](void* p) noexcept { memory::release(p); }
void operator delete(void* p, std::size_t) noexcept { memory::release(p); }
void operator delete[](void* p, std::size_t) noexcept { memory::release(p); }
void operator delete(void* p, std::align_val_t) noexcept { memory::release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { memory::release(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { memory::release(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { memory::release(p); }

static const std::vector<ArchSpec>& nets()
{
    static const std::vector<ArchSpec> n = []
    {
        std::vector<ArchSpec> r = {
            {{2}, {{FC, 2, 1, activation::identity}}},
            {{2}, {{RNN, 3, 1, activation::tanh}, {GRU, 2, 1, activation::sigmoid}, {FC, 2, 1, activation::sigmoid}}},
            {{1, 5, 5}, {{CONV, 2, 2, activation::ReLU}, {POOL, 1, 2}, {FC, 2, 1, activation::sigmoid}}},
            {{1, 4, 4}, {{LC, 2, 2, activation::tanh}, {FC, 2, 1, activation::sigmoid}}},
            {{6}, {{CONV, 2, 2, activation::GELU}, {FC, 2, 1, activation::sigmoid}}},
            {{6}, {{LC, 1, 2, activation::gaussian}, {POOL, 1, 1}, {FC, 2, 1, activation::sigmoid}}},
        };
        for (size_t i = 1; i < r.size(); ++i)
            decorate(r[i], (int)i);
        return r;
    }();
    return n;
}

static std::unique_ptr<Net> build(int which, int seed)
{
    rng::counter = 0;
    auto net = make(nets()[which]);
    setWeights(*net, seed);
    net->trainOnce(values(seed, net->getNumberOfInputs()), V(net->getNumberOfOutputs(), 0.5f));
    return net;
}

// Runs an operation once to know its allocations, then again with a failure in one of them.
struct Run
{
    long allocations = 0, at = -1, lost = 0;
    bool thrown = false, failed = false, lasting = false;
    std::string what;
};

template <typename F>
static void attempt(Run& r, memory::Side side, F&& f)
{
    r.thrown = false;
    const long before = memory::live;
    memory::arm(side, r.at, r.lasting);
    try
    {
        f();
    }
    catch (const std::exception&)
    {
        r.thrown = true;
    }
    memory::disarm();
    r.lost = memory::live - before;
    r.failed = memory::failures > 0;
    if (r.at < 0)
        r.allocations = memory::count;
    mc::step();
}

static void chooseFailure(Run& r, const std::string& what)
{
    MC_CHECK(!r.thrown, "harness", "%s: the operation fails without fault", what.c_str());
    if (r.allocations == 0)
    {
        r.at = 0;
        r.what = what + ": no allocation";
        return;
    }
    r.at = mc::choose((int)r.allocations);
    r.lasting = mc::flag();
    r.what = what + mc::format(": allocation %ld of %ld fails%s", r.at, r.allocations, r.lasting ? ", and the next ones" : "");
    mc::note("%s", r.what.c_str());
    mc::state(mc::hash(r.what));
}

static void judgeUsable(Net& net, int which, const std::string& what)
{
    MC_CHECK(!net.isTraining(), "idle", "%s: the network is not idle", what.c_str());
    const int outputs = net.getNumberOfOutputs();
    const auto w = weights(net);
    const V x = values(3, net.getNumberOfInputs());
    const V a = net.computeOutput(x, true), b = net.computeOutput(x, true);
    MC_CHECK((int)a.size() == outputs && (int)b.size() == outputs && (which == 1 || same(a, b)), "usable", "%s: the outputs are not the ones of the network", what.c_str());
    Net copied(net);
    MC_CHECK(copied == net && same(weights(net), w), "usable", "%s: the network cannot be copied", what.c_str());
    const std::string path = mc::scratchDir() + "/usable.snn";
    copied.saveAs(path);
    MC_CHECK(*load(path) == copied, "usable", "%s: the network cannot be saved", what.c_str());
    auto d = data(net, 2);
    net.train(*d, snn::operator""_ep(1ull), 1, 1);
    net.startTrainingAsync(*d, 1, 1);
    net.waitFor(snn::operator""_ep(1ull));
    net.stopTrainingAsync();
    net.evaluate(*d);
    MC_CHECK(net.isValid() == 0 && net.getGlobalClusteringRate() >= 0, "usable", "%s: the network cannot be trained", what.c_str());
}

// What builds an object: an exception, and nothing lost.
MC_SCENARIO_SPLIT(constructions, 2)
{
    const int what = mc::choose(4);
    const int which = mc::choose((int)nets().size());
    static const char* names[] = {"creation", "copy", "data", "temporal data"};
    auto net = build(which, 4);
    auto same4 = build(which, 4);
    VV X = {{1, 2}, {3, 4}, {5, 6}}, Y = {{1, 0}, {0, 1}, {1, 0}};
    VVV T = {{{1, 2}, {3, 4}}, {{5, 6}}};
    if (what >= 2 && which > 2)
        return;
    const auto f = [&]
    {
        switch (what)
        {
        case 0: { auto n = make(nets()[which]); break; }
        case 1: { Net n(*net); break; }
        case 2: { Data d(which == 0 ? problem::classification : which == 1 ? problem::multipleClassification : problem::regression, X, Y, X, Y, which == 1 ? snn::nature::timeSeries : snn::nature::nonTemporal, which == 1 ? 1 : 0); break; }
        default: { Data d(which == 0 ? problem::classification : which == 1 ? problem::multipleClassification : problem::regression, T, Y, T, Y, snn::nature::sequential); break; }
        }
    };
    Run r;
    attempt(r, memory::THIS_THREAD, f); // the library builds its tables
    attempt(r, memory::THIS_THREAD, f);
    MC_CHECK(r.lost == 0, "leak", "%s of %s: %ld blocks are lost", names[what], describe(nets()[which]).c_str(), r.lost);
    chooseFailure(r, std::string(names[what]) + " of " + (what < 2 ? describe(nets()[which]) : std::to_string(which)));
    attempt(r, memory::THIS_THREAD, f);
    MC_CHECK(r.thrown, "silent failure", "%s: the failure is not reported", r.what.c_str());
    MC_CHECK(r.lost == 0, "leak", "%s: %ld blocks are lost", r.what.c_str(), r.lost);
    MC_CHECK(*net == *same4, "original", "%s: the original changes", r.what.c_str());
    mc::outcome(what);
    if (what < 2)
        judgeUsable(*net, which, r.what);
}

enum Operation { M_OUTPUT, M_CLUSTER, M_TRAIN_ONCE, M_TRAIN, M_EVALUATE, M_SAVE, M_LOAD, M_ASYNC, M_ASYNC_THREAD, M_TRAIN_BATCH, M_TRAIN_SAVE, M_EVALUATE_SAVE, M_LAYER_OUTPUTS, M_SUMMARY, M_EQUAL, M_NORMALIZE, M_IMAGES, M_SETTINGS, M_DESTROY, NOPERATIONS };
static const char* operationNames[] = {"computeOutput", "computeCluster", "trainOnce", "train", "evaluate", "saveAs", "loadFrom", "startTrainingAsync", "training thread", "train by batches", "train with automatic save", "evaluate with automatic save", "images of the outputs", "summary", "comparison", "normalize", "images", "settings", "destruction"};

MC_SCENARIO_SPLIT(operations, 2)
{
    const int op = mc::choose(NOPERATIONS);
    const int which = mc::choose((int)nets().size());
    const std::string path = mc::scratchDir() + "/memory.snn", other = mc::scratchDir() + "/other.snn";
    for (const char* suffix : {"", ".tmp"})
        std::filesystem::remove(path + suffix);
    build(which, 4)->saveAs(path);
    const std::string old = readFile(path);
    std::unique_ptr<Net> net;
    std::unique_ptr<Net> twin;
    std::unique_ptr<Data> d;
    V x, y;
    std::string text;
    bool expectFailure = false;
    const auto prepare = [&]
    {
        writeFile(path, old);
        net = build(which, 5);
        twin = build(which, 5);
        d = data(*net, 3);
        x = values(7, net->getNumberOfInputs());
        y = V(net->getNumberOfOutputs(), 0.25f);
        if (op == M_SAVE || op == M_TRAIN_SAVE || op == M_EVALUATE_SAVE)
            net->autoSaveFilePath = path;
        net->autoSaveWhenBetter = op == M_TRAIN_SAVE || op == M_EVALUATE_SAVE;
    };
    const auto f = [&]
    {
        switch (op)
        {
        case M_OUTPUT: (void)net->computeOutput(x, true); break;
        case M_CLUSTER: (void)net->computeCluster(x, true); break;
        case M_TRAIN_ONCE: net->trainOnce(x, y, true); break;
        case M_TRAIN: case M_TRAIN_SAVE: net->train(*d, snn::operator""_ep(1ull), 1, 1); break;
        case M_EVALUATE: case M_EVALUATE_SAVE: net->evaluate(*d); break;
        case M_SAVE: net->saveAs(path); break;
        case M_LOAD: { std::unique_ptr<Net> n(&Net::loadFrom(path)); break; }
        case M_TRAIN_BATCH: net->train(*d, snn::operator""_ep(2ull), 2, 1); break;
        case M_LAYER_OUTPUTS: net->saveFilterLayersAsBitmap(path + "_outputs", *d, 0); break;
        case M_SUMMARY: text = net->summary(); break;
        case M_EQUAL: if (!(*net == *twin) || *net != *twin) throw std::runtime_error("different"); break;
        case M_NORMALIZE: d->normalize(0, 1); break;
        case M_IMAGES: net->saveFeatureMapsAsBitmap(path + "_images"); break;
        case M_SETTINGS: net->setNumberOfTrainingsBetweenTwoEvaluations(3); d->setSeparator(0.3f); break;
        case M_DESTROY: net.reset(); d.reset(); break;
        default:
            net->startTrainingAsync(*d, 1, 1);
            if (op == M_ASYNC_THREAD && expectFailure) // the training goes on until it fails
                net->waitFor(snn::operator""_ep(1000000000ull) || snn::operator""_ms(10000ull));
            else
                net->waitFor(snn::operator""_ep(2ull) || snn::operator""_ms(10000ull));
            net->stopTrainingAsync();
        }
    };
    const auto side = op == M_ASYNC_THREAD ? memory::OTHER_THREADS : memory::THIS_THREAD;
    Run r;
    for (int i = 0; i < 2; ++i)
    {
        prepare();
        attempt(r, side, f);
    }
    if (op == M_ASYNC_THREAD)
        r.allocations = std::min(r.allocations, 60L);
    chooseFailure(r, std::string(operationNames[op]) + " of " + describe(nets()[which]));
    prepare();
    const auto w = weights(*net);
    const auto pairs = [&]
    {
        std::vector<std::pair<V, V>> p;
        for (int i = 0; i < d->sets[snn::training].size; ++i)
            p.push_back({d->getTrainingData(i, 1), d->getTrainingOutputs(i, 1)});
        std::sort(p.begin(), p.end());
        return p;
    };
    const auto p = pairs();
    const std::string complete = text;
    text.clear();
    expectFailure = r.allocations > 0;
    attempt(r, side, f);
    if (op == M_ASYNC || op == M_ASYNC_THREAD)
        net->stopTrainingAsync();
    if (op == M_DESTROY)
    {
        MC_CHECK(!r.failed && !r.thrown && !net, "destruction", "%s: the destruction needs memory", r.what.c_str());
        return;
    }
    MC_CHECK(op != M_SUMMARY || r.thrown || text == complete, "silent failure", "%s: the summary is not complete", r.what.c_str());
    MC_CHECK(op == M_NORMALIZE || pairs() == p, "data", "%s: the data are not the same after the failure", r.what.c_str());
    MC_CHECK(r.thrown == r.failed, "silent failure", "%s: the failure is %s", r.what.c_str(), r.thrown ? "imaginary" : "not reported");
    MC_CHECK(!net->isTraining(), "idle", "%s: the network is not idle", r.what.c_str());
    if (op >= M_EVALUATE_SAVE || op == M_OUTPUT || op == M_CLUSTER || op == M_EVALUATE || op == M_SAVE || op == M_LOAD)
        MC_CHECK(same(weights(*net), w), "weights", "%s: the weights change", r.what.c_str());
    if (op == M_TRAIN_SAVE || op == M_EVALUATE_SAVE)
    {
        MC_CHECK(readFile(path) == old || load(path)->isValid() == 0, "file", "%s: the previous file is lost", r.what.c_str());
        MC_CHECK(!std::filesystem::exists(path + ".tmp"), "file", "%s: a temporary file is left", r.what.c_str());
    }
    if (op == M_SAVE)
    {
        MC_CHECK(readFile(path) == old || *load(path) == *net, "file", "%s: the previous file is lost", r.what.c_str());
        MC_CHECK(!std::filesystem::exists(path + ".tmp"), "file", "%s: a temporary file is left", r.what.c_str());
    }
    if (op == M_LOAD)
        MC_CHECK(readFile(path) == old && same(weights(*load(path)), weights(*build(which, 4))), "file", "%s: the file cannot be loaded any more", r.what.c_str());
    mc::outcome(mc::format("%d %d", op, r.thrown));
    judgeUsable(*net, which, r.what);
}
