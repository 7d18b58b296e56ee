// C10: whatever call of a save fails, or is interrupted by the end of the process, the file is the previous network or the new one.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "fs.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "ops.hpp"
using namespace ops;
using fs_fault::Fault;

enum Way { SAVE_AS, EVALUATE_AND_SAVE, TRAIN_AND_SAVE };
static const char* wayNames[] = {"saveAs", "automatic save of an evaluation", "automatic save of a training"};

static const std::vector<ArchSpec>& nets()
{
    static const std::vector<ArchSpec> n = {
        {{2}, {{FC, 2, 1, activation::identity}}},
        {{6}, {{FC, 30, 1, activation::tanh}, {FC, 2, 1, activation::sigmoid}}}, // several writes
        {{1, 4, 4}, {{CONV, 3, 2, activation::ReLU}, {RNN, 8, 1, activation::tanh}, {FC, 2, 1, activation::sigmoid}}},
    };
    return n;
}

static std::unique_ptr<Net> build(int which, int seed)
{
    rng::counter = 0;
    auto net = make(nets()[which]);
    setWeights(*net, seed);
    net->trainOnce(values(seed, net->getNumberOfInputs()), V(net->getNumberOfOutputs(), 0.5f));
    return net;
}

static void save(Net& net, Way way, const std::string& path)
{
    if (way == SAVE_AS)
    {
        net.saveAs(path);
        return;
    }
    net.autoSaveFilePath = path;
    net.autoSaveWhenBetter = true;
    auto d = data(net, 5);
    if (way == EVALUATE_AND_SAVE)
        net.evaluate(*d);
    else
        net.train(*d, snn::operator""_ep(1ull), 1, 1);
}

struct Setting
{
    int which;
    Way way;
    int prior; // 0: no file, 1: a previous network, 2: a previous network and the rest of an interrupted save, 3: a link to a previous network
    std::string dir, path, old, complete, what;
    std::vector<std::string> versions; // every file that a complete save writes
    std::vector<fs_fault::Operation> trace;
};

static void prepare(const Setting& s)
{
    std::filesystem::remove_all(s.dir);
    std::filesystem::create_directories(s.dir);
    if (s.prior == 3)
    {
        std::filesystem::create_directory(s.dir + "/other");
        std::filesystem::create_symlink("other/real.snn", s.path);
    }
    if (s.prior)
        writeFile(s.path, s.old);
    if (s.prior == 2)
        for (const char* suffix : {".tmp", ".bak", "~"})
            writeFile(s.path + suffix, "22 serialization::archive 19 0");
}

static Setting choose()
{
    Setting s;
    s.which = mc::choose((int)nets().size());
    s.way = static_cast<Way>(mc::choose(3));
    s.prior = mc::choose(4);
    s.dir = mc::scratchDir() + "/c10";
    s.path = s.dir + "/network.snn";
    std::filesystem::remove_all(s.dir);
    std::filesystem::create_directories(s.dir);
    build(s.which, 4)->saveAs(s.path);
    s.old = readFile(s.path);
    prepare(s);
    auto net = build(s.which, 5);
    fs_fault::arm();
    save(*net, s.way, s.path);
    fs_fault::disarm();
    s.trace = fs_fault::trace;
    s.complete = readFile(s.path);
    s.what = describe(nets()[s.which]) + mc::format(", %s, %s: ", wayNames[s.way], s.prior == 0 ? "no previous file" : s.prior == 1 ? "previous file" : s.prior == 2 ? "previous file and interrupted save" : "link to a previous file");
    for (const auto& o : s.trace)
        s.what += mc::format("%s(%zu) ", fs_fault::callName(o.call), o.size);
    load(s.path); // throws when it is not a network
    if (s.trace.size() < 3)
        mc::fail("harness", "the save is not observed: " + s.what);
    return s;
}

static Fault chooseFault(const Setting& s, bool crash)
{
    Fault f;
    f.operation = mc::choose((int)s.trace.size() + (crash ? 1 : 0));
    f.effect = crash ? fs_fault::CRASH : fs_fault::ERROR;
    if (f.operation == (int)s.trace.size())
        return f; // after the last call
    const auto& o = s.trace[f.operation];
    if (o.call == fs_fault::WRITE)
    {
        std::vector<size_t> cuts = {0, 1, o.size / 2, o.size - 1, o.size};
        if (mc::thorough())
        {
            cuts.clear();
            for (size_t i = 0; i <= o.size; i += o.size > 3000 ? 97 : 7)
                cuts.push_back(i);
            cuts.push_back(o.size);
        }
        f.bytes = mc::pick(cuts);
        if (!crash && f.bytes > 0 && f.bytes < o.size && mc::flag())
            f.effect = fs_fault::SHORT;
    }
    if (f.effect == fs_fault::ERROR)
        f.error = mc::pick(o.call == fs_fault::OPEN ? std::vector<int>{EACCES, EMFILE, ENOSPC} : std::vector<int>{ENOSPC, EIO});
    return f;
}

static std::string fileOrNothing(const std::string& path) { return std::filesystem::exists(path) ? readFile(path) : std::string("nothing"); }

// The complete saves of a run write one file per improvement: the content must be one of them.
static std::vector<std::string> contents(const Setting& s)
{
    std::vector<std::string> r = {s.prior ? s.old : std::string("nothing"), s.complete};
    if (s.way == TRAIN_AND_SAVE) // the first evaluation and the next one
    {
        prepare(s);
        auto net = build(s.which, 5);
        save(*net, EVALUATE_AND_SAVE, s.path);
        r.push_back(""); // a network of the first evaluation, judged by its weights
        r.back() = readFile(s.path);
    }
    return r;
}

static void judgeFile(const Setting& s, const std::string& what)
{
    if (s.prior == 3)
        MC_CHECK(std::filesystem::is_symlink(s.path), "link", "%s: the link is replaced by a file", what.c_str());
    const std::string now = fileOrNothing(s.path);
    if (now == (s.prior ? s.old : std::string("nothing")) || now == s.complete)
        return;
    mc::checked();
    try
    {
        auto net = load(s.path);
        auto old = build(s.which, 4);
        if (s.way == TRAIN_AND_SAVE && net->isValid() == 0 && same(weights(*net), weights(*build(s.which, 5))))
            return; // the network of the first evaluation
        mc::fail("other network", what + ": the file is another network");
    }
    catch (const mc::Failure&) { throw; }
    catch (const std::exception& e)
    {
        mc::fail("broken file", what + ": the file cannot be loaded: " + e.what());
    }
}

static int judgeNextSave(const Setting& s, const std::string& what) // the next process saves without fault
{
    auto net = build(s.which, 7);
    net->saveAs(s.path);
    auto loaded = load(s.path);
    MC_CHECK(*loaded == *net, "next save", "%s: the next save fails", what.c_str());
    return 0;
}

MC_SCENARIO_SPLIT(crashes, 3)
{
    const Setting s = choose();
    const Fault f = chooseFault(s, true);
    prepare(s);
    const std::string what = s.what + mc::format("| crash in call %d after %zu bytes", f.operation, f.bytes);
    mc::note("%s", what.c_str());
    const int status = mc::inChild([&]
    {
        auto net = build(s.which, 5);
        fs_fault::arm({f});
        save(*net, s.way, s.path);
        return 42;
    });
    mc::step();
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 42)
        mc::fail("harness", what + mc::format(": status %d", status));
    judgeFile(s, what);
    mc::outcome(mc::hash(fileOrNothing(s.path) == s.complete ? std::string("new") : std::string("old")));
    mc::state(mc::hash(what));
    judgeNextSave(s, what);
}

MC_SCENARIO_SPLIT(two_crashes, 3) // the process is restarted and interrupted again
{
    const Setting s = choose();
    const Fault f = chooseFault(s, true);
    const int second = mc::choose((int)s.trace.size() + 1);
    prepare(s);
    const std::string what = s.what + mc::format("| crash in call %d after %zu bytes, then in call %d", f.operation, f.bytes, second);
    mc::note("%s", what.c_str());
    for (int i = 0; i < 2; ++i)
    {
        Fault g = f;
        if (i)
        {
            g.operation = second;
            g.bytes = s.trace[std::min<size_t>(second, s.trace.size() - 1)].size / 3;
        }
        const int status = mc::inChild([&]
        {
            auto net = build(s.which, 5);
            fs_fault::arm({g});
            save(*net, s.way, s.path);
            return 42;
        });
        if (!WIFEXITED(status) || WEXITSTATUS(status) != 42)
            mc::fail("harness", what + mc::format(": status %d", status));
        mc::step();
        judgeFile(s, what);
    }
    mc::state(mc::hash(what));
    judgeNextSave(s, what);
}

MC_SCENARIO_SPLIT(errors, 3) // a call fails: the save throws, the previous file is kept, the network is usable
{
    const Setting s = choose();
    const Fault f = chooseFault(s, false);
    prepare(s);
    const bool removeFails = mc::flag();
    std::vector<Fault> faults = {f};
    if (removeFails)
        faults.push_back({f.operation + 1, fs_fault::CRASH, 0, 0}); // the process ends during the cleaning
    std::string what = s.what + mc::format("| error %d in call %d after %zu bytes%s%s", f.error, f.operation, f.bytes, f.effect == fs_fault::SHORT ? " (short write)" : "", removeFails ? " then crash in the next call" : "");
    mc::note("%s", what.c_str());
    mc::step();
    mc::state(mc::hash(what));
    if (removeFails)
    {
        const int status = mc::inChild([&]
        {
            auto net = build(s.which, 5);
            fs_fault::arm(faults);
            (void)throws([&] { save(*net, s.way, s.path); });
            return 42;
        });
        if (!WIFEXITED(status) || WEXITSTATUS(status) != 42)
            mc::fail("harness", what + mc::format(": status %d", status));
        judgeFile(s, what);
        judgeNextSave(s, what);
        return;
    }
    const bool hadTemporary = s.prior == 2;
    const auto before = [&] { int n = 0; for (const auto& e : std::filesystem::recursive_directory_iterator(s.dir)) { (void)e; ++n; } return n; }();
    auto net = build(s.which, 5);
    const auto w = weights(*net);
    fs_fault::arm(faults);
    const bool thrown = throws([&] { save(*net, s.way, s.path); });
    fs_fault::disarm();
    if (f.effect == fs_fault::SHORT)
    {
        MC_CHECK(!thrown && readFile(s.path) == s.complete, "short write", "%s: the save fails", what.c_str());
        return;
    }
    const auto call = s.trace[f.operation].call;
    const bool essential = call == fs_fault::OPEN || call == fs_fault::WRITE || call == fs_fault::CLOSE || call == fs_fault::RENAME;
    MC_CHECK(thrown || !essential || fileOrNothing(s.path) == s.complete, "silent failure", "%s: the failure of the save is not reported", what.c_str());
    if (essential && !thrown)
        mc::fail("silent failure", what + ": the failure of the save is not reported");
    judgeFile(s, what);
    int after = 0;
    for (const auto& e : std::filesystem::recursive_directory_iterator(s.dir))
    {
        (void)e;
        ++after;
    }
    MC_CHECK(after <= before + (s.prior == 0 && fileOrNothing(s.path) != "nothing"), "files", "%s: %d files instead of %d", what.c_str(), after, before);
    (void)hadTemporary;
    MC_CHECK(!net->isTraining(), "idle", "%s: the network is not idle", what.c_str());
    if (s.way != TRAIN_AND_SAVE)
        MC_CHECK(same(weights(*net), w), "weights", "%s: the weights change", what.c_str());
    net->saveAs(s.path); // the network is still usable
    auto loaded = load(s.path);
    MC_CHECK(*loaded == *net, "usable", "%s: the next save fails", what.c_str());
    (void)net->computeOutput(values(3, net->getNumberOfInputs()), true);
    mc::outcome(mc::format("%d %d", thrown, call));
}

MC_SCENARIO(places) // directories which do not accept the file
{
    const int where = mc::choose(3);
    const std::string dir = mc::scratchDir() + "/places";
    std::filesystem::remove_all(dir);
    std::filesystem::create_directories(dir + "/target.snn/x");
    writeFile(dir + "/file", "text");
    const std::string path = where == 0 ? dir + "/missing/a.snn" : where == 1 ? dir + "/target.snn" : dir + "/file/a.snn";
    auto net = build(mc::choose(3), 5);
    const auto w = weights(*net);
    mc::note("%s", path.c_str());
    MC_CHECK(throws([&] { net->saveAs(path); }), "silent failure", "%s: the failure of the save is not reported", path.c_str());
    MC_CHECK(same(weights(*net), w) && !net->isTraining(), "usable", "%s", path.c_str());
    net->saveAs(dir + "/good.snn");
    MC_CHECK(*load(dir + "/good.snn") == *net, "usable", "%s: the next save fails", path.c_str());
    MC_CHECK(std::distance(std::filesystem::directory_iterator(dir), std::filesystem::directory_iterator()) == 3 && readFile(dir + "/file") == "text", "files", "%s", path.c_str());
    mc::step();
    mc::state(mc::hash(path));
}

// The path is a name of the file: a link stays a link, a private file stays private, what is not a file is written and not replaced.
MC_SCENARIO(links)
{
    namespace fs = std::filesystem;
    static const char* kinds[] = {"relative link", "absolute link", "link to no file", "link to a link", "link to the parent directory", "link in a linked directory", "loop", "private file", "pipe", "link to a pipe", "file of a group", "parent of a linked directory"};
    const int kind = mc::choose(12);
    const int which = mc::choose(2);
    const Way way = static_cast<Way>(mc::choose(3));
    const int saves = 1 + mc::choose(2);
    const std::string dir = mc::scratchDir() + "/links";
    fs::remove_all(dir);
    fs::create_directories(dir + "/a/b");
    fs::create_directories(dir + "/c");
    const std::string what = mc::format("%s, %s, %s, %d saves", kinds[kind], describe(nets()[which]).c_str(), wayNames[way], saves);
    mc::note("%s", what.c_str());
    std::string path = dir + "/a/network.snn", target = path;
    std::vector<std::string> linked = {path};
    int pipe = -1;
    const auto old = [&](const std::string& file) { build(which, 4)->saveAs(file); };
    switch (kind)
    {
    case 0: target = dir + "/a/b/real.snn"; old(target); fs::create_symlink("b/real.snn", path); break;
    case 1: target = dir + "/c/real.snn"; old(target); fs::create_symlink(target, path); break;
    case 2: target = dir + "/c/real.snn"; fs::create_symlink("../c/real.snn", path); break;
    case 3: target = dir + "/c/real.snn"; old(target); fs::create_symlink("b/second.snn", path); fs::create_symlink("../../c/real.snn", dir + "/a/b/second.snn"); linked.push_back(dir + "/a/b/second.snn"); break;
    case 4: target = dir + "/real.snn"; old(target); fs::create_symlink("../real.snn", path); break;
    case 5: target = dir + "/a/real.snn"; old(target); fs::create_directory_symlink("a/b", dir + "/d"); path = dir + "/d/network.snn"; fs::create_symlink("../real.snn", path); linked = {path, dir + "/d"}; break;
    case 6: fs::create_symlink("loop.snn", path); fs::create_symlink("network.snn", dir + "/a/loop.snn"); linked.push_back(dir + "/a/loop.snn"); break;
    case 7: old(path); fs::permissions(path, fs::perms::owner_read | fs::perms::owner_write); linked.clear(); break;
    case 8: case 9:
        target = kind == 8 ? path : dir + "/c/pipe";
        if (mkfifo(target.c_str(), 0600) != 0 || (pipe = open(target.c_str(), O_RDWR | O_NONBLOCK)) < 0)
            mc::fail("harness", "no pipe");
        if (kind == 9)
            fs::create_symlink("../c/pipe", path);
        else
            linked.clear();
        break;
    case 11: old(target); fs::create_directory_symlink("a/b", dir + "/d"); old(dir + "/network.snn"); path = dir + "/d/../network.snn"; linked = {dir + "/d"}; break;
    default: old(path); fs::permissions(path, fs::perms::owner_read | fs::perms::group_read | fs::perms::owner_write); linked.clear(); break;
    }
    const auto names = [&]
    {
        std::vector<std::string> r;
        for (const auto& e : fs::recursive_directory_iterator(dir))
            r.push_back(e.path().string());
        std::sort(r.begin(), r.end());
        return r;
    };
    auto expected = names();
    std::error_code none;
    const auto mode = fs::status(target, none).permissions();
    std::unique_ptr<Net> net;
    for (int i = 0; i < saves; ++i)
    {
        net = build(which, 5 + i);
        const bool thrown = throws([&] { save(*net, way, path); });
        MC_CHECK(thrown == (kind == 6), "save", "%s: the save %s", what.c_str(), thrown ? "fails" : "does not fail");
        mc::step();
        if (pipe >= 0)
        {
            std::string text(1 << 16, ' ');
            const ssize_t n = read(pipe, text.data(), text.size());
            MC_CHECK(n > 100 && fs::is_fifo(fs::symlink_status(target)), "pipe", "%s: the network is not written in the pipe", what.c_str());
            text.resize(n);
            if (way == SAVE_AS)
            {
                writeFile(mc::scratchDir() + "/piped.snn", text);
                MC_CHECK(*load(mc::scratchDir() + "/piped.snn") == *net, "pipe", "%s: another network is written in the pipe", what.c_str());
            }
        }
    }
    for (const auto& l : linked)
        MC_CHECK(fs::is_symlink(l), "link", "%s: the link %s is replaced by a file", what.c_str(), l.c_str());
    if (kind == 2)
    {
        expected.push_back(target);
        std::sort(expected.begin(), expected.end());
    }
    MC_CHECK(names() == expected, "files", "%s: other files are created or lost", what.c_str());
    if (kind == 7 || kind == 10)
        MC_CHECK(fs::status(path).permissions() == mode, "permissions", "%s: the permissions of the file change", what.c_str());
    if (kind != 6 && pipe < 0)
    {
        MC_CHECK(same(weights(*load(target)), weights(*net)) || way == TRAIN_AND_SAVE, "network", "%s: the target is not the network", what.c_str());
        MC_CHECK(readFile(path) == readFile(target), "network", "%s: the path is not the target", what.c_str());
        (void)load(path);
    }
    if (kind == 11)
        MC_CHECK(same(weights(*load(dir + "/network.snn")), weights(*build(which, 4))), "files", "%s: another network is overwritten", what.c_str());
    if (pipe >= 0)
        close(pipe);
    mc::outcome(kind);
    mc::state(mc::hash(what));
}
