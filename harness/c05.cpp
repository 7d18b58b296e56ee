// C05: a wait expression is over exactly when its conditions hold, and the calls which wait end at that moment.
#define MC_MAIN
#define MC_CONTROL_RNG
#include "clock.hpp"
#include "grammar.hpp"
using namespace grammar;
using namespace snn;
using snn::Wait;

struct Literal
{
    const char* text;
    int type; // 0 epochs, 1 accuracy, 2 mae, 3 duration
    double value; // of the duration: milliseconds
    Wait wait;
};

static const std::vector<Literal>& literals()
{
    static const std::vector<Literal> r = {{"1_ep", 0, 1, 1_ep}, {"3_ep", 0, 3, 3_ep}, {"0.3_acc", 1, 0.3f, 0.3_acc}, {"0.75_acc", 1, 0.75f, 0.75_acc},
        {"0.1_mae", 2, 0.1f, 0.1_mae}, {"1.5_mae", 2, 1.5f, 1.5_mae}, {"20_ms", 3, 20, 20_ms}, {"1_s", 3, 1000, 1_s},
        {"0_ep", 0, 0, 0_ep}, {"0.0_acc", 1, 0, 0.0_acc}, {"0.0_mae", 2, 0, 0.0_mae}, {"0_ms", 3, 0, 0_ms}, {"1_min", 3, 60000, 1_min}};
    return r;
}

static bool holds(const Literal& l, int epoch, float accuracy, float mae, double ms)
{
    switch (l.type)
    {
    case 0: return epoch > 0 && epoch > l.value; // the number of finished epochs
    case 1: return accuracy >= 0 && accuracy >= (float)l.value;
    case 2: return mae >= 0 && mae <= (float)l.value;
    default: return ms >= l.value;
    }
}

static void judge(Wait& w, const std::vector<const Literal*>& ls, bool isAnd, const std::string& what,
                  const std::vector<double>& times = {0, 19.999999, 20, 999.9, 1000, 60000})
{
    vclock::now = 5000000000ll;
    w.startClock();
    const std::vector<float> accuracies = {-1, 0, std::nextafter(0.3f, 0.0f), 0.3f, 0.6f, 0.75f, 1};
    const std::vector<float> maes = {-1, 0, 0.1f, std::nextafter(0.1f, 1.0f), 1.5f, 2};
    for (int epoch = 0; epoch <= 4; ++epoch)
        for (float a : accuracies)
            for (float m : maes)
                for (double t : times)
                {
                    vclock::now = 5000000000ll + (int64_t)std::llround(t * 1e6);
                    bool expected = isAnd;
                    for (auto* l : ls)
                        expected = isAnd ? expected && holds(*l, epoch, a, m, t) : expected || holds(*l, epoch, a, m, t);
                    const bool got = w.isOver(epoch, a, m);
                    MC_CHECK(got == expected, "condition", "%s is %sover with epoch %d accuracy %.9g mae %.9g time %g ms", what.c_str(), got ? "" : "not ", epoch, a, m, t);
                }
    mc::step(5 * 7 * 6 * (int64_t)times.size());
}

MC_SCENARIO(expressions) // every expression with up to 3 or 4 literals, both operators, both associations
{
    const int count = mc::choose(mc::thorough() ? 5 : 4);
    std::vector<const Literal*> ls;
    std::vector<Wait> ws;
    std::string what;
    std::vector<int> ops;
    for (int i = 0; i < count; ++i)
    {
        if (i > 0)
        {
            ops.push_back(mc::choose(2));
            what += ops.back() ? " && " : " || ";
        }
        const int limit = count == 4 ? 8 : (int)literals().size();
        ls.push_back(&literals()[mc::choose(limit)]);
        ws.push_back(ls.back()->wait);
        what += ls.back()->text;
    }
    const bool right = count >= 3 && mc::flag(); // a op (b op c)
    what += right ? " (from the right)" : "";
    mc::note("%s", what.c_str());
    mc::state(mc::hash(what));
    bool mixed = false;
    for (int o : ops)
        mixed |= o != ops[0];
    if (count == 0) // never over
    {
        Wait w;
        judge(w, ls, false, "Wait()");
        return;
    }
    Wait result;
    const bool rejected = throws<std::runtime_error>([&]
    {
        const auto combine = [&](Wait& a, const Wait& b, int op) { return op ? a && b : a || b; };
        if (right)
        {
            result = ws.back();
            for (int i = count - 2; i >= 0; --i)
                result = combine(ws[i], result, ops[i]);
        }
        else
        {
            result = ws[0];
            for (int i = 1; i < count; ++i)
                result = combine(result, ws[i], ops[i - 1]);
        }
    });
    MC_CHECK(rejected == mixed, "mix", "%s is %s", what.c_str(), rejected ? "rejected" : "accepted");
    mc::step();
    mc::outcome(rejected);
    if (!rejected)
        judge(result, ls, count > 1 && ops[0] == 1, what);
}

MC_SCENARIO(large) // large numbers, and waits of weeks
{
    static const std::vector<Literal> big = {{"4294967296_ep", 0, 4294967296.0, 4294967296_ep}, {"3000000000_ep", 0, 3000000000.0, 3000000000_ep},
        {"2160000000_ms", 3, 2160000000.0, 2160000000_ms}, {"4294967297_ms", 3, 4294967297.0, 4294967297_ms}, {"3000000_s", 3, 3000000000.0, 3000000_s},
        {"50000_min", 3, 3000000000.0, 50000_min}, {"71583_min", 3, 4294980000.0, 71583_min}, {"35791_min", 3, 2147460000.0, 35791_min}};
    const double day = 86400000.0;
    const std::vector<double> times = {0, 20, 20000, 60000, 24 * day, 2160000000.0 - 1, 2160000000.0, 3000000000.0 - 1, 3000000000.0, 4294980000.0 - 1, 4294980000.0, 60 * day, 90 * day};
    std::vector<const Literal*> ls;
    Wait w;
    std::string what;
    const int count = 1 + mc::choose(2);
    const bool isAnd = count > 1 && mc::flag();
    for (int i = 0; i < count; ++i)
    {
        const int all = (int)(big.size() + literals().size());
        const int l = mc::choose(all);
        ls.push_back(l < (int)big.size() ? &big[l] : &literals()[l - (int)big.size()]);
        Wait next = ls.back()->wait;
        w = i == 0 ? next : isAnd ? w && next : w || next;
        what += std::string(i ? isAnd ? " && " : " || " : "") + ls.back()->text;
    }
    mc::note("%s", what.c_str());
    mc::state(mc::hash(what));
    judge(w, ls, isAnd, what, times);
}

static std::unique_ptr<Data> someData(int size)
{
    VV X, Y;
    for (int i = 0; i < size; ++i)
    {
        X.push_back(values(i, 2));
        Y.push_back(values(30 + i, 1));
    }
    return std::make_unique<Data>(problem::regression, X, Y);
}

MC_SCENARIO(training_time) // a training with a duration ends at the first check after the duration
{
    rng::alternatives = 0;
    rng::counter = 0;
    ArchSpec a;
    a.input = {2};
    a.layers = {{FC, 1, 1, activation::tanh}};
    auto net = make(a);
    setWeights(*net, 1);
    const int size = 1 + mc::choose(4), frequency = mc::choose(3);
    const int64_t perRead = mc::pick(std::vector<int64_t>{300000, 1000000, 7000000, 50000000, 1000000000, 30 * 86400000000000ll});
    const Literal& l = literals()[mc::pick(std::vector<int>{6, 7, 11})];
    const bool two = mc::flag();
    auto data = someData(size);
    vclock::now = 1000000000ll;
    vclock::perRead = perRead;
    Wait w = l.wait;
    if (two)
        w = w || 1000000_ep;
    const int64_t start = vclock::now;
    vclock::reads = 0;
    net->train(*data, w, 1, frequency);
    const int64_t elapsed = vclock::now - start;
    vclock::perRead = 0;
    mc::step();
    const auto what = mc::format("%s, %ld ns between two reads of the clock, %d data, frequency %d: %ld ns", l.text, (long)perRead, size, frequency, (long)elapsed);
    mc::note("%s", what.c_str());
    MC_CHECK(elapsed >= l.value * 1e6, "too early", "%s", what.c_str());
    // the condition is read at least once for each data: no more than a few reads after it holds
    MC_CHECK(elapsed <= l.value * 1e6 + 12 * perRead, "too late", "%s", what.c_str());
    MC_CHECK(!net->isTraining(), "idle", "%s", what.c_str());
    mc::state(mc::hash(what));
    mc::outcome(net->getNumberOfTraining());
}

MC_SCENARIO(wait_for) // on a network which is not training, waitFor ends when the condition holds
{
    rng::alternatives = 0;
    rng::counter = 0;
    ArchSpec a;
    a.input = {2};
    a.layers = {{FC, 1, 1, activation::identity}};
    auto net = make(a);
    setNeuronWeights(*net, 0, 0, {1.0f, 0.0f, 0.0f});
    const int state = mc::choose(5); // never evaluated, evaluated, not a number, evaluated better before, evaluated worse before
    VV X = {{0.5f, 0.0f}, {0.0f, 1.0f}}, Y = {{0.5f}, {0.4f}}; // accuracy 0.5, mae 0.2
    Data data(problem::regression, X, Y);
    if (state > 2)
    {
        setNeuronWeights(*net, 0, 0, state == 3 ? V{1.0f, 0.4f, 0.0f} : V{9.0f, 9.0f, 9.0f});
        net->evaluate(data);
        setNeuronWeights(*net, 0, 0, {1.0f, 0.0f, 0.0f});
    }
    if (state != 0 && state != 2)
        net->evaluate(data);
    const int epochs = mc::choose(3);
    if (epochs > 0)
    {
        setNeuronWeights(*net, 0, 0, {1.0f, 0.0f, 0.0f});
        Wait e;
        e.epochs = epochs - 1;
        net->train(data, e, 1, 0);
    }
    if (state == 2)
        (void)net->computeOutput({INFINITY, 0.0f});
    const int count = 1 + mc::choose(2);
    const bool isAnd = count > 1 && mc::flag();
    std::vector<const Literal*> ls;
    Wait w;
    std::string what;
    for (int i = 0; i < count; ++i)
    {
        ls.push_back(&literals()[mc::choose((int)literals().size())]);
        Wait l = ls.back()->wait;
        if (i == 0)
            w = l;
        else
            w = isAnd ? w && l : w || l;
        what += std::string(i ? isAnd ? " && " : " || " : "") + ls.back()->text;
    }
    const auto accuracy = net->getGlobalClusteringRate();
    const auto mae = net->getMeanAbsoluteError();
    const int epoch = net->getCurrentEpoch();
    const auto isOver = [&](double ms)
    {
        bool r = isAnd;
        for (auto* l : ls)
            r = isAnd ? r && holds(*l, epoch, accuracy, mae, ms) : r || holds(*l, epoch, accuracy, mae, ms);
        return r;
    };
    const bool ends = state == 2 || isOver(1e9);
    if (!ends)
        return; // nothing changes: it would wait for ever
    vclock::now = 1000000000ll;
    const int64_t start = vclock::now;
    net->waitFor(w);
    const double ms = (vclock::now - start) / 1e6;
    mc::step();
    what += mc::format(" with epoch %d accuracy %g mae %g: waits %g ms", epoch, accuracy, mae, ms);
    mc::note("%s", what.c_str());
    if (state == 2)
        MC_CHECK(ms <= 1, "nan", "%s", what.c_str());
    else
    {
        MC_CHECK(isOver(ms), "too early", "%s", what.c_str());
        MC_CHECK(ms <= 5 || !isOver(ms - 5), "too late", "%s", what.c_str());
    }
    mc::state(mc::hash(what));
}

// The user or a time server sets the date of the system in the middle of a wait: the durations are the elapsed times.
struct DateIsSet
{
    DateIsSet(int64_t jump, int64_t at)
    {
        vclock::date = 0;
        vclock::jump = jump;
        vclock::jumpAt = at;
        vclock::reads = 0;
    }
    ~DateIsSet()
    {
        vclock::date = vclock::jump = 0;
        vclock::jumpAt = -1;
    }
};

MC_SCENARIO(date_changes_while_training)
{
    rng::alternatives = 0;
    rng::counter = 0;
    ArchSpec a;
    a.input = {2};
    a.layers = {{FC, 1, 1, activation::tanh}};
    auto net = make(a);
    setWeights(*net, 1);
    const int size = 1 + mc::choose(2), frequency = mc::choose(2);
    const Literal& l = literals()[mc::pick(std::vector<int>{6, 7, 11})];
    const int64_t jump = mc::pick(std::vector<int64_t>{-3600000, -500, -10, 10, 500, 3600000}) * 1000000;
    const int at = mc::choose(mc::thorough() ? 60 : 20);
    auto data = someData(size);
    Wait w = l.wait;
    w = w || 2000_ep; // the date which goes back must not make it endless
    vclock::now = 1000000000ll;
    vclock::perRead = 3000000;
    const int64_t start = vclock::now;
    DateIsSet set(jump, at);
    net->train(*data, w, 1, frequency);
    const int64_t elapsed = vclock::now - start;
    vclock::perRead = 0;
    mc::step();
    const auto what = mc::format("%s, date changed by %ld ms at the read %d of the clock, %d data, frequency %d: %ld ns", l.text, (long)(jump / 1000000), at, size, frequency, (long)elapsed);
    mc::note("%s", what.c_str());
    MC_CHECK(elapsed >= l.value * 1e6, "too early", "%s", what.c_str());
    MC_CHECK(elapsed <= l.value * 1e6 + 12 * 3000000, "too late", "%s", what.c_str());
    mc::state(mc::hash(what));
    mc::outcome(net->getNumberOfTraining());
}

MC_SCENARIO(date_changes_while_waiting)
{
    rng::alternatives = 0;
    rng::counter = 0;
    ArchSpec a;
    a.input = {2};
    a.layers = {{FC, 1, 1, activation::tanh}};
    auto net = make(a);
    const Literal& l = literals()[mc::pick(std::vector<int>{6, 7, 11})];
    const int64_t jump = mc::pick(std::vector<int64_t>{-5000, -500, -10, 10, 500, 3600000}) * 1000000;
    const int at = mc::choose(mc::thorough() ? 60 : 20);
    vclock::now = 1000000000ll;
    const int64_t start = vclock::now;
    DateIsSet set(jump, at);
    net->waitFor(l.wait);
    const double ms = (vclock::now - start) / 1e6;
    mc::step();
    const auto what = mc::format("waitFor(%s), date changed by %ld ms at the read %d of the clock: %g ms", l.text, (long)(jump / 1000000), at, ms);
    mc::note("%s", what.c_str());
    MC_CHECK(ms >= l.value, "too early", "%s", what.c_str());
    MC_CHECK(ms <= l.value + 5, "too late", "%s", what.c_str());
    mc::state(mc::hash(what));
    mc::outcome(ms);
}

MC_SCENARIO(chronometer) // the durations which are logged: every sequence of operations, also with breaks of weeks and changes of the date
{
    const int depth = mc::thorough() ? 5 : 4;
    Wait w;
    vclock::now = 7000000000ll;
    vclock::perRead = 0;
    DateIsSet set(mc::pick(std::vector<int64_t>{0, -3600000, 3600000}) * 1000000, 2);
    w.startClock();
    int64_t tick = vclock::now, reset = vclock::now;
    std::string what;
    for (int i = 0; i < depth; ++i)
    {
        const int64_t pause = mc::pick(std::vector<int64_t>{0, 101, 2592000000});
        vclock::now += pause * 1000000;
        const int op = mc::choose(4);
        what += mc::format("%s+%ld ms %s", i ? ", " : "", (long)pause, std::vector<const char*>{"tick", "getDuration", "getDurationAndReset", "startClock"}[op]);
        const double sinceTick = (vclock::now - tick) / 1e6, sinceReset = (vclock::now - reset) / 1e6;
        mc::step();
        if (op == 0)
        {
            const double got = (double)w.tick();
            MC_CHECK(got == sinceTick, "tick", "%s: %.0f ms", what.c_str(), got);
        }
        else if (op == 3)
            w.startClock();
        else
        {
            const float got = op == 1 ? w.getDuration() : w.getDurationAndReset();
            MC_CHECK(std::abs(got - sinceReset / 1000) <= 1e-6 * sinceReset / 1000, "duration", "%s: %.9g s", what.c_str(), got);
        }
        if (op != 0)
            tick = vclock::now;
        if (op > 1)
            reset = vclock::now;
    }
    mc::note("%s", what.c_str());
    mc::state(mc::hash(what));
    mc::outcome(mc::format("%ld %ld", (long)(vclock::now - tick), (long)(vclock::now - reset)));
}
