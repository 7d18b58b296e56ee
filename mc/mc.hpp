// Bounded exhaustive explorer (stateless depth-first search over recorded choices).
//
// A scenario is a deterministic function of the values returned by mc::choose(). The explorer runs it once for every
// reachable sequence of choices: a sequence is extended with choice 0 until the scenario ends, then the last choice
// which has an untried alternative is advanced. 8 worker processes share the tree by the hash of their first choices.
// A crash, an abort, a sanitizer report or a hang of a worker is attributed to the choices in progress.
#pragma once
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc
{
    struct Failure
    {
        std::string signature, message;
    };

    struct Prune
    {
    };

    constexpr int MAX_PATH = 1 << 16;
    constexpr int MAX_TEXT = 1 << 16;

    struct Shared // one per worker, visible by the worker, its children and the parent
    {
        volatile int length; // number of recorded choices
        volatile int position; // number of choices done by the current execution
        int n[MAX_PATH];
        int choice[MAX_PATH];
        volatile int64_t executions, transitions, pruned, checks;
        volatile double started; // of the current execution
        volatile int running;
        volatile int failed; // set by a forked execution
        volatile int nondeterminism;
        volatile int notOwned; // set by a forked execution which another worker explores
        volatile int findingCount; // findings of a forked execution
        char signature[512];
        char message[MAX_TEXT];
        char findings[MAX_TEXT];
        char note[MAX_TEXT];
        volatile int noteLength;
        volatile int outcomeCount;
        uint64_t outcomes[4096];
        volatile int stateCount;
        uint64_t states[65536];
    };

    struct Scenario
    {
        const char* name;
        std::function<void()> body;
        bool thoroughOnly;
        bool forked;
        int splitDepth;
    };

    struct Global
    {
        std::vector<Scenario> scenarios;
        Shared* sh = nullptr;
        int worker = 0, workers = 1;
        bool replay = false, thorough = false, child = false, forkedBody = false;
        int onlyWorker = -1;
        int split = 2;
        bool owned = true;
        std::string scratch;
        double executionLimit = 30;
        void (*onFailure)(const std::string&, const std::string&) = nullptr; // ends the process
        std::unordered_set<uint64_t> states, outcomes;
        std::map<std::string, std::pair<int64_t, std::string>> findings; // signature -> count, first message
        std::vector<std::string> samples;
        std::string onlyScenario;
    };

    inline Global g;

    inline double now()
    {
        timespec t;
        clock_gettime(CLOCK_MONOTONIC, &t);
        return t.tv_sec + t.tv_nsec * 1e-9;
    }

    inline bool thorough() { return g.thorough; }

    struct Register
    {
        Register(const char* name, std::function<void()> body, bool thoroughOnly = false, bool forked = false, int split = 2)
        {
            g.scenarios.push_back({name, std::move(body), thoroughOnly, forked, split});
        }
    };
#define MC_SCENARIO(name) static void scenario_##name(); static mc::Register register_##name(#name, scenario_##name); static void scenario_##name()
#define MC_SCENARIO_SPLIT(name, split) static void scenario_##name(); static mc::Register register_##name(#name, scenario_##name, false, false, split); static void scenario_##name()
#define MC_SCENARIO_THOROUGH(name) static void scenario_##name(); static mc::Register register_##name(#name, scenario_##name, true); static void scenario_##name()
#define MC_SCENARIO_THREADS(name) static void scenario_##name(); static mc::Register register_##name(#name, scenario_##name, false, true, 0); static void scenario_##name() // see sched.hpp
#define MC_SCENARIO_FORKED(name) static void scenario_##name(); static mc::Register register_##name(#name, scenario_##name, false, true); static void scenario_##name()

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        return h ^ (h >> 32);
    }

    inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
    {
        const auto* b = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; ++i)
            h = (h ^ b[i]) * 1099511628211ull;
        return h;
    }

    inline uint64_t hash(const std::string& s) { return hashBytes(s.data(), s.size()); }
    inline uint64_t hash(const std::vector<float>& v, uint64_t h = 7) { return mix(h, hashBytes(v.data(), v.size() * sizeof(float))); }

    inline void note(const char* format, ...) __attribute__((format(printf, 1, 2)));
    inline void note(const char* format, ...) // description of the current execution, for samples and replays
    {
        const int l = g.sh->noteLength;
        if (l > MAX_TEXT - 300)
            return;
        va_list args;
        va_start(args, format);
        const int w = vsnprintf(g.sh->note + l, MAX_TEXT - l, format, args);
        va_end(args);
        if (w > 0)
            g.sh->noteLength = std::min(l + w, MAX_TEXT - 1);
    }

    inline std::string format(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    inline std::string format(const char* fmt, ...)
    {
        char buffer[4096];
        va_list args;
        va_start(args, fmt);
        vsnprintf(buffer, sizeof buffer, fmt, args);
        va_end(args);
        return buffer;
    }

    [[noreturn]] inline void fail(const std::string& signature, const std::string& message)
    {
        if (g.onFailure)
            g.onFailure(signature, message);
        throw Failure{signature, message};
    }

    inline void step(int64_t n = 1) { g.sh->transitions += n; } // a transition of the system under exploration
    // an evaluation of an oracle, in any thread (not instrumented: it is no access of the library)
    __attribute__((no_sanitize("thread"), noinline)) inline void checked(int64_t n = 1) { __atomic_fetch_add(&g.sh->checks, n, __ATOMIC_RELAXED); }

    inline void state(uint64_t h)
    {
        if (g.child)
        {
            if (g.sh->stateCount < 65536)
                g.sh->states[g.sh->stateCount++] = h;
        }
        else
            g.states.insert(h);
    }

    inline void outcome(uint64_t h)
    {
        if (g.child)
        {
            if (g.sh->outcomeCount < 4096)
                g.sh->outcomes[g.sh->outcomeCount++] = h;
        }
        else
            g.outcomes.insert(h);
    }

    inline void outcome(const std::string& s) { outcome(hash(s)); }

    // A deviation which a defect model of the harness explains exactly. The runner accepts it only when its signature is
    // in the known findings file.
    inline void finding(const std::string& signature, const std::string& message)
    {
        if (g.child)
        {
            auto& s = *g.sh;
            const size_t l = strlen(s.findings);
            snprintf(s.findings + l, MAX_TEXT - l, "%s\t%s\n", signature.c_str(), message.c_str());
            s.findingCount++;
            return;
        }
        auto& f = g.findings[signature];
        if (f.first++ == 0)
            f.second = message;
    }

#define MC_CHECK(condition, signature, ...) do { mc::checked(); if (!(condition)) mc::fail(signature, mc::format(__VA_ARGS__)); } while (0)

    inline uint64_t ownerHash(int depth)
    {
        uint64_t h = 99;
        for (int i = 0; i < depth; ++i)
            h = mix(h, g.sh->choice[i] + 1);
        return h;
    }

    inline int choose(int n)
    {
        auto& s = *g.sh;
        if (n < 1)
            fail("harness", "choose() without alternative");
        const int p = s.position;
        if (p >= MAX_PATH)
            fail("harness", "too many choices");
        int c;
        if (p < s.length)
        {
            if (s.n[p] == -1 && s.choice[p] < n) // replay of a recorded path
                s.n[p] = n;
            if (s.n[p] != n)
            {
                s.nondeterminism = 1;
                fail("nondeterminism", format("the replay of choice %d has %d alternatives instead of %d", p, n, s.n[p]));
            }
            c = s.choice[p];
        }
        else
        {
            s.n[p] = n;
            s.choice[p] = c = 0;
            s.length = p + 1;
        }
        s.position = p + 1;
        if (!g.replay && s.position == g.split && (!g.child || g.forkedBody))
        {
            if ((int)(ownerHash(g.split) % g.workers) != g.worker)
                throw Prune();
        }
        return c;
    }

    template <class T>
    const T& pick(const std::vector<T>& v) { return v[choose(static_cast<int>(v.size()))]; }

    inline bool flag() { return choose(2) == 1; }

    // Runs f in a child process. Returns its wait status. The child ends with _exit(f()).
    inline int inChild(const std::function<int()>& f, double limit = 20)
    {
        fflush(nullptr);
        const pid_t pid = fork();
        if (pid == 0)
        {
            g.child = true;
            int r = 97;
            try { r = f(); }
            catch (const Prune&)
            {
                g.sh->notOwned = 1;
                r = 0;
            }
            catch (const Failure& e)
            {
                g.sh->failed = 1;
                snprintf(g.sh->signature, sizeof g.sh->signature, "%s", e.signature.c_str());
                snprintf(g.sh->message, MAX_TEXT, "%s", e.message.c_str());
            }
            _exit(r);
        }
        const double end = now() + limit;
        int status;
        for (int i = 0;; ++i)
        {
            const pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid)
                return status;
            if (now() > end)
            {
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                return -1; // hang
            }
            usleep(i < 50 ? 100 : 1000);
        }
    }

    inline std::string scratchDir() // private to this worker
    {
        return g.scratch;
    }

    struct Found
    {
        std::string scenario, signature, message, note;
        std::vector<int> path;
        int worker = 0;
    };

    inline void resetExecution()
    {
        auto& s = *g.sh;
        s.position = 0;
        s.failed = 0;
        s.nondeterminism = 0;
        s.notOwned = 0;
        s.findingCount = 0;
        s.findings[0] = 0;
        s.note[0] = 0;
        s.noteLength = 0;
        s.outcomeCount = 0;
        s.stateCount = 0;
    }

    inline std::vector<Scenario*> enabledScenarios()
    {
        std::vector<Scenario*> r;
        for (auto& s : g.scenarios)
            if ((!s.thoroughOnly || g.thorough) && (g.onlyScenario.empty() || g.onlyScenario == s.name))
                r.push_back(&s);
        return r;
    }

    // Runs one execution of a scenario. Returns true when it was explored (not pruned), with its failure if any.
    inline bool execute(Scenario& scenario, bool& hasFailed, Failure& failure)
    {
        auto& s = *g.sh;
        resetExecution();
        hasFailed = false;
        s.started = now();
        s.running = 1;
        g.split = scenario.splitDepth;
        bool explored = true;
        if (scenario.forked)
        {
            const int status = inChild([&]
            {
                g.forkedBody = true;
                try { scenario.body(); }
                catch (const Failure&) { throw; }
                catch (const Prune&) { throw; }
                catch (const std::exception& e) { fail("exception", std::string("unexpected exception: ") + e.what()); }
                return 0;
            }, g.executionLimit);
            if (s.notOwned)
                explored = false;
            else if (s.failed)
            {
                hasFailed = true;
                failure = {s.signature, s.message};
            }
            else if (status == -1)
            {
                hasFailed = true;
                failure = {"hang", "the execution did not end"};
            }
            else if (!WIFEXITED(status) || WEXITSTATUS(status) != 0)
            {
                hasFailed = true;
                failure = {"crash", WIFSIGNALED(status) ? format("killed by signal %d", WTERMSIG(status)) : format("exit code %d", WEXITSTATUS(status))};
            }
            for (int i = 0; i < s.outcomeCount; ++i)
                g.outcomes.insert(s.outcomes[i]);
            for (int i = 0; i < s.stateCount; ++i)
                g.states.insert(s.states[i]);
            std::istringstream lines(s.findings);
            for (std::string line; std::getline(lines, line);)
            {
                const auto tab = line.find('\t');
                if (tab != std::string::npos)
                    finding(line.substr(0, tab), line.substr(tab + 1));
            }
        }
        else
        {
            try { scenario.body(); }
            catch (const Failure& e) { hasFailed = true; failure = e; }
            catch (const Prune&) { explored = false; }
            catch (const std::exception& e)
            {
                hasFailed = true;
                failure = {"exception", std::string("unexpected exception ") + typeid(e).name() + ": " + e.what()};
            }
        }
        s.running = 0;
        s.length = s.position;
        if (explored && !g.replay)
        {
            const int depth = std::min((int)s.position, (int)g.split);
            if (s.position < g.split && (int)(ownerHash(depth) % g.workers) != g.worker)
                explored = false; // explored by another worker
        }
        return explored;
    }

    inline bool advance() // next path in depth first order
    {
        auto& s = *g.sh;
        int l = s.length;
        while (l > 0 && s.choice[l - 1] + 1 >= s.n[l - 1])
            --l;
        if (l == 0)
            return false;
        s.choice[l - 1]++;
        s.length = l;
        return true;
    }

    inline std::string escape(const std::string& in)
    {
        std::string out;
        for (unsigned char c : in)
        {
            if (c == '"' || c == '\\') { out += '\\'; out += c; }
            else if (c == '\n') out += "\\n";
            else if (c < 32 || c > 126) out += format("\\u%04x", c);
            else out += c;
        }
        return out;
    }

    inline std::string pathText()
    {
        std::string r;
        for (int i = 0; i < g.sh->length; ++i)
            r += (i ? " " : "") + std::to_string(g.sh->choice[i]);
        return r;
    }

    inline void writeWorker(const std::string& file, const std::vector<Found>& found, bool capped)
    {
        std::ofstream o(file);
        for (const auto& f : found)
        {
            o << "F\t" << escape(f.scenario) << '\t' << escape(f.signature) << '\t' << escape(f.message) << '\t' << escape(f.note) << '\t';
            for (size_t i = 0; i < f.path.size(); ++i)
                o << (i ? " " : "") << f.path[i];
            o << '\n';
        }
        for (const auto& [signature, f] : g.findings)
            o << "K\t" << escape(signature) << '\t' << f.first << '\t' << escape(f.second) << '\n';
        for (const auto& s : g.samples)
            o << "S\t" << escape(s) << '\n';
        if (capped)
            o << "C\n";
        std::ofstream b(file + ".bin", std::ios::binary);
        const uint64_t sizes[2] = {g.states.size(), g.outcomes.size()};
        b.write(reinterpret_cast<const char*>(sizes), sizeof sizes);
        for (auto h : g.states)
            b.write(reinterpret_cast<const char*>(&h), sizeof h);
        for (auto h : g.outcomes)
            b.write(reinterpret_cast<const char*>(&h), sizeof h);
    }

    // control of the clock limit of the exploration
    inline double deadline = 0;

    // Explores the scenarios from the scenario number `first`; when `resume`, the shared path is the last one already done.
    inline void work(int first, bool resume, const std::string& file)
    {
        auto scenarios = enabledScenarios();
        std::vector<Found> found;
        bool capped = false;
        for (size_t i = first; i < scenarios.size() && !capped; ++i)
        {
            auto& s = *g.sh;
            g.split = scenarios[i]->splitDepth;
            if (resume)
            {
                resume = false;
                if (!advance())
                    continue;
            }
            else
                s.length = 0;
            *reinterpret_cast<volatile int*>(&s.failed) = 0;
            std::ofstream(file + ".scenario") << i;
            for (;;)
            {
                bool hasFailed;
                Failure failure;
                const bool explored = execute(*scenarios[i], hasFailed, failure);
                if (explored)
                {
                    s.executions++;
                    if (g.samples.size() < 2 || (s.executions & (s.executions - 1)) == 0)
                    {
                        if (g.samples.size() >= 6)
                            g.samples.erase(g.samples.begin() + 2);
                        g.samples.push_back(std::string(scenarios[i]->name) + " [" + pathText().substr(0, 400) + "] " + std::string(s.note).substr(0, 900));
                    }
                    if (hasFailed)
                    {
                        Found f{scenarios[i]->name, failure.signature, failure.message, s.note, {}};
                        f.path.assign(s.choice, s.choice + s.length);
                        int same = 0;
                        for (auto& o : found)
                            same += o.signature == f.signature;
                        if (same < 2)
                            found.push_back(f);
                        if (found.size() >= 6)
                        {
                            writeWorker(file, found, true);
                            _exit(0);
                        }
                    }
                }
                else
                    s.pruned++;
                if (!advance())
                    break;
                if (deadline > 0 && now() > deadline)
                {
                    capped = true;
                    break;
                }
            }
        }
        writeWorker(file, found, capped);
    }

    inline int main(int argc, char** argv)
    {
        std::string out, replayScenario, replayPath, scratch = "/tmp";
        double budget = 300;
        int workers = 8;
        for (int i = 1; i < argc; ++i)
        {
            const std::string a = argv[i];
            const auto value = [&] { return std::string(argv[++i]); };
            if (a == "--out") out = value();
            else if (a == "--thorough") g.thorough = true;
            else if (a == "--scratch") scratch = value();
            else if (a == "--budget") budget = std::stod(value());
            else if (a == "--workers") workers = std::stoi(value());
            else if (a == "--scenario") g.onlyScenario = value();
            else if (a == "--limit") g.executionLimit = std::stod(value());
            else if (a == "--only-worker") g.onlyWorker = std::stoi(value()); // the same executions in the same order as this worker
            else if (a == "--replay") { replayScenario = value(); replayPath = value(); }
        }
        std::vector<Shared*> shared;
        for (int w = 0; w < workers; ++w)
        {
            void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            shared.push_back(static_cast<Shared*>(p));
        }
        if (!replayScenario.empty())
        {
            g.sh = shared[0];
            g.replay = true;
            g.thorough = true; // every scenario
            g.scratch = scratch;
            const char* tier = getenv("VERIF_TIER");
            g.thorough = tier && std::string(tier) == "thorough";
            std::istringstream is(replayPath);
            int c, l = 0;
            std::vector<int> choices;
            while (is >> c)
                choices.push_back(c);
            // the number of alternatives is unknown: filled by a first run with unchecked values
            for (auto& s : g.scenarios)
                if (replayScenario == s.name)
                {
                    for (int v : choices)
                    {
                        g.sh->choice[l] = v;
                        g.sh->n[l++] = -1;
                    }
                    g.sh->length = l;
                    bool hasFailed;
                    Failure failure;
                    // accept any number of alternatives
                    execute(s, hasFailed, failure);
                    for (auto& [k, v] : g.findings)
                        printf("FINDING %s: %s\n", k.c_str(), v.second.c_str());
                    printf("%s\n", g.sh->note);
                    if (hasFailed)
                    {
                        printf("REPLAY-FAILED %s: %s\n", failure.signature.c_str(), failure.message.c_str());
                        return 1;
                    }
                    printf("REPLAY-OK\n");
                    return 0;
                }
            printf("unknown scenario\n");
            return 2;
        }
        const double start = now();
        deadline = start + budget;
        std::vector<pid_t> pids(workers, 0);
        std::vector<int> restart(workers, 0);
        std::vector<Found> crashes;
        std::vector<std::pair<std::string, int>> parts;
        const auto scenarios = enabledScenarios();
        const auto spawn = [&](int w, int first, bool resume)
        {
            const std::string file = scratch + "/worker" + std::to_string(w) + "_" + std::to_string(restart[w]);
            parts.push_back({file, w});
            std::ofstream(file + ".scenario") << first;
            fflush(nullptr);
            const pid_t pid = fork();
            if (pid == 0)
            {
                g.sh = shared[w];
                g.worker = w;
                g.workers = workers;
                g.scratch = scratch + "/dir" + std::to_string(w);
                std::filesystem::create_directories(g.scratch);
                const int fd = open((file + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
                dup2(fd, 2);
                const int fo = open("/dev/null", O_WRONLY);
                dup2(fo, 1);
                work(first, resume, file);
                _exit(0);
            }
            pids[w] = pid;
        };
        int alive = 0;
        for (int w = 0; w < workers; ++w)
        {
            memset(shared[w], 0, offsetof(Shared, n));
            if (g.onlyWorker >= 0 && g.onlyWorker != w)
                continue;
            spawn(w, 0, false);
            ++alive;
        }
        bool stopped = false;
        int hangs = 0;
        while (alive > 0)
        {
            usleep(2000);
            for (int w = 0; w < workers; ++w)
            {
                if (pids[w] == 0)
                    continue;
                int status;
                const pid_t r = waitpid(pids[w], &status, WNOHANG);
                auto& s = *shared[w];
                bool dead = r == pids[w], hung = false;
                if (!dead && s.running && now() - s.started > g.executionLimit + 5)
                {
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &status, 0);
                    dead = hung = true;
                }
                if (!dead && now() > deadline + 60)
                {
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &status, 0);
                    pids[w] = 0;
                    --alive;
                    stopped = true;
                    continue;
                }
                if (!dead)
                    continue;
                pids[w] = 0;
                --alive;
                if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 0)
                    continue;
                const std::string file = scratch + "/worker" + std::to_string(w) + "_" + std::to_string(restart[w]);
                int first = 0;
                std::ifstream(file + ".scenario") >> first;
                std::ifstream err(file + ".err");
                std::string text((std::istreambuf_iterator<char>(err)), {});
                if (text.size() > 3000)
                    text = text.substr(0, 3000);
                Found f;
                f.scenario = scenarios[first]->name;
                f.signature = hung ? "hang" : "crash";
                f.message = hung ? "the execution did not end" : (WIFSIGNALED(status) ? format("killed by signal %d: ", WTERMSIG(status)) : format("exit code %d: ", WEXITSTATUS(status))) + text;
                f.note = std::string(s.note, s.noteLength);
                f.path.assign(s.choice, s.choice + s.length);
                f.worker = w;
                crashes.push_back(f);
                hangs += hung;
                if (crashes.size() >= 8 || hangs >= 4 || now() > deadline)
                    stopped = true;
                else
                {
                    restart[w]++;
                    s.length = std::max((int)s.position, 0);
                    spawn(w, first, true);
                    ++alive;
                }
            }
            if (stopped && (crashes.size() >= 8 || hangs >= 4))
                for (int w = 0; w < workers; ++w)
                    if (pids[w])
                    {
                        kill(pids[w], SIGKILL);
                        waitpid(pids[w], nullptr, 0);
                        pids[w] = 0;
                        --alive;
                    }
        }
        // merge
        int64_t executions = 0, transitions = 0, checks = 0;
        for (auto* s : shared)
        {
            executions += s->executions;
            transitions += s->transitions;
            checks += s->checks;
        }
        std::unordered_set<uint64_t> states, outcomes;
        std::ostringstream found, known, samples;
        bool capped = stopped;
        int nFound = 0, nKnown = 0, nSamples = 0;
        const auto addFound = [&](const std::string& scenario, const std::string& signature, const std::string& message, const std::string& note, const std::string& path, int worker)
        {
            found << (nFound++ ? ",\n" : "") << "{\"scenario\":\"" << scenario << "\",\"signature\":\"" << signature << "\",\"message\":\""
                << message << "\",\"note\":\"" << note << "\",\"worker\":" << worker << ",\"path\":\"" << path << "\"}";
        };
        for (const auto& f : crashes)
        {
            std::string p;
            for (size_t i = 0; i < f.path.size(); ++i)
                p += (i ? " " : "") + std::to_string(f.path[i]);
            addFound(escape(f.scenario), escape(f.signature), escape(f.message), escape(f.note), p, f.worker);
        }
        for (const auto& [file, worker] : parts)
        {
            std::ifstream in(file);
            std::string line;
            while (std::getline(in, line))
            {
                std::vector<std::string> t;
                std::string cell;
                std::istringstream ls(line);
                while (std::getline(ls, cell, '\t'))
                    t.push_back(cell);
                if (t.empty())
                    continue;
                if (t[0] == "F")
                {
                    t.resize(6);
                    addFound(t[1], t[2], t[3], t[4], t[5], worker);
                }
                else if (t[0] == "K" && t.size() >= 4)
                    known << (nKnown++ ? ",\n" : "") << "{\"signature\":\"" << t[1] << "\",\"count\":" << t[2] << ",\"message\":\"" << t[3] << "\"}";
                else if (t[0] == "S" && t.size() >= 2 && nSamples < 24)
                    samples << (nSamples++ ? ",\n" : "") << "\"" << t[1] << "\"";
                else if (t[0] == "C")
                    capped = true;
            }
            std::ifstream b(file + ".bin", std::ios::binary);
            uint64_t sizes[2] = {0, 0}, h;
            b.read(reinterpret_cast<char*>(sizes), sizeof sizes);
            for (uint64_t i = 0; i < sizes[0] && b.read(reinterpret_cast<char*>(&h), sizeof h); ++i)
                states.insert(h);
            for (uint64_t i = 0; i < sizes[1] && b.read(reinterpret_cast<char*>(&h), sizeof h); ++i)
                outcomes.insert(h);
        }
        std::ofstream o(out);
        o << "{\"executions\":" << executions << ",\"transitions\":" << transitions << ",\"checks\":" << checks
            << ",\"states\":" << states.size() << ",\"outcomes\":" << outcomes.size() << ",\"capped\":" << (capped ? "true" : "false")
            << ",\"wall\":" << now() - start << ",\"found\":[" << found.str() << "],\"known\":[" << known.str() << "],\"samples\":["
            << samples.str() << "]}\n";
        return 0;
    }
}
