// Runtime of the controlled scheduler. The library and the harness are compiled with -fsanitize=thread but linked with
// this runtime instead of the one of the compiler. This file is compiled without instrumentation.
#include "sched.hpp"
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <unordered_map>

namespace
{
    constexpr int T = 6;
    constexpr int64_t NEVER = INT64_MAX;

    struct Clock
    {
        uint32_t c[T] = {};
        void join(const Clock& o)
        {
            for (int i = 0; i < T; ++i)
                c[i] = std::max(c[i], o.c[i]);
        }
    };

    enum State { UNUSED, RUNNABLE, BLOCKED, FINISHED };

    struct Thread
    {
        sem_t baton;
        State state = UNUSED;
        int64_t wake = NEVER; // of a BLOCKED thread
        const void* waitsFor = nullptr;
        bool timedOut = false;
        Clock clock;
        int64_t ops = 0;
        pthread_t handle{};
        void* (*body)(void*) = nullptr;
        void* argument = nullptr;
        std::vector<void*> stack;
        bool detached = false;
    };

    struct Cell // of 8 bytes
    {
        uint32_t write[8] = {};
        uint8_t writer[8] = {};
        uint32_t read[T][8] = {};
        void* writePc = nullptr;
        void* readPc[T] = {};
    };

    struct Mutex
    {
        int owner = -1, count = 0, readers = 0;
        Clock clock;
    };

    bool active = false;
    thread_local bool inRuntime = false;
    thread_local int self = -1;
    sched::Options options;
    Thread thread[T];
    int created = 0, alive = 0, current = 0;
    int64_t clockNow = 0, totalOps = 0, sinceSwitch = 0;
    int preempted = 0;
    bool owned = false;
    uint64_t choicesHash = 0;
    std::unordered_map<uintptr_t, Cell>* cells;
    std::unordered_map<const void*, Clock>* syncs;
    std::unordered_map<const void*, Mutex>* mutexes;
    std::unordered_map<const void*, int>* onces;
    const char* watched = nullptr;
    size_t watchedSize = 0;
    std::map<size_t, uint64_t>* watchedValues;

    struct Guard
    {
        bool previous;
        Guard() : previous(inRuntime) { inRuntime = true; }
        ~Guard() { inRuntime = previous; }
    };

    bool on() { return active && !inRuntime && self >= 0; }

    void ownership(uint64_t h);
    uint64_t pathHash();

    [[noreturn]] void failNow(const std::string& signature, const std::string& message)
    {
        inRuntime = true;
        auto& s = *mc::g.sh;
        ownership(pathHash());
        mc::step(totalOps);
        s.failed = 1;
        snprintf(s.signature, sizeof s.signature, "%s", signature.c_str());
        snprintf(s.message, mc::MAX_TEXT, "%s", message.c_str());
        _exit(0);
    }

    void ownership(uint64_t h)
    {
        if (owned || mc::g.replay)
            return;
        if ((int)(mc::mix(h, 4242) % mc::g.workers) != mc::g.worker)
        {
            mc::g.sh->notOwned = 1;
            _exit(0);
        }
        owned = true;
    }

    uint64_t pathHash()
    {
        uint64_t h = 17;
        for (int i = 0; i < mc::g.sh->position; ++i)
            h = mc::mix(h, mc::g.sh->choice[i] + 1);
        return h;
    }

    int choose(int n)
    {
        try
        {
            return n == 1 ? 0 : mc::choose(n);
        }
        catch (const mc::Failure& f)
        {
            failNow(f.signature, f.message);
        }
    }

    std::string symbol(void* pc)
    {
        Dl_info info;
        if (!pc || !dladdr(pc, &info) || !info.dli_sname)
            return "?";
        int status;
        char* d = abi::__cxa_demangle(info.dli_sname, nullptr, nullptr, &status);
        std::string r = d ? d : info.dli_sname;
        free(d);
        return r;
    }

    std::string stackText(const Thread& t)
    {
        std::string r;
        int n = 0;
        for (auto i = t.stack.rbegin(); i != t.stack.rend() && n < 8; ++i, ++n)
            r += " <- " + symbol(*i).substr(0, 90);
        return r;
    }

    void recordState()
    {
        uint64_t h = 5;
        for (int i = 0; i < created; ++i)
            h = mc::mix(mc::mix(h, thread[i].ops), thread[i].state);
        for (const auto& [a, v] : *watchedValues)
            h = mc::mix(mc::mix(h, a), v);
        mc::state(h);
    }

    std::vector<int> enabled(bool withSelf)
    {
        std::vector<int> r;
        for (int k = 0; k < created; ++k)
        {
            const int i = (self + k) % created;
            auto& t = thread[i];
            if (t.state == BLOCKED && t.wake <= clockNow)
            {
                t.state = RUNNABLE;
                t.timedOut = true;
                t.wake = NEVER;
            }
            if (t.state == RUNNABLE && (withSelf || i != self))
                r.push_back(i);
        }
        return r;
    }

    void waitBaton(Thread& t)
    {
        while (sem_wait(&t.baton) != 0)
            ;
    }

    void switchTo(int next, bool wait = true)
    {
        sinceSwitch = 0;
        current = next;
        const int me = self;
        if (next == me)
            return;
        sem_post(&thread[next].baton);
        if (wait)
            waitBaton(thread[me]);
    }

    void tick()
    {
        ++totalOps;
        ++thread[self].ops;
        ++sinceSwitch;
        clockNow += options.perOperation;
        if (totalOps > options.horizon)
        {
            std::string s;
            for (int i = 0; i < created; ++i)
                s += mc::format("; thread %d %s%s", i, thread[i].state == FINISHED ? "finished" : thread[i].state == BLOCKED ? "blocked" : "running", stackText(thread[i]).c_str());
            failNow("no end", mc::format("the execution does not end after %lld operations and %.3f s of virtual time", (long long)totalOps, clockNow * 1e-9) + s);
        }
    }

    // The current thread is about to do a visible operation.
    void point()
    {
        if (!on())
            return;
        Guard guard;
        tick();
        if (alive < 2)
            return;
        const auto others = enabled(false);
        if (others.empty())
        {
            sinceSwitch = 0;
            return;
        }
        if (sinceSwitch > options.quantum)
        {
            switchTo(others[0]);
            return;
        }
        if (preempted >= options.preemptions)
            return;
        recordState();
        const int c = choose(1 + (int)others.size());
        if (c > 0)
        {
            ++preempted;
            ownership(pathHash());
            switchTo(others[c - 1]);
        }
    }

    // Gives the processor to another thread: the current one is blocked or finished.
    void release(bool wait)
    {
        auto next = enabled(false);
        if (next.empty() && wait && thread[self].state == BLOCKED && thread[self].wake <= clockNow)
            next = enabled(true);
        if (next.empty())
        {
            int64_t first = NEVER;
            for (int i = 0; i < created; ++i)
                if (thread[i].state == BLOCKED)
                    first = std::min(first, thread[i].wake);
            if (first == NEVER)
            {
                std::string s;
                for (int i = 0; i < created; ++i)
                    if (thread[i].state == BLOCKED)
                        s += mc::format("; thread %d", i) + stackText(thread[i]);
                failNow("deadlock", "every thread waits" + s);
            }
            clockNow = std::max(clockNow, first);
            next = enabled(true);
        }
        const int c = choose((int)next.size());
        switchTo(next[c], wait);
    }

    // Returns false when the time is over.
    bool block(const void* object, int64_t wake = NEVER)
    {
        auto& t = thread[self];
        t.state = BLOCKED;
        t.waitsFor = object;
        t.wake = wake;
        t.timedOut = false;
        release(true);
        t.waitsFor = nullptr;
        return !t.timedOut;
    }

    int unblock(const void* object, int limit)
    {
        int n = 0;
        for (int i = 0; i < created && n < limit; ++i)
            if (thread[i].state == BLOCKED && thread[i].waitsFor == object)
            {
                thread[i].state = RUNNABLE;
                thread[i].wake = NEVER;
                thread[i].waitsFor = nullptr;
                ++n;
            }
        return n;
    }

    // ---- happens-before
    void acquire(const void* p)
    {
        const auto i = syncs->find(p);
        if (i != syncs->end())
            thread[self].clock.join(i->second);
    }

    void releaseTo(const void* p, bool assign)
    {
        auto& t = thread[self];
        auto& s = (*syncs)[p];
        if (assign)
            s = t.clock;
        else
            s.join(t.clock);
        t.clock.c[self]++;
    }

    [[noreturn]] void race(bool write, bool otherWrote, int other, void* pc, void* otherPc, uintptr_t address)
    {
        std::string a = symbol(pc), b = symbol(otherPc);
        failNow("data race", mc::format("%s by the thread %d in %s%s is not ordered with the %s by the thread %d in %s, address %zx%s", write ? "write" : "read", self, a.c_str(), stackText(thread[self]).c_str(),
                                         otherWrote ? "write" : "read", other, b.c_str(), (size_t)address,
                                         watched && address >= (uintptr_t)watched && address < (uintptr_t)watched + watchedSize ? mc::format(" (offset %zu of the watched object)", (size_t)(address - (uintptr_t)watched)).c_str() : ""));
    }

    void access(uintptr_t a, size_t size, bool write, void* pc)
    {
        if (!on() || created < 2 || !options.races)
            return;
        Guard guard;
        auto& t = thread[self];
        while (size > 0)
        {
            const uintptr_t word = a >> 3;
            const int from = a & 7, to = (int)std::min<size_t>(8, from + size);
            auto& cell = (*cells)[word];
            for (int b = from; b < to; ++b)
            {
                if (cell.write[b] && cell.writer[b] != self && cell.write[b] > t.clock.c[cell.writer[b]])
                    race(write, true, cell.writer[b], pc, cell.writePc, a);
                if (write)
                {
                    for (int o = 0; o < created; ++o)
                        if (o != self && cell.read[o][b] > t.clock.c[o])
                            race(true, false, o, pc, cell.readPc[o], a);
                    cell.write[b] = t.clock.c[self];
                    cell.writer[b] = (uint8_t)self;
                }
                else
                    cell.read[self][b] = t.clock.c[self];
            }
            if (write)
                cell.writePc = pc;
            else
                cell.readPc[self] = pc;
            size -= to - from;
            a += to - from;
        }
    }

    void forget(uintptr_t a, size_t size)
    {
        if (!on() || created < 2)
            return;
        Guard guard;
        for (uintptr_t w = a >> 3; w <= (a + size - 1) >> 3; ++w)
            cells->erase(w);
        if (!syncs->empty())
        {
            if (size <= 256)
                for (uintptr_t p = a; p < a + size; ++p)
                    syncs->erase(reinterpret_cast<const void*>(p));
        }
    }

    void stored(const volatile void* p, uint64_t value)
    {
        const auto* c = (const char*)p;
        if (watched && c >= watched && c < watched + watchedSize)
            (*watchedValues)[c - watched] = value;
    }

    template <class F>
    F real(const char* name)
    {
        return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
    }
    #define REAL(f) (*[] { static const auto p = real<decltype(&f)>(#f); return p; }())

    void* trampoline(void* p)
    {
        const int id = (int)(intptr_t)p;
        self = id;
        waitBaton(thread[id]);
        void* r = thread[id].body(thread[id].argument);
        inRuntime = true;
        auto& t = thread[id];
        tick();
        t.state = FINISHED;
        --alive;
        unblock(&t, T);
        release(false);
        return r;
    }

    int64_t toNs(const timespec* t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }

    int sleepFor(int64_t ns)
    {
        Guard guard;
        tick();
        block(&clockNow, clockNow + std::max<int64_t>(ns, 0));
        return 0;
    }

    int find(pthread_t h)
    {
        for (int i = 0; i < created; ++i)
            if (pthread_equal(thread[i].handle, h))
                return i;
        return -1;
    }

    void lockMutex(const void* m, bool recursive)
    {
        auto& x = (*mutexes)[m];
        if (x.owner == self && recursive)
        {
            ++x.count;
            return;
        }
        while ((*mutexes)[m].owner >= 0 || (*mutexes)[m].readers > 0)
            block(m);
        auto& y = (*mutexes)[m];
        y.owner = self;
        y.count = 1;
        thread[self].clock.join(y.clock);
    }

    void unlockMutex(const void* m)
    {
        auto& x = (*mutexes)[m];
        if (x.readers > 0 && x.owner != self)
            --x.readers;
        else if (--x.count > 0)
            return;
        else
            x.owner = -1;
        x.clock.join(thread[self].clock);
        thread[self].clock.c[self]++;
        unblock(m, T);
    }

    int waitCondition(const void* c, const void* m, int64_t wake)
    {
        unlockMutex(m);
        const bool ok = block(c, wake);
        lockMutex(m, false);
        return ok ? 0 : ETIMEDOUT;
    }
}

namespace sched
{
    Untracked::Untracked() : previous(inRuntime) { inRuntime = true; }
    Untracked::~Untracked() { inRuntime = previous; }

    void start(const Options& o)
    {
        inRuntime = true;
        options = o;
        cells = new std::unordered_map<uintptr_t, Cell>();
        syncs = new std::unordered_map<const void*, Clock>();
        mutexes = new std::unordered_map<const void*, Mutex>();
        onces = new std::unordered_map<const void*, int>();
        watchedValues = new std::map<size_t, uint64_t>();
        self = 0;
        created = alive = 1;
        current = 0;
        clockNow = 1000000000000ll;
        auto& t = thread[0];
        sem_init(&t.baton, 0, 0);
        t.state = RUNNABLE;
        t.clock.c[0] = 1;
        t.handle = pthread_self();
        if (options.together)
            ownership(pathHash());
        mc::g.onFailure = [](const std::string& signature, const std::string& message) { failNow(signature, message); };
        active = true;
        inRuntime = false;
    }

    void finish()
    {
        inRuntime = true;
        ownership(pathHash());
        mc::step(totalOps);
        for (int i = 1; i < created; ++i)
            if (thread[i].state != FINISHED)
                failNow("thread left", mc::format("the thread %d is still running%s", i, stackText(thread[i]).c_str()));
        recordState();
        active = false;
        inRuntime = false;
        mc::g.onFailure = nullptr;
    }

    void watch(const void* p, size_t size)
    {
        watched = static_cast<const char*>(p);
        watchedSize = size;
    }
    int64_t operations() { return totalOps; }
    int64_t now() { return clockNow; }
    int threads() { return created; }
    int preemptions() { return preempted; }
    void yieldPoint() { point(); }
}

// ---- threads
extern "C"
{
    int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*f)(void*), void* p)
    {
        if (!on())
            return REAL(pthread_create)(h, a, f, p);
        {
            Guard guard;
            if (created >= T)
                failNow("harness", "too many threads");
            if (options.failThreads && choose(2) == 1)
                return EAGAIN;
            const int id = created;
            auto& t = thread[id];
            sem_init(&t.baton, 0, 0);
            t.body = f;
            t.argument = p;
            thread[self].clock.c[self]++;
            t.clock = thread[self].clock;
            t.clock.c[id] = 1;
            thread[self].clock.c[self]++;
            const int r = REAL(pthread_create)(&t.handle, a, trampoline, (void*)(intptr_t)id);
            if (r != 0)
                failNow("harness", "pthread_create failed");
            *h = t.handle;
            t.state = RUNNABLE;
            ++created;
            ++alive;
        }
        point();
        return 0;
    }

    int pthread_join(pthread_t h, void** result)
    {
        if (!on())
            return REAL(pthread_join)(h, result);
        point();
        Guard guard;
        const int i = find(h);
        if (i < 0)
            return ESRCH;
        if (i == self)
            return EDEADLK;
        if (thread[i].state != FINISHED)
            block(&thread[i]);
        thread[self].clock.join(thread[i].clock);
        memset(&thread[i].handle, 0, sizeof thread[i].handle);
        return REAL(pthread_join)(h, result);
    }

    int pthread_detach(pthread_t h)
    {
        if (on())
        {
            Guard guard;
            const int i = find(h);
            if (i >= 0)
                thread[i].detached = true;
        }
        return REAL(pthread_detach)(h);
    }

    int sched_yield()
    {
        if (!on())
            return REAL(sched_yield)();
        Guard guard;
        tick();
        const auto others = enabled(false);
        if (!others.empty())
            switchTo(others[choose((int)others.size())]);
        return 0;
    }

    int nanosleep(const timespec* t, timespec* rest)
    {
        if (!on())
            return REAL(nanosleep)(t, rest);
        return sleepFor(toNs(t));
    }

    int clock_nanosleep(clockid_t c, int flags, const timespec* t, timespec* rest)
    {
        if (!on())
            return REAL(clock_nanosleep)(c, flags, t, rest);
        return sleepFor(flags & TIMER_ABSTIME ? toNs(t) - clockNow : toNs(t));
    }

    int usleep(useconds_t us)
    {
        if (!on())
            return REAL(usleep)(us);
        return sleepFor(us * 1000ll);
    }

    int clock_gettime(clockid_t c, timespec* t)
    {
        if (!on())
            return REAL(clock_gettime)(c, t);
        t->tv_sec = clockNow / 1000000000ll;
        t->tv_nsec = clockNow % 1000000000ll;
        return 0;
    }

    // ---- locks
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (!on())
            return REAL(pthread_mutex_lock)(m);
        point();
        Guard guard;
        lockMutex(m, m->__data.__kind & PTHREAD_MUTEX_RECURSIVE);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if (!on())
            return REAL(pthread_mutex_trylock)(m);
        point();
        Guard guard;
        auto& x = (*mutexes)[m];
        if (x.owner >= 0 && !(x.owner == self && m->__data.__kind & PTHREAD_MUTEX_RECURSIVE))
            return EBUSY;
        lockMutex(m, m->__data.__kind & PTHREAD_MUTEX_RECURSIVE);
        return 0;
    }
    int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { return pthread_mutex_lock(m); }
    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        if (!on())
            return REAL(pthread_mutex_unlock)(m);
        point();
        Guard guard;
        unlockMutex(m);
        return 0;
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m)
    {
        if (!on())
            return REAL(pthread_rwlock_wrlock)(m);
        point();
        Guard guard;
        lockMutex(m, false);
        return 0;
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m)
    {
        if (!on())
            return REAL(pthread_rwlock_rdlock)(m);
        point();
        Guard guard;
        while ((*mutexes)[m].owner >= 0)
            block(m);
        auto& x = (*mutexes)[m];
        ++x.readers;
        thread[self].clock.join(x.clock);
        return 0;
    }
    int pthread_rwlock_unlock(pthread_rwlock_t* m)
    {
        if (!on())
            return REAL(pthread_rwlock_unlock)(m);
        point();
        Guard guard;
        unlockMutex(m);
        return 0;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!on())
            return REAL(pthread_cond_wait)(c, m);
        point();
        Guard guard;
        return waitCondition(c, m, NEVER);
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
    {
        if (!on())
            return REAL(pthread_cond_timedwait)(c, m, t);
        point();
        Guard guard;
        return waitCondition(c, m, toNs(t));
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t)
    {
        if (!on())
            return REAL(pthread_cond_timedwait)(c, m, t);
        point();
        Guard guard;
        return waitCondition(c, m, toNs(t));
    }
    int pthread_cond_signal(pthread_cond_t* c)
    {
        if (!on())
            return REAL(pthread_cond_signal)(c);
        point();
        Guard guard;
        unblock(c, 1);
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        if (!on())
            return REAL(pthread_cond_broadcast)(c);
        point();
        Guard guard;
        unblock(c, T);
        return 0;
    }

    int pthread_once(pthread_once_t* o, void (*f)())
    {
        if (!on())
            return REAL(pthread_once)(o, f);
        point();
        {
            Guard guard;
            while ((*onces)[o] == 1)
                block(o);
            acquire(o);
            if ((*onces)[o] == 2 || *reinterpret_cast<int*>(o) == 2) // 2: done before the threads
                return 0;
            (*onces)[o] = 1;
        }
        f();
        Guard guard;
        (*onces)[o] = 2;
        *reinterpret_cast<int*>(o) = 2;
        releaseTo(o, false);
        unblock(o, T);
        return 0;
    }

}

namespace __cxxabiv1
{
extern "C"
{
    // initialization of the static variables of functions: byte 0 done, byte 1 in progress
    int __cxa_guard_acquire(__cxxabiv1::__guard* guardObject)
    {
        auto* b = reinterpret_cast<volatile char*>(guardObject);
        if (!on())
        {
            if (b[0])
                return 0;
            b[1] = 1;
            return 1;
        }
        point();
        Guard guard;
        while (b[1] && !b[0])
            block(guardObject);
        acquire(guardObject);
        if (b[0])
            return 0;
        b[1] = 1;
        return 1;
    }
    void __cxa_guard_release(__cxxabiv1::__guard* guardObject) noexcept
    {
        auto* b = reinterpret_cast<volatile char*>(guardObject);
        b[1] = 0;
        b[0] = 1;
        if (on())
        {
            Guard guard;
            releaseTo(guardObject, false);
            unblock(guardObject, T);
        }
    }
    void __cxa_guard_abort(__cxxabiv1::__guard* guardObject) noexcept
    {
        reinterpret_cast<volatile char*>(guardObject)[1] = 0;
        if (on())
        {
            Guard guard;
            unblock(guardObject, T);
        }
    }
}
}

extern "C"
{
    long syscall(long number, ...)
    {
        va_list args;
        va_start(args, number);
        long a[6];
        for (auto& v : a)
            v = va_arg(args, long);
        va_end(args);
        if (number == SYS_futex && on())
        {
            const int op = (int)a[1] & FUTEX_CMD_MASK;
            auto* p = reinterpret_cast<int*>(a[0]);
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
            {
                point();
                Guard guard;
                if (*reinterpret_cast<volatile int*>(p) != (int)a[2])
                {
                    errno = EAGAIN;
                    return -1;
                }
                int64_t wake = NEVER;
                if (a[3])
                    wake = toNs(reinterpret_cast<timespec*>(a[3])) + (op == FUTEX_WAIT ? clockNow : 0);
                if (!block(p, wake))
                {
                    errno = ETIMEDOUT;
                    return -1;
                }
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
            {
                point();
                Guard guard;
                return unblock(p, (int)std::min<long>(a[2], T));
            }
        }
        return REAL(syscall)(number, a[0], a[1], a[2], a[3], a[4], a[5]);
    }

    // ---- instrumentation of the compiler
    #define PC __builtin_return_address(0)
    void __tsan_init() {}
    void __tsan_func_entry(void* pc)
    {
        if (on())
        {
            Guard guard;
            thread[self].stack.push_back(pc);
        }
    }
    void __tsan_func_exit()
    {
        if (on())
        {
            Guard guard;
            auto& s = thread[self].stack;
            if (!s.empty())
                s.pop_back();
        }
    }
    #define PLAIN(n) \
        void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
        void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
        void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
        void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
        void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
        void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
        void __tsan_read_write##n(void* p) { access((uintptr_t)p, n, true, PC); }
    PLAIN(1) PLAIN(2) PLAIN(4) PLAIN(8) PLAIN(16)
    void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false, PC); }
    void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true, PC); }
    void __tsan_vptr_update(void** p, void* value) { if (*p != value) access((uintptr_t)p, 8, true, PC); }
    void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }

    static bool acquires(int order) { return order == __ATOMIC_ACQUIRE || order == __ATOMIC_CONSUME || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST; }
    static bool releases(int order) { return order == __ATOMIC_RELEASE || order == __ATOMIC_ACQ_REL || order == __ATOMIC_SEQ_CST; }
    static void before(const volatile void* p, int order)
    {
        point();
        if (on() && acquires(order & 15))
        {
            Guard guard;
            acquire((const void*)p);
        }
    }
    static void after(const volatile void* p, int order, bool assign, uint64_t value)
    {
        if (on())
        {
            Guard guard;
            if (releases(order & 15))
                releaseTo((const void*)p, assign);
            stored(p, value);
        }
    }
    #define ATOMIC(n, t) \
        t __tsan_atomic##n##_load(const volatile t* p, int o) { before(p, o); return *p; } \
        void __tsan_atomic##n##_store(volatile t* p, t v, int o) { point(); *p = v; after(p, o, true, v); } \
        t __tsan_atomic##n##_exchange(volatile t* p, t v, int o) { before(p, o); t r = *p; *p = v; after(p, o, false, v); return r; } \
        t __tsan_atomic##n##_fetch_add(volatile t* p, t v, int o) { before(p, o); t r = *p; *p = r + v; after(p, o, false, *p); return r; } \
        t __tsan_atomic##n##_fetch_sub(volatile t* p, t v, int o) { before(p, o); t r = *p; *p = r - v; after(p, o, false, *p); return r; } \
        t __tsan_atomic##n##_fetch_and(volatile t* p, t v, int o) { before(p, o); t r = *p; *p = r & v; after(p, o, false, *p); return r; } \
        t __tsan_atomic##n##_fetch_or(volatile t* p, t v, int o) { before(p, o); t r = *p; *p = r | v; after(p, o, false, *p); return r; } \
        t __tsan_atomic##n##_fetch_xor(volatile t* p, t v, int o) { before(p, o); t r = *p; *p = r ^ v; after(p, o, false, *p); return r; } \
        t __tsan_atomic##n##_fetch_nand(volatile t* p, t v, int o) { before(p, o); t r = *p; *p = ~(r & v); after(p, o, false, *p); return r; } \
        int __tsan_atomic##n##_compare_exchange_strong(volatile t* p, t* e, t v, int o, int) { before(p, o); t r = *p; if (r == *e) { *p = v; after(p, o, false, v); return 1; } *e = r; return 0; } \
        int __tsan_atomic##n##_compare_exchange_weak(volatile t* p, t* e, t v, int o, int) { before(p, o); t r = *p; if (r == *e) { *p = v; after(p, o, false, v); return 1; } *e = r; return 0; } \
        t __tsan_atomic##n##_compare_exchange_val(volatile t* p, t e, t v, int o, int) { before(p, o); t r = *p; if (r == e) { *p = v; after(p, o, false, v); } return r; }
    ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
    void __tsan_atomic_thread_fence(int)
    {
        point();
        if (on())
        {
            Guard guard;
            acquire(&syncs);
            releaseTo(&syncs, false);
        }
    }
    void __tsan_atomic_signal_fence(int) {}
}

// ---- memory: a block which is freed is written, a new block has no past
void* operator new(size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    forget((uintptr_t)p, n ? n : 1);
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    void* p = malloc(n ? n : 1);
    if (p)
        forget((uintptr_t)p, n ? n : 1);
    return p;
}
static void freed(void* p, size_t n, void* pc)
{
    if (p && n)
        access((uintptr_t)p, n, true, pc);
    free(p);
}
void operator delete(void* p) noexcept { freed(p, 1, PC); }
void operator delete[](void* p) noexcept { freed(p, 1, PC); }
void operator delete(void* p, size_t n) noexcept { freed(p, n, PC); }
void operator delete[](void* p, size_t n) noexcept { freed(p, n, PC); }

// ---- memory functions called by the instrumented code (linked with --wrap)
extern "C"
{
    void* __real_memcpy(void*, const void*, size_t);
    void* __real_memmove(void*, const void*, size_t);
    void* __real_memset(void*, int, size_t);
    void* __wrap_memcpy(void* d, const void* s, size_t n)
    {
        access((uintptr_t)s, n, false, PC);
        access((uintptr_t)d, n, true, PC);
        return __real_memcpy(d, s, n);
    }
    void* __wrap_memmove(void* d, const void* s, size_t n)
    {
        access((uintptr_t)s, n, false, PC);
        access((uintptr_t)d, n, true, PC);
        return __real_memmove(d, s, n);
    }
    void* __wrap_memset(void* d, int v, size_t n)
    {
        access((uintptr_t)d, n, true, PC);
        return __real_memset(d, v, n);
    }
}

namespace std::chrono
{
    inline namespace _V2
    {
        system_clock::time_point system_clock::now() noexcept
        {
            if (active && self >= 0)
                return time_point(duration_cast<duration>(nanoseconds(clockNow)));
            timespec t;
            REAL(clock_gettime)(CLOCK_REALTIME, &t);
            return time_point(duration_cast<duration>(nanoseconds(toNs(&t))));
        }
        steady_clock::time_point steady_clock::now() noexcept
        {
            if (active && self >= 0)
                return time_point(nanoseconds(clockNow));
            timespec t;
            REAL(clock_gettime)(CLOCK_MONOTONIC, &t);
            return time_point(nanoseconds(toNs(&t)));
        }
    }
}
