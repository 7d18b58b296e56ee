// Litmus programs of the controlled scheduler and of the explorer: selftest.py compares what is found with what must be.
#define MC_MAIN
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "threads.hpp"

using sched::Options;

static Options bound(int preemptions)
{
    Options o;
    o.preemptions = preemptions;
    return o;
}

MC_SCENARIO(tree) // 3 * 4 * (2 or 5) executions
{
    const int a = mc::choose(3), b = mc::choose(4);
    const int c = mc::choose(a == 0 ? 2 : 5);
    mc::state(mc::mix(mc::mix(a, b), c));
    mc::outcome(mc::mix(mc::mix(a, b), c));
}

MC_SCENARIO_THREADS(lost_update) // two increments by a load and a store: 1 or 2
{
    std::atomic<int> x{0};
    threads::run(bound(1), [&]
    {
        std::thread t([&] { x = x + 1; });
        x = x + 1;
        t.join();
        mc::outcome((uint64_t)x.load());
    });
}

MC_SCENARIO_THREADS(lost_update_without_preemption) // 2 only
{
    std::atomic<int> x{0};
    threads::run(bound(0), [&]
    {
        std::thread t([&] { x = x + 1; });
        x = x + 1;
        t.join();
        mc::outcome((uint64_t)x.load());
    });
}

MC_SCENARIO_THREADS(three_increments) // 3 threads, 2 preemptions: 1, 2 or 3
{
    std::atomic<int> x{0};
    threads::run(bound(2), [&]
    {
        std::thread t([&] { x = x + 1; }), u([&] { x = x + 1; });
        x = x + 1;
        t.join();
        u.join();
        mc::outcome((uint64_t)x.load());
    });
}

MC_SCENARIO_THREADS(store_buffering) // sequential consistency: 3 outcomes, never (0, 0)
{
    std::atomic<int> x{0}, y{0};
    int a = 0, b = 0;
    threads::run(bound(2), [&]
    {
        std::thread t([&] { x = 1; a = y; });
        y = 1;
        b = x;
        t.join();
        mc::outcome((uint64_t)(a * 2 + b));
        MC_CHECK(a + b > 0, "store buffering", "(0, 0)");
    });
}

MC_SCENARIO_THREADS(publication) // no race: the flag orders the value
{
    std::atomic<bool> ready{false};
    int value = 0;
    threads::run(bound(2), [&]
    {
        std::thread t([&] { value = 42; ready = true; });
        if (ready)
            MC_CHECK(value == 42, "publication", "%d", value);
        mc::outcome((uint64_t)ready);
        t.join();
    });
}

MC_SCENARIO_THREADS(relaxed_publication) // a race: a relaxed flag orders nothing
{
    std::atomic<bool> ready{false};
    int value = 0;
    threads::run(bound(2), [&]
    {
        std::thread t([&] { value = 42; ready.store(true, std::memory_order_relaxed); });
        if (ready.load(std::memory_order_relaxed))
            mc::outcome((uint64_t)value);
        t.join();
    });
}

MC_SCENARIO_THREADS(plain_flag) // a race
{
    bool flag = false;
    threads::run(bound(1), [&]
    {
        std::thread t([&] { flag = true; });
        mc::outcome((uint64_t)flag);
        t.join();
    });
}

MC_SCENARIO_THREADS(joined) // no race: the join orders the value
{
    int value = 0;
    threads::run(bound(2), [&]
    {
        std::thread t([&] { value = 1; });
        t.join();
        value = 2;
        mc::outcome((uint64_t)value);
    });
}

MC_SCENARIO_THREADS(locked) // no race, both orders
{
    std::mutex m;
    int value = 1;
    threads::run(bound(2), [&]
    {
        std::thread t([&] { std::lock_guard<std::mutex> l(m); value = value * 2; });
        {
            std::lock_guard<std::mutex> l(m);
            value = value + 3;
        }
        t.join();
        mc::outcome((uint64_t)value); // 8 or 5
    });
}

MC_SCENARIO_THREADS(deadlock) // two mutexes taken in the opposite orders
{
    std::mutex m, n;
    threads::run(bound(1), [&]
    {
        std::thread t([&] { std::lock_guard<std::mutex> k(m); std::lock_guard<std::mutex> l(n); });
        {
            std::lock_guard<std::mutex> l(n);
            std::lock_guard<std::mutex> k(m);
        }
        t.join();
        mc::outcome((uint64_t)1);
    });
}

MC_SCENARIO_THREADS(spins_for_ever) // a thread waits for what cannot happen
{
    std::atomic<bool> stop{false};
    threads::run(bound(1), [&]
    {
        std::thread t([&] { while (!stop); });
        t.join();
    });
}

MC_SCENARIO_THREADS(spins_and_ends) // the fairness lets the other thread stop it
{
    std::atomic<bool> stop{false};
    threads::run(bound(1), [&]
    {
        std::thread t([&] { while (!stop); });
        stop = true;
        t.join();
        mc::outcome((uint64_t)1);
    });
}

MC_SCENARIO_THREADS(sleeps) // virtual time: an hour costs nothing, the order of the sleeps is kept
{
    std::atomic<int> order{0};
    int first = 0, second = 0;
    threads::run(bound(1), [&]
    {
        std::thread t([&] { std::this_thread::sleep_for(std::chrono::hours(2)); second = ++order; });
        std::this_thread::sleep_for(std::chrono::hours(1));
        first = ++order;
        t.join();
        MC_CHECK(first == 1 && second == 2, "sleep", "%d %d", first, second);
        mc::outcome((uint64_t)first);
    });
}

MC_SCENARIO_THREADS(forgotten_thread) // a thread is left when the execution ends
{
    std::atomic<bool> stop{false};
    threads::run(bound(1), [&]
    {
        std::thread t([&] { while (!stop) std::this_thread::sleep_for(std::chrono::milliseconds(1)); });
        t.detach();
    });
}

MC_SCENARIO_THREADS(use_after_free) // the memory of a freed block is written: a race with its reader
{
    auto* p = new int(1);
    threads::run(bound(1), [&]
    {
        std::thread t([&] { mc::outcome((uint64_t)*p); });
        delete p;
        t.join();
    });
}
