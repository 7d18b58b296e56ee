// Controlled scheduler: the threads of an execution run one at a time, and every place where another thread could run
// (atomic operation, lock, creation and end of a thread, sleep) is a choice of the explorer, within a bound on the number
// of preemptions. Plain memory accesses are recorded by a happens-before race detector. Clocks and sleeps are virtual.
#pragma once
#include "mc.hpp"

namespace sched
{
    struct Options
    {
        int preemptions = 2; // bound of the preemptions of a schedule
        int quantum = 80; // visible operations of a thread before the other ones get their turn (fairness, not a choice)
        int64_t horizon = 30000; // visible operations of an execution: beyond it, it is said not to end
        int64_t perOperation = 20000; // nanoseconds of virtual time by visible operation
        bool races = true;
        bool together = false; // one worker explores all the schedules of the program chosen so far
        bool failThreads = false; // pthread_create can fail (a choice)
    };

    void start(const Options& options); // the calling thread becomes the thread 0
    void finish(); // every other thread must have ended

    // Between both, a failure of the harness ends the process at once, in any thread: the other ones cannot be unwound.

    void watch(const void* p, size_t size); // the values stored there are part of the states
    int64_t operations(); // visible operations done so far
    int64_t now(); // virtual time in nanoseconds
    int threads(); // threads created so far, the first one included
    int preemptions(); // preemptions done so far
    void yieldPoint(); // a visible operation of the harness

    // Plain values of the harness shared between its threads, without visible operation nor happens-before edge.
    struct Untracked
    {
        Untracked();
        ~Untracked();
        bool previous;
    };
}
