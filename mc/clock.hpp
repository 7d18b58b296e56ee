// Virtual clock of the process: the clocks of std::chrono and the sleeps are answered by the harness.
#pragma once
#include <cerrno>
#include <chrono>
#include <cstdint>
#include <ctime>

namespace vclock
{
    inline int64_t now = 1000000000ll; // nanoseconds
    inline int64_t perRead = 0; // the clock advances when it is read
    inline int64_t reads = 0, sleeps = 0;
    inline int64_t date = 0, jump = 0, jumpAt = -1; // the date of the system is set forward or backward by jump at the read jumpAt
    inline int64_t read()
    {
        if (reads++ == jumpAt)
            date += jump;
        now += perRead;
        return now;
    }
}

#ifdef MC_MAIN
namespace std::chrono
{
    inline namespace _V2
    {
        system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(nanoseconds(vclock::read() + vclock::date))); }
        steady_clock::time_point steady_clock::now() noexcept { return time_point(nanoseconds(vclock::read())); }
    }
}
extern "C" int nanosleep(const timespec* t, timespec*)
{
    ++vclock::sleeps;
    vclock::now += t->tv_sec * 1000000000ll + t->tv_nsec;
    return 0;
}
extern "C" int clock_nanosleep(clockid_t, int, const timespec* t, timespec*)
{
    ++vclock::sleeps;
    vclock::now += t->tv_sec * 1000000000ll + t->tv_nsec;
    return 0;
}
#endif
