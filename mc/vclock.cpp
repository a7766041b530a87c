// Virtual time for single threaded harnesses: replaces steady_clock, sleeps and timed waits
#include "mc.h"
#include <errno.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>

namespace vclock
{
    int64_t now = 1000000000;
    std::function<bool(int64_t)> onWait;
    std::function<void(int64_t)> onSleep;
    void reset(int64_t us)
    {
        now = us;
        onWait = nullptr;
        onSleep = nullptr;
    }
    static void sleepFor(int64_t us)
    {
        if (us > 0) {
            now += us;
        }
        if (onSleep) {
            onSleep(us);
        }
    }
}

namespace std::chrono
{
    inline namespace _V2
    {
        steady_clock::time_point steady_clock::now() noexcept
        {
            return time_point(microseconds(vclock::now));
        }
    }
}

extern "C" {
int nanosleep(const struct timespec* req, struct timespec*)
{
    vclock::sleepFor(req->tv_sec * 1000000 + (req->tv_nsec + 999) / 1000);
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* req, struct timespec*)
{
    int64_t t = req->tv_sec * 1000000 + (req->tv_nsec + 999) / 1000;
    if (flags & TIMER_ABSTIME) {
        t -= vclock::now;
    }
    vclock::sleepFor(t);
    return 0;
}
#ifndef VCLOCK_NO_COND
int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const struct timespec* ts)
{
    int64_t deadline = ts->tv_sec * 1000000 + (ts->tv_nsec + 999) / 1000;
    pthread_mutex_unlock(m);
    bool wake = vclock::onWait && vclock::onWait(deadline);
    pthread_mutex_lock(m);
    if (wake) {
        return 0;
    }
    if (deadline > vclock::now) {
        vclock::now = deadline;
    }
    return ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    return pthread_cond_clockwait(c, m, CLOCK_MONOTONIC, ts);
}
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*)
{
    return 0; // spurious wake up: a single threaded harness can't be woken up by anybody
}
#endif
}
