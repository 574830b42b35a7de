/* A clock under the control of the harness: the first call returns the base, and each further
   call as many seconds more as the step says.  Only the real-time clock is affected. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

static long long calls;

static long long now(void)
{
    const char *b = getenv("VH_CLOCK_BASE"), *s = getenv("VH_CLOCK_STEP");
    long long t = b ? atoll(b) : 0;
    return t + calls++ * (s ? atoll(s) : 0);
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        ts->tv_sec = now();
        ts->tv_nsec = 0;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}

time_t time(time_t *t)
{
    time_t v = now();
    if (t)
        *t = v;
    return v;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    if (tv) {
        tv->tv_sec = now();
        tv->tv_usec = 0;
    }
    return 0;
}
