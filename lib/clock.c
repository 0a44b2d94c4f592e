/* LD_PRELOAD: moves the wall clock by VP_CLOCK_OFFSET seconds. Monotonic clocks, sleeps and file
   times stay as they are.  gcc -O2 -shared -fPIC -o clock.so clock.c -ldl */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/time.h>
#include <time.h>

static int (*real_clock_gettime)(clockid_t, struct timespec *);
static long offset;

__attribute__((constructor)) static void init(void)
{
    const char *s = getenv("VP_CLOCK_OFFSET");
    if (real_clock_gettime)
        return;
    offset = s ? atol(s) : 0;
    real_clock_gettime = dlsym(RTLD_NEXT, "clock_gettime");
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    int r;
    if (!real_clock_gettime)
        init();
    r = real_clock_gettime(id, ts);
    if (r == 0 && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE))
        ts->tv_sec += offset;
    return r;
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    struct timespec ts;
    (void)tz;
    if (clock_gettime(CLOCK_REALTIME, &ts) != 0)
        return -1;
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

time_t time(time_t *t)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}

int timespec_get(struct timespec *ts, int base)
{
    return base == TIME_UTC && clock_gettime(CLOCK_REALTIME, ts) == 0 ? base : 0;
}
