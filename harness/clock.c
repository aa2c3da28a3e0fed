// Preloaded: wall clock replaced by FAKE_TIME (seconds) and FAKE_NSEC; with FAKE_ADVANCE it runs a thousand times too fast once the process has worked for 30 ms.
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/syscall.h>
static time_t fake(void) {
    const char* s = getenv("FAKE_TIME"); time_t t = s ? atol(s) : 1500000000;
    if (getenv("FAKE_ADVANCE")) { struct timespec c; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &c); long ms = c.tv_sec * 1000 + c.tv_nsec / 1000000; if (ms > 30) t += ms - 29; }
    return t;
}
static long nsec(void) { const char* s = getenv("FAKE_NSEC"); return s ? atol(s) : 0; }
time_t time(time_t* t) { time_t v = fake(); if (t) *t = v; return v; }
int gettimeofday(struct timeval* tv, void* tz) { (void)tz; if (tv) { tv->tv_sec = fake(); tv->tv_usec = nsec() / 1000; } return 0; }
int clock_gettime(clockid_t c, struct timespec* ts) { if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { ts->tv_sec = fake(); ts->tv_nsec = nsec(); return 0; } return syscall(SYS_clock_gettime, c, ts); }
int timespec_get(struct timespec* ts, int base) { ts->tv_sec = fake(); ts->tv_nsec = nsec(); return base; }
