/*
 * Virtual wall clock for the simulator (LD_PRELOAD).
 *
 * While simclk_on is set, every read of the wall clock made anywhere in the
 * process (time(), gettimeofday(), clock_gettime(CLOCK_REALTIME)) returns
 * simclk_now and then advances it by the scripted step for that read, so that
 * clock jumps between two reads are decisions of the simulator.  Monotonic
 * clocks are left alone: only the harness' own watchdogs use them.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define NSTEPS 4096
#define NS 1000000000LL

static volatile int simclk_on = 0;
static volatile int64_t simclk_now = 0;
static volatile int64_t simclk_reads = 0;
static volatile int64_t simclk_tick_ns = 0;
static int64_t simclk_steps[NSTEPS];
static volatile int simclk_nsteps = 0;

void simclk_set(int64_t ns, int64_t tick_ns)
{
    simclk_now = ns;
    simclk_tick_ns = tick_ns;
    simclk_reads = 0;
    simclk_nsteps = 0;
    simclk_on = 1;
}

void simclk_off(void) { simclk_on = 0; }

void simclk_push_step(int64_t ns)
{
    if (simclk_nsteps < NSTEPS)
        simclk_steps[simclk_nsteps++] = ns;
}

int64_t simclk_get(void) { return simclk_now; }
int64_t simclk_nreads(void) { return simclk_reads; }

static int64_t sim_read(void)
{
    int64_t v = simclk_now;
    int64_t k = simclk_reads++;
    simclk_now += (k < simclk_nsteps) ? simclk_steps[k] : simclk_tick_ns;
    return v;
}

int clock_gettime(clockid_t c, struct timespec *ts)
{
    if (simclk_on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
        int64_t v = sim_read();
        ts->tv_sec = v / NS;
        ts->tv_nsec = v % NS;
        return 0;
    }
    return syscall(SYS_clock_gettime, c, ts);
}

/*
 * PyPy times its own garbage collector and compiler with gettimeofday; the
 * program's readings use clock_gettime.  Those are answered without counting
 * as a reading, so that they do not use up the scripted steps.
 */
static int from_interpreter(void *caller)
{
    Dl_info info;
    return dladdr(caller, &info) && info.dli_fname &&
        strstr(info.dli_fname, "libpypy") != 0;
}

int gettimeofday(struct timeval *tv, void *tz)
{
    if (simclk_on) {
        int64_t v = from_interpreter(__builtin_return_address(0)) ?
            simclk_now : sim_read();
        tv->tv_sec = v / NS;
        tv->tv_usec = (v % NS) / 1000;
        return 0;
    }
    return syscall(SYS_gettimeofday, tv, tz);
}

time_t time(time_t *t)
{
    time_t r;
    if (simclk_on) {
        r = sim_read() / NS;
    } else {
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        r = ts.tv_sec;
    }
    if (t)
        *t = r;
    return r;
}
