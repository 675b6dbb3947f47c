// Timed waits last as long as asked: the deadline and the condition variable use one clock.
//@file funcs=mcp_cond_create,mcp_cond_timedwait,mcp_cond_destroy
//@obl h_clock kind=bounded unwind=9 note="six timeouts at five fractions of a second, every result of the wait"
#include "vh.h"
#include "mcp_sync.h"
#include "mcp_log.h"
#include <pthread.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <errno.h>
static int g_clock, g_attr_clock, g_read; static int64_t g_s[2]; static long g_ns[2]; static int64_t g_ds; static long g_dns; static int g_ret; static int g_waits, g_conds;
static int spy_gettime(clockid_t c, struct timespec *t) { int k = c == CLOCK_MONOTONIC; g_read |= 1 << k; t->tv_sec = g_s[k]; t->tv_nsec = g_ns[k]; return 0; }
static int spy_gettimeofday(struct timeval *t) { g_read |= 1; t->tv_sec = g_s[0]; t->tv_usec = g_ns[0] / 1000; return 0; }
static int spy_setclock(clockid_t c) { g_attr_clock = c == CLOCK_MONOTONIC; return 0; }
static int spy_init(const void *a) { g_clock = a ? g_attr_clock : 0; g_conds++; return 0; }
static int spy_wait(const struct timespec *t) { g_waits++; g_ds = t->tv_sec; g_dns = t->tv_nsec; return g_ret; }
#define clock_gettime(c, t) spy_gettime(c, t)
#define gettimeofday(t, z) spy_gettimeofday(t)
#define pthread_condattr_init(a) ((void)(a), g_attr_clock = 0)
#define pthread_condattr_setclock(a, c) spy_setclock(c)
#define pthread_condattr_destroy(a) ((void)(a))
#define pthread_cond_init(c, a) spy_init(a)
#define pthread_cond_destroy(c) (g_conds--)
#define pthread_cond_timedwait(c, m, t) spy_wait(t)
#define pthread_cond_clockwait(c, m, k, t) (g_clock = (k) == CLOCK_MONOTONIC, spy_wait(t))
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
#endif
#include "src/common/mcp_sync.c"
void *mcp_pool_alloc(size_t n) { return malloc(n); }
void mcp_pool_free(void *p) { free(p); }
bool mcp_memory_pool_system_is_initialized(void) { return false; }
static void one(uint32_t ms, long ns)
{
    g_waits = g_conds = 0; mcp_cond_t *c = mcp_cond_create(); static struct mcp_mutex_s m; CHECK(c != NULL && g_conds == 1, "created");
    for (int k = 0; k < 2; k++) { g_s[k] = 1000 + 50000 * k; g_ns[k] = ns; }
    int r = in_i32("result"); ASSUME(r == 0 || r == ETIMEDOUT || r == EINVAL); g_ret = r; g_read = 0;
    int x = mcp_cond_timedwait(c, &m, ms);
    CHECK(g_waits == 1 && g_read == 1 << g_clock, "the deadline is read from the clock of the condition");
    CHECK(g_dns >= 0 && g_dns < 1000000000, "a valid time");
    int64_t late = (g_ds - g_s[g_clock]) * 1000000000 + g_dns - (g_clock ? ns : ns / 1000 * 1000);
    CHECK(late == (int64_t)ms * 1000000, "as long as asked for");
    CHECK(x == (r == 0 ? 0 : r == ETIMEDOUT ? -2 : -1), "and its outcome is told");
    mcp_cond_destroy(c); CHECK(g_conds == 0, "destroyed");
}
void h_clock(void)
{
    static const uint32_t MS[] = {1, 999, 1000, 1001, 60000, 4294967295u}; static const long NS[] = {0, 1, 500000000, 999000001, 999999999};
    for (int i = 0; i < 6; i++) for (int k = 0; k < 5; k++) one(MS[i], NS[k]);
    REACH("done");
}
