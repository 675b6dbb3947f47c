// Every exit of the transport callback counts the request out, whatever the
// other threads do to the count and to the shutdown flag meanwhile.
//@file funcs=transport_message_callback,request_finished
//@file assume="handle_message, the limiters and the transport by contract (arbitrary outcomes); other threads change the count and the flag only through atomic operations and mcp_server_stop"
//@obl h_account kind=proof unwind=8 standin=h_account_small note="every message size, limit and outcome; arbitrary interference at every step"
//@obl h_account_small kind=bounded unwind=8 note="messages of four bytes"
//@obl h_oversize kind=proof unwind=8 abstract=1 standin=h_account_small note="every message beyond the limit, up to 4 GiB"
//@obl h_args kind=proof unwind=8
#define VH_ON_LOCK(m) interfere()
static void interfere(void);
#include "vh_sync.h"
#include "internal/server_internal.h"
#include <stdatomic.h>

static mcp_server_t g_srv;
static struct mcp_mutex_s g_m; static struct mcp_cond_s g_c;
/* the count is this thread's part plus that of the others */
static int g_mine, g_others, g_signal_due, g_signals_then;
static void account(void) { CHECK(g_srv.active_requests == g_mine + g_others, "the count changes only by counting requests in and out, atomically"); }
/* what other threads may do at any time: finish or start requests, begin the shutdown */
static void interfere(void)
{
    account();
    g_others = in_i32("others");
    ASSUME(g_others >= 0 && g_others < 1000000);
    g_srv.active_requests = g_mine + g_others;
    if (in_bool("stop")) g_srv.shutting_down = true;
}
static int atomic_step(volatile int *p, int d, bool old)
{
    CHECK(p == &g_srv.active_requests, "the counter of requests");
    interfere();
    g_mine += d;
    CHECK(g_mine == 0 || g_mine == 1, "a request is counted in once and out once");
    g_srv.active_requests = g_mine + g_others;
    if (d < 0 && g_srv.active_requests == 0 && g_srv.shutting_down) { g_signal_due = 1; g_signals_then = g_c.signals + g_c.broadcasts; }
    int now = g_srv.active_requests;
    interfere();
    return old ? now - d : now;
}
#define __sync_fetch_and_add(p, v) atomic_step(p, v, true)
#define __sync_add_and_fetch(p, v) atomic_step(p, v, false)
#define __sync_fetch_and_sub(p, v) atomic_step(p, -(v), true)
#define __sync_sub_and_fetch(p, v) atomic_step(p, -(v), false)
#define __atomic_fetch_add(p, v, o) atomic_step(p, v, true)
#define __atomic_add_fetch(p, v, o) atomic_step(p, v, false)
#define __atomic_fetch_sub(p, v, o) atomic_step(p, -(v), true)
#define __atomic_sub_fetch(p, v, o) atomic_step(p, -(v), false)

static const char *g_data; static size_t g_size, g_w; static bool g_allowed, g_small;
static int g_handled, g_checked; static bool g_stop_seen;
const char *mcp_transport_get_client_ip(mcp_transport_t *t) { (void)t; interfere(); return in_bool("ip") ? "10.0.0.1" : NULL; }
bool mcp_advanced_rate_limiter_check(mcp_advanced_rate_limiter_t *l, const char *ip, const char *u, const char *k, const char *a) { CHECK(l && ip, "a client"); interfere(); g_checked++; if (!in_bool("allowed")) g_allowed = false; return g_allowed; }
bool mcp_rate_limiter_check(mcp_rate_limiter_t *l, const char *ip) { CHECK(l && ip, "a client"); interfere(); g_checked++; if (!in_bool("allowed")) g_allowed = false; return g_allowed; }
static bool limited(void) { return g_srv.config.rate_limit_window_seconds > 0 && g_srv.config.rate_limit_max_requests > 0; }
static size_t limit(void) { return g_srv.config.max_message_size > 0 ? g_srv.config.max_message_size : DEFAULT_MAX_MESSAGE_SIZE; }
static char g_answer[2]; static bool g_nul, g_answers;
char *handle_message(mcp_server_t *s, const void *d, size_t n, int *e)
{
    CHECK(s == &g_srv && g_mine == 1, "counted in while it is processed");
    CHECK(!g_stop_seen, "nothing is processed once shutdown was under way");
    CHECK(g_allowed, "a rate-limited message is not processed");
    CHECK(g_size <= limit(), "an oversized message is never processed");
    CHECK(n == g_size && ((const char *)d)[g_w] == g_data[g_w], "the message is the one received");
    CHECK(((const char *)d)[g_nul ? n - 1 : n] == 0, "the message is terminated");
    g_handled++;
    interfere();
    *e = in_i32("code");
    return g_answers ? g_answer : NULL;
}
#ifndef REPLAY
/* h_oversize: storage of huge messages by contract (contents do not matter) */
static bool g_huge;
static char g_room[8];
static void *huge_malloc(size_t n) { if (!g_huge) return vh_malloc(n); if (in_bool("full")) return NULL; vh_live++; return g_room; }
static void huge_free(void *p) { if (p == (void *)g_room) vh_live--; else vh_free(p); }
static void *huge_memcpy(void *d, const void *s, size_t n) { return g_huge ? d : memcpy(d, s, n); }
#undef malloc
#undef free
#define malloc(n) huge_malloc(n)
#define free(p) huge_free(p)
#define memcpy(d, s, n) huge_memcpy(d, s, n)
#else
#include <sys/mman.h>
#endif
#include "src/server/mcp_server_task.c"

static void account_run(void)
{
    vh_alloc_may_fail = 1;
    g_srv.config.max_message_size = in_size("limit");
    g_srv.config.rate_limit_window_seconds = in_size("window");
    g_srv.config.rate_limit_max_requests = in_size("max");
    g_srv.config.use_advanced_rate_limiter = in_bool("advanced");
    g_srv.rate_limiter = in_bool("lim") ? (mcp_rate_limiter_t *)&g_m : NULL;
    g_srv.advanced_rate_limiter = in_bool("alim") ? (mcp_advanced_rate_limiter_t *)&g_m : NULL;
    g_srv.shutdown_mutex = &g_m; g_srv.shutdown_cond = &g_c;
    g_srv.shutting_down = in_bool("down");
    g_stop_seen = g_srv.shutting_down;
    g_allowed = true;
    g_answers = in_bool("answers");
    g_nul = g_data[g_size - 1] == 0;
    g_w = in_size("w");
    ASSUME(g_w < g_size);
    g_others = in_i32("others0");
    ASSUME(g_others >= 0 && g_others < 1000000);
    g_srv.active_requests = g_others;
    vh_live = 0;
    int e = 12345;
    char *r = transport_message_callback(&g_srv, g_data, g_size, &e);
    account();
    CHECK(g_mine == 0, "the request is counted out on every path");
    CHECK(vh_live == 0, "the copy of the message is released");
    CHECK(!g_signal_due || g_c.signals + g_c.broadcasts > g_signals_then, "the last request to finish during shutdown wakes the waiting thread");
    CHECK(vh_locks_held == 0, "no lock is kept");
    if (g_handled) CHECK(g_handled == 1 && r == (g_answers ? g_answer : NULL), "the answer is handed on");
    else CHECK(r == NULL && e != MCP_ERROR_NONE && e != 12345, "a refusal is reported as an error");
    if (limited() && (g_srv.config.use_advanced_rate_limiter ? g_srv.advanced_rate_limiter || g_srv.rate_limiter : g_srv.rate_limiter != NULL)) CHECK(!g_handled || g_checked == 1, "the limiter is asked once");
    REACH("done");
}
void h_account(void)
{
    g_size = in_size("size");
    ASSUME(g_size >= 1 && g_size <= ((size_t)1 << 40));
    char *p = (malloc)(g_size);
    ASSUME(p != NULL);
    g_data = p;
    if (in_bool("nul")) p[g_size - 1] = 0; else p[g_size - 1] = 'x';
    account_run();
}
void h_account_small(void)
{
    static char p[4];
    for (int i = 0; i < 4; i++) p[i] = (char)in_u8("byte");
    g_size = 4; g_data = p;
    account_run();
}
void h_oversize(void)
{
    g_size = in_size("size");
    g_srv.config.max_message_size = in_size("limit");
    ASSUME(g_size > limit() && g_size <= ((size_t)1 << 32) + 64);
#ifdef REPLAY
    g_data = mmap(NULL, g_size, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_data == MAP_FAILED) vh_stop("no address space");
#else
    static char p[8];
    g_data = p; g_huge = true;
#endif
    g_srv.shutdown_mutex = &g_m; g_srv.shutdown_cond = &g_c;
    g_srv.shutting_down = in_bool("down");
    g_stop_seen = g_srv.shutting_down;
    g_allowed = true;
    g_nul = true; g_w = 0;
    int e = 12345;
    char *r = transport_message_callback(&g_srv, g_data, g_size, &e);
    account();
    CHECK(!g_handled && r == NULL && e != MCP_ERROR_NONE && e != 12345, "an oversized message is refused with an error");
    CHECK(g_mine == 0 && vh_live == 0, "the request is counted out on every path");
    REACH("done");
}
void h_args(void)
{
    g_srv.active_requests = g_others = 3;
    int e = 0; char d[1] = "x";
    CHECK(transport_message_callback(NULL, d, 1, &e) == NULL && e != 0, "refused");
    CHECK(transport_message_callback(&g_srv, NULL, 1, &e) == NULL, "refused");
    CHECK(transport_message_callback(&g_srv, d, 0, &e) == NULL, "refused");
    CHECK(transport_message_callback(&g_srv, d, 1, NULL) == NULL, "refused");
    account();
    CHECK(g_mine == 0 && g_handled == 0, "nothing counted, nothing processed");
    REACH("args");
}
