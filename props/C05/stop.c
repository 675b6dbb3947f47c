// The thread that stops the server: refuses new work before it looks at the
// count, and never sleeps when there is nothing left to wait for.
//@file funcs=mcp_server_stop,process_message_task
//@file link=src/common/mcp_types.c
//@file assume="the transport and the thread pool by contract; other threads change the count only downwards once shutdown is announced"
//@obl h_stop kind=proof unwind=8 note="arbitrary interference at every step"
//@obl h_task kind=bounded unwind=8 note="a queued message of four bytes, every limit"
#include "vh.h"
static void interfere(void);
static void at_wait(void);
#define VH_ON_LOCK(m) interfere()
#define VH_ON_WAIT(c, m) at_wait()
#include "vh_sync.h"
#include "internal/server_internal.h"
static mcp_server_t g_srv;
static struct mcp_mutex_s g_m; static struct mcp_cond_s g_c;
static int g_waits;
static void interfere(void)
{
    int n = in_i32("active");
    ASSUME(n >= 0);
    if (g_srv.shutting_down) ASSUME(n <= g_srv.active_requests);
    g_srv.active_requests = n;
}
static void at_wait(void)
{
    CHECK(g_srv.shutting_down, "new work is refused before the wait");
    CHECK(g_srv.active_requests > 0, "waits only while a request is in flight");
    g_waits++;
    interfere();
}
int mcp_transport_stop(mcp_transport_t *t) { (void)t; CHECK(g_srv.shutting_down, "new work is refused before the transport is stopped"); interfere(); return in_i32("rc"); }
int mcp_thread_pool_destroy(mcp_thread_pool_t *p) { CHECK(p && g_srv.shutting_down, "new work is refused before the workers go"); interfere(); return in_i32("rc"); }
int mcp_thread_pool_wait(mcp_thread_pool_t *p, unsigned int ms) { (void)p; (void)ms; interfere(); return in_i32("rc"); }
static bool g_big; static int g_handled;
char *handle_message(mcp_server_t *s, const void *d, size_t n, int *e)
{
    CHECK(!g_big, "an oversized message is never processed");
    CHECK(n == 3 || !g_big, "size"); g_handled++;
    *e = in_i32("code");
    char *p = NULL;
    if (in_bool("answer")) p = malloc(2);
    return p;
}
#include "src/server/mcp_server.c"
#include "src/server/mcp_server_task.c"
void h_stop(void)
{
    g_srv.running = in_bool("running");
    g_srv.config.enable_graceful_shutdown = in_bool("graceful");
    g_srv.config.graceful_shutdown_timeout_ms = in_u32("timeout");
    g_srv.transport = in_bool("transport") ? (mcp_transport_t *)&g_m : NULL;
    g_srv.thread_pool = in_bool("pool") ? (mcp_thread_pool_t *)&g_m : NULL;
    g_srv.shutdown_mutex = &g_m; g_srv.shutdown_cond = &g_c;
    g_srv.active_requests = in_i32("active0");
    ASSUME(g_srv.active_requests >= 0);
    bool was = g_srv.running;
    int r = mcp_server_stop(&g_srv);
    CHECK(r == 0, "stopped");
    if (was) CHECK(g_srv.shutting_down && !g_srv.running, "shutdown is announced");
    CHECK(vh_locks_held == 0, "no lock is kept");
    REACH("stop");
}
void h_task(void)
{
    message_task_data_t *t = malloc(sizeof *t);
    char *d = malloc(4);
    if (!t || !d) return;
    d[0] = (char)in_u8("c"); d[1] = (char)in_u8("c"); d[2] = (char)in_u8("c"); d[3] = 0;
    t->server = &g_srv; t->transport = (mcp_transport_t *)&g_m; t->message_data = d; t->message_size = 4;
    g_srv.config.max_message_size = in_size("limit");
    g_big = 4 > (g_srv.config.max_message_size > 0 ? g_srv.config.max_message_size : DEFAULT_MAX_MESSAGE_SIZE);
    process_message_task(t);
    CHECK(vh_live == 0, "the task and its message are released");
    CHECK(g_handled == !g_big, "processed once");
    REACH("task");
}
