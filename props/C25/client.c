// The receiving thread: every event of the stream reaches the callback once, however it arrives.
//@file subst=client.json funcs=sse_client_thread_func,sse_free_event
//@file assume="buffers of 8 or 24 bytes instead of 64-1024; sockets by their contract; no NUL bytes in the stream"
//@obl h_client kind=bounded unwind=60 objbits=12 note="a stream of three events received in chunks of 1, 7 and 20 bytes"
#include "vh.h"
#include "vh_sync.h"
#include "src/transport/internal/sthttp_client_internal.h"
#include "src/transport/internal/sthttp_transport_internal.h"
#include <string.h>
char *mcp_strdup(const char *s) { if (!s) return NULL; int n = 0; while (s[n]) n++; char *p = (char *)malloc((size_t)n + 1); if (p) for (int i = 0; i <= n; i++) p[i] = s[i]; return p; }
static ssize_t spy_recv(int fd, void *b, size_t n, int f);
#define recv(fd, b, n, f) spy_recv((int)(fd), b, n, f)
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
#endif
#include "src/transport/mcp_sthttp_client_sse.c"
#include "src/transport/mcp_sthttp_sse_parser.c"
#undef recv
static const char S[] = "id: 1\ndata: ab\ndata: i\n\nevent:go\n\ndata:z\n\n"; static int g_at, g_step, g_seen; static sthttp_client_data_t g_d; static sse_connection_t g_c; static int g_polls;
int mcp_socket_wait_readable(socket_t s, int ms, volatile bool *stop) { if (++g_polls % 4 == 2) return 0; return 1; }
static ssize_t spy_recv(int fd, void *b, size_t n, int f)
{ int k = 0; while (k < g_step && (size_t)k < n && S[g_at]) { ((char *)b)[k++] = S[g_at++]; } return k; }
void http_client_update_stats(sthttp_client_data_t *d, const char *s) {}
void http_client_set_state(sthttp_client_data_t *d, mcp_client_connection_state_t s) {}
static bool same(const char *a, const char *b) { if (!a || !b) return a == b; int i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
static void cb(mcp_transport_t *t, const char *id, const char *ev, const char *data, void *u)
{
    static const char *I[] = {"1", NULL, NULL}, *E[] = {NULL, "go", NULL}, *D[] = {"ab\ni", NULL, "z"};
    CHECK(g_seen < 3 && same(id, I[g_seen]) && same(ev, E[g_seen]) && same(data, D[g_seen]), "the next event of the stream"); CHECK(u == (void *)S && vh_locks_held == 0, "to its receiver"); g_seen++;
}
void h_client(void)
{
    static const int STEP[] = {1, 7, 20};
    for (int k = 0; k < 3; k++) {
        memset(&g_d, 0, sizeof g_d); memset(&g_c, 0, sizeof g_c); g_d.sse_mutex = mcp_mutex_create(); g_d.sse_conn = &g_c; g_c.sse_thread_running = true; g_c.connected = true; g_d.sse_callback = cb; g_d.sse_callback_user_data = (void *)S; g_c.buffer_size = 64; g_c.buffer = (char *)malloc(64);
        g_at = 0; g_step = STEP[k]; g_seen = 0; g_polls = 0;
        sse_client_thread_func(&g_d);
        CHECK(g_seen == 3, "every event"); CHECK(same(g_c.last_event_id, "1"), "the id of the last event that has one");
        free(g_c.last_event_id); free(g_c.buffer); mcp_mutex_destroy(g_d.sse_mutex); CHECK(vh_live == 0, "nothing is lost");
    }
    REACH("done");
}
