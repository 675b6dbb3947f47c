// The registry of server-push clients with any number of slots.  g_w is an
// arbitrary slot that is watched, g_e one that is free whenever fewer clients
// than slots are registered; the rest of the array is arbitrary.  The registry
// is the one found when its lock is taken and reads as garbage without it.
//@file funcs=dynamic_sse_clients_add,grow_clients_array,dynamic_sse_clients_remove,dynamic_sse_clients_cleanup,dynamic_sse_clients_broadcast,dynamic_sse_clients_broadcast_heartbeat,dynamic_sse_clients_count loops=clients.json
//@file assume="the counter equals the number of occupied slots when an operation starts (shown to be kept by each of them)"
//@obl h_add kind=proof unwind=2 loops=1 abstract=1 standin=h_all note="any number of slots, every occupancy, growth and failing growth"
//@obl h_remove kind=proof unwind=2 loops=1 abstract=1 standin=h_all note="any number of slots, every occupancy"
//@obl h_cleanup kind=proof unwind=2 loops=1 abstract=1 standin=h_all note="any number of slots, every occupancy"
//@obl h_broadcast kind=proof unwind=2 loops=1 abstract=1 standin=h_all note="any number of slots, every occupancy"
//@obl h_heartbeat kind=proof unwind=2 loops=1 abstract=1 standin=h_all note="any number of slots, every occupancy"
#include "vh.h"
static void on_lock(void); static void on_unlock(void);
#define VH_ON_LOCK(m) on_lock()
#define VH_ON_UNLOCK(m) on_unlock()
#include "vh_sync.h"
#include "internal/sthttp_transport_internal.h"
#include "mcp_log.h"
#define mcp_log_log(...) ((void)0)
static void *spy_realloc(void *p, size_t n);
#undef realloc
#define realloc(p, n) spy_realloc(p, n)
size_t g_w, g_e, g_cap, g_count, g_sends, g_alive_n, g_dead_n; struct lws *g_wv, **g_arr, **g_arr2; bool g_has_e, g_alive_w, g_grown; int g_sent_w, g_asked_w;
#include "src/transport/mcp_sthttp_dynamic_utils.c"
dynamic_sse_clients_t g_c; mcp_mutex_t g_m; bool g_track, g_deny; char g_obj[4]; char g_garbage[1];
struct lws **g_end; size_t g_end_cap, g_end_count;
#define NEW ((struct lws *)(void *)&g_obj[0])
#define OTHER ((struct lws *)(void *)&g_obj[1])
#define FILL ((struct lws *)(void *)&g_obj[2])
static void on_lock(void) { if (!g_track) return; g_c.clients = g_arr; g_c.capacity = g_cap; g_c.count = g_count; }
static void on_unlock(void)
{
    if (!g_track) return;
    g_end = g_c.clients; g_end_cap = g_c.capacity; g_end_count = g_c.count;
    g_c.clients = (struct lws **)(void *)g_garbage; g_c.capacity = in_size("c2"); g_c.count = in_size("n2");
}
static void *spy_realloc(void *p, size_t n)
{
    CHECK(p == g_arr && n / sizeof(struct lws *) > g_cap, "the array grows");
    if (g_deny) return NULL;
#ifdef REPLAY
    g_arr2 = (struct lws **)(vh_realloc)(p, n);
#else
    g_arr2 = (struct lws **)(vh_malloc)(n);
    if (!g_arr2) return NULL;
    if (g_w < g_cap) g_arr2[g_w] = g_wv;
    if (g_e < g_cap) g_arr2[g_e] = g_arr[g_e];
#endif
    g_grown = true;
    return g_arr2;
}
int lws_get_socket_fd(struct lws *w)
{
    bool alive = in_bool("alive"); if (w == g_wv) { alive = g_alive_w; g_asked_w++; }
    if (alive) g_alive_n++; else g_dead_n++;
    return alive ? 3 : -1;
}
static int sent(struct lws *w) { g_sends++; if (w == g_wv) g_sent_w = 1; return in_bool("fail") ? -1 : 0; }
static const char *g_id, *g_type, *g_data; static const char t_id[] = "i", t_type[] = "t", t_data[] = "d";
int send_sse_event(struct lws *w, const char *i, const char *t, const char *d) { CHECK(i == t_id && t == t_type && d == t_data, "the same event for all"); return sent(w); }
int send_sse_heartbeat_to_wsi(struct lws *w) { return sent(w); }
void add_streamable_cors_headers(struct lws *w, sthttp_transport_data_t *d, unsigned char **p, unsigned char *e) {}
static void state(void)
{
    vh_reset();
    g_m.held = 0; g_m.alive = 1; vh_locks_held = 0; vh_lock_ops = 0; g_c.mutex = &g_m; g_track = true; g_deny = in_bool("deny"); g_grown = false;
    g_cap = in_u16("cap"); ASSUME(g_cap >= 1); g_count = in_size("count"); ASSUME(g_count <= g_cap);
    g_w = in_size("w"); ASSUME(g_w < g_cap * 2);
    g_e = in_size("e"); ASSUME(g_e < g_cap); g_has_e = g_count < g_cap;
    g_arr = (struct lws **)(vh_malloc)(g_cap * sizeof(struct lws *)); ASSUME(g_arr != NULL);
#ifdef REPLAY
    /* the number of occupied slots is the counter */
    size_t left = g_count;
    for (size_t i = 0; i < g_cap; i++) g_arr[i] = NULL;
#endif
    g_wv = in_bool("w_used") ? OTHER : NULL;
    if (g_w < g_cap) g_arr[g_w] = g_wv;
    if (g_has_e) { ASSUME(g_e != g_w || g_wv == NULL); g_arr[g_e] = NULL; }
    if (g_w < g_cap && g_wv) ASSUME(g_count >= 1);
#ifdef REPLAY
    if (g_w < g_cap && g_wv) left--;
    for (size_t i = 0; i < g_cap && left; i++) if (i != g_w && !(g_has_e && i == g_e)) { g_arr[i] = FILL; left--; }
    ASSUME(left == 0);
#endif
    g_end = g_arr; g_end_cap = g_cap; g_end_count = g_count; g_alive_w = in_bool("alive_w"); g_sent_w = 0; g_asked_w = 0; g_sends = g_alive_n = g_dead_n = 0;
    g_c.clients = (struct lws **)(void *)g_garbage; g_c.capacity = in_size("c1"); g_c.count = in_size("n1");
}
void h_add(void)
{
    state();
    int r = dynamic_sse_clients_add(&g_c, NEW);
    CHECK(g_end_cap >= g_cap && (g_end_cap == g_cap ? g_end == g_arr : g_end == g_arr2), "the array and its size belong together");
    if (r == 0) {
        CHECK(g_end_count == g_count + 1, "one client more");
        if (g_w < g_cap) CHECK(g_end[g_w] == g_wv || (g_wv == NULL && g_end[g_w] == NEW), "no other client is displaced");
        else if (g_w < g_end_cap) CHECK(g_end[g_w] == NULL || g_end[g_w] == NEW, "new slots are free");
        if (g_has_e) CHECK(!g_grown, "grows only when full");
    } else CHECK(r == -1 && g_deny && !g_has_e && g_end_count == g_count && (g_w >= g_cap || g_end[g_w] == g_wv), "refused only without memory, without effect");
    CHECK(!g_m.held, "the lock is released");
    REACH("added");
}
void h_remove(void)
{
    state(); ASSUME(g_w < g_cap); ASSUME(g_count >= 1);
    size_t w2 = in_size("w2"); ASSUME(w2 < g_cap && w2 != g_w); struct lws *v2 = g_arr[w2];
    int r = dynamic_sse_clients_remove(&g_c, OTHER);
    CHECK(r == 0 || (r == -1 && g_wv != OTHER), "a registered client is found");
    CHECK(g_end_count == g_count - (r == 0 ? 1 : 0) && g_end_cap == g_cap && g_end == g_arr, "and counted out");
    CHECK(g_end[g_w] == g_wv || (r == 0 && g_wv == OTHER && g_end[g_w] == NULL), "no other client is removed");
    CHECK(g_end[w2] == v2 || (r == 0 && v2 == OTHER && g_end[w2] == NULL), "no other client is removed");
    CHECK(g_end[g_w] == g_wv || g_end[w2] == v2, "one slot at most is cleared");
    CHECK(!g_m.held, "the lock is released");
    REACH("removed");
}
void h_cleanup(void)
{
    state(); ASSUME(g_w < g_cap);
    size_t n = dynamic_sse_clients_cleanup(&g_c);
    CHECK(g_end_count == g_alive_n && n == g_dead_n && g_alive_n + g_dead_n <= g_cap, "the counter equals the clients left");
    CHECK(g_end == g_arr && g_end_cap == g_cap && g_end[g_w] == (g_wv && g_alive_w ? g_wv : NULL), "exactly the disconnected ones are taken out");
    CHECK(!g_m.held, "the lock is released");
    REACH("cleaned");
}
static void told(int n)
{
    CHECK(n >= 0 && (size_t)n <= g_sends && g_sends <= g_cap, "at most one message per slot");
    if (g_wv && g_alive_w) CHECK(g_sent_w, "every connected client gets it");
    if (g_wv && !g_alive_w) CHECK(!g_sent_w, "no other does");
    CHECK(g_end == g_arr && g_end_cap == g_cap && g_end_count == g_count && g_end[g_w] == g_wv, "the registry is unchanged");
    CHECK(!g_m.held, "the lock is released");
}
void h_broadcast(void) { state(); ASSUME(g_w < g_cap); told(dynamic_sse_clients_broadcast(&g_c, t_id, t_type, t_data)); REACH("sent"); }
void h_heartbeat(void) { state(); ASSUME(g_w < g_cap); told(dynamic_sse_clients_broadcast_heartbeat(&g_c)); REACH("sent"); }
