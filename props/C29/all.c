// The whole registry with up to four slots, and what one event looks like.
//@file funcs=dynamic_sse_clients_create,dynamic_sse_clients_destroy
//@obl h_all kind=bounded unwind=9 note="registries of 1-4 slots, every occupancy: add (with growth), remove, count, clean up, broadcast"
//@obl h_life kind=bounded unwind=9 note="creation to destruction, each allocation failing in turn"
#include "vh_sync.h"
#include "src/transport/mcp_sthttp_dynamic_utils.c"
static char g_obj[12]; static int g_sent[12]; static bool g_up[12], g_can[12];
#define W(i) ((struct lws *)(void *)&g_obj[i])
int lws_get_socket_fd(struct lws *w) { int k = (int)((char *)w - g_obj); CHECK(k >= 0 && k < 12, "a client"); return g_up[k] ? 3 : -1; }
int send_sse_event(struct lws *w, const char *i, const char *t, const char *d) { int k = (int)((char *)w - g_obj); g_sent[k]++; return g_can[k] ? 0 : -1; }
int send_sse_heartbeat_to_wsi(struct lws *w) { int k = (int)((char *)w - g_obj); g_sent[k]++; return g_can[k] ? 0 : -1; }
void add_streamable_cors_headers(struct lws *w, sthttp_transport_data_t *d, unsigned char **p, unsigned char *e) {}
static int slots(dynamic_sse_clients_t *c, int k) { int n = 0; for (size_t i = 0; i < c->capacity; i++) if (c->clients[i] == W(k)) n++; return n; }
static void check(dynamic_sse_clients_t *c, size_t n, unsigned mask)
{
    size_t have = 0;
    CHECK(c->capacity >= n, "room");
    for (int k = 0; k < 6; k++) { int s = slots(c, k); CHECK(s == (mask >> k & 1 ? 1 : 0), "every registered client occupies one slot, others none"); have += s; }
    size_t occupied = 0; for (size_t i = 0; i < c->capacity; i++) if (c->clients[i]) occupied++;
    CHECK(occupied == have && dynamic_sse_clients_count(c) == have, "the counter equals the registered clients");
}
static void one(size_t cap, unsigned mask)
{
    static dynamic_sse_clients_t c; static mcp_mutex_t m; m.held = 0; m.alive = 1;
    c.mutex = &m; c.capacity = cap; c.count = 0;
    c.clients = (struct lws **)malloc(cap * sizeof(struct lws *)); if (!c.clients) return;
    for (size_t i = 0; i < cap; i++) { c.clients[i] = mask >> i & 1 ? W(i) : NULL; if (mask >> i & 1) c.count++; }
    for (int k = 0; k < 6; k++) { g_up[k] = in_bool("up"); g_can[k] = in_bool("can"); g_sent[k] = 0; }
    CHECK(dynamic_sse_clients_add(&c, W(5)) == 0, "registered");
    unsigned now = mask | 1u << 5; check(&c, cap, now);
    int want = 0; for (int k = 0; k < 6; k++) if (now >> k & 1 && g_up[k] && g_can[k]) want++;
    CHECK(dynamic_sse_clients_broadcast(&c, NULL, "message", "x") == want, "the number of clients told");
    for (int k = 0; k < 6; k++) CHECK(g_sent[k] == (now >> k & 1 && g_up[k] ? 1 : 0), "each connected client once");
    CHECK(dynamic_sse_clients_broadcast_heartbeat(&c) == want, "the number of clients told");
    for (int k = 0; k < 6; k++) CHECK(g_sent[k] == (now >> k & 1 && g_up[k] ? 2 : 0), "each connected client once");
    check(&c, cap, now);
    for (size_t k = 0; k < cap; k++) if (k == (cap - 1) / 2) {
        int r = dynamic_sse_clients_remove(&c, W(k)); CHECK(r == (mask >> k & 1 ? 0 : -1), "removed if registered"); now &= ~(1u << k); check(&c, cap, now);
    }
    size_t dead = 0; for (int k = 0; k < 6; k++) if (now >> k & 1 && !g_up[k]) { now &= ~(1u << k); dead++; }
    CHECK(dynamic_sse_clients_cleanup(&c) == dead, "the disconnected clients are taken out"); check(&c, cap, now);
    free(c.clients);
    CHECK(vh_live == 0, "one array");
}
void h_all(void) { for (size_t cap = 1; cap <= 4; cap++) for (unsigned m = 0; m < 1u << cap; m++) one(cap, m); REACH("all"); }
void h_life(void)
{
    for (int f = -1; f < 5; f++) {
        vh_fail_point(f);
        dynamic_sse_clients_t *c = dynamic_sse_clients_create(2);
        if (!c) { CHECK(vh_alloc_failed && vh_live == 0, "nothing is left behind"); continue; }
        unsigned mask = 0;
        for (int k = 0; k < 5; k++) { g_up[k] = true; int r = dynamic_sse_clients_add(c, W(k)); if (r == 0) mask |= 1u << k; else CHECK(vh_alloc_failed, "refused only without memory"); check(c, 0, mask); }
        dynamic_sse_clients_destroy(c);
        CHECK(vh_live == 0, "all memory is released");
    }
    vh_fail_point(-1);
    dynamic_sse_clients_t *c = dynamic_sse_clients_create(0); CHECK(c && c->capacity > 0, "a default size"); dynamic_sse_clients_destroy(c);
    REACH("life");
}
