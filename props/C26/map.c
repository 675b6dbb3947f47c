// The index from event id to position, with chains of
// every length (loop invariants in map.json).  The chain selected by the id is
//   (run of other ids) (the id, if stored) (run of other ids)
// where a run stands for any number of entries.
//@file funcs=event_hash_map_put,event_hash_map_get,event_hash_map_remove loops=map.json
//@file assume="the hash of an id is a function of its bytes (hash_event_id by contract)"
//@obl h_get kind=proof unwind=2 loops=1 replace=hash_event_id:spec_hash abstract=1 standin=h_script note="every hash and chain length"
//@obl h_put kind=proof unwind=2 loops=1 replace=hash_event_id:spec_hash abstract=1 standin=h_script note="every hash and chain length"
//@obl h_remove kind=proof unwind=2 loops=1 replace=hash_event_id:spec_hash abstract=1 standin=h_script note="every hash and chain length"
#include "vh.h"
#ifdef REPLAY
#include <sys/mman.h>
#define LAST 1 /* natively a run is one entry */
#else
#define LAST 0
#endif
#include "vh_sync.h"
#include "internal/sthttp_transport_internal.h"
#include "mcp_log.h"
#include <string.h>
#define mcp_log_log(...) ((void)0)
static int cmp(const char *x, const char *y);
#undef strcmp
#define strcmp(x, y) cmp(x, y)
typedef event_hash_entry_t node;
extern node g_a, *g_v, g_z; extern bool g_has_a, g_has_v, g_has_z;
#define AFTER_A (g_has_v ? g_v : g_has_z ? &g_z : (node *)0)
#include "src/transport/mcp_sthttp_dynamic_utils.c"
#undef strcmp
node g_a, *g_v, g_z; bool g_has_a, g_has_v, g_has_z;
char g_ka[2], g_kz[2], g_key[2], *g_kv; uint32_t g_hash; event_hash_map_t g_t; mcp_mutex_t g_m; size_t g_idx; node *g_bucket; size_t g_pv;
int send_sse_event(struct lws *w, const char *i, const char *t, const char *d) { return 0; }
int send_sse_heartbeat_to_wsi(struct lws *w) { return 0; }
int lws_get_socket_fd(struct lws *w) { return 0; }
void add_streamable_cors_headers(struct lws *w, sthttp_transport_data_t *d, unsigned char **p, unsigned char *e) {}
char *mcp_strdup(const char *s) { CHECK(s == g_key, "a copy of the id"); char *p = (char *)malloc(2); if (p) p[0] = 'n'; return p; }
uint32_t spec_hash(const char *k) { CHECK(k == g_key, "the hash of the id asked for"); return g_hash; }
static int cmp(const char *x, const char *y)
{
    const char *k = x == g_key ? y : x;
    CHECK(x == g_key || y == g_key, "compared with the id asked for");
    if (k == g_ka) { if (in_bool("leave_a") || LAST) g_a.next = AFTER_A; return 1; }
    if (k == g_kz) { if (in_bool("leave_z") || LAST) g_z.next = NULL; return -1; }
    CHECK(k == g_kv, "an id of the chain");
    return 0;
}
static void table(void)
{
    vh_reset();
    g_m.held = 0; g_m.alive = 1; vh_locks_held = 0; vh_lock_ops = 0; g_t.mutex = &g_m;
    g_t.bucket_count = STHTTP_EVENT_HASH_INITIAL_SIZE;
#ifdef REPLAY
    g_hash = hash_event_id(g_key);
#else
    g_hash = in_u32("hash");
#endif
    g_idx = g_hash % g_t.bucket_count;
#ifdef REPLAY
    g_t.buckets = (node **)mmap(NULL, g_t.bucket_count * sizeof(void *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#else
    g_t.buckets = &g_bucket - g_idx;
#endif
    g_has_a = in_bool("a"); g_has_v = in_bool("v"); g_has_z = in_bool("z");
    g_v = (node *)malloc(sizeof *g_v); g_kv = (char *)malloc(2); ASSUME(g_v && g_kv); g_pv = in_size("pos");
    g_a.event_id = g_ka; g_a.position = 11; g_a.next = in_bool("one_a") ? AFTER_A : &g_a;
    g_z.event_id = g_kz; g_z.position = 22; g_z.next = in_bool("one_z") ? NULL : &g_z;
    g_v->event_id = g_kv; g_v->position = g_pv; g_v->next = g_has_z ? &g_z : NULL;
    g_t.buckets[g_idx] = g_has_a ? &g_a : AFTER_A;
    g_t.entry_count = in_size("n"); ASSUME(g_t.entry_count >= 1 && g_t.entry_count < ((size_t)1 << 40));
}
static void others(void)
{
    if (g_has_a) CHECK(g_a.event_id == g_ka && g_a.position == 11, "the entries before stay");
    if (g_has_z) CHECK(g_z.event_id == g_kz && g_z.position == 22, "the entries behind stay");
    CHECK(!g_m.held, "the lock is released");
}
void h_get(void)
{
    table();
    size_t p = 99; int r = event_hash_map_get(&g_t, g_key, &p);
    CHECK((r == 0) == g_has_v && (r == 0 || r == -1) && p == (g_has_v ? g_pv : 99), "the position stored for the id, if any");
    if (g_has_a) CHECK(g_t.buckets[g_idx] == &g_a, "unchanged");
    others(); REACH("got");
}
void h_put(void)
{
    table();
    long live = vh_live; size_t n = g_t.entry_count; vh_alloc_may_fail = 1;
    int r = event_hash_map_put(&g_t, g_key, 77);
    if (g_has_v) {
        CHECK(r == 0 && g_v->position == 77 && g_v->event_id == g_kv && g_t.entry_count == n && vh_live == live, "the position is replaced");
        if (g_has_a) CHECK(g_t.buckets[g_idx] == &g_a && g_a.next != NULL, "in its place");
    } else if (r == 0) {
        node *f = g_t.buckets[g_idx];
        if (f == &g_a) f = g_a.next;
        if (f == &g_z) f = g_z.next;
        if (f == &g_a) f = g_a.next;
        CHECK(f && f != &g_a && f != &g_z && f->position == 77 && f->event_id[0] == 'n' && g_t.entry_count == n + 1 && vh_live == live + 2, "the id is in the chain of its hash");
        if (f->next) CHECK(f->next == (g_has_a ? &g_a : &g_z), "with what follows");
    } else CHECK(r == -1 && vh_alloc_failed && g_t.entry_count == n && vh_live == live && g_t.buckets[g_idx] == (g_has_a ? &g_a : AFTER_A), "a failed insertion changes nothing");
    others(); REACH("put");
}
void h_remove(void)
{
    table();
    long live = vh_live; size_t n = g_t.entry_count;
    int r = event_hash_map_remove(&g_t, g_key);
    CHECK((r == 0) == g_has_v && g_t.entry_count == n - g_has_v && vh_live == live - 2 * g_has_v, "the entry and its id are released");
    if (g_has_a) CHECK(g_t.buckets[g_idx] == &g_a, "the entries before stay");
    if (g_has_v) CHECK((g_has_a ? g_a.next : g_t.buckets[g_idx]) == (g_has_z ? &g_z : NULL), "the entries behind are linked to those before");
    others(); REACH("removed");
}
