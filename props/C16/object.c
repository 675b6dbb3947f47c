// The object pool from an arbitrary state: every thread-cache slot and fill
// level, any counters, an arbitrary free list (only its head matters).  List and
// counters are the ones found when the lock is taken; without it they read as
// garbage.  The usage counter changes under our feet except through the atomic
// operations.
//@file funcs=mcp_object_pool_acquire,mcp_object_pool_release,allocate_new_object,find_tls_cache,create_tls_cache,mcp_object_pool_get_free_count,mcp_object_pool_create,mcp_object_pool_destroy
//@obl h_acquire kind=proof unwind=10 note="every cache slot and fill level, free list and counter value"
//@obl h_release kind=proof unwind=10 note="every cache slot and fill level, free list and counter value"
//@obl h_evict kind=proof unwind=10 note="every fill level of the evicted cache"
//@obl h_free_count kind=proof unwind=10
//@obl h_create_size kind=proof unwind=3 note="every object size and number of objects"
//@obl h_block_size kind=bounded unwind=6 note="every size; 1, 2, 4, 16 or 256 objects at first"
//@obl h_create kind=bounded unwind=5 note="0-3 objects of 5 sizes"
//@obl h_script kind=bounded unwind=10 note="a pool of at most 3 objects: filled, emptied and destroyed, each allocation failing in turn"
#include "vh.h"
static void on_lock(void *m); static void on_unlock(void *m);
#define VH_ON_LOCK(m) on_lock(m)
#define VH_ON_UNLOCK(m) on_unlock(m)
#include "vh_sync.h"
#include "mcp_object_pool.h"
#include <stdlib.h>
static void *spy(size_t n); static void spy_free(void *p); static size_t at_add(size_t *p, size_t v);
static int spy_memalign(void **pp, size_t n) { *pp = spy(n); return *pp ? 0 : 12; }
#undef malloc
#undef free
#undef aligned_alloc
#define malloc(n) spy(n)
#define posix_memalign(pp, a, n) spy_memalign(pp, n)
#define aligned_alloc(a, n) spy(n)
#define free(p) spy_free(p)
#define __sync_add_and_fetch(p, v) at_add(p, (size_t)(v))
#define __sync_sub_and_fetch(p, v) at_add(p, (size_t)0 - (size_t)(v))
#define __sync_fetch_and_add(p, v) (at_add(p, (size_t)(v)) - (size_t)(v))
#define __sync_fetch_and_sub(p, v) (at_add(p, (size_t)0 - (size_t)(v)) + (size_t)(v))
#include "src/common/mcp_object_pool.c"
#undef malloc
#undef free
#define malloc(n) (vh_malloc)(n)
#define free(p) (vh_free)(p)

#define SLOTS 8
#define DEPTH 8
typedef struct { mcp_pool_node_t n; } cell;
static cell g_c[DEPTH], g_q[DEPTH], g_head, g_head2, g_x, g_new;
static mcp_object_pool_t g_p, g_o[SLOTS]; static mcp_mutex_t g_m, g_m2;
static bool g_track; static size_t g_use, g_total, g_free, g_end_total, g_end_free; static mcp_pool_node_t *g_list, *g_end_list; static char g_garbage[1];
static int g_mode; /* 0: one block; 1: heap; 2: the structure, then nothing */
static size_t g_asked, g_block; static int g_nasked; static bool g_deny;
static void *spy(size_t n)
{
    if (g_mode == 1) return (vh_malloc)(n);
    g_asked = n; g_nasked++; if (g_nasked == 2) g_block = n;
    if (g_mode == 2) { if (g_nasked == 1) return &g_p; return NULL; }
    return g_deny ? NULL : &g_new;
}
static void spy_free(void *p) { if (g_mode == 1) (vh_free)(p); }
static size_t at_add(size_t *p, size_t v)
{
    if (g_track && p == &g_p.current_usage) { g_use += v; size_t r = g_use; *p = in_size("usage"); return r; }
    return *p += v;
}
static void on_lock(void *m)
{
    if (!g_track || m != &g_m) return;
    g_p.free_list_head = g_list; g_p.total_objects = g_total; g_p.free_objects = g_free;
}
static void on_unlock(void *m)
{
    if (!g_track || m != &g_m) return;
    g_end_list = g_p.free_list_head; g_end_total = g_p.total_objects; g_end_free = g_p.free_objects;
    g_p.free_list_head = (mcp_pool_node_t *)(void *)g_garbage; g_p.total_objects = in_size("t2"); g_p.free_objects = in_size("f2");
}
static int g_slot; static size_t g_cached;
static void state(void)
{
    vh_reset(); g_mode = 0; g_nasked = 0; g_deny = in_bool("deny"); g_track = true;
    g_m.held = 0; g_m.alive = 1; g_m2.held = 0; g_m2.alive = 1; vh_locks_held = 0; vh_lock_ops = 0;
    g_p.lock = &g_m; g_p.object_size = in_size("size"); ASSUME(g_p.object_size >= 64 && g_p.object_size < ((size_t)1 << 40));
    g_p.aligned_size = MCP_OBJECT_ALIGN_UP(g_p.object_size); g_p.max_capacity = in_size("max");
    g_total = in_size("total"); g_free = in_size("free"); g_use = in_size("use");
    ASSUME(g_total < ((size_t)1 << 40) && g_free <= g_total && (g_p.max_capacity == 0 || g_total <= g_p.max_capacity));
    g_list = in_bool("have_free") ? &g_head.n : NULL; ASSUME((g_list != NULL) == (g_free > 0));
    g_head.n.next = in_bool("second") ? &g_head2.n : NULL;
    /* the thread caches: of this pool in one slot (or none), of other pools or unused */
    g_slot = (int)in_u8("slot"); ASSUME(g_slot <= SLOTS);
    size_t lim = in_u8("cached"); ASSUME(lim <= DEPTH);
    for (int i = 0; i < SLOTS; i++) {
        bool other = in_bool("other");
        tls_caches[i].pool = i == g_slot ? &g_p : other ? &g_o[i] : NULL;
        tls_caches[i].count = i == g_slot ? lim : 0;
    }
    g_cached = g_slot < SLOTS ? lim : 0;
    for (int i = 0; i < SLOTS; i++) if (i == g_slot) for (int k = 0; k < DEPTH; k++) tls_caches[i].objects[k] = &g_c[k];
    g_end_list = g_list; g_end_total = g_total; g_end_free = g_free;
    g_p.free_list_head = (mcp_pool_node_t *)(void *)g_garbage; g_p.total_objects = in_size("t1"); g_p.free_objects = in_size("f1"); g_p.current_usage = in_size("u1"); g_p.peak_usage = SIZE_MAX;
}
/* how often an object is in this thread's cache of the pool */
static int cached(const void *o)
{
    int n = 0;
    for (int i = 0; i < SLOTS; i++) if (tls_caches[i].pool == &g_p) for (int k = 0; k < DEPTH; k++) if ((size_t)k < tls_caches[i].count && tls_caches[i].objects[k] == o) n++;
    return n;
}
static size_t fill(void)
{ size_t n = 0; for (int i = 0; i < SLOTS; i++) if (tls_caches[i].pool == &g_p) n += tls_caches[i].count; return n; }
void h_acquire(void)
{
    state();
    mcp_pool_node_t *second = g_head.n.next;
    size_t use = g_use;
    void *o = mcp_object_pool_acquire(&g_p);
    CHECK(g_use == use + (o ? 1 : 0), "the usage counter follows");
    CHECK(fill() + g_end_free + (g_end_list == g_list && fill() == g_cached ? 0 : 1) == g_cached + g_free, "one object less is free, or none");
    if (o == &g_new) {
        CHECK(g_end_total == g_total + 1 && (g_p.max_capacity == 0 || g_end_total <= g_p.max_capacity), "a new object is counted and within the limit");
        CHECK(g_nasked == 1 && g_asked >= g_p.object_size && g_end_free == g_free && g_end_list == g_list && fill() == g_cached, "and is of the promised size");
    } else if (o == &g_head) {
        CHECK(g_list == &g_head.n && g_end_list == second && g_end_free == g_free - 1 && g_end_total == g_total && fill() == g_cached, "a free object is off the list");
    } else if (o) {
        int k = (int)((cell *)o - g_c); CHECK(k >= 0 && (size_t)k < g_cached && o == &g_c[k], "an object of this thread's cache");
        CHECK(cached(o) == 0 && fill() == g_cached - 1 && g_end_free == g_free && g_end_list == g_list && g_end_total == g_total, "is out of the cache");
        int w = (int)in_u8("w"); if (w < DEPTH && w != k && (size_t)w < g_cached) CHECK(cached(&g_c[w]) == 1, "the others stay");
    } else {
        CHECK(g_cached == 0 && g_list == NULL && g_end_total == g_total && g_end_free == g_free && g_end_list == NULL, "none only if none is free");
        CHECK(g_deny || (g_p.max_capacity > 0 && g_total >= g_p.max_capacity), "and none may be added");
    }
    CHECK(!g_m.held, "the lock is released");
    REACH("acquired");
}
void h_release(void)
{
    state();
    size_t use = g_use;
    /* one of this pool's objects in use */
    CHECK(mcp_object_pool_release(&g_p, &g_x), "taken back");
    CHECK(g_use == use - 1, "the usage counter follows");
    bool listed = g_end_list == &g_x.n;
    CHECK(cached(&g_x) + (listed ? 1 : 0) == 1, "the object is free once");
    CHECK(!listed || g_x.n.next == g_list, "in front of the others");
    CHECK(listed || g_end_list == g_list, "else the list is as before");
    CHECK(fill() + g_end_free == g_cached + g_free + 1 && g_end_free == g_free + (listed ? 1 : 0) && g_end_total == g_total, "and counted");
    int w = (int)in_u8("w"); if (w < DEPTH && (size_t)w < g_cached) CHECK(cached(&g_c[w]) == 1, "cached objects stay cached");
    CHECK(!g_m.held, "the lock is released");
    REACH("released");
}
/* a ninth pool takes over a slot: the objects cached there go back to their pool */
void h_evict(void)
{
    state(); g_track = false;
    for (int i = 0; i < SLOTS; i++) { g_o[i].lock = &g_m2; g_o[i].free_list_head = NULL; g_o[i].free_objects = 0; tls_caches[i].pool = &g_o[i]; tls_caches[i].count = 0; }
    g_p.free_list_head = NULL; g_p.free_objects = 0;
    int at = 0; size_t n = in_u8("n"); ASSUME(n <= DEPTH);
    tls_caches[at].count = n; for (int k = 0; k < DEPTH; k++) tls_caches[at].objects[k] = &g_q[k];
    mcp_pool_node_t *old = in_bool("had") ? &g_head2.n : NULL; g_head2.n.next = NULL;
    g_o[at].free_list_head = old; g_o[at].free_objects = 5;
    CHECK(mcp_object_pool_release(&g_p, &g_x), "taken back");
    CHECK(fill() + g_p.free_objects == 1 && cached(&g_x) + (g_p.free_list_head == &g_x.n) == 1, "the object is free once");
    if (tls_caches[at].pool != &g_o[at]) {
        size_t seen = 0; mcp_pool_node_t *x = g_o[at].free_list_head; bool mark[DEPTH] = {false};
        for (int s = 0; s < DEPTH && x && x != old; s++, x = x->next) {
            int k = (int)((cell *)x - g_q); CHECK(k >= 0 && (size_t)k < n && !mark[k], "every cached object once"); mark[k] = true; seen++;
        }
        CHECK(seen == n && x == old && g_o[at].free_objects == 5 + n, "all of them are back in their pool");
    } else CHECK(tls_caches[at].count == n, "or still cached");
    CHECK(!g_m2.held && !g_m.held, "the lock is released");
    REACH("evicted");
}
void h_free_count(void)
{
    state(); ASSUME(g_free < ((size_t)1 << 40));
    CHECK(mcp_object_pool_get_free_count(&g_p) == g_free + g_cached, "free objects, cached ones included");
    REACH("counted");
}
void h_create_size(void)
{
    vh_reset(); g_mode = 2; g_track = false; g_nasked = 0;
    size_t size = in_size("size"), n = in_size("n"), max = in_size("max");
    ASSUME(n > 0 && max >= n);
    mcp_object_pool_t *p = mcp_object_pool_create(size, n, max);
    CHECK(p == NULL, "no memory for the objects");
    if (g_nasked >= 2) CHECK(g_asked >= size && g_asked >= 64, "an object has the promised size");
    REACH("created");
}
void h_block_size(void)
{
    static const size_t counts[] = {1, 2, 4, 16, 256};
    for (int k = 0; k < 5; k++) {
    vh_reset(); g_mode = 2; g_track = false; g_nasked = 0;
    size_t size = in_size("size"), n = counts[k];
    mcp_object_pool_t *p = mcp_object_pool_create(size, n, 0);
    if (g_nasked >= 2) CHECK(!p && (unsigned __int128)g_block >= (unsigned __int128)n * size, "the objects fit");
    }
    REACH("created");
}
void h_create(void)
{
    static const size_t sizes[] = {1, 64, 65, 100, 200};
    for (int s = 0; s < 5; s++) for (size_t n = 0; n <= 3; n++) {
        g_mode = 1; g_track = false; vh_fail_point(-1);
        mcp_object_pool_t *p = mcp_object_pool_create(sizes[s], n, 0);
        CHECK(p != NULL && p->total_objects == n && p->free_objects == n, "a pool of that many free objects");
        char *o[3]; size_t k = 0;
        for (mcp_pool_node_t *x = p->free_list_head; x && k < 3; x = x->next) o[k++] = (char *)x;
        CHECK(k == n, "all of them on the list");
        for (size_t i = 0; i < n; i++) { o[i][0] = (char)i; o[i][sizes[s] - 1] = (char)i; }
        for (size_t i = 0; i < n; i++) CHECK(o[i][0] == (char)i && o[i][sizes[s] - 1] == (char)i, "they do not overlap");
        mcp_object_pool_destroy(p);
        CHECK(vh_live == 0, "all memory is released");
    }
    REACH("created");
}
static void script(int fail)
{
    g_mode = 1; g_track = false; vh_fail_point(fail);
    for (int i = 0; i < SLOTS; i++) { tls_caches[i].pool = NULL; tls_caches[i].count = 0; }
    mcp_object_pool_t *p = mcp_object_pool_create(100, 0, 3);
    if (!p) { CHECK(vh_alloc_failed && vh_live == 0, "a pool that cannot be made leaves nothing"); vh_fail_point(-1); return; }
    void *o[4]; size_t n = 0, t, f, u, pk;
    for (int i = 0; i < 4; i++) { o[i] = mcp_object_pool_acquire(p); if (o[i]) n++; else CHECK(n == 3 || vh_alloc_failed, "none only at the limit"); }
    CHECK(n <= 3, "the limit holds");
    for (int i = 0; i < 4; i++) for (int j = 0; j < i; j++) CHECK(!o[i] || o[i] != o[j], "objects in use are distinct");
    CHECK(mcp_object_pool_get_stats(p, &t, &f, &u, &pk) && t == n && f == 0 && u == n && pk == n, "the counters are right");
    if (o[1]) {
        CHECK(mcp_object_pool_release(p, o[1]), "taken back");
        CHECK(mcp_object_pool_get_stats(p, &t, &f, &u, &pk) && t == n && f == 1 && u == n - 1 && pk == n, "the counters are right");
        void *again = mcp_object_pool_acquire(p);
        CHECK(again == o[1], "available again");
    }
    for (int i = 0; i < 4; i++) if (o[i]) CHECK(mcp_object_pool_release(p, o[i]), "taken back");
    CHECK(mcp_object_pool_get_stats(p, &t, &f, &u, &pk) && t == n && f == n && u == 0, "the counters are right");
    mcp_object_pool_destroy(p);
    for (int i = 0; i < SLOTS; i++) CHECK(tls_caches[i].pool != p, "no cache of a destroyed pool");
    CHECK(vh_live == 0, "all memory is released");
    vh_fail_point(-1);
}
void h_script(void) { for (int f = -1; f < 6; f++) script(f); REACH("script"); }
