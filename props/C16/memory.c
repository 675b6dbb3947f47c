// The memory pool from an arbitrary state (only the head of the free list
// matters), its size classes and its layouts.
//@file funcs=mcp_memory_pool_alloc,mcp_memory_pool_free,allocate_from_pool,return_to_pool,mcp_memory_pool_get_stats,mcp_memory_pool_create,mcp_pool_alloc,mcp_pool_get_block_size,get_size_class,mcp_pool_free,mcp_memory_pool_destroy
//@obl h_alloc kind=proof unwind=2 note="every free list and counter value"
//@obl h_free kind=proof unwind=2 note="every free list and counter value; blocks of other pools"
//@obl h_stats kind=proof unwind=2
//@obl h_class kind=proof unwind=4 note="every size"
//@obl h_pool_free kind=proof unwind=2
//@obl h_create_size kind=proof unwind=3 note="every block size and number of blocks"
//@obl h_block_size kind=bounded unwind=6 note="every size; 1, 2, 4, 16 or 256 blocks at first"
//@obl h_create kind=bounded unwind=5 note="pools of at most 3 blocks of 2 sizes, 0-3 of them at first"
//@obl h_create_fail kind=bounded unwind=7 note="each allocation failing in turn"
#include "vh.h"
static void on_lock(void *m); static void on_unlock(void *m);
#define VH_ON_LOCK(m) on_lock(m)
#define VH_ON_UNLOCK(m) on_unlock(m)
#include "vh_sync.h"
#include "mcp_memory_pool.h"
#include <stdlib.h>
static void *spy(size_t n); static void spy_free(void *p);
#undef malloc
#undef free
#define malloc(n) spy(n)
#define free(p) spy_free(p)
#include "src/common/mcp_memory_pool.c"
#undef malloc
#undef free
#define malloc(n) (vh_malloc)(n)
#define free(p) (vh_free)(p)
typedef struct { mcp_block_header_t n; char data[8]; } block;
static block g_head, g_head2, g_x, g_new; static mcp_memory_pool_t g_p, g_other; static mcp_mutex_t g_m;
static bool g_track; static size_t g_total, g_free, g_peak, g_end_total, g_end_free, g_end_peak; static mcp_block_header_t *g_list, *g_end_list; static char g_garbage[1];
static int g_mode; static size_t g_asked, g_block; static int g_nasked; static bool g_deny; static void *g_freed;
static void *spy(size_t n)
{
    if (g_mode == 1) return (vh_malloc)(n);
    g_asked = n; g_nasked++; if (g_nasked == 2) g_block = n;
    if (g_mode == 2) return g_nasked == 1 ? &g_p : NULL;
    return g_deny ? NULL : &g_new;
}
static void spy_free(void *p) { if (g_mode == 1) (vh_free)(p); else g_freed = p; }
static void on_lock(void *m)
{
    if (!g_track || m != &g_m) return;
    g_p.free_list = g_list; g_p.total_blocks = g_total; g_p.free_blocks = g_free; g_p.peak_usage = g_peak;
}
static void on_unlock(void *m)
{
    if (!g_track || m != &g_m) return;
    g_end_list = g_p.free_list; g_end_total = g_p.total_blocks; g_end_free = g_p.free_blocks; g_end_peak = g_p.peak_usage;
    g_p.free_list = (mcp_block_header_t *)(void *)g_garbage; g_p.total_blocks = in_size("t2"); g_p.free_blocks = in_size("f2"); g_p.peak_usage = in_size("p2");
}
static void state(void)
{
    vh_reset(); g_mode = 0; g_nasked = 0; g_deny = in_bool("deny"); g_track = true; g_freed = NULL;
    g_m.held = 0; g_m.alive = 1; vh_locks_held = 0; vh_lock_ops = 0;
    g_p.lock = &g_m; g_p.user_block_size = in_size("size"); ASSUME(g_p.user_block_size >= sizeof(mcp_block_header_t) && g_p.user_block_size < ((size_t)1 << 20));
    g_p.block_size = g_p.user_block_size + sizeof(mcp_block_header_t); g_p.max_blocks = in_size("max");
    g_total = in_size("total"); g_free = in_size("free"); g_peak = in_size("peak");
    ASSUME(g_total < ((size_t)1 << 40) && g_free <= g_total && g_peak >= g_total - g_free);
    g_list = in_bool("have_free") ? &g_head.n : NULL; ASSUME((g_list != NULL) == (g_free > 0));
    g_head.n.magic = g_head2.n.magic = g_x.n.magic = MCP_POOL_MAGIC; g_head.n.pool = g_head2.n.pool = g_x.n.pool = &g_p;
    g_head.n.next = in_bool("second") ? &g_head2.n : NULL;
    g_end_list = g_list; g_end_total = g_total; g_end_free = g_free; g_end_peak = g_peak;
    g_p.free_list = (mcp_block_header_t *)(void *)g_garbage; g_p.total_blocks = in_size("t1"); g_p.free_blocks = in_size("f1"); g_p.peak_usage = in_size("p1");
}
static bool in_block(void *b, block *k) { return (char *)b - (char *)k >= (ptrdiff_t)sizeof(mcp_block_header_t); }
void h_alloc(void)
{
    state();
    mcp_block_header_t *second = g_head.n.next;
    void *b = mcp_memory_pool_alloc(&g_p);
    if (g_list) {
        CHECK(b && b == (char *)&g_head + sizeof(mcp_block_header_t) && g_end_list == second, "a free block is off the list");
        CHECK(g_end_free == g_free - 1 && g_end_total == g_total && !g_nasked, "and counted");
    } else if (b) {
        CHECK(g_nasked == 1 && in_block(b, &g_new) && g_asked >= (size_t)((char *)b - (char *)&g_new) + g_p.user_block_size, "a new block of the promised size");
        CHECK(g_new.n.pool == &g_p && g_new.n.magic == MCP_POOL_MAGIC, "that can be given back");
        CHECK(g_end_total == g_total + 1 && g_end_free == g_free && g_end_list == NULL, "is counted");
        CHECK(g_p.max_blocks == 0 || g_end_total <= g_p.max_blocks, "within the limit");
    } else {
        CHECK(g_end_total == g_total && g_end_free == g_free && g_end_list == NULL, "nothing changes");
        CHECK((g_nasked && g_deny) || (g_p.max_blocks > 0 && g_total >= g_p.max_blocks), "none only at the limit");
    }
    CHECK(g_end_peak >= g_end_total - g_end_free && (g_end_peak == g_peak || g_end_peak == g_end_total - g_end_free), "the peak follows");
    CHECK(!g_m.held, "the lock is released");
    REACH("allocated");
}
void h_free(void)
{
    state();
    bool foreign = in_bool("foreign"), bad = in_bool("bad_magic");
    if (foreign) g_x.n.pool = &g_other;
    if (bad) { g_x.n.magic = in_u32("magic"); ASSUME(g_x.n.magic != MCP_POOL_MAGIC); }
    ASSUME(g_free < g_total); g_x.n.next = &g_head2.n;
    bool ok = mcp_memory_pool_free(&g_p, (char *)&g_x + sizeof(mcp_block_header_t));
    if (foreign || bad) CHECK(!ok && g_end_list == g_list && g_end_free == g_free && g_end_total == g_total && g_x.n.next == &g_head2.n, "a foreign block is refused without effect");
    else CHECK(ok && g_end_list == &g_x.n && g_x.n.next == g_list && g_end_free == g_free + 1 && g_end_total == g_total, "the block is free again");
    CHECK(g_end_peak == g_peak && !g_m.held, "the lock is released");
    REACH("freed");
}
void h_stats(void)
{
    state();
    mcp_memory_pool_stats_t s;
    CHECK(mcp_memory_pool_get_stats(&g_p, &s) && s.total_blocks == g_total && s.free_blocks == g_free && s.allocated_blocks == g_total - g_free && s.block_size == g_p.user_block_size && s.peak_usage == g_peak, "the counters");
    REACH("stats");
}
/* the three standard pools, any of them out of blocks */
void h_class(void)
{
    state(); g_track = false;
    static mcp_memory_pool_t pools[MCP_POOL_SIZE_COUNT]; static block have[MCP_POOL_SIZE_COUNT];
    static const size_t sizes[MCP_POOL_SIZE_COUNT] = {SMALL_BLOCK_SIZE, MEDIUM_BLOCK_SIZE, LARGE_BLOCK_SIZE};
    for (int i = 0; i < MCP_POOL_SIZE_COUNT; i++) {
        pools[i].user_block_size = sizes[i]; pools[i].block_size = sizes[i] + sizeof(mcp_block_header_t);
        pools[i].lock = &g_m; pools[i].max_blocks = 0; pools[i].total_blocks = 7; pools[i].free_blocks = 1; have[i].n.magic = MCP_POOL_MAGIC; have[i].n.pool = &pools[i]; have[i].n.next = NULL;
        pools[i].free_list = in_bool("free") ? &have[i].n : NULL; g_pools[i] = &pools[i];
    }
    g_pools_initialized = true;
    size_t n = in_size("n");
    char *b = (char *)mcp_pool_alloc(n);
    if (!b) CHECK(n == 0 || g_deny, "none only without memory");
    else if (b == (char *)&g_new) CHECK(g_asked >= n, "a plain block of that size");
    else {
        int k = -1;
        for (int i = 0; i < MCP_POOL_SIZE_COUNT; i++) if (b == (char *)&have[i] + sizeof(mcp_block_header_t)) k = i;
        if (k >= 0) CHECK(sizes[k] >= n, "a block of a pool of that size");
        else CHECK(b == (char *)&g_new + sizeof(mcp_block_header_t) && g_asked >= sizeof(mcp_block_header_t) && g_asked - sizeof(mcp_block_header_t) >= n, "a new block of that size");
        CHECK(mcp_pool_get_block_size(b) >= n, "the size told");
    }
    CHECK(!g_m.held, "the lock is released");
    REACH("allocated");
}
void h_pool_free(void)
{
    state(); ASSUME(g_free < g_total);
    mcp_pool_free((char *)&g_x + sizeof(mcp_block_header_t));
    CHECK(g_end_list == &g_x.n && g_x.n.next == g_list && g_end_free == g_free + 1 && g_end_total == g_total && !g_freed, "the block is free again");
    CHECK(!g_m.held, "the lock is released");
    REACH("freed");
}
void h_create_size(void)
{
    vh_reset(); g_mode = 2; g_track = false; g_nasked = 0;
    size_t size = in_size("size"), n = in_size("n");
    ASSUME(n > 0);
    mcp_memory_pool_t *p = mcp_memory_pool_create(size, n, 0);
    CHECK(p == NULL, "no memory for the blocks");
    if (g_nasked >= 2) CHECK(g_asked >= sizeof(mcp_block_header_t) && g_asked - sizeof(mcp_block_header_t) >= size, "a block has the promised size");
    REACH("created");
}
void h_block_size(void)
{
    static const size_t counts[] = {1, 2, 4, 16, 256};
    for (int k = 0; k < 5; k++) {
    vh_reset(); g_mode = 2; g_track = false; g_nasked = 0;
    size_t size = in_size("size"), n = counts[k];
    mcp_memory_pool_t *p = mcp_memory_pool_create(size, n, 0);
    if (g_nasked >= 2) CHECK(!p && (unsigned __int128)g_block >= (unsigned __int128)n * (size + sizeof(mcp_block_header_t)), "the blocks fit");
    }
    REACH("created");
}
static void create(size_t size, size_t n, int fail)
{
    g_mode = 1; g_track = false; vh_fail_point(fail);
    mcp_memory_pool_t *p = mcp_memory_pool_create(size, n, 3);
    if (!p) { CHECK(vh_alloc_failed && vh_live == 0, "a pool that cannot be made leaves nothing"); vh_fail_point(-1); return; }
    size_t have = p->total_blocks;
    CHECK(p->free_blocks == have && (have == n || vh_alloc_failed), "all blocks are free");
    char *o[4]; size_t k = 0;
    for (int i = 0; i < 4; i++) {
        char *b = (char *)mcp_memory_pool_alloc(p);
        if (!b) { CHECK(k == 3 || vh_alloc_failed, "none only at the limit"); continue; }
        CHECK(k < 3, "the limit holds");
        #ifdef REPLAY
        memset(b, (int)k, size);
#endif
        o[k++] = b;
    }
    for (size_t i = 0; i < k; i++) for (size_t j = 0; j < i; j++) { uintptr_t x = (uintptr_t)o[i], y = (uintptr_t)o[j]; CHECK(x < y ? y - x >= size : x - y >= size, "they do not overlap"); }
    mcp_memory_pool_stats_t s;
    for (size_t i = 0; i < k; i++) {
        CHECK(mcp_memory_pool_free(p, o[i]) && mcp_memory_pool_get_stats(p, &s) && s.free_blocks == s.total_blocks - (k - i - 1), "given back");
        CHECK(s.total_blocks == (k > have ? k : have) && s.peak_usage == k, "the counters are right");
    }
    if (n == 0) { mcp_memory_pool_destroy(p); CHECK(vh_live == 0, "all memory is released"); }
    vh_fail_point(-1);
}
void h_create(void)
{
    for (size_t n = 0; n <= 3; n++) { vh_live = 0; create(24, n, -1); vh_live = 0; create(61, n, -1); }
    REACH("created");
}
void h_create_fail(void)
{
    for (int f = 0; f < 6; f++) { vh_live = 0; create(24, 2, f); vh_live = 0; create(24, 0, f); }
    REACH("created");
}
