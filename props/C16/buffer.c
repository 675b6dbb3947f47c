// The buffer pool from an arbitrary state: free lists of every length (runs of
// other free blocks are abstract, loop invariant in buffer.json), any counters.
// The state is the one found when the lock is taken; before and after, other
// threads own it (it reads as garbage).
//@file funcs=mcp_buffer_pool_acquire,mcp_buffer_pool_release,mcp_buffer_pool_get_stats,mcp_buffer_pool_create loops=buffer.json
//@obl h_acquire kind=proof unwind=2 note="every free list and counter value"
//@obl h_release kind=proof unwind=2 loops=1 abstract=1 standin=h_script note="free lists of every length; foreign and repeated blocks"
//@obl h_stats kind=proof unwind=2
//@obl h_create_size kind=proof unwind=3 note="every buffer size, two buffers"
#include "vh.h"
static void on_lock(void); static void on_unlock(void);
#define VH_ON_LOCK(m) on_lock()
#define VH_ON_UNLOCK(m) on_unlock()
#include "vh_sync.h"
#include "mcp_buffer_pool.h"
#include "mcp_log.h"
#define mcp_log_log(...) ((void)0)
static void *spy(size_t n);
#undef malloc
#define malloc(n) spy(n)
struct mcp_buffer_node;
extern struct mcp_buffer_node *g_pa, *g_px, *g_pz; extern bool g_has_a, g_in, g_has_z;
#include "src/common/mcp_buffer_pool.c"
#undef malloc
#define malloc(n) (vh_malloc)(n)
typedef struct { mcp_buffer_node_t n; char data[8]; } block;
block g_a, g_x, g_z, g_new, g_new2; mcp_buffer_node_t *g_pa, *g_px, *g_pz; bool g_has_a, g_in, g_has_z;
mcp_buffer_pool_t g_p, g_other; mcp_mutex_t g_m;
bool g_track; mcp_buffer_node_t *g_list, *g_end_list, *g_end_next; size_t g_total, g_alloc, g_end_total, g_end_alloc; char g_garbage[1];
size_t g_asked, g_asked_min; int g_nasked; bool g_deny;
#define HEADER (sizeof(mcp_buffer_node_t))
static void *spy(size_t n) { g_asked = n; g_nasked++; if (g_deny) return NULL; if (g_track) return &g_new;
    if (g_nasked == 1) return &g_p;
    if (n < g_asked_min) g_asked_min = n;
    return g_nasked == 2 ? &g_new : &g_new2; }
static void on_lock(void)
{
    if (!g_track) return;
    g_p.free_list = g_list; g_p.total_blocks = g_total; g_p.allocated_blocks = g_alloc;
}
static void on_unlock(void)
{
    if (!g_track) return;
    g_end_list = g_p.free_list; g_end_total = g_p.total_blocks; g_end_alloc = g_p.allocated_blocks;
    g_p.free_list = (mcp_buffer_node_t *)(void *)g_garbage; g_p.total_blocks = in_size("t2"); g_p.allocated_blocks = in_size("a2");
}
static void state(void)
{
    vh_reset();
    g_m.held = 0; g_m.alive = 1; vh_locks_held = 0; vh_lock_ops = 0;
    g_p.mutex = &g_m; g_p.buffer_size = in_size("size"); ASSUME(g_p.buffer_size >= 1 && g_p.buffer_size <= ((size_t)1 << 40));
    g_total = in_size("total"); g_alloc = in_size("alloc"); ASSUME(g_total < ((size_t)1 << 40) && g_alloc <= g_total);
    g_has_a = in_bool("run_before"); g_in = in_bool("in_list"); g_has_z = in_bool("run_behind");
    g_pa = &g_a.n; g_px = &g_x.n; g_pz = &g_z.n;
    g_a.n.magic = g_x.n.magic = g_z.n.magic = MCP_BUFFER_POOL_MAGIC; g_a.n.pool = g_x.n.pool = g_z.n.pool = &g_p;
    g_z.n.next = NULL; g_x.n.next = g_has_z ? g_pz : NULL; g_a.n.next = g_in ? g_px : g_x.n.next;
    g_list = g_has_a ? g_pa : g_a.n.next;
    ASSUME((g_list == NULL) == (g_total == g_alloc));
    ASSUME(g_total - g_alloc >= (size_t)(g_has_a + g_in + g_has_z));
#ifndef REPLAY
    if (in_bool("long_a")) g_a.n.next = g_pa;
    if (in_bool("long_z")) g_z.n.next = g_pz;
#endif
    g_p.free_list = (mcp_buffer_node_t *)(void *)g_garbage; g_p.total_blocks = in_size("t1"); g_p.allocated_blocks = in_size("a1");
    g_nasked = 0; g_asked_min = SIZE_MAX; g_deny = in_bool("deny"); g_track = true;
}
static bool valid_buffer(void *b, block *k) { return (char *)b - (char *)&k->n >= (ptrdiff_t)HEADER; }
void h_acquire(void)
{
    state();
    mcp_buffer_node_t *head = g_list, *second = head ? head->next : NULL;
    void *b = mcp_buffer_pool_acquire(&g_p);
    if (head) {
        CHECK(b == (char *)head + get_aligned_offset() && !g_nasked, "the first free buffer is handed out");
        CHECK(g_end_list == second, "and is off the free list");
        CHECK(g_end_alloc == g_alloc + 1 && g_end_total == g_total, "counted as in use");
    } else if (b) {
        CHECK(g_nasked == 1 && valid_buffer(b, &g_new), "a new block");
        CHECK(g_asked >= (size_t)((char *)b - (char *)&g_new) + g_p.buffer_size, "of at least the promised size");
        CHECK(g_new.n.pool == &g_p && g_new.n.magic == MCP_BUFFER_POOL_MAGIC, "that can be given back");
        CHECK(g_end_alloc == g_alloc + 1 && g_end_total == g_total + 1 && g_end_list == NULL, "counted");
    } else CHECK(g_deny && g_nasked >= 1 && g_end_alloc == g_alloc && g_end_total == g_total && g_end_list == NULL, "without memory nothing changes");
    CHECK(!g_m.held, "the lock is released");
    REACH("acquired");
}
void h_release(void)
{
    state();
    bool foreign = in_bool("foreign"), bad = in_bool("bad_magic");
    /* a block in use (or free already, or of another pool, or no block at all) */
    if (foreign || bad) ASSUME(!g_in);
    if (foreign) g_x.n.pool = &g_other;
    if (bad) { g_x.n.magic = in_u32("magic"); ASSUME(g_x.n.magic != MCP_BUFFER_POOL_MAGIC); }
    if (!g_in && !foreign && !bad) ASSUME(g_alloc >= 1);
    mcp_buffer_node_t *next = g_x.n.next;
    g_end_list = g_list; g_end_total = g_total; g_end_alloc = g_alloc;
    mcp_buffer_pool_release(&g_p, (char *)&g_x + get_aligned_offset());
    if (foreign || bad || g_in) {
        CHECK(g_end_list == g_list && g_end_total == g_total && g_end_alloc == g_alloc && g_x.n.next == next, "a foreign or repeated release is refused without effect");
    } else {
        CHECK(g_end_list == g_px && g_x.n.next == g_list, "the block is back on the free list, once");
        CHECK(g_end_total == g_total && g_end_alloc == g_alloc - 1, "and counted as free");
    }
    CHECK(!g_m.held, "the lock is released");
    REACH("released");
}
void h_stats(void)
{
    state();
    size_t t, a, f;
    mcp_buffer_pool_get_stats(&g_p, &t, &a, &f);
    CHECK(t == g_total && a == g_alloc && f == g_total - g_alloc, "the counters");
    CHECK(mcp_buffer_pool_get_buffer_size(&g_p) == g_p.buffer_size, "the size");
    REACH("stats");
}
void h_create_size(void)
{
    vh_reset(); g_track = false; g_nasked = 0; g_asked_min = SIZE_MAX; g_deny = in_bool("deny");
    size_t size = in_size("size"), off = get_aligned_offset();
    mcp_buffer_pool_t *p = mcp_buffer_pool_create(size, 2);
    if (p) {
        CHECK(size > 0 && g_nasked == 3 && g_asked_min >= off && g_asked_min - off >= size, "blocks hold the promised size");
        CHECK(p->free_list && p->free_list->next && p->free_list != p->free_list->next && !p->free_list->next->next, "the blocks are free");
        CHECK(p->free_list->pool == p && p->free_list->next->pool == p && p->free_list->magic == MCP_BUFFER_POOL_MAGIC && p->free_list->next->magic == MCP_BUFFER_POOL_MAGIC, "and can be given back");
        CHECK(p->total_blocks == 2 && p->allocated_blocks == 0 && p->buffer_size == size, "and counted");
    }
    REACH("created");
}
