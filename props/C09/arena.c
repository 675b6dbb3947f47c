// Arena blocks: in bounds, aligned, disjoint; reset and destroy.
//@file funcs=mcp_arena_init,mcp_arena_alloc,mcp_arena_reset,mcp_arena_cleanup,mcp_arena_destroy,mcp_arena_get_stats,mcp_arena_alloc_if_exists
//@file assume="the thread cache by contract: a fresh block of the size asked for, or none (mcp_thread_cache_alloc/free)"
//@obl h_alloc kind=proof unwind=4 standin=h_history note="any state of the current block, any size, any default block size up to 2^40"
//@obl h_first kind=proof unwind=4 standin=h_history note="empty arena"
//@obl h_reset kind=bounded unwind=20 note="chains of 0 to 7 blocks with arbitrary fill"
//@obl h_reset9 kind=bounded unwind=20 note="chains of 8 to 10 blocks"
//@obl h_reset13 kind=bounded unwind=20 note="chains of 11 to 13 blocks"
//@obl h_destroy kind=bounded unwind=22 note="chains of 0 to 18 blocks"
//@obl h_history kind=bounded unwind=8 cost=50 mem=10 note="three allocations and a reset at any point, sizes up to 9000"
#include "vh_sync.h"
#include "mcp_arena.h"
/* contract of the thread cache */
static void *g_cached[16]; static size_t g_csize[16]; static int g_ncached; static int g_mode;
static void retire(void *p, size_t n);
void *mcp_thread_cache_alloc(size_t n)
{
    void *p = (vh_malloc)(n);
    return p;
}
void mcp_thread_cache_free(void *p, size_t n) { if (g_mode) retire(p, n); else (vh_free)(p); }
static void plain_free(void *p) { if (g_mode) retire(p, (size_t)-1); else (vh_free)(p); }
mcp_arena_t *mcp_arena_get_current(void);
#undef free
#define free(p) plain_free(p)
#include "src/common/mcp_arena.c"
#undef free
#define free(p) vh_free(p)
static mcp_arena_t *g_tls; static int g_tls_made;
mcp_arena_t *mcp_arena_get_current(void) { return g_tls; }
static mcp_arena_t g_arena2;
int mcp_arena_init_current_thread(size_t n) { if (in_bool("tls_fails")) return -1; g_tls_made++; mcp_arena_init(&g_arena2, n); g_tls = &g_arena2; return 0; }

/* blocks of a prepared chain: released memory is recorded, not freed */
static mcp_arena_block_t g_b[18]; static char g_data[18]; static int g_freed[18], g_dfreed[18];
static void retire(void *p, size_t n)
{
    for (int i = 0; i < 18; i++) {
        if (p == (void *)&g_b[i]) { g_freed[i]++; return; }
        if (p == (void *)&g_data[i]) {
            CHECK(n == (size_t)-1 ? g_b[i].size > LARGE_BLOCK_SIZE : n == g_b[i].size && n <= LARGE_BLOCK_SIZE, "given back to where it came from, under its size");
            g_dfreed[i]++;
            return;
        }
    }
    CHECK(p == NULL, "only memory of the arena is released");
}
static void good_block(void *p, size_t size)
{
    CHECK(((uintptr_t)p & 7) == 0, "aligned");
    size_t n = size ? size : 1;
    ((volatile char *)p)[0] = 1;          /* both ends are writable memory */
    ((volatile char *)p)[n - 1] = 2;
}
void h_alloc(void)
{
    static mcp_arena_t a; static mcp_arena_block_t b, older;
    a.default_block_size = in_size("default"); ASSUME(a.default_block_size >= 1 && a.default_block_size <= (size_t)1 << 40);
    b.size = in_size("bsize"); b.used = in_size("used");
    ASSUME(b.size >= 1 && b.size <= (size_t)1 << 40 && b.used <= b.size && b.used % 8 == 0);
    b.data = (vh_malloc)(b.size); ASSUME(b.data != NULL);
    b.next = in_bool("older") ? &older : NULL;
    older.used = 8; older.size = 8;
    a.current_block = &b; a.block_count = in_size("count"); a.total_block_size = in_size("total"); a.total_allocated = in_size("allocated");
    mcp_arena_t before = a; mcp_arena_block_t bb = b;
    /* some byte handed out earlier */
    size_t w = in_size("w"); uint8_t v = in_u8("v"); bool has = b.used > 0; ASSUME(!has || w < b.used);
    if (has) ((uint8_t *)b.data)[w] = v;
    vh_alloc_may_fail = 1;
    bool tls = in_bool("tls"); if (tls) g_tls = &a;
    size_t size = in_size("size");
    void *p = tls && in_bool("ifx") ? mcp_arena_alloc_if_exists(size) : mcp_arena_alloc(tls ? NULL : &a, size);
    CHECK(a.default_block_size == before.default_block_size && b.data == bb.data && b.size == bb.size && b.next == bb.next, "existing blocks stay");
    if (!p) {
        CHECK(a.current_block == &b && b.used == bb.used && a.block_count == before.block_count, "a refused request leaves the arena as it was");
    } else {
        mcp_arena_block_t *c = a.current_block;
        size_t off = (size_t)((char *)p - (char *)c->data), n = size ? size : 1;
        if (c == &b) CHECK(off >= bb.used && a.block_count == before.block_count, "behind everything handed out before");
        else CHECK(c->next == &b && b.used == bb.used && a.block_count == before.block_count + 1 && a.total_block_size == before.total_block_size + c->size, "a new block goes in front of the old ones");
        CHECK(off <= c->used && n <= c->used - off && c->used <= c->size && c->used % 8 == 0, "covered by the block's fill");
        good_block(p, size);
        if (has) CHECK(((uint8_t *)b.data)[w] == v, "memory handed out earlier is not touched");
    }
    CHECK(older.used == 8 && older.size == 8 && older.next == NULL, "older blocks stay");
    g_tls = NULL;
    REACH("allocated");
}
void h_first(void)
{
    static mcp_arena_t a;
    size_t def = in_size("default"); ASSUME(def <= (size_t)1 << 40);
    mcp_arena_init(&a, def);
    CHECK(a.current_block == NULL && a.block_count == 0 && a.total_block_size == 0 && a.default_block_size >= 1, "starts empty");
    vh_alloc_may_fail = 1;
    size_t size = in_size("size");
    int how = in_u8("how") % 3;
    void *p = how == 0 ? mcp_arena_alloc(&a, size) : how == 1 ? mcp_arena_alloc(NULL, size) : mcp_arena_alloc_if_exists(size);
    if (how == 2) CHECK(p == NULL && g_tls_made == 0, "no arena is made up");
    mcp_arena_t *u = how == 0 ? &a : &g_arena2;
    if (p) {
        mcp_arena_block_t *c = u->current_block;
        CHECK(c && c->next == NULL && u->block_count == 1 && u->total_block_size == c->size, "one block");
        size_t off = (size_t)((char *)p - (char *)c->data), n = size ? size : 1;
        CHECK(off <= c->used && n <= c->used - off && c->used <= c->size && c->used % 8 == 0, "covered by the block's fill");
        good_block(p, size);
    } else if (how == 0) CHECK(a.current_block == NULL && a.block_count == 0, "a refused request leaves the arena as it was");
    REACH("first");
}
static mcp_arena_t g_a;
static void chain(int n)
{
    size_t all = 0;
    for (int i = 0; i < n; i++) {
        g_b[i].data = &g_data[i];
        g_b[i].size = in_u16("bsize"); ASSUME(g_b[i].size >= 1);
        g_b[i].used = in_u16("used"); ASSUME(g_b[i].used <= g_b[i].size);
        g_b[i].next = i + 1 < n ? &g_b[i + 1] : NULL;
        g_freed[i] = g_dfreed[i] = 0;
        all += g_b[i].size;
    }
    g_a.current_block = n ? &g_b[0] : NULL;
    g_a.block_count = (size_t)n; g_a.total_block_size = all; g_a.default_block_size = 64; g_a.total_allocated = n ? in_size("allocated") : 0;
    g_mode = 1;
}
static void reset(int n)
{
    chain(n);
    mcp_arena_reset(&g_a);
    int kept = 0; size_t all = 0;
    CHECK(n == 0 || (g_a.current_block == &g_b[0] && g_b[0].used == 0), "the current block is free again");
    for (mcp_arena_block_t *c = g_a.current_block; c && kept <= n; c = c->next) {
        CHECK(c == &g_b[kept] && c->data == &g_data[kept] && c->used <= c->size, "blocks kept are intact");
        CHECK(g_freed[kept] == 0 && g_dfreed[kept] == 0, "a block kept is not released");
        all += c->size; kept++;
    }
    for (int i = 0; i < n; i++) if (i >= kept) CHECK(g_freed[i] == 1 && g_dfreed[i] == 1, "a block dropped is released once");
    CHECK(g_a.block_count == (size_t)kept && g_a.total_block_size == all && g_a.total_allocated == 0, "the statistics match the blocks");
    size_t x, y, z; CHECK(mcp_arena_get_stats(&g_a, &x, &y, &z) == 0 && x == 0 && y == all && z == (size_t)kept, "and are reported");
}
void h_reset(void)
{
    for (int n = 0; n <= 7; n++) reset(n);
    mcp_arena_reset(NULL);
    REACH("reset");
}
void h_reset9(void) { for (int n = 8; n <= 10; n++) reset(n); REACH("reset"); }
void h_reset13(void) { for (int n = 11; n <= 13; n++) reset(n); REACH("reset"); }
void h_destroy(void)
{
    for (int n = 0; n <= 18; n++) {
        chain(n);
        if (n & 1) mcp_arena_destroy(&g_a); else mcp_arena_cleanup(&g_a);
        for (int i = 0; i < n; i++) CHECK(g_freed[i] == 1 && g_dfreed[i] == 1, "every block is released once");
        CHECK(g_a.current_block == NULL && g_a.block_count == 0 && g_a.total_block_size == 0 && g_a.total_allocated == 0, "and the arena is empty");
    }
    mcp_arena_destroy(NULL); mcp_arena_cleanup(NULL);
    REACH("destroyed");
}
void h_history(void)
{
    static mcp_arena_t a; void *p[3]; size_t n[3]; int from = 0;
    size_t def = in_u16("default"); ASSUME(def >= 1 && def <= 5000);
    mcp_arena_init(&a, def);
    int at = in_u8("reset_at");
    for (int i = 0; i < 3; i++) {
        if (i == at) { mcp_arena_reset(&a); from = i; }
        n[i] = in_u16("size"); ASSUME(n[i] >= 1 && n[i] <= 9000);
        p[i] = mcp_arena_alloc(&a, n[i]);
        CHECK(p[i] != NULL, "served");
        good_block(p[i], n[i]);
        for (int j = 0; j < i; j++) if (j >= from)
            CHECK((uintptr_t)p[i] + n[i] <= (uintptr_t)p[j] || (uintptr_t)p[j] + n[j] <= (uintptr_t)p[i], "no overlap with an earlier block");
    }
    mcp_arena_destroy(&a);
    CHECK(vh_live == 0, "destroy releases everything");
    REACH("history");
}
