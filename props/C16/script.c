// Histories of the buffer, memory and object pools through their interfaces.
//@file funcs=mcp_buffer_pool_create,mcp_buffer_pool_destroy,mcp_memory_pool_create,mcp_memory_pool_alloc,mcp_memory_pool_free,mcp_memory_pool_get_stats,mcp_memory_pool_destroy
//@obl h_script kind=bounded unwind=8 note="buffer pools of 1-2 blocks, 6 operations, each allocation failing in turn"
#include "vh_sync.h"
#include "src/common/mcp_buffer_pool.c"
static void count(mcp_buffer_pool_t *p, size_t total, size_t used)
{
    size_t t, a, f; mcp_buffer_pool_get_stats(p, &t, &a, &f);
    CHECK(t == total && a == used && f == total - used, "the counters are right");
    size_t n = 0; for (mcp_buffer_node_t *x = p->free_list; x; x = x->next) n++;
    CHECK(n == total - used, "the free list holds the free blocks");
}
static void script(int fail, size_t n)
{
    vh_fail_point(fail);
    mcp_buffer_pool_t *p = mcp_buffer_pool_create(10, n);
    if (!p) { CHECK(vh_alloc_failed && vh_live == 0, "a pool that cannot be made leaves nothing"); vh_fail_point(-1); return; }
    count(p, n, 0);
    char *b[3]; size_t got = 0, total = n;
    for (int i = 0; i < 3; i++) {
        b[i] = (char *)mcp_buffer_pool_acquire(p);
        if (b[i]) { got++; if (got > total) total = got; for (int k = 0; k < 10; k++) b[i][k] = (char)('A' + i); }
        else CHECK(vh_alloc_failed, "only for lack of memory");
        count(p, total, got);
    }
    for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (b[i] && b[j]) CHECK(b[i] != b[j], "buffers in use are distinct");
    for (int i = 0; i < 3; i++) if (b[i]) CHECK(b[i][0] == 'A' + i && b[i][9] == 'A' + i, "nobody else writes them");
    if (b[1]) { mcp_buffer_pool_release(p, b[1]); got--; count(p, total, got); mcp_buffer_pool_release(p, b[1]); count(p, total, got); }
    char *again = (char *)mcp_buffer_pool_acquire(p);
    if (again) { CHECK(again != b[0] && again != b[2], "not one in use"); got++; if (got > total) total = got; count(p, total, got); mcp_buffer_pool_release(p, again); got--; }
    if (b[0]) { mcp_buffer_pool_release(p, b[0]); got--; }
    if (b[2]) { mcp_buffer_pool_release(p, b[2]); got--; }
    count(p, total, 0);
    mcp_buffer_pool_destroy(p);
    CHECK(vh_live == 0, "all memory is released");
    vh_fail_point(-1);
}
void h_script(void) { for (int f = -1; f < 6; f++) { script(f, 1); } REACH("script"); }
