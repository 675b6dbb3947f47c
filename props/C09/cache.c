// The thread cache behind the arena: what it hands out is big enough and owned by nobody else.
//@file funcs=mcp_thread_cache_init,mcp_thread_cache_alloc,mcp_thread_cache_free,mcp_thread_cache_flush
//@file assume="the memory pool by contract: a block of its size class, recognised by mcp_pool_get_block_size"
//@obl h_reuse kind=bounded unwind=9 note="alloc, free, alloc, free, alloc; any sizes; cache and pool set up at any point"
//@obl h_two kind=bounded unwind=9 note="two blocks given back and two taken again; any sizes"
//@obl h_flush kind=bounded unwind=9 note="two blocks given back, then flushed"
#include "vh_sync.h"
#include "mcp_list.h"
#include "mcp_thread_cache.h"
#include "mcp_memory_constants.h"
unsigned long mcp_get_thread_id(void) { return 5; }
/* ledger of real memory: size, kind, who has it */
enum { OUT = 1, BACK = 2 };
static struct { char *p; size_t size; bool pool; int state; } g_m[6]; static int g_n; static bool g_pool;
#ifndef REPLAY
static char g_cells[6];
#endif
static void *mem(size_t size, bool pool)
{
    ASSUME(g_n < 6);
    char *p;
#ifdef REPLAY
    p = (vh_malloc)(size + 64); /* room in front: the pool looks for its header there */
    p += 64;
#else
    p = &g_cells[g_n];
#endif
    g_m[g_n].p = p; g_m[g_n].size = size; g_m[g_n].pool = pool; g_m[g_n].state = OUT;
    g_n++;
    return p;
}
static int find(void *p) { for (int i = 0; i < g_n; i++) if (g_m[i].p == (char *)p) return i; return -1; }
static size_t class_of(size_t n) { return n <= SMALL_BLOCK_SIZE ? SMALL_BLOCK_SIZE : n <= MEDIUM_BLOCK_SIZE ? MEDIUM_BLOCK_SIZE : n <= LARGE_BLOCK_SIZE ? LARGE_BLOCK_SIZE : 0; }
bool mcp_memory_pool_system_is_initialized(void) { return g_pool; }
void *mcp_pool_alloc(size_t n) { size_t c = class_of(n); return c ? mem(c, true) : mem(n, false); }
size_t mcp_pool_get_block_size(void *p) { int i = find(p); CHECK(i >= 0 && g_m[i].state == OUT, "only live memory is looked at"); return g_m[i].pool ? g_m[i].size : 0; }
static void back(void *p, bool pool)
{
    int i = find(p);
    CHECK(i >= 0 && g_m[i].state == OUT, "memory is released once");
    CHECK(pool || !g_m[i].pool, "a pool block is not given to free");
    g_m[i].state = BACK;
}
void mcp_pool_free(void *p) { back(p, true); }
static void *sys_malloc(size_t n) { return mem(n, false); }
static void sys_free(void *p) { if (p) back(p, false); }
/* contract of the list: what it does is decided under its own property */
static mcp_list_node_t g_nodes[8]; static int g_nn; static mcp_list_t g_lists[3]; static int g_nl;
mcp_list_t *mcp_list_create(mcp_list_thread_safety_t t) { (void)t; ASSUME(g_nl < 3); return in_bool("nolist") ? NULL : &g_lists[g_nl++]; }
mcp_list_node_t *mcp_list_push_front(mcp_list_t *l, void *d)
{
    if (in_bool("nonode")) return NULL;
    ASSUME(g_nn < 8);
    mcp_list_node_t *n = &g_nodes[g_nn++];
    n->data = d; n->prev = NULL; n->next = l->head;
    if (l->head) l->head->prev = n; else l->tail = n;
    l->head = n; l->size++;
    return n;
}
void *mcp_list_remove(mcp_list_t *l, mcp_list_node_t *n, void (*f)(void *))
{
    (void)f; void *d = n->data;
    if (n->prev) n->prev->next = n->next; else l->head = n->next;
    if (n->next) n->next->prev = n->prev; else l->tail = n->prev;
    l->size--;
    return d;
}
void mcp_list_move_to_front(mcp_list_t *l, mcp_list_node_t *n) { (void)l; (void)n; }
void mcp_list_clear(mcp_list_t *l, void (*f)(void *)) { (void)f; l->head = l->tail = NULL; l->size = 0; }
void mcp_list_destroy(mcp_list_t *l, void (*f)(void *)) { (void)l; (void)f; }
#undef malloc
#undef free
#define malloc(n) sys_malloc(n)
#define free(p) sys_free(p)
#define __thread
#include "src/common/mcp_thread_cache.c"

static void *got[6]; static size_t len[6]; static bool mine[6];
static void take(int k)
{
    len[k] = in_size("size"); ASSUME(len[k] >= 1 && len[k] <= 10000);
    got[k] = mcp_thread_cache_alloc(len[k]);
    CHECK(got[k] != NULL, "served");
    int i = find(got[k]);
    CHECK(i >= 0 && g_m[i].state == OUT, "live memory is handed out");
    CHECK(g_m[i].size >= len[k], "as large as asked for");
    for (int j = 0; j < k; j++) if (mine[j]) CHECK(got[j] != got[k], "not what somebody else holds");
    mine[k] = true;
}
static void give(int k)
{
    if (!mine[k]) return;
    mine[k] = false;
    mcp_thread_cache_free(got[k], in_bool("unknown") ? 0 : len[k]);
}
static void setup(void)
{
    if (in_bool("pool")) g_pool = true;
    if (in_bool("cache")) mcp_thread_cache_init();
}
void h_reuse(void)
{
    setup();
    take(0); setup(); give(0);
    take(1); setup(); give(1);
    take(2);
    REACH("reused");
}
void h_two(void)
{
    g_pool = in_bool("pool0"); mcp_thread_cache_init();
    take(0); take(1);
    give(in_bool("order")); give(0); give(1);
    take(2); take(3);
    REACH("reused");
}
void h_flush(void)
{
    g_pool = in_bool("pool0"); mcp_thread_cache_init();
    take(0); take(1); take(2);
    give(0); give(1);
    mcp_thread_cache_flush();
    for (int k = 0; k < 3; k++) { int i = find(got[k]); if (!mine[k]) CHECK(g_m[i].state == BACK, "what was cached is released"); else CHECK(g_m[i].state == OUT, "what is held is not"); }
    take(3);
    REACH("flushed");
}
