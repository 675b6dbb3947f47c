// Whole-list operations: enumeration, search, clear, destroy, ownership.
//@file funcs=mcp_list_create,mcp_list_destroy,mcp_list_clear,mcp_list_find,mcp_list_iterator_begin,mcp_list_iterator_next,mcp_list_iterator_get_data,mcp_list_iterator_is_valid link=src/common/mcp_buffer_pool.c
//@obl h_script kind=bounded unwind=66 bound="scripts of up to 9 operations, both modes, with the real node pool" cost=3
//@obl h_clear kind=bounded unwind=66 bound="lists of up to 4 elements; data released once each"
//@obl h_fail kind=bounded unwind=66 bound="3 insertions, each allocation in turn fails (node pool present)"
#include "vh_sync.h"
#include "src/common/mcp_list.c"

static int d[8]; static int freed[8];
static void free_cb(void *p) { freed[(int *)p - d]++; }
static int cmp(const void *a, const void *b) { return *(const int *)a != *(const int *)b; }

static void is_seq(mcp_list_t *l, int n, const int *ix)
{
    CHECK(mcp_list_size(l) == (size_t)n && mcp_list_is_empty(l) == (n == 0), "size");
    int k = 0;
    for (mcp_list_iterator_t it = mcp_list_iterator_begin(l); mcp_list_iterator_is_valid(&it); mcp_list_iterator_next(&it)) {
        CHECK(k < n && mcp_list_iterator_get_data(&it) == &d[ix[k]], "forward enumeration");
        k++;
    }
    CHECK(k == n, "forward enumeration is complete");
    k = n;
    for (mcp_list_node_t *x = l->tail; x; x = x->prev) { k--; CHECK(k >= 0 && x->data == &d[ix[k]], "backward enumeration"); }
    CHECK(k == 0, "backward enumeration is complete");
}

static void script(mcp_list_thread_safety_t ts)
{
    for (int i = 0; i < 8; i++) d[i] = i;
    mcp_list_t *l = mcp_list_create(ts);
    ASSUME(l != NULL);
    CHECK(mcp_list_pop_front(l) == NULL && mcp_list_pop_back(l) == NULL, "empty list gives nothing");
    mcp_list_node_t *n0 = mcp_list_push_back(l, &d[0]);
    mcp_list_node_t *n1 = mcp_list_push_back(l, &d[1]);
    mcp_list_node_t *n2 = mcp_list_push_front(l, &d[2]);
    mcp_list_insert_after(l, n0, &d[3]);
    mcp_list_insert_after(l, NULL, &d[4]);
    mcp_list_insert_after(l, n1, &d[5]);
    { int e[] = {4, 2, 0, 3, 1, 5}; is_seq(l, 6, e); }
    mcp_list_move_to_front(l, n0);
    { int e[] = {0, 4, 2, 3, 1, 5}; is_seq(l, 6, e); }
    mcp_list_move_to_front(l, n0);
    mcp_list_move_to_front(l, l->tail);
    { int e[] = {5, 0, 4, 2, 3, 1}; is_seq(l, 6, e); }
    int want = in_i32("want");
    mcp_list_node_t *f = mcp_list_find(l, &want, cmp);
    CHECK((f != NULL) == (want >= 0 && want <= 5), "find finds exactly what is there");
    if (f) CHECK(*(int *)f->data == want, "find returns the matching node");
    CHECK(mcp_list_remove(l, n2, NULL) == &d[2], "remove returns the element");
    CHECK(mcp_list_remove(l, l->head, free_cb) == NULL && freed[5] == 1, "remove with a release function releases the element once");
    { int e[] = {0, 4, 3, 1}; is_seq(l, 4, e); }
    CHECK(mcp_list_pop_front(l) == &d[0] && mcp_list_pop_back(l) == &d[1], "pops");
    { int e[] = {4, 3}; is_seq(l, 2, e); }
    mcp_list_destroy(l, free_cb);
    CHECK(freed[4] == 1 && freed[3] == 1 && freed[0] == 0 && freed[1] == 0 && freed[2] == 0, "destroy releases each remaining element once");
    CHECK(vh_live == 0, "destroy releases all nodes");
    freed[4] = freed[3] = freed[5] = 0;
}
void h_script(void) { script(MCP_LIST_NOT_THREAD_SAFE); script(MCP_LIST_THREAD_SAFE); REACH("scripts"); }

void h_clear(void)
{
    mcp_list_t *l = mcp_list_create(MCP_LIST_THREAD_SAFE);
    ASSUME(l != NULL);
    for (int n = 0; n <= 4; n++) {
        for (int i = 0; i < n; i++) { freed[i] = 0; mcp_list_push_back(l, &d[i]); }
        long live = vh_live;
        mcp_list_clear(l, n == 2 ? NULL : free_cb);
        for (int i = 0; i < n; i++) CHECK(freed[i] == (n == 2 ? 0 : 1), "clear releases each element once, if asked to");
        is_seq(l, 0, NULL);
        CHECK(mcp_list_push_back(l, &d[7]) != NULL && mcp_list_size(l) == 1 && mcp_list_pop_front(l) == &d[7], "a cleared list is usable");
        (void)live;
    }
    REACH("clear");
    mcp_list_destroy(l, NULL);
    CHECK(vh_live == 0, "destroy releases all nodes");
}

void h_fail(void)
{
    mcp_list_t *l = mcp_list_create(MCP_LIST_NOT_THREAD_SAFE);
    ASSUME(l != NULL);
    /* use up the pooled nodes */
    static int x;
    for (int i = 0; i < 64; i++) mcp_list_push_back(l, &x);
    vh_fail_from = 0; vh_alloc_no = 0;
    CHECK(mcp_list_push_back(l, &d[0]) == NULL && mcp_list_push_front(l, &d[0]) == NULL && mcp_list_insert_after(l, l->head, &d[0]) == NULL, "no memory: refused");
    CHECK(mcp_list_size(l) == 64 && l->head->data == &x && l->tail->data == &x, "a refused insertion leaves the list unchanged");
    REACH("refused");
    vh_fail_from = -1;
    mcp_list_destroy(l, NULL);
    CHECK(vh_live == 0, "destroy releases all nodes");
}
