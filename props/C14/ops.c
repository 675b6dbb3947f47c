// Every list operation from an arbitrary well-formed list of any length.
//
// A list is presented by its visible nodes; a gap between two visible nodes
// stands for a non-empty run of nodes that the operation must not touch: the
// links into it point to memory that may not be dereferenced.  Lists of length
// 0..3 are exact, longer ones are  a b ~ y z  and  a b ~ p n q ~ y z , so every
// position of the affected node and every length is covered.
//
// Thread-safe mode: when the lock is taken, other threads may have changed the
// list to any other well-formed list (still containing the caller's node); what
// the operation does must fit the list as it is under the lock, and it must not
// touch it after releasing the lock.
//@file funcs=mcp_list_push_front,mcp_list_push_back,mcp_list_pop_front,mcp_list_pop_back,mcp_list_remove,mcp_list_move_to_front,mcp_list_insert_after,mcp_list_is_empty,mcp_list_size trusted="contract of the node pool (C16)" assume="other threads leave the node passed by the caller in the list; list size below 2^60"
//@obl h_pop_front kind=proof unwind=14 objbits=12 note="all lengths, both modes, any interference before the lock"
//@obl h_pop_back kind=proof unwind=14 objbits=12
//@obl h_push_front kind=proof unwind=14 objbits=12
//@obl h_push_back kind=proof unwind=14 objbits=12
//@obl h_remove kind=proof unwind=14 objbits=12
//@obl h_move kind=proof unwind=14 objbits=12
//@obl h_insert kind=proof unwind=14 objbits=12
#include "vh.h"
static void on_lock(void); static void on_unlock(void);
#define VH_ON_LOCK(m) on_lock()
#define VH_ON_UNLOCK(m) on_unlock()
#include "vh_sync.h"
#include "mcp_buffer_pool.h"
#include "src/common/mcp_list.c"

/* node pool contract: a fresh node or NULL; each node given back once */
mcp_buffer_pool_t *mcp_buffer_pool_create(size_t s, size_t n) { (void)s; (void)n; return NULL; }
void mcp_buffer_pool_destroy(mcp_buffer_pool_t *p) { (void)p; }
void *mcp_buffer_pool_acquire(mcp_buffer_pool_t *p) { (void)p; return (vh_malloc)(sizeof(mcp_list_node_t)); }
void mcp_buffer_pool_release(mcp_buffer_pool_t *p, void *b) { (void)p; (vh_free)(b); }

#define NV 7
typedef struct { int n; int gap[NV + 1]; } shape;
static const shape shapes[] = {
    {0, {0}}, {1, {0}}, {2, {0}}, {3, {0}},
    {4, {0, 1, 0, 0}},                 /* a b ~ y z */
    {7, {0, 1, 0, 0, 1, 0, 0}},        /* a b ~ p n q ~ y z */
};
#define NS 6

static char far1, far2;
#define FARN ((mcp_list_node_t *)(void *)&far1)
#define FARP ((mcp_list_node_t *)(void *)&far2)

typedef struct { mcp_list_node_t *v[NV + 1]; int gap[NV + 2]; int n; size_t size; } view;
enum op { POP_F, POP_B, PUSH_F, PUSH_B, REMOVE, MOVE, INSERT };

static mcp_list_t L;
static view before, after;
static mcp_list_node_t *node[NV], *target;
static int s_under; static int t_under; static enum op g_op; static size_t extra;
static bool stage_locked, stage_done; static bool g_safe;
static mcp_list_node_t *fresh;
static char datum[NV + 2];

static int gaps(int s) { return shapes[s].gap[1] + shapes[s].gap[4]; }

static void install(int s, int t)
{
    const shape *sh = &shapes[s];
    int k = 0;
    for (int i = 0; i < sh->n; i++) before.v[i] = i == t ? target : node[k++];
    before.n = sh->n;
    for (int i = 0; i < sh->n; i++) before.gap[i] = sh->gap[i];
    for (int i = 0; i < sh->n; i++) {
        before.v[i]->prev = i == 0 ? NULL : sh->gap[i - 1] ? FARP : before.v[i - 1];
        before.v[i]->next = i == sh->n - 1 ? NULL : sh->gap[i] ? FARN : before.v[i + 1];
        before.v[i]->data = before.v[i] == target ? &datum[NV] : &datum[i];
    }
    L.head = sh->n ? before.v[0] : NULL;
    L.tail = sh->n ? before.v[sh->n - 1] : NULL;
    before.size = (size_t)sh->n + (gaps(s) ? extra : 0);
    L.size = before.size;
}

static bool is_view(const view *w)
{
    bool ok = L.size == w->size;
    ok = ok && L.head == (w->n ? w->v[0] : NULL) && L.tail == (w->n ? w->v[w->n - 1] : NULL);
    for (int i = 0; i < w->n; i++) {
        ok = ok && w->v[i]->prev == (i == 0 ? NULL : w->gap[i - 1] ? FARP : w->v[i - 1]);
        ok = ok && w->v[i]->next == (i == w->n - 1 ? NULL : w->gap[i] ? FARN : w->v[i + 1]);
    }
    return ok;
}

/* the list the operation has to produce, from the list under the lock */
static void expect(void)
{
    int at = 0, k = 0;
    after.size = before.size;
    if (g_op == POP_F || g_op == POP_B || g_op == REMOVE) {
        int rm = g_op == POP_F ? 0 : g_op == POP_B ? before.n - 1 : t_under;
        if (before.n == 0) { after = before; return; }
        for (int i = 0; i < before.n; i++)
            if (i != rm) { after.v[k] = before.v[i]; after.gap[k] = before.gap[i]; k++; }
        after.n = k; after.size--;
        return;
    }
    if (g_op == MOVE) {
        after.v[k] = target; after.gap[k] = 0; k++;
        for (int i = 0; i < before.n; i++)
            if (i != t_under) { after.v[k] = before.v[i]; after.gap[k] = before.gap[i]; k++; }
        after.n = k;
        return;
    }
    at = g_op == PUSH_F ? 0 : g_op == PUSH_B ? before.n : t_under + 1;
    for (int i = 0; i <= before.n; i++) {
        if (i == at) { after.v[k] = fresh; after.gap[k] = 0; k++; }
        if (i < before.n) { after.v[k] = before.v[i]; after.gap[k] = before.gap[i]; k++; }
    }
    after.n = k; after.size++;
}

static void on_lock(void)
{
    if (!g_safe) return;
    CHECK(!stage_locked, "one critical section per operation");
    stage_locked = true;
    install(s_under, t_under);
}

static void conclude(void)
{
    if (g_op == PUSH_F || g_op == PUSH_B || g_op == INSERT) {
        /* find the new node through the list itself */
        fresh = g_op == PUSH_F ? L.head : g_op == PUSH_B ? L.tail : (t_under < 0 ? L.head : target->next);
    }
    expect();
    CHECK(is_view(&after), "list is exactly the expected one, linked both ways, with the right size");
}

static void on_unlock(void)
{
    if (!g_safe) return;
    conclude();
    stage_done = true;
    /* from now on the list belongs to other threads */
    L.head = FARN; L.tail = FARP; L.size = 77;
}

static void run(enum op op, bool safe, int s0, int t0, int s1, int t1)
{
    struct mcp_mutex_s m = {0, 1};
    g_op = op; g_safe = safe; s_under = s1; t_under = t1; stage_locked = stage_done = false;
    for (int i = 0; i < NV; i++) { node[i] = (mcp_list_node_t *)malloc(sizeof(mcp_list_node_t)); ASSUME(node[i]); }
    target = (mcp_list_node_t *)malloc(sizeof(mcp_list_node_t)); ASSUME(target);
    L.mutex = safe ? &m : NULL; L.thread_safety = safe ? MCP_LIST_THREAD_SAFE : MCP_LIST_NOT_THREAD_SAFE;
    install(s0, t0);
    if (!safe) { t_under = t0; }
    bool was_empty = safe ? shapes[s1].n == 0 : shapes[s0].n == 0;
    void *d = NULL; mcp_list_node_t *r = NULL;
    void *front = NULL, *back = NULL;
    {   /* data the pops must return */
        int n = safe ? shapes[s1].n : shapes[s0].n;
        front = n ? (void *)&datum[0] : NULL; back = n ? (void *)&datum[n - 1] : NULL;
    }
    switch (op) {
    case POP_F: d = mcp_list_pop_front(&L); break;
    case POP_B: d = mcp_list_pop_back(&L); break;
    case PUSH_F: r = mcp_list_push_front(&L, &datum[NV + 1]); break;
    case PUSH_B: r = mcp_list_push_back(&L, &datum[NV + 1]); break;
    case REMOVE: d = mcp_list_remove(&L, target, NULL); break;
    case MOVE: mcp_list_move_to_front(&L, target); break;
    case INSERT: r = mcp_list_insert_after(&L, t0 < 0 ? NULL : target, &datum[NV + 1]); break;
    }
    if (safe) {
        CHECK(!m.held, "lock released");
        /* an empty list may be seen without the lock, anything else not */
        CHECK(stage_done || ((op == POP_F || op == POP_B) && shapes[s0].n == 0), "the operation works on the list as it is under the lock");
        if (stage_done) CHECK(L.head == FARN && L.tail == FARP && L.size == 77, "the list is not touched after the lock is released");
        if (!stage_done) { CHECK(d == NULL, "nothing popped from an empty list"); return; }
    } else {
        conclude();
    }
    if (op == POP_F) CHECK(d == front, "pop_front returns the first element");
    if (op == POP_B) CHECK(d == back, "pop_back returns the last element");
    if (op == REMOVE) CHECK(d == &datum[NV], "remove returns the element");
    if (op == PUSH_F || op == PUSH_B || op == INSERT) {
        CHECK(r != NULL && r == fresh && r->data == &datum[NV + 1], "the new node carries the element");
        for (int i = 0; i < NV; i++) CHECK(r != node[i] && r != target, "the new node is fresh");
    }
    (void)was_empty;
}

static void reset_extra(void) { extra = in_size("extra"); ASSUME(extra >= 2 && extra < ((size_t)1 << 60)); }

static void all_ends(enum op op)
{
    reset_extra();
    for (int s = 0; s < NS; s++) run(op, false, s, -1, s, -1);
    for (int s = 0; s < NS; s++)
        for (int u = 0; u < NS; u++) run(op, true, s, -1, u, -1);
    REACH("all shapes");
}
void h_pop_front(void) { all_ends(POP_F); }
void h_pop_back(void) { all_ends(POP_B); }
void h_push_front(void) { all_ends(PUSH_F); }
void h_push_back(void) { all_ends(PUSH_B); }

/* positions whose neighbours are visible */
static bool position(int s, int t)
{
    const shape *sh = &shapes[s];
    if (t >= sh->n) return false;
    return (t == 0 || !sh->gap[t - 1]) && (t == sh->n - 1 || !sh->gap[t]);
}
static void all_positions(enum op op)
{
    reset_extra();
    for (int s = 1; s < NS; s++)
        for (int t = 0; t < shapes[s].n; t++) {
            if (!position(s, t)) continue;
            run(op, false, s, t, s, t);
        }
    for (int s = 1; s < NS; s++)
        for (int t = 0; t < shapes[s].n; t++) {
            if (!position(s, t) || (s == 3 && t == 1)) continue;
            for (int u = 1; u < NS; u++)
                for (int v = 0; v < shapes[u].n; v++)
                    if (position(u, v)) run(op, true, s, t, u, v);
        }
    REACH("all positions");
}
void h_remove(void) { all_positions(REMOVE); }
void h_move(void) { all_positions(MOVE); }
void h_insert(void)
{
    all_positions(INSERT);
    run(INSERT, false, 5, -1, 5, -1);
    run(INSERT, true, 0, -1, 4, -1);
    REACH("front");
}
