// Lookup, insertion and removal in tables of every size with chains of every
// length (loop invariants in chain.json).  The chain selected by the key is
//   (run of other keys) (the key, if stored) (run of other keys)
// where a run stands for any number of entries: its link leads back to itself
// until the walk leaves it, which the key comparison decides.
//@file funcs=mcp_hashtable_put,mcp_hashtable_get,mcp_hashtable_remove,mcp_hashtable_contains loops=chain.json
//@file assume="keys compare by identity of the stored copy; no pools; growth by contract (decided in ops.c)"
//@obl h_get kind=proof unwind=2 loops=1 abstract=1 standin=h_clear note="every bucket count and chain length"
//@obl h_contains kind=proof unwind=2 loops=1 abstract=1 standin=h_clear note="every bucket count and chain length"
//@obl h_put_any kind=proof unwind=2 loops=1 replace=hashtable_resize:spec_resize abstract=1 standin=h_put_old note="every bucket count and chain length"
//@obl h_remove_any kind=proof unwind=2 loops=1 abstract=1 standin=h_remove note="every bucket count and chain length"
#include "vh.h"
#ifdef REPLAY
#include <sys/mman.h>
#endif
#include "mcp_hashtable.h"
#include "mcp_memory_pool.h"
bool mcp_memory_pool_system_is_initialized(void) { return false; }
void *mcp_pool_alloc(size_t n) { return NULL; }
void mcp_pool_free(void *p) { (void)p; }
mcp_memory_pool_t *mcp_memory_pool_create(size_t b, size_t i, size_t m) { return NULL; }
void mcp_memory_pool_destroy(mcp_memory_pool_t *p) { (void)p; }
void *mcp_memory_pool_alloc(mcp_memory_pool_t *p) { return NULL; }
bool mcp_memory_pool_free(mcp_memory_pool_t *p, void *e) { return false; }
char *mcp_strdup(const char *s) { return NULL; }
#ifdef REPLAY
#define LAST 1 /* natively a run is one entry */
#else
#define LAST 0
#endif
/* run before, the key's entry, run after; present flags; is the walk past it */
extern mcp_hashtable_entry_t g_a, *g_v, g_z; extern bool g_has_a, g_has_v, g_has_z; extern int g_pos;
#define AFTER_A (g_has_v ? g_v : g_has_z ? &g_z : (mcp_hashtable_entry_t *)0)
#include "src/common/mcp_hashtable.c"
mcp_hashtable_entry_t g_a, *g_v, g_z; bool g_has_a, g_has_v, g_has_z; int g_pos;
char g_ka[1], g_kv[1], g_kz[1], g_key[1], g_new[1]; unsigned long g_hash;
mcp_hashtable_t g_t; size_t g_idx; mcp_hashtable_entry_t *g_bucket; char g_old[1], g_val[1];
int g_vfree, g_kfree, g_dup;
unsigned long hash(const void *k) { CHECK(k == g_key, "the hash of the key asked for"); return g_hash; }
bool same(const void *x, const void *y)
{
    const void *k = x == g_key ? y : x;
    CHECK(x == g_key || y == g_key, "compared with the key asked for");
    if (k == g_ka) { if (in_bool("leave_a") || LAST) g_a.next = AFTER_A; return false; }
    if (k == g_kz) { if (in_bool("leave_z") || LAST) g_z.next = NULL; return false; }
    CHECK(k == g_kv, "a key of the chain");
    return true;
}
void *kdup(const void *k) { CHECK(k == g_key, "the copy of the key"); if (in_bool("dup_fails")) return NULL; g_dup++; return g_new; }
void kfree(void *k) { CHECK(k == g_kv, "only the removed key is released"); g_kfree++; }
void vfree(void *v) { CHECK(v == g_old, "only the replaced or removed value is released"); g_vfree++; }
/* growth (ops.c) keeps the contents: here the table stays as it is, or memory is short */
int g_rs;
int spec_resize(mcp_hashtable_t *t, size_t n) { CHECK(t == &g_t && n > t->capacity, "growth grows"); g_rs = 1; return in_bool("grown") ? 0 : -1; }
static void table(void)
{
    vh_reset();
    unsigned bits = in_u8("bits"); ASSUME(bits <= 32);
    g_t.capacity = (size_t)1 << bits;
    g_hash = in_u64("hash"); g_idx = g_hash & (g_t.capacity - 1);
#ifdef REPLAY
    g_t.buckets = (mcp_hashtable_entry_t **)mmap(NULL, g_t.capacity * sizeof(void *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#else
    /* only the bucket of the key exists: touching any other one is out of bounds */
    g_t.buckets = &g_bucket - g_idx;
#endif
    g_has_a = in_bool("a"); g_has_v = in_bool("v"); g_has_z = in_bool("z");
    g_v = (mcp_hashtable_entry_t *)malloc(sizeof *g_v); ASSUME(g_v);
    g_a.key = g_ka; g_a.value = g_val; g_a.next = in_bool("one_a") ? AFTER_A : &g_a;
    g_z.key = g_kz; g_z.value = g_val; g_z.next = in_bool("one_z") ? NULL : &g_z;
    g_v->key = g_kv; g_v->value = g_old; g_v->next = g_has_z ? &g_z : NULL;
    g_t.buckets[g_idx] = g_has_a ? &g_a : AFTER_A;
    g_t.size = in_size("size"); ASSUME(g_t.size >= 1 && g_t.size < ((size_t)1 << 40));
    g_t.load_factor_threshold = 0.75f; g_rs = 0;
    g_t.hash_func = hash; g_t.key_compare = same; g_t.key_dup = kdup; g_t.key_free = kfree; g_t.value_free = in_bool("vf") ? vfree : NULL;
    g_vfree = g_kfree = g_dup = 0; tls_hashtable_entry_pool = NULL;
}
static void others(void)
{
    if (g_has_a) CHECK(g_t.buckets[g_idx] == &g_a && g_a.key == g_ka && g_a.value == g_val, "the entries before stay");
    if (g_has_z) CHECK(g_z.key == g_kz && g_z.value == g_val, "the entries behind stay");
}
void h_get(void)
{
    table();
    void *v = g_val; size_t n = g_t.size;
    int r = mcp_hashtable_get(&g_t, g_key, &v);
    CHECK((r == 0) == g_has_v && v == (g_has_v ? (void *)g_old : (void *)g_val), "the stored value, if any");
    CHECK(g_t.size == n, "unchanged"); others();
    REACH("got");
}
void h_contains(void)
{
    table();
    CHECK(mcp_hashtable_contains(&g_t, g_key) == g_has_v, "contained exactly if stored");
    others();
    REACH("asked");
}
void h_put_any(void)
{
    table();
    size_t n = g_t.size; long live = vh_live;
    vh_alloc_may_fail = 1;
    int r = mcp_hashtable_put(&g_t, g_key, g_new);
    if (g_has_v) {
        if (r != 0) { CHECK(g_rs && g_v->value == g_old && !g_vfree, "refused only when it cannot grow, and then unchanged"); return; }
        CHECK(r == 0 && g_v->value == g_new && g_v->key == g_kv && g_t.size == n, "the stored value is replaced");
        CHECK(g_vfree == (g_t.value_free != NULL) && !g_kfree && !g_dup && vh_live == live, "and released, nothing else");
        if (!g_has_a) CHECK(g_t.buckets[g_idx] == g_v, "in its place");
        CHECK(g_v->next == (g_has_z ? &g_z : NULL), "with what follows it");
    } else if (r == 0) {
        CHECK(g_t.size == n + 1 && g_dup == 1 && vh_live == live + 1 && !g_vfree && !g_kfree, "one entry more");
        mcp_hashtable_entry_t *f = g_t.buckets[g_idx];
        if (f == &g_a) f = g_a.next;
        if (f == &g_z) f = g_z.next;
        if (f == &g_a) f = g_a.next; /* inserted in front of the others */
        CHECK(f && f != &g_a && f != &g_z && f->key == g_new && f->value == g_new, "the new entry is in the chain of its key");
    } else CHECK(g_t.size == n && vh_live == live && !g_vfree && !g_kfree, "a failed insertion changes nothing");
    REACH("put");
}
void h_remove_any(void)
{
    table();
    size_t n = g_t.size; long live = vh_live;
    mcp_hashtable_entry_t *v = g_v;
    int r = mcp_hashtable_remove(&g_t, g_key);
    CHECK((r == 0) == g_has_v, "removal succeeds exactly if the key was there");
    CHECK(g_t.size == n - g_has_v && vh_live == live - g_has_v && g_kfree == g_has_v && g_vfree == (g_has_v && g_t.value_free), "the entry, its key and its value are released");
    others();
    if (g_has_v) {
        mcp_hashtable_entry_t *link = g_has_a ? g_a.next : g_t.buckets[g_idx];
        CHECK(link == (g_has_z ? &g_z : NULL), "the entries behind are linked to those before");
    }
    (void)v;
    REACH("removed");
}
