// Every operation on an arbitrary table of up to three entries: the contents
// afterwards, the size, and who was released.
//@file funcs=mcp_hashtable_put,mcp_hashtable_get,mcp_hashtable_remove,mcp_hashtable_contains,mcp_hashtable_clear,mcp_hashtable_destroy,mcp_hashtable_foreach,mcp_hashtable_size,hashtable_resize,hashtable_entry_alloc,hashtable_entry_free
//@file assume="general and entry pools by contract (C16)"
//@obl h_put_new kind=bounded unwind=70 note="0-3 entries in every distribution over the buckets, a new key, growth"
//@obl h_put_new3 kind=bounded unwind=70 note="3 entries in every distribution over 4 buckets, a new key"
//@obl h_put_old kind=bounded unwind=70 note="1-3 entries in every distribution, an existing key"
//@obl h_put_fail kind=bounded unwind=70 note="each allocation failing, with and without pools"
//@obl h_remove kind=bounded unwind=70 note="0-3 entries in every distribution"
//@obl h_clear kind=bounded unwind=70 note="0-3 entries in every distribution; enumeration, clear, destroy"
//@obl h_batch kind=bounded unwind=70 note="batches of 3"
#include "vh.h"
#include "mcp_hashtable.h"
#include "mcp_memory_pool.h"
static bool g_pool; static char g_ep[1]; static void *g_mine[4]; static int g_minen; static bool g_ep_ok;
bool mcp_memory_pool_system_is_initialized(void) { return g_pool; }
/* the general pool: static cells, so that many runs stay cheap */
static struct { mcp_hashtable_entry_t e; } g_ec[5]; static mcp_hashtable_t g_tc; static mcp_hashtable_entry_t *g_b0[16], *g_b1[16]; static int g_used[8]; static int g_pool_fail_at, g_pool_no, g_pool_failed;
void *mcp_pool_alloc(size_t n)
{
    CHECK(g_pool, "pool in use");
    if (g_pool_no++ == g_pool_fail_at) { g_pool_failed++; return NULL; }
    if (n == sizeof(mcp_hashtable_entry_t)) { for (int i = 0; i < 5; i++) if (!g_used[i]) { g_used[i] = 1; return &g_ec[i].e; } }
    else if (n == sizeof(mcp_hashtable_t) && !g_used[5]) { g_used[5] = 1; return &g_tc; }
    else if (n <= sizeof g_b0 && !g_used[6]) { g_used[6] = 1; return g_b0; }
    else if (n <= sizeof g_b1 && !g_used[7]) { g_used[7] = 1; return g_b1; }
    return (vh_malloc)(n);
}
static int mine(void *p) { for (int i = 0; i < 4; i++) if (g_mine[i] && g_mine[i] == p) return i; return -1; }
static int cell(void *p) { for (int i = 0; i < 5; i++) if (p == &g_ec[i].e) return i; return p == &g_tc ? 5 : p == g_b0 ? 6 : p == g_b1 ? 7 : -1; }
void mcp_pool_free(void *p)
{
    CHECK(mine(p) < 0, "an entry of the entry pool goes back to the entry pool");
    int c = cell(p);
    if (c < 0) { (vh_free)(p); return; }
    CHECK(g_used[c], "released once"); g_used[c] = 0;
}
mcp_memory_pool_t *mcp_memory_pool_create(size_t b, size_t i, size_t m) { CHECK(b >= sizeof(mcp_hashtable_entry_t), "entries fit"); return NULL; }
void mcp_memory_pool_destroy(mcp_memory_pool_t *p) { (void)p; }
void *mcp_memory_pool_alloc(mcp_memory_pool_t *p)
{
    CHECK(p == (void *)g_ep, "the entry pool");
    if (!g_ep_ok) return NULL;
    void *e = (vh_malloc)(sizeof(mcp_hashtable_entry_t));
    for (int i = 0; i < 4; i++) if (!g_mine[i]) { g_mine[i] = e; return e; }
    return e;
}
bool mcp_memory_pool_free(mcp_memory_pool_t *p, void *e) { CHECK(p == (void *)g_ep, "the entry pool"); int i = mine(e); if (i < 0) return false; g_mine[i] = NULL; (vh_free)(e); return true; }
char *mcp_strdup(const char *s) { return NULL; }
#include "src/common/mcp_hashtable.c"
#define NK 4
static const int g_key[NK] = { 0, 1, 2, 3 }; static unsigned long g_hash[NK];
static char g_val[8]; static int g_vfree[8];
static int g_copy[8], g_kfree[8], g_kn;
static bool g_dup_fails;
static unsigned long hash(const void *k) { return g_hash[*(const int *)k]; }
static bool same(const void *a, const void *b) { return *(const int *)a == *(const int *)b; }
static void *kdup(const void *k) { if (g_dup_fails) return NULL; g_copy[g_kn] = *(const int *)k; return &g_copy[g_kn++]; }
static void kfree(void *k) { long i = (int *)k - g_copy; CHECK(i >= 0 && i < g_kn && !g_kfree[i], "each key copy is released once"); g_kfree[i]++; }
static void vfree(void *v) { long i = (char *)v - g_val; CHECK(i >= 0 && i < 8 && !g_vfree[i], "each value is released once"); g_vfree[i]++; }
static int model[NK]; /* value stored under the key, -1: none */
static mcp_hashtable_t *g_t;
/* n entries, keys 0..n-1; hb: two hash bits per key; mode: 0 no pools, 1 general pool, 2 entry pool, 3 entry pool exhausted */
static void table(size_t cap, int n, int hb, int mode, bool vf)
{
    for (int i = 0; i < 8; i++) { g_vfree[i] = 0; g_kfree[i] = 0; }
    for (int i = 0; i < 4; i++) g_mine[i] = NULL;
    for (int i = 0; i < 8; i++) g_used[i] = 0;
    g_pool_fail_at = -1; g_pool_no = 0; g_pool_failed = 0;
    g_kn = 0;
    for (int i = 0; i < NK; i++) { model[i] = -1; g_hash[i] = 0xABCD00F0UL + 4 * (unsigned)(i & 1) + (unsigned)(hb >> (2 * i) & 3); }
    g_pool = mode != 0; g_ep_ok = mode == 2;
    tls_hashtable_entry_pool = mode >= 2 ? (void *)g_ep : NULL;
    g_t = mcp_hashtable_create(cap, 0.75f, hash, same, kdup, kfree, vf ? vfree : NULL);
    CHECK(g_t && g_t->capacity == cap, "created");
    g_t->load_factor_threshold = 100.0f; /* no growth while the table is filled */
    for (int i = 0; i < n; i++) { CHECK(mcp_hashtable_put(g_t, &g_key[i], &g_val[i]) == 0, "stored"); model[i] = i; }
    g_t->load_factor_threshold = 0.75f;
}
static int g_seen[NK];
static void visit(const void *k, void *v, void *u)
{
    int i = *(const int *)k; CHECK(u == g_seen && i >= 0 && i < NK && model[i] >= 0 && v == &g_val[model[i]], "enumeration gives what is stored"); g_seen[i]++;
}
static void same_as_model(void)
{
    size_t n = 0;
    for (int i = 0; i < NK; i++) {
        void *v = &g_pool;
        int r = mcp_hashtable_get(g_t, &g_key[i], &v);
        CHECK((r == 0) == (model[i] >= 0), "a key is found exactly if it is stored");
        if (r == 0) CHECK(v == &g_val[model[i]], "the value last stored under the key");
        CHECK(mcp_hashtable_contains(g_t, &g_key[i]) == (model[i] >= 0), "contains agrees");
        if (model[i] >= 0) n++;
        g_seen[i] = 0;
    }
    CHECK(mcp_hashtable_size(g_t) == n, "the size is the number of keys");
}
static void end(int values)
{
    bool vf = g_t->value_free != NULL;
    mcp_hashtable_destroy(g_t);
    for (int i = 0; i < 8; i++) { if (i < g_kn) CHECK(g_kfree[i] == 1, "every key copy released"); if (i < values) CHECK(g_vfree[i] == vf, "every stored value released"); }
    CHECK(vh_live == 0, "all memory released");
    for (int i = 0; i < 8; i++) CHECK(!g_used[i], "all memory given back");
}
static void put(size_t cap, int n, int hb, int mode, int k, int fail)
{
    bool vf = (hb & 1) == 0;
    table(cap, n, hb, mode, vf);
    g_dup_fails = fail == 9; vh_fail_point(fail < 9 ? fail : -1); g_pool_no = 0; g_pool_fail_at = fail < 9 ? fail : -1;
    int r = mcp_hashtable_put(g_t, &g_key[k], &g_val[5]);
    if (r != 0) {
        CHECK(g_dup_fails || vh_alloc_failed || g_pool_failed, "refused for lack of memory only");
        for (int i = 0; i < n; i++) CHECK(!g_vfree[i], "a failed insertion releases nothing");
        CHECK(!g_vfree[5], "and not the value offered");
    } else {
        if (model[k] >= 0) CHECK(g_vfree[model[k]] == vf, "the value replaced is released");
        for (int i = 0; i < n; i++) if (i != k) CHECK(!g_vfree[i], "no other value is");
        model[k] = 5;
    }
    vh_fail_point(-1); g_pool_fail_at = -1; g_dup_fails = false;
    same_as_model();
    for (int i = 0; i < n; i++) if (i == k && model[k] == 5) g_vfree[k] = vf;
    end(n);
    if (r == 0) CHECK(g_vfree[5] == vf, "the stored value is released at the end"); else CHECK(!g_vfree[5], "the refused value stays the caller's");
}
void h_put_new(void)
{
    for (int hb = 0; hb < 4; hb++) put(2, 0, hb, hb, 0, -1);
    for (int hb = 0; hb < 16; hb++) put(2, 1, hb, 1, 1, -1);
    for (int hb = 0; hb < 64; hb++) put(2, 2, hb, 1, 2, -1);
    put(1, 1, 0, 0, 1, -1); put(2, 2, 0x18, 0, 2, -1); put(2, 2, 0x24, 2, 2, -1); put(2, 2, 0x24, 3, 2, -1);
    REACH("put");
}
void h_put_new3(void)
{
    for (int hb = 0; hb < 64; hb++) put(4, 3, hb | 0x40, 1, 3, -1);
    put(16, 3, 0x1b, 1, 3, -1); put(4, 3, 0, 0, 3, -1);
    REACH("put");
}
void h_put_old(void)
{
    for (int hb = 0; hb < 16; hb++) { put(2, 2, hb, 1, 0, -1); put(4, 2, hb, 1, 1, -1); }
    for (int hb = 0; hb < 64; hb++) put(16, 3, hb, 1, (hb + 1) % 3, -1);
    put(2, 2, 0, 0, 1, -1); put(2, 2, 4, 2, 0, -1);
    REACH("put");
}
void h_put_fail(void)
{
    for (int mode = 0; mode < 4; mode++) for (int f = 0; f < 3; f++) { put(2, 1, 2, mode, 1, f); put(2, 1, 2, mode, 1, 9); put(16, 1, 2, mode, 0, f); put(16, 1, 0, mode, 1, f); put(2, 2, 8, mode, 1, f); }
    REACH("put");
}
static void removal(size_t cap, int n, int hb, int mode, int k)
{
    bool vf = (hb & 1) == 0;
    table(cap, n, hb, mode, vf);
    int r = mcp_hashtable_remove(g_t, &g_key[k]);
    CHECK((r == 0) == (model[k] >= 0), "removal succeeds exactly if the key was there");
    for (int i = 0; i < n; i++) { CHECK(g_vfree[i] == (i == k && vf), "exactly its value is released"); CHECK(g_kfree[i] == (i == k), "exactly its key is released"); }
    model[k] = -1;
    same_as_model();
    end(n);
}
void h_remove(void)
{
    removal(2, 0, 0, 0, 0);
    for (int hb = 0; hb < 16; hb++) { removal(2, 1, hb, 1, 1); removal(2, 2, hb, 1, hb & 1); removal(2, 2, hb, 1, ~hb & 1); }
    for (int hb = 0; hb < 64; hb++) removal(2, 3, hb, 1, hb % 3);
    removal(1, 3, 0, 0, 0); removal(1, 3, 0, 2, 1); removal(1, 3, 0, 3, 2); removal(1, 3, 0, 0, 3); removal(1, 2, 0, 0, 1);
    REACH("removed");
}
static void clear(size_t cap, int n, int hb, int mode)
{
    bool vf = (hb & 1) == 0;
    table(cap, n, hb, mode, vf);
    same_as_model();
    mcp_hashtable_foreach(g_t, visit, g_seen);
    for (int i = 0; i < NK; i++) CHECK(g_seen[i] == (model[i] >= 0), "enumeration visits every entry once");
    for (int i = 0; i < n; i++) CHECK(!g_vfree[i] && !g_kfree[i], "looking releases nothing");
    if (hb & 2) {
        mcp_hashtable_clear(g_t);
        for (int i = 0; i < n; i++) { CHECK(g_vfree[i] == vf && g_kfree[i] == 1, "clearing releases every key and value"); model[i] = -1; }
        same_as_model();
        if (hb & 4) { CHECK(mcp_hashtable_put(g_t, &g_key[1], &g_val[6]) == 0, "usable again"); model[1] = 6; same_as_model(); }
    }
    end(n);
}
void h_clear(void)
{
    for (int hb = 0; hb < 8; hb++) { clear(2, 0, hb, 1); clear(2, 1, hb, hb & 3); clear(2, 2, hb, hb & 3); }
    for (int hb = 0; hb < 64; hb++) clear(4, 3, hb, 1);
    REACH("cleared");
}
static void batch(int n, int hb, int a, int b, int c)
{
    table(2, n, hb, 1, false);
    const void *keys[3] = { &g_key[a], &g_key[b], &g_key[c] }; void *vals[3] = { &g_val[4], &g_val[5], &g_val[6] };
    CHECK(mcp_hashtable_put_batch(g_t, keys, vals, 3) == 3, "all stored");
    model[a] = 4; model[b] = 5; model[c] = 6;
    same_as_model();
    void *got[3]; int res[3];
    CHECK(mcp_hashtable_get_batch(g_t, keys, got, 3, res) == 3 && res[0] == 0 && got[0] == &g_val[model[a]] && got[2] == &g_val[6], "all found");
    int k = 1 + (b != a) + (c != a && c != b);
    CHECK(mcp_hashtable_remove_batch(g_t, keys, 3, res) == k, "each key removed once");
    model[a] = model[b] = model[c] = -1;
    same_as_model();
    end(0);
}
void h_batch(void) { for (int i = 0; i < 64; i += 3) { batch(0, i, i & 3, i >> 2 & 3, i >> 4 & 3); batch(2, 0x39 ^ i, i & 3, i >> 2 & 3, i >> 4 & 3); } REACH("batch"); }
