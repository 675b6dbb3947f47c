// The key functions every table in the product uses, growth over several
// resizes, and refusal of sizes that cannot be represented.
//@file funcs=mcp_hashtable_string_hash,mcp_hashtable_string_compare,mcp_hashtable_string_dup,mcp_hashtable_int_hash,mcp_hashtable_int_compare,mcp_hashtable_int_dup,mcp_hashtable_ptr_hash,mcp_hashtable_ptr_compare,mcp_hashtable_create,next_power_of_two
//@file link=src/common/mcp_string_utils.c
//@obl h_string kind=bounded unwind=12 note="strings of up to 6 bytes, every content"
//@obl h_int kind=proof unwind=4
//@obl h_ptr kind=proof unwind=4
//@obl h_create kind=proof unwind=70 note="every requested capacity and load factor"
//@obl h_many kind=bounded unwind=70 note="30 keys, growing from 4 to 64 buckets, half removed again"
#include "vh.h"
#include "mcp_hashtable.h"
#include "mcp_memory_pool.h"
bool mcp_memory_pool_system_is_initialized(void) { return false; }
void *mcp_pool_alloc(size_t n) { return NULL; }
void mcp_pool_free(void *p) { (void)p; }
mcp_memory_pool_t *mcp_memory_pool_create(size_t b, size_t i, size_t m) { return NULL; }
void mcp_memory_pool_destroy(mcp_memory_pool_t *p) { (void)p; }
void *mcp_memory_pool_alloc(mcp_memory_pool_t *p) { return NULL; }
bool mcp_memory_pool_free(mcp_memory_pool_t *p, void *e) { return false; }
static size_t g_asked, g_nasked; static bool g_spy; static char g_cell[2][128];
static void *spy(size_t n);
static void spy_set(void *p, int c, size_t n);
#ifndef REPLAY
#undef free
#define free(p) (g_spy ? (void)0 : (vh_free)(p))
#undef malloc
#define malloc(n) (g_spy ? spy(n) : (vh_malloc)(n))
#undef memset
#define memset(p, c, n) (g_spy ? spy_set(p, c, n) : (void)(memset)(p, c, n))
#endif
#include "src/common/mcp_hashtable.c"
#ifndef REPLAY
#undef malloc
#undef memset
#undef free
#define free(p) (vh_free)(p)
#endif
void h_string(void)
{
    static char a[8], b[9];
    for (int i = 0; i < 6; i++) { a[i] = (char)in_u8("a"); }
    a[6] = 0; a[7] = (char)in_u8("behind");
    IN_STR("b", b, 8);
    char *ha = vh_heap_str(a, 7), *hb = vh_heap_str(b, 8); ASSUME(ha && hb);
    bool eq = vh_streq(a, b);
    CHECK(mcp_hashtable_string_compare(ha, hb) == eq, "equal exactly if the same string");
    static char at[16]; int off = 3; /* the same string elsewhere, followed by something else */
    for (int i = 0; i < 7; i++) at[off + i] = a[i];
    at[off + 7] = (char)in_u8("other");
    CHECK(mcp_hashtable_string_hash(at + off) == mcp_hashtable_string_hash(a), "equal strings hash alike wherever they are");
    char *c = (char *)mcp_hashtable_string_dup(ha);
    if (c) { CHECK(c != ha && vh_streq(c, ha), "a copy of its own"); mcp_hashtable_string_free(c); }
    REACH("strings");
}
void h_int(void)
{
    int a = in_i32("a"), b = in_i32("b");
    CHECK(mcp_hashtable_int_compare(&a, &b) == (a == b), "equal exactly if the same number");
    int same[2]; same[1] = a;
    CHECK(mcp_hashtable_int_hash(&a) == mcp_hashtable_int_hash(&same[1]), "equal numbers hash alike");
    vh_alloc_may_fail = 1;
    int *c = (int *)mcp_hashtable_int_dup(&a);
    if (c) { CHECK(c != &a && *c == a, "a copy of its own"); mcp_hashtable_int_free(c); }
    CHECK(vh_live == 0, "released");
    REACH("ints");
}
void h_ptr(void)
{
    static char x[2]; char *a = in_bool("a") ? &x[0] : &x[1], *b = in_bool("b") ? &x[0] : &x[1];
    CHECK(mcp_hashtable_ptr_compare(a, b) == (a == b), "equal exactly if the same pointer");
    if (a == b) CHECK(mcp_hashtable_ptr_hash(a) == mcp_hashtable_ptr_hash(b), "equal pointers hash alike");
    CHECK(mcp_hashtable_ptr_dup(a) == a, "kept as it is");
    REACH("pointers");
}
static void *spy(size_t n) { if (g_nasked == 0) { g_nasked = 1; return g_cell[0]; } g_nasked++; g_asked = n; return in_bool("second_fails") ? NULL : g_cell[1]; }
static void spy_set(void *p, int c, size_t n) { CHECK(p == g_cell[1] && c == 0 && n == g_asked, "the whole bucket array starts empty"); }
void h_create(void)
{
    size_t want = in_size("capacity"); unsigned lf = in_u8("load");
#ifndef REPLAY
    g_spy = true;
#else
    g_spy = false;
    ASSUME(want <= ((size_t)1 << 20) || want > ((size_t)1 << 33));
#endif
    mcp_hashtable_t *t = mcp_hashtable_create(want, lf / 100.0f, mcp_hashtable_int_hash, mcp_hashtable_int_compare, mcp_hashtable_int_dup, mcp_hashtable_int_free, NULL);
    if (t) {
        CHECK(t->size == 0 && t->capacity > 0 && (t->capacity & (t->capacity - 1)) == 0, "empty, with a bucket count the index mask works for");
        CHECK(t->capacity <= SIZE_MAX / sizeof(void *), "a bucket count that can exist");
        if (g_spy) CHECK(g_asked == t->capacity * sizeof(void *), "an array of that many buckets");
        CHECK(t->load_factor_threshold > 0.0f && t->load_factor_threshold < 1.0f, "a sensible load factor");
    }
    g_spy = false;
    REACH("created");
}
static int g_v[30]; static int g_vf[30]; static int g_sum;
static void vf(void *v) { g_vf[(int *)v - g_v]++; }
static void visit(const void *k, void *v, void *u) { (void)u; CHECK(v == &g_v[*(const int *)k], "its value"); g_sum++; }
void h_many(void)
{
    mcp_hashtable_t *t = mcp_hashtable_create(3, 0.75f, mcp_hashtable_int_hash, mcp_hashtable_int_compare, mcp_hashtable_int_dup, mcp_hashtable_int_free, vf); ASSUME(t);
    for (int i = 0; i < 30; i++) { CHECK(mcp_hashtable_put(t, &i, &g_v[i]) == 0, "stored"); CHECK(mcp_hashtable_size(t) == (size_t)i + 1, "counted"); }
    for (int i = 0; i < 30; i++) { void *v = NULL; CHECK(mcp_hashtable_get(t, &i, &v) == 0 && v == &g_v[i], "found after growth"); }
    for (int i = 0; i < 30; i += 2) CHECK(mcp_hashtable_remove(t, &i) == 0 && g_vf[i] == 1, "removed");
    for (int i = 0; i < 30; i++) CHECK(mcp_hashtable_contains(t, &i) == (i % 2 == 1), "the others stay");
    mcp_hashtable_foreach(t, visit, NULL);
    CHECK(g_sum == 15 && mcp_hashtable_size(t) == 15, "and are enumerated");
    mcp_hashtable_destroy(t);
    for (int i = 0; i < 30; i++) CHECK(g_vf[i] == 1, "each value released once");
    CHECK(vh_live == 0, "all memory released");
    REACH("many");
}
