// Whole documents: the value they stand for, rejection, failing allocations, nesting.
//@file funcs=parse_array,parse_object,parse_value,mcp_json_parse,mcp_json_array_add_item,mcp_json_destroy,mcp_json_array_create_with_capacity,mcp_json_object_create_with_capacity,mcp_json_string_create
//@file assume="the property table by the contract of C13, the arena by that of C09, strtod for plain digits"
//@obl h_good0 kind=bounded unwind=40 objbits=12 note="a valid document, each allocation failing in turn"
//@obl h_good1 kind=bounded unwind=40 objbits=12 note="a valid document, each allocation failing in turn"
//@obl h_good2 kind=bounded unwind=40 objbits=12 note="a valid document, each allocation failing in turn"
//@obl h_good3 kind=bounded unwind=40 objbits=12 note="a valid document, each allocation failing in turn"
//@obl h_docs kind=bounded unwind=40 objbits=12 note="twenty invalid documents"
//@obl h_deep kind=bounded unwind=140 objbits=12 note="130 nested arrays, objects and both in turn"
#include "vh.h"
#ifndef REPLAY
#define union struct
#endif
#include "src/json/internal/json_internal.h"
#undef union
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
#endif
#include <string.h>
static int loop_strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return 1; if (!a[i]) return 0; } return 0; }
#ifndef REPLAY
#undef strncmp
#define strncmp loop_strncmp
#endif
char *mcp_strdup(const char *s) { int n = 0; while (s[n]) n++; char *p = (char *)malloc((size_t)n + 1); if (p) for (int i = 0; i <= n; i++) p[i] = s[i]; return p; }
#include "src/json/mcp_json.c"
#include "src/json/mcp_json_parser.c"
/* the arena */
static mcp_json_t g_pool[140]; static int g_used; static char g_arena[1];
mcp_arena_t *mcp_arena_get_current(void) { return (mcp_arena_t *)(void *)g_arena; }
void *mcp_arena_alloc(mcp_arena_t *a, size_t n)
{ if ((char *)a != g_arena || n != sizeof(mcp_json_t)) DETACH("arena use"); if (vh_fail_at >= 0 && vh_alloc_no++ == vh_fail_at) { vh_alloc_failed++; return NULL; } if (g_used >= 140) DETACH("arena full"); return &g_pool[g_used++]; }
/* the property table, by the contract of C13 */
#define KEYS 3
typedef struct { char *key[KEYS]; mcp_json_t *value[KEYS]; int n; void (*vfree)(void *); } table_t;
mcp_hashtable_t *mcp_hashtable_create(size_t cap, float load, mcp_hash_func_t h, mcp_key_compare_func_t c, mcp_key_dup_func_t d, mcp_key_free_func_t kf, mcp_value_free_func_t vf)
{ table_t *t = (table_t *)malloc(sizeof *t); if (!t) return NULL; t->n = 0; t->vfree = vf; return (mcp_hashtable_t *)(void *)t; }
static bool same(const char *a, const char *b) { int i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
int mcp_hashtable_put(mcp_hashtable_t *h, const void *key, void *v)
{
    table_t *t = (table_t *)(void *)h; if (!t || !key) return -1;
    for (int i = 0; i < t->n; i++) if (same(t->key[i], (const char *)key)) { mcp_json_destroy(t->value[i]); t->value[i] = (mcp_json_t *)v; return 0; }
    if (t->n >= KEYS) DETACH("more properties than this harness has");
    char *k = mcp_strdup((const char *)key); if (!k) return -1;
    t->key[t->n] = k; t->value[t->n++] = (mcp_json_t *)v; return 0;
}
void mcp_hashtable_destroy(mcp_hashtable_t *h)
{ table_t *t = (table_t *)(void *)h; if (!t) return; for (int i = 0; i < t->n; i++) { free(t->key[i]); mcp_json_destroy(t->value[i]); } free(t); }
int mcp_hashtable_get(mcp_hashtable_t *h, const void *key, void **v)
{ table_t *t = (table_t *)(void *)h; for (int i = 0; i < t->n; i++) if (same(t->key[i], (const char *)key)) { *v = t->value[i]; return 0; } return -1; }
int mcp_hashtable_remove(mcp_hashtable_t *h, const void *k) { DETACH("remove"); return -1; }
bool mcp_hashtable_contains(mcp_hashtable_t *h, const void *k) { void *v; return mcp_hashtable_get(h, k, &v) == 0; }
size_t mcp_hashtable_size(const mcp_hashtable_t *h) { return (size_t)((table_t *)(void *)h)->n; }
void mcp_hashtable_foreach(mcp_hashtable_t *h, void (*cb)(const void *, void *, void *), void *u) { DETACH("foreach"); }
unsigned long mcp_hashtable_string_hash(const void *k) { return 0; }
bool mcp_hashtable_string_compare(const void *a, const void *b) { return same((const char *)a, (const char *)b); }
void *mcp_hashtable_string_dup(const void *k) { return mcp_strdup((const char *)k); }
void mcp_hashtable_string_free(void *k) { free(k); }

static double vh_num(const char *s) { double v = 0; int i = 0; while (s[i] >= '0' && s[i] <= '9') v = v * 10 + (s[i++] - '0'); return v; }
#ifndef REPLAY
double strtod(const char *s, char **end) { int i = 0; while (s[i] >= '0' && s[i] <= '9') i++; *end = (char *)s + i; return vh_num(s); }
#endif
static mcp_json_t *prop(mcp_json_t *o, const char *k) { return mcp_json_object_get_property(o, k); }
static mcp_json_t *elem(mcp_json_t *a, int i) { return mcp_json_array_get_item(a, i); }
static bool is_num(mcp_json_t *v, double d) { return v && v->type == MCP_JSON_NUMBER && v->number_value == d; }
static bool is_str(mcp_json_t *v, const char *s) { return v && v->type == MCP_JSON_STRING && same(v->string_value, s); }
static bool faithful(int d, mcp_json_t *r)
{
    switch (d) {
    case 0: return r->type == MCP_JSON_OBJECT && mcp_json_array_get_size(prop(r, "a")) == 3 && is_num(elem(prop(r, "a"), 0), 1) && elem(prop(r, "a"), 1)->type == MCP_JSON_BOOLEAN && !elem(prop(r, "a"), 1)->boolean_value && is_str(elem(prop(r, "a"), 2), "x") && prop(r, "b")->type == MCP_JSON_NULL;
    case 1: return r->type == MCP_JSON_OBJECT && is_num(prop(r, "k"), 2) && prop(r, "") && prop(r, "")->type == MCP_JSON_OBJECT;
    case 2: return mcp_json_array_get_size(r) == 2 && mcp_json_array_get_size(elem(r, 0)) == 0 && is_num(prop(elem(r, 1), "z"), 30);
    default: return mcp_json_array_get_size(r) == 9 && is_num(elem(r, 0), 1) && is_num(elem(r, 8), 9);
    }
}
static void good(int d)
{
    static const char *GOOD[] = {" { \"a\" : [ 1 , false,\"x\"],\"b\":null} ", "{\"k\":\"old\",\"k\":2,\"\":{}}", "[[],{\"z\":30}]", "[1,2,3,4,5,6,7,8,9]"};
    for (int k = -1; k < 14; k++) {
        g_used = 0; vh_fail_point(k); mcp_json_t *r = mcp_json_parse(GOOD[d]); int failed = vh_alloc_failed; vh_fail_point(-1);
        CHECK((r != NULL) == !failed, "accepted unless there is no memory");
        if (r) { CHECK(faithful(d, r), "what the text says"); mcp_json_destroy(r); }
        CHECK(vh_live == 0, "nothing is lost");
    }
    REACH("done");
}
void h_good0(void) { good(0); }
void h_good1(void) { good(1); }
void h_good2(void) { good(2); }
void h_good3(void) { good(3); }
void h_docs(void)
{
    static const char *BAD[] = {"", " ", "[1,", "[1 2]", "[\"x\",]", "{\"a\":\"x\"", "{\"a\"}", "{\"a\":}", "{\"a\":\"x\",}", "{\"a\":\"x\" \"b\"", "{,}", "[\"x\"]]", "\"x\" y", "{\"a\":[\"y\",{\"b\":nul}]}", "[\"\\u12\"]", "[\"x", "tru", "{a:1}", "[,1]", "\"a\nb"};
    for (int d = 0; d < 20; d++) { g_used = 0; CHECK(mcp_json_parse(BAD[d]) == NULL, "rejected"); CHECK(vh_live == 0, "a rejected text leaks nothing"); }
    REACH("done");
}
static char g_text[900];
void h_deep(void)
{
    for (int kind = 0; kind < 3; kind++) {
        int w = 0; for (int i = 0; i < 130; i++) { if (kind == 0 || (kind == 2 && i % 2)) g_text[w++] = '['; else { g_text[w++] = '{'; g_text[w++] = '"'; g_text[w++] = '"'; g_text[w++] = ':'; } }
        g_text[w++] = '1'; for (int i = 129; i >= 0; i--) g_text[w++] = kind == 0 || (kind == 2 && i % 2) ? ']' : '}'; g_text[w] = 0;
        g_used = 0; CHECK(mcp_json_parse(g_text) == NULL, "too deep"); CHECK(vh_live == 0, "nothing is lost");
    }
    REACH("done");
}
