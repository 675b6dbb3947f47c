// Arrays, objects, dispatch and the end of the text, against the contract of the parts.
//@file funcs=parse_array,parse_object,parse_value,mcp_json_parse,mcp_json_array_add_item,mcp_json_destroy,mcp_json_array_create_with_capacity,mcp_json_object_create_with_capacity,mcp_json_string_create
//@file assume="values and names inside are read by their own contract (string.c, number.c, this file); the property table by the contract of C13"
//@obl h_array kind=bounded unwind=9 replace=mcp_json_destroy:spec_destroy,parse_value:spec_value standin=h_docs,h_good0,h_good1,h_good2,h_good3 note="every sequence of five separators, blanks, good and bad values"
//@obl h_object kind=bounded unwind=9 replace=mcp_json_destroy:spec_destroy,parse_value:spec_value,parse_string:spec_string standin=h_docs,h_good0,h_good1,h_good2,h_good3 note="every sequence of six separators, blanks, names, good and bad values"
//@obl h_end kind=bounded unwind=9 replace=mcp_json_destroy:spec_destroy,parse_value:spec_value standin=h_docs,h_good0,h_good1,h_good2,h_good3 note="everything around the value"
//@obl h_dispatch kind=bounded unwind=12 replace=parse_array:spec_array,parse_object:spec_object,parse_number:spec_number,parse_string:spec_string standin=h_docs,h_good0,h_good1,h_good2,h_good3 note="every first character; literals with every continuation"
#include "vh.h"
#ifndef REPLAY
#define union struct
#endif
#include "src/json/internal/json_internal.h"
#undef union
#ifndef REPLAY
#undef mcp_log_log
#define mcp_log_log(...) ((void)0)
#endif
#include <string.h>
/* the parts are replaced by their contracts in the verifier only */
#ifdef REPLAY
#define VERIFIER_ONLY vh_stop("contracts")
#else
#define VERIFIER_ONLY ((void)0)
#endif
static int loop_strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return 1; if (!a[i]) return 0; } return 0; }
#ifndef REPLAY
#undef strncmp
#define strncmp loop_strncmp
#endif
char *mcp_strdup(const char *s);
static void *spy_realloc(void *p, size_t n); static void spy_free(void *p);
#ifndef REPLAY
#undef realloc
#undef free
#define realloc(p, n) spy_realloc(p, n)
#define free(p) spy_free(p)
#endif
#include "src/json/mcp_json.c"
#include "src/json/mcp_json_parser.c"
/* storage: one array of items, a static cell for every name */
#define NAMES 4
static mcp_json_t *g_items[8]; static int g_items_live, g_tables_live; static char g_name[NAMES][2]; static int g_names, g_freed[NAMES];
static void *spy_realloc(void *p, size_t n)
{ if (n != sizeof g_items) DETACH("another size"); CHECK((p == NULL) == !g_items_live && (!p || p == (void *)g_items), "the array's items"); g_items_live = 1; return g_items; }
static void spy_free(void *p)
{
    if (!p) return;
    if (p == (void *)g_items) { CHECK(g_items_live == 1, "released once"); g_items_live = 0; return; }
    for (int i = 0; i < NAMES; i++) if (p == (void *)g_name[i]) { CHECK(!g_freed[i] && i < g_names, "released once"); g_freed[i] = 1; return; }
    DETACH("another object");
}
char *mcp_strdup(const char *s) { DETACH("copy"); return NULL; }
/* the arena */
static mcp_json_t g_pool[1]; static int g_used; static char g_arena[1];
mcp_arena_t *mcp_arena_get_current(void) { return (mcp_arena_t *)(void *)g_arena; }
void *mcp_arena_alloc(mcp_arena_t *a, size_t n)
{ if ((char *)a != g_arena || n != sizeof(mcp_json_t)) DETACH("arena use"); if (vh_fail_at >= 0 && vh_alloc_no++ == vh_fail_at) { vh_alloc_failed++; return NULL; } if (g_used >= 1) DETACH("arena full"); return &g_pool[g_used++]; }
/* the property table, by the contract of C13 */
#define KEYS 4
static char g_table[1], g_key[KEYS]; static mcp_json_t *g_stored[KEYS]; static int g_n; static bool g_refused;
mcp_hashtable_t *mcp_hashtable_create(size_t cap, float load, mcp_hash_func_t h, mcp_key_compare_func_t c, mcp_key_dup_func_t d, mcp_key_free_func_t kf, mcp_value_free_func_t vf)
{ if (g_tables_live) DETACH("second table"); g_tables_live = 1; g_n = 0; return (mcp_hashtable_t *)(void *)g_table; }
int mcp_hashtable_put(mcp_hashtable_t *h, const void *key, void *v)
{ CHECK((char *)h == g_table && g_tables_live, "its table"); if (in_bool("full")) { g_refused = true; return -1; } g_key[g_n] = *(const char *)key; g_stored[g_n++] = (mcp_json_t *)v; return 0; }
void mcp_hashtable_destroy(mcp_hashtable_t *h)
{ if (!h) return; CHECK((char *)h == g_table && g_tables_live, "its table"); for (int i = 0; i < KEYS; i++) if (i < g_n) { DETACH("destroyed directly"); } g_tables_live = 0; }
int mcp_hashtable_get(mcp_hashtable_t *h, const void *key, void **v) { DETACH("get"); return -1; }
int mcp_hashtable_remove(mcp_hashtable_t *h, const void *k) { DETACH("remove"); return -1; }
bool mcp_hashtable_contains(mcp_hashtable_t *h, const void *k) { return false; }
size_t mcp_hashtable_size(const mcp_hashtable_t *h) { return (size_t)g_n; }
void mcp_hashtable_foreach(mcp_hashtable_t *h, void (*cb)(const void *, void *, void *), void *u) { DETACH("foreach"); }
unsigned long mcp_hashtable_string_hash(const void *k) { return 0; }
bool mcp_hashtable_string_compare(const void *a, const void *b) { return *(const char *)a == *(const char *)b; }
void *mcp_hashtable_string_dup(const void *k) { return NULL; }
void mcp_hashtable_string_free(void *k) { }

/* contracts of the parts: 'v' is a value, 's' a name, anything else is neither */
#define VALS 6
static mcp_json_t g_val[VALS]; static int g_vals, g_depth; static long g_alive; static const char *g_read[VALS];
#ifndef REPLAY
/* releasing a value (its own text is exercised in docs.c) */
static void gone(mcp_json_t *v) { for (int i = 0; i < VALS; i++) if (v == &g_val[i]) { CHECK(i < g_vals && g_val[i].ref_count == 1, "released once"); g_val[i].ref_count = 0; return; } DETACH("another value"); }
void spec_destroy(mcp_json_t *v)
{
    if (!v) return;
    if (v != &g_pool[0]) { gone(v); return; }
    if (v->type == MCP_JSON_ARRAY) { for (size_t i = 0; i < VALS; i++) if (i < v->array.count) gone(v->array.items[i]); spy_free(v->array.items); }
    else { CHECK((char *)v->object_table == g_table && g_tables_live, "its table"); for (int i = 0; i < KEYS; i++) if (i < g_n) gone(g_stored[i]); g_tables_live = 0; }
    g_n = 0; v->array.count = 0; v->array.items = NULL;
}
static void blanks(const char **j) { for (int i = 0; i < 7; i++) if (**j == ' ' || **j == '\t' || **j == '\n' || **j == '\r') (*j)++; }
mcp_json_t *spec_value(const char **j, int depth)
{
    blanks(j); if (**j != 'v') { return NULL; }
    g_read[g_vals] = *j; (*j)++; mcp_json_t *v = &g_val[g_vals++]; v->type = MCP_JSON_NULL; v->ref_count = 1; return v;
}
char *spec_string(const char **j)
{ if (**j != 's') return NULL; (*j)++; g_freed[g_names] = 0; char *s = g_name[g_names]; s[0] = (char)('0' + g_names); s[1] = 0; g_names++; return s; }
static int g_which; static mcp_json_t g_sub;
static mcp_json_t *sub(const char **j, int which, int depth) { g_which = which; (*j)++; return in_bool("valid") ? &g_sub : NULL; }
mcp_json_t *spec_array(const char **j, int d) { return sub(j, 1, d); }
mcp_json_t *spec_object(const char **j, int d) { return sub(j, 2, d); }
mcp_json_t *spec_number(const char **j) { return sub(j, 3, g_depth); }
#endif
static bool all_gone(void) { for (int i = 0; i < VALS; i++) if (i < g_vals && g_val[i].ref_count != 0) return false; for (int i = 0; i < NAMES; i++) if (i < g_names && !g_freed[i]) return false; return !g_items_live && !g_tables_live; }
static bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
/* accepts [ v , v ]; returns the end or -1; counts values */
static int ref_list(const char *t, int n, char open, char close, bool named, int *count)
{
    int state = 0, i = 1; *count = 0; if (t[0] != open) return -1; /* 0 after open, 1 want item, 2 after name, 3 want value, 4 after value */
    for (; i < n; i++) {
        char c = t[i]; if (blank(c)) continue;
        if ((state == 0 || state == 4) && c == close) return i + 1;
        if ((state == 0 || state == 1) && named && c == 's') { state = 2; continue; }
        if ((state == 0 || state == 1) && !named && c == 'v') { state = 4; ++*count; continue; }
        if (state == 2 && c == ':') { state = 3; continue; }
        if (state == 3 && c == 'v') { state = 4; ++*count; continue; }
        if (state == 4 && c == ',') { state = 1; continue; }
        return -1;
    }
    return -1;
}
#define LA 6
void h_array(void)
{
    VERIFIER_ONLY;
    char t[LA + 1]; t[0] = '['; for (int i = 1; i < LA; i++) { char c = (char)in_u8("char"); ASSUME(c == ' ' || c == ',' || c == ']' || c == 'v' || c == 'x' || c == 0); t[i] = c; } t[LA] = 0;
    int depth = in_u8("depth"); ASSUME(depth < 100); g_depth = depth + 1; g_vals = 0; int count; const char *p = t;
    int end = ref_list(t, LA, '[', ']', false, &count);
    mcp_json_t *r = parse_array(&p, depth);
    CHECK((r != NULL) == (end >= 0), "an array and nothing else");
    if (r) { CHECK(p == t + end && r->type == MCP_JSON_ARRAY && r->array.count == (size_t)count && g_vals == count, "its extent and size"); for (int i = 0; i < 4; i++) if (i < count) CHECK(r->array.items[i] == &g_val[i], "in order"); mcp_json_destroy(r); }
    CHECK(all_gone(), "nothing is lost");
    REACH("done");
}
#define LO 7
void h_object(void)
{
    VERIFIER_ONLY;
    char t[LO + 1]; t[0] = '{'; for (int i = 1; i < LO; i++) { char c = (char)in_u8("char"); ASSUME(c == ' ' || c == ',' || c == '}' || c == ':' || c == 's' || c == 'v' || c == 'x' || c == 0); t[i] = c; } t[LO] = 0;
    int depth = in_u8("depth"); ASSUME(depth < 100); g_depth = depth + 1; g_vals = 0; int count; const char *p = t;
    g_names = 0; g_refused = false;
    int end = ref_list(t, LO, '{', '}', true, &count);
    mcp_json_t *r = parse_object(&p, depth);
    CHECK((r != NULL) == (end >= 0 && !g_refused) || (g_refused && !r), "an object and nothing else");
    if (r) {
        CHECK(p == t + end && r->type == MCP_JSON_OBJECT && g_vals == count, "its extent and size"); CHECK((char *)r->object_table == g_table && g_n == count, "its properties");
        for (int i = 0; i < 2; i++) if (i < count) CHECK(g_stored[i] == &g_val[i] && g_key[i] == '0' + i, "by name");
        mcp_json_destroy(r);
    }
    CHECK(all_gone(), "nothing is lost");
    REACH("done");
}
void h_end(void)
{
    VERIFIER_ONLY;
    char t[6]; for (int i = 0; i < 5; i++) { char c = (char)in_u8("char"); ASSUME(c == ' ' || c == '\n' || c == 'v' || c == 'x' || c == ']' || c == 0); t[i] = c; } t[5] = 0;
    g_depth = 0; g_vals = 0; int i = 0; while (blank(t[i])) i++; bool ok = t[i] == 'v'; if (ok) { i++; while (blank(t[i])) i++; ok = t[i] == 0; }
    mcp_json_t *r = mcp_json_parse(t);
    CHECK((r != NULL) == ok, "one value and nothing else"); if (r) { CHECK(r == &g_val[0], "the value"); mcp_json_destroy(r); }
    CHECK(all_gone(), "nothing is lost"); CHECK(mcp_json_parse(NULL) == NULL, "no text");
    REACH("done");
}
#ifdef REPLAY
void h_dispatch(void) { VERIFIER_ONLY; }
#else
void h_dispatch(void)
{
    char t[7]; for (int i = 0; i < 6; i++) t[i] = (char)in_u8("char"); t[6] = 0; ASSUME(!blank(t[0]) && t[0] != '"');
    int depth = in_u8("depth"); ASSUME(depth < 100); g_depth = depth; g_which = 0; g_names = 0; char c = t[0]; const char *p = t;
    mcp_json_t *r = parse_value(&p, depth);
    int want = c == '[' ? 1 : c == '{' ? 2 : c == '-' || (c >= '0' && c <= '9') ? 3 : 0;
    CHECK(g_which == want, "read as what it is");
    if (want) CHECK(r == NULL || r == &g_sub, "that value");
    else {
        bool nul = t[0] == 'n' && t[1] == 'u' && t[2] == 'l' && t[3] == 'l', tru = t[0] == 't' && t[1] == 'r' && t[2] == 'u' && t[3] == 'e', fal = t[0] == 'f' && t[1] == 'a' && t[2] == 'l' && t[3] == 's' && t[4] == 'e';
        CHECK((r != NULL) == (nul || tru || fal), "a literal or nothing");
        if (r) { CHECK(p == t + (fal ? 5 : 4), "to its end"); CHECK(r->type == (nul ? MCP_JSON_NULL : MCP_JSON_BOOLEAN), "its type"); if (!nul) CHECK(r->boolean_value == tru, "its value"); }
    }
    CHECK(all_gone(), "nothing is lost");
    REACH("done");
}
#endif
