// Text of value trees and the growth of the output buffer.
//@file funcs=mcp_json_stringify,mcp_json_stringify_with_capacity,stringify_with_capacity,stringify_value,stringify_array,stringify_object,stringify_object_callback,stringify_string,append_string,ensure_output_capacity,estimate_json_size,mcp_json_format_string subst=small.json
//@file assume="the table hands every property to the callback once (C13); numbers are written by the C library; memcpy by its definition; the first buffer has 16 bytes instead of 256, so that it has to grow"
//@obl h_string kind=bounded unwind=24 objbits=12 note="strings of up to two bytes of every kind at every fill level of a buffer of 0-4 bytes, failing growth"
//@obl h_tree kind=bounded unwind=40 note="trees of every kind of value, each allocation failing in turn"
#include "vh.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#ifndef REPLAY
#define union struct
#endif
#include "src/json/internal/json_internal.h"
#undef union
#include "mcp_json_utils.h"
static void *loop_memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
#ifndef REPLAY
#define memcpy loop_memcpy
#endif
static int spy_snprintf(char *b, size_t n, const char *f, double v);
#undef snprintf
#ifndef REPLAY
#include <math.h>
#undef isfinite
#undef isnan
#undef isinf
#define isfinite(x) __CPROVER_isfinited(x)
#define isnan(x) __CPROVER_isnand(x)
#define isinf(x) __CPROVER_isinfd(x)
#endif
#define snprintf(b, n, f, v) spy_snprintf(b, n, f, v)
#include "src/json/mcp_json_stringifier.c"
#undef snprintf
#undef memcpy
double g_num;
static int spy_snprintf(char *b, size_t n, const char *f, double v)
{ CHECK(n >= 25 && f[0] == '%' && f[1] == '.' && f[2] == '1' && f[3] == '7' && f[4] == 'g', "written with all its digits"); CHECK(v == g_num, "the number itself, if it has a notation"); b[0] = '7'; b[1] = 0; return 1; }
static char g_s[3], g_esc[24]; static int g_n;
static int put_byte(int w, unsigned char c)
{
    static const char H[] = "0123456789abcdef"; const char *two = c == '"' ? "\"" : c == '\\' ? "\\" : c == 8 ? "b" : c == 12 ? "f" : c == 10 ? "n" : c == 13 ? "r" : c == 9 ? "t" : NULL;
    if (two) { g_esc[w] = '\\'; g_esc[w + 1] = two[0]; return w + 2; }
    if (c >= 32) { g_esc[w] = (char)c; return w + 1; }
    g_esc[w] = '\\'; g_esc[w + 1] = 'u'; g_esc[w + 2] = g_esc[w + 3] = '0'; g_esc[w + 4] = H[c >> 4]; g_esc[w + 5] = H[c & 15]; return w + 6;
}
/* the escape function by its contract (escape.c) */
int mcp_json_escape_string(const char *in, char *out, size_t size)
{
    if (!in) return -1;
    int w = 0; for (int i = 0; in[i]; i++) w = put_byte(w, (unsigned char)in[i]);
    g_esc[w] = 0;
    if (out && size) { if (size < (size_t)w + 1) DETACH("cut off"); for (int i = 0; i <= w; i++) out[i] = g_esc[i]; }
    return w + 1;
}
void h_string(void)
{
    static const unsigned char CH[] = {'a', '"', '\\', '\n', 1, 0x7f, 0xc3};
    for (int c = 0; c < 7; c++) for (int n = 0; n < 3; n++) for (int cap = 0; cap < 5; cap += 2) for (int fill = 0; fill <= cap; fill += 2) for (int f = 0; f < 2; f++) {
        g_s[0] = n > 0 ? (char)CH[c] : 0; g_s[1] = n > 1 ? (char)CH[(c + 3) % 7] : 0; g_s[2] = 0;
        char *out = cap ? (char *)malloc((size_t)cap) : NULL; size_t size = (size_t)fill, capacity = (size_t)cap; for (int i = 0; i < fill; i++) out[i] = 'p';
        vh_fail_point(f ? 0 : -1); int r = stringify_string(g_s, &out, &size, &capacity); int failed = vh_alloc_failed; vh_fail_point(-1);
        CHECK((r == 0) == !failed, "written unless there is no memory");
        if (r == 0) {
            int w = 0; for (int i = 0; g_s[i]; i++) w = put_byte(w, (unsigned char)g_s[i]);
            CHECK(size == (size_t)(fill + w + 2) && size <= capacity && out[fill] == '"' && out[size - 1] == '"', "in quotes");
            for (int i = 0; i < w; i++) CHECK(out[fill + 1 + i] == g_esc[i], "in escaped form");
            for (int i = 0; i < fill; i++) CHECK(out[i] == 'p', "behind what is there");
        }
        free(out);
    }
    REACH("done");
}
static mcp_json_t g_v[8]; static mcp_json_t *g_items[3]; static char g_table[1]; static int g_props;
void mcp_hashtable_foreach(mcp_hashtable_t *t, void (*cb)(const void *key, void *value, void *u), void *u)
{ CHECK((char *)t == g_table, "the object's properties"); if (g_props > 0) cb("k\"", &g_v[1], u); if (g_props > 1) cb("m", &g_v[2], u); }
int mcp_json_object_get_property_names(const mcp_json_t *j, char ***names, size_t *n)
{
    *n = 0; *names = NULL; if (g_props == 0) return 0; *names = (char **)malloc(2 * sizeof(char *)); if (!*names) return -1;
    for (int i = 0; i < g_props; i++) { char *s = (char *)malloc(3); if (!s) { for (int k = 0; k < i; k++) free((*names)[k]); free(*names); *names = NULL; *n = 0; return -1; } s[0] = i ? 'm' : 'k'; s[1] = i ? 0 : '"'; s[2] = 0; (*names)[i] = s; }
    *n = (size_t)g_props; return 0;
}
mcp_json_t *mcp_json_object_get_property(const mcp_json_t *j, const char *n) { return n[0] == 'm' ? &g_v[2] : &g_v[1]; }
mcp_json_t *mcp_json_string_create(const char *s) { g_v[7].type = MCP_JSON_STRING; g_v[7].string_value = (char *)s; return &g_v[7]; }
void mcp_json_destroy(mcp_json_t *j) { CHECK(j == &g_v[7], "the temporary value"); g_v[7].string_value = NULL; }
static void text(const char *want, char *t, bool failed)
{
    CHECK((t != NULL) == !failed, "a text unless there is no memory");
    if (t) { int i = 0; while (want[i] && t[i] == want[i]) i++; CHECK(!want[i] && !t[i], "the text of the value"); free(t); }
    CHECK(vh_live == 0, "nothing is lost");
}
static void both(const char *want, const mcp_json_t *v)
{
    for (int k = -1; k < 6; k++) { vh_fail_point(k); char *t = mcp_json_stringify(v); int fails = vh_alloc_failed; vh_fail_point(-1); if (t && fails) fails = 0; text(want, t, fails); }
    text(want, mcp_json_stringify_with_capacity(v, 40), false);
}
void h_tree(void)
{
    g_num = 12.5;
    mcp_json_t *s = &g_v[0], *a = &g_v[1], *n = &g_v[2], *o = &g_v[3], *b = &g_v[4], *z = &g_v[5], *x = &g_v[6];
    s->type = MCP_JSON_STRING; s->string_value = "a\"\n"; n->type = MCP_JSON_NUMBER; n->number_value = g_num; b->type = MCP_JSON_BOOLEAN; b->boolean_value = in_bool("b"); z->type = MCP_JSON_NULL;
    x->type = MCP_JSON_NUMBER; 
    a->type = MCP_JSON_ARRAY; a->array.items = g_items; a->array.capacity = 3; g_items[0] = s; g_items[1] = n; g_items[2] = z; o->type = MCP_JSON_OBJECT; o->object_table = (mcp_hashtable_t *)(void *)g_table;
    both("\"a\\\"\\n\"", s); both("7", n); both("null", z); both("null", NULL);
    b->boolean_value = true; both("true", b); b->boolean_value = false; both("false", b);
    x->number_value = __builtin_inf(); both("null", x); x->number_value = -__builtin_inf(); both("null", x); x->number_value = __builtin_nan(""); both("null", x);
    a->array.count = 0; both("[]", a); a->array.count = 1; both("[\"a\\\"\\n\"]", a); a->array.count = 3; both("[\"a\\\"\\n\",7,null]", a);
    g_props = 0; both("{}", o); a->array.count = 1; g_props = 1; both("{\"k\\\"\":[\"a\\\"\\n\"]}", o); g_props = 2; both("{\"k\\\"\":[\"a\\\"\\n\"],\"m\":7}", o);
    text("null", mcp_json_stringify_with_capacity(NULL, 2000), false);
    text("\"x\\\\\"", mcp_json_format_string("x\\"), false);
    REACH("done");
}
