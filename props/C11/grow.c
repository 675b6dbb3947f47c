// Growth of the output buffer.
//@file funcs=ensure_output_capacity loops=text.json
//@obl h_grow kind=proof unwind=3 loops=1 standin=h_string note="every size, capacity and request below 2^61"
#include "vh.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include "src/json/internal/json_internal.h"
#include "mcp_json_utils.h"
static void *spy_realloc(void *p, size_t n);
#undef realloc
#define realloc(p, n) spy_realloc(p, n)
#include "src/json/mcp_json_stringifier.c"
#undef realloc
size_t g_asked; char g_block[1];
static void *spy_realloc(void *p, size_t n) { g_asked = n; return in_bool("room") ? g_block : NULL; }
void h_grow(void)
{
    vh_reset();
    char *out = g_block; size_t size = in_size("size"), cap = in_size("cap"), more = in_size("more"), cap0 = cap;
    ASSUME(size <= cap && cap < ((size_t)1 << 61) && more < ((size_t)1 << 61));
    g_asked = 0;
    int r = ensure_output_capacity(&out, &size, &cap, more);
    CHECK(r == 0 || r == -1, "an outcome");
    if (r == 0) CHECK(cap - size >= more && (cap == cap0 || cap == g_asked), "there is room, and it is really there");
    else CHECK(cap == cap0 && cap0 - size < more, "refused only if it had to grow");
    REACH("grown");
}
