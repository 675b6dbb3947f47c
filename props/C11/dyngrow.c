// Growth of the string builder.
//@file funcs=dyn_buf_ensure_capacity loops=dyngrow.json
//@obl h_dyngrow kind=proof unwind=3 loops=1 standin=h_plain note="every length and capacity and every request below 2^60"
#include "vh.h"
#include <string.h>
#include <stdlib.h>
static void *spy_realloc(void *p, size_t n);
#undef realloc
#define realloc(p, n) spy_realloc(p, n)
#include "src/common/mcp_string_utils.c"
#undef realloc
size_t g_asked; char g_block[1];
static void *spy_realloc(void *p, size_t n) { CHECK(p == g_block || !p, "its own block"); g_asked = n; return in_bool("room") ? g_block : NULL; }
void h_dyngrow(void)
{
    vh_reset();
    dyn_buf_t b; b.length = in_size("length"); b.capacity = in_size("capacity"); b.buffer = b.capacity ? g_block : NULL; size_t more = in_size("more"), cap0 = b.capacity, len0 = b.length;
    ASSUME(b.length <= b.capacity && b.capacity < ((size_t)1 << 60) && more < ((size_t)1 << 60));
    g_asked = 0;
    int r = dyn_buf_ensure_capacity(&b, more);
    CHECK(b.length == len0 && (r == 0 || r == -1), "an outcome");
    if (r == 0) CHECK(b.capacity - b.length > more && (b.capacity == cap0 || b.capacity == g_asked), "there is room, and it is really there");
    else CHECK(b.capacity == cap0 && cap0 - len0 <= more, "refused only if it had to grow");
    REACH("grown");
}
