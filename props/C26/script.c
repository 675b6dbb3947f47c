// Whole histories of small stores, with the real index (two buckets, so that
// ids collide) and issued ids.
//@file funcs=sse_stream_context_create,sse_stream_context_destroy,hash_event_id,event_hash_map_create,event_hash_map_destroy
//@obl h_script kind=bounded unwind=26 replace=send_sse_event:spec_send note="capacities 1-3, up to 7 events, every stored id, none, and a lost one"
//@obl h_fail kind=bounded unwind=26 replace=send_sse_event:spec_send note="each allocation failing in turn"
#include "vh_sync.h"
#include <stdlib.h>
static void sfree(void *p);
#undef free
#define free(p) sfree(p)
#include "internal/sthttp_transport_internal.h"
#undef STHTTP_EVENT_HASH_INITIAL_SIZE
#define STHTTP_EVENT_HASH_INITIAL_SIZE 2
#include "src/transport/mcp_sthttp_utils.c"
#include "src/transport/mcp_sthttp_dynamic_utils.c"
#include "src/transport/mcp_http_sse_common.c"
#undef free
/* copies of strings: cells of their own (heap strings are costly for the verifier) */
#define CELLS 24
static struct { char s[4]; } g_cell[CELLS]; static bool g_taken[CELLS];
char *mcp_strdup(const char *s)
{
    if (!s) return NULL;
    char *probe = (char *)vh_malloc(1); if (!probe) return NULL; (vh_free)(probe);
    for (int i = 0; i < CELLS; i++) if (!g_taken[i]) { g_taken[i] = true; for (int k = 0; k < 4; k++) { g_cell[i].s[k] = s[k]; if (!s[k]) break; } return g_cell[i].s; }
    CHECK(0, "strings are released"); return NULL;
}
static void sfree(void *p)
{
    for (int i = 0; i < CELLS; i++) if (p == g_cell[i].s) { CHECK(g_taken[i], "released once"); g_taken[i] = false; return; }
    (vh_free)(p);
}
static void all_free(void) { CHECK(vh_live == 0, "all memory is released"); for (int i = 0; i < CELLS; i++) CHECK(!g_taken[i], "all strings are released"); }
static char g_obj[1]; static int g_want, g_sent; static bool g_lax;
int lws_get_socket_fd(struct lws *w) { return 0; }
int spec_send(struct lws *w, const char *id, const char *type, const char *data)
{
    if (g_lax) return 0;
    CHECK(id && data && data[0] == 'a' + g_want && data[1] == 0, "the next missed event"); g_want++; g_sent++; return 0;
}
static void one(size_t cap, int total, bool issue)
{
    sse_stream_context_t *c = sse_stream_context_create(cap); if (!c) return;
    g_lax = false; char ids[8][3];
    for (int i = 0; i < total; i++) {
        char d[2] = {(char)('a' + i), 0}; ids[i][0] = issue ? (char)('1' + i) : 'k'; ids[i][1] = issue ? 0 : (char)('0' + i); ids[i][2] = 0;
        sse_stream_context_store_event(c, issue ? NULL : ids[i], "t", d);
        int first = i + 1 > (int)cap ? i + 1 - (int)cap : 0;
        if (i == total - 1) for (int k = first; k <= i; k++) {
            g_want = k + 1; g_sent = 0;
            int r = sse_stream_context_replay_events(c, (struct lws *)(void *)g_obj, ids[k]);
            CHECK(g_want == i + 1 && g_sent == i - k && r == g_sent, "exactly the events stored after it");
        }
    }
    int first = total > (int)cap ? total - (int)cap : 0;
    g_want = first; g_sent = 0;
    CHECK(sse_stream_context_replay_events(c, (struct lws *)(void *)g_obj, NULL) == total - first && g_want == total, "all of them, oldest first");
    sse_stream_context_destroy(c);
    all_free();
}
void h_script(void)
{
    one(1, 3, true); one(2, 5, false); one(3, 4, true); one(3, 7, false); one(2, 1, true);
    REACH("script");
}
void h_fail(void)
{
    for (int f = 0; f < 17; f++) {
        vh_fail_point(f); g_lax = true;
        sse_stream_context_t *c = sse_stream_context_create(1);
        if (c) {
            sse_stream_context_store_event(c, "x", "t", "a"); sse_stream_context_store_event(c, NULL, NULL, "b");
            CHECK(sse_stream_context_replay_events(c, (struct lws *)(void *)g_obj, NULL) == 1, "the latest");
            sse_stream_context_destroy(c);
        }
        all_free();
    }
    vh_fail_point(-1);
    REACH("fail");
}
