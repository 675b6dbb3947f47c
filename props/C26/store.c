// Storing one event in a store of every size and fill level.
//@file funcs=sse_stream_context_store_event,sse_event_clear
//@file assume="the index by its contract (decided in map.c)"
//@obl h_store kind=proof unwind=4 note="every capacity below 65536, start, fill level and event; failing copies"
#include "vh_sync.h"
#include <stdio.h>
#include <stdarg.h>
static int spy_snprintf(char *b, size_t n, const char *f, ...);
#undef snprintf
#define snprintf spy_snprintf
#include "src/transport/mcp_sthttp_utils.c"
static sse_stream_context_t g_c; static mcp_mutex_t g_m; static char g_dummy[1], g_id[2], g_type[2], g_data[2], g_gen[1]; static unsigned long long g_printed; static int g_prints;
static sse_event_t *g_ev; static size_t g_tail; static char *g_old, *g_put; static int g_puts, g_removes; static bool g_full;
static int spy_snprintf(char *b, size_t n, const char *f, ...)
{
    va_list ap; va_start(ap, f); g_printed = va_arg(ap, unsigned long long); va_end(ap); g_prints++;
    CHECK(n >= 21, "room for every number"); b[0] = 'G'; b[1] = 0; return 1;
}
char *mcp_strdup(const char *s) { char *p = (char *)malloc(2); if (p) { p[0] = s[0]; p[1] = 0; } return p; }
int event_hash_map_remove(event_hash_map_t *m, const char *id)
{ CHECK((char *)m == g_dummy && g_full && id == g_old && g_puts == 0 && g_m.held, "the dropped event leaves the index"); g_removes++; return 0; }
int event_hash_map_put(event_hash_map_t *m, const char *id, size_t p)
{ CHECK((char *)m == g_dummy && id == g_ev[p].id && p == g_tail && g_m.held, "the new event enters the index"); g_puts++; return in_bool("put") ? 0 : -1; }
void h_store(void)
{
    size_t max = in_u16("max"), n = in_u16("n"), head = in_u16("head"); ASSUME(max >= 1 && n <= max && head < max);
    g_m.held = 0; g_m.alive = 1; g_full = n == max; g_tail = head + n >= max ? head + n - max : head + n;
    size_t w = in_u16("w"); ASSUME(w < max && w != g_tail);
    g_ev = (sse_event_t *)malloc(max * sizeof *g_ev); ASSUME(g_ev);
    sse_event_t keep; keep.id = g_gen; keep.event = g_gen; keep.data = g_gen; keep.timestamp = 5; g_ev[w] = keep;
    g_ev[g_tail].id = g_ev[g_tail].event = g_ev[g_tail].data = NULL; g_old = NULL;
    long base = vh_live;
    if (g_full && in_bool("oid")) g_old = g_ev[g_tail].id = (char *)malloc(2);
    if (g_full && in_bool("oev")) g_ev[g_tail].event = (char *)malloc(2);
    if (g_full && in_bool("oda")) g_ev[g_tail].data = (char *)malloc(2);
    g_c.mutex = &g_m; g_c.stored_events = g_ev; g_c.max_stored_events = max; g_c.stored_event_count = n; g_c.event_head = head; g_c.event_tail = g_tail; g_c.event_hash = (event_hash_map_t *)(void *)g_dummy;
    g_c.last_event_id = in_bool("last") ? (char *)malloc(2) : NULL; g_c.next_event_id = in_u64("next"); ASSUME(g_c.next_event_id < UINT64_MAX);
    uint64_t next = g_c.next_event_id; g_puts = g_removes = g_prints = 0;
    g_id[0] = 'I'; g_type[0] = 'T'; g_data[0] = 'D';
    bool has_id = in_bool("id"), has_type = in_bool("type"), has_data = in_bool("data"), had_old = g_old != NULL;
    vh_alloc_may_fail = 1;
    sse_stream_context_store_event(&g_c, has_id ? g_id : NULL, has_type ? g_type : NULL, has_data ? g_data : NULL);
    sse_event_t *e = &g_ev[g_tail];
    CHECK(g_c.stored_event_count == (g_full ? max : n + 1), "the most recent events are kept, up to the capacity");
    CHECK(g_c.event_head == (g_full ? (head + 1 == max ? 0 : head + 1) : head), "the oldest one makes room");
    CHECK(g_c.event_tail == (g_tail + 1 == max ? 0 : g_tail + 1), "the next one goes behind it");
    CHECK(g_ev[w].id == g_gen && g_ev[w].event == g_gen && g_ev[w].data == g_gen && g_ev[w].timestamp == 5, "the others are untouched");
    if (!vh_alloc_failed) CHECK(e->id && (!has_type) == (!e->event) && (!has_data) == (!e->data), "stored as given");
    if (e->id) CHECK(e->id[0] == (has_id ? 'I' : 'G'), "its id");
    if (e->event) CHECK(has_type && e->event[0] == 'T', "its type");
    if (e->data) CHECK(has_data && e->data[0] == 'D', "its data");
    CHECK(g_removes == (had_old ? 1 : 0) && g_puts == (e->id ? 1 : 0), "the index follows");
    if (has_id) CHECK(g_c.next_event_id == next && !g_prints, "no id issued");
    else CHECK(g_prints == 1 && g_printed == next && g_c.next_event_id == next + 1, "ids are issued strictly increasing");
    CHECK(vh_live == base + (e->id != NULL) + (e->event != NULL) + (e->data != NULL) + (g_c.last_event_id != NULL), "the dropped event is released");
    CHECK(!g_m.held, "the lock is released");
    REACH("stored");
}
