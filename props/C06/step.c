// Inductive step of the fixed-window limiter: arbitrary entry, arbitrary clock.
//@file funcs=mcp_rate_limiter_check trusted="contract of find_or_create_entry (verified bounded in history.c)" assume="window length and clock below 2^40 seconds (no signed overflow of time_t)"
//@obl h_step kind=proof unwind=2 replace=find_or_create_entry:spec_find note="one check from an arbitrary window state"
#include "vh_sync.h"
#include "src/server/mcp_rate_limiter.c"

static rate_limit_entry_t g_entry;
static mcp_rate_limiter_t g_lim;
static bool g_created, g_none;

rate_limit_entry_t *spec_find(mcp_rate_limiter_t *l, const char *id, bool *created)
{
    CHECK(l == &g_lim && l->lock->held, "client table accessed under the limiter's lock");
    if (created) *created = g_created;
    if (g_created) { g_entry.window_start_time = 0; g_entry.request_count = 0; }
    return g_none ? NULL : &g_entry;
}

void h_step(void)
{
    struct mcp_mutex_s m = {0, 1};
    size_t max = in_size("max"), win = in_size("window");
    ASSUME(max >= 1 && win >= 1 && win <= ((size_t)1 << 40));
    g_lim.lock = &m; g_lim.window_seconds = win; g_lim.max_requests_per_window = max;
    g_created = in_bool("created"); g_none = in_bool("no_entry");
    time_t start = (time_t)in_i64("start"); size_t cnt = in_size("count");
    ASSUME(start >= 0 && start <= ((time_t)1 << 40));
    ASSUME(cnt >= 1 && cnt <= max);            /* invariant of a known client */
    g_entry.window_start_time = start; g_entry.request_count = cnt;
    vh_clock_mode = 1; vh_now = (time_t)in_i64("now");
    ASSUME(vh_now >= 0 && vh_now <= ((time_t)1 << 40));

    bool r = mcp_rate_limiter_check(&g_lim, "c");

    CHECK(!m.held, "limiter lock released");
    if (g_none) { CHECK(!r, "no entry: refused"); REACH("no entry"); return; }
    bool fresh = g_created || vh_now >= start + (time_t)win;
    if (fresh) {
        CHECK(r, "first request of a window is admitted");
        CHECK(g_entry.request_count == 1 && g_entry.window_start_time == vh_now, "new window starts now with one admission");
        REACH("fresh window");
    } else {
        CHECK(r == (cnt < max), "within a window admitted iff the window is not full");
        CHECK(g_entry.request_count == cnt + (r ? 1 : 0), "each admission is counted exactly once");
        CHECK(g_entry.window_start_time == start, "a window keeps its start");
        if (r) REACH("admitted in window"); else REACH("refused");
    }
    CHECK(g_entry.request_count <= max, "never more than the maximum per window");
}
