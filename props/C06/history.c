// The limiter through its public interface, against a reference account per
// client.
//@file link=src/common/mcp_string_utils.c funcs=mcp_rate_limiter_create,mcp_rate_limiter_check,mcp_rate_limiter_destroy,find_or_create_entry,hash_client_id
//@obl h_hist1 kind=bounded unwind=18 bound="script aabab, colliding client names, arbitrary window, maximum and clock"
//@obl h_hist2 kind=bounded unwind=18 bound="script abbcaac, three clients, arbitrary window, maximum and clock"
//@obl h_name kind=bounded unwind=18 bound="one client name of up to 2 arbitrary bytes against two known clients"
//@obl h_fail kind=bounded unwind=18 bound="one client, each allocation in turn fails"
//@obl h_resize kind=bounded unwind=34 bound="14 known clients across one growth of the table"
#include "vh_sync.h"
#include "src/server/mcp_rate_limiter.c"

static void set_now(void)
{
    vh_clock_mode = 1; vh_now = (time_t)in_i64("now");
    ASSUME(vh_now >= 0 && vh_now <= ((time_t)1 << 33));
}

static void hist(const char *script, int n, const char *const *id)
{
    size_t win = in_size("window"), max = in_size("max");
    ASSUME(win >= 1 && win <= ((size_t)1 << 32) && max >= 1);
    mcp_rate_limiter_t *l = mcp_rate_limiter_create(1, win, max);
    ASSUME(l != NULL);
    bool known[3] = {false, false, false}; time_t start[3] = {0, 0, 0}; size_t cnt[3] = {0, 0, 0};
    for (int s = 0; s < n; s++) {
        int c = script[s] - 'a';
        set_now();
        bool r = mcp_rate_limiter_check(l, id[c]);
        bool fresh = !known[c] || vh_now >= start[c] + (time_t)win;
        if (fresh) {
            CHECK(r, "first request of a window is admitted");
            start[c] = vh_now; cnt[c] = 1;
        } else {
            CHECK(r == (cnt[c] < max), "within a window admitted iff not full, counting only this client");
            if (r) cnt[c]++;
        }
        known[c] = true;
    }
    REACH("history done");
    mcp_rate_limiter_destroy(l);
    CHECK(vh_live == 0, "destroy releases everything");
}

void h_hist1(void) { static const char *const id[] = {"a", "q"}; hist("aabab", 5, id); }
void h_hist2(void) { static const char *const id[] = {"10.0.0.1", "10.0.0.11", "10.0.0"}; hist("abbcaac", 7, id); }

void h_name(void)
{
    mcp_rate_limiter_t *l = mcp_rate_limiter_create(1, 1000, 2);
    ASSUME(l != NULL);
    vh_clock_mode = 1; vh_now = 5;
    CHECK(mcp_rate_limiter_check(l, "a") && mcp_rate_limiter_check(l, "a") && mcp_rate_limiter_check(l, "q"), "known clients");
    char id[3]; IN_STR("id", id, 3);
    bool r = mcp_rate_limiter_check(l, id);
    CHECK(r == !vh_streq(id, "a"), "only the client that used up its allowance is refused");
    REACH("name checked");
}

static void fail_at(int k)
{
    const size_t win = 10, max = 2;
    vh_fail_point(k);
    mcp_rate_limiter_t *l = mcp_rate_limiter_create(3, win, max);
    if (!l) { CHECK(vh_live == 0, "failed creation leaks nothing"); if (k == 0) REACH("creation failed"); return; }
    set_now();
    bool r = mcp_rate_limiter_check(l, "x");
    CHECK(r == (vh_alloc_failed == 0), "refused exactly when no record could be made");
    if (!r) { CHECK(mcp_rate_limiter_check(l, "x"), "a client refused for lack of memory starts afresh"); if (k == 3) REACH("refused for lack of memory"); }
    mcp_rate_limiter_destroy(l);
    CHECK(vh_live == 0, "destroy releases everything");
}
void h_fail(void)
{
    for (int k = 0; k < 8; k++) fail_at(k);
    vh_fail_point(-1);
    size_t win = in_size("window"), max = in_size("max");
    mcp_rate_limiter_t *l = mcp_rate_limiter_create(1, win, max);
    CHECK((l != NULL) == (win > 0 && max > 0), "a limiter without a window or allowance is refused");
    if (l) {
        CHECK(!mcp_rate_limiter_check(l, NULL) && !mcp_rate_limiter_check(NULL, "x"), "invalid arguments are refused");
        REACH("checked");
    }
}

void h_resize(void)
{
    size_t win = in_size("window"), max = in_size("max");
    ASSUME(win >= 1 && win <= ((size_t)1 << 32) && max >= 1);
    mcp_rate_limiter_t *l = mcp_rate_limiter_create(0, win, max);
    ASSUME(l != NULL);
    vh_clock_mode = 1; vh_now = 100;
    char id[2] = "a";
    for (int i = 0; i < 14; i++) { id[0] = (char)('a' + i); CHECK(mcp_rate_limiter_check(l, id), "first request admitted"); }
    for (int i = 0; i < 14; i++) {
        id[0] = (char)('a' + i);
        CHECK(mcp_rate_limiter_check(l, id) == (max >= 2), "the account of every client survives growth");
    }
    REACH("after growth");
    mcp_rate_limiter_destroy(l);
    CHECK(vh_live == 0, "destroy releases everything");
}
