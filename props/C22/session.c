// Sessions: life time, identity, accounting.
//@file subst=small.json funcs=is_session_expired,generate_session_id,mcp_session_manager_create,mcp_session_manager_create_session,mcp_session_manager_get_session,mcp_session_manager_terminate_session,mcp_session_manager_cleanup_expired,mcp_session_touch,mcp_session_get_state,mcp_session_get_id,mcp_session_manager_get_active_count
//@file trusted="/dev/urandom returns the bytes the harness chooses" assume="time() does not run backwards in the history harness"
//@obl h_expired kind=proof unwind=4 standin=h_life note="every session state, timeout and time"
//@obl h_genid kind=proof unwind=40 standin=h_life note="every pair of random draws" cost=2
//@obl h_create_slot kind=bounded unwind=140 bound="table of 3 slots, every occupancy" cost=2
//@obl h_life kind=bounded unwind=140 bound="table of 3 slots, one session, every timeout and every sequence of 4 times" cost=3
//@obl h_history kind=bounded unwind=140 bound="table of 3 slots, script of 14 operations, every timeout and time" cost=4
//@obl h_norandom kind=bounded unwind=140 bound="table of 3 slots"
#include "vh_sync.h"
#include <fcntl.h>
static unsigned char g_rnd[16]; static int g_short, g_open, g_nofile;
static int vh_open(const char *p, int f) { (void)f; CHECK(vh_streq(p, "/dev/urandom"), "random device"); if (g_nofile) return -1; g_open++; return 7; }
static ssize_t vh_read(int fd, void *b, size_t n)
{ CHECK(fd == 7 && n == 16, "16 random bytes are drawn"); if (g_short) return 15; for (int i = 0; i < 16; i++) ((unsigned char *)b)[i] = g_rnd[i]; return 16; }
static int vh_close(int fd) { (void)fd; g_open--; return 0; }
#define open vh_open
#define read vh_read
#define close vh_close
#include "src/transport/mcp_http_session_manager.c"
#undef open
#undef read
#undef close

static bool spec_live(time_t now, time_t last, uint32_t tmo) { return tmo == 0 || !(now - last > (int64_t)tmo); }

void h_expired(void)
{
    mcp_http_session_t s;
    memset(&s, 0, sizeof s);
    s.in_use = in_bool("in_use");
    uint8_t st = in_u8("state"); ASSUME(st <= 2);
    s.state = st == 0 ? MCP_SESSION_STATE_ACTIVE : st == 1 ? MCP_SESSION_STATE_TERMINATED : MCP_SESSION_STATE_EXPIRED;
    s.timeout_seconds = in_u32("timeout"); s.last_access_time = in_i64("last");
    vh_clock_mode = 1; vh_now = in_i64("now");
    ASSUME(vh_now >= 0 && s.last_access_time >= 0);
    bool want = s.in_use && s.state == MCP_SESSION_STATE_ACTIVE && spec_live(vh_now, s.last_access_time, s.timeout_seconds);
    CHECK(is_session_expired(&s) == !want, "live exactly while in use, active and within its timeout");
    mcp_session_state_t g = mcp_session_get_state(&s);
    CHECK((g == MCP_SESSION_STATE_ACTIVE) == want, "reported active exactly while live");
    time_t b = s.last_access_time;
    mcp_session_touch(&s);
    CHECK(s.last_access_time == (s.in_use ? vh_now : b), "touch renews a session in use");
    CHECK((mcp_session_get_id(&s) != NULL) == s.in_use, "only a session in use has an id");
    if (want) REACH("live"); else REACH("dead");
}

static int hexval(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
void h_genid(void)
{
    char id[2][MCP_SESSION_ID_MAX_LENGTH]; unsigned char r[2][16];
    char a[MCP_SESSION_ID_MAX_LENGTH];
    for (int i = 0; i < 16; i++) r[0][i] = g_rnd[i] = in_u8("rnd");
    a[33] = 'Z';
    CHECK(generate_session_id(a), "an id is made when random bytes are available");
    CHECK(a[32] == 0 && a[33] == 'Z', "32 characters and a terminator");
    /* every character is a hex digit and the 16 bytes can be read back: different draws give different ids */
    int w = in_i32("w"); ASSUME(w >= 0 && w < 16);
    int hi = hexval(a[2 * w]), lo = hexval(a[2 * w + 1]);
    CHECK(hi >= 0 && lo >= 0 && hi * 16 + lo == r[0][w], "the id spells all 128 random bits");
    CHECK(g_open == 0, "the random device is closed");
    g_short = in_bool("short"); g_nofile = !g_short;
    CHECK(!generate_session_id(a), "no id without 16 random bytes");
    CHECK(g_open == 0, "the random device is closed");
    REACH("ids");
    (void)id;
}

static void draw(int k) { for (int i = 0; i < 16; i++) g_rnd[i] = (unsigned char)(k * 16 + i); }
static int g_ev[3];
static void ev(const char *id, mcp_session_state_t s, void *u) { (void)id; (void)u; g_ev[s == MCP_SESSION_STATE_ACTIVE ? 0 : s == MCP_SESSION_STATE_TERMINATED ? 1 : 2]++; }

void h_create_slot(void)
{
    vh_clock_mode = 1; vh_now = in_i64("now"); ASSUME(vh_now >= 0);
    uint32_t dflt = in_u32("default");
    for (int occ = 0; occ < 8; occ++) {
        mcp_http_session_manager_t *m = mcp_session_manager_create(dflt);
        ASSUME(m != NULL);
        size_t n = 0;
        char keep[3] = { 'p', 'q', 'r' };
        for (int i = 0; i < 3; i++)
            if (occ >> i & 1) { m->sessions[i].in_use = true; m->sessions[i].state = MCP_SESSION_STATE_ACTIVE; m->sessions[i].session_id[0] = keep[i]; m->sessions[i].session_id[1] = 0; m->active_count++; n++; }
        char id[MCP_SESSION_ID_MAX_LENGTH];
        int32_t tmo = in_i32("tmo");
        draw(3);
        mcp_http_session_t *s = mcp_session_manager_create_session(m, id, tmo);
        CHECK((s != NULL) == (n < 3), "refused exactly when every slot is taken");
        CHECK(mcp_session_manager_get_active_count(m) == n + (s != NULL), "the count is the number of live sessions");
        for (int i = 0; i < 3; i++) if (occ >> i & 1) CHECK(s != &m->sessions[i] && m->sessions[i].in_use && m->sessions[i].session_id[0] == keep[i], "no other session is displaced");
        if (s) {
            CHECK(vh_streq(id, s->session_id) && mcp_session_id_is_valid(id) && strlen(id) == 32, "the caller gets the session's id");
            CHECK(s->timeout_seconds == (tmo == 0 ? dflt : tmo < 0 ? 0u : (uint32_t)tmo) && s->last_access_time == vh_now && s->state == MCP_SESSION_STATE_ACTIVE, "it starts active, with the requested life time");
            CHECK(mcp_session_manager_get_session(m, id) == s, "and can be looked up at once");
        }
        mcp_session_manager_destroy(m);
        CHECK(vh_live == 0, "everything released");
    }
    REACH("all occupancies");
}

/* one session, one arbitrary history of look-ups and touches */
void h_life(void)
{
    vh_clock_mode = 1; vh_now = in_i64("t0"); ASSUME(vh_now >= 0 && vh_now < (1LL << 40));
    mcp_http_session_manager_t *m = mcp_session_manager_create(in_u32("default"));
    ASSUME(m != NULL);
    mcp_session_manager_set_event_callback(m, ev, NULL);
    char id[MCP_SESSION_ID_MAX_LENGTH];
    draw(1);
    mcp_http_session_t *s = mcp_session_manager_create_session(m, id, in_i32("tmo"));
    CHECK(s != NULL, "created");
    uint32_t tmo = s->timeout_seconds;
    time_t last = vh_now; bool dead = false;
    for (int i = 0; i < 4; i++) {
        uint32_t dt = in_u32("dt"); vh_now += dt;
        bool live = !dead && spec_live(vh_now, last, tmo);
        mcp_http_session_t *g = mcp_session_manager_get_session(m, id);
        CHECK((g != NULL) == live, "accepted exactly while live");
        CHECK(!g || g == s, "the right session");
        if (!live) dead = true;
        if (i == 1 && g) { mcp_session_touch(g); last = vh_now; }
        if (i == 2 && in_bool("late_touch")) { mcp_session_touch(s); if (!dead) last = vh_now; }
        CHECK(mcp_session_manager_get_session(m, "00112233445566778899aabbccddeeff") == NULL, "an unknown id is not accepted");
    }
    if (dead) { REACH("died"); CHECK(!mcp_session_manager_terminate_session(m, id) , "a dead session cannot be terminated again"); }
    else { REACH("survived"); CHECK(mcp_session_manager_terminate_session(m, id) && mcp_session_manager_get_active_count(m) == 0, "terminated"); }
    CHECK(mcp_session_manager_get_session(m, id) == NULL, "never accepted again");
    mcp_session_manager_cleanup_expired(m);
    CHECK(mcp_session_manager_get_active_count(m) == 0, "and no longer counted");
    CHECK(vh_locks_held == 0, "no lock is left held");
}

void h_history(void)
{
    vh_clock_mode = 1; vh_now = in_i64("t0"); ASSUME(vh_now >= 0 && vh_now < (1LL << 40));
    mcp_http_session_manager_t *m = mcp_session_manager_create(60);
    ASSUME(m != NULL);
    char id[4][MCP_SESSION_ID_MAX_LENGTH]; time_t last[4]; uint32_t tmo[4];
    char ia[MCP_SESSION_ID_MAX_LENGTH], ib[MCP_SESSION_ID_MAX_LENGTH], ic[MCP_SESSION_ID_MAX_LENGTH], id4[MCP_SESSION_ID_MAX_LENGTH];
    (void)id;
    char *idp[4] = { ia, ib, ic, id4 };
    for (int i = 0; i < 3; i++) {
        draw(i);
        mcp_http_session_t *s = mcp_session_manager_create_session(m, idp[i], in_i32("tmo"));
        CHECK(s != NULL, "created"); last[i] = vh_now; tmo[i] = s->timeout_seconds;
    }
    draw(9);
    CHECK(mcp_session_manager_create_session(m, id4, 5) == NULL && mcp_session_manager_get_active_count(m) == 3, "full table refuses");
    CHECK(mcp_session_manager_terminate_session(m, ib), "terminate");
    CHECK(!mcp_session_manager_terminate_session(m, ib), "only once");
    CHECK(mcp_session_manager_get_active_count(m) == 2, "counted");
    vh_now += in_u32("dt");
    bool l0 = spec_live(vh_now, last[0], tmo[0]), l2 = spec_live(vh_now, last[2], tmo[2]);
    CHECK(mcp_session_manager_cleanup_expired(m) == (size_t)(!l0 + !l2), "cleanup removes exactly the expired");
    CHECK(mcp_session_manager_get_active_count(m) == (size_t)(l0 + l2), "the count is the number of live sessions");
    CHECK((mcp_session_manager_get_session(m, ia) != NULL) == l0 && (mcp_session_manager_get_session(m, ic) != NULL) == l2, "live ones survive cleanup");
    CHECK(mcp_session_manager_get_session(m, ib) == NULL, "a terminated session is not accepted");
    mcp_http_session_t *n = mcp_session_manager_create_session(m, id4, 0);
    CHECK(n != NULL && mcp_session_manager_get_session(m, id4) == n, "a freed slot is usable again");
    CHECK((mcp_session_manager_get_session(m, ia) != NULL) == l0 && (mcp_session_manager_get_session(m, ic) != NULL) == l2 && mcp_session_manager_get_session(m, ib) == NULL, "ids of other sessions are unaffected");
    CHECK(mcp_session_manager_get_active_count(m) == (size_t)(l0 + l2 + 1), "the count is the number of live sessions");
    if (!l0 && l2) REACH("mixed");
    mcp_session_manager_destroy(m);
    CHECK(vh_live == 0, "everything released");
}
void h_norandom(void)
{
    mcp_http_session_manager_t *m = mcp_session_manager_create(60);
    ASSUME(m != NULL);
    char id[MCP_SESSION_ID_MAX_LENGTH];
    g_short = 1;
    CHECK(mcp_session_manager_create_session(m, id, 5) == NULL && mcp_session_manager_get_active_count(m) == 0, "no randomness, no session");
    g_short = 0; draw(2);
    CHECK(mcp_session_manager_create_session(m, id, 5) != NULL && mcp_session_manager_get_active_count(m) == 1, "later success");
    REACH("done");
}
