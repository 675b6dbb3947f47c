// One event as the client sees it: the bytes written, read by the rules of the
// event-stream format, give back the id, the type and the data.
//@file funcs=send_sse_event,send_sse_heartbeat_to_wsi
//@file trusted="libwebsockets write call (records what it is given)"
//@obl h_event kind=bounded unwind=16 note="ids and types of up to 2, data of up to 3 bytes with line ends anywhere, fixed texts; write failures; no memory"
//@obl h_long kind=bounded unwind=4104 note="data of 4100 bytes"
//@obl h_heartbeat_event kind=proof unwind=20
#include "vh_sync.h"
#include <stdlib.h>
static size_t g_asked; static int g_given; static bool g_deny; static char g_small[60], g_large[4200], *g_buf;
static void *spy(size_t n) { g_asked = n; if (g_deny) return NULL; CHECK(n <= 4200, "not larger than needed"); g_given++; g_buf = n <= sizeof g_small ? g_small : g_large; return g_buf; }
static void spy_free(void *p) { if (!p) return; CHECK(p == g_buf && g_given == 1, "released once"); g_given--; }
#undef malloc
#undef free
#define malloc(n) spy(n)
#define free(p) spy_free(p)
#include "internal/sthttp_transport_internal.h"
#undef LWS_PRE
#define LWS_PRE 4
static void *loop_memcpy(void *d, const void *s, size_t n) { if (n > 60) return (memcpy)(d, s, n); for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
#define memcpy loop_memcpy
#include "src/transport/mcp_sthttp_utils.c"
#define MAX 5100
static unsigned char g_out[60], g_first, g_last, g_last2; static size_t g_n; static int g_writes; static bool g_wfail, g_quick; static char g_obj[1];
int lws_write(struct lws *w, unsigned char *b, size_t n, enum lws_write_protocol t)
{
    CHECK((char *)w == g_obj && n <= MAX, "to this client");
    if (g_given) CHECK((char *)b >= g_buf && (size_t)((char *)b - g_buf) + n <= g_asked, "inside its buffer");
    g_writes++; g_n = n;
    if (g_quick) { g_first = b[0]; g_last2 = b[n - 2]; g_last = b[n - 1]; }
    else for (size_t i = 0; i < 60 && i < n; i++) g_out[i] = b[i];
    return g_wfail ? -1 : (int)n;
}
/* the reader: fields of one event */
static char r_id[8], r_type[8], r_data[16]; static size_t r_idn, r_typen, r_datan; static bool r_end, r_has_data;
static bool at(size_t p, const char *s) { size_t i = 0; for (; s[i]; i++) if (p + i >= g_n || g_out[p + i] != (unsigned char)s[i]) return false; return true; }
static void reader(void)
{
    size_t p = 0; r_idn = r_typen = r_datan = 0; r_end = r_has_data = false;
    for (int line = 0; line < 8 && p < g_n; line++) {
        CHECK(!r_end, "nothing behind the blank line");
        size_t e = p; while (e < g_n && g_out[e] != '\n') e++;
        CHECK(e < g_n, "every line is complete");
        if (e == p) r_end = true;
        else if (at(p, "id: ")) { for (size_t i = p + 4; i < e && r_idn < 8; i++) r_id[r_idn++] = (char)g_out[i]; }
        else if (at(p, "event: ")) { for (size_t i = p + 7; i < e && r_typen < 8; i++) r_type[r_typen++] = (char)g_out[i]; }
        else if (at(p, "data: ")) { if (r_has_data && r_datan < 16) r_data[r_datan++] = '\n'; r_has_data = true; for (size_t i = p + 6; i < e && r_datan < 16; i++) r_data[r_datan++] = (char)g_out[i]; }
        else CHECK(0, "only known fields");
        p = e + 1;
    }
    CHECK(r_end && p == g_n, "one event");
}
static void event(const char *id, const char *type, const char *data, bool wfail, bool nomem)
{
    g_writes = 0; g_wfail = wfail; g_quick = false; g_deny = nomem; g_given = 0; g_asked = 0;
    int r = send_sse_event((struct lws *)(void *)g_obj, id, type, data);
    CHECK(g_given == 0, "the buffer is released");
    if (g_writes == 0) { CHECK(r == -1 && nomem, "not sent only without memory"); return; }
    CHECK(g_writes == 1 && r == (wfail ? -1 : 0), "one write, its outcome reported");
    reader();
    size_t i = 0;
    if (id) for (; id[i]; i++) CHECK(i < r_idn && r_id[i] == id[i], "the id");
    CHECK(r_idn == i, "no other id"); i = 0;
    if (type) for (; type[i]; i++) CHECK(i < r_typen && r_type[i] == type[i], "the type");
    CHECK(r_typen == i, "no other type"); i = 0;
    if (data) for (; data[i]; i++) CHECK(i < r_datan && r_data[i] == data[i], "the data");
    CHECK(r_datan == i && r_has_data == (data != NULL), "no other data");
}
static int g_seq; static char any(void) { static const char t[] = "ab: \t\"\\{\x7f\xc3"; return t[g_seq++ % 10]; }
void h_event(void)
{
    g_seq = 0;
    /* where the line ends are: bit i of the shape */
    for (int n = 0; n <= 3; n++) for (int shape = 0; shape < 1 << n; shape++) {
        char id[3] = {any(), any(), 0}, type[3] = {any(), any(), 0}, data[4] = {0};
        for (int i = 0; i < n; i++) data[i] = shape >> i & 1 ? '\n' : any();
        event(id, type, data, n == 2, n == 3 && shape == 0);
    }
    for (int m = 0; m < 8; m++) {
        char id[2] = {any(), 0}, type[2] = {any(), 0}, data[2] = {any(), 0};
        event(m & 1 ? id : NULL, m & 2 ? type : NULL, m & 4 ? data : NULL, m == 3, m == 5);
    }
    REACH("event");
}
#define X10 "xxxxxxxxxx"
#define X100 X10 X10 X10 X10 X10 X10 X10 X10 X10 X10
#define X1000 X100 X100 X100 X100 X100 X100 X100 X100 X100 X100
void h_long(void)
{
    static const char data[] = X1000 X1000 X1000 X1000 X100;
    g_writes = 0; g_wfail = false; g_quick = true; g_deny = false;
    CHECK(send_sse_event((struct lws *)(void *)g_obj, NULL, "m", data) == 0 && g_writes == 1, "sent");
    CHECK(g_n == 9 + 6 + 4100 + 2 && g_first == 'e' && g_last2 == '\n' && g_last == '\n', "whole");
    REACH("long");
}
void h_heartbeat_event(void)
{
    g_writes = 0; g_wfail = in_bool("wfail"); g_quick = false;
    int r = send_sse_heartbeat_to_wsi((struct lws *)(void *)g_obj);
    CHECK(g_writes == 1 && r == (g_wfail ? -1 : 0) && g_n >= 3 && g_out[0] == ':' && g_out[g_n - 1] == '\n' && g_out[g_n - 2] == '\n', "a comment");
    REACH("heartbeat");
}
