// Length-prefix framing against the contracts of the socket primitives.
//@file funcs=mcp_framing_send_message,mcp_framing_recv_message,mcp_framing_send_batch,mcp_framing_recv_batch
//@file assume="the memory pool by contract (like malloc)"
//@obl h_send kind=proof unwind=6 abstract=1 standin=h_send_small note="every message length"
//@obl h_send_small kind=bounded unwind=6 note="messages of up to 6 bytes"
//@obl h_recv kind=proof unwind=6 standin=h_recv_small note="every announced length and limit"
//@obl h_recv_small kind=bounded unwind=20 note="limits up to 12 bytes"
//@obl h_send_batch kind=bounded unwind=12 note="batches of three messages of up to 3 bytes"
//@obl h_recv_batch kind=bounded unwind=8 note="up to three frames"
#include "vh_sync.h"
#include "mcp_socket_utils.h"
#include "mcp_framing.h"
#ifdef REPLAY
#include <sys/mman.h>
#endif
bool mcp_memory_pool_system_is_initialized(void) { return true; }
void *mcp_pool_alloc(size_t n) { return vh_malloc(n); }
void mcp_pool_free(void *p) { vh_free(p); }
int mcp_socket_get_lasterror(void) { return in_i32("err"); }

/* what went out: total length and the byte at one arbitrary position */
static uint64_t g_wire, g_k; static bool g_seen, g_from_msg; static uint8_t g_got;
static const char *g_msg; static uint32_t g_len; static bool g_by_address;
static void out(const void *p, size_t n)
{
    if (g_k >= g_wire && g_k - g_wire < n) {
        const char *at = (const char *)p + (g_k - g_wire);
        g_seen = true;
        if (g_by_address && p == (const void *)g_msg) g_from_msg = at == g_msg + (g_k - 4);
        else g_got = *(const uint8_t *)at;
    }
    g_wire += n;
}
static bool g_stop;
int mcp_socket_send_vectors(socket_t s, mcp_iovec_t *iov, int n, volatile bool *stop)
{
    CHECK(s == 7 && stop == &g_stop && n >= 0, "on the given socket, under the given stop flag");
    if (!in_bool("sent")) { g_wire = ((uint64_t)1 << 40); return -1; }
    for (int i = 0; i < n; i++) out(iov[i].iov_base, iov[i].iov_len);
    return 0;
}
int mcp_socket_send_exact(socket_t s, const char *b, size_t n, volatile bool *stop)
{
    CHECK(s == 7 && stop == &g_stop, "on the given socket, under the given stop flag");
    if (!in_bool("sent")) { g_wire = ((uint64_t)1 << 40); return -1; }
    out(b, n);
    return 0;
}
/* what comes in: four bytes of length, then a body of which one arbitrary byte is looked at */
static uint8_t g_hdr[4], g_body; static uint64_t g_pos; static uint32_t g_w;
static int g_frame, g_failed;
int mcp_socket_recv_exact(socket_t s, char *b, size_t n, volatile bool *stop)
{
    CHECK(s == 7 && stop == &g_stop, "on the given socket, under the given stop flag");
#ifndef REPLAY
    CHECK(__CPROVER_w_ok(b, n), "the bytes are received into memory that is there");
#else
    memset(b, 'x', n);
#endif
    if (!in_bool("received")) { g_failed = 1; return -1; }
    for (int i = 0; i < 4; i++) if ((uint64_t)i >= g_pos && (uint64_t)i - g_pos < n) b[(uint64_t)i - g_pos] = (char)g_hdr[i];
    uint64_t at = 4 + (uint64_t)g_w;
    if (at >= g_pos && at - g_pos < n) b[at - g_pos] = (char)g_body;
    g_pos += n;
    return 0;
}
int mcp_socket_wait_readable(socket_t s, int t, volatile bool *stop) { (void)s; (void)t; (void)stop; int r = in_i32("ready"); ASSUME(r >= -2 && r <= 1); return r; }
#include "src/common/mcp_framing.c"

static uint8_t be(uint32_t v, uint64_t i) { return (uint8_t)(v >> (24 - 8 * i)); }
static void sent(int r)
{
    if (r == 0) {
        CHECK(g_wire == 4 + (uint64_t)g_len, "the frame is the length prefix and the message, nothing else");
        if (g_k < 4) CHECK(g_seen && g_got == be(g_len, g_k), "the prefix is the length in network byte order");
        else CHECK(g_seen && (g_by_address ? g_from_msg : g_got == (uint8_t)g_msg[g_k - 4]), "the message bytes are sent unchanged");
    } else CHECK(r == -1, "failure is reported as -1");
}
void h_send(void)
{
    g_len = in_u32("len"); g_k = in_u64("k");
    ASSUME(g_k < 4 + (uint64_t)g_len);
#ifdef REPLAY
    g_msg = mmap(NULL, (size_t)g_len + 1, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
#else
    static char m[8]; g_msg = m;
#endif
    g_by_address = true;
    int r = mcp_framing_send_message(7, g_len ? g_msg : NULL, g_len, &g_stop);
    sent(r);
    REACH("sent");
}
void h_send_small(void)
{
    static char m[6];
    for (int i = 0; i < 6; i++) m[i] = (char)in_u8("byte");
    g_msg = m; g_len = in_u32("len"); ASSUME(g_len <= 6);
    g_k = in_u64("k"); ASSUME(g_k < 4 + (uint64_t)g_len);
    int r = mcp_framing_send_message(7, m, g_len, &g_stop);
    sent(r);
    CHECK(mcp_framing_send_message(7, NULL, 1, &g_stop) == -1, "a missing message is refused");
    REACH("sent");
}
static void receive(uint32_t max)
{
    char *m = (char *)&g_hdr; uint32_t n = 99;
    for (int i = 0; i < 4; i++) g_hdr[i] = in_u8("hdr");
    uint32_t len = (uint32_t)g_hdr[0] << 24 | (uint32_t)g_hdr[1] << 16 | (uint32_t)g_hdr[2] << 8 | g_hdr[3];
    g_body = in_u8("body"); g_w = in_u32("w");
    vh_alloc_may_fail = 1;
    vh_live = 0; vh_alloc_failed = 0;
    int r = mcp_framing_recv_message(7, &m, &n, max, &g_stop);
    if (r == 0) {
        CHECK(!g_failed, "a short read or error is never reported as success");
        CHECK(n == len && g_pos == 4 + (uint64_t)len, "exactly the announced bytes are taken");
        if (len == 0) CHECK(m == NULL && vh_live == 0, "an empty frame hands up nothing");
        else {
            CHECK(len <= max, "a frame beyond the limit is refused");
            CHECK(m != NULL && vh_live == 1 && m[len] == 0, "the message is terminated");
            if (g_w < len) CHECK((uint8_t)m[g_w] == g_body, "the message is the bytes received");
        }
    } else {
        CHECK(r == -1 && m == NULL && n == 0 && vh_live == 0, "a refused frame hands up nothing and keeps no memory");
        CHECK(g_failed || vh_alloc_failed || len > max, "refused only for a reason");
    }
    REACH("received");
}
void h_recv(void) { receive(in_u32("max")); }
void h_recv_small(void) { uint32_t max = in_u32("max"); ASSUME(max <= 12); receive(max); }
void h_send_batch(void)
{
    static char a[3], b[3], c[3];
    const char *ms[3] = { a, b, c }; uint32_t n[3]; uint64_t total = 0; uint8_t want = 0; g_k = in_u64("k");
    for (int i = 0; i < 3; i++) { a[i] = (char)in_u8("a"); b[i] = (char)in_u8("b"); c[i] = (char)in_u8("c"); }
    for (int i = 0; i < 3; i++) {
        n[i] = in_u32("n"); ASSUME(n[i] <= 3);
        if (g_k >= total && g_k < total + 4) want = be(n[i], g_k - total);
        else if (g_k >= total + 4 && g_k < total + 4 + n[i]) want = (uint8_t)ms[i][g_k - total - 4];
        total += 4 + n[i];
    }
    ASSUME(g_k < total);
    vh_alloc_may_fail = 1; vh_live = 0;
    int r = mcp_framing_send_batch(7, ms, n, 3, &g_stop);
    CHECK(vh_live == 0, "nothing is kept");
    if (r == 0) CHECK(g_wire == total && g_seen && g_got == want, "the frames go out whole, in order, unchanged");
    else CHECK(r == -1, "failure is reported as -1");
    CHECK(mcp_framing_send_batch(7, ms, n, 0, &g_stop) == 0, "an empty batch is nothing to send");
    REACH("sent");
}
/* the receiver of a single message, by contract, for the batch receiver */
void h_recv_batch(void)
{
    char *m[3]; uint32_t n[3]; size_t count = 77;
    for (int i = 0; i < 4; i++) g_hdr[i] = 0;
    g_hdr[3] = in_u8("len"); ASSUME(g_hdr[3] <= 2);
    vh_alloc_may_fail = 1; vh_live = 0;
    g_stop = in_bool("stop");
    int r = mcp_framing_recv_batch(7, m, n, 3, &count, 10, &g_stop);
    CHECK(count <= 3, "at most as many as asked for");
    if (r != 0) CHECK(r == -1 && count == 0, "a failure hands up nothing");
    long live = 0;
    for (int i = 0; i < 3; i++) if ((size_t)i < count && m[i]) live++;
    CHECK(vh_live == live, "what was allocated is what is handed up");
    REACH("received");
}
