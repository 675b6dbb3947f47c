// Reading and writing exactly n bytes, for every split by the system.
//@file funcs=mcp_socket_recv_exact,mcp_socket_send_exact,mcp_socket_send_vectors loops=exact.json
//@file assume="send, recv and writev by their POSIX contracts; the memory pool by contract (like malloc)"
//@obl h_recv kind=proof unwind=6 loops=1 standin=h_recv_small note="every length and every split"
//@obl h_send kind=proof unwind=6 loops=1 standin=h_send_small note="every length and every split"
//@obl h_recv_small kind=bounded unwind=8 note="up to 5 bytes, up to 6 calls"
//@obl h_send_small kind=bounded unwind=8 note="up to 5 bytes, up to 6 calls"
//@obl h_recv_long kind=bounded unwind=4 extra=1 note="every length, up to 2 calls"
//@obl h_send_long kind=bounded extra=1 unwind=5 note="every length, up to 3 calls"
//@obl h_vec2 kind=bounded unwind=6 note="two buffers of up to 6 bytes, up to 4 calls"
//@obl h_vec3 kind=bounded unwind=6 cost=150 timeout=400 note="three buffers of up to 6 bytes, up to 4 calls"
//@obl h_vec_long kind=bounded extra=1 unwind=4 cost=100 timeout=400 note="two buffers of any length, up to 2 calls"
//@obl h_vec1 kind=bounded unwind=6 note="one buffer of up to 6 bytes, up to 4 calls"
#include "vh_sync.h"
#include "mcp_socket_utils.h"
#include <errno.h>
#include <sys/uio.h>
#include <sys/socket.h>
#ifndef REPLAY
int vh_errno;
#undef errno
#define errno vh_errno
#endif
bool mcp_memory_pool_system_is_initialized(void) { return true; }
void *mcp_pool_alloc(size_t n) { return vh_malloc(n); }
void mcp_pool_free(void *p) { vh_free(p); }

/* the stream: g_pos bytes of it are through; byte number g_w has value g_byte */
size_t g_pos, g_len, g_w; uint8_t g_byte; char *g_buf; bool g_stop, g_stopped, g_error, g_seen; int g_calls, g_most;
static ssize_t outcome(size_t n)
{
    if (in_bool("stop")) g_stop = true;
    if (g_most && ++g_calls >= g_most) { ASSUME(n <= (size_t)1 << 40); return (ssize_t)n; }
    int64_t r = in_i64("n");
    ASSUME(r >= -1 && r <= (int64_t)n && n <= (size_t)1 << 60);
    if (r == -1) { errno = in_i32("errno"); if (errno != EINTR && errno != EAGAIN && errno != EWOULDBLOCK) g_error = true; }
    if (r == 0) g_error = true;
    return (ssize_t)r;
}
static void before(void)
{
    CHECK(!g_error, "nothing more is tried after an error or the end of the stream");
    CHECK(!g_stopped, "nothing more is tried once stopped");
    if (g_stop) g_stopped = true;
    CHECK(!g_stop, "the stop flag is looked at before every call");
}
ssize_t vh_recv(int s, void *b, size_t n, int f)
{
    (void)f;
    CHECK(s == 7, "the given socket");
    before();
    CHECK(g_pos < g_len, "no byte behind the last one is taken from the stream");
    ASSUME(g_pos < g_len);
    CHECK((char *)b >= g_buf && n <= g_len && (char *)b <= g_buf + (g_len - n), "no byte outside the buffer is asked for");
    ssize_t r = outcome(n);
    if (r > 0) {
        char *at = g_buf + g_w;
        if (at >= (char *)b && at < (char *)b + r) *at = (char)~g_byte; /* overwritten by whatever arrives */
        if (g_w >= g_pos && g_w - g_pos < (size_t)r) ((char *)b)[g_w - g_pos] = (char)g_byte;
        g_pos += (size_t)r;
    }
    return r;
}
ssize_t vh_send(int s, const void *b, size_t n, int f)
{
    (void)f;
    CHECK(s == 7, "the given socket");
    before();
    CHECK((const char *)b == g_buf + g_pos && n <= g_len - g_pos, "the bytes sent are the next ones of the message");
    ssize_t r = outcome(n);
    if (r > 0) g_pos += (size_t)r;
    return r;
}
/* vectors: expected addresses and lengths */
static struct iovec g_iov[3]; static int g_n;
ssize_t vh_writev(int s, const struct iovec *v, int n)
{
    CHECK(s == 7 && n >= 1 && n <= g_n, "the given socket");
    before();
    size_t all = 0, skip = g_pos;
    /* the remaining bytes must be exactly those offered, in order */
    size_t offered = 0;
    for (int i = 0; i < n; i++) offered += v[i].iov_len;
    for (int i = 0; i < g_n; i++) all += g_iov[i].iov_len;
    CHECK(offered == all - g_pos, "the bytes offered are those not sent yet");
    /* stream byte g_w, if among them, must be offered at its own address */
    size_t off = 0; const char *want = NULL;
    for (int i = 0; i < g_n; i++) { if (g_w >= off && g_w - off < g_iov[i].iov_len) want = (const char *)g_iov[i].iov_base + (g_w - off); off += g_iov[i].iov_len; }
    if (g_w >= skip) {
        off = skip; const char *at = NULL;
        for (int i = 0; i < n; i++) { if (g_w >= off && g_w - off < v[i].iov_len) at = (const char *)v[i].iov_base + (g_w - off); off += v[i].iov_len; }
        CHECK(at == want, "every byte is offered from its place in the message");
    }
    ssize_t r = outcome(offered);
    if (r > 0) g_pos += (size_t)r;
    return r;
}
#define recv vh_recv
#define send vh_send
#define writev vh_writev
#include "src/common/mcp_socket_utils.c"

static void run_recv(void)
{
    g_w = in_size("w"); ASSUME(g_w < g_len);
    g_byte = in_u8("stream"); g_buf[g_w] = (char)~g_byte;
    g_stop = in_bool("stop0"); g_pos = 0; g_stopped = g_error = false; g_calls = 0;
    bool stop0 = g_stop;
    int r = mcp_socket_recv_exact(7, g_buf, g_len, &g_stop);
    if (r == 0) CHECK(g_pos == g_len && (uint8_t)g_buf[g_w] == g_byte && !g_error, "success hands up exactly the bytes of the stream");
    else CHECK(r == -1 && (g_error || g_stop), "given up only on an error, the end of the stream or a stop");
    CHECK(!stop0 || (r == -1 && g_pos == 0), "a stop request is obeyed");
    REACH("received");
}
void h_recv(void)
{
    vh_reset();
    g_len = in_size("len"); ASSUME(g_len >= 1 && g_len <= (size_t)1 << 33);
    g_buf = malloc(g_len); ASSUME(g_buf != NULL);
    g_most = 0;
    run_recv();
}
void h_recv_small(void)
{
    static char b[5]; g_buf = b; g_len = in_size("len"); ASSUME(g_len >= 1 && g_len <= 5);
    g_most = 6;
    run_recv();
}
static void run_send(void)
{
    g_stop = in_bool("stop0"); g_pos = 0; g_stopped = g_error = false; g_calls = 0;
    bool stop0 = g_stop;
    int r = mcp_socket_send_exact(7, g_buf, g_len, &g_stop);
    if (r == 0) CHECK(g_pos == g_len && !g_error, "success means everything was sent");
    else CHECK(r == -1 && (g_error || g_stop), "given up only on an error or a stop");
    CHECK(!stop0 || (r == -1 && g_pos == 0), "a stop request is obeyed");
    REACH("sent");
}
void h_send(void)
{
    vh_reset();
    g_len = in_size("len"); ASSUME(g_len >= 1 && g_len <= (size_t)1 << 33);
    g_buf = malloc(g_len); ASSUME(g_buf != NULL);
    g_most = 0;
    run_send();
}
void h_send_small(void)
{
    static char b[5]; g_buf = b; g_len = in_size("len"); ASSUME(g_len >= 1 && g_len <= 5);
    g_most = 6;
    run_send();
}
static void run_vec(int n, size_t longest, int calls)
{
    static char a[6], b[6], c[6]; char *base[3] = { a, b, c };
    struct iovec v[3]; size_t all = 0;
    for (int i = 0; i < n; i++) {
        v[i].iov_base = base[i]; v[i].iov_len = longest <= 255 ? in_u8("len") : in_size("len");
        ASSUME(v[i].iov_len <= longest);
        g_iov[i] = v[i]; all += v[i].iov_len;
    }
    g_n = n; g_most = calls; g_w = longest <= 255 ? in_u8("w") : in_size("w"); ASSUME(g_w < all);
    g_stop = in_bool("stop0");
    bool stop0 = g_stop;
    vh_alloc_may_fail = 1; vh_live = 0;
    int r = mcp_socket_send_vectors(7, v, n, &g_stop);
    if (r == 0) CHECK(g_pos == all && !g_error, "success means everything was sent");
    else CHECK(r == -1 && (g_error || g_stop || vh_alloc_failed), "given up only on an error or a stop");
    CHECK(!stop0 || (r == -1 && g_pos == 0), "a stop request is obeyed");
    CHECK(vh_live == 0, "nothing is kept");
    REACH("sent");
}
void h_vec1(void) { run_vec(1, 6, 4); }
void h_vec2(void) { run_vec(2, 6, 4); }
void h_vec3(void) { run_vec(3, 6, 4); }
void h_vec_long(void) { run_vec(2, (size_t)1 << 33, 2); }
void h_recv_long(void)
{
    g_len = in_size("len"); ASSUME(g_len >= 1 && g_len <= (size_t)1 << 33);
    g_buf = malloc(g_len); ASSUME(g_buf != NULL);
    g_most = 2;
    run_recv();
}
void h_send_long(void)
{
    g_len = in_size("len"); ASSUME(g_len >= 1 && g_len <= (size_t)1 << 33);
    g_buf = malloc(g_len); ASSUME(g_buf != NULL);
    g_most = 3;
    run_send();
}
