// Messages written as text: the exact text for a set of ids and for methods and
// messages of two characters from every escape class.
//@file funcs=mcp_json_stringify_message,mcp_json_format_request_direct,dyn_buf_append,dyn_buf_append_json_string,dyn_buf_ensure_capacity,dyn_buf_finalize
//@file assume="memcpy by its definition (a loop over the bytes); the variants of a message are laid out side by side, not in a union"
//@obl h_request kind=bounded unwind=90 objbits=10 note="methods of two characters of every escape class, fixed ids"
//@obl h_error kind=bounded unwind=90 objbits=10 note="messages of two characters of every escape class, fixed ids and codes"
//@obl h_result kind=bounded unwind=90 objbits=10
//@obl h_direct kind=bounded unwind=90 objbits=10 note="ids with every number of digits"
//@obl h_oom kind=bounded unwind=90 objbits=10
//@obl h_append kind=bounded unwind=12 note="every string of up to three characters"
#include "vh.h"
#ifndef REPLAY
/* the variants of a message side by side: the verifier keeps no constant pointers in a union */
#define union struct
#include "mcp_types.h"
#undef union
#endif
#include "h_message.h"
static void *loop_memcpy(void *d, const void *s, size_t n)
{
    for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i];
    return d;
}
#ifndef REPLAY
#define memcpy loop_memcpy
#endif
#include "src/common/mcp_string_utils.c"
#include "src/json/mcp_json_message.c"
#include "src/json/mcp_json_rpc.c"
static char want[160]; static int w;
static void put(const char *s) { for (int i = 0; s[i]; i++) want[w++] = s[i]; want[w] = 0; }
static void putc1(char c)
{
    static const char hex[] = "0123456789abcdef";
    static char one[2], u[7] = "\\u00xx";
    one[0] = c;
    if (c == '"') put("\\\""); else if (c == '\\') put("\\\\"); else if (c == '\b') put("\\b"); else if (c == '\f') put("\\f");
    else if (c == '\n') put("\\n"); else if (c == '\r') put("\\r"); else if (c == '\t') put("\\t");
    else if ((unsigned char)c < 32) { u[4] = hex[c >> 4]; u[5] = hex[c & 15]; put(u); } else put(one);
}
static const uint64_t IDS[] = {0, 9, 10, 4294967296ull, 9007199254740991ull};
static const char *const DIGITS[] = {"0", "9", "10", "4294967296", "9007199254740991"};
static char txt[3];
/* characters that matter to the escape rules; the others are alike */
static const char CH[] = {'a', '"', '\\', '\b', '\f', '\n', '\r', '\t', 1, 0x1f, 0x7f, (char)0xc3, '/'};
#define NCH (int)sizeof CH
static void same(char *t)
{
    CHECK(t != NULL, "a text is produced");
    if (!t) return;
    int i = 0;
    while (i < w && t[i] == want[i]) i++;
    CHECK(i == w && t[i] == 0, "the text is the one JSON-RPC prescribes");
    free(t);
    CHECK(vh_live == 0, "nothing is lost");
}
void h_request(void)
{
    for (int c = 0; c < NCH; c++) {
        int k = c % 5, par = c & 1, notif = c % 3 == 0;
        txt[0] = CH[c]; txt[1] = CH[(c * 5 + 3) % NCH];
        mcp_message_t m;
        memset(&m, 0, sizeof m);
        w = 0; put("{\"jsonrpc\":\"2.0\",");
        if (notif) { m.type = MCP_MESSAGE_TYPE_NOTIFICATION; m.notification.method = txt; m.notification.params = par ? "[1]" : NULL; }
        else { m.type = MCP_MESSAGE_TYPE_REQUEST; m.request.id = IDS[k]; m.request.method = txt; m.request.params = par ? "[1]" : NULL; put("\"id\":"); put(DIGITS[k]); put(","); }
        put("\"method\":\""); putc1(txt[0]); putc1(txt[1]); put("\"");
        if (par) put(",\"params\":[1]");
        put("}");
        same(mcp_json_stringify_message(&m));
    }
    REACH("request");
}
void h_error(void)
{
    static const int CODES[] = {-32700, 1, -1, 2147483647, -2147483647 - 1};
    static const char *const CD[] = {"-32700", "1", "-1", "2147483647", "-2147483648"};
    for (int c = 0; c < NCH; c++) {
        int k = c % 5, e = (c + 2) % 5;
        txt[0] = CH[c]; txt[1] = CH[(c * 5 + 3) % NCH];
        mcp_message_t m;
        memset(&m, 0, sizeof m);
        m.type = MCP_MESSAGE_TYPE_RESPONSE; m.response.id = IDS[k]; m.response.error_code = (mcp_error_code_t)CODES[e]; m.response.error_message = c ? txt : NULL;
        w = 0; put("{\"jsonrpc\":\"2.0\",\"id\":"); put(DIGITS[k]); put(",\"error\":{\"code\":"); put(CD[e]); put(",\"message\":\"");
        if (c) { putc1(txt[0]); putc1(txt[1]); }
        put("\"}}");
        same(mcp_json_stringify_message(&m));
    }
    REACH("error");
}
void h_result(void)
{
    for (int k = 0; k < 5; k++) for (int v = 0; v < 2; v++) {
        mcp_message_t m;
        memset(&m, 0, sizeof m);
        m.type = MCP_MESSAGE_TYPE_RESPONSE; m.response.id = IDS[k]; m.response.result = v ? "{\"a\":[]}" : NULL;
        w = 0; put("{\"jsonrpc\":\"2.0\",\"id\":"); put(DIGITS[k]); put(",\"result\":"); put(v ? "{\"a\":[]}" : "null"); put("}");
        same(mcp_json_stringify_message(&m));
    }
    REACH("result");
}
void h_direct(void)
{
    uint64_t id = 0; char d[24]; int nd = 0;
    for (int k = 0; k < 20; k++) {
        id = id * 10 + 1; d[nd++] = '1'; d[nd] = 0;
        for (int v = 0; v < 2; v++) {
            w = 0; put("{\"jsonrpc\":\"2.0\",\"id\":"); put(d); put(",\"method\":\"mm\"");
            if (v) put(",\"params\":{}");
            put("}");
            same(mcp_json_format_request_direct(id, "mm", v ? "{}" : NULL));
        }
    }
    REACH("direct");
}
void h_oom(void)
{
    for (int k = 0; k < 5; k++) {
        mcp_message_t m;
        memset(&m, 0, sizeof m);
        m.type = MCP_MESSAGE_TYPE_RESPONSE; m.response.id = 1; m.response.error_code = 1; m.response.error_message = "\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n\n";
        vh_fail_point(k);
        char *t = mcp_json_stringify_message(&m);
        free(t);
        CHECK(vh_live == 0, "nothing is lost or released twice");
    }
    REACH("oom");
}
void h_append(void)
{
    dyn_buf_t b;
    static char s[4];
    for (int i = 0; i < 3; i++) s[i] = (char)in_u8("c");
    s[3] = 0;
    vh_live = 0;
    int r = dyn_buf_init(&b, 0);
    CHECK(r == 0 && b.capacity >= 1 && b.length == 0 && b.buffer[0] == 0, "an empty buffer");
    r = dyn_buf_append(&b, s);
    size_t n = s[0] == 0 ? 0 : s[1] == 0 ? 1 : s[2] == 0 ? 2 : 3;
    CHECK(r == 0 && b.length == n, "the length grows by that of the string");
    for (size_t i = 0; i < 3; i++) if (i < n) CHECK(b.buffer[i] == s[i], "the characters are appended");
    CHECK(b.buffer[n] == 0, "the buffer stays terminated");
    REACH("append");
}
