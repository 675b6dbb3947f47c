// A batch document keeps every element, in place, whatever the others are.
//@file funcs=mcp_json_parse_message_or_batch,parse_single_message_from_json,mcp_json_free_message_array,mcp_message_release_contents
//@file link=src/common/mcp_types.c,src/common/mcp_string_utils.c
//@file assume="JSON tree access and serialisation by contract (stubs in lib/h_message.h)"
//@obl h_n1 kind=bounded unwind=40 objbits=8 replace=parse_single_message_from_json:spec_single standin=h_two note="1 element"
//@obl h_n16 kind=bounded unwind=40 objbits=8 replace=parse_single_message_from_json:spec_single standin=h_two note="16 elements, any of them unparsable"
//@obl h_n17 kind=bounded unwind=40 objbits=8 replace=parse_single_message_from_json:spec_single standin=h_two note="17 elements, any of them unparsable"
//@obl h_n33 kind=bounded unwind=40 objbits=8 replace=parse_single_message_from_json:spec_single standin=h_two note="33 elements, any of them unparsable"
//@obl h_two kind=bounded unwind=50 objbits=11 note="every batch of two elements of seven kinds, the whole parser"
//@obl h_oom kind=bounded unwind=40 objbits=8 note="a batch of three, every allocation failure"
//@obl h_empty kind=proof unwind=40 objbits=8
#define NEL 34
#include "h_message.h"
#include "src/json/mcp_json_message.c"

/* contract of the element parser, proved in C12: on success the message is a
 * valid one with contents of its own, on failure it is an invalid one without */
static bool g_ok[NEL]; static int g_seen[NEL];
int spec_single(mcp_json_t *j, mcp_message_t *m)
{
    int i = -1;
    for (int k = 0; k < NEL; k++) if (j == &g_el[k]) i = k;
    CHECK(i >= 0 && j->type == MCP_JSON_OBJECT, "an object element of the batch");
    if (i < 0) return -1;
    g_seen[i]++;
    m->type = MCP_MESSAGE_TYPE_INVALID;
    if (!g_ok[i]) return -1;
    m->type = MCP_MESSAGE_TYPE_RESPONSE;
    m->response.id = 10 + (uint64_t)i;
    return 0;
}

/* 0 request 1 request with params 2 notification 3 result 4 error 5 bad object 6 not an object */
static void element(int i, int s)
{
    g_el[i].type = s == 6 ? MCP_JSON_STRING : MCP_JSON_OBJECT;
    for (int k = 0; k < F_N; k++) field(i, k, false, MCP_JSON_OBJECT);
    if (s <= 2) field(i, F_METHOD, true, MCP_JSON_STRING);
    if (s == 1) field(i, F_PARAMS, true, MCP_JSON_OBJECT);
    if (s != 2) { field(i, F_ID, true, MCP_JSON_NUMBER); g_f[i][F_ID].number_value = 10 + i; }
    if (s == 3) field(i, F_RESULT, true, MCP_JSON_OBJECT);
    if (s == 4) { field(i, F_ERROR, true, MCP_JSON_OBJECT); field(i, F_CODE, true, MCP_JSON_NUMBER); g_f[i][F_CODE].number_value = 20 + i; field(i, F_MESSAGE, true, MCP_JSON_STRING); }
    g_items[i] = &g_el[i];
}
static void batch(int n)
{
    g_root.type = MCP_JSON_ARRAY;
    g_root.array.count = (size_t)n;
    g_doc = &g_root;
    vh_live = 0; g_destroyed = g_parsed = 0;
}
static void many(int n)
{
    for (int i = 0; i < n; i++) {
        g_el[i].type = in_bool("object") ? MCP_JSON_OBJECT : MCP_JSON_STRING;
        g_ok[i] = in_bool("ok"); g_items[i] = &g_el[i];
        for (int k = 0; k < F_N; k++) field(i, k, g_ok[i] && (k == F_ID || k == F_RESULT), k == F_ID ? MCP_JSON_NUMBER : MCP_JSON_OBJECT);
        g_f[i][F_ID].number_value = 10 + i;
    }
    batch(n);
    mcp_message_t *m = NULL; size_t c = 0;
    int r = mcp_json_parse_message_or_batch("[]", &m, &c);
    CHECK(r == 0 && m && c == (size_t)n, "every element of the batch is kept");
    for (int i = 0; i < n; i++) {
        bool ok = g_el[i].type == MCP_JSON_OBJECT && g_ok[i];
#ifndef REPLAY
        CHECK(g_seen[i] == (g_el[i].type == MCP_JSON_OBJECT), "each element is read once");
#endif
        if (ok) CHECK(m[i].type == MCP_MESSAGE_TYPE_RESPONSE && m[i].response.id == 10 + (uint64_t)i, "each element keeps its place");
        else CHECK(m[i].type == MCP_MESSAGE_TYPE_INVALID, "an unparsable element keeps its place");
    }
    CHECK(g_destroyed == g_parsed, "the document is released");
    mcp_json_free_message_array(m, c);
    CHECK(vh_live == 0, "no memory is lost");
    REACH("many");
}
void h_n1(void) { many(1); }
void h_n16(void) { many(16); }
void h_n17(void) { many(17); }
void h_n33(void) { many(33); }
void h_two(void)
{
    for (int c = 0; c < 7 * 7; c++) {
        element(0, c / 7); element(1, c % 7);
        batch(2);
        mcp_message_t *m = NULL; size_t n = 0;
        int r = mcp_json_parse_message_or_batch("[]", &m, &n);
        CHECK(r == 0 && m && n == 2, "every element of the batch is kept");
        for (int i = 0; i < 2; i++) {
            CHECK((int)m[i].type == kind(i), "each element keeps its place and kind");
            preserved(&m[i], i);
        }
        mcp_json_free_message_array(m, n);
        CHECK(vh_live == 0, "no string is lost");
        CHECK(g_destroyed == g_parsed, "the document is released");
    }
    REACH("two");
}
void h_oom(void)
{
    element(0, 1); element(1, 2); element(2, 4);
    for (int k = 0; k < 7; k++) {
        batch(3);
        vh_fail_point(k);
        mcp_message_t *m = NULL; size_t n = 0;
        int r = mcp_json_parse_message_or_batch("[]", &m, &n);
        if (r == 0) {
            CHECK(m && n == 3, "every element of the batch is kept");
            for (int i = 0; i < 3; i++) if (m[i].type != MCP_MESSAGE_TYPE_INVALID) preserved(&m[i], i);
            mcp_json_free_message_array(m, n);
        } else CHECK(m == NULL && n == 0, "nothing is handed up");
        CHECK(vh_live == 0, "no string is lost or released twice");
        CHECK(g_destroyed == g_parsed, "the document is released");
    }
    REACH("oom");
}
void h_empty(void)
{
    batch(0);
    mcp_message_t *m = (mcp_message_t *)1; size_t n = 5;
    int r = mcp_json_parse_message_or_batch(" \t\r\n[]", &m, &n);
    CHECK(n == 0 && (r != 0 || m == NULL), "an empty batch has no messages");
    CHECK(vh_live == 0 && g_destroyed == g_parsed, "nothing is lost");
    REACH("empty");
}
