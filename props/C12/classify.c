// Classification of a single message, every shape of the document.
//@file funcs=mcp_json_parse_message,mcp_json_parse_message_or_batch,parse_single_message_from_json,mcp_message_release_contents,mcp_json_free_message_array
//@file link=src/common/mcp_types.c,src/common/mcp_string_utils.c
//@file assume="JSON tree access and serialisation by contract (stubs in lib/h_message.h)"
//@obl h_message kind=proof unwind=12 objbits=8 note="every combination of members and types, every number"
//@obl h_single kind=proof unwind=12 objbits=8 note="the same through the batch entry point"
//@obl h_oom_message kind=proof unwind=12 note="every allocation failure"
//@obl h_oom_single kind=proof unwind=12 note="every allocation failure"
#define NEL 1
#include "h_message.h"
#include "src/json/mcp_json_message.c"

static void any_element(void)
{
    g_el[0].type = in_i32("eltype");
    ASSUME(g_el[0].type >= MCP_JSON_NULL && g_el[0].type <= MCP_JSON_OBJECT);
    for (int k = 0; k < F_N; k++) {
        int t = in_i32("ftype");
        ASSUME(t >= MCP_JSON_NULL && t <= MCP_JSON_OBJECT);
        field(0, k, in_bool("has"), t);
        if (k == F_ID || k == F_CODE) { double d = in_double("num"); if (t == MCP_JSON_NUMBER) g_f[0][k].number_value = d; }
    }
    g_doc = &g_el[0];
    g_parse_ok = in_bool("parses");
}
void h_message(void)
{
    any_element();
    mcp_message_t m;
    memset(&m, 0, sizeof m);
    int r = mcp_json_parse_message("{}", &m);
    int k = g_parse_ok ? kind(0) : MCP_MESSAGE_TYPE_INVALID;
    CHECK((r == 0) == (k != MCP_MESSAGE_TYPE_INVALID), "accepted exactly when it has the shape of a message");
    if (r == 0) {
        CHECK(m.type == k, "classified correctly");
        preserved(&m, 0);
        mcp_message_release_contents(&m);
    }
    CHECK(vh_live == 0, "no string is lost");
    REACH("classified");
}
void h_single(void)
{
    any_element();
    ASSUME(g_el[0].type != MCP_JSON_ARRAY);
    mcp_message_t *m = NULL; size_t n = 77;
    int r = mcp_json_parse_message_or_batch("{}", &m, &n);
    int k = g_parse_ok ? kind(0) : MCP_MESSAGE_TYPE_INVALID;
    CHECK((r == 0) == (k != MCP_MESSAGE_TYPE_INVALID), "accepted exactly when it has the shape of a message");
    if (r == 0) {
        CHECK(n == 1 && m && m[0].type == k, "classified correctly");
        if (m) preserved(&m[0], 0);
        mcp_json_free_message_array(m, n);
    } else CHECK(m == NULL && n == 0, "nothing is handed up");
    CHECK(vh_live == 0, "no string is lost");
    CHECK(g_destroyed == g_parsed, "the document is released");
    REACH("classified");
}
static void oom(bool single)
{
    g_el[0].type = MCP_JSON_OBJECT;
    for (int shape = 0; shape < 4; shape++) {
        for (int k = 0; k < F_N; k++) field(0, k, false, MCP_JSON_OBJECT);
        if (shape <= 1) { field(0, F_METHOD, true, MCP_JSON_STRING); field(0, F_PARAMS, true, MCP_JSON_OBJECT); }
        if (shape != 1) { field(0, F_ID, true, MCP_JSON_NUMBER); g_f[0][F_ID].number_value = 3; }
        if (shape == 2) field(0, F_RESULT, true, MCP_JSON_OBJECT);
        if (shape == 3) { field(0, F_ERROR, true, MCP_JSON_OBJECT); field(0, F_CODE, true, MCP_JSON_NUMBER); g_f[0][F_CODE].number_value = 4; field(0, F_MESSAGE, true, MCP_JSON_STRING); }
        g_doc = &g_el[0];
        for (int k = 0; k < 4; k++) {
            vh_fail_point(k);
            vh_live = 0; g_destroyed = g_parsed = 0;
            if (single) {
                mcp_message_t *m = NULL; size_t n = 0;
                int r = mcp_json_parse_message_or_batch("{}", &m, &n);
                if (vh_alloc_failed) CHECK(r != 0, "out of memory is an error");
                else CHECK(r == 0, "accepted");
                if (r == 0) mcp_json_free_message_array(m, n);
                else CHECK(m == NULL, "nothing is handed up");
                CHECK(g_destroyed == g_parsed, "the document is released");
            } else {
                mcp_message_t m;
                memset(&m, 0, sizeof m);
                int r = mcp_json_parse_message("{}", &m);
                if (vh_alloc_failed) CHECK(r != 0, "out of memory is an error");
                mcp_message_release_contents(&m);
            }
            CHECK(vh_live == 0, "no string is lost or released twice");
        }
    }
    REACH("oom");
}
void h_oom_message(void) { oom(false); }
void h_oom_single(void) { oom(true); }
