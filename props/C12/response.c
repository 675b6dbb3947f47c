// A response text seen by the client: shape, id, code, message, result.
//@file funcs=mcp_json_parse_response
//@file link=src/common/mcp_string_utils.c
//@file assume="JSON tree access and serialisation by contract (stubs in lib/h_message.h)"
//@obl h_response kind=proof unwind=12 objbits=8 note="every combination of members and types, every number"
//@obl h_oom kind=proof unwind=12 objbits=8 note="every allocation failure"
#define NEL 1
#include "h_message.h"
#include "src/json/mcp_json_rpc.c"
static bool is_object(const mcp_json_t *f) { return f->type == MCP_JSON_OBJECT; }
void h_response(void)
{
    g_el[0].type = in_i32("eltype");
    ASSUME(g_el[0].type >= MCP_JSON_NULL && g_el[0].type <= MCP_JSON_OBJECT);
    for (int k = 0; k < F_N; k++) {
        int t = in_i32("ftype");
        ASSUME(t >= MCP_JSON_NULL && t <= MCP_JSON_OBJECT);
        field(0, k, in_bool("has"), t);
        if (k == F_ID || k == F_CODE) { double d = in_double("num"); if (t == MCP_JSON_NUMBER) g_f[0][k].number_value = d; }
    }
    g_doc = &g_el[0];
    g_parse_ok = in_bool("parses");
    uint64_t id = 99; mcp_error_code_t code = 99; char *msg = (char *)1, *res = (char *)1;
    int r = mcp_json_parse_response("{}", &id, &code, &msg, &res);
    const mcp_json_t *f = g_f[0]; const bool *h = g_has[0];
    bool shape = g_parse_ok && is_object(&g_el[0]) && h[F_ID] && f[F_ID].type == MCP_JSON_NUMBER && valid_id(f[F_ID].number_value);
    bool err = h[F_ERROR] && is_object(&f[F_ERROR]);
    if (err) shape = shape && h[F_CODE] && f[F_CODE].type == MCP_JSON_NUMBER && valid_code(f[F_CODE].number_value);
    else shape = shape && h[F_RESULT];
    if (!shape) CHECK(r != 0, "a text that is no response is refused");
    if (shape && !(err && h[F_RESULT]) && !(err && !(h[F_MESSAGE] && f[F_MESSAGE].type == MCP_JSON_STRING))) CHECK(r == 0, "a response is accepted");
    if (r == 0) {
        CHECK((double)id == f[F_ID].number_value, "the id is preserved");
        if (err) {
            CHECK((double)(int)code == f[F_CODE].number_value, "the error code is preserved");
            CHECK(res == NULL, "no result with an error");
            if (h[F_MESSAGE] && f[F_MESSAGE].type == MCP_JSON_STRING) CHECK(is_copy(msg, 0, F_MESSAGE), "the error message is preserved");
        } else {
            CHECK(code == MCP_ERROR_NONE && msg == NULL, "no error");
            CHECK(is_text(res, 0, F_RESULT), "the result is preserved");
        }
    }
    free(msg); free(res);
    CHECK(vh_live == 0, "no string is lost");
    CHECK(g_destroyed == g_parsed, "the document is released");
    REACH("response");
}
void h_oom(void)
{
    g_el[0].type = MCP_JSON_OBJECT;
    for (int shape = 0; shape < 2; shape++) {
        for (int k = 0; k < F_N; k++) field(0, k, false, MCP_JSON_OBJECT);
        field(0, F_ID, true, MCP_JSON_NUMBER); g_f[0][F_ID].number_value = 3;
        if (shape == 0) field(0, F_RESULT, true, MCP_JSON_OBJECT);
        if (shape == 1) { field(0, F_ERROR, true, MCP_JSON_OBJECT); field(0, F_CODE, true, MCP_JSON_NUMBER); g_f[0][F_CODE].number_value = 4; field(0, F_MESSAGE, true, MCP_JSON_STRING); }
        g_doc = &g_el[0];
        for (int k = 0; k < 3; k++) {
            vh_fail_point(k);
            vh_live = 0; g_destroyed = g_parsed = 0;
            uint64_t id = 99; mcp_error_code_t code = 99; char *msg = (char *)1, *res = (char *)1;
            int r = mcp_json_parse_response("{}", &id, &code, &msg, &res);
            if (vh_alloc_failed) CHECK(r != 0, "out of memory is an error");
            free(msg); free(res);
            CHECK(vh_live == 0 && g_destroyed == g_parsed, "nothing is lost or released twice");
        }
    }
    REACH("oom");
}
