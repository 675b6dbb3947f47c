// A batch is answered request by request, in order.
//@file funcs=handle_message,handle_request
//@file assume="message parsing by contract (parse.c);request handlers, credential check and text buffer by contract (stubs in lib/h_dispatch.h)"
//@obl h_order2 kind=bounded unwind=24 bound="batches of 2 messages" cost=2 note="every mix of kinds, methods, credentials and failing handlers"
//@obl h_order3 kind=bounded unwind=24 bound="batches of 3 messages" cost=3 note="every mix of kinds, methods, credentials and failing handlers"
//@obl h_order4 kind=bounded unwind=24 bound="batches of 4 messages" cost=4 note="every mix of kinds, methods, credentials and failing handlers"
//@obl h_one kind=proof unwind=24 note="a single message"
#define NMSG 4
#include "h_dispatch.h"
#include "src/server/mcp_server_dispatch.c"

static void message(int i)
{
    g_type[i] = in_i32("type"); g_cred[i] = in_i32("cred"); g_method[i] = in_i32("method"); g_hnull[i] = in_bool("hnull");
    ASSUME(g_type[i] == MCP_MESSAGE_TYPE_REQUEST || g_type[i] == MCP_MESSAGE_TYPE_NOTIFICATION || g_type[i] == MCP_MESSAGE_TYPE_RESPONSE || g_type[i] == MCP_MESSAGE_TYPE_INVALID);
    ASSUME(g_cred[i] >= 0 && g_cred[i] < CRED_KINDS);
    ASSUME(g_method[i] >= 0 && g_method[i] < 4);
}
static void order(int n)
{
    int ec;
    bool key = in_bool("key");
    g_srv.config.api_key = key ? "K" : NULL;
    g_count = n;
    for (int i = 0; i < NMSG; i++) message(i);
    char *r = dispatch(&ec);
    int pos = 0;
    bool any = false;
    for (int i = 0; i < NMSG; i++) {
        if (i >= g_count) continue;
        bool req = g_type[i] == MCP_MESSAGE_TYPE_REQUEST;
        bool ok = authentic(i) || is_ping(i);
        CHECK(g_ran[i] == (req && ok && g_method[i] != 2 ? 1 : 0), "a request runs exactly once, anything else never");
        char e = answer(i);
        if (!e) continue;
        CHECK(r != NULL, "a batch with a request is answered");
        if (!r) return;
        CHECK(r[pos] == (any ? ',' : '['), "responses are separated");
        CHECK(r[pos + 1] == e, "the responses stand in the order of the batch");
        pos += 2; any = true;
    }
    if (any) CHECK(r[pos] == ']' && r[pos + 1] == 0, "nothing is added");
    else CHECK(r == NULL, "a batch without requests gets no answer");
    if (r) ledger_free(r);
    CHECK(nothing_owned() && g_buf_live == 0, "nothing is lost or released twice");
    CHECK(ec == MCP_ERROR_NONE, "the batch as a whole succeeds");
    REACH("batch");
}
void h_order2(void) { order(2); }
void h_order3(void) { order(3); }
void h_order4(void) { order(4); }
void h_one(void)
{
    int ec;
    g_srv.config.api_key = in_bool("key") ? "K" : NULL;
    g_count = 1;
    message(0);
    ASSUME(g_type[0] != MCP_MESSAGE_TYPE_INVALID && !g_hnull[0]);
    char *r = dispatch(&ec);
    char e = answer(0);
    if (e) CHECK(r && r[0] == e && r[1] == 0, "the one request is answered");
    else CHECK(r == NULL, "no request, no answer");
    if (r) ledger_free(r);
    CHECK(nothing_owned(), "nothing is lost or released twice");
    REACH("one");
}
