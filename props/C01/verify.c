// The credential check accepts exactly the configured key.
//@file funcs=mcp_auth_verify,mcp_auth_context_free,create_wildcard_auth_context
//@file link=src/common/mcp_string_utils.c
//@file trusted="CRYPTO_memcmp (compares like memcmp)" assume="C string comparison functions by contract over lengths and first difference (any length)"
//@obl h_key_any kind=proof unwind=70 abstract=1 standin=h_key_short note="every key and credential of any length"
//@obl h_key_short kind=bounded unwind=70 bound="keys and credentials of up to 5 bytes" note="byte by byte"
//@obl h_nokey kind=proof unwind=70 note="no key configured; every authentication type"
//@obl h_oom kind=proof unwind=70 note="every allocation failure"
#include "vh_str.h"
int CRYPTO_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
#include "src/server/mcp_auth.c"

static mcp_server_t S;
static void outcome(int r, mcp_auth_context_t *c, bool expect)
{
    CHECK((r == 0) == expect, "accepted exactly when the credential equals the configured key");
    CHECK((r == 0) == (c != NULL), "an identity exactly on success");
    if (c) {
        CHECK(c->type == MCP_AUTH_API_KEY || !S.config.api_key, "identity of the right kind");
        mcp_auth_context_free(c);
    }
}
void h_key_any(void)
{
    vh_two_strings("keylen", "credlen", (size_t)1 << 20);
    mcp_auth_context_t *c = (mcp_auth_context_t *)&S;
    bool none = in_bool("none");
    int type = in_i32("type");
    ASSUME(vh_LA > 0); /* an empty key counts as no key */
    S.config.api_key = vh_A;
    ASSUME(vh_LA <= 1024); /* documented limit: longer keys are refused */
    int r = mcp_auth_verify(&S, (mcp_auth_type_t)type, none ? NULL : vh_B, &c);
    outcome(r, c, type == MCP_AUTH_API_KEY && !none && vh_equal_AB());
    REACH("decided");
}
void h_key_short(void)
{
    static char k[6], x[6];
    IN_STR("k", k, 6); IN_STR("x", x, 6);
    char *key = k, *cred = x;
    ASSUME(k[0] != 0);
    mcp_auth_context_t *c = NULL;
    S.config.api_key = key;
    int type = in_i32("type");
    bool none = in_bool("none");
    bool eq = vh_streq(k, x);
    int r = mcp_auth_verify(&S, (mcp_auth_type_t)type, none ? NULL : cred, &c);
    outcome(r, c, type == MCP_AUTH_API_KEY && !none && eq);
    REACH("decided");
}
void h_nokey(void)
{
    mcp_auth_context_t *c = NULL;
    int type = in_i32("type");
    S.config.api_key = NULL;
    int r = mcp_auth_verify(&S, (mcp_auth_type_t)type, in_bool("none") ? NULL : "x", &c);
    if (type == MCP_AUTH_NONE) CHECK(r == 0 && c, "without a key everything is accepted");
    else CHECK(r != 0 && !c, "no other kind of authentication is accepted");
    if (c) {
        CHECK(c->allowed_tools_count == 1 && vh_streq(c->allowed_tools[0], "*") && c->allowed_resources_count == 1 && vh_streq(c->allowed_resources[0], "*") && c->expiry == 0, "full access, no expiry");
        mcp_auth_context_free(c);
    }
    CHECK(vh_live == 0, "nothing is lost");
    REACH("decided");
}
void h_oom(void)
{
    for (int k = 0; k < 7; k++) {
        vh_fail_point(k);
        vh_live = 0;
        mcp_auth_context_t *c = NULL;
        S.config.api_key = "key";
        int r = mcp_auth_verify(&S, MCP_AUTH_API_KEY, "key", &c);
        CHECK((r == 0) == (c != NULL), "an identity exactly on success");
        if (vh_alloc_failed) CHECK(r != 0, "out of memory: refused");
        mcp_auth_context_free(c);
        CHECK(vh_live == 0, "nothing is lost");
    }
    REACH("decided");
}
