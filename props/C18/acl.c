// The rules of resource templates: who may use which, and what adding a rule changes.
//@file funcs=mcp_template_security_check_access,mcp_template_security_validate_params,mcp_template_security_add_acl,mcp_template_security_set_validator,mcp_template_security_set_default_validator,mcp_template_security_create,mcp_template_security_destroy
//@obl h_check kind=bounded unwind=8 note="up to 3 rules of up to 2 roles; template names and roles of up to 2 bytes"
//@obl h_params kind=bounded unwind=8 note="up to 3 rules"
//@obl h_grow kind=bounded unwind=20 note="nine rules, one of them replaced"
//@obl h_add_a kind=bounded unwind=20 note="rule added with up to 2 rules present, every single allocation failure"
//@obl h_add_b kind=bounded unwind=20 note="as above, second template"
//@obl h_add_c kind=bounded unwind=20 note="as above, template without a rule"
//@obl h_val_a kind=bounded unwind=20 note="validator set with up to 2 rules present, every single allocation failure"
//@obl h_val_b kind=bounded unwind=20 note="as above, second template"
//@obl h_val_c kind=bounded unwind=20 note="as above, template without a rule"
//@obl h_val_default kind=bounded unwind=20 note="default validator set with up to 2 rules present"
//@obl h_nothing kind=proof unwind=4
#include "vh.h"
char *mcp_strdup(const char *s) { return s ? (vh_strdup)(s) : NULL; }
#include "src/server/mcp_template_security.c"

static int g_asked; static const char *g_uri; static const mcp_json_t *g_params; static bool g_says[3];
static int g_data[3];
static bool ask(int k, const char *u, const mcp_json_t *p, void *d)
{
    CHECK(g_asked >= 0 && d == &g_data[k] && p == g_params, "the validator gets the parameters of the request and its own data");
    CHECK(u == g_uri || strcmp(u, g_uri) == 0, "and the template");
    g_asked |= 1 << k;
    return g_says[k];
}
static bool val0(const char *u, const mcp_json_t *p, void *d) { return ask(0, u, p, d); }
static bool val1(const char *u, const mcp_json_t *p, void *d) { return ask(1, u, p, d); }
static bool val2(const char *u, const mcp_json_t *p, void *d) { return ask(2, u, p, d); }
/* an arbitrary set of rules with different template names */
static char g_t[3][3], g_r[3][2][3]; static char *g_rp[3][2]; static template_acl_entry_t g_e[3], *g_ep[3];
static mcp_template_security_t g_s;
static char g_json_mem[1];
static void rules(int n)
{
    for (int i = 0; i < n; i++) {
        IN_STR("template", g_t[i], 3);
        for (int j = 0; j < i; j++) ASSUME(strcmp(g_t[i], g_t[j]) != 0);
        g_e[i].template_uri = g_t[i];
        for (int j = 0; j < 2; j++) { IN_STR("role", g_r[i][j], 3); g_rp[i][j] = g_r[i][j]; }
        g_e[i].allowed_roles = g_rp[i];
        g_e[i].allowed_roles_count = in_u8("roles") % 3;
        bool v = in_bool("has_validator");
        g_e[i].validator = v ? val1 : NULL; g_e[i].validator_data = v ? &g_data[1] : NULL;
        g_ep[i] = &g_e[i];
    }
    g_s.entries = g_ep; g_s.entries_count = (size_t)n; g_s.entries_capacity = 3;
    bool d = in_bool("has_default");
    g_s.default_validator = d ? val0 : NULL; g_s.default_validator_data = d ? &g_data[0] : NULL;
    g_says[0] = in_bool("default_says"); g_says[1] = in_bool("validator_says");
    g_params = in_bool("params") ? (const mcp_json_t *)g_json_mem : NULL;
    g_asked = 0;
}
static template_acl_entry_t *rule_of(const char *t, int n)
{
    for (int i = 0; i < n; i++) if (strcmp(g_t[i], t) == 0) return &g_e[i];
    return NULL;
}
static bool lists(template_acl_entry_t *e, const char *role)
{
    for (size_t j = 0; j < 2; j++) if (j < e->allowed_roles_count && (strcmp(e->allowed_roles[j], role) == 0 || strcmp(e->allowed_roles[j], "*") == 0)) return true;
    return false;
}
static void check(int n)
{
    rules(n);
    static char t[3], role[3];
    IN_STR("asked_template", t, 3); IN_STR("asked_role", role, 3);
    bool has_role = in_bool("has_role");
    g_uri = t;
    bool ok = mcp_template_security_check_access(&g_s, t, has_role ? role : NULL, g_params);
    template_acl_entry_t *e = rule_of(t, n);
    if (!e) CHECK(ok == !has_role, "without a rule nobody with a role gets in");
    else {
        bool listed = !has_role || e->allowed_roles_count == 0 || lists(e, role);
        bool valid = e->validator ? g_says[1] : g_s.default_validator ? g_says[0] : true;
        CHECK(ok == (listed && valid), "access exactly for a listed role whose parameters the validator accepts");
        if (ok && e->validator) CHECK(g_asked == 2, "the template's own validator was asked");
        if (ok && !e->validator && g_s.default_validator) CHECK(g_asked == 1, "the default validator was asked");
    }
}
void h_check(void) { int n = in_u8("n"); if (n == 0) check(0); else if (n == 1) check(1); else if (n == 2) check(2); else check(3); REACH("checked"); }
void h_params(void)
{
    int n = in_u8("n") % 4;
    if (n == 0) rules(0); else if (n == 1) rules(1); else if (n == 2) rules(2); else rules(3);
    static char t[3]; IN_STR("asked_template", t, 3); g_uri = t;
    bool ok = mcp_template_security_validate_params(&g_s, t, g_params);
    template_acl_entry_t *e = rule_of(t, n);
    bool valid = e && e->validator ? g_says[1] : g_s.default_validator ? g_says[0] : true;
    CHECK(ok == (g_params != NULL && valid), "parameters pass exactly if the validator in charge accepts them");
    REACH("validated");
}
void h_nothing(void)
{
    CHECK(!mcp_template_security_check_access(NULL, "a", in_bool("r") ? "r" : NULL, NULL), "nothing to ask: no access");
    CHECK(!mcp_template_security_validate_params(NULL, "a", NULL), "nothing to ask: not valid");
    mcp_template_security_t *s = mcp_template_security_create();
    ASSUME(s);
    CHECK(!mcp_template_security_check_access(s, NULL, NULL, NULL) && !mcp_template_security_validate_params(s, NULL, NULL), "no template: no access");
    CHECK(mcp_template_security_add_acl(s, "t", NULL, 1) != 0 && mcp_template_security_add_acl(s, NULL, NULL, 0) != 0 && mcp_template_security_add_acl(NULL, "t", NULL, 0) != 0, "malformed rules are refused");
    CHECK(!mcp_template_security_check_access(s, "t", "r", NULL), "and leave nothing");
    mcp_template_security_destroy(s);
    CHECK(vh_live == 0, "released");
    REACH("nothing");
}
/* what the rules in s say for this template and role */
static int verdict(mcp_template_security_t *s, const char *t, const char *role)
{
    g_uri = t; g_asked = 0;
    return mcp_template_security_check_access(s, t, role, g_params);
}
/* a state built through the interface: bit 2i = template i has a validator, bit 2i+1 = it lists role "u" */
static const char *const T[3] = { "a", "b", "c" }; static const char *const R[3] = { "u", "v", "w" };
static mcp_template_security_t *start(int mask)
{
    const char *r[1] = { "u" };
    mcp_template_security_t *s = mcp_template_security_create();
    for (int i = 0; i < 2; i++) {
        if (mask >> (2 * i) & 1) CHECK(mcp_template_security_set_validator(s, T[i], val1, &g_data[1]) == 0, "set");
        if (mask >> (2 * i) & 2) CHECK(mcp_template_security_add_acl(s, T[i], r, 1) == 0, "added");
    }
    g_params = (const mcp_json_t *)g_json_mem;
    return s;
}
static void add(int mask, int which, int fail)
{
    mcp_template_security_t *s = start(mask);
    int before[3][3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) before[i][j] = verdict(s, T[i], R[j]);
    char t[2] = { T[which][0], 0 }, role[2] = { 'v', 0 }, role2[2] = { 'x', 0 }; const char *roles[2] = { role2, role };
    vh_fail_point(fail);
    int r = mcp_template_security_add_acl(s, t, roles, 2);
    CHECK(r == 0 || vh_alloc_failed > 0, "refused for lack of memory only");
    vh_fail_point(-1);
    t[0] = 'x'; role[0] = 'x'; /* the caller's strings are its own again */
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        int now = verdict(s, T[i], R[j]);
        if (r != 0 || i != which) CHECK(now == before[i][j], "no other decision changes, and none at all if the addition fails");
        else if (j != 1) CHECK(!now, "after the addition the roles listed last decide");
        else {
            CHECK(g_asked == (which < 2 && (mask >> (2 * which) & 1) ? 2 : 0), "the template keeps its validator");
            CHECK(now == (g_asked ? g_says[1] : 1), "a listed role is refused by the validator only");
        }
    }
    mcp_template_security_destroy(s);
    CHECK(vh_live == 0, "everything is released");
}
static void adds(int which)
{
    g_says[1] = in_bool("validator_says");
    for (int mask = 0; mask < 16; mask++) {
        add(mask, which, -1);
        if (mask == 0 || mask == 3 || mask == 5) for (int k = 0; k < 7; k++) add(mask, which, k);
    }
    REACH("added");
}
void h_add_a(void) { adds(0); }
void h_add_b(void) { adds(1); }
void h_add_c(void) { adds(2); }
void h_grow(void)
{
    mcp_template_security_t *s = mcp_template_security_create(); ASSUME(s);
    static const char *const T[9] = { "0", "1", "2", "3", "4", "5", "6", "7", "8" };
    const char *u[1] = { "u" }, *v[1] = { "v" };
    for (int i = 0; i < 9; i++) CHECK(mcp_template_security_add_acl(s, T[i], u, 1) == 0, "added");
    int k = in_u8("k") % 9;
    for (int i = 0; i < 9; i++) if (i == k) CHECK(mcp_template_security_add_acl(s, T[i], v, 1) == 0, "replaced");
    for (int i = 0; i < 9; i++) {
        CHECK(verdict(s, T[i], "u") == (i != k) && verdict(s, T[i], "v") == (i == k) && !verdict(s, T[i], "w"), "each template keeps its own roles");
    }
    mcp_template_security_destroy(s);
    CHECK(vh_live == 0, "everything is released");
    REACH("grown");
}
static void validator(int mask, int w, int fail)
{
    mcp_template_security_t *s = start(mask);
    int before[3];
    for (int i = 0; i < 3; i++) before[i] = verdict(s, T[i], "u");
    vh_fail_point(fail);
    int r = w == 3 ? mcp_template_security_set_default_validator(s, val0, &g_data[0]) : mcp_template_security_set_validator(s, T[w], val2, &g_data[2]);
    CHECK(r == 0 || vh_alloc_failed > 0, "refused for lack of memory only");
    vh_fail_point(-1);
    for (int i = 0; i < 3; i++) {
        bool own = i < 2 && (mask >> (2 * i) & 1), rule = i < 2 && (mask >> (2 * i) & 3);
        int now = verdict(s, T[i], "u");
        if (r != 0 || (w != 3 && i != w)) CHECK(now == before[i], "no other decision changes");
        else if (w != 3) CHECK(now == g_says[2] && g_asked == 4, "from now on the new validator decides");
        else CHECK(now == (!rule ? 0 : own ? g_says[1] : g_says[0]), "the default validator decides where the template has none");
        if (r == 0 && i == w && i < 2 && (mask >> (2 * i) & 2)) CHECK(!verdict(s, T[i], "v"), "the roles of the template stay");
    }
    mcp_template_security_destroy(s);
    CHECK(vh_live == 0, "everything is released");
}
static void validators(int w)
{
    g_says[0] = in_bool("default_says"); g_says[1] = in_bool("validator_says"); g_says[2] = in_bool("other_says");
    for (int mask = 0; mask < 16; mask++) {
        validator(mask, w, -1);
        if (mask == 0 || mask == 3 || mask == 5) for (int k = 0; k < 4; k++) validator(mask, w, k);
    }
    REACH("set");
}
void h_val_a(void) { validators(0); }
void h_val_b(void) { validators(1); }
void h_val_c(void) { validators(2); }
void h_val_default(void) { validators(3); }
