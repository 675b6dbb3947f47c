// Origin matching, allow-list parsing and the session-id alphabet.
//@file funcs=validate_origin,parse_allowed_origins,free_allowed_origins,mcp_session_id_is_valid link=src/common/mcp_string_utils.c
//@obl h_sid_short kind=proof unwind=132 note="every string of up to 129 bytes; session ids are at most 127"
//@obl h_sid_long kind=proof unwind=132 replace=strlen:spec_strlen standin=h_sid_short note="every longer string, by the contract of strlen"
//@obl h_match kind=bounded unwind=9 bound="two allowed entries of up to 4 bytes, origin of up to 5 bytes, all contents" cost=3
//@obl h_match_wild kind=bounded unwind=12 bound="one allowed entry of up to 7 bytes, origin of up to 8 bytes, all contents" cost=3
//@obl h_match_off kind=bounded unwind=9 bound="origin of up to 4 bytes"
//@obl h_parse kind=bounded unwind=260 bound="all texts of 3 characters over comma, blank, tab and a letter, and six longer ones" cost=4
//@obl h_parse_fail kind=bounded unwind=24 bound="one text, every allocation in turn fails"
#include "vh_sync.h"
#include "src/transport/mcp_sthttp_utils.c"
#include "src/transport/mcp_http_session_manager.c"

/* ---- session ids ------------------------------------------------------- */
static bool ok_char(unsigned char c) { return c >= 0x21 && c <= 0x7e; }
void h_sid_short(void)
{
    char s[130];
    for (int i = 0; i < 129; i++) s[i] = (char)in_u8("id");
    s[129] = 0;
    size_t n = 0; bool ok = true;
    for (size_t i = 0; i < 129 && s[i]; i++) { ok = ok && ok_char((unsigned char)s[i]); n = i + 1; }
    bool want = n >= 1 && n < MCP_SESSION_ID_MAX_LENGTH && ok;
    CHECK(mcp_session_id_is_valid(s) == want, "accepted exactly if 1..127 visible ASCII characters");
    CHECK(!mcp_session_id_is_valid(NULL), "no id is not an id");
    if (want) REACH("valid"); else REACH("invalid");
}
static size_t g_len;
size_t spec_strlen(const char *s) { (void)s; return g_len; }
void h_sid_long(void)
{
    char s[130]; /* the visible beginning of a longer string */
    for (int i = 0; i < 130; i++) { s[i] = (char)in_u8("id"); ASSUME(s[i] != 0); }
    g_len = in_size("len");
    ASSUME(g_len >= 130);
    CHECK(!mcp_session_id_is_valid(s), "too long an id is refused");
    REACH("long");
}

/* ---- matching ---------------------------------------------------------- */
static size_t slen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
static bool spec_match1(const char *o, const char *a)
{
    if (vh_streq(o, a)) return true;
    size_t n = slen(a);
    if (n == 0 || a[n - 1] != '*') return false;
    for (size_t i = 0; i + 1 < n; i++) if (o[i] != a[i]) return false; /* stops at o's end: a[i] is not 0 */
    return true;
}
void h_match(void)
{
    char a0[5], a1[5], o[6];
    IN_STR("a0", a0, 5); IN_STR("a1", a1, 5); IN_STR("o", o, 6);
    sthttp_transport_data_t d; memset(&d, 0, sizeof d);
    char *list[2] = { a0, a1 };
    d.validate_origin = true; d.allowed_origins = list;
    for (int n = 1; n <= 2; n++) {
        d.allowed_origins_count = (size_t)n;
        bool want = spec_match1(o, a0) || (n > 1 && spec_match1(o, a1));
        CHECK(validate_origin(&d, o) == want, "an origin passes exactly if it is allowed");
        if (want) REACH("allowed"); else REACH("refused");
    }
}
void h_match_wild(void)
{
    char a[8], o[9];
    IN_STR("a", a, 8); IN_STR("o", o, 9);
    sthttp_transport_data_t d; memset(&d, 0, sizeof d);
    char *list[1] = { a };
    d.validate_origin = true; d.allowed_origins = list; d.allowed_origins_count = 1;
    bool want = spec_match1(o, a);
    CHECK(validate_origin(&d, o) == want, "an origin passes exactly if it is allowed");
    if (want) REACH("allowed"); else REACH("refused");
}
void h_match_off(void)
{
    char o[5]; IN_STR("o", o, 5);
    sthttp_transport_data_t d; memset(&d, 0, sizeof d);
    CHECK(validate_origin(&d, o), "checking switched off: everything passes");
    d.validate_origin = true;
    CHECK(validate_origin(&d, o), "no allow list configured: everything passes");
    REACH("off");
}

/* ---- the allow list ----------------------------------------------------- */
/* every text over separators, blanks and letters; letters arbitrary */
static bool blank(char c) { return c == ' ' || c == '\t'; }
static void parse_one(const char *s, const char *l)
{
    char **list; size_t n;
    bool ok = parse_allowed_origins(s, &list, &n);
    CHECK(ok, "parsing succeeds when memory is available");
    size_t k = 0, i = 0;
    while (1) {
        size_t b = i;
        while (l[i] && l[i] != ',') i++;
        size_t e = i;
        while (b < e && blank(l[b])) b++;
        while (e > b && blank(l[e - 1])) e--;
        if (e > b) {
            CHECK(k < n && slen(list[k]) == e - b, "every entry of the configuration is in the list, in order");
            for (size_t j = b; j < e; j++) CHECK(list[k][j - b] == s[j], "entries are the trimmed texts between the commas");
            k++;
        }
        if (!l[i]) break;
        i++;
    }
    CHECK(k == n, "nothing else is in the list");
    free_allowed_origins(list, n);
    CHECK(vh_live == 0, "the list is released completely");
}
#define PLEN 3
void h_parse(void)
{
    static const char al[] = ", \tx";
    for (int c = 0; c < 4 * 4 * 4; c++) {
        char l[PLEN + 1], s[PLEN + 1]; int v = c;
        for (int i = 0; i < PLEN; i++, v /= 4) s[i] = l[i] = al[v % 4];
        s[PLEN] = l[PLEN] = 0;
        parse_one(s, l);
    }
    static const char *const more[] = { "http://a,b", " http://a:* ,\thttps://b.c , ", "a b,c", ",,x,,", "", "*" };
    for (int i = 0; i < 6; i++) parse_one(more[i], more[i]);
    REACH("parsed");
}
void h_parse_fail(void)
{
    int refused = 0, fine = 0;
    for (int k = 0; k < 6; k++) {
        char **list; size_t n;
        vh_fail_point(k);
        bool ok = parse_allowed_origins("http://a, b*", &list, &n);
        vh_fail_at = -1;
        CHECK(ok == !vh_alloc_failed, "out of memory is reported, never a partial list");
        if (ok) { CHECK(n == 2, "complete list"); free_allowed_origins(list, n); fine = 1; } else refused = 1;
        CHECK(vh_live == 0, "nothing is left behind");
    }
    CHECK(refused, "failures were injected");
    REACH("done");
}
