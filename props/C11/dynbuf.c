// The string builder used for messages: appended literals and buffer growth.
//@file funcs=dyn_buf_append_json_string,dyn_buf_append,dyn_buf_append_char,dyn_buf_finalize,dyn_buf_init
//@obl h_literal kind=bounded unwind=260 objbits=12 note="one-byte strings and strings of two bytes of every kind at several fill levels of a buffer of 8 bytes, failing growth"
//@obl h_plain kind=bounded unwind=70 note="appended text and characters at every fill level of a buffer of 8 bytes, failing growth; start and end of the buffer's life"
#include "vh.h"
#include <string.h>
static void *loop_memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char *)d)[i] = ((const char *)s)[i]; return d; }
#ifndef REPLAY
#define memcpy loop_memcpy
#endif
#include "src/common/mcp_string_utils.c"
#undef memcpy
static char g_s[3], g_esc[20];
static int put_byte(int w, unsigned char c)
{
    static const char H[] = "0123456789abcdef"; const char *two = c == '"' ? "\"" : c == '\\' ? "\\" : c == 8 ? "b" : c == 12 ? "f" : c == 10 ? "n" : c == 13 ? "r" : c == 9 ? "t" : NULL;
    if (two) { g_esc[w] = '\\'; g_esc[w + 1] = two[0]; return w + 2; }
    if (c >= 32) { g_esc[w] = (char)c; return w + 1; }
    g_esc[w] = '\\'; g_esc[w + 1] = 'u'; g_esc[w + 2] = g_esc[w + 3] = '0'; g_esc[w + 4] = H[c >> 4]; g_esc[w + 5] = H[c & 15]; return w + 6;
}
static void start(dyn_buf_t *b, int fill)
{ b->buffer = (char *)malloc(8); b->capacity = 8; b->length = (size_t)fill; for (int i = 0; i < fill; i++) b->buffer[i] = 'p'; b->buffer[fill] = 0; }
static void done(dyn_buf_t *b, int fill, const char *add, int n, int r, int failed)
{
    CHECK((r == 0) == !failed, "appended unless there is no memory");
    CHECK(b->buffer && b->length < b->capacity, "room for the end");
    if (r == 0) {
        CHECK(b->length == (size_t)(fill + n), "its length");
        for (int i = 0; i < n; i++) CHECK(b->buffer[fill + i] == add[i], "what was appended");
    } else CHECK(b->length == (size_t)fill, "unchanged");
    for (int i = 0; i < fill; i++) CHECK(b->buffer[i] == 'p', "behind what is there");
    CHECK(b->buffer[b->length] == 0, "terminated");
    dyn_buf_free(b);
}
void h_literal(void)
{
    static const unsigned char CH[] = {'a', '"', '\\', '\n', 1, '\b', 0xc3, '\t', '\r', '\f', 0x1f, 0x7f};
    for (int c = 1; c < 256; c += c < 35 || c == 91 || c == 127 ? 1 : c == 35 ? 56 : c == 92 ? 35 : 127) { /* every control character, and some of each other kind */
        g_s[0] = (char)c; g_s[1] = 0; dyn_buf_t b; start(&b, 5); int w = put_byte(1, (unsigned char)c); g_esc[0] = '"'; g_esc[w++] = '"';
        int r = dyn_buf_append_json_string(&b, g_s); done(&b, 5, g_esc, w, r, 0);
    }
    for (int c = 0; c < 12; c++) for (int n = 0; n < 3; n++) for (int fill = 0; fill < 8; fill += 3) for (int f = 0; f < 2; f++) {
        if (n == 0 && c) continue;
        g_s[0] = n > 0 ? (char)CH[c] : 0; g_s[1] = n > 1 ? (char)CH[(c + 3) % 7] : 0; g_s[2] = 0;
        dyn_buf_t b; start(&b, fill);
        vh_fail_point(f ? 0 : -1); int r = dyn_buf_append_json_string(&b, g_s); int failed = vh_alloc_failed; vh_fail_point(-1);
        int w = 1; g_esc[0] = '"'; for (int i = 0; g_s[i]; i++) w = put_byte(w, (unsigned char)g_s[i]); g_esc[w++] = '"';
        done(&b, fill, g_esc, w, r, failed);
    }
    CHECK(vh_live == 0, "nothing is lost");
    REACH("done");
}
void h_plain(void)
{
    for (int n = 0; n < 3; n++) for (int fill = 0; fill < 8; fill++) for (int f = 0; f < 2; f++) {
        dyn_buf_t b; start(&b, fill); static const char *T[] = {"", "x", "xyzuvwab0"}; static const int L[] = {0, 1, 9};
        vh_fail_point(f ? 0 : -1); int r = dyn_buf_append(&b, T[n]); int failed = vh_alloc_failed; vh_fail_point(-1);
        done(&b, fill, T[n], L[n], r, failed);
        start(&b, fill); char c = "?\"\n"[n];
        vh_fail_point(f ? 0 : -1); r = dyn_buf_append_char(&b, c); failed = vh_alloc_failed; vh_fail_point(-1);
        done(&b, fill, &c, 1, r, failed);
        start(&b, fill); char *t = dyn_buf_finalize(&b); CHECK(t && t[fill] == 0 && b.buffer == NULL && b.capacity == 0, "handed over"); for (int i = 0; i < fill; i++) CHECK(t[i] == 'p', "as built"); free(t);
    }
    for (int f = -1; f < 2; f++) { dyn_buf_t b; vh_fail_point(f); int r = dyn_buf_init(&b, 3); CHECK((r == 0) == !vh_alloc_failed, "started unless there is no memory"); vh_fail_point(-1); if (r == 0) { CHECK(b.length == 0 && b.buffer[0] == 0 && b.capacity >= 3, "empty"); b.buffer[b.capacity - 1] = 0; } dyn_buf_free(&b); }
    CHECK(vh_live == 0, "nothing is lost");
    REACH("done");
}
