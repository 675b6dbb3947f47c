/* Strings of any length.  Two strings A and B are described by their lengths
 * and by the position of their first difference; the string functions below
 * are given by contract in these terms (their result for all lengths at once,
 * no loop).  Strings the harness did not register are handled byte by byte.
 * In the native replay real strings with the same lengths and first difference
 * are built and the C library is used. */
#ifndef VH_STR_H
#define VH_STR_H
#include "vh.h"
static char *vh_A, *vh_B; static size_t vh_LA, vh_LB, vh_D; /* vh_D: length of the common prefix */
static bool vh_equal_AB(void) { return vh_LA == vh_LB && vh_D == vh_LA; }
static void vh_two_strings(const char *na, const char *nb, size_t max)
{
    vh_LA = in_size(na); vh_LB = in_size(nb); vh_D = in_size("common");
    ASSUME(vh_LA <= max && vh_LB <= max && vh_D <= vh_LA && vh_D <= vh_LB);
#ifdef REPLAY
    vh_A = (vh_malloc)(vh_LA + 1); vh_B = (vh_malloc)(vh_LB + 1);
    if (!vh_A || !vh_B) vh_stop("no memory for the strings");
    for (size_t i = 0; i < vh_LA; i++) vh_A[i] = i < vh_D ? 'c' : 'a';
    for (size_t i = 0; i < vh_LB; i++) vh_B[i] = i < vh_D ? 'c' : 'b';
    vh_A[vh_LA] = 0; vh_B[vh_LB] = 0;
#else
    vh_A = (vh_malloc)(vh_LA + 1); vh_B = (vh_malloc)(vh_LB + 1);
    vh_A[vh_LA] = 0; vh_B[vh_LB] = 0;
    if (vh_D < vh_LA) ASSUME(vh_A[vh_D] != 0);
    if (vh_D < vh_LB) ASSUME(vh_B[vh_D] != 0);
    if (vh_D < vh_LA || vh_D < vh_LB) ASSUME(vh_A[vh_D] != vh_B[vh_D]);
#endif
}
#ifndef REPLAY
static size_t vh_spec_strlen(const char *s)
{
    if (vh_A && s == vh_A) return vh_LA;
    if (vh_B && s == vh_B) return vh_LB;
    size_t n = 0;
    while (s[n]) n++;
    return n;
}
static int vh_sign(bool zero) { int r = in_i32("cmp"); ASSUME((r == 0) == zero); return r; }
static bool vh_pair(const void *a, const void *b) { return vh_A && ((a == vh_A && b == vh_B) || (a == vh_B && b == vh_A)); }
static int vh_spec_strcmp(const char *a, const char *b)
{
    if (vh_pair(a, b)) return vh_sign(vh_equal_AB());
    if (a == b) return 0;
    for (size_t i = 0;; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; }
}
static int vh_spec_strncmp(const char *a, const char *b, size_t n)
{
    if (vh_pair(a, b)) return vh_sign(n <= vh_D || vh_equal_AB());
    for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; }
    return 0;
}
static int vh_spec_memcmp(const void *x, const void *y, size_t n)
{
    const char *a = x, *b = y;
    if (vh_pair(a, b)) {
        CHECK(n <= vh_LA + 1 && n <= vh_LB + 1, "comparison stays inside both strings");
        return vh_sign(n <= vh_D || (vh_equal_AB() && n == vh_D + 1));
    }
    for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i];
    return 0;
}
#define strlen(s) vh_spec_strlen(s)
#define strcmp(a, b) vh_spec_strcmp(a, b)
#define strncmp(a, b, n) vh_spec_strncmp(a, b, n)
#define memcmp(a, b, n) vh_spec_memcmp(a, b, n)
#endif
#endif
