/* Reference definitions of C library functions the verifier has no body for.
 * Not part of the native build (the real C library is used there). */
#ifndef REPLAY
#define VH_IMPL 1
#include "vh.h"
#undef snprintf
#undef vsnprintf
#undef sprintf

char *strstr(const char *h, const char *n)
{
    if (!n[0]) return (char *)h;
    for (size_t i = 0; h[i]; i++) {
        size_t j = 0;
        while (n[j] && h[i + j] == n[j]) j++;
        if (!n[j]) return (char *)h + i;
    }
    return NULL;
}
static char *vh_tok;
static int vh_in(char c, const char *d) { for (size_t i = 0; d[i]; i++) if (d[i] == c) return 1; return 0; }
char *strtok_r(char *s, const char *d, char **save)
{
    if (!s) s = *save;
    if (!s) return NULL;
    while (*s && vh_in(*s, d)) s++;
    if (!*s) { *save = NULL; return NULL; }
    char *r = s;
    while (*s && !vh_in(*s, d)) s++;
    if (*s) { *s = 0; *save = s + 1; } else *save = NULL;
    return r;
}
char *__strtok_r(char *s, const char *d, char **save) { return strtok_r(s, d, save); }
char *strtok(char *s, const char *d) { return strtok_r(s, d, &vh_tok); }
static int vh_lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(const char *a, const char *b)
{
    for (size_t i = 0;; i++) {
        int x = vh_lower((unsigned char)a[i]), y = vh_lower((unsigned char)b[i]);
        if (x != y) return x - y;
        if (!x) return 0;
    }
}
int strncasecmp(const char *a, const char *b, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        int x = vh_lower((unsigned char)a[i]), y = vh_lower((unsigned char)b[i]);
        if (x != y) return x - y;
        if (!x) return 0;
    }
    return 0;
}
void *memchr(const void *s, int c, size_t n)
{
    const unsigned char *p = s;
    for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i);
    return NULL;
}
size_t strspn(const char *s, const char *d) { size_t i = 0; while (s[i] && vh_in(s[i], d)) i++; return i; }
size_t strcspn(const char *s, const char *d) { size_t i = 0; while (s[i] && !vh_in(s[i], d)) i++; return i; }
char *strpbrk(const char *s, const char *d) { size_t i = strcspn(s, d); return s[i] ? (char *)s + i : NULL; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }

/* formatted output; doubles are delegated to a hook a harness may define */
__attribute__((weak)) int vh_fmt_double(char *out, double v, const char *spec);
/* the verifier does not promote variadic arguments: take them in their own size */
#define VH_ARG(T, T1, T2) (__CPROVER_OBJECT_SIZE(*(void **)ap) == 1 ? (T)va_arg(ap, T1) : __CPROVER_OBJECT_SIZE(*(void **)ap) == 2 ? (T)va_arg(ap, T2) : va_arg(ap, T))
#define PUT(c) do { if (pos + 1 < n) buf[pos] = (char)(c); pos++; } while (0)
int vh_vsnprintf(char *buf, size_t n, const char *f, va_list ap)
{
    size_t pos = 0;
    for (size_t i = 0; f[i]; i++) {
        if (f[i] != '%') { PUT(f[i]); continue; }
        i++;
        int zero = 0, width = 0, prec = -1, lng = 0;
        while (f[i] == '0' || f[i] == '-') { if (f[i] == '0') zero = 1; i++; }
        while (f[i] >= '0' && f[i] <= '9') { width = width * 10 + (f[i] - '0'); i++; }
        if (f[i] == '*') { width = va_arg(ap, int); i++; }
        if (f[i] == '.') {
            i++; prec = 0;
            if (f[i] == '*') { prec = va_arg(ap, int); i++; }
            while (f[i] >= '0' && f[i] <= '9') { prec = prec * 10 + (f[i] - '0'); i++; }
        }
        while (f[i] == 'l' || f[i] == 'z' || f[i] == 'h' || f[i] == 'j') { if (f[i] != 'h') lng = 1; i++; }
        if (f[i] == '%') { PUT('%'); }
        else if (f[i] == 'c') { int c = va_arg(ap, int); PUT(c); }
        else if (f[i] == 's') {
            const char *s = va_arg(ap, const char *);
            if (!s) s = "(null)";
            for (size_t k = 0; (prec < 0 || k < (size_t)prec) && s[k]; k++) PUT(s[k]);
        } else if (f[i] == 'd' || f[i] == 'i' || f[i] == 'u' || f[i] == 'x' || f[i] == 'X' || f[i] == 'p') {
            uint64_t v; int neg = 0;
            if (f[i] == 'x' && zero && width == 2 && !lng && __CPROVER_OBJECT_SIZE(*(void **)ap) == 1) {
                /* a byte in hex: fixed number of characters */
                unsigned b = va_arg(ap, unsigned char);
                PUT((b >> 4) < 10 ? '0' + (b >> 4) : 'a' + (b >> 4) - 10);
                PUT((b & 15) < 10 ? '0' + (b & 15) : 'a' + (b & 15) - 10);
                continue;
            }
            if (f[i] == 'p') { v = (uint64_t)va_arg(ap, void *); }
            else if (f[i] == 'd' || f[i] == 'i') {
                int64_t sv = lng ? va_arg(ap, int64_t) : (int64_t)VH_ARG(int, signed char, short);
                neg = sv < 0; v = neg ? (uint64_t)0 - (uint64_t)sv : (uint64_t)sv;
            } else v = lng ? va_arg(ap, uint64_t) : VH_ARG(unsigned, unsigned char, unsigned short);
            unsigned base = (f[i] == 'x' || f[i] == 'X' || f[i] == 'p') ? 16 : 10;
            char tmp[24]; int k = 0;
            do { unsigned dgt = (unsigned)(v % base); tmp[k++] = (char)(dgt < 10 ? '0' + dgt : (f[i] == 'X' ? 'A' : 'a') + dgt - 10); v /= base; } while (v && k < 22);
            if (neg) PUT('-');
            for (int w = k + neg; w < width; w++) PUT(zero ? '0' : ' ');
            while (k > 0) { k--; PUT(tmp[k]); }
        } else if (f[i] == 'f' || f[i] == 'g' || f[i] == 'e' || f[i] == 'G') {
            char tmp[40];
            int k = vh_fmt_double(tmp, va_arg(ap, double), f);
            for (int q = 0; q < k; q++) PUT(tmp[q]);
        } else { __CPROVER_assert(0, "DETACH format specifier without a model"); }
    }
    if (n > 0) buf[pos < n ? pos : n - 1] = 0;
    return (int)pos;
}
int vh_snprintf(char *b, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vh_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int vh_sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vh_vsnprintf(b, (size_t)1 << 30, f, ap); va_end(ap); return r; }
#endif
