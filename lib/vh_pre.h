/* Forced before every file of a harness build, after the build's own
 * compatibility header.  It pulls in the system headers first and then routes
 * the few libc entry points whose result is nondeterministic (allocator,
 * clock) through functions of the harness library, so that the verifier and
 * the native replay see the same sequence of outcomes.  Nothing else of the
 * code under verification is changed. */
#ifndef VH_PRE_H
#define VH_PRE_H
#include <assert.h>
#include <ctype.h>
#include <errno.h>
#include <limits.h>
#include <math.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <time.h>
#include <sys/time.h>
#include <sys/socket.h>
#include <unistd.h>

void *vh_malloc(size_t n);
void *vh_calloc(size_t n, size_t s);
void *vh_realloc(void *p, size_t n);
void vh_free(void *p);
char *vh_strdup(const char *s);
time_t vh_time(time_t *t);

#ifndef VH_IMPL
#define malloc(n) vh_malloc(n)
#define calloc(n, s) vh_calloc((n), (s))
#define realloc(p, n) vh_realloc((p), (n))
#define free(p) vh_free(p)
#undef strdup
#define strdup(s) vh_strdup(s)
#define time(t) vh_time(t)
#ifndef REPLAY
int vh_snprintf(char *b, size_t n, const char *f, ...);
int vh_sprintf(char *b, const char *f, ...);
int vh_vsnprintf(char *b, size_t n, const char *f, va_list ap);
#undef snprintf
#undef sprintf
#undef vsnprintf
#define snprintf vh_snprintf
#define sprintf vh_sprintf
#define vsnprintf vh_vsnprintf
#endif
#endif
#endif
