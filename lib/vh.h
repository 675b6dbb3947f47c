/* Harness vocabulary.  The same harness is compiled twice: by goto-cc (inputs
 * are unconstrained, CHECK is a proof obligation, ASSUME a precondition) and
 * natively with -DREPLAY (inputs come from the verifier's counterexample). */
#ifndef VH_H
#define VH_H
#include "vh_pre.h"

#ifdef REPLAY
uint64_t vh_next(const char *name, int bytes);
void vh_fail(const char *what, const char *file, int line);
void vh_stop(const char *what);
#define in_u8(n)   ((uint8_t)vh_next(n, 1))
#define in_u16(n)  ((uint16_t)vh_next(n, 2))
#define in_u32(n)  ((uint32_t)vh_next(n, 4))
#define in_u64(n)  ((uint64_t)vh_next(n, 8))
#define in_i32(n)  ((int32_t)vh_next(n, 4))
#define in_i64(n)  ((int64_t)vh_next(n, 8))
#define in_bool(n) ((bool)(vh_next(n, 1) & 1))
#define in_size(n) ((size_t)vh_next(n, 8))
#define in_double(n) vh_bits_double(vh_next(n, 8))
static inline double vh_bits_double(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
#define CHECK(c, what) do { if (!(c)) vh_fail(what, __FILE__, __LINE__); } while (0)
#define ASSUME(c) do { if (!(c)) vh_stop(#c); } while (0)
#define REACH(what) ((void)0)
#define DETACH(what) vh_stop(what)
#else
uint8_t nondet_vh_u8(void); uint16_t nondet_vh_u16(void); uint32_t nondet_vh_u32(void);
uint64_t nondet_vh_u64(void); int32_t nondet_vh_i32(void); int64_t nondet_vh_i64(void);
_Bool nondet_vh_bool(void); size_t nondet_vh_size(void); double nondet_vh_double(void);
#define VH_IN(T, f, n) ({ T vh_v_ = f(); __CPROVER_input(n, vh_v_); vh_v_; })
#define in_u8(n)   VH_IN(uint8_t, nondet_vh_u8, n)
#define in_u16(n)  VH_IN(uint16_t, nondet_vh_u16, n)
#define in_u32(n)  VH_IN(uint32_t, nondet_vh_u32, n)
#define in_u64(n)  VH_IN(uint64_t, nondet_vh_u64, n)
#define in_i32(n)  VH_IN(int32_t, nondet_vh_i32, n)
#define in_i64(n)  VH_IN(int64_t, nondet_vh_i64, n)
#define in_bool(n) VH_IN(_Bool, nondet_vh_bool, n)
#define in_size(n) VH_IN(size_t, nondet_vh_size, n)
#define in_double(n) VH_IN(double, nondet_vh_double, n)
#define CHECK(c, what) __CPROVER_assert((c), "CHECK " what)
#define ASSUME(c) __CPROVER_assume(c)
/* vacuity guard: the verifier must find this point reachable */
#define REACH(what) __CPROVER_assert(0, "REACH " what)
/* the code uses a facility in a way this proof's contracts do not describe:
 * the proof does not attach to this text (not a violation) */
#define DETACH(what) do { __CPROVER_assert(0, "DETACH " what); __CPROVER_assume(0); } while (0)
#endif

/* ghost state of the allocator and clock contracts */
extern int vh_alloc_may_fail;   /* 1: every allocation may fail */
extern long vh_live;            /* successful allocations minus releases */
extern int vh_alloc_failed;     /* number of allocations that failed so far */
extern int vh_fail_at;          /* >=0: exactly the allocation with this number fails */
extern int vh_fail_from;        /* >=0: all allocations from this number on fail */
extern int vh_alloc_no;         /* allocations attempted so far */
/* initial ghost state (harnesses with loop contracts start from arbitrary globals) */
void vh_reset(void);
static inline void vh_fail_point(int k) { vh_fail_at = k; vh_alloc_no = 0; vh_alloc_failed = 0; }
extern int vh_clock_mode;       /* 0: arbitrary, 1: returns vh_now */
extern time_t vh_now;

/* NUL-terminated string of at most cap-1 bytes with arbitrary content */
#ifdef REPLAY
#define IN_STR(name, buf, cap) do { size_t vh_i_; for (vh_i_ = 0; vh_i_ + 1 < (cap); vh_i_++) (buf)[vh_i_] = (char)in_u8(name); (buf)[(cap) - 1] = 0; } while (0)
#else
#define IN_STR(name, buf, cap) do { size_t vh_i_; for (vh_i_ = 0; vh_i_ + 1 < (cap); vh_i_++) (buf)[vh_i_] = (char)in_u8(name); (buf)[(cap) - 1] = 0; } while (0)
#endif

/* exact-size heap copy so that reading one byte past the terminator is seen */
static inline char *vh_heap_str(const char *s, size_t cap)
{
    size_t n = 0;
    while (n + 1 < cap && s[n]) n++;
    char *p = (vh_malloc)(n + 1);
    if (!p) return 0;
    for (size_t i = 0; i < n; i++) p[i] = s[i];
    p[n] = 0;
    return p;
}
static inline bool vh_streq(const char *a, const char *b)
{
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    return a[i] == b[i];
}
#endif
