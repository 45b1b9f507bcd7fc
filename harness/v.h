/* Harness vocabulary: one source, two modes.
 * VERIF_CBMC  : nondeterministic values and assertions decided by the solver.
 * otherwise   : native replay; values are read from the file named by V_INPUT.  */
#ifndef V_H
#define V_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <sys/types.h>

#ifdef __cplusplus
extern "C" {
#endif
uint64_t nd_raw(void);
void v_fail(const char *t, const char *file, int line);
void v_vacuous(const char *file, int line);
void v_witness(const char *t);
#ifdef __cplusplus
}
#endif
#define nd_u8() ((uint8_t)nd_raw())
#define nd_char() ((char)(uint8_t)nd_raw())
#define nd_int() ((int)(uint32_t)nd_raw())
#define nd_u32() ((uint32_t)nd_raw())
#define nd_u64() (nd_raw())
#define nd_size() ((size_t)nd_raw())
#define nd_long() ((long)nd_raw())
#define nd_bool() ((bool)(nd_raw() & 1))

#ifdef VERIF_CBMC
#define VASSERT(c, t) __CPROVER_assert((c), t)
#define VASSUME(c) __CPROVER_assume(c)
#define VWITNESS(t) __CPROVER_assert(0, "WITNESS " t)
#else
#define VASSERT(c, t) do { if (!(c)) v_fail(t, __FILE__, __LINE__); } while (0)
#define VASSUME(c) do { if (!(c)) v_vacuous(__FILE__, __LINE__); } while (0)
#define VWITNESS(t) v_witness(t)
#endif

#ifdef __cplusplus
extern "C" {
#endif
#ifndef VERIF_CBMC
/* n in [lo, hi], one path per value */
size_t nd_pick(size_t lo, size_t hi);
#endif
/* n in [lo, hi] */
static inline size_t nd_range(size_t lo, size_t hi) {
  size_t n = nd_size();
  VASSUME(n >= lo && n <= hi);
  return n;
}
/* fresh buffer of exactly n bytes with arbitrary content (not counted in v_live) */
uint8_t *nd_buf(size_t n);
/* fresh NUL-terminated text of exactly n characters, none of them NUL */
char *nd_text(size_t n);

/* allocation accounting and fault injection */
extern int v_live;          /* allocations made by code under test and not yet freed */
extern int v_alloc_n;       /* allocation calls so far */
extern int v_oom_at;        /* which allocation call fails (0: none) */
extern bool v_oom_hit;
void *v_malloc(size_t n);
void *v_calloc(size_t n, size_t m);
void *v_realloc(void *p, size_t n);
void *v_malloc_c(size_t n);
void *v_calloc_c(size_t n, size_t m);
void v_free(void *p);
char *v_strdup(const char *s);
char *v_strndup(const char *s, size_t n);
#ifndef V_CAP
#define V_CAP 64
#endif
#ifndef V_HAVE_CAP
#define V_HAVE_CAP 0
#endif
#define V_CAPSZ ((V_CAP + 12) | 1)
/* note: the text at d has exactly l characters (checked wherever it is used) */
#ifdef VERIF_CBMC
void v_text_end(const char *d, size_t l);
#else
#define v_text_end(d, l)
#endif
/* not counted */
void *u_malloc(size_t n);
void u_free(void *p);
#ifdef __cplusplus
}
#endif

#endif
