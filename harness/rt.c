/* run-time of the harnesses; compiled without the allocator renaming */
#include "v.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

int v_live, v_alloc_n, v_oom_at;
bool v_oom_hit;

#ifdef VERIF_CBMC
uint64_t nondet_u64(void);
uint64_t nd_raw(void) {
  uint64_t nd_val = nondet_u64();
  return nd_val;
}
#define RAW_FILL(p, n)
#elif defined(VERIF_SX)
#define RAW_FILL(p, n)
#else
static FILE *in;
static int fill = -1;
uint64_t nd_raw(void) {
  unsigned long long v = 0;
  if (!in) {
    const char *f = getenv("V_INPUT");
    in = f ? fopen(f, "r") : NULL;
    if (!in) { fprintf(stderr, "V_INPUT missing\n"); exit(78); }
  }
  if (fscanf(in, "%llu", &v) != 1) return 0;
  return v;
}
void v_fail(const char *t, const char *file, int line) {
  printf("ASSERT-FAILED %s (%s:%d)\n", t, file, line);
  fflush(stdout);
  _Exit(97);
}
void v_vacuous(const char *file, int line) {
  printf("ASSUMPTION-NOT-MET %s:%d\n", file, line);
  fflush(stdout);
  _Exit(77);
}
void v_witness(const char *t) { printf("WITNESS %s\n", t); fflush(stdout); }
static void raw_fill(void *p, size_t n) {
  if (fill < 0) { const char *f = getenv("V_FILL"); fill = f ? atoi(f) : 0xA5; }
  memset(p, fill, n);
}
#define RAW_FILL(p, n) raw_fill(p, n)
#endif

static bool v_oom(void) {
  v_alloc_n++;
  if (v_oom_at != 0 && v_alloc_n == v_oom_at) {
    v_oom_hit = true;
    return true;
  }
  return false;
}
#ifdef VERIF_SX
void *u_malloc(size_t n);
void *u_calloc1(size_t n);
void u_free(void *p);
size_t u_size(void *p);
#define malloc u_malloc
#define calloc(n, m) u_calloc1((n) * (m))
#define free u_free
#endif
void *v_malloc(size_t n) {
  if (v_oom()) return NULL;
  void *p = malloc(n);
#ifdef VERIF_CBMC
  __CPROVER_assume(p != NULL);
#endif
  RAW_FILL(p, n);
  v_live++;
  return p;
}
void *v_calloc(size_t n, size_t m) {
  if (v_oom()) return NULL;
  void *p = calloc(n, m);
#ifdef VERIF_CBMC
  __CPROVER_assume(p != NULL);
#endif
  v_live++;
  return p;
}
#ifndef V_HAVE_CAP
#define V_HAVE_CAP 0
#endif
#ifndef V_CAP
#define V_CAP 64
#endif
#ifdef VERIF_CBMC
/* Byte buffers of symbolic size ("capacity" allocations): one object of constant
 * size V_CAPSZ, the block placed so that it ENDS at the end of the object. Any
 * access past the end is out of bounds of the object; the 4 bytes before the
 * block are canaries checked when it is freed. Keeps the solver away from
 * arrays of symbolic size. */
void *v_malloc_c(size_t n) {
  if (v_oom()) return NULL;
  __CPROVER_assert(n <= V_CAP, "BOUND allocation within the modelled capacity");
  __CPROVER_assume(n <= V_CAP);
  if (n == 0) {
    uint8_t *z = malloc(0);
    __CPROVER_assume(z != NULL);
    v_live++;
    return z;
  }
  uint8_t *b = malloc(V_CAPSZ);
  __CPROVER_assume(b != NULL);
  uint8_t *p = b + (V_CAPSZ - n);
  b[0] = 0; b[1] = 0; /* offset of the known text terminator, 0: unknown */
  p[-1] = 0xC5; p[-2] = 0xC5; p[-3] = 0xC5; p[-4] = 0xC5;
  v_live++;
  return p;
}
void *v_calloc_c(size_t n, size_t m) {
  uint8_t *p = v_malloc_c(n * m);
  if (p == NULL) return NULL;
  uint8_t *b = p - __CPROVER_POINTER_OFFSET(p);
  for (size_t i = 12; i < V_CAPSZ; i++)
    if (i >= V_CAPSZ - n * m) b[i] = 0;
  return p;
}
void v_free(void *p) {
  if (p == NULL) return;
  v_live--;
  if (V_HAVE_CAP && __CPROVER_OBJECT_SIZE(p) == V_CAPSZ) {
    uint8_t *q = p;
    __CPROVER_assert(__CPROVER_POINTER_OFFSET(p) >= 12, "freed pointer is the start of a block");
    __CPROVER_assert(q[-1] == 0xC5 && q[-2] == 0xC5 && q[-3] == 0xC5 && q[-4] == 0xC5,
                     "nothing written before the block, freed pointer is its start");
    p = q - __CPROVER_POINTER_OFFSET(p);
  }
  free(p);
}
#else
void *v_malloc_c(size_t n) { return v_malloc(n); }
void *v_calloc_c(size_t n, size_t m) { return v_calloc(n, m); }
void v_free(void *p) {
  if (p != NULL) v_live--;
  free(p);
}
#endif
#ifndef V_OWN_REALLOC
#ifdef VERIF_CBMC
void *v_realloc(void *p, size_t n) {
  if (p == NULL) return v_malloc(n);
  if (v_oom()) return NULL;
  if (V_HAVE_CAP && __CPROVER_OBJECT_SIZE(p) == V_CAPSZ) {
    __CPROVER_assert(n <= V_CAP, "BOUND allocation within the modelled capacity");
    __CPROVER_assume(n <= V_CAP);
    uint8_t *b = malloc(V_CAPSZ), *q = p;
    __CPROVER_assume(b != NULL);
    size_t old = V_CAPSZ - __CPROVER_POINTER_OFFSET(p);
    uint8_t *d = b + (V_CAPSZ - n);
    b[0] = 0; b[1] = 0;
    d[-1] = 0xC5; d[-2] = 0xC5; d[-3] = 0xC5; d[-4] = 0xC5;
    for (size_t i = 0; i < V_CAP; i++) if (i < n && i < old) d[i] = q[i];
    {
      uint8_t *ob = q - (V_CAPSZ - old);
      size_t g = (size_t)ob[0] | (size_t)ob[1] << 8; /* the text keeps its length */
      if (g != 0 && g - (V_CAPSZ - old) < n) {
        size_t ng = V_CAPSZ - n + (g - (V_CAPSZ - old));
        b[0] = (uint8_t)ng; b[1] = (uint8_t)(ng >> 8);
      }
    }
    v_live++;
    v_free(p);
    return d;
  }
  void *d = realloc(p, n);
  __CPROVER_assume(d != NULL);
  return d;
}
#elif defined(VERIF_SX)
void *v_realloc(void *p, size_t n) {
  if (p == NULL) return v_malloc(n);
  if (v_oom()) return NULL;
  size_t o = u_size(p);
  void *d = u_malloc(n);
  memcpy(d, p, o < n ? o : n);
  u_free(p);
  return d;
}
#else
void *v_realloc(void *p, size_t n) {
  if (v_oom()) return NULL;
  if (p == NULL) v_live++;
  return realloc(p, n);
}
#endif
#endif
char *v_strndup(const char *s, size_t n) {
  size_t l = strnlen(s, n);
#ifdef VERIF_CBMC
  char *d = V_HAVE_CAP ? v_malloc_c(l + 1) : v_malloc(l + 1);
#else
  char *d = v_malloc(l + 1);
#endif
  if (d == NULL) return NULL;
  memcpy(d, s, l);
  d[l] = 0;
  v_text_end(d, l);
  return d;
}
char *v_strdup(const char *s) { return v_strndup(s, strlen(s)); }
#ifndef VERIF_SX
void *u_malloc(size_t n) { return malloc(n); }
void u_free(void *p) {
#ifdef VERIF_CBMC
  if (V_HAVE_CAP && p != NULL && __CPROVER_OBJECT_SIZE(p) == V_CAPSZ) p = (uint8_t *)p - __CPROVER_POINTER_OFFSET(p);
#endif
  free(p);
}
uint8_t *nd_buf(size_t n) {
  uint8_t *b = malloc(n);
#ifdef VERIF_CBMC
  __CPROVER_assume(b != NULL);
#endif
  for (size_t i = 0; i < n; i++) b[i] = (uint8_t)nd_raw();
  return b;
}
char *nd_text(size_t n) {
#ifdef VERIF_CBMC
  char *b;
  if (V_HAVE_CAP && n + 1 <= V_CAP) {
    uint8_t *o = malloc(V_CAPSZ);
    __CPROVER_assume(o != NULL);
    b = (char *)o + (V_CAPSZ - 1 - n);
    o[0] = (uint8_t)(V_CAPSZ - 1); o[1] = (uint8_t)((V_CAPSZ - 1) >> 8);
  } else {
    b = malloc(n + 1);
    __CPROVER_assume(b != NULL);
  }
#else
  char *b = malloc(n + 1);
#endif
  for (size_t i = 0; i < n; i++) {
    uint8_t c = (uint8_t)nd_raw();
    VASSUME(c != 0);
    b[i] = (char)c;
  }
  b[n] = 0;
  return b;
}
#endif
/* C++ allocation */
void *v_new(size_t n) {
  void *p = u_malloc(n);
  v_live++;
  RAW_FILL(p, n);
  return p;
}
void v_delete(void *p) { v_free(p); }
void v_delete_sz(void *p, size_t n) { (void)n; v_free(p); }
#if !defined(VERIF_CBMC) && !defined(VERIF_SX)
size_t nd_pick(size_t lo, size_t hi) {
  size_t n = nd_raw();
  if (n < lo || n > hi) v_vacuous(__FILE__, __LINE__);
  return n;
}
__attribute__((weak)) void log_levels(uint8_t l, const char *f, uint32_t n, const char *m, ...) { (void)l; (void)f; (void)n; (void)m; }
__attribute__((weak)) void log_errno_error(uint8_t l, const char *f, uint32_t n, const char *m, ...) { (void)l; (void)f; (void)n; (void)m; }
void v_stop(void) { printf("COMPLETED\n"); fflush(stdout); _exit(0); }
#define STR2(x) #x
void ENTRY(void);
int main(void) {
  setvbuf(stdout, NULL, _IONBF, 0);
  ENTRY();
  printf("COMPLETED\n");
  return 0;
}
#endif
