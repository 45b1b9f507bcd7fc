/* C09: byte arrays and ordered lists are faithful deep copies */
#include "v.h"
#ifdef ONE /* one length per path */
#define EACH_N(n) for (size_t n = nd_pick(NMIN, NMAX), once_ = 1; once_; once_ = 0)
#else
#define EACH_N(n) for (size_t n = NMIN; n <= NMAX; n++)
#endif
#include <string.h>
#include "voucher/array.h"
#include "voucher/keyvalue.h"
#ifndef NMAX
#define NMAX 8
#endif
#ifndef K
#define K 3
#endif

#ifndef NMIN
#define NMIN 0
#endif
void h_copy(void) {
  EACH_N(n) {
    struct BinaryArray s = {nd_buf(n), n}, d = {(uint8_t *)&s, (size_t)nd_raw()};
    uint8_t keep[NMAX + 1];
    for (size_t i = 0; i < n; i++) keep[i] = s.array[i];
    v_oom_at = 0; v_alloc_n = 0;
    VASSERT(copy_binary_array(&d, &s) == 0, "copying succeeds");
    VASSERT(d.length == n && d.array != NULL, "same length");
    VASSERT(s.length == n, "source unchanged");
    if (n) VASSERT(d.array != s.array, "independent storage");
    for (size_t i = 0; i < n; i++) VASSERT(d.array[i] == keep[i] && s.array[i] == keep[i], "same bytes");
    if (n) { s.array[0] ^= 1; VASSERT(d.array[0] == keep[0], "independent of the source"); }
    VASSERT(v_live == 1, "one allocation");
    free_binary_array_content(&d);
    VASSERT(v_live == 0 && d.array == NULL && d.length == 0, "content released, array empty");
    free_binary_array_content(&d);
    VASSERT(v_live == 0, "releasing an empty array does nothing");
    v_alloc_n = 0; v_oom_at = 1;
    VASSERT(copy_binary_array(&d, &s) < 0, "no memory is an error");
    VASSERT(d.array == NULL && d.length == 0 && v_live == 0, "nothing in the copy then");
    v_oom_at = 0;
    VASSERT(copy_binary_array(NULL, &s) < 0 && copy_binary_array(&d, NULL) < 0, "missing array is an error");
    u_free(s.array);
  }
  struct BinaryArray none = {NULL, 0}, d;
  VASSERT(copy_binary_array(&d, &none) < 0, "an array without bytes cannot be copied");
  struct BinaryArray *b = init_binary_array();
  VASSERT(b != NULL && b->array == NULL && b->length == 0 && v_live == 1, "new array is empty");
  uint8_t *one = nd_buf(2);
  struct BinaryArray src = {one, 2};
  VASSERT(copy_binary_array(b, &src) == 0 && v_live == 2, "copied");
  free_binary_array(b);
  VASSERT(v_live == 0, "array and content released");
  free_binary_array(NULL);
  free_binary_array_content(NULL);
  u_free(one);
  VWITNESS("copied");
}
void h_compare(void) {
  EACH_N(n)
    for (size_t m = n > 2 ? n - 2 : 0; m <= n + 1; m++) {
      struct BinaryArray a = {nd_buf(n), n}, b = {nd_buf(m), m};
      bool eq = n == m;
      for (size_t i = 0; i < n && i < m; i++) if (a.array[i] != b.array[i]) eq = false;
      VASSERT(compare_binary_array(&a, &b) == (eq ? 1 : 0), "equal exactly when lengths and bytes agree");
      VASSERT(compare_binary_array(NULL, &b) < 0 && compare_binary_array(&a, NULL) < 0, "missing array is an error");
      VASSERT(a.length == n && b.length == m, "arguments unchanged");
#ifdef NONALIASED
#endif
      if (n == NMAX && m == NMAX && eq) VWITNESS("equal");
      if (n == NMAX && m == NMAX && !eq) VWITNESS("different");
      u_free(a.array); u_free(b.array);
    }
}
/* K pushes with lengths given by LENS; then the list is read back */
#ifndef LENS
#define LENS {2, 0, 3, 1}
#endif
static const size_t L[] = LENS;
void h_alist(void) {
  struct BinaryArrayList *l = init_array_list();
  VASSERT(l != NULL && dl_list_len(&l->list) == 0, "new list is empty");
  uint8_t keep[K][8];
  int fl[K];
  for (int i = 0; i < K; i++) {
    uint8_t *p = nd_buf(L[i]);
    fl[i] = nd_int();
    for (size_t j = 0; j < L[i]; j++) keep[i][j] = p[j];
    VASSERT(push_array_list(l, p, L[i], fl[i]) == 0, "pushed");
    for (size_t j = 0; j < L[i]; j++) { VASSERT(p[j] == keep[i][j], "argument unchanged"); p[j] ^= 0xFF; }
    u_free(p);
    VASSERT(v_live == 1 + 2 * (i + 1), "one element and one copy per push");
  }
  uint8_t x = 0;
  VASSERT(push_array_list(l, NULL, 1, 0) < 0 && push_array_list(NULL, &x, 1, 0) < 0, "missing argument is an error");
  VASSERT(dl_list_len(&l->list) == K, "one element per push");
  struct BinaryArrayList *el;
  int i = 0;
  dl_list_for_each(el, &l->list, struct BinaryArrayList, list) {
    VASSERT(i < K, "no more elements than pushed");
    VASSERT(el->length == L[i] && el->flags == fl[i], "length and flags in push order");
    for (size_t j = 0; j < L[i]; j++) VASSERT(el->arr[j] == keep[i][j], "bytes as pushed");
    i++;
  }
  VASSERT(i == K, "every pushed array is there");
  free_array_list(l);
  VASSERT(v_live == 0, "everything released");
  free_array_list(NULL);
  VWITNESS("listed");
}
void h_alist_oom(void) {
  for (int at = 1; at <= 2 * K + 2; at++) {
    v_alloc_n = 0; v_oom_at = at; v_oom_hit = false;
    struct BinaryArrayList *l = init_array_list();
    if (at == 1) { VASSERT(l == NULL && v_live == 0, "no memory, no list"); continue; }
    VASSERT(l != NULL, "list created");
    int ok = 0;
    for (int i = 0; i < K; i++) {
      uint8_t *p = nd_buf(2);
      bool before = v_oom_hit;
      int r = push_array_list(l, p, 2, i);
      VASSERT((r == 0) == (before == v_oom_hit), "a push fails exactly when an allocation failed");
      if (r == 0) ok++;
      u_free(p);
      VASSERT(v_live == 1 + 2 * ok, "a failed push leaves nothing");
    }
    VASSERT((int)dl_list_len(&l->list) == ok, "only successful pushes are listed");
    free_array_list(l);
    VASSERT(v_live == 0, "everything released");
  }
  VWITNESS("every allocation failed once");
}
void h_klist(void) {
  struct keyvalue_list *l = init_keyvalue_list();
  VASSERT(l != NULL && dl_list_len(&l->list) == 0, "new list is empty");
  char *kk[K], *vv[K];
  for (int i = 0; i < K; i++) {
    kk[i] = nd_text(L[i]); vv[i] = nd_text(L[i + 1]);
    VASSERT(push_keyvalue_list(l, kk[i], vv[i]) == 0, "pushed");
    VASSERT(v_live == 1 + 3 * (i + 1), "one element and two copies per push");
  }
  VASSERT(push_keyvalue_list(l, NULL, vv[0]) < 0 && push_keyvalue_list(l, kk[0], NULL) < 0 && push_keyvalue_list(NULL, kk[0], vv[0]) < 0,
          "missing argument is an error");
  VASSERT(dl_list_len(&l->list) == K, "one element per push");
  struct keyvalue_list *el;
  int i = 0;
  dl_list_for_each(el, &l->list, struct keyvalue_list, list) {
    VASSERT(i < K, "no more elements than pushed");
    VASSERT(el->key != kk[i] && el->value != vv[i], "independent copies");
    for (size_t j = 0; j <= L[i]; j++) VASSERT(el->key[j] == kk[i][j], "key as pushed");
    for (size_t j = 0; j <= L[i + 1]; j++) VASSERT(el->value[j] == vv[i][j], "value as pushed");
    i++;
  }
  VASSERT(i == K, "every pushed pair is there");
  free_keyvalue_list(l);
  VASSERT(v_live == 0, "everything released");
  for (int j = 0; j < K; j++) { u_free(kk[j]); u_free(vv[j]); }
  free_keyvalue_list(NULL);
  VWITNESS("listed");
}
void h_klist_oom(void) {
  for (int at = 1; at <= 3 * K + 2; at++) {
    v_alloc_n = 0; v_oom_at = at; v_oom_hit = false;
    struct keyvalue_list *l = init_keyvalue_list();
    if (at == 1) { VASSERT(l == NULL && v_live == 0, "no memory, no list"); continue; }
    VASSERT(l != NULL, "list created");
    int ok = 0;
    for (int i = 0; i < K; i++) {
      char *k = nd_text(1), *v = nd_text(2);
      bool before = v_oom_hit;
      int r = push_keyvalue_list(l, k, v);
      VASSERT((r == 0) == (before == v_oom_hit), "a push fails exactly when an allocation failed");
      if (r == 0) ok++;
      u_free(k); u_free(v);
      VASSERT(v_live == 1 + 3 * ok, "a failed push leaves nothing");
    }
    VASSERT((int)dl_list_len(&l->list) == ok, "only successful pushes are listed");
    free_keyvalue_list(l);
    VASSERT(v_live == 0, "everything released");
  }
  VWITNESS("every allocation failed once");
}
