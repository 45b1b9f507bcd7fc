/* C04: key-value lists -> JSON object text. NP pairs, key lengths KL.., value lengths VL.. */
#include "v.h"
#include <string.h>
#include "voucher/serialize.h"
#include "voucher/keyvalue.h"
#ifndef NP
#define NP 2
#endif
#ifndef ML
#define ML 2
#endif
#ifndef LENS
#define LENS {1, 1, 1, 1, 1, 1}
#endif
static const size_t L[] = LENS;

void h_json(void) {
  char *k[NP], *v[NP];
  size_t kl[NP], vl[NP], total = 2;
  struct keyvalue_list *l = init_keyvalue_list();
  VASSERT(l != NULL, "list created");
  for (int i = 0; i < NP; i++) {
    kl[i] = L[2 * i]; vl[i] = L[2 * i + 1];
    k[i] = nd_text(kl[i]); v[i] = nd_text(vl[i]);
    VASSERT(push_keyvalue_list(l, k[i], v[i]) == 0, "pair pushed");
    total += kl[i] + vl[i] + 1 + (i + 1 < NP ? 1 : 0);
  }
  VASSERT(v_live == 1 + 3 * NP, "list holds one element and two copies per pair");
  char *json = serialize_keyvalue2json(l);
  VASSERT(json != NULL, "a non-empty list is serialised");
  VASSERT(json[0] == '{', "opens with a brace");
  size_t at = 1;
  for (int i = 0; i < NP; i++) {
    for (size_t j = 0; j < kl[i]; j++) VASSERT(json[at + j] == k[i][j], "key text in place");
    at += kl[i];
    VASSERT(json[at] == ':', "colon"); at++;
    for (size_t j = 0; j < vl[i]; j++) VASSERT(json[at + j] == v[i][j], "value text in place");
    at += vl[i];
    if (i + 1 < NP) { VASSERT(json[at] == ',', "comma between pairs"); at++; }
  }
  VASSERT(json[at] == '}', "closes with a brace");
  VASSERT(json[at + 1] == 0, "terminated");
  VASSERT(at + 1 == total, "length");
#ifdef VERIF_CBMC
  VASSERT(__CPROVER_OBJECT_SIZE(json) - __CPROVER_POINTER_OFFSET(json) == total + 1, "buffer holds exactly the text");
#endif
  VASSERT(v_live == 2 + 3 * NP, "only the text is allocated");
  v_free(json);
  free_keyvalue_list(l);
  VASSERT(v_live == 0, "everything is released");
  for (int i = 0; i < NP; i++) { u_free(k[i]); u_free(v[i]); }
  VWITNESS("serialised");
}
/* a failing allocation anywhere: error, nothing leaked */
void h_json_oom(void) {
#ifdef ONE
  for (int at = (int)nd_pick(1, 2 * NP + 3), once_ = 1; once_; once_ = 0) {
#else
  for (int at = 1; at <= 2 * NP + 3; at++) {
#endif
    struct keyvalue_list *l = init_keyvalue_list();
    for (int i = 0; i < NP; i++) {
      char *k = nd_text(L[2 * i]), *v = nd_text(L[2 * i + 1]);
      VASSERT(push_keyvalue_list(l, k, v) == 0, "pair pushed");
      u_free(k); u_free(v);
    }
    int before = v_live;
    v_alloc_n = 0; v_oom_at = at; v_oom_hit = false;
    char *json = serialize_keyvalue2json(l);
    VASSERT((json == NULL) == v_oom_hit, "a failing allocation is an error, and only that");
    VASSERT(v_live == before + (json ? 1 : 0), "nothing leaked");
    if (at == 1) VASSERT(v_oom_hit, "the first allocation can fail");
    if (json) v_free(json);
    v_oom_at = 0;
    free_keyvalue_list(l);
    VASSERT(v_live == 0, "everything is released");
  }
  VWITNESS("every allocation failed once");
}
void h_quote(void) {
  for (size_t n = 0; n <= ML; n++) {
    char *t = nd_text(n);
    char *q = serialize_escapestr(t);
    VASSERT(q != NULL, "quoted");
    VASSERT(q[0] == '"' && q[n + 1] == '"' && q[n + 2] == 0, "one pair of quotes around the text, terminated");
    for (size_t i = 0; i < n; i++) VASSERT(q[i + 1] == t[i], "text unchanged between the quotes");
    VASSERT(v_live == 1, "only the text is allocated");
    v_free(q);
    VASSERT(v_live == 0, "released");
    v_alloc_n = 0; v_oom_at = 1;
    VASSERT(serialize_escapestr(t) == NULL && v_live == 0, "no memory is an error");
    v_oom_at = 0;
    u_free(t);
  }
  VASSERT(serialize_escapestr(NULL) == NULL, "no text is an error");
  VASSERT(serialize_keyvalue2json(NULL) == NULL, "no list is an error");
  struct keyvalue_list *l = init_keyvalue_list();
  VASSERT(l != NULL && serialize_keyvalue2json(l) == NULL, "an empty list is an error");
  VASSERT(v_live == 1, "nothing leaked");
  free_keyvalue_list(l);
  VASSERT(v_live == 0, "list released");
  VWITNESS("quoted");
}
