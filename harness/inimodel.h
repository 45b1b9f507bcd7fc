/* the configuration file library as its contract: a file is a sequence of (section, key, value) lines; sections and keys are found
 * whatever their letter case, the first line of a key counts, and browsing goes through every line in order */
#ifndef INIMODEL_H
#define INIMODEL_H
#include <string.h>
#include <strings.h>
#include <stdlib.h>
#include "v.h"
struct ini_line { const char *s, *k, *v; };
static struct ini_line ini[160];
static int ini_n;
static char *ini_name;
static void ini_file(const char *f) { VASSERT(f != NULL && strcmp(f, ini_name) == 0, "the given configuration file is read"); }
static const char *ini_find(const char *s, const char *k) {
  if (k == NULL) return NULL;
  for (int i = 0; i < ini_n; i++) if (strcasecmp(ini[i].s, s ? s : "") == 0 && strcasecmp(ini[i].k, k) == 0) return ini[i].v;
  return NULL;
}
static int ini_copy(char *d, const char *s, int n) {
  VASSERT(d != NULL && n > 0, "a buffer for the value");
  int l = 0;
  while (l < n - 1 && s[l]) { d[l] = s[l]; l++; }
  d[l] = 0;
  return l;
}
int ini_gets(const char *s, const char *k, const char *def, char *b, int n, const char *f) { ini_file(f); const char *v = ini_find(s, k); return ini_copy(b, v ? v : def ? def : "", n); }
long ini_getl(const char *s, const char *k, long def, const char *f) {
  ini_file(f);
  const char *v = ini_find(s, k);
  return v == NULL || *v == 0 ? def : v[0] && (v[1] == 'x' || v[1] == 'X') ? strtol(v, NULL, 16) : strtol(v, NULL, 10);
}
int ini_getbool(const char *s, const char *k, int def, const char *f) {
  ini_file(f);
  const char *v = ini_find(s, k);
  if (v == NULL) return def;
  if (strchr("Yy1Tt", v[0]) && v[0]) return 1;
  return strchr("Nn0Ff", v[0]) && v[0] ? 0 : def;
}
int ini_getkey(const char *s, int idx, char *b, int n, const char *f) {
  ini_file(f);
  for (int i = 0; i < ini_n; i++) if (strcasecmp(ini[i].s, s ? s : "") == 0 && idx-- == 0) return ini_copy(b, ini[i].k, n);
  return ini_copy(b, "", n);
}
int ini_hassection(const char *s, const char *f) { ini_file(f); for (int i = 0; i < ini_n; i++) if (strcasecmp(ini[i].s, s) == 0) return 1; return 0; }
int ini_haskey(const char *s, const char *k, const char *f) { ini_file(f); return ini_find(s, k) != NULL; }
int ini_browse(int (*cb)(const char *, const char *, const char *, void *), void *u, const char *f) {
  ini_file(f);
  for (int i = 0; i < ini_n; i++) if (!cb(ini[i].s, ini[i].k, ini[i].v, u)) break;
  return 1;
}
#endif
