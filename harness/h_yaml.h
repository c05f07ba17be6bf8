// An input file: a tree of symbolic values in the symbolic build, a real YAML file in the replay.
#pragma once
#include "h_common.h"
#include "gals/input-parser.h"
#include <stdio.h>
#include <string>
#include <vector>
#ifndef VF_SYMBOLIC
struct vf_yaml {
  enum Kind { MAP, SEQ, REAL, INT, STR } kind;
  const char *key;
  double d;
  int i;
  const char *s;
  vf_yaml *child[16];
  int n;
};
#endif
struct Doc {
  vf_yaml pool[64];
  int used;
  const char *file;
  explicit Doc(const char *f) : used(0), file(f) { node(vf_yaml::MAP, ""); }
  vf_yaml *root() { return &pool[0]; }
  vf_yaml *node(vf_yaml::Kind k, const char *key)
  {
    vf_yaml *p = &pool[used++];
    p->kind = k;
    p->key = key;
    p->n = 0;
    p->s = "";
    p->d = 0;
    p->i = 0;
    return p;
  }
  vf_yaml *add(vf_yaml *to, vf_yaml *c) { return to->child[to->n++] = c; }
  vf_yaml *map(vf_yaml *to, const char *key) { return add(to, node(vf_yaml::MAP, key)); }
  vf_yaml *seq(vf_yaml *to, const char *key) { return add(to, node(vf_yaml::SEQ, key)); }
  void real(vf_yaml *to, const char *key, double v) { add(to, node(vf_yaml::REAL, key))->d = v; }
  void whole(vf_yaml *to, const char *key, int v) { add(to, node(vf_yaml::INT, key))->i = v; }
  void text(vf_yaml *to, const char *key, const char *v) { add(to, node(vf_yaml::STR, key))->s = v; }
#ifndef VF_SYMBOLIC
  static void emit(FILE *f, const vf_yaml *p, int ind)
  {
    switch (p->kind) {
      case vf_yaml::REAL: fprintf(f, "%.17g\n", p->d); break;
      case vf_yaml::INT: fprintf(f, "%d\n", p->i); break;
      case vf_yaml::STR: fprintf(f, "\"%s\"\n", p->s); break;
      case vf_yaml::SEQ:
        fprintf(f, "\n");
        for (int c = 0; c < p->n; ++c) {
          fprintf(f, "%*s- ", ind, "");
          emit(f, p->child[c], ind + 2);
        }
        break;
      case vf_yaml::MAP:
        fprintf(f, "\n");
        for (int c = 0; c < p->n; ++c) {
          fprintf(f, "%*s%s: ", ind, "", p->child[c]->key);
          emit(f, p->child[c], ind + 2);
        }
        break;
    }
  }
#endif
  void ready();
};
static Doc *g_doc[4];
static int g_docs;
#ifdef VF_SYMBOLIC
extern "C" vf_yaml *vf_yaml_root(const char *file)
{
  for (int i = 0; i < g_docs; ++i) {
    const char *a = file, *b = g_doc[i]->file;
    while (*a && *a == *b) ++a, ++b;
    if (*a == *b) return g_doc[i]->root();
  }
  return nullptr;
}
#endif
inline void Doc::ready()
{
  g_doc[g_docs++] = this;
#ifndef VF_SYMBOLIC
  FILE *f = fopen(file, "w");
  fprintf(f, "---");
  emit(f, root(), 0);
  fclose(f);
#endif
}
