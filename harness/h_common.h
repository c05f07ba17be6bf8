#pragma once
#include "vf.h"
#include <string.h>
#include <string>
// VF_TABLE(a) VF_ENTRY... : native dispatch by name; symbolically the harness function is called directly.
#define HARNESS(name) extern "C" void name()
struct VfEntry { const char *name; void (*fn)(); };
#ifdef VF_SYMBOLIC
#define VF_TABLE(...)
#else
#define VF_TABLE(...)                                     \
  static const VfEntry vf_table[] = {__VA_ARGS__};        \
  void vf_run(const char *name)                           \
  {                                                       \
    for (const auto &e : vf_table)                        \
      if (!strcmp(e.name, name)) { e.fn(); return; }      \
    abort();                                              \
  }
#endif
#define E(f) {#f, f}
