// C20: the advection program with its real semi-Lagrangian step: memory safety of a whole run
#include "h_gals.h"
#include "h_yaml.h"
#include <sys/stat.h>
extern int gals_advection_main(int argc, char **argv);
extern "C" int vf_fs_exists(const char *p) { return 1; }
extern "C" int vf_fs_is_dir(const char *) { return 1; }
extern "C" int vf_fs_remove(const char *) { return 0; }
extern "C" int vf_fs_rmtree(const char *) { return 0; }
extern "C" int vf_fs_create(const char *p, int) { return 1; }
static void whole_run(double L, double dt)
{
  Doc d("inputs.yml");
  vf_yaml *root = d.root();
  d.text(d.map(root, "general"), "output_directory", "out");
  vf_yaml *s = d.map(root, "grid"), *b = d.map(s, "box"), *c = d.seq(s, "cells");
  int n[] = {vf_cfg("nx"), vf_cfg("ny"), 1};
  d.real(b, "x_min", -L), d.real(b, "x_max", L), d.real(b, "y_min", -L), d.real(b, "y_max", L), d.real(b, "z_min", 0), d.real(b, "z_max", 1);
  for (int a = 0; a < 3; ++a) d.whole(c, "", n[a]);
  s = d.map(root, "time");
  d.real(s, "start", 0), d.real(s, "end", dt / 2), d.real(s, "dt", dt), d.text(s, "constant_dt", "YES");
  s = d.map(root, "velocity");
  d.text(s, "name", "CIRCULAR");
  vf_yaml *v = d.seq(s, "vector"), *e = d.seq(s, "center");
  for (int i = 0; i < 3; ++i) d.real(v, "", 0), d.real(e, "", 0);
  d.text(d.map(s, "gradient"), "scheme", "ANALYTICAL");
  s = d.map(root, "levelset");
  d.text(s, "name", "NONE");
  c = d.seq(s, "center");
  for (int i = 0; i < 3; ++i) d.real(c, "", 0);
  d.real(s, "radius", 1);
  d.text(d.map(s, "gradient"), "scheme", "X");
  d.ready();
#ifndef VF_SYMBOLIC
  mkdir("out", 0777);
#endif
  char a0[] = "advection", a1[] = "inputs.yml";
  char *argv[] = {a0, a1, nullptr};
  vf_ieq(gals_advection_main(2, argv), 0, "the program reports success");
}
// the rotation moves no node by more than the padding (two cells) in one step
HARNESS(app_near)
{
  double L = vf_real("L", 0.5, 8), f = vf_real("f", 0.125, 1);
  int n = vf_cfg("nx") > vf_cfg("ny") ? vf_cfg("nx") : vf_cfg("ny");
  whole_run(L, f * 1.9 * 2 / n);  // displacement < f * 1.9 cells: rate * L * dt = f * 1.9 * h * (pi / 3.15)
}
// it moves a node further than the padding
HARNESS(app_far)
{
  double L = vf_real("L", 0.5, 8), f = vf_real("f", 2, 4);
  whole_run(L, f * 4.0 * 2 / vf_cfg("nx"));
}
VF_TABLE(E(app_near), E(app_far))
