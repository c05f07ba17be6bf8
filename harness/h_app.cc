// C20: the advection program.  Its main() is compiled under another name; the semi-Lagrangian step (decided by C13, C14)
// is replaced by a recorder, so that every step the program asks for is observed; the file system is a stand-in.
#include "h_gals.h"
#include "h_yaml.h"
#include <sys/stat.h>
extern int gals_advection_main(int argc, char **argv);
typedef Grid<double, 2> G2;

// ---- what the run is about
static struct Run {
  int n[2];
  double lo[3], h[3], t0, t1, dt, radius, lc[3], vc[3];
  const char *dir, *scheme, *cdt, *vname, *lname;
  bool fixed, forbidden, dir_exists, input_exists;
  int steps, created;
  double now;                    // current time, as the program should see it
  double phi[8][8];              // the level set the program should have (interior)
} run;
static const double kRate = 3.14159265358979323846 / 3.15;
static bool same_text(const char *a, const char *b)
{
  while (*a && *a == *b) ++a, ++b;
  return *a == *b;
}
static bool is_dir(const char *p)
{
  const char *d = run.dir;
  while (*d && *p == *d) ++p, ++d;
  if (*d) return false;
  while (*p == '/') ++p;
  return *p == 0;
}
extern "C" int vf_fs_exists(const char *p)
{
  if (same_text(p, "inputs.yml")) return run.input_exists;
  if (is_dir(p)) return run.dir_exists || run.created;
  return 0;
}
extern "C" int vf_fs_is_dir(const char *) { return 1; }
extern "C" int vf_fs_remove(const char *) { return vf_check(0, "the program removes no file"), 0; }
extern "C" int vf_fs_rmtree(const char *) { return vf_check(0, "the program removes no directory"), 0; }
extern "C" int vf_fs_create(const char *p, int parents)
{
  vf_check(!run.forbidden, "nothing is created without an input file");
  vf_check(is_dir(p), "the output directory is what is created");
  vf_check(!run.dir_exists, "an existing output directory is not created again");
  run.created++;
#ifndef VF_SYMBOLIC
  mkdir("out", 0777);
  mkdir(p, 0777);
#endif
  return 1;
}
// one semi-Lagrangian step as the program asks for it (a strong definition replaces the library's instantiation)
extern "C" void recorded_step(void *self, double dt, const LevelsetVelocity<G2, double> &v, Levelset<G2, double> &l) __asm__(
    "_ZN4GALS16TEMPORAL_SCHEMES15SEMI_LAGRANGIAN5EulerIdNS_3CPU4GridIdLi2EEEE7computeEdRKNS3_16LevelsetVelocityIS5_dEERNS3_8LevelsetIS5_dEE");
extern "C" void recorded_step(void *, double dt, const LevelsetVelocity<G2, double> &v, Levelset<G2, double> &l)
{
  vf_check(!run.forbidden, "nothing is simulated without an input file");
  vf_check(!(run.steps > 0 && run.now >= run.t1 - 1e-10), "no step is made once the end time is reached");
  run.now += run.dt;
  run.steps++;
  vf_eq(dt, run.dt, "every step has the time step of the input file, or half the smallest spacing");
  const bool circular = same_text(run.vname, "CIRCULAR");
  const bool grad = circular && same_text(run.scheme, "ANALYTICAL");
  for (int i = 0; i < run.n[0]; ++i)
    for (int j = 0; j < run.n[1]; ++j) {
      double x = run.lo[0] + (i + 0.5) * run.h[0], y = run.lo[1] + (j + 0.5) * run.h[1];
      vf_eq(v.velocity()(i, j, 0)[0], circular ? kRate * (run.vc[1] - y) : 0, "the step uses the velocity of the input file");
      vf_eq(v.velocity()(i, j, 0)[1], circular ? kRate * (x - run.vc[0]) : 0, "the step uses the velocity of the input file");
      vf_eq(v.velocity()(i, j, 0)[2], 0, "the step uses the velocity of the input file");
      for (int a = 0; a < 3; ++a)
        for (int c = 0; c < 3; ++c)
          vf_eq(v.velocityGradient()(i, j, 0)(a, c), !grad ? 0 : a == 0 && c == 1 ? -kRate : a == 1 && c == 0 ? kRate : 0,
                "the step uses the velocity gradient of the input file");
      vf_eq(l.phiPrev()(i, j, 0), run.phi[i][j], "each step starts from the level set the last one left");
      for (int a = 0; a < 2; ++a) {
        double f[4];
        for (int s = -2; s <= 1; ++s) {
          int I = i + (a == 0 ? s : 0), J = j + (a == 1 ? s : 0);
          f[s + 2] = I >= 0 && I < run.n[0] && J >= 0 && J < run.n[1] ? run.phi[I][J] : l.phiPrev()(I, J, 0);
        }
        vf_eq(6 * run.h[a] * l.psiPrev()(i, j, 0)[a], 2 * f[3] + 3 * f[2] - 6 * f[1] + f[0],
              "each step starts from the gradient of that level set");
      }
    }
  for (int i = 0; i < run.n[0]; ++i)
    for (int j = 0; j < run.n[1]; ++j) {
      l.phi()(i, j, 0) = run.phi[i][j] = vf_real("phi", -4, 4);
      l.psi()(i, j, 0) = Vec3<double>(vf_real("psi", -4, 4), 7, 8);
    }
}
static const char *kDirs[] = {"out", "out/deeper and longer than a short string", "out/x/", "out/x."};
static void describe(Doc &d, int r)
{
  vf_yaml *root = d.root();
  d.text(d.map(root, "general"), "output_directory", run.dir);
  {
    vf_yaml *s = d.map(root, "grid"), *b = d.map(s, "box"), *c = d.seq(s, "cells");
    static const char *lo[] = {"x_min", "y_min", "z_min"}, *hi[] = {"x_max", "y_max", "z_max"};
    for (int a = 0; a < 3; ++a) {
      int n = a < 2 ? run.n[a] : 1;
      d.real(b, lo[a], run.lo[a]);
      d.real(b, hi[a], run.lo[a] + n * run.h[a]);
      d.whole(c, "", n);
    }
  }
  {
    vf_yaml *s = d.map(root, "time");
    d.real(s, "start", run.t0);
    d.real(s, "end", run.t1);
    d.real(s, "dt", run.fixed ? run.dt : 0.375);
    d.text(s, "constant_dt", run.cdt);
  }
  {
    vf_yaml *s = d.map(root, "velocity");
    d.text(s, "name", run.vname);
    vf_yaml *a = d.seq(s, "vector"), *c = d.seq(s, "center");
    for (int i = 0; i < 3; ++i) d.real(a, "", 0.5 + i);
    for (int i = 0; i < 3; ++i) d.real(c, "", run.vc[i]);
    d.text(d.map(s, "gradient"), "scheme", run.scheme);
  }
  {
    vf_yaml *s = d.map(root, "levelset");
    d.text(s, "name", run.lname);
    vf_yaml *c = d.seq(s, "center");
    for (int i = 0; i < 3; ++i) d.real(c, "", run.lc[i]);
    d.real(s, "radius", run.radius);
    d.text(d.map(s, "gradient"), "scheme", "THIRD_ORDER");
  }
  d.ready();
}
static void setup(bool smooth)
{
  run.n[0] = vf_cfg("nx"), run.n[1] = vf_cfg("ny");
  for (int a = 0; a < 3; ++a) {
    run.lo[a] = vf_real("lo", -8, 8);
    run.h[a] = vf_real("h", 0.0625, 8);
    run.lc[a] = vf_real("lc", -4, 4);
    run.vc[a] = vf_real("vc", -4, 4);
  }
  run.radius = vf_real("r", 0, 4);
  run.dir = kDirs[0];
  run.scheme = "ANALYTICAL";
  run.cdt = "YES";
  run.vname = "CIRCULAR";
  run.lname = smooth ? "NONE" : "CIRCLE";
  run.fixed = true;
  run.forbidden = false;
  run.dir_exists = run.input_exists = true;
  run.steps = run.created = 0;
  run.dt = vf_real("dt", 0.015625, 4);
  run.t0 = vf_real("t0", -8, 8);
}
// the start: phi is the signed distance (or zero for a name the library does not know)
static void start(bool smooth)
{
  for (int i = 0; i < run.n[0]; ++i)
    for (int j = 0; j < run.n[1]; ++j) {
      double x = run.lo[0] + (i + 0.5) * run.h[0] - run.lc[0], y = run.lo[1] + (j + 0.5) * run.h[1] - run.lc[1], z = run.lc[2];
      run.phi[i][j] = smooth ? 0 : sqrt(x * x + y * y + z * z) - run.radius;
    }
  run.now = run.t0;
}
static void go()
{
#ifndef VF_SYMBOLIC
  if (run.dir_exists) mkdir("out", 0777), mkdir(run.dir, 0777);
#endif
  char a0[] = "advection", a1[] = "inputs.yml";
  char *argv[] = {a0, a1, nullptr};
  vf_ieq(gals_advection_main(2, argv), 0, "the program reports success");
}
static void output()
{
  vf_check(run.dir_exists || run.created == 1, "the output directory is created when it is missing");
  char name[100];
  int q = 0;
  for (; run.dir[q]; ++q) name[q] = run.dir[q];
  const char *tail = "/velocity";
  for (int i = 0; i <= 9; ++i) name[q++] = tail[i];
  vf_check(vf_file_open(name), "the velocity is written to the file `velocity` of the output directory");
  const bool circular = same_text(run.vname, "CIRCULAR");
  for (int i = 0; i < run.n[0]; ++i)
    for (int j = 0; j < run.n[1]; ++j) {
      double x = run.lo[0] + (i + 0.5) * run.h[0], y = run.lo[1] + (j + 0.5) * run.h[1];
      double line[] = {x, y, 0, circular ? kRate * (run.vc[1] - y) : 0, circular ? kRate * (x - run.vc[0]) : 0, 0};
      for (int c = 0; c < 6; ++c) {
        vf_file_real(line[c], "the file lists position and velocity of every interior node");
        int ch = vf_file_char();
        while (c == 5 && (ch == '\t' || ch == ' ')) ch = vf_file_char();
        vf_ieq(ch, c == 5 ? '\n' : '\t', "six columns per line");
      }
    }
  vf_check(vf_file_end(), "one line per interior node");
}
// a given time step: steps until the end time
HARNESS(app_fixed)
{
  setup(true);
  int m = vf_pick("m", 0, vf_cfg("steps"));
  double part = vf_real("part", 0, 1);
  // the end lies in the m-th step (m = 0: at or before the start), away from where rounding decides
  if (m > 0) vf_assume(part >= 0.01 && part <= 0.99);
  if (m == 0)
    run.t1 = run.t0 - part;
  else
    run.t1 = run.t0 + (m - part) * run.dt;
  int r = vf_pick("r", 0, 2);
  run.cdt = r == 0 ? "YES" : r == 1 ? "no" : "NOT";
  start(true);
  Doc d("inputs.yml");
  describe(d, 0);
  go();
  vf_ieq(run.steps, m > 0 ? m : 1, "the program steps until the end time is reached, at least once");
  output();
}
// an end time that is a whole number of steps away (a dyadic step, so that the sum is exact) is hit, not overshot
HARNESS(app_exact)
{
  setup(true);
  int m = vf_pick("m", 1, vf_cfg("steps"));
  run.dt = 0.25;
  run.t0 = vf_pick("t0i", -2, 2);
  // the accumulated time differs from the end time by rounding errors
  run.t1 = run.t0 + m * run.dt + vf_real("rounding", -4e-14, 4e-14);
  start(true);
  Doc d("inputs.yml");
  describe(d, 0);
  go();
  vf_ieq(run.steps, m, "an end time that is a whole number of steps away is hit exactly");
}
// a time step chosen by the program
HARNESS(app_auto)
{
  setup(true);
  run.fixed = false;
  run.cdt = "NO";
  run.dt = 0.5 * (run.h[0] < run.h[1] ? run.h[0] : run.h[1]);
  int m = vf_pick("m", 1, vf_cfg("steps"));
  run.t1 = run.t0 + (m - 0.5) * run.dt;
  start(true);
  Doc d("inputs.yml");
  describe(d, 0);
  go();
  vf_ieq(run.steps, m, "the program steps until the end time is reached");
  output();
}
// initial level set, names, output directory
HARNESS(app_names)
{
  bool circle = vf_pick("circle", 0, 1);
  setup(!circle);
  run.t1 = run.t0 + (circle ? 0.5 : 1.5) * run.dt;
  run.dir = kDirs[vf_pick("dir", 0, 3)];
  run.dir_exists = vf_pick("exists", 0, 1);
  if (vf_pick("numeric", 0, 1)) run.scheme = "CENTRAL";
  if (vf_pick("still", 0, 1)) run.vname = "NONE";
  start(!circle);
  Doc d("inputs.yml");
  describe(d, 0);
  go();
  vf_ieq(run.steps, circle ? 1 : 2, "the program steps until the end time is reached");
  output();
}
// no argument, or a file that is not there: nothing happens
HARNESS(app_nothing)
{
  setup(true);
  run.forbidden = true;
  run.input_exists = false;
  run.dir_exists = vf_pick("exists", 0, 1);
  run.t1 = run.t0 + run.dt;
  char a0[] = "advection", a1[] = "inputs.yml";
  char *argv[] = {a0, a1, nullptr};
  if (vf_pick("none", 0, 1)) {
    argv[1] = nullptr;
    gals_advection_main(1, argv);
  } else
    gals_advection_main(2, argv);
}
VF_TABLE(E(app_fixed), E(app_exact), E(app_auto), E(app_names), E(app_nothing))
