// C32: the reference programs' test case (vortex, Gaussian level set), node positions and output files
#pragma once
#include "h_common.h"
#include <algorithm>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <tuple>
#include <vector>
#ifdef REF_CUDA
#define __global__
#define __device__
#define __host__
#define __syncthreads vf_barrier
struct Dim3 { unsigned int x, y, z; };
static unsigned int g_tile = 1, g_blocks = 1;
static Dim3 cuda_block() { unsigned b = vf_thread() / (g_tile * g_tile); return Dim3{b % g_blocks, b / g_blocks, 0}; }
static Dim3 cuda_thread() { unsigned r = vf_thread() % (g_tile * g_tile); return Dim3{r % g_tile, r / g_tile, 0}; }
static Dim3 cuda_dim() { return Dim3{g_tile, g_tile, 1}; }
#define blockIdx (cuda_block())
#define threadIdx (cuda_thread())
#define blockDim (cuda_dim())
#define gridDim (Dim3{g_blocks, 1, 1})
#include "Allocation.h"
template <class L>
static void cuda_call(void *p, int) { (*(L *)p)(); }
template <class L>
static void launch(int nx, int ny, int tile, L f)
{
  g_tile = tile;
  g_blocks = nx / tile;
  vf_parallel((nx / tile) * (ny / tile) * tile * tile, cuda_call<L>, &f);
}
#elif defined(REF_OLD)
#include "Initializer_vortex.h"
#else
#include "VariableDefinitions.h"
#include "Hermite.h"
#include "InitializeLevelSet.h"
#include "VortexVelocity.h"
#include "TimeSteppingMethods.h"
#include "Allocation.h"
using namespace galsfunctions;
#endif
// value and derivatives
struct D2 {
  double v, x, y;
};
static D2 operator*(D2 a, D2 b) { return D2{a.v * b.v, a.x * b.v + a.v * b.x, a.y * b.v + a.v * b.y}; }
static D2 operator*(double s, D2 a) { return D2{s * a.v, s * a.x, s * a.y}; }
static const double PI = 3.14159265358979323846;
static D2 sin_x(double x) { return D2{sin(PI * x), PI * cos(PI * x), 0}; }
static D2 cos_x(double x) { return D2{cos(PI * x), -PI * sin(PI * x), 0}; }
static D2 sin_y(double x) { return D2{sin(PI * x), 0, PI * cos(PI * x)}; }
static D2 cos_y(double x) { return D2{cos(PI * x), 0, -PI * sin(PI * x)}; }
static void vortex(double x, double y, double t, double T, D2 &u, D2 &v)
{
  double c = cos(PI * t / T);
  u = c * (sin_x(x) * sin_x(x) * (2 * (sin_y(y) * cos_y(y))));
  v = -c * (sin_y(y) * sin_y(y) * (2 * (sin_x(x) * cos_x(x))));
}
HARNESS(ref_vortex)
{
  double x = vf_real("x", -4, 4), y = vf_real("y", -4, 4), t = vf_real("t", 0, 64), T = vf_real("T", 0.125, 16);
  if (vf_cfg("zero")) t = 0;
  D2 u, v;
  vortex(x, y, t, T, u, v);
  vf_eq(Velx(x, y, t, T), u.v, "x velocity of the vortex");
  vf_eq(Vely(x, y, t, T), v.v, "y velocity of the vortex");
  vf_eq(gradUx(x, y, t, T), u.x, "du/dx");
  vf_eq(gradUy(x, y, t, T), u.y, "du/dy");
  vf_eq(gradVx(x, y, t, T), v.x, "dv/dx");
  vf_eq(gradVy(x, y, t, T), v.y, "dv/dy");
  vf_eq(gradUx(x, y, t, T) + gradVy(x, y, t, T), 0, "no divergence");
}
static void gauss(double x, double y, double *r)
{
  double a = x - 0.5, b = y - 0.75, e = exp(-(a * a + b * b));
  r[0] = e - exp(-0.15 * 0.15);
  r[1] = -2 * a * e;
  r[2] = -2 * b * e;
  r[3] = 4 * a * b * e;
}
#ifdef REF_OLD
HARNESS(ref_initial)
{
  double x = vf_real("x", -4, 4), y = vf_real("y", -4, 4), r[4];
  gauss(x, y, r);
  vf_eq(initialize(x, y), r[0], "initial level set");
  vf_eq(derivxinit(x, y), r[1], "its x derivative");
  vf_eq(derivyinit(x, y), r[2], "its y derivative");
  vf_eq(derivxyinit(x, y), r[3], "its mixed derivative");
}
VF_TABLE(E(ref_vortex), E(ref_initial))
#else
struct Fields {
  int nx, ny;
  double *x, *y, *m[4];
  Fields(int a, int b) : nx(a), ny(b)
  {
    x = (double *)malloc(nx * sizeof(double));
    y = (double *)malloc(ny * sizeof(double));
    for (int k = 0; k < 4; ++k) m[k] = (double *)malloc(nx * ny * sizeof(double));
  }
  ~Fields()
  {
    free(x);
    free(y);
    for (int k = 0; k < 4; ++k) free(m[k]);
  }
};
#ifdef REF_CUDA
static void nodes(Fields &f, double x0, double y0, double dx, double dy) { gridnodes(f.x, f.y, x0, y0, dx, dy, f.nx, f.ny); }
static void initial(Fields &f, int how)
{
  if (how == 0)
    allocate_levelset_matrices(f.m[0], f.m[1], f.m[2], f.m[3], f.x, f.y, f.nx, f.ny);
  else
    launch(f.nx, f.ny, how, [&]() { allocate_levelset_matrices_CUDA(f.m[0], f.m[1], f.m[2], f.m[3], f.x, f.y, f.nx, f.ny); });
}
static void print(Fields &f, double t, double T) { fileprint(f.m[0], f.m[1], f.m[2], f.m[3], f.nx, f.ny, f.x, f.y, t, T); }
#else
static vectorarray gx, gy;
static gridarray gm[4];
static void nodes(Fields &f, double x0, double y0, double dx, double dy)
{
  vectorarray x, y;
  gridnodes(x, y, x0, y0, dx, dy, f.nx, f.ny);
  vf_check((int)x.size() == f.nx && (int)y.size() == f.ny, "as many nodes as asked for");
  for (int j = 0; j < f.nx; ++j) f.x[j] = x[j];
  for (int i = 0; i < f.ny; ++i) f.y[i] = y[i];
}
static void initial(Fields &f, int)
{
  vectorarray x(f.x, f.x + f.nx), y(f.y, f.y + f.ny);
  gridarray m[4];
  allocate_levelset_matrices(m[0], m[1], m[2], m[3], x, y, f.nx, f.ny);
  for (int k = 0; k < 4; ++k)
    for (int i = 0; i < f.ny; ++i)
      for (int j = 0; j < f.nx; ++j) f.m[k][i * f.nx + j] = m[k][i][j];
}
static void print(Fields &f, double t, double T)
{
  vectorarray x(f.x, f.x + f.nx), y(f.y, f.y + f.ny);
  gridarray m[4];
  for (int k = 0; k < 4; ++k)
    for (int i = 0; i < f.ny; ++i) m[k].push_back(vectorarray(f.m[k] + i * f.nx, f.m[k] + (i + 1) * f.nx));
  fileprint(m[0], m[1], m[2], m[3], f.nx, f.ny, x, y, t, T);
}
#endif
HARNESS(ref_initial)
{
  const int nx = vf_cfg("nx"), ny = vf_cfg("ny");
  double x0 = vf_real("x0", -4, 4), y0 = vf_real("y0", -4, 4), dx = vf_real("dx", 0.0078125, 2), dy = vf_real("dy", 0.0078125, 2);
  Fields f(nx, ny);
  nodes(f, x0, y0, dx, dy);
  for (int j = 0; j < nx; ++j) vf_eq(f.x[j], x0 + j * dx, "node along x");
  for (int i = 0; i < ny; ++i) vf_eq(f.y[i], y0 + i * dy, "node along y");
  initial(f, vf_cfg("tile"));
  static const char *what[] = {"initial level set", "its x derivative", "its y derivative", "its mixed derivative"};
  for (int i = 0; i < ny; ++i)
    for (int j = 0; j < nx; ++j) {
      double r[4];
      gauss(f.x[j], f.y[i], r);
      for (int k = 0; k < 4; ++k) vf_eq(f.m[k][i * nx + j], r[k], what[k]);
    }
}
static void expect(int c, const char *msg) { vf_ieq(vf_file_char(), c, msg); }
HARNESS(ref_output)
{
  const int nx = vf_cfg("nx"), ny = vf_cfg("ny"), times = vf_cfg("steps");
  static const char *names[] = {"phi.txt", "psix.txt", "psiy.txt", "psixy.txt", "Velocity_x.txt", "Velocity_y.txt"};
  Fields f(nx, ny);
  double T = 2, ts[3];
  // quarter points keep the printed digits exact
  for (int j = 0; j < nx; ++j) f.x[j] = 0.25 * j;
  for (int i = 0; i < ny; ++i) f.y[i] = 0.25 * i;
  double *all = (double *)malloc(3 * 4 * nx * ny * sizeof(double));
  for (int s = 0; s < times; ++s) {
    ts[s] = 0.5 * s;
    for (int k = 0; k < 4; ++k)
      for (int q = 0; q < nx * ny; ++q) all[(s * 4 + k) * nx * ny + q] = f.m[k][q] = vf_real("value", -100, 100);
    print(f, ts[s], T);
  }
  for (int k = 0; k < 6; ++k) {
    vf_check(vf_file_open(names[k]), "the file exists");
    for (int s = 0; s < times; ++s) {
      for (int i = 0; i < ny; ++i) {
        for (int j = 0; j < nx; ++j) {
          if (j) expect(',', "a comma between numbers");
          D2 u, v;
          vortex(f.x[j], f.y[i], ts[s], T, u, v);
          vf_file_real(k < 4 ? all[(s * 4 + k) * nx * ny + i * nx + j] : k == 4 ? u.v : v.v, "the number of this node");
        }
        expect('\n', "a line per row");
      }
      expect('\n', "an empty line after each time");
    }
    vf_check(vf_file_end(), "nothing else");
  }
  free(all);
}
VF_TABLE(E(ref_vortex), E(ref_initial), E(ref_output))
#endif
