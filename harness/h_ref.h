// C26-C29: the reference programs' building blocks (src/reference).  One harness, three implementations:
// REF_CUDA: the kernels of CUDA/*.cu, one vf_parallel thread per CUDA thread; otherwise the headers of SerialCode or src/reference
// (compiled with -fopenmp in the OpenMP group).  The velocity field is any function: it is supplied here, as the programs document.
#pragma once
#include "h_common.h"
#include <algorithm>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <tuple>
#include <vector>

static int g_flow = 0;  // 0: any velocity field; 1: the uniform flow (g_u, g_v)
static double g_u, g_v;
static double vel_x(double x, double y, double t, double T) { return g_flow ? g_u : vf_uf4("Velx", x, y, t, T); }
static double vel_y(double x, double y, double t, double T) { return g_flow ? g_v : vf_uf4("Vely", x, y, t, T); }
static double g_ux(double x, double y, double t, double T) { return g_flow ? 0 : vf_uf4("gradUx", x, y, t, T); }
static double g_uy(double x, double y, double t, double T) { return g_flow ? 0 : vf_uf4("gradUy", x, y, t, T); }
static double g_vx(double x, double y, double t, double T) { return g_flow ? 0 : vf_uf4("gradVx", x, y, t, T); }
static double g_vy(double x, double y, double t, double T) { return g_flow ? 0 : vf_uf4("gradVy", x, y, t, T); }
#define VELOCITY                                                                               \
  double Velx(double x, double y, double t, double T_period) { return vel_x(x, y, t, T_period); } \
  double Vely(double x, double y, double t, double T_period) { return vel_y(x, y, t, T_period); } \
  double gradUx(double x, double y, double t, double T_period) { return g_ux(x, y, t, T_period); } \
  double gradUy(double x, double y, double t, double T_period) { return g_uy(x, y, t, T_period); } \
  double gradVx(double x, double y, double t, double T_period) { return g_vx(x, y, t, T_period); } \
  double gradVy(double x, double y, double t, double T_period) { return g_vy(x, y, t, T_period); }

#ifdef REF_CUDA
#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __restrict__
#define __syncthreads vf_barrier
struct Dim3 { unsigned int x, y, z; };
static unsigned int g_tile = 1, g_blocks = 1;
static Dim3 cuda_block() { unsigned b = vf_thread() / (g_tile * g_tile); return Dim3{b % g_blocks, b / g_blocks, 0}; }
static Dim3 cuda_thread() { unsigned r = vf_thread() % (g_tile * g_tile); return Dim3{r % g_tile, r / g_tile, 0}; }
static Dim3 cuda_dim() { return Dim3{g_tile, g_tile, 1}; }
#define blockIdx (cuda_block())
#define threadIdx (cuda_thread())
#define blockDim (cuda_dim())
#define gridDim (Dim3{g_blocks, 1, 1})
VELOCITY
#include "AdvectionPointCalcsCUDA.cu"
template <class L>
static void cuda_call(void *p, int) { (*(L *)p)(); }
template <class L>
static void launch(int nx, int ny, int tile, L f)
{
  g_tile = tile;
  g_blocks = nx / tile;
  vf_parallel((nx / tile) * (ny / tile) * tile * tile, cuda_call<L>, &f);
}
#elif defined(REF_OLD)
#include "Hermite.h"
#else
#include "VariableDefinitions.h"
namespace galsfunctions { VELOCITY }
#include "Hermite.h"
#include "TimeSteppingMethods.h"
#include "AdvectionPointCalcs.h"
using namespace galsfunctions;
#endif

#ifndef REF_OLD
#include "h_reforacle.h"
#ifdef REF_CUDA
static int g_launch_tile;
static void departure(Nodes &n, FD &xa, FD &ya, unsigned t, double dt, double T, const char *, int, int)
{
  launch(n.nx, n.ny, g_launch_tile, [&]() { advection_point_cuda(n.x, n.y, xa.a, ya.a, n.nx, t, dt, T, g_tile); });
}
static void locate(Nodes &n, FD &xa, FD &ya, FI &cx, FI &cy, FI &tr, int, int)
{
  double x1 = n.x[0], x2 = n.x[n.nx - 1], y1 = n.y[0], y2 = n.y[n.ny - 1];
  launch(n.nx, n.ny, g_launch_tile,
         [&]() { find_advection_point_location_cuda(n.x, n.y, xa.a, ya.a, n.nx, n.ny, cx.a, cy.a, tr.a, x1, x2, y1, y2, g_tile); });
}
static void update(Nodes &n, FD &xa, FD &ya, FI &cx, FI &cy, FI &tr, unsigned t, double dt, Ls &w, Ls &m, const char *psi, const char *bt, double T, int, int)
{
  char p[32], b[32];
  strcpy(p, psi);
  strcpy(b, bt);
  launch(n.nx, n.ny, g_launch_tile, [&]() {
    update_levelset_data_cuda(n.x, n.y, xa.a, ya.a, cx.a, cy.a, tr.a, t, dt, w.phi.a, w.px.a, w.py.a, w.pxy.a, m.phi.a, m.px.a, m.py.a, p, b, T, n.nx, n.ny, g_tile);
  });
}
static void mixed(Nodes &n, FD &px, FD &py, FD &pxy, double dx, double dy, int, int)
{
  launch(n.nx, n.ny, g_launch_tile, [&]() { update_mixed_derivatives(px.a, py.a, pxy.a, n.nx, n.ny, dx, dy, g_tile); });
}
static void copy(Ls &w, Ls &m, int nx, int ny)
{
  launch(nx, ny, g_launch_tile, [&]() { devicetodevicecopy(w.phi.a, w.px.a, w.py.a, m.phi.a, m.px.a, m.py.a, nx, g_tile); });
}
#else
static int g_launch_tile;
static vectorarray vec(const double *p, int n) { return vectorarray(p, p + n); }
template <class T>
static std::vector<std::vector<T>> grid(F<T> &f)
{
  std::vector<std::vector<T>> g;
  for (int i = 0; i < f.ny; ++i) g.push_back(std::vector<T>(f.a + i * f.nx, f.a + (i + 1) * f.nx));
  return g;
}
template <class T>
static void back(std::vector<std::vector<T>> &g, F<T> &f)
{
  for (int i = 0; i < f.ny; ++i)
    for (int j = 0; j < f.nx; ++j) f(i, j) = g[i][j];
}
static void departure(Nodes &n, FD &xa, FD &ya, unsigned t, double dt, double T, const char *bt, int lo, int hi)
{
  char b[32];
  strcpy(b, bt);
  vectorarray x = vec(n.x, n.nx), y = vec(n.y, n.ny);
  gridarray gx = grid(xa), gy = grid(ya);
  if (lo < 0)
    advection_point(x, y, gx, gy, t, dt, T, b);
  else
    advection_point_MPI(x, y, gx, gy, t, dt, T, lo, hi, b);
  back(gx, xa);
  back(gy, ya);
}
static void locate(Nodes &n, FD &xa, FD &ya, FI &cx, FI &cy, FI &tr, int lo, int hi)
{
  vectorarray x = vec(n.x, n.nx), y = vec(n.y, n.ny);
  gridarray gx = grid(xa), gy = grid(ya);
  intgridarray ix = grid(cx), iy = grid(cy), it = grid(tr);
  double x1 = x[0], x2 = x[n.nx - 1], y1 = y[0], y2 = y[n.ny - 1];
  if (lo < 0)
    find_advection_point_location(x, y, gx, gy, ix, iy, it, x1, x2, y1, y2);
  else
    find_advection_point_location_MPI(x, y, gx, gy, ix, iy, it, x1, x2, y1, y2, lo, hi);
  back(ix, cx);
  back(iy, cy);
  back(it, tr);
}
static void update(Nodes &n, FD &xa, FD &ya, FI &cx, FI &cy, FI &tr, unsigned t, double dt, Ls &w, Ls &m, const char *psi, const char *bt, double T, int lo, int hi)
{
  char p[32], b[32];
  strcpy(p, psi);
  strcpy(b, bt);
  vectorarray x = vec(n.x, n.nx), y = vec(n.y, n.ny);
  gridarray gx = grid(xa), gy = grid(ya);
  intgridarray ix = grid(cx), iy = grid(cy), it = grid(tr);
  gridarray w0 = grid(w.phi), w1 = grid(w.px), w2 = grid(w.py), w3 = grid(w.pxy);
  gridarray m0 = grid(m.phi), m1 = grid(m.px), m2 = grid(m.py), m3 = grid(m.pxy);
  if (lo < 0)
    update_levelset_data(x, y, gx, gy, ix, iy, it, t, dt, w0, w1, w2, w3, m0, m1, m2, m3, p, b, T);
  else
    update_levelset_data_mpi(x, y, gx, gy, ix, iy, it, t, dt, w0, w1, w2, w3, m0, m1, m2, m3, p, b, lo, hi, T);
  back(w0, w.phi);
  back(w1, w.px);
  back(w2, w.py);
  back(w3, w.pxy);
  back(m0, m.phi);
  back(m1, m.px);
  back(m2, m.py);
  back(m3, m.pxy);
}
static void mixed(Nodes &n, FD &px, FD &py, FD &pxy, double dx, double dy, int lo, int hi)
{
  gridarray a = grid(px), b = grid(py), c = grid(pxy);
  if (lo < 0)
    update_mixed_derivatives(a, b, c, n.nx, n.ny, dx, dy);
  else
    update_mixed_derivatives_mpi(a, b, c, n.nx, n.ny, dx, dy, lo, hi);
  back(a, px);
  back(b, py);
  back(c, pxy);
}
static void copy(Ls &w, Ls &m, int nx, int ny)
{
  for (int i = 0; i < nx * ny; ++i) {
    m.phi.a[i] = w.phi.a[i];
    m.px.a[i] = w.px.a[i];
    m.py.a[i] = w.py.a[i];
    m.pxy.a[i] = w.pxy.a[i];
  }
}
#endif
// columns: the whole grid, or (cfg part) any part of the columns
struct Part {
  int lo, hi, a, b;
  Part(int nx)
  {
    g_launch_tile = vf_cfg("tile") ? vf_cfg("tile") : 1;
    lo = hi = -1;
    a = 0;
    b = nx;
    if (vf_cfg("part")) {
      lo = a = vf_pick("lo", 0, nx - 1);
      hi = b = vf_pick("hi", 0, nx);
      vf_assume(lo <= hi);
    }
  }
  bool in(int j) const { return j >= a && j < b; }
};
static const char *bt_name() { return vf_cfg("euler") ? "Euler" : "RK3"; }
static const char *psi_name() { return vf_cfg("heun") ? "Heuns" : "SuperConsistent"; }
static unsigned any_step()
{
  static const unsigned s[] = {0, 1, 6, 40000};
  return s[vf_pick("step", 0, 3)];
}
// ---- C26
HARNESS(ref_departure)
{
  const int nx = vf_cfg("nx"), ny = vf_cfg("ny");
  Part part(nx);
  const bool rk3 = !vf_cfg("euler");
  Nodes n(nx, ny);
  for (int j = 0; j < nx; ++j) n.x[j] = vf_real("x", -8, 8);
  for (int i = 0; i < ny; ++i) n.y[i] = vf_real("y", -8, 8);
  FD xa(nx, ny), ya(nx, ny);
  xa.some(3);
  ya.some(5);
  FD x0(xa), y0(ya);
  if (vf_cfg("hist")) departure(n, x0, y0, 3, 0.125, 2, rk3 ? "Euler" : "RK3", -1, 0);
  xa.some(3);
  ya.some(5);
  FD xs(xa), ys(ya);
  unsigned t = any_step();
  double dt = vf_real("dt", 1e-6, 4), T = vf_real("T", 0.125, 16);
  departure(n, xa, ya, t, dt, T, bt_name(), part.lo, part.hi);
  for (int i = 0; i < ny; ++i)
    for (int j = 0; j < nx; ++j) {
      Dual X = {xs(i, j), 0, 0}, Y = {ys(i, j), 0, 0};
      if (part.in(j)) backtrace(n.x[j], n.y[i], t, dt, T, rk3, X, Y);
      vf_eq(xa(i, j), X.v, "x of the departure point");
      vf_eq(ya(i, j), Y.v, "y of the departure point");
    }
}
// ---- C27
static void uniform(Nodes &n, double &dx, double &dy)
{
  double x0 = vf_real("x0", -4, 4), y0 = vf_real("y0", -4, 4);
  dx = vf_real("dx", 0.0078125, 2);
  dy = vf_real("dy", 0.0078125, 2);
  for (int j = 0; j < n.nx; ++j) n.x[j] = x0 + j * dx;
  for (int i = 0; i < n.ny; ++i) n.y[i] = y0 + i * dy;
}
static void check_cell(const double *x, int n, double p, unsigned cell, bool out)
{
  vf_check(cell <= (unsigned)(n - 2), "the cell exists");
  if (cell > (unsigned)(n - 2)) return;
  if (out) {
    vf_ieq(cell, p <= x[0] ? 0 : n - 2, "outside the grid: the cell at the side it left by");
    return;
  }
  vf_check(x[cell] <= p, "the cell does not start after the point");
  vf_check(p <= x[cell + 1], "the cell does not end before the point");
}
HARNESS(ref_locate)
{
  const int nx = vf_cfg("nx"), ny = vf_cfg("ny");
  Part part(nx);
  Nodes n(nx, ny);
  double dx, dy;
  uniform(n, dx, dy);
  FD xa(nx, ny), ya(nx, ny);
  FI cx(nx, ny), cy(nx, ny), tr(nx, ny);
  const int few = vf_cfg("few");
  const int q0 = vf_pick("node", 0, few == 2 ? 0 : few ? 4 : nx * ny - 1);
  const int w = few == 2 ? nx * ny - 1 : !few ? q0 : q0 == 4 ? nx * (ny / 2) + nx / 2 : (q0 % 2) * (nx - 1) + (q0 / 2) * nx * (ny - 1);
  for (int i = 0; i < ny; ++i)
    for (int j = 0; j < nx; ++j) {
      int q = i * nx + j;
      bool free = q == w && part.in(j);
      xa(i, j) = n.x[0] + (free ? vf_real("px", -3, nx + 2) : j + 0.5 * (q % 5) - 1) * dx;
      ya(i, j) = n.y[0] + (free ? vf_real("py", -3, ny + 2) : i + 0.5 * (q % 7) - 1.5) * dy;
    }
  cx.fill(0);
  cy.fill(0);
  tr.fill(0);
  locate(n, xa, ya, cx, cy, tr, part.lo, part.hi);
  for (int i = 0; i < ny; ++i)
    for (int j = 0; j < nx; ++j) {
      if (!part.in(j)) {
        vf_ieq(tr(i, j), 0, "columns of the other process are left alone");
        continue;
      }
      bool xo = !(xa(i, j) > n.x[0] && xa(i, j) < n.x[nx - 1]), yo = !(ya(i, j) > n.y[0] && ya(i, j) < n.y[ny - 1]);
      vf_ieq(tr(i, j), xo ? (yo ? 4 : 3) : (yo ? 2 : 1), "class of the departure point");
      if (xo && yo) {
        vf_check(cx(i, j) <= (unsigned)(nx - 2) && cy(i, j) <= (unsigned)(ny - 2), "the cell exists");
        continue;
      }
      check_cell(n.x, nx, xa(i, j), cx(i, j), xo);
      check_cell(n.y, ny, ya(i, j), cy(i, j), yo);
    }
}
HARNESS(ref_update)
{
  const int nx = vf_cfg("nx"), ny = vf_cfg("ny");
  Part part(nx);
  const bool rk3 = !vf_cfg("euler"), heun = vf_cfg("heun");
  Nodes n(nx, ny);
  double dx, dy;
  uniform(n, dx, dy);
  Ls m(nx, ny), w(nx, ny);
  const int few = vf_cfg("few");
  const int q0 = vf_pick("node", 0, few == 2 ? 0 : few ? 4 : nx * ny - 1);
  const int at = few == 2 ? nx * ny - 1 : !few ? q0 : q0 == 4 ? nx * (ny / 2) + nx / 2 : (q0 % 2) * (nx - 1) + (q0 / 2) * nx * (ny - 1);
  const int cls = vf_pick("class", 1, 4);
  int ax, ay;
  if (vf_cfg("all")) {
    ax = vf_pick("cx", 0, nx - 2);
    ay = vf_pick("cy", 0, ny - 2);
  } else {
    int k = vf_pick("cell", 0, 1);
    ax = k ? nx - 2 : 0;
    ay = (k + q0) % 2 ? ny - 2 : 0;
  }
  double s = vf_real("s", 0, 1), r = vf_real("r", 0, 1);
  unsigned t = vf_cfg("late") ? 40000 : 3;
  double dt = vf_real("dt", 1e-6, 4), T = vf_real("T", 0.125, 16);
  // data: anything in the cell of the chosen node and at that node, fixed elsewhere
  m.some(1);
  w.some(4);
#define SYM(l, i, j, p)                                                                    \
  l.phi(i, j) = vf_real(p "phi", -4, 4), l.px(i, j) = vf_real(p "psix", -4, 4), \
  l.py(i, j) = vf_real(p "psiy", -4, 4), l.pxy(i, j) = vf_real(p "psixy", -4, 4)
  for (int a = 0; a < 2; ++a)
    for (int b = 0; b < 2; ++b) {
      SYM(m, ay + a, ax + b, "m");
    }
  const int wi = at / nx, wj = at % nx;
  SYM(w, wi, wj, "w");
  FD xa(nx, ny), ya(nx, ny), X(nx, ny), Y(nx, ny);
  FI cx(nx, ny), cy(nx, ny), tr(nx, ny);
  for (int i = 0; i < ny; ++i)
    for (int j = 0; j < nx; ++j) {
      int q = i * nx + j;
      bool me = q == at;
      int k = me ? cls : 1 + q % 4;
      cx(i, j) = me ? ax : q % (nx - 1);
      cy(i, j) = me ? ay : (q / 2) % (ny - 1);
      tr(i, j) = k;
      X(i, j) = me ? s : 0.25 * (q % 3);
      Y(i, j) = me ? r : 0.5 * (q % 2);
      xa(i, j) = k == 1 || k == 2 ? n.x[cx(i, j)] + X(i, j) * dx : n.x[0] - dx;
      ya(i, j) = k == 1 || k == 3 ? n.y[cy(i, j)] + Y(i, j) * dy : n.y[ny - 1] + dy;
    }
#ifdef REF_CUDA
  FD &xy = w.pxy;  // the kernels keep one field of mixed derivatives
#else
  FD &xy = m.pxy;
#endif
  Ls e(w);
  // expected
  for (int i = 0; i < ny; ++i)
    for (int j = 0; j < nx; ++j) {
      if (!part.in(j)) continue;
      expected_node(n, i, j, tr(i, j), cx(i, j), cy(i, j), X(i, j), Y(i, j), xa(i, j), ya(i, j), m, xy, w, e, t, dt, T, rk3, heun, dx, dy);
    }
  Ls m0(m);
  if (vf_cfg("hist")) {
    Ls w2(nx, ny), m2(nx, ny);
    w2.some(2);
    m2.some(6);
    update(n, xa, ya, cx, cy, tr, t + 1, 0.25, w2, m2, heun ? "SuperConsistent" : "Heuns", rk3 ? "Euler" : "RK3", 1.5, -1, 0);
  }
  update(n, xa, ya, cx, cy, tr, t, dt, w, m, psi_name(), bt_name(), T, part.lo, part.hi);
  for (int i = 0; i < ny; ++i)
    for (int j = 0; j < nx; ++j) {
      vf_eq(w.phi(i, j), e.phi(i, j), "new level set value");
      vf_eq(w.px(i, j), e.px(i, j), "new x derivative");
      vf_eq(w.py(i, j), e.py(i, j), "new y derivative");
      vf_eq(w.pxy(i, j), e.pxy(i, j), "the mixed derivative is not touched here");
      vf_eq(m.phi(i, j), m0.phi(i, j), "the old values are only read");
      vf_eq(m.px(i, j), m0.px(i, j), "the old x derivatives are only read");
      vf_eq(m.py(i, j), m0.py(i, j), "the old y derivatives are only read");
    }
}
// ---- C28
HARNESS(ref_mixed)
{
  const int nx = vf_cfg("nx"), ny = vf_cfg("ny");
  Part part(nx);
  Nodes n(nx, ny);
  FD px(nx, ny), py(nx, ny), pxy(nx, ny);
  double dx = vf_real("dx", 0.0078125, 4), dy = vf_real("dy", 0.0078125, 4);
  px.any("psix");
  py.any("psiy");
  pxy.some(3);
  if (vf_cfg("hist")) {
    FD a(nx, ny), b(nx, ny), c(nx, ny);
    a.some(2);
    b.some(3);
    c.some(5);
    mixed(n, a, b, c, 0.5, 0.125, -1, 0);
  }
  FD e(pxy), p0(px), q0(py);
  for (int i = 0; i < ny; ++i)
    for (int j = 0; j < nx; ++j)
      if (part.in(j)) e(i, j) = mixed_at(px, py, i, j, dx, dy);
  mixed(n, px, py, pxy, dx, dy, part.lo, part.hi);
  for (int i = 0; i < ny; ++i)
    for (int j = 0; j < nx; ++j) {
      vf_eq(pxy(i, j), e(i, j), "mixed derivative");
      vf_eq(px(i, j), p0(i, j), "the x derivatives are only read");
      vf_eq(py(i, j), q0(i, j), "the y derivatives are only read");
    }
}
#endif
// ---- C25: any bicubic, from its values and derivatives at the corners of any cell
HARNESS(ref_hermite)
{
  double c[4][4];
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) c[i][j] = vf_real("c", -4, 4);
  double xo = vf_real("x0", -4, 4), yo = vf_real("y0", -4, 4), dx = vf_real("dx", 0.0078125, 4), dy = vf_real("dy", 0.0078125, 4);
  double s = vf_real("s", vf_cfg("out") ? -1 : 0, vf_cfg("out") ? 2 : 1), t = vf_real("t", vf_cfg("out") ? -1 : 0, vf_cfg("out") ? 2 : 1);
  double phi[4], px[4], py[4], pxy[4];
  auto eval = [&](double a, double b, double &v, double &gx, double &gy, double &gxy) {
    double pa[4] = {1, a, a * a, a * a * a}, da[4] = {0, 1, 2 * a, 3 * a * a}, pb[4] = {1, b, b * b, b * b * b}, db[4] = {0, 1, 2 * b, 3 * b * b};
    v = gx = gy = gxy = 0;
    for (int i = 0; i < 4; ++i)
      for (int j = 0; j < 4; ++j) {
        v += c[i][j] * pa[i] * pb[j];
        gx += c[i][j] * da[i] * pb[j];
        gy += c[i][j] * pa[i] * db[j];
        gxy += c[i][j] * da[i] * db[j];
      }
    gx /= dx;
    gy /= dy;
    gxy /= dx * dy;
  };
  for (int k = 0; k < 4; ++k) eval(k % 2, k / 2, phi[k], px[k], py[k], pxy[k]);
  double v, gx, gy, gxy;
  eval(s, t, v, gx, gy, gxy);
  double x = xo + s * dx, y = yo + t * dy;
  vf_eq(hp(phi, px, py, pxy, x, y, xo, yo, dx, dy), v, "the patch reproduces the bicubic");
  vf_eq(hermx(phi, px, py, pxy, x, y, xo, yo, dx, dy), gx, "and its x derivative");
  vf_eq(hermy(phi, px, py, pxy, x, y, xo, yo, dx, dy), gy, "and its y derivative");
}
#ifdef REF_OLD
VF_TABLE(E(ref_hermite))
#else
// ---- a whole step: uniform flow, any bicubic level set
HARNESS(ref_step)
{
  const int nx = vf_cfg("nx"), ny = vf_cfg("ny");
  g_launch_tile = vf_cfg("tile") ? vf_cfg("tile") : 1;
  const bool part = vf_cfg("part");
  Nodes n(nx, ny);
  double dx, dy;
  uniform(n, dx, dy);
  double cu = vf_real("cu", -1, 1), cv = vf_real("cv", -1, 1), dt = vf_real("dt", 0.0078125, 2);
  g_flow = 1;
  g_u = cu * dx / dt;
  g_v = cv * dy / dt;
  double c[4][4];
  for (int i = 0; i < 4; ++i)
    for (int j = 0; j < 4; ++j) c[i][j] = vf_real("c", -4, 4);
  auto eval = [&](double a, double b, double &v, double &gx, double &gy, double &gxy) {
    double pa[4] = {1, a, a * a, a * a * a}, da[4] = {0, 1, 2 * a, 3 * a * a}, pb[4] = {1, b, b * b, b * b * b}, db[4] = {0, 1, 2 * b, 3 * b * b};
    v = gx = gy = gxy = 0;
    for (int i = 0; i < 4; ++i)
      for (int j = 0; j < 4; ++j) {
        v += c[i][j] * pa[i] * pb[j];
        gx += c[i][j] * da[i] * pb[j];
        gy += c[i][j] * pa[i] * db[j];
        gxy += c[i][j] * da[i] * db[j];
      }
    gx /= dx;
    gy /= dy;
    gxy /= dx * dy;
  };
  Ls m(nx, ny);
  for (int i = 0; i < ny; ++i)
    for (int j = 0; j < nx; ++j) eval(j, i, m.phi(i, j), m.px(i, j), m.py(i, j), m.pxy(i, j));
  Ls w(m);
  FD xa(nx, ny), ya(nx, ny);
  FI cx(nx, ny), cy(nx, ny), tr(nx, ny);
#ifndef REF_CUDA  // the programs clear these (device memory is not cleared)
  cx.fill(0);
  cy.fill(0);
  tr.fill(0);
  xa.fill(0);
  ya.fill(0);
#endif
  const int cut = part ? vf_pick("cut", 0, nx) : 0;
  for (int k = 0; k < (part ? 2 : 1); ++k) {
    int lo = part ? (k ? cut : 0) : -1, hi = k ? nx : cut;
    departure(n, xa, ya, 2, dt, 1, bt_name(), lo, hi);
    locate(n, xa, ya, cx, cy, tr, lo, hi);
    update(n, xa, ya, cx, cy, tr, 2, dt, w, m, psi_name(), bt_name(), 1, lo, hi);
  }
  mixed(n, w.px, w.py, w.pxy, dx, dy, -1, 0);
  copy(w, m, nx, ny);
  FD *pxf = &m.px, *pyf = &m.py;
  for (int i = 0; i < ny; ++i)
    for (int j = 0; j < nx; ++j) {
      double a = j - cu, b = i - cv;
      bool xo = !(a > 0 && a < nx - 1), yo = !(b > 0 && b < ny - 1);
      double v, gx, gy, gxy, v2, gx2, gy2, gxy2;
      eval(j, i, v, gx, gy, gxy);
      if (xo && yo)
        v -= dt * (g_u * gx + g_v * gy);
      else if (!xo && !yo)
        eval(a, b, v, gx, gy, gxy);
      else if (yo) {
        eval(a, i, v2, gx2, gy2, gxy2);
        v = v2 - dt * g_v * gy;
        gx = gx2 - dt * g_v * gxy;
      } else {
        eval(j, b, v2, gx2, gy2, gxy2);
        v = v2 - dt * g_u * gx;
        gy = gy2 - dt * g_u * gxy;
      }
      vf_eq(m.phi(i, j), v, "level set value after the step");
      vf_eq(m.px(i, j), gx, "x derivative after the step");
      vf_eq(m.py(i, j), gy, "y derivative after the step");
      vf_eq(w.pxy(i, j), mixed_at(*pxf, *pyf, i, j, dx, dy), "mixed derivative after the step");
    }
}
VF_TABLE(E(ref_departure), E(ref_locate), E(ref_update), E(ref_mixed), E(ref_hermite), E(ref_step))
#endif
