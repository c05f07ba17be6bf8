// C33: the whole reference programs.  PROGRAM is the file with main; its settings come from vf_set (see engine/refgen.py).
#pragma once
#include "h_common.h"
#include <algorithm>
#include <chrono>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <tuple>
#include <vector>

struct Settings {
  double xlim1, xlim2, ylim1, ylim2, dt, Tfinal, T_period;
  unsigned int nx, ny, option, printstep, TileSize;
  const char *psischeme, *backtrace_scheme;
};
static Settings vf_set;
// a flow whose displacements are numbers: it depends on the position relative to the grid's corner
static int g_flow = 0;
static double at(const double *c, double x, double y, double t, double T) { return c[0] + c[1] * (x - vf_set.xlim1) + c[2] * (y - vf_set.ylim1) + c[3] * t / T; }
static const double VX[3][4] = {{0.75, -0.5, 0.25, -0.5}, {-1.25, 0.25, 0.5, 0.75}, {3, 0.25, 0, -1}};
static const double VY[3][4] = {{-0.5, 0.25, 0.5, 0.25}, {1.5, -0.25, -0.5, 0.5}, {-2.5, 0, 0.25, 0.5}};
// gradients are functions of their own, so that using one for the other shows
static const double G[4][4] = {{0.5, 0.25, -0.125, 0.25}, {-0.25, 0.125, 0.5, -0.5}, {0.125, -0.25, 0.25, 0.75}, {0.375, 0.5, 0.125, -0.25}};
static double vel_x(double x, double y, double t, double T) { return at(VX[g_flow], x, y, t, T); }
static double vel_y(double x, double y, double t, double T) { return at(VY[g_flow], x, y, t, T); }
static double g_ux(double x, double y, double t, double T) { return at(G[0], x, y, t, T); }
static double g_uy(double x, double y, double t, double T) { return at(G[1], x, y, t, T); }
static double g_vx(double x, double y, double t, double T) { return at(G[2], x, y, t, T); }
static double g_vy(double x, double y, double t, double T) { return at(G[3], x, y, t, T); }
#define VELOCITY                                                                               \
  double Velx(double x, double y, double t, double T_period) { return vel_x(x, y, t, T_period); } \
  double Vely(double x, double y, double t, double T_period) { return vel_y(x, y, t, T_period); } \
  double gradUx(double x, double y, double t, double T_period) { return g_ux(x, y, t, T_period); } \
  double gradUy(double x, double y, double t, double T_period) { return g_uy(x, y, t, T_period); } \
  double gradVx(double x, double y, double t, double T_period) { return g_vx(x, y, t, T_period); } \
  double gradVy(double x, double y, double t, double T_period) { return g_vy(x, y, t, T_period); }
#ifdef REF_CUDA
#include "cuda.h"
VELOCITY
static void initial_at(double x, double y, double *r)
{
  double a = x - 0.5, b = y - 0.75, e = exp(-(a * a + b * b));
  r[0] = e - exp(-0.15 * 0.15);
  r[1] = -2 * a * e;
  r[2] = -2 * b * e;
  r[3] = 4 * a * b * e;
}
#else
namespace galsfunctions {
VELOCITY
double initialize(double x, double y) { return vf_uf2("phi", x, y); }
double derivxinit(double x, double y) { return vf_uf2("psix", x, y); }
double derivyinit(double x, double y) { return vf_uf2("psiy", x, y); }
double derivxyinit(double x, double y) { return vf_uf2("psixy", x, y); }
}
static void initial_at(double x, double y, double *r)
{
  r[0] = vf_uf2("phi", x, y);
  r[1] = vf_uf2("psix", x, y);
  r[2] = vf_uf2("psiy", x, y);
  r[3] = vf_uf2("psixy", x, y);
}
#endif
#include "mpi.h"
#define main program_main
#include PROGRAM
#undef main
#include "h_reforacle.h"

#ifdef NO_ARGS
static void run(int rank)
{
  vf_ieq(program_main(), 0, "the program succeeds");
}
#else
static void run(int rank)
{
  char name[8] = "gals", threads[8] = "2";
  char *args[] = {name, threads, nullptr};
  vf_mpi_rank = rank;
  vf_ieq(program_main(2, args), 0, "the program succeeds");
}
#endif
static const char *NAMES[] = {"phi.txt", "psix.txt", "psiy.txt", "psixy.txt", "Velocity_x.txt", "Velocity_y.txt", "details.txt"};
static void expect(int c, const char *msg) { vf_ieq(vf_file_char(), c, msg); }
static void separator() { expect(',', "a comma between numbers"); }
static int cell_of(double u, int n) { return u <= 0 ? 0 : u >= n - 1 ? n - 2 : (int)u; }

HARNESS(program)
{
  const int nx = vf_cfg("nx"), ny = vf_cfg("ny"), steps = vf_cfg("steps"), ranks = vf_cfg("ranks") ? vf_cfg("ranks") : 1;
  const int all = vf_cfg("all");
  const int scheme = all ? vf_pick("scheme", 0, 3) : vf_cfg("scheme");
  const int option = vf_pick("option", 1, 2);
  const int printstep = option == 1 ? vf_pick("printstep", 1, steps + 1) : 2;
  const bool rk3 = !(scheme & 1), heun = scheme & 2;
  g_flow = vf_cfg("flow");
  const double dx = 0.5, dy = 0.25, dt = 0.25, T = 2;
  vf_set.xlim1 = vf_real("x0", -4, 4);
  vf_set.ylim1 = vf_real("y0", -4, 4);
  vf_set.xlim2 = vf_set.xlim1 + dx * (nx - 1);
  vf_set.ylim2 = vf_set.ylim1 + dy * (ny - 1);
  vf_set.nx = nx;
  vf_set.ny = ny;
  vf_set.dt = dt;
  vf_set.Tfinal = dt * steps + (vf_cfg("rest") ? 0.125 : 0);  // a last, partial step is not taken
  vf_set.T_period = T;
  vf_set.option = option;
  vf_set.printstep = printstep;
  vf_set.TileSize = vf_cfg("tile");
  vf_set.psischeme = heun ? "Heuns" : "SuperConsistent";
  vf_set.backtrace_scheme = rk3 ? "RK3" : "Euler";
  // files of an earlier run
  for (int k = 0; k < 7; ++k) {
    std::ofstream f(NAMES[k]);
    f << "x";
  }
  vf_mpi_size = ranks;
  if (ranks == 2) {
    run(1);
    for (int k = 0; k < 7; ++k) {
      vf_check(vf_file_open(NAMES[k]), "only the first process touches the files");
      expect('x', "only the first process touches the files");
      vf_check(vf_file_end(), "only the first process touches the files");
    }
  }
  run(0);
  vf_check(vf_mpi_queue.empty(), "every message is received");
  // expected
  const int every = option == 1 ? printstep : steps;
  Nodes n(nx, ny);
  for (int j = 0; j < nx; ++j) n.x[j] = vf_set.xlim1 + j * dx;
  for (int i = 0; i < ny; ++i) n.y[i] = vf_set.ylim1 + i * dy;
  const int outs = 1 + steps / every;
  FD *out[4];
  for (int k = 0; k < 4; ++k) out[k] = new FD(nx, ny * outs);
  Ls m(nx, ny);
  for (int i = 0; i < ny; ++i)
    for (int j = 0; j < nx; ++j) {
      double r[4];
      initial_at(n.x[j], n.y[i], r);
      m.phi(i, j) = r[0];
      m.px(i, j) = r[1];
      m.py(i, j) = r[2];
      m.pxy(i, j) = r[3];
    }
  for (int t = 0; t <= steps; ++t) {
    if (t) {
      Ls e(m);
      for (int i = 0; i < ny; ++i)
        for (int j = 0; j < nx; ++j) {
          Dual X, Y;
          backtrace(n.x[j], n.y[i], t - 1, dt, T, rk3, X, Y);
          double u = (X.v - vf_set.xlim1) / dx, v = (Y.v - vf_set.ylim1) / dy;
          bool xo = !(u > 0 && u < nx - 1), yo = !(v > 0 && v < ny - 1);
          int cx = cell_of(u, nx), cy = cell_of(v, ny);
          expected_node(n, i, j, xo ? (yo ? 4 : 3) : (yo ? 2 : 1), cx, cy, u - cx, v - cy, X.v, Y.v, m, m.pxy, m, e, t - 1, dt, T, rk3, heun, dx, dy);
        }
      for (int i = 0; i < ny; ++i)
        for (int j = 0; j < nx; ++j) {
          m.phi(i, j) = e.phi(i, j);
          m.px(i, j) = e.px(i, j);
          m.py(i, j) = e.py(i, j);
          m.pxy(i, j) = mixed_at(e.px, e.py, i, j, dx, dy);
        }
    }
    if (t % every) continue;
    FD *f[4] = {&m.phi, &m.px, &m.py, &m.pxy};
    for (int k = 0; k < 4; ++k)
      for (int q = 0; q < nx * ny; ++q) out[k]->a[t / every * nx * ny + q] = f[k]->a[q];
  }
  for (int k = 0; k < 6; ++k) {
    vf_check(vf_file_open(NAMES[k]), "the file exists");
    for (int s = 0; s < outs; ++s) {
      for (int i = 0; i < ny; ++i) {
        for (int j = 0; j < nx; ++j) {
          if (j) separator();
          double tt = s * every * dt;
          vf_file_real(k < 4 ? (*out[k])(s * ny + i, j) : k == 4 ? vel_x(n.x[j], n.y[i], tt, T) : vel_y(n.x[j], n.y[i], tt, T), "the number of this node at this time");
        }
        expect('\n', "a line per row");
      }
      expect('\n', "an empty line after each time");
    }
    vf_check(vf_file_end(), "nothing else is printed");
  }
  vf_check(vf_file_open("details.txt"), "details.txt exists");
  double d[11] = {(double)nx, (double)ny, dx, dy, vf_set.xlim1, vf_set.xlim2, vf_set.ylim1, vf_set.ylim2, (double)steps, dt, (double)every};
  for (int k = 0; k < 11; ++k) {
    if (k) separator();
    vf_file_real(d[k], "details.txt");
  }
  vf_check(vf_file_end(), "nothing else in details.txt");
  for (int k = 0; k < 4; ++k) delete out[k];
}
VF_TABLE(E(program))
