// Shared helpers of the harnesses.
#pragma once
#include "h_common.h"
#include "gals/cpu/gradient.h"
#include "gals/cpu/interpolate.h"
#include "gals/cpu/levelset-velocity.h"
#include "gals/cpu/levelset.h"
#include "gals/cpu/temporal.h"
#include "gals/utilities/array.h"
#include "gals/utilities/grid.h"
#include "gals/utilities/mat3.h"
#include "gals/utilities/utilities.h"
#include "gals/utilities/vec3.h"
#include "gals/utilities/vec_n.h"
using namespace GALS::CPU;

// A box with any corner and any positive spacing, and its cell counts and padding (the bounds of the run).
template <int D>
struct Box {
  int n[3], pad;
  double lo[3], h[3];
  explicit Box(int p = -1)
  {
    n[0] = vf_cfg("nx");
    n[1] = D > 1 ? vf_cfg("ny") : 1;
    n[2] = D > 2 ? vf_cfg("nz") : 1;
    pad = p >= 0 ? p : vf_cfg("pad");
    for (int a = 0; a < 3; ++a) {
      const int w = vf_cfg("wide");  // 0: ordinary, 1: wide, 2: fine spacing, 3: coarse spacing
      lo[a] = w == 0 ? vf_real("lo", -8, 8) : w == 2 ? vf_real("lo", -0.25, 0.25) : vf_real("lo", -1024, 1024);
      h[a] = w == 0 ? vf_real("h", 0.0625, 8)
                    : w == 1 ? vf_real("h", 0.0078125, 128) : w == 2 ? vf_real("h", 1.0 / 1048576, 1.0 / 128) : vf_real("h", 128, 65536);
      if (a >= D && vf_cfg("flat")) h[a] = 0;  // the box has no extent along axes the grid does not have
    }
  }
  double hi(int a) const { return lo[a] + n[a] * h[a]; }
  double node(int a, int i) const { return lo[a] + (i + 0.5) * h[a]; }
  int mn(int a) const { return a < D ? -pad : 0; }
  int mx(int a) const { return a < D ? n[a] + pad : n[a]; }
  bool interior(int i, int j, int k) const
  {
    return i >= 0 && i < n[0] && j >= 0 && j < n[1] && k >= 0 && k < n[2];
  }
};

template <int D>
struct MyGrid : Box<D> {
  typedef Grid<double, D> G;
  G g;
  explicit MyGrid(int p = -1) : Box<D>(p), g(this->n[0], this->n[1], this->n[2])
  {
    if (this->pad != 1) g.setPadding(this->pad);
    gen(g);
  }
  void gen(G &x) const { x.generate(this->lo[0], this->hi(0), this->lo[1], this->hi(1), this->lo[2], this->hi(2)); }
  // what happened before must not matter (hist = 1): the same work on another grid of the same shape, on a larger one, and on
  // this very grid object while it had another box
  template <class F>
  void past(F f)
  {
    if (!vf_cfg("hist")) return;
    const int *n = this->n;
    {
      G o(n[0], n[1], n[2]);
      if (this->pad != 1) o.setPadding(this->pad);
      o.generate(-3, -3 + 2.0 * n[0], 1, 1 + 0.5 * n[1], -7, -7 + 0.75 * n[2]);
      f(o);
    }
    {
      G o(n[0] + 1, D > 1 ? n[1] + 2 : 1, D > 2 ? n[2] + 1 : 1);
      o.setPadding(this->pad + 1);
      o.generate(5, 5 + 0.5 * (n[0] + 1), -1, -1 + 4.0 * (D > 1 ? n[1] + 2 : 1), 0, 1.5 * (D > 2 ? n[2] + 1 : 1));
      f(o);
    }
    g.generate(11, 11 + 3.0 * n[0], -9, -9 + 0.25 * n[1], 2, 2 + 5.0 * n[2]);
    f(g);
    gen(g);
  }
};
// some concrete values, different at every node and component
template <class A>
static void some(A &a, int m, double scale);

#define FOR_ALL(b, i, j, k)                        \
  for (int i = (b).mn(0); i < (b).mx(0); ++i)      \
    for (int j = (b).mn(1); j < (b).mx(1); ++j)    \
      for (int k = (b).mn(2); k < (b).mx(2); ++k)
#define FOR_INTERIOR(b, i, j, k)          \
  for (int i = 0; i < (b).n[0]; ++i)      \
    for (int j = 0; j < (b).n[1]; ++j)    \
      for (int k = 0; k < (b).n[2]; ++k)

static double scalar(const char *name)
{
  const double r = vf_cfg("wide") ? 1048576 : 4;
  return vf_real(name, -r, r);
}
static double positive(const char *name) { return vf_cfg("wide") ? vf_real(name, 1.0 / 65536, 65536) : vf_real(name, 0.015625, 4); }
static double range() { return vf_cfg("wide") ? 1024 : 4; }
template <class B, class A>
static void fill1(const B &b, A &a, const char *name)
{
  const double r = range();
  FOR_ALL(b, i, j, k) a(i, j, k) = vf_real(name, -r, r);
}
template <class B, class A>
static void fillv(const B &b, A &a, const char *name, int m)
{
  const double r = range();
  FOR_ALL(b, i, j, k)
  for (int c = 0; c < m; ++c) a(i, j, k)[c] = vf_real(name, -r, r);
}
// copies of whole arrays, for "nothing else changed"
static double comp(const double &x, int) { return x; }
template <class V>
static double comp(const V &x, int c)
{
  return x[c];
}
template <class B, class A>
struct Snap {
  double *v;
  int m;
  Snap(const B &b, const A &a, int m_) : m(m_)
  {
    int q = 0;
    v = new double[(b.mx(0) - b.mn(0)) * (b.mx(1) - b.mn(1)) * (b.mx(2) - b.mn(2)) * m + 1];
    FOR_ALL(b, i, j, k)
    for (int c = 0; c < m; ++c) {
      v[q++] = comp(a(i, j, k), c);
    }
  }
  Snap(const Snap &o) = default;  // only where the compiler elides it
  ~Snap() { delete[] v; }
  void same(const B &b, const A &a, const char *msg) const
  {
    int q = 0;
    FOR_ALL(b, i, j, k)
    for (int c = 0; c < m; ++c) vf_same(comp(a(i, j, k), c), v[q++], msg);
  }
  void ghostsSame(const B &b, const A &a, const char *msg) const
  {
    int q = 0;
    FOR_ALL(b, i, j, k)
    for (int c = 0; c < m; ++c) {
      if (!b.interior(i, j, k)) vf_same(comp(a(i, j, k), c), v[q], msg);
      q++;
    }
  }
};
static void put(double &x, int, double v) { x = v; }
template <class V>
static void put(V &x, int c, double v)
{
  x[c] = v;
}
template <class A>
static void some(A &a, int m, double scale)
{
  int q = 0;
  for (long s = 0; s < (long)a.size(); ++s)
    for (int c = 0; c < m; ++c, ++q) put(a[s], c, scale * ((q * 7) % 11 - 5 + 0.25 * (q % 3)));
}
#define SNAP(B, b, arr, m) Snap<B, typename std::remove_reference<decltype(arr)>::type>(b, arr, m)

// the node that gets a free point: any node; large grids: the first, a middle or the last one
template <int D, class B>
static int pick_node(const B &b, int *w, int all, int big)
{
  if (all) return 0;
  int at = big ? vf_pick("at", 0, 2) : 0;
  for (int a = 0; a < D; ++a) w[a] = !big ? vf_pick("w", 0, b.n[a] - 1) : at == 0 ? 0 : at == 1 ? b.n[a] / 2 : b.n[a] - 1;
  return at;
}

// a cubic per axis, in coordinates local to a cell (0..1 along each axis)
template <int D>
struct Cubic {
  double c[64];
  explicit Cubic(double range = 1)
  {
    int m = D == 1 ? 4 : D == 2 ? 16 : 64;
    for (int i = 0; i < m; ++i) c[i] = vf_real("c", -range, range);
  }
  // derivative of order dx, dy, dz at t
  double at(const double *t, int dx, int dy, int dz) const
  {
    int d[3] = {dx, dy, dz};
    double p[3][4];
    for (int a = 0; a < D; ++a)
      for (int n = 0; n < 4; ++n) {
        double f = 1;
        int e = n;
        for (int r = 0; r < d[a]; ++r) f *= e > 0 ? e-- : 0;
        if (f != 0)
          for (int r = 0; r < e; ++r) f *= t[a];
        p[a][n] = f;
      }
    double s = 0;
    int q = 0;
    for (int l = 0; l < 4; ++l)
      for (int m = 0; m < (D > 1 ? 4 : 1); ++m)
        for (int n = 0; n < (D > 2 ? 4 : 1); ++n) {
          double w = p[0][l];
          if (D > 1) w *= p[1][m];
          if (D > 2) w *= p[2][n];
          s += c[q++] * w;
        }
    return s;
  }
  double value(const double *t) const { return at(t, 0, 0, 0); }
  double grad(const double *t, int a, const double *h) const { return at(t, a == 0, a == 1, a == 2) / h[a]; }
};
template <int D>
struct MixedCount {
  enum { n = D == 1 ? 0 : D == 2 ? 1 : 4 };
};
// junk in every field of a level set
template <int D, class B>
static void junk(const B &b, Levelset<Grid<double, D>, double> &l)
{
  const int m = MixedCount<D>::n;
  fill1(b, l.phi(), "phi");
  fillv(b, l.psi(), "psi", 3);
  fillv(b, l.phiMixedDerivatives(), "mix", m);
  fill1(b, l.phiPrev(), "phip");
  fillv(b, l.psiPrev(), "psip", 3);
  fillv(b, l.phiMixedDerivativesPrev(), "mixp", m);
  fill1(b, l.phiInterpPrev(), "phii");
  fillv(b, l.psiInterpPrev(), "psii", 3);
}
template <int D>
static void some_ls(Levelset<Grid<double, D>, double> &l)
{
  const int m = MixedCount<D>::n;
  some(l.phi(), 1, 1), some(l.psi(), 3, 0.5), some(l.phiMixedDerivatives(), m, 0.25);
  some(l.phiPrev(), 1, -1), some(l.psiPrev(), 3, 2), some(l.phiMixedDerivativesPrev(), m, -0.5);
  some(l.phiInterpPrev(), 1, 3), some(l.psiInterpPrev(), 3, -2);
}
template <int D, class B>
struct LsSnap {
  typedef Grid<double, D> G;
  Snap<B, Array<G, double>> phi, phip, phii;
  Snap<B, Array<G, Vec3<double>>> psi, psip, psii;
  Snap<B, Array<G, VecN<double, MixedCount<D>::n>>> mix, mixp;
  LsSnap(const B &b, Levelset<G, double> &l)
      : phi(b, l.phi(), 1),
        phip(b, l.phiPrev(), 1),
        phii(b, l.phiInterpPrev(), 1),
        psi(b, l.psi(), 3),
        psip(b, l.psiPrev(), 3),
        psii(b, l.psiInterpPrev(), 3),
        mix(b, l.phiMixedDerivatives(), MixedCount<D>::n),
        mixp(b, l.phiMixedDerivativesPrev(), MixedCount<D>::n)
  {
  }
  void prevSame(const B &b, Levelset<G, double> &l) const
  {
    phip.same(b, l.phiPrev(), "phi of the previous step is left alone");
    psip.same(b, l.psiPrev(), "psi of the previous step is left alone");
    mixp.same(b, l.phiMixedDerivativesPrev(), "mixed derivatives of the previous step are left alone");
    mix.same(b, l.phiMixedDerivatives(), "mixed derivatives are left alone");
  }
  void currentSame(const B &b, Levelset<G, double> &l) const
  {
    phi.same(b, l.phi(), "phi is left alone");
    psi.same(b, l.psi(), "psi is left alone");
  }
  void interpSame(const B &b, Levelset<G, double> &l) const
  {
    phii.same(b, l.phiInterpPrev(), "interpolated phi is left alone");
    psii.same(b, l.psiInterpPrev(), "interpolated psi is left alone");
  }
};
// the tensor-product cubic Hermite interpolant of the previous fields, written out: r[0] its value, r[1..3] its gradient, at the
// point t (in cells from the node `base`)
static void hermite_basis(double t, double v[2][2], double g[2][2])
{
  const double u = 1 - t;
  v[0][0] = u * u * (1 + 2 * t), v[1][0] = t * t * (3 - 2 * t), v[0][1] = t * u * u, v[1][1] = -(t * t * u);
  g[0][0] = -6 * t * u, g[1][0] = 6 * t * u, g[0][1] = u * u - 2 * t * u, g[1][1] = t * t - 2 * t * u;
}
template <int D, class B>
static void hermite_value(const B &b, Levelset<Grid<double, D>, double> &l, const int *base, const double *t, double *r)
{
  double v[3][2][2] = {}, g[3][2][2] = {};
  for (int a = 0; a < D; ++a) hermite_basis(t[a], v[a], g[a]);
  for (int q = 0; q < 4; ++q) r[q] = 0;
  for (int e = 0; e < 1 << D; ++e)
    for (int d = 0; d < 1 << D; ++d) {
      const Vec3<int> id(base[0] + (e & 1), base[1] + (e >> 1 & 1), base[2] + (e >> 2 & 1));
      double f = 0;
      switch (d) {  // derivative along the axes in d
        case 0: f = l.phiPrev()(id); break;
        case 1: f = l.psiPrev()(id)[0]; break;
        case 2: f = l.psiPrev()(id)[1]; break;
        case 4: f = l.psiPrev()(id)[2]; break;
        case 3: f = l.phiMixedDerivativesPrev()(id)[0]; break;
        case 6: f = l.phiMixedDerivativesPrev()(id)[1]; break;
        case 5: f = l.phiMixedDerivativesPrev()(id)[2]; break;
        case 7: f = l.phiMixedDerivativesPrev()(id)[3]; break;
      }
      for (int a = 0; a < D; ++a)
        if (d >> a & 1) f *= b.h[a];
      for (int q = 0; q <= D; ++q) {
        double w = f;
        for (int a = 0; a < D; ++a) w *= q == a + 1 ? g[a][e >> a & 1][d >> a & 1] : v[a][e >> a & 1][d >> a & 1];
        r[q] += q ? w / b.h[q - 1] : w;
      }
    }
}
// the previous-step fields of the corners of the cell at `base` sample the cubic
template <int D, class B>
static void sample(const B &b, const Cubic<D> &P, const int *base, Levelset<Grid<double, D>, double> &l)
{
  const double *h = b.h;
  for (int x = 0; x < 2; ++x)
    for (int y = 0; y < (D > 1 ? 2 : 1); ++y)
      for (int z = 0; z < (D > 2 ? 2 : 1); ++z) {
        double t[3] = {(double)x, (double)y, (double)z};
        Vec3<int> id(base[0] + x, base[1] + y, base[2] + z);
        l.phiPrev()(id) = P.value(t);
        for (int a = 0; a < D; ++a) l.psiPrev()(id)[a] = P.grad(t, a, h);
        if (D > 1) l.phiMixedDerivativesPrev()(id)[0] = P.at(t, 1, 1, 0) / (h[0] * h[1]);
        if (D > 2) {
          l.phiMixedDerivativesPrev()(id)[1] = P.at(t, 0, 1, 1) / (h[1] * h[2]);
          l.phiMixedDerivativesPrev()(id)[2] = P.at(t, 1, 0, 1) / (h[0] * h[2]);
          l.phiMixedDerivativesPrev()(id)[3] = P.at(t, 1, 1, 1) / (h[0] * h[1] * h[2]);
        }
      }
}
