// C08, C09, C10, C11: interpolation
#include "h_gals.h"
using GALS::INTERPOLATION::ControlPoints;
using GALS::INTERPOLATION::get_control_points;
using GALS::INTERPOLATION::Hermite;
using GALS::INTERPOLATION::Linear;

template <int D>
static void earlier_points(const Grid<double, D> &o)
{
  typedef Grid<double, D> G;
  Levelset<G, double> e(o);
  some_ls<D>(e);
  Array<G, Vec3<double>> x(o);
  int q = 0;
  for (long s = 0; s < (long)x.size(); ++s)
    for (int a = 0; a < D; ++a, ++q) x[s][a] = o(0, 0, 0)[a] + 0.25 * (q % 4) * o.dX()[a];
  Hermite<double, G> H;
  H.compute(x, e);
  H.interpolate(o, x(0, 0, 0), e);
  H.interpolate(o, x(0, 0, 0), e, true);
}
// the same level set earlier, with other data
template <int D>
static void earlier_data(const Grid<double, D> &g, Levelset<Grid<double, D>, double> &l)
{
  if (!vf_cfg("hist")) return;
  some_ls<D>(l);
  Hermite<double, Grid<double, D>> H;
  Vec3<double> x = g(0, 0, 0);
  H.interpolate(g, x, l);
}
// ---- C08: any cubic, any cell, any point of the cell
template <int D>
static void cubic_cell()
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  b.past(earlier_points<D>);
  Levelset<G, double> l(b.g);
  earlier_data<D>(b.g, l);
  if (vf_cfg("big"))
    some_ls<D>(l);
  else
    junk<D>(b, l);
  int base[3] = {0, 0, 0};
  int at = vf_cfg("big") ? vf_pick("at", 0, 2) : 0;
  for (int a = 0; a < D; ++a)
    base[a] = !vf_cfg("big") ? vf_pick("base", -b.pad, b.n[a] + b.pad - 2) : at == 0 ? -b.pad : at == 1 ? b.n[a] / 2 : b.n[a] + b.pad - 2;
  Cubic<D> P;
  sample<D>(b, P, base, l);
  double t[3] = {0, 0, 0}, x[3];
  for (int a = 0; a < D; ++a) {
    t[a] = vf_real("t", 0, 1);
    vf_assume(t[a] < 1);
  }
  for (int a = 0; a < 3; ++a) x[a] = a < D ? b.node(a, base[a]) + t[a] * b.h[a] : vf_real("unused", -4, 4);
  Hermite<double, G> H;
  auto r = H.interpolate(b.g, Vec3<double>(x[0], x[1], x[2]), l);
  vf_eq(r.phi_interpolated, P.value(t), "the interpolant reproduces the cubic");
  for (int a = 0; a < D; ++a) vf_eq(r.psi_interpolated[a], P.grad(t, a, b.h), "the interpolated gradient is the cubic's gradient");
  for (int a = D; a < 3; ++a) vf_eq(r.psi_interpolated[a], 0, "gradient along axes the grid does not have is zero");
}
HARNESS(cubic1) { cubic_cell<1>(); }
HARNESS(cubic2) { cubic_cell<2>(); }
HARNESS(cubic3) { cubic_cell<3>(); }

// any data: at a node the interpolant returns the node's own value and gradient
template <int D>
static void nodal()
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  b.past(earlier_points<D>);
  Levelset<G, double> l(b.g);
  earlier_data<D>(b.g, l);
  junk<D>(b, l);
  int id[3] = {0, 0, 0};
  for (int a = 0; a < D; ++a) id[a] = vf_pick("id", -b.pad, b.n[a] + b.pad - 2);
  double x[3] = {0, 0, 0};
  for (int a = 0; a < D; ++a) x[a] = b.node(a, id[a]);
  Hermite<double, G> H;
  auto r = H.interpolate(b.g, Vec3<double>(x[0], x[1], x[2]), l);
  Vec3<int> n(id[0], id[1], id[2]);
  vf_eq(r.phi_interpolated, l.phiPrev()(n), "at a node the interpolant is the nodal value");
  for (int a = 0; a < D; ++a) vf_eq(r.psi_interpolated[a], l.psiPrev()(n)[a], "at a node the gradient is the nodal gradient");
}
HARNESS(nodal1) { nodal<1>(); }
HARNESS(nodal2) { nodal<2>(); }
HARNESS(nodal3) { nodal<3>(); }

// ---- C09: the field version evaluates the point version at every node and changes nothing else
template <int D>
static void field_compute()
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  b.past(earlier_points<D>);
  Levelset<G, double> l(b.g);
  Hermite<double, G> H;
  Array<G, Vec3<double>> x(b.g);
  if (vf_cfg("hist")) {
    some_ls<D>(l);
    FOR_ALL(b, i, j, k) x(i, j, k) = b.g(0, 0, 0);
    H.compute(x, l);
  }
  junk<D>(b, l);
  int w[3] = {0, 0, 0}, q = 0;
  int big = vf_cfg("big"), sym = vf_cfg("sym");
  const int at = pick_node<D>(b, w, 0, big);
  const double unused = D < 3 ? 3 * vf_pick("unused", 0, 1) : 0;  // coordinate along axes the grid does not have
  // one node asks at any point of the padded grid, the others at fixed offsets
  FOR_ALL(b, i, j, k)
  {
    int id[3] = {i, j, k};
    bool free = i == w[0] && j == w[1] && k == w[2];
    for (int a = 0; a < 3; ++a) {
      double t;
      if (a >= D) {
        x(i, j, k)[a] = unused;
        continue;
      }
      if (free && !big) {
        t = vf_real("t", -b.pad, b.n[a] - 1 + b.pad);
        vf_assume(t < b.n[a] - 1 + b.pad);
      } else if ((free || (sym && !(q % sym))) && b.interior(i, j, k)) {
        // any point within one of the cells next to the node
        bool left = (q / 2) % 2;
        t = id[a] + (left ? vf_real("t", -1, 0) : vf_real("t", 0, 1));
        vf_assume(left ? t < id[a] : t < id[a] + 1);
        q++;
      } else
        t = id[a] + (q++ % 3 - 1) * 0.25;
      x(i, j, k)[a] = b.node(a, 0) + t * b.h[a];
    }
  }
  const int N = b.n[0] * b.n[1] * b.n[2];
  double *ep = new double[N], (*es)[3] = new double[N][3];
  int p = 0;
  FOR_INTERIOR(b, i, j, k)
  {
    auto r = H.interpolate(b.g, x(i, j, k), l);
    ep[p] = r.phi_interpolated;
    for (int a = 0; a < 3; ++a) es[p][a] = r.psi_interpolated[a];
    p++;
  }
  LsSnap<D, MyGrid<D>> s(b, l);
  auto sx = SNAP(MyGrid<D>, b, x, 3);
  int how = big ? at : vf_pick("how", 0, 2);
  if (how == 0)
    H.compute(x, l);
  else if (how == 1)
    H(x, l);
  else
    Interpolate<double, G, Hermite<double, G>>::compute(x, l);
  p = 0;
  FOR_INTERIOR(b, i, j, k)
  {
    vf_eq(l.phiInterpPrev()(i, j, k), ep[p], "interpolated phi of a node");
    for (int a = 0; a < 3; ++a) vf_eq(l.psiInterpPrev()(i, j, k)[a], es[p][a], "interpolated psi of a node");
    p++;
  }
  s.phii.ghostsSame(b, l.phiInterpPrev(), "interpolated phi of ghost nodes is left alone");
  s.psii.ghostsSame(b, l.psiInterpPrev(), "interpolated psi of ghost nodes is left alone");
  s.prevSame(b, l);
  s.currentSame(b, l);
  sx.same(b, x, "the interpolation points are left alone");
  delete[] ep;
  delete[] es;
}
// the points may be held on a grid with fewer cells (and another padding) than the level set's
template <int D>
static void field_fewer()
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  int m[3] = {1, 1, 1};
  for (int a = 0; a < D; ++a) m[a] = vf_pick("m", 1, b.n[a]);
  G o(m[0], m[1], m[2]);
  o.setPadding(vf_pick("opad", 0, 2));
  o.generate(1, 3, -1, 4, 0, 2);
  Levelset<G, double> l(b.g);
  Hermite<double, G> H;
  Array<G, Vec3<double>> x(o);
  junk<D>(b, l);
  int q = 0;
  for (int i = 0; i < m[0]; ++i)
    for (int j = 0; j < m[1]; ++j)
      for (int k = 0; k < m[2]; ++k)
        for (int a = 0; a < D; ++a, ++q) {
          double f = vf_real("t", 0, 1);
          vf_assume(f < 1);
          x(i, j, k)[a] = b.node(a, q % (b.n[a] + b.pad)) + (f - 1) * b.h[a];
        }
  LsSnap<D, MyGrid<D>> s(b, l);
  int how = vf_pick("how", 0, 2);
  if (how == 0)
    H.compute(x, l);
  else if (how == 1)
    H(x, l);
  else
    Interpolate<double, G, Hermite<double, G>>::compute(x, l);
  int p = 0;
  FOR_ALL(b, i, j, k)
  {
    if (i >= 0 && i < m[0] && j >= 0 && j < m[1] && k >= 0 && k < m[2]) {
      auto r = H.interpolate(b.g, x(i, j, k), l);
      vf_eq(l.phiInterpPrev()(i, j, k), r.phi_interpolated, "interpolated phi at a point");
      for (int a = 0; a < 3; ++a) vf_eq(l.psiInterpPrev()(i, j, k)[a], r.psi_interpolated[a], "interpolated psi at a point");
    } else {
      vf_eq(l.phiInterpPrev()(i, j, k), s.phii.v[p], "interpolated phi where no point was given is left alone");
      for (int a = 0; a < 3; ++a) vf_eq(l.psiInterpPrev()(i, j, k)[a], s.psii.v[3 * p + a], "interpolated psi where no point was given is left alone");
    }
    p++;
  }
  s.prevSame(b, l);
  s.currentSame(b, l);
}
HARNESS(fewer1) { field_fewer<1>(); }
HARNESS(fewer2) { field_fewer<2>(); }
HARNESS(fewer3) { field_fewer<3>(); }
HARNESS(field1) { field_compute<1>(); }
HARNESS(field2) { field_compute<2>(); }
HARNESS(field3) { field_compute<3>(); }

// ---- C10: control points and gradient limiting
HARNESS(cp_plain)
{
  double p0 = vf_real("p0", -4, 4), s0 = vf_real("s0", -4, 4), p1 = vf_real("p1", -4, 4), s1 = vf_real("s1", -4, 4),
         h = vf_real("h", 0.0625, 4), t = vf_real("t", 0, 1);
  ControlPoints<double> c = vf_pick("how", 0, 1) ? get_control_points(p0, s0, p1, s1, h) : get_control_points(p0, s0, p1, s1, h, false);
  vf_eq(c.c_30, p0, "first control point");
  vf_eq(c.c_03, p1, "last control point");
  vf_eq(3 * (c.c_21 - p0), s0 * h, "second control point carries the left slope");
  vf_eq(3 * (p1 - c.c_12), s1 * h, "third control point carries the right slope");
}
static double sq(double x) { return x * x; }
HARNESS(cp_limited)
{
  double p0 = vf_real("p0", -4, 4), s0 = vf_real("s0", -4, 4), p1 = vf_real("p1", -4, 4), s1 = vf_real("s1", -4, 4),
         h = vf_real("h", 0.0625, 4);
  double a = s0 * h, d = s1 * h;          // end slopes of the curve over the unit interval
  double e = p1 - p0;                     // slope of the chord
  double c21 = p0 + a / 3, c12 = p1 - d / 3;
  double f = 1.5 * (c12 - p0), g = 1.5 * (p1 - c21);
  double q1 = (a - f) * (a - e), q2 = (d - g) * (d - e), q3 = (a - e) * (d - e);
  const double m = 1e-6;  // stay clear of the switching points (rounding)
  int kind = vf_pick("kind", 0, 3);
  if (kind == 0) vf_assume(q1 <= -m);
  if (kind > 0) vf_assume(q1 >= m);
  if (kind == 1) vf_assume(q2 <= -m);
  if (kind > 1) vf_assume(q2 >= m);
  if (kind == 2) vf_assume(q3 <= -m);
  if (kind > 2) vf_assume(q3 >= m);
  ControlPoints<double> c = get_control_points(p0, s0, p1, s1, h, true);
  vf_eq(c.c_30, p0, "limiting keeps the left end");
  vf_eq(c.c_03, p1, "limiting keeps the right end");
  if (kind == 0) {
    vf_eq(c.c_21, c21, "left slope governs: second control point kept");
    vf_eq(c.c_12, 2 * c21 - p0, "left slope governs: third control point continues it");
  } else if (kind == 1) {
    vf_eq(c.c_12, c12, "right slope governs: third control point kept");
    vf_eq(c.c_21, 2 * c12 - p1, "right slope governs: second control point continues it");
  } else if (kind == 2) {
    vf_eq(c.c_21, p0 + e / 3, "slopes on both sides of the chord: linear");
    vf_eq(c.c_12, p1 - e / 3, "slopes on both sides of the chord: linear");
  } else {
    vf_eq(c.c_21, c21, "no limiting needed: second control point kept");
    vf_eq(c.c_12, c12, "no limiting needed: third control point kept");
  }
}
// ties: an end slope equal to the chord's makes the curve straight
HARNESS(cp_ties)
{
  double p0 = vf_real("p0", -4, 4), a = vf_real("a", -4, 4), d = vf_real("d", -4, 4), p1 = p0 + 3 * a;
  bool left = vf_pick("left", 0, 1);
  ControlPoints<double> c = left ? get_control_points<double>(p0, 3 * a, p1, 3 * d, 1.0, true) : get_control_points<double>(p0, 3 * d, p1, 3 * a, 1.0, true);
  vf_eq(c.c_30, p0, "limiting keeps the left end");
  vf_eq(c.c_03, p1, "limiting keeps the right end");
  vf_eq(c.c_21, p0 + a, "an end slope equal to the chord's: second control point on the chord");
  vf_eq(c.c_12, p1 - a, "an end slope equal to the chord's: third control point on the chord");
}
// 1D interpolation with limiting is the Bernstein curve of the limited control points
HARNESS(limited1)
{
  typedef Grid<double, 1> G;
  MyGrid<1> b;
  Levelset<G, double> l(b.g);
  junk<1>(b, l);
  int base = vf_pick("base", -b.pad, b.n[0] + b.pad - 2);
  double t = vf_real("t", 0, 1);
  vf_assume(t < 1);
  Hermite<double, G> H;
  Vec3<double> x(b.node(0, base) + t * b.h[0], 0, 0);
  const Array<G, double> &f = l.phiPrev();
  const Array<G, Vec3<double>> &s = l.psiPrev();
  bool on = vf_pick("on", 0, 1);
  ControlPoints<double> c = get_control_points(f(base, 0, 0), s(base, 0, 0)[0], f(base + 1, 0, 0), s(base + 1, 0, 0)[0], b.h[0], on);
  auto r = H.interpolate(b.g, x, l, on);
  double u = 1 - t;
  vf_eq(r.phi_interpolated, c.c_30 * u * u * u + 3 * c.c_21 * t * u * u + 3 * c.c_12 * t * t * u + c.c_03 * t * t * t,
        "limited curve in Bernstein form");
  vf_eq(r.psi_interpolated[0] * b.h[0],
        3 * ((c.c_21 - c.c_30) * u * u + 2 * (c.c_12 - c.c_21) * t * u + (c.c_03 - c.c_12) * t * t), "slope of the limited curve");
}
// along every edge of a cell, the 2D and 3D interpolants are the 1D curve (limited or not); the far edges belong to the next
// cell and are approached from within: the interpolant is a cubic along each axis, so four samples give its limit
template <int D>
static void edges()
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  Levelset<G, double> l(b.g);
  junk<D>(b, l);
  int base[3] = {0, 0, 0};
  for (int a = 0; a < D; ++a) base[a] = vf_pick("base", 0, 1) ? b.n[a] + b.pad - 2 : -b.pad;
  int ax = D == 3 ? vf_cfg("axis") : vf_pick("axis", 0, D - 1);
  double t = vf_real("t", 0, 1), u = 1 - t;
  vf_assume(t < 1);
  bool on = vf_pick("on", 0, 1);
  // limiting: the field varies along the edge only (any end values and slopes); without it: any field
  if (on) FOR_ALL(b, i, j, k)
  {
    int id[3] = {i, j, k}, o[3] = {base[0], base[1], base[2]};
    o[ax] = id[ax];
    Vec3<int> src(o[0], o[1], o[2]);
    l.phiPrev()(i, j, k) = l.phiPrev()(src);
    for (int a = 0; a < 3; ++a) l.psiPrev()(i, j, k)[a] = a == ax ? l.psiPrev()(src)[ax] : 0;
    for (int a = 0; a < MixedCount<D>::n; ++a) l.phiMixedDerivativesPrev()(i, j, k)[a] = 0;
  }
  int far[3] = {0, 0, 0};
  for (int a = 0; a < D; ++a)
    if (a != ax) far[a] = D == 3 ? vf_cfg("far") >> a & 1 : vf_pick("far", 0, 1);
  Vec3<int> n0(base[0] + far[0], base[1] + far[1], base[2] + far[2]);
  Vec3<int> n1(n0[0] + (ax == 0), n0[1] + (ax == 1), n0[2] + (ax == 2));
  const Array<G, double> &f = l.phiPrev();
  const Array<G, Vec3<double>> &s = l.psiPrev();
  ControlPoints<double> c = get_control_points(f(n0), s(n0)[ax], f(n1), s(n1)[ax], b.h[ax], on);
  Hermite<double, G> H;
  static const double wt[] = {-1, 4, -6, 4};
  double limit = 0;
  for (int p = 0; p < (far[0] ? 4 : 1); ++p)
    for (int q = 0; q < (far[1] ? 4 : 1); ++q)
      for (int m = 0; m < (far[2] ? 4 : 1); ++m) {
        int at[3] = {p, q, m};
        double w = 1;
        Vec3<double> x;
        for (int a = 0; a < D; ++a) {
          x[a] = b.node(a, base[a]) + (a == ax ? t : 0.25 * at[a]) * b.h[a];
          if (far[a]) w *= wt[at[a]];
        }
        limit += w * H.interpolate(b.g, x, l, on).phi_interpolated;
      }
  vf_eq(limit, c.c_30 * u * u * u + 3 * c.c_21 * t * u * u + 3 * c.c_12 * t * t * u + c.c_03 * t * t * t,
        "along a cell edge the interpolant is the one-dimensional curve");
}
HARNESS(edges2) { edges<2>(); }
HARNESS(edges3) { edges<3>(); }
// limiting leaves linear fields alone
template <int D>
static void limited_linear()
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  Levelset<G, double> l(b.g);
  double g[3], o = vf_real("o", -4, 4);
  for (int a = 0; a < 3; ++a) g[a] = vf_real("g", -4, 4);
  FOR_ALL(b, i, j, k)
  {
    int id[3] = {i, j, k};
    double s = o;
    for (int a = 0; a < D; ++a) {
      s += g[a] * id[a];
      l.psiPrev()(i, j, k)[a] = g[a] / b.h[a];
    }
    l.phiPrev()(i, j, k) = s;
  }
  double e = o;
  Vec3<double> x;
  for (int a = 0; a < D; ++a) {
    double t = vf_real("t", -1, b.n[a]);
    vf_assume(t < b.n[a]);
    x[a] = b.node(a, 0) + t * b.h[a];
    e += g[a] * t;
  }
  Hermite<double, G> H;
  auto r = H.interpolate(b.g, x, l, true);
  vf_eq(r.phi_interpolated, e, "limiting leaves a linear field alone");
  for (int a = 0; a < D; ++a) vf_eq(r.psi_interpolated[a] * b.h[a], g[a], "limiting leaves the gradient of a linear field alone");
}
HARNESS(limlin1) { limited_linear<1>(); }
HARNESS(limlin2) { limited_linear<2>(); }
HARNESS(limlin3) { limited_linear<3>(); }

// ---- C11: linear interpolation in 1D
static void earlier_linear(const Grid<double, 1> &o)
{
  typedef Grid<double, 1> G;
  Array<G, double> a(o), r(o);
  Array<G, Vec3<double>> x(o);
  some(a, 1, 1);
  for (long s = 0; s < (long)x.size(); ++s) x[s][0] = o(0, 0, 0)[0] + 0.25 * (s % 4) * o.dX()[0];
  Linear<double, G> L;
  L.compute(x, a, r);
}
HARNESS(linear_point)
{
  typedef Grid<double, 1> G;
  MyGrid<1> b;
  b.past(earlier_linear);
  Array<G, double> a(b.g);
  if (vf_cfg("hist")) {
    some(a, 1, 1);
    Linear<double, G> e;
    e.linearInterpolation(b.g, b.g(0, 0, 0), a);
  }
  fill1(b, a, "a");
  auto s = SNAP(MyGrid<1>, b, a, 1);
  int base;
  if (vf_cfg("big")) {
    int at = vf_pick("at", 0, 2);
    base = at == 0 ? -b.pad : at == 1 ? b.n[0] / 2 : b.n[0] + b.pad - 2;
  } else
    base = vf_pick("base", -b.pad, b.n[0] + b.pad - 2);
  double t = vf_real("t", 0, 1);
  vf_assume(t < 1);
  Linear<double, G> L;
  double r = L.linearInterpolation(b.g, Vec3<double>(b.node(0, base) + t * b.h[0], vf_real("y", -4, 4), vf_real("z", -4, 4)), a);
  double p = a(base, 0, 0), q = a(base + 1, 0, 0);
  vf_eq(r, p + t * (q - p), "linear interpolation between the enclosing nodes");
  vf_le(p < q ? p : q, r, "linear interpolation stays above the smaller nodal value");
  vf_le(r, p < q ? q : p, "linear interpolation stays below the larger nodal value");
  s.same(b, a, "the interpolated field is left alone");
}
HARNESS(linear_field)
{
  typedef Grid<double, 1> G;
  MyGrid<1> b;
  b.past(earlier_linear);
  G g2(vf_cfg("nx2"));
  double lo2 = vf_real("lo2", -8, 8), h2 = vf_real("h2", 0.0625, 8);
  g2.generate(lo2, lo2 + vf_cfg("nx2") * h2, 0, 1, 0, 1);
  Array<G, double> a(b.g), r(g2);
  Array<G, Vec3<double>> x(g2);
  fill1(b, a, "a");
  int n2 = vf_cfg("nx2");
  double *t = new double[n2];
  int big = vf_cfg("big");
  for (int i = -1; i <= n2; ++i) r(i, 0, 0) = vf_real("old", -4, 4);
  double o0 = r(-1, 0, 0), o1 = r(n2, 0, 0);
  for (int i = 0; i < n2; ++i) {
    if (big) {  // any point inside one cell per node
      int at = (5 * i) % (b.n[0] - 1 + 2 * b.pad) - b.pad;
      t[i] = vf_real("t", at, at + 1);
      vf_assume(t[i] > at && t[i] < at + 1);
    } else {
      t[i] = vf_real("t", -b.pad, b.n[0] - 1 + b.pad);
      vf_assume(t[i] < b.n[0] - 1 + b.pad);
    }
    x(i, 0, 0) = Vec3<double>(b.node(0, 0) + t[i] * b.h[0], 0, 0);
  }
  auto s = SNAP(MyGrid<1>, b, a, 1);
  int how = vf_pick("how", 0, 2);
  Linear<double, G> L;
  if (how == 0)
    L.compute(x, a, r);
  else if (how == 1)
    L(x, a, r);
  else
    Interpolate<double, G>::compute(x, a, r);
  for (int i = 0; i < n2; ++i)
    vf_eq(r(i, 0, 0), L.linearInterpolation(b.g, x(i, 0, 0), a), "each point of the field version is the point version");
  vf_eq(r(-1, 0, 0), o0, "ghost nodes of the result are left alone");
  vf_eq(r(n2, 0, 0), o1, "ghost nodes of the result are left alone");
  s.same(b, a, "the interpolated field is left alone");
  delete[] t;
}
VF_TABLE(E(fewer1), E(fewer2), E(fewer3), E(cubic1), E(cubic2), E(cubic3), E(nodal1), E(nodal2), E(nodal3), E(field1), E(field2), E(field3), E(cp_plain),
         E(cp_limited), E(cp_ties), E(limited1), E(edges2), E(edges3), E(limlin1), E(limlin2), E(limlin3), E(linear_point), E(linear_field))
