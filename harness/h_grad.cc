// C06, C07: gradients of scalar and vector fields
#include "h_gals.h"

template <int D>
struct G2 {
  typedef Grid<double, D> G;
  typedef SecondOrderCentral<double, G> S;
  enum { pad = 1, degree = 2 };
  // derivative at 0 (times the spacing) of the quadratic through the values at -1, 0, 1
  static double d(double, double m1, double, double p1) { return 0.5 * p1 - 0.5 * m1; }
};
template <int D>
struct G3 {
  typedef Grid<double, D> G;
  typedef ThirdOrder<double, G> S;
  enum { pad = 2, degree = 3 };
  // derivative at 0 (times the spacing) of the cubic through the values at -2, -1, 0, 1
  static double d(double m2, double m1, double z, double p1) { return m2 / 6 - m1 + z / 2 + p1 / 3; }
};

// any data: the gradient is the derivative of the polynomial through the stencil; everything else stays
template <int D, template <int> class Q>
static void scalar_any()
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  auto earlier = [](const G &o) {
    Array<G, double> c(o);
    Array<G, Vec3<double>> d(o);
    some(c, 1, 1);
    Gradient<double, G, typename Q<D>::S>::compute(c, d);
  };
  b.past(earlier);
  Array<G, double> a(b.g);
  Array<G, Vec3<double>> g(b.g);
  typename Q<D>::S sch;
  if (vf_cfg("hist")) {
    some(a, 1, -2);
    sch.compute(a, g);
  }
  fill1(b, a, "a");
  fillv(b, g, "old", 3);
  auto sa = SNAP(MyGrid<D>, b, a, 1);
  auto sg = SNAP(MyGrid<D>, b, g, 3);
  int how = vf_pick("how", 0, 2);
  if (how == 0)
    Gradient<double, G, typename Q<D>::S>::compute(a, g);
  else if (how == 1)
    sch(a, g);
  else
    sch.compute(a, g);
  sa.same(b, a, "the differentiated field is left alone");
  sg.ghostsSame(b, g, "the gradient of ghost nodes is left alone");
  int q = 0;
  FOR_ALL(b, i, j, k)
  for (int x = 0; x < 3; ++x, ++q) {
    if (!b.interior(i, j, k)) continue;
    if (x >= D) {
      vf_eq(g(i, j, k)[x], sg.v[q], "components the grid does not have are left alone");
      continue;
    }
    int e[3] = {x == 0, x == 1, x == 2};
    double m2 = Q<D>::pad > 1 ? a(i - 2 * e[0], j - 2 * e[1], k - 2 * e[2]) : 0;
    vf_eq(g(i, j, k)[x] * b.h[x],
          Q<D>::d(m2, a(i - e[0], j - e[1], k - e[2]), a(i, j, k), a(i + e[0], j + e[1], k + e[2])),
          "gradient is the derivative of the polynomial through its stencil");
  }
}
HARNESS(sc2_1) { scalar_any<1, G2>(); }
HARNESS(sc2_2) { scalar_any<2, G2>(); }
HARNESS(sc2_3) { scalar_any<3, G2>(); }
HARNESS(sc3_1) { scalar_any<1, G3>(); }
HARNESS(sc3_2) { scalar_any<2, G3>(); }
HARNESS(sc3_3) { scalar_any<3, G3>(); }

// polynomials of the scheme's degree (per axis, all cross terms): the exact derivative at every node
template <int D, int N>
struct Poly {
  double c[64];
  double o[3];
  Poly()
  {
    int m = 1;
    for (int a = 0; a < D; ++a) m *= N + 1;
    for (int i = 0; i < m; ++i) c[i] = vf_real("c", -1, 1);
    for (int a = 0; a < 3; ++a) o[a] = vf_real("o", -8, 8);
  }
  // derivative of order d[a] along axis a at x
  double at(const double *x, const int *d) const
  {
    double t[3] = {x[0] - o[0], x[1] - o[1], x[2] - o[2]};
    double p[3][N + 1];
    for (int a = 0; a < D; ++a)
      for (int n = 0; n <= N; ++n) {
        double f = 1;
        int e = n;
        for (int r = 0; r < d[a]; ++r) f *= e--;
        if (f == 0) {
          p[a][n] = 0;
          continue;
        }
        for (int r = 0; r < e; ++r) f *= t[a];
        p[a][n] = f;
      }
    double s = 0;
    int q = 0;
    if (D == 1)
      for (int l = 0; l <= N; ++l) s += c[q++] * p[0][l];
    if (D == 2)
      for (int l = 0; l <= N; ++l)
        for (int m = 0; m <= N; ++m) s += c[q++] * (p[0][l] * p[1][m]);
    if (D == 3)
      for (int l = 0; l <= N; ++l)
        for (int m = 0; m <= N; ++m)
          for (int n = 0; n <= N; ++n) s += c[q++] * (p[0][l] * p[1][m] * p[2][n]);
    return s;
  }
};
template <int D, template <int> class Q>
static void scalar_poly()
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  Array<G, double> a(b.g);
  Array<G, Vec3<double>> g(b.g);
  Poly<D, Q<D>::degree> P;
  int z[3] = {0, 0, 0};
  // the node the derivative is asked at; the field only needs to be right around it
  int w[3] = {0, 0, 0};
  for (int x = 0; x < D; ++x) w[x] = vf_pick("w", 0, b.n[x] - 1);
  FOR_ALL(b, i, j, k)
  {
    int off = 0;
    int id[3] = {i, j, k};
    for (int x = 0; x < D; ++x) off += id[x] != w[x];
    if (off > 1)
      a(i, j, k) = 7;
    else {
      // x relative to the origin of the polynomial, which is at a free distance from the node
      double x[3] = {P.o[0], P.o[1], P.o[2]};
      double r[3];
      for (int y = 0; y < 3; ++y) r[y] = x[y] + vf_cfg("off") * 0.5 * b.h[y] + (y < D ? (id[y] - w[y]) * b.h[y] : 0);
      a(i, j, k) = P.at(r, z);
    }
  }
  Gradient<double, G, typename Q<D>::S>::compute(a, g);
  for (int x = 0; x < D; ++x) {
    int d[3] = {x == 0, x == 1, x == 2};
    double r[3];
    for (int y = 0; y < 3; ++y) r[y] = P.o[y] + vf_cfg("off") * 0.5 * b.h[y];
    vf_eq(g(w[0], w[1], w[2])[x], P.at(r, d), "gradient of a polynomial of the scheme's degree is exact");
  }
}
HARNESS(po2_1) { scalar_poly<1, G2>(); }
HARNESS(po2_2) { scalar_poly<2, G2>(); }
HARNESS(po2_3) { scalar_poly<3, G2>(); }
HARNESS(po3_1) { scalar_poly<1, G3>(); }
HARNESS(po3_2) { scalar_poly<2, G3>(); }
HARNESS(po3_3) { scalar_poly<3, G3>(); }

// ---- C07
template <int D, template <int> class Q>
static void vector_any()
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  auto earlier = [](const G &o) {
    Array<G, Vec3<double>> c(o);
    Array<G, Mat3<double>> d(o);
    some(c, 3, 1);
    Gradient<double, G, typename Q<D>::S>::compute(c, d);
  };
  b.past(earlier);
  Array<G, Vec3<double>> a(b.g);
  Array<G, Mat3<double>> g(b.g);
  typename Q<D>::S sch;
  if (vf_cfg("hist")) {
    some(a, 3, -2);
    sch.compute(a, g);
  }
  fillv(b, a, "a", 3);
  fillv(b, g, "old", 9);
  auto sa = SNAP(MyGrid<D>, b, a, 3);
  auto sg = SNAP(MyGrid<D>, b, g, 9);
  int how = vf_pick("how", 0, 2);
  if (how == 0)
    Gradient<double, G, typename Q<D>::S>::compute(a, g);
  else if (how == 1)
    sch(a, g);
  else
    sch.compute(a, g);
  sa.same(b, a, "the differentiated field is left alone");
  sg.ghostsSame(b, g, "the gradient of ghost nodes is left alone");
  for (int cm = 0; cm < D; ++cm) {
    Array<G, double> s(b.g);
    Array<G, Vec3<double>> gs(b.g);
    FOR_ALL(b, i, j, k) s(i, j, k) = a(i, j, k)[cm];
    Gradient<double, G, typename Q<D>::S>::compute(s, gs);
    FOR_INTERIOR(b, i, j, k)
    for (int x = 0; x < D; ++x) {
      vf_eq(g(i, j, k)(cm, x), gs(i, j, k)[x], "row of the vector gradient is the gradient of that component");
      int e[3] = {x == 0, x == 1, x == 2};
      double m2 = Q<D>::pad > 1 ? s(i - 2 * e[0], j - 2 * e[1], k - 2 * e[2]) : 0;
      vf_eq(g(i, j, k)(cm, x) * b.h[x],
            Q<D>::d(m2, s(i - e[0], j - e[1], k - e[2]), s(i, j, k), s(i + e[0], j + e[1], k + e[2])),
            "vector gradient differentiates each component along each axis");
    }
  }
  int q = 0;
  FOR_ALL(b, i, j, k)
  for (int c = 0; c < 9; ++c, ++q)
    if (b.interior(i, j, k) && (c / 3 >= D || c % 3 >= D))
      vf_eq(g(i, j, k)[c], sg.v[q], "rows and columns the grid does not have are left alone");
}
HARNESS(ve2_1) { vector_any<1, G2>(); }
HARNESS(ve2_2) { vector_any<2, G2>(); }
HARNESS(ve2_3) { vector_any<3, G2>(); }
HARNESS(ve3_1) { vector_any<1, G3>(); }
HARNESS(ve3_2) { vector_any<2, G3>(); }
HARNESS(ve3_3) { vector_any<3, G3>(); }
// linear fields u = A x + b: the gradient is A
template <int D, template <int> class Q>
static void vector_linear()
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  Array<G, Vec3<double>> a(b.g);
  Array<G, Mat3<double>> g(b.g);
  double A[3][3], t[3];
  for (int c = 0; c < 3; ++c) {
    t[c] = vf_real("t", -4, 4);
    for (int x = 0; x < 3; ++x) A[c][x] = vf_real("A", -4, 4);
  }
  FOR_ALL(b, i, j, k)
  for (int c = 0; c < 3; ++c) {
    double s = t[c];
    for (int x = 0; x < D; ++x) s += A[c][x] * b.g(i, j, k)[x];
    a(i, j, k)[c] = s;
  }
  Gradient<double, G, typename Q<D>::S>::compute(a, g);
  FOR_INTERIOR(b, i, j, k)
  for (int c = 0; c < D; ++c)
    for (int x = 0; x < D; ++x) vf_eq(g(i, j, k)(c, x), A[c][x], "gradient of a linear field is its matrix");
}
HARNESS(li2_1) { vector_linear<1, G2>(); }
HARNESS(li2_2) { vector_linear<2, G2>(); }
HARNESS(li2_3) { vector_linear<3, G2>(); }
HARNESS(li3_1) { vector_linear<1, G3>(); }
HARNESS(li3_2) { vector_linear<2, G3>(); }
HARNESS(li3_3) { vector_linear<3, G3>(); }
VF_TABLE(E(sc2_1), E(sc2_2), E(sc2_3), E(sc3_1), E(sc3_2), E(sc3_3), E(po2_1), E(po2_2), E(po2_3), E(po3_1), E(po3_2),
         E(po3_3), E(ve2_1), E(ve2_2), E(ve2_3), E(ve3_1), E(ve3_2), E(ve3_3), E(li2_1), E(li2_2), E(li2_3), E(li3_1),
         E(li3_2), E(li3_3))
