// C04 (arrays), C05 (vector and matrix algebra), C23 (scalar helpers)
#include "h_gals.h"

static void setc(double &x, int, double v) { x = v; }
template <class V>
static void setc(V &x, int c, double v)
{
  x[c] = v;
}

// ---- C04
template <int D, class T>
static void array_store(int m)
{
  typedef Grid<double, D> G;
  typedef Array<G, T> A;
  MyGrid<D> b;
  b.past([m](const G &o) {
    A c(o), d(o);
    some(c, m, 1);
    d = c;
    c = d;
    some(d, m, 3);
  });
  A a(b.g);
  const A &ca = a;
  long size = b.g.size();
  vf_ieq((long)a.size(), size, "one element per stored node");
  vf_ieq((long)ca.data().size(), size, "data holds one element per stored node");
  vf_check(&a.grid() == &b.g, "the array remembers its grid");
  for (int x = 0; x < 3; ++x) vf_ieq(a.numCells()[x], b.n[x], "cell counts of the array");
  for (long s = 0; s < size; ++s)
    for (int c = 0; c < m; ++c) vf_same(comp(ca[s], c), 0, "a new array is zero");
  FOR_ALL(b, i, j, k)
  for (int c = 0; c < m; ++c) setc(a(i, j, k), c, vf_real("v", -range(), range()));
  Snap<MyGrid<D>, A> before(b, a, m);
  FOR_ALL(b, i, j, k)
  for (int c = 0; c < m; ++c) {
    double e = comp(ca(i, j, k), c);
    vf_same(comp(ca(Vec3<int>(i, j, k)), c), e, "read by node id");
    vf_same(comp(a(Vec3<int>(i, j, k)), c), e, "read by node id (reference)");
    vf_same(comp(ca[b.g.index(i, j, k)], c), e, "read by storage index");
    vf_same(comp(a[b.g.index(i, j, k)], c), e, "read by storage index (reference)");
    vf_same(comp(ca.data()[b.g.index(i, j, k)], c), e, "read through data()");
  }
  before.same(b, a, "reading changes nothing");
  if (m == 0) return;
  // copy, then write one component of one node
  A d(b.g);
  FOR_ALL(b, i, j, k)
  for (int c = 0; c < m; ++c) setc(d(i, j, k), c, 99);
  d = a;
  before.same(b, d, "assignment copies every element, ghosts included");
  before.same(b, a, "assignment leaves its source alone");
  vf_ieq((long)d.size(), size, "assignment keeps the size");
  int w[3], at = 0;
  if (vf_cfg("big")) {
    at = vf_pick("at", 0, 2);  // first, middle or last stored node
    for (int x = 0; x < 3; ++x) w[x] = at == 0 ? b.mn(x) : at == 1 ? b.n[x] / 2 : b.mx(x) - 1;
  } else {
    w[0] = vf_pick("wi", b.mn(0), b.mx(0) - 1);
    w[1] = vf_pick("wj", b.mn(1), b.mx(1) - 1);
    w[2] = vf_pick("wk", b.mn(2), b.mx(2) - 1);
  }
  int wc = m == 1 ? 0 : vf_cfg("big") ? (at * m) / 3 : vf_pick("wc", 0, m - 1), how = vf_cfg("big") ? at : vf_pick("how", 0, 2);
  double nv = vf_real("new", -4, 4);
  if (how == 0)
    setc(a(w[0], w[1], w[2]), wc, nv);
  else if (how == 1)
    setc(a(Vec3<int>(w[0], w[1], w[2])), wc, nv);
  else
    setc(a[b.g.index(w[0], w[1], w[2])], wc, nv);
  int q = 0;
  FOR_ALL(b, i, j, k)
  for (int c = 0; c < m; ++c) {
    bool hit = i == w[0] && j == w[1] && k == w[2] && c == wc;
    vf_same(comp(ca(i, j, k), c), hit ? nv : before.v[q], "a write reaches its own element only");
    q++;
  }
  before.same(b, d, "a copy is independent of its source");
  A &self = a;
  Snap<MyGrid<D>, A> mid(b, a, m);
  a = self;
  mid.same(b, a, "self assignment");
}
HARNESS(array1_s) { array_store<1, double>(1); }
HARNESS(array2_s) { array_store<2, double>(1); }
HARNESS(array3_s) { array_store<3, double>(1); }
HARNESS(array1_v) { array_store<1, Vec3<double>>(3); }
HARNESS(array2_v) { array_store<2, Vec3<double>>(3); }
HARNESS(array3_v) { array_store<3, Vec3<double>>(3); }
HARNESS(array1_m) { array_store<1, Mat3<double>>(9); }
HARNESS(array2_m) { array_store<2, Mat3<double>>(9); }
HARNESS(array3_m) { array_store<3, Mat3<double>>(9); }
HARNESS(array1_n0) { array_store<1, VecN<double, 0>>(0); }
HARNESS(array1_n2) { array_store<1, VecN<double, 2>>(2); }
HARNESS(array2_n1) { array_store<2, VecN<double, 1>>(1); }
HARNESS(array2_n2) { array_store<2, VecN<double, 2>>(2); }
HARNESS(array3_n4) { array_store<3, VecN<double, 4>>(4); }
// assignment from an array of another size adopts the source's elements
HARNESS(array_resize)
{
  Grid<double, 1> g(3), g2(vf_pick("n", 1, 6));
  g.generate(0, 3, 0, 1, 0, 1);
  g2.generate(0, 1, 0, 1, 0, 1);
  Array<Grid<double, 1>, double> a(g), b(g2);
  for (int i = 0; i < (int)a.size(); ++i) a[i] = vf_real("a", -4, 4);
  for (int i = 0; i < (int)b.size(); ++i) b[i] = vf_real("b", -4, 4);
  a = b;
  vf_ieq((long)a.size(), (long)b.size(), "assignment adopts the size of the source");
  for (int i = 0; i < (int)b.size(); ++i) vf_same(a[i], b[i], "assignment adopts the elements of the source");
}

// ---- C05
template <class T>
struct Any;
template <>
struct Any<double> {
  static double get(const char *n) { return vf_real(n, -64, 64); }
  static void eq(double a, double b, const char *m) { vf_eq(a, b, m); }
  static void same(double a, double b, const char *m) { vf_same(a, b, m); }
};
template <>
struct Any<int> {
  static int get(const char *n) { return vf_int(n, -10000, 10000); }
  static void eq(int a, int b, const char *m) { vf_ieq(a, b, m); }
  static void same(int a, int b, const char *m) { vf_ieq(a, b, m); }
};
template <class T>
static void vec3_ops()
{
  typedef Any<T> Y;
  T x[3], y[3];
  for (int i = 0; i < 3; ++i) {
    x[i] = Y::get("x");
    y[i] = Y::get("y");
  }
  T s = Y::get("s");
  Vec3<T> a(x[0], x[1], x[2]), b(y[0], y[1], y[2]), z;
  const Vec3<T> &ca = a;
  vf_ieq(a.size(), 3, "size of Vec3");
  Vec3<T> d = a - b, p = a * b, ps = a * s, cpy(a);
  z = a;
  Vec3<T> over(b);
  over = a;
  std::vector<T> sv(3);
  for (int i = 0; i < 3; ++i) sv[i] = x[i];
  Vec3<T> fromv(sv);
  Vec3<T> zero;
  for (int i = 0; i < 3; ++i) {
    Y::same(a[i], x[i], "component");
    Y::same(ca[i], x[i], "component (const)");
    Y::same(zero[i], 0, "default Vec3 is zero");
    Y::eq(d[i], x[i] - y[i], "component-wise difference");
    Y::eq(p[i], x[i] * y[i], "component-wise product");
    Y::eq(ps[i], x[i] * s, "product with a scalar");
    Y::same(z[i], x[i], "assignment copies");
    Y::same(over[i], x[i], "assignment replaces what was there");
    Y::same(cpy[i], x[i], "copy constructor copies");
    Y::same(fromv[i], x[i], "Vec3 from std::vector");
    Y::same(b[i], y[i], "operators leave their operands alone");
  }
  int w = vf_pick("w", 0, 2);
  a[w] = s;
  for (int i = 0; i < 3; ++i) {
    Y::same(a[i], i == w ? s : x[i], "a write reaches its own component only");
    Y::same(z[i], x[i], "a copy is independent of its source");
  }
}
HARNESS(vec3_d) { vec3_ops<double>(); }
HARNESS(vec3_i) { vec3_ops<int>(); }
HARNESS(vec3_div)
{
  double x[3], y[3];
  for (int i = 0; i < 3; ++i) {
    x[i] = vf_real("x", -64, 64);
    y[i] = vf_real("y", 0.015625, 64);
  }
  Vec3<double> q = Vec3<double>(x[0], x[1], x[2]) / Vec3<double>(y[0], y[1], y[2]);
  for (int i = 0; i < 3; ++i) vf_eq(q[i] * y[i], x[i], "component-wise quotient");
  // magnitude
  double m = Vec3<double>(x[0], x[1], x[2]).mag();
  vf_le(0, m, "magnitude is not negative");
  vf_eq(m * m, x[0] * x[0] + x[1] * x[1] + x[2] * x[2], "square of the magnitude");
}
HARNESS(vec3_imag)
{
  int x[3];
  for (int i = 0; i < 3; ++i) x[i] = vf_pick("x", -3, 3);
  double m = Vec3<int>(x[0], x[1], x[2]).mag();
  vf_le(0, m, "magnitude is not negative");
  vf_eq(m * m, (double)(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), "square of the magnitude");
}
// bit-precise: minimum of any three doubles that are not NaN (ties, infinities, signed zeros included)
HARNESS(vec3_min)
{
  double x[3];
  for (int i = 0; i < 3; ++i) {
    x[i] = vf_any("x");
    vf_assume(x[i] == x[i]);
  }
  double m = Vec3<double>(x[0], x[1], x[2]).min();
  vf_check(m <= x[0] && m <= x[1] && m <= x[2], "min is not above any component");
  vf_check(m == x[0] || m == x[1] || m == x[2], "min is one of the components");
}
HARNESS(vec3_imin)
{
  int x[3];
  for (int i = 0; i < 3; ++i) x[i] = vf_int("x", -2147483647 - 1, 2147483647);
  int m = Vec3<int>(x[0], x[1], x[2]).min();
  vf_check(m <= x[0] && m <= x[1] && m <= x[2], "min is not above any component");
  vf_check(m == x[0] || m == x[1] || m == x[2], "min is one of the components");
}
template <class T>
static void mat3_ops()
{
  typedef Any<T> Y;
  T x[9], y[9], v[3];
  for (int i = 0; i < 9; ++i) x[i] = Y::get("x");
  for (int i = 0; i < 9; ++i) y[i] = Y::get("y");
  for (int i = 0; i < 3; ++i) v[i] = Y::get("v");
  T s = Y::get("s");
  Mat3<T> a(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]);
  Mat3<T> b(y[0], y[1], y[2], y[3], y[4], y[5], y[6], y[7], y[8]);
  const Mat3<T> &ca = a;
  Mat3<T> z, zero, d = a - b, ps = a * s;
  z = a;
  Mat3<T> over(b);
  over = a;
  vf_ieq(a.size(), 9, "size of Mat3");
  for (int i = 0; i < 9; ++i) {
    Y::same(zero[i], 0, "default Mat3 is zero");
    Y::same(a[i], x[i], "element by position");
    Y::same(ca[i], x[i], "element by position (const)");
    Y::same(ca(i / 3, i % 3), x[i], "element by row and column (const)");
    Y::same(a(i / 3, i % 3), x[i], "element by row and column");
    Y::eq(d[i], x[i] - y[i], "matrix difference");
    Y::eq(ps[i], x[i] * s, "matrix times scalar");
    Y::same(z[i], x[i], "matrix assignment");
    Y::same(over[i], x[i], "assignment replaces what was there");
    Y::same(b[i], y[i], "operators leave their operands alone");
  }
  Vec3<T> r = a.dot(Vec3<T>(v[0], v[1], v[2]));
  for (int i = 0; i < 3; ++i)
    Y::eq(r[i], x[i] * v[0] + x[3 + i] * v[1] + x[6 + i] * v[2], "dot contracts the rows of the matrix with the vector");
  int wr = vf_pick("wr", 0, 2), wc = vf_pick("wc", 0, 2);
  a(wr, wc) = s;
  for (int i = 0; i < 9; ++i) {
    Y::same(a[i], i == 3 * wr + wc ? s : x[i], "a write reaches its own element only");
    Y::same(z[i], x[i], "a copy is independent of its source");
  }
}
HARNESS(mat3_d) { mat3_ops<double>(); }
HARNESS(mat3_i) { mat3_ops<int>(); }
// equality: every component within 1e-10 (double), identical (int)
HARNESS(equal_d)
{
  double x[9], e[9];
  bool v3 = true, m3 = true;
  for (int i = 0; i < 9; ++i) {
    x[i] = 0.25 * i;
    e[i] = 0;
  }
  int w = vf_pick("w", 0, 8), u = vf_pick("u", 0, 8);
  x[w] = vf_real("x", -4, 4);
  e[w] = vf_real("e", -1, 1);
  if (u != w) e[u] = vf_real("f", -1, 1);
  for (int i = 0; i < 9; ++i) {
    // stay clear of the edge of the tolerance (rounding)
    vf_assume(e[i] < 0.99e-10 || e[i] > 1.01e-10);
    vf_assume(e[i] < -1.01e-10 || e[i] > -0.99e-10);
    bool close = e[i] < 1e-10 && e[i] > -1e-10;
    if (i < 3) v3 = v3 & close;
    m3 = m3 & close;
  }
  Vec3<double> a(x[0], x[1], x[2]), b(x[0] + e[0], x[1] + e[1], x[2] + e[2]);
  vf_ieq(a == b, v3, "Vec3 equality means every component within the tolerance");
  vf_ieq(b == a, v3, "Vec3 equality is symmetric");
  Mat3<double> p(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]), q(p);
  for (int i = 0; i < 9; ++i) q[i] = x[i] + e[i];
  vf_ieq(p == q, m3, "Mat3 equality means every element within the tolerance");
  vf_ieq(q == p, m3, "Mat3 equality is symmetric");
}
HARNESS(equal_i)
{
  int x[9], y[9];
  bool v3 = true, m3 = true;
  for (int i = 0; i < 9; ++i) {
    x[i] = vf_int("x", -1000000, 1000000);
    y[i] = x[i];
  }
  int w = vf_pick("w", 0, 8);
  y[w] = vf_int("y", -1000000, 1000000);
  bool same = x[w] == y[w];
  m3 = same;
  if (w < 3) v3 = same;
  vf_ieq(Vec3<int>(x[0], x[1], x[2]) == Vec3<int>(y[0], y[1], y[2]), v3, "integer Vec3 equality");
  Mat3<int> p(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]), q(y[0], y[1], y[2], y[3], y[4], y[5], y[6], y[7], y[8]);
  vf_ieq(p == q, m3, "integer Mat3 equality");
}
// bit-precise: a NaN component is equal to nothing
HARNESS(equal_nan)
{
  double x[9], y[9];
  for (int i = 0; i < 9; ++i) x[i] = y[i] = 0.5;
  int w = vf_pick("w", 0, 8);
  x[w] = vf_any("x");
  y[w] = vf_any("y");
  vf_assume(x[w] != x[w] || y[w] != y[w]);
  if (w < 3) vf_check(!(Vec3<double>(x[0], x[1], x[2]) == Vec3<double>(y[0], y[1], y[2])), "a vector with NaN equals nothing");
  Mat3<double> p(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]), q(y[0], y[1], y[2], y[3], y[4], y[5], y[6], y[7], y[8]);
  vf_check(!(p == q), "a matrix with NaN equals nothing");
}
template <class T, int N>
static void vecn_ops()
{
  typedef Any<T> Y;
  VecN<T, N> a, z;
  const VecN<T, N> &ca = a;
  T x[N + 1];
  vf_ieq(a.size(), N, "size of VecN");
  for (int i = 0; i < N; ++i) {
    Y::same(ca[i], 0, "default VecN is zero");
    x[i] = Y::get("x");
    a[i] = x[i];
  }
  VecN<T, N> b(a);
  z = a;
  for (int i = 0; i < N; ++i) {
    Y::same(ca[i], x[i], "VecN component");
    Y::same(b[i], x[i], "VecN copy");
    Y::same(z[i], x[i], "VecN assignment");
  }
  vf_ieq(z.size(), N, "size of VecN");
  if (N > 0) {
    int w = vf_pick("w", 0, N - 1);
    T s = Y::get("s");
    a[w] = s;
    for (int i = 0; i < N; ++i) {
      Y::same(a[i], i == w ? s : x[i], "a write reaches its own component only");
      Y::same(b[i], x[i], "a VecN copy is independent of its source");
      Y::same(z[i], x[i], "a VecN copy is independent of its source");
    }
  }
}
HARNESS(vecn)
{
  switch (vf_pick("kind", 0, 7)) {
    case 0: vecn_ops<int, 1>(); break;
    case 1: vecn_ops<int, 2>(); break;
    case 2: vecn_ops<int, 3>(); break;
    case 3: vecn_ops<double, 0>(); break;
    case 4: vecn_ops<double, 1>(); break;
    case 5: vecn_ops<double, 2>(); break;
    case 6: vecn_ops<double, 3>(); break;
    case 7: vecn_ops<double, 4>(); break;
  }
}

// ---- C23: scalar helpers
HARNESS(bernstein)
{
  using namespace GALS::INTERPOLATION;
  double t = vf_real("t", -2, 2), u = 1 - t;
  double b[4] = {B0(t), B1(t), B2(t), B3(t)}, d[4] = {B0_Prime(t), B1_Prime(t), B2_Prime(t), B3_Prime(t)};
  double e[4] = {u * u * u, 3 * t * u * u, 3 * t * t * u, t * t * t};
  // derivative of binom(3,i) t^i (1-t)^(3-i), degree elevation form: 3 (b_{i-1} - b_i) of degree two
  double q[5] = {0, u * u, 2 * t * u, t * t, 0};
  double sb = 0, sd = 0, mean = 0;
  for (int i = 0; i < 4; ++i) {
    vf_eq(b[i], e[i], "Bernstein polynomial");
    vf_eq(d[i], 3 * (q[i] - q[i + 1]), "derivative of a Bernstein polynomial");
    sb += b[i];
    sd += d[i];
    mean += b[i] * i;
  }
  vf_eq(sb, 1, "Bernstein polynomials sum to one");
  vf_eq(sd, 0, "Bernstein derivatives sum to zero");
  vf_eq(mean, 3 * t, "Bernstein polynomials reproduce linear functions");
}
HARNESS(helpers)
{
  double x = vf_real("x", -1024, 1024);
  int n = vf_int("n", -1000, 1000);
  vf_eq(GALS::sqr(x), x * x, "sqr");
  vf_eq(GALS::cube(x), x * x * x, "cube");
  vf_ieq(GALS::sqr(n), n * n, "sqr of an integer");
  vf_ieq(GALS::cube(n), n * n * n, "cube of an integer");
  vf_eq(GALS::pi(), 3.14159265358979323846, "pi");
  vf_eq(GALS::one_third * 3, 1, "one third");
  vf_eq(GALS::two_thirds * 3, 2, "two thirds");
}
HARNESS(is_equal_d)
{
  double a = vf_real("a", -1024, 1024), e = vf_real("e", -2, 2);
  vf_assume(e < 0.99e-10 || e > 1.01e-10);
  vf_assume(e < -1.01e-10 || e > -0.99e-10);
  bool close = e < 1e-10 && e > -1e-10;
  vf_ieq(GALS::is_equal(a, a + e), close, "is_equal within the tolerance");
  vf_ieq(GALS::is_equal(a + e, a), close, "is_equal is symmetric");
  int n = vf_int("n", -2147483647 - 1, 2147483647), m = vf_int("m", -2147483647 - 1, 2147483647);
  vf_ieq(GALS::is_equal(n, m), n == m, "is_equal of integers");
}
HARNESS(is_equal_any)
{
  double a = vf_any("a"), b = vf_any("b");
  bool r = GALS::is_equal(a, b);
  vf_check(!r || (a == a && b == b), "NaN equals nothing");
  vf_check(!(a == b) || r || a - a != 0, "finite identical values are equal");
}
VF_TABLE(E(array1_s), E(array2_s), E(array3_s), E(array1_v), E(array2_v), E(array3_v), E(array1_m), E(array2_m), E(array3_m),
         E(array1_n0), E(array1_n2), E(array2_n1), E(array2_n2), E(array3_n4), E(array_resize), E(vec3_d), E(vec3_i),
         E(vec3_div), E(vec3_imag), E(vec3_min), E(vec3_imin), E(mat3_d), E(mat3_i), E(equal_d), E(equal_i), E(equal_nan),
         E(vecn), E(bernstein), E(helpers), E(is_equal_d), E(is_equal_any))
