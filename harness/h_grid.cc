// C01, C02, C03
#include "h_gals.h"

// ---- C01: the node -> storage index map
static const int kBig[] = {3, 64, 1000, 46000, 1000000}, kPad[] = {0, 1, 2, 3, 4, 7, 100};
template <int D>
static void index_map(bool big)
{
  int n[3] = {1, 1, 1};
  for (int a = 0; a < D; ++a) n[a] = big ? kBig[vf_pick("size", 0, 4)] : vf_pick("n", 1, vf_cfg("nmax"));
  int pad = big ? kPad[vf_pick("pad", 0, vf_cfg("padmax"))] : vf_pick("pad", 0, vf_cfg("padmax"));
  // the storage must fit what an int can count (the library counts nodes in int)
  double total = 1;
  for (int a = 0; a < D; ++a) total *= n[a] + 2.0 * pad;
  vf_assume(total < 2147483647.0);
  long size = 1;
  for (int a = 0; a < D; ++a) size *= n[a] + 2 * pad;
  Grid<double, D> g(n[0], n[1], n[2]);
  g.setPadding(pad);
  vf_ieq(g.getPadding(), pad, "padding is what was set");
  int p[3] = {0, 0, 0}, q[3] = {0, 0, 0};
  for (int a = 0; a < D; ++a) {
    p[a] = vf_int("p", -pad, n[a] + pad - 1);
    q[a] = vf_int("q", -pad, n[a] + pad - 1);
  }
  if (big) {
    // large grids: the nodes of a pair differ along one axis by at most one node
    int axis = D > 1 ? vf_pick("axis", 0, D - 1) : 0;
    for (int a = 0; a < D; ++a)
      if (a != axis) q[a] = p[a];
    q[axis] = p[axis] + 1;
    vf_assume(q[axis] <= n[axis] + pad - 1);
  }
  long ip = (long)g.index(p[0], p[1], p[2]);
  long iq = (long)g.index(q[0], q[1], q[2]);
  vf_check(ip >= 0, "index of a stored node is not negative");
  vf_check(ip < size, "index of a stored node lies inside the storage");
  bool same = p[0] == q[0] && p[1] == q[1] && p[2] == q[2];
  vf_check(same | (ip != iq), "two nodes share a storage index");
  vf_ieq((long)g.index(Vec3<int>(p[0], p[1], p[2])), ip, "both index overloads agree");
}
HARNESS(index1) { index_map<1>(false); }
HARNESS(index2) { index_map<2>(false); }
HARNESS(index3) { index_map<3>(false); }
HARNESS(index1_big) { index_map<1>(true); }
HARNESS(index2_big) { index_map<2>(true); }
HARNESS(index3_big) { index_map<3>(true); }

// indices of unused axes do not matter (baseNodeId leaves them at INT_MAX)
template <int D>
static void index_unused()
{
  int n[3] = {vf_cfg("nx"), D > 1 ? vf_cfg("ny") : 1, 1};
  Grid<double, D> g(n[0], n[1], n[2]);
  int pad = vf_pick("pad", 0, 3);
  g.setPadding(pad);
  int p[3] = {0, 0, 0};
  for (int a = 0; a < D; ++a) p[a] = vf_int("p", -pad, n[a] + pad - 1);
  int u[3] = {p[0], p[1], p[2]};
  for (int a = D; a < 3; ++a) u[a] = vf_int("unused", -2147483647 - 1, 2147483647);
  vf_ieq((long)g.index(u[0], u[1], u[2]), (long)g.index(p[0], p[1], p[2]), "index of an unused axis is ignored");
}
HARNESS(index_unused1) { index_unused<1>(); }
HARNESS(index_unused2) { index_unused<2>(); }

template <int D>
static void sizes()
{
  int n[3] = {1, 1, 1};
  for (int a = 0; a < D; ++a) n[a] = vf_pick("n", 1, vf_cfg("nmax"));
  int pad = vf_pick("pad", 0, vf_cfg("padmax"));
  Grid<double, D> g(n[0], n[1], n[2]);
  // the grid may have had another padding and another box before
  int before = vf_pick("before", -1, 2);
  if (before >= 0) {
    g.setPadding(before == 2 ? 3 : before);
    if (before != 1) g.generate(0, 1, 0, 1, 0, 1);
  }
  g.setPadding(pad);
  double lo = vf_real("lo", -8, 8), h = vf_real("h", 0.0625, 8);
  g.generate(lo, lo + n[0] * h, lo, lo + n[1] * h, lo, lo + n[2] * h);
  long size = 1, cells = 1;
  for (int a = 0; a < D; ++a) {
    size *= n[a] + 2 * pad;
    cells *= n[a];
  }
  vf_ieq(g.size(), size, "storage size counts every padded node once");
  vf_ieq((long)g.totalCells(), cells, "total cells exclude the padding");
  vf_ieq(g.dimension(), D, "dimension");
  for (int a = 0; a < 3; ++a) {
    vf_ieq(g.numCells()[a], n[a], "cell counts");
    vf_ieq(g.getMask()[a], a < D ? 1 : 0, "axis mask");
  }
  // every storage slot belongs to exactly one node: marks
  Array<Grid<double, D>, double> seen(g);
  vf_ieq((long)seen.size(), size, "array has one element per padded node");
  int m[3], M[3];
  for (int a = 0; a < 3; ++a) {
    m[a] = a < D ? -pad : 0;
    M[a] = a < D ? n[a] + pad : 1;
  }
  for (int i = m[0]; i < M[0]; ++i)
    for (int j = m[1]; j < M[1]; ++j)
      for (int k = m[2]; k < M[2]; ++k) seen[g.index(i, j, k)] += 1;
  for (long s = 0; s < size; ++s) vf_eq(seen[s], 1, "every storage slot is hit exactly once");
}
HARNESS(size1) { sizes<1>(); }
HARNESS(size2) { sizes<2>(); }
HARNESS(size3) { sizes<3>(); }

// ---- C02: node positions
template <int D, class B>
static void geometry(const B &b, Grid<double, D> &g)
{
  const Grid<double, D> &cg = g;
  FOR_ALL(b, i, j, k)
  {
    int id[3] = {i, j, k};
    for (int a = 0; a < 3; ++a) {
      double e = a < D ? b.node(a, id[a]) : 0.0;
      vf_eq(cg(i, j, k)[a], e, "node position (operator())");
      vf_eq(g.x(i, j, k)[a], e, "node position (x)");
      vf_eq(cg(Vec3<int>(i, j, k))[a], e, "node position (node id)");
    }
  }
  for (int a = 0; a < 3; ++a) vf_eq(g.dX()[a], b.h[a], "cell size");
  for (int a = 0; a < D; ++a) vf_eq(g.oneOverDX()[a] * b.h[a], 1.0, "one over cell size");
  for (int a = 0; a < 3; ++a) vf_ieq(g.numCells()[a], b.n[a], "cell counts");
  long cells = 1, size = 1;
  for (int a = 0; a < D; ++a) cells *= b.n[a], size *= b.n[a] + 2 * b.pad;
  vf_ieq((long)g.totalCells(), cells, "total cells");
  vf_ieq(g.size(), size, "storage size");
}
template <int D>
static void geo()
{
  MyGrid<D> b;
  double sum = 0;
  b.past([&sum](const Grid<double, D> &o) {
    sum += o(0, 0, 0)[0] + o(o.numCells()[0] - 1, 0, 0)[0] + o.dX()[0] + o.oneOverDX()[0];
    const Vec3<int> id = o.baseNodeId(o(0, 0, 0));
    sum += id[0];
  });
  geometry<D>(b, b.g);
}
HARNESS(geo1) { geo<1>(); }
HARNESS(geo2) { geo<2>(); }
HARNESS(geo3) { geo<3>(); }
// regenerating a grid (other box, other padding) gives what a fresh grid gives
template <int D>
static void regeo()
{
  MyGrid<D> b;
  double o[3], q[3];
  for (int a = 0; a < 3; ++a) o[a] = vf_real("olo", -8, 8), q[a] = vf_real("oh", 0.0625, 8);
  Grid<double, D> g(b.n[0], b.n[1], b.n[2]);
  g.setPadding(vf_pick("oldpad", 0, 3));
  g.generate(o[0], o[0] + b.n[0] * q[0], o[1], o[1] + b.n[1] * q[1], o[2], o[2] + b.n[2] * q[2]);
  g.setPadding(b.pad);
  b.gen(g);
  geometry<D>(b, g);
}
HARNESS(regeo1) { regeo<1>(); }
HARNESS(regeo2) { regeo<2>(); }
HARNESS(regeo3) { regeo<3>(); }
// short constructors: missing counts default to one cell
HARNESS(geo_short)
{
  int nx = vf_pick("n", 1, 4), ny = vf_pick("n", 1, 4);
  Grid<double, 1> a(nx);
  Grid<double, 2> b(nx, ny), c(nx);
  Grid<double, 3> d(nx, ny), e(nx);
  vf_check(a.numCells() == Vec3<int>(nx, 1, 1), "1D grid from one count");
  vf_check(b.numCells() == Vec3<int>(nx, ny, 1), "2D grid from two counts");
  vf_check(c.numCells() == Vec3<int>(nx, 1, 1), "2D grid from one count");
  vf_check(d.numCells() == Vec3<int>(nx, ny, 1), "3D grid from two counts");
  vf_check(e.numCells() == Vec3<int>(nx, 1, 1), "3D grid from one count");
  vf_ieq(a.getPadding(), 1, "default padding");
  vf_ieq(b.getPadding(), 1, "default padding");
  vf_ieq(d.getPadding(), 1, "default padding");
  vf_ieq((long)d.totalCells(), nx * ny, "total cells before generate");
  double lo = vf_real("lo", -8, 8), h = vf_real("h", 0.0625, 8);
  d.generate(lo, lo + nx * h, lo, lo + ny * h, lo, lo + h);
  vf_eq(d(nx - 1, ny - 1, 0)[0], lo + (nx - 0.5) * h, "node of a 3D grid from two counts");
  vf_eq(d(nx, ny, 1)[2], lo + 1.5 * h, "ghost node of a 3D grid from two counts");
  const Mat3<int> &ax = Grid<double, 2>::axis_vectors;
  const Mat3<double> &id = Grid<double, 3>::identity_mat;
  for (int r = 0; r < 3; ++r)
    for (int s = 0; s < 3; ++s) {
      vf_ieq(ax(r, s), r == s, "axis vectors");
      vf_ieq((Grid<double, 1>::axis_vectors(r, s)), r == s, "axis vectors");
      vf_ieq((Grid<double, 3>::axis_vectors(r, s)), r == s, "axis vectors");
      vf_eq(id(r, s), r == s, "identity matrix");
      vf_eq((Grid<double, 1>::identity_mat(r, s)), r == s, "identity matrix");
      vf_eq((Grid<double, 2>::identity_mat(r, s)), r == s, "identity matrix");
    }
  vf_ieq((Grid<double, 1>::num_mixed_derivatives), 0, "mixed derivatives in 1D");
  vf_ieq((Grid<double, 2>::num_mixed_derivatives), 1, "mixed derivatives in 2D");
  vf_ieq((Grid<double, 3>::num_mixed_derivatives), 4, "mixed derivatives in 3D");
}

// ---- C03: the cell that encloses a point
template <int D>
static void locate()
{
  MyGrid<D> b;
  double t[3], x[3] = {0, 0, 0};
  for (int a = 0; a < D; ++a) {
    // any point between the first and the last stored node
    t[a] = vf_real("t", -b.pad, b.n[a] - 1 + b.pad);
    vf_assume(t[a] < b.n[a] - 1 + b.pad);
    x[a] = b.node(a, 0) + t[a] * b.h[a];
  }
  for (int a = D; a < 3; ++a) x[a] = vf_real("unused", -8, 8);
  b.past([](const Grid<double, D> &o) {
    Vec3<double> at = o(0, 0, 0);
    for (int a = 0; a < D; ++a) at[a] += 0.3 * o.dX()[a];
    const Vec3<int> id = o.baseNodeId(at);
    for (int a = 0; a < D; ++a) vf_ieq(id[a], 0, "base node of a point right of node 0");
  });
  Vec3<int> id = b.g.baseNodeId(Vec3<double>(x[0], x[1], x[2]));
  for (int a = 0; a < D; ++a) {
    vf_check(id[a] >= -b.pad && id[a] + 1 < b.n[a] + b.pad, "the enclosing cell lies inside the padded grid");
    vf_le(id[a], t[a], "base node is not right of the point");
    vf_check(t[a] < id[a] + 1.0, "next node is right of the point");
  }
  const Vec3<double> &lo = b.g(id);
  for (int a = 0; a < D; ++a) {
    vf_le(lo[a], x[a], "position of the base node is not right of the point");
    vf_le(x[a], lo[a] + b.g.dX()[a], "the point is within one cell of the base node");
  }
  for (int a = D; a < 3; ++a) vf_ieq(id[a], 2147483647, "axes the grid does not have are marked");
}
HARNESS(locate1) { locate<1>(); }
HARNESS(locate2) { locate<2>(); }
HARNESS(locate3) { locate<3>(); }
// far away points (no storage access): the same rule
template <int D>
static void locate_far()
{
  MyGrid<D> b;
  double x[3] = {0, 0, 0}, t[3];
  int w = vf_cfg("far");
  // around the origin or around a cell far away
  static const int kFar[] = {0, 130, 1030, 70000, 3000000, 1200000000};
  int far = vf_cfg("centre") ? kFar[vf_pick("centre", 1, 5)] * (vf_pick("sign", 0, 1) ? 1 : -1) : 0;
  for (int a = 0; a < D; ++a) {
    t[a] = vf_real("t", far - w, far + w);
    x[a] = b.node(a, 0) + t[a] * b.h[a];
  }
  Vec3<int> id = b.g.baseNodeId(Vec3<double>(x[0], x[1], x[2]));
  for (int a = 0; a < D; ++a) {
    vf_le(id[a], t[a], "base node is not right of the point");
    vf_check(t[a] < id[a] + 1.0, "next node is right of the point");
  }
}
HARNESS(far1) { locate_far<1>(); }
HARNESS(far2) { locate_far<2>(); }
HARNESS(far3) { locate_far<3>(); }
VF_TABLE(E(index1), E(index2), E(index3), E(index1_big), E(index2_big), E(index3_big), E(index_unused1), E(index_unused2),
         E(size1), E(size2), E(size3), E(geo1), E(geo2), E(geo3), E(regeo1), E(regeo2), E(regeo3), E(geo_short), E(locate1),
         E(locate2), E(locate3), E(far1), E(far2), E(far3))
