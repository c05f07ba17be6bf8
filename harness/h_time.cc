// C12, C13, C14: time stepping
#include "h_gals.h"
using GALS::INTERPOLATION::Hermite;
template <int D>
struct Sch {
  typedef Grid<double, D> G;
  typedef GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G> SL;
  typedef GALS::TEMPORAL_SCHEMES::Euler<double, G> E;
};
template <class S, int D>
static void step(int how, double dt, LevelsetVelocity<Grid<double, D>, double> &v, Levelset<Grid<double, D>, double> &l)
{
  S s;
  if (how == 0)
    Temporal<double, Grid<double, D>, S>::compute(dt, v, l);
  else if (how == 1)
    s.compute(dt, v, l);
  else
    s(dt, v, l);
}
template <int D, class B>
static void junkv(const B &b, LevelsetVelocity<Grid<double, D>, double> &v)
{
  fillv(b, v.velocity(), "u", 3);
  fillv(b, v.velocityGradient(), "G", 9);
}

// earlier steps elsewhere
template <class S, int D>
static void earlier_step(const Grid<double, D> &o)
{
  typedef Grid<double, D> G;
  Levelset<G, double> e(o);
  LevelsetVelocity<G, double> u(o);
  some_ls<D>(e);
  for (long s = 0; s < (long)u.velocity().size(); ++s)
    for (int a = 0; a < D; ++a) {
      u.velocity()[s][a] = 0.25 * (1 + s % 3) * o.dX()[a] * (a % 2 ? -1 : 1);
      for (int c = 0; c < D; ++c) u.velocityGradient()[s](a, c) = 0.5 * (s % 5) - a + c;
    }
  S s;
  s.compute(0.5, u, e);
}
template <class S, int D, class B>
static void same_objects_step(const B &b, LevelsetVelocity<Grid<double, D>, double> &v, Levelset<Grid<double, D>, double> &l)
{
  if (!vf_cfg("hist")) return;
  some_ls<D>(l);
  some(v.velocityGradient(), 9, 0.125);
  FOR_INTERIOR(b, i, j, k)
  for (int a = 0; a < D; ++a) v.velocity()(i, j, k)[a] = -0.25 * b.h[a];
  S s;
  s.compute(0.75, v, l);
}
// ---- C12: explicit Euler
template <int D>
static void explicit_euler()
{
  typedef Grid<double, D> G;
  typedef typename Sch<D>::E S;
  MyGrid<D> b;
  b.past([](const G &o) { earlier_step<S, D>(o); });
  Levelset<G, double> l(b.g);
  LevelsetVelocity<G, double> v(b.g);
  same_objects_step<S, D>(b, v, l);
  junk<D>(b, l);
  junkv<D>(b, v);
  LsSnap<D, MyGrid<D>> s(b, l);
  auto sv = SNAP(MyGrid<D>, b, v.velocity(), 3);
  auto sg = SNAP(MyGrid<D>, b, v.velocityGradient(), 9);
  double dt = scalar("dt");
  step<typename Sch<D>::E, D>(vf_pick("how", 0, 2), dt, v, l);
  FOR_INTERIOR(b, i, j, k)
  vf_eq(l.phi()(i, j, k), l.phiPrev()(i, j, k) - dt * v.velocity()(i, j, k)[0], "explicit Euler advances phi from its previous value");
  s.phi.ghostsSame(b, l.phi(), "phi of ghost nodes is left alone");
  s.psi.same(b, l.psi(), "psi is left alone");
  s.prevSame(b, l);
  s.interpSame(b, l);
  sv.same(b, v.velocity(), "the velocity is left alone");
  sg.same(b, v.velocityGradient(), "the velocity gradient is left alone");
}
HARNESS(ee1) { explicit_euler<1>(); }
HARNESS(ee2) { explicit_euler<2>(); }
HARNESS(ee3) { explicit_euler<3>(); }

// ---- C13: one semi-Lagrangian step, any data
template <int D>
static void sl_any()
{
  typedef Grid<double, D> G;
  typedef typename Sch<D>::SL S;
  MyGrid<D> b;
  b.past([](const G &o) { earlier_step<S, D>(o); });
  Levelset<G, double> l(b.g);
  LevelsetVelocity<G, double> v(b.g);
  same_objects_step<S, D>(b, v, l);
  junk<D>(b, l);
  junkv<D>(b, v);
  double dt = positive("dt");
  if (vf_cfg("neg")) dt = -dt;  // backwards in time
  const bool zero = vf_cfg("zero");
  if (zero) dt = 0;
  int w[3] = {0, 0, 0}, q = 0, id[3];
  int all = vf_cfg("all"), big = vf_cfg("big"), sym = vf_cfg("sym");
  const int at = pick_node<D>(b, w, all, big);
  const int N = b.n[0] * b.n[1] * b.n[2];
  double(*root)[3] = new double[N][3];
  FOR_INTERIOR(b, i, j, k)
  {
    id[0] = i, id[1] = j, id[2] = k;
    bool free = all || (i == w[0] && j == w[1] && k == w[2]);
    for (int a = 0; a < D; ++a) {
      double s;  // displacement in cells: the departure point stays between stored nodes
      if (free && !big) {
        s = vf_real("s", id[a] - (b.n[a] - 1 + b.pad), id[a] + b.pad);
        vf_assume(s > id[a] - (b.n[a] - 1 + b.pad));
      } else if (free || (sym && !((q + a) % sym))) {
        // any displacement within one of the cells next to the node
        bool left = (q / 2 + a) % 2;
        s = left ? vf_real("s", 0, 1) : vf_real("s", -1, 0);
        vf_assume(left ? s < 1 : s > -1);
        vf_assume(s != 0);
      } else
        s = ((q + a) % 3 - 1) * 0.25;
      if (zero) {
        v.velocity()(i, j, k)[a] = 4 * s;
        root[q][a] = id[a];
        continue;
      }
      v.velocity()(i, j, k)[a] = s * b.h[a] / dt;
      root[q][a] = id[a] - s;
    }
    for (int a = D; a < 3; ++a) v.velocity()(i, j, k)[a] = 0;
    for (int a = 0; a < 9; ++a)
      if (a / 3 >= D || a % 3 >= D) v.velocityGradient()(i, j, k)[a] = 0;
    q++;
  }
  // what the previous fields are at the departure points
  double *ep = new double[N], (*es)[3] = new double[N][3];
  q = 0;
  FOR_INTERIOR(b, i, j, k)
  {
    Vec3<double> x;
    for (int a = 0; a < D; ++a) x[a] = b.node(a, 0) + root[q][a] * b.h[a];
    const Vec3<int> at = b.g.baseNodeId(x);
    int base[3] = {0, 0, 0};
    double t[3] = {0, 0, 0}, r[4];
    for (int a = 0; a < D; ++a) {
      base[a] = at[a], t[a] = root[q][a] - at[a];
      vf_check(t[a] >= 0, "the departure point's cell");
      vf_check(t[a] < 1, "the departure point's cell");
    }
    hermite_value<D>(b, l, base, t, r);
    ep[q] = r[0];
    for (int a = 0; a < 3; ++a) {
      double s = r[1 + a];
      for (int c = 0; c < D; ++c) s -= dt * v.velocityGradient()(i, j, k)(c, a) * r[1 + c];
      es[q][a] = s;
    }
    q++;
  }
  LsSnap<D, MyGrid<D>> s(b, l);
  auto sv = SNAP(MyGrid<D>, b, v.velocity(), 3);
  auto sg = SNAP(MyGrid<D>, b, v.velocityGradient(), 9);
  step<typename Sch<D>::SL, D>(all ? 0 : big ? at : vf_pick("how", 0, 2), dt, v, l);
  q = 0;
  FOR_INTERIOR(b, i, j, k)
  {
    vf_eq(l.phi()(i, j, k), ep[q], "phi is the previous phi at the departure point");
    for (int a = 0; a < 3; ++a) vf_eq(l.psi()(i, j, k)[a], es[q][a], "psi is carried along with the deformation of the flow");
    q++;
  }
  s.phi.ghostsSame(b, l.phi(), "phi of ghost nodes is left alone");
  s.psi.ghostsSame(b, l.psi(), "psi of ghost nodes is left alone");
  s.prevSame(b, l);
  sv.same(b, v.velocity(), "the velocity is left alone");
  sg.same(b, v.velocityGradient(), "the velocity gradient is left alone");
  delete[] root;
  delete[] ep;
  delete[] es;
}
HARNESS(sl1) { sl_any<1>(); }
HARNESS(sl2) { sl_any<2>(); }
HARNESS(sl3) { sl_any<3>(); }

// ---- C14: exact transport of cubics
// the previous fields sample one cubic (coordinates in cells from node 0), shifted by `sh`
template <int D, class B>
static void sample_all(const B &b, const Cubic<D> &P, const double *sh, Levelset<Grid<double, D>, double> &l, bool ghosts_only)
{
  const double *h = b.h;
  FOR_ALL(b, i, j, k)
  {
    double t[3] = {i - sh[0], j - sh[1], k - sh[2]};
    if (!ghosts_only || !b.interior(i, j, k)) {
      l.phiPrev()(i, j, k) = P.value(t);
      for (int a = 0; a < D; ++a) l.psiPrev()(i, j, k)[a] = P.grad(t, a, h);
    }
    if (D > 1) l.phiMixedDerivativesPrev()(i, j, k)[0] = P.at(t, 1, 1, 0) / (h[0] * h[1]);
    if (D > 2) {
      l.phiMixedDerivativesPrev()(i, j, k)[1] = P.at(t, 0, 1, 1) / (h[1] * h[2]);
      l.phiMixedDerivativesPrev()(i, j, k)[2] = P.at(t, 1, 0, 1) / (h[0] * h[2]);
      l.phiMixedDerivativesPrev()(i, j, k)[3] = P.at(t, 1, 1, 1) / (h[0] * h[1] * h[2]);
    }
  }
}
// a uniform flow moves a cubic level set without changing it, over several steps
template <int D>
static void transport()
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  b.past([](const G &o) { earlier_step<typename Sch<D>::SL, D>(o); });
  Levelset<G, double> l(b.g);
  LevelsetVelocity<G, double> v(b.g);
  if (vf_cfg("hist")) {
    same_objects_step<typename Sch<D>::SL, D>(b, v, l);
    FOR_ALL(b, i, j, k)
    {
      for (int a = 0; a < 3; ++a) v.velocity()(i, j, k)[a] = 0;
      for (int a = 0; a < 9; ++a) v.velocityGradient()(i, j, k)[a] = 0;
    }
  }
  Cubic<D> P;
  double dt = positive("dt"), s[3] = {0, 0, 0}, sh[3] = {0, 0, 0};
  for (int a = 0; a < D; ++a) {
    s[a] = vf_real("s", -b.pad, b.pad);
    vf_assume(s[a] > -b.pad);
  }
  FOR_ALL(b, i, j, k)
  for (int a = 0; a < D; ++a) v.velocity()(i, j, k)[a] = s[a] * b.h[a] / dt;
  sample_all<D>(b, P, sh, l, false);
  for (int n = 0; n < vf_cfg("steps"); ++n) {
    step<typename Sch<D>::SL, D>(0, dt, v, l);
    for (int a = 0; a < 3; ++a) sh[a] += s[a];
    FOR_INTERIOR(b, i, j, k)
    {
      double t[3] = {i - sh[0], j - sh[1], k - sh[2]};
      vf_eq(l.phi()(i, j, k), P.value(t), "a uniform flow translates a cubic exactly");
      for (int a = 0; a < D; ++a) vf_eq(l.psi()(i, j, k)[a], P.grad(t, a, b.h), "the gradient is translated with it");
      for (int a = D; a < 3; ++a) vf_eq(l.psi()(i, j, k)[a], 0, "no gradient appears along axes the grid does not have");
    }
    l.phiPrev() = l.phi();
    l.psiPrev() = l.psi();
    sample_all<D>(b, P, sh, l, true);
  }
}
HARNESS(tr1) { transport<1>(); }
HARNESS(tr2) { transport<2>(); }
HARNESS(tr3) { transport<3>(); }
// an affine flow u = A x + t: phi and psi are the value and the gradient of the same transported field
template <int D>
static void affine()
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  b.past([](const G &o) { earlier_step<typename Sch<D>::SL, D>(o); });
  Levelset<G, double> l(b.g);
  LevelsetVelocity<G, double> v(b.g);
  if (vf_cfg("hist")) {
    same_objects_step<typename Sch<D>::SL, D>(b, v, l);
    FOR_ALL(b, i, j, k)
    {
      for (int a = 0; a < 3; ++a) v.velocity()(i, j, k)[a] = 0;
      for (int a = 0; a < 9; ++a) v.velocityGradient()(i, j, k)[a] = 0;
    }
  }
  Cubic<D> P;
  double dt = positive("dt"), z[3] = {0, 0, 0}, s[3] = {0, 0, 0};
  double A[3][3] = {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}};
  for (int a = 0; a < D; ++a)
    for (int c = 0; c < D; ++c) A[a][c] = vf_real("A", -4, 4);
  int w[3] = {0, 0, 0};
  for (int a = 0; a < D; ++a) {
    const bool big = vf_cfg("big");
    w[a] = big ? b.n[a] - 1 : vf_pick("w", 0, b.n[a] - 1);
    // anywhere between the stored nodes (large grids: within two cells)
    s[a] = big ? vf_real("s", -b.pad, w[a] + b.pad < 2 ? w[a] + b.pad : 2) : vf_real("s", w[a] - (b.n[a] - 1 + b.pad), w[a] + b.pad);
    if (!big) vf_assume(s[a] > w[a] - (b.n[a] - 1 + b.pad));
    if (big) vf_assume(s[a] > -b.pad);
  }
  sample_all<D>(b, P, z, l, false);
  // at node w the velocity is s h / dt for any s (this is what the free offset t provides)
  for (int a = 0; a < D; ++a) {
    v.velocity()(w[0], w[1], w[2])[a] = s[a] * b.h[a] / dt;
    for (int c = 0; c < D; ++c) v.velocityGradient()(w[0], w[1], w[2])(a, c) = A[a][c];
  }
  step<typename Sch<D>::SL, D>(0, dt, v, l);
  // F(x) = p(x - dt u(x)):  grad F = (I - dt A)^T grad p
  double t[3] = {w[0] - s[0], w[1] - s[1], w[2] - s[2]};
  vf_eq(l.phi()(w[0], w[1], w[2]), P.value(t), "phi is the transported field");
  for (int a = 0; a < D; ++a) {
    double e = 0;
    for (int c = 0; c < D; ++c) e += ((a == c ? 1 : 0) - dt * A[c][a]) * P.grad(t, c, b.h);
    vf_eq(l.psi()(w[0], w[1], w[2])[a], e, "psi is the gradient of the transported field");
  }
}
HARNESS(af1) { affine<1>(); }
HARNESS(af2) { affine<2>(); }
HARNESS(af3) { affine<3>(); }
VF_TABLE(E(ee1), E(ee2), E(ee3), E(sl1), E(sl2), E(sl3), E(tr1), E(tr2), E(tr3), E(af1), E(af2), E(af3))
