// C15, C16: analytical fields; C21: containers; C24: memory
#include "h_gals.h"
#include "gals/analytical-fields/levelset.h"
#include "gals/analytical-fields/velocity.h"
#include "gals/input-fields/input-fields.h"
using GALS::INTERPOLATION::Hermite;
using GALS::INTERPOLATION::Linear;

// in histories, the other name comes first
static const char *known_name(const char *name, const char *known) { return name[0] == known[0] && name[1] == known[1] ? known : "OTHER"; }
// ---- C15
template <int D>
static void circle(const char *name, bool known)
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  b.past([name](const G &o) {
    GALS::INPUT_FIELDS::Levelset in;
    in.name = known_name(name, "CIRCLE");
    in.radius = 0.5;
    in.center = Vec3<double>(3, -1, 2);
    in.gradient_scheme = "CENTRAL";
    Levelset<G, double> e(o);
    Array<G, Vec3<double>> y(o);
    some(y, 3, 1);
    GALS::ANALYTICAL_FIELDS::Levelset<G, double> f(o, in);
    f.compute(y, e);
  });
  Levelset<G, double> l(b.g);
  Array<G, Vec3<double>> x(b.g);
  if (vf_cfg("hist")) {
    // the same objects with other positions and inputs
    GALS::INPUT_FIELDS::Levelset other;
    other.name = "CIRCLE";
    other.radius = 2;
    other.center = Vec3<double>(-1, 1, 4);
    some(x, 3, -2);
    GALS::ANALYTICAL_FIELDS::Levelset<G, double> f(b.g, other);
    f.compute(x, l);
    f.compute(x, l);
  }
  junk<D>(b, l);
  fillv(b, x, "x", 3);
  GALS::INPUT_FIELDS::Levelset in;
  in.name = name;
  const double radius = scalar("r");
  in.radius = radius;
  double c[3];
  for (int a = 0; a < 3; ++a) c[a] = scalar("center");
  in.center = Vec3<double>(c[0], c[1], c[2]);
  in.gradient_scheme = "CENTRAL";
  LsSnap<D, MyGrid<D>> s(b, l);
  auto sx = SNAP(MyGrid<D>, b, x, 3);
  GALS::ANALYTICAL_FIELDS::Levelset<G, double> f(b.g, in);
  vf_check(&f.grid() == &b.g, "the analytical field remembers its grid");
  f.compute(x, l);
  if (known) {
    FOR_INTERIOR(b, i, j, k)
    {
      double d = l.phi()(i, j, k) + in.radius, e = 0;
      for (int a = 0; a < 3; ++a) e += (x(i, j, k)[a] - c[a]) * (x(i, j, k)[a] - c[a]);
      vf_le(0, d, "distance to the centre is not negative");
      vf_eq(d * d, e, "phi is the distance to the centre minus the radius");
    }
    s.phi.ghostsSame(b, l.phi(), "phi of ghost nodes is left alone");
  } else
    s.phi.same(b, l.phi(), "an unknown level set name changes nothing");
  s.psi.same(b, l.psi(), "psi is left alone");
  s.prevSame(b, l);
  s.interpSame(b, l);
  sx.same(b, x, "the positions are left alone");
  vf_eq(in.radius, radius, "inputs are left alone");
  for (int a = 0; a < 3; ++a) vf_eq(in.center[a], c[a], "inputs are left alone");
}
HARNESS(circle1) { circle<1>("CIRCLE", true); }
HARNESS(circle2) { circle<2>("CIRCLE", true); }
HARNESS(circle3) { circle<3>("CIRCLE", true); }
static const char *kOther[] = {"", "circle", "CIRCL", "CIRCLE ", "SQUARE"};
HARNESS(circle_other)
{
  int o = vf_pick("name", 0, 4);
  circle<2>(kOther[o], false);
}

// ---- C16
template <int D>
static void circular(const char *name, const char *grad, bool known, bool analytic)
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  b.past([](const G &o) {
    GALS::INPUT_FIELDS::Velocity in;
    in.name = "CIRCULAR";
    in.gradient_scheme = "ANALYTICAL";
    in.center.resize(3, 0.75);
    in.vector.resize(3, 0.5);
    LevelsetVelocity<G, double> e(o);
    Array<G, Vec3<double>> y(o);
    some(y, 3, 1);
    GALS::ANALYTICAL_FIELDS::Velocity<G, double> f(o, in);
    f.compute(y, 1, e);
  });
  LevelsetVelocity<G, double> v(b.g);
  Array<G, Vec3<double>> x(b.g);
  if (vf_cfg("hist")) {
    GALS::INPUT_FIELDS::Velocity other;
    other.name = "CIRCULAR";
    other.gradient_scheme = "ANALYTICAL";
    other.center.resize(3, -0.25);
    other.vector.resize(3, 2);
    some(x, 3, -2);
    GALS::ANALYTICAL_FIELDS::Velocity<G, double> f(b.g, other);
    f.compute(x, 0, v);
    f.compute(x, 3, v);
  }
  fillv(b, v.velocity(), "u", 3);
  fillv(b, v.velocityGradient(), "G", 9);
  fillv(b, x, "x", 3);
  GALS::INPUT_FIELDS::Velocity in;
  in.name = name;
  in.gradient_scheme = grad;
  double c[3];
  for (int a = 0; a < 3; ++a) {
    c[a] = scalar("center");
    in.center.push_back(c[a]);
    in.vector.push_back(scalar("vector"));
  }
  auto sv = SNAP(MyGrid<D>, b, v.velocity(), 3);
  auto sg = SNAP(MyGrid<D>, b, v.velocityGradient(), 9);
  auto sx = SNAP(MyGrid<D>, b, x, 3);
  GALS::ANALYTICAL_FIELDS::Velocity<G, double> f(b.g, in);
  vf_check(&f.grid() == &b.g, "the analytical field remembers its grid");
  f.compute(x, scalar("time"), v);
  const double w = 3.14159265358979323846 / 3.15;
  if (known) {
    FOR_INTERIOR(b, i, j, k)
    {
      Vec3<double> u = v.velocity()(i, j, k), r = x(i, j, k) - Vec3<double>(c[0], c[1], c[2]);
      vf_eq(u[0], -w * r[1], "x velocity of the rotation about the centre");
      vf_eq(u[1], w * r[0], "y velocity of the rotation about the centre");
      vf_eq(u[2], 0, "no velocity along z");
      if (analytic) {
        const Mat3<double> &g = v.velocityGradient()(i, j, k);
        vf_eq(g(0, 0), 0, "analytical velocity gradient, du/dx");
        vf_eq(g(0, 1), -w, "analytical velocity gradient, du/dy");
        vf_eq(g(1, 0), w, "analytical velocity gradient, dv/dx");
        vf_eq(g(1, 1), 0, "analytical velocity gradient, dv/dy");
      }
    }
    sv.ghostsSame(b, v.velocity(), "velocity of ghost nodes is left alone");
    sg.ghostsSame(b, v.velocityGradient(), "velocity gradient of ghost nodes is left alone");
  } else
    sv.same(b, v.velocity(), "an unknown velocity name changes nothing");
  if (!known || !analytic) sg.same(b, v.velocityGradient(), "only the ANALYTICAL scheme sets the velocity gradient");
  if (known && analytic) {
    int q = 0;
    FOR_ALL(b, i, j, k)
    for (int m = 0; m < 9; ++m, ++q)
      if (m / 3 > 1 || m % 3 > 1) vf_eq(v.velocityGradient()(i, j, k)[m], sg.v[q], "the rotation leaves the z row and column alone");
  }
  sx.same(b, x, "the positions are left alone");
  for (int a = 0; a < 3; ++a) vf_eq(in.center[a], c[a], "inputs are left alone");
}
HARNESS(circ2) { circular<2>("CIRCULAR", "ANALYTICAL", true, true); }
HARNESS(circ3) { circular<3>("CIRCULAR", "ANALYTICAL", true, true); }
static const char *kGrad[] = {"", "CENTRAL", "analytical", "ANALYTICA", "ANALYTICAL2"};
HARNESS(circ2_num)
{
  int o = vf_pick("scheme", 0, 4);
  circular<2>("CIRCULAR", kGrad[o], true, false);
}
static const char *kOtherV[] = {"", "circular", "CIRCULA", "CIRCULAR2", "UNIFORM"};
HARNESS(circ_other)
{
  int o = vf_pick("name", 0, 4);
  circular<2>(kOtherV[o], "ANALYTICAL", false, true);
}
// a node of a rotation never changes its distance to the centre to first order, and the flow is u = G (x - c)
template <int D>
static void rotation()
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  LevelsetVelocity<G, double> v(b.g);
  Array<G, Vec3<double>> x(b.g);
  FOR_ALL(b, i, j, k) x(i, j, k) = b.g(i, j, k);
  GALS::INPUT_FIELDS::Velocity in;
  in.name = "CIRCULAR";
  in.gradient_scheme = "ANALYTICAL";
  Vec3<double> c(scalar("center"), scalar("center"), scalar("center"));
  for (int a = 0; a < 3; ++a) in.center.push_back(c[a]);
  GALS::ANALYTICAL_FIELDS::Velocity<G, double> f(b.g, in);
  f.compute(x, 0, v);
  FOR_INTERIOR(b, i, j, k)
  {
    Vec3<double> u = v.velocity()(i, j, k), r = x(i, j, k) - c;
    vf_eq(u[0] * r[0] + u[1] * r[1], 0, "the velocity is perpendicular to the radius");
    for (int a = 0; a < 2; ++a) {
      double s = 0;
      for (int d = 0; d < 2; ++d) s += v.velocityGradient()(i, j, k)(a, d) * r[d];
      vf_eq(u[a], s, "the velocity gradient generates the velocity");
    }
  }
}
HARNESS(rot2) { rotation<2>(); }
HARNESS(rot3) { rotation<3>(); }

// ---- C21
template <int D>
static void containers()
{
  typedef Grid<double, D> G;
  const int m = MixedCount<D>::n;
  MyGrid<D> b;
  b.past([](const G &o) {
    Levelset<G, double> e(o);
    some_ls<D>(e);
  });
  Levelset<G, double> l(b.g);
  const Levelset<G, double> &cl = l;
  vf_check(&l.grid() == &b.g, "a level set remembers its grid");
  FOR_ALL(b, i, j, k)
  {
    vf_eq(cl.phi()(i, j, k), 0, "a new level set is zero");
    vf_eq(cl.phiPrev()(i, j, k), 0, "a new level set is zero");
    vf_eq(cl.phiInterpPrev()(i, j, k), 0, "a new level set is zero");
    for (int a = 0; a < 3; ++a) {
      vf_eq(cl.psi()(i, j, k)[a], 0, "a new level set is zero");
      vf_eq(cl.psiPrev()(i, j, k)[a], 0, "a new level set is zero");
      vf_eq(cl.psiInterpPrev()(i, j, k)[a], 0, "a new level set is zero");
    }
    vf_ieq(cl.phiMixedDerivatives()(i, j, k).size(), m, "mixed derivatives per node");
    vf_ieq(cl.phiMixedDerivativesPrev()(i, j, k).size(), m, "mixed derivatives per node");
    for (int a = 0; a < m; ++a) {
      vf_eq(cl.phiMixedDerivatives()(i, j, k)[a], 0, "a new level set is zero");
      vf_eq(cl.phiMixedDerivativesPrev()(i, j, k)[a], 0, "a new level set is zero");
    }
  }
  // eight separate fields: fill them all, then each one still holds its own values through the const accessors
  junk<D>(b, l);
  vf_check(&l.phi() == &cl.phi() && &l.psi() == &cl.psi() && &l.phiPrev() == &cl.phiPrev() && &l.psiPrev() == &cl.psiPrev(),
           "const and plain accessors give the same field");
  vf_check(&l.phiInterpPrev() == &cl.phiInterpPrev() && &l.psiInterpPrev() == &cl.psiInterpPrev() &&
               &l.phiMixedDerivatives() == &cl.phiMixedDerivatives() &&
               &l.phiMixedDerivativesPrev() == &cl.phiMixedDerivativesPrev(),
           "const and plain accessors give the same field");
  LsSnap<D, MyGrid<D>> s(b, l);
  int w = vf_pick("field", 0, 7);
  int id[3], at = w % 3;
  for (int a = 0; a < 3; ++a) id[a] = !vf_cfg("big") ? vf_pick("w", b.mn(a), b.mx(a) - 1) : at == 0 ? b.mn(a) : at == 1 ? b.n[a] / 2 : b.mx(a) - 1;
  double nv = vf_real("new", -4, 4);
  int comp_ = 0;
  if (w == 0) l.phi()(id[0], id[1], id[2]) = nv;
  if (w == 1) l.phiPrev()(id[0], id[1], id[2]) = nv;
  if (w == 2) l.phiInterpPrev()(id[0], id[1], id[2]) = nv;
  if (w == 3) l.psi()(id[0], id[1], id[2])[1] = nv;
  if (w == 4) l.psiPrev()(id[0], id[1], id[2])[1] = nv;
  if (w == 5) l.psiInterpPrev()(id[0], id[1], id[2])[1] = nv;
  if (w == 6 && m) l.phiMixedDerivatives()(id[0], id[1], id[2])[0] = nv;
  if (w == 7 && m) l.phiMixedDerivativesPrev()(id[0], id[1], id[2])[0] = nv;
  if (w != 0) s.phi.same(b, cl.phi(), "a write to one field reaches no other");
  if (w != 1) s.phip.same(b, cl.phiPrev(), "a write to one field reaches no other");
  if (w != 2) s.phii.same(b, cl.phiInterpPrev(), "a write to one field reaches no other");
  if (w != 3) s.psi.same(b, cl.psi(), "a write to one field reaches no other");
  if (w != 4) s.psip.same(b, cl.psiPrev(), "a write to one field reaches no other");
  if (w != 5) s.psii.same(b, cl.psiInterpPrev(), "a write to one field reaches no other");
  if (w != 6) s.mix.same(b, cl.phiMixedDerivatives(), "a write to one field reaches no other");
  if (w != 7) s.mixp.same(b, cl.phiMixedDerivativesPrev(), "a write to one field reaches no other");
}
HARNESS(cont1) { containers<1>(); }
HARNESS(cont2) { containers<2>(); }
HARNESS(cont3) { containers<3>(); }
template <int D>
static void velocity_container()
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  b.past([](const G &o) {
    LevelsetVelocity<G, double> e(o);
    some(e.velocity(), 3, 1);
    some(e.velocityGradient(), 9, 1);
  });
  LevelsetVelocity<G, double> v(b.g);
  const LevelsetVelocity<G, double> &cv = v;
  vf_check(&v.grid() == &b.g, "a velocity remembers its grid");
  FOR_ALL(b, i, j, k)
  {
    for (int a = 0; a < 3; ++a) vf_eq(cv.velocity()(i, j, k)[a], 0, "a new velocity is zero");
    for (int a = 0; a < 9; ++a) vf_eq(cv.velocityGradient()(i, j, k)[a], 0, "a new velocity gradient is zero");
  }
  fillv(b, v.velocity(), "u", 3);
  auto su = SNAP(MyGrid<D>, b, v.velocity(), 3);
  fillv(b, v.velocityGradient(), "G", 9);
  auto sg = SNAP(MyGrid<D>, b, v.velocityGradient(), 9);
  su.same(b, cv.velocity(), "the const accessor gives the same velocity");
  sg.same(b, cv.velocityGradient(), "the const accessor gives the same gradient");
  fillv(b, v.velocity(), "u2", 3);
  sg.same(b, cv.velocityGradient(), "velocity and gradient are separate");
  GALS::CPU::InterpolatedFields<Vec3<double>> f;
  vf_eq(f.phi_interpolated, 0, "new interpolated fields are zero");
  for (int a = 0; a < 3; ++a) vf_eq(f.psi_interpolated[a], 0, "new interpolated fields are zero");
}
HARNESS(vcont1) { velocity_container<1>(); }
HARNESS(vcont2) { velocity_container<2>(); }
HARNESS(vcont3) { velocity_container<3>(); }

// ---- C24: no operation of the library touches memory it does not own, and everything is given back
template <int D>
static void work(int what)
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  Levelset<G, double> l(b.g);
  LevelsetVelocity<G, double> v(b.g);
  Array<G, Vec3<double>> x(b.g);
  if (what == 0) {
    junk<D>(b, l);
    Gradient<double, G, SecondOrderCentral<double, G>>::compute(l.phi(), l.psi());
    if (b.pad >= 2) Gradient<double, G, ThirdOrder<double, G>>::compute(l.phi(), l.psi());
    Gradient<double, G, SecondOrderCentral<double, G>>::compute(v.velocity(), v.velocityGradient());
    if (b.pad >= 2) Gradient<double, G, ThirdOrder<double, G>>::compute(v.velocity(), v.velocityGradient());
    l.phiPrev() = l.phi();
    l.psiPrev() = l.psi();
    l.phiMixedDerivativesPrev() = l.phiMixedDerivatives();
    Array<G, double> copy(l.phi());
    vf_ieq((long)copy.size(), (long)l.phi().size(), "a copied array has the size of its source");
  } else if (what == 1) {
    // any interpolation point between the first and the last stored node, the last node's own position included below it
    Hermite<double, G> H;
    Vec3<double> p;
    for (int a = 0; a < D; ++a) {
      double t = vf_real("t", -b.pad, b.n[a] - 1 + b.pad);
      vf_assume(t < b.n[a] - 1 + b.pad);
      p[a] = b.node(a, 0) + t * b.h[a];
    }
    FOR_ALL(b, i, j, k) l.phiPrev()(i, j, k) = 1;
    auto r = H.interpolate(b.g, p, l);
    // values 1 with zero gradients: the interpolant is defined by stored data only
    double u = 1;
    (void)u;
    r = H.interpolate(b.g, p, l, true);
  } else if (what == 2) {
    double dt = vf_real("dt", 0.015625, 4);
    FOR_INTERIOR(b, i, j, k)
    {
      int id[3] = {i, j, k};
      for (int a = 0; a < D; ++a) {
        bool corner = id[a] == 0;
        v.velocity()(i, j, k)[a] = (corner ? b.pad : -b.pad + 0.5) * b.h[a] / dt;
      }
    }
    Temporal<double, G, GALS::TEMPORAL_SCHEMES::SEMI_LAGRANGIAN::Euler<double, G>>::compute(dt, v, l);
    Temporal<double, G, GALS::TEMPORAL_SCHEMES::Euler<double, G>>::compute(dt, v, l);
    FOR_INTERIOR(b, i, j, k) vf_eq(l.phi()(i, j, k), -dt * v.velocity()(i, j, k)[0], "result is defined");
  } else {
    GALS::INPUT_FIELDS::InputFields in;
    in.m_velocity->name = "CIRCULAR";
    in.m_velocity->gradient_scheme = "ANALYTICAL";
    in.m_velocity->center.resize(3, 0.5);
    in.m_velocity->vector.resize(3, 0.5);
    in.m_levelset->name = "CIRCLE";
    in.m_levelset->gradient_scheme = "a scheme name that is longer than a small string";
    in.m_levelset->radius = 1;
    in.m_general->output_directory = "an output directory that is longer than a small string";
    if (D > 1) {
      GALS::ANALYTICAL_FIELDS::Velocity<G, double> f(b.g, *in.m_velocity);
      f.compute(x, 0, v);
    }
    GALS::ANALYTICAL_FIELDS::Levelset<G, double> g(b.g, *in.m_levelset);
    g.compute(x, l);
  }
}
template <int D>
static void memory_()
{
  int what = vf_pick("what", 0, 3);
  long before = vf_heap();
  work<D>(what);
  if (vf_heap() != before) {
    // a buffer kept for the next call is not a leak; one that grows with every call is
    work<D>(what);
    before = vf_heap();
    work<D>(what);
  }
  vf_ieq(vf_heap(), before, "repeating an operation does not hold on to more and more memory");
}
HARNESS(mem1) { memory_<1>(); }
HARNESS(mem2) { memory_<2>(); }
HARNESS(mem3) { memory_<3>(); }
VF_TABLE(E(circle1), E(circle2), E(circle3), E(circle_other), E(circ2), E(circ3), E(circ2_num), E(circ_other), E(rot2), E(rot3),
         E(cont1), E(cont2), E(cont3), E(vcont1), E(vcont2), E(vcont3), E(mem1), E(mem2), E(mem3))
