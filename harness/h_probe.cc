#include "h_common.h"
#include "gals/utilities/grid.h"
#include "gals/cpu/gradient.h"
#include "gals/cpu/levelset.h"
#include "gals/cpu/interpolate.h"
using namespace GALS::CPU;
template <int D> static void grid_geo()
{
  typedef Grid<double, D> G;
  int n[3] = {vf_cfg("nx"), D > 1 ? vf_cfg("ny") : 1, D > 2 ? vf_cfg("nz") : 1};
  G g(n[0], n[1], n[2]);
  double lo[3], h[3];
  for (int a = 0; a < 3; ++a) { lo[a] = vf_real("lo", -8, 8); h[a] = vf_real("h", 0.0625, 8); }
  g.generate(lo[0], lo[0] + n[0]*h[0], lo[1], lo[1] + n[1]*h[1], lo[2], lo[2] + n[2]*h[2]);
  for (int i = -1; i <= n[0]; ++i) {
    for (int j = D > 1 ? -1 : 0; j < n[1] + (D > 1); ++j) 
    for (int k = D > 2 ? -1 : 0; k < n[2] + (D > 2); ++k) {
    int id[3] = {i,j,k};
    for (int a = 0; a < D; ++a) vf_eq(g(i,j,k)[a], lo[a] + (id[a] + 0.5) * h[a], "node position");
    }
  }
}
HARNESS(geo1) { grid_geo<1>(); }
HARNESS(geo2) { grid_geo<2>(); }
HARNESS(geo3) { grid_geo<3>(); }
HARNESS(herm1) {
  typedef Grid<double, 1> G;
  G g(4, 1, 1);
  double lo = vf_real("lo", -8, 8), h = vf_real("h", 0.0625, 8);
  g.generate(lo, lo + 4 * h, 0, 1, 0, 1);
  Levelset<G, double> ls(g);
  for (int i = -1; i < 5; ++i) { ls.phiPrev()(i,0,0) = vf_real("phi", -4, 4); ls.psiPrev()(i,0,0)[0] = vf_real("psi", -4, 4); }
  double e = vf_real("eta", 0, 5);
  vf_assume(e < 5);
  Vec3<double> x(lo + (e - 0.5) * h, 0, 0);
  GALS::INTERPOLATION::Hermite<double, G> H;
  auto r = H.interpolate(g, x, ls);
  Vec3<int> b = g.baseNodeId(x);
  vf_check(b[0] >= -1 && b[0] <= 3, "base");
  vf_eq(r.phi_interpolated, r.phi_interpolated, "self");
}
VF_TABLE(E(geo1), E(geo2), E(geo3), E(herm1))
