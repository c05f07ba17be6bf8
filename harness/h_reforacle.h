// what a step of the reference programs should compute; vel_x, vel_y, g_ux, g_uy, g_vx, g_vy are the velocity and its gradients
#pragma once
// a nx by ny field; the first index is the row (y)
template <class T>
struct F {
  int nx, ny;
  T *a;
  F(int x, int y) : nx(x), ny(y), a((T *)malloc(x * y * sizeof(T))) {}
  F(const F &o) : nx(o.nx), ny(o.ny), a((T *)malloc(nx * ny * sizeof(T)))
  {
    for (int i = 0; i < nx * ny; ++i) a[i] = o.a[i];
  }
  ~F() { free(a); }
  T &operator()(int i, int j) { return a[i * nx + j]; }
  void fill(T v)
  {
    for (int i = 0; i < nx * ny; ++i) a[i] = v;
  }
  void any(const char *n)
  {
    for (int i = 0; i < nx * ny; ++i) a[i] = vf_real(n, -4, 4);
  }
  void some(int q)
  {
    for (int i = 0; i < nx * ny; ++i) a[i] = 0.25 * ((i * 7 + q) % 11) - 1;
  }
};
typedef F<double> FD;
typedef F<unsigned int> FI;
struct Ls {
  FD phi, px, py, pxy;
  Ls(int nx, int ny) : phi(nx, ny), px(nx, ny), py(nx, ny), pxy(nx, ny) {}
  void any()
  {
    phi.any("phi");
    px.any("psix");
    py.any("psiy");
    pxy.any("psixy");
  }
  void some(int q)
  {
    phi.some(q);
    px.some(q + 1);
    py.some(q + 2);
    pxy.some(q + 3);
  }
};
struct Nodes {
  int nx, ny;
  double *x, *y;
  Nodes(int a, int b) : nx(a), ny(b), x((double *)malloc(a * sizeof(double))), y((double *)malloc(b * sizeof(double))) {}
  ~Nodes()
  {
    free(x);
    free(y);
  }
};
// value with its derivatives along x and y of the node
struct Dual {
  double v, dx, dy;
};
static Dual operator+(Dual a, Dual b) { return Dual{a.v + b.v, a.dx + b.dx, a.dy + b.dy}; }
static Dual operator*(double s, Dual a) { return Dual{s * a.v, s * a.dx, s * a.dy}; }
static Dual vx_of(Dual x, Dual y, double t, double T)
{
  double a = g_ux(x.v, y.v, t, T), b = g_uy(x.v, y.v, t, T);
  return Dual{vel_x(x.v, y.v, t, T), a * x.dx + b * y.dx, a * x.dy + b * y.dy};
}
static Dual vy_of(Dual x, Dual y, double t, double T)
{
  double a = g_vx(x.v, y.v, t, T), b = g_vy(x.v, y.v, t, T);
  return Dual{vel_y(x.v, y.v, t, T), a * x.dx + b * y.dx, a * x.dy + b * y.dy};
}
// the point the trajectory through (x, y) at time t+1 comes from, and its derivatives
static void backtrace(double x, double y, unsigned t, double dt, double T, bool rk3, Dual &X, Dual &Y)
{
  Dual x0 = {x, 1, 0}, y0 = {y, 0, 1};
  double t1 = (t + 1.0) * dt, t0 = t * dt, th = (t + 0.5) * dt;
  Dual u = vx_of(x0, y0, t1, T), v = vy_of(x0, y0, t1, T);
  X = x0 + (-dt) * u;
  Y = y0 + (-dt) * v;
  if (!rk3) return;
  Dual u1 = vx_of(X, Y, t0, T), v1 = vy_of(X, Y, t0, T);
  X = x0 + (-dt / 4) * (u + u1);
  Y = y0 + (-dt / 4) * (v + v1);
  Dual u2 = vx_of(X, Y, th, T), v2 = vy_of(X, Y, th, T);
  X = x0 + (-dt / 6) * (u + u1 + 4 * u2);
  Y = y0 + (-dt / 6) * (v + v1 + 4 * v2);
}

// cubic Hermite segment, from its values and (scaled) slopes at the ends
static double seg(double a, double b, double da, double db, double t)
{
  double c = b - a;
  return a + t * (da + t * (3 * c - 2 * da - db + t * (da + db - 2 * c)));
}
static double dseg(double a, double b, double da, double db, double t)
{
  double c = b - a;
  return da + t * (2 * (3 * c - 2 * da - db) + t * 3 * (da + db - 2 * c));
}
struct Patch {
  double f[2][2], fx[2][2], fy[2][2], fxy[2][2];  // [y][x], derivatives scaled by the spacing
  double dx, dy;
  void along(double s, int r, double &v, double &vy, double &d, double &dyv) const
  {
    v = seg(f[r][0], f[r][1], fx[r][0], fx[r][1], s);
    vy = seg(fy[r][0], fy[r][1], fxy[r][0], fxy[r][1], s);
    d = dseg(f[r][0], f[r][1], fx[r][0], fx[r][1], s);
    dyv = dseg(fy[r][0], fy[r][1], fxy[r][0], fxy[r][1], s);
  }
  void at(double s, double t, double &v, double &gx, double &gy) const
  {
    double a[2], ay[2], d[2], dv[2];
    for (int r = 0; r < 2; ++r) along(s, r, a[r], ay[r], d[r], dv[r]);
    v = seg(a[0], a[1], ay[0], ay[1], t);
    gy = dseg(a[0], a[1], ay[0], ay[1], t) / dy;
    gx = seg(d[0], d[1], dv[0], dv[1], t) / dx;
  }
};
static Patch patch(Ls &m, FD &xy, int cx, int cy, double dx, double dy)
{
  Patch p;
  p.dx = dx;
  p.dy = dy;
  for (int r = 0; r < 2; ++r)
    for (int c = 0; c < 2; ++c) {
      p.f[r][c] = m.phi(cy + r, cx + c);
      p.fx[r][c] = m.px(cy + r, cx + c) * dx;
      p.fy[r][c] = m.py(cy + r, cx + c) * dy;
      p.fxy[r][c] = xy(cy + r, cx + c) * dx * dy;
    }
  return p;
}
// what one step makes of node (i, j): its departure point (xd, yd) has class cls and lies at (X, Y) of cell (cx, cy); m, xy: old values,
// w: values the new ones overwrite, e: result
static void expected_node(Nodes &n, int i, int j, int cls, int cx, int cy, double X, double Y, double xd, double yd, Ls &m, FD &xy, Ls &w, Ls &e, unsigned t, double dt,
                          double T, bool rk3, bool heun, double dx, double dy)
{
  const double x = n.x[j], y = n.y[i], t0 = t * dt, t1 = (t + 1.0) * dt;
  Patch p = patch(m, xy, cx, cy, dx, dy);
  double v, gx, gy;
  switch (cls) {
    case 1: {
      p.at(X, Y, v, gx, gy);
      e.phi(i, j) = v;
      if (!heun) {
        Dual bx, by;
        backtrace(x, y, t, dt, T, rk3, bx, by);
        e.px(i, j) = bx.dx * gx + by.dx * gy;
        e.py(i, j) = bx.dy * gx + by.dy * gy;
      } else {
        // dpsi/dt = -(grad u)^T psi along the trajectory: slopes at the departure point and at the node
        const double P[2] = {xd, yd};
        double a = g_ux(P[0], P[1], t0, T) * gx + g_vx(P[0], P[1], t0, T) * gy, b = g_uy(P[0], P[1], t0, T) * gx + g_vy(P[0], P[1], t0, T) * gy;
        double hx = gx - dt * a, hy = gy - dt * b;
        e.px(i, j) = gx - dt / 2 * (a + g_ux(x, y, t1, T) * hx + g_vx(x, y, t1, T) * hy);
        e.py(i, j) = gy - dt / 2 * (b + g_uy(x, y, t1, T) * hx + g_vy(x, y, t1, T) * hy);
      }
      break;
    }
    case 2: {
      p.at(X, i - cy, v, gx, gy);
      double o = w.px(i, j), py = w.py(i, j), z = w.pxy(i, j);
      e.phi(i, j) = v - dt * vel_y(x, y, t0, T) * py;
      double k1 = g_vx(x, y, t0, T) * py + vel_y(x, y, t0, T) * z + g_ux(x, y, t0, T) * o;
      double k2 = g_vx(x, y, t1, T) * py + vel_y(x, y, t1, T) * z + g_ux(x, y, t1, T) * (gx - dt * k1);
      e.px(i, j) = gx - dt / 2 * (k1 + k2);
      break;
    }
    case 3: {
      p.at(j - cx, Y, v, gx, gy);
      double o = w.py(i, j), px = w.px(i, j), z = w.pxy(i, j);
      e.phi(i, j) = v - dt * vel_x(x, y, t0, T) * px;
      double k1 = g_uy(x, y, t0, T) * px + vel_x(x, y, t0, T) * z + g_vy(x, y, t0, T) * o;
      double k2 = g_uy(x, y, t1, T) * px + vel_x(x, y, t1, T) * z + g_vy(x, y, t1, T) * (gy - dt * k1);
      e.py(i, j) = gy - dt / 2 * (k1 + k2);
      break;
    }
    case 4:
      e.phi(i, j) = w.phi(i, j) - dt * (vel_x(x, y, t0, T) * w.px(i, j) + vel_y(x, y, t0, T) * w.py(i, j));
  }
}
static double mixed_at(FD &px, FD &py, int i, int j, double dx, double dy)
{
  const int nx = px.nx, ny = px.ny;
  const bool ey = i == 0 || i == ny - 1, ex = j == 0 || j == nx - 1;
  if (!ex || !ey) {
    double a = ex ? 0 : (py(i, j + 1) - py(i, j - 1)) / (2 * dx), b = ey ? 0 : (px(i + 1, j) - px(i - 1, j)) / (2 * dy);
    return ex ? b : ey ? a : (a + b) / 2;
  }
  // corner: the row and the column through it, extrapolated with the neighbouring row and column
  const int c = j == 0 ? 0 : nx - 2, d = j == 0 ? 1 : nx - 2, r = i == 0 ? 0 : ny - 2, s = i == 0 ? 1 : ny - 2;
  double row = (py(i, c + 1) - py(i, c)) / dx, row2 = (py(s, c + 1) - py(s, c)) / dx;
  double col = (px(r + 1, j) - px(r, j)) / dy, col2 = (px(r + 1, d) - px(r, d)) / dy;
  return 0.75 * (row + col) - 0.25 * (row2 + col2);
}
