// C19: written files and file system requests
#include "h_gals.h"
#include "gals/utilities/file-utils.h"
#include <fstream>
#include <string>
using GALS::UTILITIES::FileUtils;

// ---- the file system the code sees: answers are free, requests are recorded
static int g_exists, g_dir, g_result, g_calls[4], g_parents;
static char g_path[4][200];
static void note(int what, const char *p)
{
  g_calls[what]++;
  int i = 0;
  for (; p[i] && i < 199; ++i) g_path[what][i] = p[i];
  g_path[what][i] = 0;
}
extern "C" int vf_fs_exists(const char *p) { return note(0, p), g_exists; }
extern "C" int vf_fs_is_dir(const char *p) { return note(0, p), g_dir; }
extern "C" int vf_fs_remove(const char *p) { return note(1, p), g_result; }
extern "C" int vf_fs_create(const char *p, int parents) { return note(2, p), g_parents = parents, g_result; }
extern "C" int vf_fs_rmtree(const char *p) { return note(3, p), g_result; }
static bool eq(const char *a, const std::string &b)
{
  size_t n = 0;
  while (a[n]) ++n;
  if (n != b.size()) return false;
  for (size_t i = 0; i < n; ++i)
    if (a[i] != b[i]) return false;
  return true;
}
static const char *kPaths[] = {"a", "dir/", "dir/sub/file.txt", "/abs/a much longer path, with spaces/and more/of it.txt", ""};
HARNESS(fs_requests)
{
  FileUtils f, other;
  other.setRootDirectory("other/");
  vf_check(f.getRootDirectory().empty(), "no root directory at first");
  int r = vf_pick("root", 0, 4), r2 = vf_pick("root2", 0, 4);
  f.setRootDirectory(kPaths[r]);
  vf_check(eq(kPaths[r], f.getRootDirectory()), "root directory is what was set");
  f.setRootDirectory(kPaths[r2]);
  vf_check(eq(kPaths[r2], f.getRootDirectory()), "root directory is what was set last");
  const char *p = kPaths[vf_pick("path", 0, 3)];
  g_exists = vf_pick("exists", 0, 1);
  g_result = vf_pick("result", 0, 1);
  for (int i = 0; i < 4; ++i) g_calls[i] = 0;
  int op = vf_pick("op", 0, 3);
  g_dir = op == 0 ? vf_pick("dir", 0, 1) : op != 1;  // what an existing path is
  const FileUtils &cf = f;
  if (op == 0) {
    vf_ieq(cf.fileExists(p), g_exists, "fileExists says whether the path exists");
    vf_check(g_calls[0] >= 1 && eq(g_path[0], p), "fileExists asks about the path it was given");
    vf_check(g_calls[1] + g_calls[2] + g_calls[3] == 0, "fileExists changes nothing");
  } else if (op == 1) {
    vf_ieq(cf.removeFile(p), g_result, "removeFile says whether it succeeded");
    vf_check(g_calls[1] == 1 && eq(g_path[1], p), "removeFile removes the path it was given, once");
    vf_check(g_calls[2] + g_calls[3] == 0, "removeFile changes nothing else");
  } else if (op == 2) {
    bool ok = cf.createDirectory(p);
    if (g_exists) {
      vf_check(ok, "createDirectory of an existing directory succeeds");
      vf_check(g_calls[2] == 0, "an existing directory is not created again");
    } else {
      vf_ieq(ok, g_result, "createDirectory says whether it succeeded");
      vf_check(g_calls[2] == 1 && eq(g_path[2], p), "createDirectory creates the path it was given, once");
      vf_check(g_parents, "createDirectory creates missing parents too");
    }
    vf_check(g_calls[1] + g_calls[3] == 0, "createDirectory removes nothing");
  } else {
    vf_ieq(cf.removeDirectory(p), g_result, "removeDirectory says whether it succeeded");
    vf_check(g_calls[3] == 1 && eq(g_path[3], p), "removeDirectory removes the path it was given, once");
    vf_check(g_calls[1] + g_calls[2] == 0, "removeDirectory changes nothing else");
  }
  vf_check(eq(kPaths[r2], f.getRootDirectory()), "requests leave the root directory alone");
  vf_check(eq("other/", other.getRootDirectory()), "objects do not share their root directory");
}

// ---- content of a written array
template <class T>
struct Cols;
template <>
struct Cols<double> {
  enum { n = 1 };
};
template <>
struct Cols<Vec3<double>> {
  enum { n = 3 };
};
static void set1(double &x, int, double v) { x = v; }
template <class V>
static void set1(V &x, int c, double v)
{
  x[c] = v;
}
static void end_of_line()
{
  int ch = vf_file_char();
  while (ch == '\t' || ch == ' ') ch = vf_file_char();
  vf_ieq(ch, '\n', "a line ends after its last column");
}
static void tab() { vf_ieq(vf_file_char(), '\t', "columns are separated by a tab"); }
template <int D, class A>
static void content(const MyGrid<D> &b, const A &a, int m)
{
  FOR_INTERIOR(b, i, j, k)
  {
    int id[3] = {i, j, k};
    for (int x = 0; x < 3; ++x) {
      vf_file_real(x < D ? b.node(x, id[x]) : 0, "a line starts with the node's position");
      tab();
    }
    for (int c = 0; c < m; ++c) {
      vf_file_real(comp(a(i, j, k), c), "the node's value follows its position");
      if (c + 1 < m) tab();
    }
    end_of_line();
  }
  vf_check(vf_file_end(), "one line per interior node, nothing else");
}
template <int D, class T>
static void write_file()
{
  typedef Grid<double, D> G;
  const int m = Cols<T>::n;
  MyGrid<D> b;
  Array<G, T> a(b.g), old(b.g);
  FOR_ALL(b, i, j, k)
  for (int c = 0; c < m; ++c) {
    set1(a(i, j, k), c, vf_real("v", -1000, 1000));
    set1(old(i, j, k), c, 7);
  }
  Snap<MyGrid<D>, Array<G, T>> s(b, a, m);
  FileUtils f;
  f.setRootDirectory("elsewhere/");
  if (vf_pick("rewrite", 0, 1)) f.write("out.txt", old);
  f.write("out.txt", a);
  vf_check(vf_file_open("out.txt"), "the file has the given name");
  content<D>(b, a, m);
  s.same(b, a, "writing leaves the array alone");
}
HARNESS(write1_s) { write_file<1, double>(); }
HARNESS(write1_v) { write_file<1, Vec3<double>>(); }
HARNESS(write2_s) { write_file<2, double>(); }
HARNESS(write2_v) { write_file<2, Vec3<double>>(); }
HARNESS(write3_v) { write_file<3, Vec3<double>>(); }
// stream output of the small types
template <class V>
static void small(V &v, int n, bool last_line)
{
  for (int i = 0; i < n; ++i) v[i] = vf_real("v", -1000, 1000);
  {
    std::ofstream o("small.txt");
    o << v << "\n";
    o.close();
  }
  vf_check(vf_file_open("small.txt"), "written");
  for (int i = 0; i < n; ++i) {
    vf_file_real(v[i], "components in order");
    if (i + 1 < n) tab();
  }
  end_of_line();
  vf_check(vf_file_end(), "nothing else is written");
}
HARNESS(small_types)
{
  Vec3<double> v;
  Mat3<double> m;
  VecN<double, 1> n1;
  VecN<double, 3> n3;
  VecN<double, 4> n4;
  switch (vf_pick("type", 0, 4)) {
    case 0: small(v, 3, true); break;
    case 1: small(m, 9, true); break;
    case 2: small(n1, 1, true); break;
    case 3: small(n3, 3, true); break;
    case 4: small(n4, 4, true); break;
  }
}
// arrays of every element type, streamed directly (formatting state of the stream is the caller's)
template <int D, class T>
static void stream_array(int m)
{
  typedef Grid<double, D> G;
  MyGrid<D> b;
  Array<G, T> a(b.g);
  FOR_ALL(b, i, j, k)
  for (int c = 0; c < m; ++c) set1(a(i, j, k), c, vf_real("v", -1000, 1000));
  {
    std::ofstream o("array.txt");
    o << a;
  }
  vf_check(vf_file_open("array.txt"), "written");
  content<D>(b, a, m);
}
HARNESS(stream1) { stream_array<1, Mat3<double>>(9); }
HARNESS(stream2) { stream_array<2, VecN<double, 2>>(2); }
HARNESS(stream3) { stream_array<3, double>(1); }
VF_TABLE(E(fs_requests), E(write1_s), E(write1_v), E(write2_s), E(write2_v), E(write3_v), E(small_types), E(stream1), E(stream2),
         E(stream3))
