// Native side of vf.h: values come from the file named by VF_INPUT ("name value" lines), checks are
// evaluated on the real build with a rounding tolerance.
#include "vf.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>

#include <unistd.h>
#include <fcntl.h>
static std::map<std::string, std::string> g_val;
// how often each name was asked for; no heap storage, so that vf_heap sees the code under test only
static struct { char name[60]; int n; } g_count[4096];
static int g_fail = 0;
static FILE *g_out = nullptr;

static void finish(int c)
{
  fflush(g_out);
  _exit(c);
}

static std::string uniq(const char *name)
{
  unsigned h = 5381;
  for (const char *c = name; *c; ++c) h = h * 33 + (unsigned char)*c;
  h %= 4096;
  while (g_count[h].name[0] && strncmp(g_count[h].name, name, 59)) h = (h + 1) % 4096;
  strncpy(g_count[h].name, name, 59);
  int n = g_count[h].n++;
  std::string s = name;
  if (n) s += "#" + std::to_string(n);
  return s;
}

static const std::string *find(const std::string &n)
{
  auto it = g_val.find(n);
  return it == g_val.end() ? nullptr : &it->second;
}

extern "C" {
double vf_real(const char *name, double lo, double hi)
{
  auto s = find(uniq(name));
  double v = s ? strtod(s->c_str(), nullptr) : 0.5 * (lo + hi);
  return v;
}
double vf_any(const char *name)
{
  auto s = find(uniq(name));
  return s ? strtod(s->c_str(), nullptr) : 0.0;
}
int vf_int(const char *name, int lo, int hi)
{
  auto s = find(uniq(name));
  return s ? (int)strtol(s->c_str(), nullptr, 10) : lo;
}
int vf_pick(const char *name, int lo, int hi) { return vf_int(name, lo, hi); }
int vf_cfg(const char *name)
{
  auto s = find(std::string("cfg:") + name);
  if (!s) return 0;
  return (int)strtol(s->c_str(), nullptr, 10);
}
void vf_assume(int c)
{
  if (!c) { if (g_fail) { fprintf(g_out, "VF_DONE fail=%d\n", g_fail); finish(1); } fprintf(g_out, "VF_ASSUME_FAILED\n"); finish(3); }
}
static void fail(const char *msg, double a, double b)
{
  if (g_fail < 20) fprintf(g_out, "VF_FAIL %s: %.17g vs %.17g\n", msg, a, b);
  g_fail++;
}
static double tol(double a, double b) { return 2e-9 * std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))); }
void vf_eq(double a, double b, const char *msg)
{
  if (a == b) return;
  if (!(std::fabs(a - b) <= tol(a, b))) fail(msg, a, b);
}
void vf_le(double a, double b, const char *msg)
{
  if (!(a <= b + tol(a, b))) fail(msg, a, b);
}
void vf_same(double a, double b, const char *msg)
{
  if (a == b || (a != a && b != b)) return;
  fail(msg, a, b);
}
void vf_ieq(long a, long b, const char *msg)
{
  if (a != b) fail(msg, (double)a, (double)b);
}
void vf_check(int c, const char *msg)
{
  if (!c) fail(msg, 0, 1);
}
static int g_thread = 0;
static double uf(const char *name, const double *a, int k)
{
  // the table was read at start; lookups only read it
  double best = 1e-5, val = 0.375;
  std::string pre = std::string("uf:") + name + ":";
  for (auto it = g_val.lower_bound(pre); it != g_val.end() && !it->first.compare(0, pre.size(), pre); ++it) {
    auto at = g_val.find(it->first + ":at");
    if (at == g_val.end()) continue;
    const char *c = at->second.c_str();
    double d = 0;
    for (int i = 0; i < k; ++i) {
      char *q;
      double x = strtod(c, &q);
      c = q;
      d += std::fabs(x - a[i]) / std::fmax(1.0, std::fabs(x));
    }
    if (d < best) { best = d; val = strtod(it->second.c_str(), nullptr); }
  }
  return val;
}
double vf_uf2(const char *name, double a, double b)
{
  double v[2] = {a, b};
  return uf(name, v, 2);
}
double vf_uf4(const char *name, double a, double b, double c, double d)
{
  double v[4] = {a, b, c, d};
  return uf(name, v, 4);
}
#ifndef VF_THREADS
void vf_parallel(int n, void (*fn)(void *, int), void *arg)
{
  for (int i = 0; i < n; ++i) {
    g_thread = i;
    fn(arg, i);
  }
  g_thread = 0;
}
void vf_barrier(void) {}
int vf_thread(void) { return g_thread; }
#endif
void vf_reach(const char *) {}
int vf_symbolic(void) { return 0; }
#ifndef VF_THREADS
size_t __sanitizer_get_current_allocated_bytes(void);
long vf_heap(void) { return (long)__sanitizer_get_current_allocated_bytes(); }
#else
long vf_heap(void) { return 0; }
#endif
void vf_native_exit(int c);
static std::string g_file;
static size_t g_pos;
int vf_file_open(const char *name)
{
  std::ifstream in(name, std::ios::binary);
  g_pos = 0;
  g_file.clear();
  if (!in) return 0;
  std::stringstream ss;
  ss << in.rdbuf();
  g_file = ss.str();
  return 1;
}
static bool numeric(char c) { return (c >= '0' && c <= '9') || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'n' || c == 'i' || c == 'f' || c == 'a'; }
int vf_file_char(void)
{
  if (g_pos >= g_file.size() || numeric(g_file[g_pos])) return -1;
  return (unsigned char)g_file[g_pos++];
}
int vf_file_end(void) { return g_pos >= g_file.size(); }
void vf_file_real(double want, const char *msg)
{
  size_t e = g_pos;
  while (e < g_file.size() && numeric(g_file[e])) ++e;
  std::string t = g_file.substr(g_pos, e - g_pos);
  char *q = nullptr;
  double v = t.empty() ? 0 : strtod(t.c_str(), &q);
  if (t.empty() || *q) {
    fail(msg, -1, want);
    fprintf(g_out, "VF_DONE fail=%d\n", g_fail);
    finish(1);
  }
  g_pos = e;
  if (!(std::fabs(v - want) <= 1e-5 * std::fabs(want) + (vf_cfg("fixed10") ? 1e-10 : 1e-12))) fail(msg, v, want);
}
}
void vf_run(const char *name);

static bool g_done = false;
static void at_exit()
{
  if (g_done) return;
  // the code under test called exit()
  fprintf(g_out, "VF_EXIT fail=%d\n", g_fail);
  finish(g_fail ? 1 : 5);
}

int main(int argc, char **argv)
{
  if (argc < 3) return 4;
  // the code under test may write to stdout: keep our report on a private descriptor
  int fd = dup(1);
  g_out = fdopen(fd, "w");
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  std::ifstream in(argv[2]);
  std::string line;
  while (std::getline(in, line)) {
    auto p = line.find('\t');
    if (p != std::string::npos) g_val[line.substr(0, p)] = line.substr(p + 1);
  }
  // first-use allocations of the streams happen here, not in the code under test
  std::cout << "warm up " << 1.5 << ' ' << 1 << std::endl;
  printf("warm up\n");
  fprintf(g_out, "VF_START\n");
  atexit(at_exit);
  vf_run(argv[1]);
  g_done = true;
  fprintf(g_out, "VF_DONE fail=%d\n", g_fail);
  fflush(g_out);
  _exit(g_fail ? 1 : 0);
}
