// C17: the input file reader
#include "h_gals.h"
#include "h_yaml.h"
#include "gals/input-parser/general.h"
#include "gals/input-parser/grid.h"
#include "gals/input-parser/input-parser-base.h"
#include "gals/input-parser/levelset.h"
#include "gals/input-parser/time.h"
#include "gals/input-parser/velocity.h"
using GALS::INPUT_FIELDS::InputFields;
namespace IP = GALS::INPUT_PARSER;

static bool seq(const std::string &a, const char *b)
{
  size_t i = 0;
  for (; b[i]; ++i)
    if (i >= a.size() || a[i] != b[i]) return false;
  return i == a.size();
}
static const char *kText[] = {"CIRCULAR", "a rather long name that does not fit a small string", "NO", "x"};
// everything an input file can say
struct Values {
  double box[6], t[3], radius, lc[3], vv[3], vc[3];
  int n[3], nv;
  const char *dir, *cdt, *vname, *vgrad, *lname, *lgrad;
  explicit Values(const char *who, int r)
  {
    for (int i = 0; i < 6; ++i) box[i] = vf_real(who, -1000, 1000);
    for (int i = 0; i < 3; ++i) t[i] = vf_real(who, -1000, 1000);
    radius = vf_real(who, -1000, 1000);
    for (int i = 0; i < 3; ++i) lc[i] = vf_real(who, -1000, 1000);
    for (int i = 0; i < 3; ++i) vv[i] = vf_real(who, -1000, 1000);
    for (int i = 0; i < 3; ++i) vc[i] = vf_real(who, -1000, 1000);
    char w[8] = {who[0], 'n', 0};
    for (int i = 0; i < 3; ++i) n[i] = vf_int(w, 1, 1000000);
    nv = 3;
    dir = kText[r & 3];
    cdt = kText[(r + 2) & 3];
    vname = kText[(r + 1) & 3];
    vgrad = kText[(r + 3) & 3];
    lname = kText[(r + 1 + (r >> 2)) & 3];
    lgrad = kText[(r + 2 + (r >> 2)) & 3];
  }
};
enum { GENERAL = 1, GRID = 2, TIME = 4, VELOCITY = 8, LEVELSET = 16 };
static void describe(Doc &d, const Values &v, int sections, bool extra)
{
  vf_yaml *r = d.root();
  if (extra) d.text(r, "comment", "not for the reader");
  if (sections & LEVELSET) {
    vf_yaml *s = d.map(r, "levelset");
    d.text(s, "name", v.lname);
    vf_yaml *c = d.seq(s, "center");
    for (int i = 0; i < 3; ++i) d.real(c, "", v.lc[i]);
    d.real(s, "radius", v.radius);
    if (extra) d.real(s, "other", 3.5);
    d.text(d.map(s, "gradient"), "scheme", v.lgrad);
  }
  if (sections & TIME) {
    vf_yaml *s = d.map(r, "time");
    d.real(s, "start", v.t[0]);
    d.real(s, "end", v.t[1]);
    d.real(s, "dt", v.t[2]);
    d.text(s, "constant_dt", v.cdt);
  }
  if (sections & GENERAL) d.text(d.map(r, "general"), "output_directory", v.dir);
  if (sections & VELOCITY) {
    vf_yaml *s = d.map(r, "velocity");
    d.text(s, "name", v.vname);
    vf_yaml *a = d.seq(s, "vector"), *c = d.seq(s, "center");
    for (int i = 0; i < v.nv; ++i) d.real(a, "", v.vv[i]);
    for (int i = 0; i < v.nv; ++i) d.real(c, "", v.vc[i]);
    d.text(d.map(s, "gradient"), "scheme", v.vgrad);
  }
  if (sections & GRID) {
    vf_yaml *s = d.map(r, "grid"), *b = d.map(s, "box"), *c = d.seq(s, "cells");
    d.real(b, "x_min", v.box[0]);
    d.real(b, "x_max", v.box[1]);
    d.real(b, "y_min", v.box[2]);
    d.real(b, "y_max", v.box[3]);
    d.real(b, "z_min", v.box[4]);
    d.real(b, "z_max", v.box[5]);
    for (int i = 0; i < 3; ++i) d.whole(c, "", v.n[i]);
  }
  d.ready();
}
static void preset(InputFields &f, const Values &v)
{
  f.m_general->output_directory = v.dir;
  auto &g = *f.m_grid;
  g.x_min = v.box[0], g.x_max = v.box[1], g.y_min = v.box[2], g.y_max = v.box[3], g.z_min = v.box[4], g.z_max = v.box[5];
  g.nx = v.n[0], g.ny = v.n[1], g.nz = v.n[2];
  f.m_time->start = v.t[0], f.m_time->end = v.t[1], f.m_time->dt = v.t[2], f.m_time->constant_dt = v.cdt;
  f.m_velocity->name = v.vname;
  f.m_velocity->gradient_scheme = v.vgrad;
  f.m_velocity->vector.assign(v.vv, v.vv + v.nv);
  f.m_velocity->center.assign(v.vc, v.vc + v.nv);
  f.m_levelset->name = v.lname;
  f.m_levelset->gradient_scheme = v.lgrad;
  f.m_levelset->center = Vec3<double>(v.lc[0], v.lc[1], v.lc[2]);
  f.m_levelset->radius = v.radius;
}
static void compare(const InputFields &f, const Values &nw, const Values &old, int sections)
{
  const Values &a = sections & GENERAL ? nw : old, &b = sections & GRID ? nw : old, &c = sections & TIME ? nw : old,
               &d = sections & VELOCITY ? nw : old, &e = sections & LEVELSET ? nw : old;
  vf_check(seq(f.m_general->output_directory, a.dir), "general: output directory");
  auto &g = *f.m_grid;
  vf_eq(g.x_min, b.box[0], "grid: x_min");
  vf_eq(g.x_max, b.box[1], "grid: x_max");
  vf_eq(g.y_min, b.box[2], "grid: y_min");
  vf_eq(g.y_max, b.box[3], "grid: y_max");
  vf_eq(g.z_min, b.box[4], "grid: z_min");
  vf_eq(g.z_max, b.box[5], "grid: z_max");
  vf_ieq(g.nx, b.n[0], "grid: cells along x");
  vf_ieq(g.ny, b.n[1], "grid: cells along y");
  vf_ieq(g.nz, b.n[2], "grid: cells along z");
  vf_eq(f.m_time->start, c.t[0], "time: start");
  vf_eq(f.m_time->end, c.t[1], "time: end");
  vf_eq(f.m_time->dt, c.t[2], "time: dt");
  vf_check(seq(f.m_time->constant_dt, c.cdt), "time: constant_dt");
  vf_check(seq(f.m_velocity->name, d.vname), "velocity: name");
  vf_check(seq(f.m_velocity->gradient_scheme, d.vgrad), "velocity: gradient scheme");
  vf_ieq((long)f.m_velocity->vector.size(), d.nv, "velocity: length of vector");
  vf_ieq((long)f.m_velocity->center.size(), d.nv, "velocity: length of center");
  for (int i = 0; i < d.nv; ++i) {
    if (i < (int)f.m_velocity->vector.size()) vf_eq(f.m_velocity->vector[i], d.vv[i], "velocity: vector");
    if (i < (int)f.m_velocity->center.size()) vf_eq(f.m_velocity->center[i], d.vc[i], "velocity: center");
  }
  vf_check(seq(f.m_levelset->name, e.lname), "levelset: name");
  vf_check(seq(f.m_levelset->gradient_scheme, e.lgrad), "levelset: gradient scheme");
  for (int i = 0; i < 3; ++i) vf_eq(f.m_levelset->center[i], e.lc[i], "levelset: center");
  vf_eq(f.m_levelset->radius, e.radius, "levelset: radius");
}
// any subset of the sections: present ones are read, absent ones leave their fields alone
HARNESS(parse_file)
{
  int sections = vf_pick("sections", 0, 31), r = vf_pick("texts", 0, 5);
  Values old("o", 5 - r), nw("f", r), other("z", r + 1);
  Doc d("inputs.yml"), wrong("inputs"), wrong2("inputs.yml2");
  describe(wrong, other, 31, false);
  describe(d, nw, sections, r & 1);
  describe(wrong2, other, 31, false);
  InputFields f;
  preset(f, old);
  IP::InputParser p;
  p.parse("inputs.yml", &f);
  compare(f, nw, old, sections);
}
// short texts in any of the fields that hold one, punctuation of paths included
HARNESS(parse_texts)
{
  Values old("o", 3), nw("f", 0);
  const int which = vf_pick("which", 0, 5), len = vf_pick("len", 0, vf_cfg("len"));
  static char buf[32];
  for (int i = 0; i < len; ++i) {
    buf[i] = "/. aB0-_"[vf_pick("ch", 0, 7)];
  }
  buf[len] = 0;
  (which == 0 ? nw.dir : which == 1 ? nw.cdt : which == 2 ? nw.vname : which == 3 ? nw.vgrad : which == 4 ? nw.lname : nw.lgrad) = buf;
  Doc d("inputs.yml");
  describe(d, nw, 31, false);
  InputFields f;
  preset(f, old);
  IP::InputParser p;
  p.parse("inputs.yml", &f);
  compare(f, nw, old, 31);
}
// a second file overrides what it mentions and nothing else; nothing is accumulated
HARNESS(parse_twice)
{
  int s1 = vf_pick("first", 0, 2), s2 = vf_pick("second", 0, 31);
  s1 = s1 == 0 ? 31 : s1 == 1 ? GRID | LEVELSET : VELOCITY | TIME | GENERAL;
  Values zero("o", 0), a("a", 1), b("b", 2);
  b.nv = 2;
  Doc da("first.yml"), db("second.yml");
  describe(da, a, s1, true);
  describe(db, b, s2, false);
  InputFields f, other;
  preset(f, zero);
  preset(other, zero);
  IP::InputParser p;
  p.parse("first.yml", &f);
  compare(f, a, zero, s1);
  p.parse("second.yml", &f);
  Values mid(a);
  if (!(s1 & GENERAL)) mid.dir = zero.dir;
  if (!(s1 & GRID)) {
    for (int i = 0; i < 6; ++i) mid.box[i] = zero.box[i];
    for (int i = 0; i < 3; ++i) mid.n[i] = zero.n[i];
  }
  if (!(s1 & TIME)) {
    for (int i = 0; i < 3; ++i) mid.t[i] = zero.t[i];
    mid.cdt = zero.cdt;
  }
  if (!(s1 & VELOCITY)) {
    mid.vname = zero.vname, mid.vgrad = zero.vgrad;
    for (int i = 0; i < 3; ++i) mid.vv[i] = zero.vv[i], mid.vc[i] = zero.vc[i];
  }
  if (!(s1 & LEVELSET)) {
    mid.lname = zero.lname, mid.lgrad = zero.lgrad, mid.radius = zero.radius;
    for (int i = 0; i < 3; ++i) mid.lc[i] = zero.lc[i];
  }
  compare(f, b, mid, s2);
  compare(other, zero, zero, 0);
}
// each section's reader, called directly in every way it offers
HARNESS(parse_section)
{
  Values old("o", 3), nw("f", 1);
  Doc d("inputs.yml");
  describe(d, nw, 31, true);
  InputFields f;
  preset(f, old);
  YAML::Node root = YAML::LoadFile("inputs.yml");
  int how = vf_pick("how", 0, 3);
#define ONE(NAME, KEY)                                                    \
  {                                                                       \
    if (how == 0) IP::NAME().parse(root[KEY], &f);                        \
    if (how == 1) IP::NAME()(root[KEY], &f);                              \
    if (how == 2) IP::InputParserBase<IP::NAME>::parse(root[KEY], &f);    \
    if (how == 3) IP::InputParserBase<IP::NAME>()(root[KEY], &f);         \
  }
  int s = vf_pick("section", 0, 4);
  if (s == 0) ONE(General, "general")
  if (s == 1) ONE(Grid, "grid")
  if (s == 2) ONE(Time, "time")
  if (s == 3) ONE(Velocity, "velocity")
  if (s == 4) ONE(Levelset, "levelset")
  compare(f, nw, old, 1 << s);
}
// input records start empty, belong to their object and are released with it
HARNESS(parse_memory)
{
  Values v("o", 1);
  long before = vf_heap();
  {
    InputFields a, b;
    vf_check(a.m_general != b.m_general && a.m_grid != b.m_grid && a.m_time != b.m_time && a.m_velocity != b.m_velocity &&
                 a.m_levelset != b.m_levelset,
             "two input records share nothing");
    vf_check(a.m_velocity->vector.empty() && a.m_velocity->center.empty() && a.m_velocity->name.empty() && a.m_levelset->name.empty() &&
                 a.m_general->output_directory.empty() && a.m_time->constant_dt.empty(),
             "new input records are empty");
    preset(a, v);
    compare(a, v, v, 31);
  }
  vf_ieq(vf_heap(), before, "input records are released");
}
VF_TABLE(E(parse_file), E(parse_texts), E(parse_twice), E(parse_section), E(parse_memory))
