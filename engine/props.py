"""The registry: which harness, sizes and modes decide which property."""
import os

import refgen
from build import REPO

COMMON_ASSUMPTIONS = [
    "real mode: floating-point numbers are exact reals (differences below 1e-8 are treated as rounding); fp mode: IEEE binary64",
    "clang 18 lowers the sources faithfully; the replay uses g++ with AddressSanitizer and UBSan",
    "allocation succeeds; libstdc++'s out-of-line functions behave as modelled in engine/builtins_cxx.py",
]


def lib_sources(srcs):
    return [s for s in srcs if not s.endswith("/file-utils.cc")]


GROUPS = {
    "lib": dict(sources=lib_sources),
    "yaml": dict(sources=lib_sources, stubs=["yaml"], nstubs=[]),
    "io": dict(sources=lambda srcs: srcs, stubs=["fs"]),
}
MAIN = [(os.path.join(REPO, "applications", "advection", "main.cc"), ["-Dmain=gals_advection_main", "-include", "cstring"])]
GROUPS["app"] = GROUPS["appfar"] = dict(sources=lambda srcs: srcs, stubs=["fs", "yaml"], nstubs=["fs"], extra=MAIN)
REF = os.path.join(REPO, "src", "reference")
NONE = lambda srcs: []  # noqa: E731
for g, sub, fl in (("ser", "SerialCode", []), ("omp", "", ["-fopenmp"]), ("cuda", "CUDA", []), ("old", "OldSerialCode", [])):
    GROUPS["in" + g] = dict(sources=NONE, hdefs=["-I", os.path.join(REF, sub)], irflags=fl, libs=[])
    GROUPS["ref" + g] = dict(sources=NONE, gen=refgen.make(sub), irflags=fl, libs=[])
BOTH = ("VortexVelocity.h", "VortexVelocityCUDA.cu", "InitializeLevelSet.h")
for g, sub, fl, rep in (("ser", "SerialCode", [], BOTH), ("omp", "", ["-fopenmp"], BOTH), ("mpi", "", [], BOTH), ("mpo", "", ["-fopenmp"], BOTH), ("cuda", "CUDA", [], BOTH[:2])):
    GROUPS["p" + g] = dict(sources=NONE, gen=refgen.make(sub, rep), stubs=["ref"], irflags=fl, libs=[])
HARNESS = {"h_app.cc": dict(group="app"), "h_appfar.cc": dict(group="appfar"), "h_parse.cc": dict(group="yaml"), "h_io.cc": dict(group="io"),
           "h_refsin.cc": dict(group="inser"), "h_reforin.cc": dict(group="inomp"), "h_refcuin.cc": dict(group="incuda"), "h_refoin.cc": dict(group="inold")}
for g in ("ser", "omp", "cuda", "old"):
    HARNESS["h_ref%s.cc" % g] = dict(group="ref" + g)
for g in ("ser", "omp", "mpi", "mpo", "cuda"):
    HARNESS["h_p%s.cc" % g] = dict(group="p" + g)


def hdefs(G, out):
    """compiler options of the group's harness; generated sources go below the build directory"""
    return (G["gen"](os.path.join(out, "gen")) if "gen" in G else []) + G.get("hdefs", [])


def norm(t, tier):
    h, func = t[0], t[1]
    mode = t[2] if len(t) > 2 else "real"
    cfg = dict(t[3]) if len(t) > 3 else {}
    opts = dict(t[4]) if len(t) > 4 else {}
    opts.setdefault("budget_s", 150 if tier == "quick" else 800)
    opts.setdefault("fuel", 3000000)
    if tier == "thorough":
        opts.setdefault("cvc5", True)
        opts.setdefault("max_witness", 12)
    else:
        opts.setdefault("max_witness", 3)
    return (h, func, mode, cfg, opts)


def c(**kw):
    return kw


def sizes1(tier, pads=(1, 2)):
    ns = (1, 2, 4) if tier == "quick" else (1, 2, 3, 5, 8)
    return [c(nx=n, pad=p) for n in ns for p in pads]


def sizes2(tier, pads=(1, 2)):
    ns = ((1, 1), (2, 3), (3, 2)) if tier == "quick" else ((1, 1), (1, 3), (3, 1), (2, 3), (4, 3), (5, 5))
    return [c(nx=a, ny=b, pad=p) for a, b in ns for p in pads]


def sizes3(tier, pads=(1, 2)):
    ns = ((1, 1, 1), (2, 1, 3)) if tier == "quick" else ((1, 1, 1), (2, 1, 3), (1, 3, 2), (3, 2, 2), (3, 3, 3))
    return [c(nx=a, ny=b, nz=d, pad=p) for a, b, d in ns for p in pads]


def by_dim(h, names, s, mode="real", opts=None):
    return [(h, n, mode, cfg, dict(opts or {})) for n, cfgs in zip(names, s) for cfg in cfgs]


BIG = dict(hist=1, wide=1, big=1)


def big1(n=260, pad=1, **k):
    return [c(nx=n, pad=pad, **dict(BIG, **k))]


def big2(a=67, b=2, pad=1, **k):
    return [c(nx=a, ny=b, pad=pad, **dict(BIG, **k)), c(nx=b + 1, ny=a, pad=pad, **dict(BIG, **k))]


def big3(n=18, m=2, pad=1, **k):
    return [c(nx=n, ny=1, nz=m, pad=pad, **dict(BIG, **k)), c(nx=m, ny=n, nz=1, pad=pad, **dict(BIG, **k)), c(nx=1, ny=m, nz=n, pad=pad, **dict(BIG, **k))]


def past(*cfgs):
    return [dict(x, hist=1, wide=1) for x in cfgs]


def scales(*cfgs):
    """very fine and very coarse spacing"""
    return [dict(x, wide=w) for x in cfgs for w in (2, 3)]


S123 = (scales(c(nx=3, pad=1)), scales(c(nx=2, ny=1, pad=1)), scales(c(nx=1, ny=1, nz=2, pad=1)))
S123P2 = (scales(c(nx=3, pad=2)), scales(c(nx=2, ny=1, pad=2)), scales(c(nx=1, ny=1, nz=2, pad=2)))


def t_c01(tier):
    q = tier == "quick"
    o = dict(nmax=3 if q else 5, padmax=2 if q else 3)
    t = [("h_grid.cc", f, "real", o) for f in ("index1", "index2", "index3")]
    t += [("h_grid.cc", f, "real", c(nmax=3 if q else 4, padmax=2)) for f in ("size1", "size2", "size3")]
    t += [("h_grid.cc", "index1_big", "real", c(padmax=6)), ("h_grid.cc", "index2_big", "real", c(padmax=6))]
    t += [("h_grid.cc", "index3_big", "real", c(padmax=2 if q else 6))]
    t += [("h_grid.cc", "index_unused1", "real", c(nx=5)), ("h_grid.cc", "index_unused2", "real", c(nx=5, ny=3))]
    return t


def t_c02(tier):
    q = tier == "quick"
    pads = (0, 1, 2, 3)
    t = by_dim("h_grid.cc", ("geo1", "geo2", "geo3"), (sizes1(tier, pads), sizes2(tier, pads), sizes3(tier, (0, 1, 2))))
    t += by_dim("h_grid.cc", ("regeo1", "regeo2", "regeo3"), ([c(nx=3, pad=1), c(nx=2, pad=2)], [c(nx=2, ny=3, pad=1), c(nx=2, ny=1, pad=2)],
                                                              [c(nx=2, ny=1, nz=1, pad=1)]))
    t += [("h_grid.cc", "geo_short")]
    t += by_dim("h_grid.cc", ("geo1", "geo2", "geo3"), S123)
    t += by_dim("h_grid.cc", ("geo1", "geo2", "regeo1", "regeo2"), ([c(nx=3, pad=1, flat=1)], [c(nx=2, ny=2, pad=1, flat=1)]) * 2)
    t += by_dim("h_grid.cc", ("geo1", "geo2", "geo3"), (big1(pad=2), big2() + big2(34, 33), big3(34) + big3(10, 9)))
    return t


def t_c03(tier):
    q = tier == "quick"
    t = by_dim("h_grid.cc", ("locate1", "locate2", "locate3"),
               (sizes1(tier), sizes2(tier), [c(nx=1, ny=1, nz=1, pad=1), c(nx=2, ny=1, nz=2, pad=1)] if q else sizes3(tier)))
    t += [("h_grid.cc", "far1", "real", c(nx=3, pad=1, far=40 if q else 200)), ("h_grid.cc", "far1", "real", c(nx=3, pad=1, far=2, centre=1)),
          ("h_grid.cc", "far2", "real", c(nx=2, ny=3, pad=1, far=1, centre=1)), ("h_grid.cc", "far3", "real", c(nx=2, ny=1, nz=2, pad=1, far=1, centre=1)), ("h_grid.cc", "far2", "real", c(nx=2, ny=2, pad=1, far=6 if q else 12)),
          ("h_grid.cc", "far3", "real", c(nx=2, ny=2, nz=1, pad=1, far=3 if q else 5))]
    t += by_dim("h_grid.cc", ("locate1", "locate2", "locate3"), (past(c(nx=130, pad=1)), past(c(nx=9, ny=2, pad=1), c(nx=1, ny=18, pad=2)),
                                                                past(c(nx=1, ny=1, nz=6, pad=1))))
    t += by_dim("h_grid.cc", ("locate1", "locate2", "locate3", "locate1", "locate2"), S123 + ([c(nx=3, pad=1, flat=1)], [c(nx=2, ny=2, pad=1, flat=1)]))
    return t


def t_c04(tier):
    q = tier == "quick"
    h = "h_data.cc"
    s1 = [c(nx=2, pad=1), c(nx=3, pad=2)] + ([] if q else [c(nx=5, pad=0), c(nx=6, pad=3)])
    s2 = [c(nx=2, ny=1, pad=1)] + ([] if q else [c(nx=2, ny=3, pad=1), c(nx=1, ny=2, pad=2)])
    s3 = [c(nx=1, ny=2, nz=1, pad=0)] + ([c(nx=1, ny=1, nz=1, pad=1)] if q else [c(nx=1, ny=1, nz=1, pad=1), c(nx=2, ny=2, nz=1, pad=0)])
    t = []
    for f in ("array1_s", "array1_v", "array1_m", "array1_n0", "array1_n2"):
        t += [(h, f, "real", x) for x in s1]
    for f in ("array2_s", "array2_v", "array2_m", "array2_n1", "array2_n2"):
        t += [(h, f, "real", x) for x in s2]
    for f in ("array3_s", "array3_v", "array3_m", "array3_n4"):
        t += [(h, f, "real", x) for x in (s3 if f == "array3_s" or not q else s3[:1])]
    t += [(h, f, "real", x) for f in ("array1_s", "array1_v", "array1_n2") for x in big1()]
    t += [(h, f, "real", x) for f in ("array2_s", "array2_v", "array2_m", "array2_n1") for x in big2(34, 3)]
    t += [(h, f, "real", x) for f in ("array3_s", "array3_v", "array3_n4") for x in big3(10)]
    t += [(h, f, "real", x) for f in ("array3_s",) for x in big3(10, 9)[:1]]
    return t + [(h, "array_resize")]


def t_c05(tier):
    h = "h_data.cc"
    return [(h, f) for f in ("vec3_d", "vec3_i", "vec3_div", "vec3_imag", "vec3_imin", "mat3_d", "mat3_i", "equal_d", "equal_i", "vecn")] + \
        [(h, f, "fp") for f in ("vec3_min", "equal_nan")]


def t_c23(tier):
    h = "h_data.cc"
    return [(h, "bernstein"), (h, "helpers"), (h, "is_equal_d"), (h, "is_equal_any", "fp")]


def grad_sizes(tier, pad):
    q = tier == "quick"
    return ([c(nx=n, pad=p) for n in ((1, 4) if q else (1, 2, 3, 6)) for p in (pad, pad + 1)],
            [c(nx=a, ny=b, pad=pad) for a, b in (((1, 2), (3, 2)) if q else ((1, 1), (1, 3), (2, 3), (4, 3)))] + ([] if q else [c(nx=2, ny=2, pad=pad + 1)]),
            [c(nx=a, ny=b, nz=d, pad=pad) for a, b, d in (((1, 2, 1),) if q else ((1, 1, 1), (1, 2, 3), (2, 2, 2)))])


def t_c06(tier):
    h = "h_grad.cc"
    t = []
    for o, pad in (("2", 1), ("3", 2)):
        s = grad_sizes(tier, pad)
        t += by_dim(h, ["sc%s_%d" % (o, d) for d in (1, 2, 3)], s)
        t += by_dim(h, ["sc%s_%d" % (o, d) for d in (1, 2, 3)], (big1(pad=pad), big2(pad=pad) + big2(34, 33, pad=pad)[:0 if tier == "quick" else 1], big3(pad=pad)))
        t += by_dim(h, ["sc%s_%d" % (o, d) for d in (1, 2, 3)], S123 if pad == 1 else S123P2)
        for off in (0, 1) if tier == "quick" else (0, 1, -3):
            t += [(h, "po%s_1" % o, "real", c(nx=3, pad=pad, off=off)), (h, "po%s_2" % o, "real", c(nx=2, ny=1, pad=pad, off=off)),
                  (h, "po%s_3" % o, "real", c(nx=1, ny=1, nz=2, pad=pad, off=off))]
    return t


def t_c07(tier):
    h = "h_grad.cc"
    t = []
    for o, pad in (("2", 1), ("3", 2)):
        s = grad_sizes(tier, pad)
        t += by_dim(h, ["ve%s_%d" % (o, d) for d in (1, 2, 3)], s)
        t += by_dim(h, ["ve%s_%d" % (o, d) for d in (1, 2, 3)], (big1(130, pad=pad), big2(34, pad=pad), big3(10, pad=pad)))
        t += by_dim(h, ["ve%s_%d" % (o, d) for d in (1, 2, 3)], S123 if pad == 1 else S123P2)
        t += by_dim(h, ["li%s_%d" % (o, d) for d in (1, 2, 3)], [x[:1] for x in s] if tier == "quick" else s)
    return t


def t_c08(tier):
    h = "h_herm.cc"
    q = tier == "quick"
    s1 = [c(nx=3, pad=1), c(nx=1, pad=2)] + ([] if q else [c(nx=8, pad=1), c(nx=4, pad=3)])
    s2 = [c(nx=2, ny=3, pad=1)] + ([] if q else [c(nx=4, ny=3, pad=1), c(nx=3, ny=2, pad=2)])
    s3 = [c(nx=1, ny=1, nz=2, pad=1)] + ([] if q else [c(nx=2, ny=2, nz=2, pad=1), c(nx=2, ny=1, nz=1, pad=2)])
    t = by_dim(h, ("cubic1", "cubic2", "cubic3"), (big1(), big2(34), big3(10, 1)))
    t += by_dim(h, ("cubic1", "cubic2", "cubic3"), S123)
    return t + by_dim(h, ("cubic1", "cubic2", "cubic3"), (s1, s2, s3)) + by_dim(h, ("nodal1", "nodal2", "nodal3"), (s1, s2, s3))


def t_c09(tier):
    h = "h_herm.cc"
    q = tier == "quick"
    s1 = [c(nx=3, pad=1), c(nx=2, pad=2)] + ([] if q else [c(nx=5, pad=2)])
    s2 = [c(nx=2, ny=1, pad=1)] + ([] if q else [c(nx=2, ny=2, pad=2)])
    s3 = [c(nx=1, ny=1, nz=1, pad=1)] + ([] if q else [c(nx=2, ny=1, nz=1, pad=1)])
    t = by_dim(h, ("field1", "field2", "field3"), (big1() + big1(20, sym=1, wide=0), big2(34, 1) + [c(nx=3, ny=3, pad=1, big=1, sym=1)],
                                                   big3(10, 1) + [c(nx=2, ny=2, nz=2, pad=1, big=1, sym=5)]))
    t += by_dim(h, ("field1", "field2", "field3"), (scales(c(nx=2, pad=1)), scales(c(nx=1, ny=2, pad=1, big=1)), scales(c(nx=1, ny=1, nz=2, pad=1, big=1))))
    t += by_dim(h, ("fewer1", "fewer2", "fewer3"), ([c(nx=3, pad=1)], [c(nx=2, ny=2, pad=1)], [c(nx=2, ny=1, nz=1, pad=1)]))
    return t + by_dim(h, ("field1", "field2", "field3"), (s1, s2, s3)) + by_dim(h, ("field1", "field2"), (past(c(nx=3, pad=1)), past(c(nx=1, ny=2, pad=1))))


def t_c10(tier):
    h = "h_herm.cc"
    q = tier == "quick"
    t = [(h, "cp_plain"), (h, "cp_limited"), (h, "limited1", "real", c(nx=2, pad=1)), (h, "cp_ties")]
    t += [(h, "edges2", "real", c(nx=2, ny=1, pad=1))] + [(h, "edges3", "real", c(nx=1, ny=1, nz=1, pad=1, axis=a, far=f)) for a in range(3) for f in range(8) if not f >> a & 1]
    t += [(h, "limlin1", "real", c(nx=2, pad=1)), (h, "limlin2", "real", c(nx=1, ny=1, pad=1))]
    t += [(h, "limited1", "real", x) for x in scales(c(nx=2, pad=1))]
    t += [(h, "limlin3", "real", c(nx=1, ny=1, nz=1, pad=1))]
    return t


def t_c11(tier):
    h = "h_herm.cc"
    q = tier == "quick"
    t = [(h, "linear_point", "real", x) for x in sizes1(tier)]
    t += [(h, "linear_field", "real", x) for x in (c(nx=2, pad=1, nx2=2), c(nx=1, pad=2, nx2=3), c(nx=3, pad=1, nx2=1))]
    t += [(h, "linear_point", "real", x) for x in big1()]
    t += [(h, "linear_point", "real", x) for x in S123[0]] + [(h, "linear_field", "real", x) for x in scales(c(nx=3, pad=1, nx2=2))]
    t += [(h, "linear_field", "real", c(nx2=70, **big1(6)[0])), (h, "linear_field", "real", c(nx2=5, **big1(130)[0]))]
    return t


def t_c12(tier):
    q = tier == "quick"
    t = by_dim("h_time.cc", ("ee1", "ee2", "ee3"), (big1(), big2(34), big3(10)))
    t += by_dim("h_time.cc", ("ee1", "ee2", "ee3"), S123)
    return t + by_dim("h_time.cc", ("ee1", "ee2", "ee3"), ([c(nx=3, pad=1), c(nx=1, pad=2)], [c(nx=2, ny=3, pad=1)] + ([] if q else [c(nx=3, ny=4, pad=2)]),
                                                      [c(nx=1, ny=2, nz=2, pad=1)] + ([] if q else [c(nx=2, ny=2, nz=3, pad=1)])))


def t_c13(tier):
    q = tier == "quick"
    h = "h_time.cc"
    s1 = [c(nx=3, pad=1, all=0), c(nx=2, pad=2, all=0), c(nx=2, pad=1, all=1)] + ([] if q else [c(nx=5, pad=2, all=0), c(nx=3, pad=1, all=1)])
    s2 = [c(nx=2, ny=1, pad=1, all=0)] + ([] if q else [c(nx=2, ny=2, pad=2, all=0)])
    s3 = [c(nx=1, ny=1, nz=1, pad=1, all=0)] + ([] if q else [c(nx=2, ny=1, nz=1, pad=1, all=0)])
    t = by_dim(h, ("sl1", "sl2", "sl3"), (big1() + big1(20, sym=1, wide=0), big2(34, 1) + [c(nx=3, ny=3, pad=1, big=1, sym=1)],
                                          big3(10, 1) + [c(nx=2, ny=2, nz=2, pad=1, big=1, sym=5)]))
    t += by_dim(h, ("sl1", "sl2", "sl3"), ([c(nx=3, pad=1, neg=1), c(nx=3, pad=1, zero=1)], [c(nx=1, ny=2, pad=1, neg=1)], [c(nx=2, ny=1, nz=1, pad=1, big=1, neg=1)]))
    t += by_dim(h, ("sl1", "sl2", "sl3"), (scales(c(nx=2, pad=1)), scales(c(nx=1, ny=2, pad=1, big=1)), scales(c(nx=1, ny=1, nz=2, pad=1, big=1))))
    return t + by_dim(h, ("sl1", "sl2", "sl3"), (s1, s2, s3)) + by_dim(h, ("sl1", "sl2"), (past(c(nx=3, pad=2)), past(c(nx=1, ny=2, pad=1))))


def t_c14(tier):
    q = tier == "quick"
    h = "h_time.cc"
    t = [(h, "tr1", "real", c(nx=3, pad=1, steps=3)), (h, "tr1", "real", c(nx=2, pad=2, steps=2)),
         (h, "tr2", "real", c(nx=2, ny=2, pad=1, steps=2)), (h, "tr3", "real", c(nx=1, ny=1, nz=2, pad=1, steps=1))]
    t += [(h, "af1", "real", c(nx=3, pad=1)), (h, "af2", "real", c(nx=2, ny=2, pad=1)), (h, "af3", "real", c(nx=1, ny=1, nz=2, pad=1))]
    t += by_dim(h, ("tr1", "tr2", "tr3"), ([c(nx=40, pad=1, steps=2, hist=1, wide=1)], [c(nx=5, ny=1, pad=1, steps=2, hist=1, wide=1)], [c(nx=1, ny=2, nz=1, pad=1, steps=1, hist=1, wide=1)]))
    t += by_dim(h, ("af1", "af2", "af3"), (big1(), big2(34, 1), big3(10, 1)))
    t += by_dim(h, ("tr1", "af1", "tr2", "af2"), ([c(nx=3, pad=1, steps=2, wide=w) for w in (2, 3)], [c(nx=2, pad=1, wide=w) for w in (2, 3)], [c(nx=1, ny=1, pad=1, steps=1, wide=w) for w in (2, 3)], [c(nx=2, ny=1, pad=1, wide=w) for w in (2, 3)]))
    if not q:
        t += [(h, "tr1", "real", c(nx=5, pad=2, steps=4)), (h, "tr2", "real", c(nx=3, ny=2, pad=2, steps=2)),
              (h, "tr3", "real", c(nx=1, ny=2, nz=1, pad=1, steps=2)), (h, "af2", "real", c(nx=3, ny=3, pad=2)), (h, "af3", "real", c(nx=2, ny=1, nz=1, pad=2))]
    return t


def t_c15(tier):
    q = tier == "quick"
    return by_dim("h_field.cc", ("circle1", "circle2", "circle3"), ([c(nx=2, pad=1)], [c(nx=2, ny=1, pad=1)] + ([] if q else [c(nx=3, ny=3, pad=2)]),
                                                                    [c(nx=1, ny=2, nz=1, pad=1)] + ([] if q else [c(nx=2, ny=2, nz=2, pad=1)]))) + \
        [("h_field.cc", "circle_other", "real", c(nx=2, ny=1, pad=1)), ("h_field.cc", "circle_other", "real", c(nx=2, ny=1, pad=1, hist=1))] + \
        by_dim("h_field.cc", ("circle1", "circle2", "circle3"), (big1(90), big2(34, 1), big3(18, 1))) + \
        by_dim("h_field.cc", ("circle1", "circle2", "circle3"), S123)


def t_c16(tier):
    q = tier == "quick"
    s2 = [c(nx=2, ny=1, pad=1), c(nx=1, ny=3, pad=2)] + ([] if q else [c(nx=4, ny=3, pad=1)])
    s3 = [c(nx=1, ny=2, nz=2, pad=1)] + ([] if q else [c(nx=2, ny=2, nz=2, pad=1)])
    return by_dim("h_field.cc", ("circ2", "circ3", "rot2", "rot3"), (s2, s3, s2, s3)) + \
        [("h_field.cc", f, "real", c(nx=2, ny=1, pad=1)) for f in ("circ2_num", "circ_other")] + \
        [("h_field.cc", f, "real", c(nx=2, ny=1, pad=1, hist=1)) for f in ("circ2_num", "circ_other")] + \
        by_dim("h_field.cc", ("circ2", "circ3", "rot2"), (big2(), big3(), big2())) + by_dim("h_field.cc", ("circ2", "circ3", "rot2"), S123[1:] + S123[1:2])


def t_c21(tier):
    q = tier == "quick"
    s = ([c(nx=2, pad=1), c(nx=1, pad=2)], [c(nx=1, ny=2, pad=1)], [c(nx=1, ny=1, nz=1, pad=1)])
    if not q:
        s = ([c(nx=3, pad=1), c(nx=1, pad=3)], [c(nx=1, ny=2, pad=1), c(nx=2, ny=2, pad=2)], [c(nx=1, ny=1, nz=1, pad=1), c(nx=1, ny=2, nz=2, pad=1)])
    t = by_dim("h_field.cc", ("vcont1", "vcont2", "vcont3"), (big1(), big2(), big3())) + \
        by_dim("h_field.cc", ("cont1", "cont2", "cont3"), (big1(130), big2(34), big3(10)))
    return t + by_dim("h_field.cc", ("cont1", "cont2", "cont3"), s) + by_dim("h_field.cc", ("vcont1", "vcont2", "vcont3"), s)


def t_c24(tier):
    q = tier == "quick"
    s1 = [c(nx=n, pad=p) for n in (1, 2, 5) for p in (1, 2, 3)]
    s2 = [c(nx=a, ny=b, pad=p) for a, b in ((1, 1), (3, 2), (1, 4)) for p in (1, 2)]
    s3 = [c(nx=1, ny=1, nz=1, pad=1), c(nx=2, ny=1, nz=1, pad=2)]
    if not q:
        s1 += [c(nx=n, pad=p) for n in (3, 9) for p in (1, 4)]
        s2 += [c(nx=a, ny=b, pad=p) for a, b in ((4, 4), (2, 5)) for p in (1, 2, 3)]
        s3 += [c(nx=1, ny=2, nz=2, pad=1), c(nx=1, ny=1, nz=3, pad=2)]
    return by_dim("h_field.cc", ("mem1", "mem2", "mem3"), (s1, s2, s3))


def t_c19(tier):
    h = "h_io.cc"
    q = tier == "quick"
    s1 = [c(nx=3, pad=1), c(nx=1, pad=2)] + ([] if q else [c(nx=7, pad=3)])
    s2 = [c(nx=2, ny=3, pad=1), c(nx=3, ny=1, pad=2)] + ([] if q else [c(nx=4, ny=5, pad=1)])
    s3 = [c(nx=2, ny=1, nz=2, pad=1)] + ([] if q else [c(nx=2, ny=3, nz=2, pad=2)])
    t = [(h, "fs_requests"), (h, "small_types")]
    t += by_dim(h, ("write1_s", "write1_v"), (s1, s1)) + by_dim(h, ("write2_s", "write2_v"), (s2, s2)) + by_dim(h, ("write3_v",), (s3,))
    t += by_dim(h, ("write1_s", "write2_v", "write3_v", "stream1", "stream2", "stream3"), (big1(), big2(), big3(), big1(130), big2(34), big3()))
    t += by_dim(h, ("stream1", "stream2", "stream3"), (s1[:1], s2[:1], s3[:1]))
    return t


def t_c17(tier):
    return [("h_parse.cc", f) for f in ("parse_file", "parse_twice", "parse_section", "parse_memory")] + [("h_parse.cc", "parse_texts", "real", c(len=2))]


def t_c20(tier):
    h = "h_app.cc"
    q = tier == "quick"
    t = [(h, "app_fixed", "real", c(nx=2, ny=1, steps=3 if q else 6)), (h, "app_exact", "real", c(nx=1, ny=2, steps=4 if q else 9)),
         (h, "app_auto", "real", c(nx=1, ny=2, steps=2 if q else 4)), (h, "app_names", "real", c(nx=2, ny=1)),
         (h, "app_nothing", "real", c(nx=1, ny=1), dict(allow_exit=True))]
    t += [("h_appfar.cc", "app_near", "real", c(nx=2, ny=2)), ("h_appfar.cc", "app_far", "real", c(nx=2, ny=1))]
    if not q:
        t += [(h, "app_fixed", "real", c(nx=3, ny=4, steps=2)), (h, "app_names", "real", c(nx=1, ny=3)), ("h_appfar.cc", "app_near", "real", c(nx=3, ny=2))]
    return t


SER, OMP, CUDA, OLD = "h_refser.cc", "h_refomp.cc", "h_refcuda.cc", "h_refold.cc"


def t_c25(tier):
    return [(h, "ref_hermite", "real", c(out=o)) for h in (SER, OMP, CUDA, OLD) for o in (0, 1)]


def t_c26(tier):
    t = []
    big = tier != "quick"
    for h in (SER, OMP):
        for e in (0, 1):
            for n in ((3, 4), (2, 2), (5, 3)) + (((9, 8), (1, 6)) if big else ()):
                t.append((h, "ref_departure", "real", c(nx=n[0], ny=n[1], euler=e)))
                t.append((h, "ref_departure", "real", c(nx=n[0], ny=n[1], euler=e, part=1, hist=1)))
    for n in ((3, 4, 1), (4, 2, 2), (6, 3, 3), (4, 6, 2), (6, 4, 2), (3, 9, 3)) + (((8, 8, 4), (12, 8, 2)) if big else ()):
        t.append((CUDA, "ref_departure", "real", c(nx=n[0], ny=n[1], tile=n[2], hist=n[0] == 4)))
    # sizes past what a loop might be split at
    t += [(SER, "ref_departure", "real", c(nx=18, ny=2)), (SER, "ref_departure", "real", c(nx=2, ny=18, euler=1, part=1)),
          (OMP, "ref_departure", "real", c(nx=2, ny=18)), (OMP, "ref_departure", "real", c(nx=18, ny=2, euler=1)),
          (OMP, "ref_departure", "real", c(nx=18, ny=2, part=1)),
          (CUDA, "ref_departure", "real", c(nx=18, ny=2, tile=2)), (CUDA, "ref_departure", "real", c(nx=2, ny=18, tile=1))]
    return t


def t_c27(tier):
    t = []
    big = tier != "quick"
    for h, n, m in ((SER, (3, 4), (4, 3)), (OMP, (4, 3), (3, 4)), (CUDA, (4, 3), (3, 4))):
        t.append((h, "ref_locate", "real", c(nx=n[0], ny=n[1])))
        t.append((h, "ref_locate", "real", c(nx=2, ny=2)))
        t.append((h, "ref_locate", "real", c(nx=6, ny=5, few=1)))
        if h != CUDA:
            t.append((h, "ref_locate", "real", c(nx=m[0], ny=m[1], part=1, few=not big)))
        if big:
            t.append((h, "ref_locate", "real", c(nx=9, ny=8, few=1)))
            t.append((h, "ref_locate", "real", c(nx=5, ny=6, hist=1)))
    t.append((CUDA, "ref_locate", "real", c(nx=4, ny=6, tile=2, few=1)))
    for h in (SER, OMP, CUDA):
        t += [(h, "ref_locate", "real", c(nx=18, ny=2, few=2)), (h, "ref_locate", "real", c(nx=2, ny=18, few=2))]
    return t


def t_c28(tier):
    t = []
    big = tier != "quick"
    for h in (SER, OMP, CUDA):
        for n in ((2, 2), (2, 4), (3, 2), (3, 3), (5, 4)) + (((9, 8), (16, 6)) if big else ()):
            t.append((h, "ref_mixed", "real", c(nx=n[0], ny=n[1])))
            if h != CUDA:
                t.append((h, "ref_mixed", "real", c(nx=n[0], ny=n[1], part=1, hist=1)))
        t += [(h, "ref_mixed", "real", c(nx=34, ny=3)), (h, "ref_mixed", "real", c(nx=3, ny=34))]
    t.append((CUDA, "ref_mixed", "real", c(nx=6, ny=4, tile=2, hist=1)))
    t += [(OMP, "ref_mixed", "real", c(nx=18, ny=3, part=1)), (SER, "ref_mixed", "real", c(nx=3, ny=18, part=1))]
    return t


def t_c29(tier):
    t = []
    big = tier != "quick"
    for e in (0, 1):
        for hn in (0, 1):
            t.append((SER, "ref_update", "real", c(nx=3, ny=4, euler=e, heun=hn, all=big)))
            t.append((OMP, "ref_update", "real", c(nx=4, ny=3, euler=e, heun=hn, all=big, hist=1)))
            t.append((SER, "ref_update", "real", c(nx=4, ny=3, euler=e, heun=hn, part=1, few=not big)))
            if big:
                t.append((OMP, "ref_update", "real", c(nx=7, ny=6, euler=e, heun=hn, few=1, all=1)))
    t.append((SER, "ref_update", "real", c(nx=6, ny=5, few=1, late=1)))
    t.append((CUDA, "ref_update", "real", c(nx=4, ny=3, all=big)))
    t.append((CUDA, "ref_update", "real", c(nx=4, ny=4, tile=2, few=1, hist=1, late=1)))
    t += [(SER, "ref_update", "real", c(nx=18, ny=3, few=2)), (OMP, "ref_update", "real", c(nx=3, ny=18, few=2)),
          (OMP, "ref_update", "real", c(nx=9, ny=3, few=2, euler=1, heun=1, part=1)), (CUDA, "ref_update", "real", c(nx=18, ny=3, few=2)),
          (CUDA, "ref_update", "real", c(nx=3, ny=18, few=2))]
    return t


def t_c30(tier):
    t = []
    big = tier != "quick"
    for h in (SER, OMP, CUDA):
        for e, hn in ((0, 0), (1, 1)):
            if h != CUDA or not e:
                t.append((h, "ref_step", "real", c(nx=3, ny=4, euler=e, heun=hn)))
                t.append((h, "ref_step", "real", c(nx=5, ny=4, euler=e, heun=hn)))
                if h != CUDA:
                    t.append((h, "ref_step", "real", c(nx=4, ny=3, euler=e, heun=hn, part=1)))
                if big:
                    t.append((h, "ref_step", "real", c(nx=8, ny=7, euler=e, heun=hn)))
    t.append((CUDA, "ref_step", "real", c(nx=4, ny=6, tile=2)))
    t += [(SER, "ref_step", "real", c(nx=10, ny=3, euler=1)), (OMP, "ref_step", "real", c(nx=3, ny=10)), (CUDA, "ref_step", "real", c(nx=9, ny=3))]
    return t


def t_c31(tier):
    t = []
    big = tier != "quick"
    for th in (2, 3, 5) if not big else (2, 3, 4, 5, 8):
        for back in (0, 1):
            k = c(threads=th, backwards=back)
            t.append((OMP, "ref_mixed", "real", dict(k, nx=4, ny=5)))
            t.append((OMP, "ref_departure", "real", dict(k, nx=4, ny=3, part=1)))
            t.append((OMP, "ref_locate", "real", dict(k, nx=4, ny=3, few=1, part=1)))
            t.append((OMP, "ref_update", "real", dict(k, nx=4, ny=3, few=1, heun=back)))
            t.append((OMP, "ref_step", "real", dict(k, nx=4, ny=5)))
    for back in (0, 1):
        k = c(backwards=back)
        t.append((CUDA, "ref_mixed", "real", dict(k, nx=4, ny=6, tile=2)))
        t.append((CUDA, "ref_departure", "real", dict(k, nx=4, ny=4, tile=2)))
        t.append((CUDA, "ref_locate", "real", dict(k, nx=4, ny=4, tile=2, few=1)))
        t.append((CUDA, "ref_update", "real", dict(k, nx=4, ny=4, tile=2, few=1)))
        t.append((CUDA, "ref_step", "real", dict(k, nx=4, ny=4, tile=2)))
    return t


def t_c32(tier):
    t = []
    for h in ("h_refsin.cc", "h_reforin.cc", "h_refcuin.cc"):
        t.append((h, "ref_vortex", "real", c(zero=0)))
        t.append((h, "ref_vortex", "real", c(zero=1)))
        t.append((h, "ref_initial", "real", c(nx=3, ny=4)))
        t.append((h, "ref_initial", "real", c(nx=5, ny=2)))
        for n in (1, 3):
            t.append((h, "ref_output", "real", c(nx=3, ny=4, steps=n, fixed10=1)))
            t.append((h, "ref_output", "real", c(nx=2, ny=2, steps=n, fixed10=1)))
        t += [(h, "ref_initial", "real", c(nx=18, ny=2)), (h, "ref_initial", "real", c(nx=2, ny=34)), (h, "ref_output", "real", c(nx=18, ny=3, steps=2, fixed10=1)),
              (h, "ref_output", "real", c(nx=2, ny=18, steps=1, fixed10=1))]
    t.append(("h_refoin.cc", "ref_vortex", "real", c(zero=0)))
    t.append(("h_refoin.cc", "ref_vortex", "real", c(zero=1)))
    t.append(("h_refoin.cc", "ref_initial"))
    t.append(("h_refcuin.cc", "ref_initial", "real", c(nx=4, ny=6, tile=2)))
    t.append(("h_refcuin.cc", "ref_initial", "real", c(nx=3, ny=2, tile=1)))
    return t


def t_c33(tier):
    t = []
    big = tier != "quick"
    for h, k in (("h_pser.cc", {}), ("h_pomp.cc", {}), ("h_pmpi.cc", c(ranks=2)), ("h_pmpo.cc", c(ranks=2)), ("h_pcuda.cc", c(tile=2))):
        for fl in (0, 1, 2):
            e = dict(k, flow=fl, all=h != "h_pcuda.cc", fixed10=1)
            t.append((h, "program", "real", dict(e, nx=4, ny=4 if "cuda" in h else 5 - fl, steps=2 + (fl == 1), rest=fl == 1)))
            if fl == 0 and "cuda" not in h:
                t.append((h, "program", "real", dict(e, nx=12, ny=4, steps=1, rest=0)))
            if big:
                t.append((h, "program", "real", dict(e, nx=6, ny=4, steps=4, rest=fl == 0)))
    return t


PROPS = {
    "C20": dict(tasks=t_c20, bounds="grids up to 3x4 cells, any box, level set circle, rotation centre, start time, time step in [1/64,4] (symbolic reals); up to 3 (6) steps; several names, schemes, output directories; output directory there or not",
                outside="whether the step count is right when the end time is within rounding of a whole number of steps, except that an end time within 4e-14 of up to 4 (9) dyadic steps is hit; ghost values of phi (the program never fills them); the digits printed",
                assumptions=["the semi-Lagrangian step is replaced by a recorder except in app_near and app_far (it is decided by C13 and C14)",
                             "yaml-cpp and filesystem stand-ins as for C17 and C19"]),
    "C01": dict(tasks=t_c01, bounds="cell counts 1..3 (5 thorough) per axis, plus sizes up to 1e6 per axis with fewer than 2^31 padded nodes; padding 0..3; any pair of stored nodes (symbolic); for unused axes any int",
                outside="grids with 2^31 or more padded nodes"),
    "C02": dict(tasks=t_c02, bounds="cell counts up to 5 per axis in 1D-3D, padding 0..3, any box corner in [-8,8] and any spacing in [1/16,8] per axis (symbolic reals); one regeneration",
                outside="rounding of node coordinates; larger grids"),
    "C03": dict(tasks=t_c03, bounds="grids up to 5 cells per axis, padding 1..2, any box, any point of the padded hull (symbolic reals); points up to 40 (200) cells away",
                outside="rounding exactly at a cell face; conversions beyond the int range"),
    "C04": dict(tasks=t_c04, bounds="grids of 1-6 cells per axis in 1D-3D, padding 0..3; element types double, Vec3, Mat3, VecN<0,1,2,4>; any stored values (symbolic); one write to any element by any accessor",
                outside="larger grids; longer write sequences"),
    "C05": dict(tasks=t_c05, bounds="doubles in [-64,64] (reals), all non-NaN doubles for min, ints in [-10000,10000] (all ints for min); sizes 0..4 of VecN",
                outside="integer overflow of products; differences within 1% of the 1e-10 tolerance"),
    "C23": dict(tasks=t_c23, bounds="arguments in [-2,2] (Bernstein) and [-1024,1024] (helpers), all doubles for the NaN and symmetry rules of is_equal",
                outside="differences within 1% of the 1e-10 tolerance"),
    "C06": dict(tasks=t_c06, bounds="both schemes, 1D-3D, grids up to 4 (6) cells per axis with the stencil's padding and one more, any box, any field values (symbolic reals); polynomials of degree 2 and 3 per axis with any coefficients",
                outside="rounding; paddings narrower than the stencil (they read outside the storage, see C24)"),
    "C07": dict(tasks=t_c07, bounds="both schemes, 1D-3D, grids up to 4 (6) cells per axis, any box, any vector field (symbolic reals); any linear field",
                outside="rounding; paddings narrower than the stencil"),
    "C08": dict(tasks=t_c08, bounds="1D up to 8 cells, 2D up to 4x3, 3D up to 2x2x2, padding 1..3; every cell of the padded grid, any box, any point of the cell, any cubic per axis (4, 16, 64 free coefficients: any Hermite data), arbitrary data elsewhere",
                outside="rounding; points outside the hull of the stored nodes"),
    "C09": dict(tasks=t_c09, bounds="1D up to 5 cells, 2D up to 2x2, 3D up to 2x1x1; one node asks at any point of the padded grid (each node in turn), the others at fixed offsets; any data, any box",
                outside="larger grids; points outside the hull of the stored nodes"),
    "C10": dict(tasks=t_c10, bounds="any end values and slopes in [-4,4], spacing [1/16,4]; switching expressions at least 1e-6 away from zero; all cells touching the corner of small grids",
                outside="exact ties of the switching rule, where rounding decides (except an end slope equal to the chord's)"),
    "C11": dict(tasks=t_c11, bounds="grids up to 8 cells, padding 1..2; result grids up to 3 cells; any data, box and points of the padded hull",
                outside="rounding; 2D and 3D (not implemented by the library)"),
    "C12": dict(tasks=t_c12, bounds="grids up to 4 cells per axis in 1D-3D, any fields and any time step (symbolic reals)", outside="rounding"),
    "C13": dict(tasks=t_c13, bounds="1D up to 5 cells, 2D up to 2x2, 3D up to 2x1x1; one node (each in turn) or, in 1D, all nodes with any displacement inside the stored nodes, other nodes fixed; any fields, velocity gradients, box and time step in [1/64,4]",
                outside="departure points outside the stored nodes (see C20's known finding); rounding"),
    "C14": dict(tasks=t_c14, bounds="uniform flows: any displacement up to the padding per step, 1-4 steps, any cubic per axis; affine flows: any matrix, one step; small grids in 1D-3D",
                outside="non-affine flows (the scheme is only approximate there); rounding"),
    "C15": dict(tasks=t_c15, bounds="grids up to 3 cells per axis in 1D-3D; any positions, centre and radius (symbolic reals); five names that are not CIRCLE", outside="rounding of the square root"),
    "C16": dict(tasks=t_c16, bounds="2D and 3D grids up to 4 cells per axis; any positions, centre, time and previous content; five other names and five other gradient schemes",
                outside="1D (the library reports it as not implemented)"),
    "C21": dict(tasks=t_c21, bounds="grids up to 3 cells per axis, padding 1..3; any content; one write to any node of any field", outside="larger grids"),
    "C24": dict(tasks=t_c24, bounds="all operations of the library on grids of 1-9 cells per axis in 1D-3D with paddings 1..4 (at least the stencil's); interpolation at any point between the stored nodes; departure points up to the padding away",
                outside="departure or interpolation points outside the stored nodes; exceptions from the allocator"),
    "C19": dict(tasks=t_c19, bounds="arrays of double, Vec3, Mat3, VecN on grids up to 7 cells per axis in 1D-3D, any box, any values in [-1000,1000]; file already there or not; five paths; every answer of the file system",
                outside="failing streams (full disk); the third-party filesystem library itself (replaced by a recording stand-in); digits beyond the stream's precision",
                assumptions=["the output stream model in engine/builtins_io.py (number formatting: six significant digits by default)"]),
    "C17": dict(tasks=t_c17, bounds="every subset of the five sections, any numbers in [-1000,1000] and cell counts up to 1e6 (symbolic), texts from a list of four and every text of up to two of the characters `/. aB0-_`, one or two files in sequence, velocity vectors of length 2 and 3",
                outside="malformed files and missing keys inside a section; YAML syntax itself (yaml-cpp is trusted, replaced by a tree in the symbolic build and used for real in the replay)",
                assumptions=["the yaml-cpp stand-in in stubs/yaml returns the values of the tree"]),
    "C25": dict(tasks=t_c25, bounds="the four copies of the patch (serial, OpenMP/MPI, CUDA, and OldSerialCode); any of the 16 coefficients in [-4,4], any cell corner in [-4,4], any spacing in [1/128,4], any point of the cell and up to one cell outside it (symbolic reals)",
                outside='rounding; the one-dimensional helper hp1D, which no program calls'),
    "C26": dict(tasks=t_c26, bounds='grids up to 5x4 (9x8 thorough) nodes, and 18x2 and 2x18, CUDA tiles of 1-4; any node positions, time step in [1e-6,4], period in [1/8,16]; steps 0, 1, 6 and 40000; any velocity (an uninterpreted function of position and time); any range of columns for the split version',
                outside='rounding; larger grids; names of schemes other than Euler and RK3'),
    "C27": dict(tasks=t_c27, bounds='grids up to 6x5 (9x8) nodes, and 18x2 and 2x18 (their last node only), CUDA tiles of 1-2; any origin in [-4,4] and spacing in [1/128,2]; one node (each node in turn, or the corners and the centre on the larger grids) at any point from three cells before to three cells after the grid, the others at fixed points; any range of columns',
                outside="rounding exactly at a cell face and of the last node's coordinate against the upper limit; larger grids"),
    "C28": dict(tasks=t_c28, bounds='grids from 2x2 to 6x4 (16x6) nodes, and 34x3 and 3x34, CUDA tiles of 1-2; any derivatives in [-4,4] at every node and any spacing in [1/128,4]; any range of columns; after an earlier call with other data',
                outside='rounding; grids of a single row or column'),
    "C29": dict(tasks=t_c29, bounds='grids up to 6x5 (7x6) nodes, and 18x3, 3x18 and 9x3 (their last node only), CUDA tiles of 1-2; one node (each in turn, or the corners and the centre) with any class 1-4, any data at the node and in its cell, any point of the cell, two (all) cells, time step in [1e-6,4], steps 3 and 40000; any velocity and velocity gradients (uninterpreted functions); both schemes for the gradients and both back-traces; any range of columns',
                outside="rounding; larger grids; the gradient equations of points that leave on one side are stated as the code's first-order boundary treatment (see the statement)"),
    "C30": dict(tasks=t_c30, bounds='grids up to 5x4 (8x7) nodes, and 10x3 and 3x10, CUDA tiles of 1-2; any bicubic level set, any origin, spacing, time step in [1/128,2], any uniform velocity up to one cell per step; any split of the columns in two',
                outside='flows that are not uniform (C26-C29 decide each stage for those); several steps (mixed derivatives are then approximations); rounding'),
    "C32": dict(tasks=t_c32, bounds='grids up to 5x4 (6x4 with CUDA tiles of 2), and 18x2, 18x3 and 2x34; any position in [-4,4], time in [0,64], period in [1/8,16], origin and spacing (symbolic reals; sine, cosine and exponential are functions of their argument with their Pythagorean identity); output of 1 and 3 times of any values in [-100,100]',
                outside='digits after the tenth decimal; failing streams; the text on standard output'),
    "C33": dict(tasks=t_c33, bounds="serial, OpenMP (2 threads), MPI and MPI+OpenMP (2 processes) and CUDA (2x2 tiles) programs with their own main; grids 4x3 to 4x5 (6x4) with 2-3 (4) steps and 12x4 with one, three flows, both schemes each, both output options, printing every 1..4 steps; any position of the grid, any initial level set (CUDA: the shipped one, which its kernels have compiled in)",
                outside="sizes and spacings other than these; an odd number of columns with MPI (documented) or a grid that is no multiple of the tile with CUDA; the OldSerialCode program (its output is commented out); rounding; real MPI and GPU runtimes",
                assumptions=["settings a user edits in the source are edited in a copy; the velocity and the initial level set, also user-supplied, come from the harness (the shipped ones are decided by C32)",
                             "MPI stand-in: processes run one after the other, a message stays until it is received (program order per pair of processes, as MPI guarantees)",
                             "CUDA stand-in: device memory is memory, copies are checked for side and size"]),
    "C31": dict(tasks=t_c31, bounds='2, 3 and 5 (up to 8) OpenMP threads with static schedules, or tiles of 2x2 CUDA threads on grids up to 4x6; threads in both orders; all conflicting accesses between barriers, on the data of C26-C30',
                outside='dynamic schedules with other chunkings than one row at a time; weak memory; warps and hardware limits of real GPUs; larger grids'),
}
