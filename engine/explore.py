"""Path exploration and obligations."""
import random
import time
import traceback
from fractions import Fraction

import z3

import par
import poly
import rt
from poly import Poly
from rt import (BASE, Candidate, Event, PathEnd, Runtime, Unsupported, CxxThrow, MASK, foldb, fz, sgn, zq, zval, zb)

TOL = Fraction(1, 10 ** 8)


def install_vf(P):
    B = P.builtins

    def reg(f):
        B[f.__name__] = f
        return f

    def uniq(R, p):
        n = R.cstr(p)
        c = R.symcount.get(n, 0)
        R.symcount[n] = c + 1
        return n + ("#%d" % c if c else "")

    @reg
    def vf_real(R, name, lo, hi):
        n = uniq(R, name)
        if R.mode == "fp":
            z = z3.FP(n, rt.F64)
            R.add(z3.And(z3.fpGEQ(z, fz(lo)), z3.fpLEQ(z, fz(hi))))
            R.syms.append((n, "d", z, lo, hi))
            return z
        v = R.new_real(n, lo, hi)
        R.syms.append((n, "d", R.varz[-1], lo, hi))
        return v

    @reg
    def vf_any(R, name):
        n = uniq(R, name)
        if R.mode == "fp":
            z = z3.FP(n, rt.F64)
            R.syms.append((n, "d", z, None, None))
            return z
        v = R.new_real(n, None, None)
        R.syms.append((n, "d", R.varz[-1], None, None))
        return v

    @reg
    def vf_int(R, name, lo, hi):
        n = uniq(R, name)
        z = z3.BitVec(n, 32)
        R.add(z3.And(z >= z3.BitVecVal(lo, 32), z <= z3.BitVecVal(hi, 32)))
        R.syms.append((n, "i", z, sgn(lo, 32), sgn(hi, 32)))
        return z

    @reg
    def vf_pick(R, name, lo, hi):
        n = uniq(R, name)
        z = z3.BitVec(n, 32)
        R.add(z3.And(z >= z3.BitVecVal(lo, 32), z <= z3.BitVecVal(hi, 32)))
        R.syms.append((n, "i", z, sgn(lo, 32), sgn(hi, 32)))
        return R.concretise(z)

    @reg
    def vf_cfg(R, name):
        return R.cfg.get(R.cstr(name), 0) & MASK[32]

    @reg
    def vf_symbolic(R):
        return 1

    @reg
    def vf_heap(R):
        return len(R.heap_live)

    @reg
    def vf_assume(R, c):
        flush(R)
        c = truth(c)
        if type(c) is bool:
            if not c:
                raise PathEnd("assume")
            return
        R.add(c)
        if R.check([])[0] == z3.unsat:
            raise PathEnd("assume")

    def uf(R, name, args):
        n = R.cstr(name)
        if R.mode == "fp":
            raise Unsupported("vf_uf on IEEE terms")
        k = ("uf", n, tuple(near_key(a) for a in args))
        r = R.divmemo.get(k)
        if r is None:
            i = len(R.ufs)
            nm = "uf:%s:%d" % (n, i)
            r = R.new_real(nm, Fraction(-4), Fraction(4))
            R.syms.append((nm, "d", R.varz[-1], Fraction(-4), Fraction(4)))
            R.ufs.append((nm, args))
            R.divmemo[k] = r
        return r

    @reg
    def vf_uf2(R, name, a, b):
        return uf(R, name, (a, b))

    @reg
    def vf_uf4(R, name, a, b, c, d):
        return uf(R, name, (a, b, c, d))

    @reg
    def vf_reach(R, msg):
        pass

    @reg
    def vf_eq(R, a, b, msg):
        if R.mode == "fp":
            return vf_same(R, a, b, msg)
        R.pending.append(("eq", a, b, msg))
        if len(R.pending) >= 256:
            flush(R)

    @reg
    def vf_same(R, a, b, msg):
        if R.mode != "fp":  # exactly, without a tolerance for rounding
            if type(a) is float or type(b) is float:
                c = type(a) is type(b) and (a == b or (a != a and b != b))
            else:
                d = poly.sub(a, b)
                c = d == 0 if type(d) is Fraction else R.z_sign(d) == 0
            R.pending.append(("c", c, None, msg))
            if len(R.pending) >= 256:
                flush(R)
        else:
            R.pending.append(("same", a, b, msg))

    @reg
    def vf_le(R, a, b, msg):
        R.pending.append(("le", a, b, msg))

    @reg
    def vf_ieq(R, a, b, msg):
        R.pending.append(("c", rt.ieq(a, b, 64), None, msg))

    @reg
    def vf_check(R, c, msg):
        R.pending.append(("c", truth(c), None, msg))

    par.install_builtins(P)


def near_key(a):
    """polynomials that differ by rounding of their coefficients have the same key"""
    if type(a) is not Poly:
        return "%.11e" % float(a)
    return tuple(sorted((m, "%.11e" % float(c)) for m, c in a.t.items() if abs(c) > 1e-14))


def value_of(R, m, a):
    """a polynomial under a model, approximately"""
    if type(a) is not Poly:
        return float(a)
    tot = 0.0
    for mono, c in a.t.items():
        x = float(c)
        for v, e in mono:
            x *= float(zval(m.eval(R.varz[v], model_completion=True))) ** e
        tot += x
    return tot


def truth(c):
    if type(c) is bool:
        return c
    if type(c) is int:
        return c != 0
    if isinstance(c, z3.BitVecRef):
        return foldb(c != 0)
    return foldb(c)


def violated(R, ob):
    """z3 condition under which the obligation fails (exact form)"""
    k, a, b, _ = ob
    if k == "c":
        return z3.BoolVal(not a) if type(a) is bool else z3.Not(a)
    if k == "same":
        if type(a) is float and type(b) is float:
            return z3.BoolVal(not (a == b or (a != a and b != b)))
        x, y = fz(a), fz(b)
        return z3.Not(z3.Or(z3.fpEQ(x, y), z3.And(z3.fpIsNaN(x), z3.fpIsNaN(y))))
    if type(a) is float or type(b) is float:
        if k == "eq":
            return z3.BoolVal(not (type(a) is type(b) and a == b))
        c = rt.r_cmp("ole", a, b)
        return z3.BoolVal(not c)
    d = poly.sub(a, b)
    if type(d) is Fraction:
        return zq(d) != 0 if k == "eq" else zq(d) > 0
    z = R.z_sign(d)
    return z != 0 if k == "eq" else z > 0


def flush(R):
    obs, R.pending = R.pending, []
    if not obs:
        return
    st = R.stats
    st.obligations += len(obs)
    vs = [violated(R, o) for o in obs]
    r, m = R.check([z3.Or(*vs)] if len(vs) > 1 else vs)
    if r == z3.unsat:
        st.unsat += 1
        cross(R, z3.Or(*vs) if len(vs) > 1 else vs[0])
        return
    todo = list(zip(obs, vs))
    if m is not None:  # what this model breaks comes first
        todo.sort(key=lambda ov: not z3.is_true(m.eval(ov[1], model_completion=True)))
    t0 = time.time()
    for o, v in todo:
        decide(R, o, v)
        if len(R.candidates) > R.opts.get("max_cand", 8) or R.candidates and time.time() - t0 > 60:
            R.enough = True
            raise PathEnd("enough")


def cross(R, v):
    """thorough tier: discharge the same query with cvc5"""
    if not R.opts.get("cvc5"):
        return
    import subprocess
    s = z3.Solver()
    for c in R.pc:
        s.add(c)
    s.add(v)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    try:
        p = subprocess.run(["cvc5", "--tlimit=20000", "-"], input=txt, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=40)
        out = p.stdout.strip().split("\n")[0] if "(error" not in p.stdout else "error"
    except subprocess.TimeoutExpired:
        out = "timeout"
    R.stats.cross_s += time.time() - t0
    if out == "unsat":
        R.stats.cross += 1
    elif out == "sat":
        R.unknowns.append("z3 and cvc5 disagree on a query")


def decide(R, o, v):
    st = R.stats
    k, a, b, msg = o
    r, m = R.check([v])
    if r == z3.unsat:
        st.unsat += 1
        cross(R, v)
        return
    text = R.cstr(msg)
    if k in ("eq", "le") and type(a) is not float and type(b) is not float:
        d = poly.sub(a, b)
        if type(d) is Fraction:
            if (k == "eq" and abs(d) <= TOL) or (k == "le" and d <= TOL):
                st.tolerated += 1
                return
            r2, m2 = R.check([])
            if m2 is None:
                m2 = guess(R, None, None)
            if m2 is None and r2 == z3.unknown:
                R.unknowns.append(text)
                return
            if r2 == z3.unsat:
                return
            st.sat += 1
            R.candidates.append(Candidate(text, k, model_of(R, m2), "difference %s" % d))
            return
        # rounding-sized differences are not violations: linear abstraction over the monomials
        if small(R, d, k):
            st.tolerated += 1
            return
        zd = R.z_of(d)
        for t in (Fraction(1, 20), Fraction(1, 10000), TOL):
            bad = z3.Or(zd > zq(t), zd < -zq(t)) if k == "eq" else zd > zq(t)
            r, m = R.check([bad], R.opts.get("model_ms", 8000))
            if r == z3.sat:
                break
            if r == z3.unknown:
                m = guess(R, d, t if k == "eq" else None)
                if m is not None:
                    r = z3.sat
                    break
        if r == z3.unsat:
            st.tolerated += 1
            return
        if r != z3.sat:
            st.unknown += 1
            R.unknowns.append(text)
            return
        st.sat += 1
        c = Candidate(text, k, model_of(R, m), "difference %s" % poly.pstr(d)[:300])
        c.alts = alternates(R, bad, m)
        R.candidates.append(c)
        return
    if r == z3.unknown:
        m = None
        if R.mode != "fp":
            m = guess_bool(R, v)
        if m is None:
            st.unknown += 1
            R.unknowns.append(text)
            return
    st.sat += 1
    c = Candidate(text, k, model_of(R, m))
    c.alts = alternates(R, v, m) if R.mode != "fp" else []
    R.candidates.append(c)


def tidy(R, v, m):
    """models near m in which almost equal inputs are equal and inputs are short binary fractions"""
    vals = []
    for n, kind, z, lo, hi in R.syms:
        if kind != "i":
            try:
                vals.append((zval(m.eval(z, model_completion=True)), z))
            except Unsupported:
                return []
    if not vals or len(vals) > 200:
        return []
    t0 = time.time()
    vals.sort(key=lambda x: x[0])
    eqs = [b[1] == a[1] for a, b in zip(vals, vals[1:]) if b[0] - a[0] < Fraction(1, 10 ** 6)]
    if eqs:
        r, m2 = R.check(eqs + [v], 3000)
        if r != z3.sat:  # not equal on this path: well within whatever tolerance makes them alike
            eqs = []
            for a, b in zip(vals, vals[1:]):
                if 0 < b[0] - a[0] < Fraction(1, 10 ** 6):
                    eqs += [b[1] - a[1] <= zq((b[0] - a[0]) / 2), b[1] >= a[1]]
            r, m2 = R.check(eqs + [v], 3000)
        if r != z3.sat:
            eqs = []
        else:
            m = m2
    out = []
    for bits in (16, 1024, 2 ** 20):
        pins = []
        for _, z in vals:
            try:
                pins.append(z == zq(Fraction(round(zval(m.eval(z, model_completion=True)) * bits), bits)))
            except Unsupported:
                pass
        todo = [pins]
        good = []
        while todo and time.time() - t0 < 10:  # as many of them as the violation allows
            p = todo.pop()
            r, m2 = R.check(eqs + good + p + [v], 1500)
            if r == z3.sat:
                good += p
                last = m2
            elif len(p) > 1:
                todo += [p[len(p) // 2:], p[:len(p) // 2]]
        if good:
            out.append(model_of(R, last))
            break
    if not out and eqs:
        out.append(model_of(R, m))
    return out


def alternates(R, v, m=None):
    """further models of the same violation with short dyadic inputs (they survive rounding better)"""
    out = []
    if len(R.candidates) > 3:
        return out
    if m is not None:
        out += tidy(R, v, m)
    rng = random.Random(777)
    t0 = time.time()
    for attempt in range(8):
        if time.time() - t0 > 15:
            break
        al = rnd_assign(R, rng)
        frac = [1.0, 0.8, 0.6, 0.9][attempt % 4]
        cs = [z == zq(x) for n, z, x in al if rng.random() <= frac] + [v]
        r, m = R.check(cs, 1500)
        if r == z3.sat:
            out.append(model_of(R, m))
            if len(out) >= 4:
                break
    return out


def small(R, d, k):
    """can |d| exceed TOL?  Over-approximate: each monomial an independent variable within its range."""
    s = z3.Solver()
    s.set("timeout", 5000)
    acc = []
    for m, c in d.t.items():
        bound = Fraction(1)
        for v, e in m:
            lo, hi = R.varrange[v]
            if lo is None or hi is None:
                return False
            if e > 0:
                bound *= max(abs(lo), abs(hi)) ** e
            else:
                if lo <= 0 <= hi:
                    return False
                bound *= (1 / min(abs(lo), abs(hi))) ** (-e)
        x = z3.Real("m!%d" % len(acc))
        s.add(x <= zq(bound), x >= -zq(bound))
        acc.append(zq(c) * x)
    sm = z3.Sum(acc)
    s.add(z3.Or(sm > zq(TOL), sm < -zq(TOL)))
    t0 = time.time()
    r = s.check()
    R.stats.queries += 1
    R.stats.solver_s += time.time() - t0
    return r == z3.unsat


def rnd_assign(R, rng):
    cs = []
    for n, kind, z, lo, hi in R.syms:
        if kind == "d":
            lo_ = lo if lo is not None else Fraction(-4)
            hi_ = hi if hi is not None else Fraction(4)
            cs.append((n, z, Fraction(lo_) + (Fraction(hi_) - Fraction(lo_)) * Fraction(rng.randint(1, 31), 32)))
    return cs


GUESS_S = 30  # seconds of model search


def guess(R, d, t):
    """model search by fixing a random subset of the real inputs (the solver still decides the rest)"""
    rng = random.Random(12345)
    t0 = time.time()
    for attempt in range(24):
        if time.time() - t0 > GUESS_S:
            break
        al = rnd_assign(R, rng)
        frac = [1.0, 0.9, 0.7, 0.5][attempt % 4]
        cs = [z == zq(v) for n, z, v in al if rng.random() <= frac]
        if d is not None:
            zd = R.z_of(d)
            cs.append(z3.Or(zd > zq(t), zd < -zq(t)) if t is not None else zd > zq(TOL))
        r, m = R.check(cs, 2000)
        if r == z3.sat:
            return m
    return None


def guess_bool(R, v):
    rng = random.Random(54321)
    t0 = time.time()
    for attempt in range(24):
        if time.time() - t0 > GUESS_S:
            break
        al = rnd_assign(R, rng)
        frac = [1.0, 0.9, 0.7, 0.5][attempt % 4]
        cs = [z == zq(x) for n, z, x in al if rng.random() <= frac] + [v]
        r, m = R.check(cs, 2000)
        if r == z3.sat:
            return m
    return None


def model_of(R, m):
    out = {}
    for n, kind, z, lo, hi in R.syms:
        if m is None:
            continue
        v = m.eval(z, model_completion=False)
        if kind == "i":
            if z3.is_bv_value(v):
                out[n] = str(v.as_signed_long())
            continue
        if R.mode == "fp":
            if z3.is_fp_value(v):
                out[n] = repr(rt.fpval(v))
            else:
                out[n] = "1.0" if lo is None else repr(float(lo))
            continue
        try:
            out[n] = repr(float(zval(v)))
        except Unsupported:
            lo_ = lo if lo is not None else Fraction(-1)
            hi_ = hi if hi is not None else Fraction(1)
            out[n] = repr(float((Fraction(lo_) + Fraction(hi_)) / 2))
    for n, args in R.ufs:
        if m is not None:
            try:
                out[n + ":at"] = " ".join(repr(value_of(R, m, a)) for a in args)
            except (Unsupported, ZeroDivisionError, OverflowError):
                pass
    for k, v in getattr(R, "model_extra", {}).items():
        out[k] = v
    return out


class Result:
    pass


def snapshot_objs(objs):
    out = {}
    for i, o in objs.items():
        n = rt.Obj(o.id, o.size, o.kind, o.zero)
        n.cells = dict(o.cells)
        n.tag = o.tag
        out[i] = n
    return out


class Found(list):
    """counterexamples; each is passed on as soon as it is found"""
    tell = None

    def append(self, c):
        super().append(c)
        if self.tell:
            self.tell([(c.msg, c.kind, c.model, c.detail, getattr(c, "alts", []))])


def run_task(P, root, func, mode, cfg, opts, tell=None):
    """explore every path of harness `func`"""
    t0 = time.time()
    R = Runtime(P, mode, cfg, opts)
    R.candidates = Found()
    R.candidates.tell = tell
    R.alternatives = []
    R.pending = []
    R.flush_pending = flush
    R.enough = False
    res = Result()
    res.func, res.cfg, res.mode = func, cfg, mode
    res.error = None
    res.incomplete = None
    res.reached = 0
    res.paths = 0
    res.decisions = 0
    res.witnesses = []
    res.ends = {}
    mods = P.closure(root)
    # one-time static initialisation
    R.reset([])
    snap = None
    nid = None
    try:
        for c in P.ctors([m for m in mods if m is not root] + [root]):
            R.ns[c]()
        snap = snapshot_objs(R.objs)
        heap0 = set(R.heap_live)
        nid = R.next_id
    except (Unsupported, Event, PathEnd, CxxThrow) as e:
        res.error = "static initialisation: %s" % e
    work = [[]]
    entry = P.lookup(root, func)
    deadline = t0 + opts.get("budget_s", 600)
    while work and res.error is None:
        prefix = work.pop()
        R.reset(prefix)
        R.alternatives = []
        R.pending = []
        R.objs = snapshot_objs(snap)
        R.next_id = nid
        for h in heap0:
            R.heap_live[h] = R.objs[h]
        R.heap0 = heap0
        end = "normal"
        try:
            R.ns[entry.py]()
            flush(R)
        except PathEnd as e:
            end = e.why
            try:
                flush(R)
            except PathEnd:
                pass
            except Unsupported as e:
                res.error = str(e)
        except CxxThrow as e:
            end = "throw"
            event(R, Event("throw", "an exception escapes"), res)
        except Event as e:
            end = e.kind
            event(R, e, res)
        except Unsupported as e:
            res.error = "unsupported: %s" % e
        except RecursionError:
            event(R, Event("recursion", "unbounded recursion"), res)
        except (TypeError, AttributeError, KeyError, z3.Z3Exception, AssertionError, IndexError, ValueError) as e:
            res.error = "engine: %s\n%s" % (e, traceback.format_exc()[-1500:])
        if end == "exit" and not opts.get("allow_exit"):
            event(R, Event("exit", "the program exits"), res)
        if end in ("normal", "exit") and res.error is None:
            r, m = R.check([])
            if r != z3.unsat:
                res.reached += 1
                if m is not None and len(res.witnesses) < opts.get("max_witness", 3):
                    res.witnesses.append(model_of(R, m))
        res.paths += 1
        res.decisions += len(R.trace)
        res.ends[end] = res.ends.get(end, 0) + 1
        work.extend(R.alternatives)
        if R.enough or len(R.candidates) > opts.get("max_cand", 8):
            break
        if time.time() > deadline:
            if work:
                res.incomplete = "%d paths explored in %ds, %d and their continuations not" % (res.paths, time.time() - t0, len(work))
            break
        if res.paths > opts.get("max_paths", 20000):
            res.incomplete = "bound of %d paths" % res.paths
            break
    res.stats = R.stats.__dict__.copy()
    res.candidates = [(c.msg, c.kind, c.model, c.detail, getattr(c, "alts", [])) for c in R.candidates]
    res.unknowns = R.unknowns[:10]
    res.functions = sorted(P.encoded)
    res.wall = time.time() - t0
    return res


def event(R, e, res):
    try:
        flush(R)
    except (PathEnd, Unsupported):
        pass
    r, m = R.check([])
    if r == z3.unsat:
        return
    if m is None:
        m = guess(R, None, None)
    R.stats.obligations += 1
    R.stats.sat += 1
    c = Candidate(e.msg, "event:" + e.kind, model_of(R, m))
    if R.mode != "fp":
        c.alts = alternates(R, z3.BoolVal(True), m)
    R.candidates.append(c)
