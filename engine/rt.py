"""Symbolic runtime: memory, symbolic integers (bit-vectors) and doubles (exact reals as Laurent
polynomials, or IEEE-754 terms), path exploration by re-execution with a decision prefix, and the
solver queries."""
import math
import os
import struct
import sys
import time
from fractions import Fraction

import z3

import ir
import poly
from poly import Poly

sys.setrecursionlimit(20000)

BASE = 1 << 28
INF = float("inf")


def find_condition(e):
    """a condition over reals that decides between values inside a bit-vector term"""
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and x.sort_kind() == z3.Z3_BV_SORT:
            c = x.arg(0)
            while z3.is_not(c):
                c = c.arg(0)
            if z3.is_app(c) and c.num_args() and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) \
                    and z3.is_arith(c.arg(0)):
                return c
        todo.extend(x.children())
    return None


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """path is over (assumption failed, exit(), infeasible)"""

    def __init__(self, why):
        Exception.__init__(self, why)
        self.why = why


class Event(Exception):
    """abnormal behaviour of the code under test on this path (memory error, UB, throw, ...)"""

    def __init__(self, kind, msg):
        Exception.__init__(self, kind + ": " + msg)
        self.kind = kind
        self.msg = msg


class CxxThrow(Exception):
    def __init__(self, obj, tinfo):
        self.obj = obj
        self.tinfo = tinfo


class Obj:
    __slots__ = ("id", "size", "cells", "zero", "kind", "fn", "tag")

    def __init__(self, oid, size, kind, zero=False):
        self.id = oid
        self.size = size
        self.cells = {}
        self.zero = zero
        self.kind = kind
        self.fn = None
        self.tag = None


MASK = {w: (1 << w) - 1 for w in range(1, 129)}


def bv(x, w):
    if type(x) is int:
        return z3.BitVecVal(x, w)
    if type(x) is bool:
        return z3.BitVecVal(int(x), w)
    if isinstance(x, z3.BitVecRef):
        return x
    if isinstance(x, z3.BoolRef):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    raise Unsupported("integer operation on a %s" % type(x).__name__)


def fold(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def foldb(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def sgn(a, w):
    return a - (1 << w) if a >> (w - 1) else a


def i_add(a, b, w):
    if type(a) is int and type(b) is int:
        return (a + b) & MASK[w]
    return fold(bv(a, w) + bv(b, w))


def i_sub(a, b, w):
    if type(a) is int and type(b) is int:
        return (a - b) & MASK[w]
    return fold(bv(a, w) - bv(b, w))


def i_mul(a, b, w):
    if type(a) is int and type(b) is int:
        return (a * b) & MASK[w]
    return fold(bv(a, w) * bv(b, w))


def _sov(op, a, b, r, w):
    x = sgn(a, w)
    y = sgn(b, w)
    t = x + y if op == "+" else (x - y if op == "-" else x * y)
    if not -(1 << (w - 1)) <= t < (1 << (w - 1)):
        raise Event("ub", "signed integer overflow: %d %s %d in %d bits" % (x, op, y, w))


def s_add(a, b, w):
    if type(a) is int and type(b) is int:
        r = (a + b) & MASK[w]
        _sov("+", a, b, r, w)
        return r
    R.nsw("+", a, b, w)
    return fold(bv(a, w) + bv(b, w))


def s_sub(a, b, w):
    if type(a) is int and type(b) is int:
        r = (a - b) & MASK[w]
        _sov("-", a, b, r, w)
        return r
    R.nsw("-", a, b, w)
    return fold(bv(a, w) - bv(b, w))


def s_mul(a, b, w):
    if type(a) is int and type(b) is int:
        r = (a * b) & MASK[w]
        _sov("*", a, b, r, w)
        return r
    R.nsw("*", a, b, w)
    return fold(bv(a, w) * bv(b, w))


def _nz(b, w):
    if type(b) is int:
        if b == 0:
            raise Event("ub", "integer division by zero")
    elif R.br(bv(b, w) == 0):
        raise Event("ub", "integer division by zero")


def i_udiv(a, b, w):
    _nz(b, w)
    if type(a) is int and type(b) is int:
        return a // b
    return fold(z3.UDiv(bv(a, w), bv(b, w)))


def i_urem(a, b, w):
    _nz(b, w)
    if type(a) is int and type(b) is int:
        return a % b
    return fold(z3.URem(bv(a, w), bv(b, w)))


def i_sdiv(a, b, w):
    _nz(b, w)
    if type(a) is int and type(b) is int:
        x = sgn(a, w)
        y = sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & MASK[w]
    return fold(bv(a, w) / bv(b, w))


def i_srem(a, b, w):
    _nz(b, w)
    if type(a) is int and type(b) is int:
        x = sgn(a, w)
        y = sgn(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & MASK[w]
    return fold(z3.SRem(bv(a, w), bv(b, w)))


def i_shl(a, b, w):
    if type(a) is int and type(b) is int:
        return (a << b) & MASK[w] if b < w else 0
    return fold(bv(a, w) << bv(b, w))


def i_lshr(a, b, w):
    if type(a) is int and type(b) is int:
        return a >> b if b < w else 0
    return fold(z3.LShR(bv(a, w), bv(b, w)))


def i_ashr(a, b, w):
    if type(a) is int and type(b) is int:
        return (sgn(a, w) >> min(b, w - 1)) & MASK[w]
    return fold(bv(a, w) >> bv(b, w))


def i_and(a, b, w):
    if type(a) is int and type(b) is int:
        return a & b
    return fold(bv(a, w) & bv(b, w))


def i_or(a, b, w):
    if type(a) is int and type(b) is int:
        return a | b
    return fold(bv(a, w) | bv(b, w))


def i_xor(a, b, w):
    if type(a) is int and type(b) is int:
        return a ^ b
    return fold(bv(a, w) ^ bv(b, w))


def zb(x):
    return x if not isinstance(x, bool) else z3.BoolVal(x)


def b_and(a, b):
    if type(a) is bool:
        return b if a else False
    if type(b) is bool:
        return a if b else False
    return foldb(z3.And(a, b))


def b_or(a, b):
    if type(a) is bool:
        return True if a else b
    if type(b) is bool:
        return True if b else a
    return foldb(z3.Or(a, b))


def b_xor(a, b):
    if type(a) is bool and type(b) is bool:
        return a != b
    if type(b) is bool:
        a, b = b, a
    if type(a) is bool:
        return foldb(z3.Not(b)) if a else b
    return foldb(z3.Xor(a, b))


b_add = b_xor
b_sub = b_xor
b_mul = b_and


def b_cmp_eq(a, b):
    r = b_xor(a, b)
    return (not r) if type(r) is bool else foldb(z3.Not(r))


def b_cmp_ne(a, b):
    return b_xor(a, b)


def ieq(a, b, w):
    if type(a) is int and type(b) is int:
        return a == b
    if a is b:
        return True
    return foldb(bv(a, w) == bv(b, w))


def ine(a, b, w):
    if type(a) is int and type(b) is int:
        return a != b
    if a is b:
        return False
    return foldb(bv(a, w) != bv(b, w))


def iult(a, b, w):
    if type(a) is int and type(b) is int:
        return a < b
    return foldb(z3.ULT(bv(a, w), bv(b, w)))


def iule(a, b, w):
    if type(a) is int and type(b) is int:
        return a <= b
    return foldb(z3.ULE(bv(a, w), bv(b, w)))


def iugt(a, b, w):
    return iult(b, a, w)


def iuge(a, b, w):
    return iule(b, a, w)


def islt(a, b, w):
    if type(a) is int and type(b) is int:
        return sgn(a, w) < sgn(b, w)
    return foldb(bv(a, w) < bv(b, w))


def isle(a, b, w):
    if type(a) is int and type(b) is int:
        return sgn(a, w) <= sgn(b, w)
    return foldb(bv(a, w) <= bv(b, w))


def isgt(a, b, w):
    return islt(b, a, w)


def isge(a, b, w):
    return isle(b, a, w)


def c_trunc(a, w1, w2):
    if type(a) is int:
        a &= MASK[w2]
        return bool(a) if w2 == 1 else a
    r = fold(z3.Extract(w2 - 1, 0, bv(a, w1)))
    if w2 == 1:
        return bool(r) if type(r) is int else foldb(r == 1)
    return r


def c_zext(a, w1, w2):
    if type(a) is int:
        return a
    if w1 == 1:
        if type(a) is bool:
            return 1 if a else 0
        return z3.If(a, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
    return fold(z3.ZeroExt(w2 - w1, bv(a, w1)))


def c_sext(a, w1, w2):
    if w1 == 1:
        if type(a) is bool:
            return MASK[w2] if a else 0
        return z3.If(a, z3.BitVecVal(MASK[w2], w2), z3.BitVecVal(0, w2))
    if type(a) is int:
        return sgn(a, w1) & MASK[w2]
    return fold(z3.SignExt(w2 - w1, bv(a, w1)))


def c_ptrint(a, w1, w2):
    if w1 == w2:
        return a
    return c_trunc(a, w1, w2) if w2 < w1 else c_zext(a, w1, w2)


def gep0(p, off):
    if type(p) is int:
        return (p + off) & MASK[64]
    return i_add(p, off & MASK[64], 64)


def gep(p, x, w, sz):
    if type(p) is int and type(x) is int:
        if x >> (w - 1):
            x -= 1 << w
        return (p + x * sz) & MASK[64]
    x = c_sext(x, w, 64) if w < 64 else x
    return i_add(p, i_mul(x, sz, 64), 64)


# ---------------------------------------------------------------- reals
def dconst(x):
    if x != x or x in (INF, -INF):
        return x
    return poly.rational_of_double(x)


def is_special(a):
    return type(a) is float


def r_add(a, b):
    if type(a) is float or type(b) is float:
        return special("+", a, b)
    return poly.add(a, b)


def r_sub(a, b):
    if type(a) is float or type(b) is float:
        return special("-", a, b)
    return poly.sub(a, b)


def r_mul(a, b):
    if type(a) is float or type(b) is float:
        return special("*", a, b)
    return poly.mul(a, b)


def r_neg(a):
    if type(a) is float:
        return -a
    return poly.neg(a)


def special(op, a, b):
    def fl(x):
        if type(x) is float:
            return x
        if type(x) is Fraction:
            return float(x)
        return None
    x, y = fl(a), fl(b)
    if op in "+-" and (x is None or y is None):
        s = x if x is not None else (y if op == "+" else -y)
        return s
    if x is None or y is None:
        raise Unsupported("arithmetic on an infinity or NaN")
    try:
        r = x + y if op == "+" else x - y if op == "-" else x * y if op == "*" else (x / y if y else math.nan)
    except OverflowError:
        r = math.nan
    return r if (r != r or r in (INF, -INF)) else dconst(r)


def r_div(a, b):
    if type(a) is float or type(b) is float:
        if type(b) is float and b == b and type(a) is not float:
            return Fraction(0)
        return special("/", a, b)
    if type(b) is Fraction:
        if b == 0:
            raise Event("fpdiv", "floating-point division by zero")
        return poly.mul(a, 1 / b)
    return R.rdiv(a, b)


def r_frem(a, b):
    if type(a) is Fraction and type(b) is Fraction and b:
        q = a / b
        n = int(q)
        return a - n * b
    raise Unsupported("frem on symbolic values")


def r_cmp(pr, a, b):
    if pr == "true":
        return True
    if pr == "false":
        return False
    if type(a) is float or type(b) is float:
        nan = (type(a) is float and a != a) or (type(b) is float and b != b)
        if pr == "ord":
            return not nan
        if pr == "uno":
            return nan
        if nan:
            return pr[0] == "u"
        x = a if type(a) is float else 0.0
        y = b if type(b) is float else 0.0
        op = pr[1:]
        return {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op]
    if pr == "ord":
        return True
    if pr == "uno":
        return False
    op = pr[1:]
    if type(a) is Fraction and type(b) is Fraction:
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
    if isinstance(a, (Fraction, Poly)) and isinstance(b, (Fraction, Poly)):
        d = poly.sub(a, b)
        if type(d) is Fraction:
            return {"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0}[op]
        z = R.z_sign(d)
        return {"eq": z == 0, "ne": z != 0, "lt": z < 0, "le": z <= 0, "gt": z > 0, "ge": z >= 0}[op]
    raise Unsupported("fcmp on %s,%s" % (type(a).__name__, type(b).__name__))


def r_trunc32(a):
    if type(a) is Fraction:
        return Fraction(struct.unpack("<f", struct.pack("<f", float(a)))[0])
    if type(a) is float:
        return a
    return R.round32(a)


# ---------------------------------------------------------------- IEEE terms
F64 = z3.Float64()
RNE = z3.RNE()


def fz(a):
    if type(a) is float:
        return z3.FPVal(a, F64)
    if isinstance(a, z3.FPRef):
        return a
    raise Unsupported("fp operation on %s" % type(a).__name__)


def fpfold(e):
    e = z3.simplify(e)
    if z3.is_fp_value(e):
        return fpval(e)
    return e


def fpval(e):
    if e.isNaN():
        return math.nan
    if e.isInf():
        return -INF if e.isNegative() else INF
    if e.isZero():
        return -0.0 if e.isNegative() else 0.0
    b = z3.simplify(z3.fpToIEEEBV(e)).as_long()
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def _pyf(op, a, b):
    try:
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if b == 0:
            if a == 0 or a != a:
                return math.nan
            return math.copysign(INF, a) * math.copysign(1.0, b)
        return a / b
    except OverflowError:
        return math.nan


def p_add(a, b):
    if type(a) is float and type(b) is float:
        return _pyf("+", a, b)
    return fpfold(z3.fpAdd(RNE, fz(a), fz(b)))


def p_sub(a, b):
    if type(a) is float and type(b) is float:
        return _pyf("-", a, b)
    return fpfold(z3.fpSub(RNE, fz(a), fz(b)))


def p_mul(a, b):
    if type(a) is float and type(b) is float:
        return _pyf("*", a, b)
    return fpfold(z3.fpMul(RNE, fz(a), fz(b)))


def p_div(a, b):
    if type(a) is float and type(b) is float:
        return _pyf("/", a, b)
    return fpfold(z3.fpDiv(RNE, fz(a), fz(b)))


def p_neg(a):
    if type(a) is float:
        return -a
    return fpfold(z3.fpNeg(a))


def p_frem(a, b):
    if type(a) is float and type(b) is float:
        return math.fmod(a, b)
    raise Unsupported("frem")


def p_cmp(pr, a, b):
    if pr == "true":
        return True
    if pr == "false":
        return False
    op = pr[1:]
    if type(a) is float and type(b) is float:
        nan = a != a or b != b
        if pr == "ord":
            return not nan
        if pr == "uno":
            return nan
        if nan:
            return pr[0] == "u"
        return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[op]
    x, y = fz(a), fz(b)
    nan = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
    if pr == "ord":
        return foldb(z3.Not(nan))
    if pr == "uno":
        return foldb(nan)
    c = {"eq": z3.fpEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ}
    if op == "ne":
        e = z3.And(z3.Not(nan), z3.Not(z3.fpEQ(x, y)))
    else:
        e = c[op](x, y)
    if pr[0] == "u":
        e = z3.Or(nan, e)
    return foldb(e)


def p_trunc32(a):
    if type(a) is float:
        try:
            return struct.unpack("<f", struct.pack("<f", a))[0]
        except OverflowError:
            return math.copysign(INF, a)
    return fpfold(z3.fpFPToFP(RNE, z3.fpFPToFP(RNE, a, z3.Float32()), F64))


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.obligations = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.feas = 0
        self.tolerated = 0
        self.cross = 0
        self.cross_s = 0.0
        self.par_regions = 0


class Candidate:
    def __init__(self, msg, kind, model, detail=""):
        self.msg = msg
        self.kind = kind
        self.model = model
        self.detail = detail


R = None  # the runtime; set by Runtime.__init__
_rid = [0]


class Runtime:
    def __init__(self, prog, mode, cfg, opts):
        global R
        R = self
        self.prog = prog
        self.mode = mode
        self.cfg = cfg
        self.opts = opts
        self.stats = Stats()
        self.timeout = opts.get("timeout_ms", 20000)
        self.fuel_max = opts.get("fuel", 20000000)
        self.candidates = []
        self.unknowns = []
        self.tokens = {}
        self.witness = None
        self.reached = 0
        self.ns = prog.namespace(mode)
        self.ns["R"] = self
        self.snapshot = None
        self.funcs_used = set()
        self.samples = []
        self.inits_done = False

    # ------------------------------------------------------------ path set-up
    def reset(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.objs = {}
        self.stack = []
        self.next_id = self.prog.first_dynamic_id
        self.ninst = 0
        self.fuel = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout)
        self.assumptions_dirty = False
        self.syms = []          # (name, kind, z3var, lo, hi)
        self.symcount = {}
        poly.VARNAMES[:] = []
        poly.SQUARES.clear()
        self.varz = []          # z3 Real for each poly var
        self.varpos = []        # known > 0
        self.varrange = []      # (lo, hi) or None
        self.pc = []
        self.known = []         # what symbolic integers and conditions are on this path
        self.zcache = {}
        self.sqrtmemo = {}
        self.divmemo = {}
        self.streams = {}
        self.fs = {}
        self.cur_exc = None
        self.nundef = 0
        self.undef_used = False
        self.heap_live = {}
        self.notes = []
        self.callback_state = {}
        self.files = {}
        self.exit_code = None
        self.dead = False
        self.par = None
        self.par_nested = 0
        self.ufs = []

    def new_obj(self, size, kind, zero=False):
        i = self.next_id
        self.next_id = i + 1
        o = Obj(i, size, kind, zero)
        self.objs[i] = o
        return o

    def alloca(self, size):
        i = self.next_id
        self.next_id = i + 1
        self.objs[i] = Obj(i, size, "stack")
        self.stack.append(i)
        return (i << 32) | BASE

    def pop(self, sp):
        st = self.stack
        objs = self.objs
        while len(st) > sp:
            objs.pop(st.pop(), None)

    def byval(self, p, size):
        q = self.alloca(size)
        self.memcpy(q, p, size)
        return q

    def malloc(self, size, how="new"):
        size = self.cint(size)
        if size > (1 << 27):
            raise Event("alloc", "allocation of %d bytes" % size)
        o = self.new_obj(size, "heap")
        o.tag = how
        self.heap_live[o.id] = o
        return (o.id << 32) | BASE

    def free(self, p, how):
        p = self.cint(p)
        if p == 0:
            return
        o = self.objs.get(p >> 32)
        if o is None or (p & 0xffffffff) != BASE or o.kind != "heap":
            raise Event("memory", "free of an invalid or already freed pointer")
        if o.tag != how:
            raise Event("memory", "allocation with '%s' released with '%s'" % (o.tag, how))
        del self.objs[p >> 32]
        self.heap_live.pop(p >> 32, None)

    def obj_at(self, p, size, what):
        o = self.objs.get(p >> 32)
        if o is None:
            o = self.prog.materialise(self, p >> 32)
            if o is None:
                raise Event("memory", "%s of %d bytes through an invalid%s pointer" % (
                    what, size, " (null)" if p < 4096 else ""))
        off = (p & 0xffffffff) - BASE
        if off < 0 or off + size > o.size:
            raise Event("memory", "out-of-bounds %s: %d bytes at offset %d of a %d-byte %s object" % (
                what, size, off, o.size, o.kind))
        return o, off

    # ------------------------------------------------------------ memory
    def load(self, p, size):
        """raw cell content or None when never written"""
        if type(p) is not int:
            p = self.cptr(p, size)
        o = self.objs.get(p >> 32)
        off = (p & 0xffffffff) - BASE
        if o is None or off < 0 or off + size > o.size:
            o, off = self.obj_at(p, size, "read")
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        return self.load_slow(o, off, size)

    def byte_at(self, o, off):
        c = o.cells.get(off)
        if c is not None and c[0] == 1:
            return c[1]
        for k in range(0, 16):
            c = o.cells.get(off - k)
            if c is not None:
                if c[0] <= k:
                    break
                v = c[1]
                if type(v) is bool:
                    v = int(v)
                if type(v) is int:
                    return (v >> (8 * k)) & 255
                if isinstance(v, z3.BitVecRef):
                    return fold(z3.Extract(8 * k + 7, 8 * k, v))
                b = self.float_bits(v)
                if b is None:
                    raise Unsupported("partial read of a symbolic double")
                return (b >> (8 * k)) & 255
        return 0 if o.zero else None

    def float_bits(self, v):
        if type(v) is Fraction:
            return struct.unpack("<Q", struct.pack("<d", float(v)))[0]
        if type(v) is float:
            return struct.unpack("<Q", struct.pack("<d", v))[0]
        return None

    def load_slow(self, o, off, size):
        if not o.cells:
            return 0 if o.zero else None
        bs = [self.byte_at(o, off + i) for i in range(size)]
        if all(b is None for b in bs):
            return None
        if any(b is None for b in bs):
            bs = [b if b is not None else self.undef_i(8) for b in bs]
        if all(type(b) is int for b in bs):
            r = 0
            for i, b in enumerate(bs):
                r |= b << (8 * i)
            return r
        return fold(z3.Concat(*[bv(b, 8) for b in reversed(bs)])) if size > 1 else bs[0]

    def load_i(self, p, size):
        v = self.load(p, size)
        if v is None:
            v = self.undef_i(8 * size)
            self.store(p, v, size)
        elif type(v) is bool:
            return int(v)
        return v

    def load_b(self, p):
        v = self.load(p, 1)
        if v is None:
            v = self.undef_i(8)
            self.store(p, v, 1)
        if type(v) is bool:
            return v
        if type(v) is int:
            return bool(v & 1)
        if isinstance(v, z3.BoolRef):
            return v
        return foldb(z3.Extract(0, 0, v) == 1)

    def store_b(self, p, v):
        self.store(p, v if type(v) is not bool else int(v), 1)

    def load_f(self, p, size):
        v = self.load(p, size)
        if v is None:
            v = self.undef_f()
            self.store(p, v, size)
            return v
        if type(v) is int:
            return self.bits_to_f(v, size)
        if isinstance(v, z3.BitVecRef):
            if self.mode == "fp":
                return z3.fpBVToFP(v, F64)
            raise Unsupported("symbolic bits read as double")
        return v

    def bits_to_f(self, v, size):
        if size == 4:
            x = struct.unpack("<f", struct.pack("<I", v))[0]
        elif size == 8:
            x = struct.unpack("<d", struct.pack("<Q", v))[0]
        else:
            if v == 0:
                x = 0.0
            else:
                raise Unsupported("x87 bits")
        return self.fc(x)

    def fc(self, x):
        return x if self.mode == "fp" else dconst(x)

    def store(self, p, v, size):
        if type(p) is not int:
            p = self.cptr(p, size)
        o = self.objs.get(p >> 32)
        off = (p & 0xffffffff) - BASE
        if o is None or off < 0 or off + size > o.size:
            o, off = self.obj_at(p, size, "write")
        if o.kind == "const":
            raise Event("memory", "write to constant data")
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, v)
            return
        self.clear_range(o, off, size)
        cells[off] = (size, v)

    def clear_range(self, o, off, size):
        """remove [off, off+size) from the cell map, splitting partially covered cells into bytes"""
        cells = o.cells
        if not cells:
            return
        for k in range(max(0, off - 15), off):
            c = cells.get(k)
            if c is not None and k + c[0] > off:
                self.split(o, k)
        n = off
        end = off + size
        if size > 64 and len(cells) < size:
            for k in [k for k in cells if off <= k < end]:
                c = cells[k]
                if k + c[0] > end:
                    self.split(o, k)
                del cells[k]
            return
        while n < end:
            c = cells.get(n)
            if c is not None:
                if n + c[0] > end:
                    self.split(o, n)
                    c = cells[n]
                del cells[n]
                n += c[0]
            else:
                n += 1

    def split(self, o, k):
        size, v = o.cells[k]
        bs = [self.byte_at(o, k + i) for i in range(size)]
        del o.cells[k]
        for i, b in enumerate(bs):
            o.cells[k + i] = (1, b)

    def memcpy(self, d, s, n):
        n = self.cint(n)
        if n == 0:
            return d
        d = self.cptr(d, n)
        s = self.cptr(s, n)
        so, soff = self.obj_at(s, n, "read")
        do, doff = self.obj_at(d, n, "write")
        if so is do and soff == doff:
            return d
        end = soff + n
        cells = so.cells
        got = []
        # boundary cells
        for k in range(max(0, soff - 15), soff):
            c = cells.get(k)
            if c is not None and k + c[0] > soff:
                self.split(so, k)
        if n > 64 and len(cells) < n:
            items = [(k, cells[k]) for k in sorted(k for k in cells if soff <= k < end)]
        else:
            items = []
            k = soff
            while k < end:
                c = cells.get(k)
                if c is not None:
                    items.append((k, c))
                    k += c[0]
                else:
                    k += 1
        for k, c in items:
            if k + c[0] > end:
                for i in range(end - k):
                    got.append((k + i - soff, (1, self.byte_at(so, k + i))))
            else:
                got.append((k - soff, c))
        self.clear_range(do, doff, n)
        dc = do.cells
        if so.zero:
            # fill unwritten source bytes with explicit zeros
            cov = bytearray(n)
            for k, c in got:
                for i in range(c[0]):
                    cov[k + i] = 1
            for i in range(n):
                if not cov[i]:
                    dc[doff + i] = (1, 0)
        for k, c in got:
            dc[doff + k] = c
        return d

    def memset(self, d, v, n):
        n = self.cint(n)
        if n == 0:
            return d
        d = self.cptr(d, n)
        o, off = self.obj_at(d, n, "write")
        self.clear_range(o, off, n)
        if type(v) is int:
            v &= 255
        else:
            v = c_trunc(v, 32, 8) if isinstance(v, z3.BitVecRef) and v.size() > 8 else v
        k = 0
        if type(v) is int and off % 8 == 0:
            w = v * 0x0101010101010101
            while k + 8 <= n:
                o.cells[off + k] = (8, w)
                k += 8
        while k < n:
            o.cells[off + k] = (1, v)
            k += 1
        return d

    def cint(self, x):
        """concrete integer, forking over the feasible values of a symbolic one"""
        if type(x) is int:
            return x
        if type(x) is bool:
            return int(x)
        if isinstance(x, z3.BitVecRef):
            return self.concretise(x)
        raise Unsupported("integer expected, got %s" % type(x).__name__)

    def cptr(self, x, size):
        if type(x) is int:
            return x
        if not isinstance(x, z3.BitVecRef):
            raise Unsupported("pointer is a %s" % type(x).__name__)
        return self.concretise(x)

    def concretise(self, x, limit=None):
        y = x
        if self.known:
            y = z3.simplify(z3.substitute(y, *self.known))
        while not z3.is_bv_value(y):
            c = find_condition(y)
            if c is None:
                break
            self.known.append((c, z3.BoolVal(self.br(c))))
            y = z3.simplify(z3.substitute(y, self.known[-1]))
        if z3.is_bv_value(y):
            return y.as_long()
        v = self.enumerate_values(
            lambda m: m.eval(y, model_completion=True).as_long(),
            lambda v: y == v, limit or self.opts.get("enum_limit", 600))
        self.known.append((y, z3.BitVecVal(v, y.size())))
        return v

    def enumerate_values(self, evalm, constraint, limit):
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            if d[0] == "n":
                self.trace.append(d)
                self.add(constraint(d[1]))
                return d[1]
            excl = d[1]
        else:
            excl = []
        if len(excl) > limit:
            raise Unsupported("more than %d feasible values for a symbolic index" % limit)
        cs = [z3.Not(constraint(v)) for v in excl]
        r, m = self.check(cs)
        if r == z3.unsat:
            raise PathEnd("infeasible")
        if m is None:
            raise Unsupported("solver could not enumerate a symbolic value")
        v = evalm(m)
        if self.check(cs + [z3.Not(constraint(v))], self.opts.get("feas_ms", 5000))[0] != z3.unsat:
            self.alternatives.append(self.trace + [("x", excl + [v])])
        self.trace.append(("n", v))
        self.add(constraint(v))
        return v

    # ------------------------------------------------------------ solver
    def add(self, c):
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        self.solver.add(c)
        self.pc.append(c)

    def check(self, extra, timeout=None):
        s = self.solver
        t0 = time.time()
        if timeout:
            s.set("timeout", timeout)
        s.push()
        try:
            for c in extra:
                s.add(zb(c))
            r = s.check()
            m = s.model() if r == z3.sat else None
        except z3.Z3Exception as e:
            r, m = z3.unknown, None
        finally:
            s.pop()
            if timeout:
                s.set("timeout", self.timeout)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        return r, m

    def br(self, c):
        """decide a branch; forks when both sides are feasible"""
        if type(c) is bool:
            return c
        if isinstance(c, z3.BitVecRef):
            c = foldb(c == 1)
        elif type(c) is int:
            return bool(c)
        else:
            c = foldb(c)
        if type(c) is bool:
            return c
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            self.add(c if d[1] else z3.Not(c))
            return d[1]
        self.stats.feas += 1
        rt, _ = self.check([c], self.opts.get("feas_ms", 5000))
        if rt == z3.unsat:
            self.trace.append(("b", False))
            self.add(z3.Not(c))
            return False
        rf, _ = self.check([z3.Not(c)], self.opts.get("feas_ms", 5000))
        if rf == z3.unsat:
            self.trace.append(("b", True))
            self.add(c)
            return True
        self.alternatives.append(self.trace + [("b", False)])
        self.trace.append(("b", True))
        self.add(c)
        return True

    def brv(self, c):
        return c if type(c) is bool else self.br(c)

    def tick(self):
        self.fuel += 1
        if self.fuel > self.fuel_max:
            raise Event("fuel", "loop bound of %d back-edges exceeded" % self.fuel_max)

    def select(self, c, a, b, kind, w):
        if isinstance(c, z3.BitVecRef):
            c = foldb(c == 1)
        if type(c) is bool:
            return a if c else b
        if a is b:
            return a
        if kind == "i":
            if type(a) is int and type(b) is int and a == b:
                return a
            if w == 1:
                return foldb(z3.If(c, zb(a), zb(b)))
            if isinstance(a, (int, z3.BitVecRef)) and isinstance(b, (int, z3.BitVecRef)) and \
                    not (type(a) is int and a >= 1 << 32 and w == 64):
                return fold(z3.If(c, bv(a, w), bv(b, w)))
        if kind == "f" and self.mode == "fp":
            return fpfold(z3.If(c, fz(a), fz(b)))
        return a if self.br(c) else b

    def undef_i(self, w):
        self.nundef += 1
        self.undef_used = True
        if w == 1:
            return z3.Bool("undef!%d" % self.nundef)
        return z3.BitVec("undef!%d" % self.nundef, w)

    def undef_f(self):
        self.nundef += 1
        self.undef_used = True
        if self.mode == "fp":
            return z3.FP("undef!%d" % self.nundef, F64)
        return self.new_real("undef!%d" % self.nundef, None, None)

    # ------------------------------------------------------------ reals
    def new_real(self, name, lo, hi):
        i = len(poly.VARNAMES)
        poly.VARNAMES.append(name)
        z = z3.Real(name)
        self.varz.append(z)
        self.varpos.append(lo is not None and lo > 0)
        self.varrange.append((lo, hi))
        if lo is not None:
            self.add(z >= zq(lo))
        if hi is not None:
            self.add(z <= zq(hi))
        return Poly({((i, 1),): 1})

    def z_of(self, a):
        """z3 real term of a value, together with inverse variables when exponents are negative"""
        if type(a) is Fraction:
            return zq(a)
        if type(a) is float:
            raise Unsupported("infinity/NaN in a query")
        k = id(a)
        c = self.zcache.get(k)
        if c is not None and c[0] is a:
            return c[1]
        ts = []
        for m, co in a.t.items():
            fs = []
            if co != 1 or not m:
                fs.append(zq(co))
            for v, e in m:
                z = self.varz[v] if e > 0 else self.inv_of(v)
                fs.extend([z] * abs(e))
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t)
        z = z3.Sum(ts) if len(ts) > 1 else ts[0]
        self.zcache[k] = (a, z)
        return z

    def inv_of(self, v):
        k = ("inv", v)
        z = self.divmemo.get(k)
        if z is None:
            z = z3.Real("inv!" + poly.VARNAMES[v])
            self.divmemo[k] = z
            self.add(z * self.varz[v] == 1)
        return z

    def z_sign(self, d):
        """a z3 term with the same sign as the Laurent polynomial d (denominators cleared)"""
        low = {}
        for m in d.t:
            for v, e in m:
                if e < 0:
                    low[v] = min(low.get(v, 0), e)
        if low:
            f = []
            for v, e in low.items():
                n = -e
                if not self.varpos[v] and n % 2:
                    n += 1
                f.append((v, n))
            d = poly.mul(d, Poly({tuple(sorted(f)): 1}))
            if type(d) is Fraction:
                return zq(d)
        # factor out common positive monomial and the content
        common = None
        for m in d.t:
            dm = {v: e for v, e in m if self.varpos[v]}
            if common is None:
                common = dm
            else:
                common = {v: min(e, dm[v]) for v, e in common.items() if v in dm}
            if not common:
                break
        if common:
            d = poly.mul(d, Poly({tuple(sorted((v, -e) for v, e in common.items())): 1}))
            if type(d) is Fraction:
                return zq(d)
        return self.z_of(d)

    def rdiv(self, a, b):
        q = poly.div_exact(a, b)
        if q is not None:
            # b must be non-zero on this path
            if not self.surely_nonzero(b):
                if self.br(self.z_sign(b) == 0 if type(b) is Poly else b == 0):
                    raise Event("fpdiv", "floating-point division by zero")
            return q
        if self.br(self.z_sign(b) == 0):
            raise Event("fpdiv", "floating-point division by zero")
        k = ("q", b.key())
        r = self.divmemo.get(k)
        if r is None:
            # reciprocal variable: b * r = 1
            r = self.new_real("recip!%d" % len(poly.VARNAMES), None, None)
            self.add(self.z_of(b) * self.z_of(r) == 1)
            self.divmemo[k] = r
        return poly.mul(a, r)

    def surely_nonzero(self, b):
        if type(b) is Fraction:
            return b != 0
        if len(b.t) == 1:
            (m, c), = b.t.items()
            return all(self.varpos[v] for v, _ in m)
        return False

    def round32(self, a):
        e = self.new_real("f32err!%d" % len(poly.VARNAMES), Fraction(-1, 1 << 24), Fraction(1, 1 << 24))
        return poly.mul(a, poly.add(Fraction(1), e))

    def m_sqrt(self, a):
        if self.mode == "fp":
            if type(a) is float:
                return math.sqrt(a) if a >= 0 else math.nan
            return fpfold(z3.fpSqrt(RNE, a))
        if type(a) is float:
            return a
        if type(a) is Fraction:
            if a < 0:
                return math.nan
            n = math.isqrt(a.numerator)
            d = math.isqrt(a.denominator)
            if n * n == a.numerator and d * d == a.denominator:
                return Fraction(n, d)
        else:
            if self.br(self.z_sign(a) < 0):
                return math.nan
        k = a if type(a) is Fraction else a.key()
        r = self.sqrtmemo.get(k)
        if r is None:
            r = self.new_real("sqrt!%d" % len(poly.VARNAMES), None, None)
            v = list(r.t)[0][0][0]
            poly.SQUARES[v] = a
            z = self.varz[v]
            self.add(z >= 0)
            self.add(z * z == self.z_of(a))
            self.sqrtmemo[k] = r
        return r

    def m_fabs(self, a):
        if self.mode == "fp":
            return abs(a) if type(a) is float else fpfold(z3.fpAbs(a))
        if type(a) in (Fraction, float):
            return abs(a)
        return poly.neg(a) if self.br(self.z_sign(a) < 0) else a

    def m_fma(self, a, b, c):
        ns = self.ns
        if self.mode == "fp":
            if type(a) is float and type(b) is float and type(c) is float:
                return float(Fraction(a) * Fraction(b) + Fraction(c))
            return fpfold(z3.fpFMA(RNE, fz(a), fz(b), fz(c)))
        return ns["fadd"](ns["fmul"](a, b), c)

    def m_powi(self, a, n):
        n = sgn(self.cint(n), 32)
        return self.ipow(a, n)

    def ipow(self, a, n):
        ns = self.ns
        r = self.fc(1.0)
        for _ in range(abs(n)):
            r = ns["fmul"](r, a)
        return ns["fdiv"](self.fc(1.0), r) if n < 0 else r

    def m_pow(self, a, b):
        if self.mode == "fp":
            if type(a) is float and type(b) is float:
                return math.pow(a, b)
            raise Unsupported("pow on IEEE terms")
        if type(b) is Fraction:
            if b.denominator == 1 and abs(b) <= 16:
                return self.ipow(a, int(b))
            if b == Fraction(1, 2):
                return self.m_sqrt(a)
            if type(a) is Fraction:
                return dconst(math.pow(float(a), float(b)))
        raise Unsupported("pow with a symbolic exponent")

    def _libm(self, f, a):
        if type(a) is Fraction:
            return self.fc(f(float(a)))
        if type(a) is float:
            return self.fc(f(a))
        k = (f.__name__, a.key() if type(a) is Poly else a)
        if self.mode == "fp":
            raise Unsupported("libm function on an IEEE term")
        r = self.divmemo.get(k)
        if r is None:
            lo, hi = (-1, 1) if f.__name__ in ("sin", "cos") else (None, None)
            r = self.new_real("%s!%d" % (f.__name__, len(poly.VARNAMES)), lo, hi)
            self.divmemo[k] = r
        return r

    def m_atan(self, a):
        return self._libm(math.atan, a)

    def angle(self, a):
        """(s, c, n): a = n times an angle whose sine and cosine are s and c"""
        n = 1
        if len(a.t) == 1:
            (m, c), = a.t.items()
            q = float(c) / math.pi
            r = round(q)
            if r and abs(r) <= 8 and abs(q - r) < 1e-12:
                n, a = r, poly.scale(a, Fraction(1) / r)
                a = Poly({m: Fraction(math.pi)})
        if n == 1:
            m = min(a.t)
            if a.t[m] < 0:
                n, a = -1, poly.neg(a)
        k = ("angle", a.key())
        r = self.divmemo.get(k)
        if r is None:
            s = self.new_real("sin!%d" % len(poly.VARNAMES), Fraction(-1), Fraction(1))
            c = self.new_real("cos!%d" % len(poly.VARNAMES), Fraction(-1), Fraction(1))
            poly.SQUARES[list(c.t)[0][0][0]] = poly.sub(Fraction(1), poly.mul(s, s))
            zs, zc = self.z_of(s), self.z_of(c)
            self.add(zs * zs + zc * zc == 1)
            r = self.divmemo[k] = (s, c)
        return r[0], r[1], n

    def m_sin(self, a):
        return self.sincos(a, 0)

    def m_cos(self, a):
        return self.sincos(a, 1)

    def sincos(self, a, which):
        if type(a) is not Poly:
            return self._libm(math.cos if which else math.sin, a)
        s, c, n = self.angle(a)
        ps, pc = Fraction(0), Fraction(1)
        for _ in range(abs(n)):
            ps, pc = poly.add(poly.mul(ps, c), poly.mul(pc, s)), poly.sub(poly.mul(pc, c), poly.mul(ps, s))
        if which:
            return pc
        return ps if n > 0 else poly.neg(ps)

    def m_tan(self, a):
        return self._libm(math.tan, a)

    def m_exp(self, a):
        if type(a) is not Poly:
            return self._libm(math.exp, a)
        r = Fraction(1)
        for m, c in sorted(a.t.items()):
            if not m:
                r = poly.mul(r, self.fc(math.exp(float(c))))
                continue
            k = ("exp", m, abs(c))
            e = self.divmemo.get(k)
            if e is None:
                e = self.new_real("exp!%d" % len(poly.VARNAMES), None, None)
                v = list(e.t)[0][0][0]
                self.varpos[v] = True
                self.add(self.varz[v] > 0)
                self.divmemo[k] = e
            r = poly.mul(r, e if c > 0 else poly.inv_mono(e))
        return r

    def m_log(self, a):
        return self._libm(math.log, a)

    def m_acos(self, a):
        return self._libm(math.acos, a)

    def m_asin(self, a):
        return self._libm(math.asin, a)

    def m_cbrt(self, a):
        return self._libm(math.cbrt, a)

    def m_atan2(self, a, b):
        if type(a) in (Fraction, float) and type(b) in (Fraction, float):
            return self.fc(math.atan2(float(a), float(b)))
        raise Unsupported("atan2")

    def m_hypot(self, a, b, c=None):
        ns = self.ns
        s = ns["fadd"](ns["fmul"](a, a), ns["fmul"](b, b))
        if c is not None:
            s = ns["fadd"](s, ns["fmul"](c, c))
        if self.mode == "fp":
            raise Unsupported("hypot on IEEE terms")
        return self.m_sqrt(s)

    def m_fmin(self, a, b):
        if self.mode == "fp":
            if type(a) is float and type(b) is float:
                return b if a != a else (a if b != b else min(a, b))
            return fpfold(z3.fpMin(fz(a), fz(b)))
        c = self.ns["fcmp"]("olt", a, b)
        return a if self.br(c) else b

    def m_fmax(self, a, b):
        if self.mode == "fp":
            if type(a) is float and type(b) is float:
                return b if a != a else (a if b != b else max(a, b))
            return fpfold(z3.fpMax(fz(a), fz(b)))
        c = self.ns["fcmp"]("ogt", a, b)
        return a if self.br(c) else b

    def m_copysign(self, a, b):
        if type(a) in (float, Fraction) and type(b) in (float, Fraction):
            return self.fc(math.copysign(float(a), float(b)))
        if self.mode == "fp":
            raise Unsupported("copysign")
        m = self.m_fabs(a)
        return poly.neg(m) if self.br(self.ns["fcmp"]("olt", b, Fraction(0))) else m

    def fround(self, kind, a):
        if self.mode == "fp":
            if type(a) is float:
                if a != a or a in (INF, -INF):
                    return a
                return float({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round, "nearbyint": round,
                              "roundeven": round, "round": lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)}[kind](a))
            rm = {"floor": z3.RTN(), "ceil": z3.RTP(), "trunc": z3.RTZ(), "rint": RNE, "nearbyint": RNE, "roundeven": RNE,
                  "round": z3.RNA()}[kind]
            return fpfold(z3.fpRoundToIntegral(rm, a))
        if type(a) is float:
            return a
        if type(a) is Fraction:
            return Fraction(rround(kind, a))
        return Fraction(self.enum_round(kind, a))

    def enum_round(self, kind, a):
        k = ("round", kind, a.key())
        r = self.divmemo.get(k)
        if r is not None:
            return r
        za = self.z_of(a)

        def con(n):
            if kind == "floor":
                return z3.And(za >= n, za < n + 1)
            if kind == "ceil":
                return z3.And(za > n - 1, za <= n)
            if kind == "trunc":
                if n == 0:
                    return z3.And(za > -1, za < 1)
                return z3.And(za >= n, za < n + 1) if n > 0 else z3.And(za > n - 1, za <= n)
            h = z3.Q(1, 2)
            return z3.And(za >= n - h, za <= n + h) if kind != "round" else (
                z3.And(za >= n - h, za < n + h) if n > 0 else z3.And(za > n - h, za <= n + h) if n < 0 else
                z3.And(za > n - h, za < n + h))

        def ev(m):
            return rround(kind, zval(m.eval(za, model_completion=True)))
        r = self.enumerate_values(ev, con, self.opts.get("enum_limit", 600))
        self.divmemo[k] = r
        return r

    def fptoint(self, a, w, signed):
        if self.mode == "fp" and isinstance(a, z3.FPRef):
            return fold(z3.fpToSBV(z3.RTZ(), a, z3.BitVecSort(w)) if signed else z3.fpToUBV(z3.RTZ(), a, z3.BitVecSort(w)))
        if type(a) is float:
            if a != a or a in (INF, -INF):
                raise Event("ub", "conversion of a non-finite value to integer")
            n = math.trunc(a)
        elif type(a) is Fraction:
            n = math.trunc(a)
        else:
            n = self.enum_round("trunc", a)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, MASK[w])
        if not lo <= n <= hi:
            raise Event("ub", "floating-point value %d does not fit the integer type" % n)
        return n & MASK[w]

    def inttofp(self, a, w, signed):
        if type(a) is bool:
            a = int(a)
        if type(a) is int:
            n = sgn(a, w) if signed else a
            return float(n) if self.mode == "fp" else Fraction(n)
        if isinstance(a, z3.BoolRef):
            a = z3.If(a, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if not isinstance(a, z3.BitVecRef):
            raise Unsupported("inttofp")
        if self.mode == "fp":
            return fpfold(z3.fpSignedToFP(RNE, a, F64) if signed else z3.fpUnsignedToFP(RNE, a, F64))
        n = self.concretise(a, self.opts.get("enum_limit", 600))
        return Fraction(sgn(n, w) if signed else n)

    def lround(self, a, w):
        return self.fptoint(self.fround("round", a), w, True)

    def lrint(self, a, w):
        return self.fptoint(self.fround("rint", a), w, True)

    def fpclass(self, a, mask):
        # bits: 1 2 nan, 4 -inf, 8 -normal, 16 -subnormal, 32 -0, 64 +0, 128 +subnormal, 256 +normal, 512 +inf
        mask = self.cint(mask)
        if type(a) is Fraction or type(a) is Poly:
            # over the reals: negative (8), zero (32 or 64), positive (256)
            neg, zero, pos = bool(mask & 8), bool(mask & 96), bool(mask & 256)
            if neg == zero == pos:
                return neg
            c = []
            if neg:
                c.append("olt")
            if zero:
                c.append("oeq")
            if pos:
                c.append("ogt")
            return any(self.br(self.ns["fcmp"](k, a, Fraction(0))) for k in c)
        if type(a) is float:
            if a != a:
                return bool(mask & 3)
            minus = math.copysign(1.0, a) < 0
            if a in (INF, -INF):
                k = 4 if minus else 512
            elif a == 0:
                k = 32 if minus else 64
            elif abs(a) < 2.2250738585072014e-308:
                k = 16 if minus else 128
            else:
                k = 8 if minus else 256
            return bool(mask & k)
        e = []
        if mask & 3:
            e.append(z3.fpIsNaN(a))
        for m, p, t in ((4, 512, z3.fpIsInf), (8, 256, z3.fpIsNormal), (16, 128, z3.fpIsSubnormal), (32, 64, z3.fpIsZero)):
            if mask & m and mask & p:
                e.append(t(a))
            elif mask & m:
                e.append(z3.And(t(a), z3.fpIsNegative(a)))
            elif mask & p:
                e.append(z3.And(t(a), z3.fpIsPositive(a)))
        return foldb(z3.Or(*e)) if e else False

    # ------------------------------------------------------------ misc integer
    def minmax(self, kind, a, b, w):
        lt = (iult if kind[0] == "u" else islt)(a, b, w)
        x, y = (a, b) if kind.endswith("min") else (b, a)
        if type(lt) is bool:
            return x if lt else y
        return self.select(lt, x, y, "i", w)

    def iabs(self, a, w):
        if type(a) is int:
            return abs(sgn(a, w)) & MASK[w]
        return fold(z3.If(a < 0, -a, a))

    def ovf(self, kind, a, b, w):
        op = kind[1:]
        r = {"add": i_add, "sub": i_sub, "mul": i_mul}[op](a, b, w)
        if type(a) is int and type(b) is int:
            x, y = (sgn(a, w), sgn(b, w)) if kind[0] == "s" else (a, b)
            t = {"add": x + y, "sub": x - y, "mul": x * y}[op]
            o = not (-(1 << (w - 1)) <= t < (1 << (w - 1))) if kind[0] == "s" else not (0 <= t <= MASK[w])
            return (r, o)
        e = w * 2 if op == "mul" else w + 1
        ext = z3.SignExt if kind[0] == "s" else z3.ZeroExt
        x = ext(e - w, bv(a, w))
        y = ext(e - w, bv(b, w))
        t = x + y if op == "add" else x - y if op == "sub" else x * y
        return (r, foldb(t != ext(e - w, bv(r, w))))

    def sat(self, kind, a, b, w):
        if kind == "usub":
            return self.select(iult(a, b, w), 0, i_sub(a, b, w), "i", w)
        r = i_add(a, b, w)
        return self.select(iult(r, a, w), MASK[w], r, "i", w)

    def bits(self, kind, a, w):
        a = self.cint(a)
        if kind == "ctpop":
            return bin(a).count("1")
        if kind == "ctlz":
            return w - a.bit_length()
        if kind == "cttz":
            return (a & -a).bit_length() - 1 if a else w
        return int.from_bytes(a.to_bytes(w // 8, "little"), "big")

    def fsh(self, kind, a, b, c, w):
        a, b, c = self.cint(a), self.cint(b), self.cint(c) % w
        x = (a << w) | b
        return ((x >> (w - c)) if kind == "fshl" else (x >> c)) & MASK[w]

    def nsw(self, op, a, b, w):
        if not self.opts.get("check_overflow"):
            return
        x, y = bv(a, w), bv(b, w)
        if op == "+":
            ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
        elif op == "-":
            ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
        else:
            ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
        ok = foldb(ok)
        if ok is True:
            return
        if self.br(z3.Not(ok)):
            raise Event("ub", "signed integer overflow")

    # ------------------------------------------------------------ aggregates
    def insval(self, v, x, ix):
        l = list(v)
        l[ix[0]] = x if len(ix) == 1 else self.insval(l[ix[0]], x, ix[1:])
        return tuple(l)

    def shuf(self, a, b, ix):
        n = len(a)
        return tuple(a[i] if i < n else b[i - n] for i in ix)

    def vec2(self, f, a, b):
        return tuple(f(x, y) for x, y in zip(a, b))

    def vec1(self, f, a):
        return tuple(f(x) for x in a)

    # ------------------------------------------------------------ control
    def unreachable(self, fn):
        raise Event("ub", "reached unreachable code in " + fn)

    def trap(self):
        raise Event("ub", "trap")

    def asm(self):
        pass

    def icall(self, p, args):
        p = self.cint(p)
        f = self.prog.function_at(p)
        if f is None:
            raise Event("memory", "call through an invalid function pointer")
        return self.ns[f](*args)

    def landingpad(self):
        e = self.cur_exc
        return (e.obj, self.eh_typeid(e.tinfo))

    def resume(self):
        raise self.cur_exc

    def eh_typeid(self, t):
        return (t >> 32) & 0x7fffffff if t else 0

    # ------------------------------------------------------------ strings
    def cstr(self, p, n=None):
        p = self.cint(p)
        out = bytearray()
        while n is None or len(out) < n:
            c = self.load(p + len(out), 1)
            if c is None:
                c = self.undef_i(8)
            c = self.cint(c)
            if n is None and c == 0:
                break
            out.append(c)
        return bytes(out).decode("latin1")

    def new_cstr(self, s):
        o = self.new_obj(len(s) + 1, "global")
        for i, ch in enumerate(s.encode("latin1") + b"\0"):
            o.cells[i] = (1, ch)
        return (o.id << 32) | BASE


def rround(kind, a):
    if kind == "floor":
        return math.floor(a)
    if kind == "ceil":
        return math.ceil(a)
    if kind == "trunc":
        return math.trunc(a)
    if kind == "round":
        return math.floor(abs(a) + Fraction(1, 2)) * (1 if a >= 0 else -1)
    return round(a)


def zq(c):
    if type(c) is int:
        return z3.RealVal(c)
    if type(c) is Fraction:
        return z3.Q(c.numerator, c.denominator) if c.denominator != 1 else z3.RealVal(c.numerator)
    return z3.RealVal(str(c))


def zval(v):
    """z3 numeral -> Fraction"""
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        w = v.approx(60)
        return Fraction(w.numerator_as_long(), w.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    raise Unsupported("model value %s" % v)


def c_fptosi(a, w1, w2):
    return R.fptoint(a, w2, True)


def c_fptoui(a, w1, w2):
    return R.fptoint(a, w2, False)


def c_sitofp(a, w1, w2):
    return R.inttofp(a, w1, True)


def c_uitofp(a, w1, w2):
    return R.inttofp(a, w1, False)


def c_bitcast(a, t1, t2):
    if t1[0] == t2[0]:
        return a
    if t1[0] == "f" and t2[0] == "i":
        if type(a) is float and R.mode == "fp":
            return R.float_bits(a)
        return a if not isinstance(a, z3.FPRef) else z3.fpToIEEEBV(a)
    if t1[0] == "i" and t2[0] == "f":
        if type(a) is int:
            return R.bits_to_f(a, t2[1] // 8)
        if isinstance(a, z3.BitVecRef) and R.mode == "fp":
            return z3.fpBVToFP(a, F64)
        return a
    raise Unsupported("bitcast")


def load_i(p, size):
    if type(p) is int:
        o = R.objs.get(p >> 32)
        if o is not None:
            c = o.cells.get((p & 0xffffffff) - BASE)
            if c is not None and c[0] == size and type(c[1]) is int:
                return c[1]
    return R.load_i(p, size)


def load_f(p, size):
    return R.load_f(p, size)


def store(p, v, size):
    R.store(p, v, size)


OPS_COMMON = {k: v for k, v in list(globals().items()) if callable(v) and (
    k[:2] in ("i_", "s_", "b_", "c_") or k in ("ieq", "ine", "iult", "iule", "iugt", "iuge", "islt", "isle", "isgt", "isge",
                                               "gep", "gep0", "load_i", "load_f", "store", "CxxThrow"))}
OPS_REAL = dict(fadd=r_add, fsub=r_sub, fmul=r_mul, fdiv=r_div, frem=r_frem, fneg=r_neg, fcmp=r_cmp, f_trunc32=r_trunc32)
OPS_FP = dict(fadd=p_add, fsub=p_sub, fmul=p_mul, fdiv=p_div, frem=p_frem, fneg=p_neg, fcmp=p_cmp, f_trunc32=p_trunc32)
