"""Exact Laurent polynomials over the rationals: the canonical form of every symbolic
`double` in real-arithmetic mode.  A constant is a fractions.Fraction; everything else is a Poly.
Monomials are tuples ((var, exp), ...) sorted by var, exp a non-zero integer (may be negative)."""
from fractions import Fraction
import struct

_mulcache = {}


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = _mulcache.get(k)
    if r is not None:
        return r
    d = dict(a)
    for v, e in b:
        n = d.get(v, 0) + e
        if n:
            d[v] = n
        else:
            del d[v]
    r = tuple(sorted(d.items()))
    if len(_mulcache) > 2000000:
        _mulcache.clear()
    _mulcache[k] = r
    return r


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_h")

    def __init__(self, t):
        self.t = t
        self._h = None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items(), key=lambda kv: kv[0]))
        return self._h

    def __repr__(self):
        return "Poly(%s)" % pstr(self)


def mk(t):
    """dict -> Fraction when constant, else Poly"""
    if not t:
        return Fraction(0)
    if len(t) == 1 and () in t:
        return Fraction(t[()])
    return Poly(t)


def terms(a):
    if type(a) is Poly:
        return a.t
    return {(): norm(a)} if a else {}


def add(a, b):
    if type(a) is Fraction:
        if type(b) is Fraction:
            return a + b
        a, b = b, a
    # a is Poly
    if type(b) is Fraction:
        if not b:
            return a
        t = dict(a.t)
        n = norm(t.get((), 0) + b)
        if n:
            t[()] = n
        else:
            t.pop((), None)
        return mk(t)
    x, y = a.t, b.t
    if len(x) < len(y):
        x, y = y, x
    t = dict(x)
    for m, c in y.items():
        o = t.get(m)
        if o is None:
            t[m] = c
        else:
            n = o + c
            if n:
                t[m] = norm(n)
            else:
                del t[m]
    return mk(t)


def neg(a):
    if type(a) is Fraction:
        return -a
    return Poly({m: -c for m, c in a.t.items()})


def sub(a, b):
    if type(a) is Fraction and type(b) is Fraction:
        return a - b
    return add(a, neg(b))


def scale(a, k):
    if not k:
        return Fraction(0)
    k = norm(k)
    if k == 1:
        return a
    return Poly({m: norm(c * k) for m, c in a.t.items()})


# var -> Poly/Fraction: the square of an auxiliary square-root variable
SQUARES = {}


def mul(a, b):
    if type(a) is Fraction:
        if type(b) is Fraction:
            return a * b
        return scale(b, a)
    if type(b) is Fraction:
        return scale(a, b)
    x, y = a.t, b.t
    if len(x) < len(y):
        x, y = y, x
    t = {}
    get = t.get
    for m2, c2 in y.items():
        if m2 == ():
            for m1, c1 in x.items():
                o = get(m1)
                t[m1] = c1 * c2 if o is None else o + c1 * c2
        else:
            for m1, c1 in x.items():
                m = mono_mul(m1, m2)
                o = get(m)
                t[m] = c1 * c2 if o is None else o + c1 * c2
    t = {m: norm(c) for m, c in t.items() if c}
    r = mk(t)
    if SQUARES and type(r) is Poly:
        r = reduce_squares(r)
    return r


def reduce_squares(p):
    while True:
        hit = None
        for m in p.t:
            for v, e in m:
                if e >= 2 and v in SQUARES:
                    hit = v
                    break
            if hit is not None:
                break
        if hit is None:
            return p
        out = Fraction(0)
        sq = SQUARES[hit]
        keep = {}
        for m, c in p.t.items():
            d = dict(m)
            e = d.get(hit, 0)
            if e < 2:
                keep[m] = c
                continue
            d.pop(hit)
            if e % 2:
                d[hit] = 1
            base = mk({tuple(sorted(d.items())): c})
            f = Fraction(1)
            for _ in range(e // 2):
                f = mul(f, sq)
            out = add(out, mul(base, f))
        p = add(mk(keep), out)
        if type(p) is Fraction:
            return p


def inv_mono(a):
    """1/a when a is a single monomial, else None"""
    if type(a) is Fraction:
        return 1 / a if a else None
    if len(a.t) != 1:
        return None
    (m, c), = a.t.items()
    return mk({tuple((v, -e) for v, e in m): norm(Fraction(1) / c)})


def div_exact(a, b):
    """a / b when b divides a in one monomial or when a is a rational multiple of b; else None"""
    i = inv_mono(b)
    if i is not None:
        return mul(a, i)
    # rational / monomial multiple of b?
    if type(a) is Poly and len(a.t) == len(b.t):
        ka = sorted(a.t.items()); kb = sorted(b.t.items())
        r = Fraction(ka[0][1]) / kb[0][1]
        if all(x[0] == y[0] and x[1] == r * y[1] for x, y in zip(ka, kb)):
            return r
    q = poly_divide(a, b)
    return q


def poly_divide(a, b):
    """multivariate exact division (graded-lex on non-negative exponents); None when not exact"""
    if type(a) is Fraction:
        return Fraction(0) if not a else None
    if any(e < 0 for m in b.t for _, e in m) or len(b.t) > 12 or len(a.t) > 400:
        return None
    # shift a to non-negative exponents
    low = {}
    for m in a.t:
        for v, e in m:
            if e < 0:
                low[v] = min(low.get(v, 0), e)
    shift = mk({tuple(sorted((v, -e) for v, e in low.items())): 1})
    unshift = mk({tuple(sorted((v, e) for v, e in low.items())): 1})
    r = mul(a, shift)
    vs = sorted({v for m in list(terms(r)) + list(b.t) for v, _ in m})

    def key(m):
        d = dict(m)
        return (sum(d.values()), tuple(d.get(v, 0) for v in vs))
    lb = max(b.t, key=key)
    cb = b.t[lb]
    q = Fraction(0)
    steps = 0
    while True:
        tr = terms(r)
        if not tr:
            return mul(q, unshift)
        lr = max(tr, key=key)
        d = dict(lr)
        for v, e in lb:
            d[v] = d.get(v, 0) - e
            if d[v] < 0:
                return None
        m = tuple(sorted((v, e) for v, e in d.items() if e))
        t = mk({m: norm(Fraction(tr[lr]) / cb)})
        q = add(q, t)
        r = sub(r, mul(t, b))
        steps += 1
        if steps > 500:
            return None


VARNAMES = []


def pstr(a):
    if type(a) is Fraction:
        return str(a)
    out = []
    for m, c in sorted(a.t.items())[:12]:
        s = "*".join((VARNAMES[v] if v < len(VARNAMES) else "v%d" % v) + ("^%d" % e if e != 1 else "") for v, e in m)
        out.append("%s%s" % (c, ("*" + s) if s else ""))
    if len(a.t) > 12:
        out.append("... (%d terms)" % len(a.t))
    return " + ".join(out)


_rc = {}


def rational_of_double(x):
    """The simplest rational that rounds to the double x (so 0.1 -> 1/10, 1.0/3 -> 1/3)."""
    r = _rc.get(x)
    if r is not None:
        return r
    fx = Fraction(x)
    if fx.denominator <= 1 << 20 or fx == 0:
        _rc[x] = fx
        return fx
    bits = struct.unpack("<Q", struct.pack("<d", abs(x)))[0]
    lo = Fraction(struct.unpack("<d", struct.pack("<Q", bits - 1))[0])
    hi = struct.unpack("<d", struct.pack("<Q", bits + 1))[0]
    ax = abs(fx)
    if hi == float("inf"):
        _rc[x] = fx
        return fx
    lo = (lo + ax) / 2
    hi = (Fraction(hi) + ax) / 2
    s = simplest_between(lo, hi)
    # only accept a genuinely simpler number; otherwise the exact dyadic value
    if s.denominator < 10 ** 13:
        r = s
        try:
            if float(r) != abs(x):
                r = ax
        except OverflowError:
            r = ax
    else:
        r = ax
    if x < 0:
        r = -r
    _rc[x] = r
    return r


def simplest_between(lo, hi):
    """simplest rational in the open interval (lo, hi), 0 < lo < hi"""
    fl = lo.numerator // lo.denominator
    if fl + 1 < hi:
        return Fraction(fl + 1) if lo >= fl and fl != lo else (Fraction(fl + 1))
    if lo == fl:
        # need fl + 1/n < hi
        n = (1 / (hi - fl)).__floor__() + 1
        return fl + Fraction(1, n)
    r = simplest_between_closed(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


def simplest_between_closed(lo, hi):
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = simplest_between_closed(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r
