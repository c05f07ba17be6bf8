"""Models of the C and C++ runtime functions that the repository calls."""
import math
from fractions import Fraction

import z3

import poly
import rt
from rt import Event, PathEnd, Unsupported, CxxThrow, MASK, sgn, BASE
from poly import Poly


def install(P):
    B = P.builtins

    def reg(*names):
        def d(f):
            for n in names:
                B[n] = f
            return f
        return d

    # ------------------------------------------------ allocation
    @reg("_Znwm", "_ZnwmRKSt9nothrow_t")
    def _new(R, n, *a):
        return R.malloc(n, "new")

    @reg("_Znam", "_ZnamRKSt9nothrow_t")
    def _newa(R, n, *a):
        return R.malloc(n, "new[]")

    @reg("_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t")
    def _del(R, p, *a):
        R.free(p, "new")

    @reg("_ZdaPv", "_ZdaPvm")
    def _dela(R, p, *a):
        R.free(p, "new[]")

    @reg("malloc")
    def _malloc(R, n):
        return R.malloc(n, "malloc")

    @reg("calloc")
    def _calloc(R, n, s):
        t = R.cint(n) * R.cint(s)
        p = R.malloc(t, "malloc")
        R.memset(p, 0, t)
        return p

    @reg("free")
    def _free(R, p):
        R.free(p, "malloc")

    # ------------------------------------------------ memory / strings
    @reg("memcpy", "memmove")
    def _memcpy(R, d, s, n):
        return R.memcpy(d, s, n)

    @reg("memset")
    def _memset(R, d, v, n):
        return R.memset(d, v, n)

    @reg("strlen")
    def _strlen(R, p):
        return len(R.cstr(p))

    def cmpbytes(R, a, b, n, stop0):
        n = R.cint(n) if n is not None else None
        i = 0
        while n is None or i < n:
            if n is not None and n - i >= 8 and not stop0:
                try:
                    p, q = R.load(a + i, 8), R.load(b + i, 8)
                except Unsupported:
                    p = q = None
                if any(type(v) in (Poly, Fraction) or isinstance(v, z3.FPRef) for v in (p, q)) and p is not None and q is not None:
                    # doubles: equal bytes means equal numbers (zeros of both signs are one number here)
                    p, q = R.load_f(a + i, 8), R.load_f(b + i, 8)
                    if not R.br(R.ns["fcmp"]("oeq", p, q)):
                        return 1
                    i += 8
                    continue
            x = R.load_i(a + i, 1)
            y = R.load_i(b + i, 1)
            if type(x) is int and type(y) is int:
                if x != y:
                    return 1 if x > y else MASK[32]
                if stop0 and x == 0:
                    return 0
            else:
                x, y = R.cint(x), R.cint(y)
                if x != y:
                    return 1 if x > y else MASK[32]
                if stop0 and x == 0:
                    return 0
            i += 1
        return 0

    @reg("memcmp", "bcmp")
    def _memcmp(R, a, b, n):
        return cmpbytes(R, R.cint(a), R.cint(b), n, False)

    @reg("strcmp")
    def _strcmp(R, a, b):
        return cmpbytes(R, R.cint(a), R.cint(b), None, True)

    @reg("strncmp")
    def _strncmp(R, a, b, n):
        return cmpbytes(R, R.cint(a), R.cint(b), n, True)

    @reg("strcpy", "stpcpy")
    def _strcpy(R, d, p):
        s = R.cstr(p)
        for i, ch in enumerate(s.encode("latin1") + b"\0"):
            R.store(R.cint(d) + i, ch, 1)
        return d

    @reg("strncpy")
    def _strncpy(R, d, p, n):
        n = R.cint(n)
        s = R.cstr(p).encode("latin1")[:n]
        for i, ch in enumerate(s + bytes(n - len(s))):
            R.store(R.cint(d) + i, ch, 1)
        return d

    @reg("strcat")
    def _strcat(R, d, p):
        d = R.cint(d)
        e = d + len(R.cstr(d))
        for i, ch in enumerate(R.cstr(p).encode("latin1") + b"\0"):
            R.store(e + i, ch, 1)
        return d

    @reg("strcasecmp")
    def _strcasecmp(R, a, b):
        x, y = R.cstr(a).lower(), R.cstr(b).lower()
        return 0 if x == y else 1 if x > y else MASK[32]

    @reg("strstr")
    def _strstr(R, a, b):
        i = R.cstr(a).find(R.cstr(b))
        return 0 if i < 0 else R.cint(a) + i

    @reg("memchr")
    def _memchr(R, p, c, n):
        p = R.cint(p)
        c = R.cint(c) & 255
        for i in range(R.cint(n)):
            if R.cint(R.load_i(p + i, 1)) == c:
                return p + i
        return 0

    @reg("strchr")
    def _strchr(R, p, c):
        p = R.cint(p)
        c = R.cint(c) & 255
        while True:
            x = R.cint(R.load_i(p, 1))
            if x == c:
                return p
            if x == 0:
                return 0
            p += 1

    # ------------------------------------------------ math
    for n in ("floor", "ceil", "trunc", "rint", "nearbyint", "round"):
        B[n] = (lambda k: lambda R, a: R.fround(k, a))(n)
        B[n + "f"] = B[n]
    for n in ("sqrt", "fabs", "atan", "sin", "cos", "tan", "exp", "log", "acos", "asin", "cbrt"):
        B[n] = (lambda k: lambda R, a: getattr(R, "m_" + k)(a))(n)
        B[n + "f"] = B[n]
    B["pow"] = lambda R, a, b: R.m_pow(a, b)
    B["hypot"] = lambda R, a, b: R.m_hypot(a, b)
    B["fmin"] = lambda R, a, b: R.m_fmin(a, b)
    B["fmax"] = lambda R, a, b: R.m_fmax(a, b)
    B["fma"] = lambda R, a, b, c: R.m_fma(a, b, c)
    B["copysign"] = lambda R, a, b: R.m_copysign(a, b)
    B["atan2"] = lambda R, a, b: R.m_atan2(a, b)
    B["lround"] = lambda R, a: R.lround(a, 64)
    B["lrint"] = lambda R, a: R.lrint(a, 64)
    B["fmod"] = lambda R, a, b: R.ns["frem"](a, b)
    B["abs"] = lambda R, a: R.iabs(a, 32)
    B["labs"] = lambda R, a: R.iabs(a, 64)
    B["llabs"] = B["labs"]
    B["llround"] = B["lround"]
    B["llrint"] = B["lrint"]

    @reg("modf")
    def _modf(R, a, p):
        w = R.fround("trunc", a)
        R.store(p, w, 8)
        return R.ns["fsub"](a, w)

    @reg("remainder")
    def _remainder(R, a, b):
        q = R.fround("rint", R.ns["fdiv"](a, b))
        return R.ns["fsub"](a, R.ns["fmul"](q, b))

    @reg("fdim")
    def _fdim(R, a, b):
        z = R.fc(0.0)
        return R.ns["fsub"](a, b) if R.br(R.ns["fcmp"]("ogt", a, b)) else z

    @reg("ldexp", "scalbn")
    def _ldexp(R, a, n):
        return R.ns["fmul"](a, R.fc(math.ldexp(1.0, sgn(R.cint(n), 32))))

    # time and environment: any fixed answer will do, the checked properties do not depend on it
    for n in ("_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv", "clock", "rand"):
        B[n] = lambda R: 0

    @reg("gettimeofday")
    def _gtod(R, tv, tz):
        if R.cint(tv):
            R.store(tv, 0, 8)
            R.store(R.cint(tv) + 8, 0, 8)
        return 0

    @reg("time")
    def _time(R, p):
        if R.cint(p):
            R.store(p, 0, 8)
        return 0
    B["getenv"] = lambda R, p: 0
    B["sysconf"] = lambda R, n: 8
    B["sched_getcpu"] = lambda R: 0

    # ------------------------------------------------ C++ runtime
    B["__cxa_atexit"] = lambda R, *a: 0
    B["__cxa_thread_atexit"] = lambda R, *a: 0
    B["_ZNSt8ios_base4InitC1Ev"] = lambda R, p: None
    B["_ZNSt8ios_base4InitD1Ev"] = lambda R, p: None

    @reg("__cxa_guard_acquire")
    def _ga(R, p):
        return 0 if R.load_i(p, 1) else 1

    @reg("__cxa_guard_release")
    def _gr(R, p):
        R.store(p, 1, 1)

    B["__cxa_guard_abort"] = lambda R, p: None

    @reg("__cxa_allocate_exception")
    def _cae(R, n):
        return R.malloc(n, "exc")

    @reg("__cxa_throw")
    def _throw(R, obj, tinfo, dtor):
        raise CxxThrow(obj, tinfo)

    B["__cxa_free_exception"] = lambda R, p: None
    B["__cxa_begin_catch"] = lambda R, p: p
    B["__cxa_end_catch"] = lambda R: None

    @reg("__cxa_rethrow")
    def _rethrow(R):
        raise R.cur_exc

    @reg("_ZSt9terminatev", "abort", "__cxa_call_unexpected", "__clang_call_terminate", "__cxa_pure_virtual",
         "__cxa_call_terminate")
    def _term(R, *a):
        raise Event("abort", "program terminates abnormally")

    @reg("_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc",
         "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv",
         "_ZSt24__throw_invalid_argumentPKc", "_ZSt25__throw_bad_function_callv", "_ZSt16__throw_bad_castv",
         "_ZSt20__throw_system_errori", "_ZSt18__throw_bad_cast")
    def _thr(R, *a):
        raise Event("throw", "the C++ library throws an exception")

    @reg("exit", "_exit", "_Exit")
    def _exit(R, c):
        R.exit_code = R.cint(c)
        raise PathEnd("exit")

    @reg("__assert_fail")
    def _af(R, e, *a):
        raise Event("abort", "assertion failed: " + R.cstr(e))

    # std::string(const char*) etc. come from the instantiated library module

    # ------------------------------------------------ red-black tree (as an unbalanced search tree; same ordering)
    # node: color@0, parent@8, left@16, right@24 ; header is a node
    L = lambda R, p: R.load_i(p, 8)

    @reg("_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS0_")
    def _ins(R, left, x, p, h):
        left = R.br(left)
        R.store(x + 8, p, 8)
        R.store(x + 16, 0, 8)
        R.store(x + 24, 0, 8)
        R.store(x, 1, 4)
        if left:
            R.store(p + 16, x, 8)
            if p == h:
                R.store(h + 8, x, 8)
                R.store(h + 24, x, 8)
            elif p == L(R, h + 16):
                R.store(h + 16, x, 8)
        else:
            R.store(p + 24, x, 8)
            if p == L(R, h + 24):
                R.store(h + 24, x, 8)

    def incr(R, x):
        r = L(R, x + 24)
        if r:
            x = r
            while L(R, x + 16):
                x = L(R, x + 16)
            return x
        y = L(R, x + 8)
        while x == L(R, y + 24):
            x = y
            y = L(R, y + 8)
        return y if L(R, x + 24) != y else x

    def decr(R, x):
        # header: parent(parent) == x and red (color 0)
        if R.load_i(x, 4) == 0 and L(R, L(R, x + 8) + 8) == x:
            return L(R, x + 24)
        l = L(R, x + 16)
        if l:
            x = l
            while L(R, x + 24):
                x = L(R, x + 24)
            return x
        y = L(R, x + 8)
        while x == L(R, y + 16):
            x = y
            y = L(R, y + 8)
        return y

    for n in ("_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base"):
        B[n] = lambda R, x: incr(R, R.cint(x))
    for n in ("_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base"):
        B[n] = lambda R, x: decr(R, R.cint(x))

    @reg("_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_", "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS0_")
    def _erase(R, z, h):
        z, h = R.cint(z), R.cint(h)
        nxt, prv = incr(R, z), decr(R, z)
        first, last = L(R, h + 16) == z, L(R, h + 24) == z

        def put(old, new):
            p = L(R, old + 8)
            if L(R, h + 8) == old:
                R.store(h + 8, new, 8)
            elif L(R, p + 16) == old:
                R.store(p + 16, new, 8)
            else:
                R.store(p + 24, new, 8)
            if new:
                R.store(new + 8, p, 8)
        l, r = L(R, z + 16), L(R, z + 24)
        if not l or not r:
            put(z, l or r)
        else:
            y = nxt
            if y != r:
                put(y, L(R, y + 24))
                R.store(y + 24, r, 8)
                R.store(r + 8, y, 8)
            put(z, y)
            R.store(y + 16, l, 8)
            R.store(l + 8, y, 8)
        if not L(R, h + 8):
            R.store(h + 16, h, 8)
            R.store(h + 24, h, 8)
        else:
            if first:
                R.store(h + 16, nxt, 8)
            if last:
                R.store(h + 24, prv, 8)
        return z

    # ------------------------------------------------ hash tables (bucket counts; order of iteration is not the library's)
    def next_bkt(R, p, n):
        n = R.cint(n)
        q = 1 if n == 0 else max(2, n)
        while q > 2 and any(q % d == 0 for d in range(2, int(math.isqrt(q)) + 1)):
            q += 1
        R.store(p + 8, q, 8)
        return q
    B["_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"] = next_bkt

    @reg("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm")
    def _need(R, p, nb, ne, ni):
        nb, ne, ni = R.cint(nb), R.cint(ne), R.cint(ni)
        lim = R.cint(R.load_i(p + 8, 8))
        if ne + ni > lim:
            m = max(ne + ni, 0 if lim else 11)
            if m >= nb:
                return (1, next_bkt(R, p, max(m + 1, nb * 2)))
            R.store(p + 8, nb, 8)
        return (0, 0)

    @reg("_ZSt11_Hash_bytesPKvmm")
    def _hash(R, p, n, seed):
        h = (R.cint(seed) ^ 0xcbf29ce484222325) & MASK[64]
        p = R.cint(p)
        for i in range(R.cint(n)):
            h = ((h ^ R.cint(R.load_i(p + i, 1))) * 0x100000001b3) & MASK[64]
        return h

    # ------------------------------------------------ lists: next@0, prev@8
    LN = "_ZNSt8__detail15_List_node_base"

    @reg(LN + "7_M_hookEPS0_")
    def _hook(R, x, pos):
        prev = L(R, pos + 8)
        R.store(x, pos, 8)
        R.store(x + 8, prev, 8)
        R.store(prev, x, 8)
        R.store(pos + 8, x, 8)

    @reg(LN + "9_M_unhookEv")
    def _unhook(R, x):
        n, p = L(R, x), L(R, x + 8)
        R.store(p, n, 8)
        R.store(n + 8, p, 8)

    @reg(LN + "11_M_transferEPS0_S1_")
    def _transfer(R, pos, first, last):
        if pos == last:
            return
        lp, fp, pp = L(R, last + 8), L(R, first + 8), L(R, pos + 8)
        R.store(lp, pos, 8)
        R.store(fp, last, 8)
        R.store(pp, first, 8)
        R.store(pos + 8, lp, 8)
        R.store(last + 8, fp, 8)
        R.store(first + 8, pp, 8)

    # ------------------------------------------------ text to number (concrete text)
    def parse(R, p, pat):
        import re
        s = R.cstr(p)
        m = re.match(r"\s*" + pat, s)
        return (m.group(0), m.end()) if m else ("0", 0)

    @reg("strtol", "__isoc23_strtol", "strtoll", "__isoc23_strtoll", "strtoul", "__isoc23_strtoul")
    def _strtol(R, p, end, base):
        t, n = parse(R, p, r"[-+]?\d+")
        if R.cint(base) not in (0, 10):
            raise Unsupported("strtol base")
        if R.cint(end):
            R.store(end, p + n, 8)
        return int(t) & MASK[64]

    @reg("strtod")
    def _strtod(R, p, end):
        t, n = parse(R, p, r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?")
        if R.cint(end):
            R.store(end, p + n, 8)
        return float(t) if R.mode == "fp" else Fraction(float(t))

    B["atoi"] = lambda R, p: int(parse(R, p, r"[-+]?\d+")[0]) & MASK[32]
    B["atof"] = lambda R, p: _strtod(R, p, 0)

    @reg("__errno_location")
    def _errno(R):
        a = R.callback_state.get("errno")
        if a is None:
            o = R.new_obj(8, "global", True)
            a = R.callback_state["errno"] = (o.id << 32) | BASE
        return a
