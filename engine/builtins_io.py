"""Model of the output streams the repository uses: what is written to which file, as a sequence of items.

A stream is an object whose vtable says where its ios_base lies; formatting state (flags, precision, width) lives in that
ios_base at libstdc++'s offsets, so the header-inline manipulators work on it unchanged.  A file is a list of items:
('c', char) for text and ('n', value, precision, flags) for a number.
"""
import re
from fractions import Fraction

import poly
import z3
from rt import BASE, MASK, Obj, PathEnd, Unsupported, sgn, zq

F_PREC, F_WIDTH, F_FLAGS, F_EXC, F_STATE = 8, 16, 24, 28, 32
SIZE_OF = 512
DEC = 2


def vtable(R, off):
    key = ("vt", off)
    a = R.callback_state.get(key)
    if a is None:
        o = R.new_obj(64, "global", True)
        a = (o.id << 32) | BASE
        R.store(a, off, 8)
        R.callback_state[key] = a
    return a + 24


def make_stream(R, p, off, dest):
    R.store(p, vtable(R, off), 8)
    ios = p + off
    R.store(ios + F_PREC, 6, 8)
    R.store(ios + F_WIDTH, 0, 8)
    R.store(ios + F_FLAGS, 0x1002, 4)
    R.store(ios + F_EXC, 0, 4)
    R.store(ios + F_STATE, 0, 4)
    R.streams[p] = [dest, off]


def ios_of(R, p):
    s = R.streams.get(p)
    if s is not None:
        return p + s[1]
    return None


def emit(R, p, items):
    s = R.streams.get(p)
    if s is None or s[0] is None:
        return
    ios = p + s[1]
    w = R.cint(R.load_i(ios + F_WIDTH, 8))
    if R.cint(R.load_i(ios + F_STATE, 4)):
        return
    f = R.files.get(s[0])
    if f is None:
        return
    if w > 1:
        f.append(("c", " "))
    R.store(ios + F_WIDTH, 0, 8)
    f.extend(items)


def number(R, p, v):
    s = R.streams.get(p)
    if s is None or s[0] is None:
        return
    ios = p + s[1]
    prec = R.cint(R.load_i(ios + F_PREC, 8))
    flags = R.cint(R.load_i(ios + F_FLAGS, 4))
    emit(R, p, [("n", v, sgn(prec, 64), flags)])


def decode(R, s):
    """characters to items; a number that passed through a string is a token \x01<number>\x02"""
    out = []
    i = 0
    while i < len(s):
        if s[i] == "\x01":
            j = s.index("\x02", i)
            out.append(R.callback_state["tokens"][int(s[i + 1:j])])
            i = j + 1
        else:
            out.append(("c", s[i]))
            i += 1
    return out


def encode(R, items):
    out = []
    for it in items:
        if it[0] == "c":
            out.append(it[1])
        else:
            t = R.callback_state.setdefault("tokens", [])
            t.append(it)
            out.append("\x01%d\x02" % (len(t) - 1))
    return "".join(out)


def put_bytes(R, a, s):
    for i, ch in enumerate(s):
        R.store(a + i, ord(ch), 1)


def make_string(R, p, s):
    n = len(s)
    a = p + 16 if n < 16 else R.malloc(n + 1, "new")
    put_bytes(R, a, s + "\0")
    R.store(p, a, 8)
    R.store(p + 8, n, 8)


def std_string(R, p):
    return R.cstr(R.load_i(p, 8), R.cint(R.load_i(p + 8, 8)))


def cformat(R, fmt, args):
    """printf formatting to items"""
    out = []
    args = list(args)
    i = 0
    while i < len(fmt):
        if fmt[i] != "%":
            out.append(("c", fmt[i]))
            i += 1
            continue
        m = re.match(r"%([-+ #0]*)(\*|\d*)(?:\.(\*|\d*))?(hh|h|ll|l|z|j|t|L)?([diuxXcsfFeEgG%])", fmt[i:])
        if m is None:
            raise Unsupported("printf format " + fmt)
        i += m.end()
        flags, width, prec, ln, conv = m.groups()
        if conv == "%":
            out.append(("c", "%"))
            continue
        if width == "*":
            width = R.cint(args.pop(0))
        if prec == "*":
            prec = R.cint(args.pop(0))
        width = int(width or 0)
        v = args.pop(0)
        if conv == "s":
            out += decode(R, R.cstr(v))
        elif conv == "c":
            out.append(("c", chr(R.cint(v) & 255)))
        elif conv in "diuxX":
            w = 64 if ln in ("l", "ll", "z", "j", "t") else 32
            out += [("c", " ")] * (width > 1) + [("n", R.inttofp(v, w, conv in "di"), 6, 0x1002 if conv in "diu" else 8)]
        else:
            pr = 6 if prec is None else int(prec or 0)
            out += [("c", " ")] * (width > 1) + [("n", v, pr, {"f": 4, "e": 0x100, "g": 0}[conv.lower()])]
    return out


def install(P):
    B = P.builtins

    def reg(*names):
        def d(f):
            for n in names:
                B[n] = f
            return f
        return d

    OFS = "_ZNSt14basic_ofstreamIcSt11char_traitsIcEE"

    def opened(R, p, name, mode):
        mode = R.cint(mode)
        if mode & 1 or mode & 2:  # app / ate: keep what is there
            R.files.setdefault(name, [])
        else:
            R.files[name] = []
        make_stream(R, p, 248, name)
        R.callback_state.setdefault("opens", []).append(name)

    @reg(OFS + "C1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode")
    def _ofs_s(R, p, s, mode):
        n = R.cint(R.load_i(s + 8, 8))
        opened(R, p, R.cstr(R.load_i(s, 8), n), mode)

    @reg(OFS + "C1EPKcSt13_Ios_Openmode")
    def _ofs_c(R, p, s, mode):
        opened(R, p, R.cstr(s), mode)

    @reg(OFS + "C1Ev")
    def _ofs_0(R, p):
        make_stream(R, p, 248, None)

    @reg(OFS + "4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode")
    def _open_s(R, p, s, mode):
        n = R.cint(R.load_i(s + 8, 8))
        opened(R, p, R.cstr(R.load_i(s, 8), n), mode)

    @reg(OFS + "4openEPKcSt13_Ios_Openmode")
    def _open_c(R, p, s, mode):
        opened(R, p, R.cstr(s), mode)

    @reg(OFS + "5closeEv")
    def _close(R, p):
        s = R.streams.get(p)
        if s is not None:
            if s[0] is None:
                R.store(p + s[1] + F_STATE, 4, 4)
            s[0] = None

    @reg(OFS + "D1Ev", OFS + "D2Ev")
    def _dtor(R, p, *a):
        R.streams.pop(p, None)

    B[OFS + "7is_openEv"] = B["_ZNKSt14basic_ofstreamIcSt11char_traitsIcEE7is_openEv"] = \
        lambda R, p: 1 if R.streams.get(p, [None])[0] is not None else 0

    @reg("_ZNSo9_M_insertIdEERSoT_", "_ZNSolsEd", "_ZNSolsEf")
    def _ins_d(R, p, v):
        number(R, p, v)
        return p

    def ins_int(w, signed):
        def f(R, p, v):
            number(R, p, R.inttofp(v, w, signed))
            return p
        return f
    for n, w, s in (("_ZNSolsEi", 32, True), ("_ZNSolsEj", 32, False), ("_ZNSolsEl", 64, True), ("_ZNSolsEm", 64, False),
                    ("_ZNSolsEs", 16, True), ("_ZNSolsEx", 64, True), ("_ZNSolsEy", 64, False),
                    ("_ZNSo9_M_insertIlEERSoT_", 64, True), ("_ZNSo9_M_insertImEERSoT_", 64, False),
                    ("_ZNSolsEb", 1, False), ("_ZNSo9_M_insertIbEERSoT_", 1, False)):
        B[n] = ins_int(w, s)

    def text(R, p, s):
        emit(R, p, decode(R, s))

    @reg("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc")
    def _ins_s(R, p, s):
        text(R, p, R.cstr(s))
        return p

    @reg("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", "_ZNSo3putEc")
    def _ins_c(R, p, c):
        text(R, p, chr(R.cint(c) & 255))
        return p

    @reg("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", "_ZNSo5writeEPKcl")
    def _ins_n(R, p, s, n):
        text(R, p, R.cstr(s, R.cint(n)))
        return p

    @reg("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE")
    def _ins_str(R, p, s):
        text(R, p, R.cstr(R.load_i(s, 8), R.cint(R.load_i(s + 8, 8))))
        return p

    @reg("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_")
    def _endl(R, p):
        text(R, p, "\n")
        return p

    @reg("_ZSt5flushIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", "_ZNSo5flushEv")
    def _flush(R, p):
        return p

    def manip(field, size, name):
        def f(R, p, v):
            ios = ios_of(R, p)
            if ios is not None:
                if field == F_FLAGS:
                    v = R.cint(R.load_i(ios + F_FLAGS, 4)) | R.cint(v)
                R.store(ios + field, sgn(R.cint(v), 32) & MASK[8 * size], size)
            return p
        B["_ZStlsIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_St" + name] = f
    manip(F_WIDTH, 8, "5_Setw")
    manip(F_PREC, 8, "13_Setprecision")
    manip(F_FLAGS, 4, "12_Setiosflags")

    @reg("_ZNSolsEPFRSoS_E")
    def _manip(R, p, f):
        fn = P.function_at(R.cint(f))
        if fn is None:
            raise Unsupported("stream manipulator")
        return R.ns[fn](p)

    @reg("_ZNSolsEPFRSt8ios_baseS0_E", "_ZNSolsEPFRSt9basic_iosIcSt11char_traitsIcEES3_E")
    def _manip_ios(R, p, f):
        fn = P.function_at(R.cint(f))
        ios = ios_of(R, p)
        if fn is None:
            raise Unsupported("stream manipulator")
        if ios is not None:
            R.ns[fn](ios)
        return p

    # ---- string streams: (ostream subobject, ios_base offset from it, buffer offset)
    for cls, sub, ios, buf in (("19basic_ostringstream", 0, 112, 8), ("18basic_stringstream", 16, 112, 8)):
        N = "NSt7__cxx11%sIcSt11char_traitsIcESaIcEE" % cls

        def fresh(R, p, sub, ios, buf, txt=""):
            if sub:
                R.store(p, vtable(R, sub + ios), 8)
            q = p + sub
            R.files[("ss", q)] = decode(R, txt)
            make_stream(R, q, ios, ("ss", q))
            R.callback_state.setdefault("bufs", {})[q + buf] = ("ss", q)
        B["_Z" + N + "C1Ev"] = (lambda s, i, b: lambda R, p: fresh(R, p, s, i, b))(sub, ios, buf)
        B["_Z" + N + "C1ESt13_Ios_Openmode"] = (lambda s, i, b: lambda R, p, m: fresh(R, p, s, i, b))(sub, ios, buf)

        def from_str(R, p, st, m, sub=sub, ios=ios, buf=buf):
            if not R.cint(m) & 3 and std_string(R, st):
                raise Unsupported("string stream that overwrites its initial text")
            fresh(R, p, sub, ios, buf, std_string(R, st))
        B["_Z" + N + "C1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode"] = from_str
        B["_Z" + N + "D1Ev"] = B["_Z" + N + "D2Ev"] = (lambda s: lambda R, p, *a: R.streams.pop(p + s, None))(sub)
        B["_ZNK" + N[1:] + "3strEv"] = (lambda s: lambda R, out, p: make_string(R, out, encode(R, R.files[("ss", p + s)])))(sub)
        B["_ZNK" + N[1:] + "5rdbufEv"] = (lambda s, b: lambda R, p: p + s + b)(sub, buf)

        def set_str(R, p, st, sub=sub):
            R.files[("ss", p + sub)] = decode(R, std_string(R, st))
        B["_Z" + N + "3strERKNS_12basic_stringIcS2_S3_EE"] = set_str

    @reg("_ZNSolsEPSt15basic_streambufIcSt11char_traitsIcEE")
    def _ins_buf(R, p, b):
        k = R.callback_state.get("bufs", {}).get(R.cint(b))
        if k is None:
            raise Unsupported("stream buffer")
        emit(R, p, list(R.files[k]))
        return p

    # ---- fstream used for output
    FS = "_ZNSt13basic_fstreamIcSt11char_traitsIcEE"

    def fs_open(R, p, name, mode):
        R.store(p, vtable(R, 264), 8)
        if name is None:
            make_stream(R, p + 16, 248, None)
        else:
            if not R.cint(mode) & 16:
                raise Unsupported("file opened for reading")
            opened(R, p + 16, name, mode)
    B[FS + "C1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode"] = lambda R, p, s, m: fs_open(R, p, std_string(R, s), m)
    B[FS + "4openERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode"] = B[FS + "C1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode"]
    B[FS + "C1EPKcSt13_Ios_Openmode"] = B[FS + "4openEPKcSt13_Ios_Openmode"] = lambda R, p, s, m: fs_open(R, p, R.cstr(s), m)
    B[FS + "C1Ev"] = lambda R, p: fs_open(R, p, None, 0)
    B[FS + "5closeEv"] = lambda R, p: B[OFS + "5closeEv"](R, p + 16)
    B[FS + "D1Ev"] = B[FS + "D2Ev"] = lambda R, p, *a: R.streams.pop(p + 16, None)
    B[FS + "7is_openEv"] = B["_ZNKSt13basic_fstreamIcSt11char_traitsIcEE7is_openEv"] = \
        lambda R, p: 1 if R.streams.get(p + 16, [None])[0] is not None else 0

    # ---- C output
    @reg("remove", "unlink")
    def _remove(R, name):
        return 0 if R.files.pop(R.cstr(name), None) is not None else 0xffffffff

    @reg("fopen", "fopen64")
    def _fopen(R, name, mode):
        m = R.cstr(mode)
        n = R.cstr(name)
        if m[0] == "r":
            raise Unsupported("file opened for reading")
        if m[0] == "w":
            R.files[n] = []
        else:
            R.files.setdefault(n, [])
        p = R.malloc(8, "FILE")
        R.callback_state.setdefault("FILE", {})[p] = n
        return p

    @reg("fclose")
    def _fclose(R, f):
        R.callback_state["FILE"].pop(R.cint(f))
        R.free(f, "FILE")
        return 0

    def cfile(R, f, items):
        n = R.callback_state.get("FILE", {}).get(R.cint(f))
        if n is not None:
            R.files[n].extend(items)
        return 1
    B["fprintf"] = lambda R, f, fmt, *a: cfile(R, f, cformat(R, R.cstr(fmt), a))
    B["fputs"] = lambda R, s, f: cfile(R, f, decode(R, R.cstr(s)))
    B["fputc"] = B["putc"] = lambda R, ch, f: cfile(R, f, [("c", chr(R.cint(ch) & 255))])
    B["fwrite"] = lambda R, s, n, m, f: (cfile(R, f, decode(R, R.cstr(s, R.cint(n) * R.cint(m)))), m)[1]
    B["fflush"] = lambda R, f: 0
    B["printf"] = B["puts"] = B["putchar"] = lambda R, *a: 1

    @reg("snprintf")
    def _snprintf(R, buf, n, fmt, *a):
        s = encode(R, cformat(R, R.cstr(fmt), a))
        n = R.cint(n)
        if n and len(s) + 1 > n:
            raise Unsupported("snprintf into a buffer that may be too small")
        if n:
            put_bytes(R, buf, s + "\0")
        return len(s)

    @reg("sprintf")
    def _sprintf(R, buf, fmt, *a):
        s = encode(R, cformat(R, R.cstr(fmt), a))
        put_bytes(R, buf, s + "\0")
        return len(s)

    @reg("_ZN9__gnu_cxx12__to_xstringINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEcEET_PFiPT0_mPKS8_P13__va_list_tagEmSB_z")
    def _xstring(R, out, f, n, fmt, *a):
        make_string(R, out, encode(R, cformat(R, R.cstr(fmt), a)))

    IOS = "_ZNKSt9basic_iosIcSt11char_traitsIcEE"
    B[IOS + "cvbEv"] = B[IOS + "4goodEv"] = lambda R, ios: 1 if R.cint(R.load_i(ios + F_STATE, 4)) == 0 else 0
    B[IOS + "ntEv"] = B[IOS + "4failEv"] = B[IOS + "3badEv"] = lambda R, ios: 1 if R.cint(R.load_i(ios + F_STATE, 4)) else 0
    B["_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate"] = lambda R, ios, s: R.store(ios + F_STATE, R.cint(s), 4)

    # ---- what the harness asks about a written file
    @reg("vf_file_open")
    def _fo(R, name):
        n = R.cstr(name)
        f = R.files.get(n)
        if any(s[0] == n for s in R.streams.values()):
            pass  # still open: the data may sit in a buffer, but it is written when the stream goes away
        R.callback_state["reading"] = [list(f or []), 0]
        return 0 if f is None else 1

    @reg("vf_file_char")
    def _fc(R):
        r = R.callback_state["reading"]
        if r[1] >= len(r[0]):
            return MASK[32]
        it = r[0][r[1]]
        if it[0] != "c":
            return MASK[32]
        r[1] += 1
        return ord(it[1])

    @reg("vf_file_end")
    def _fe(R):
        r = R.callback_state["reading"]
        return 1 if r[1] >= len(r[0]) else 0

    @reg("vf_file_real")
    def _fr(R, want, msg):
        r = R.callback_state["reading"]
        # a number next to a number, or anything that is not a number, cannot be read back
        it = r[0][r[1]] if r[1] < len(r[0]) else ("c", "end")
        nx = r[0][r[1] + 1] if r[1] + 1 < len(r[0]) else ("c", "\n")
        if it[0] != "n" or nx[0] == "n":
            R.pending.append(("c", False, None, msg))
            flush = R.flush_pending
            flush(R)
            raise PathEnd("assume")
        r[1] += 1
        v, prec, flags = it[1], it[2], it[3]
        if flags & 0x48:  # oct, hex
            R.pending.append(("c", False, None, msg))
            return
        if not (flags & 4) and (prec >= 6 or (flags & 0x100 and prec >= 5)):
            R.pending.append(("eq", v, want, msg))
            return
        if flags & 4 and prec >= 10 and R.cfg.get("fixed10"):  # asked for to ten decimals
            R.pending.append(("eq", v, want, msg))
            return
        if flags & 4 and type(v) is not float and type(want) is not float:
            # the printed number is the nearest multiple of 10^-prec
            u = 10 ** max(prec, 0)
            if type(v) is Fraction:
                x = zq(Fraction(round(v * u), u))
            else:
                k = z3.Int("print!%d" % len(R.pc))
                zv = R.z_of(v) * zq(Fraction(u))
                R.add(z3.And(z3.ToReal(k) - zv <= zq(Fraction(1, 2)), zv - z3.ToReal(k) <= zq(Fraction(1, 2))))
                x = z3.ToReal(k) / zq(Fraction(u))
            w = R.z_of(want)
            c, r = zq(Fraction(2, 10 ** 10) if R.cfg.get("fixed10") else Fraction(2, 10 ** 12)), zq(Fraction(1, 10 ** 5))
            R.pending.append(("c", z3.And(z3.Or(x - w <= r * w + c, x - w <= c - r * w),
                                          z3.Or(w - x <= r * w + c, w - x <= c - r * w)), None, msg))
            return
        if flags & 4:
            e = Fraction(1, 2 * 10 ** max(prec, 0))
            x = poly.add(v, R.new_real("print!%d" % len(poly.VARNAMES), -e, e))
        else:
            e = Fraction(1, 2 * 10 ** max(prec - (0 if flags & 0x100 else 1), 0))
            x = poly.mul(v, poly.add(Fraction(1), R.new_real("print!%d" % len(poly.VARNAMES), -e, e)))
        aw = R.m_fabs(want)
        tol = poly.add(poly.mul(aw, Fraction(1, 10 ** 5)), Fraction(1, 10 ** 12))
        R.pending.append(("le", poly.sub(x, want), tol, msg))
        R.pending.append(("le", poly.sub(want, x), tol, msg))


def cout_object(R, s):
    """std::cout and friends: a stream whose output goes nowhere"""
    o = Obj(s.id, SIZE_OF, "extern", True)
    R.objs[s.id] = o
    p = (s.id << 32) | BASE
    make_stream(R, p, 8, None)
    return o
