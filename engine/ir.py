"""LLVM-18 textual IR -> Python.  Parses modules lazily and compiles each function to a Python
function over symbolic values (see rt.py).  Pointers are plain 64-bit integers."""
import re

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")
|(?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<num>-?[0-9]+\.[0-9]+(?:e[-+]?[0-9]+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?[0-9]+)
|(?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
|(?P<attr>\#[0-9]+)
|(?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<word>[a-zA-Z_.][-a-zA-Z0-9_.]*)
|(?P<p>\.\.\.|[\[\](){}<>,=*:|])
)''', re.X)


class IRError(Exception):
    pass


class Toks:
    __slots__ = ("l", "i", "src")

    def __init__(self, s):
        self.src = s
        l = []
        pos = 0
        n = len(s)
        while pos < n:
            m = TOK.match(s, pos)
            if not m:
                if s[pos:].strip() == "" or s[pos:].lstrip().startswith(";"):
                    break
                raise IRError("tokenise: %r in %r" % (s[pos:pos + 20], s[:120]))
            if m.lastgroup == "p" and m.group("p") == ";":
                break
            l.append((m.lastgroup, m.group(m.lastgroup)))
            pos = m.end()
            if pos < n and s[pos:pos + 2] == " ;":
                break
        self.l = l
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.l[j] if j < len(self.l) else ("eof", "")

    def next(self):
        t = self.l[self.i]
        self.i += 1
        return t

    def accept(self, v):
        if self.i < len(self.l) and self.l[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        t = self.next()
        if t[1] != v:
            raise IRError("expected %r got %r in %r" % (v, t, self.src[:160]))

    def done(self):
        return self.i >= len(self.l)


VOID = ("v",)
PTR = ("p",)


def parse_type(t):
    k, v = t.next()
    if k == "word":
        if v == "void":
            r = VOID
        elif v == "ptr":
            r = PTR
            if t.peek()[1] == "addrspace":
                t.next(); t.expect("("); t.next(); t.expect(")")
        elif v[0] == "i" and v[1:].isdigit():
            r = ("i", int(v[1:]))
        elif v == "double":
            r = ("f", 64)
        elif v == "float":
            r = ("f", 32)
        elif v == "x86_fp80":
            r = ("f", 80)
        elif v in ("metadata", "label", "token", "half", "fp128", "opaque"):
            r = (v,)
        else:
            raise IRError("type %r in %r" % (v, t.src[:160]))
    elif v == "[":
        n = int(t.next()[1])
        t.expect("x")
        e = parse_type(t)
        t.expect("]")
        r = ("a", n, e)
    elif v == "{":
        fs = []
        while not t.accept("}"):
            fs.append(parse_type(t))
            t.accept(",")
        r = ("s", tuple(fs), False)
    elif v == "<":
        if t.accept("{"):
            fs = []
            while not t.accept("}"):
                fs.append(parse_type(t))
                t.accept(",")
            t.expect(">")
            r = ("s", tuple(fs), True)
        else:
            n = int(t.next()[1])
            t.expect("x")
            e = parse_type(t)
            t.expect(">")
            r = ("x", n, e)
    elif k == "loc":
        r = ("n", v)
    else:
        raise IRError("type tok %r in %r" % ((k, v), t.src[:160]))
    # function type suffix
    if t.peek()[1] == "(" and r[0] in "vpifsan" and t.peek()[0] == "p":
        save = t.i
        t.next()
        try:
            args = []
            va = False
            while not t.accept(")"):
                if t.accept("..."):
                    va = True
                else:
                    args.append(parse_type(t))
                t.accept(",")
            return ("fn", r, tuple(args), va)
        except IRError:
            t.i = save
    return r


PATTR = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone", "noalias", "signext", "zeroext", "returned",
         "immarg", "inreg", "nest", "swiftself", "swifterror", "noext", "nofree", "allocptr", "writable", "dead_on_unwind"}
PATTR_ARG = {"dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "elementtype", "align", "captures", "range",
             "inalloca", "nofpclass", "preallocated", "initializes"}


def skip_pattrs(t):
    info = {}
    while True:
        k, v = t.peek()
        if k == "word" and v in PATTR:
            t.next()
        elif k == "word" and v in PATTR_ARG:
            t.next()
            if t.peek()[1] == "(":
                depth = 0
                start = t.i
                while True:
                    x = t.next()[1]
                    if x == "(":
                        depth += 1
                    elif x == ")":
                        depth -= 1
                        if depth == 0:
                            break
                if v == "byval":
                    s = Toks("")
                    s.l = t.l[start + 1:t.i - 1]
                    info["byval"] = parse_type(s)
            elif v == "align":
                t.next()
        elif k == "str" or k == "attr":
            t.next()
        else:
            return info


FLAGS = {"nuw", "nsw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "nneg",
         "disjoint", "volatile", "atomic", "inrange", "samesign", "nusw"}


def skip_flags(t):
    s = set()
    while t.peek()[0] == "word" and t.peek()[1] in FLAGS:
        s.add(t.next()[1])
    return s


class Function:
    __slots__ = ("name", "mod", "header", "lines", "ret", "params", "vararg", "linkage", "py", "ninstr")


class Module:
    def __init__(self, path, prog):
        self.path = path
        self.prog = prog
        self.types = {}
        self.functions = {}
        self.globals = {}
        self.aliases = {}
        self.declared = set()
        self.ctors = []
        self._sz = {}
        self._read()

    def _read(self):
        text = open(self.path).read()
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            c = ln[:1]
            if c == "%":
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
                if m:
                    self.types[m.group(1)] = m.group(2)
            elif c == "@":
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
                name = m.group(1).strip('"')
                rest = m.group(2)
                if re.search(r'\balias\b', rest.split('"')[0].split("(")[0]):
                    self.aliases[name] = rest
                else:
                    self.globals[name] = rest
            elif ln.startswith("define"):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                f = Function()
                f.name = m.group(1).strip('"')
                f.mod = self
                f.header = ln
                f.py = None
                f.ret = None
                f.ninstr = 0
                w = ln.split()
                f.linkage = w[1] if w[1] in ("internal", "private", "linkonce_odr", "weak_odr", "linkonce", "weak",
                                             "available_externally") else "external"
                j = i + 1
                while lines[j] != "}":
                    j += 1
                f.lines = lines[i + 1:j]
                self.functions[f.name] = f
                i = j
            elif ln.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                self.declared.add(m.group(1).strip('"'))
            i += 1

    # ---- types
    def resolve(self, ty):
        while ty[0] == "n":
            d = self.types[ty[1]]
            if isinstance(d, str):
                if d.strip() == "opaque":
                    d = ("s", (), False)
                else:
                    d = parse_type(Toks(d))
                self.types[ty[1]] = d
            ty = d
        return ty

    def size_align(self, ty):
        r = self._sz.get(ty)
        if r:
            return r
        k = ty[0]
        if k == "i":
            b = (ty[1] + 7) // 8
            s = 1
            while s < b:
                s *= 2
            r = (s, min(s, 16))
        elif k == "p":
            r = (8, 8)
        elif k == "f":
            r = {32: (4, 4), 64: (8, 8), 80: (16, 16)}[ty[1]]
        elif k == "a":
            s, a = self.size_align(ty[2])
            r = (s * ty[1], a)
        elif k == "x":
            s, a = self.size_align(ty[2])
            r = (s * ty[1], s * ty[1])
        elif k == "s":
            off = 0
            al = 1
            for f in ty[1]:
                s, a = self.size_align(f)
                if ty[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        elif k == "n":
            r = self.size_align(self.resolve(ty))
        elif k == "fn":
            r = (8, 8)
        else:
            raise IRError("size of %r" % (ty,))
        self._sz[ty] = r
        return r

    def size(self, ty):
        return self.size_align(ty)[0]

    def field_off(self, ty, idx):
        off = 0
        for i, f in enumerate(ty[1]):
            s, a = self.size_align(f)
            if ty[2]:
                a = 1
            off = (off + a - 1) // a * a
            if i == idx:
                return off, f
            off += s
        raise IRError("field")

    def store_size(self, ty):
        ty = self.resolve(ty)
        if ty[0] == "i":
            return (ty[1] + 7) // 8
        return self.size(ty)

    # ---- constants
    def const(self, t, ty):
        """parse a constant of type ty; returns a Python *value* description: int, ('d',float), tuple, or None for undef"""
        k, v = t.next()
        rt = self.resolve(ty) if ty[0] == "n" else ty
        if k == "num":
            if rt[0] == "f":
                return ("d", parse_fp(v))
            return int(v) & ((1 << rt[1]) - 1) if rt[0] == "i" else int(v)
        if k == "str":
            return ("bytes", parse_cstr(v))
        if k == "glob":
            return self.prog.addr_of(self, v[1:].strip('"'))
        if v == "true":
            return 1
        if v == "false":
            return 0
        if v == "null":
            return 0
        if v in ("undef", "poison"):
            return ("undef", rt)
        if v == "zeroinitializer":
            return ("zero", rt)
        if v in ("[", "{"):
            close = "]" if v == "[" else "}"
            es = []
            while not t.accept(close):
                ety = parse_type(t)
                es.append((ety, self.const(t, ety)))
                t.accept(",")
            return ("agg", rt, es)
        if v == "<":
            br = t.accept("{")
            es = []
            while True:
                if br and t.accept("}"):
                    t.expect(">")
                    break
                if not br and t.accept(">"):
                    break
                ety = parse_type(t)
                es.append((ety, self.const(t, ety)))
                t.accept(",")
            return ("agg", rt, es)
        if v == "getelementptr":
            skip_flags(t)
            if t.peek()[1] == "inrange":
                t.next()
                while not t.accept(")"):
                    t.next()
            t.expect("(")
            bty = parse_type(t)
            t.expect(",")
            pty = parse_type(t)
            base = self.const(t, pty)
            idx = []
            while t.accept(","):
                skip_flags(t)
                ity = parse_type(t)
                x = self.const(t, ity)
                if x >= 1 << (ity[1] - 1):
                    x -= 1 << ity[1]
                idx.append(x)
            t.expect(")")
            off = 0
            cur = bty
            for n, x in enumerate(idx):
                if n == 0:
                    off += x * self.size(cur)
                else:
                    c = self.resolve(cur)
                    if c[0] == "s":
                        o, cur = self.field_off(c, x)
                        off += o
                    else:
                        off += x * self.size(c[2])
                        cur = c[2]
            return base + off
        if v in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast", "trunc"):
            t.expect("(")
            sty = parse_type(t)
            x = self.const(t, sty)
            t.expect("to")
            dty = parse_type(t)
            t.expect(")")
            if v == "trunc":
                x &= (1 << dty[1]) - 1
            return x
        if v in ("sub", "add"):
            skip_flags(t)
            t.expect("(")
            a = self.const(t, parse_type(t)); t.expect(",")
            b = self.const(t, parse_type(t)); t.expect(")")
            return (a - b if v == "sub" else a + b) & ((1 << rt[1]) - 1)
        if v in ("dso_local_equivalent", "no_cfi"):
            return self.const(t, ty)
        raise IRError("constant %r in %r" % (v, t.src[:200]))


def parse_fp(v):
    import struct
    if v.startswith("0x"):
        if v[2] in "KLMHR":
            if v[2] == "K":
                n = int(v[3:], 16)
                s = -1.0 if n >> 79 else 1.0
                e = (n >> 64) & 0x7fff
                m = n & ((1 << 64) - 1)
                return s * m * 2.0 ** (e - 16383 - 63) if m else 0.0
            raise IRError("fp const " + v)
        return struct.unpack("<d", struct.pack("<Q", int(v[2:], 16)))[0]
    return float(v)


def parse_cstr(v):
    s = v[2:-1] if v[0] == "c" else v[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


ICMP = {"eq": "ieq", "ne": "ine", "ult": "iult", "ule": "iule", "ugt": "iugt", "uge": "iuge", "slt": "islt", "sle": "isle",
        "sgt": "isgt", "sge": "isge"}
BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor"}
FBIN = {"fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "fptrunc", "fpext", "bitcast", "ptrtoint", "inttoptr",
         "addrspacecast"}


class Codegen:
    """One LLVM function -> Python source."""

    def __init__(self, f):
        self.f = f
        self.m = f.mod
        self.prog = f.mod.prog
        self.vars = {}
        self.out = []
        self.tmp = 0

    def var(self, name):
        r = self.vars.get(name)
        if r is None:
            r = "v%d" % len(self.vars)
            self.vars[name] = r
        return r

    # constant description -> python expression string
    def cexpr(self, c, ty):
        rt = self.m.resolve(ty) if ty[0] == "n" else ty
        if isinstance(c, int):
            if rt == ("i", 1):
                return "True" if c else "False"
            return repr(c)
        if c[0] == "d":
            return self.prog.fconst(c[1])
        if c[0] == "undef":
            return self.undef(rt)
        if c[0] == "zero":
            return self.zero(rt)
        if c[0] == "agg":
            return "(" + "".join(self.cexpr(v, t) + "," for t, v in c[2]) + ")"
        if c[0] == "bytes":
            return "(" + "".join("%d," % b for b in c[1]) + ")"
        raise IRError("cexpr")

    def undef(self, rt):
        rt = self.m.resolve(rt)
        if rt[0] == "s":
            return "(" + "".join(self.undef(x) + "," for x in rt[1]) + ")"
        if rt[0] in "ax":
            return "(" + "".join(self.undef(rt[2]) + "," for _ in range(rt[1])) + ")"
        if rt[0] == "f":
            return "R.undef_f()"
        if rt[0] == "p":
            return "R.undef_i(64)"
        return "R.undef_i(%d)" % rt[1]

    def zero(self, rt):
        rt = self.m.resolve(rt)
        if rt[0] == "s":
            return "(" + "".join(self.zero(x) + "," for x in rt[1]) + ")"
        if rt[0] in "ax":
            return "(" + "".join(self.zero(rt[2]) + "," for _ in range(rt[1])) + ")"
        if rt[0] == "f":
            return self.prog.fconst(0.0)
        if rt == ("i", 1):
            return "False"
        return "0"

    def val(self, t, ty):
        k, v = t.peek()
        if k == "loc":
            t.next()
            return self.var(v)
        if k == "meta" or (k == "word" and v == "metadata"):
            while not t.done() and t.peek()[1] not in (",", ")"):
                t.next()
            return "None"
        return self.cexpr(self.m.const(t, ty), ty)

    def tval(self, t):
        ty = parse_type(t)
        skip_pattrs(t)
        return ty, self.val(t, ty)

    def gen(self):
        f = self.f
        # header
        h = f.header
        p = h.index("@" + (('"%s"' % f.name) if ('@"%s"' % f.name) in h else f.name) + "(")
        pre = Toks(h[len("define"):p])
        # return type: last type in pre
        while True:
            k, v = pre.peek()
            if k == "word" and (v in PATTR or v in PATTR_ARG):
                skip_pattrs(pre)
                continue
            try:
                save = pre.i
                rty = parse_type(pre)
                if pre.done():
                    break
                pre.i = save + 1
            except IRError:
                pre.i = save + 1
        f.ret = rty
        rest = h[p:]
        t = Toks(rest)
        t.next()
        t.expect("(")
        params = []
        byvals = []
        f.vararg = False
        while not t.accept(")"):
            if t.accept("..."):
                f.vararg = True
                continue
            ty = parse_type(t)
            info = skip_pattrs(t)
            name = None
            if t.peek()[0] == "loc":
                name = t.next()[1]
            params.append((ty, name))
            if "byval" in info:
                byvals.append((len(params) - 1, info["byval"]))
            t.accept(",")
        f.params = params
        pn = []
        for i, (ty, name) in enumerate(params):
            if name is None:
                name = "%" + str(i)
            pn.append(self.var(name))
        # blocks
        blocks = []
        cur = None
        lines = self.join(f.lines)
        nn = sum(1 for _, nm in params if nm is None) if False else 0
        for ln in lines:
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = [m.group(1).strip('"'), []]
                blocks.append(cur)
                continue
            s = ln.strip()
            if not s or s.startswith(";"):
                continue
            if cur is None:
                cur = [None, []]
                blocks.append(cur)
            cur[1].append(s)
        if blocks[0][0] is None:
            # unnamed entry: number = count of params (all unnamed)
            blocks[0][0] = str(len(params))
        idx = {b[0]: i for i, b in enumerate(blocks)}
        self.idx = idx
        # collect phis
        phis = {}
        for bn, ins in blocks:
            lst = []
            for s in ins:
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = phi ', s)
                if not m:
                    break
                t = Toks(s[m.end():])
                skip_flags(t)
                ty = parse_type(t)
                inc = {}
                while True:
                    t.expect("[")
                    v = self.val(t, ty)
                    t.expect(",")
                    lb = t.next()[1][1:].strip('"')
                    t.expect("]")
                    inc[lb] = v
                    if not t.accept(","):
                        break
                lst.append((self.var(m.group(1)), inc))
            phis[bn] = lst
        self.phis = phis
        bodies = []
        ninstr = 0
        for bn, ins in blocks:
            self.cur = bn
            self.out = []
            for s in ins:
                ninstr += 1
                if " = phi " in s and re.match(r'%(?:"[^"]*"|[-a-zA-Z$._0-9]+) = phi ', s):
                    continue
                self.instr(s)
            bodies.append(self.out)
        f.ninstr = ninstr
        src = ["def F(%s):" % ", ".join(pn + (["*va"] if f.vararg else []))]
        has_alloca = any("R.alloca(" in x for b in bodies for x in b)
        stk = has_alloca or byvals
        for bd in bodies:
            for q, x in enumerate(bd):
                if x.startswith("@RET "):
                    bd[q] = ("_r = %s; R.pop(_sp); return _r" if stk else "return %s") % x[5:]
        if stk:
            src.append(" _sp = len(R.stack)")
        for i, ty in byvals:
            src.append(" %s = R.byval(%s,%d)" % (pn[i], pn[i], self.m.size(ty)))
        src.append(" R.ninst += %d" % 1)
        if len(blocks) == 1:
            for x in bodies[0]:
                src.append(" " + x)
        else:
            src.append(" b = 0")
            src.append(" while True:")
            self.emit_tree(src, bodies, 0, len(bodies), 2)
        return "\n".join(src)

    def emit_tree(self, src, bodies, lo, hi, ind):
        pad = " " * ind
        if hi - lo == 1:
            for x in bodies[lo]:
                src.append(pad + x)
            return
        mid = (lo + hi) // 2
        src.append(pad + "if b < %d:" % mid)
        self.emit_tree(src, bodies, lo, mid, ind + 1)
        src.append(pad + "else:")
        self.emit_tree(src, bodies, mid, hi, ind + 1)

    def join(self, lines):
        """merge multi-line instructions (switch, invoke, landingpad)"""
        out = []
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            s = ln.strip()
            if s.startswith("switch ") and s.endswith("["):
                while "]" not in lines[i + 1]:
                    i += 1
                    ln += " " + lines[i].strip()
                i += 1
                ln += " ]"
            elif (" invoke " in ln or s.startswith("invoke ")) and " unwind label" not in ln:
                i += 1
                ln += " " + lines[i].strip()
            elif "= landingpad" in ln:
                while i + 1 < n and re.match(r'\s+(cleanup|catch|filter)\b', lines[i + 1]):
                    i += 1
                    ln += " " + lines[i].strip()
            out.append(ln)
            i += 1
        return out

    def jump(self, label):
        label = label.strip('"')
        ph = self.phis.get(label)
        st = []
        if ph:
            l = ",".join(p[0] for p in ph)
            r = ",".join(p[1][self.cur] for p in ph)
            if l != r:
                st.append("%s = %s" % (l, r))
        j = self.idx[label]
        if j <= self.idx[self.cur]:
            st.append("R.tick()")
        st.append("b = %d" % j)
        st.append("continue")
        return st

    def e(self, s):
        self.out.append(s)

    def instr(self, s):
        m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = ', s)
        dst = None
        if m:
            dst = self.var(m.group(1))
            s = s[m.end():]
        t = Toks(s)
        k, op = t.next()
        if op in ("tail", "musttail", "notail"):
            k, op = t.next()
        if op in BIN:
            fl = skip_flags(t)
            ty = parse_type(t)
            a = self.val(t, ty)
            t.expect(",")
            b = self.val(t, ty)
            if ty[0] == "x":
                self.e("%s = R.vec2(lambda x,y: i_%s(x,y,%d), %s, %s)" % (dst, op, ty[2][1], a, b))
                return
            w = ty[1]
            if w == 1:
                self.e("%s = b_%s(%s,%s)" % (dst, op, a, b))
            elif "nsw" in fl and op in ("add", "sub", "mul"):
                self.e("%s = s_%s(%s,%s,%d)" % (dst, op, a, b, w))
            else:
                self.e("%s = i_%s(%s,%s,%d)" % (dst, op, a, b, w))
        elif op in FBIN:
            skip_flags(t)
            ty = parse_type(t)
            a = self.val(t, ty)
            t.expect(",")
            b = self.val(t, ty)
            if ty[0] == "x":
                self.e("%s = R.vec2(%s, %s, %s)" % (dst, op, a, b))
            else:
                self.e("%s = %s(%s,%s)" % (dst, op, a, b))
                if ty[1] == 32:
                    self.e("%s = f_trunc32(%s)" % (dst, dst))
        elif op == "fneg":
            skip_flags(t)
            ty = parse_type(t)
            a = self.val(t, ty)
            self.e("%s = R.vec1(fneg,%s)" % (dst, a) if ty[0] == "x" else "%s = fneg(%s)" % (dst, a))
        elif op == "icmp":
            skip_flags(t)
            pr = t.next()[1]
            ty = parse_type(t)
            a = self.val(t, ty)
            t.expect(",")
            b = self.val(t, ty)
            if ty[0] == "x":
                raise IRError("vector icmp")
            w = ty[1] if ty[0] == "i" else 64
            if w == 1:
                self.e("%s = b_cmp_%s(%s,%s)" % (dst, pr, a, b))
            else:
                self.e("%s = %s(%s,%s,%d)" % (dst, ICMP[pr], a, b, w))
        elif op == "fcmp":
            skip_flags(t)
            pr = t.next()[1]
            ty = parse_type(t)
            a = self.val(t, ty)
            t.expect(",")
            b = self.val(t, ty)
            self.e("%s = fcmp('%s',%s,%s)" % (dst, pr, a, b))
        elif op == "load":
            skip_flags(t)
            ty = parse_type(t)
            t.expect(",")
            pty = parse_type(t)
            p = self.val(t, pty)
            self.e("%s = %s" % (dst, self.load_expr(ty, p)))
        elif op == "store":
            skip_flags(t)
            ty = parse_type(t)
            v = self.val(t, ty)
            t.expect(",")
            pty = parse_type(t)
            p = self.val(t, pty)
            self.store(ty, v, p)
        elif op == "getelementptr":
            fl = skip_flags(t)
            bty = parse_type(t)
            t.expect(",")
            pty = parse_type(t)
            base = self.val(t, pty)
            const = 0
            parts = []
            cur = bty
            n = 0
            while t.accept(","):
                skip_flags(t)
                ity = parse_type(t)
                isc = t.peek()[0] != "loc"
                x = self.val(t, ity)
                if n == 0:
                    sz = self.m.size(cur)
                else:
                    c = self.m.resolve(cur)
                    if c[0] == "s":
                        o, cur = self.m.field_off(c, int(x))
                        const += o
                        n += 1
                        continue
                    sz = self.m.size(c[2])
                    cur = c[2]
                if isc:
                    xi = int(x)
                    if xi >= 1 << (ity[1] - 1):
                        xi -= 1 << ity[1]
                    const += xi * sz
                else:
                    parts.append("%s,%d,%d" % (x, ity[1], sz))
                n += 1
            if not parts:
                if const == 0:
                    self.e("%s = %s" % (dst, base))
                else:
                    self.e("%s = gep0(%s,%d)" % (dst, base, const))
            else:
                ex = base
                for q in parts:
                    ex = "gep(%s,%s)" % (ex, q)
                if const:
                    ex = "gep0(%s,%d)" % (ex, const)
                self.e("%s = %s" % (dst, ex))
        elif op == "alloca":
            t.accept("inalloca")
            ty = parse_type(t)
            n = "1"
            if t.accept(","):
                if t.peek()[1] != "align":
                    nty = parse_type(t)
                    n = self.val(t, nty)
            self.e("%s = R.alloca(%d*R.cint(%s))" % (dst, self.m.size(ty), n) if n != "1" else
                   "%s = R.alloca(%d)" % (dst, self.m.size(ty)))
        elif op in CASTS:
            skip_flags(t)
            ty = parse_type(t)
            a = self.val(t, ty)
            t.expect("to")
            ty2 = parse_type(t)
            if ty[0] == "x" or ty2[0] == "x":
                raise IRError("vector cast")
            w1 = ty[1] if ty[0] in "if" else 64
            w2 = ty2[1] if ty2[0] in "if" else 64
            if op in ("trunc", "zext", "sext"):
                self.e("%s = c_%s(%s,%d,%d)" % (dst, op, a, w1, w2))
            elif op in ("fptosi", "fptoui", "sitofp", "uitofp"):
                self.e("%s = c_%s(%s,%d,%d)" % (dst, op, a, w1, w2))
                if op.endswith("fp") and w2 == 32:
                    self.e("%s = f_trunc32(%s)" % (dst, dst))
            elif op == "fptrunc":
                self.e("%s = %s" % (dst, "f_trunc32(%s)" % a if w2 == 32 else a))
            elif op == "fpext":
                self.e("%s = %s" % (dst, a))
            elif op == "bitcast":
                self.e("%s = c_bitcast(%s,%r,%r)" % (dst, a, ty, ty2))
            else:
                self.e("%s = c_ptrint(%s,%d,%d)" % (dst, a, w1, w2))
        elif op == "select":
            skip_flags(t)
            cty, c = self.tval(t)
            t.expect(",")
            ty, a = self.tval(t)
            t.expect(",")
            ty2, b = self.tval(t)
            rt = self.m.resolve(ty)
            kind = "f" if rt[0] == "f" else ("i" if rt[0] in "ip" else "o")
            w = rt[1] if rt[0] == "i" else 64
            if "R.undef" in a or "R.undef" in b:
                self.e("%s = (%s if R.br(%s) else %s)" % (dst, a, c, b))
            else:
                self.e("%s = (%s if %s else %s) if type(%s) is bool else R.select(%s,%s,%s,'%s',%d)" %
                       (dst, a, c, b, c, c, a, b, kind, w))
        elif op == "br":
            if t.accept("label"):
                for x in self.jump(t.next()[1][1:]):
                    self.e(x)
            else:
                ty = parse_type(t)
                c = self.val(t, ty)
                t.expect(",")
                t.expect("label")
                a = t.next()[1][1:]
                t.expect(",")
                t.expect("label")
                b = t.next()[1][1:]
                if c in ("True", "False"):
                    for x in self.jump(a if c == "True" else b):
                        self.e(x)
                    return
                self.e("if (%s if type(%s) is bool else R.br(%s)):" % (c, c, c))
                for x in self.jump(a):
                    self.e(" " + x)
                for x in self.jump(b):
                    self.e(x)
        elif op == "switch":
            ty = parse_type(t)
            v = self.val(t, ty)
            t.expect(",")
            t.expect("label")
            dflt = t.next()[1][1:]
            t.expect("[")
            while not t.accept("]"):
                cty = parse_type(t)
                cv = self.m.const(t, cty)
                t.expect(",")
                t.expect("label")
                lb = t.next()[1][1:]
                if ty[1] == 1:
                    self.e("if R.br(%s)%s:" % (v, " is True" if cv else " is False"))
                else:
                    self.e("if R.brv(ieq(%s,%d,%d)):" % (v, cv, ty[1]))
                for x in self.jump(lb):
                    self.e(" " + x)
            for x in self.jump(dflt):
                self.e(x)
        elif op == "ret":
            if t.peek()[1] == "void":
                self.e("@RET None")
            else:
                ty, v = self.tval(t)
                self.e("@RET %s" % v)
        elif op == "unreachable":
            self.e("R.unreachable(%r)" % self.f.name)
        elif op in ("call", "invoke"):
            self.call(op, dst, t)
        elif op == "extractvalue":
            ty, v = self.tval(t)
            ix = ""
            while t.accept(","):
                ix += "[%s]" % t.next()[1]
            self.e("%s = %s%s" % (dst, v, ix))
        elif op == "insertvalue":
            ty, v = self.tval(t)
            t.expect(",")
            ty2, x = self.tval(t)
            ix = []
            while t.accept(","):
                ix.append(int(t.next()[1]))
            self.e("%s = R.insval(%s,%s,%r)" % (dst, v, x, ix))
        elif op == "extractelement":
            ty, v = self.tval(t)
            t.expect(",")
            ity, i = self.tval(t)
            self.e("%s = %s[R.cint(%s)]" % (dst, v, i))
        elif op == "insertelement":
            ty, v = self.tval(t)
            t.expect(",")
            ty2, x = self.tval(t)
            t.expect(",")
            ity, i = self.tval(t)
            self.e("%s = R.insval(%s,%s,[R.cint(%s)])" % (dst, v, x, i))
        elif op == "shufflevector":
            ty, a = self.tval(t)
            t.expect(",")
            ty2, b = self.tval(t)
            t.expect(",")
            mty = parse_type(t)
            mk = self.m.const(t, mty)
            if mk[0] == "zero":
                idxs = [0] * mty[1]
            else:
                idxs = [x[1] if isinstance(x[1], int) else 0 for x in mk[2]]
            self.e("%s = R.shuf(%s,%s,%r)" % (dst, a, b, idxs))
        elif op == "freeze":
            ty, v = self.tval(t)
            self.e("%s = %s" % (dst, v))
        elif op == "landingpad":
            self.e("%s = R.landingpad()" % dst)
        elif op == "resume":
            self.e("R.resume()")
        elif op == "fence":
            pass
        elif op == "atomicrmw":
            skip_flags(t)
            kind = t.next()[1]
            pty, p = self.tval(t)
            t.expect(",")
            ty, v = self.tval(t)
            w = ty[1] if ty[0] == "i" else 64
            self.e("%s = %s" % (dst, self.load_expr(ty, p)))
            if kind == "xchg":
                self.store(ty, v, p)
            else:
                self.store(ty, "i_%s(%s,%s,%d)" % (kind, dst, v, w), p)
        elif op == "cmpxchg":
            t.accept("weak")
            skip_flags(t)
            pty, p = self.tval(t)
            t.expect(",")
            ty, c = self.tval(t)
            t.expect(",")
            ty, nv = self.tval(t)
            w = ty[1] if ty[0] == "i" else 64
            self.e("_x = %s" % self.load_expr(ty, p))
            self.e("_c = R.br(ieq(_x,%s,%d))" % (c, w))
            self.e("if _c:")
            o, self.out = self.out, []
            self.store(ty, nv, p)
            body, self.out = self.out, o
            for x in body:
                self.e(" " + x)
            self.e("%s = (_x,_c)" % dst)
        elif op == "va_arg":
            raise IRError("va_arg")
        else:
            raise IRError("instruction %r" % s[:120])

    def load_expr(self, ty, p):
        rt = self.m.resolve(ty)
        k = rt[0]
        if k == "i":
            if rt[1] == 1:
                return "R.load_b(%s)" % p
            return "load_i(%s,%d)" % (p, (rt[1] + 7) // 8)
        if k == "p":
            return "load_i(%s,8)" % p
        if k == "f":
            return "load_f(%s,%d)" % (p, self.m.size(rt))
        if k == "s":
            return "(" + "".join(self.load_expr(ft, "gep0(%s,%d)" % (p, self.m.field_off(rt, i)[0])) + ","
                                 for i, ft in enumerate(rt[1])) + ")"
        if k in "ax":
            s = self.m.size(rt[2])
            return "(" + "".join(self.load_expr(rt[2], "gep0(%s,%d)" % (p, i * s)) + "," for i in range(rt[1])) + ")"
        raise IRError("load type")

    def store(self, ty, v, p):
        rt = self.m.resolve(ty)
        k = rt[0]
        if k == "i" and rt[1] == 1:
            self.e("R.store_b(%s,%s)" % (p, v))
        elif k in "ip":
            self.e("store(%s,%s,%d)" % (p, v, (rt[1] + 7) // 8 if k == "i" else 8))
        elif k == "f":
            self.e("store(%s,%s,%d)" % (p, v, self.m.size(rt)))
        elif k == "s":
            self.tmp += 1
            nm = "_s%d" % self.tmp
            self.e("%s = %s" % (nm, v))
            for i, ft in enumerate(rt[1]):
                self.store(ft, "%s[%d]" % (nm, i), "gep0(%s,%d)" % (p, self.m.field_off(rt, i)[0]))
        elif k in "ax":
            self.tmp += 1
            nm = "_s%d" % self.tmp
            self.e("%s = %s" % (nm, v))
            s = self.m.size(rt[2])
            for i in range(rt[1]):
                self.store(rt[2], "%s[%d]" % (nm, i), "gep0(%s,%d)" % (p, i * s))
        else:
            raise IRError("store type")

    def call(self, op, dst, t):
        skip_flags(t)
        while t.peek()[0] == "word" and t.peek()[1] in ("fastcc", "ccc", "coldcc", "cc"):
            t.next()
        skip_pattrs(t)
        rty = parse_type(t)
        skip_pattrs(t)
        k, v = t.next()
        direct = None
        if k == "glob":
            direct = v[1:].strip('"')
        elif k == "loc":
            fp = self.var(v)
        elif v == "asm":
            self.e("R.asm()")
            if dst:
                self.e("%s = 0" % dst)
            return
        else:
            raise IRError("callee %r" % v)
        t.expect("(")
        args = []
        atys = []
        while not t.accept(")"):
            if t.peek()[1] == "metadata":
                # skip metadata argument
                d = 0
                while True:
                    x = t.peek()[1]
                    if d == 0 and x in (",", ")"):
                        break
                    if x in "([{":
                        d += 1
                    if x in ")]}":
                        d -= 1
                    t.next()
                args.append("None")
                atys.append(("metadata",))
            else:
                ty = parse_type(t)
                skip_pattrs(t)
                args.append(self.val(t, ty))
                atys.append(ty)
            t.accept(",")
        if direct is not None:
            if direct.startswith("llvm."):
                if direct.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.invariant", "llvm.va_",
                                      "llvm.donothing", "llvm.prefetch", "llvm.stackrestore")):
                    return
                ex = self.intrinsic(direct, args, atys, rty)
            else:
                ex = "%s(%s)" % (self.prog.call_ref(self.m, direct), ",".join(args))
        else:
            ex = "R.icall(%s,%s)" % (fp, "(" + "".join(a + "," for a in args) + ")")
        if op == "invoke":
            # '... to label %x unwind label %y'
            while t.peek()[1] != "to":
                t.next()
            t.next()
            t.expect("label")
            ok = t.next()[1][1:]
            t.expect("unwind")
            t.expect("label")
            bad = t.next()[1][1:]
            self.e("try:")
            self.e((" %s = %s" % (dst, ex)) if dst else " " + ex)
            self.e("except CxxThrow as _ex:")
            self.e(" R.cur_exc = _ex")
            for x in self.jump(bad):
                self.e(" " + x)
            for x in self.jump(ok):
                self.e(x)
            return
        self.e(("%s = %s" % (dst, ex)) if dst else ex)

    def intrinsic(self, name, a, tys, rty):
        p = name.split(".")
        base = p[1]
        w = rty[1] if rty[0] == "i" else 64
        if rty[0] == "x":
            raise IRError("vector intrinsic " + name)
        if base in ("memcpy", "memmove"):
            return "R.memcpy(%s,%s,%s)" % tuple(a[:3])
        if base == "memset":
            return "R.memset(%s,%s,%s)" % tuple(a[:3])
        if base == "assume":
            return "None"
        if base == "expect":
            return a[0]
        if base in ("umin", "umax", "smin", "smax"):
            return "R.minmax('%s',%s,%s,%d)" % (base, a[0], a[1], w)
        if base == "abs":
            return "R.iabs(%s,%d)" % (a[0], w)
        if base in ("floor", "ceil", "trunc", "rint", "nearbyint", "round", "roundeven"):
            return "R.fround('%s',%s)" % (base, a[0])
        if base in ("sqrt", "fabs", "exp", "log", "sin", "cos", "exp2", "log2", "log10"):
            return "R.m_%s(%s)" % (base, a[0])
        if base == "pow":
            return "R.m_pow(%s,%s)" % (a[0], a[1])
        if base == "powi":
            return "R.m_powi(%s,%s)" % (a[0], a[1])
        if base in ("fma", "fmuladd"):
            return "R.m_fma(%s,%s,%s)" % (a[0], a[1], a[2])
        if base in ("minnum", "maxnum", "minimum", "maximum"):
            return "R.m_f%s(%s,%s)" % (base[:3], a[0], a[1])
        if base == "copysign":
            return "R.m_copysign(%s,%s)" % (a[0], a[1])
        if base in ("sadd", "ssub", "smul", "uadd", "usub", "umul") and p[2] == "with":
            return "R.ovf('%s',%s,%s,%d)" % (base, a[0], a[1], tys[0][1])
        if base in ("usub", "uadd") and p[2] == "sat":
            return "R.sat('%s',%s,%s,%d)" % (base, a[0], a[1], w)
        if base == "is" and p[2] == "constant":
            return "False"
        if base == "is" and p[2] == "fpclass":
            return "R.fpclass(%s,%s)" % (a[0], a[1])
        if base == "objectsize":
            return str((1 << 64) - 1)
        if base in ("trap", "ubsantrap", "debugtrap"):
            return "R.trap()"
        if base == "eh" and p[2] == "typeid":
            return "R.eh_typeid(%s)" % a[0]
        if base in ("ctpop", "ctlz", "cttz", "bswap"):
            return "R.bits('%s',%s,%d)" % (base, a[0], w)
        if base in ("fshl", "fshr"):
            return "R.fsh('%s',%s,%s,%s,%d)" % (base, a[0], a[1], a[2], w)
        if base == "stacksave":
            return "0"
        if base == "threadlocal":
            return a[0]
        if base == "lround" or base == "llround":
            return "R.lround(%s,%d)" % (a[0], w)
        if base in ("lrint", "llrint"):
            return "R.lrint(%s,%d)" % (a[0], w)
        raise IRError("intrinsic " + name)
