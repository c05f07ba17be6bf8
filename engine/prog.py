"""Program = linked set of IR modules + built-in models of the C/C++ runtime."""
import re
import struct

import ir
import rt
from rt import BASE, Event, Obj, PathEnd, Unsupported, CxxThrow

STATIC_MAX = 1 << 20
SKIP_LINK = {"private", "internal"}


class Sym:
    __slots__ = ("id", "kind", "mod", "name", "py", "init")


class Program:
    def __init__(self):
        self.modules = []
        self.ext = {}          # external name -> (kind, module)
        self.syms = {}         # (modkey, name) -> Sym
        self.by_id = {}
        self.first_dynamic_id = STATIC_MAX
        self._ns = {}
        self.builtins = {}
        self.encoded = {}      # python name -> Function (compiled this run)
        self.called_external = set()
        import builtins_cxx
        import builtins_io
        builtins_cxx.install(self)
        builtins_io.install(self)

    def add_module(self, path):
        m = ir.Module(path, self)
        self.modules.append(m)
        for n, f in m.functions.items():
            if f.linkage in SKIP_LINK or f.linkage == "available_externally":
                continue
            self.define(n, ("f", m), f.linkage)
        for n, g in m.globals.items():
            w = re.split(r'[\s(]', g, maxsplit=6)
            link = next((x for x in w[:5] if x in ("private", "internal", "external", "extern_weak", "linkonce_odr", "weak_odr",
                                                   "linkonce", "weak", "common", "appending", "available_externally")), "defined")
            if link in ("private", "internal", "external", "extern_weak", "appending", "available_externally"):
                continue
            self.define(n, ("g", m), link)
        for n, a in m.aliases.items():
            self.define(n, ("a", m), "alias")
        return m

    def define(self, n, d, link):
        o = self.ext.get(n)
        if o is None:
            self.ext[n] = d + (link,)
        elif o[2] in ("linkonce_odr", "weak_odr", "weak", "linkonce") and link not in ("linkonce_odr", "weak_odr", "weak",
                                                                                      "linkonce"):
            self.ext[n] = d + (link,)

    def is_local(self, m, n):
        f = m.functions.get(n)
        if f is not None:
            return f.linkage in SKIP_LINK
        g = m.globals.get(n)
        if g is not None:
            return re.match(r'(dso_local )?(private|internal)\b', g) is not None
        a = m.aliases.get(n)
        if a is not None:
            return re.match(r'(private|internal)\b', a) is not None
        return False

    def lookup(self, m, n):
        local = self.is_local(m, n)
        key = (m if local else None, n)
        s = self.syms.get(key)
        if s is not None:
            return s
        s = Sym()
        s.id = len(self.syms) + 1
        s.name = n
        s.py = "L%d" % s.id
        s.init = None
        if n in self.builtins and not local:
            s.kind, s.mod = "b", None
        elif local:
            s.mod = m
            s.kind = "f" if n in m.functions else ("g" if n in m.globals else "a")
        else:
            d = self.ext.get(n)
            if d is None:
                s.mod = None
                s.kind = "x"  # unresolved external
            else:
                s.kind, s.mod = d[0], d[1]
        if s.kind == "a":
            tgt = re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', s.mod.aliases[n])[-1].strip('"')
            s = self.lookup(s.mod, tgt)
            self.syms[key] = s
            return s
        self.syms[key] = s
        self.by_id[s.id] = s
        for mode, ns in self._ns.items():
            ns[s.py] = self.stub(s, mode)
        return s

    def addr_of(self, m, n):
        return (self.lookup(m, n).id << 32) | BASE

    def call_ref(self, m, n):
        return self.lookup(m, n).py

    def fconst(self, x):
        return "K(%r)" % (struct.unpack("<Q", struct.pack("<d", x))[0],)

    def function_at(self, p):
        if p & 0xffffffff != BASE:
            return None
        s = self.by_id.get(p >> 32)
        if s is None or s.kind == "g":
            return None
        return s.py

    def stub(self, s, mode):
        if s.kind == "b":
            f = self.builtins[s.name]
            return lambda *a: f(rt.R, *a)
        if s.kind == "f":
            def first(*a):
                return self.compile(s, mode)(*a)
            return first

        def missing(*a):
            raise Unsupported("call of external function %s" % s.name)
        return missing

    def compile(self, s, mode):
        ns = self._ns[mode]
        f = s.mod.functions[s.name]
        try:
            src = ir.Codegen(f).gen()
        except ir.IRError as e:
            msg = "%s: %s" % (s.name, e)

            def bad(*a):
                raise Unsupported(msg)
            ns[s.py] = bad
            return bad
        # constants: hoist K(bits) into the namespace
        def k(mm):
            b = int(mm.group(1))
            nm = "K%x" % b
            if nm not in ns:
                x = struct.unpack("<d", struct.pack("<Q", b))[0]
                ns[nm] = x if mode == "fp" else rt.dconst(x)
            return nm
        src = re.sub(r'K\((\d+)\)', k, src)
        loc = {}
        try:
            exec(compile(src, s.name, "exec"), ns, loc)
        except SyntaxError:
            open("/tmp/bad.py", "w").write(src)
            raise
        fn = loc["F"]
        ns[s.py] = fn
        self.encoded[s.name] = f
        return fn

    def namespace(self, mode):
        ns = self._ns.get(mode)
        if ns is None:
            ns = dict(rt.OPS_COMMON)
            ns.update(rt.OPS_FP if mode == "fp" else rt.OPS_REAL)
            self._ns[mode] = ns
            for s in set(self.syms.values()):
                ns[s.py] = self.stub(s, mode)
        return ns

    # ---------------------------------------------------------------- globals
    def materialise(self, R, oid):
        s = self.by_id.get(oid)
        if s is None:
            return None
        if s.kind in ("f", "b"):
            o = Obj(oid, 1, "func")
        elif s.kind == "x":
            o = self.builtin_data(R, s)
        else:
            o = self.make_global(R, s)
        R.objs[oid] = o
        return o

    def builtin_data(self, R, s):
        if s.name in ("_ZSt4cout", "_ZSt4cerr", "_ZSt4clog"):
            import builtins_io
            return builtins_io.cout_object(R, s)
        return Obj(s.id, 1024, "extern", True)

    def make_global(self, R, s):
        m = s.mod
        g = m.globals[s.name]
        t = ir.Toks(strip_md(g))
        kind = "global"
        while True:
            k, v = t.peek()
            if v in ("global", "constant"):
                t.next()
                if v == "constant":
                    kind = "const"
                break
            t.next()
            if v in ("thread_local", "addrspace", "unnamed_addr") and t.peek()[1] == "(":
                while not t.accept(")"):
                    t.next()
        ty = ir.parse_type(t)
        size = m.size(ty)
        o = Obj(s.id, size, kind, True)
        if not t.done() and t.peek()[1] not in (",",):
            c = m.const(t, ty)
            self.fill(R, o, m, 0, ty, c)
        return o

    def fill(self, R, o, m, off, ty, c):
        rty = m.resolve(ty)
        if isinstance(c, int):
            if c or True:
                sz = m.store_size(rty)
                o.cells[off] = (sz, c)
            return
        if c[0] == "d":
            o.cells[off] = (m.size(rty), R.fc(c[1]))
        elif c[0] == "bytes":
            for i, b in enumerate(c[1]):
                o.cells[off + i] = (1, b)
        elif c[0] in ("zero", "undef"):
            return
        elif c[0] == "agg":
            for i, (ety, v) in enumerate(c[2]):
                if rty[0] == "s":
                    fo, ft = m.field_off(rty, i)
                else:
                    fo, ft = i * m.size(rty[2]), rty[2]
                self.fill(R, o, m, off + fo, ft, v)

    # ---------------------------------------------------------------- linking
    def closure(self, root):
        todo = [root]
        seen = []
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.append(m)
            for n in list(m.declared) + [g for g, d in m.globals.items() if re.match(r'(dso_local )?external\b', d)]:
                if n in self.builtins:
                    continue
                d = self.ext.get(n)
                if d is not None and d[1] not in seen:
                    todo.append(d[1])
        return seen

    def ctors(self, mods):
        out = []
        for m in mods:
            g = m.globals.get("llvm.global_ctors")
            if g:
                for fn in re.findall(r'\{ i32, ptr, ptr \} \{ i32 \d+, ptr @("[^"]*"|[-a-zA-Z$._0-9]+)', g):
                    out.append(self.lookup(m, fn.strip('"')).py)
        return out


def strip_md(g):
    # drop trailing metadata/comdat/align
    i = g.rfind(", !")
    return g if i < 0 else g[:i]
