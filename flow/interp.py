"""Value-flow construction: turns Python source into terms.

Control flow on unknown conditions becomes `select` (gates); helpers, closures and methods of known
classes are followed into; everything else is an opaque application.  No code of the analysed package
is imported or run.
"""
import ast
import os
import sys

from . import terms as tm
from .terms import T, mk, const, sym, fresh, tup, NONE, TRUE, FALSE, is_const, is_num, is_str, pyval

sys.setrecursionlimit(20000)


# ---------------------------------------------------------------- objects
LOADING = [0]  # > 0 while module bodies run: what is created then is shared by all later calls


class Frame:
    __slots__ = ("vars", "parent", "func", "shared")

    def __init__(self, parent, func=None):
        self.shared = LOADING[0] > 0
        self.vars = {}
        self.parent = parent
        self.func = func


class Func:
    def __init__(self, node, frame, module, name, cls=None):
        self.node = node
        self.frame = frame
        self.module = module
        self.name = name
        self.cls = cls
        self.defaults = []
        self.kwdefaults = {}
        self.attrs = {}
        self.shared = LOADING[0] > 0
        self.kind = None  # property / staticmethod / classmethod
        self.abstract = False

    @property
    def loc(self):
        return f"{self.module.relpath}:{self.node.lineno}"


class Py:
    """A function object implemented by the analyser (model of an external callable)."""

    def __init__(self, name, fn, data=()):
        self.name = name
        self.fn = fn
        self.data = data


class ClassObj:
    def __init__(self, name, module, node):
        self.name = name
        self.module = module
        self.node = node
        self.bases = []  # ClassObj or str (external)
        self.ns = {}
        self.own_fields = {}  # name -> (default term or None, annotation, converter)
        self.classvars = set()
        self.abstractvars = set()
        self.mro = [self]

    def __repr__(self):
        return self.name

    def finish(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, ClassObj)]
        seqs.append([b for b in self.bases if isinstance(b, ClassObj)])
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in r[1:] for r in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    del s[0]
                elif c in s:
                    s.remove(c)
        self.mro = out

    def ext_bases(self):
        return {b for c in self.mro for b in c.bases if isinstance(b, str)}

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns:
                return c.ns[name], c
        return None, None

    def fields(self):
        out = {}
        for c in reversed(self.mro):
            for n, v in c.own_fields.items():
                if n in out and v[0] is None and out[n][0] is not None and n not in c.ns:
                    out[n] = v
                else:
                    out[n] = v
            for n in c.classvars:
                out.pop(n, None)
        # a property / class attribute override removes an abstract field
        for n in list(out):
            v, c = self.lookup(n)
            owner = next((k for k in self.mro if n in k.own_fields), None)
            if v is not None and owner is not None and self.mro.index(c) < self.mro.index(owner):
                if n not in c.own_fields:
                    out.pop(n)
            elif n in self.abstract_only():
                pass
        return out

    def abstract_only(self):
        s = set()
        for c in reversed(self.mro):
            s |= c.abstractvars
            s -= set(n for n in c.own_fields if n not in c.abstractvars)
        return s

    def is_enum(self):
        return any(b.endswith("RESULTS") or b.endswith("Enumeration") or b.endswith("Enum") for b in self.ext_bases())

    def is_namedtuple(self):
        return any(b.endswith("NamedTuple") for b in self.ext_bases())

    def subclass_of(self, other):
        return other in self.mro


class Module:
    def __init__(self, name, path, relpath, tree):
        self.name = name
        self.path = path
        self.relpath = relpath
        self.tree = tree
        self.frame = Frame(None)
        self.done = False
        self.is_pkg = os.path.basename(path) == "__init__.py"


class VList:
    def __init__(self, items):
        self.shared = LOADING[0] > 0
        self.vars = {"items": list(items)}

    @property
    def items(self):
        return self.vars["items"]


class VDict:
    """entries: list of ('k', key term, value) or ('s', mapping term)"""

    def __init__(self, entries=()):
        self.shared = LOADING[0] > 0
        self.vars = {"entries": tuple(entries)}

    @property
    def entries(self):
        return self.vars["entries"]


class VObj:
    """An instance while its constructor is running."""

    def __init__(self, cls):
        self.cls = cls
        self.vars = {}


CELLS = (VList, VDict, VObj)


class Event:
    __slots__ = ("kind", "pc", "data", "loc", "stack", "traced")

    def __init__(self, kind, pc, data, loc, stack, traced=()):
        self.traced = traced  # conditions of enclosing array-level branches: all branches are traced
        self.kind = kind
        self.pc = pc
        self.data = data
        self.loc = loc
        self.stack = stack

    def __repr__(self):
        return f"<{self.kind} {self.data} @{self.loc} if {tm.show(self.pc)}>"


INTOPS = ("arr", "arange", "add", "sub", "mul", "mod", "floordiv", "neg", "getitem", "item")


def intvec(t):
    """Known integer, or list of known integers, that an index expression stands for; else None."""
    if t.op == "const":
        return pyval(t) if t.args[0] == "int" else None
    if t.op == "arr":
        return intvec(t.args[0])
    if t.op == "arange":
        if all(is_const(x, "int") for x in t.args) and pyval(t.args[2]) != 0:
            r = range(*[pyval(x) for x in t.args])
            return list(r) if len(r) <= 16 else None
        return None
    if t.op in ("add", "sub", "mul", "mod", "floordiv"):
        x = intvec(t.args[0])
        y = intvec(t.args[1]) if x is not None else None
        if x is None or y is None:
            return None
        f = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
             "mod": lambda a, b: a % b, "floordiv": lambda a, b: a // b}[t.op]
        try:
            if isinstance(x, int) and isinstance(y, int):
                return f(x, y)
            n = len(x) if isinstance(x, list) else len(y)
            x = x if isinstance(x, list) else [x] * n
            y = y if isinstance(y, list) else [y] * n
            return [f(a, b) for a, b in zip(x, y)] if len(x) == len(y) else None
        except ZeroDivisionError:
            return None
    if t.op == "neg":
        x = intvec(t.args[0])
        return None if x is None else -x if isinstance(x, int) else [-a for a in x]
    if t.op in ("getitem", "item"):
        x = intvec(t.args[0]) if t.args[0].op in INTOPS else None
        if not isinstance(x, list):
            return None
        i = t.args[1]
        if i.op == "slice" and all(z is NONE or is_const(z, "int") for z in i.args):
            return x[slice(*[None if z is NONE else pyval(z) for z in i.args])]
        j = intvec(i)
        return x[j] if isinstance(j, int) and -len(x) <= j < len(x) else None
    if t.op == "fun" and t.args[0] == "jax.numpy.flip" and len(t.args) == 3:
        x = intvec(t.args[2])
        return x[::-1] if isinstance(x, list) else None
    return None


class Ret(Exception):
    pass


class AnalysisError(Exception):
    pass


class C:  # completions
    def __init__(self, kind, value=None):
        self.kind = kind
        self.value = value


FALL = C("fall")
RAISE = C("raise")

BINOPS = {
    ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow", ast.Mod: "mod",
    ast.FloorDiv: "floordiv", ast.MatMult: "matmul", ast.BitAnd: "and", ast.BitOr: "or",
    ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift",
}
CMPOPS = {
    ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne",
    ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin",
}
OMEGA = "equinox.internal.ω"


def has_jump(stmts):
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return True
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if isinstance(b, list) and has_jump(b):
                return True
        for h in getattr(s, "handlers", []) or []:
            if has_jump(h.body):
                return True
        for h in getattr(s, "cases", []) or []:
            if has_jump(h.body):
                return True
    return False


class Interp:
    def __init__(self, root, package="optimistix", extra=None):
        from . import norm, ext

        self.root = root
        self.package = package
        self.modules = {}
        self.norm = norm
        self.ext = ext
        self.pc = TRUE  # normal-form path condition
        self.events = []
        self.quiet = []
        self.stack = []
        self.log = None  # write log
        self.ncalls = 0
        self.funcs_seen = set()
        self.stubs = {}
        self.traced = []
        self.opaque = set()
        self.prepare = None
        self.leaves = frozenset()
        self.callsites = set()
        self.extra = extra or {}

    # ------------------------------------------------------------ modules
    def parse_package(self):
        out = {}
        base = os.path.join(self.root, self.package)
        for d, dirs, files in os.walk(base):
            dirs[:] = [x for x in sorted(dirs) if x != "__pycache__"]
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[: -len(".__init__")]
                    with open(p, encoding="utf-8") as fh:
                        out[name] = Module(name, p, rel, ast.parse(fh.read(), filename=p))
        self.modules = out
        return out

    def load(self, name):
        m = self.modules.get(name)
        if m is None:
            return None
        if not m.done:
            m.done = True
            m.frame.vars["__name__"] = const(name)
            self.exec_module(m)
        return m

    def exec_module(self, m):
        save = (self.pc, self.log, self.stack)
        self.pc, self.log, self.stack = TRUE, None, [("<module>", m)]
        LOADING[0] += 1
        try:
            self.exec_block(m.tree.body, m.frame, m, lambda: C("ret", NONE))
        finally:
            LOADING[0] -= 1
            self.pc, self.log, self.stack = save

    def resolve_import(self, modname, level, m):
        if level:
            parts = m.name.split(".")
            if not m.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (level - 1)]
            return ".".join(parts + ([modname] if modname else []))
        return modname

    def import_value(self, modname, attr=None):
        if modname.split(".")[0] == self.package:
            if attr is None:
                mod = self.load(modname)
                return mk("mod", mod) if mod else mk("extref", modname)
            sub = modname + "." + attr
            mod = self.load(modname)
            if mod is not None and attr in mod.frame.vars:
                return mod.frame.vars[attr]
            if sub in self.modules:
                return mk("mod", self.load(sub))
            return self.unknown(f"import {sub}")
        p = modname if attr is None else modname + "." + attr
        return self.ext.extref(p)

    # ------------------------------------------------------------ bookkeeping
    def unknown(self, why):
        return mk("unknown", str(why), fresh("u"))

    def event(self, kind, data):
        self.events.append(Event(kind, self.pc, data, tm._cur_loc[0], tuple(s[0] for s in self.stack), tuple(self.traced)))

    def write(self, cell, key, val):
        if LOADING[0] == 0 and isinstance(cell, (VList, VDict)) and cell.shared:
            self.event("mutate", ("module-level container", NONE, "contents"))
        if self.log is not None:
            self.log.append((cell, key, cell.vars.get(key, self)))
        cell.vars[key] = val

    def delete(self, cell, key):
        if self.log is not None:
            self.log.append((cell, key, cell.vars.get(key, self)))
        cell.vars.pop(key, None)

    def start(self):
        old = self.log
        self.log = []
        return old

    def collect(self, old):
        """Stop logging: return {(cell,key): final} and undo the writes."""
        log = self.log
        final = {}
        order = []
        for cell, key, _ in log:
            if (id(cell), key) not in final:
                final[(id(cell), key)] = (cell, key, cell.vars.get(key, self))
                order.append((id(cell), key))
        for cell, key, prev in reversed(log):
            if prev is self:
                cell.vars.pop(key, None)
            else:
                cell.vars[key] = prev
        self.log = old
        return final

    def apply_writes(self, w):
        for cell, key, val in w.values():
            if val is self:
                self.delete(cell, key)
            else:
                self.write(cell, key, val)

    def merge_writes(self, cond, wa, wb):
        for k in list(wa) + [k for k in wb if k not in wa]:
            cell, key = (wa.get(k) or wb.get(k))[:2]
            cur = cell.vars.get(key, self)
            va = wa[k][2] if k in wa else cur
            vb = wb[k][2] if k in wb else cur
            if va is self and vb is self:
                self.delete(cell, key)
            elif va is self:
                self.write(cell, key, vb)
            elif vb is self:
                self.write(cell, key, va)
            elif key == "items" and isinstance(cell, VList):
                self.write(cell, key, self.merge_lists(cond, va, vb))
            elif key == "entries" and isinstance(cell, VDict):
                self.write(cell, key, self.merge_entries(cond, va, vb))
            else:
                self.write(cell, key, self.sel(cond, va, vb))

    def merge_lists(self, cond, a, b):
        if len(a) == len(b):
            return [self.sel(cond, x, y) for x, y in zip(a, b)]
        return [mk("spread", self.sel(cond, tup(*[self.freeze(x) for x in a]), tup(*[self.freeze(x) for x in b])))]

    def merge_entries(self, cond, a, b):
        if a == b:
            return a
        ka = {e[1] for e in a if e[0] == "k"}
        kb = {e[1] for e in b if e[0] == "k"}
        sa = [e for e in a if e[0] != "k"]
        sb = [e for e in b if e[0] != "k"]
        if ka == kb and sa == sb:
            vb = {e[1]: e[2] for e in b if e[0] == "k"}
            return tuple(("k", e[1], self.sel(cond, e[2], vb[e[1]])) if e[0] == "k" else e for e in a)
        return (("s", mk("select", cond, mk("dict", self.fentries(a)), mk("dict", self.fentries(b)))),)

    def fentries(self, entries):
        return tuple((e[0], e[1], self.freeze(e[2])) if e[0] == "k" else (e[0], self.freeze(e[1])) for e in entries)

    # ------------------------------------------------------------ values
    def freeze(self, v):
        if isinstance(v, T):
            return v
        if isinstance(v, VList):
            return tup(*[self.freeze(x) for x in v.items])
        if isinstance(v, VDict):
            return mk("dict", self.fentries(v.entries))
        if isinstance(v, VObj):
            return self.make_rec(v.cls, v.vars)
        raise AnalysisError(f"freeze {v!r}")

    def make_rec(self, cls, fields):
        names = [n for n in cls.fields() if n in fields]
        names += [n for n in fields if n not in names]
        return mk("rec", cls, tuple(names), *[self.freeze(fields[n]) for n in names])

    def rec_get(self, t, name):
        names = t.args[1]
        if name in names:
            return t.args[2 + names.index(name)]
        return None

    def rec_set(self, t, **kw):
        d = dict(zip(t.args[1], t.args[2:]))
        d.update(kw)
        return self.make_rec(t.args[0], d)

    def nf(self, t):
        return self.norm.nf(self, t)

    def decide(self, t):
        """True / False / None for a condition under the current path condition."""
        if t is TRUE or t is FALSE:
            return t is TRUE
        try:
            b = self.norm.nf_bool(self, t)
        except self.norm.TooBig:
            return None
        if b is TRUE or b is FALSE:
            return b is TRUE
        if self.pc is not TRUE:
            if self.norm.b_and(self.pc, b) is FALSE:
                return False
            if self.norm.b_and(self.pc, self.norm.b_not(b)) is FALSE:
                return True
        return None

    def truth(self, v):
        """Boolean term for Python truthiness."""
        if isinstance(v, VList):
            return const(len(v.items) > 0)
        if isinstance(v, VDict):
            if any(e[0] == "k" for e in v.entries):
                return TRUE
            if not v.entries:
                return FALSE
            return mk("truthy", self.freeze(v))
        if isinstance(v, VObj):
            return TRUE
        if v.op == "const":
            x = v.args[1]
            if v.args[0] == "float" and isinstance(x, str):
                return TRUE
            return const(bool(x))
        if v.op in ("tuple", "set") and not any(x.op == "spread" for x in v.args):
            return const(len(v.args) > 0)
        if v.op == "dict" and (not v.args[0] or any(e[0] == "k" for e in v.args[0])):
            return const(len(v.args[0]) > 0)
        if v.op in ("rec", "fn", "class", "py", "partial", "bound", "mod", "extref"):
            return TRUE
        if v.op in ("lt", "le", "gt", "ge", "eq", "ne", "is", "isnot", "in", "notin", "not", "and", "or",
                    "isinstance", "has", "callable", "hasattr", "truthy", "xor"):
            return v
        if v.op == "select":
            return self.sel(v.args[0], self.truth(v.args[1]), self.truth(v.args[2]))
        if v.op == "arr":
            return self.truth(v.args[0])
        return mk("truthy", v)

    def sel(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if c.op == "not":
            return self.sel(c.args[0], b, a)
        if not isinstance(a, T):
            a = self.freeze(a)
        if not isinstance(b, T):
            b = self.freeze(b)
        if a is b:
            return a
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
            return tup(*[self.sel(c, x, y) for x, y in zip(a.args, b.args)])
        if a.op == "rec" and b.op == "rec" and a.args[0] is b.args[0] and a.args[1] == b.args[1]:
            return mk("rec", a.args[0], a.args[1], *[self.sel(c, x, y) for x, y in zip(a.args[2:], b.args[2:])])
        if a.op == "rec" and b.op != "rec" and b.op != "const":
            bb = self.try_as_rec(b, a)
            if bb is not None:
                return self.sel(c, a, bb)
        if b.op == "rec" and a.op != "rec" and a.op != "const":
            aa = self.try_as_rec(a, b)
            if aa is not None:
                return self.sel(c, aa, b)
        if a.op == "tuple" and b.op in ("call", "mcall", "item", "attr", "sym"):
            return tup(*[self.sel(c, x, self.item(b, i)) for i, x in enumerate(a.args)])
        if b.op == "tuple" and a.op in ("call", "mcall", "item", "attr", "sym"):
            return tup(*[self.sel(c, self.item(a, i), x) for i, x in enumerate(b.args)])
        if a.op == "omega" and b.op == "omega":
            return mk("omega", self.sel(c, a.args[0], b.args[0]))
        if a.op == "dict" and b.op == "dict":
            ea = self.merge_entries(c, a.args[0], b.args[0])
            if not (len(ea) == 1 and ea[0][0] == "s"):
                return mk("dict", self.fentries(ea))
        if a.op == "static" and b.op == "static":
            return mk("static", self.sel(c, a.args[0], b.args[0]))
        return mk("select", c, a, b)

    def try_as_rec(self, t, like):
        """View an opaque value as a record with the fields of `like` (both branches of a traced
        conditional have the same structure)."""
        if t.op in ("sym", "item", "attr", "mcall", "call", "whileout"):
            if self.cls_of(t) is None or self.cls_of(t) is like.args[0]:
                return mk("rec", like.args[0], like.args[1],
                          *[mk("attr", t, n) for n in like.args[1]])
        return None

    def cls_of(self, t):
        if t.op == "rec":
            return t.args[0]
        return tm.meta(t, "cls")

    # ------------------------------------------------------------ items / attributes
    def item(self, v, i):
        """v[i] for a Python int i (tuple projection)."""
        if isinstance(v, VList):
            if any(isinstance(x, T) and x.op == "spread" for x in v.items):
                v = self.freeze(v)
            else:
                try:
                    return v.items[i]
                except IndexError:
                    return self.unknown("index")
        if not isinstance(v, T):
            v = self.freeze(v)
        if v.op == "tuple":
            if -len(v.args) <= i < len(v.args):
                return v.args[i]
            return self.unknown("index")
        if v.op == "rec" and v.args[0].is_namedtuple():
            return v.args[2 + i]
        if v.op in ("zip", "enumerate", "reversed", "range"):
            s = self.as_seq(v)
            if s is not None and -len(s) <= i < len(s):
                return s[i]
        if v.op == "select":
            return self.sel(v.args[0], self.item(v.args[1], i), self.item(v.args[2], i))
        if v.op == "omega":
            return mk("omega", self.item(v.args[0], i))
        ni = tm.meta(v, "items")
        if ni is not None and 0 <= i < len(ni):
            return ni[i]
        if v.op == "stack" and -len(v.args) <= i < len(v.args):
            return v.args[i]
        if v.op in INTOPS:
            iv = intvec(v)
            if isinstance(iv, list) and -len(iv) <= i < len(iv):
                return mk("arr", const(iv[i]), NONE)
        return mk("item", v, const(i))

    def unpack(self, v, n):
        if isinstance(v, VList):
            if len(v.items) == n and not any(isinstance(x, T) and x.op == "spread" for x in v.items):
                return list(v.items)
            v = self.freeze(v)
        if isinstance(v, T) and v.op == "tuple":
            if len(v.args) == n:
                return list(v.args)
            return [self.unknown("unpack") for _ in range(n)]
        return [self.item(v, i) for i in range(n)]

    def getattr(self, v, name):
        ext = self.ext
        if isinstance(v, VObj):
            if name in v.vars:
                return v.vars[name]
            return self.class_attr(v.cls, name, v)
        if isinstance(v, (VList, VDict)):
            return mk("py", Py(f"method {name}", lambda I, a, k, v=v: ext.cell_method(I, v, name, a, k)))
        o = v.op
        if o == "rec":
            x = self.rec_get(v, name)
            if x is not None:
                return x
            return self.class_attr(v.args[0], name, v)
        if o == "mod":
            m = v.args[0]
            if name in m.frame.vars:
                return m.frame.vars[name]
            sub = m.name + "." + name
            if sub in self.modules:
                return mk("mod", self.load(sub))
            return self.unknown(f"{m.name}.{name}")
        if o == "extref":
            return ext.extref(v.args[0] + "." + name)
        if o == "class":
            c = v.args[0]
            if c.is_enum() and not name.startswith("__"):
                if name in ("where", "promote"):
                    return ext.extref("lineax.RESULTS." + name)
                return mk("res", name)
            x, owner = c.lookup(name)
            if x is not None:
                if x.op == "fn" and x.args[0].kind == "classmethod":
                    return mk("bound", x, v)
                return x
            return mk("attr", v, name)
        if o == "fn":
            f = v.args[0]
            if name in f.attrs:
                return f.attrs[name]
            if name == "__wrapped__":
                return v
            if name == "__closure__" and f.frame is f.module.frame:
                return NONE
            if name in ("def_jvp", "defjvp"):
                def setjvp(I, a, k, f=f):
                    f.attrs["__jvp__"] = a[0]
                    return a[0]
                return mk("py", Py("defjvp", setjvp))
            return mk("attr", v, name)
        if o == "select":
            return self.sel(v.args[0], self.getattr(v.args[1], name), self.getattr(v.args[2], name))
        if o == "static" and name == "value":
            return v.args[0]
        r = ext.term_attr(self, v, name)
        if r is not None:
            return r
        cls = tm.meta(v, "cls")
        if cls is not None:
            x, owner = cls.lookup(name)
            if x is not None and x.op == "fn" and x.args[0].kind != "property":
                return mk("bound", x, v)
            if x is not None and x.op == "fn" and x.args[0].kind == "property" and not x.args[0].abstract:
                return self.call(x, [v], {})
            if x is not None and x.op != "fn" and name not in cls.fields():
                return x
        at = tm.meta(v, "attrs")
        if at is not None and name in at:
            return at[name]
        return mk("attr", v, name)

    def class_attr(self, cls, name, self_v):
        if name == "__class__":
            return mk("class", cls)
        x, owner = cls.lookup(name)
        if x is None:
            if cls.is_namedtuple() and name in ("_replace", "_asdict", "_fields"):
                return mk("attr", self.freeze(self_v), name)
            return mk("attr", self.freeze(self_v), name)
        if x.op == "fn":
            k = x.args[0].kind
            if k == "property":
                return self.call(x, [self_v], {})
            if k == "staticmethod":
                return x
            if k == "classmethod":
                return mk("bound", x, mk("class", cls))
            if isinstance(self_v, VObj):
                return mk("py", Py(name, lambda I, a, kw: I.call(x, [self_v] + a, kw)))
            return mk("bound", x, self_v)
        return x

    def setattr(self, v, name, val):
        if isinstance(v, VObj):
            self.write(v, name, val)
            return
        if isinstance(v, T) and v.op == "class":
            if not name.startswith("__"):
                self.event("mutate", ("class attribute", v, name)) if LOADING[0] == 0 else None
            v.args[0].ns[name] = self.freeze(val)
            return
        if isinstance(v, T) and v.op == "fn":
            if v.args[0].shared and LOADING[0] == 0:
                self.event("mutate", ("function attribute", v, name))
            v.args[0].attrs[name] = val
            return
        if isinstance(v, T) and v.op == "attr" and name.startswith("__"):
            return
        self.event("mutate", ("attribute", self.freeze(v), name))

    # ------------------------------------------------------------ execution
    def exec_block(self, stmts, fr, m, k):
        """Execute statements; `k` runs what follows the block inside this function."""
        for i, s in enumerate(stmts):
            tm._cur_loc[0] = (m.relpath, s.lineno, self.stack[-1][0] if self.stack else "")
            if isinstance(s, ast.If):
                v = self.eval(s.test, fr, m)
                c = self.truth(v)
                d = self.decide(c)
                self.event("branch", (c, d, self.freeze(v)))
                if d is not None:
                    body = s.body if d else s.orelse
                    rest = stmts[i + 1:]
                    if has_jump(body):
                        return self.exec_block(body, fr, m, lambda: self.exec_block(rest, fr, m, k))
                    r = self.exec_straight(body, fr, m)
                    if r is RAISE:
                        return RAISE
                    continue
                if has_jump(s.body) or has_jump(s.orelse):
                    rest = stmts[i + 1:]
                    kk = lambda: self.exec_block(rest, fr, m, k)
                    return self.fork(
                        c,
                        lambda: self.exec_block(s.body, fr, m, kk),
                        lambda: self.exec_block(s.orelse, fr, m, kk),
                    )
                r = self.fork(
                    c,
                    lambda: self.exec_straight(s.body, fr, m),
                    lambda: self.exec_straight(s.orelse, fr, m),
                )
                if r is RAISE:
                    return RAISE
                continue
            if isinstance(s, ast.Return):
                return C("ret", NONE if s.value is None else self.eval(s.value, fr, m))
            if isinstance(s, ast.Raise):
                self.do_raise(s, fr, m)
                return RAISE
            if isinstance(s, (ast.For, ast.While)) :
                rest = stmts[i + 1:]
                if isinstance(s, ast.For):
                    seq = self.as_seq(self.eval(s.iter, fr, m))
                    if seq is not None:
                        if has_jump(s.body):
                            return self.unroll(s, seq, 0, fr, m, lambda: self.exec_block(rest, fr, m, k))
                        for x in seq:
                            self.assign(s.target, x, fr, m)
                            if self.exec_straight(s.body, fr, m) is RAISE:
                                return RAISE
                        if s.orelse and self.exec_straight(s.orelse, fr, m) is RAISE:
                            return RAISE
                        continue
                    self.symbolic_for(s, fr, m)
                    continue
                r = self.exec_while(s, fr, m, lambda: self.exec_block(rest, fr, m, k))
                if r is not None:
                    return r
                continue
            if isinstance(s, ast.Break):
                return fr.vars["$break"]()
            if isinstance(s, ast.Continue):
                return fr.vars["$continue"]()
            if isinstance(s, ast.With):
                for it in s.items:
                    cv = self.eval(it.context_expr, fr, m)
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, mk("entered", self.freeze(cv)), fr, m)
                if has_jump(s.body):
                    rest = stmts[i + 1:]
                    return self.exec_block(s.body, fr, m, lambda: self.exec_block(rest, fr, m, k))
                if self.exec_straight(s.body, fr, m) is RAISE:
                    return RAISE
                continue
            if isinstance(s, ast.Try):
                rest = stmts[i + 1:]
                r = self.exec_try(s, fr, m, lambda: self.exec_block(rest, fr, m, k))
                if r is not None:
                    return r
                continue
            r = self.exec_simple(s, fr, m)
            if r is RAISE:
                return RAISE
        return k()

    def exec_straight(self, stmts, fr, m):
        r = self.exec_block(stmts, fr, m, lambda: FALL)
        return r

    def fork(self, c, fa, fb):
        n = self.norm
        try:
            cb = n.nf_bool(self, c)
        except n.TooBig:
            cb = mk("opaque_bool", c)
            cb = n.atom_bool(cb)
        pc0 = self.pc
        old = self.start()
        self.pc = n.b_and(pc0, cb)
        ra = fa() if self.pc is not FALSE else RAISE
        wa = self.collect(old)
        old = self.start()
        self.pc = n.b_and(pc0, n.b_not(cb))
        rb = fb() if self.pc is not FALSE else RAISE
        wb = self.collect(old)
        self.pc = pc0
        if ra is RAISE and rb is RAISE:
            return RAISE
        if ra is RAISE:
            self.apply_writes(wb)
            self.pc = n.b_and(pc0, n.b_not(cb))
            return rb
        if rb is RAISE:
            self.apply_writes(wa)
            self.pc = n.b_and(pc0, cb)
            return ra
        self.merge_writes(c, wa, wb)
        if ra is FALL and rb is FALL:
            return FALL
        if ra.kind == "ret" and rb.kind == "ret":
            return C("ret", self.sel(c, ra.value, rb.value))
        # mixed fall/ret can only happen for malformed continuations
        return C("ret", self.unknown("mixed completion"))

    def unroll(self, s, seq, j, fr, m, after):
        if j >= len(seq):
            if s.orelse:
                return self.exec_block(s.orelse, fr, m, after)
            return after()
        self.assign(s.target, seq[j], fr, m)
        nxt = lambda: self.unroll(s, seq, j + 1, fr, m, after)
        ob, oc = fr.vars.get("$break"), fr.vars.get("$continue")

        def restore(f):
            def g():
                fr.vars["$break"], fr.vars["$continue"] = ob, oc
                return f()
            return g
        fr.vars["$break"] = restore(after)
        fr.vars["$continue"] = restore(nxt)
        return self.exec_block(s.body, fr, m, restore(nxt))

    def assigned(self, stmts):
        out = []
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
                    out.append(n.id)
        return out

    def exec_while(self, s, fr, m, after):
        for _ in range(64):
            c = self.truth(self.eval(s.test, fr, m))
            d = self.decide(c)
            self.event("branch", (c, d, c))
            if d is False:
                return None if not s.orelse else (RAISE if self.exec_straight(s.orelse, fr, m) is RAISE else None)
            if d is None or has_jump(s.body):
                break
            if self.exec_straight(s.body, fr, m) is RAISE:
                return RAISE
        for n in self.assigned(s.body):
            self.write(fr, n, self.unknown(f"while loop variable {n}"))
        return None

    def symbolic_for(self, s, fr, m):
        """Loop over a sequence of unknown length: summarised by one iteration."""
        it = self.freeze(self.eval(s.iter, fr, m))
        names = [n for n in self.assigned(s.body) if n in fr.vars]
        tgt = self.assigned([ast.Assign(targets=[s.target], value=ast.Constant(0))])
        tgt = [n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)]
        names = [n for n in names if n not in tgt]
        inits = {n: fr.vars[n] for n in names}
        elem = self.ext.elem_of(self, it)
        carr = {}
        for n in names:
            v = fr.vars[n]
            if isinstance(v, T):
                carr[n] = fresh("loop_" + n)
        old = self.start()
        for n, c in carr.items():
            self.write(fr, n, c)
        self.assign(s.target, elem, fr, m)
        lens = {}
        r = self.exec_block(s.body, fr, m, lambda: FALL)
        w = self.collect(old)
        for cell, key, val in w.values():
            if isinstance(cell, VList) and key == "items":
                cur = cell.vars["items"]
                if isinstance(val, list) and len(val) >= len(cur) and val[: len(cur)] == cur:
                    new = [self.freeze(x) for x in val[len(cur):]]
                    body = new[0] if len(new) == 1 and new[0].op == "spread" else (
                        new[0] if len(new) == 1 else tup(*new))
                    node = self.ext.mk_comp(self, elem, body, it, carr, flat=len(new) == 1 and new[0].op == "spread")
                    self.write(cell, key, cur + [mk("spread", node)])
                else:
                    self.write(cell, key, [mk("spread", self.unknown("loop"))])
            elif cell is fr and key in carr:
                nxt = self.freeze(val) if val is not self else self.unknown("loop")
                if nxt is carr[key]:
                    self.write(fr, key, inits[key])
                else:
                    self.write(fr, key, self.ext.mk_fold(self, elem, carr[key], nxt, inits[key], it))
            elif val is not self:
                self.write(cell, key, val if cell is not fr else self.unknown("loop variable"))

    CATCH_ALL = {None, "Exception", "BaseException"}

    def caught_quietly(self, s):
        """Names of the exceptions that the handlers of a try statement drop without raising anything again."""
        out = set()
        for h in s.handlers:
            if any(isinstance(n, ast.Raise) for b in h.body for n in ast.walk(b)):
                continue
            for t in h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]:
                out.add(None if t is None else t.id if isinstance(t, ast.Name) else getattr(t, "attr", "?"))
        return out

    def swallows(self, name):
        """Is an exception of this name (None: a failed runtime check) dropped by an enclosing try statement?"""
        names = {name} if name else {"RuntimeError", "EquinoxRuntimeError", "XlaRuntimeError", "JaxRuntimeError"}
        return any(s & (self.CATCH_ALL | names) for s in self.quiet)

    def exec_try(self, s, fr, m, after):
        outer, inner = self.quiet, self.quiet + [self.caught_quietly(s)]

        def then():
            self.quiet = outer
            try:
                return after()
            finally:
                self.quiet = inner
        self.quiet = inner
        try:
            return self.exec_try_(s, fr, m, then)
        finally:
            self.quiet = outer

    def exec_try_(self, s, fr, m, after):
        keyerr = any(self.handler_name(h) in ("KeyError", "LookupError", "Exception", None) for h in s.handlers)
        if keyerr:
            # a lookup in a symbolic mapping may fail: condition `has(mapping, key)`
            conds = []
            self.keylookups = getattr(self, "keylookups", None) or []
            self.keylookups.append(conds)
            old = self.start()
            body = lambda: self.exec_block(s.body, fr, m, lambda: FALL) if not has_jump(s.body) else None
            if has_jump(s.body) or any(has_jump(h.body) for h in s.handlers):
                # evaluate with continuation duplication
                r = self.exec_block(s.body, fr, m, after)
                w = self.collect(old)
                self.keylookups.pop()
                if not conds:
                    self.apply_writes(w)
                    return r
                c = conds[0]
                for x in conds[1:]:
                    c = mk("and", c, x)
                h = s.handlers[0]
                return self.fork(c, lambda: self.exec_block(s.body + s.orelse + s.finalbody, fr, m, after),
                                 lambda: self.exec_block(h.body + s.finalbody, fr, m, after))
            r = self.exec_block(s.body, fr, m, lambda: FALL)
            w = self.collect(old)
            self.keylookups.pop()
            if conds:
                c = conds[0]
                for x in conds[1:]:
                    c = mk("and", c, x)
                h = s.handlers[0]
                r = self.fork(c, lambda: self.exec_straight(s.body + s.orelse, fr, m),
                              lambda: self.exec_straight(h.body, fr, m))
                if r is RAISE:
                    return RAISE
                if s.finalbody:
                    return RAISE if self.exec_straight(s.finalbody, fr, m) is RAISE else None
                return None
            self.apply_writes(w)
            if r is RAISE and not s.handlers:
                return RAISE
            rest = s.orelse + s.finalbody
            if rest and self.exec_straight(rest, fr, m) is RAISE:
                return RAISE
            return None
        if has_jump(s.body):
            return self.exec_block(s.body + s.orelse + s.finalbody, fr, m, after)
        if self.exec_straight(s.body + s.orelse + s.finalbody, fr, m) is RAISE:
            return RAISE
        return None

    def handler_name(self, h):
        if h.type is None:
            return None
        return h.type.id if isinstance(h.type, ast.Name) else getattr(h.type, "attr", "?")

    def do_raise(self, s, fr, m):
        v = NONE if s.exc is None else self.eval_quiet(s.exc, fr, m)
        name = None
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = e.id if isinstance(e, ast.Name) else getattr(e, "attr", None)
        if not self.swallows(name):
            self.event("raise", (name, self.freeze(v)))

    def eval_quiet(self, e, fr, m):
        try:
            return self.eval(e, fr, m)
        except (AnalysisError, RecursionError):
            return self.unknown("raise arg")

    def exec_simple(self, s, fr, m):
        if isinstance(s, ast.Assign):
            v = self.eval(s.value, fr, m)
            for t in s.targets:
                self.assign(t, v, fr, m)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, fr, m), fr, m)
        elif isinstance(s, ast.AugAssign):
            load = ast.copy_location(_as_load(s.target), s.target)
            a = self.eval(load, fr, m)
            b = self.eval(s.value, fr, m)
            if isinstance(a, VList) and isinstance(s.op, ast.Add):
                self.write(a, "items", a.items + self.as_seq(b) if self.as_seq(b) is not None else [mk("spread", self.freeze(a)), mk("spread", self.freeze(b))])
            else:
                if isinstance(s.target, ast.Attribute) or isinstance(s.target, ast.Subscript):
                    pass
                self.assign(s.target, self.binop(BINOPS[type(s.op)], a, b), fr, m)
        elif isinstance(s, ast.Expr):
            self.eval(s.value, fr, m)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.write(fr, s.name, self.make_func(s, fr, m))
        elif isinstance(s, ast.ClassDef):
            self.write(fr, s.name, self.make_class(s, fr, m))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                for tt in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(tt, ast.Name):
                        if tt.id not in fr.vars:
                            self.event("unbound", tt.id)
                        self.delete(fr, tt.id)
                    elif isinstance(tt, ast.Subscript):
                        o = self.eval(tt.value, fr, m)
                        self.ext.del_item(self, o, self.eval(tt.slice, fr, m))
        elif isinstance(s, ast.Assert):
            c = self.truth(self.eval(s.test, fr, m))
            self.event("assert", c)
            d = self.decide(c)
            if d is False:
                return RAISE
        elif isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    self.write(fr, a.asname, self.import_value(a.name))
                else:
                    self.write(fr, a.name.split(".")[0], self.import_value(a.name.split(".")[0]))
                    self.import_value(a.name)
        elif isinstance(s, ast.ImportFrom):
            base = self.resolve_import(s.module, s.level, m)
            for a in s.names:
                self.write(fr, a.asname or a.name, self.import_value(base, a.name))
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Global):
            fr.vars.setdefault("$global", set()).update(s.names)
            self.event("global", tuple(s.names))
        elif isinstance(s, ast.Nonlocal):
            fr.vars.setdefault("$nonlocal", set()).update(s.names)
        else:
            for n in self.assigned([s]):
                self.write(fr, n, self.unknown(type(s).__name__))
        return FALL

    def assign(self, t, v, fr, m):
        if isinstance(t, ast.Name):
            g = fr.vars.get("$global")
            nl = fr.vars.get("$nonlocal")
            if g and t.id in g:
                self.event("mutate", ("global", t.id, t.id))
                self.write(m.frame, t.id, v)
            elif nl and t.id in nl:
                f = fr.parent
                while f is not None and t.id not in f.vars:
                    f = f.parent
                if f is not None and f.shared and LOADING[0] == 0:
                    self.event("mutate", ("variable shared by all calls", NONE, t.id))
                self.write(f if f is not None else fr, t.id, v)
            else:
                self.write(fr, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if not star:
                for e, x in zip(t.elts, self.unpack(v, len(t.elts))):
                    self.assign(e, x, fr, m)
            else:
                j = star[0]
                after = len(t.elts) - j - 1
                seq = self.as_seq(v)
                if seq is not None and len(seq) >= len(t.elts) - 1:
                    for e, x in zip(t.elts[:j], seq[:j]):
                        self.assign(e, x, fr, m)
                    self.assign(t.elts[j].value, VList(seq[j: len(seq) - after]), fr, m)
                    for e, x in zip(t.elts[j + 1:], seq[len(seq) - after:]):
                        self.assign(e, x, fr, m)
                else:
                    fv = self.freeze(v)
                    for i, e in enumerate(t.elts[:j]):
                        self.assign(e, self.item(fv, i), fr, m)
                    self.assign(t.elts[j].value, mk("getitem", fv, mk("slice", const(j), const(-after) if after else NONE, NONE)), fr, m)
                    for i, e in enumerate(t.elts[j + 1:]):
                        self.assign(e, self.item(fv, i - after), fr, m)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr, m), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr, m)
            self.ext.set_item(self, o, self.eval(t.slice, fr, m), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, m)

    def as_seq(self, v):
        """Python list of the elements when the length is known, else None."""
        if isinstance(v, VList):
            if any(isinstance(x, T) and x.op == "spread" for x in v.items):
                return None
            return list(v.items)
        if isinstance(v, VDict):
            if all(e[0] == "k" for e in v.entries):
                return [e[1] for e in v.entries]
            return None
        if not isinstance(v, T):
            return None
        if v.op == "tuple":
            if any(x.op == "spread" for x in v.args):
                return None
            return list(v.args)
        if v.op == "dict":
            if all(e[0] == "k" for e in v.args[0]):
                return [e[1] for e in v.args[0]]
            return None
        if v.op == "range":
            lo, hi, st = v.args
            if all(is_const(x, "int") for x in v.args) and abs(pyval(hi) - pyval(lo)) <= 64 and pyval(st):
                return [const(i) for i in range(pyval(lo), pyval(hi), pyval(st))]
            return None
        if v.op == "enumerate":
            s = self.as_seq(v.args[0])
            return None if s is None else [tup(const(i), self.freeze(x)) for i, x in enumerate(s)]
        if v.op == "zip":
            ss = [self.as_seq(x) for x in v.args]
            known = [s for s in ss if s is not None]
            if not known:
                return None
            n = min(len(s) for s in known)
            return [tup(*[self.freeze(s[i]) if s is not None else self.item(x, i) for s, x in zip(ss, v.args)]) for i in range(n)]
        if v.op == "reversed":
            s = self.as_seq(v.args[0])
            return None if s is None else s[::-1]
        if v.op == "set":
            return list(v.args)
        if v.op == "rec" and v.args[0].is_namedtuple():
            return list(v.args[2:])
        if v.op == "const" and v.args[0] == "str":
            return [const(c) for c in v.args[1]]
        ni = tm.meta(v, "items")
        if ni is not None:
            return list(ni)
        return None

    # ------------------------------------------------------------ definitions
    def make_func(self, s, fr, m, cls=None):
        f = Func(s, fr, m, s.name, cls)
        f.defaults = [self.eval(d, fr, m) for d in s.args.defaults]
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                f.kwdefaults[a.arg] = self.eval(d, fr, m)
        v = mk("fn", f)
        for d in reversed(s.decorator_list):
            v = self.decorate(v, d, fr, m)
        return v

    def decorate(self, v, d, fr, m):
        f = v.args[0] if v.op == "fn" else None
        name = ast.unparse(d)
        if f is not None:
            if name == "property" or name.endswith(".cached_property") or name == "cached_property":
                f.kind = "property"
                return v
            if name in ("staticmethod", "classmethod"):
                f.kind = name
                return v
            if name.split("(")[0].split(".")[-1] in ("abstractmethod",):
                f.abstract = True
                return v
            if name.split("(")[0].split(".")[-1] in ("overload", "final", "no_type_check", "override"):
                return v
        dv = self.eval(d, fr, m)
        return self.freeze(self.call(dv, [v], {}))

    def make_class(self, s, fr, m):
        c = ClassObj(s.name, m, s)
        for b in s.bases:
            bv = self.eval_quiet(b, fr, m)
            while isinstance(bv, T) and bv.op == "subscripted":
                bv = bv.args[0]
            if isinstance(bv, T) and bv.op == "class":
                c.bases.append(bv.args[0])
            elif isinstance(bv, T) and bv.op == "extref":
                c.bases.append(bv.args[0])
            else:
                c.bases.append("?" + ast.unparse(b))
        cf = Frame(fr)
        for st in s.body:
            tm._cur_loc[0] = (m.relpath, st.lineno, s.name)
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                ann = ast.unparse(st.annotation)
                n = st.target.id
                dflt = None
                conv = None
                if st.value is not None:
                    dv = self.eval(st.value, cf, m)
                    fd = self.freeze(dv)
                    if fd.op == "field":
                        conv = fd.args[1] if fd.args[1] is not NONE else None
                        dflt = None if fd.args[0].op == "missing" else fd.args[0]
                        if fd.args[2] is FALSE:
                            pass
                    else:
                        dflt = fd
                if "ClassVar" in ann:
                    c.classvars.add(n)
                    if "Abstract" in ann:
                        c.abstractvars.add(n)
                    if dflt is not None:
                        c.ns[n] = dflt
                        cf.vars[n] = dflt
                else:
                    if "AbstractVar" in ann:
                        c.abstractvars.add(n)
                    c.own_fields[n] = (dflt, ann, conv)
                    if dflt is not None:
                        c.ns[n] = dflt
                        cf.vars[n] = dflt
            elif isinstance(st, ast.FunctionDef):
                # the function's enclosing scope is the scope around the class
                v = self.make_func_in_class(st, fr, cf, m, c)
                cf.vars[st.name] = v
                c.ns[st.name] = v
            elif isinstance(st, ast.Assign):
                v = self.freeze(self.eval(st.value, cf, m))
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        cf.vars[t.id] = v
                        c.ns[t.id] = v
            elif isinstance(st, ast.ClassDef):
                v = self.make_class(st, cf, m)
                cf.vars[st.name] = v
                c.ns[st.name] = v
            elif isinstance(st, ast.If):
                self.exec_block([st], cf, m, lambda: FALL)
                for k2, v2 in cf.vars.items():
                    if k2 not in c.ns and isinstance(v2, T):
                        c.ns[k2] = v2
                        if v2.op == "fn":
                            v2.args[0].cls = c
        c.finish()
        v = mk("class", c)
        for d in reversed(s.decorator_list):
            dn = ast.unparse(d).split("(")[0].split(".")[-1]
            if dn not in ("dataclass", "final", "runtime_checkable"):
                v = self.freeze(self.call(self.eval(d, fr, m), [v], {}))
        return v

    def make_func_in_class(self, s, fr, cf, m, c):
        f = Func(s, fr, m, s.name, c)
        f.defaults = [self.eval(d, cf, m) for d in s.args.defaults]
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                f.kwdefaults[a.arg] = self.eval(d, cf, m)
        f.name = f"{c.name}.{s.name}"
        v = mk("fn", f)
        for d in reversed(s.decorator_list):
            v = self.decorate(v, d, cf, m)
        return v

    # ------------------------------------------------------------ calls
    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        # expand unknown star arguments against the remaining positional parameters
        if any(isinstance(x, T) and x.op == "star" for x in args):
            new = []
            for i, x in enumerate(args):
                if isinstance(x, T) and x.op == "star":
                    need = len(pos) - len(new) - (len(args) - i - 1)
                    need -= sum(1 for p in pos[len(new):] if p in kwargs)
                    if a.vararg is not None and need <= 0:
                        new.append(x)
                    else:
                        new += [self.item(x.args[0], j) for j in range(max(need, 0))]
                else:
                    new.append(x)
            args = new
        for n, v in zip(pos, args):
            out[n] = v
        extra = args[len(pos):]
        if a.vararg is not None:
            out[a.vararg.arg] = tup(*[self.freeze(x) for x in extra]) if not any(
                isinstance(x, T) and x.op == "star" for x in extra) else (
                extra[0].args[0] if len(extra) == 1 else self.unknown("star args"))
        elif extra:
            self.event("badcall", (f.name, "too many positional arguments"))
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        sk = kwargs.pop("**", None)
        for n, v in kwargs.items():
            if n in pos or n in kwonly:
                if n in out:
                    self.event("badcall", (f.name, f"multiple values for {n}"))
                out[n] = v
            else:
                rest[n] = v
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in out:
                j = i - (len(pos) - nd)
                if sk is not None:
                    d = f.defaults[j] if j >= 0 else self.unknown(n)
                    out[n] = self.sel(mk("has", sk, const(n)), mk("item", sk, const(n)), d)
                elif j >= 0:
                    out[n] = f.defaults[j]
                else:
                    self.event("badcall", (f.name, f"missing argument {n}"))
                    out[n] = self.unknown(f"missing argument {n}")
        for n in kwonly:
            if n not in out:
                if n in f.kwdefaults:
                    out[n] = f.kwdefaults[n]
                else:
                    self.event("badcall", (f.name, f"missing argument {n}"))
                    out[n] = self.unknown(f"missing argument {n}")
        if a.kwarg is not None:
            d = VDict([("k", const(n), v) for n, v in rest.items()] + ([("s", sk)] if sk is not None else []))
            out[a.kwarg.arg] = d
        elif rest:
            self.event("badcall", (f.name, f"unexpected arguments {sorted(rest)}"))
        return out

    def call(self, fv, args, kwargs):
        if not isinstance(fv, T):
            if isinstance(fv, VObj):
                x, _ = fv.cls.lookup("__call__")
                if x is not None:
                    return self.call(x, [fv] + list(args), kwargs)
            return self.unknown("call of cell")
        o = fv.op
        if o == "fn":
            if "__jvp__" in fv.args[0].attrs:
                self.event("custom_jvp", (fv, [self.freeze(x) for x in self.bind(fv.args[0], args, kwargs).values()]))
            return self.call_func(fv.args[0], args, kwargs)
        if o == "py":
            return fv.args[0].fn(self, list(args), dict(kwargs))
        if o == "bound":
            f, s = fv.args
            if s.op != "rec" and s.op != "class" and f.op == "fn":
                return self.opaque_method(f.args[0], s, args, kwargs)
            return self.call(f, [s] + list(args), kwargs)
        if o == "partial":
            return self.call_partial(fv, args, kwargs)
        if o == "class":
            return self.instantiate(fv.args[0], args, kwargs)
        if o == "extref":
            return self.ext.call_ext(self, fv.args[0], list(args), dict(kwargs))
        if o == "select":
            c, a, b = fv.args
            return self.branch(c, lambda: self.call(a, args, kwargs), lambda: self.call(b, args, kwargs))
        if o == "rec":
            x, _ = fv.args[0].lookup("__call__")
            if x is not None:
                return self.call(x, [fv] + list(args), kwargs)
            if any(b.endswith("Partial") for b in fv.args[0].ext_bases()):
                return self.unknown("Partial subclass")
        if o == "lam":
            return self.apply_lam(fv, args)
        if o == "attr":
            r = self.ext.call_method(self, fv.args[0], fv.args[1], list(args), dict(kwargs))
            if r is not None:
                return r
        r = self.ext.call_term(self, fv, list(args), dict(kwargs))
        if r is not None:
            return r
        return self.opaque_call(fv, args, kwargs)

    def opaque_call(self, fv, args, kwargs):
        kn = tuple(sorted(kwargs))
        t = mk("call", fv, kn, *[self.freeze(a) for a in args], *[self.freeze(kwargs[n]) for n in kn])
        self.callsites.add((tm._cur_loc[0], "call"))
        self.event("opaque", t)
        return t

    def opaque_method(self, f, obj, args, kwargs):
        """Call of a method of an object known only by its (abstract) class."""
        b = self.bind(f, [obj] + list(args), kwargs)
        names = [n for n in b][0:]
        order = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs][1:]
        vals = [self.freeze(b[n]) for n in order if n in b]
        t = mk("mcall", obj, f.node.name, tuple(order), *vals)
        self.event("opaque", t)
        return t

    def call_partial(self, fv, args, kwargs):
        f, n, kn = fv.args[0], fv.args[1], fv.args[2]
        pa = list(fv.args[3: 3 + n])
        pk = dict(zip(kn, fv.args[3 + n:]))
        pk.update(kwargs)
        return self.call(f, pa + list(args), pk)

    def py(self, fn, name="<reference>"):
        return mk("py", Py(name, fn))

    def mk_partial(self, f, args, kwargs):
        kn = tuple(sorted(kwargs))
        return mk("partial", f, len(args), kn, *[self.freeze(a) for a in args], *[self.freeze(kwargs[k]) for k in kn])

    def traced_branch(self, c, fa, fb):
        self.traced.append(c)
        try:
            return self.branch(c, fa, fb)
        finally:
            self.traced.pop()

    def branch(self, c, fa, fb):
        """Evaluate two value thunks under opposite conditions and merge."""
        d = self.decide(c)
        if d is True:
            return fa()
        if d is False:
            return fb()
        r = self.fork(c, lambda: C("ret", fa()), lambda: C("ret", fb()))
        if r is RAISE:
            return self.unknown("raises")
        return r.value

    def call_func(self, f, args, kwargs):
        if len(self.stack) > 120:
            return self.unknown("recursion")
        if sum(1 for s in self.stack if len(s) > 2 and s[2] is f) > 3:
            return self.unknown("recursive call")
        self.ncalls += 1
        if f in self.stubs:
            return self.stubs[f](self.bind(f, args, kwargs))
        if f in self.opaque:
            b = self.bind(f, args, kwargs)
            if self.prepare is not None:
                b = self.prepare(b)
            order = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
            t = mk("mcall", mk("sym", "<function>"), f.node.name, tuple(n for n in order if n in b), *[self.freeze(b[n]) for n in order if n in b])
            self.event("opaque", t)
            return t
        self.funcs_seen.add((f.module.relpath, f.name, f.node.lineno))
        fr = Frame(f.frame, f)
        b = self.bind(f, args, kwargs)
        for n, v in b.items():
            self.write(fr, n, v)
        loc = tm._cur_loc[0]
        self.stack.append((f.name, f.module, f))
        pc0 = self.pc
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr, f.module)
            if _is_generator(f.node):
                return self.unknown("generator")
            r = self.exec_block(f.node.body, fr, f.module, lambda: C("ret", NONE))
            if r is RAISE:
                self.pc = FALSE if self.pc is FALSE else self.pc
                self.event("noreturn", f.name)
                return mk("raises", f.name)
            return r.value
        finally:
            self.stack.pop()
            tm._cur_loc[0] = loc
            self.pc = pc0

    def instantiate(self, cls, args, kwargs):
        if cls.is_enum():
            return self.unknown("enum")
        init, owner = cls.lookup("__init__")
        if cls.is_namedtuple() or init is None:
            flds = cls.fields()
            obj = VObj(cls)
            names = list(flds)
            args = list(args)
            if any(isinstance(x, T) and x.op == "star" for x in args):
                new = []
                for i, x in enumerate(args):
                    if isinstance(x, T) and x.op == "star":
                        need = len(names) - len(new) - (len(args) - i - 1) - len(kwargs)
                        new += [self.item(x.args[0], j) for j in range(max(need, 0))]
                    else:
                        new.append(x)
                args = new
            kw = dict(kwargs)
            sk = kw.pop("**", None)
            for i, n in enumerate(names):
                if i < len(args):
                    v = args[i]
                elif n in kw:
                    v = kw.pop(n)
                elif sk is not None:
                    v = mk("item", sk, const(n))
                elif flds[n][0] is not None:
                    v = flds[n][0]
                else:
                    self.event("badcall", (cls.name, f"missing field {n}"))
                    v = self.unknown(f"missing field {n}")
                if flds[n][2] is not None:
                    v = self.call(flds[n][2], [v], {})
                self.write(obj, n, v)
            if len(args) > len(names) or kw:
                self.event("badcall", (cls.name, f"unexpected arguments {sorted(kw)}"))
            post, _ = cls.lookup("__post_init__")
            if post is not None:
                self.call(post, [obj], {})
            chk, _ = cls.lookup("__check_init__")
            if chk is not None:
                self.call(chk, [obj], {})
            return self.freeze(obj)
        obj = VObj(cls)
        self.call(init, [obj] + list(args), kwargs)
        chk, _ = cls.lookup("__check_init__")
        if chk is not None:
            self.call(chk, [obj], {})
        flds = cls.fields()
        for n, (d, ann, conv) in flds.items():
            if n not in obj.vars and d is not None:
                self.write(obj, n, d)
            if conv is not None and n in obj.vars:
                self.write(obj, n, self.call(conv, [obj.vars[n]], {}))
        return self.freeze(obj)

    # ------------------------------------------------------------ lambda reification
    def symlike(self, x, prefix="v"):
        """Fresh symbols in the structure of x -> (value, leaves)."""
        leaves = []

        def go(t):
            if not isinstance(t, T):
                t = self.freeze(t)
            if t.op == "tuple":
                return tup(*[go(a) for a in t.args])
            if t.op == "rec":
                return mk("rec", t.args[0], t.args[1], *[go(a) for a in t.args[2:]])
            if plain_dict(t):
                return mk("dict", tuple((e[0], e[1], go(e[2])) for e in t.args[0]))
            if t is NONE or t.op in ("fn", "class") or (t.op == "const" and t.args[0] == "str"):
                return t
            s = fresh(prefix)
            tm.set_meta(s, traced=t.op != "stat")
            c = self.cls_of(t)
            if c is not None:
                tm.set_meta(s, cls=c)
            for key in ("scalar", "notnone", "kind"):
                mv = tm.meta(t, key)
                if mv is not None:
                    tm.set_meta(s, **{key: mv})
            leaves.append(s)
            return s

        v = go(x)
        return v, leaves

    def flatten(self, x):
        out = []

        def go(t):
            if not isinstance(t, T):
                t = self.freeze(t)
            if t.op == "tuple":
                for a in t.args:
                    go(a)
            elif t.op == "rec":
                for a in t.args[2:]:
                    go(a)
            elif plain_dict(t):
                for e in t.args[0]:
                    go(e[2])
            elif t is NONE or t.op in ("fn", "class") or (t.op == "const" and t.args[0] == "str"):
                pass
            else:
                out.append(t)

        go(x)
        return out

    def unflatten(self, like, leaves):
        it = iter(leaves)

        def go(t):
            if not isinstance(t, T):
                t = self.freeze(t)
            if t.op == "tuple":
                return tup(*[go(a) for a in t.args])
            if t.op == "rec":
                return mk("rec", t.args[0], t.args[1], *[go(a) for a in t.args[2:]])
            if plain_dict(t):
                return mk("dict", tuple((e[0], e[1], go(e[2])) for e in t.args[0]))
            if t is NONE or t.op in ("fn", "class") or (t.op == "const" and t.args[0] == "str"):
                return t
            return next(it)

        return go(like)

    def match(self, like, v):
        """Leaves of v seen with the structure of like."""
        out = []

        def go(l, x):
            if l.op == "tuple":
                if x.op == "select":
                    x = self.push_select(x, l)
                xs = self.unpack(x, len(l.args))
                for a, b in zip(l.args, xs):
                    go(a, self.freeze(b))
            elif l.op == "rec":
                if x.op == "rec":
                    for n in l.args[1]:
                        go(self.rec_get(l, n), self.rec_get(x, n) if self.rec_get(x, n) is not None else self.unknown(n))
                else:
                    for n in l.args[1]:
                        go(self.rec_get(l, n), self.freeze(self.getattr(x, n)))
            elif plain_dict(l):
                for e in l.args[0]:
                    go(e[2], self.freeze(self.getitem(x, e[1])))
            elif l is NONE or l.op in ("fn", "class") or (l.op == "const" and l.args[0] == "str"):
                pass
            else:
                out.append(x)

        go(self.freeze(like), self.freeze(v))
        return out

    def push_select(self, x, l):
        return tup(*[self.item(x, i) for i in range(len(l.args))])

    def lam_of(self, f, *likes):
        """Reify a callable as a lambda term over arguments shaped like `likes`."""
        vals, leaves = [], []
        for l in likes:
            v, ls = self.symlike(l)
            vals.append(v)
            leaves += ls
        body = self.freeze(self.call(f, vals, {}))
        return mk("lam", tuple(leaves), body)

    def apply_lam(self, lam, args):
        leaves = []
        for a in args:
            leaves += self.flatten(a)
        ps = lam.args[0]
        if len(ps) != len(leaves):
            if len(args) == 1 and len(ps) > 1:
                leaves = [self.item(args[0], i) for i in range(len(ps))]
            else:
                return self.unknown("lambda arity")
        return self.subst(lam.args[1], dict(zip(ps, leaves)))

    def subst(self, t, m, memo=None):
        """Substitute symbols; rebuilds through the simplifying constructors."""
        if memo is None:
            memo = {}
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self.subst(x, m, memo) for x in t)
            return t
        if t in m:
            return m[t]
        if t in memo:
            return memo[t]
        if t.op in ("sym", "const", "res", "extref", "class", "mod"):
            return t
        if t.op in ("fn", "py"):
            return t
        new = tuple(self.subst(a, m, memo) if isinstance(a, (T, tuple)) else a for a in t.args)
        if all(x is y or x == y for x, y in zip(new, t.args)):
            r = t
        else:
            r = self.rebuild(t, new)
        memo[t] = r
        return r

    def rebuild(self, t, new):
        op = t.op
        if op == "select":
            return self.sel(*new)
        if op == "item" and isinstance(new[1], T) and is_const(new[1], "int"):
            return self.freeze(self.item(new[0], pyval(new[1])))
        if op == "attr":
            return self.freeze(self.getattr(new[0], new[1]))
        if op == "call" and new[0] is not t.args[0]:
            kn = new[1]
            rest = new[2:]
            n = len(rest) - len(kn)
            return self.freeze(self.call(new[0], list(rest[:n]), dict(zip(kn, rest[n:]))))
        if op in ("add", "sub", "mul", "div", "neg") and any(isinstance(x, T) and x.op in ("omega", "tuple") for x in new):
            return self.binop(op, *new) if len(new) == 2 else self.unop(op, new[0])
        r = mk(op, *new)
        r.loc = t.loc
        return r

    # ------------------------------------------------------------ expressions
    def lookup(self, name, fr, m):
        f = fr
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        if name in m.frame.vars:
            return m.frame.vars[name]
        r = self.ext.builtin(self, name)
        if r is not None:
            return r
        self.event("unbound", name)
        return self.unknown(f"name {name}")

    def eval(self, e, fr, m):
        loc = tm._cur_loc[0]
        if hasattr(e, "lineno"):
            tm._cur_loc[0] = (m.relpath, e.lineno, self.stack[-1][0] if self.stack else "")
        r = self.eval_(e, fr, m)
        return r

    def eval_(self, e, fr, m):
        ty = type(e)
        if ty is ast.Constant:
            if e.value is Ellipsis:
                return tm.ELLIPSIS
            return const(e.value)
        if ty is ast.Name:
            return self.lookup(e.id, fr, m)
        if ty is ast.Attribute:
            return self.getattr(self.eval(e.value, fr, m), e.attr)
        if ty is ast.Call:
            return self.eval_call(e, fr, m)
        if ty is ast.BinOp:
            return self.binop(BINOPS[type(e.op)], self.eval(e.left, fr, m), self.eval(e.right, fr, m))
        if ty is ast.UnaryOp:
            v = self.eval(e.operand, fr, m)
            if isinstance(e.op, ast.Not):
                c = self.truth(v)
                self.event("branch", (c, None, self.freeze(v)))
                return self.not_(c)
            if isinstance(e.op, ast.USub):
                return self.unop("neg", v)
            if isinstance(e.op, ast.Invert):
                return self.unop("invert", v)
            return v
        if ty is ast.Compare:
            left = self.eval(e.left, fr, m)
            out = None
            for op, r in zip(e.ops, e.comparators):
                right = self.eval(r, fr, m)
                c = self.compare(CMPOPS[type(op)], left, right)
                out = c if out is None else self.and_(out, c)
                left = right
            if len(e.ops) > 1:
                self.event("branch", (out, None, self.freeze(out)))
            return out
        if ty is ast.BoolOp:
            vals = []
            for i, x in enumerate(e.values):
                v = self.eval(x, fr, m) if not vals else None
                if v is None:
                    # later operands only evaluated when the earlier ones do not decide
                    c = self.truth(vals[-1])
                    d = self.decide(c)
                    if isinstance(e.op, ast.And):
                        if d is False:
                            return vals[-1]
                        v = self.eval_under(c, True, x, fr, m) if d is None else self.eval(x, fr, m)
                        if d is None:
                            v = self.and_py(vals[-1], v, c)
                    else:
                        if d is True:
                            return vals[-1]
                        v = self.eval_under(c, False, x, fr, m) if d is None else self.eval(x, fr, m)
                        if d is None:
                            v = self.or_py(vals[-1], v, c)
                    self.event("branch", (c, d, self.freeze(vals[-1])))
                vals.append(v)
            return vals[-1]
        if ty is ast.IfExp:
            v = self.eval(e.test, fr, m)
            c = self.truth(v)
            d = self.decide(c)
            self.event("branch", (c, d, self.freeze(v)))
            if d is not None:
                return self.eval(e.body if d else e.orelse, fr, m)
            return self.branch(c, lambda: self.eval(e.body, fr, m), lambda: self.eval(e.orelse, fr, m))
        if ty is ast.Tuple:
            return tup(*[self.freeze(x) for x in self.eval_elts(e.elts, fr, m)])
        if ty is ast.List:
            return VList(self.eval_elts(e.elts, fr, m))
        if ty is ast.Set:
            return mk("set", *[self.freeze(x) for x in self.eval_elts(e.elts, fr, m)])
        if ty is ast.Dict:
            ent = []
            for kx, vx in zip(e.keys, e.values):
                if kx is None:
                    v = self.eval(vx, fr, m)
                    if isinstance(v, VDict):
                        ent = self.ext.dict_update(ent, v.entries)
                    elif isinstance(v, T) and v.op == "dict":
                        ent = self.ext.dict_update(ent, v.args[0])
                    else:
                        ent.append(("s", self.freeze(v)))
                else:
                    kt = self.freeze(self.eval(kx, fr, m))
                    ent = self.ext.dict_update(ent, [("k", kt, self.eval(vx, fr, m))])
            return VDict(ent)
        if ty is ast.Lambda:
            f = Func(e, fr, m, "<lambda>")
            f.defaults = [self.eval(d, fr, m) for d in e.args.defaults]
            for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults):
                if d is not None:
                    f.kwdefaults[a.arg] = self.eval(d, fr, m)
            return mk("fn", f)
        if ty is ast.Subscript:
            o = self.eval(e.value, fr, m)
            i = self.eval(e.slice, fr, m)
            return self.getitem(o, i)
        if ty is ast.Slice:
            g = lambda x: NONE if x is None else self.freeze(self.eval(x, fr, m))
            return mk("slice", g(e.lower), g(e.upper), g(e.step))
        if ty is ast.JoinedStr:
            return self.eval_fstring(e, fr, m)
        if ty is ast.NamedExpr:
            v = self.eval(e.value, fr, m)
            self.assign(e.target, v, fr, m)
            return v
        if ty in (ast.ListComp, ast.GeneratorExp, ast.SetComp):
            return self.comp(e, fr, m)
        if ty is ast.DictComp:
            return self.dictcomp(e, fr, m)
        if ty is ast.Starred:
            return mk("star", self.freeze(self.eval(e.value, fr, m)))
        return self.unknown(ty.__name__)

    def eval_under(self, c, pos, x, fr, m):
        n = self.norm
        pc0 = self.pc
        try:
            cb = n.nf_bool(self, c)
            self.pc = n.b_and(pc0, cb if pos else n.b_not(cb))
            return self.eval(x, fr, m)
        finally:
            self.pc = pc0

    def eval_fstring(self, e, fr, m):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.freeze(self.eval_quiet(v.value, fr, m)))
        if all(is_str(p) for p in parts):
            return const("".join(pyval(p) for p in parts))
        return mk("fstring", *parts)

    def eval_elts(self, elts, fr, m):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr, m)
                s = self.as_seq(v)
                if s is not None:
                    out += s
                else:
                    out.append(mk("spread", self.freeze(v)))
            else:
                out.append(self.eval(x, fr, m))
        return out

    def comp(self, e, fr, m):
        gens = e.generators
        fr2 = Frame(fr)

        def go(i):
            """list of values, or a 'spread' of a symbolic comprehension"""
            if i == len(gens):
                return [self.eval(e.elt, fr2, m)]
            g = gens[i]
            itv = self.eval(g.iter, fr2 if i else fr, m)
            seq = self.as_seq(itv)
            if seq is None:
                it = self.freeze(itv)
                elem = self.ext.elem_of(self, it)
                self.assign(g.target, elem, fr2, m)
                conds = [self.truth(self.eval(c, fr2, m)) for c in g.ifs]
                inner = [self.freeze(x) for x in go(i + 1)]
                flat = len(inner) == 1 and inner[0].op == "spread"
                body = inner[0] if len(inner) == 1 else tup(*inner)
                if conds:
                    body = tup(body, *conds)
                return [mk("spread", self.ext.mk_comp(self, elem, body, it, {}, flat=flat, filt=bool(conds)))]
            out = []
            for x in seq:
                self.assign(g.target, x, fr2, m)
                keep = True
                for c in g.ifs:
                    v = self.eval(c, fr2, m)
                    d = self.decide(self.truth(v))
                    self.event("branch", (self.truth(v), d, self.freeze(v)))
                    if d is None:
                        keep = None
                    elif not d:
                        keep = False
                        break
                if keep is None:
                    return [mk("spread", self.unknown("filtered comprehension"))]
                if keep:
                    out += go(i + 1)
            return out

        items = go(0)
        if isinstance(e, ast.SetComp):
            fz = [self.freeze(x) for x in items]
            return mk("set", *fz)
        return VList(items)

    def dictcomp(self, e, fr, m):
        fr2 = Frame(fr)
        g = e.generators[0]
        seq = self.as_seq(self.eval(g.iter, fr, m))
        if seq is None or len(e.generators) > 1:
            return self.unknown("dict comprehension")
        ent = []
        for x in seq:
            self.assign(g.target, x, fr2, m)
            ok = True
            for c in g.ifs:
                d = self.decide(self.truth(self.eval(c, fr2, m)))
                if d is None:
                    return self.unknown("dict comprehension")
                ok = ok and d
            if ok:
                ent = self.ext.dict_update(ent, [("k", self.freeze(self.eval(e.key, fr2, m)), self.eval(e.value, fr2, m))])
        return VDict(ent)

    def eval_call(self, e, fr, m):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return mk("super_", fr_func(fr))
        if (isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call)
                and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super"):
            fv = self.super_attr(fr, e.func.attr, m)
        else:
            fv = self.eval(e.func, fr, m)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, fr, m)
                s = self.as_seq(v)
                if s is not None:
                    args += s
                else:
                    args.append(mk("star", self.freeze(v)))
            else:
                args.append(self.eval(a, fr, m))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, fr, m)
            if k.arg is None:
                ents = v.entries if isinstance(v, VDict) else (v.args[0] if isinstance(v, T) and v.op == "dict" else None)
                if ents is not None:
                    for en in ents:
                        if en[0] == "k" and is_str(en[1]):
                            kwargs[pyval(en[1])] = en[2]
                        elif en[0] == "s":
                            kwargs["**"] = en[1]
                elif v is not NONE:
                    kwargs["**"] = self.freeze(v)
            else:
                kwargs[k.arg] = v
        tm._cur_loc[0] = (m.relpath, e.lineno, self.stack[-1][0] if self.stack else "")
        self.callsites.add((m.relpath, e.lineno, e.col_offset))
        return self.call(fv, args, kwargs)

    def super_attr(self, fr, name, m):
        f = fr
        while f is not None and (f.func is None or f.func.cls is None):
            f = f.parent
        if f is None:
            return self.unknown("super")
        func = f.func
        selfname = (func.node.args.posonlyargs + func.node.args.args)[0].arg
        sv = f.vars.get(selfname, None)
        cls = sv.cls if isinstance(sv, VObj) else self.cls_of(sv) if isinstance(sv, T) else None
        if cls is None:
            cls = func.cls
        mro = cls.mro
        i = mro.index(func.cls) if func.cls in mro else -1
        for c in mro[i + 1:]:
            if name in c.ns:
                x = c.ns[name]
                if x.op == "fn":
                    return mk("py", Py("super." + name, lambda I, a, k: I.call(x, [sv] + a, k)))
                return x
        if name == "__init__":
            def ext_init(I, a, k):
                flds = cls.fields()
                for n, v in zip(flds, a):
                    I.write(sv, n, v)
                for n, v in k.items():
                    I.write(sv, n, v)
                return NONE
            return mk("py", Py("object.__init__", ext_init))
        return mk("attr", mk("super_", self.freeze(sv) if sv is not None else NONE), name)

    # ------------------------------------------------------------ operators
    def not_(self, c):
        if c is TRUE:
            return FALSE
        if c is FALSE:
            return TRUE
        if c.op == "not":
            return c.args[0]
        return mk("not", c)

    def and_(self, a, b):
        if a is TRUE:
            return b
        if b is TRUE or a is b:
            return a
        if a is FALSE or b is FALSE:
            return FALSE
        return mk("and", a, b)

    def or_(self, a, b):
        if a is FALSE:
            return b
        if b is FALSE or a is b:
            return a
        if a is TRUE or b is TRUE:
            return TRUE
        return mk("or", a, b)

    def and_py(self, a, b, ca):
        """Python `a and b` as a value."""
        if self.truth(a) is a if isinstance(a, T) else False:
            tb = b if isinstance(b, T) and self.is_boolish(b) else None
            if tb is not None:
                return self.and_(a, tb)
        return self.sel(ca, b, a)

    def or_py(self, a, b, ca):
        if self.truth(a) is a if isinstance(a, T) else False:
            tb = b if isinstance(b, T) and self.is_boolish(b) else None
            if tb is not None:
                return self.or_(a, tb)
        return self.sel(ca, a, b)

    def is_boolish(self, b):
        return b in (TRUE, FALSE) or b.op in (
            "lt", "le", "gt", "ge", "eq", "ne", "is", "isnot", "in", "notin", "not", "and", "or", "isinstance",
            "has", "callable", "hasattr", "truthy", "xor")

    def binop(self, op, a, b):
        if isinstance(a, VList) and isinstance(b, VList) and op == "add":
            return VList(a.items + b.items)
        if isinstance(a, VList) and op == "mul" and isinstance(b, T) and is_const(b, "int"):
            return VList(a.items * pyval(b))
        if isinstance(a, VDict) and isinstance(b, (VDict, T)) and op == "or":
            eb = b.entries if isinstance(b, VDict) else (("s", b),)
            return VDict(self.ext.dict_update(list(a.entries), eb))
        a = self.freeze(a)
        b = self.freeze(b)
        if op == "pow" and b.op == "extref" and b.args[0] == OMEGA:
            return mk("omega", a)
        if a.op == "omega" or b.op == "omega":
            x = a.args[0] if a.op == "omega" else a
            y = b.args[0] if b.op == "omega" else b
            return mk("omega", self.tmap_bin(op, x, y, a.op == "omega", b.op == "omega"))
        if a.op == "rec":
            d = {"add": "__add__", "sub": "__sub__", "mul": "__mul__", "div": "__truediv__", "matmul": "__matmul__"}.get(op)
            x = a.args[0].lookup(d)[0] if d else None
            if x is not None:
                return self.call(x, [a, b], {})
        if op == "add" and a.op == "tuple" and b.op == "tuple":
            return tup(*(a.args + b.args))
        if op in ("sub", "or", "and", "xor") and a.op == "set" and b.op == "set" and all(is_const(x) for x in a.args + b.args):
            x, y = a.args, b.args
            rest = [e for e in x if e not in y]
            more = [e for e in y if e not in x]
            return mk("set", *{"sub": rest, "or": list(x) + more, "and": [e for e in x if e in y], "xor": rest + more}[op])
        if op == "mul" and a.op == "tuple" and is_const(b, "int"):
            return tup(*(a.args * pyval(b)))
        if is_str(a) and is_str(b) and op == "add":
            return const(pyval(a) + pyval(b))
        if is_str(a) and op == "mod":
            return mk("fstring", a, b)
        if is_const(a, "int") and is_const(b, "int"):
            x, y = pyval(a), pyval(b)
            try:
                if op == "add":
                    return const(x + y)
                if op == "sub":
                    return const(x - y)
                if op == "mul":
                    return const(x * y)
                if op == "mod":
                    return const(x % y)
                if op == "floordiv":
                    return const(x // y)
                if op == "pow" and 0 <= y < 64:
                    return const(x ** y)
            except ZeroDivisionError:
                return self.unknown("division by zero")
        if op in ("and", "or", "xor") and a in (TRUE, FALSE) and b in (TRUE, FALSE):
            x, y = a is TRUE, b is TRUE
            return const({"and": x and y, "or": x or y, "xor": x != y}[op])
        if op == "or" and (a.op in ("class", "extref", "subscripted") or b.op in ("class", "extref")):
            return mk("union", a, b)
        return mk(op, a, b)

    def tmap_bin(self, op, x, y, ox, oy):
        """Binary operator under the ω notation, mapped over known structure."""
        if ox and x.op == "tuple":
            if oy:
                return tup(*[self.tmap_bin(op, a, self.item(y, i), True, True) for i, a in enumerate(x.args)])
            return tup(*[self.tmap_bin(op, a, y, True, False) for a in x.args])
        if oy and y.op == "tuple":
            if ox:
                return tup(*[self.tmap_bin(op, self.item(x, i), b, True, True) for i, b in enumerate(y.args)])
            return tup(*[self.tmap_bin(op, x, b, False, True) for b in y.args])
        if ox and x.op == "rec":
            return mk("rec", x.args[0], x.args[1], *[
                self.tmap_bin(op, a, self.getattr(y, n) if oy else y, True, oy) for n, a in zip(x.args[1], x.args[2:])])
        r = self.binop(op, x, y)
        return r.args[0] if r.op == "omega" else r

    def unop(self, op, v):
        v = self.freeze(v)
        if v.op == "omega":
            return mk("omega", self.unop_tree(op, v.args[0]))
        if op == "neg":
            if is_num(v):
                return mk("const", v.args[0], -v.args[1])
            if is_const(v, "float") and v.args[1] in ("inf", "-inf"):
                return mk("const", "float", "-inf" if v.args[1] == "inf" else "inf")
            if v.op == "rec":
                x = v.args[0].lookup("__neg__")[0]
                if x is not None:
                    return self.call(x, [v], {})
            return mk("neg", v)
        if op == "invert":
            return self.not_(v)
        return mk(op, v)

    def unop_tree(self, op, x):
        if x.op == "tuple":
            return tup(*[self.unop_tree(op, a) for a in x.args])
        return self.unop(op, x)

    def compare(self, op, a, b):
        if op in ("in", "notin"):
            r = self.ext.contains(self, a, b)
            return self.not_(r) if op == "notin" else r
        if op in ("is", "isnot"):
            r = self.is_(a, b)
            return self.not_(r) if op == "isnot" else r
        a = self.freeze(a)
        b = self.freeze(b)
        if a.op == "omega" or b.op == "omega":
            x = a.args[0] if a.op == "omega" else a
            y = b.args[0] if b.op == "omega" else b
            return mk("omega", mk(op, x, y))
        if a.op == "const" and b.op == "const":
            num = is_num(a) and is_num(b)
            both = a.args[0] == b.args[0] or num or a is NONE or b is NONE
            if both or op in ("eq", "ne"):
                x, y = a.args[1], b.args[1]
                same = (x == y) if (num or a.args[0] == b.args[0]) else False
                if a.args[0] != "float" or not isinstance(x, str):
                    if op == "eq":
                        return const(bool(same))
                    if op == "ne":
                        return const(not same)
                if num:
                    return const({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op])
        if op in ("eq", "ne") and a.op == "tuple" and b.op == "tuple":
            if len(a.args) != len(b.args):
                return const(op == "ne")
            r = TRUE
            for x, y in zip(a.args, b.args):
                r = self.and_(r, self.compare("eq", x, y))
            return r if op == "eq" else self.not_(r)
        if op == "ne":
            return self.not_(mk("eq", a, b))
        return mk(op, a, b)

    def is_(self, a, b):
        if not isinstance(a, T) or not isinstance(b, T):
            if a is b:
                return TRUE
            if isinstance(a, CELLS) or isinstance(b, CELLS):
                return FALSE
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y in (NONE, TRUE, FALSE) or (y.op == "const"):
                if x.op == "const":
                    return const(x.args == y.args)
                if x.op == "select":
                    return self.sel(x.args[0], self.is_(x.args[1], y), self.is_(x.args[2], y))
                if y is NONE:
                    if x.op in ("rec", "tuple", "fn", "class", "dict", "partial", "bound", "py", "extref", "arr",
                                "add", "sub", "mul", "div", "neg", "full", "lam", "res", "mcall_arr"):
                        return FALSE
                    if tm.meta(x, "notnone") or x in self.leaves:
                        return FALSE
                    if self.cls_of(x) is not None:
                        return FALSE
                if y in (TRUE, FALSE) and x.op in ("rec", "tuple", "fn", "class", "partial", "py", "dict"):
                    return FALSE
                if y in (TRUE, FALSE) and x.op in ("eq", "ne", "lt", "le", "gt", "ge", "not", "and", "or", "tree_equal"):
                    return x if y is TRUE else self.not_(x)
        if a.op in ("class", "extref", "fn") and b.op in ("class", "extref", "fn"):
            return FALSE
        return mk("is", a, b)

    def getitem(self, o, i):
        if isinstance(o, VDict):
            return self.ext.dict_get(self, o.entries, self.freeze(i), None)
        fi = self.freeze(i)
        if isinstance(o, VList):
            if is_const(fi, "int"):
                return self.item(o, pyval(fi))
            if fi.op == "slice" and all(x is NONE or is_const(x, "int") for x in fi.args):
                s = slice(*[None if x is NONE else pyval(x) for x in fi.args])
                if not any(isinstance(x, T) and x.op == "spread" for x in o.items):
                    return VList(o.items[s])
            o = self.freeze(o)
        o = self.freeze(o)
        if o.op in ("class", "extref", "union", "subscripted"):
            return mk("subscripted", o, fi)
        if o.op == "omega":
            return mk("omega", self.tmap1(lambda x: self.getitem(x, fi), o.args[0]))
        if o.op == "dict":
            return self.ext.dict_get(self, o.args[0], fi, None)
        if o.op == "at":
            iv = intvec(fi) if fi.op in INTOPS else None
            return mk("atidx", o.args[0], const(iv) if isinstance(iv, int) else fi)
        if is_const(fi, "int"):
            return self.item(o, pyval(fi))
        if fi.op in INTOPS and o.op not in ("tuple", "at"):
            iv = intvec(fi)
            if isinstance(iv, int):
                return self.item(o, iv)
        if o.op == "tuple":
            if fi.op == "slice" and all(x is NONE or is_const(x, "int") for x in fi.args):
                if not any(x.op == "spread" for x in o.args):
                    return tup(*o.args[slice(*[None if x is NONE else pyval(x) for x in fi.args])])
        if fi.op == "tuple" and len(fi.args) >= 2 and fi.args[0] is NONE and all(x.op == "slice" and x.args == (NONE, NONE, NONE) or x is tm.ELLIPSIS for x in fi.args[1:]):
            return mk("getitem", o, NONE)
        if fi.op == "tuple" and len(fi.args) == 2 and fi.args[1] is NONE and fi.args[0].op == "slice" and fi.args[0].args == (NONE, NONE, NONE):
            return mk("expand_dims", o, const(1))
        if o.op == "stack":
            if fi.op == "slice" and all(x is NONE or is_const(x, "int") for x in fi.args):
                return mk("stack", *o.args[slice(*[None if x is NONE else pyval(x) for x in fi.args])])
            iv = intvec(fi) if fi.op in INTOPS else None
            if isinstance(iv, (list, tuple)) and all(isinstance(j, int) and -len(o.args) <= j < len(o.args) for j in iv):
                return mk("stack", *[o.args[j] for j in iv])
        if o.op == "select" and (o.args[1].op in ("tuple", "dict") or o.args[2].op in ("tuple", "dict")):
            return self.sel(o.args[0], self.getitem(o.args[1], fi), self.getitem(o.args[2], fi))
        if fi.op in ("add", "sub", "mod", "arange", "arr"):
            iv = intvec(fi)
            if isinstance(iv, list) and 0 < len(iv) <= 8:
                return mk("stack", *[self.freeze(self.getitem(o, mk("arr", const(j), NONE))) for j in iv])
        if is_str(fi) or tm.meta(o, "kind") == "mapping":
            kl = getattr(self, "keylookups", None)
            if kl:
                kl[-1].append(mk("has", o, fi))
            else:
                self.event("lookup", (o, fi))
            return mk("item", o, fi)
        return mk("getitem", o, fi)

    def tmap1(self, f, x):
        x = self.freeze(x)
        if x.op == "tuple":
            return tup(*[self.freeze(self.tmap1(f, a)) for a in x.args])
        if x.op == "rec":
            return mk("rec", x.args[0], x.args[1], *[self.freeze(self.tmap1(f, a)) for a in x.args[2:]])
        if x.op == "dict":
            return mk("dict", tuple((e[0], e[1], self.freeze(self.tmap1(f, e[2]))) if e[0] == "k" else (e[0], self.freeze(f(e[1]))) for e in x.args[0]))
        if x is NONE or x.op == "static":
            return x
        return self.freeze(f(x))


def plain_dict(t):
    return t.op == "dict" and all(e[0] == "k" and is_str(e[1]) for e in t.args[0])


def fr_func(fr):
    return NONE


def _as_load(t):
    t2 = ast.parse(ast.unparse(t), mode="eval").body
    for n in ast.walk(t2):
        n.lineno = getattr(t, "lineno", 1)
    return t2


_gen_cache = {}


def _is_generator(node):
    r = _gen_cache.get(node)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _gen_cache[node] = r
    return r
