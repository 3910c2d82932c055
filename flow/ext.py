"""Models of the functions the package imports (JAX, Equinox, Lineax, builtins).

A model only says how a call appears in the value-flow graph.  A call with no model stays an opaque
application of its import path to its arguments.
"""
from . import interp, terms as tm
from .terms import T, mk, const, fresh, tup, NONE, TRUE, FALSE, is_const, is_num, is_str, pyval

MODELS = {}
ALIASES = {
    "jax.tree.map": "jax.tree_util.tree_map",
    "jax.tree.leaves": "jax.tree_util.tree_leaves",
    "jax.tree.flatten": "jax.tree_util.tree_flatten",
    "jax.tree.unflatten": "jax.tree_util.tree_unflatten",
    "jax.tree.reduce": "jax.tree_util.tree_reduce",
    "jax.tree.structure": "jax.tree_util.tree_structure",
    "jax.tree.all": "jax.tree_util.tree_all",
    "jax.tree_map": "jax.tree_util.tree_map",
    "equinox._omega.ω": "equinox.internal.ω",
}
PREFIX = [("numpy.", "jax.numpy."), ("equinox.internal.lax.", "jax.lax.")]


DTYPES = {"float16", "float32", "float64", "int8", "int16", "int32", "int64", "uint8", "uint32", "uint64", "bool_", "complex64", "complex128", "bfloat16"}
# host-side functions of the static attributes of an array
HOST_STATIC = {"issubdtype", "result_type", "promote_types", "dtype", "shape", "ndim", "size", "iscomplexobj", "isrealobj", "finfo", "iinfo", "can_cast"}


def extref(path):
    path = ALIASES.get(path, path)
    if path == "typing.TYPE_CHECKING":
        return FALSE
    if path in ("math.inf", "numpy.inf", "jax.numpy.inf"):
        return mk("const", "float", "inf")
    if path in ("jax.numpy.nan", "math.nan", "numpy.nan"):
        return mk("const", "float", "nan")
    if path in ("jax.numpy.newaxis", "numpy.newaxis"):
        return NONE
    if path.startswith("numpy.") and "jax." + path in MODELS and path.split(".")[-1] in HOST_STATIC | DTYPES:
        path = "jax." + path
    if path.startswith("lineax.RESULTS.") and path.rsplit(".", 1)[1] not in ("where", "promote"):
        return mk("res", path.rsplit(".", 1)[1])
    return mk("extref", path)


def model(*paths):
    def deco(f):
        for p in paths:
            MODELS[p] = f
        return f
    return deco


def A(args, kw, i, name, default=None):
    names = (name,) if isinstance(name, str) else name
    if i is not None and i < len(args):
        return args[i]
    for n in names:
        if n in kw:
            return kw[n]
    return default


def call_ext(I, path, args, kw):
    path = ALIASES.get(path, path)
    if path.startswith(("numpy.", "math.", "operator.index", "jax.device_get")) and path.split(".")[-1] not in HOST_STATIC:
        for x in list(args) + list(kw.values()):
            I.event("concretise", I.freeze(x))
        if "jax." + path in MODELS:
            path = "jax." + path
    f = MODELS.get(path)
    if any(isinstance(a, T) and a.op == "star" for a in args) and path not in ("jax.numpy.result_type",):
        n = STAR_ARITY.get(path)
        if n:
            new = []
            for a in args:
                if isinstance(a, T) and a.op == "star":
                    new += [I.item(a.args[0], j) for j in range(n - len(args) + 1)]
                else:
                    new.append(a)
            args = new
        elif f is not None and len(args) == 1 and path in ("builtins.zip", "jax.numpy.minimum"):
            f = None
    if f is not None:
        r = f(I, args, kw)
        if r is not None:
            return r
    return I.opaque_call(mk("extref", path), args, kw)


STAR_ARITY = {}


# ------------------------------------------------------------------ trees
def tmap(I, f, trees, is_leaf=None):
    x = I.freeze(trees[0])
    rest = [I.freeze(t) for t in trees[1:]]
    if is_leaf is not None:
        r = I.call(is_leaf, [x], {})
        if I.decide(I.truth(r)) is True:
            return I.freeze(I.call(f, [x] + rest, {}))
    if x is NONE or x.op == "static":
        return x
    if x.op == "tuple":
        out = []
        for i, a in enumerate(x.args):
            if a.op == "spread":
                out.append(mk("spread", tmap(I, f, [a.args[0]] + [I.item(r, i) for r in rest], is_leaf)))
            else:
                out.append(tmap(I, f, [a] + [I.item(r, i) for r in rest], is_leaf))
        return tup(*out)
    if x.op == "rec":
        out = []
        for n, a in zip(x.args[1], x.args[2:]):
            out.append(tmap(I, f, [a] + [I.getattr(r, n) for r in rest], is_leaf))
        return mk("rec", x.args[0], x.args[1], *out)
    if x.op == "dict":
        out = []
        for e in x.args[0]:
            if e[0] == "k":
                out.append(("k", e[1], tmap(I, f, [e[2]] + [I.getitem(r, e[1]) for r in rest], is_leaf)))
            else:
                out.append(("s", tmap(I, f, [e[1]] + rest, is_leaf)))
        return mk("dict", tuple(out))
    if x.op == "select" and (x.args[1].op in ("rec", "tuple", "dict") or x.args[2].op in ("rec", "tuple", "dict")
                             or x.args[1] is NONE or x.args[2] is NONE):
        return I.freeze(I.branch(x.args[0], lambda: tmap(I, f, [x.args[1]] + rest, is_leaf),
                                 lambda: tmap(I, f, [x.args[2]] + rest, is_leaf)))
    if x.op in ("fn", "class") or (x.op == "const" and x.args[0] == "str"):
        pass
    if is_leaf is not None:
        return I.freeze(I.call(f, [x] + rest, {}))
    old = I.leaves
    I.leaves = old | {x, *rest}
    try:
        return I.freeze(I.call(f, [x] + rest, {}))
    finally:
        I.leaves = old


def map_leaves(I, fn, x):
    """Apply a Python-level term function to every leaf of the known structure of x."""
    return I.tmap1(fn, x)


@model("jax.tree_util.tree_map")
def _tree_map(I, a, k):
    il = A(a[len(a):], k, None, "is_leaf", None)
    f = A(a, k, 0, "f")
    return tmap(I, f, a[1:], None if il is NONE else il)


@model("jax.tree_util.tree_leaves", "jax.tree_util.tree_flatten_leaves")
def _tree_leaves(I, a, k):
    from .interp import VList
    return VList(leaf_list(I, a[0], k.get("is_leaf")))


def leaf_list(I, x, is_leaf=None):
    x = I.freeze(x)
    if x.op == "tuple":
        out = []
        for y in x.args:
            out += leaf_list(I, y)
        return out
    if x.op == "rec":
        out = []
        for y in x.args[2:]:
            out += leaf_list(I, y)
        return out
    if x is NONE:
        return []
    if x.op == "spread" or tm.meta(x, "leaf"):
        return [x]
    return [mk("spread", mk("leaves", x))]


@model("jax.tree_util.tree_flatten")
def _tree_flatten(I, a, k):
    from .interp import VList
    return tup(I.freeze(VList(leaf_list(I, a[0]))), mk("treedef", I.freeze(a[0])))


@model("jax.tree_util.tree_structure")
def _tree_structure(I, a, k):
    return mk("treedef", I.freeze(a[0]))


@model("jax.tree_util.tree_unflatten")
def _tree_unflatten(I, a, k):
    td, lv = I.freeze(a[0]), I.freeze(a[1])
    if lv.op == "leaves":
        return lv.args[0]
    if td.op == "treedef":
        like = td.args[0]
        if like.op in ("tuple", "rec"):
            fl = I.flatten(like)
            if lv.op == "tuple" and len(lv.args) == len(fl):
                return I.unflatten(like, [x.args[0].args[0] if x.op == "spread" and x.args[0].op == "leaves" else x for x in lv.args])
        elif lv.op == "tuple" and len(lv.args) == 1:
            x = lv.args[0]
            if x.op == "spread" and x.args[0].op == "leaves":
                return x.args[0].args[0]
            return x
    return mk("unflatten", td, lv)


@model("jax.tree_util.tree_reduce")
def _tree_reduce(I, a, k):
    f, x = a[0], I.freeze(a[1])
    acc = A(a, k, 2, "initializer")
    for l in leaf_list(I, x):
        l = l.args[0].args[0] if l.op == "spread" and l.args[0].op == "leaves" else l
        acc = l if acc is None else I.call(f, [acc, l], {})
    return acc if acc is not None else I.unknown("empty reduce")


@model("jax.tree_util.tree_all")
def _tree_all(I, a, k):
    r = TRUE
    for l in leaf_list(I, a[0]):
        l = l.args[0].args[0] if l.op == "spread" else l
        r = I.and_(r, I.truth(l))
    return r


def elem_of(I, it):
    if it.op == "leaves":
        return it.args[0]
    if it.op == "spread":
        return elem_of(I, it.args[0])
    if it.op == "zip":
        return tup(*[elem_of(I, x) for x in it.args])
    if it.op == "enumerate":
        return tup(mk("idx", it.args[0]), elem_of(I, it.args[0]))
    if it.op == "reversed":
        return mk("elem", it)
    if it.op == "tuple" and len(it.args) == 1 and it.args[0].op == "spread":
        return elem_of(I, it.args[0].args[0])
    if it.op == "dictitems":
        return tup(mk("elemkey", it.args[0]), mk("elemval", it.args[0]))
    if it.op == "comp":
        return mk("elem", it)
    return mk("elem", it)


def over_leaves(it):
    if it.op == "leaves":
        return True
    if it.op == "spread":
        return over_leaves(it.args[0])
    if it.op in ("zip", "enumerate"):
        return all(over_leaves(x) for x in it.args)
    if it.op == "tuple" and len(it.args) == 1 and it.args[0].op == "spread":
        return over_leaves(it.args[0].args[0])
    return False


def mk_comp(I, elem, body, it, carr, flat=False, filt=False):
    if over_leaves(it) and not filt:
        if flat:
            return body.args[0]
        return mk("leaves", body)
    if body is elem and not flat and not filt:
        return it
    return mk("comp", body, it, const(flat), const(filt))


def mk_fold(I, elem, carr, nxt, init, it):
    if over_leaves(it):
        return I.subst(nxt, {carr: I.freeze(init)})
    return mk("fold", mk("lam", (carr,), nxt), I.freeze(init), it)


# ------------------------------------------------------------------ dictionaries
def dict_update(ent, new):
    ent = list(ent)
    for e in new:
        if e[0] == "k":
            for i, o in enumerate(ent):
                if o[0] == "k" and o[1] is e[1] and not any(x[0] == "s" for x in ent[i + 1:]):
                    ent[i] = e
                    break
            else:
                ent.append(e)
        else:
            ent.append(e)
    return ent


def mk_has(I, m, key):
    if m.op == "dict":
        r = FALSE
        for e in reversed(m.args[0]):
            if e[0] == "k":
                if e[1] is key:
                    return TRUE
            else:
                r = I.or_(mk_has(I, e[1], key), r)
        return r
    if m.op == "without":
        if m.args[1] is key:
            return FALSE
        if is_const(key) and is_const(m.args[1]):
            return mk_has(I, m.args[0], key)
    if m.op == "select":
        return I.sel(m.args[0], mk_has(I, m.args[1], key), mk_has(I, m.args[2], key))
    return mk("has", m, key)


def map_item(I, m, key):
    while m.op == "without" and is_const(key) and is_const(m.args[1]) and m.args[1] is not key:
        m = m.args[0]
    return mk("item", m, key)


def dict_get(I, entries, key, default):
    es = list(entries)
    while es:
        e = es.pop()
        if e[0] == "k":
            if e[1] is key:
                return e[2]
            if not (is_const(e[1]) and is_const(key)):
                return I.unknown("dict key")
        else:
            m = e[1]
            h = mk_has(I, m, key)
            if not es and default is None:
                kl = getattr(I, "keylookups", None)
                if kl:
                    kl[-1].append(h)
                else:
                    I.event("lookup", (m, key))
                return map_item(I, m, key)
            rest = dict_get(I, es, key, default)
            return I.sel(h, map_item(I, m, key), rest)
    if default is None:
        kl = getattr(I, "keylookups", None)
        if kl:
            kl[-1].append(FALSE)
        return I.unknown("missing key")
    return default


def set_item(I, o, key, val):
    from .interp import VDict, VList
    key = I.freeze(key)
    if isinstance(o, VDict):
        I.write(o, "entries", tuple(dict_update(o.entries, [("k", key, val)])))
        return
    if isinstance(o, VList):
        if is_const(key, "int") and -len(o.items) <= pyval(key) < len(o.items):
            new = list(o.items)
            new[pyval(key)] = val
            I.write(o, "items", new)
        else:
            I.write(o, "items", [mk("spread", I.unknown("list store"))])
        return
    I.event("mutate", ("item", I.freeze(o), key))


def del_item(I, o, key):
    from .interp import VDict
    key = I.freeze(key)
    if isinstance(o, VDict):
        I.write(o, "entries", tuple(without(e, key) for e in o.entries if not (e[0] == "k" and e[1] is key)))
        return
    I.event("mutate", ("item", I.freeze(o), key))


def without(e, key):
    return e if e[0] == "k" else ("s", mk("without", e[1], key))


def cell_method(I, cell, name, a, k):
    from .interp import VList, VDict
    if isinstance(cell, VList):
        if name == "append":
            I.write(cell, "items", cell.items + [a[0]])
            return NONE
        if name == "extend":
            s = I.as_seq(a[0])
            I.write(cell, "items", cell.items + (s if s is not None else [mk("spread", I.freeze(a[0]))]))
            return NONE
        if name == "insert" and is_const(I.freeze(a[0]), "int"):
            new = list(cell.items)
            new.insert(pyval(a[0]), a[1])
            I.write(cell, "items", new)
            return NONE
        if name == "pop":
            i = pyval(a[0]) if a else -1
            if cell.items and not any(isinstance(x, T) and x.op == "spread" for x in cell.items):
                new = list(cell.items)
                v = new.pop(i)
                I.write(cell, "items", new)
                return v
        if name == "reverse":
            I.write(cell, "items", cell.items[::-1])
            return NONE
        if name == "copy":
            return VList(cell.items)
        return I.unknown("list." + name)
    if isinstance(cell, VDict):
        if name == "pop":
            key = I.freeze(a[0])
            v = dict_get(I, cell.entries, key, A(a, k, 1, "default"))
            I.write(cell, "entries", tuple(without(e, key) for e in cell.entries if not (e[0] == "k" and e[1] is key)))
            return v
        if name == "get":
            return dict_get(I, cell.entries, I.freeze(a[0]), A(a, k, 1, "default", NONE))
        if name == "setdefault":
            key = I.freeze(a[0])
            v = dict_get(I, cell.entries, key, A(a, k, 1, "default", NONE))
            I.write(cell, "entries", tuple(dict_update(cell.entries, [("k", key, v)])))
            return v
        if name == "update":
            for x in a:
                es = x.entries if isinstance(x, VDict) else (x.args[0] if x.op == "dict" else (("s", x),))
                I.write(cell, "entries", tuple(dict_update(cell.entries, es)))
            if k:
                I.write(cell, "entries", tuple(dict_update(cell.entries, [("k", const(n), v) for n, v in k.items()])))
            return NONE
        if name == "copy":
            return VDict(cell.entries)
        return map_method(I, cell.entries, I.freeze(cell), name, a, k)
    return I.unknown("method " + name)


def map_method(I, entries, frozen, name, a, k):
    from .interp import VList
    known = all(e[0] == "k" for e in entries)
    if name == "items":
        return VList([tup(e[1], I.freeze(e[2])) for e in entries]) if known else mk("dictitems", frozen)
    if name == "values":
        return VList([e[2] for e in entries]) if known else mk("dictvalues", frozen)
    if name == "keys":
        return VList([e[1] for e in entries]) if known else mk("dictkeys", frozen)
    if name == "get":
        return dict_get(I, entries, I.freeze(a[0]), A(a, k, 1, "default", NONE))
    if name == "copy":
        from .interp import VDict
        return VDict(entries)
    return None


def contains(I, a, b):
    from .interp import VList, VDict
    a = I.freeze(a)
    if isinstance(b, VDict):
        return mk_has(I, I.freeze(b), a)
    s = I.as_seq(b)
    b = I.freeze(b)
    if b.op == "dictkeys":
        return mk_has(I, b.args[0], a)
    if b.op in ("dict", "without") or tm.meta(b, "kind") == "mapping":
        return mk_has(I, b, a)
    if s is not None:
        if is_str(b) and is_str(a):
            return const(pyval(a) in pyval(b))
        r = FALSE
        for x in s:
            r = I.or_(r, I.compare("eq", a, x))
        return r
    return mk("in", a, b)


# ------------------------------------------------------------------ attributes / methods of terms
def dyn_py(name, fn):
    from .interp import Py
    return mk("py", Py(name, fn))


def term_attr(I, v, name):
    o = v.op
    if o == "omega":
        if name == "ω":
            return v.args[0]
        if name == "call":
            return dyn_py("ω.call", lambda I, a, k: mk("omega", tmap(I, a[0], [v.args[0]])))
        if name == "at":
            return mk("at", v)
    if name == "at":
        return mk("at", v)
    if name == "T" and o not in ("sym_module",):
        return mk("transpose", v)
    if o == "sds" and name in ("shape", "dtype"):
        return v.args[0 if name == "shape" else 1]
    if o == "cconv":
        if name == "out_struct":
            return struct(I, I.call(v.args[0], list(v.args[1:]), {}))
        if name in ("fn", "__wrapped__"):
            return v.args[0]
        return None
    if o == "errif" or o == "stopgrad":
        r = I.getattr(v.args[0], name)
        if isinstance(r, T) and r.op not in ("attr",):
            return r
        return None
    if o == "op_tagged":
        if name == "operator":
            return v.args[0]
        if name == "tags":
            return v.args[1]
    if o == "op_tree":
        if name == "pytree":
            return v.args[0]
    if o == "partial":
        if name == "func":
            return v.args[0]
        if name == "args":
            return tup(*v.args[3:3 + v.args[1]])
    if o == "const" and is_num(v):
        if name == "real":
            return v
    if name == "real":
        return mk("real", v)
    if o == "spec_obj":
        return None
    return None


ARRAY_UNARY = {"conj": "conj", "conjugate": "conj", "copy": None, "squeeze": None}


def call_method(I, obj, name, a, k):
    o = obj.op
    if is_str(obj):
        s = pyval(obj)
        if name in ("lower", "upper", "strip", "title") and not a:
            return const(getattr(s, name)())
        if name in ("startswith", "endswith") and is_str(a[0]):
            return const(getattr(s, name)(pyval(a[0])))
        if name == "join":
            xs = I.as_seq(a[0])
            if xs is not None and all(is_str(x) for x in xs):
                return const(s.join(pyval(x) for x in xs))
            return mk("fstring", obj, I.freeze(a[0]))
        if name == "format" and all(is_str(x) or is_const(x, "int") for x in list(a) + list(k.values()) if isinstance(x, T)):
            try:
                return const(s.format(*[pyval(x) for x in a], **{n: pyval(x) for n, x in k.items()}))
            except (IndexError, KeyError, ValueError, AttributeError):
                pass
        return mk("fstring", obj, *[I.freeze(x) for x in a])
    if o == "dict":
        if name in ("pop", "update", "setdefault", "clear", "popitem"):
            I.event("mutate", ("mapping", obj, name))
            if name == "pop":
                return dict_get(I, obj.args[0], I.freeze(a[0]), A(a, k, 1, "default"))
        r = map_method(I, obj.args[0], obj, name, a, k)
        if r is not None:
            return r
    if tm.meta(obj, "kind") == "mapping" or o == "without":
        if name in ("pop", "update", "setdefault", "clear", "popitem"):
            I.event("mutate", ("mapping", obj, name))
            if name == "pop" or name == "setdefault":
                return dict_get(I, (("s", obj),), I.freeze(a[0]), A(a, k, 1, "default"))
            return NONE
        r = map_method(I, (("s", obj),), obj, name, a, k)
        if r is not None:
            return r
    if o == "super_":
        return NONE
    if o == "rec" and obj.args[0].is_namedtuple() and name == "_replace":
        return I.rec_set(obj, **{n: v for n, v in k.items()})
    if o == "atidx":
        return at_update(I, obj, name, a, k)
    if o == "treedef" and name == "compose" and len(a) == 1:
        b = I.freeze(a[0])
        if b.op == "treedef":
            return mk("treedef", map_leaves(I, lambda _: b.args[0], obj.args[0]))
    if name == "mv" and len(a) == 1:
        return mk("mv", obj, I.freeze(a[0]))
    if name == "transpose" and not a and not k:
        return mk("transpose", obj)
    if name == "as_matrix":
        return mk("as_matrix", obj)
    if name in ("in_structure", "out_structure", "in_size", "out_size") and not a:
        return op_structure(I, obj, name)
    if name == "error_if" and len(a) >= 1:
        if I.swallows(None):
            return a[0]
        pred = I.freeze(A(a, k, 1, "pred"))
        I.event("errif", (pred, obj))
        return map_leaves(I, lambda x: mk("errif", x, pred, obj), a[0])
    if name == "astype":
        return mk("arr", obj, I.freeze(A(a, k, 0, "dtype")))
    if name in ("sum", "min", "max", "any", "all", "prod", "mean", "argmin", "argmax") and tm.meta(obj, "cls") is None:
        return reduce_(name)(I, [obj] + a, k)
    if name in ("conj", "conjugate"):
        return mk("conj", obj)
    if name in ("reshape", "ravel", "flatten"):
        return mk("reshape", obj)
    if name in ("item", "tolist", "__bool__", "__float__", "__int__", "__index__") and not a and tm.meta(obj, "cls") is None:
        I.event("concretise", obj)
        return obj
    if name in ("copy", "block_until_ready") and not a:
        return obj
    if name == "dot" and len(a) == 1:
        return mk("matmul", obj, I.freeze(a[0]))
    if name in ("lower",) and not a:
        return mk("call", mk("attr", obj, name), ())
    if name == "bind" and o == "signature":
        return None
    if name in MUTATORS and (o in ("tuple", "set") or o in ("sym", "getitem", "attr") and tm.meta(obj, "cls") is None and tm.meta(obj, "kind") != "fn"):
        I.event("mutate", ("container", obj, name))
        if o in ("tuple", "set"):
            return I.unknown("mutated " + name)
    # opaque method of an object of unknown class
    kn = tuple(sorted(x for x in k if x != "**"))
    sig = METHOD_SIGS.get(name)
    names = [str(i) for i in range(len(a))]
    if sig:
        names = [sig[i] if i < len(sig) else str(i) for i in range(len(a))]
    pairs = list(zip(names, a)) + [(n, k[n]) for n in kn]
    if sig:
        pairs.sort(key=lambda p: (sig.index(p[0]) if p[0] in sig else 99, p[0]))
    if "**" in k:
        pairs.append(("**", k["**"]))
    t = mk("mcall", obj, name, tuple(p[0] for p in pairs), *[I.freeze(p[1]) for p in pairs])
    I.event("opaque", t)
    return t


MUTATORS = {"append", "extend", "insert", "remove", "sort", "reverse", "add", "discard", "popitem", "clear", "setdefault", "__setitem__", "fill", "setflags"}
METHOD_SIGS = {
    "update": ("updates", "state", "params"),
    "init": ("params",),
}


def at_update(I, at, name, a, k):
    base, idx = at.args
    if base.op == "omega":
        v = I.freeze(a[0]) if a else NONE
        if v.op == "omega":
            return mk("omega", tmap_at(I, base.args[0], idx, name, v.args[0]))
        return mk("omega", map_leaves(I, lambda x: mk("at_" + name, x, idx, v), base.args[0]))
    return mk("at_" + name, base, idx, *[I.freeze(x) for x in a])


def tmap_at(I, x, idx, name, v):
    if x.op == "tuple":
        return tup(*[tmap_at(I, b, idx, name, I.item(v, i)) for i, b in enumerate(x.args)])
    return mk("at_" + name, x, idx, v)


def op_structure(I, op, name):
    kind = name
    if op.op in ("op_tagged",):
        return op_structure(I, op.args[0], name)
    if op.op == "op_jac" and name == "in_structure":
        return struct(I, op.args[1])
    if op.op == "op_jac" and name == "out_structure":
        return struct(I, I.apply_lam(op.args[0], [op.args[1]]))
    if op.op == "op_id":
        return op.args[0]
    if op.op == "op_fn" and name == "in_structure":
        return op.args[1]
    if op.op == "op_tree" and name == "out_structure":
        return op.args[1]
    return mk(kind, op)


def struct(I, v):
    def leaf(x):
        if x.op in ("struct",):
            return x
        if x.op in ("static", "fn", "class", "res"):
            return x
        return mk("struct", x)
    return map_leaves(I, leaf, v)


def unstruct(I, s):
    """A value with the given structure (used to seed symbols for operators)."""
    return map_leaves(I, lambda x: x.args[0] if x.op == "struct" else x, s)


def call_term(I, fv, a, k):
    o = fv.op
    if o == "jvpfn":
        return mk("mv", mk("op_jac", fv.args[0], fv.args[1], tup()), I.freeze(a[0]))
    if o == "linT":
        return tup(mk("mv", mk("transpose", fv.args[0]), I.freeze(a[0])))
    if o == "cconv":
        return I.call(fv.args[0], a, k)
    if o in ("errif", "stopgrad"):
        return I.call(fv.args[0], a, k)
    if o == "combine":
        return None
    return None


# ------------------------------------------------------------------ builtins
BUILTINS = {
    "len", "isinstance", "issubclass", "callable", "range", "enumerate", "zip", "reversed", "min", "max", "sum", "abs", "float",
    "int", "bool", "str", "tuple", "list", "dict", "set", "frozenset", "type", "getattr", "hasattr", "setattr", "any", "all",
    "map", "filter", "print", "property", "id", "sorted", "round", "object", "repr", "iter", "next", "complex", "staticmethod",
    "classmethod", "super", "slice", "pow", "divmod", "hash", "vars", "NotImplemented", "open", "input", "globals", "locals",
    "BaseException", "Exception", "ValueError", "TypeError", "RuntimeError", "NotImplementedError", "KeyError", "AttributeError",
    "AssertionError", "IndexError", "ImportError", "StopIteration", "DeprecationWarning", "UserWarning", "LookupError",
    "ZeroDivisionError", "FutureWarning", "Warning", "ModuleNotFoundError", "__import__", "eval", "exec", "__name__",
}


def builtin(I, name):
    if name in BUILTINS:
        return mk("extref", "builtins." + name)
    if name == "Ellipsis":
        return tm.ELLIPSIS
    if name == "__debug__":
        return TRUE
    return None


@model("builtins.len")
def _len(I, a, k):
    from .interp import VDict
    s = I.as_seq(a[0])
    if s is not None:
        return const(len(s))
    v = a[0]
    es = v.entries if isinstance(v, VDict) else None
    f = I.freeze(v)
    if f.op == "attr" and f.args[1] == "shape":
        return I.getattr(f.args[0], "ndim")
    return mk("len", f)


OPCLASS = {
    "op_jac": ("JacobianLinearOperator", "FunctionLinearOperator"), "op_fn": ("FunctionLinearOperator",),
    "op_tree": ("PyTreeLinearOperator",), "op_id": ("IdentityLinearOperator",), "op_tagged": ("TaggedLinearOperator",),
    "op_mat": ("MatrixLinearOperator",),
}


@model("builtins.isinstance")
def _isinstance(I, a, k):
    return isinst(I, a[0], I.freeze(a[1]))


def isinst(I, x, c):
    from .interp import VList, VDict, VObj, ClassObj
    if c.op in ("tuple", "union"):
        r = FALSE
        for y in c.args:
            r = I.or_(r, isinst(I, x, y))
        return r
    if c.op == "subscripted":
        return isinst(I, x, c.args[0])
    cname = c.args[0] if c.op == "extref" else None
    if isinstance(x, VList):
        return const(cname in ("builtins.list", "collections.abc.Sequence"))
    if isinstance(x, VDict):
        return const(cname in ("builtins.dict", "collections.abc.Mapping"))
    if isinstance(x, VObj):
        return isinst_cls(I, x.cls, c)
    if x.op == "select":
        return I.sel(x.args[0], isinst(I, x.args[1], c), isinst(I, x.args[2], c))
    if x.op == "rec":
        return isinst_cls(I, x.args[0], c)
    if x.op == "const":
        ty = x.args[0]
        if c.op == "class":
            return FALSE
        short = cname.rsplit(".", 1)[1] if cname else ""
        if ty == "bool":
            return const(short in ("bool", "int"))
        return const(short == ty or (ty == "NoneType" and short == "NoneType"))
    if x.op == "tuple":
        return const(cname == "builtins.tuple" or cname == "collections.abc.Sequence")
    if x.op == "sds" and cname:
        return const(cname == "jax.ShapeDtypeStruct")
    if x.op == "static":
        return const(cname == "equinox.internal.Static")
    if x.op in ("fn", "bound", "py", "partial", "lam") and cname:
        if cname.endswith("Partial") or cname.endswith(".partial"):
            return const(x.op == "partial")
        if cname == "types.FunctionType":
            return const(x.op in ("fn", "lam"))
        return const(cname.endswith("Callable"))
    if x.op == "class":
        return const(cname in ("builtins.type",))
    if x.op in OPCLASS and cname and cname.startswith("lineax."):
        n = cname[7:]
        return const(n in OPCLASS[x.op] or n == "AbstractLinearOperator")
    if cname is not None and cname.endswith(".Jaxpr"):
        return FALSE
    if cname == "equinox.internal.Static":
        return mk("isinstance", x, c) if x.op in ("sym", "item", "attr") else FALSE
    if c.op == "class":
        cc = c.args[0]
        xc = tm.meta(x, "cls")
        if xc is not None:
            if xc.subclass_of(cc):
                return TRUE
            if cc.subclass_of(xc):
                return mk("isinstance", x, c)
            return FALSE
        if not cc.ext_bases() - {"typing.Generic"}:
            return FALSE
        if tm.meta(x, "kind") in ("array", "mapping", "fn"):
            return FALSE
        if x.op in ("arr", "full", "add", "sub", "mul", "div", "neg", "struct"):
            return FALSE
    if tm.meta(x, "kind") == "mapping":
        return const(cname in ("builtins.dict", "collections.abc.Mapping", "typing.Mapping"))
    if tm.meta(x, "kind") == "array" and cname in ("builtins.int", "builtins.float", "builtins.str", "builtins.bool", "builtins.tuple", "builtins.dict"):
        return FALSE
    return mk("isinstance", x, c)


def isinst_cls(I, cls, c):
    if c.op == "class":
        return const(cls.subclass_of(c.args[0]))
    if c.op == "extref":
        n = c.args[0]
        if n in cls.ext_bases():
            return TRUE
        if n == "builtins.object":
            return TRUE
        if n.endswith("Callable"):
            return const(cls.lookup("__call__")[0] is not None)
        if n == "builtins.tuple" and cls.is_namedtuple():
            return TRUE
        return FALSE
    return mk("isinstcls", mk("class", cls), c)


@model("builtins.issubclass")
def _issubclass(I, a, k):
    x = I.freeze(a[0])
    if x.op == "class":
        return isinst_cls(I, x.args[0], I.freeze(a[1]))
    return None


@model("builtins.callable")
def _callable(I, a, k):
    x = a[0]
    if not isinstance(x, T):
        return FALSE
    if x.op in ("fn", "class", "py", "bound", "partial", "lam", "extref", "cconv"):
        return TRUE
    if x.op == "rec":
        return const(x.args[0].lookup("__call__")[0] is not None)
    if x.op in ("const", "tuple", "dict", "arr"):
        return FALSE
    if x.op == "select":
        return I.sel(x.args[0], _callable(I, [x.args[1]], {}), _callable(I, [x.args[2]], {}))
    kd = tm.meta(x, "kind")
    if kd == "fn":
        return TRUE
    if kd in ("array", "bool", "mapping"):
        return FALSE
    return mk("callable", x)


@model("builtins.range")
def _range(I, a, k):
    a = [I.freeze(x) for x in a]
    for x in a:
        I.event("concretise", x)
    if len(a) == 1:
        return mk("range", const(0), a[0], const(1))
    if len(a) == 2:
        return mk("range", a[0], a[1], const(1))
    return mk("range", *a)


@model("builtins.enumerate")
def _enumerate(I, a, k):
    return mk("enumerate", I.freeze(a[0]))


@model("builtins.zip")
def _zip(I, a, k):
    return mk("zip", *[I.freeze(x) for x in a])


@model("builtins.reversed")
def _reversed(I, a, k):
    return mk("reversed", I.freeze(a[0]))


@model("builtins.map")
def _map(I, a, k):
    from .interp import VList
    ss = [I.as_seq(x) for x in a[1:]]
    if all(s is not None for s in ss):
        return VList([I.call(a[0], list(z), {}) for z in zip(*ss)])
    it = I.freeze(a[1]) if len(a) == 2 else mk("zip", *[I.freeze(x) for x in a[1:]])
    e = elem_of(I, it)
    body = I.freeze(I.call(a[0], [e] if len(a) == 2 else list(e.args), {}))
    return VList([mk("spread", mk_comp(I, e, body, it, {}))])


@model("builtins.tuple")
def _tuple(I, a, k):
    if not a:
        return tup()
    s = I.as_seq(a[0])
    if s is not None:
        return tup(*[I.freeze(x) for x in s])
    return I.freeze(a[0])


@model("builtins.list")
def _list(I, a, k):
    from .interp import VList
    if not a:
        return VList([])
    s = I.as_seq(a[0])
    if s is not None:
        return VList(s)
    f = I.freeze(a[0])
    return VList(list(f.args) if f.op == "tuple" else [mk("spread", f)])


@model("builtins.dict")
def _dict(I, a, k):
    from .interp import VDict
    ent = []
    if a:
        v = a[0]
        if isinstance(v, VDict):
            ent = list(v.entries)
        else:
            v = I.freeze(v)
            if v.op == "dict":
                ent = list(v.args[0])
            elif v.op == "select" and v.args[1].op == "dict" and v.args[2].op == "dict":
                ent = [("s", v)]
            else:
                ent = [("s", v)]
    sk = k.pop("**", None)
    ent = dict_update(ent, [("k", const(n), v) for n, v in k.items()])
    if sk is not None:
        ent.append(("s", sk))
    return VDict(ent)


@model("builtins.set", "builtins.frozenset")
def _set(I, a, k):
    if not a:
        return mk("set")
    s = I.as_seq(a[0])
    return mk("set", *[I.freeze(x) for x in s]) if s is not None else mk("setof", I.freeze(a[0]))


@model("builtins.type")
def _type(I, a, k):
    c = I.cls_of(a[0]) if isinstance(a[0], T) else None
    return mk("class", c) if c is not None else mk("type", I.freeze(a[0]))


@model("builtins.getattr")
def _getattr(I, a, k):
    n = I.freeze(a[1])
    if is_str(n):
        return I.getattr(a[0], pyval(n))
    return None


@model("builtins.hasattr")
def _hasattr(I, a, k):
    n = I.freeze(a[1])
    x = a[0]
    if is_str(n) and isinstance(x, T):
        if x.op == "rec":
            return const(I.rec_get(x, pyval(n)) is not None or x.args[0].lookup(pyval(n))[0] is not None)
        if x.op == "const":
            return FALSE
        return mk("hasattr", x, n)
    return None


@model("builtins.setattr", "builtins.object.__setattr__")
def _setattr(I, a, k):
    n = I.freeze(a[1])
    if is_str(n):
        I.setattr(a[0], pyval(n), a[2])
        return NONE
    return None


@model("builtins.abs", "jax.numpy.abs", "jax.numpy.absolute", "math.fabs", "jax.lax.abs", "jax.numpy.fabs")
def _abs(I, a, k):
    return map_leaves(I, lambda x: mk("abs", x), a[0])


@model("builtins.float", "builtins.int", "builtins.complex")
def _float(I, a, k):
    x = I.freeze(a[0]) if a else const(0)
    if is_str(x) and pyval(x) in ("inf", "nan", "-inf", "+inf"):
        return mk("const", "float", pyval(x).lstrip("+"))
    I.event("concretise", x)
    return x


@model("builtins.bool")
def _bool(I, a, k):
    x = I.freeze(a[0])
    I.event("branch", (I.truth(x), None, x))
    return I.truth(x)


@model("builtins.str", "builtins.repr")
def _str(I, a, k):
    x = I.freeze(a[0]) if a else const("")
    return x if is_str(x) else mk("fstring", x)


@model("builtins.min")
def _bmin(I, a, k):
    return pyminmax(I, a, "min2")


@model("builtins.max")
def _bmax(I, a, k):
    return pyminmax(I, a, "max2")


def pyminmax(I, a, op):
    xs = I.as_seq(a[0]) if len(a) == 1 else a
    if xs is None:
        return mk("reduce", "min" if op == "min2" else "max", I.freeze(a[0]), NONE)
    xs = [I.freeze(x) for x in xs]
    if all(is_num(x) for x in xs):
        return min(xs, key=pyval) if op == "min2" else max(xs, key=pyval)
    r = xs[0]
    for x in xs[1:]:
        r = mk(op, r, x)
    I.event("branch", (mk("truthy", r), None, mk("lt", xs[0], xs[-1])))
    return r


@model("builtins.sum")
def _bsum(I, a, k):
    from .interp import VList
    s = I.as_seq(a[0])
    start = A(a, k, 1, "start")
    f = I.freeze(a[0])
    if s is None and f.op == "tuple":
        s = [x.args[0].args[0] if x.op == "spread" and x.args[0].op == "leaves" else x for x in f.args]
        if any(x.op == "spread" for x in s):
            s = None
    if s is None and f.op == "leaves":
        s = [f.args[0]]
    if s is None:
        return mk("pysum", f)
    r = start
    for x in s:
        r = x if r is None else I.binop("add", r, x)
    return r if r is not None else const(0)


def _bquant(op):
    def f(I, a, k):
        s = I.as_seq(a[0])
        fz = I.freeze(a[0])
        if s is None and fz.op == "tuple":
            s = [x.args[0].args[0] if x.op == "spread" and x.args[0].op == "leaves" else x for x in fz.args]
            if any(x.op == "spread" for x in s):
                s = None
        if s is None:
            return mk("py" + op, fz)
        r = TRUE if op == "all" else FALSE
        for x in s:
            t = I.truth(x)
            I.event("branch", (t, None, I.freeze(x)))
            r = I.and_(r, t) if op == "all" else I.or_(r, t)
        return r
    return f


MODELS["builtins.all"] = _bquant("all")
MODELS["builtins.any"] = _bquant("any")


@model("builtins.print", "jax.debug.print", "jax.debug.callback", "warnings.warn")
def _print(I, a, k):
    I.event("print", tup(*[I.freeze(x) for x in a]))
    return NONE


@model("builtins.sorted")
def _sorted(I, a, k):
    s = I.as_seq(a[0])
    if s is not None and all(isinstance(x, T) and is_const(x) for x in s):
        from .interp import VList
        try:
            return VList(sorted(s, key=pyval))
        except TypeError:
            return None
    return None


@model("builtins.object")
def _object(I, a, k):
    return mk("object", fresh("obj"))


@model("builtins.property", "builtins.staticmethod")
def _ident_deco(I, a, k):
    return a[0]


# ------------------------------------------------------------------ functools / dataclasses / typing
@model("functools.partial", "equinox.Partial", "jax.tree_util.Partial")
def _partial(I, a, k):
    return I.mk_partial(I.freeze(a[0]), a[1:], k)


@model("functools.wraps")
def _wraps(I, a, k):
    return dyn_py("wraps", lambda I, a2, k2: a2[0])


@model("functools.reduce")
def _freduce(I, a, k):
    s = I.as_seq(a[1])
    if s is None:
        fz = I.freeze(a[1])
        if fz.op == "tuple" and all(x.op != "spread" or x.args[0].op == "leaves" for x in fz.args):
            s = [x.args[0].args[0] if x.op == "spread" else x for x in fz.args]
        else:
            return None
    acc = a[2] if len(a) > 2 else None
    for x in s:
        acc = x if acc is None else I.call(a[0], [acc, x], {})
    return acc


@model("functools.lru_cache", "functools.cache", "functools.singledispatch")
def _cache(I, a, k):
    if a and isinstance(a[0], T) and a[0].op == "fn":
        return a[0]
    return dyn_py("cache", lambda I, a2, k2: a2[0])


@model("dataclasses.replace")
def _replace(I, a, k):
    x = I.freeze(a[0])
    if x.op == "rec":
        return I.rec_set(x, **k)
    return None


@model("dataclasses.field", "equinox.field")
def _field(I, a, k):
    d = k.get("default")
    if d is None and "default_factory" in k:
        d = I.call(k["default_factory"], [], {})
    return mk("field", mk("missing") if d is None else I.freeze(d), I.freeze(k.get("converter", NONE)), I.freeze(k.get("init", TRUE)))


@model("typing.cast")
def _cast(I, a, k):
    return a[1]


@model("typing.get_args", "inspect.signature")
def _sig(I, a, k):
    return mk("signature", *[I.freeze(x) for x in a])


# ------------------------------------------------------------------ jax transformations
def _identity_transform(I, a, k):
    if a:
        return a[0]
    return dyn_py("transform", lambda I, a2, k2: a2[0])


for _p in ("jax.jit", "equinox.filter_jit", "jax.custom_jvp", "equinox.filter_custom_jvp", "jax.custom_vjp", "equinox.filter_custom_vjp",
           "jax.checkpoint", "jax.remat", "equinox.filter_checkpoint", "equinox.internal.closure_to_pytree", "equinox.internal.doc_repr",
           "abc.abstractmethod", "typing.final", "typing.no_type_check", "typing.runtime_checkable", "jax.named_call"):
    MODELS[_p] = _identity_transform


def _jvp_nest(I, f):
    return None


@model("equinox.filter_closure_convert", "jax.closure_convert")
def _fcc(I, a, k):
    return mk("cconv", I.freeze(a[0]), *[I.freeze(x) for x in a[1:]])


@model("jax.eval_shape", "equinox.filter_eval_shape")
def _eval_shape(I, a, k):
    return struct(I, I.call(a[0], a[1:], k))


@model("jax.ShapeDtypeStruct")
def _sds(I, a, k):
    sh, dt = I.freeze(A(a, k, 0, "shape")), I.freeze(A(a, k, 1, "dtype"))
    return mk("sds", sh, dt)


def split_aux(I, f, has_aux):
    """(function returning the primal output only)"""
    if not has_aux:
        return f
    return dyn_py("primal", lambda I, a, k: I.item(I.call(f, a, k), 0))


def flag(I, v):
    return v is not None and I.freeze(v) is TRUE


@model("jax.linearize", "equinox.filter_linearize")
def _linearize(I, a, k):
    f = a[0]
    xs = a[1:]
    ha = flag(I, k.get("has_aux"))
    out = I.call(f, xs, {})
    x = I.freeze(xs[0]) if len(xs) == 1 else tup(*[I.freeze(x) for x in xs])
    lam = I.lam_of(split_aux(I, f, ha), *xs)
    jv = mk("jvpfn", lam, x)
    if ha:
        return tup(I.freeze(I.item(out, 0)), jv, I.freeze(I.item(out, 1)))
    return tup(I.freeze(out), jv)


@model("jax.jvp", "equinox.filter_jvp")
def _jvp(I, a, k):
    f, p, t = a[0], I.freeze(A(a, k, 1, "primals")), I.freeze(A(a, k, 2, "tangents"))
    ha = flag(I, k.get("has_aux"))
    ps = I.as_seq(p)
    ts = I.as_seq(t)
    if ps is None:
        return None
    out = I.call(f, ps, {})
    lam = I.lam_of(split_aux(I, f, ha), *ps)
    x = ps[0] if len(ps) == 1 else p
    tt = ts[0] if ts is not None and len(ps) == 1 else t
    jt = mk("mv", mk("op_jac", lam, x, tup()), tt)
    if ha:
        return tup(I.freeze(I.item(out, 0)), jt, I.freeze(I.item(out, 1)))
    return tup(I.freeze(out), jt)


@model("jax.linear_transpose")
def _lt(I, a, k):
    f = a[0]
    if f.op == "jvpfn":
        return mk("linT", mk("op_jac", f.args[0], f.args[1], tup()))
    lam = I.lam_of(f, *a[1:])
    return mk("linT", mk("op_fn", lam, struct(I, a[1]), tup()))


@model("jax.vjp")
def _vjp(I, a, k):
    f = a[0]
    ha = flag(I, k.get("has_aux"))
    out = I.call(f, a[1:], {})
    lam = I.lam_of(split_aux(I, f, ha), *a[1:])
    x = I.freeze(a[1]) if len(a) == 2 else tup(*[I.freeze(y) for y in a[1:]])
    vf = mk("linT", mk("op_jac", lam, x, tup()))
    if ha:
        return tup(I.freeze(I.item(out, 0)), vf, I.freeze(I.item(out, 1)))
    return tup(I.freeze(out), vf)


def jacmat(I, f, a, k, argnums, has_aux):
    n = argnums
    xs = list(a)
    if f.op == "jvpfn":
        return mk("jacmat", f.args[0], f.args[1])

    def g(I, v, k2):
        args = list(xs)
        args[n] = v[0]
        r = I.call(f, args, k)
        return I.item(r, 0) if has_aux else r

    lam = I.lam_of(dyn_py("arg", g), xs[n])
    return mk("jacmat", lam, I.freeze(xs[n]))


def _grad_like(value, kind):
    def m(I, a, k):
        if not a:
            kk = dict(k)
            return dyn_py("grad-deco", lambda I, a2, k2: m(I, a2, kk))
        f = I.freeze(a[0])
        an = k.get("argnums", const(0)) if len(a) < 2 else a[1]
        ha = flag(I, k.get("has_aux"))
        an = I.freeze(an)
        if not is_const(an, "int"):
            return None
        n = pyval(an)

        def run(I, xs, kw):
            g = jacmat(I, f, xs, kw, n, ha)
            if not value and not ha:
                return g
            out = I.freeze(I.call(f, xs, kw))
            if value:
                return tup(out, g)
            return tup(g, I.freeze(I.item(out, 1)))

        return dyn_py("gradfn", run)
    return m


for _p in ("jax.grad", "equinox.filter_grad", "jax.jacrev", "jax.jacfwd", "jax.jacobian"):
    MODELS[_p] = _grad_like(False, "grad")
for _p in ("jax.value_and_grad", "equinox.filter_value_and_grad"):
    MODELS[_p] = _grad_like(True, "grad")


@model("jax.hessian")
def _hess(I, a, k):
    f = I.freeze(a[0])
    inner = _grad_like(False, "grad")(I, [f], {})
    return _grad_like(False, "grad")(I, [inner], {})


@model("jax.vmap", "equinox.filter_vmap")
def _vmap(I, a, k):
    f = I.freeze(a[0])
    ia = I.freeze(A(a, k, 1, "in_axes", const(0)))
    oa = I.freeze(A(a, k, 2, "out_axes", const(0)))

    def run(I, xs, kw):
        axes, mapped, call = ia, xs, lambda I, v, k2: I.call(f, v, kw)
        if ia.op == "tuple" and len(ia.args) == len(xs) and any(x is not NONE for x in ia.args):
            on = [i for i, x in enumerate(ia.args) if x is not NONE]
            mapped = [xs[i] for i in on]
            axes = tup(*[ia.args[i] for i in on])
            if all(x == axes.args[0] for x in axes.args):
                axes = axes.args[0]

            def call(I, v, k2):
                full = list(xs)
                for i, x in zip(on, v):
                    full[i] = x
                return I.call(f, full, kw)

        lam = I.lam_of(dyn_py("v", call), *mapped)
        body = lam.args[1]
        leaves = []
        for x in mapped:
            leaves += I.flatten(x)
        if body.op == "tuple":
            return tup(*[mk("vmap", mk("lam", lam.args[0], b), axes, oa, *leaves) for b in body.args])
        return mk("vmap", lam, axes, oa, *leaves)

    return dyn_py("vmapped", run)


@model("jax.flatten_util.ravel_pytree")
def _ravel(I, a, k):
    x = I.freeze(a[0])
    return tup(mk("ravel", x), dyn_py("unravel", lambda I, a2, k2: mk("unravel", x, I.freeze(a2[0]))))


# ------------------------------------------------------------------ lax control flow
@model("jax.lax.cond")
def _cond(I, a, k):
    p = I.freeze(A(a, k, 0, "pred"))
    tf, ff = A(a, k, 1, "true_fun"), A(a, k, 2, "false_fun")
    ops = a[3:]
    if "operand" in k:
        ops = [k["operand"]]
    return I.traced_branch(as_bool(I, p), lambda: I.call(tf, ops, {}), lambda: I.call(ff, ops, {}))


def as_bool(I, p):
    if p.op == "arr":
        return as_bool(I, p.args[0])
    return p


@model("jax.lax.switch")
def _switch(I, a, k):
    idx = I.freeze(a[0])
    brs = I.as_seq(a[1])
    if brs is None:
        return None
    ops = a[2:]

    def go(i):
        if i == len(brs) - 1:
            return I.call(brs[i], ops, {})
        return I.traced_branch(mk("eq", idx, const(i)), lambda: I.call(brs[i], ops, {}), lambda: go(i + 1))

    return go(0)


@model("jax.lax.select", "jax.numpy.where", "jax.lax.select_n")
def _where(I, a, k):
    if len(a) < 3 and not k:
        return mk("nonzero", I.freeze(a[0]))
    c, x, y = (I.freeze(A(a, k, i, n)) for i, n in enumerate((("condition", "pred"), ("x", "on_true"), ("y", "on_false"))))
    return mk_where(I, c, x, y)


@model("jax.numpy.select")
def _select_list(I, a, k):
    cs, vs = I.as_seq(A(a, k, 0, "condlist")), I.as_seq(A(a, k, 1, "choicelist"))
    if cs is None or vs is None or len(cs) != len(vs):
        return None
    r = I.freeze(A(a, k, 2, "default", const(0)))
    for c, v in reversed(list(zip(cs, vs))):
        r = mk_where(I, I.freeze(c), I.freeze(v), r)
    return r


def mk_where(I, c, x, y):
    c = as_bool(I, c)
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    r = I.sel(c, x, y)
    return r


def const_seq(I, xs):
    """Elements of a sequence of known length, else None."""
    xs = I.freeze(xs)
    if xs.op == "stack":
        return list(xs.args)
    if xs.op == "tuple" and xs.args:
        parts = [const_seq(I, x) for x in xs.args]
        if all(p is not None for p in parts) and len({len(p) for p in parts}) == 1:
            return [tup(*es) for es in zip(*parts)]
        return None
    iv = interp.intvec(xs)
    if isinstance(iv, list) and len(iv) <= 8:
        return [mk("arr", const(i), NONE) for i in iv]
    return None


@model("jax.lax.scan", "equinox.internal.scan")
def _scan(I, a, k):
    f = A(a, k, 0, "f")
    init = I.freeze(A(a, k, 1, "init"))
    xs = A(a, k, 2, "xs", NONE)
    n = A(a, k, 3, "length", NONE)
    seq = const_seq(I, xs)
    rev = flag(I, k.get("reverse"))
    if seq is None and I.freeze(xs) is NONE and is_const(I.freeze(n), "int") and pyval(n) <= 8:
        seq = [NONE] * pyval(n)
    if seq is not None:
        if rev:
            seq = seq[::-1]
        c = init
        ys = []
        for x in seq:
            r = I.freeze(I.call(f, [c, x], {}))
            c = I.freeze(I.item(r, 0))
            ys.append(I.freeze(I.item(r, 1)))
        if ys and all(y is NONE for y in ys):
            return tup(c, NONE)
        if rev:
            ys = ys[::-1]
        flat = [I.flatten(y) for y in ys]
        if ys and len({len(f) for f in flat}) == 1:
            return tup(c, I.unflatten(ys[0], [mk("stack", *col) for col in zip(*flat)]))
        return tup(c, mk("stack", *ys))
    xs = I.freeze(xs)
    cv, cl = I.symlike(init, "c")
    xv, xl = I.symlike(xs, "x") if xs is not NONE else (NONE, [])
    r = I.freeze(I.call(f, [cv, xv], {}))
    nc = I.match(init, I.freeze(I.item(r, 0)))
    y = I.freeze(I.item(r, 1))
    node = mk("scan", mk("lam", tuple(cl) + tuple(xl), tup(tup(*nc), y)), len(cl), tup(*I.flatten(init)), tup(*I.flatten(xs)) if xs is not NONE else tup(),
              I.freeze(n), const(rev))
    out = I.unflatten(init, [mk("loopout", node, i) for i in range(len(cl))])
    if y is NONE:
        return tup(out, NONE)
    return tup(out, I.unflatten(y, [mk("scany", node, i) for i in range(len(I.flatten(y)))]))


@model("jax.lax.fori_loop", "equinox.internal.fori_loop")
def _fori(I, a, k):
    lo, hi, f, init = I.freeze(a[0]), I.freeze(a[1]), a[2], I.freeze(a[3])
    if is_const(lo, "int") and is_const(hi, "int") and pyval(hi) - pyval(lo) <= 8:
        c = init
        for i in range(pyval(lo), pyval(hi)):
            c = I.freeze(I.call(f, [mk("arr", const(i), NONE), c], {}))
        return c
    cv, cl = I.symlike(init, "c")
    i = fresh("i")
    tm.set_meta(i, traced=True)
    r = I.match(init, I.freeze(I.call(f, [i, cv], {})))
    node = mk("scan", mk("lam", tuple(cl) + (i,), tup(tup(*r), NONE)), len(cl), tup(*I.flatten(init)), tup(mk("arange", lo, hi, const(1))), NONE, FALSE)
    return I.unflatten(init, [mk("loopout", node, j) for j in range(len(cl))])


@model("jax.lax.while_loop", "equinox.internal.while_loop", "equinox.internal.checkpointed_while_loop")
def _while(I, a, k):
    cf, bf, init = A(a, k, 0, "cond_fun"), A(a, k, 1, "body_fun"), I.freeze(A(a, k, 2, "init_val"))
    cv, cl = I.symlike(init, "w")
    I.loopsyms = getattr(I, "loopsyms", {})
    cond = I.freeze(I.call(cf, [cv], {}))
    body = I.match(init, I.freeze(I.call(bf, [cv], {})))
    extra = tuple(sorted(x for x in k if x not in ("cond_fun", "body_fun", "init_val")))
    node = mk("while", mk("lam", tuple(cl), cond), mk("lam", tuple(cl), tup(*body)), tup(*I.flatten(init)), extra, *[I.freeze(k[x]) for x in extra])
    tm.set_meta(node, init=init, carry=cv)
    I.event("while", node)
    return I.unflatten(init, [mk("loopout", node, i) for i in range(len(cl))])


# ------------------------------------------------------------------ equinox
@model("equinox.is_array", "equinox.is_array_like", "equinox.is_inexact_array", "equinox.is_inexact_array_like")
def _is_array(I, a, k):
    x = I.freeze(a[0])
    if x.op == "const":
        return FALSE
    if x.op in ("arr", "full", "arange", "add", "sub", "mul", "div"):
        return TRUE
    if x.op in ("fn", "class", "rec", "tuple", "dict", "partial", "static"):
        return FALSE
    if tm.meta(x, "isarray"):
        return TRUE
    return mk("is_array", x)


def is_array_filter(f):
    return isinstance(f, T) and f.op == "extref" and f.args[0] in (
        "equinox.is_array", "equinox.is_array_like", "equinox.is_inexact_array", "equinox.is_inexact_array_like")


def is_stat(t):
    if t.op == "stat":
        return True
    if t.op == "select":
        return is_stat(t.args[1]) and is_stat(t.args[2])
    return False


@model("equinox.partition")
def _partition(I, a, k):
    x = I.freeze(a[0])
    f = I.freeze(A(a, k, 1, "filter_spec"))
    if is_array_filter(f):
        return tup(x, mk("stat", x))
    if bool_tree(f):
        return tup(masked(x, f, TRUE), masked(x, f, FALSE))
    return tup(mk("part", x, f, 0), mk("part", x, f, 1))


def bool_tree(f):
    if f.op == "tuple":
        return all(bool_tree(y) for y in f.args)
    if f.op == "rec":
        return all(bool_tree(y) for y in f.args[2:])
    return f in (TRUE, FALSE) or f is NONE


def masked(x, f, keep):
    if f.op == "tuple" and x.op == "tuple" and len(f.args) == len(x.args):
        return tup(*[masked(a, b, keep) for a, b in zip(x.args, f.args)])
    if f.op == "rec" and x.op == "rec" and f.args[1] == x.args[1]:
        return mk("rec", x.args[0], x.args[1], *[masked(a, b, keep) for a, b in zip(x.args[2:], f.args[2:])])
    if f is NONE:
        return NONE
    if f in (TRUE, FALSE):
        return x if f is keep else NONE
    return mk("part", x, f, 0 if keep is TRUE else 1)


@model("equinox.filter")
def _filter(I, a, k):
    x = I.freeze(a[0])
    f = I.freeze(A(a, k, 1, "filter_spec"))
    inv = flag(I, A(a, k, 2, "inverse"))
    if is_array_filter(f):
        return mk("stat", x) if inv else x
    return mk("part", x, f, 1 if inv else 0)


@model("equinox.combine")
def _combine(I, a, k):
    xs = [I.freeze(x) for x in a]
    ys = [x for x in xs if not is_stat(x) and x is not NONE]
    if len(ys) == 1:
        return ys[0]
    if all(x is NONE for x in xs):
        return NONE
    if not ys:
        return xs[0].args[0] if xs and xs[0].op == "stat" else mk("combine", *xs)
    if all(y.op == "tuple" and len(y.args) == len(ys[0].args) for y in ys):
        return tup(*[I.freeze(_combine(I, list(col), {})) for col in zip(*[y.args for y in ys])])
    if all(y.op == "rec" and y.args[:2] == ys[0].args[:2] for y in ys):
        return mk("rec", *ys[0].args[:2], *[I.freeze(_combine(I, list(col), {})) for col in zip(*[y.args[2:] for y in ys])])
    if len(ys) == 2 and ys[0].op == "part" and ys[1].op == "part" and ys[0].args[0] is ys[1].args[0] and ys[0].args[1] is ys[1].args[1]:
        return ys[0].args[0]
    return mk("combine", *ys)


@model("equinox.error_if")
def _error_if(I, a, k):
    if I.swallows(None):
        return a[0]
    pred = I.freeze(A(a, k, 1, "pred"))
    msg = I.freeze(A(a, k, 2, "msg", NONE))
    I.event("errif", (pred, msg))
    return map_leaves(I, lambda x: mk("errif", x, pred, msg), a[0])


@model("equinox.branched_error_if")
def _berror_if(I, a, k):
    if I.swallows(None):
        return a[0]
    pred = I.freeze(A(a, k, 1, "pred"))
    I.event("errif", (pred, NONE))
    return map_leaves(I, lambda x: mk("errif", x, pred, NONE), a[0])


@model("jax.custom_derivatives.zero_from_primal")
def _zero_from_primal(I, a, k):
    return map_leaves(I, lambda x: mk("full", const(0), mk("attr", x, "shape"), mk("attr", x, "dtype")), a[0])


@model("equinox.tree_equal")
def _tree_equal(I, a, k):
    return mk("tree_equal", *[I.freeze(x) for x in a])


@model("equinox.apply_updates")
def _apply_updates(I, a, k):
    return tmap(I, dyn_py("add", lambda I, x, k2: I.binop("add", x[0], x[1])), [a[0], a[1]])


@model("equinox.tree_at")
def _tree_at(I, a, k):
    where, tree = a[0], I.freeze(a[1])
    rep = A(a, k, 2, "replace")
    root = fresh("root")
    sel = I.freeze(I.call(where, [root], {}))
    targets = list(sel.args) if sel.op == "tuple" else [sel]
    if rep is not None:
        reps = I.as_seq(rep) if sel.op == "tuple" else [rep]
        if reps is None:
            reps = [I.item(rep, i) for i in range(len(targets))]
    else:
        fn = k.get("replace_fn")
        reps = [None] * len(targets)
    for tg, rv in zip(targets, reps):
        path = []
        t = tg
        while t is not root:
            if t.op in ("attr", "item"):
                path.append((t.op, t.args[1]))
                t = t.args[0]
            else:
                return I.unknown("tree_at")
        path.reverse()

        def put(x, p):
            if not p:
                return I.freeze(rv) if rv is not None else I.freeze(I.call(k["replace_fn"], [x], {}))
            kind, key = p[0]
            if kind == "attr":
                if x.op == "rec":
                    return I.rec_set(x, **{key: put(I.rec_get(x, key), p[1:])})
                return mk("with_attr", x, key, put(I.freeze(I.getattr(x, key)), p[1:]))
            i = pyval(key)
            if x.op == "tuple":
                xs = list(x.args)
                xs[i] = put(xs[i], p[1:])
                return tup(*xs)
            return mk("with_item", x, key, put(I.freeze(I.getitem(x, key)), p[1:]))

        tree = put(tree, path)
    return tree


@model("equinox.internal.Static")
def _static(I, a, k):
    return mk("static", I.freeze(a[0] if a else k["value"]))


@model("equinox.internal.ω")
def _omega(I, a, k):
    return mk("omega", I.freeze(a[0]))


@model("jax.lax.stop_gradient")
def _stop(I, a, k):
    return map_leaves(I, lambda x: mk("stopgrad", x), a[0])


@model("equinox.internal.nondifferentiable_backward", "equinox.internal.nondifferentiable", "equinox.internal.nontraceable")
def _nondiff(I, a, k):
    return a[0]


@model("equinox.internal.scan_trick")
def _scan_trick(I, a, k):
    """scan_trick(fn, intermediates, final): runs fn repeatedly; treated as identity on results."""
    return None


# ------------------------------------------------------------------ jnp
@model("jax.numpy.array", "jax.numpy.asarray", "jax.numpy.copy", "jax.numpy.ascontiguousarray")
def _array(I, a, k):
    return mk("arr", I.freeze(A(a, k, 0, ("object", "a"))), I.freeze(A(a, k, 1, "dtype", NONE)))


def _fullm(val):
    def f(I, a, k):
        sh = I.freeze(A(a, k, 0, "shape"))
        dt = I.freeze(A(a, k, 1, "dtype", NONE))
        return mk("full", const(val), sh, mk("default_dtype") if dt is NONE else dt)
    return f


MODELS["jax.numpy.zeros"] = _fullm(0)
MODELS["jax.numpy.ones"] = _fullm(1)


@model("jax.numpy.full")
def _full(I, a, k):
    return mk("full", I.freeze(A(a, k, 1, "fill_value")), I.freeze(A(a, k, 0, "shape")), I.freeze(A(a, k, 2, "dtype", NONE)))


def _likem(val):
    def f(I, a, k):
        v = const(val) if val is not None else I.freeze(A(a, k, 1, "fill_value"))
        dt = A(a, k, 1 if val is not None else 2, "dtype", NONE)
        return map_leaves(I, lambda x: mk("full", v, mk("attr", x, "shape"), I.freeze(dt) if I.freeze(dt) is not NONE else mk("attr", x, "dtype")), a[0])
    return f


MODELS["jax.numpy.zeros_like"] = _likem(0)
MODELS["jax.numpy.ones_like"] = _likem(1)
MODELS["jax.numpy.full_like"] = _likem(None)
MODELS["jax.numpy.empty_like"] = _likem(0)


def _unary(op):
    def f(I, a, k):
        return mk(op, I.freeze(a[0]))
    return f


for _n in ("sqrt", "exp", "log", "sin", "cos", "tan", "tanh", "sign", "isfinite", "isnan", "isinf", "conj", "square", "floor", "ceil",
           "real", "imag", "negative", "logical_not", "invert", "cbrt", "reciprocal", "bitwise_not", "log1p", "expm1", "arctan", "angle"):
    _o = {"negative": "neg", "logical_not": "not", "invert": "not", "bitwise_not": "not", "conjugate": "conj"}.get(_n, _n)
    MODELS["jax.numpy." + _n] = _unary(_o)
    MODELS["math." + _n] = _unary(_o)
    MODELS["jax.lax." + {"negative": "neg"}.get(_n, _n)] = _unary(_o)
MODELS["jax.numpy.conjugate"] = _unary("conj")
MODELS["jax.lax.rsqrt"] = lambda I, a, k: mk("pow", I.freeze(a[0]), mk("const", "float", tm.Fraction(-1, 2)))


@model("jax.numpy.square")
def _square(I, a, k):
    x = I.freeze(a[0])
    return mk("mul", x, x)


@model("jax.numpy.invert", "jax.numpy.logical_not", "jax.numpy.bitwise_not")
def _invert(I, a, k):
    return I.not_(as_bool(I, I.freeze(a[0])))


def _binary(op):
    def f(I, a, k):
        x, y = I.freeze(A(a, k, 0, ("x1", "x"))), I.freeze(A(a, k, 1, ("x2", "y")))
        if op in ("lt", "le", "gt", "ge", "eq", "ne"):
            return I.compare(op, x, y)
        if op == "and":
            return I.and_(as_bool(I, x), as_bool(I, y))
        if op == "or":
            return I.or_(as_bool(I, x), as_bool(I, y))
        return I.binop(op, x, y) if op in ("add", "sub", "mul", "div", "pow") else mk(op, x, y)
    return f


for _n, _o in {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "true_divide": "div", "power": "pow", "pow": "pow",
               "minimum": "min2", "maximum": "max2", "logical_and": "and", "logical_or": "or", "bitwise_and": "and",
               "bitwise_or": "or", "logical_xor": "xor", "less": "lt", "less_equal": "le", "greater": "gt", "greater_equal": "ge",
               "equal": "eq", "not_equal": "ne", "mod": "mod", "remainder": "mod", "floor_divide": "floordiv", "arctan2": "arctan2",
               "hypot": "hypot"}.items():
    MODELS["jax.numpy." + _n] = _binary(_o)
for _n, _o in {"add": "add", "sub": "sub", "mul": "mul", "div": "div", "pow": "pow", "min": "min2", "max": "max2", "lt": "lt", "le": "le",
               "gt": "gt", "ge": "ge", "eq": "eq", "ne": "ne", "bitwise_and": "and", "bitwise_or": "or"}.items():
    MODELS["jax.lax." + _n] = _binary(_o)
for _n, _o in {"add": "add", "sub": "sub", "mul": "mul", "truediv": "div", "pow": "pow", "lt": "lt", "le": "le", "gt": "gt", "ge": "ge",
               "eq": "eq", "ne": "ne", "and_": "and", "or_": "or"}.items():
    MODELS["operator." + _n] = _binary(_o)
MODELS["operator.neg"] = _unary("neg")
MODELS["jax.lax.integer_pow"] = _binary("pow")


@model("jax.numpy.fmin")
def _fmin(I, a, k):
    x, y = I.freeze(a[0]), I.freeze(a[1])
    return mk("select", I.compare("lt", x, y), x, y)


@model("jax.numpy.fmax")
def _fmax(I, a, k):
    x, y = I.freeze(a[0]), I.freeze(a[1])
    return mk("select", I.compare("gt", x, y), x, y)


@model("jax.numpy.clip", "jax.lax.clamp")
def _clip(I, a, k):
    x = I.freeze(A(a, k, 0, ("arr", "a", "x")))
    lo = I.freeze(A(a, k, 1, ("min", "a_min"), NONE))
    hi = I.freeze(A(a, k, 2, ("max", "a_max"), NONE))
    if lo is NONE and hi is NONE:
        return x
    if lo is NONE:
        return mk("min2", x, hi)
    if hi is NONE:
        return mk("max2", x, lo)
    return mk("clip", x, lo, hi)


def reduce_(kind):
    def f(I, a, k):
        ax = I.freeze(A(a, k, 1, "axis", NONE))
        x = I.freeze(a[0])
        if flag(I, k.get("keepdims")):
            return mk("reducek", kind, x, ax)
        if x.op == "leaves":
            x = x.args[0]
        extra = [I.freeze(k[n]) for n in ("where", "initial") if n in k]
        return mk("reduce", kind, x, ax, *extra)
    return f


for _n in ("sum", "min", "max", "any", "all", "prod", "mean", "argmin", "argmax", "amin", "amax", "median", "nanmin", "nanmax"):
    MODELS["jax.numpy." + _n] = reduce_({"amin": "min", "amax": "max"}.get(_n, _n))


def array_attr(I, x, name):
    """Shape information of an array; conversions keep it."""
    x = I.freeze(x)
    y = x
    while y.op in ("arr", "errif", "stopgrad"):
        y = y.args[0]
    at = tm.meta(y, "attrs")
    if at is not None and name in at:
        return at[name]
    return mk("attr", x, name)


@model("jax.numpy.shape")
def _shape(I, a, k):
    return array_attr(I, a[0], "shape")


@model("jax.numpy.size")
def _size(I, a, k):
    return array_attr(I, a[0], "size")


@model("jax.numpy.ndim")
def _ndim(I, a, k):
    return array_attr(I, a[0], "ndim")


@model("jax.numpy.finfo")
def _finfo(I, a, k):
    return mk("finfo", I.freeze(a[0]))


@model("jax.numpy.arange")
def _arange(I, a, k):
    xs = [I.freeze(x) for x in a if True]
    if len(xs) == 1:
        return mk("arange", const(0), xs[0], const(1))
    if len(xs) == 2:
        return mk("arange", xs[0], xs[1], const(1))
    return mk("arange", *xs[:3])


@model("jax.numpy.result_type", "jax.numpy.promote_types")
def _rt(I, a, k):
    out = []
    for x in a:
        x = I.freeze(x)
        if x.op == "star":
            x = x.args[0]
            if x.op == "tuple":
                out += [y.args[0] if y.op == "spread" else y for y in x.args]
                continue
        out.append(x)
    # the common dtype of a tree is that of all its leaves
    return mk("result_type", *[x.args[0] if x.op == "leaves" else x for x in out])


@model("jax.numpy.issubdtype")
def _issub(I, a, k):
    return mk("issubdtype", I.freeze(a[0]), I.freeze(a[1]))


@model("jax.numpy.iscomplexobj")
def _isc(I, a, k):
    return mk("iscomplex", I.freeze(a[0]))


@model("jax.numpy.dot", "jax.numpy.matmul", "jax.numpy.inner")
def _dot(I, a, k):
    return mk("matmul", I.freeze(a[0]), I.freeze(a[1]))


@model("jax.numpy.vdot")
def _vdot(I, a, k):
    return mk("dot", I.freeze(a[0]), I.freeze(a[1]))


@model("jax.numpy.outer")
def _outer(I, a, k):
    return mk("outer", I.freeze(a[0]), I.freeze(a[1]))


@model("jax.numpy.expand_dims")
def _expand(I, a, k):
    ax = I.freeze(A(a, k, 1, "axis"))
    if is_const(ax, "int") and pyval(ax) == 0:
        return mk("getitem", I.freeze(a[0]), NONE)
    return mk("expand_dims", I.freeze(a[0]), ax)


@model("jax.numpy.reshape", "jax.numpy.ravel", "jax.numpy.squeeze")
def _reshape(I, a, k):
    return mk("reshape", I.freeze(a[0]))


@model("jax.numpy.flip", "jax.numpy.flipud")
def _flip(I, a, k):
    ax = I.freeze(A(a, k, 1, "axis", NONE))
    x = I.freeze(a[0])
    if x.op == "stack" and (is_const(ax, "int") and pyval(ax) == 0 or ax is NONE and all(y.op in ("const", "num") or tm.meta(y, "scalar") for y in x.args)):
        return I.getitem(x, mk("slice", NONE, NONE, const(-1)))
    return mk("fun", "jax.numpy.flip", (), x, *([] if ax is NONE else [ax]))


@model("jax.numpy.transpose")
def _transpose(I, a, k):
    return mk("transpose", I.freeze(a[0]))


UNINTERP = {
    "jax.numpy.linalg.cholesky": ("a",), "jax.scipy.linalg.solve_triangular": ("a", "b", "trans", "lower"),
    "jax.numpy.einsum": None, "jax.numpy.tensordot": ("a", "b", "axes"), "jax.numpy.repeat": ("a", "repeats", "axis"),
    "jax.numpy.concatenate": ("arrays", "axis"), "jax.numpy.stack": ("arrays", "axis"), "jax.numpy.block": ("arrays",), "jax.numpy.diag": ("v", "k"),
    "jax.numpy.eye": ("N", "M"), "jax.numpy.unravel_index": ("indices", "shape"), "jax.lax.top_k": ("operand", "k"),
    "jax.numpy.tril": ("m", "k"), "jax.numpy.triu": ("m", "k"), "jax.numpy.roll": ("a", "shift", "axis"),
    "jax.numpy.broadcast_to": ("array", "shape"), "jax.numpy.argsort": ("a", "axis"), "jax.numpy.sort": ("a", "axis"),
    "jax.numpy.take": ("a", "indices", "axis"), "jax.numpy.moveaxis": ("a", "source", "destination"),
    "jax.numpy.linalg.norm": ("x", "ord", "axis"), "jax.numpy.linalg.solve": ("a", "b"), "jax.numpy.vstack": ("tup",), "jax.numpy.hstack": ("tup",),
    "jax.lax.dynamic_index_in_dim": ("operand", "index", "axis", "keepdims"), "jax.numpy.cumsum": ("a", "axis"),
    "jax.numpy.append": ("arr", "values", "axis"), "jax.numpy.atleast_1d": ("x",),
}


def _uninterp(path, sig):
    def f(I, a, k):
        k = dict(k)
        dt = I.freeze(k.pop("dtype")) if "dtype" in k else NONE
        args = [I.freeze(x) for x in a]
        if sig is not None:
            for i, n in enumerate(sig):
                if i < len(args):
                    continue
                if n in k:
                    while len(args) < i:
                        args.append(NONE)
                    args.append(I.freeze(k.pop(n)))
        kn = tuple(sorted(k))
        r = mk("fun", path, kn, *args, *[I.freeze(k[n]) for n in kn])
        return r if dt is NONE else mk("arr", r, dt)
    return f


for _p, _s in UNINTERP.items():
    MODELS[_p] = _uninterp(_p, _s)


@model("jax.numpy.stack")
def _stack(I, a, k, plain=MODELS["jax.numpy.stack"]):
    xs, ax = I.as_seq(a[0]) if a else None, I.freeze(A(a, k, 1, "axis", const(0)))
    if xs is None or not is_const(ax, "int") or pyval(ax) != 0 or len(k) > ("axis" in k):
        return plain(I, a, k)
    xs = [I.freeze(x) for x in xs]
    return plain(I, a, k) if not xs or any(x.op in ("spread", "tuple", "rec", "dict") for x in xs) else mk("stack", *xs)


@model("jax.numpy.concatenate")
def _concatenate(I, a, k, plain=MODELS["jax.numpy.concatenate"]):
    """The flattened leaves of a tree one after the other are the flattened tree."""
    x = I.freeze(a[0]) if len(a) == 1 and not k else None
    if x is not None and x.op == "tuple" and len(x.args) == 1 and x.args[0].op == "spread":
        x = x.args[0].args[0]
    if x is not None and x.op == "leaves" and x.args[0].op in ("reshape", "ravel"):
        return mk("ravel", x.args[0].args[0])
    return plain(I, a, k)


@model("jax.numpy.signbit")
def _signbit(I, a, k):
    return mk("lt", I.freeze(a[0]), const(0))


# ------------------------------------------------------------------ lineax
@model("lineax.internal.max_norm")
def _mx(I, a, k):
    return mk("max_norm", I.freeze(a[0]))


@model("lineax.internal.rms_norm")
def _rms(I, a, k):
    return mk("rms_norm", I.freeze(a[0]))


@model("lineax.internal.two_norm")
def _two(I, a, k):
    x = I.freeze(a[0])
    return mk("sqrt", mk("dot", x, x))


@model("lineax.internal.sum_squares")
def _ss(I, a, k):
    x = I.freeze(a[0])
    return mk("dot", x, x)


@model("lineax.internal.tree_dot")
def _td(I, a, k):
    return mk("dot", I.freeze(a[0]), I.freeze(a[1]))


@model("lineax.internal.default_floating_dtype")
def _dfd(I, a, k):
    return mk("default_dtype")


def tagset(I, t):
    if t is None:
        return tup()
    return I.freeze(t)


@model("lineax.FunctionLinearOperator")
def _flo(I, a, k):
    f = A(a, k, 0, "fn")
    s = I.freeze(A(a, k, 1, "input_structure"))
    tags = tagset(I, A(a, k, 2, "tags"))
    if f.op == "jvpfn":
        return mk("op_jac", f.args[0], f.args[1], tags)
    return mk("op_fn", I.lam_of(f, unstruct(I, s)), s, tags)


@model("lineax.JacobianLinearOperator")
def _jlo(I, a, k):
    f = A(a, k, 0, "fn")
    x = I.freeze(A(a, k, 1, "x"))
    ar = A(a, k, 2, "args", NONE)
    tags = tagset(I, A(a, k, 3, "tags"))
    lam = I.lam_of(dyn_py("jac", lambda I, v, k2: I.call(f, [v[0], ar], {})), x)
    return mk("op_jac", lam, x, tags)


@model("lineax.PyTreeLinearOperator")
def _plo(I, a, k):
    return mk("op_tree", I.freeze(A(a, k, 0, "pytree")), I.freeze(A(a, k, 1, "output_structure")), tagset(I, A(a, k, 2, "tags")))


@model("lineax.MatrixLinearOperator")
def _mlo(I, a, k):
    return mk("op_mat", I.freeze(A(a, k, 0, "matrix")), tagset(I, A(a, k, 1, "tags")))


@model("lineax.IdentityLinearOperator")
def _ilo(I, a, k):
    return mk("op_id", I.freeze(A(a, k, 0, "input_structure")))


@model("lineax.TaggedLinearOperator")
def _tlo(I, a, k):
    return mk("op_tagged", I.freeze(A(a, k, 0, "operator")), tagset(I, A(a, k, 1, "tags")))


@model("lineax.linearise", "lineax.materialise")
def _linearise(I, a, k):
    return a[0]


@model("lineax.is_positive_semidefinite")
def _ispsd(I, a, k):
    return mk("is_psd", I.freeze(a[0]))


@model("lineax.linear_solve")
def _ls(I, a, k):
    op = I.freeze(A(a, k, 0, "operator"))
    b = I.freeze(A(a, k, 1, "vector"))
    s = I.freeze(A(a, k, 2, "solver", mk("linsolver", "AutoLinearSolver", ("well_posed",), TRUE)))
    rest = tuple(sorted(n for n in k if n not in ("operator", "vector", "solver")))
    t = mk("linsolve", op, b, s, rest, *[I.freeze(k[n]) for n in rest])
    I.event("linsolve", t)
    return t


def _lsolver(name, sig=("well_posed",)):
    def f(I, a, k):
        d = dict(zip(sig, a))
        d.update(k)
        kn = tuple(sorted(d))
        return mk("linsolver", name, kn, *[I.freeze(d[n]) for n in kn])
    return f


for _n, _s in {"AutoLinearSolver": ("well_posed",), "Cholesky": (), "QR": (), "LU": (), "SVD": ("rcond",), "CG": ("rtol", "atol"),
               "NormalCG": ("rtol", "atol"), "GMRES": ("rtol", "atol"), "BiCGStab": ("rtol", "atol"), "Diagonal": (), "LSMR": ("rtol", "atol")}.items():
    MODELS["lineax." + _n] = _lsolver(_n, _s)


@model("lineax.RESULTS.promote")
def _promote(I, a, k):
    return mk("promote", I.freeze(a[0]))


@model("lineax.RESULTS.where")
def _rwhere(I, a, k):
    return mk_where(I, *[I.freeze(A(a, k, i, n)) for i, n in enumerate(("pred", "a", "b"))])
