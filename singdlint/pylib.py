"""Summaries of Python builtins and the standard library."""
import itertools
from fractions import Fraction

from .sym import ONE, Sc, ZERO, node, sc
from .ten import fresh
from .values import *  # noqa: F401,F403
from .values import (Unknown, NumV, Choice, Ext, FuncV, BoundM, Partial, Native, ClassV, ClsMethod, StatMethod,
                     Prop, Obj, ModV, SuperV, SizeV, TensorV, SMV, ModuleObj, FamilyV, ExcV, PyRaise, GenList,
                     DType, Device)


def _seq(i, v):
    s = i.iterate(v)
    from .interp import SymSeq

    if isinstance(s, SymSeq):
        i.abort("operation on a sequence of symbolic length")
    return list(s)


def b_len(i, a, k):
    from .interp import SymSeq

    v = i.force(a[0])
    if isinstance(v, Unknown):
        return v
    if isinstance(v, TensorV):
        if not v.shape:
            i.throw("TypeError", "len() of a 0-d tensor")
        return i.mknum(v.shape[0], "int")
    if isinstance(v, SymSeq):
        return i.mknum(v.count, "int")
    if isinstance(v, Obj):
        return i.call_method(v, "__len__", [])
    if isinstance(v, (list, tuple)) and any(isinstance(x, FamilyV) for x in v):
        return i.mknum(sum((x.length if isinstance(x, FamilyV) else ONE for x in v), ZERO), "int")
    if isinstance(v, ModuleObj):
        return len(v.children)
    if isinstance(v, (list, tuple, dict, set, frozenset, str, range)):
        return len(v)
    if v is not None and not isinstance(v, (int, float, NumV)):
        i.abort(f"len() of {v!r}")
    i.throw("TypeError", f"object of type {type(v).__name__} has no len()")


def b_range(i, a, k):
    from .interp import SymSeq

    ns = [i.toint(x, "range bound") for x in a]
    start, stop, step = ZERO, None, ONE
    if len(ns) == 1:
        stop = ns[0]
    else:
        start, stop = ns[0], ns[1]
        if len(ns) == 3:
            step = ns[2]
    if all(x.is_int_const() for x in (start, stop, step)):
        return list(range(int(start.const_val()), int(stop.const_val()), int(step.const_val())))
    if not step.is_const():
        if not i.path.sign_in(step, {1}):
            i.abort("range with symbolic step of unknown sign")
        count = i.floordiv(stop - start + step - 1, step)
    else:
        s = step.const_val()
        if s > 0:
            d = stop - start
        else:
            d = start - stop
        if abs(s) != 1:
            count = i.floordiv(d + abs(s) - 1, sc(abs(s)))
        else:
            count = d
    count = i.path.simp(count)
    if not i.path.bd.nonneg(count):
        if not i.path.sign_in(count, {0, 1}):
            return []
    if count.is_int_const():
        return [i.mknum(start + step * n, "int") for n in range(int(count.const_val()))]
    return SymSeq(count, lambda v: i.mknum(start + step * v, "int"))


def b_enumerate(i, a, k):
    from .interp import SymSeq

    st = i.toint(a[1] if len(a) > 1 else k.get("start", 0))
    s = i.iterate(a[0])
    if isinstance(s, SymSeq):
        return SymSeq(s.count, lambda v: (i.mknum(st + v, "int"), s.get(v)))
    return GenList([(i.mknum(st + n, "int"), v) for n, v in enumerate(s)])


def b_zip(i, a, k):
    from .interp import SymSeq

    ss = [i.iterate(x) for x in a]
    if any(isinstance(s, SymSeq) for s in ss):
        if not all(isinstance(s, SymSeq) for s in ss):
            i.abort("zip of symbolic and concrete sequences")
        n = ss[0].count
        for s in ss[1:]:
            d = i.path.simp(s.count - n)
            if not d.is_zero():
                if k.get("strict", False):
                    if not i.path.sign_in(d, {0}):
                        i.throw("ValueError", "zip() arguments have different lengths")
                elif not i.path.sign_in(d, {0, 1}):
                    n = s.count
        return SymSeq(n, lambda v: tuple(s.get(v) for s in ss))
    strict = k.get("strict", False)
    if strict and len({len(s) for s in ss}) > 1:
        i.throw("ValueError", "zip() arguments have different lengths")
    return GenList([tuple(x) for x in zip(*ss)])


def b_map(i, a, k):
    from .interp import SymSeq

    ss = [i.iterate(x) for x in a[1:]]
    if any(isinstance(s, SymSeq) for s in ss):
        s = ss[0]
        return SymSeq(s.count, lambda v: i.call(a[0], [x.get(v) for x in ss], {}))
    return GenList([i.call(a[0], list(x), {}) for x in zip(*ss)])


def b_filter(i, a, k):
    return GenList([x for x in _seq(i, a[1]) if i.truth(i.call(a[0], [x], {}) if a[0] is not None else x)])


def b_any(i, a, k):
    for x in _seq(i, a[0]):
        if i.truth(x):
            return True
    return False


def b_all(i, a, k):
    for x in _seq(i, a[0]):
        if not i.truth(x):
            return False
    return True


def b_sum(i, a, k):
    from .interp import SymSeq

    s = i.iterate(a[0])
    acc = a[1] if len(a) > 1 else k.get("start", 0)
    if isinstance(s, SymSeq):
        var, val = i.family(s, lambda v: v)
        if isinstance(val, TensorV):
            t = i.model.new(i.sum_over(val.read(), var, s.count).norm(i.path.bd), val.dtype, val.device, graph=val.graph)
            return i.binop("Add", acc, t)
        n = i.num(val)
        if n is None:
            i.abort("sum over a symbolic sequence")
        return i.binop("Add", acc, i.mknum(i.sum_sc(n, var, s.count), i.kind(val)))
    for x in s:
        acc = i.binop("Add", acc, x)
    return acc


def minmax(i, a, k, which):
    if len(a) == 1:
        vs = _seq(i, a[0])
        if not vs:
            if "default" in k:
                return k["default"]
            i.throw("ValueError", f"{which}() arg is an empty sequence")
    else:
        vs = list(a)
    key = k.get("key")
    if key is not None:
        best = None
        for v in vs:
            kv = i.call(key, [v], {})
            if best is None or i.truth(i.compare("Gt" if which == "max" else "Lt", kv, best[1])):
                best = (v, kv)
        return best[0]
    acc = i.force(vs[0])
    for v in vs[1:]:
        v = i.force(v)
        acc = max2(i, acc, v, which)
    return acc


def max2(i, a, b, which):
    if isinstance(a, Unknown):
        return a
    if isinstance(b, Unknown):
        return b
    if isinstance(a, TensorV) or isinstance(b, TensorV):
        return i.model.minmax(a, b, which)
    inf = float("inf")
    for x, y in ((a, b), (b, a)):
        if isinstance(x, float) and x in (inf, -inf):
            return x if (x == inf) == (which == "max") else y
    na, nb = i.num(a), i.num(b)
    if na is None or nb is None:
        if isinstance(a, (str, tuple)):
            return a if i.truth(i.compare("GtE" if which == "max" else "LtE", a, b)) else b
        i.abort(f"{which} of {a!r}, {b!r}")
    isint = i.kind(a) == "int" and i.kind(b) == "int"
    poss = i.path.possible(i.path.simp(na - nb), isint)
    if isint or len(poss) == 1 or poss in ({0, 1}, {-1, 0}):
        g = i.path.sign_in(na - nb, {0, 1}, isint)
        if which == "max":
            return a if g else b
        return b if g else a
    return i.mknum(mm_node(which, na, nb), "float")


def mm_node(which, a, b):
    args = tuple(sorted((a, b), key=repr))
    return Sc.atom(node(which, args, pos=False))


def b_abs(i, a, k):
    v = i.force(a[0])
    if isinstance(v, TensorV):
        return i.model.call_ext("torch.abs", [v], {})
    n = i.num(v)
    if n is None:
        i.abort(f"abs of {v!r}")
    if n.is_const():
        return i.mknum(sc(abs(n.const_val())), i.kind(v))
    if i.path.sign_in(n, {0, 1}, i.kind(v) == "int"):
        return v
    return i.mknum(-n, i.kind(v))


def b_isinstance(i, a, k):
    return i.isinstance(a[0], a[1])


def b_issubclass(i, a, k):
    c, t = i.force(a[0]), i.force(a[1])
    ts = t if isinstance(t, tuple) else (t,)
    for x in ts:
        if isinstance(c, ClassV):
            if any(b is x or b == x for b in c.mro()):
                return True
        elif isinstance(c, type) and isinstance(x, type):
            if issubclass(c, x):
                return True
        elif isinstance(c, Ext):
            if c == x or i.model.ext_subclass(c, x):
                return True
    return False


def b_getattr(i, a, k):
    name = i.force(a[1])
    if not isinstance(name, str):
        i.abort("getattr with a symbolic name")
    if len(a) > 2:
        return i.getattr(a[0], name, a[2])
    return i.getattr(a[0], name)


def b_hasattr(i, a, k):
    from .interp import NOATTR

    name = i.force(a[1])
    try:
        return i._getattr(a[0], name) is not NOATTR
    except PyRaise as e:
        if e.exc.name == "AttributeError":
            return False
        raise


def b_setattr(i, a, k):
    i.setattr(a[0], i.force(a[1]), a[2])


def b_delattr(i, a, k):
    o = a[0]
    if isinstance(o, Obj):
        if a[1] not in o.attrs:
            i.throw("AttributeError", a[1])
        del o.attrs[a[1]]
        return
    i.abort("delattr")


def b_super(i, a, k, env):
    if a:
        return SuperV(a[0], a[1])
    e = env
    while e is not None:
        if e.func is not None and e.func.cls is not None:
            n = e.func.node.args
            names = [x.arg for x in n.posonlyargs + n.args]
            if names and names[0] in e.vars:
                return SuperV(e.func.cls, e.vars[names[0]])
        e = e.parent
    i.throw("RuntimeError", "super(): no arguments")


def b_print(i, a, k):
    return None


def b_id(i, a, k):
    v = a[0]
    ids = i.path.data.setdefault("ids", {})
    if id(v) not in ids:
        ids[id(v)] = (140000000000 + 64 * len(ids), v)
    return ids[id(v)][0]


def sym_id(v):
    return Sc.atom(node(f"id#{id(v)}", ()))


def b_sorted(i, a, k):
    vs = _seq(i, a[0])
    key = k.get("key")
    items = [(i.call(key, [v], {}) if key is not None else v, v) for v in vs]
    # insertion sort with abstract comparisons
    out = []
    for kv, v in items:
        n = len(out)
        while n > 0 and i.truth(i.compare("Lt", kv, out[n - 1][0])):
            n -= 1
        out.insert(n, (kv, v))
    r = [v for _, v in out]
    if k.get("reverse") and i.truth(k["reverse"]):
        r.reverse()
    return r


def b_reversed(i, a, k):
    from .interp import SymSeq

    s = i.iterate(a[0])
    if isinstance(s, SymSeq):
        return SymSeq(s.count, lambda v: s.get(s.count - 1 - v))
    return GenList(list(reversed(s)))


def b_next(i, a, k):
    g = a[0]
    if isinstance(g, GenList):
        if g.pos < len(g):
            g.pos += 1
            return g[g.pos - 1]
        if len(a) > 1:
            return a[1]
        i.throw("StopIteration")
    if isinstance(g, Obj):
        return i.call_method(g, "__next__", [])
    i.abort(f"next of {g!r}")


def b_iter(i, a, k):
    if isinstance(a[0], GenList):
        return a[0]
    from .interp import SymSeq

    s = i.iterate(a[0])
    if isinstance(s, SymSeq):
        return s
    return GenList(s)


def b_divmod(i, a, k):
    return (i.binop("FloorDiv", a[0], a[1]), i.binop("Mod", a[0], a[1]))


def b_round(i, a, k):
    n = i.num(i.force(a[0]))
    if n is not None and n.is_int_const():
        return int(n.const_val())
    if n is None:
        return Unknown("round")
    return NumV(Sc.atom(node("round", (n,) + tuple(sc(x) for x in a[1:] if isinstance(x, int)))), "float")


def b_hash(i, a, k):
    return i.mknum(sym_id(a[0]), "int")


def b_slice(i, a, k):
    from .interp import Slice

    a = list(a)
    if len(a) == 1:
        return Slice(None, a[0], None)
    return Slice(a[0], a[1], a[2] if len(a) > 2 else None)


def b_vars(i, a, k):
    return i.getattr(a[0], "__dict__")


def b_pow(i, a, k):
    return i.binop("Pow", a[0], a[1])


def b_repr(i, a, k):
    return i.tostr(i.force(a[0]), True)


def b_callable(i, a, k):
    v = a[0]
    if isinstance(v, Choice):
        return i.pred(v, lambda o: i.callable(o), "callable")
    return i.callable(v)


def b_dir(i, a, k):
    o = a[0]
    if isinstance(o, Obj):
        names = set(o.attrs)
        for c in o.cls.mro():
            if isinstance(c, ClassV):
                names |= set(c.dict)
        return sorted(names)
    i.abort("dir")


def b_memoryless(name):
    def f(i, a, k):
        i.abort(f"builtin {name} is not modelled")

    return f


BUILTINS = {
    "len": b_len, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "map": b_map, "filter": b_filter,
    "any": b_any, "all": b_all, "sum": b_sum, "max": lambda i, a, k: minmax(i, a, k, "max"),
    "min": lambda i, a, k: minmax(i, a, k, "min"), "abs": b_abs, "isinstance": b_isinstance,
    "issubclass": b_issubclass, "getattr": b_getattr, "hasattr": b_hasattr, "setattr": b_setattr,
    "delattr": b_delattr, "super": b_super, "print": b_print, "id": b_id, "sorted": b_sorted,
    "reversed": b_reversed, "next": b_next, "iter": b_iter, "divmod": b_divmod, "round": b_round, "hash": b_hash,
    "slice": b_slice, "vars": b_vars, "pow": b_pow, "repr": b_repr, "callable": b_callable, "dir": b_dir,
    "__import__": b_memoryless("__import__"), "open": b_memoryless("open"), "input": b_memoryless("input"),
    "exec": b_memoryless("exec"), "eval": b_memoryless("eval"), "globals": b_memoryless("globals"),
    "locals": lambda i, a, k, env: dict(env.vars), "format": lambda i, a, k: i.tostr(a[0]),
    "chr": lambda i, a, k: chr(i._pyint(a[0])), "ord": lambda i, a, k: ord(a[0]),
}


def call_type(i, t, args, kwargs):
    from .interp import SymSeq, SymStr

    if t is type:
        if len(args) == 1:
            v = i.force(args[0])
            if isinstance(v, Obj):
                return v.cls
            if isinstance(v, SMV):
                return i.model.sm_class(v)
            if isinstance(v, NumV):
                return int if v.kind == "int" else float
            if isinstance(v, TensorV):
                return Ext("torch.Tensor") if v.param is None else Ext("torch.nn.Parameter")
            if isinstance(v, ModuleObj):
                return Ext(v.kind)
            if isinstance(v, ClassV):
                return type
            return type(v)
        name, bases, d = args
        c = ClassV(name, i.modules[list(i.modules)[-1]], None, list(bases))
        c.dict.update(d)
        c.dict.setdefault("__module__", c.module.name)
        return c
    if t is object:
        return Obj(ClassV("object", i.modules[list(i.modules)[0]], None, []))
    if t in (list, tuple, set, frozenset):
        if not args:
            return t()
        s = i.iterate(args[0])
        if isinstance(s, SymSeq):
            if t in (set, frozenset):
                i.abort("set of symbolic length")
            var, val = i.family(s, lambda v: v)
            return t([FamilyV(var, s.count, val)])
        if t in (set, frozenset):
            return t(i.key(x) for x in s)
        return t(s)
    if t is dict:
        d = {}
        if args:
            a = i.force(args[0])
            if isinstance(a, dict):
                d.update(a)
            else:
                for kv in _seq(i, a):
                    kk, vv = _seq(i, kv)
                    d[i.key(kk)] = vv
        d.update(kwargs)
        return d
    v = i.force(args[0]) if args else (0 if t is not str else "")
    if isinstance(v, Unknown):
        return v
    if t is bool:
        return i.truth(v)
    if t is str:
        if isinstance(v, (Device, DType)):
            if i.path.concrete_tok(i.path.dt(v)):
                n = i.path.dt(v).name
                return n if isinstance(v, Device) else "torch." + n
            return SymStr(v)
        return i.tostr(v)
    if isinstance(v, TensorV):
        v = i.model.item(v)
    n = i.num(v)
    if t is float:
        if isinstance(v, float):
            return v
        if isinstance(v, str):
            x = float(v)
            return x if x in (float("inf"), float("-inf")) or x != x else NumV(sc(x), "float")
        if n is not None:
            return NumV(n, "float")
    if t is int:
        if isinstance(v, str):
            return int(v)
        if n is not None:
            if i.kind(v) == "int" or n.is_int_const():
                return i.mknum(n, "int")
            if n.is_const():
                return int(n.const_val())
            # integer part
            if len(n.t) == 1:
                # sqrt of a perfect square etc. stays opaque
                pass
            a = node("trunc", (n,))
            if i.path.possible(n, False) <= {0, 1}:
                i.path.bd.set(a, 0)
            return NumV(Sc.atom(a), "int")
    i.abort(f"{t.__name__}({v!r})")


# ------------------------------------------------------------------ attributes
LIST_METHODS = {"append", "extend", "insert", "pop", "remove", "clear", "index", "count", "reverse", "sort", "copy"}
DICT_METHODS = {"get", "items", "keys", "values", "pop", "popitem", "update", "setdefault", "clear", "copy", "fromkeys"}
SET_METHODS = {"add", "discard", "remove", "update", "union", "intersection", "difference", "issubset", "issuperset",
               "copy", "clear", "pop", "isdisjoint", "symmetric_difference", "difference_update", "intersection_update"}


def builtin_attr(i, o, name):
    from .interp import NOATTR, SymStr

    if isinstance(o, SizeV):
        if name == "numel":
            def numel(it, a, k):
                p = ONE
                for d in o:
                    p = p * it.num(d)
                return it.mknum(p, "int")
            return Native("numel", numel)
        if name in ("count", "index"):
            return Native(name, lambda it, a, k: getattr(tuple(o), name)(*a))
        return NOATTR
    if isinstance(o, list) and name in LIST_METHODS:
        return Native(name, lambda it, a, k: list_method(it, o, name, a, k))
    if isinstance(o, dict) and name in DICT_METHODS:
        return Native(name, lambda it, a, k: dict_method(it, o, name, a, k))
    if isinstance(o, dict) and name == "default_factory":
        return getattr(o, "factory", None)
    if isinstance(o, (set, frozenset)) and name in SET_METHODS:
        return Native(name, lambda it, a, k: set_method(it, o, name, a, k))
    if isinstance(o, tuple) and name in ("index", "count"):
        return Native(name, lambda it, a, k: list_method(it, list(o), name, a, k))
    if isinstance(o, tuple) and hasattr(o, "_fields_") :
        pass
    if isinstance(o, str):
        if hasattr(str, name):
            def sm(it, a, k):
                a = [it.force(x) for x in a]
                if name == "format":
                    try:
                        return o.format(*[it.tostr(x) for x in a], **{q: it.tostr(v) for q, v in k.items()})
                    except Exception:
                        return o
                if name == "join":
                    return o.join(it.tostr(x) for x in _seq(it, a[0]))
                return getattr(o, name)(*a, **k)
            return Native(name, sm)
        return NOATTR
    if isinstance(o, SymStr):
        if name in ("startswith",):
            def sw(it, a, k):
                return it.path.cond(f"str({o.tok!r}).startswith({a[0]!r})")
            return Native(name, sw)
        i.abort(f"string method {name} on a symbolic string")
    if isinstance(o, NumV):
        if name == "is_integer":
            def isint(it, a, k):
                n = it.num(o)
                if n.is_const():
                    return n.is_int_const()
                return it.path.cond(f"isint({n!r})")
            return Native(name, isint)
        if name in ("real", "numerator"):
            return o
        if name == "item":
            return NOATTR
        return NOATTR
    if isinstance(o, (int, float)):
        if name == "is_integer":
            return Native(name, lambda it, a, k: float(o).is_integer())
        if name == "bit_length":
            return Native(name, lambda it, a, k: o.bit_length())
        return NOATTR
    if isinstance(o, type):
        if name in ("__name__", "__qualname__"):
            return o.__name__
        if o is dict and name == "fromkeys":
            return Native(name, lambda it, a, k: {it.key(x): (a[1] if len(a) > 1 else None) for x in _seq(it, a[0])})
        if o is object and name == "__setattr__":
            return Native(name, lambda it, a, k: a[0].attrs.__setitem__(a[1], a[2]))
        if o is object and name in ("__init__", "__init_subclass__"):
            return Native(name, lambda it, a, k: None)
        if o is str and name == "join":
            return Native(name, lambda it, a, k: a[0].join(it.tostr(x) for x in _seq(it, a[1])))
        return NOATTR
    if o is None:
        return NOATTR
    if isinstance(o, Native):
        if name in ("__name__", "__qualname__"):
            return o.name
        if name == "cache_clear":
            return Native(name, lambda it, a, k: None)
        return NOATTR
    if isinstance(o, GenList):
        if name == "__next__":
            return Native(name, lambda it, a, k: b_next(it, [o], {}))
        if name == "close":
            return Native(name, lambda it, a, k: None)
        return NOATTR
    from .interp import DefaultDict  # noqa: F401

    return NOATTR


def list_method(i, o, name, a, k):
    if name == "append":
        o.append(a[0])
    elif name == "extend":
        from .interp import SymSeq

        s = i.iterate(a[0])
        if isinstance(s, SymSeq):
            var, val = i.family(s, lambda v: v)
            o.append(FamilyV(var, s.count, val))
        else:
            o.extend(s)
    elif name == "insert":
        o.insert(i._pyint(a[0]), a[1])
    elif name == "pop":
        if not o:
            i.throw("IndexError", "pop from empty list")
        return o.pop(i._pyint(a[0]) if a else -1)
    elif name == "remove":
        for n, x in enumerate(o):
            if x is a[0] or i.truth(i.equal(x, a[0])):
                del o[n]
                return
        i.throw("ValueError", "list.remove(x): x not in list")
    elif name == "clear":
        o.clear()
    elif name == "index":
        x = i.force(a[0])
        for n, y in enumerate(o):
            if y is x or i.truth(i.equal(y, x)):
                return n
        i.throw("ValueError", f"{x!r} is not in list")
    elif name == "count":
        return sum(1 for y in o if y is a[0] or i.truth(i.equal(y, a[0])))
    elif name == "reverse":
        o.reverse()
    elif name == "sort":
        o[:] = b_sorted(i, [list(o)], k)
    elif name == "copy":
        return list(o)


def _find(i, o, key):
    kk = i.key(key)
    if kk in o:
        return kk, True
    if isinstance(kk, NumV):
        for y in list(o):
            if isinstance(y, (int, NumV)) and not isinstance(y, bool) and i.equal(y, kk):
                return y, True
    return kk, False


def dict_method(i, o, name, a, k):
    if name == "get":
        kk, hit = _find(i, o, a[0])
        return o[kk] if hit else (a[1] if len(a) > 1 else k.get("default"))
    if name == "items":
        return GenItems([(x, y) for x, y in o.items()])
    if name == "keys":
        return GenItems(list(o.keys()))
    if name == "values":
        return GenItems(list(o.values()))
    if name == "pop":
        kk, hit = _find(i, o, a[0])
        if hit:
            return o.pop(kk)
        if len(a) > 1:
            return a[1]
        i.throw("KeyError", kk)
    if name == "popitem":
        if not o:
            i.throw("KeyError", "popitem(): dictionary is empty")
        return o.popitem()
    if name == "update":
        if a:
            s = i.force(a[0])
            if isinstance(s, dict):
                o.update(s)
            else:
                for kv in _seq(i, s):
                    x, y = _seq(i, kv)
                    o[i.key(x)] = y
        o.update(k)
        return None
    if name == "setdefault":
        kk, hit = _find(i, o, a[0])
        if not hit:
            o[kk] = a[1] if len(a) > 1 else None
        return o[kk]
    if name == "clear":
        o.clear()
        return None
    if name == "copy":
        return dict(o)
    if name == "fromkeys":
        return {i.key(x): (a[1] if len(a) > 1 else None) for x in _seq(i, a[0])}


class GenItems(list):
    """Dictionary view (re-iterable)."""


def set_method(i, o, name, a, k):
    if name == "add":
        o.add(i.key(a[0]))
        return None
    if name in ("discard", "remove"):
        kk = i.key(a[0])
        if kk not in o and name == "remove":
            i.throw("KeyError", kk)
        o.discard(kk)
        return None
    if name == "copy":
        return set(o)
    if name == "clear":
        o.clear()
        return None
    if name == "pop":
        if not o:
            i.throw("KeyError", "pop from an empty set")
        return o.pop()
    sets = [set(i.key(x) for x in _seq(i, y)) for y in a]
    if name in ("update", "difference_update", "intersection_update"):
        getattr(o, name)(*sets)
        return None
    return getattr(o, name)(*sets)


# ------------------------------------------------------------ standard library
def _sqrt(i, a, k):
    v = i.force(a[0])
    if isinstance(v, TensorV):
        v = i.model.item(v)
    if isinstance(v, Unknown):
        return v
    n = i.num(v)
    if n is None:
        i.throw("TypeError", "must be real number")
    return NumV(n.pow(Fraction(1, 2)), "float")


def _math1(fn):
    def f(i, a, k):
        v = i.force(a[0])
        if isinstance(v, TensorV):
            v = i.model.item(v)
        n = i.num(v)
        if n is None:
            if isinstance(v, float):
                import math

                return getattr(math, fn)(v)
            return Unknown(f"math.{fn}")
        if fn in ("floor", "ceil", "trunc") and n.is_const():
            import math

            return int(getattr(math, fn)(n.const_val()))
        if fn in ("floor", "trunc"):
            # a/b with integers
            r = _as_fraction(n)
            if r is not None:
                return i.mknum(i.floordiv(*r), "int")
        if fn == "ceil":
            r = _as_fraction(n)
            if r is not None:
                return i.mknum(-i.floordiv(-r[0], r[1]), "int")
        return NumV(Sc.atom(node(fn, (n,))), "int" if fn in ("floor", "ceil", "trunc") else "float")

    return f


def _as_fraction(n):
    dens = {}
    import math

    c = 1
    for m, k in n.t.items():
        c = c * k.denominator // math.gcd(c, k.denominator)
        for a, e in m:
            if isinstance(e, Fraction):
                return None
            if e < 0:
                dens[a] = min(dens.get(a, 0), e)
    d = sc(c)
    for a, e in dens.items():
        d = d * Sc.atom(a, -e)
    num = n * d
    return num, d


def _isclose(i, a, k):
    return i.path.cond(f"isclose({i.tostr(a[0])},{i.tostr(a[1])})")


def _prod(i, a, k):
    acc = k.get("start", 1)
    for x in _seq(i, a[0]):
        acc = i.binop("Mult", acc, x)
    return acc


def _reduce(i, a, k):
    s = _seq(i, a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        if not s:
            i.throw("TypeError", "reduce() of empty iterable with no initial value")
        acc = s.pop(0)
    for x in s:
        acc = i.call(a[0], [acc, x], {})
    return acc


def _partial(i, a, k):
    return Partial(a[0], a[1:], k)


def _memo(i, a, k):
    if a and isinstance(a[0], FuncV):
        a[0].memo = {}
        return a[0]
    return Native("lru_cache", lambda it, aa, kk: _memo(it, aa, kk))


def _wraps(i, a, k):
    return Native("wraps", lambda it, aa, kk: aa[0])


def _attrgetter(i, a, k):
    def f(it, aa, kk):
        r = []
        for n in a:
            o = aa[0]
            for p in n.split("."):
                o = it.getattr(o, p)
            r.append(o)
        return r[0] if len(r) == 1 else tuple(r)

    return Native("attrgetter", f)


def _itemgetter(i, a, k):
    return Native("itemgetter", lambda it, aa, kk: it.getitem(aa[0], a[0]) if len(a) == 1 else tuple(
        it.getitem(aa[0], x) for x in a))


def _op(op):
    return lambda i, a, k: i.binop(op, a[0], a[1])


def _cmp(op):
    return lambda i, a, k: i.compare(op, a[0], a[1])


def _defaultdict(i, a, k):
    from .interp import DefaultDict

    d = DefaultDict()
    d.factory = a[0] if a else None
    if len(a) > 1:
        d.update(i.force(a[1]))
    return d


def _namedtuple(i, a, k):
    name, fields = a[0], a[1]
    fields = fields.replace(",", " ").split() if isinstance(fields, str) else _seq(i, fields)
    c = ClassV(name, list(i.modules.values())[-1], None, [])

    def init(it, aa, kk):
        o = aa[0]
        for n, v in zip(fields, aa[1:]):
            o.attrs[n] = v
        o.attrs.update(kk)

    c.dict["__init__"] = Native("init", init)
    c.dict["__iter__"] = Native("iter", lambda it, aa, kk: GenList([aa[0].attrs[n] for n in fields]))
    c.dict["__getitem__"] = Native("getitem", lambda it, aa, kk: [aa[0].attrs[n] for n in fields][it._pyint(aa[1])])
    c.dict["__len__"] = Native("len", lambda it, aa, kk: len(fields))
    return c


def _chain(i, a, k):
    out = []
    for x in a:
        out.extend(_seq(i, x))
    return GenList(out)


def _product(i, a, k):
    r = i._pyint(k.get("repeat", 1))
    return GenList(itertools.product(*([_seq(i, x) for x in a] * r)))


def _accumulate(i, a, k):
    s = _seq(i, a[0])
    fn = a[1] if len(a) > 1 else k.get("func")
    out = []
    acc = None
    if "initial" in k:
        acc = k["initial"]
        out.append(acc)
    for n, x in enumerate(s):
        if acc is None and n == 0:
            acc = x
        else:
            acc = i.call(fn, [acc, x], {}) if fn is not None else i.binop("Add", acc, x)
        out.append(acc)
    return GenList(out)


def _contextmanager(i, a, k):
    a[0].attrs["ctxmanager"] = True
    return a[0]


def _suppress(i, a, k):
    from .interp import CtxV

    excs = a

    def ex(e=None):
        return e is not None and i.exc_match(e.exc, tuple(excs))

    return CtxV(lambda: None, ex)


def _nullcontext(i, a, k):
    from .interp import CtxV

    v = a[0] if a else k.get("enter_result")
    return CtxV(lambda: v, lambda e=None: None)


def _catch_warnings(i, a, k):
    from .interp import CtxV

    p = i.path

    def ent():
        p.warn_depth += 1
        return [] if k.get("record") else None

    def ex(e=None):
        p.warn_depth -= 1

    return CtxV(ent, ex)


def _filter(name):
    def f(i, a, k):
        if i.path.warn_depth == 0:
            i.path.event("global", what=f"warnings.{name}")
        return None

    return f


def _warn(i, a, k):
    msg = i.force(a[0])
    cat = a[1] if len(a) > 1 else k.get("category")
    i.path.event("warn", msg=i.tostr(msg) if not isinstance(msg, str) else msg, category=cat, chain=i.where())
    return None


def _copy(i, a, k):
    v = i.force(a[0])
    if isinstance(v, dict):
        r = type(v)()
        r.update(v)
        if hasattr(v, "factory"):
            r.factory = v.factory
        return r
    if isinstance(v, list):
        return list(v)
    if isinstance(v, (set,)):
        return set(v)
    if isinstance(v, Obj):
        o = Obj(v.cls, v.label)
        o.attrs = dict(v.attrs)
        return o
    if isinstance(v, (int, str, NumV, tuple, DType, Device)) or v is None:
        return v
    if isinstance(v, TensorV):
        return i.model.call_ext("torch.clone", [v], {})
    return i.model.copy(v, deep=False)


def deepcopy(i, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)][0]
    v0 = v
    v = i.force(v)
    if isinstance(v, dict):
        r = type(v)()
        if hasattr(v, "factory"):
            r.factory = v.factory
        memo[id(v0)] = (r, v0)
        for x, y in v.items():
            r[x] = deepcopy(i, y, memo)
        return r
    if isinstance(v, list):
        r = []
        memo[id(v0)] = (r, v0)
        r.extend(deepcopy(i, x, memo) for x in v)
        return r
    if isinstance(v, SizeV):
        return v
    if isinstance(v, tuple):
        return tuple(deepcopy(i, x, memo) for x in v)
    if isinstance(v, (set, frozenset)):
        return type(v)(v)
    if isinstance(v, Obj):
        o = Obj(v.cls, v.label)
        memo[id(v0)] = (o, v0)
        for x, y in v.attrs.items():
            o.attrs[x] = deepcopy(i, y, memo)
        return o
    if isinstance(v, TensorV):
        t = i.model.deepcopy_tensor(v)
        memo[id(v0)] = (t, v0)
        return t
    if isinstance(v, SMV):
        t = i.model.copy(v, deep=True)
        memo[id(v0)] = (t, v0)
        return t
    return v


def _log(i, a, k):
    return None


STDLIB = {
    "math.sqrt": _sqrt, "math.prod": _prod, "math.isclose": _isclose,
    "math.pow": lambda i, a, k: i.binop("Pow", a[0], a[1]),
    "math.fabs": b_abs, "math.isinf": lambda i, a, k: isinf(i, a[0]), "math.isnan": lambda i, a, k: isnan(i, a[0]),
    "math.isfinite": lambda i, a, k: isfinite(i, a[0]),
    "math.gcd": lambda i, a, k: __import__("math").gcd(i._pyint(a[0]), i._pyint(a[1])),
    "functools.partial": _partial, "functools.reduce": _reduce, "functools.lru_cache": _memo, "functools.cache": _memo,
    "functools.wraps": _wraps,
    "operator.attrgetter": _attrgetter, "operator.itemgetter": _itemgetter, "operator.mul": _op("Mult"),
    "operator.add": _op("Add"), "operator.sub": _op("Sub"), "operator.truediv": _op("Div"),
    "operator.matmul": _op("MatMult"), "operator.floordiv": _op("FloorDiv"), "operator.mod": _op("Mod"),
    "operator.eq": _cmp("Eq"), "operator.ne": _cmp("NotEq"), "operator.lt": _cmp("Lt"), "operator.gt": _cmp("Gt"),
    "operator.le": _cmp("LtE"), "operator.ge": _cmp("GtE"),
    "operator.neg": lambda i, a, k: i.binop("Mult", -1, a[0]),
    "operator.iadd": lambda i, a, k: i.inplace("Add", a[0], a[1]),
    "operator.contains": lambda i, a, k: i.contains(a[0], a[1]),
    "collections.defaultdict": _defaultdict, "collections.namedtuple": _namedtuple,
    "collections.OrderedDict": lambda i, a, k: call_type(i, dict, a, k),
    "collections.deque": lambda i, a, k: call_type(i, list, a[:1], {}),
    "itertools.chain": _chain, "itertools.chain.from_iterable": lambda i, a, k: _chain(i, _seq(i, a[0]), {}),
    "itertools.product": _product, "itertools.accumulate": _accumulate,
    "itertools.repeat": lambda i, a, k: GenList([a[0]] * (i._pyint(a[1]) if len(a) > 1 else 64)),
    "itertools.count": lambda i, a, k: GenList(range(i._pyint(a[0]) if a else 0, 256)),
    "itertools.islice": lambda i, a, k: GenList(list(itertools.islice(_seq(i, a[0]), *[i._pyint(x) for x in a[1:]]))),
    "itertools.starmap": lambda i, a, k: GenList([i.call(a[0], _seq(i, x), {}) for x in _seq(i, a[1])]),
    "itertools.zip_longest": lambda i, a, k: GenList(itertools.zip_longest(*[_seq(i, x) for x in a],
                                                                         fillvalue=k.get("fillvalue"))),
    "itertools.combinations": lambda i, a, k: GenList(itertools.combinations(_seq(i, a[0]), i._pyint(a[1]))),
    "itertools.filterfalse": lambda i, a, k: GenList([x for x in _seq(i, a[1]) if not i.truth(i.call(a[0], [x], {}))]),
    "itertools.compress": lambda i, a, k: GenList([x for x, y in zip(_seq(i, a[0]), _seq(i, a[1])) if i.truth(y)]),
    "contextlib.contextmanager": _contextmanager, "contextlib.suppress": _suppress,
    "contextlib.nullcontext": _nullcontext,
    "warnings.warn": _warn, "warnings.catch_warnings": _catch_warnings,
    "warnings.simplefilter": _filter("simplefilter"), "warnings.filterwarnings": _filter("filterwarnings"),
    "warnings.resetwarnings": _filter("resetwarnings"),
    "copy.copy": _copy, "copy.deepcopy": lambda i, a, k: deepcopy(i, a[0]),
    "abc.abstractmethod": lambda i, a, k: _abstract(a[0]),
    "typing.cast": lambda i, a, k: a[1], "typing.TypeVar": lambda i, a, k: Ext("typing.TypeVar"),
    "typing.overload": lambda i, a, k: a[0], "typing.final": lambda i, a, k: a[0],
    "typing.NewType": lambda i, a, k: a[1],
    "types.MappingProxyType": lambda i, a, k: a[0], "types.SimpleNamespace": lambda i, a, k: _ns(i, k),
    "inspect.isclass": lambda i, a, k: isinstance(i.force(a[0]), (ClassV, type)),
    "numbers.Number.register": _log,
}
for _fn in ("floor", "ceil", "trunc", "log", "exp", "log2", "log10", "tanh", "sin", "cos"):
    STDLIB["math." + _fn] = _math1(_fn)


def _ns(i, k):
    c = ClassV("SimpleNamespace", list(i.modules.values())[-1], None, [])
    o = Obj(c)
    o.attrs.update(k)
    return o


def isinf(i, v):
    v = i.force(v)
    if isinstance(v, float):
        return v in (float("inf"), float("-inf"))
    n = i.num(v)
    if n is not None and (n.is_const() or i.kind(v) == "int"):
        return False
    return i.path.cond(f"isinf({i.tostr(v)})")


def isnan(i, v):
    v = i.force(v)
    n = i.num(v)
    if n is not None and (n.is_const() or i.kind(v) == "int"):
        return False
    return i.path.cond(f"isnan({i.tostr(v)})")


def isfinite(i, v):
    v = i.force(v)
    if isinstance(v, float):
        return v not in (float("inf"), float("-inf"))
    n = i.num(v)
    if n is not None and (n.is_const() or i.kind(v) == "int"):
        return True
    return i.path.cond(f"isfinite({i.tostr(v)})")


def _abstract(f):
    g = f.fn if isinstance(f, (ClsMethod, StatMethod)) else f
    if isinstance(g, FuncV):
        g.attrs["abstract"] = True
    return f


BENIGN_PREFIX = ("logging.", "time.", "tqdm.", "datetime.")
