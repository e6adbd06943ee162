"""Abstract values of the interpreter."""
import itertools
from fractions import Fraction

from .sym import ONE, Sc, ZERO, sc, sym, node
from .ten import Ten, Term, fresh, slot


class Unknown:
    """A value the analysis cannot describe (poison)."""

    def __init__(self, reason, site=None):
        self.reason, self.site = reason, site

    def __repr__(self):
        return f"<unknown: {self.reason}>"


class NumV:
    """Symbolic Python number."""

    __slots__ = ("sc", "kind")

    def __init__(self, s, kind="float"):
        self.sc, self.kind = s, kind

    def __repr__(self):
        return f"Num({self.sc!r})"

    def __eq__(self, o):
        if isinstance(o, NumV):
            return self.sc == o.sc
        if isinstance(o, (int, float)):
            return self.sc == sc(o)
        return NotImplemented

    def __hash__(self):
        return hash(self.sc)


class Choice:
    """Symbolic value out of finitely many options (candidates kept per path)."""

    def __init__(self, name, options, parent=None, labels=None):
        self.name = name
        self.options = list(options)
        self.parent = parent  # choices derived from another choice share its name

    def __repr__(self):
        return f"Choice({self.name})"


class Ext:
    """External (not analysed) object, identified by its dotted path."""

    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return f"<ext {self.path}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("Ext", self.path))


class DType:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DType) and o.name == self.name

    def __hash__(self):
        return hash(("DType", self.name))

    def __repr__(self):
        return f"dtype:{self.name}"


CONCRETE_DTYPES = {
    "float16", "bfloat16", "float32", "float64", "int64", "int32", "bool", "uint8", "int8", "int16",
    "complex64", "complex128",
}
INT_DTYPES = {"int64", "int32", "bool", "uint8", "int8", "int16"}


class Device:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Device) and o.name == self.name

    def __hash__(self):
        return hash(("Device", self.name))

    def __repr__(self):
        return f"device:{self.name}"


DEFAULT_DTYPE = DType("<default>")
DEFAULT_DEVICE = Device("<default>")


class FuncV:
    def __init__(self, node, module, closure, qualname, defaults, kwdefaults, cls=None):
        self.node, self.module, self.closure = node, module, closure
        self.qualname = qualname
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls = cls  # defining class (for zero-arg super)
        self.memo = None
        self.nograd = False
        self.attrs = {}

    def __repr__(self):
        return f"<func {self.qualname}>"


class BoundM:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return f"<bound {self.fn} of {self.self_!r}>"

    def __eq__(self, o):
        return isinstance(o, BoundM) and o.fn is self.fn and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.fn), id(self.self_)))


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), dict(kwargs)


class Native:
    """A Python callable implementing a summary: f(interp, args, kwargs)."""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f"<native {self.name}>"


class ClassV:
    def __init__(self, name, module, node, bases):
        self.name, self.module, self.node, self.bases = name, module, node, bases
        self.dict = {}
        self.qualname = name

    def mro(self):
        out = [self]
        seqs = []
        for b in self.bases:
            seqs.append(b.mro() if isinstance(b, ClassV) else [b])
        # C3 merge
        seqs.append(list(self.bases))
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                break
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    s.pop(0)
            seqs = [s for s in seqs if s]
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassV) and name in c.dict:
                return c.dict[name], c
        return None, None

    def is_sub(self, o):
        return any(c is o or c == o for c in self.mro())

    def ext_bases(self):
        return [c for c in self.mro() if isinstance(c, Ext)]

    def __repr__(self):
        return f"<class {self.name}>"


class ClsMethod:
    def __init__(self, fn):
        self.fn = fn


class StatMethod:
    def __init__(self, fn):
        self.fn = fn


class Prop:
    def __init__(self, fget):
        self.fget = fget
        self.fset = None


class Obj:
    """Instance of an analysed class."""

    _n = itertools.count(1)

    def __init__(self, cls, label=None):
        self.cls = cls
        self.attrs = {}
        self.label = label or cls.name
        self.id = next(Obj._n)

    def __repr__(self):
        return f"<{self.label}>"


class ModV:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.env = {}

    def __repr__(self):
        return f"<module {self.name}>"


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class SizeV(tuple):
    """torch.Size of abstract dims (python ints or NumV)."""


class Storage:
    _n = itertools.count(1)

    def __init__(self, val, root):
        self.val = val
        self.root = root
        self.id = next(Storage._n)
        self.taint = None
        self.writes = 0
        self.pending = None  # all-reduce in flight


class Rel:
    """Relation between base index variables %B<k> and view slots $<k>."""

    __slots__ = ("eqs", "aux", "injective")

    def __init__(self, eqs, aux=None, injective=True):
        self.eqs, self.aux, self.injective = list(eqs), dict(aux or {}), injective


def bvar(k):
    return f"%B{k}"


class TensorV:
    _n = itertools.count(1)

    def __init__(self, st, shape, dtype, device, rel=None):
        self.st = st
        self.rel = rel
        self.shape = tuple(sc(d) for d in shape)
        self.dtype, self.device = dtype, device
        self.graph = False  # attached to an autograd graph
        self.leaf = False  # leaf requiring grad (a Parameter)
        self.param = None
        self.grad = None
        self.ival = None
        self.contig = None  # True / None (unknown)
        self.hooks = []
        self.attrs = {}
        self.id = next(TensorV._n)
        self.label = None

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f"<tensor {self.label or self.st.root} {list(self.shape)}>"

    # -- reading and writing through views
    def read(self, base=None):
        if base is None:
            base = self.st.val
        if self.rel is None:
            return base
        rel = self.rel

        def eq(i, o, a):
            mp = {bvar(k): v for k, v in enumerate(i)}
            mp.update({k: v for k, v in a.items()})
            return [e.subst(mp) for e in rel.eqs]

        return base.rel(self.shape, eq, rel.aux)

    def write(self, new, bd):
        if self.rel is None:
            self.st.val = new.norm(bd)
        else:
            old = self.read()
            delta = (new - old).norm(bd)
            rel = self.rel

            def eq(i, o, a):
                mp = {bvar(k): v for k, v in enumerate(o)}
                mp.update({slot(k): v for k, v in enumerate(i)})
                mp.update(a)
                # two-step: %B and $ are disjoint names
                return [e.subst(mp) for e in rel.eqs]

            emb = delta.rel(self.st.val.shape, eq, rel.aux)
            self.st.val = (self.st.val + emb).norm(bd)
        self.st.writes += 1


def compose(t, shape, eqs, aux=None, injective=True):
    """View of t: eqs relate t's slots (as %B<k>) to new slots $<k>."""
    aux = dict(aux or {})
    if t.rel is None:
        r = Rel(eqs, aux, injective)
    else:
        mid = {slot(k): fresh("m") for k in range(t.ndim)}
        smid = {k: Sc.atom(v) for k, v in mid.items()}
        e1 = [e.subst(smid) for e in t.rel.eqs]
        bm = {bvar(k): Sc.atom(mid[slot(k)]) for k in range(t.ndim)}
        amap = {k: fresh("a") for k in aux}
        bm.update({k: Sc.atom(v) for k, v in amap.items()})
        e2 = [e.subst(bm) for e in eqs]
        na = dict(t.rel.aux)
        na.update({mid[slot(k)]: t.shape[k] for k in range(t.ndim)})
        na.update({amap[k]: v for k, v in aux.items()})
        r = Rel(e1 + e2, na, injective and t.rel.injective)
    v = TensorV(t.st, shape, t.dtype, t.device, r)
    v.graph = t.graph
    return v


class IVal:
    """Value of an integer index tensor: poly over slots $k and aux variables."""

    __slots__ = ("poly", "aux", "eqs")

    def __init__(self, poly, aux=None, eqs=()):
        self.poly, self.aux, self.eqs = poly, dict(aux or {}), list(eqs)

    def remap(self, n_old, eqfn, old_shape):
        """Re-index: eqfn(i_list, o_list) gives equations old/new slots."""
        iv = [fresh("i") for _ in range(n_old)]
        mp = {slot(k): Sc.atom(v) for k, v in enumerate(iv)}
        for k, v in enumerate(iv):
            mp[slot(k) + ".r"] = Sc.atom(v + ".r")
            mp[slot(k) + ".c"] = Sc.atom(v + ".c")
        amap = {k: fresh("a") for k in self.aux}
        mp.update({k: Sc.atom(v) for k, v in amap.items()})
        for k, v in amap.items():
            mp[k + ".r"] = Sc.atom(v + ".r")
            mp[k + ".c"] = Sc.atom(v + ".c")
        poly = self.poly.subst(mp)
        eqs = [e.subst(mp) for e in self.eqs]
        aux = {amap[k]: v for k, v in self.aux.items()}
        aux.update({v: d for v, d in zip(iv, old_shape)})
        eqs = eqs + eqfn([Sc.atom(v) for v in iv])
        return IVal(poly, aux, eqs).simplify()

    def simplify(self):
        """Eliminate auxiliary variables that equal a slot."""
        changed = True
        poly, aux, eqs = self.poly, dict(self.aux), list(self.eqs)
        while changed:
            changed = False
            for e in eqs:
                if len(e.t) == 2 and sum(e.t.values()) == 0 and all(
                    len(m) == 1 and m[0][1] == 1 for m in e.t
                ):
                    a, b = [m[0][0] for m in e.t]
                    if a.startswith("$"):
                        a, b = b, a
                    if a in aux:
                        mp = {
                            a: Sc.atom(b),
                            a + ".r": Sc.atom(b + ".r"),
                            a + ".c": Sc.atom(b + ".c"),
                        }
                        poly = poly.subst(mp)
                        eqs = [q.subst(mp) for q in eqs if q is not e]
                        del aux[a]
                        changed = True
                        break
                elif len(e.t) == 1 and e.atoms() and list(e.t)[0][0][1] == 1 and len(list(e.t)[0]) == 1:
                    a = list(e.atoms())[0]
                    if a in aux:
                        poly = poly.subst({a: ZERO})
                        eqs = [q.subst({a: ZERO}) for q in eqs if q is not e]
                        del aux[a]
                        changed = True
                        break
        return IVal(poly, aux, [e for e in eqs if not e.is_zero()])


class SMV:
    """Structured matrix under the interface contract (optimizer analysis)."""

    _n = itertools.count(1)

    def __init__(self, st, dim, cls, dtype, device):
        self.st, self.dim, self.cls = st, dim, cls
        self.dtype, self.device = dtype, device
        self.id = next(SMV._n)
        self.graph = False
        self.role = None

    def __repr__(self):
        return f"<structured {self.st.root}>"


class ModuleObj:
    """A torch.nn.Module of the analysed model."""

    def __init__(self, name, kind, attrs):
        self.name, self.kind = name, kind
        self.attrs = attrs
        self.children = []  # list of (name, ModuleObj)
        self.fwd_hooks = []
        self.pre_hooks = []
        self.bwd_hooks = []
        self.prefix = name

    def __repr__(self):
        return f"<module {self.name}>"


class FamilyV:
    """A list with one element per value of a symbolic loop variable."""

    def __init__(self, var, length, elem):
        self.var, self.length, self.elem = var, length, elem


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class ExcV:
    def __init__(self, name, args=(), cls=None):
        self.name, self.args, self.cls = name, args, cls

    def __repr__(self):
        return f"{self.name}({', '.join(map(str, self.args))})"


class PyRaise(Exception):
    def __init__(self, exc, site=None, chain=None):
        self.exc, self.site = exc, site
        self.stack = chain

    def __str__(self):
        return f"{self.exc!r} at {self.site}"


class GenList(list):
    """Eagerly evaluated iterator/generator (consumed by next/iteration)."""

    pos = 0
