"""Interface contract of the structured-matrix classes (used when analysing the optimizer).

A structured matrix is represented by the dense matrix it stands for.  `Proj:C[...]` is the extraction of the
structure of class C from a symmetric matrix; it is linear.  The contract itself is what the structure
properties establish for every class.
"""
from .interp import NOATTR
from .path import Abort
from .sym import ONE, Sc, node, sc
from .ten import Fac, Ten, Term, slot
from .values import (BoundM, ClassV, ClsMethod, Ext, FuncV, GenList, Native, NumV, SMV, StatMethod, Storage, TensorV,
                     DEFAULT_DEVICE, DEFAULT_DTYPE, DType)
from . import torchops

BASE = "StructuredMatrix"


def is_struct(c):
    return isinstance(c, ClassV) and any(isinstance(b, ClassV) and b.name == BASE for b in c.mro())


def sm(model, val, cls, dtype, device, root="temp", graph=False):
    o = SMV(Storage(val.norm(model.bd), root), val.shape[0], cls, dtype or DEFAULT_DTYPE, device or DEFAULT_DEVICE)
    o.graph = graph
    model.p.event("sm-new", sm=o)
    return o


def proj(bd, cls, M):
    """Extraction of the structure of `cls` from the symmetric matrix M (termwise linear)."""
    M = M.norm(bd)
    out = []
    eye = Ten.full([M.shape[0]], ONE).embed_diag().norm(bd)
    for t in M.terms:
        one = Ten(M.shape, [Term(ONE, t.facs, t.pfacs, t.vars, t.eqs)])
        if one.equals(eye, bd):
            out.extend(eye.scale(t.coef).terms)
            continue
        # symmetric representatives share one key
        k = min(one.key(bd), one.permute([1, 0]).norm(bd).key(bd))
        out.extend(Ten.atom(f"Proj:{cls.name}[{k}]", M.shape).scale(t.coef).terms)
    return Ten(M.shape, out)


def gr(model, *xs):
    """Does the result of an operation on xs carry an autograd graph?"""
    return model.p.grad_mode and any(isinstance(x, (TensorV, SMV)) and (x.graph or getattr(x, "leaf", False)) for x in xs)


def dev(model, s, x):
    """Device of the result of combining s with x."""
    if isinstance(x, (TensorV, SMV)) and getattr(x, "shape", True) != () and not model.p.tok_eq(s.device, x.device):
        model.i.throw("RuntimeError", f"tensors on {s.device.name} and {x.device.name} are combined")
    return s.device


def val(model, s):
    torchops.race(model, s.st)
    return s.st.val


def write(model, s, new, how):
    torchops.race(model, s.st)
    if model.rec:
        for r in model.rec:
            r.setdefault(s.st, s.st.val)
    old = s.st.val
    s.st.val = new.norm(model.bd)
    s.st.writes += 1
    model.p.event("mutate", root=s.st.root, st=s.st, how=how, old=old, label=s.st.root, tensor=s)
    return s


def _dim(model, v):
    return model.i.toint(v, "dimension")


def _dt(model, k, a, n):
    d = k.get("dtype", a[n] if len(a) > n else None)
    v = k.get("device", a[n + 1] if len(a) > n + 1 else None)
    return model.i.force(d), model.i.force(v)


def _dtv(model, d, v):
    return d or DEFAULT_DTYPE, v or DEFAULT_DEVICE


def tens(model, t):
    if not isinstance(t, TensorV):
        model.i.throw("TypeError", f"tensor expected, got {t!r}")
    return t


def dim_eq(model, a, b, what):
    if not model.p.sign_in(sc(a) - sc(b), {0}):
        model.i.throw("RuntimeError", f"{what}: dimensions {a!r} and {b!r} do not match")


def _inner(model, s, X):
    K = val(model, s)
    if X is None:
        return K.permute([1, 0]).matmul(K)
    X = tens(model, X)
    dim_eq(model, s.dim, X.shape[0], "from_inner")
    model.same_dtype(s, X, "structured product")
    S = K.permute([1, 0]).matmul(model.val(X))
    return S.matmul(S.permute([1, 0]))


METHODS = {}


def _m(f):
    METHODS[f.__name__[2:]] = f
    return f


@_m
def m_from_inner(model, s, a, k):
    X = a[0] if a else k.get("X")
    return sm(model, proj(model.bd, s.cls, _inner(model, s, X)), s.cls, s.dtype, dev(model, s, X), graph=gr(model, s, X))


@_m
def m_from_inner2(model, s, a, k):
    X = tens(model, a[0] if a else k["XXT"])
    model.same_dtype(s, X, "structured product")
    K = val(model, s)
    return sm(model, proj(model.bd, s.cls, K.permute([1, 0]).matmul(model.val(X)).matmul(K)), s.cls, s.dtype, dev(model, s, X), graph=gr(model, s, X))


@_m
def m_rmatmat(model, s, a, k):
    X = tens(model, a[0] if a else k["mat"])
    dim_eq(model, s.dim, X.shape[0], "rmatmat")
    model.same_dtype(s, X, "structured product")
    return model.new(val(model, s).permute([1, 0]).matmul(model.val(X)), s.dtype, dev(model, s, X), graph=gr(model, s, X))


@_m
def m_add_(model, s, a, k):
    o = a[0] if a else k["other"]
    al = a[1] if len(a) > 1 else k.get("alpha", 1.0)
    if not isinstance(o, SMV):
        model.i.throw("AttributeError", "add_ of a non-structured matrix")
    same_cls(model, s, o, "add_")
    dev(model, s, o)
    s.graph = s.graph or gr(model, o, al)
    return write(model, s, val(model, s) + val(model, o).scale(model.sc_of(al)), "add_")


def same_cls(model, s, o, what):
    if s.cls is not o.cls:
        model.p.oblige("struct-mix", False, f"{what} combines a {s.cls.name} with a {o.cls.name}")
    if not (sc(s.dim) == sc(o.dim)):
        dim_eq(model, s.dim, o.dim, what)


@_m
def m_mul_(model, s, a, k):
    return write(model, s, val(model, s).scale(model.sc_of(a[0] if a else k["value"])), "mul_")


@_m
def m_diag_add_(model, s, a, k):
    v = model.sc_of(a[0] if a else k["value"])
    return write(model, s, val(model, s) + Ten.full([s.dim], ONE).embed_diag().scale(v), "diag_add_")


def avg_trace(M):
    return M.diagonal().sum([0]).scale(ONE / M.shape[0])


@_m
def m_average_trace(model, s, a, k):
    return model.new(avg_trace(val(model, s)), s.dtype, s.device, graph=gr(model, s))


def inf_norm(bd, M):
    """Largest absolute entry as a scalar."""
    return Sc.atom(node(f"infnorm[{M.norm(bd).key(bd)}]", (), True))


@_m
def m_infinity_vector_norm(model, s, a, k):
    return model.new(Ten.full((), inf_norm(model.bd, model.p.simp_ten(val(model, s)))), s.dtype, s.device)


@_m
def m_frobenius_norm(model, s, a, k):
    return model.new(Ten.full((), Sc.atom(node(f"fronorm[{model.p.simp_ten(val(model, s)).norm(model.bd).key(model.bd)}]", (), True))), s.dtype, s.device)


@_m
def m_all_reduce(model, s, a, k):
    o = a[0] if a else k.get("op", Ext("torch.distributed.ReduceOp.AVG"))
    group = a[1] if len(a) > 1 else k.get("group")
    asy = a[2] if len(a) > 2 else k.get("async_op", False)
    opn = torchops.reduce_op(model, o)
    asy = model.i.truth(asy)
    ev = model.p.event("coll", op=opn, what="all_reduce", tensor=s, root=s.st.root, label=s.st.root, before=val(model, s),
                       dtype=s.dtype, async_=asy, group=group, in_graph=model.p.grad_mode, st=s.st)
    write(model, s, torchops.coll_value(model, val(model, s), opn), "all_reduce")
    if asy:
        ev["waited"] = False
        s.st.pending = ev
        return (torchops.work(model, ev, s),)
    return None


@_m
def m_named_tensors(model, s, a, k):
    t = TensorV(s.st, [s.dim, s.dim], s.dtype, s.device)
    t.contig = True
    t.label = s.st.root
    return GenList([("mat", t)])


@_m
def m_to_dense(model, s, a, k):
    model.p.event("densify", what="to_dense", sm=s)
    return model.new(val(model, s), s.dtype, s.device)


def c_eye(model, c, a, k):
    d = _dim(model, a[0] if a else k["dim"])
    dt, dv = _dt(model, k, a, 1)
    return sm(model, Ten.full([d], ONE).embed_diag(), c, dt, dv)


def c_zeros(model, c, a, k):
    d = _dim(model, a[0] if a else k["dim"])
    dt, dv = _dt(model, k, a, 1)
    return sm(model, Ten([d, d]), c, dt, dv)


def c_from_dense(model, c, a, k):
    t = tens(model, a[0] if a else k["sym_mat"])
    model.p.event("densify", what="from_dense", sm=None)
    return sm(model, proj(model.bd, c, model.val(t)), c, t.dtype, t.device)


def c_from_mat_inner(model, c, a, k):
    t = tens(model, a[0] if a else k["X"])
    v = model.val(t)
    return sm(model, proj(model.bd, c, v.matmul(v.permute([1, 0]))), c, t.dtype, t.device, graph=gr(model, t))


CLS = {"eye": c_eye, "zeros": c_zeros, "from_dense": c_from_dense, "from_mat_inner": c_from_mat_inner}


def class_attr(model, c, name):
    if name in CLS:
        return Native(f"{c.name}.{name}", lambda it, a, k: CLS[name](model, c, a, k))
    if name in METHODS:
        return Native(f"{c.name}.{name}", lambda it, a, k: METHODS[name](model, a[0], a[1:], k))
    if name in ("__matmul__", "__add__", "__mul__"):
        opn = {"__matmul__": "MatMult", "__add__": "Add", "__mul__": "Mult"}[name]
        return Native(name, lambda it, a, k: binop(model, opn, a[0], a[1]))
    return NotImplemented


def sm_attr(model, s, name):
    if name in METHODS:
        return Native(f"{s.cls.name}.{name}", lambda it, a, k: METHODS[name](model, s, a, k))
    if name in CLS:
        return Native(f"{s.cls.name}.{name}", lambda it, a, k: CLS[name](model, s.cls, a, k))
    if name in ("__matmul__", "__add__", "__mul__"):
        opn = {"__matmul__": "MatMult", "__add__": "Add", "__mul__": "Mult"}[name]
        return Native(name, lambda it, a, k: binop(model, opn, s, a[0]))
    if name == "__class__":
        return s.cls
    if name in getattr(s, "extra", {}):
        return s.extra[name]
    v, d = s.cls.lookup(name)
    if d is not None:  # any further method is analysed from its source on top of the contract
        if isinstance(v, FuncV):
            return BoundM(v, s)
        if isinstance(v, ClsMethod):
            return BoundM(v.fn, s.cls)
        if isinstance(v, StatMethod):
            return v.fn
        return v
    if name.startswith("__"):
        return NOATTR
    model.i.abort(f"attribute {name!r} of a structured matrix is outside the interface contract")


def binop(model, opn, a, b):
    i = model.i
    if isinstance(a, SMV) and opn == "MatMult":
        if isinstance(b, SMV):
            same_cls(model, a, b, "@")
            model.same_dtype(a, b, "structured product")
            return sm(model, val(model, a).matmul(val(model, b)), a.cls, a.dtype, dev(model, a, b), graph=gr(model, a, b))
        if isinstance(b, TensorV):
            dim_eq(model, a.dim, b.shape[0], "@")
            model.same_dtype(a, b, "structured product")
            return model.new(val(model, a).matmul(model.val(b)), a.dtype, dev(model, a, b), graph=gr(model, a, b))
    if isinstance(a, SMV) and opn == "Add" and isinstance(b, SMV):
        same_cls(model, a, b, "+")
        return sm(model, val(model, a) + val(model, b), a.cls, a.dtype, dev(model, a, b), graph=gr(model, a, b))
    if isinstance(a, SMV) and opn == "Mult" and not isinstance(b, SMV):
        return sm(model, val(model, a).scale(model.sc_of(b)), a.cls, a.dtype, a.device, graph=gr(model, a, b))
    i.throw("TypeError", f"unsupported operand type(s) for {opn}: {a!r} and {b!r}")


def instantiate(model, c, args, kwargs):
    if is_struct(c):
        model.i.abort(f"direct construction of {c.name} in the optimizer")
    return NotImplemented


def copy(model, v, deep):
    st = Storage(v.st.val, v.st.root) if deep else v.st
    n = SMV(st, v.dim, v.cls, v.dtype, v.device)
    n.role = v.role
    return n
