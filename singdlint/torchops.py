"""Summaries of individual torch / einops / einconv operations."""
import re
from fractions import Fraction

from . import pylib
from .interp import CtxV, Slice, SymSeq, GenList
from .sym import ONE, Sc, ZERO, node, sc, sc_is_zero, NODES
from .ten import Ten, Term, Fac, PFac, canon_key, fresh, is_var, slot, tri_len, norm_term, solve
from .torchmodel import EXTFN, FN, TENSOR_METHODS, ext, meth, op, reshape_eq
from .values import *  # noqa: F401,F403
from .values import (Unknown, NumV, Choice, Ext, FuncV, BoundM, Partial, Native, ClassV, Obj, SizeV, Storage,
                     TensorV, SMV, ModuleObj, FamilyV, GenList, DType, Device, CONCRETE_DTYPES, INT_DTYPES,
                     DEFAULT_DTYPE, DEFAULT_DEVICE)


# --------------------------------------------------------------------- helpers
def chk(m, *ts):
    for t in ts:
        if not isinstance(t, TensorV):
            if isinstance(t, SMV):
                m.i.throw("TypeError", "expected a Tensor, got a structured matrix")
            if t is None or isinstance(t, (str, Obj, ModuleObj)):
                m.i.throw("TypeError", f"expected a Tensor, got {t!r}")
            m.i.abort(f"tensor argument {t!r} is not modelled")


def tens(m, v):
    s = m.i.iterate(v)
    if isinstance(s, SymSeq):
        var, val = m.i.family(s, lambda x: x)
        return [FamilyV(var, s.count, val)]
    return list(s)


def dtype_of(m, d):
    d = m.i.force(d)
    if d is None:
        return DEFAULT_DTYPE
    if isinstance(d, DType):
        return m.p.dt(d)
    if isinstance(d, (str, Device, TensorV)):
        m.i.throw("TypeError", f"dtype must be a torch.dtype, not {d!r}")
    m.i.abort(f"dtype {d!r}")


def dev_of(m, d):
    d = m.i.force(d)
    if d is None:
        return DEFAULT_DEVICE
    if isinstance(d, str):
        return Device(d)
    if isinstance(d, Device):
        return d
    m.i.abort(f"device {d!r}")


def shape_of(m, v):
    out = []
    for d in m.ints(v if isinstance(v, (list, tuple)) else [v]):
        d = m.p.simp(d)
        if not m.p.sign_in(d, {0, 1}):
            m.i.throw("RuntimeError", f"negative dimension {d!r}")
        out.append(m.p.simp(d))
    return out


def need_eq(m, a, b, msg):
    a, b = m.p.simp(a), m.p.simp(b)
    if sc_is_zero(a - b):
        return
    if not m.p.sign_in(a - b, {0}):
        m.i.throw("RuntimeError", f"{msg}: {a!r} vs {b!r}")


def ein(m, vals, labs, out):
    """Contract tensor values with label lists."""
    x = vals[0]
    labels = list(labs[0])
    for v, l in zip(vals[1:], labs[1:]):
        x = x.outer(v).norm(m.bd) if False else x.outer(v)
        labels += list(l)
    size = {}
    for l, d in zip(labels, x.shape):
        d = m.p.simp(d)
        if l in size and not (size[l] == 1):
            if not (d == 1):
                need_eq(m, d, size[l], f"einsum: size of label {l} differs")
        else:
            size[l] = d
    for l in out:
        if l not in size:
            m.i.throw("RuntimeError", f"einsum: unknown output label {l}")
    shp = [size[l] for l in out]
    xs = x.shape

    def eq(i, o, a):
        eqs, rep = [], {}
        for k, l in enumerate(labels):
            if m.p.simp(xs[k]) == 1 and not (size[l] == 1):
                eqs.append(i[k])
                continue
            if l in rep:
                eqs.append(rep[l] - i[k])
            else:
                rep[l] = i[k]
        for j, l in enumerate(out):
            if l in rep:
                eqs.append(rep[l] - o[j])
            else:
                eqs.append(o[j])
        return eqs

    return x.rel(shp, eq).norm(m.bd)


def mk(m, val, t, *more, dtype=None):
    r = m.new(val.norm(m.bd) if val.shape else val, dtype or t.dtype, m.result_device(t, *more), m.g(t, *more))
    return r


def all_same(m, ts, what):
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = m.same_dtype(ts[0], t, what)
    m.result_device(*ts)
    return m.p.dt(dt)


def dims_of(m, dim, n):
    if dim is None:
        return list(range(n))
    if isinstance(dim, (list, tuple)):
        r = [m.dim(d, n) for d in dim]
        return r if r else list(range(n))
    return [m.dim(dim, n)]


def reduce_shape(m, v, dims, keep):
    """Unsqueeze reduced dims when keepdim."""
    if keep:
        for d in sorted(dims):
            v = v.unsqueeze(d)
    return v


# -------------------------------------------------------------------- creation
@op("zeros", "*size dtype=None device=None")
def _zeros(m, size, dtype, device):
    return m.new(Ten(shape_of(m, size)), dtype_of(m, dtype), dev_of(m, device))


@op("ones", "*size dtype=None device=None")
def _ones(m, size, dtype, device):
    return m.new(Ten.full(shape_of(m, size), 1), dtype_of(m, dtype), dev_of(m, device))


@op("empty", "*size dtype=None device=None")
def _empty(m, size, dtype, device):
    return m.new(Ten.atom(m.p.fresh("uninit"), shape_of(m, size)), dtype_of(m, dtype), dev_of(m, device))


@op("full", "size fill_value dtype=None device=None")
def _full(m, size, fill_value, dtype, device):
    return m.new(Ten.full(shape_of(m, size), m.sc_of(fill_value)), dtype_of(m, dtype), dev_of(m, device))


def _like(value):
    def f(m, input, dtype=None, device=None):
        chk(m, input)
        dt = input.dtype if dtype is None else dtype_of(m, dtype)
        dv = input.device if device is None else dev_of(m, device)
        return m.new(value(m, input), dt, dv)

    return f


op("zeros_like", "input dtype=None device=None")(_like(lambda m, t: Ten(t.shape)))
op("ones_like", "input dtype=None device=None")(_like(lambda m, t: Ten.full(t.shape, 1)))
op("empty_like", "input dtype=None device=None")(_like(lambda m, t: Ten.atom(m.p.fresh("uninit"), t.shape)))


@op("full_like", "input fill_value dtype=None device=None")
def _full_like(m, input, fill_value, dtype, device):
    return _like(lambda m, t: Ten.full(t.shape, m.sc_of(fill_value)))(m, input, dtype, device)


def _new(fn):
    def f(m, input, size, dtype=None, device=None):
        return fn(m, size, input.dtype if dtype is None else dtype, input.device if device is None else device)

    return f


op("new_zeros", "input *size dtype=None device=None")(_new(_zeros))
op("new_ones", "input *size dtype=None device=None")(_new(_ones))
op("new_empty", "input *size dtype=None device=None")(_new(_empty))


@op("new_full", "input size fill_value dtype=None device=None")
def _new_full(m, input, size, fill_value, dtype, device):
    return _full(m, size, fill_value, input.dtype if dtype is None else dtype, input.device if device is None else device)


@op("new_tensor", "input data dtype=None device=None")
def _new_tensor(m, input, data, dtype, device):
    return tensor_lit(m, data, input.dtype if dtype is None else dtype, input.device if device is None else device)


@op("eye", "n m_=None dtype=None device=None")
def _eye(m, n, m_, dtype, device):
    (a,) = shape_of(m, n)
    b = a if m_ is None else shape_of(m, m_)[0]
    v = Ten((a, b), [Term(ONE, (), (), {}, [Sc.atom(slot(0)) - Sc.atom(slot(1))])])
    return m.new(v, dtype_of(m, dtype), dev_of(m, device))


def _eye_ext(m, args, kwargs):
    kwargs = dict(kwargs)
    if "m" in kwargs:
        kwargs["m_"] = kwargs.pop("m")
    return FN["eye"](m, args, kwargs)


EXTFN["torch.eye"] = _eye_ext


def _arange(m, args, kwargs):
    i = m.i
    kw = dict(kwargs)
    dt, dv = kw.pop("dtype", None), kw.pop("device", None)
    kw.pop("requires_grad", None)
    a = list(args)
    start, end, step = kw.get("start"), kw.get("end"), kw.get("step")
    if len(a) == 1 and end is None:
        end = a[0]
    elif len(a) == 1:
        start = a[0]
    elif len(a) >= 2:
        start, end = a[0], a[1]
        if len(a) == 3:
            step = a[2]
    isint = all(x is None or i.kind(i.force(x)) == "int" for x in (start, end, step))
    s = ZERO if start is None else m.sc_of(start)
    e = m.sc_of(end)
    st = ONE if step is None else m.sc_of(step)
    if not st.is_const() or st.is_zero():
        i.abort("arange with symbolic step")
    d = (e - s) * (1 if st.const_val() > 0 else -1)
    k = abs(st.const_val())
    if not m.p.sign_in(d, {0, 1}):
        i.throw("RuntimeError", "upper bound and lower bound inconsistent with step sign")
    ln = m.p.simp(d) if k == 1 else i.floordiv(d + sc(k) - 1, sc(k))
    dtype = dtype_of(m, dt) if dt is not None else (DType("int64") if isint else DEFAULT_DTYPE)
    poly = s + st * Sc.atom(slot(0))
    t = m.new_ival((ln,), poly, dev_of(m, dv), dtype=dtype.name)
    t.dtype = dtype
    return t


EXTFN["torch.arange"] = _arange


def _tri_idx(kind):
    def f(m, args, kwargs):
        kw = dict(kwargs)
        a = list(args)
        n = m.ints(a[0] if a else kw["row"])[0]
        c = m.ints(a[1] if len(a) > 1 else kw["col"])[0]
        off = m.ints(a[2] if len(a) > 2 else kw.get("offset", 0))[0]
        dv = dev_of(m, kw.get("device"))
        if kind == "tril" and not (off == 0 or (off.is_const() and off.const_val() <= 0)):
            m.i.abort("tril_indices with positive offset")
        if kind == "triu" and not (off.is_const() and off.const_val() >= 0):
            m.i.abort("triu_indices with negative offset")
        ln = tri_len(kind, n, c, off)
        rows = []
        for comp in (".r", ".c"):
            r = m.new_ival((ln,), Sc.atom(slot(0) + comp), dv)
            rows.append(r)
        t = m.new(Ten.atom(m.p.fresh("triidx"), (2, ln)), DType("int64"), dv)
        t.attrs["rows"] = rows
        return t

    return f


EXTFN["torch.tril_indices"] = _tri_idx("tril")
EXTFN["torch.triu_indices"] = _tri_idx("triu")


def tensor_lit(m, data, dtype=None, device=None):
    i = m.i
    data = i.force(data)
    if isinstance(data, TensorV):
        return m.to(data, None if dtype is None else dtype_of(m, dtype), None if device is None else dev_of(m, device), copy=True)
    if isinstance(data, (list, tuple)):
        els = list(data)
        if any(isinstance(x, (list, tuple)) for x in els):
            rows = [tensor_lit(m, x, dtype, device) for x in els]
            return FN["stack"](m, [rows], {})
        vals = [m.sc_of(x) for x in els]
        isint = els and all(not isinstance(x, TensorV) and i.kind(i.force(x)) == "int" for x in els)
        if isint and dtype is None and vals:
            t = m.const_index(vals) if len(vals) > 0 else None
            t.device = dev_of(m, device)
            return t
        terms = [Term(v, (), (), {}, [Sc.atom(slot(0)) - k]) for k, v in enumerate(vals) if not v.is_zero()]
        return m.new(Ten((len(vals),), terms), dtype_of(m, dtype), dev_of(m, device))
    if isinstance(data, bool):
        return m.new(Ten.full((), int(data)), DType("bool") if dtype is None else dtype_of(m, dtype), dev_of(m, device))
    v = m.sc_of(data)
    isint = i.kind(data) == "int"
    dt = dtype_of(m, dtype) if dtype is not None else (DType("int64") if isint else DEFAULT_DTYPE)
    if isint and dtype is None:
        return m.new_ival((), v, dev_of(m, device))
    return m.new(Ten.full((), v), dt, dev_of(m, device))


@ext("torch.tensor", "torch.as_tensor", "torch.asarray", "torch.scalar_tensor")
def _tensor(m, args, kwargs):
    kw = dict(kwargs)
    d = args[0] if args else kw.pop("data")
    return tensor_lit(m, d, args[1] if len(args) > 1 else kw.get("dtype"), kw.get("device"))


@ext("torch.Tensor", "torch.FloatTensor")
def _Tensor(m, args, kwargs):
    if args and isinstance(m.i.force(args[0]), (list, tuple)) and not isinstance(args[0], SizeV):
        return tensor_lit(m, [m.i.mknum(m.sc_of(x), "float") for x in m.i.iterate(args[0])], DEFAULT_DTYPE)
    if args and isinstance(m.i.force(args[0]), TensorV):
        return m.same_view(args[0])
    return _empty(m, list(args), None, None)


@ext("torch.nn.Parameter", "torch.nn.parameter.Parameter")
def _param(m, args, kwargs):
    t = m.same_view(args[0])
    t.leaf = True
    t.param = True
    return t


# -------------------------------------------------------------------- products
def matmul(m, a, b):
    chk(m, a, b)
    if a.ndim == 0 or b.ndim == 0:
        m.i.throw("RuntimeError", "both arguments to matmul need to be at least 1D")
    dt = all_same(m, [a, b], "matmul")
    la = [f"b{k}" for k in range(max(a.ndim, b.ndim))]
    if a.ndim == 1 and b.ndim == 1:
        A, B, O = ["x"], ["x"], []
    elif b.ndim == 1:
        A = la[: a.ndim - 2] + ["i", "x"]
        B, O = ["x"], A[:-1]
    elif a.ndim == 1:
        B = la[: b.ndim - 2] + ["x", "j"]
        A, O = ["x"], la[: b.ndim - 2] + ["j"]
    else:
        nb = max(a.ndim, b.ndim) - 2
        A = la[nb - (a.ndim - 2): nb] + ["i", "x"]
        B = la[nb - (b.ndim - 2): nb] + ["x", "j"]
        O = la[:nb] + ["i", "j"]
    ka = a.shape[A.index("x")]
    kb = b.shape[B.index("x")]
    need_eq(m, ka, kb, "mat1 and mat2 shapes cannot be multiplied")
    return mk(m, ein(m, [m.val(a), m.val(b)], [A, B], O), a, b, dtype=dt)


op("matmul", "input other")(lambda m, input, other: matmul(m, input, other))


def _ndims(name, na, nb):
    def f(m, input, other):
        chk(m, input, other)
        if input.ndim != na or other.ndim != nb:
            m.i.throw("RuntimeError", f"{name}: expected {na}D and {nb}D tensors")
        return matmul(m, input, other)

    return f


op("mm", "input other")(_ndims("mm", 2, 2))
op("bmm", "input other")(_ndims("bmm", 3, 3))
op("mv", "input other")(_ndims("mv", 2, 1))
op("dot inner vdot", "input other")(_ndims("dot", 1, 1))


@op("chain_matmul multi_dot", "*ms")
def _chain(m, ms):
    r = ms[0]
    for x in ms[1:]:
        r = matmul(m, r, x)
    return r


@op("outer ger", "input vec2")
def _outer(m, input, vec2):
    chk(m, input, vec2)
    dt = m.result_dtype(input, vec2)
    return mk(m, ein(m, [m.val(input), m.val(vec2)], [["a"], ["b"]], ["a", "b"]), input, vec2, dtype=dt)


@op("addmm addmv addr baddbmm addbmm", "input a b beta=1 alpha=1")
def _addmm(m, input, a, b, beta, alpha):
    chk(m, input, a, b)
    if a.ndim == 1 and b.ndim == 1:
        p = _outer(m, a, b)
    else:
        p = matmul(m, a, b)
    m.same_dtype(input, p, "addmm")
    p = m.binop("Mult", p, alpha)
    q = m.binop("Mult", input, beta)
    return m.binop("Add", q, p)


def parse_einsum(m, eq, ops):
    eq = eq.replace(" ", "")
    if "->" in eq:
        lhs, out = eq.split("->")
    else:
        lhs, out = eq, None
    specs = lhs.split(",")
    if len(specs) != len(ops):
        m.i.throw("RuntimeError", "einsum: wrong number of operands")
    nell = 0
    labs = []
    for s, t in zip(specs, ops):
        if "..." in s:
            k = t.ndim - (len(s) - 3)
            if k < 0:
                m.i.throw("RuntimeError", "einsum: number of subscripts exceeds dimensions")
            nell = max(nell, k)
    for s, t in zip(specs, ops):
        if "..." in s:
            k = t.ndim - (len(s) - 3)
            pre, post = s.split("...")
            labs.append(list(pre) + [f"~{j}" for j in range(nell - k, nell)] + list(post))
        else:
            if len(s) != t.ndim:
                m.i.throw("RuntimeError", f"einsum: subscripts {s} do not match {t.ndim} dimensions")
            labs.append(list(s))
    if out is None:
        flat = [l for x in labs for l in x]
        o = [f"~{j}" for j in range(nell)] + sorted({l for l in flat if flat.count(l) == 1 and l[0] != "~"})
    elif "..." in out:
        pre, post = out.split("...")
        o = list(pre) + [f"~{j}" for j in range(nell)] + list(post)
    else:
        o = list(out)
    return labs, o


def _einsum(m, args, kwargs):
    args = list(args)
    eq = m.i.force(args[0])
    if not isinstance(eq, str):
        m.i.abort("einsum with sublist format")
    ops = args[1:]
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = list(ops[0])
    chk(m, *ops)
    labs, o = parse_einsum(m, eq, ops)
    dt = all_same(m, ops, "einsum")
    return mk(m, ein(m, [m.val(t) for t in ops], labs, o), *ops, dtype=dt)


EXTFN["torch.einsum"] = EXTFN["torch.functional.einsum"] = _einsum
FN["einsum"] = _einsum


@ext("einops.einsum")
def _einops_einsum(m, args, kwargs):
    ops, pat = list(args[:-1]), m.i.force(args[-1])
    if not isinstance(pat, str):
        m.i.throw("TypeError", "einops.einsum pattern must be the last argument")
    chk(m, *ops)
    lhs, out = pat.split("->")
    specs = [s.split() for s in lhs.split(",")]
    if len(specs) != len(ops):
        m.i.throw("RuntimeError", "einops.einsum: number of operands differs")
    labs = []
    o = out.split()
    for s, t in zip(specs, ops):
        if "..." in s:
            k = s.index("...")
            n = t.ndim - (len(s) - 1)
            s = s[:k] + [f"~{j}" for j in range(n)] + s[k + 1:]
            if "..." in o:
                z = o.index("...")
                o = o[:z] + [f"~{j}" for j in range(n)] + o[z + 1:]
        if len(s) != t.ndim:
            m.i.throw("RuntimeError", f"einops.einsum: {s} does not match {t.ndim} dims")
        labs.append(s)
    dt = all_same(m, ops, "einsum")
    return mk(m, ein(m, [m.val(t) for t in ops], labs, o), *ops, dtype=dt)


@op("tensordot", "a b dims=2")
def _tensordot(m, a, b, dims):
    d = m.i.force(dims)
    if isinstance(d, int):
        da, db = list(range(a.ndim - d, a.ndim)), list(range(d))
    else:
        da, db = [[m.dim(x, t.ndim) for x in (l if isinstance(l, (list, tuple)) else [l])] for l, t in zip(d, (a, b))]
    la = [f"a{k}" for k in range(a.ndim)]
    lb = [f"b{k}" for k in range(b.ndim)]
    for x, y in zip(da, db):
        lb[y] = la[x]
    o = [l for k, l in enumerate(la) if k not in da] + [l for k, l in enumerate(lb) if k not in db]
    dt = all_same(m, [a, b], "tensordot")
    return mk(m, ein(m, [m.val(a), m.val(b)], [la, lb], o), a, b, dtype=dt)


@op("kron", "input other")
def _kron(m, input, other):
    a, b = input, other
    la, lb = ["a", "c"], ["b", "d"]
    v = ein(m, [m.val(a), m.val(b)], [la, lb], ["a", "b", "c", "d"])
    r = mk(m, v, a, b)
    return m.reshape(r, [a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]])


# ------------------------------------------------------------ joining / splitting
def _cat_list(m, ts):
    return tens(m, ts)


@op("cat concat concatenate", "tensors dim=0")
def _cat(m, tensors, dim):
    ts = _cat_list(m, tensors)
    if not ts:
        m.i.throw("RuntimeError", "expected a non-empty list of Tensors")
    els = [t.elem if isinstance(t, FamilyV) else t for t in ts]
    chk(m, *els)
    nd = max(t.ndim for t in els)
    if nd == 0:
        m.i.throw("RuntimeError", "zero-dimensional tensor cannot be concatenated")
    d = m.dim(dim, nd)
    base = next(t for t in els if t.ndim == nd)
    tot = ZERO
    for t, e in zip(ts, els):
        if e.ndim != nd:
            m.i.throw("RuntimeError", "Tensors must have same number of dimensions")
        for k in range(nd):
            if k != d:
                need_eq(m, e.shape[k], base.shape[k], "Sizes of tensors must match in cat")
        tot = tot + (e.shape[d] * t.length if isinstance(t, FamilyV) else e.shape[d])
    shp = list(base.shape)
    shp[d] = m.p.simp(tot)
    out = Ten(shp)
    off = ZERO
    dt = els[0].dtype
    for t, e in zip(ts, els):
        v = m.val(e)
        dt = m.promote(dt, e.dtype)
        if isinstance(t, FamilyV):
            if any(t.var in x.deep_atoms() for x in e.shape):
                m.i.abort("cat of pieces of varying size")
            v = v.place(shp, d, off + Sc.atom(t.var) * e.shape[d])
            out = out + m.i.sum_over(v, t.var, t.length)
            off = off + e.shape[d] * t.length
        else:
            v = Ten([shp[k] if k != d else x for k, x in enumerate(v.shape)], v.terms)
            out = out + v.place(shp, d, off)
            off = off + e.shape[d]
    return mk(m, out, *els, dtype=dt)


@op("stack", "tensors dim=0")
def _stack(m, tensors, dim):
    ts = tens(m, tensors)
    els = [t.elem if isinstance(t, FamilyV) else t for t in ts]
    chk(m, *els)
    d = m.dim(dim, els[0].ndim + 1)
    out = []
    for t, e in zip(ts, els):
        u = unsqueeze(m, e, d)
        out.append(FamilyV(t.var, t.length, u) if isinstance(t, FamilyV) else u)
    return _cat(m, out, d)


op("vstack row_stack", "tensors")(lambda m, tensors: _cat(m, [x if x.ndim > 1 else unsqueeze(m, x, 0) for x in tens(m, tensors)], 0))
op("hstack column_stack", "tensors")(lambda m, tensors: _cat(m, tensors, 0 if all(
    t.ndim == 1 for t in tens(m, list(tensors))) else 1))


@op("split", "tensor split_size_or_sections dim=0")
def _split(m, tensor, split_size_or_sections, dim):
    t = tensor
    chk(m, t)
    d = m.dim(dim, t.ndim)
    s = m.i.force(split_size_or_sections)
    if isinstance(s, (list, tuple)):
        sizes = [m.ints(x)[0] for x in m.i.iterate(s)]
        for x in sizes:
            if not m.p.sign_in(x, {0, 1}):
                m.i.throw("RuntimeError", "split sizes must be non-negative")
        tot = ZERO
        for x in sizes:
            tot = tot + x
        need_eq(m, tot, t.shape[d], "split_with_sizes expects split_sizes to sum exactly")
    else:
        k = m.ints(s)[0]
        n = m.p.simp(t.shape[d])
        q = m.i.floordiv(n, k)
        if not q.is_int_const():
            if sc_is_zero(q * k - n):
                return (FamilyV("%L" + m.p.fresh(""), q, None),) if False else m.i.abort("split into a symbolic number of chunks")
            m.i.abort("split into a symbolic number of chunks")
        q = int(q.const_val())
        sizes = [k] * q
        r = m.p.simp(n - k * q)
        if not m.p.sign_in(r, {0}):
            sizes.append(r)
    out, off = [], ZERO
    for x in sizes:
        out.append(m.narrow(t, d, off, m.p.simp(x)))
        off = off + x
    return tuple(out)


op("split_with_sizes", "tensor split_size_or_sections dim=0")(_split)


@op("tensor_split", "tensor indices_or_sections dim=0")
def _tensor_split(m, tensor, indices_or_sections, dim):
    t = tensor
    d = m.dim(dim, t.ndim)
    s = m.i.force(indices_or_sections)
    if not isinstance(s, (list, tuple)):
        m.i.abort("tensor_split by a number of sections")
    out, prev = [], None
    for x in list(s) + [None]:
        items = [Slice(None, None, None)] * t.ndim
        items[d] = Slice(prev, x, None)
        out.append(m.basic_view(t, items))
        prev = x
    return tuple(out)


@op("chunk", "input chunks dim=0")
def _chunk(m, input, chunks, dim):
    d = m.dim(dim, input.ndim)
    c = m.ints(chunks)[0]
    n = m.p.simp(input.shape[d])
    k = m.i.floordiv(n + c - 1, c)
    return _split(m, input, m.i.mknum(k, "int"), dim)


@op("narrow", "input dim start length")
def _narrow(m, input, dim, start, length):
    chk(m, input)
    d = m.dim(dim, input.ndim)
    s, l = m.sc_of(start), m.sc_of(length)
    if s.is_const() and s.const_val() < 0:
        s = s + input.shape[d]
    if not m.p.sign_in(l, {0, 1}) or not m.p.sign_in(input.shape[d] - s - l, {0, 1}):
        m.i.throw("RuntimeError", "narrow: start + length exceeds dimension size")
    return m.narrow(input, d, s, m.p.simp(l))


@op("narrow_copy", "input dim start length")
def _narrow_copy(m, input, dim, start, length):
    return clone(m, _narrow(m, input, dim, start, length))


@op("select", "input dim index")
def _select(m, input, dim, index):
    d = m.dim(dim, input.ndim)
    items = [Slice(None, None, None)] * input.ndim
    items[d] = index
    return m.basic_view(input, items)


@op("unbind", "input dim=0")
def _unbind(m, input, dim):
    d = m.dim(dim, input.ndim)
    n = m.p.simp(input.shape[d])
    if n.is_int_const():
        return tuple(m.select(input, d, sc(k)) for k in range(int(n.const_val())))
    return SymSeq(n, lambda v: m.select(input, d, v))


@op("block_diag", "*tensors")
def _block_diag(m, tensors):
    chk(m, *[t.elem if isinstance(t, FamilyV) else t for t in tensors])
    ts = []
    for f in tensors:
        t = f.elem if isinstance(f, FamilyV) else f
        while t.ndim < 2:
            t = unsqueeze(m, t, 0)
        ts.append((f if isinstance(f, FamilyV) else None, t))
    R = C = ZERO
    for f, t in ts:
        if f is not None and any(f.var in x.deep_atoms() for x in t.shape):
            m.i.abort("block_diag of pieces of varying size")
        k = ONE if f is None else f.length
        R, C = R + t.shape[0] * k, C + t.shape[1] * k
    R, C = m.p.simp(R), m.p.simp(C)
    out = Ten((R, C))
    r = c = ZERO
    dt = ts[0][1].dtype
    for f, t in ts:
        dt = m.promote(dt, t.dtype)
        if f is None:
            out = out + m.val(t).rel((R, C), lambda i, o, a, r=r, c=c: [i[0] + r - o[0], i[1] + c - o[1]])
            r, c = r + t.shape[0], c + t.shape[1]
            continue
        nr, nc = r + t.shape[0] * Sc.atom(f.var), c + t.shape[1] * Sc.atom(f.var)
        v = m.val(t).rel((R, C), lambda i, o, a, r=nr, c=nc: [i[0] + r - o[0], i[1] + c - o[1]])
        out = out + m.i.sum_over(v, f.var, f.length)
        r, c = r + t.shape[0] * f.length, c + t.shape[1] * f.length
    return mk(m, out, *[t for _, t in ts], dtype=dt)


# ------------------------------------------------------------------ shape views
def unsqueeze(m, t, dim):
    d = m.dim(dim, t.ndim + 1)
    shp = list(t.shape[:d]) + [ONE] + list(t.shape[d:])
    return m.view(t, shp, lambda i, o, a: [i[k] - o[k + (k >= d)] for k in range(t.ndim)], contig=t.contig)


op("unsqueeze", "input dim")(lambda m, input, dim: unsqueeze(m, input, dim))


@op("squeeze", "input dim=None")
def _squeeze(m, input, dim):
    t = input
    dims = range(t.ndim) if dim is None else [m.dim(x, t.ndim) for x in (dim if isinstance(dim, (list, tuple)) else [dim])]
    drop = []
    for k in dims:
        d = m.p.simp(t.shape[k])
        if d == 1:
            drop.append(k)
        elif not d.is_const():
            if m.p.sign_in(d - 1, {0}):
                drop.append(k)
    keep = [k for k in range(t.ndim) if k not in drop]

    def eq(i, o, a):
        return [i[k] - o[j] for j, k in enumerate(keep)] + [i[k] for k in drop]

    return m.view(t, [t.shape[k] for k in keep], eq, contig=t.contig)


@op("transpose swapaxes swapdims", "input dim0 dim1")
def _transpose(m, input, dim0, dim1):
    p = list(range(input.ndim))
    if input.ndim == 0:
        return m.same_view(input)
    a, b = m.dim(dim0, input.ndim), m.dim(dim1, input.ndim)
    p[a], p[b] = p[b], p[a]
    return m.permute(input, p)


op("t", "input")(lambda m, input: m.permute(input, [1, 0]) if input.ndim == 2 else m.same_view(input))
op("adjoint", "input")(lambda m, input: m.tensor_attr(input, "mT"))


@op("permute", "input *dims")
def _permute(m, input, dims):
    return m.permute(input, [m.dim(d, input.ndim) for d in dims])


@op("movedim moveaxis", "input source destination")
def _movedim(m, input, source, destination):
    n = input.ndim
    s = [m.dim(x, n) for x in (source if isinstance(source, (list, tuple)) else [source])]
    d = [m.dim(x, n) for x in (destination if isinstance(destination, (list, tuple)) else [destination])]
    p = [None] * n
    for x, y in zip(s, d):
        p[y] = x
    rest = [k for k in range(n) if k not in s]
    for k in range(n):
        if p[k] is None:
            p[k] = rest.pop(0)
    return m.permute(input, p)


def _neg(m, shape):
    return [m.ints(x)[0] for x in shape]


@op("reshape", "input *shape")
def _reshape(m, input, shape):
    chk(m, input)
    return m.reshape(input, _neg(m, shape))


@op("view", "input *shape")
def _view(m, input, shape):
    chk(m, input)
    if len(shape) == 1 and isinstance(shape[0], DType):
        m.i.abort("dtype view")
    if input.contig is not True and m.contig_mode == "explore" and not m.is_contig(input):
        m.i.throw("RuntimeError", "view size is not compatible with input tensor's size and stride")
    return m.reshape(input, _neg(m, shape), view=True)


op("reshape_as", "input other")(lambda m, input, other: m.reshape(input, list(other.shape)))
op("view_as", "input other")(lambda m, input, other: m.reshape(input, list(other.shape), view=True))


@op("flatten", "input start_dim=0 end_dim=-1")
def _flatten(m, input, start_dim, end_dim):
    n = input.ndim
    if n == 0:
        return m.reshape(input, [ONE])
    a, b = m.dim(start_dim, n), m.dim(end_dim, n)
    p = ONE
    for d in input.shape[a:b + 1]:
        p = p * d
    return m.reshape(input, list(input.shape[:a]) + [p] + list(input.shape[b + 1:]))


op("ravel", "input")(lambda m, input: _flatten(m, input, 0, -1))


@op("unflatten", "input dim sizes")
def _unflatten(m, input, dim, sizes):
    d = m.dim(dim, input.ndim)
    s = _neg(m, sizes)
    if any(x == -1 for x in s):
        k = next(j for j, x in enumerate(s) if x == -1)
        r = ONE
        for j, x in enumerate(s):
            if j != k:
                r = r * x
        q = m.exdiv(m.p.simp(input.shape[d]), r)
        if q is None:
            m.i.abort("unflatten with symbolic sizes")
        s[k] = q
    return m.reshape(input, list(input.shape[:d]) + s + list(input.shape[d + 1:]), view=True)


@op("expand", "input *size")
def _expand(m, input, size):
    return expand(m, input, _neg(m, size))


def expand(m, t, size):
    off = len(size) - t.ndim
    if off < 0:
        m.i.throw("RuntimeError", "expand: fewer sizes than dimensions")
    shp = []
    bc = []
    for k, d in enumerate(size):
        if k < off:
            shp.append(m.p.simp(d))
            bc.append(None)
            continue
        x = m.p.simp(t.shape[k - off])
        if d.is_const() and d.const_val() == -1:
            shp.append(x)
            bc.append(False)
        elif sc_is_zero(m.p.simp(d - x)):
            shp.append(x)
            bc.append(False)
        elif x == 1:
            shp.append(m.p.simp(d))
            bc.append(True)
        else:
            need_eq(m, x, d, "The expanded size of the tensor must match the existing size")
            shp.append(x)
            bc.append(False)

    def eq(i, o, a):
        return [i[k] if bc[k + off] else i[k] - o[k + off] for k in range(t.ndim)]

    inj = not any(b is None or b for b in bc)
    return m.view(t, shp, eq, injective=inj, contig=t.contig if inj else None)


op("expand_as", "input other")(lambda m, input, other: expand(m, input, list(other.shape)))


@op("broadcast_to", "input size")
def _broadcast_to(m, input, size):
    return expand(m, input, _neg(m, size))


@op("broadcast_tensors", "*tensors")
def _broadcast_tensors(m, tensors):
    s = m.bshape(*[t.shape for t in tensors])
    return tuple(expand(m, t, list(s)) for t in tensors)


@op("repeat tile", "input *repeats")
def _repeat(m, input, repeats):
    r = _neg(m, repeats)
    t = input
    off = len(r) - t.ndim
    if off < 0:
        r = [ONE] * (-off) + r
        off = 0
    for x in r:
        if not m.p.sign_in(x, {0, 1}):
            m.i.throw("RuntimeError", "negative repeat")
    shp = [m.p.simp(x * (t.shape[k - off] if k >= off else ONE)) for k, x in enumerate(r)]
    aux = {}
    plan = []
    for k, x in enumerate(r):
        if k < off:
            plan.append(None)
            continue
        if x == 1:
            plan.append("same")
        else:
            aux[f"%rp{k}"] = x
            plan.append(f"%rp{k}")
    val = m.val(t)

    def eq(i, o, a):
        out = []
        for k in range(t.ndim):
            p = plan[k + off]
            if p == "same":
                out.append(i[k] - o[k + off])
            else:
                out.append(a[p] * t.shape[k] + i[k] - o[k + off])
        return out

    res = mk(m, val.rel(shp, eq, aux), t)
    return res


@op("repeat_interleave", "input repeats dim=None")
def _repeat_interleave(m, input, repeats, dim):
    t = input if dim is not None else _flatten(m, input, 0, -1)
    d = m.dim(0 if dim is None else dim, t.ndim)
    n = m.ints(repeats)[0]
    shp = list(t.shape)
    shp[d] = shp[d] * n
    return mk(m, m.val(t).rel(shp, lambda i, o, a: [
        (i[k] * n + a["%q"] - o[k]) if k == d else i[k] - o[k] for k in range(t.ndim)], {"%q": n}), t)


@op("flip", "input *dims")
def _flip(m, input, dims):
    v = m.val(input)
    ds = [m.dim(x, input.ndim) for x in dims]
    for d in ds:
        v = v.flip(d)
    r = mk(m, v, input)
    if input.ival is not None:
        n = input.ndim
        r.ival = input.ival.remap(n, lambda iv: [
            (iv[k] + Sc.atom(slot(k)) - input.shape[k] + 1) if k in ds else iv[k] - Sc.atom(slot(k)) for k in range(n)], input.shape)
    return r


op("fliplr", "input")(lambda m, input: _flip(m, input, [1]))
op("flipud", "input")(lambda m, input: _flip(m, input, [0]))


@op("roll", "input shifts dims=None")
def _roll(m, input, shifts, dims):
    s = m.ints(shifts)[0]
    d = 0 if dims is None else m.dim(dims, input.ndim)
    if dims is None and input.ndim != 1:
        m.i.abort("roll without dims")
    n = input.shape[d]
    if s.is_const() and s.const_val() < 0:
        s = n + s
    a = m.narrow(input, d, n - s, s)
    b = m.narrow(input, d, ZERO, n - s)
    return _cat(m, [a, b], d)


# -------------------------------------------------------------------- diagonals
@op("diag", "input diagonal=0")
def _diag(m, input, diagonal):
    t = input
    k = m.ints(diagonal)[0]
    if t.ndim == 1:
        if k.is_zero():
            return mk(m, m.val(t).embed_diag(), t)
        return _diag_embed(m, t, diagonal, -2, -1)
    if t.ndim != 2:
        m.i.throw("RuntimeError", "matrix or a vector expected")
    r = _diagonal(m, t, diagonal, 0, 1)
    return mk(m, m.val(r), t)


@op("diagonal", "input offset=0 dim1=0 dim2=1")
def _diagonal(m, input, offset, dim1, dim2):
    t = input
    a, b = m.dim(dim1, t.ndim), m.dim(dim2, t.ndim)
    k = m.ints(offset)[0]
    ra, rb = ZERO, ZERO
    if not m.p.sign_in(k, {0, 1}):
        ra = -k
    else:
        rb = k
    da, db = m.p.simp(t.shape[a] - ra), m.p.simp(t.shape[b] - rb)
    if sc_is_zero(da - db):
        n = da
    else:
        n = da if m.p.sign_in(db - da, {0, 1}) else db
    if not m.p.sign_in(n, {0, 1}):
        n = ZERO
    rest = [j for j in range(t.ndim) if j not in (a, b)]
    shp = [t.shape[j] for j in rest] + [n]
    return m.view(t, shp, lambda i, o, x: [i[a] - ra - o[-1], i[b] - rb - o[-1]] + [i[j] - o[q] for q, j in enumerate(rest)])


@op("diag_embed", "input offset=0 dim1=-2 dim2=-1")
def _diag_embed(m, input, offset, dim1, dim2):
    t = input
    k = m.ints(offset)[0]
    neg = not m.p.sign_in(k, {0, 1})
    ra, rb = (-k, ZERO) if neg else (ZERO, k)
    n = t.shape[-1] + ra + rb
    N = t.ndim + 1
    a, b = m.dim(dim1, N), m.dim(dim2, N)
    rest = [j for j in range(N) if j not in (a, b)]
    shp = [None] * N
    shp[a] = shp[b] = n
    for q, j in enumerate(rest):
        shp[j] = t.shape[q]
    return mk(m, m.val(t).rel(shp, lambda i, o, x: [i[-1] + ra - o[a], i[-1] + rb - o[b]] + [i[q] - o[j] for q, j in enumerate(rest)]), t)


op("diagflat", "input offset=0")(lambda m, input, offset: _diag(m, _flatten(m, input, 0, -1), offset))


def _tri(kind):
    def f(m, input, diagonal=0):
        t = input
        k = m.ints(diagonal)[0]
        v = m.val(t)
        n = t.ndim
        r, c = t.shape[-2], t.shape[-1]
        # mask: lower: i - j + k >= 0 ; upper: j - i - k >= 0, as a guard variable
        terms = []
        for x in v.terms:
            g = fresh("g")
            i, j = Sc.atom(slot(n - 2)), Sc.atom(slot(n - 1))
            if kind == "tril":
                e, ln = i - j + k, r + k
            else:
                e, ln = j - i - k, c - k
            terms.append(Term(x.coef, x.facs, x.pfacs, {**x.vars, g: ln}, list(x.eqs) + [Sc.atom(g) - e]))
        return mk(m, Ten(v.shape, terms), t)

    return f


op("tril", "input diagonal=0")(_tri("tril"))
op("triu", "input diagonal=0")(_tri("triu"))


@op("trace", "input")
def _trace(m, input):
    need_eq(m, input.shape[0], input.shape[0], "trace")
    return _sum(m, _diagonal(m, input, 0, 0, 1), None, False, None)


# ------------------------------------------------------------------- reductions
@op("sum", "input dim=None keepdim=False dtype=None")
def _sum(m, input, dim, keepdim, dtype):
    t = input
    chk(m, t)
    ds = dims_of(m, dim, t.ndim)
    v = m.val(t)
    if t.ndim:
        v = v.sum(ds).norm(m.bd)
        v = reduce_shape(m, v, ds, keepdim)
    dt = t.dtype if dtype is None else dtype_of(m, dtype)
    if t.dtype.name == "bool" and dtype is None:
        dt = DType("int64")
    return mk(m, v, t, dtype=dt)


op("nansum", "input dim=None keepdim=False dtype=None")(_sum)


@op("mean", "input dim=None keepdim=False dtype=None")
def _mean(m, input, dim, keepdim, dtype):
    t = input
    ds = dims_of(m, dim, t.ndim)
    n = ONE
    for d in ds if t.ndim else []:
        n = n * m.p.simp(t.shape[d])
    s = _sum(m, t, dim, keepdim, dtype)
    if t.dtype.name in INT_DTYPES and dtype is None:
        m.i.throw("RuntimeError", "mean(): could not infer output dtype")
    if m.p.sign_in(n, {0}):
        return mk(m, Ten.atom("nan", s.shape), s)
    v = m.val(s).scale(ONE / n)
    return mk(m, v, s)


op("nanmean", "input dim=None keepdim=False dtype=None")(_mean)


@op("prod", "input dim=None keepdim=False")
def _prod(m, input, dim, keepdim):
    n = m.numel(input)
    if n == 1:
        return _reshape(m, input, [])
    if input.ival is not None and input.ndim == 1 and n.is_int_const():
        r = ONE
        for k in range(int(n.const_val())):
            r = r * m.sc_of(m.select(input, 0, sc(k)))
        return m.new(Ten.full((), r), input.dtype, input.device)
    m.i.abort("product reduction of a tensor")


def exists_key(m, x, shape):
    """(factor, |coef|) key describing the set of entries a single-factor term covers; None if not reducible."""
    if len(x.facs) != 1 or x.pfacs:
        return None
    f = x.facs[0]
    vars_ = dict(x.vars)
    mp = {}
    for k, d in enumerate(shape):
        v = fresh("s")
        mp[slot(k)] = Sc.atom(v)
        vars_[v] = d
    eqs = [e.subst(mp) for e in x.eqs]
    nt = norm_term(Term(ONE, x.facs, (), vars_, eqs), (), m.bd, count=False)
    if len(nt) != 1:
        return None
    y = nt[0]
    # eliminate free variables existentially
    args = list(y.facs[0].args)
    pure = [v for v in y.vars if v not in args]
    cons = []  # expressions >= 0
    solved, left = solve(list(y.eqs), pure + list(reversed(args)))
    if left:
        return f"{f.name}:{canon_key(y, (), m.bd)[0]}"
    for v in y.vars:
        e = solved.get(v, Sc.atom(v))
        if v in args and v not in solved:
            continue
        cons += [e, y.vars[v] - 1 - e]
    free = [v for v in pure if v not in solved]
    for v in free:
        lo, hi, rest = [], [], []
        for e in cons:
            cr = e.coeff(v)
            if cr is None:
                return None
            k, r = cr
            if k.is_zero():
                rest.append(e)
            elif k == 1:
                lo.append(-r)
            elif k == -1:
                hi.append(r)
            else:
                return f"{f.name}:{canon_key(y, (), m.bd)[0]}"
        cons = rest + [h - l for h in hi for l in lo]
    from .ten import extremes

    rng = {a: y.vars[a] for a in args}
    for e in cons:
        ex = extremes(e, rng, m.bd)
        if ex is None or not m.bd.nonneg(ex[0]):
            return f"{f.name}:{canon_key(y, (), m.bd)[0]}"
    if y.pfacs or any(a in solved and not y.vars[a] == 1 for a in args):
        return f"{f.name}:{canon_key(y, (), m.bd)[0]}"
    return f.name


def maxabs(m, v):
    """Scalar max |entries| of a tensor value."""
    v = m.p.simp_ten(v).norm(m.bd) if v.shape else v
    if not v.shape:
        s = m.ten_sc(v)
        return abs_sc(m, s)
    if not v.terms:
        return ZERO
    parts = []
    ok = True
    for x in v.terms:
        k = exists_key(m, x, v.shape)
        if k is None or not x.coef.is_const():
            if not x.facs and not x.pfacs:
                parts.append(abs_sc(m, x.coef))
                continue
            ok = False
            break
        c = abs(x.coef.const_val())
        parts.append(Sc.atom(node("maxabs", (k,), pos=False)) * c)
    if ok:
        for a in range(len(v.terms)):
            for b in range(a + 1, len(v.terms)):
                pa, pb = Ten(v.shape, [v.terms[a]]), Ten(v.shape, [v.terms[b]])
                if pa.mul(pb).norm(m.bd).terms:
                    ok = False
    if not ok:
        if len(v.terms) >= 1:
            # pull out a common positive scalar
            c0 = v.terms[0].coef
            if not c0.is_const() or abs(c0.const_val()) != 1:
                w = v.scale(ONE / c0).norm(m.bd)
                return abs_sc(m, c0) * Sc.atom(node("maxabs", (w.key(m.bd),), pos=False))
        return Sc.atom(node("maxabs", (v.key(m.bd),), pos=False))
    r = parts[0]
    for p in parts[1:]:
        if p != r:
            r = m.maxsc(r, p, "max")
    return r


def abs_sc(m, s):
    s = m.p.simp(s)
    if s.is_const():
        return sc(abs(s.const_val()))
    poss = m.p.possible(s, False)
    if poss <= {0, 1}:
        return s
    if poss <= {0, -1}:
        return -s
    c, sg = m.p._canon(s)
    lead = min(s.t.items(), key=lambda kv: str(kv[0]))[1]
    return Sc.atom(node("abs", (c,), pos=False)) * abs(lead)


@op("abs absolute", "input")
def _abs(m, input):
    t = input
    v = m.val(t)
    if not t.shape:
        return mk(m, Ten.full((), abs_sc(m, m.ten_sc(v))), t)
    r = mk(m, Ten.atom(f"abs<{v.key(m.bd)}>", t.shape), t)
    r.attrs["absof"] = (v, r.st.writes, r.st)
    return r


def _absof(t):
    a = t.attrs.get("absof")
    if a is not None and a[2] is t.st and t.st.writes == a[1]:
        return a[0]
    return None


def full_reduce(which):
    def f(m, input, dim=None, keepdim=False):
        t = input
        chk(m, t)
        if dim is not None and not (isinstance(dim, TensorV)):
            if isinstance(dim, (list, tuple)) and len(dim) == t.ndim:
                dim = None
            elif t.ndim == 1 and not keepdim:
                dim = None
        if isinstance(dim, TensorV):
            return FN["maximum" if which == "max" else "minimum"](m, [t, dim], {})
        if dim is not None:
            ds = dims_of(m, dim, t.ndim)
            shp = [d for k, d in enumerate(t.shape) if k not in ds]
            v = Ten.atom(f"a{which}{ds}<{m.val(t).key(m.bd)}>", shp)
            a = _absof(t)
            r = mk(m, reduce_shape(m, v, ds, keepdim), t)
            if a is not None and which == "max":
                r.attrs["absof"] = (a, r.st.writes, r.st)
            return r
        n = m.numel(t)
        if not m.p.sign_in(n - 1, {0, 1}) and t.ndim:
            m.i.throw("RuntimeError", f"{which}(): Expected reduction dim to be specified for input.numel() == 0")
        a = _absof(t)
        if a is not None and which == "max":
            return mk(m, Ten.full((), maxabs(m, a)), t)
        if m.p.simp(n) == 1:
            return mk(m, Ten.full((), m.i.num(m.item(t))), t)
        return mk(m, Ten.full((), Sc.atom(node(f"{which}of", (m.val(t).key(m.bd),)))), t)

    return f


_fmax, _fmin = full_reduce("max"), full_reduce("min")


@op("max", "input dim=None keepdim=False")
def _max(m, input, dim, keepdim):
    if dim is not None and not isinstance(dim, TensorV):
        r = _fmax(m, input, dim, keepdim)
        return (r, Unknown("argmax indices"))
    return _fmax(m, input, dim, keepdim)


@op("min", "input dim=None keepdim=False")
def _min(m, input, dim, keepdim):
    if dim is not None and not isinstance(dim, TensorV):
        return (_fmin(m, input, dim, keepdim), Unknown("argmin indices"))
    return _fmin(m, input, dim, keepdim)


op("amax", "input dim=None keepdim=False")(_fmax)
op("amin", "input dim=None keepdim=False")(_fmin)


@op("maximum fmax", "input other")
def _maximum(m, input, other):
    return m.minmax(input, other, "max")


@op("minimum fmin", "input other")
def _minimum(m, input, other):
    return m.minmax(input, other, "min")


@op("clamp clip", "input min=None max=None")
def _clamp(m, input, min, max):
    t = input
    if t.ndim == 0 or m.numel(t) == 1:
        r = t
        if min is not None:
            r = m.minmax(r, min, "max")
        if max is not None:
            r = m.minmax(r, max, "min")
        return r
    lo = "None" if min is None else repr(m.sc_of(min))
    hi = "None" if max is None else repr(m.sc_of(max))
    a = _absof(t)
    return mk(m, Ten.atom(f"clamp[{lo},{hi}]<{m.val(t).key(m.bd)}>", t.shape), t)


op("clamp_min", "input min")(lambda m, input, min: _clamp(m, input, min, None))
op("clamp_max", "input max")(lambda m, input, max: _clamp(m, input, None, max))


def sqsum(m, t, ds=None):
    v = m.val(t)
    if not t.shape:
        return Ten.full((), m.ten_sc(v).pow(2))
    q = v.mul(v)
    return q.sum(range(t.ndim) if ds is None else ds).norm(m.bd)


def _sqrt_ten(m, v):
    if not v.shape:
        return Ten.full((), m.ten_sc(v).pow(Fraction(1, 2)))
    return m.pow_val(v, Fraction(1, 2))


@op("vector_norm", "x ord=2 dim=None keepdim=False dtype=None")
def _vnorm(m, x, ord, dim, keepdim, dtype):
    return norm_impl(m, x, ord, dim, keepdim)


@op("matrix_norm", "A ord=fro dim=None keepdim=False dtype=None")
def _mnorm(m, A, ord, dim, keepdim, dtype):
    if ord != "fro":
        m.i.abort(f"matrix norm {ord!r}")
    if A.ndim < 2:
        m.i.throw("RuntimeError", "linalg.matrix_norm: input must have at least 2 dimensions")
    return norm_impl(m, A, 2, (-2, -1) if dim is None else dim, keepdim)


@op("norm", "input p=fro dim=None keepdim=False dtype=None")
def _norm(m, input, p, dim, keepdim, dtype):
    return norm_impl(m, input, 2 if p in ("fro", None) else p, dim, keepdim)


def _linalg_norm(m, args, kwargs):
    kw = dict(kwargs)
    if "ord" in kw:
        kw["p"] = kw.pop("ord")
    if kw.get("p", 0) is None:
        kw["p"] = "fro"
    return FN["norm"](m, args, kw)


EXTFN["torch.linalg.norm"] = _linalg_norm


def norm_impl(m, t, p, dim, keepdim):
    chk(m, t)
    p = m.i.force(p)
    inf = isinstance(p, float) and p == float("inf")
    ds = dims_of(m, dim, t.ndim)
    if inf:
        if len(ds) != t.ndim:
            m.i.abort("partial infinity norm")
        n = m.numel(t)
        if not m.p.sign_in(n - 1, {0, 1}) and t.ndim:
            m.i.throw("RuntimeError", "linalg.vector_norm cannot compute the inf norm on an empty tensor")
        return mk(m, Ten.full((), maxabs(m, m.val(t))), t)
    n = m.i.num(p)
    if n is None or not n.is_const():
        m.i.abort(f"norm of order {p!r}")
    if n.const_val() == 2:
        v = _sqrt_ten(m, sqsum(m, t, ds))
        return mk(m, reduce_shape(m, v, ds, keepdim), t)
    if n.const_val() == 1:
        return _sum(m, _abs(m, t), dim, keepdim, None)
    m.i.abort(f"norm of order {p!r}")


@op("any", "input dim=None keepdim=False")
def _any(m, input, dim, keepdim):
    c = input.attrs.get("cond")
    if c is None:
        c = "nz<" + m.val(input).key(m.bd) + ">"
    elif input.ndim == 0:
        return input
    k = ("not all " if input.attrs.get("neg") else "any ") + c
    if input.attrs.get("neg"):
        return m.condition("all " + c, (), input.device, True)
    return m.condition("any " + c, (), input.device)


@op("all", "input dim=None keepdim=False")
def _all(m, input, dim, keepdim):
    c = input.attrs.get("cond")
    if c is None:
        c = "nz<" + m.val(input).key(m.bd) + ">"
    elif input.ndim == 0:
        return input
    if input.attrs.get("neg"):
        return m.condition("any " + c, (), input.device, True)
    return m.condition("all " + c, (), input.device)


def _pred(name):
    def f(m, input):
        if not isinstance(input, TensorV):
            return getattr(pylib, name)(m.i, input)
        return m.condition(f"{name}<{m.val(input).key(m.bd)}>", input.shape, input.device)

    return f


for _n in ("isinf", "isnan"):
    op(_n, "input")(_pred(_n))


@op("isfinite", "input")
def _isfinite(m, input):
    return m.condition(f"isfinite<{m.val(input).key(m.bd)}>", input.shape, input.device)


def _boolop(name):
    def f(m, input, other=None):
        ks = [f"{'!' if t.attrs.get('neg') else ''}{t.attrs.get('cond') or m.val(t).key(m.bd)}" for t in (input, other) if t is not None]
        return m.condition(f"{name}({';'.join(ks)})", input.shape, input.device)

    return f


op("logical_and bitwise_and", "input other")(_boolop("and"))
op("logical_or bitwise_or", "input other")(_boolop("or"))


@op("logical_not bitwise_not", "input")
def _lnot(m, input):
    return m.condition(input.attrs.get("cond") or m.val(input).key(m.bd), input.shape, input.device,
                       not input.attrs.get("neg", False))


for _n, _o in (("eq", "Eq"), ("ne", "NotEq"), ("gt", "Gt"), ("ge", "GtE"), ("lt", "Lt"), ("le", "LtE")):
    op(_n + " " + {"gt": "greater", "ge": "greater_equal", "lt": "less", "le": "less_equal", "ne": "not_equal", "eq": "_eq"}[_n],
       "input other")(lambda m, input, other, _o=_o: m.compare(_o, input, other))


@op("equal", "input other")
def _equal(m, input, other):
    if len(input.shape) != len(other.shape):
        return False
    if m.val(input).equals(m.val(other), m.bd):
        return True
    return m.p.cond(f"equal<{m.val(input).key(m.bd)};{m.val(other).key(m.bd)}>")


op("allclose", "input other rtol=0 atol=0 equal_nan=False")(lambda m, input, other, rtol, atol, equal_nan: _equal(m, input, other))


@op("where", "condition input=None other=None")
def _where(m, condition, input, other):
    if input is None:
        m.i.abort("where with one argument")
    if condition.ndim == 0 and condition.attrs.get("cond") is not None:
        return input if m.truth(condition) else other
    if condition.ndim == 0:
        return input if m.truth(condition) else other
    a, b = m.lift(input), m.lift(other)
    shp = m.bshape(condition.shape, a.shape, b.shape)
    va, vb = m.val(a).broadcast(shp), m.val(b).broadcast(shp)
    if va.equals(vb, m.bd):
        return mk(m, va, a, b)
    key = condition.attrs.get("cond") or m.val(condition).key(m.bd)
    t = a if isinstance(input, TensorV) else b
    return mk(m, Ten.atom(f"where[{condition.attrs.get('neg')}{key}]<{va.key(m.bd)};{vb.key(m.bd)}>", shp), t)


@op("masked_fill", "input mask value")
def _masked_fill(m, input, mask, value):
    return _where(m, mask, m.lift(value), input)


@op("nan_to_num", "input nan=0 posinf=None neginf=None")
def _nan_to_num(m, input, nan, posinf, neginf):
    return mk(m, Ten.atom(f"nan_to_num<{m.val(input).key(m.bd)}>", input.shape), input)


# ------------------------------------------------------------------ elementwise
def _bin(name, opn):
    def f(m, input, other, alpha=1):
        if alpha is not None and not (isinstance(alpha, int) and alpha == 1):
            other = m.i.binop("Mult", other, alpha)
        return m.i.binop(opn, input, other)

    return f


op("add", "input other alpha=1")(_bin("add", "Add"))
op("sub subtract", "input other alpha=1")(_bin("sub", "Sub"))
op("mul multiply", "input other")(lambda m, input, other: m.i.binop("Mult", input, other))
op("div divide true_divide", "input other rounding_mode=None")(
    lambda m, input, other, rounding_mode: m.i.binop("Div" if rounding_mode is None else "FloorDiv", input, other))
op("pow", "input exponent")(lambda m, input, exponent: m.i.binop("Pow", input, exponent))
op("rsub", "input other alpha=1")(lambda m, input, other, alpha: m.i.binop("Sub", other, m.i.binop("Mult", input, alpha)))
op("square", "input")(lambda m, input: m.i.binop("Pow", input, 2))
op("neg negative", "input")(lambda m, input: m.unary("USub", input))
op("floor_divide", "input other")(lambda m, input, other: m.i.binop("FloorDiv", input, other))
op("remainder fmod", "input other")(lambda m, input, other: m.i.binop("Mod", input, other))
op("positive", "input")(lambda m, input: input)


@op("sqrt", "input")
def _sqrt(m, input):
    return mk(m, _sqrt_ten(m, m.val(input)), input)


@op("rsqrt", "input")
def _rsqrt(m, input):
    return mk(m, m.pow_val(m.val(input), Fraction(-1, 2)), input)


@op("reciprocal", "input")
def _reciprocal(m, input):
    return mk(m, m.pow_val(m.val(input), Fraction(-1)), input)


def _opaque(name):
    def f(m, input):
        t = input
        if not t.shape:
            return mk(m, Ten.full((), Sc.atom(node(name, (m.ten_sc(m.val(t)),)))), t)
        return mk(m, Ten.atom(f"{name}<{m.val(t).key(m.bd)}>", t.shape), t)

    return f


for _n in ("exp", "log", "sign", "floor", "ceil", "round", "tanh", "sigmoid", "relu", "sin", "cos", "log2", "log10", "log1p",
           "expm1", "trunc", "sgn", "frac", "erf", "softmax"):
    op(_n, "input")(_opaque(_n))


@op("addcmul", "input tensor1 tensor2 value=1")
def _addcmul(m, input, tensor1, tensor2, value):
    return m.i.binop("Add", input, m.i.binop("Mult", m.i.binop("Mult", tensor1, tensor2), value))


@op("addcdiv", "input tensor1 tensor2 value=1")
def _addcdiv(m, input, tensor1, tensor2, value):
    return m.i.binop("Add", input, m.i.binop("Mult", m.i.binop("Div", tensor1, tensor2), value))


@op("lerp", "input end weight")
def _lerp(m, input, end, weight):
    return m.i.binop("Add", input, m.i.binop("Mult", m.i.binop("Sub", end, input), weight))


@op("cumsum", "input dim dtype=None")
def _cumsum(m, input, dim, dtype):
    d = m.dim(dim, input.ndim)
    v = m.val(input)
    n = input.ndim
    L = input.shape[d]
    # out[o] = sum_{i<=o} in[i] : guard o - i in [0, L)
    r = v.rel(input.shape, lambda i, o, a: [(o[k] - i[k] - a["%g"]) if k == d else i[k] - o[k] for k in range(n)], {"%g": L})
    return mk(m, r, input)


# ------------------------------------------------------------------ index ops
def _iv(m, t):
    if t.ival is None:
        m.i.abort("index tensor with unknown values")
    return t.ival


def scatter_rel(m, iv, ishape, out_shape, d):
    """eqfn(i, o, a): i over index/source positions, o over destination."""

    def eq(i, o, a):
        mp = {}
        for k in range(len(ishape)):
            at = list(i[k].atoms())[0]
            mp[slot(k)] = i[k]
            mp[slot(k) + ".r"] = Sc.atom(at + ".r")
            mp[slot(k) + ".c"] = Sc.atom(at + ".c")
        for k in iv.aux:
            at = list(a[k].atoms())[0]
            mp[k] = a[k]
            mp[k + ".r"] = Sc.atom(at + ".r")
            mp[k + ".c"] = Sc.atom(at + ".c")
        out = [(iv.poly.subst(mp) - o[k]) if k == d else i[k] - o[k] for k in range(len(out_shape))]
        return out + [e.subst(mp) for e in iv.eqs]

    return eq


@op("scatter_add", "input dim index src")
def _scatter_add(m, input, dim, index, src):
    chk(m, input, index, src)
    d = m.dim(dim, input.ndim)
    if m.p.dt(input.dtype) != m.p.dt(src.dtype):
        m.same_dtype(input, src, "scatter_add")
    iv = _iv(m, index)
    v = m.val(src)
    for k in range(src.ndim):
        need_eq(m, index.shape[k], src.shape[k], "scatter_add index/src shape")
    r = v.rel(input.shape, scatter_rel(m, iv, index.shape, input.shape, d), iv.aux)
    return mk(m, (m.val(input) + r), input, src)


@op("index_add", "input dim index source alpha=1")
def _index_add(m, input, dim, index, source, alpha):
    d = m.dim(dim, input.ndim)
    iv = _iv(m, index)
    m.same_dtype(input, source, "index_add")
    v = m.val(source).scale(m.sc_of(alpha))

    def eq(i, o, a):
        at = list(i[d].atoms())[0]
        mp = {slot(0): i[d], slot(0) + ".r": Sc.atom(at + ".r"), slot(0) + ".c": Sc.atom(at + ".c")}
        mp.update({k: a[k] for k in iv.aux})
        return [(iv.poly.subst(mp) - o[k]) if k == d else i[k] - o[k] for k in range(input.ndim)] + [
            e.subst(mp) for e in iv.eqs]

    return mk(m, m.val(input) + v.rel(input.shape, eq, iv.aux), input, source)


@op("bincount", "input weights=None minlength=0")
def _bincount(m, input, weights, minlength):
    n = m.ints(minlength)[0]
    iv = _iv(m, input)
    if weights is None:
        m.i.abort("bincount without weights")
    return mk(m, m.val(weights).rel((n,), scatter_rel(m, iv, input.shape, (n,), 0), iv.aux), weights)


@op("index_select", "input dim index")
def _index_select(m, input, dim, index):
    items = [Slice(None, None, None)] * input.ndim
    items[m.dim(dim, input.ndim)] = index
    return m.index(input, tuple(items))


@op("gather take_along_dim", "input dim index")
def _gather(m, input, dim, index):
    d = m.dim(dim, input.ndim)
    iv = _iv(m, index)
    f = scatter_rel(m, iv, index.shape, input.shape, d)
    return mk(m, m.val(input).rel(index.shape, lambda i, o, a: f(o, i, a), iv.aux), input)


@op("index_copy", "input dim index source")
def _index_copy(m, input, dim, index, source):
    r = clone(m, input)
    items = [Slice(None, None, None)] * input.ndim
    items[m.dim(dim, input.ndim)] = index
    m.setindex(r, tuple(items), source)
    return r


@op("scatter", "input dim index src")
def _scatter(m, input, dim, index, src):
    m.i.abort("scatter is not modelled")


@meth("index_put_")
def _index_put_(m, t, a, k):
    idx, v = a[0], a[1]
    acc = a[2] if len(a) > 2 else k.get("accumulate", False)
    if acc:
        items = m.parse_index(t, tuple(idx))
        shape, eqfn, aux = m.adv_index(t, items)
        tv = m.lift(v)
        val = m.expand_to(tv, shape)
        m.write(t, m.val(t) + val.rel(t.shape, lambda i, o, x: eqfn(o, i, x), aux), "index_put_")
        return t
    m.setindex(t, tuple(idx), v)
    return t


# ------------------------------------------------------------------ convolution
@op("conv1d", "input weight bias=None stride=1 padding=0 dilation=1 groups=1")
def _conv1d(m, input, weight, bias, stride, padding, dilation, groups):
    i = m.i
    chk(m, input, weight)
    dt = all_same(m, [input, weight], "conv1d")

    def one(x):
        v = m.ints(x)
        return v[0]

    if isinstance(i.force(padding), str):
        i.abort("conv1d with string padding")
    s, p, d, G = one(stride), one(padding), one(dilation), one(groups)
    x, unb = input, False
    if x.ndim == 2:
        x, unb = unsqueeze(m, x, 0), True
    if x.ndim != 3 or weight.ndim != 3:
        i.throw("RuntimeError", "conv1d expects 3-D (or unbatched 2-D) input and 3-D weight")
    N, Ci, L = [m.p.simp(q) for q in x.shape]
    Co, J, K = [m.p.simp(q) for q in weight.shape]
    need_eq(m, J * G, Ci, "conv1d: channels of input and weight mismatch")
    R = m.exdiv(Co, G)
    if R is None:
        i.abort("conv1d: output channels not divisible by groups")
    lo = i.floordiv(L + p * 2 - d * (K - 1) - 1, s) + 1
    lo = m.p.simp(lo)
    if not m.p.sign_in(lo, {0, 1}):
        i.throw("RuntimeError", "Kernel size can't be greater than actual input size")
    vx, vw = m.val(x), m.val(weight)
    o = vx.outer(vw)

    def eq(ii, oo, a):
        n, ci, l, co, j, k = ii
        e = [n - oo[0], oo[2] * s + k * d - p - l, co - oo[1]]
        if G == 1:
            e += [ci - j]
        elif J == 1 and R == 1:
            e += [ci - co]
        else:
            e += [ci - a["%cg"] * J - j, co - a["%cg"] * R - a["%cr"]]
        return e

    aux = {} if (G == 1 or (J == 1 and R == 1)) else {"%cg": G, "%cr": R}
    v = o.rel((N, Co, lo), eq, aux)
    if bias is not None:
        v = v + m.val(bias).rel((N, Co, lo), lambda ii, oo, a: [ii[0] - oo[1]])
    r = mk(m, v, input, weight, dtype=dt)
    return _squeeze(m, r, 0) if unb else r


@op("pad", "input pad mode=constant value=0")
def _pad(m, input, pad, mode, value):
    if mode != "constant":
        m.i.abort(f"pad mode {mode}")
    ps = [m.ints(x)[0] for x in m.i.iterate(pad)]
    t = input
    v = m.val(t)
    c = ZERO if value is None else m.sc_of(value)
    for q in range(len(ps) // 2):
        dim = t.ndim - 1 - q
        l, r = ps[2 * q], ps[2 * q + 1]
        n = v.shape[dim]
        # negative padding crops
        if not m.p.sign_in(l, {0, 1}) or not m.p.sign_in(r, {0, 1}):
            m.i.abort("negative padding")
        shp = list(v.shape)
        shp[dim] = m.p.simp(n + l + r)
        w = v.place(shp, dim, l)
        if not c.is_zero():
            for ext, off in ((l, ZERO), (r, l + n)):
                ext = m.p.simp(ext)
                if not (ext.is_const() and ext.is_zero()):
                    side = list(shp)
                    side[dim] = ext
                    w = w + Ten.full(side, c).place(shp, dim, off)
        v = w
    return mk(m, v, t)


def pat_atom(m, I, K, s, pl, pr, d):
    I, K, s, pl, pr, d = (m.p.simp(x) for x in (I, K, s, pl, pr, d))
    O = m.i.floordiv(I + pl + pr - d * (K - 1) - 1, s) + 1
    O = m.p.simp(O)
    if not m.p.sign_in(O - 1, {0, 1}):
        m.i.throw("RuntimeError", "convolution output size is too small")
    name = f"pat[{I!r},{K!r},{s!r},{pl!r},{pr!r},{d!r}]"
    return Ten.atom(name, (K, O, I)), O


def conv_paddings(m, k, s, p, d):
    p = m.i.force(p)
    if isinstance(p, str):
        if p == "valid":
            return ZERO, ZERO
        if p == "same":
            if not m.p.sign_in(s - 1, {0}):
                m.i.throw("ValueError", "padding='same' is not supported for strided convolutions.")
            tot = d * (k - 1)
            l = m.i.floordiv(tot, sc(2))
            return l, m.p.simp(tot - l)
        m.i.throw("ValueError", f"Unknown string-value for padding: {p!r}.")
    x = m.ints(p)[0]
    return x, x


@ext("einconv.utils.get_conv_paddings")
def _get_conv_paddings(m, args, kwargs):
    names = ["kernel_size", "stride", "padding", "dilation"]
    v = dict(zip(names, args))
    v.update(kwargs)
    l, r = conv_paddings(m, m.ints(v["kernel_size"])[0], m.ints(v["stride"])[0], v["padding"], m.ints(v["dilation"])[0])
    return (m.i.mknum(l, "int"), m.i.mknum(r, "int"))


@ext("einconv.utils.get_conv_output_size")
def _get_conv_output_size(m, args, kwargs):
    names = ["input_size", "kernel_size", "stride", "padding", "dilation"]
    v = dict(zip(names, args))
    v.update(kwargs)
    I, k, s, d = (m.ints(v[n])[0] for n in ("input_size", "kernel_size", "stride", "dilation"))
    l, r = conv_paddings(m, k, s, v["padding"], d)
    return m.i.mknum(m.i.floordiv(I + l + r - d * (k - 1) - 1, s) + 1, "int")


@ext("einconv.index_pattern", "einconv.conv_index_pattern.index_pattern")
def _index_pattern(m, args, kwargs):
    names = ["input_size", "kernel_size", "stride", "padding", "dilation", "device", "dtype"]
    v = {"stride": 1, "padding": 0, "dilation": 1, "device": None, "dtype": DType("bool")}
    v.update(zip(names, args))
    v.update(kwargs)
    I, K, s, d = (m.ints(v[n])[0] for n in ("input_size", "kernel_size", "stride", "dilation"))
    l, r = conv_paddings(m, K, s, v["padding"], d)
    t, O = pat_atom(m, I, K, s, l, r, d)
    return m.new(t, dtype_of(m, v["dtype"]), dev_of(m, v["device"]))


def _pairs(m, x):
    v = m.ints(x)
    return v * 2 if len(v) == 1 else v


@op("unfold", "input kernel_size dilation=1 padding=0 stride=1")
def _unfold(m, input, kernel_size, dilation, padding, stride):
    t = input
    ks, ds, ps, ss = (_pairs(m, x) for x in (kernel_size, dilation, padding, stride))
    unb = False
    if t.ndim == 3:
        t, unb = unsqueeze(m, t, 0), True
    if t.ndim != 4:
        m.i.throw("RuntimeError", "Expected 3D or 4D (batch mode) tensor for input")
    B, C, H, W = [m.p.simp(d) for d in t.shape]
    p1, O1 = pat_atom(m, H, ks[0], ss[0], ps[0], ps[0], ds[0])
    p2, O2 = pat_atom(m, W, ks[1], ss[1], ps[1], ps[1], ds[1])
    v = ein(m, [m.val(t), p1, p2], [["b", "c", "h", "w"], ["k", "o", "h"], ["l", "p", "w"]], ["b", "c", "k", "l", "o", "p"])
    out = [B, C * ks[0] * ks[1], O1 * O2]
    r = v.rel(out, lambda i, o, a: [
        i[0] - o[0], i[1] * (ks[0] * ks[1]) + i[2] * ks[1] + i[3] - o[1], i[4] * O2 + i[5] - o[2]])
    r = mk(m, r, t)
    return _squeeze(m, r, 0) if unb else r


@meth("unfold")
def _t_unfold(m, t, a, k):
    m.i.abort("Tensor.unfold (window view) is not modelled")


@ext("torch.nn.modules.utils._pair", "torch.nn.modules.utils._single", "torch.nn.modules.utils._triple", "torch.nn.modules.utils._ntuple")
def _pair(m, args, kwargs):
    x = m.i.force(args[0])
    if isinstance(x, (list, tuple)):
        return tuple(x)
    return (x, x)


# ----------------------------------------------------------------------- einops
def parse_side(s):
    toks = re.findall(r"\(|\)|\.\.\.|[A-Za-z_][A-Za-z_0-9]*|\d+", s)
    out, grp = [], None
    for t in toks:
        if t == "(":
            grp = []
        elif t == ")":
            out.append(grp)
            grp = None
        elif grp is not None:
            grp.append(t)
        else:
            out.append([t])
    return out


def einops_parse(m, t, pattern, sizes):
    if "->" not in pattern:
        m.i.throw("ValueError", "einops pattern must contain ->")
    l, r = pattern.split("->")
    L, R = parse_side(l), parse_side(r)
    nell = 0
    L2 = []
    for g in L:
        if g == ["..."]:
            nell = t.ndim - (len(L) - 1)
            if nell < 0:
                m.i.throw("ValueError", "einops: too few dimensions")
            L2 += [[f"~{k}"] for k in range(nell)]
        elif "..." in g:
            m.i.abort("einops: ellipsis inside parentheses on the left")
        else:
            L2.append(g)
    ell = [f"~{k}" for k in range(nell)]
    R2 = []
    for g in R:
        if g == ["..."]:
            R2 += [[e] for e in ell]
        elif "..." in g:
            k = g.index("...")
            R2.append(g[:k] + ell + g[k + 1:])
        else:
            R2.append(g)
    if len(L2) != t.ndim:
        m.i.throw("ValueError", f"einops: pattern {pattern!r} expects {len(L2)} dims, got {t.ndim}")
    size = {k: m.ints(v)[0] for k, v in sizes.items()}
    one = 0

    def ren(gs):
        out = []
        nonlocal one
        for g in gs:
            h = []
            for n in g:
                if n.isdigit():
                    one += 1
                    nm = f"#{one}"
                    size[nm] = sc(int(n))
                    h.append(nm)
                else:
                    h.append(n)
            out.append(h)
        return out

    L2, R2 = ren(L2), ren(R2)
    for g, d in zip(L2, t.shape):
        d = m.p.simp(d)
        unk = [n for n in g if n not in size]
        known = ONE
        for n in g:
            if n in size:
                known = known * size[n]
        if len(unk) > 1:
            m.i.throw("ValueError", "einops: could not infer sizes")
        if unk:
            q = m.exdiv(d, known) if not (known == 1) else d
            if q is None:
                fd = m.i._fd_split(d, known)
                if fd is None:
                    if not m.p.cond(f"{known!r} divides {d!r}"):
                        m.i.throw("ValueError", "einops: shape mismatch, can't divide axis")
                    m.i.abort(f"einops: {d!r} / {known!r}")
                if not fd[1].is_zero():
                    m.i.throw("ValueError", "einops: shape mismatch, can't divide axis")
                q = fd[0]
            if q.is_const() and q.const_val().denominator != 1:
                m.i.throw("ValueError", "einops: shape mismatch, can't divide axis")
            size[unk[0]] = q
        else:
            if not sc_is_zero(m.p.simp(known - d)):
                if not m.p.sign_in(known - d, {0}):
                    m.i.throw("ValueError", f"einops: shape mismatch {known!r} != {d!r}")
    return L2, R2, size


def einops_view(m, t, L, R, size):
    """Rearrangement with all names kept."""
    shape = []
    for g in R:
        p = ONE
        for n in g:
            p = p * size[n]
        shape.append(m.p.simp(p))
    names = [n for g in L for n in g]
    aux = {f"%e_{n}": size[n] for n in names}
    rset = {n for g in R for n in g}

    def lin(g, a):
        e, st = ZERO, ONE
        for n in reversed(g):
            e = e + (a[f"%e_{n}"] if f"%e_{n}" in a else ZERO) * st
            st = st * size[n]
        return e

    def eq(i, o, a):
        out = [i[k] - lin(g, a) for k, g in enumerate(L)] + [o[k] - lin(g, a) for k, g in enumerate(R)]
        out += [a[f"%e_{n}"] for n in names if n not in rset]
        return out

    def nonunit(g):
        return [n for n in g if not (m.p.simp(size[n]) == 1)]

    order_in = nonunit(names)
    order_out = nonunit([n for g in R for n in g])
    same = order_in == order_out
    merge = any(len(nonunit(g)) > 1 for g in R)
    # merged names that are already adjacent inside one input group stay views
    ok = True
    for g in R:
        u = nonunit(g)
        if len(u) > 1:
            src = next((nonunit(h) for h in L if u[0] in h), [])
            if not any(src[k:k + len(u)] == u for k in range(len(src))):
                ok = False
    if not merge or ok or (same and t.contig):
        return m.view(t, shape, eq, aux, contig=t.contig if same else None)
    if m.alias == "view" or (m.alias == "explore" and m.p.decide(f"rearrange-aliases@{m.i.site()}") == 0):
        return m.view(t, shape, eq, aux)
    return mk(m, m.val(t).rel(shape, eq, aux), t)


@ext("einops.rearrange")
def _rearrange(m, args, kwargs):
    kw = dict(kwargs)
    t = m.i.force(args[0] if args else kw.pop("tensor"))
    pat = m.i.force(args[1] if len(args) > 1 else kw.pop("pattern"))
    if isinstance(t, (list, tuple)):
        t = _stack(m, list(t), 0)
    chk(m, t)
    L, R, size = einops_parse(m, t, pat, kw)
    ln, rn = sorted(n for g in L for n in g if n[0] != "#"), sorted(n for g in R for n in g if n[0] != "#")
    if ln != rn:
        m.i.throw("ValueError", f"einops.rearrange: identifiers differ in {pat!r}")
    for g in R:
        for n in g:
            size.setdefault(n, ONE)
    return einops_view(m, t, L, R, size)


@ext("einops.reduce")
def _ereduce(m, args, kwargs):
    kw = dict(kwargs)
    a = list(args)
    t = m.i.force(a[0] if a else kw.pop("tensor"))
    pat = m.i.force(a[1] if len(a) > 1 else kw.pop("pattern"))
    red = m.i.force(a[2] if len(a) > 2 else kw.pop("reduction"))
    if isinstance(t, (list, tuple)):
        t = _stack(m, list(t), 0)
    chk(m, t)
    L, R, size = einops_parse(m, t, pat, kw)
    ln, rn = [n for g in L for n in g], [n for g in R for n in g]
    drop = [n for n in ln if n not in rn]
    if any(n not in ln and n[0] != "#" for n in rn):
        m.i.throw("ValueError", f"einops.reduce: unknown axes in {pat!r}")
    if not drop:
        return einops_view(m, t, L, R, size)
    v = m.val(t)
    flatL = [n for g in L for n in g]
    aux = {f"%e_{n}": size[n] for n in flatL}
    keep = [n for n in flatL if n not in drop]
    shape = []
    for g in R:
        p = ONE
        for n in g:
            p = p * size[n]
        shape.append(m.p.simp(p))

    def lin(g, a):
        e, st = ZERO, ONE
        for n in reversed(g):
            if f"%e_{n}" in a:
                e = e + a[f"%e_{n}"] * st
            st = st * size[n]
        return e

    def eq(i, o, a):
        return [i[k] - lin(g, a) for k, g in enumerate(L)] + [o[k] - lin(g, a) for k, g in enumerate(R)]

    if red in ("sum", "mean"):
        r = v.rel(shape, eq, aux).norm(m.bd)
        if red == "mean":
            if m.p.dt(t.dtype).name in INT_DTYPES:
                m.i.throw("ValueError", "einops: reduce_mean is not available for non-floating tensors")
            n = ONE
            for x in drop:
                n = n * size[x]
            r = r.scale(ONE / m.p.simp(n))
        return mk(m, r, t)
    if callable(red) or not isinstance(red, str):
        m.i.abort("einops.reduce with a callable")
    if red in ("max", "min", "prod"):
        full = all(n not in rn for n in ln)
        return mk(m, Ten.atom(f"red-{red}[{pat}]<{v.key(m.bd)}>", shape), t)
    m.i.throw("ValueError", f"einops: unknown reduction {red!r}")


@ext("einops.repeat")
def _erepeat(m, args, kwargs):
    kw = dict(kwargs)
    t, pat = m.i.force(args[0]), m.i.force(args[1])
    chk(m, t)
    L, R, size = einops_parse(m, t, pat, kw)
    v = m.val(t)
    names = [n for g in L for n in g]
    allr = [n for g in R for n in g]
    for n in allr:
        if n not in size:
            m.i.throw("ValueError", f"einops.repeat: size of {n} unknown")
    aux = {f"%e_{n}": size[n] for n in dict.fromkeys(names + allr)}
    shape = []
    for g in R:
        p = ONE
        for n in g:
            p = p * size[n]
        shape.append(m.p.simp(p))

    def lin(g, a):
        e, st = ZERO, ONE
        for n in reversed(g):
            e = e + a[f"%e_{n}"] * st
            st = st * size[n]
        return e

    return mk(m, v.rel(shape, lambda i, o, a: [i[k] - lin(g, a) for k, g in enumerate(L)] + [
        o[k] - lin(g, a) for k, g in enumerate(R)], aux), t)


# ------------------------------------------------------------- dtype and copies
def clone(m, t):
    r = m.new(m.val(t), t.dtype, t.device, m.g(t))
    r.ival = t.ival
    r.label = t.label
    for k in ("cond", "neg", "rows"):
        if k in t.attrs:
            r.attrs[k] = t.attrs[k]
    return r


op("clone", "input")(lambda m, input: clone(m, input))


@op("detach", "input")
def _detach(m, input):
    v = m.same_view(input)
    v.graph = False
    v.leaf = False
    return v


op("detach_", "input")(lambda m, input: (setattr(input, "graph", False), input)[1])
op("alias view_as_real", "input")(lambda m, input: m.same_view(input))


@op("contiguous", "input")
def _contiguous(m, input):
    if m.is_contig(input):
        return input
    return clone(m, input)


@op("is_contiguous", "input")
def _is_contiguous(m, input):
    return m.is_contig(input)


def _to(m, args, kwargs):
    t = args[0]
    chk(m, t)
    dt = dv = None
    copy = kwargs.get("copy", False)
    for x in list(args[1:]) + [kwargs.get("dtype"), kwargs.get("device"), kwargs.get("other")]:
        x = m.i.force(x)
        if isinstance(x, DType):
            dt = m.p.dt(x)
        elif isinstance(x, Device):
            dv = x
        elif isinstance(x, str):
            dv = Device(x)
        elif isinstance(x, TensorV):
            dt, dv = x.dtype, x.device
    return m.to(t, dt, dv, m.i.truth(copy))


FN["to"] = _to


def _type(m, args, kwargs):
    if len(args) < 2 and not kwargs:
        return "torch.Tensor"
    d = m.i.force(args[1] if len(args) > 1 else kwargs["dtype"])
    if isinstance(d, DType):
        return m.to(args[0], d)
    m.i.abort(f"Tensor.type({d!r})")


FN["type"] = _type
op("type_as", "input other")(lambda m, input, other: m.to(input, other.dtype, other.device))
for _n, _d in (("float", "float32"), ("half", "float16"), ("double", "float64"), ("bfloat16", "bfloat16"), ("long", "int64"),
               ("int", "int32"), ("bool", "bool")):
    TENSOR_METHODS[_n] = lambda m, t, a, k, _d=_d: m.to(t, DType(_d))
TENSOR_METHODS["cpu"] = lambda m, t, a, k: m.to(t, None, Device("cpu"))
TENSOR_METHODS["cuda"] = lambda m, t, a, k: m.to(t, None, Device("cuda"))


@meth("is_floating_point")
def _isfp(m, t, a, k):
    return m.p.dt(t.dtype).name not in INT_DTYPES


@ext("torch.is_floating_point")
def _isfp2(m, args, kwargs):
    return m.p.dt(args[0].dtype).name not in INT_DTYPES


@meth("item")
def _item(m, t, a, k):
    m.p.event("sync", tensor=t)
    return m.item(t)


@meth("tolist")
def _tolist(m, t, a, k):
    if t.ndim == 0:
        return m.item(t)
    n = m.p.simp(t.shape[0])
    if n.is_int_const():
        return [_tolist(m, m.select(t, 0, sc(j)), a, k) for j in range(int(n.const_val()))]
    m.i.abort("tolist of symbolic length")


TENSOR_METHODS["__float__"] = lambda m, t, a, k: m.item(t)
TENSOR_METHODS["__int__"] = lambda m, t, a, k: m.item(t)
TENSOR_METHODS["__bool__"] = lambda m, t, a, k: m.truth(t)


@meth("size")
def _size(m, t, a, k):
    d = a[0] if a else k.get("dim")
    if d is None:
        return m.size(t)
    return m.i.mknum(m.p.simp(t.shape[m.dim(d, t.ndim)]), "int")


TENSOR_METHODS["dim"] = TENSOR_METHODS["ndimension"] = lambda m, t, a, k: t.ndim
TENSOR_METHODS["numel"] = TENSOR_METHODS["nelement"] = lambda m, t, a, k: m.i.mknum(m.p.simp(m.numel(t)), "int")
EXTFN["torch.numel"] = lambda m, a, k: m.i.mknum(m.p.simp(m.numel(a[0])), "int")
TENSOR_METHODS["element_size"] = lambda m, t, a, k: NumV(Sc.atom(node("itemsize:" + t.dtype.name, (), True)), "int")
TENSOR_METHODS["get_device"] = lambda m, t, a, k: Unknown("device index")
TENSOR_METHODS["storage_offset"] = lambda m, t, a, k: Unknown("storage offset")
TENSOR_METHODS["stride"] = lambda m, t, a, k: Unknown("strides")
TENSOR_METHODS["is_shared"] = lambda m, t, a, k: False
TENSOR_METHODS["is_pinned"] = lambda m, t, a, k: False
TENSOR_METHODS["share_memory_"] = lambda m, t, a, k: t


@meth("data_ptr")
def _data_ptr(m, t, a, k):
    return ("data_ptr", t.st.id)


@meth("untyped_storage storage")
def _storage(m, t, a, k):
    return Ext(f"storage{t.st.id}")


@meth("register_hook")
def _register_hook(m, t, a, k):
    if not (t.graph or t.leaf):
        m.i.throw("RuntimeError", "cannot register a hook on a tensor that doesn't require gradient")
    t.hooks.append(a[0])
    m.p.event("register-hook", tensor=t, hook=a[0])
    return Ext("torch.utils.hooks.RemovableHandle")


@meth("register_post_accumulate_grad_hook")
def _rpagh(m, t, a, k):
    t.hooks.append(("post", a[0]))
    m.p.event("register-hook", tensor=t, hook=a[0])
    return Ext("torch.utils.hooks.RemovableHandle")


@meth("retain_grad")
def _retain(m, t, a, k):
    return None


@meth("requires_grad_")
def _rg(m, t, a, k):
    v = m.i.truth(a[0]) if a else True
    if t.param is not None:
        m.p.event("global", what=f"requires_grad of {t.label} set")
    t.leaf = v
    return t


@meth("backward")
def _backward(m, t, a, k):
    m.p.event("backward", tensor=t)
    m.i.abort("backward() called inside the package")


@meth("copy_")
def _copy_(m, t, a, k):
    src = m.lift(a[0] if a else k["src"])
    v = m.expand_to(src, t.shape)
    r = m.new(Ten(t.shape, v.terms), t.dtype, t.device, m.g(src))
    return m.inplace(t, r, "copy_")


@meth("zero_")
def _zero_(m, t, a, k):
    return m.inplace(t, m.new(Ten(t.shape), t.dtype, t.device), "zero_")


@meth("fill_")
def _fill_(m, t, a, k):
    v = m.sc_of(a[0] if a else k["value"])
    return m.inplace(t, m.new(Ten.full(t.shape, v), t.dtype, t.device), "fill_")


@meth("fill_diagonal_")
def _fill_diag_(m, t, a, k):
    v = m.sc_of(a[0])
    d = _diagonal(m, t, 0, 0, 1)
    m.write(d, Ten.full(d.shape, v), "fill_diagonal_")
    return t


@meth("set_")
def _set_(m, t, a, k):
    m.setattr(t, "data", a[0])
    return t


@meth("unsqueeze_")
def _unsq_(m, t, a, k):
    m.i.abort("in-place shape change")


for _n in ("squeeze_", "t_", "transpose_", "resize_", "as_strided", "as_strided_", "sparse_mask", "to_sparse", "numpy", "map_"):
    TENSOR_METHODS.setdefault(_n, lambda m, t, a, k, _n=_n: m.i.abort(f"Tensor.{_n} is not modelled"))


# ------------------------------------------------------------------------- rng
def _rng(m, shape, dt, dv, what):
    m.p.event("rng", what=what)
    return m.new(Ten.atom(m.p.fresh("rng"), shape), dt, dv)


for _n in ("rand", "randn"):
    op(_n, "*size dtype=None device=None")(
        lambda m, size, dtype, device, _n=_n: _rng(m, shape_of(m, size), dtype_of(m, dtype), dev_of(m, device), _n))
for _n in ("rand_like", "randn_like"):
    op(_n, "input dtype=None device=None")(
        lambda m, input, dtype, device, _n=_n: _rng(m, input.shape, input.dtype if dtype is None else dtype_of(m, dtype), input.device, _n))
for _n in ("normal_", "uniform_", "bernoulli_", "random_", "exponential_"):
    TENSOR_METHODS[_n] = lambda m, t, a, k, _n=_n: m.inplace(t, _rng(m, t.shape, t.dtype, t.device, _n), _n)


@ext("torch.randint", "torch.randperm", "torch.normal", "torch.bernoulli", "torch.multinomial", "torch.dropout")
def _rng2(m, args, kwargs):
    m.p.event("rng", what="torch.rand*")
    return Unknown("random numbers")


# ------------------------------------------------------------- global torch API
def _global(path):
    def f(m, args, kwargs):
        m.p.event("global", what=path)
        return None

    return f


for _n in ("manual_seed", "seed", "set_default_dtype", "set_default_device", "set_default_tensor_type", "set_num_threads",
           "set_printoptions", "use_deterministic_algorithms", "set_float32_matmul_precision", "set_rng_state",
           "cuda.manual_seed", "cuda.manual_seed_all", "cuda.set_device", "random.manual_seed", "set_warn_always",
           "autograd.set_detect_anomaly", "set_flush_denormal", "cuda.empty_cache"):
    EXTFN["torch." + _n] = _global("torch." + _n)
EXTFN["torch.cuda.empty_cache"] = lambda m, a, k: None
EXTFN["torch.cuda.synchronize"] = lambda m, a, k: None
EXTFN["torch.cuda.is_available"] = lambda m, a, k: m.p.cond("cuda is available")
EXTFN["torch.get_default_dtype"] = lambda m, a, k: m.p.dt(DEFAULT_DTYPE)
EXTFN["torch.get_default_device"] = lambda m, a, k: DEFAULT_DEVICE
EXTFN["torch.is_tensor"] = lambda m, a, k: isinstance(m.i.force(a[0]), TensorV)


@ext("torch.device")
def _device(m, args, kwargs):
    a = m.i.force(args[0])
    if isinstance(a, Device):
        return a
    if isinstance(a, str):
        return Device(a)
    m.i.abort("torch.device of a non-string")


@ext("torch.Size")
def _Size(m, args, kwargs):
    return SizeV(m.i.iterate(args[0]) if args else ())


@ext("torch.finfo")
def _finfo(m, args, kwargs):
    d = m.p.dt(m.i.force(args[0])) if args else m.p.dt(DEFAULT_DTYPE)
    o = {}
    for n in ("eps", "max", "min", "tiny", "smallest_normal"):
        o[n] = NumV(Sc.atom(node(f"finfo.{n}:{d.name}", (), n != "min")), "float")
    c = ClassV("finfo", list(m.i.modules.values())[0], None, [])
    r = Obj(c)
    r.attrs.update(o)
    return r


@ext("torch.result_type", "torch.promote_types")
def _promote(m, args, kwargs):
    a, b = (m.i.force(x) for x in args)
    if isinstance(a, DType) and isinstance(b, DType):
        return m.promote(a, b)
    return m.result_dtype(a, b)


def grad_ctx(m, mode, warned=False):
    st = []

    def enter():
        st.append(m.p.grad_mode)
        m.p.grad_mode = mode
        return None

    def exit_(e=None):
        m.p.grad_mode = st.pop()
        return False

    return CtxV(enter, exit_)


@ext("torch.no_grad", "torch.inference_mode", "torch.autograd.no_grad", "torch.autograd.grad_mode.no_grad")
def _no_grad(m, args, kwargs):
    c = grad_ctx(m, False)
    if args and isinstance(args[0], (FuncV, Native)):
        return m.i.ctx_wrap(c, args[0])
    return c


@ext("torch.enable_grad", "torch.autograd.enable_grad")
def _enable_grad(m, args, kwargs):
    c = grad_ctx(m, True)
    if args and isinstance(args[0], (FuncV, Native)):
        return m.i.ctx_wrap(c, args[0])
    return c


@ext("torch.set_grad_enabled", "torch.autograd.set_grad_enabled")
def _sge(m, args, kwargs):
    v = m.i.truth(args[0] if args else kwargs["mode"])
    prev = m.p.grad_mode
    m.p.grad_mode = v
    ev = m.p.event("grad-mode", value=v)

    def enter():
        ev["scoped"] = True
        return None

    def exit_(e=None):
        m.p.grad_mode = prev
        return False

    return CtxV(enter, exit_)


@ext("torch.is_grad_enabled")
def _ige(m, args, kwargs):
    if not m.p.grad_mode:
        return False
    g = m.p.data.get("user_grad")
    return True if g is None else m.i.truth(g)


EXTFN["torch.is_inference_mode_enabled"] = lambda m, a, k: False
EXTFN["torch.is_autocast_enabled"] = lambda m, a, k: m.p.cond("autocast")


@ext("torch.autocast", "torch.cuda.amp.autocast", "torch.amp.autocast", "torch.profiler.record_function",
     "torch.autograd.profiler.record_function", "torch.cuda.nvtx.range")
def _nullctx(m, args, kwargs):
    return CtxV(lambda: None, lambda e=None: False)


@ext("torch._assert")
def _tassert(m, args, kwargs):
    if not m.i.truth(args[0]):
        m.i.throw("AssertionError", *args[1:])


@ext("torch.jit.script", "torch.jit.ignore", "torch.compile", "torch.jit.export", "torch._dynamo.disable")
def _identity(m, args, kwargs):
    return args[0] if args else Native("identity", lambda i, a, k: a[0])


# ------------------------------------------------------------------ distributed
def _dist_init(m, a, k):
    v = m.p.data.get("dist")
    if v is None:
        return False
    return m.i.truth(v)


EXTFN["torch.distributed.is_initialized"] = _dist_init
EXTFN["torch.distributed.is_available"] = lambda m, a, k: True
EXTFN["torch.distributed.get_rank"] = lambda m, a, k: NumV(sc(Sc.atom("rank")), "int")
EXTFN["torch.distributed.is_nccl_available"] = lambda m, a, k: m.p.cond("nccl available")


@ext("torch.distributed.get_backend")
def _backend(m, a, k):
    return "gloo" if m.p.cond("backend is gloo") else "nccl"


@ext("torch.distributed.get_world_size")
def _world(m, a, k):
    m.p.bd.set("W", lo=1)
    return NumV(Sc.atom("W"), "int")


def is_local(m, name):
    return bool(m.p.data.get("dist")) and not name.startswith("AVG") and bool(LOCAL.search(name))


LOCAL = re.compile(r"(?<![A-Za-z_0-9])(?:[XYgG]\d+\.|found_inf)")


def avg_value(m, v):
    """Cross-device average of a tensor value (termwise linear)."""
    v = v.norm(m.bd) if v.shape else v
    out = []
    for x in v.terms:
        coef_local = any(is_local(m, a) for a in x.coef.deep_atoms())
        loc = [f for f in x.facs if is_local(m, f.name)]
        if not coef_local and not loc:
            out.append(x)
        elif not coef_local and len(loc) == 1:
            out.append(Term(x.coef, [Fac(f"AVG({f.name})", f.args) if f is loc[0] else f for f in x.facs], x.pfacs, x.vars, x.eqs))
        elif not loc and coef_local:
            y = Ten(v.shape, [x])
            out.extend(Ten.atom(f"AVG<{y.key(m.bd)}>", v.shape).terms)
        else:
            y = Ten(v.shape, [x])
            out.extend(Ten.atom(f"AVG<{y.key(m.bd)}>", v.shape).terms)
    return Ten(v.shape, out)


def reduce_op(m, o):
    o = m.i.force(o)
    if isinstance(o, Ext):
        return o.path.split(".")[-1]
    m.i.abort(f"reduce op {o!r}")


def race(m, st):
    """A storage with an all-reduce in flight must not be touched before the handle was waited for."""
    if st.pending is not None and not st.pending.get("waited"):
        m.p.event("race", root=st.root, op=st.pending["op"])
        st.pending = None


def coll_value(m, v, opn, inplace_of=None):
    if opn == "AVG":
        return avg_value(m, v)
    if opn == "SUM":
        m.p.bd.set("W", lo=1)
        return avg_value(m, v).scale(Sc.atom("W"))
    return Ten.atom(f"{opn}<{v.key(m.bd)}>", v.shape)


@ext("torch.distributed.all_reduce")
def _all_reduce(m, args, kwargs):
    kw = dict(kwargs)
    t = args[0] if args else kw.pop("tensor")
    o = args[1] if len(args) > 1 else kw.pop("op", Ext("torch.distributed.ReduceOp.SUM"))
    group = args[2] if len(args) > 2 else kw.pop("group", None)
    asy = args[3] if len(args) > 3 else kw.pop("async_op", False)
    chk(m, t)
    opn = reduce_op(m, o)
    contig = m.is_contig(t) if m.contig_mode == "explore" else None
    if contig is False:
        # torch.distributed requires contiguous tensors
        m.p.event("coll-noncontig", tensor=t)
    ev = m.p.event("coll", op=opn, what="all_reduce", tensor=t, root=t.st.root, label=t.label, before=m.val(t),
                   dtype=t.dtype, async_=m.i.truth(asy), group=group, in_graph=m.p.grad_mode, st=t.st)
    v = coll_value(m, m.val(t), opn)
    m.write(t, v, "all_reduce")
    if ev["async_"]:
        ev["waited"] = False
        t.st.pending = ev
        return work(m, ev, t)
    return None


def work(m, ev, t):
        w = Obj(ClassV("Work", list(m.i.modules.values())[0], None, []))
        w.attrs["wait"] = Native("wait", lambda i, a, k: ev.__setitem__("waited", True))
        w.attrs["is_completed"] = Native("is_completed", lambda i, a, k: True)
        w.attrs["get_future"] = Native("get_future", lambda i, a, k: w)
        w.attrs["result"] = Native("result", lambda i, a, k: [t])
        w.attrs["event"] = ev
        return w


@ext("torch.distributed.barrier")
def _barrier(m, a, k):
    m.p.event("coll", op="BARRIER", what="barrier", tensor=None, root=None, label=None, before=None, async_=False, st=None,
              in_graph=False, group=None, dtype=None)


@ext("torch.distributed.broadcast", "torch.distributed.all_gather", "torch.distributed.reduce", "torch.distributed.reduce_scatter",
     "torch.distributed.all_gather_into_tensor", "torch.distributed.all_gather_object", "torch.distributed.gather")
def _othercoll(m, a, k):
    m.i.abort("collective other than all_reduce")
