"""Scenarios and rules for the structured-matrix classes."""
import re

from .interp import Interp
from .path import Abort, Infeasible
from .sym import ONE, Sc, ZERO, sc, sym
from .ten import Ten, Term, slot
from .torchmodel import TorchModel
from .values import *  # noqa
from .values import TensorV, Obj, ClassV, Storage, NumV, DType, Device, Ext, PyRaise

F32 = DType("float32")
CPU = Device("cpu")


# ------------------------------------------------------------------ specification
def m_rel(M, d, eqf, aux):
    """Entries of M selected by index equations (a mask)."""
    return M.rel([d, d], lambda i, o, a: [o[0] - i[0], o[1] - i[1]] + eqf(i[0], i[1], a), aux)


def diag_part(M, d):
    return m_rel(M, d, lambda r, c, a: [r - c], {})


def block(M, d, r0, rl, c0, cl):
    return m_rel(M, d, lambda r, c, a: [r - r0 - a["u"], c - c0 - a["v"]], {"u": rl, "v": cl})


def spec_dense(c):
    c.proj = lambda M: M
    c.mask = lambda M: M


def spec_diagonal(c):
    c.proj = c.mask = lambda M: diag_part(M, c.d)


def spec_block(c):
    B, nb, l, d = c.B, c.nb, c.l, c.d

    def f(M):
        x = m_rel(M, d, lambda r, k, a: [r - B * a["b"] - a["u"], k - B * a["b"] - a["v"]], {"b": nb, "u": B, "v": B})
        return x + block(M, d, nb * B, l, nb * B, l)

    c.proj = c.mask = f


def spec_hier(c):
    d = c.d
    k1, m, k2 = c.k1, c.m, c.k2

    def mask(M, w=1):
        x = block(M, d, 0, k1, 0, k1) + block(M, d, 0, k1, k1, m + k2).scale(w)
        x = x + m_rel(M, d, lambda r, k, a: [r - k, r - k1 - a["u"]], {"u": m})
        x = x + block(M, d, k1 + m, k2, k1, m).scale(w) + block(M, d, k1 + m, k2, k1 + m, k2)
        return x

    c.mask = mask
    c.proj = lambda M: mask(M, 2)


def spec_toep(c):
    d = c.d

    def col(M, lower=True):
        """sum over sub-diagonal k of M (k-th entry)."""
        return M.rel([d], lambda i, o, a: [i[0] - i[1] - o[0]] if lower else [i[1] - i[0] - o[0]])

    def spread(v):
        if c.lower:
            return v.rel([d, d], lambda i, o, a: [o[0] - o[1] - i[0]])
        return v.rel([d, d], lambda i, o, a: [o[1] - o[0] - i[0]])

    def recip(v):
        return v.mul(Ten([d], [Term(ONE, (), [_pf(d)])]))

    def proj(M):
        lo, up = col(M, True), col(M, False)
        tr = lo.rel([d], lambda i, o, a: [i[0], o[0]])
        return spread(recip(lo + up - tr))

    def mask(M):
        lo = col(M, c.lower)
        return spread(recip(lo))

    c.proj, c.mask = proj, mask


def _pf(d):
    from .ten import PFac

    return PFac(sc(d) - Sc.atom(slot(0)), -1)


def part_of(M, d, s, n, kind, w, cuts):
    if sc(n).is_zero():
        return Ten(M.shape)
    if kind == "diag":
        return m_rel(M, d, lambda r, k, a: [r - k, r - s - a["u"]], {"u": n})
    if kind == "dense":
        return block(M, d, s, n, s, n)
    _, upper, kA, kC, side, size = kind
    a_ = cuts[0]
    x = part_of(M, d, s, a_, kA, w, cuts[1:]) + part_of(M, d, s + a_, n - a_, kC, w, cuts[1:])
    if sc(a_).is_zero() or (n - a_).is_zero():
        return x
    if upper:
        return x + block(M, d, s, a_, s + a_, n - a_).scale(w)
    return x + block(M, d, s + a_, n - a_, s, a_).scale(w)


def spec_rec(c):
    d, fam, cuts_ = c.d, c.fam, c.cuts

    def mask(M, w=1):
        return part_of(M, d, ZERO, d, fam, w, cuts_)

    c.mask = mask
    c.proj = lambda M: mask(M, 2)


class Case:
    pass


def _int(i, s):
    return i.mknum(sc(s), "int")


def setup_dims(i, fam):
    """Declare the symbolic dimension(s) and the documented projection."""
    bd = i.path.bd
    c = Case()
    i.path.data["case"] = c
    kind = fam[0]

    def D(n, lo=0, hi=None):
        s = sym(n, True)
        bd.set(n, lo, hi)
        return s

    if kind == "block":
        c.B = sc(fam[1])
        c.nb, c.l = D("nb", 0), D("l", 0, fam[1] - 1)
        c.d = c.nb * c.B + c.l
        k = i.path.decide("blocks:0+last,all,blocks", 3) if fam[1] > 1 else 1
        if k == 0:  # both
            bd.set("nb", 1)
            bd.set("l", 1)
        elif k == 1:
            i.path.eq["l"] = ZERO
            bd.set("l", 0, 0)
            bd.set("nb", 1)
            c.l = ZERO
            c.d = c.nb * c.B
        else:
            i.path.eq["nb"] = ZERO
            bd.set("nb", 0, 0)
            bd.set("l", 1)
            c.nb = ZERO
            c.d = c.l
        if k != 1 and fam[1] == 2:
            i.path.eq["l"] = c.l = ONE
            c.d = c.nb * c.B + c.l
        c.cut = [(ZERO, c.nb, c.B), (c.nb * c.B, c.l, None)]
        spec_block(c)
    elif kind == "hier":
        k1, k2 = fam[1], fam[2]
        k = i.path.decide("hier:diag,no diag,only K1", 3)
        if k == 0:
            c.k1, c.k2, c.m = sc(k1), sc(k2), D("m", 1)
        elif k == 1:
            c.k1, c.k2, c.m = sc(k1), D("k2", 1, k2) if k2 > 1 else ONE, ZERO
        else:
            c.k1, c.k2, c.m = D("k1", 1, k1) if k1 > 1 else ONE, ZERO, ZERO
        c.d = c.k1 + c.k2 + c.m
        c.cut = [(ZERO, c.k1, None), (c.k1, c.m, None), (c.k1 + c.m, c.k2, None)]
        spec_hier(c)
    elif kind == "toep":
        c.d = D("d", 1)
        c.lower = fam[1]
        c.tri = True
        spec_toep(c)
    elif kind == "rec":
        # ("rec", upper, kindA, kindC, bounded side "A"/"C", its largest dimension)
        c.d = D("d", 1)
        c.fam = fam
        c.cuts, c.cut = [], []
        s0, n, f = ZERO, c.d, fam
        while True:
            _, upper, kA, kC, side, size = f
            # is the dimension of this (sub-)matrix larger than the bounded block?
            big = i.truth(i.compare("Gt", _int(i, n), size)) if not sc(n).is_zero() else False
            n = i.path.simp(n)
            a_ = (sc(size) if side == "A" else n - size) if big else (n if side == "A" else ZERO)
            c.cuts.append(a_)
            c.cut.append((s0, a_, None))
            s0, n = s0 + a_, i.path.simp(n - a_)
            if not isinstance(kC, tuple):
                c.cut.append((s0, n, None))
                break
            f = kC
        c.d = i.path.simp(c.d)
        spec_rec(c)
    elif kind == "diag":
        c.d = D("d", 1)
        spec_diagonal(c)
    else:
        c.d = D("d", 1)
        spec_dense(c)
    return c


FAMILIES = {
    "DenseMatrix": ("dense",),
    "DiagonalMatrix": ("diag",),
    "Block30DiagonalMatrix": ("block", 30),
    "Block3DiagonalMatrix": ("block", 3),
    "Hierarchical15_15Matrix": ("hier", 15, 15),
    "Hierarchical3_2Matrix": ("hier", 3, 2),
    "TrilToeplitzMatrix": ("toep", True),
    "TriuToeplitzMatrix": ("toep", False),
    "TrilBottomRightDiagonalMatrix": ("rec", False, "dense", "diag", "A", 1),
    "TrilTopLeftDiagonalMatrix": ("rec", False, "diag", "dense", "C", 1),
    "TriuBottomRightDiagonalMatrix": ("rec", True, "dense", "diag", "A", 1),
    "TriuTopLeftDiagonalMatrix": ("rec", True, "diag", "dense", "C", 1),
}


# classes that a user defines from the public templates
USER = '''
from singd.structures.base import StructuredMatrix
from singd.structures.blockdiagonal import BlockDiagonalMatrixTemplate
from singd.structures.dense import DenseMatrix
from singd.structures.diagonal import DiagonalMatrix
from singd.structures.hierarchical import HierarchicalMatrixTemplate
from singd.structures.recursive import RecursiveBottomLeftMatrixTemplate, RecursiveTopRightMatrixTemplate


class UserBlock2Matrix(BlockDiagonalMatrixTemplate):
    BLOCK_DIM = 2


class UserBlock1Matrix(BlockDiagonalMatrixTemplate):
    BLOCK_DIM = 1


class UserHierarchical1_4Matrix(HierarchicalMatrixTemplate):
    MAX_K1 = 1
    MAX_K2 = 4


class UserTopRight3Matrix(RecursiveTopRightMatrixTemplate):
    MAX_DIMS = (3, float("inf"))
    CLS_A = DenseMatrix
    CLS_C = DiagonalMatrix


class UserBottomLeft4Matrix(RecursiveBottomLeftMatrixTemplate):
    MAX_DIMS = (float("inf"), 4)
    CLS_A = DiagonalMatrix
    CLS_C = DenseMatrix


class UserInnerMatrix(RecursiveTopRightMatrixTemplate):
    MAX_DIMS = (float("inf"), 2)
    CLS_A = DiagonalMatrix
    CLS_C = DenseMatrix


class UserNestedMatrix(RecursiveTopRightMatrixTemplate):
    MAX_DIMS = (2, float("inf"))
    CLS_A = DenseMatrix
    CLS_C = UserInnerMatrix


class UserMinimalMatrix(StructuredMatrix):
    """Implements only what is required."""

    def __init__(self, mat):
        super().__init__()
        self.register_tensor(mat, "mat")

    @classmethod
    def from_dense(cls, sym_mat):
        return cls(sym_mat.clone())

    def to_dense(self):
        return self.mat


class UserQuietMatrix(UserMinimalMatrix):
    WARN_NAIVE = False


class UserExceptMatrix(UserMinimalMatrix):
    WARN_NAIVE_EXCEPTIONS = {"rmatmat", "__add__", "eye"}
'''
NAIVE = {"matmul_structured": "__matmul__", "matmul_matrix": "__matmul__", "rmatmat": "rmatmat", "from_inner": "from_inner",
         "from_inner_X": "from_inner", "from_mat_inner": "from_mat_inner", "from_inner2": "from_inner2", "add": "__add__", "mul": "__mul__",
         "diag_add_": "diag_add_", "average_trace": "average_trace", "frobenius_norm": "frobenius_norm", "zeros": "zeros", "eye": "eye"}
for _n in sorted(set(NAIVE.values())):  # one class that excepts only this operation, one that excepts all others
    USER += f'''

class UserOnly_{_n.strip("_")}_Matrix(UserMinimalMatrix):
    WARN_NAIVE_EXCEPTIONS = {{"{_n}"}}


class UserAllBut_{_n.strip("_")}_Matrix(UserMinimalMatrix):
    WARN_NAIVE_EXCEPTIONS = {sorted(set(NAIVE.values()) - {_n})!r}
'''
CLIENTS = {"singd.user_classes__": ("user/classes.py", USER)}
USER_FAMILIES = {
    "UserBlock2Matrix": ("block", 2),
    "UserBlock1Matrix": ("block", 1),
    "UserHierarchical1_4Matrix": ("hier", 1, 4),
    "UserTopRight3Matrix": ("rec", True, "dense", "diag", "A", 3),
    "UserBottomLeft4Matrix": ("rec", False, "diag", "dense", "C", 4),
    "UserNestedMatrix": ("rec", True, "dense", ("rec", True, "diag", "dense", "C", 2), "A", 2),
    "UserMinimalMatrix": ("dense",),
}
PROBES = ("UserMinimalMatrix", "UserQuietMatrix", "UserExceptMatrix")


def find_class(i, name):
    """Locate the class in the package by its public name."""
    for mod in sorted(i.src.mods):
        if mod.startswith("singd.user_classes__" if name.startswith("User") else "singd.structures"):
            m = i.resolve_import(mod)
            c = m.env.get(name)
            if isinstance(c, ClassV):
                return c
    raise Abort(f"structured matrix class {name} not found in singd.structures")


def reach(o, seen=None, prefix=""):
    """All tensors reachable from the instance's attributes: [(holder, key, tensor, path)]."""
    seen = seen if seen is not None else set()
    out = []
    if id(o) in seen:
        return out
    seen.add(id(o))
    items = []
    if isinstance(o, Obj):
        items = [(k, o.attrs[k]) for k in o.attrs]
        hold = o.attrs
    elif isinstance(o, dict):
        items = list(o.items())
        hold = o
    elif isinstance(o, list):
        items = list(enumerate(o))
        hold = o
    else:
        return out
    for k, v in items:
        if isinstance(v, TensorV):
            out.append((hold, k, v, f"{prefix}{k}"))
        elif isinstance(v, (Obj, dict, list)):
            out += reach(v, seen, f"{prefix}{k}.")
    return out


def atomise(i, o, name):
    """Replace every tensor held by the instance by an unconstrained one."""
    done = {}
    for hold, k, t, p in reach(o):
        if id(t) in done:
            hold[k] = done[id(t)]
            continue
        n = new_tensor(i, f"{name}.{p}", t.shape, t.dtype, t.device)
        done[id(t)] = n
        hold[k] = n
    return o


def env(i):
    """Data type and device of the operands."""
    return i.path.data.get("env", (F32, CPU))


def new_tensor(i, name, shape, dtype=None, device=None, root=None):
    dtype, device = dtype or env(i)[0], device or env(i)[1]
    t = i.model.new(Ten.atom(name, [sc(s) for s in shape]), dtype, device, root=root or name)
    t.label = name
    return t


def make(i, cls, c, name, dtype=None, device=None):
    dtype, device = dtype or env(i)[0], device or env(i)[1]
    n0 = len(i.path.events)
    o = i.call(i.getattr(cls, "zeros"), [_int(i, c.d)], {"dtype": dtype, "device": device})
    atomise(i, o, name)
    del i.path.events[n0:]
    return o


def dense(i, o, mode="oracle"):
    n0 = len(i.path.events)
    t = i.call_method(o, "to_dense", [])
    if not isinstance(t, TensorV):
        raise Abort(f"to_dense returned {t!r}")
    del i.path.events[n0:]
    return i.model.val(t)


def snapshot(*objs):
    out = []
    for o in objs:
        if isinstance(o, TensorV):
            out.append((o.st, o.st.val, o.label))
        else:
            for _, _, t, p in reach(o):
                out.append((t.st, t.st.val, f"{o.label}.{p}"))
    return out


def check_eq(i, rule, got, want, msg, fn=None):
    p = i.path
    got, want = p.simp_ten(got), p.simp_ten(want)
    want = Ten([p.simp(s) for s in want.shape], want.terms)
    got = Ten([p.simp(s) for s in got.shape], got.terms)
    if not want.shape and not got.shape:
        want, got = i.model.scalarise(want), i.model.scalarise(got)
    ok = True
    for g, w in regions(i, got, want):
        if not g.equals(w, p.bd):
            got, want, ok = g.norm(p.bd), w.norm(p.bd), False
            break
    if not ok:
        msg = f"{msg}: result {got.show(p.bd, 300)} but must be {want.show(p.bd, 300)}"
    p.oblige(rule, ok, msg, site=fn)
    return ok


def cuts(c, t, k):
    """Partition of dimension k of t by the structure's boundaries."""
    if not (t.shape[k] == c.d) or not getattr(c, "cut", None):
        return [lambda x: x]
    out = []
    for start, ln, blk in c.cut:
        if sc(ln).is_zero():
            continue
        if blk is None:
            out.append(lambda x, s=start, n=ln: x.slice(k, s, n))
        else:
            out.append(lambda x, s=start, n=ln, b=blk: _blk(x.slice(k, s, n * b), k, n, b))
    return out


def _blk(x, k, n, b):
    sh = list(x.shape)
    return x.reshape(sh[:k] + [n, b] + sh[k + 1:])


def regions(i, got, want):
    c = i.path.data.get("case")
    if c is None or [repr(s) for s in got.shape] != [repr(s) for s in want.shape]:
        return [(got, want)]
    out = [(got, want)]
    for k in range(len(got.shape) - 1, -1, -1):
        out = [(f(g), f(w)) for f in cuts(c, got, k) for g, w in out]
    if getattr(c, "tri", False) and len(got.shape) == 2 and got.shape[0] == c.d and got.shape[1] == c.d:
        out = [(g.mul(x), w.mul(x)) for x in tri_masks(c.d) for g, w in out]
    return out


def tri_masks(d):
    """Indicator of the strictly lower, diagonal and strictly upper part of a d x d matrix."""
    a, b = Sc.atom(slot(0)), Sc.atom(slot(1))
    return [Ten([d, d], [Term(ONE, (), (), {"%mask": d - 1}, [Sc.atom("%mask") - a + b + 1])]),
            Ten([d, d], [Term(ONE, (), (), {}, [a - b])]),
            Ten([d, d], [Term(ONE, (), (), {"%mask": d - 1}, [Sc.atom("%mask") - b + a + 1])])]


def unchanged(i, rule, snap, msg, fn=None):
    for st, val, lab in snap:
        ok = st.val is val or st.val.equals(val, i.path.bd)
        i.path.oblige(rule, ok, f"{msg}: operand tensor {lab} is modified", site=fn)


def disjoint(i, rule, res, snap, msg, fn=None):
    """Updating the result in place must neither change the operands nor couple its own entries."""
    p = i.path
    n0 = len(p.events)
    if isinstance(res, TensorV):
        old = i.model.val(res)
        i.call_method(res, "mul_", [scal(i, "w")])
        new = i.model.val(res)
    else:
        old = dense(i, res)
        seen = []
        for _, _, t, _ in reach(res):
            if not any(t is x for x in seen):
                seen.append(t)
                i.call_method(t, "mul_", [scal(i, "w")])
        new = dense(i, res)
    del p.events[n0:]
    check_eq(i, rule, new, old.scale(sym("w")), f"scaling the result of {msg} in place (memory sharing inside the result?)", fn)
    unchanged(i, rule, snap, f"updating the result of {msg} in place", fn)


def fnsite(i, cls, name):
    f, k = cls.lookup(name)
    while f is not None and not isinstance(f, FuncV):
        f = getattr(f, "fn", None)
    if f is None:
        return f"{cls.name}.{name}"
    return f"{f.module.path}:{f.node.lineno} in {f.qualname}"


def expect_cls(i, rule, o, cls, msg, fn):
    i.path.oblige(rule, isinstance(o, Obj) and o.cls.is_sub(cls), f"{msg}: result is {o!r}, not a {cls.name}", site=fn)
    typed(i, o, msg, fn)


def typed(i, x, msg, fn):
    """Results live on the operands' device and have their data type."""
    want = env(i)
    for n, t in ([("", x)] if isinstance(x, TensorV) else [(p, t) for _, _, t, p in reach(x)]):
        i.path.oblige("S07", i.path.tok_eq(t.dtype, want[0]) and i.path.tok_eq(t.device, want[1]),
                      f"{msg}: result {n} has type {t.dtype.name} on {t.device.name} but must have {want[0].name} on {want[1].name}", site=fn)


def sym_matrix(i, c, name="M"):
    M = Ten.atom(name, [c.d, c.d])
    return M + M.permute([1, 0])


def tensor_of(i, val, label):
    t = i.model.new(val, *env(i), root=label)
    t.label = label
    return t


# ------------------------------------------------------------------ operations
def op_scenario(name, op, dtype=None, device=None, **kw):
    def run(i):
        if dtype:
            i.path.data["env"] = (DType(dtype), Device(device))
        fam = FAMILIES.get(name) or USER_FAMILIES.get(name) or ("dense",)
        cls = find_class(i, name)
        c = setup_dims(i, fam)
        OPS[op](i, cls, c, op, **kw)
        return None

    return run


OPS = {}


def _o(f):
    OPS[f.__name__[3:]] = f
    return f


def _T(t):
    return t.permute([1, 0])


@_o
def op_matmul_structured(i, cls, c, op):
    fn = fnsite(i, cls, "__matmul__")
    A, B = make(i, cls, c, "A"), make(i, cls, c, "B")
    dA, dB = dense(i, A), dense(i, B)
    sn = snapshot(A, B)
    R = i.binop("MatMult", A, B)
    expect_cls(i, "S01", R, cls, "A @ B", fn)
    check_eq(i, "S01", dense(i, R), dA.matmul(dB), "A @ B", fn)
    unchanged(i, "S05", sn, "A @ B", fn)
    disjoint(i, "S05", R, sn, "A @ B", fn)


def mat(i, c, name="X"):
    m = sym("cols", True)
    i.path.bd.set("cols", 1)
    return new_tensor(i, name, [c.d, m])


@_o
def op_matmul_matrix(i, cls, c, op):
    fn = fnsite(i, cls, "__matmul__")
    A = make(i, cls, c, "A")
    X = mat(i, c)
    dA = dense(i, A)
    sn = snapshot(A, X)
    R = i.binop("MatMult", A, X)
    check_eq(i, "S01", i.model.val(R), dA.matmul(X.read()), "A @ X", fn)
    typed(i, R, "A @ X", fn)
    unchanged(i, "S05", sn, "A @ X", fn)
    disjoint(i, "S05", R, sn, "A @ X", fn)


@_o
def op_rmatmat(i, cls, c, op):
    fn = fnsite(i, cls, "rmatmat")
    A = make(i, cls, c, "A")
    X = mat(i, c)
    dA = dense(i, A)
    sn = snapshot(A, X)
    R = i.call_method(A, "rmatmat", [X])
    check_eq(i, "S02", i.model.val(R), _T(dA).matmul(X.read()), "A.rmatmat(X)", fn)
    typed(i, R, "A.rmatmat(X)", fn)
    unchanged(i, "S05", sn, "A.rmatmat(X)", fn)
    disjoint(i, "S05", R, sn, "A.rmatmat(X)", fn)


@_o
def op_from_inner(i, cls, c, op):
    fn = fnsite(i, cls, "from_inner")
    A = make(i, cls, c, "A")
    dA = dense(i, A)
    sn = snapshot(A)
    R = i.call_method(A, "from_inner", [])
    expect_cls(i, "S02", R, cls, "A.from_inner()", fn)
    check_eq(i, "S02", dense(i, R), c.proj(_T(dA).matmul(dA)), "A.from_inner()", fn)
    unchanged(i, "S05", sn, "A.from_inner()", fn)
    disjoint(i, "S05", R, sn, "A.from_inner()", fn)


@_o
def op_from_inner_X(i, cls, c, op):
    fn = fnsite(i, cls, "from_inner")
    A = make(i, cls, c, "A")
    X = mat(i, c)
    dA = dense(i, A)
    sn = snapshot(A, X)
    R = i.call_method(A, "from_inner", [], {"X": X})
    expect_cls(i, "S02", R, cls, "A.from_inner(X)", fn)
    S = _T(dA).matmul(X.read())
    check_eq(i, "S02", dense(i, R), c.proj(S.matmul(_T(S))), "A.from_inner(X)", fn)
    unchanged(i, "S05", sn, "A.from_inner(X)", fn)
    disjoint(i, "S05", R, sn, "A.from_inner(X)", fn)


@_o
def op_from_mat_inner(i, cls, c, op):
    fn = fnsite(i, cls, "from_mat_inner")
    X = mat(i, c)
    sn = snapshot(X)
    R = i.call(i.getattr(cls, "from_mat_inner"), [X])
    expect_cls(i, "S02", R, cls, "from_mat_inner(X)", fn)
    x = X.read()
    check_eq(i, "S02", dense(i, R), c.proj(x.matmul(_T(x))), "from_mat_inner(X)", fn)
    unchanged(i, "S05", sn, "from_mat_inner(X)", fn)
    disjoint(i, "S05", R, sn, "from_mat_inner(X)", fn)


@_o
def op_from_inner2(i, cls, c, op):
    fn = fnsite(i, cls, "from_inner2")
    A = make(i, cls, c, "A")
    S = tensor_of(i, sym_matrix(i, c), "S")
    dA = dense(i, A)
    sn = snapshot(A, S)
    R = i.call_method(A, "from_inner2", [S])
    expect_cls(i, "S02", R, cls, "A.from_inner2(S)", fn)
    check_eq(i, "S02", dense(i, R), c.proj(_T(dA).matmul(S.read()).matmul(dA)), "A.from_inner2(S)", fn)
    unchanged(i, "S05", sn, "A.from_inner2(S)", fn)
    disjoint(i, "S05", R, sn, "A.from_inner2(S)", fn)


@_o
def op_add(i, cls, c, op):
    fn = fnsite(i, cls, "__add__")
    A, B = make(i, cls, c, "A"), make(i, cls, c, "B")
    dA, dB = dense(i, A), dense(i, B)
    sn = snapshot(A, B)
    R = i.binop("Add", A, B)
    expect_cls(i, "S03", R, cls, "A + B", fn)
    check_eq(i, "S03", dense(i, R), dA + dB, "A + B", fn)
    unchanged(i, "S05", sn, "A + B", fn)
    disjoint(i, "S05", R, sn, "A + B", fn)


def scal(i, n="s"):
    return i.mknum(sym(n), "float")


@_o
def op_mul(i, cls, c, op):
    fn = fnsite(i, cls, "__mul__")
    A = make(i, cls, c, "A")
    dA = dense(i, A)
    sn = snapshot(A)
    R = i.binop("Mult", A, scal(i))
    expect_cls(i, "S03", R, cls, "A * s", fn)
    check_eq(i, "S03", dense(i, R), dA.scale(sym("s")), "A * s", fn)
    unchanged(i, "S05", sn, "A * s", fn)
    disjoint(i, "S05", R, sn, "A * s", fn)


@_o
def op_mul_(i, cls, c, op):
    fn = fnsite(i, cls, "mul_")
    A = make(i, cls, c, "A")
    dA = dense(i, A)
    R = i.call_method(A, "mul_", [scal(i)])
    i.path.oblige("S05", R is A, "A.mul_(s) does not return the updated object itself", site=fn)
    check_eq(i, "S03", dense(i, A), dA.scale(sym("s")), "A.mul_(s)", fn)
    typed(i, A, "A.mul_(s)", fn)


@_o
def op_add_(i, cls, c, op):
    fn = fnsite(i, cls, "add_")
    A, B = make(i, cls, c, "A"), make(i, cls, c, "B")
    dA, dB = dense(i, A), dense(i, B)
    sn = snapshot(B)
    if i.path.decide("alpha given", 2) == 0:
        R = i.call_method(A, "add_", [B], {"alpha": scal(i)})
        s = sym("s")
    else:
        R = i.call_method(A, "add_", [B])
        s = ONE
    i.path.oblige("S05", R is A, "A.add_(B) does not return the updated object itself", site=fn)
    check_eq(i, "S03", dense(i, A), dA + dB.scale(s), "A.add_(B, alpha)", fn)
    typed(i, A, "A.add_(B)", fn)
    unchanged(i, "S05", sn, "A.add_(B)", fn)
    disjoint(i, "S05", A, sn, "A.add_(B)", fn)


@_o
def op_diag_add_(i, cls, c, op):
    fn = fnsite(i, cls, "diag_add_")
    A = make(i, cls, c, "A")
    dA = dense(i, A)
    R = i.call_method(A, "diag_add_", [scal(i)])
    i.path.oblige("S05", R is A, "A.diag_add_(s) does not return the updated object itself", site=fn)
    I = Ten.full([c.d], ONE).embed_diag()
    check_eq(i, "S03", dense(i, A), dA + I.scale(sym("s")), "A.diag_add_(s)", fn)
    typed(i, A, "A.diag_add_(s)", fn)


@_o
def op_average_trace(i, cls, c, op):
    fn = fnsite(i, cls, "average_trace")
    A = make(i, cls, c, "A")
    dA = dense(i, A)
    sn = snapshot(A)
    R = i.call_method(A, "average_trace", [])
    want = dA.diagonal().sum([0]).scale(ONE / c.d)
    got = i.model.val(R) if isinstance(R, TensorV) else Ten.full([], i.num(R))
    check_eq(i, "S03", got, want, "A.average_trace()", fn)
    typed(i, R, "A.average_trace()", fn) if isinstance(R, TensorV) else None
    unchanged(i, "S05", sn, "A.average_trace()", fn)


@_o
def op_infinity_vector_norm(i, cls, c, op):
    from . import torchops

    fn = fnsite(i, cls, "infinity_vector_norm")
    A = make(i, cls, c, "A")
    n0 = len(i.path.events)
    d = i.call_method(A, "to_dense", [])
    del i.path.events[n0:]
    sn = snapshot(A)
    R = i.call_method(A, "infinity_vector_norm", [])
    got, want = i.path.simp(i.model.sc_of(R)), i.path.simp(torchops.maxabs(i.model, i.model.val(d)))
    if got != want:
        parts = ZERO
        for r, _ in regions(i, i.model.val(d), i.model.val(d)):
            x = torchops.maxabs(i.model, r)
            parts = x if parts.is_zero() else parts if x.is_zero() or x == parts else i.model.maxsc(parts, x, "max")
        parts = i.path.simp(parts)
        if got == parts:
            want = parts
    i.path.oblige("S03", got == want, f"A.infinity_vector_norm() is {got!r}, must be {want!r}", site=fn)
    unchanged(i, "S05", sn, "A.infinity_vector_norm()", fn)


@_o
def op_frobenius_norm(i, cls, c, op):
    fn = fnsite(i, cls, "frobenius_norm")
    A = make(i, cls, c, "A")
    dA = dense(i, A)
    sn = snapshot(A)
    R = i.call_method(A, "frobenius_norm", [])
    got = i.model.val(i.binop("Mult", R, R))
    want = dA.mul(dA).sum([0, 1])
    check_eq(i, "S03", got, want, "A.frobenius_norm() squared", fn)
    unchanged(i, "S05", sn, "A.frobenius_norm()", fn)


@_o
def op_zeros(i, cls, c, op):
    fn = fnsite(i, cls, "zeros")
    R = i.call(i.getattr(cls, "zeros"), [_int(i, c.d)], dict(zip(("dtype", "device"), env(i))))
    expect_cls(i, "S04", R, cls, "zeros(d)", fn)
    check_eq(i, "S04", dense(i, R), Ten.full([c.d, c.d], 0), "zeros(d)", fn)
    disjoint(i, "S05", R, [], "zeros(d)", fn)


@_o
def op_eye(i, cls, c, op):
    fn = fnsite(i, cls, "eye")
    R = i.call(i.getattr(cls, "eye"), [_int(i, c.d)], dict(zip(("dtype", "device"), env(i))))
    expect_cls(i, "S04", R, cls, "eye(d)", fn)
    check_eq(i, "S04", dense(i, R), Ten.full([c.d], ONE).embed_diag(), "eye(d)", fn)
    disjoint(i, "S05", R, [], "eye(d)", fn)


@_o
def op_from_dense(i, cls, c, op):
    fn = fnsite(i, cls, "from_dense")
    S = tensor_of(i, sym_matrix(i, c), "S")
    sn = snapshot(S)
    R = i.call(i.getattr(cls, "from_dense"), [S])
    expect_cls(i, "S04", R, cls, "from_dense(S)", fn)
    check_eq(i, "S04", dense(i, R), c.proj(S.read()), "from_dense(S).to_dense()", fn)
    unchanged(i, "S05", sn, "from_dense(S)", fn)


@_o
def op_to_dense(i, cls, c, op):
    fn = fnsite(i, cls, "to_dense")
    A = make(i, cls, c, "A")
    sn = snapshot(A)
    d = i.call_method(A, "to_dense", [])
    v = i.model.val(d)
    check_eq(i, "S04", c.mask(v), v, "to_dense() must have the documented sparsity pattern", fn)
    unchanged(i, "S05", sn, "to_dense()", fn)
    typed(i, d, "to_dense()", fn)


# ------------------------------------------------------------------ stored tensors, all-reduce
EXTRA = {}


def _x(f):
    EXTRA[f.__name__[3:]] = f
    return f


def listed(i, o):
    """The (name, tensor) pairs reported by the instance."""
    out = []
    for p in i.iterate(i.call_method(o, "named_tensors", [])):
        p = i.iterate(p)
        out.append((p[0], p[1]))
    return out


@_x
def op_named(i, cls, c, op):
    """The registered tensors are exactly those that make up the matrix."""
    fn = fnsite(i, cls, "named_tensors")
    p = i.path
    A = make(i, cls, c, "A")
    ts = listed(i, A)
    names = [n for n, _ in ts]
    p.oblige("S06", len({repr(n) for n in names}) == len(names), f"tensor names are not unique: {names}", site=fn)
    p.oblige("S06", len({t.st.id for _, t in ts}) == len(ts), "the same memory is listed twice", site=fn)
    held = reach(A)
    for n, t in ts:
        p.oblige("S06", any(t is x for _, _, x, _ in held), f"listed tensor {n} is not the stored one", site=fn)
    for k, (n, t) in enumerate(ts):
        t.st.val = Ten.atom(f"N{k}", [sc(x) for x in t.shape])
        t.st.writes += 1
    val = dense(i, A).norm(p.bd)
    old = {f.name for x in val.terms for f in x.facs if not f.name.startswith("N")}
    p.oblige("S06", not old, f"tensors {sorted(old)} make up the matrix but are not listed", site=fn)


def documented_parts(c):
    """Shapes of the parts of the documented partition."""
    if hasattr(c, "nb"):
        return [[c.nb, c.B, c.B], [c.l, c.l]]
    if hasattr(c, "k1"):
        return [[c.k1, c.k1], [c.k1, c.m + c.k2], [c.m], [c.k2, c.m], [c.k2, c.k2]]
    out, n, f, cuts_ = [], sc(c.d), c.fam, c.cuts

    def leaf(kind, m):
        return [m] if kind == "diag" else [m, m]

    for a_ in cuts_:
        _, upper, kA, kC, _, _ = f
        rest = n - a_
        out += [leaf(kA, a_), [a_, rest] if upper else [rest, a_]]
        if not isinstance(kC, tuple):
            out.append(leaf(kC, rest))
        n, f = rest, kC
    return out


@_x
def op_partition(i, cls, c, op, how="zeros"):
    """zeros(d), eye(d) and from_dense build the documented parts."""
    fn = fnsite(i, cls, how)
    a = tensor_of(i, sym_matrix(i, c), "M") if how == "from_dense" else _int(i, c.d)
    R = i.call(i.getattr(cls, how), [a])
    p = i.path

    def key(shape):
        return tuple(repr(p.simp(sc(x))) for x in shape)

    def full(shapes):
        return sorted(key(s) for s in shapes if not any(p.simp(sc(x)).is_zero() for x in s))

    got, want = full([t.shape for _, t in listed(i, R)]), full(documented_parts(c))
    p.oblige("S08", got == want, f"{how} of dimension {p.simp(sc(c.d))!r} has parts of shape {got}, documented are {want}", site=fn)


@_x
def op_all_reduce(i, cls, c, op, red="default", asy=False, contig=False):
    """All-reducing the matrix reduces every entry, in place, on every stored tensor."""
    from . import torchops

    fn = fnsite(i, cls, "all_reduce")
    p = i.path
    p.data["dist"] = True
    A = make(i, cls, c, "X1")
    i.model.contig_mode = "explore" if contig else "pin"
    if contig:
        for _, _, t, _ in reach(A):
            t.contig = None
    before = dense(i, A)
    want = torchops.coll_value(i.model, before, "AVG" if red == "default" else red)
    n0 = len(p.events)
    kw = {} if red == "default" else {"op": Ext("torch.distributed.ReduceOp." + red)}
    grp = Ext("user.group") if asy or red != "default" else None
    if grp is not None:
        kw["group"] = grp
    if asy:
        kw["async_op"] = True
    R = i.call_method(A, "all_reduce", [], kw)
    ev = [e for e in p.events[n0:] if e["kind"] == "coll"]
    if asy:
        p.oblige("S06", R is not None and all(e["async_"] for e in ev), "an asynchronous all-reduce must return handles and not block", site=fn)
        for h in (i.iterate(R) if isinstance(R, (list, tuple, GenList)) else [R] if R is not None else []):
            i.call_method(h, "wait", [])
        p.oblige("S06", all(e.get("waited") for e in ev), "a started all-reduce has no handle among the returned ones", site=fn)
    else:
        p.oblige("S06", R is None, f"a blocking all-reduce returns {R!r} instead of nothing", site=fn)
        p.oblige("S06", all(not e["async_"] or e.get("waited") for e in ev), "a blocking all-reduce returns before it is finished", site=fn)
    for e in ev:
        p.oblige("S06", e["op"] == ("AVG" if red == "default" else red), f"reduces with {e['op']}", site=e["site"])
        p.oblige("S06", (e["group"] is grp or e["group"] == grp), f"ignores the process group ({e['group']!r})", site=e["site"])
    for e in p.events[n0:]:
        if e["kind"] == "coll-noncontig":
            p.oblige("S06", False, "passes a non-contiguous tensor to the all-reduce", site=e["site"])
        elif e["kind"] == "race":
            p.oblige("S06", False, "uses a tensor while it is being reduced", site=e["site"])
    check_eq(i, "S06", dense(i, A), want, f"matrix after all_reduce({red}, async={asy})", fn)


# ------------------------------------------------------------------ validation
def attempt(i, f):
    try:
        return "ok", f()
    except PyRaise as e:
        names = {repr(e.exc).split("(")[0], str(getattr(e.exc, "name", ""))}
        k = getattr(e.exc, "cls", None)
        if k is not None:
            names.add(getattr(k, "name", getattr(k, "path", "")).split(".")[-1])
        return "raise", names


def free(i, n, lo=0):
    s = sym(n, True)
    i.path.bd.set(n, lo)
    return s


def holds(i, *conds):
    """Whether all (a == b / a <= b) hold; further partitions where that is still open."""
    for o, a, b in conds:
        if not i.truth(i.compare(o, _int(i, a), _int(i, b))):
            return False
    return True


def valid_iff(i, rule, r, ok, what, fn):
    res, e = r
    if ok:
        i.path.oblige(rule, res == "ok", f"{what} is rejected with {e}" if res != "ok" else f"{what} is accepted", site=fn)
    else:
        i.path.oblige(rule, res == "raise" and "ValueError" in e,
                      f"{what} is {'accepted' if res == 'ok' else 'rejected with ' + str(sorted(map(str, e)))} but must be rejected with ValueError", site=fn)


def S_validate(i, name, case):
    """Construction from parts accepts exactly the documented shapes."""
    cls = find_class(i, name)
    fam = FAMILIES.get(name) or USER_FAMILIES[name]
    fn = fnsite(i, cls, "__init__")

    def T(n, *shape):
        return new_tensor(i, n, list(shape))

    def new(*a):
        return attempt(i, lambda: i.call(cls, list(a)))

    if fam[0] == "block":
        B = sc(fam[1])
        if case == "ndim":
            n = free(i, "n")
            for nd in (1, 2, 4):
                valid_iff(i, "S08", new(T("b", *[n, B, B, B][:nd]), T("l", ONE, ONE)), False, f"blocks with {nd} dimensions", fn)
            for nd in (1, 3):
                valid_iff(i, "S08", new(T("b", n, B, B), T("l", *[ONE] * nd)), False, f"a last block with {nd} dimensions", fn)
        elif case == "blocks":
            r, c_ = free(i, "r"), free(i, "c")
            res = new(T("b", free(i, "n"), r, c_), T("l", ZERO, ZERO))
            valid_iff(i, "S08", res, holds(i, ("Eq", r, B), ("Eq", c_, B)), "the shape of the diagonal blocks", fn)
        else:
            p_, q = free(i, "p"), free(i, "q")
            res = new(T("b", free(i, "n"), B, B), T("l", p_, q))
            valid_iff(i, "S08", res, holds(i, ("Eq", p_, q), ("Lt", p_, B)), "the shape of the last block", fn)
    elif fam[0] == "hier":
        K1, K2 = sc(fam[1]), sc(fam[2])
        k1, m, k2 = free(i, "k1"), free(i, "m"), free(i, "k2")
        shapes = {"A": [k1, k1], "B": [k1, m + k2], "C": [m], "D": [k2, m], "E": [k2, k2]}
        conds = [("LtE", k1, K1), ("LtE", k2, K2)]
        if case == "ndim":
            i.path.bd.set("k1", 0, fam[1])
            i.path.bd.set("k2", 0, fam[2])
            for n in shapes:
                for sh in (shapes[n] + [ONE], shapes[n][1:]):
                    s2 = dict(shapes)
                    s2[n] = sh
                    if n == "C" and not sh:
                        continue
                    valid_iff(i, "S08", new(*[T(x, *s2[x]) for x in "ABCDE"]), False, f"part {n} with {len(sh)} dimensions", fn)
            return
        if case != "dims":
            # one part of arbitrary shape
            i.path.bd.set("k1", 0, fam[1])
            i.path.bd.set("k2", 0, fam[2])
            x, y = free(i, "x"), free(i, "y")
            shapes[case] = [x, y]
            conds = {"A": [("Eq", x, y), ("Eq", x, k1)], "B": [("Eq", x, k1), ("Eq", y, m + k2)],
                     "D": [("Eq", x, k2), ("Eq", y, m)], "E": [("Eq", x, y), ("Eq", x, k2)]}[case]
        valid_iff(i, "S08", new(*[T(x, *shapes[x]) for x in "ABCDE"]), holds(i, *conds), f"parts of shape {shapes}" if case == "dims" else f"the shape of part {case}", fn)
    elif fam[0] == "rec":
        _, upper, kA, kC, side, size = fam
        a, b = free(i, "a"), free(i, "b")

        def sub(k, n, d):
            return make(i, i.force(i.getattr(cls, k)), _dim_case(d), n)

        if case == "size":
            x, y = (a, b) if upper else (b, a)
            res = attempt(i, lambda: i.call(cls, [sub("CLS_A", "A", a), T("B", x, y), sub("CLS_C", "C", b)]))
            valid_iff(i, "S08", res, holds(i, ("LtE", a if side == "A" else b, sc(size))), f"a bounded block of dimension {a if side == 'A' else b!r}", fn)
        elif case == "B":
            x, y = free(i, "x"), free(i, "y")
            i.path.bd.set("a" if side == "A" else "b", 0, size)
            res = attempt(i, lambda: i.call(cls, [sub("CLS_A", "A", a), T("B", x, y), sub("CLS_C", "C", b)]))
            w = (a, b) if upper else (b, a)
            valid_iff(i, "S08", res, holds(i, ("Eq", x, w[0]), ("Eq", y, w[1]), ("LtE", a if side == "A" else b, sc(size))),
                      "the shape of the rectangular block", fn)
        else:
            i.path.bd.set("a" if side == "A" else "b", 0, size)
            x, y = (a, b) if upper else (b, a)
            for flip in ("CLS_A", "CLS_C"):
                other = find_class(i, "TrilToeplitzMatrix")
                i.path.bd.set("a", 1, None if side == "C" else size)
                i.path.bd.set("b", 1, None if side == "A" else size)
                A = make(i, other, _dim_case(a), "A") if flip == "CLS_A" else sub("CLS_A", "A", a)
                C = make(i, other, _dim_case(b), "C") if flip == "CLS_C" else sub("CLS_C", "C", b)
                valid_iff(i, "S08", attempt(i, lambda: i.call(cls, [A, T("B", x, y), C])), False, f"a block of another class for {flip}", fn)


def _dim_case(d):
    c = Case()
    c.d = d
    return c


def S_square(i, name):
    """Only square matrices can be converted."""
    cls = find_class(i, name)
    x, y = free(i, "x", 1), free(i, "y", 1)
    res, e = attempt(i, lambda: i.call(i.getattr(cls, "from_dense"), [new_tensor(i, "S", [x, y])]))
    if not holds(i, ("Eq", x, y)):
        i.path.oblige("S08", res == "raise", "a matrix that is not square is converted without an error", site=fnsite(i, cls, "from_dense"))


def S_duplicate(i, name):
    """A name can be registered only once."""
    cls = find_class(i, name)
    c = setup_dims(i, FAMILIES.get(name) or USER_FAMILIES[name])
    A = make(i, cls, c, "A")
    ts = [(n, t) for n, t in listed(i, A) if "." not in n]
    before = dense(i, A)
    fn = fnsite(i, cls, "register_tensor")
    for n, t in ts:
        r = attempt(i, lambda: i.call_method(A, "register_tensor", [new_tensor(i, "Z", t.shape), n]))
        valid_iff(i, "S08", r, False, f"registering a second tensor as {n}", fn)
    check_eq(i, "S08", dense(i, A), before, "matrix after rejected registrations", fn)


# ------------------------------------------------------------------ naive fall-backs
def S_naive(i, name, op):
    """The generic dense fall-back announces itself, naming class and operation; it can be silenced."""
    cls = find_class(i, name)
    c = setup_dims(i, ("dense",))
    warned = []
    run_recorded(i, OPS[op], cls, c, op, warned)
    hits = [e for e in warned if re.search(rf"\b{cls.name}\.{NAIVE[op]}(?!\w)", text_of(e))]
    short = NAIVE[op].strip("_")
    want = (name == "UserMinimalMatrix" or name == "UserExceptMatrix" and NAIVE[op] not in ("rmatmat", "__add__", "eye")
            or name == f"UserAllBut_{short}_Matrix")
    fn = fnsite(i, find_class(i, "StructuredMatrix") if False else cls, NAIVE[op])
    if want:
        i.path.oblige("S09", bool(hits), f"the dense fall-back of {NAIVE[op]} is not announced by a warning naming {cls.name}.{NAIVE[op]}; "
                      f"warnings: {[text_of(e)[:90] for e in warned]}", site=fn)
        for e in warned:
            i.path.oblige("S09", cls.name in text_of(e), f"a warning does not name the class: {text_of(e)[:120]}", site=e["site"])
    else:
        i.path.oblige("S09", not hits, f"the fall-back of {NAIVE[op]} warns although the warning is switched off", site=fn)
    if name == "UserQuietMatrix":
        i.path.oblige("S09", not warned, f"{op} warns although warnings are switched off: {[text_of(e)[:90] for e in warned]}", site=fn)


def S_silent(i, name, op):
    """Structures with their own implementation do not announce a fall-back."""
    cls = find_class(i, name)
    c = setup_dims(i, FAMILIES[name])
    warned = []
    run_recorded(i, OPS[op], cls, c, op, warned)
    hits = [e for e in warned if "naive" in text_of(e).lower()]
    i.path.oblige("S09", not hits, f"{op} of a structure of the optimizer falls back to the dense implementation: {[text_of(e)[:120] for e in hits]}", site=fnsite(i, cls, NAIVE.get(op, op)))


def run_recorded(i, f, cls, c, op, warned):
    """Run the operation; the warnings issued by the operation itself are collected."""
    p = i.path
    ev = p.event

    def event(kind, **kw):
        e = ev(kind, **kw)
        if kind == "warn":
            warned.append(e)
        return e

    p.event = event
    f(i, cls, c, op)
    del p.event


def text_of(e):
    return str(e.get("msg"))


# ------------------------------------------------------------------ memory
def op_memory(name, op):
    """No intermediate tensor grows quadratically with the matrix dimension."""
    def run(i):
        i.model.alloc_log = True
        op_scenario(name, op)(i)
        p = i.path
        n = 0
        for e in p.events:
            if e["kind"] != "alloc" or e["site"] is None:
                continue
            n += 1
            num = ONE
            for s in e["shape"]:
                num = num * p.simp(s)
            deg = max((sum(x for a, x in mm if a in ("d", "nb", "m")) for mm in num.t), default=0)
            p.oblige("P17", deg <= 1, f"{name}.{op} creates a tensor with {num!r} entries, which grows quadratically with the dimension", site=e["site"])
        p.oblige("P17", True, f"{n} intermediate tensors of linear size")
        return None

    return run


# ------------------------------------------------------------------ helper functions
def util(i, name):
    m = i.resolve_import("singd.structures.utils")
    f = m.env.get(name)
    if f is None:
        raise Abort(f"helper {name} not found")
    return f, f"{m.path}:{f.node.lineno} in {name}"


def S_util(i, name, case=""):
    """Helper functions of the structured matrices on arbitrary arguments."""
    f, fn = util(i, name)
    p = i.path
    if name == "all_traces":
        n, m = free(i, "n", 1), free(i, "m", 1)
        M = new_tensor(i, "M", [n, m])
        sn = snapshot(M)
        R = i.call(f, [M])
        want = M.read().rel([n + m - 1], lambda x, o, a: [x[1] - x[0] + n - 1 - o[0]])
        check_eq(i, "S10", i.model.val(R), want, "sums along the diagonals", fn)
        unchanged(i, "S10", sn, "all_traces", fn)
    elif name == "toeplitz_matmul":
        n, m, k = free(i, "n", 1), free(i, "m", 1), free(i, "k", 0)
        if case == "ok":
            cf, M = new_tensor(i, "c", [n * 2 - 1]), new_tensor(i, "M", [n, m])
            sn = snapshot(cf, M)
            R = i.call(f, [cf, M])
            Tm = cf.read().rel([n, n], lambda x, o, a: [o[1] - o[0] + n - 1 - x[0]])
            check_eq(i, "S10", i.model.val(R), Tm.matmul(M.read()), "Toeplitz product", fn)
            unchanged(i, "S10", sn, "toeplitz_matmul", fn)
        else:
            cf, M = new_tensor(i, "c", [k * 2 + 1 if case == "bad" else k * 2]), new_tensor(i, "M", [n, m])
            r, e = attempt(i, lambda: i.call(f, [cf, M]))
            if case == "even" or not holds(i, ("Eq", k + 1, n)):
                p.oblige("S10", r == "raise" and "RuntimeError" in e, "a Toeplitz product with mismatching dimensions must raise RuntimeError", site=fn)
    elif name == "diag_add_":
        n = free(i, "n", 1)
        m = n if case == "square" else free(i, "m", 1)
        M = new_tensor(i, "M", [n, m])
        old = M.read()
        if case != "square" and holds(i, ("Eq", n, m)):
            raise Infeasible("square")
        r, e = attempt(i, lambda: i.call(f, [M, scal(i)]))
        if case == "square":
            p.oblige("S10", r == "ok" and e is M, "diag_add_ updates its argument", site=fn)
            check_eq(i, "S10", i.model.val(M), old + Ten.full([n], sym("s")).embed_diag(), "diag_add_", fn)
        else:
            p.oblige("S10", r == "raise" and "ValueError" in e, "a matrix that is not square must be rejected with ValueError", site=fn)
    elif name == "supported_eye":
        n = free(i, "n", 1)
        for dt in ("float32", "bfloat16", "float16", "float64"):
            for dv in ("cpu", "cuda:0"):
                R = i.call(f, [_int(i, n)], {"dtype": DType(dt), "device": Device(dv)})
                check_eq(i, "S10", i.model.val(R), Ten.full([n], ONE).embed_diag(), f"identity in {dt} on {dv}", fn)
                p.oblige("S10", R.dtype.name == dt and R.device.name == dv, f"identity in {dt} on {dv} is {R.dtype.name} on {R.device.name}", site=fn)
    elif name == "lowest_precision":
        order = ["float16", "bfloat16", "float32"]
        import itertools

        for k in (1, 2, 3):
            for c in itertools.product(order, repeat=k):
                R = i.call(f, [DType(x) for x in c])
                w = min(c, key=order.index)
                p.oblige("S10", getattr(R, "name", None) == w, f"lowest precision of {c} is {R!r}, must be {w}", site=fn)
        for bad in ("float64", "int64"):
            r, e = attempt(i, lambda: i.call(f, [DType("float32"), DType(bad)]))
            p.oblige("S10", r == "raise" and "NotImplementedError" in e, f"unsupported data type {bad} must be rejected", site=fn)
    elif name == "is_half_precision":
        for dt, w in (("float16", True), ("bfloat16", True), ("float32", False), ("float64", False)):
            R = i.call(f, [DType(dt)])
            p.oblige("S10", i.truth(R) == w, f"is_half_precision({dt})", site=fn)


def extra(name, op, **kw):
    """Scenario for an operation of EXTRA."""
    def run(i):
        i.path.data["env"] = (F32, CPU)
        fam = FAMILIES.get(name) or USER_FAMILIES.get(name)
        cls = find_class(i, name)
        EXTRA[op](i, cls, setup_dims(i, fam), op, **kw)

    return run
