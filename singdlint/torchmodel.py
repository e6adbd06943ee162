"""Summaries of the torch / einops / einconv API on the tensor value domain."""
from fractions import Fraction

from .path import Abort, subst_ten
from .sym import ONE, Sc, ZERO, node, sc, sc_is_zero, NODES, ATOM_INFO
from .ten import Ten, Term, Fac, PFac, canon_key, fresh, is_var, slot, tri_len, norm_term
from .values import *  # noqa: F401,F403
from .values import (Unknown, NumV, Choice, Ext, FuncV, BoundM, Partial, Native, ClassV, Obj, SizeV, Storage,
                     TensorV, Rel, compose, bvar, IVal, SMV, ModuleObj, FamilyV, ExcV, PyRaise, GenList,
                     DType, Device, CONCRETE_DTYPES, INT_DTYPES, DEFAULT_DTYPE, DEFAULT_DEVICE)
from . import pylib
from .interp import CtxV, Slice, SymSeq, DefaultDict, NOATTR, SymStr

HALF = Fraction(1, 2)
FN = {}  # op name -> handler(model, args, kwargs)
METHOD_ONLY = {}


def op(names, sig):
    """Register an operation with a positional signature ('*' marks varargs)."""
    params = []
    for p in sig.split():
        if "=" in p:
            n, d = p.split("=")
            params.append((n, {"None": None, "True": True, "False": False}.get(d, int(d) if d.lstrip("-").isdigit() else d)))
        else:
            params.append((p, KeyError))

    def deco(f):
        def h(m, args, kwargs):
            vals = {}
            kwargs = dict(kwargs)
            out = kwargs.pop("out", None)
            if "axis" in kwargs and any(n == "dim" for n, _ in params):
                kwargs["dim"] = kwargs.pop("axis")
            if "axes" in kwargs and any(n == "dims" for n, _ in params):
                kwargs["dims"] = kwargs.pop("axes")
            if "keepdims" in kwargs:
                kwargs["keepdim"] = kwargs.pop("keepdims")
            k = 0
            args = list(args)
            for n, d in params:
                if n.startswith("*"):
                    if n[1:] in kwargs:
                        v = kwargs.pop(n[1:])
                        vals[n[1:]] = list(m.i.iterate(v)) if not isinstance(v, (int, NumV)) else [v]
                    else:
                        rest = args[k:]
                        if len(rest) == 1 and isinstance(rest[0], (list, tuple)):
                            rest = list(rest[0])
                        vals[n[1:]] = rest
                    k = len(args)
                    continue
                if k < len(args):
                    vals[n] = args[k]
                    k += 1
                elif n in kwargs:
                    vals[n] = kwargs.pop(n)
                elif d is KeyError:
                    m.i.abort(f"{names}: missing argument {n}")
                else:
                    vals[n] = d
            if k < len(args):
                m.i.abort(f"{names}: too many arguments")
            for x in ("requires_grad", "pin_memory", "layout", "memory_format", "generator", "non_blocking"):
                v = kwargs.pop(x, None)
                if x == "requires_grad" and v not in (None, False):
                    m.i.abort("requires_grad tensor created")
            if kwargs:
                m.i.abort(f"{names}: unmodelled keyword {sorted(kwargs)}")
            for n in list(vals):
                if isinstance(vals[n], Choice):
                    vals[n] = m.i.force(vals[n])
                if isinstance(vals[n], Unknown):
                    m.i.abort(f"{names}: argument {n} unknown ({vals[n].reason})")
            r = f(m, **vals)
            if out is not None:
                m.write(out, r.read(), f"{names}(out=)")
                return out
            return r

        for n in names.split():
            FN[n] = h
        return f

    return deco


def has_nan(v):
    return any(f.name == "nan" for t in v.terms for f in t.facs) or any("nan" in t.coef.atoms() for t in v.terms)


class TorchModel:
    def __init__(self, contract=False, alias="copy", contig="pin"):
        self.contract = contract
        self.alias = alias
        self.contig_mode = contig
        self.rec = []
        self.opt = None
        self.alloc_log = False

    def bind(self, interp):
        self.i = interp
        self.p = interp.path

    # ------------------------------------------------------------ recording
    def begin_record(self):
        self.rec.append({})

    def end_record(self):
        r = self.rec.pop()
        if self.rec:
            for s, v in r.items():
                self.rec[-1].setdefault(s, v)
        return r

    # -------------------------------------------------------------- tensors
    @property
    def bd(self):
        return self.p.bd

    def new(self, val, dtype=None, device=None, graph=False, root="temp"):
        if not val.shape:
            val = self.scalarise(val)
        st = Storage(val, root)
        t = TensorV(st, val.shape, dtype or DEFAULT_DTYPE, device or DEFAULT_DEVICE)
        t.graph = bool(graph and self.p.grad_mode)
        t.contig = True
        if self.alloc_log and len(val.shape) > 0:
            self.p.event("alloc", shape=tuple(val.shape), dtype=t.dtype)
        return t

    def val(self, t):
        if t.st.pending is not None:
            torchops.race(self, t.st)
        c = t.attrs.get("_c")
        if c is not None and c[0] == t.st.writes and c[1] is t.st.val:
            return c[2]
        v = t.read()
        if t.rel is not None:
            v = v.norm(self.bd)
        t.attrs["_c"] = (t.st.writes, t.st.val, v)
        return v

    def write(self, t, new, how, kind="assign"):
        """In-place update of t (through views)."""
        if self.rec:
            for r in self.rec:
                r.setdefault(t.st, t.st.val)
        if (t.leaf or t.graph) and self.p.grad_mode and t.leaf:
            self.i.throw("RuntimeError", "a leaf Variable that requires grad is being used in an in-place operation")
        if t.rel is not None and not t.rel.injective and t.shape:
            self.check_overlap(t)
        old = t.st.val
        if not new.shape and t.rel is None:
            new = self.scalarise(new)
        if t.rel is None:
            t.st.val = new.norm(self.bd) if new.shape else new
        else:
            if not new.shape:
                new = unscalar(self.ten_sc(new))
            t.write(new, self.bd)
            t.st.writes -= 1
        t.st.writes += 1
        t.ival = None
        self.p.event("mutate", root=t.st.root, st=t.st, how=how, old=old, label=t.label, tensor=t)
        return t

    def check_overlap(self, t):
        """Writing to a tensor several elements of which are the same memory cell is an error."""
        probe = t.read(Ten.atom("@", t.st.val.shape)).norm(self.bd)
        used = {a for x in probe.terms for e in x.eqs for a in e.deep_atoms()}
        for k, d in enumerate(t.shape):
            if not any(a == slot(k) or a.startswith(slot(k) + ".") for a in used):
                if self.p.sign_in(self.p.simp(d - 1), {1}):
                    self.i.throw("RuntimeError", "unsupported operation: more than one element of the written-to tensor "
                                                 "refers to a single memory location")

    def view(self, t, shape, eqfn, aux=None, injective=True, contig=None):
        n, m = t.ndim, len(shape)
        aux = aux or {}
        eqs = eqfn([Sc.atom(bvar(k)) for k in range(n)], [Sc.atom(slot(k)) for k in range(m)],
                   {k: Sc.atom(k) for k in aux})
        v = compose(t, [self.p.simp(d) for d in shape], eqs, aux, injective)
        v.contig = contig
        v.grad = None
        v.attrs = {}
        if t.leaf:
            v.graph = self.p.grad_mode
        v.graph = v.graph and self.p.grad_mode
        v.label = t.label
        if t.ival is not None and not aux:
            v.ival = t.ival.remap(n, lambda iv: eqfn(iv, [Sc.atom(slot(k)) for k in range(m)], {}), t.shape)
        return v

    def same_view(self, t, **kw):
        n = t.ndim
        v = self.view(t, t.shape, lambda i, o, a: [i[k] - o[k] for k in range(n)], contig=t.contig)
        for k, x in kw.items():
            setattr(v, k, x)
        return v

    def g(self, *ts):
        return self.p.grad_mode and any(isinstance(t, (TensorV, SMV)) and (t.graph or getattr(t, "leaf", False)) for t in ts)

    # ------------------------------------------------------------- scalars
    def scalarise(self, t):
        """0-d tensor value -> value with closed components folded into the coefficient."""
        return Ten.full((), self.ten_sc(t))

    def ten_sc(self, t):
        t = t.norm(self.bd)
        out = ZERO
        for x in t.terms:
            c = x.coef
            if x.facs or x.pfacs or x.vars:
                for comp in components(x):
                    c = c * Sc.atom(node_scalar(comp, self.bd))
            out = out + c
        return out

    def sc_of(self, v, what="scalar"):
        """Scalar algebra value of a number or one-element tensor."""
        v = self.i.force(v)
        if isinstance(v, TensorV):
            return self.i.num(self.item(v))
        if isinstance(v, Unknown):
            self.i.abort(f"{what} unknown: {v.reason}")
        n = self.i.num(v)
        if n is None:
            if isinstance(v, float):
                return Sc.atom("inf") if v > 0 else -Sc.atom("inf")
            if v is not None and not isinstance(v, str):
                self.i.abort(f"{what} {v!r} is not modelled as a number")
            self.i.throw("TypeError", f"{what} must be a number, not {v!r}")
        return n

    def item(self, t):
        v = self.val(t)
        for d in t.shape:
            if not (self.p.simp(d) == 1):
                if not self.p.sign_in(d - 1, {0}):
                    self.i.throw("RuntimeError", "a Tensor with more than one element cannot be converted to Scalar")
        if t.shape:
            v = v.rel((), lambda i, o, a: list(i))
        s = self.ten_sc(v)
        kind = "int" if t.dtype.name in INT_DTYPES else "float"
        if t.dtype.name == "bool":
            return self.truth(t)
        return self.i.mknum(s, kind)

    def truth(self, t):
        if t.attrs.get("cond") is not None:
            return self.p.cond(t.attrs["cond"]) != t.attrs.get("neg", False)
        s = self.i.num(self.item(t)) if t.dtype.name != "bool" else self.ten_sc(self.val(t))
        return not self.p.sign_in(s, {0}, False)

    # ------------------------------------------------------------- dtypes
    def promote(self, a, b):
        a, b = self.p.dt(a), self.p.dt(b)
        if a == b:
            return a
        ia, ib = a.name in INT_DTYPES, b.name in INT_DTYPES
        if ia and not ib:
            return b
        if ib and not ia:
            return a
        if ia and ib:
            return a if b.name == "bool" else (b if a.name == "bool" else DType("int64"))
        order = ["float16", "bfloat16", "float32", "float64"]
        if a.name in order and b.name in order:
            if {a.name, b.name} == {"float16", "bfloat16"}:
                return DType("float32")
            return a if order.index(a.name) > order.index(b.name) else b
        if "float64" in (a.name, b.name):
            return DType("float64")
        n = "|".join(sorted(set(a.name.split("|")) | set(b.name.split("|"))))
        return DType(n)

    def result_dtype(self, a, b):
        if isinstance(a, TensorV) and isinstance(b, TensorV):
            if a.ndim == 0 and b.ndim > 0 and not (a.dtype.name not in INT_DTYPES and b.dtype.name in INT_DTYPES):
                return b.dtype
            if b.ndim == 0 and a.ndim > 0 and not (b.dtype.name not in INT_DTYPES and a.dtype.name in INT_DTYPES):
                return a.dtype
            return self.promote(a.dtype, b.dtype)
        t = a if isinstance(a, TensorV) else b
        o = b if isinstance(a, TensorV) else a
        if t.dtype.name in INT_DTYPES and isinstance(o, (NumV, float)) and self.i.kind(o) == "float":
            return DEFAULT_DTYPE
        return t.dtype

    def result_device(self, *ts):
        devs = []
        for t in ts:
            if isinstance(t, (TensorV, SMV)):
                d = self.p.dt(t.device)
                if isinstance(t, TensorV) and t.ndim == 0:
                    continue
                if d not in devs:
                    devs.append(d)
        if not devs:
            return next((t.device for t in ts if isinstance(t, (TensorV, SMV))), DEFAULT_DEVICE)
        if len(devs) > 1:
            if not all(self.p.tok_eq(devs[0], d) for d in devs[1:]):
                self.p.event("device-mix", devices=[d.name for d in devs])
                self.i.throw("RuntimeError", f"Expected all tensors to be on the same device, but found {', '.join(d.name for d in devs)}")
        return devs[0]

    def same_dtype(self, a, b, what):
        x, y = self.p.dt(a.dtype), self.p.dt(b.dtype)
        if x == y:
            return x
        if not self.p.tok_eq(x, y):
            self.p.event("dtype-mix", dtypes=[x.name, y.name], what=what)
            self.i.throw("RuntimeError", f"{what}: expected operands to have the same dtype, but got {x.name} != {y.name}")
        return self.p.dt(x)

    # ------------------------------------------------------------ arithmetic
    def bshape(self, *shapes):
        n = max(len(s) for s in shapes)
        out = []
        for k in range(n):
            d = ONE
            for s in shapes:
                j = k - (n - len(s))
                if j < 0:
                    continue
                x = self.p.simp(s[j])
                if x == 1 or sc_is_zero(x - d):
                    continue
                if d == 1:
                    d = x
                    continue
                if not self.p.sign_in(x - d, {0}):
                    self.i.throw("RuntimeError", f"The size of tensor a ({d!r}) must match the size of tensor b ({x!r})")
            out.append(d)
        return tuple(out)

    def lift(self, v):
        if isinstance(v, TensorV):
            return v
        return self.new(Ten.full((), self.sc_of(v)), DType("<py>"))

    def binop(self, opn, a, b):
        i = self.i
        for x in (a, b):
            if not isinstance(x, TensorV) and i.num(x) is None and not isinstance(x, float):
                if x is not None and not isinstance(x, (str, dict, SMV, ModuleObj)):
                    i.abort(f"operand for tensor {opn} is not modelled: {x!r}")
                i.throw("TypeError", f"unsupported operand for tensor {opn}: {x!r}")
        if opn == "MatMult":
            return FN["matmul"](self, [a, b], {})
        dt = self.result_dtype(a, b)
        dev = self.result_device(a, b)
        ta, tb = self.lift(a), self.lift(b)
        if opn == "Div" and dt.name in INT_DTYPES:
            dt = DEFAULT_DTYPE
        r = self.ew(opn, ta, tb, dt, dev, self.g(a, b))
        r.ival = self.ival_op(opn, a, b, r.shape)
        return r

    def ew(self, opn, ta, tb, dt, dev, graph):
        shp = self.bshape(ta.shape, tb.shape)
        va, vb = self.val(ta), self.val(tb)
        if not (has_nan(va) or has_nan(vb)):
            pass
        elif opn in ("Add", "Sub", "Mult", "Div"):
            # not-a-number is not cancelled by anything, in particular not by zero
            return self.new(Ten.atom("nan", shp), dt, dev, graph)
        if opn in ("Add", "Sub"):
            x = va.broadcast(shp) if tuple(va.shape) != tuple(shp) else va
            y = vb.broadcast(shp) if tuple(vb.shape) != tuple(shp) else vb
            r = x + y if opn == "Add" else x - y
        elif opn == "Mult":
            if not vb.shape:
                r = va.scale(self.ten_sc(vb))
            elif not va.shape:
                r = vb.scale(self.ten_sc(va))
            else:
                r = va.broadcast(shp).mul(vb.broadcast(shp))
        elif opn == "Div":
            if not vb.shape:
                s = self.ten_sc(vb)
                if s.is_zero():
                    self.i.abort("tensor division by zero")
                r = va.scale(ONE / s)
                if not va.shape:
                    pass
                elif tuple(va.shape) != tuple(shp):
                    r = r.broadcast(shp)
            else:
                r = va.broadcast(shp).mul(self.pow_val(vb, Fraction(-1)).broadcast(shp))
        elif opn == "Pow":
            if not vb.shape:
                s = self.ten_sc(vb)
                if not s.is_const():
                    self.i.abort("tensor power with symbolic exponent")
                r = self.pow_val(va, s.const_val())
            else:
                self.i.abort("tensor ** tensor")
        elif opn in ("FloorDiv", "Mod"):
            if ta.ival is not None or tb.ival is not None or dt.name in INT_DTYPES:
                r = Ten.atom(f"{opn}<{va.key(self.bd)};{vb.key(self.bd)}>", shp)
            else:
                self.i.abort(f"tensor {opn}")
        else:
            self.i.abort(f"tensor {opn}")
        if r.shape != tuple(shp) and len(r.shape) != len(shp):
            r = r.broadcast(shp)
        return self.new(r.norm(self.bd) if r.shape else r, dt, dev, graph)

    def pow_val(self, v, e):
        """Elementwise power of a tensor value."""
        e = Fraction(e)
        if not v.shape:
            return Ten.full((), self.ten_sc(v).pow(e))
        if e == 0:
            return Ten.full(v.shape, 1)
        if e.denominator == 1 and 1 <= e <= 4:
            r = v
            for _ in range(int(e) - 1):
                r = r.mul(v)
            return r
        n = v.norm(self.bd)
        if len(n.terms) == 0:
            return n if e > 0 else Ten.full(v.shape, Sc.atom("inf"))
        if len(n.terms) == 1 and not n.terms[0].facs and not n.terms[0].vars:
            t = n.terms[0]
            return Ten(v.shape, [Term(t.coef.pow(e), (), [PFac(p.poly, p.exp * e) for p in t.pfacs], {}, t.eqs)])
        # sum of index polynomials: a single polynomial
        if all(not t.facs and not t.vars and not t.eqs and all(p.exp == 1 for p in t.pfacs) for t in n.terms):
            tot = ZERO
            for t in n.terms:
                q = t.coef
                for p in t.pfacs:
                    q = q * p.poly
                tot = tot + q
            return Ten(v.shape, [Term(ONE, (), [PFac(tot, e)])])
        if e < 0 and e.denominator == 1:
            return Ten.atom(f"recip{-e}<{n.key(self.bd)}>", v.shape)
        return Ten.atom(f"pow{e}<{n.key(self.bd)}>", v.shape)

    def ival_op(self, opn, a, b, shape):
        ia = a.ival if isinstance(a, TensorV) else None
        ib = b.ival if isinstance(b, TensorV) else None
        if ia is None and ib is None:
            return None
        if opn not in ("Add", "Sub", "Mult"):
            return None

        def get(x, iv):
            if iv is None:
                if isinstance(x, TensorV):
                    if x.ndim == 0:
                        return IVal(self.ten_sc(self.val(x)))
                    return None
                n = self.i.num(x)
                return IVal(n) if n is not None and self.i.kind(x) == "int" else None
            # broadcast
            off = len(shape) - x.ndim
            return iv.remap(
                x.ndim,
                lambda v: [v[k] if x.shape[k] == 1 and not shape[k + off] == 1 else v[k] - Sc.atom(slot(k + off))
                           for k in range(x.ndim)],
                x.shape,
            )

        x, y = get(a, ia), get(b, ib)
        if x is None or y is None:
            return None
        p = {"Add": lambda: x.poly + y.poly, "Sub": lambda: x.poly - y.poly, "Mult": lambda: x.poly * y.poly}[opn]()
        return IVal(p, {**x.aux, **y.aux}, x.eqs + y.eqs)

    def inplace_op(self, opn, a, b):
        """a op= b."""
        if opn == "MatMult":
            return FN["matmul"](self, [a, b], {})
        r = self.binop(opn, a, b)
        return self.inplace(a, r, f"{opn}=")

    def inplace(self, a, r, how):
        if a.leaf and self.p.grad_mode:
            self.i.throw("RuntimeError", "a leaf Variable that requires grad is being used in an in-place operation")
        if tuple(self.p.simp(x) for x in r.shape) != tuple(self.p.simp(x) for x in a.shape):
            if len(r.shape) != len(a.shape) or not all(sc_is_zero(self.p.simp(x - y)) for x, y in zip(r.shape, a.shape)):
                self.i.throw("RuntimeError", "output with shape doesn't match the broadcast shape")
        iv = r.ival
        old = self.val(a)
        self.write(a, Ten(a.shape, self.val(r).terms), how)
        a.ival = iv
        if r.graph:
            a.graph = True
        self.p.events[-1]["before"] = old
        self.p.events[-1]["after"] = self.val(a)
        return a

    def unary(self, opn, v):
        if opn == "USub":
            r = self.new((-self.val(v)), v.dtype, v.device, self.g(v))
            if v.ival is not None:
                r.ival = IVal(-v.ival.poly, v.ival.aux, v.ival.eqs)
            return r
        if opn == "Invert" and v.attrs.get("cond") is not None:
            return self.condition(v.attrs["cond"], v.shape, v.device, not v.attrs.get("neg", False))
        if opn == "UAdd":
            return v
        self.i.abort(f"unary {opn} of a tensor")

    def condition(self, key, shape=(), device=None, neg=False):
        r = self.new(Ten.atom("cond<" + key + ">" + ("!" if neg else ""), shape), DType("bool"), device)
        r.attrs["cond"] = key
        r.attrs["neg"] = neg
        return r

    def compare(self, opn, a, b):
        if opn in ("Eq", "NotEq") and (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
            return opn == "NotEq"
        ta, tb = self.lift(a), self.lift(b)
        shp = self.bshape(ta.shape, tb.shape)
        if not shp:
            d = self.ten_sc(self.val(ta)) - self.ten_sc(self.val(tb))
            want = {"Lt": {-1}, "LtE": {-1, 0}, "Gt": {1}, "GtE": {0, 1}, "Eq": {0}, "NotEq": {-1, 1}}[opn]
            if d.is_const() or len(self.p.possible(self.p.simp(d), False)) == 1:
                r = self.p.sign_in(d, want, False)
            else:
                r = self.p.sign_in(d, want, False)
            t = self.new(Ten.full((), int(r)), DType("bool"), self.result_device(ta, tb))
            return t
        return self.condition(f"{opn}<{self.val(ta).key(self.bd)};{self.val(tb).key(self.bd)}>", shp, self.result_device(ta, tb))

    def minmax(self, a, b, which):
        ta, tb = self.lift(a), self.lift(b)
        if ta.ndim == 0 and tb.ndim == 0 or all(self.p.simp(d) == 1 for d in ta.shape + tb.shape):
            x, y = self.i.num(self.item(ta)), self.i.num(self.item(tb))
            r = self.maxsc(x, y, which)
            t = a if isinstance(a, TensorV) else b
            return self.new(Ten.full((), r), t.dtype, t.device, self.g(a, b))
        self.i.abort(f"{which} of non-scalar tensors")

    def maxsc(self, x, y, which):
        poss = self.p.possible(self.p.simp(x - y), False)
        if poss <= {0, 1}:
            return x if which == "max" else y
        if poss <= {0, -1}:
            return y if which == "max" else x
        # flatten nested
        args = []
        for z in (x, y):
            at = list(z.atoms())
            if len(z.t) == 1 and len(at) == 1 and z == Sc.atom(at[0]) and at[0] in NODES and NODES[at[0]][0] == which:
                args.extend(NODES[at[0]][1])
            else:
                args.append(z)
        u = []
        for z in sorted(args, key=repr):
            if z not in u:
                u.append(z)
        return Sc.atom(node(which, tuple(u))) if len(u) > 1 else u[0]

    # -------------------------------------------------------------- shapes
    def size(self, t):
        return SizeV(self.i.mknum(self.p.simp(d), "int") for d in t.shape)

    def dim(self, d, n):
        d = self.i.force(d)
        x = self.i.num(d)
        if x is None or not x.is_int_const():
            self.i.abort(f"dimension index {d!r}")
        k = int(x.const_val())
        if not -n <= k < max(n, 1):
            self.i.throw("IndexError", f"Dimension out of range (got {k})")
        return k % n if n else 0

    def ints(self, v):
        """Flat list of Sc from ints / sizes."""
        v = self.i.force(v)
        if isinstance(v, TensorV):
            v = self.item(v)
        if self.i.num(v) is not None:
            return [self.i.num(v)]
        out = []
        for x in self.i.iterate(v):
            out.extend(self.ints(x))
        return out

    def numel(self, t):
        p = ONE
        for d in t.shape:
            p = p * self.p.simp(d)
        return p

    def iter_tensor(self, t):
        if t.attrs.get("rows") is not None:
            return list(t.attrs["rows"])
        if not t.shape:
            self.i.throw("TypeError", "iteration over a 0-d tensor")
        d = self.p.simp(t.shape[0])
        if d.is_int_const():
            return [self.select(t, 0, sc(k)) for k in range(int(d.const_val()))]
        return SymSeq(d, lambda v: self.select(t, 0, v))

    def select(self, t, dim, idx):
        shp = [d for k, d in enumerate(t.shape) if k != dim]
        return self.view(
            t, shp,
            lambda i, o, a: [(i[k] - idx) if k == dim else i[k] - o[k - (k > dim)] for k in range(t.ndim)],
            contig=True if dim == 0 and t.contig else None,
        )

    def narrow(self, t, dim, start, length):
        shp = list(t.shape)
        shp[dim] = length
        return self.view(t, shp, lambda i, o, a: [(i[k] - o[k] - start) if k == dim else i[k] - o[k] for k in range(t.ndim)],
                         contig=True if dim == 0 and t.contig else None)

    # -------------------------------------------------------------- indexing
    def parse_index(self, t, k):
        """-> list of per-source-dim specs and output structure."""
        i = self.i
        items = list(k) if isinstance(k, tuple) and not isinstance(k, SizeV) else [k]
        items = [i.force(x) for x in items]
        for n, x in enumerate(items):
            if isinstance(x, Unknown):
                i.abort(f"index unknown: {x.reason}")
            if isinstance(x, (list, range)):
                vals = [i.toint(y) for y in x]
                items[n] = self.const_index(vals)
            elif isinstance(x, SizeV):
                items[n] = self.const_index([sc(i.num(y)) for y in x])
            elif isinstance(x, SymSeq):
                items[n] = self.new_ival((x.count,), i.num(x.get(Sc.atom(slot(0)))))
            elif isinstance(x, TensorV) and x.attrs.get("rows") is not None and x.ival is None:
                i.abort("2-d index tensor")
        used = sum(1 for x in items if x is not None and x is not Ellipsis and not isinstance(x, bool))
        if Ellipsis in [x for x in items if not isinstance(x, (TensorV, NumV))]:
            p = next(n for n, x in enumerate(items) if x is Ellipsis)
            items[p:p + 1] = [Slice(None, None, None)] * (t.ndim - used)
        else:
            items += [Slice(None, None, None)] * (t.ndim - used)
        if used > t.ndim:
            i.throw("IndexError", f"too many indices for tensor of dimension {t.ndim}")
        return items

    def const_index(self, vals):
        if len(vals) == 1:
            return self.new_ival((ONE,), vals[0])
        if all((vals[n + 1] - vals[n]) == (vals[1] - vals[0]) for n in range(len(vals) - 1)):
            st = vals[1] - vals[0]
            return self.new_ival((sc(len(vals)),), vals[0] + st * Sc.atom(slot(0)))
        self.i.abort("irregular index list")

    def slice_bounds(self, s, d):
        """(start, length, step) of a slice over a dimension of size d."""
        i, p = self.i, self.p
        step = i.toint(s.c) if s.c is not None else ONE
        if not step.is_int_const():
            i.abort("symbolic slice step")
        if step.const_val() <= 0:
            i.throw("ValueError", "step must be greater than zero")

        def clampv(x, default):
            if x is None:
                return default
            v = self.sc_of(x, "slice bound")
            if v.is_int_const():
                neg = v.const_val() < 0
            else:
                neg = not p.sign_in(v, {0, 1})
            if neg:
                v = d + v
                if not p.sign_in(v, {0, 1}):
                    return ZERO
                return v
            if not p.sign_in(d - v, {0, 1}):
                return d
            return v

        a = clampv(s.a, ZERO)
        b = clampv(s.b, d)
        a, b = p.simp(a), p.simp(b)
        if not p.sign_in(b - a, {0, 1}):
            return a, ZERO, step
        ln = b - a
        if step != 1:
            ln = i.floordiv(ln + step - 1, step)
        return a, p.simp(ln), step

    def index(self, t, k):
        items = self.parse_index(t, k)
        if t.attrs.get("rows") is not None:
            x = items[0]
            n = self.i.num(x) if not isinstance(x, Slice) else None
            if n is not None and n.is_int_const() and all(isinstance(y, Slice) for y in items[1:]):
                return t.attrs["rows"][int(n.const_val())]
        adv = [x for x in items if isinstance(x, TensorV) and not (x.ndim == 0)]
        if adv:
            shape, eqfn, aux = self.adv_index(t, items)
            v = self.val(t).rel(shape, eqfn, aux)
            r = self.new(v.norm(self.bd), t.dtype, t.device, self.g(t))
            if t.ival is not None:
                pass
            return r
        return self.basic_view(t, items)

    def basic_view(self, t, items):
        shape, plan = [], []
        src = 0
        for x in items:
            if x is None:
                shape.append(ONE)
                continue
            d = self.p.simp(t.shape[src])
            if isinstance(x, Slice):
                a, ln, st = self.slice_bounds(x, d)
                plan.append((src, "slice", a, st, len(shape)))
                shape.append(ln)
            elif isinstance(x, bool):
                self.i.abort("boolean index")
            else:
                n = self.sc_of(x, "index")
                if n.is_int_const() and n.const_val() < 0:
                    n = d + n
                elif not n.is_int_const() and not any(is_var(a) for a in n.deep_atoms()):
                    if not self.p.sign_in(n, {0, 1}):
                        n = d + n
                lv = any(is_var(a) for a in n.deep_atoms())
                if not lv:
                    if not self.p.sign_in(d - 1 - n, {0, 1}) or not self.p.sign_in(n, {0, 1}):
                        self.i.throw("IndexError", f"index {n!r} is out of bounds for dimension {src} with size {d!r}")
                plan.append((src, "int", n, None, None))
            src += 1

        def eq(i, o, a):
            out = []
            for p in plan:
                if p[1] == "slice":
                    out.append(i[p[0]] - o[p[4]] * p[3] - p[2])
                else:
                    out.append(i[p[0]] - p[2])
            return out

        full = all(p[1] == "slice" and p[2] == 0 and p[3] == 1 and shape[p[4]] == t.shape[p[0]] for p in plan)
        return self.view(t, shape, eq, contig=t.contig if full else (t.contig if self.lead_only(plan, shape, t) else None))

    def lead_only(self, plan, shape, t):
        """Whether only leading dimensions are restricted (contiguity is kept)."""
        seen_full = False
        for p in reversed(plan):
            fullp = p[1] == "slice" and p[2] == 0 and p[3] == 1 and shape[p[4]] == t.shape[p[0]]
            if not fullp:
                rest = [q for q in plan if q[0] < p[0]]
                if p[1] == "slice" and p[3] != 1:
                    return False
                return all(q[1] == "int" for q in rest)
        return True

    def adv_index(self, t, items):
        """Relation of an advanced index expression."""
        i = self.i
        n_adv = [n for n, x in enumerate(items) if isinstance(x, TensorV) or (
            x is not None and not isinstance(x, Slice))]
        advs = [n for n in n_adv]
        tens = [items[n] for n in advs]
        shapes = []
        for x in tens:
            shapes.append(x.shape if isinstance(x, TensorV) else ())
            if isinstance(x, TensorV) and x.dtype.name == "bool":
                i.abort("boolean mask index")
        bs = self.bshape(*shapes)
        contiguous = advs == list(range(advs[0], advs[-1] + 1))
        out_shape, pos_of = [], {}
        adv_at = None
        if not contiguous:
            adv_at = 0
            out_shape = list(bs)
        for n, x in enumerate(items):
            if n in advs:
                if contiguous and adv_at is None:
                    adv_at = len(out_shape)
                    out_shape += list(bs)
                continue
            pos_of[n] = len(out_shape)
            out_shape.append(None)
        plan = []
        src = 0
        aux = {}
        iv_eqs = []
        for n, x in enumerate(items):
            if x is None:
                out_shape[pos_of[n]] = ONE
                continue
            d = self.p.simp(t.shape[src])
            if isinstance(x, Slice):
                a, ln, st = self.slice_bounds(x, d)
                out_shape[pos_of[n]] = ln
                plan.append((src, "slice", a, st, pos_of[n]))
            elif isinstance(x, TensorV):
                if x.ival is None:
                    i.abort("index tensor with unknown values")
                off = adv_at + len(bs) - x.ndim
                sl = {slot(k): fresh("z") for k in range(x.ndim)}
                iv = x.ival.remap(
                    x.ndim,
                    lambda v, x=x, off=off: [
                        v[k] if x.shape[k] == 1 and not bs[len(bs) - x.ndim + k] == 1 else v[k] - Sc.atom(slot(off + k))
                        for k in range(x.ndim)
                    ],
                    x.shape,
                )
                # negative values wrap around
                poly = iv.poly
                if poly.is_const() and poly.const_val() < 0:
                    poly = d + poly
                plan.append((src, "iv", poly, None, None))
                aux.update(iv.aux)
                iv_eqs += iv.eqs
            else:
                nn = self.sc_of(x, "index")
                if nn.is_int_const() and nn.const_val() < 0:
                    nn = d + nn
                plan.append((src, "iv", nn, None, None))
            src += 1
        oshape = [self.p.simp(x) for x in out_shape]

        def eq(iv_, o, a):
            mp = {slot(k): o[k] for k in range(len(o))}
            for k in range(len(o)):
                at = list(o[k].atoms())[0]
                mp[slot(k) + ".r"] = Sc.atom(at + ".r")
                mp[slot(k) + ".c"] = Sc.atom(at + ".c")
            am = {k: a[k] for k in aux}
            for k in aux:
                at = list(a[k].atoms())[0]
                am[k + ".r"] = Sc.atom(at + ".r")
                am[k + ".c"] = Sc.atom(at + ".c")
            mp.update(am)
            out = []
            for p in plan:
                if p[1] == "slice":
                    out.append(iv_[p[0]] - o[p[4]] * p[3] - p[2])
                else:
                    out.append(iv_[p[0]] - p[2].subst(mp))
            out += [e.subst(mp) for e in iv_eqs]
            return out

        return oshape, eq, aux

    def setindex(self, t, k, v):
        i = self.i
        items = self.parse_index(t, k)
        v = i.force(v)
        adv = [x for x in items if isinstance(x, TensorV) and x.ndim > 0]
        if t.leaf and self.p.grad_mode:
            i.throw("RuntimeError", "a leaf Variable that requires grad is being used in an in-place operation")
        if not adv:
            w = self.basic_view(t, items)
            tv = self.lift(v)
            if isinstance(v, TensorV):
                self.result_device(t, tv)
            val = self.expand_to(tv, w.shape)
            if v is not None and isinstance(v, TensorV) and v.st is t.st and v.rel is not None and self.val(v).shape == w.shape:
                # x[k] = (in-place result of x[k]): no further change
                if self.val(v).equals(self.val(w), self.bd):
                    return
            self.write(w, val, "index assignment")
            t.ival = None
            if isinstance(v, TensorV) and v.graph:
                t.graph = True
            return
        shape, eqfn, aux = self.adv_index(t, items)
        tv = self.lift(v)
        val = self.expand_to(tv, shape)
        old = self.val(t)
        cur = old.rel(shape, eqfn, aux)
        delta = (val - cur).norm(self.bd)

        n = t.ndim

        def inv(iv_, o, a):
            return eqfn(o, iv_, a)

        emb = delta.rel(t.shape, inv, aux)
        # the index map must be injective for the assignment to be well defined
        probe = Ten.atom("probe", shape)
        back = probe.rel(t.shape, inv, aux).rel(shape, eqfn, aux)
        if not back.equals(probe, self.bd):
            i.abort("assignment through a non-injective index")
        self.write(t, (old + emb), "index assignment")
        if isinstance(v, TensorV) and v.graph:
            t.graph = True

    def expand_to(self, tv, shape):
        v = self.val(tv)
        vs = [self.p.simp(d) for d in v.shape]
        while len(vs) > len(shape) and vs[0] == 1:
            v = v.squeeze(0)
            vs = vs[1:]
        b = self.bshape(tuple(vs), tuple(shape))
        if len(b) != len(shape) or not all(sc_is_zero(self.p.simp(x - y)) for x, y in zip(b, shape)):
            self.i.throw("RuntimeError", f"shape mismatch: value tensor of shape {vs} cannot be broadcast to {list(shape)}")
        v = Ten(vs, v.terms)
        return v.broadcast(shape) if tuple(vs) != tuple(shape) else v

    def new_ival(self, shape, poly, device=None, aux=None, eqs=(), dtype="int64"):
        shape = tuple(sc(d) for d in shape)
        iv = IVal(sc(poly), aux, eqs)
        t = self.new(Ten(shape, [Term(ONE, (), [PFac(iv.poly, 1)], dict(iv.aux), list(iv.eqs))]), DType(dtype), device)
        t.ival = iv
        return t

    # ------------------------------------------------------------- reshape
    def reshape(self, t, shape, view=False, always_view=False):
        i = self.i
        shape = [self.p.simp(d) for d in shape]
        neg = [k for k, d in enumerate(shape) if d.is_const() and d.const_val() == -1]
        tot = self.numel(t)
        if neg:
            rest = ONE
            for k, d in enumerate(shape):
                if k != neg[0]:
                    rest = rest * d
            if rest.is_const() and rest.is_zero():
                i.throw("RuntimeError", "cannot reshape tensor of 0 elements into shape with -1")
            q = self.exdiv(tot, rest)
            if q is None:
                fd = i._fd_split(tot, rest)
                if fd is not None and fd[1].is_zero():
                    q = fd[0]
            if q is None:
                i.abort(f"reshape: {tot!r} / {rest!r}")
            shape[neg[0]] = self.p.simp(q)
        else:
            p = ONE
            for d in shape:
                p = p * d
            if not sc_is_zero(self.p.simp(p - tot)):
                if not self.p.sign_in(p - tot, {0}):
                    i.throw("RuntimeError", f"shape {shape} is invalid for input of size {tot!r}")
        old = [self.p.simp(d) for d in t.shape]
        eqfn = reshape_eq(old, shape)
        trivial = [d for d in old if d != 1] == [d for d in shape if d != 1]
        if trivial or t.contig or view or always_view:
            return self.view(t, shape, eqfn, contig=t.contig)
        if self.alias == "view" or (self.alias == "explore" and self.p.decide(f"reshape-aliases@{i.site()}") == 0):
            return self.view(t, shape, eqfn)
        r = self.new(self.val(t).rel(shape, eqfn).norm(self.bd), t.dtype, t.device, self.g(t))
        if t.ival is not None:
            r.ival = t.ival.remap(t.ndim, lambda iv: eqfn(iv, [Sc.atom(slot(k)) for k in range(len(shape))], {}), t.shape)
        return r

    def exdiv(self, a, b):
        from .ten import div_exact

        if b.is_const():
            return a * (1 / b.const_val()) if b.const_val() else None
        q = div_exact(a, b)
        if q is None:
            from .sym import exact_div

            q = exact_div(a, b)
        return q

    def permute(self, t, perm):
        return self.view(t, [t.shape[p] for p in perm], lambda i, o, a: [i[p] - o[k] for k, p in enumerate(perm)],
                         contig=t.contig if list(perm) == sorted(perm) else (
                             None if t.contig is None else self.perm_contig(t, perm)))

    def perm_contig(self, t, perm):
        # a permutation of a contiguous tensor is contiguous if it only moves unit dims
        kept = [p for p in perm if not (self.p.simp(t.shape[p]) == 1)]
        return True if kept == sorted(kept) and t.contig else None

    def is_contig(self, t):
        if t.contig is True:
            return True
        if self.contig_mode == "explore":
            key = ("contig", t.st.id, t.id)
            c = self.p.data.setdefault("contig", {})
            if t.id not in c:
                c[t.id] = self.p.decide(f"contiguous({t.label or t.st.root})@{self.i.site()}") == 0
            return c[t.id]
        return False

    def to(self, t, dtype=None, device=None, copy=False):
        dtype = t.dtype if dtype is None else dtype
        device = t.device if device is None else device
        if isinstance(device, str):
            device = Device(device)
        d1, d2 = self.p.dt(t.dtype), self.p.dt(dtype)
        v1, v2 = self.p.dt(t.device), self.p.dt(device)
        same = d1 == d2 and v1 == v2
        if not same and not copy and self.alias in ("explore", "view"):
            k = not (self.p.concrete_tok(d1) and self.p.concrete_tok(d2) and d1 != d2)
            if k and "|" not in d1.name + d2.name:
                same = self.p.tok_eq(d1, d2) and self.p.tok_eq(v1, v2)
        if same and not copy:
            return t
        v = self.val(t)
        if d2.name in INT_DTYPES and d1.name not in INT_DTYPES:
            v = Ten.atom(f"trunc<{v.key(self.bd)}>", t.shape)
        r = self.new(v, d2, v2, self.g(t))
        r.ival = t.ival
        r.label = t.label
        self.p.event("cast", src=d1, dst=d2, tensor=t)
        return r

    # --------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, TensorV):
            return self.tensor_attr(o, name)
        if isinstance(o, Ext):
            return self.ext_attr(o, name)
        if isinstance(o, ModuleObj):
            from . import nnmodel

            return nnmodel.module_attr(self, o, name)
        if isinstance(o, SMV):
            from . import contract

            return contract.sm_attr(self, o, name)
        if isinstance(o, DType):
            if name == "itemsize":
                return NumV(Sc.atom(node("itemsize:" + o.name, ())), "int")
            if name == "is_floating_point":
                return o.name not in INT_DTYPES
            return NOATTR
        if isinstance(o, Device):
            if name == "type":
                return o.name.split(":")[0] if self.p.concrete_tok(o) else SymStr(o)
            if name == "index":
                return None
            return NOATTR
        return NotImplemented

    def ext_attr(self, o, name):
        return self.ext_value(Ext(o.path + "." + name))

    def ext_value(self, e):
        p = e.path
        n = p.split(".")[-1]
        if p.startswith("torch.") and p.count(".") == 1:
            al = {"half": "float16", "float": "float32", "double": "float64", "long": "int64", "int": "int32",
                  "bfloat16": "bfloat16", "short": "int16"}
            if n in CONCRETE_DTYPES:
                return DType(n)
            if n in al:
                return DType(al[n])
        if p in ("math.inf", "torch.inf", "numpy.inf"):
            return float("inf")
        if p in ("math.pi", "torch.pi"):
            return NumV(Sc.atom("pi"), "float")
        if p == "math.nan":
            return float("nan")
        if p == "torch.strided":
            return e
        if p == "functools.singledispatch":
            return e
        if p in ("typing.TYPE_CHECKING",):
            return False
        if p == "sys.version_info":
            return (3, 12, 0)
        return e

    def setattr(self, o, name, v):
        if isinstance(o, TensorV):
            if name == "data":
                v = self.i.force(v)
                if not isinstance(v, TensorV):
                    self.i.throw("TypeError", "data must be a tensor")
                self.p.event("data-set", tensor=o, old=self.val(o), new=self.val(v), root=o.st.root)
                if o.param is not None or o.leaf:
                    # storage swap: the parameter now refers to the new storage
                    self.p.event("mutate", root=o.st.root, st=o.st, how=".data assignment", old=o.st.val, tensor=o,
                                 label=o.label, before=self.val(o), after=self.val(v))
                    nst = v.st
                    if o.param is not None:
                        o.attrs["swapped"] = True
                        if v.st.root == "temp":
                            v.st.root = o.st.root
                o.st, o.rel, o.shape = v.st, v.rel, v.shape
                o.dtype, o.device, o.contig, o.ival = v.dtype, v.device, v.contig, v.ival
                o.attrs.pop("_c", None)
                return True
            if name == "grad":
                o.grad = v
                self.p.event("grad-set", tensor=o, value=v)
                return True
            if name == "requires_grad":
                self.p.event("global" if o.param is not None else "note", what=f"requires_grad of {o.label} set")
                o.leaf = self.i.truth(v)
                return True
            o.attrs[name] = v
            return True
        if isinstance(o, ModuleObj):
            self.p.event("model-attr", module=o.name, name=name)
            o.attrs[name] = v
            return True
        if isinstance(o, Ext):
            self.p.event("global", what=f"{o.path}.{name} assigned")
            return True
        if isinstance(o, SMV):
            o.__dict__.setdefault("extra", {})[name] = v
            return True
        return False

    def tensor_attr(self, t, name):
        i = self.i
        if name in ("T", "mT", "H", "mH"):
            if t.ndim < 2:
                return self.same_view(t)
            if name in ("T", "H") and t.ndim != 2:
                return self.permute(t, list(reversed(range(t.ndim))))
            perm = list(range(t.ndim))
            perm[-1], perm[-2] = perm[-2], perm[-1]
            return self.permute(t, perm)
        if name == "shape":
            return self.size(t)
        if name == "ndim":
            return t.ndim
        if name == "dtype":
            return self.p.dt(t.dtype)
        if name == "device":
            return t.device
        if name == "data":
            v = self.same_view(t)
            v.graph = False
            v.leaf = False
            v.contig = t.contig
            return v
        if name == "grad":
            return t.grad
        if name == "requires_grad":
            return bool(t.leaf or t.graph)
        if name == "is_leaf":
            return not t.graph
        if name == "grad_fn":
            return Ext("torch.grad_fn") if t.graph else None
        if name == "is_cuda":
            return self.p.cond(f"is_cuda:{t.device.name}")
        if name == "layout":
            return Ext("torch.strided")
        if name == "itemsize":
            return NumV(Sc.atom(node("itemsize:" + t.dtype.name, ())), "int")
        if name == "_version":
            return t.st.writes
        if name == "_base":
            return None
        if name == "is_sparse":
            return False
        if name == "__class__":
            return Ext("torch.Tensor")
        if name in t.attrs and not name.startswith("_"):
            return t.attrs[name]
        if name == "real":
            return t
        if name in ("__len__",):
            return Native(name, lambda it, a, k: pylib.b_len(it, [t], {}))
        if name in TENSOR_METHODS:
            return Native("Tensor." + name, lambda it, a, k: TENSOR_METHODS[name](self, t, a, k))
        if name in FN:
            return Native("Tensor." + name, lambda it, a, k: FN[name](self, [t] + list(a), k))
        if name.endswith("_") and not name.startswith("__") and name[:-1] in FN and name[:-1] in INPLACE_OK:
            base = name[:-1]

            def ip(it, a, k):
                r = FN[base](self, [t] + list(a), k)
                return self.inplace(t, r, name)

            return Native("Tensor." + name, ip)
        if name.startswith("__") and name.endswith("__"):
            m = {"__add__": "Add", "__radd__": "Add", "__sub__": "Sub", "__mul__": "Mult", "__rmul__": "Mult",
                 "__truediv__": "Div", "__matmul__": "MatMult", "__pow__": "Pow"}
            if name in m:
                return Native(name, lambda it, a, k: it.binop(m[name], t, a[0]))
            if name == "__getitem__":
                return Native(name, lambda it, a, k: self.index(t, a[0]))
            if name == "__setitem__":
                return Native(name, lambda it, a, k: self.setindex(t, a[0], a[1]))
            return NOATTR
        if name in ("found_inf", "grad_scale", "_weakref", "module", "name"):
            return NOATTR
        if name in DECOMP:
            return Native("Tensor." + name, lambda it, a, k: self.call_ext("torch." + name, [t, *a], k))
        i.abort(f"tensor attribute {name!r} is not modelled")

    # ------------------------------------------------- classes and instances
    def instantiate(self, c, args, kwargs):
        if self.contract:
            from . import contract

            return contract.instantiate(self, c, args, kwargs)
        return NotImplemented

    def contract_attr(self, c, name):
        if self.contract:
            from . import contract

            if contract.is_struct(c):
                return contract.class_attr(self, c, name)
        return NotImplemented

    def class_attr(self, c, name):
        return NotImplemented

    def obj_attr(self, o, name):
        if any(isinstance(b, Ext) and b.path.startswith("torch.optim") for b in o.cls.mro()):
            from . import nnmodel

            return nnmodel.optimizer_attr(self, o, name)
        return NotImplemented

    def base_attr(self, c, obj, name):
        if isinstance(c, Ext) and c.path.startswith("torch.optim"):
            from . import nnmodel

            return nnmodel.optimizer_attr(self, obj, name)
        return NotImplemented

    def base_init(self, o, args, kwargs):
        for b in o.cls.mro():
            if isinstance(b, Ext) and b.path.startswith("torch.optim"):
                from . import nnmodel

                self.i.call(nnmodel.optimizer_attr(self, o, "__init__"), args, kwargs)
        return None

    def obj_getitem(self, o, k):
        return NotImplemented

    def isinstance_ext(self, v, t):
        n = t.path.split(".")[-1]
        if isinstance(v, TensorV):
            if n == "Parameter":
                return v.param is not None
            return t.path in ("torch.Tensor", "torch.FloatTensor")
        if isinstance(v, ModuleObj):
            from . import nnmodel

            return nnmodel.kind_is(v.kind, t.path)
        if isinstance(v, DType):
            return n == "dtype"
        if isinstance(v, Device):
            return n == "device"
        if isinstance(v, SizeV):
            return n == "Size"
        if isinstance(v, Obj):
            return any(b == t for b in v.cls.mro()) or any(
                isinstance(b, Ext) and b.path.split(".")[-1] == n and b.path.startswith("torch") for b in v.cls.mro())
        return False

    def ext_subclass(self, c, x):
        from . import nnmodel

        return isinstance(x, Ext) and nnmodel.kind_is(c.path, x.path)

    def sm_binop(self, opn, a, b):
        from . import contract

        return contract.binop(self, opn, a, b)

    def sm_isinstance(self, v, t):
        return v.cls is None or (isinstance(v.cls, ClassV) and v.cls.is_sub(t))

    def sm_class(self, v):
        return v.cls

    def copy(self, v, deep):
        if isinstance(v, SMV):
            from . import contract

            return contract.copy(self, v, deep)
        return v

    def deepcopy_tensor(self, t):
        r = self.new(self.val(t), t.dtype, t.device)
        r.label = t.label
        return r

    def call_module(self, m, args, kwargs):
        self.i.abort(f"forward call of {m!r}")

    # ---------------------------------------------------------------- calls
    def call_ext(self, path, args, kwargs):
        i = self.i
        if path in EXTFN:
            return EXTFN[path](self, args, kwargs)
        if path in pylib.STDLIB:
            return pylib.STDLIB[path](i, args, kwargs)
        if path.startswith("torch."):
            from . import nnmodel

            r = nnmodel.call_ext(self, path, args, kwargs)
            if r is not NotImplemented:
                return r
            n = path.split(".")[-1]
            if path.startswith("torch.Tensor."):
                return self.i.call(self.tensor_attr(args[0], n), args[1:], kwargs)
            ok = path.startswith(("torch.linalg.", "torch.nn.functional.", "torch.functional.", "torch.special.",
                                  "torch._C.", "torch.ops.aten.")) or path.count(".") == 1
            if ok and n in FN:
                return FN[n](self, args, kwargs)
            if ok and n.endswith("_") and n[:-1] in FN:
                return self.i.call(self.tensor_attr(args[0], n), args[1:], kwargs)
            if n in DECOMP:
                self.p.event("inverse", what=path)
                self.p.oblige("P17", False, f"computes an inverse or decomposition ({path})", site=i.site())
                ts = [a for a in args if isinstance(a, TensorV)]
                if n in ("inv", "pinv", "inverse", "cholesky", "matrix_exp", "cholesky_inverse", "matrix_power"):
                    return self.new(Ten.atom(f"{n}<{self.val(ts[0]).key(self.bd)}>", ts[0].shape), ts[0].dtype, ts[0].device)
                if n in ("solve", "solve_triangular", "cholesky_solve") and len(ts) > 1:
                    return self.new(Ten.atom(f"{n}<{self.val(ts[0]).key(self.bd)};{self.val(ts[1]).key(self.bd)}>",
                                             ts[1].shape), ts[1].dtype, ts[1].device)
                i.abort(f"{path} is not modelled")
        if path.startswith(pylib.BENIGN_PREFIX) or path.split(".")[0] in ("logging", "time"):
            return Unknown(path)
        if path.startswith("torch.nn.") and path.split(".")[-1][0].isupper():
            i.abort(f"module {path} constructed")
        i.abort(f"call of {path} is not modelled")


DECOMP = ("inv", "pinv", "solve", "cholesky", "eigh", "eig", "svd", "qr", "inverse", "matrix_exp", "lstsq", "cholesky_solve", "cholesky_inverse",
          "solve_triangular", "lu_factor", "eigvalsh", "linalg_inv", "cholesky_ex", "inv_ex", "solve_ex", "ldl_factor", "triangular_solve", "lu",
          "matrix_power", "pinverse")


def components(t):
    """Connected components of a slot-free term (as slot-free terms)."""
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            x = parent[x]
        return x

    def union(a, b):
        parent[find(a)] = find(b)

    for v in t.vars:
        find(v)
    for f in t.facs:
        for a in f.args:
            union(f.args[0], a)
    ev = []
    for e in t.eqs:
        vs = [a for a in e.deep_atoms() if is_var(a)]
        for a in vs:
            union(vs[0], a)
        ev.append(vs)
    pv = []
    for p in t.pfacs:
        vs = [a for a in p.poly.deep_atoms() if is_var(a)]
        for a in vs:
            union(vs[0], a)
        pv.append(vs)
    groups = {}
    out = []
    for v in t.vars:
        groups.setdefault(find(v), []).append(v)
    for root, vs in groups.items():
        vset = set(vs)
        out.append(Term(ONE, [f for f in t.facs if f.args and f.args[0] in vset],
                        [p for p, q in zip(t.pfacs, pv) if q and q[0] in vset],
                        {v: t.vars[v] for v in vs}, [e for e, q in zip(t.eqs, ev) if q and q[0] in vset]))
    for f in t.facs:
        if not f.args:
            out.append(Term(ONE, [f]))
    return out


SCALAR_TERMS = {}


def node_scalar(term, bd):
    if len(term.facs) == 1 and not term.facs[0].args:
        return term.facs[0].name
    n = "<" + canon_key(term, (), bd)[0] + ">"
    SCALAR_TERMS.setdefault(n, term)
    return n


def unscalar(s):
    """0-d tensor value with scalar nodes expanded to the terms they stand for."""
    out = Ten(())
    for mono, c in s.t.items():
        t = Ten.full((), ONE)
        coef = Sc.const(c)
        for a, e in mono:
            if a in SCALAR_TERMS and isinstance(e, int) and e > 0:
                for _ in range(e):
                    t = t.outer(Ten((), [SCALAR_TERMS[a]]))
            else:
                coef = coef * Sc.atom(a, e)
        out = out + t.scale(coef)
    return out


def reshape_eq(old, new):
    old, new = [sc(d) for d in old], [sc(d) for d in new]

    def eq(i, o, a):
        def lin(vs, ds):
            e, st = ZERO, ONE
            for v, d in reversed(list(zip(vs, ds))):
                e = e + v * st
                st = st * d
            return e

        ii, oo, ds, es = list(i), list(o), list(old), list(new)
        eqs = []
        while ii and oo and ds[-1] == es[-1]:
            eqs.append(ii.pop() - oo.pop())
            ds.pop(), es.pop()
        while ii and oo and ds[0] == es[0]:
            eqs.append(ii.pop(0) - oo.pop(0))
            ds.pop(0), es.pop(0)
        if ii or oo:
            eqs.append(lin(ii, ds) - lin(oo, es))
        return eqs

    return eq


INPLACE_OK = {"add", "sub", "mul", "div", "pow", "clamp", "sqrt", "abs", "neg", "addmm", "addcmul", "addcdiv", "lerp",
              "true_divide", "reciprocal", "square", "tril", "triu", "subtract", "multiply", "divide", "exp", "rsqrt",
              "clip", "clamp_min", "clamp_max", "baddbmm", "floor_divide", "remainder", "masked_fill", "index_add",
              "scatter_add", "index_copy", "scatter", "nan_to_num", "sign", "floor", "cumsum", "addbmm", "addr", "addmv"}
TENSOR_METHODS = {}
EXTFN = {}


def meth(names):
    def deco(f):
        for n in names.split():
            TENSOR_METHODS[n] = f
        return f

    return deco


def ext(*paths):
    def deco(f):
        for p in paths:
            EXTFN[p] = f
        return f

    return deco


from . import torchops  # noqa: E402,F401
