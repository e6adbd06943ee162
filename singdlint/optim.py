"""Scenarios and rules for the optimizer."""
from fractions import Fraction

from . import contract, torchops
from .interp import CtxV, NOATTR
from .path import Abort, Infeasible
from .sym import ONE, Sc, ZERO, node, sc, sym
from .ten import Ten, Term, slot
from .torchmodel import TorchModel
from .values import (BoundM, ClassV, Device, DType, Ext, FuncV, GenList, ModuleObj, Native, NumV, Obj, Partial, PyRaise,
                     SMV, Storage, TensorV, Unknown, Choice)
from .structs import check_eq

F32 = DType("float32")
CPU = Device("cpu")
OPT = ("singd.optim.optimizer", "SINGD")


def model(alias="copy", contig="pin"):
    return TorchModel(contract=True, alias=alias, contig=contig)


def _T(t):
    return t.permute([1, 0])


def num(x, kind="float"):
    return NumV(sc(x), kind)


def nonneg(i, name):
    """Real-valued hyper-parameter, zero or positive."""
    i.path.signs[name] = frozenset({0, 1})
    return NumV(Sc.atom(name), "float")


def positive(i, name):
    i.path.signs[name] = frozenset({1})
    return NumV(Sc.atom(name), "float")


def dimsym(i, name, lo=1):
    i.path.bd.set(name, lo)
    return sym(name, True)


class Layer:
    def __init__(self, key, mod, kind, dK, dC, group):
        self.key, self.mod, self.kind, self.dK, self.dC, self.group = key, mod, kind, dK, dC, group
        self.K_cls = self.C_cls = None

    @property
    def params(self):
        b = self.mod.attrs["bias"]
        return [self.mod.attrs["weight"]] + ([b] if b is not None else [])


class World:
    """A model, its optimizer and the reference state predicted by the specification."""

    def __init__(self, i, dtype=F32, device=CPU):
        self.i, self.m, self.p = i, i.model, i.path
        self.dtype, self.device = dtype, device
        self.layers = []
        self.all_params = []  # every parameter of the model
        self.params = []
        self.root = ModuleObj("net", "user.Net", {})
        self.h = {}
        self.state = {}
        self.opt = None
        self.hookbase = None
        self.seen_data = []
        self.i0 = 0
        self.scale_mode = "none"
        self.scales = {}
        self.t = 0
        self.clock = 0
        self.dist = False
        self.create_graph = False
        self.tag = 0
        self.paths = {}
        self.layer_env = {}
        self.nopass = set()  # ids of layer parameters that were not passed

    # ---------------------------------------------------------------- model
    def param(self, name, shape, requires_grad=True, dtype=None):
        t = self.m.new(Ten.atom(name, [sc(s) for s in shape]), dtype or self.dtype, self.device, root="param:" + name)
        t.param, t.leaf, t.label = name, requires_grad, name
        t.contig = True
        self.all_params.append(t)
        return t

    def linear(self, key, bias=True, group=0, passed=True, kind="torch.nn.Linear"):
        o, n = dimsym(self.i, f"out_{key}"), dimsym(self.i, f"in_{key}")
        mod = ModuleObj(key, kind, {"in_features": NumV(n, "int"), "out_features": NumV(o, "int")})
        mod.attrs["weight"] = self.param(f"W_{key}", [o, n])
        mod.attrs["bias"] = self.param(f"b_{key}", [o]) if bias else None
        l = Layer(key, mod, "linear", n + (1 if bias else 0), o, group)
        l.n, l.o = n, o
        if passed:
            self.layers.append(l)
        return l

    def conv(self, key, bias=True, group=0, passed=True, groups=True, padding="int", stride=True, dilation=True):
        i = self.i
        cin, o = dimsym(i, f"cin_{key}"), dimsym(i, f"cout_{key}")
        g = dimsym(i, f"groups_{key}") if groups else ONE
        k1, k2 = dimsym(i, f"k1_{key}"), dimsym(i, f"k2_{key}")
        if padding == "same":  # equal padding on both sides
            k1, k2 = (2 * dimsym(i, f"h{n}_{key}", 0) + 1 for n in (1, 2))
            stride = False
        s1, s2 = (dimsym(i, f"s1_{key}"), dimsym(i, f"s2_{key}")) if stride else (ONE, ONE)
        d1, d2 = (dimsym(i, f"d1_{key}"), dimsym(i, f"d2_{key}")) if dilation else (ONE, ONE)
        if padding == "int":
            p1, p2 = dimsym(i, f"p1_{key}", 0), dimsym(i, f"p2_{key}", 0)
            pad = (NumV(p1, "int"), NumV(p2, "int"))
        else:
            pad, p1, p2 = padding, None, None

        def I(x):
            return i.mknum(x, "int")

        mod = ModuleObj(key, "torch.nn.Conv2d", {
            "in_channels": I(g * cin), "out_channels": I(g * o), "groups": I(g), "kernel_size": (I(sc(k1)), I(sc(k2))),
            "stride": (I(s1), I(s2)), "dilation": (I(d1), I(d2)), "padding": pad, "padding_mode": "zeros",
            "transposed": False, "output_padding": (0, 0)})
        mod.attrs["weight"] = self.param(f"W_{key}", [g * o, cin, k1, k2])
        mod.attrs["bias"] = self.param(f"b_{key}", [g * o]) if bias else None
        l = Layer(key, mod, "conv", cin * k1 * k2 + (1 if bias else 0), g * o, group)
        l.g, l.cin, l.o, l.k, l.s, l.d, l.pad = g, cin, g * o, (k1, k2), (s1, s2), (d1, d2), (p1, p2)
        if passed:
            self.layers.append(l)
        return l

    def other(self, key, kind="torch.nn.BatchNorm2d"):
        n = dimsym(self.i, f"n_{key}")
        mod = ModuleObj(key, kind, {"num_features": NumV(n, "int")})
        mod.attrs["weight"] = self.param(f"W_{key}", [n])
        mod.attrs["bias"] = self.param(f"b_{key}", [n])
        return mod

    def build(self, tree):
        """tree: list of (name, module or list)."""

        def add(par, ch):
            for n, c in ch:
                if isinstance(c, Layer):
                    c = c.mod
                if isinstance(c, list):
                    s = ModuleObj(n, "torch.nn.Sequential", {})
                    add(s, c)
                    c = s
                par.children.append((n, c))

        add(self.root, tree)

    # ------------------------------------------------------------ optimizer
    def cls(self):
        return getclass(self.i, *OPT)

    def construct(self, params=None, **kw):
        i = self.i
        args = [self.root]
        self.opt = i.call(self.cls(), args, {"params": params, **kw})
        if not isinstance(self.opt, Obj):
            raise Abort(f"optimizer construction returned {self.opt!r}")
        return self.opt

    def groups(self):
        return self.i.getattr(self.opt, "param_groups")

    def set_hyper(self, l, **kw):
        """Change hyper-parameters of the layer's group (the documented param_groups interface)."""
        g = self.groups()[l.group]
        for k, v in kw.items():
            self.i.setitem(g, k, v)
        self.h.setdefault(l.key, {}).update(kw)

    # ------------------------------------------------------------ data
    def tensor(self, name, shape, scale=ONE, graph=False, dtype=None, device=None):
        t = self.m.new(Ten.atom(name, [sc(s) for s in shape]).scale(scale), dtype or self.dtype, device or self.device, root="data:" + name)
        t.label = name
        t.graph = graph
        return t

    def scale(self):
        """Gradient scale of the current iteration."""
        if self.scale_mode == "none":
            return ONE
        if self.clock < 1:
            return sc(8)
        n = f"scale{self.clock}"
        self.p.signs[n] = frozenset({1})
        self.p.data.setdefault("pos", set()).add(n)
        from .sym import ATOM_INFO

        ATOM_INFO.setdefault(n, {})["pos"] = True
        return Sc.atom(n)

    def shapes(self, l, share=0):
        b = dimsym(self.i, "batch")
        if l.kind == "linear":
            S = [dimsym(self.i, f"seq{k}") for k in range(share)]
            return [b, *S, l.n], [b, *S, l.o]
        H, W = dimsym(self.i, f"H_{l.key}"), dimsym(self.i, f"Wd_{l.key}")
        O1, O2 = self.out_size(l, 0, H), self.out_size(l, 1, W)
        return [b, l.g * l.cin, H, W], [b, l.o, O1, O2]

    def pads(self, l, k):
        """Zero padding added before and after dimension k."""
        if l.pad[k] is not None:
            return l.pad[k], l.pad[k]
        if l.mod.attrs["padding"] == "valid":
            return ZERO, ZERO
        tot = l.d[k] * (l.k[k] - 1)
        left = self.i.floordiv(tot, sc(2))
        return left, self.p.simp(tot - left)

    def out_size(self, l, k, I):
        lo, hi = self.pads(l, k)
        o = self.p.simp(self.i.floordiv(I + lo + hi - l.d[k] * (l.k[k] - 1) - 1, l.s[k]))
        if l.pad[k] is None and l.mod.attrs["padding"] == "same":
            return self.p.simp(o + 1)
        if len(o.t) == 1 and len(o.atoms()) == 1 and o == Sc.atom(next(iter(o.atoms()))):
            self.p.bd.set(next(iter(o.atoms())), 0)
        else:
            self.p.add_fact(o)
        return o + 1

    def forward(self, l, name, share=0, zero=False, in_dtype=None, out_dtype=None):
        i, p = self.i, self.p
        xs, gs = self.shapes(l, share)
        dt, dev = self.layer_env.get(l.key, (None, None))
        X = self.tensor(f"X{name}", xs, graph=True, dtype=in_dtype or dt, device=dev)
        if zero:
            X.st.val = Ten(X.shape)
        out = self.tensor(f"Y{name}", gs, graph=p.grad_mode, dtype=out_dtype or dt, device=dev)
        out.leaf = False
        X.attrs.pop("_c", None)
        n0 = len(p.events)
        for h in list(l.mod.fwd_hooks):
            r = i.call(h, [l.mod, (X,), out])
            if r is not None:
                p.oblige("P08", False, f"the forward hook on layer {l.key} replaces the layer output by {r!r}")
        self.watch(n0, [X.st, out.st], "forward pass", l)
        self.seen_data += [X, out]
        return X, out

    def backward(self, l, X, out, name, share=0, zero=False):
        i, p = self.i, self.p
        g = self.tensor(f"g{name}", out.shape, self.scale(), dtype=out.dtype, device=out.device)
        if zero:
            g.st.val = Ten(g.shape)
        g.contig = None
        gm = p.grad_mode
        p.grad_mode = self.create_graph
        g.graph = self.create_graph
        n0 = len(p.events)
        for h in list(out.hooks):
            r = i.call(h, [g])
            if r is not None:
                p.oblige("P08", False, f"the gradient hook on layer {l.key} replaces the output gradient by {r!r}")
        p.grad_mode = gm
        self.watch(n0, [X.st, out.st, g.st], "backward pass", l)
        self.seen_data.append(g)
        return g

    def watch(self, n0, sts, what, l):
        """Observer transparency of everything that ran since event n0."""
        p = self.p
        own = {id(s) for s in sts}
        par = {id(q.st): q for q in self.all_params}
        gr = {id(q.grad.st): q for q in self.all_params if q.grad is not None}
        for e in p.events[n0:]:
            k = e["kind"]
            if k == "mutate":
                s = id(e["st"])
                if s in own:
                    p.oblige("P08", False, f"{what} of layer {l.key}: {e['how']} modifies {e['label']} of the user's computation", site=e["site"])
                elif s in par:
                    p.oblige("P08", False, f"{what} of layer {l.key}: {e['how']} modifies parameter {par[s].label}", site=e["site"])
                elif s in gr:
                    p.oblige("P08", False, f"{what} of layer {l.key}: {e['how']} modifies the gradient of {gr[s].label}", site=e["site"])
            elif k in ("data-set", "grad-set") and e["tensor"] in [*self.all_params]:
                p.oblige("P08", False, f"{what} of layer {l.key}: re-assigns data or gradient of a parameter", site=e["site"])
            elif k in ("global", "rng", "model-attr"):
                p.oblige("P08", False, f"{what} of layer {l.key}: changes global state ({e.get('what') or e.get('name')})", site=e["site"])
            elif k == "grad-mode" and not e.get("scoped"):
                p.oblige("P08", False, f"{what} of layer {l.key}: leaves the autograd mode changed", site=e["site"])
        p.oblige("P08", True, f"{what} of layer {l.key} leaves the user's computation untouched")

    def grads(self, l, name, zero=False):
        s = self.scale()
        for q in l.params:
            q.grad = self.tensor(f"G{name}.{q.param}", q.shape, s, dtype=q.dtype, device=q.device)
            if zero:
                q.grad.st.val = Ten(q.shape)
            q.grad.contig = True
            q.grad.graph = self.create_graph

    def step(self, inf=None):
        i = self.i
        s = self.scale()
        if self.scale_mode == "scaler":
            self.opt.attrs["grad_scale"] = self.m.new(Ten.full((), s), DType("float32"), self.device, root="grad_scale")
            self.opt.attrs["found_inf"] = self.m.new(Ten.full((), inf if inf is not None else 0), DType("float32"),
                                                     self.device, root="found_inf")
        elif self.scale_mode == "manual":
            i.call_method(self.opt, "set_current_grad_scale", [NumV(s, "float")])
            if inf is not None:
                self.opt.attrs["found_inf"] = self.m.new(Ten.full((), inf), DType("float32"), self.device, root="found_inf")
        elif inf is not None:  # "none" and "early"
            self.opt.attrs["found_inf"] = self.m.new(Ten.full((), inf), DType("float32"), self.device, root="found_inf")
        r = i.call_method(self.opt, "step", [])
        for n in ("grad_scale", "found_inf"):
            self.opt.attrs.pop(n, None)
        self.clock += 1
        return r

    # -------------------------------------------------------- specification
    def moments(self, l, X, g, approx, avg):
        """Second moments of layer inputs and output gradients (documented statistics)."""
        bd = self.p.bd
        if l.kind == "linear":
            return lin_moments(self, l, X, g, approx, avg)
        return conv_moments(self, l, X, g, approx, avg)

    def spec_H(self, l, batches):
        st = self.state[l.key]
        h = self.h[l.key]
        bd = self.p.bd
        HK = HC = None
        for X, g in batches:
            A, B = self.moments(l, X, g, h["kfac_approx"], h["loss_average"])
            K, C = st["K"], st["C"]
            hk = contract.proj(bd, l.K_cls, inner(K, A))
            hc = contract.proj(bd, l.C_cls, inner(C, B))
            if self.dist:
                hk = torchops.coll_value(self.m, hk, "AVG")
                hc = torchops.coll_value(self.m, hc, "AVG" if h["loss_average"] else "SUM")
            HK = hk if HK is None else HK + hk
            HC = hc if HC is None else HC + hc
        return HK, HC

    def spec_update(self, l, batches, steps):
        """Specified pre-conditioner update."""
        st, h, i, m = self.state[l.key], self.h[l.key], self.i, self.m
        bd = self.p.bd
        HK, HC = self.spec_H(l, batches)
        K, C = st["K"], st["C"]
        KtK = contract.proj(bd, l.K_cls, _T(K).matmul(K))
        CtC = contract.proj(bd, l.C_cls, _T(C).matmul(C))
        kl, norm = h["kfac_like"], h["normalize_lr_cov"]
        lam, al = i.num(h["damping"]), i.num(h["alpha1"])
        half = sc(Fraction(1, 2)) * ((ONE - al) if norm else ONE)

        def tr(M):
            return m.ten_sc(contract.avg_trace(M))

        def eye(d):
            return Ten.full([d], ONE).embed_diag()

        mK = (HK.scale(ONE if kl else tr(HC)) + KtK.scale(lam * (ONE if kl else tr(CtC))) - eye(l.dK)).scale(half)
        mC = (HC.scale(ONE if kl else tr(HK)) + CtC.scale(lam * (ONE if kl else tr(KtK))) - eye(l.dC)).scale(half)
        if st.get("mK") is not None:
            mK = mK + st["mK"].scale(al)
            mC = mC + st["mC"].scale(al)
        mK, mC = self.p.simp_ten(mK).norm(bd), self.p.simp_ten(mC).norm(bd)
        beta = h["lr_cov"]
        if not isinstance(beta, NumV) and not isinstance(beta, (int, float)):
            beta = i.call(beta, [steps])
        beta = i.num(beta)
        bK = bC = beta
        if norm:
            bK = beta / m.maxsc(ONE, contract.inf_norm(bd, mK), "max")
            bC = beta / m.maxsc(ONE, contract.inf_norm(bd, mC), "max")
        new = dict(st)
        new["K"] = K - K.matmul(mK).scale(bK)
        new["C"] = C - C.matmul(mC).scale(bC)
        if st.get("mK") is not None and not self.i.path.simp(al).is_zero():
            new["mK"], new["mC"] = mK, mC
        return new

    def spec_params(self, l, st):
        """Specified parameter update from the (updated) pre-conditioner `st`."""
        h, i, m = self.h[l.key], self.i, self.m
        s = self.scale()
        w = l.mod.attrs["weight"]
        G = w.grad.st.val.scale(ONE / s)
        if l.kind == "conv":
            G = G.reshape([l.o, l.cin * l.k[0] * l.k[1]])
        nb = G.shape[1]
        if l.mod.attrs["bias"] is not None:
            gb = l.mod.attrs["bias"].grad.st.val.scale(ONE / s)
            G = G.place([l.dC, l.dK], 1, 0) + gb.unsqueeze(1).place([l.dC, l.dK], 1, nb)
        K, C = st["K"], st["C"]
        NG = C.matmul(_T(C)).matmul(G).matmul(K).matmul(_T(K))
        if self.dist:
            NG = torchops.coll_value(m, NG.norm(self.p.bd), "AVG" if h["loss_average"] else "SUM")
        lr, mu, wd = (i.num(h[k]) for k in ("lr", "momentum", "weight_decay"))
        out, bufs = [], []
        for n, q in enumerate(l.params):
            if n == 0:
                ng = NG.slice(1, 0, nb)
                if l.kind == "conv":
                    ng = ng.reshape(list(q.shape))
            else:
                ng = NG.slice(1, nb, 1).squeeze(1)
            old = st["p"][n]
            s_ = ng + old.scale(wd)
            v = st["v"][n]
            v2 = (v.scale(mu) + s_) if v is not None else s_
            out.append(old - v2.scale(lr))
            bufs.append(v2)
        return out, bufs

    def init_state(self):
        for l in self.layers:
            al = self.i.num(self.h[l.key]["alpha1"]) if not self.h[l.key]["kfac_like"] else ZERO
            has_m = not self.p.simp(al).is_zero()
            if has_m and self.p.possible(self.p.simp(al), False) == {0, 1}:
                has_m = not self.p.sign_in(al, {0}, False)
            self.state[l.key] = {
                "K": Ten.full([l.dK], ONE).embed_diag(), "C": Ten.full([l.dC], ONE).embed_diag(),
                "mK": Ten([l.dK, l.dK]) if has_m else None, "mC": Ten([l.dC, l.dC]) if has_m else None,
                "p": [q.st.val for q in l.params], "v": [None for _ in l.params],
            }

    # ------------------------------------------------------------ iteration
    def iteration(self, batches=1, data="full", grads="full", inf=None, share=0, only=None, ckpt=None):
        """Run one training iteration and return {layer: [(X, g)]}."""
        self.tag += 1
        self.i0 = len(self.p.events)
        runs = {}
        if self.scale_mode == "early":  # announced before the forward pass
            self.i.call_method(self.opt, "set_current_grad_scale", [NumV(self.scale(), "float")])
        for n in range(batches):
            fw = []
            for l in self.layers:
                nm = f"{self.tag}.{n}.{l.key}"
                X, out = self.forward(l, nm, share, zero=(data == "zero"))
                fw.append((l, X, out, nm))
            for l, X, out, nm in reversed(fw):
                g = self.backward(l, X, out, nm, share, zero=(data == "zero"))
                s = self.scale()
                runs.setdefault(l.key, []).append((X.st.val, g.st.val.scale(ONE / s)))
            if ckpt:
                ckpt(n)
        for l in self.layers:
            self.grads(l, f"{self.tag}", zero=(grads == "zero"))
        self.before = {l.key: [q.grad.st.val for q in l.params] for l in self.layers}
        self.n0 = len(self.p.events)
        gr = [(q, q.grad, q.grad.st.val if q.grad is not None else None) for q in self.all_params]
        self.step(inf)
        self.watch_step(self.n0, gr, [(f"tensor {t.label}", t) for t in self.seen_data])
        self.seen_data = []
        return runs

    def watch_step(self, n0, gr, data):
        """step() may write to trained parameters only."""
        p = self.p
        site = site_of(self, "step")
        trained = {id(q.st) for l in self.layers for q in l.params if id(q) not in self.nopass}
        for q, g, val in gr:
            if q.grad is not g:
                p.oblige("P08", False, f"step() re-assigns the gradient of {q.label}", site=site)
            elif g is not None and g.st.val is not val and not g.st.val.equals(val, p.bd):
                p.oblige("P08", False, f"step() modifies the gradient of {q.label}", site=self.last_write(n0, g.st) or site)
        for q in self.all_params:
            if id(q.st) not in trained:
                e = self.last_write(n0, q.st)
                if e:
                    p.oblige("P09", False, f"step() modifies {q.label}, which the optimizer does not train", site=e)
        for what, t in data:
            e = self.last_write(n0, t.st)
            if e:
                p.oblige("P08", False, f"step() modifies the user's {what}", site=e)
        for e in p.events[n0:]:
            if e["kind"] in ("global", "rng", "model-attr"):
                p.oblige("P08", False, f"step() changes global state or the model ({e.get('what') or e.get('name')})", site=e["site"])
            elif e["kind"] == "grad-mode" and not e.get("scoped"):
                p.oblige("P08", False, "step() leaves the autograd mode changed", site=e["site"])
        p.oblige("P08", True, "step() leaves gradients and other tensors of the user untouched")

    def last_write(self, n0, st):
        es = [e for e in self.p.events[n0:] if e["kind"] == "mutate" and e["st"] is st]
        return es[-1]["site"] if es else None

    def check(self, runs, updates, steps, rule="P02", prule="P01", skip=False, what=""):
        """Compare the optimizer's state with the specification; advances the reference state."""
        p = self.p
        for l in self.layers:
            st = self.state[l.key]
            upd = updates[l.key] and not skip
            new = self.spec_update(l, runs[l.key], steps) if upd else dict(st)
            if not skip:
                # clock already advanced by step(): gradient scale of the finished iteration
                self.clock -= 1
                ps, vs = self.spec_params(l, new)
                self.clock += 1
            else:
                ps, vs = st["p"], st["v"]
            mu = p.simp(self.i.num(self.h[l.key]["momentum"]))
            ps = [st["p"][n] if id(q) in self.nopass else want for n, (q, want) in enumerate(zip(l.params, ps))]
            for q, want in zip(l.params, ps):
                check_eq(self.i, "P09" if id(q) in self.nopass else "P06" if skip else prule, self.m.val(q), want, f"{what}parameter {q.param} after step", site_of(self, "step"))
            new["p"] = list(ps)
            if not skip and not mu.is_zero():
                new["v"] = list(vs)
            for role in ("K", "C", "mK", "mC"):
                if role in ("mK", "mC") and p.simp(self.i.num(self.h[l.key]["alpha1"])).is_zero():
                    continue
                path = self.paths.get((l.key, role))
                if path is None or new.get(role) is None:
                    continue
                got = getpath(self.opt, path)
                r = (rule[role] if isinstance(rule, dict) else rule) if upd else (
                    "P06" if skip else "P07" if rule == "P02" or isinstance(rule, dict) else rule)
                if not isinstance(got, SMV):
                    p.oblige(r, False, f"{what}{ROLE[role]} of layer {l.key} is {got!r} after the step")
                    continue
                check_eq(self.i, r, got.st.val, new[role], f"{what}{ROLE[role]} of layer {l.key} after "
                         + ("an update step" if upd else "a skipped step" if skip else "a step without pre-conditioner update"),
                         site_of(self, "step"))
            for n, q in enumerate(l.params):
                if id(q) in self.nopass:
                    continue
                path = self.paths.get((l.key, "v", n))
                if path is None or new["v"][n] is None or mu.is_zero():
                    continue
                got = getpath(self.opt, path)
                if isinstance(got, TensorV):
                    check_eq(self.i, "P06" if skip else prule, self.m.val(got), new["v"][n],
                             f"{what}momentum buffer of {q.param}", site_of(self, "step"))
                else:
                    p.oblige(prule, False, f"{what}momentum buffer of {q.param} is {got!r}")
            self.state[l.key] = new

    # --------------------------------------------------- state identification
    def identify(self):
        """Find which stored objects hold the specified state (by value)."""
        p, bd = self.p, self.p.bd
        want = {}
        for l in self.layers:
            st = self.state[l.key]
            for r in ("K", "C", "mK", "mC"):
                if st.get(r) is not None:
                    want[(l.key, r)] = st[r]
            for n, q in enumerate(l.params):
                if st["v"][n] is not None and id(q) not in self.nopass:
                    want[(l.key, "v", n)] = st["v"][n]
        objs = [(path, v) for path, v in walk(self.opt) if isinstance(v, (SMV, TensorV))
                and not (isinstance(v, TensorV) and (v.param is not None or not v.shape))]
        seen = {}
        left = []
        for path, v in objs:
            val = p.simp_ten(v.st.val).norm(bd) if isinstance(v, SMV) else p.simp_ten(self.m.val(v)).norm(bd)
            hit = None
            for key, w in want.items():
                if key in self.paths:
                    continue
                w = p.simp_ten(w).norm(bd)
                if [repr(x) for x in w.shape] == [repr(p.simp(x)) for x in val.shape] and w.equals(val, bd):
                    hit = key
                    break
            if hit is None:
                if v.id not in seen:
                    left.append((path, v, val))
                continue
            seen[v.id] = hit
            self.paths[hit] = path
        # a stored value of the right kind, under the documented name, that differs from the specification
        for key in [k for k in want if k not in self.paths]:
            for path, v, val in left:
                if v.id not in seen and self.named(key, path, v) and [repr(x) for x in want[key].shape] == [repr(x) for x in val.shape]:
                    r = "P01" if len(key) == 3 else "P02"
                    what = f"momentum buffer of {self.layer(key[0]).params[key[2]].label}" if len(key) == 3 else f"{ROLE[key[1]]} of layer {key[0]}"
                    check_eq(self.i, r, val, want[key], f"{what} after the first iteration", site_of(self, "step"))
                    seen[v.id] = key
                    self.paths[key] = path
                    break
        miss = [k for k in want if k not in self.paths]
        if miss:
            raise Abort(f"specified state {miss} not found in the optimizer after the first iteration")

    def layer(self, key):
        return next(l for l in self.layers if l.key == key)

    def named(self, key, path, v):
        """Whether the path has the documented (checkpoint) name of this part of the state."""
        l = self.layer(key[0])
        if len(key) == 3:
            q = l.params[key[2]]
            return isinstance(v, TensorV) and path[0] == ("attr", "state") and len(path) == 3 and path[1][1] is q and path[2][1] == "momentum_buffer"
        return isinstance(v, SMV) and len(path) == 2 and path[0] == ("attr", {"K": "Ks", "C": "Cs", "mK": "m_Ks", "mC": "m_Cs"}[key[1]]) and path[1][1] == self.name_of(l)

    def name_of(self, l):
        def go(m, pre):
            for n, c in m.children:
                if c is l.mod:
                    return pre + n
                r = go(c, pre + n + ".")
                if r:
                    return r
            return None

        return go(self.root, "")

    def generalise(self, tag):
        """Replace the whole state by unconstrained values of the same kind."""
        for key, path in self.paths.items():
            o = getpath(self.opt, path)
            if o is None:
                raise Abort(f"state {key} vanished")
            name = f"{key[1]}{key[2] if len(key) > 2 else ''}_{key[0]}{tag}"
            a = Ten.atom(name, list(o.st.val.shape) if isinstance(o, SMV) else list(o.shape))
            if isinstance(o, SMV):
                o.st.val = a
            else:
                if o.rel is not None:
                    raise Abort("momentum buffer is a view")
                o.st.val = a
                o.attrs.pop("_c", None)
            if len(key) == 2:
                self.state[key[0]][key[1]] = a
            else:
                self.state[key[0]]["v"][key[2]] = a
        for l in self.layers:
            for n, q in enumerate(l.params):
                a = Ten.atom(f"p{n}_{l.key}{tag}", list(q.shape))
                q.st.val = a
                q.attrs.pop("_c", None)
                self.state[l.key]["p"][n] = a


ROLE = {"K": "input-side factor", "C": "gradient-side factor", "mK": "input-side momentum", "mC": "gradient-side momentum"}


def inner(K, A):
    return _T(K).matmul(A).matmul(K)


def getclass(i, modname, name):
    m = i.resolve_import(modname)
    c = m.env.get(name)
    if not isinstance(c, ClassV):
        raise Abort(f"class {name} not found in {modname}")
    return c


def site_of(w, meth):
    c = w.opt.cls if w.opt is not None else w.cls()
    f, _ = c.lookup(meth)
    while f is not None and not isinstance(f, FuncV):
        f = getattr(f, "fn", None)
    return f"{f.module.path}:{f.node.lineno} in {f.qualname}" if f is not None else meth


# ------------------------------------------------------------------ object graph
def walk(o, path=(), seen=None, depth=0):
    """Reachable values of the optimizer: [(path, value)]."""
    seen = {} if seen is None else seen
    out = []
    if isinstance(o, (ModuleObj, ClassV, FuncV, BoundM, Native, Ext, Partial)) or depth > 8:
        return out
    if isinstance(o, (Obj, dict, list)):
        if id(o) in seen:
            return out
        seen[id(o)] = o
    if isinstance(o, Obj):
        if o.cls.name == "RemovableHandle":
            return out
        for k, v in o.attrs.items():
            out += walk(v, path + (("attr", k),), seen, depth + 1)
        if depth:
            out.append((path, o))
    elif isinstance(o, dict):
        for k, v in o.items():
            out += walk(v, path + (("key", k),), seen, depth + 1)
        out.append((path, o))
    elif isinstance(o, (list, tuple)):
        for n, v in enumerate(o):
            out += walk(v, path + (("idx", n),), seen, depth + 1)
        out.append((path, o))
    else:
        out.append((path, o))
    return out


def getpath(o, path):
    for k, n in path:
        try:
            if k == "attr":
                o = o.attrs[n]
            elif k == "idx":
                o = o[n]
            else:
                if n in o:
                    o = o[n]
                else:
                    return None
        except (KeyError, IndexError, TypeError):
            return None
    return o


def show_path(path):
    s = ""
    for k, n in path:
        n = n.label if isinstance(n, TensorV) else n
        s += f".{n}" if k == "attr" else f"[{n!r}]"
    return s or "."


# --------------------------------------------------------------- documented statistics
def with_ones(X, n, bias):
    """Append a constant one in the last position of the last dimension."""
    if not bias:
        return X
    sh = list(X.shape)
    k = len(sh) - 1
    new = sh[:k] + [n + 1]
    return X.place(new, k, 0) + Ten.full(sh[:k] + [ONE], ONE).place(new, k, n)


def lin_moments(w, l, X, g, approx, avg):
    B, S = X.shape[0], list(X.shape[1:-1])
    ns = ONE
    for s in S:
        ns = ns * s
    bias = l.mod.attrs["bias"] is not None
    k = len(S) + 1
    if approx == "expand":
        x, gg, n = with_ones(X, l.n, bias), g, B * ns
    else:
        dims = list(range(1, k))
        x = with_ones(X.sum(dims).scale(ONE / ns) if dims else X, l.n, bias)
        gg = g.sum(dims) if dims else g
        n = B
    A = second(x).scale(ONE / n)
    N = {None: ONE, "batch": B, "batch+sequence": B * ns}[avg]
    return A, second(gg).scale(N)


def second(x):
    """Sum of outer products over all leading dimensions."""
    k = len(x.shape)
    if k == 2:
        return _T(x).matmul(x)
    ia = [f"r{n}" for n in range(k - 1)]
    return x.einsum(x, ia + ["i"], ia + ["j"], ["i", "j"])


def conv_moments(w, l, X, g, approx, avg):
    B, _, H, W = X.shape
    O1, O2 = g.shape[2], g.shape[3]
    k1, k2 = l.k
    bias = l.mod.attrs["bias"] is not None
    pat = []
    for k, I in ((0, H), (1, W)):
        lo, hi = w.pads(l, k)
        pat.append(torchops.pat_atom(w.m, I, l.k[k], l.s[k], lo, hi, l.d[k])[0])
    # average over channel groups: x[b, c, h, w] = mean_g X[b, g*cin + c, h, w]
    x = X.rel([B, l.cin, H, W], lambda i, o, a: [i[0] - o[0], i[1] - a["g"] * l.cin - o[1], i[2] - o[2], i[3] - o[3]],
              {"g": l.g}).scale(ONE / l.g)
    # patches[b, o1, o2, (c, k1, k2)]: the padded input at position o * stride + k * dilation
    n = l.cin * k1 * k2
    P = x.einsum(pat[0], "bchw", "kih", "bcwki").einsum(pat[1], "bcwki", "ljw", "bijckl").reshape([B, O1, O2, n])
    if approx == "expand":
        x = with_ones(P, n, bias)
        A = second(x).scale(ONE / (B * O1 * O2))
        gg = g.permute([0, 2, 3, 1])
    else:
        x = with_ones(P.sum([1, 2]).scale(ONE / (O1 * O2)), n, bias)
        A = second(x).scale(ONE / B)
        gg = g.sum([2, 3])
    N = {None: ONE, "batch": B, "batch+sequence": B * O1 * O2}[avg]
    return A, second(gg).scale(N)


# ------------------------------------------------------------------ scenarios
STRUCT_A = ("block30diagonal", "triltoeplitz")
STRUCT_B = ("hierarchical15_15", "diagonal")
SETUP = dict(lr=Fraction(1, 8), momentum=Fraction(1, 2), damping=0, weight_decay=Fraction(1, 16), T=1,
             lr_cov=Fraction(1, 32), alpha1=Fraction(1, 2), loss_average="batch", kfac_approx="expand", kfac_like=False,
             normalize_lr_cov=False)


def lit(v):
    return num(v) if isinstance(v, Fraction) else v


def struct_classes(w, names):
    d = w.i.getattr(w.cls(), "SUPPORTED_STRUCTURES")
    return [w.i.force(d[n]) for n in names]


def std_world(i, setup=None, setup_b=None, scale="none", conv=False, extra=True, dist=False, bias=True, two=True):
    w = World(i)
    w.scale_mode = scale
    w.dist = dist
    if dist:
        i.path.data["dist"] = True
        i.path.data["local"] = ("X", "g", "G")
    a = (w.conv if conv else w.linear)("a", bias=bias, group=0)
    tree = [("a", a)]
    ha = {**SETUP, **(setup or {})}
    hb = {**SETUP, "lr": Fraction(1, 5), "momentum": Fraction(1, 3), "weight_decay": Fraction(1, 9),
          "lr_cov": Fraction(1, 11), "alpha1": Fraction(1, 13), **(setup_b or {})}
    groups = [{"params": list(a.params), "structures": STRUCT_A, **{k: lit(v) for k, v in ha.items()}}]
    w.h["a"] = {k: lit(v) for k, v in ha.items()}
    if two:
        b = w.linear("b", bias=False, group=1)
        groups.append({"params": list(b.params), "structures": STRUCT_B, **{k: lit(v) for k, v in hb.items()}})
        w.h["b"] = {k: lit(v) for k, v in hb.items()}
        tree.append(("blk", [("0", b), ("1", ModuleObj("act", "torch.nn.ReLU", {}))]))
    if extra:
        c = w.linear("c", bias=True, passed=False)
        w.unpassed = c
        tree += [("bn", w.other("bn")), ("c", c.mod)]
    w.build(tree)
    w.tree = tree
    kw = {}
    if scale != "none":
        w.scales[-1] = num(4)
        kw["init_grad_scale"] = w.scales[-1]
    w.ctor = kw
    w.construct(groups, **kw)
    for l, names in zip(w.layers, (STRUCT_A, STRUCT_B)):
        l.K_cls, l.C_cls = struct_classes(w, names)
    for l in w.layers:
        if w.h[l.key]["kfac_like"]:
            w.h[l.key]["alpha1"] = num(0)
    w.init_state()
    return w


def everything(w):
    return {l.key: True for l in w.layers}


def settle(w):
    """Iterations 0 and 1 with an update in each; leaves a generic state (K, C, momenta, parameters arbitrary) and the
    symbolic iteration counter t >= 2."""
    runs = w.iteration(data="zero")
    w.check(runs, everything(w), 0, what="iteration 0: ")
    w.identify()
    w.generalise("'")
    s1 = shape(w)
    w.iteration(grads="zero", data="zero")
    s2 = shape(w)
    n = 2
    while grown(s1, s2):
        # allow for a longer start-up phase, but not for steady growth
        if n == 6:
            for k in grown(s1, s2):
                w.p.oblige("P16", False, f"{k} grows in every iteration", site=site_of(w, "step"))
            raise Abort(f"the state grows in every iteration ({', '.join(grown(s1, s2))})")
        w.generalise(f"#{n}")
        n, s1 = n + 1, shape(w)
        w.iteration(grads="zero", data="zero")
        s2 = shape(w)
    w.t = dimsym(w.i, "t", n)
    lift(w, s1, s2, n)
    w.generalise("")
    w.base = shape(w)
    w.hookbase = hook_counts(w)
    return w


def hook_counts(w):
    """Number of hooks on the modules and parameters of the user's model."""
    out = {}

    def go(m):
        for a in ("fwd_hooks", "pre_hooks", "bwd_hooks"):
            out[f"{a.split('_')[0]} hooks of module {m.name}"] = len(getattr(m, a))
        for _, c in m.children:
            go(c)

    go(w.root)
    for q in w.all_params:
        out[f"hooks of parameter {q.label}"] = len(q.hooks)
    return out


def shape(w):
    """Snapshot of the optimizer's object graph: path -> (value, dict keys / length)."""
    out = {}
    for path, v in walk(w.opt):
        if path and path[0] in IGNORED:
            continue
        out[pkey(path)] = (path, v, list(v) if isinstance(v, dict) else len(v) if isinstance(v, (list, tuple)) else None)
    return out


# maintained by torch.optim.Optimizer itself
IGNORED = {("attr", "defaults"), ("attr", "param_groups")}


def pkey(path):
    return tuple((k, ("tensor", n.label) if isinstance(n, TensorV) else ("module", n.name) if isinstance(n, ModuleObj) else n)
                 for k, n in path)


def is_intlike(v):
    return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, NumV) and v.kind == "int"


def grown(s1, s2):
    """Containers that hold more entries than an iteration ago."""
    out = []
    for p, (path, v, k2) in s2.items():
        k1 = s1.get(p, (None, None, None))[2]
        a, b = (x if isinstance(x, int) else len(x) if x is not None else 0 for x in (k1, k2))
        if isinstance(v, (dict, list, tuple)) and p in s1 and b > a:
            out.append(show_path(path))
    return out


def lift(w, s1, s2, n=2):
    """Generalise iteration counters: values that advanced by one between two iterations become relative to t."""
    i = w.i
    t = w.t
    for p, (path, v2, _) in s2.items():
        v1 = s1.get(p, (None, None, None))[1]
        if is_intlike(v1) and is_intlike(v2) and not (i.num(v1) == i.num(v2)):
            diff = i.num(v2) - i.num(v1)
            if not (diff == 1):
                raise Abort(f"counter {show_path(path)} advances by {diff!r}")
            setpath(w.opt, path, NumV(t + (i.num(v2) - n), "int"))
    for p, (path, v, k2) in s2.items():
        if not isinstance(v, dict):
            continue
        k2 = [k for k in k2 if is_intlike(k)]
        k1 = [k for k in (s1.get(p, (None, None, []))[2] or []) if is_intlike(k)]
        if not k2 or sorted(map(repr, k1)) == sorted(map(repr, k2)):
            continue
        if len(k1) != len(k2) or sorted(int(i.num(k).const_val()) + 1 for k in k1) != sorted(int(i.num(k).const_val()) for k in k2):
            raise Abort(f"keys of {show_path(path)} change from {k1} to {k2}")
        items = list(v.items())
        v.clear()
        for k, x in items:
            v[NumV(t + (i.num(k) - n), "int") if is_intlike(k) else k] = x


def closure(w, n=1, rule="P16"):
    """After n further iterations the state has the same form as before, with all counters advanced by n."""
    i, p = w.i, w.p
    t = w.t

    def adv(x):
        return repr(p.simp(i.num(x).subst({"t": t + n}))) if is_intlike(x) else show_key(x)

    def cur(x):
        return repr(p.simp(i.num(x))) if is_intlike(x) else show_key(x)

    now = shape(w)
    b, c = {}, {}
    for src, dst, f in ((w.base, b, adv), (now, c, cur)):
        for pk, (path, v, ks) in src.items():
            name = "".join(f".{x}" if k == "attr" else f"[{f(x)}]" for k, x in path)
            if isinstance(v, (dict,)):
                d = "{" + ", ".join(sorted(f(x) for x in ks)) + "}"
            elif isinstance(v, (list, tuple)):
                d = f"sequence of length {ks}"
            elif is_intlike(v):
                d = f(v)
            elif isinstance(v, (SMV, TensorV)):
                d = "tensor"
            else:
                d = type(v).__name__
            dst[name] = d
    site = site_of(w, "step")
    ok = True
    for k in sorted(set(b) | set(c)):
        if b.get(k) != c.get(k):
            ok = False
            if k in c and k not in b:
                m = f"{k} is left behind after an iteration ({c[k]})"
            elif k in b and k not in c:
                m = f"{k} disappears after an iteration"
            else:
                m = f"{k} changes from {b[k]} to {c[k]} over an iteration"
            p.oblige(rule, False, "optimizer state is not invariant: " + m, site=site)
            if c.get(k) == "tensor" and rule != "P07":  # statistics that were not consumed
                p.oblige("P07", False, "not consumed by the step: " + m, site=site)
    if ok:
        p.oblige(rule, True, "state form invariant over the iteration")
        p.oblige("P07", True, "statistics consumed by the step")
    bound(w, site)
    return ok


def bound(w, site):
    """Nothing that the optimizer keeps may hold an autograd graph alive or accumulate."""
    p = w.p
    n = 0
    for path, v in walk(w.opt):
        if not isinstance(v, (SMV, TensorV)) or path[0] in IGNORED:
            continue
        n += 1
        if v.graph:
            p.oblige("P16", False, f"the stored tensor {show_path(path)} is attached to an autograd graph (which it keeps alive)", site=site)
    for q in w.all_params:
        p.oblige("P16", not q.graph, f"parameter {q.label} is attached to an autograd graph", site=site)
    now = hook_counts(w)
    for k, v in now.items():
        if w.hookbase is not None and w.hookbase.get(k, v) != v:
            p.oblige("P16", False, f"the number of {k} changes from {w.hookbase[k]} to {v} over an iteration", site=site)
    p.oblige("P16", True, f"{n} stored tensors free of autograd graphs, hooks constant")
    for e in p.events[w.i0:]:
        if e["kind"] == "densify":
            p.oblige("P17", False, f"converts a structured matrix {'to' if e['what'] == 'to_dense' else 'from'} a dense matrix", site=e["site"])
    p.oblige("P17", True, "no inverse, decomposition or dense conversion")


def show_key(x):
    if isinstance(x, TensorV):
        return str(x.label)
    if isinstance(x, ModuleObj):
        return "module " + x.name
    return str(x)


def setpath(o, path, v):
    par = getpath(o, path[:-1])
    k, n = path[-1]
    if k == "attr":
        par.attrs[n] = v
    elif isinstance(par, tuple):
        raise Abort("counter inside a tuple")
    else:
        par[n] = v


HYPER = ("lr", "momentum", "damping", "weight_decay", "lr_cov", "alpha1")


def new_hyper(w, l, T=True, **kw):
    """Replace all hyper-parameters of the layer's group by new arbitrary values."""
    i = w.i
    d = {n: nonneg(i, f"{n}_{l.key}") for n in HYPER}
    if T:
        d["T"] = NumV(dimsym(i, f"T_{l.key}"), "int")
    if w.state[l.key].get("mK") is None:
        d["alpha1"] = num(0)
    d.update(kw)
    w.set_hyper(l, **d)


def some_hyper(w, l, **kw):
    """As new_hyper, but momenta and weight decay are switched on."""
    i = w.i
    d = {n: positive(i, f"{n}_{l.key}") for n in ("momentum", "weight_decay")}
    if w.state[l.key].get("mK") is not None:
        d["alpha1"] = positive(i, f"alpha1_{l.key}")
    new_hyper(w, l, **d, **kw)


def updates(w, steps):
    i = w.i
    return {l.key: i.truth(i.compare("Eq", i.binop("Mod", steps, w.h[l.key]["T"]), 0)) for l in w.layers}


def S_precond(i, kfac_like=False, normalize=False, alpha=True, sched=False, scale="none", batches=1, dist=False, avg="batch"):
    """Pre-conditioner update from an arbitrary state with arbitrary hyper-parameters."""
    w = std_world(i, dict(kfac_like=kfac_like, alpha1=SETUP["alpha1"] if alpha else 0, normalize_lr_cov=normalize, loss_average=avg),
                  scale=scale, extra=False, dist=dist)
    settle(w)
    a, b = w.layers
    (new_hyper if scale == "none" else some_hyper)(w, a)
    if sched:
        w.set_hyper(a, lr_cov=Native("schedule", lambda it, x, k: NumV(Sc.atom(node("schedule", (it.num(x[0]),))), "float")))
    t = NumV(w.t, "int")
    # group b keeps its values except for its own update interval
    w.set_hyper(b, T=NumV(dimsym(i, "T_b"), "int"))
    upd = updates(w, t)
    runs = w.iteration(batches=batches, grads="zero")
    w.check(runs, upd, t)
    closure(w)
    return w


def S_natgrad(i, scale="none", conv=False, dist=False, avg="batch"):
    """Parameter update from an arbitrary state in a step without pre-conditioner update."""
    w = std_world(i, dict(loss_average=avg), scale=scale, conv=conv, dist=dist)
    settle(w)
    a, b = w.layers
    t = NumV(w.t, "int")
    for l in w.layers:
        (new_hyper if scale == "none" else some_hyper)(w, l)
    # only the steps in between two updates
    for l in w.layers:
        if i.truth(i.compare("Eq", i.binop("Mod", t, w.h[l.key]["T"]), 0)):
            raise Infeasible()
    runs = w.iteration()
    w.check(runs, {"a": False, "b": False}, t)
    closure(w)
    return w
