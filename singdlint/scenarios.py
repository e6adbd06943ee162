"""Further optimizer scenarios (statistics, schedule, skipping, parameter selection, options, check-pointing, ...)."""
from fractions import Fraction

from . import contract, pylib, torchops
from .path import Abort, Infeasible
from .optim import (CPU, F32, HYPER, SETUP, STRUCT_A, STRUCT_B, World, closure, dimsym, everything, getpath, lit,
                    model, new_hyper, nonneg, num, positive, settle, shape, show_path, site_of, some_hyper, std_world,
                    struct_classes, updates, walk)
from .sym import ONE, Sc, ZERO, sc, sym
from .structs import check_eq
from .ten import Ten
from .values import (DType, Device, GenList, ModuleObj, Native, NumV, Obj, PyRaise, SMV, TensorV)


def only_updates(w, t, want=True):
    """Restrict to steps in which every layer's pre-conditioner is (not) updated."""
    i = w.i
    for l in w.layers:
        if i.truth(i.compare("Eq", i.binop("Mod", t, w.h[l.key]["T"]), 0)) != want:
            raise Infeasible()
    return {l.key: want for l in w.layers}


def S_order(i, conv=False, scale="none", two=True):
    """The natural gradient uses the pre-conditioner of the same step."""
    w = std_world(i, dict(alpha1=0), dict(alpha1=0), conv=conv, scale=scale, extra=False, two=two)
    settle(w)
    t = NumV(w.t, "int")
    for l in w.layers:
        (new_hyper if scale == "none" else some_hyper)(w, l, damping=num(0))
    upd = only_updates(w, t)
    runs = w.iteration(data="zero")
    w.check(runs, upd, t)
    closure(w)


def one_world(i, kind="linear", hyper=None, scale="none", structures=STRUCT_A, bias=True, ctor=None, T=False, **lk):
    """A model with one trained layer."""
    w = World(i)
    w.scale_mode = scale
    a = (w.conv if kind == "conv" else w.linear)("a", bias=bias, group=0, **lk)
    h = {**SETUP, "alpha1": 0, "momentum": 0, "weight_decay": 0, **(hyper or {})}
    if T:
        h["T"] = NumV(dimsym(i, "T_a"), "int")
    w.h["a"] = {k: lit(v) for k, v in h.items()}
    w.build([("a", a)])
    w.construct([{"params": list(a.params), "structures": structures, **w.h["a"]}], **(ctor or {}))
    a.K_cls, a.C_cls = struct_classes(w, structures)
    w.init_state()
    return w


def S_stats(i, kind="linear", share=0, approx="expand", avg="batch", bias=True, structures=STRUCT_A, **lk):
    """Layer statistics for an arbitrary input, output gradient and pre-conditioner."""
    w = one_world(i, kind, dict(kfac_like=True, kfac_approx=approx, loss_average=avg), bias=bias, structures=structures, **lk)
    runs = w.iteration(data="zero", grads="zero", share=share)
    w.check(runs, everything(w), 0, what="iteration 0: ")
    w.identify()
    w.generalise("")
    runs = w.iteration(grads="zero", share=share)
    w.check(runs, everything(w), 1, rule={"K": "P03", "C": "P04"})


def S_inf(i, scale="scaler", T=True):
    """A step skipped because of non-finite gradients, followed by a regular step."""
    w = std_world(i, dict(alpha1=0), dict(alpha1=0), scale=scale, extra=False)
    settle(w)
    t = NumV(w.t, "int")
    some_hyper(w, w.layers[0])
    runs = w.iteration(grads="full", inf=1)
    w.check(runs, {"a": False, "b": False}, t, skip=True, what="skipped step: ")
    warned = [e for e in i.path.events[w.n0:] if e["kind"] == "warn"]
    i.path.oblige("P06", bool(warned), "a skipped step is announced by a warning", site=site_of(w, "step"))
    closure(w, rule="P06")
    # nothing of the skipped iteration may reach the next one
    w.set_hyper(w.layers[0], T=NumV(dimsym(i, "T2_a"), "int"), damping=num(0))
    t1 = NumV(w.t + 1, "int")
    upd = updates(w, t1)
    runs = w.iteration(grads="zero", data="full", inf=0 if scale != "none" else None)
    w.check(runs, upd, t1, rule="P06", prule="P06", what="step after a skipped step: ")
    closure(w, 2, rule="P06")


def S_early(i, steps=3, alpha=True):
    """The first iterations from construction, with an arbitrary update interval."""
    w = one_world(i, "linear", dict(T=None, alpha1=SETUP["alpha1"] if alpha else 0, momentum=SETUP["momentum"]), T=True)
    T = w.h["a"]["T"]
    for n in range(steps):
        upd = {"a": i.truth(i.compare("Eq", i.binop("Mod", n, T), 0))}
        last = n == steps - 1
        runs = w.iteration(data="zero" if n == 0 else "full", grads="zero" if n else "full")
        w.check(runs, upd, n, what=f"iteration {n}: ", rule="P02")
        if n == 0:
            w.identify()
        if not last:
            w.generalise(f".{n}")


def S_modes(i, case="nograd"):
    """Forward passes that are not followed by a backward pass."""
    w = std_world(i, dict(alpha1=0), dict(alpha1=0), extra=False)
    settle(w)
    p = i.path
    t = NumV(w.t, "int")
    some_hyper(w, w.layers[0], damping=num(0))
    w.set_hyper(w.layers[1], T=NumV(dimsym(i, "T_b"), "int"))
    upd = updates(w, t)
    for l in w.layers:
        if case == "nograd":
            p.grad_mode = False
        X, out = w.forward(l, f"E.{l.key}")
        if case == "nograd":
            p.oblige("P08", not out.hooks, f"a forward pass of layer {l.key} without gradients leaves a hook on its output",
                     site=site_of(w, "step"))
            for h in out.hooks:
                pass
            p.grad_mode = True
    closure(w, 0, rule="P08")
    runs = w.iteration(grads="zero")
    w.check(runs, upd, t, rule="P08", prule="P08", what=f"step after a forward pass {CASES[case]}: ")
    closure(w, rule="P08")


CASES = {"nograd": "without gradients", "nobackward": "that is not differentiated"}


# ------------------------------------------------------------------ which parameters are trained
def unsupported(w, tree_mods):
    return [q for q in w.all_params if id(q) not in {id(x) for l in w.layers for x in l.params}]


def S_params(i, case="none", warn=True):
    """Only parameters passed to the optimizer (by default: trainable parameters of supported layers) are changed."""
    w = World(i)
    p = i.path
    a = w.linear("a", bias=True)
    b = w.conv("b", bias=True, stride=False, dilation=False, groups=False)
    c = w.linear("c", bias=True, passed=False)
    d = w.linear("d", bias=False, passed=False)
    bn = w.other("bn")
    frozen_bn = w.other("fbn", "torch.nn.LayerNorm")
    for q in (frozen_bn.attrs["weight"], frozen_bn.attrs["bias"]):
        q.leaf = False
    w.build([("a", a), ("blk", [("conv", b), ("bn", bn), ("c", c)]), ("fbn", frozen_bn), ("d", d),
             ("act", ModuleObj("act", "torch.nn.ReLU", {}))])
    h = {**SETUP, "alpha1": 0, "T": 1}
    kw = {k: lit(v) for k, v in h.items()}
    w.h["a"] = w.h["b"] = dict(kw)
    kw["structures"] = STRUCT_A
    if case == "none":
        for q in c.params + d.params:
            q.leaf = False
        params = None
    elif case == "list":
        params = a.params + b.params
    elif case == "generator":
        params = GenList(a.params + b.params)
    elif case == "weights":
        params = [a.params[0], b.params[0]]
        w.nopass = {id(a.params[1]), id(b.params[1])}
    elif case == "groups":
        params = [{"params": a.params}, {"params": GenList(b.params)}]
        b.group = 1
    n0 = len(p.events)
    w.construct(params, warn_unsupported=warn, **kw)
    site = site_of(w, "__init__")
    warned = [e for e in p.events[n0:] if e["kind"] == "warn" and "bn" in str(e.get("msg"))]
    if case == "none":
        p.oblige("P09", bool(warned) == warn, f"trainable parameters of an unsupported layer are {'' if warn else 'not '}announced by a warning",
                 site=site)
        p.oblige("P09", not any("fbn" in str(e.get("msg")) for e in p.events[n0:] if e["kind"] == "warn"),
                 "no warning about frozen parameters", site=site)
    got = [q for g in w.groups() for q in g["params"]]
    want = [q for l in (a, b) for q in l.params if id(q) not in w.nopass]
    p.oblige("P09", {id(q) for q in got} == {id(q) for q in want} and len(got) == len(want),
             f"the optimizer trains {[q.label for q in got]} but must train {[q.label for q in want]}", site=site)
    for l in (a, b):
        l.K_cls, l.C_cls = struct_classes(w, STRUCT_A)
    w.init_state()
    w.layers_all = [a, b, c, d]
    others = [q for q in w.all_params if all(q is not x for l in (a, b) for x in l.params)]
    before = {id(q): (q.st.val, q.st) for q in others}
    gr = {}
    for n in range(2):
        for q in others:
            q.grad = w.tensor(f"G{n}.o.{q.param}", q.shape)
            gr[id(q)] = (q.grad, q.grad.st.val)
        for l in (c, d):
            X, out = w.forward(l, f"O{n}.{l.key}")
            w.backward(l, X, out, f"O{n}.{l.key}")
        runs = w.iteration(data="zero")
        w.check(runs, everything(w), n, what=f"iteration {n}: ", rule="P09", prule="P09")
        for q in others:
            v, st = before[id(q)]
            check_eq(i, "P09", w.m.val(q), v, f"parameter {q.label} that is not trained, after step", site_of(w, "step"))
            g, gv = gr[id(q)]
            p.oblige("P09", q.grad is g and g.st.val is gv, f"gradient of {q.label} left alone", site=site_of(w, "step"))
        if n == 0:
            w.identify()
    for path, v in walk(w.opt):
        if path and path[0] in (("attr", "defaults"), ("attr", "param_groups")):
            continue
        hits = [k[1] for k in path if k[0] == "key" and isinstance(k[1], TensorV) and any(k[1] is q for q in others)]
        if hits:
            p.oblige("P09", False, f"state {show_path(path)} is kept for a parameter that is not trained", site=site_of(w, "step"))


def S_flags(i, flag="kfac_approx", share=1, batches=1):
    """Options changed through the parameter groups take effect immediately and only for their group."""
    kl = flag == "kfac_like"
    w = std_world(i, dict(alpha1=0), dict(alpha1=0), extra=False)
    settle(w)
    a, b = w.layers
    new = {"kfac_approx": "reduce", "loss_average": None, "normalize_lr_cov": True, "kfac_like": True,
           "loss_average2": "batch+sequence"}[flag]
    if flag == "hyper":
        pass
    w.set_hyper(a, **{flag.rstrip("2"): new})
    for l in w.layers:
        w.set_hyper(l, damping=positive(i, f"damping_{l.key}"))
    t = NumV(w.t, "int")
    runs = w.iteration(grads="zero", share=share)
    w.check(runs, {"a": True, "b": True}, t, rule="P10", prule="P10")
    closure(w, rule="P10")


# ------------------------------------------------------------------ check-pointing
def snapshot(v, depth=0):
    """Structural copy of nested containers (leaves by identity)."""
    if isinstance(v, dict):
        return ("dict", [(k, snapshot(x)) for k, x in v.items()])
    if isinstance(v, list):
        return ("list", [snapshot(x) for x in v])
    if isinstance(v, tuple):
        return ("tuple", [snapshot(x) for x in v])
    if isinstance(v, (SMV,)):
        return ("sm", id(v), v.st.val)
    if isinstance(v, TensorV):
        return ("tensor", id(v), v.st.val)
    return ("leaf", v)


def same_snapshot(a, b, path=""):
    """None if equal, else a description of the difference."""
    if a[0] != b[0]:
        return f"{path or 'dictionary'}: {a[0]} became {b[0]}"
    if a[0] == "dict":
        ka, kb = [k for k, _ in a[1]], [k for k, _ in b[1]]
        gone = [k for k in ka if not any(same_key(k, x) for x in kb)]
        new = [k for k in kb if not any(same_key(k, x) for x in ka)]
        if gone or new:
            return f"{path or 'dictionary'}: entries removed {gone}, added {new}"
        for k, x in a[1]:
            y = [y for kk, y in b[1] if same_key(k, kk)][0]
            d = same_snapshot(x, y, f"{path}[{k!r}]")
            if d:
                return d
        return None
    if a[0] in ("list", "tuple"):
        if len(a[1]) != len(b[1]):
            return f"{path}: length {len(a[1])} became {len(b[1])}"
        for n, (x, y) in enumerate(zip(a[1], b[1])):
            d = same_snapshot(x, y, f"{path}[{n}]")
            if d:
                return d
        return None
    if a[0] in ("sm", "tensor"):
        return None if a[1] == b[1] and a[2] is b[2] else f"{path}: tensor replaced or modified"
    x, y = a[1], b[1]
    if x is y or isinstance(x, (int, float, str, bool, type(None), Fraction)) and x == y:
        return None
    if isinstance(x, NumV) and isinstance(y, NumV) and x.sc == y.sc:
        return None
    if repr(x) == repr(y):
        return None
    return f"{path}: {x!r} became {y!r}"


def same_key(a, b):
    return a is b or type(a) is type(b) and repr(a) == repr(b)


def fresh_model(w):
    """A second, equal model; the world continues on it.  Returns {old parameter id: new parameter}."""
    mp, mods = {}, {}

    def copy(m):
        n = ModuleObj(m.name, m.kind, {})
        mods[id(m)] = n
        for k, v in m.attrs.items():
            if isinstance(v, TensorV) and v.param is not None:
                t = w.m.new(v.st.val, v.dtype, v.device, root="param:" + v.param)
                t.param, t.leaf, t.label, t.contig = v.param, v.leaf, v.label, v.contig
                mp[id(v)] = t
                v = t
            n.attrs[k] = v
        for nm, c in m.children:
            n.children.append((nm, copy(c)))
        return n

    w.root = copy(w.root)
    for l in w.layers:
        l.mod = mods[id(l.mod)]
    w.all_params = [mp.get(id(q), q) for q in w.all_params]
    return mp


def restore(w, groups, inplace=False):
    """Save the optimizer's state, build a new model and optimizer and load the state there."""
    i, p = w.i, w.p
    old = w.opt
    sd = i.call_method(old, "state_dict", [])
    p.oblige("P11", isinstance(sd, dict), "the saved state is a dictionary", site=site_of(w, "state_dict"))
    saved = pylib.deepcopy(i, sd)
    mp = fresh_model(w)
    for g in groups:
        g["params"] = [mp[id(q)] for q in g["params"]]
    w.construct(groups, **w.ctor)
    before = snapshot(saved)
    i.call_method(w.opt, "load_state_dict", [saved])
    d = same_snapshot(before, snapshot(saved))
    p.oblige("P11", d is None, f"loading modifies the caller's dictionary: {d}" if d else "the caller's dictionary is left alone",
             site=site_of(w, "load_state_dict"))
    new = {}
    for key, path in w.paths.items():
        new[key] = tuple((k, mp.get(id(n), n)) if k == "key" and isinstance(n, TensorV) else (k, n) for k, n in path)
        o = getpath(w.opt, new[key])
        p.oblige("P11", isinstance(o, (SMV, TensorV)), f"state {show_path(new[key])} is restored", site=site_of(w, "load_state_dict"))
        if not isinstance(o, (SMV, TensorV)):
            raise Stop()
    w.paths = new
    return old


class Stop(Exception):
    pass


def S_ckpt(i, case="rest", scale="none", kfac_like=False):
    """A run continued from a saved state behaves as if it had not been interrupted."""
    w = World(i)
    w.scale_mode = scale
    a, b = w.linear("a", bias=True, group=0), w.linear("b", bias=False, group=1)
    ha = {**SETUP, "kfac_like": kfac_like, "alpha1": 0 if kfac_like else SETUP["alpha1"]}
    hb = {**SETUP, "lr": Fraction(1, 5), "momentum": Fraction(1, 3), "alpha1": 0, "lr_cov": Fraction(1, 11)}
    w.h["a"], w.h["b"] = ({k: lit(v) for k, v in h.items()} for h in (ha, hb))
    w.build([("a", a), ("blk", [("0", b), ("act", ModuleObj("act", "torch.nn.ReLU", {}))])])
    w.ctor = {"init_grad_scale": num(4)} if scale != "none" else {}

    def mk():
        return [{"params": list(l.params), "structures": s, **{k: lit(v) for k, v in h.items()}}
                for l, s, h in ((a, STRUCT_A, ha), (b, STRUCT_B, hb))]

    w.construct(mk(), **w.ctor)
    for l, names in zip(w.layers, (STRUCT_A, STRUCT_B)):
        l.K_cls, l.C_cls = struct_classes(w, names)
    w.init_state()
    settle(w)
    # hyper-parameters at the time of saving differ from those given to the constructor
    some_hyper(w, a, damping=num(0))
    w.set_hyper(b, T=NumV(dimsym(i, "T_b"), "int"), lr=positive(i, "lr_b"))
    t = NumV(w.t, "int")
    upd = updates(w, t)
    try:
        if case == "rest":
            restore(w, mk())
            w.base = shape(w)
            runs = w.iteration(data="zero")
        else:  # between the backward passes and the step
            base = w.base

            def ck(n):
                if n == 0:
                    restore(w, mk())

            runs = w.iteration(batches=2 if case == "accumulate" else 1, ckpt=ck, grads="zero")
            w.base = None
    except Stop:
        return
    w.check(runs, upd, t, rule="P11", prule="P11", what="after restoring: ")
    if w.base is not None:
        closure(w, rule="P11")


def S_coll(i, found=False, scale="none", normalize=False, alpha=0, kfac_like=False, batches=1, part="data"):
    """Collective operations of one iteration from an arbitrary state (sequence only)."""
    w = std_world(i, dict(alpha1=alpha, normalize_lr_cov=normalize, kfac_like=kfac_like), dict(alpha1=0), scale=scale, dist=True, extra=False)
    settle(w)
    for l in w.layers:
        w.set_hyper(l, T=NumV(dimsym(i, f"T_{l.key}"), "int"), damping=positive(i, f"damping_{l.key}"))
    inf = None
    if found:
        i.path.signs["found_inf"] = frozenset({0, 1})
        inf = Sc.atom("found_inf")
    w.iteration(batches=batches, inf=inf, data="full" if part == "data" else "zero", grads="full" if part == "grads" else "zero")


# ------------------------------------------------------------------ construction
def attempt(i, f):
    """Result of a call: ('ok', value) or ('raise', exception name)."""
    try:
        return "ok", f()
    except PyRaise as e:
        return "raise", exc_names(e.exc)


def exc_names(e):
    c = getattr(e, "cls", None)
    names = {str(getattr(e, "name", ""))}
    if c is not None:
        try:
            names |= {getattr(x, "name", getattr(x, "path", str(x))).split(".")[-1] for x in c.mro()}
        except Exception:
            names.add(getattr(c, "name", ""))
    return names | {repr(e).split("(")[0]}


def small(i):
    w = World(i)
    a, b = w.linear("a", bias=True), w.linear("b", bias=False)
    w.build([("a", a), ("b", b)])
    return w, a, b


def S_invalid(i, case="negative", name="lr", kind="float", where="ctor", value=None):
    """Unsupported configurations are rejected when the optimizer is constructed."""
    p = i.path
    w, a, b = small(i)
    site = site_of(w, "__init__")
    if case == "negative":
        p.signs[name] = frozenset({-1, 0, 1})
        v = NumV(sym(name, True) if kind == "int" else Sc.atom(name), kind)
        if kind == "int":
            p.signs.pop(name, None)
            p.bd.lo.pop(name, None)
            p.bd.hi.pop(name, None)
            from .sym import ATOM_INFO
            ATOM_INFO.get(name, {}).pop("pos", None)
        r, e = attempt(i, lambda: w.construct(None, **{name: v}))
        neg = i.truth(i.compare("Lt", v, 0))
        if neg:
            p.oblige("P13", r == "raise" and "ValueError" in e, f"a negative {name} ({kind}) is {'rejected with ' + str(sorted(e)) if r == 'raise' else 'accepted'}"
                     " but must be rejected with ValueError", site=site)
        else:
            p.oblige("P13", r == "ok", f"a non-negative {name} ({kind}) is rejected with {e}" if r != "ok" else f"non-negative {name} accepted", site=site)
    elif case == "option":
        ctor, groups = {}, [{"params": list(a.params)}, {"params": list(b.params)}]
        if where == "ctor":
            ctor[name] = value
            groups = None
        else:
            groups[where][name] = value
        r, e = attempt(i, lambda: w.construct(groups, **ctor))
        p.oblige("P13", r == "raise" and "ValueError" in e, f"{name}={value!r} ({where if where == 'ctor' else 'group ' + str(where)}) is "
                 f"{'rejected with ' + str(sorted(e)) if r == 'raise' else 'accepted'} but must be rejected with ValueError", site=site)
    elif case == "split":
        groups = [{"params": [a.params[0]]}, {"params": [a.params[1], *b.params]}]
        if where == 1:
            groups = [{"params": [a.params[1], *b.params]}, {"params": [a.params[0]]}]
        r, e = attempt(i, lambda: w.construct(groups))
        p.oblige("P13", r == "raise" and "ValueError" in e, "parameters of one layer in different groups must be rejected with ValueError, but are "
                 + (f"rejected with {sorted(e)}" if r == "raise" else "accepted"), site=site)
    elif case == "wrapper":
        inner = w.root
        w.root = ModuleObj("wrapped", "torch.nn.parallel." + name, {})
        w.root.children.append(("module", inner))
        r, e = attempt(i, lambda: w.construct(None))
        p.oblige("P13", r == "raise" and "TypeError" in e, f"a model wrapped in {name} must be rejected with TypeError, but is "
                 + (f"rejected with {sorted(e)}" if r == "raise" else "accepted"), site=site)
    elif case == "closure":
        w.construct(None)
        for l in (a, b):
            w.grads(l, "1")
        before = [(q, q.st.val) for q in w.all_params]
        s0 = snapshot_state(w)
        r, e = attempt(i, lambda: i.call_method(w.opt, "step", [Native("closure", lambda it, x, k: None)]))
        p.oblige("P13", r == "raise" and "NotImplementedError" in e, "a closure must be rejected with NotImplementedError, but is "
                 + (f"rejected with {sorted(e)}" if r == "raise" else "accepted"), site=site_of(w, "step"))
        p.oblige("P13", all(q.st.val is v for q, v in before) and s0 == snapshot_state(w),
                 "rejecting a closure changes neither parameters nor optimizer state", site=site_of(w, "step"))
    elif case == "kfac_like":
        # documented: kfac_like ignores the Riemannian momentum and announces that it is switched off
        n0 = len(p.events)
        al = positive(i, "alpha1")
        if where == "ctor":
            w.construct(None, kfac_like=True, alpha1=al)
        else:
            w.construct([{"params": list(a.params), "kfac_like": True, "alpha1": al}, {"params": list(b.params), "alpha1": num(0)}])
        p.oblige("P13", any(e["kind"] == "warn" for e in p.events[n0:]), "switching off the Riemannian momentum for kfac_like is announced by a warning", site=site)
        g = w.groups()[0]
        p.oblige("P13", p.simp(i.num(g["alpha1"])).is_zero(), "the Riemannian momentum is switched off for kfac_like", site=site)
    elif case == "valid":
        r, e = attempt(i, lambda: w.construct(None, **{name: value}))
        p.oblige("P13", r == "ok", f"the documented option {name}={value!r} is rejected with {e}" if r != "ok" else f"{name}={value!r} accepted", site=site)


def snapshot_state(w):
    return sorted((repr(pk), type(v).__name__ if isinstance(v, (dict, list, tuple)) else repr(v) if not isinstance(v, (SMV, TensorV)) else id(v.st.val))
                  for pk, (path, v, k) in shape(w).items())


DOCUMENTED = {"dense": "DenseMatrix", "diagonal": "DiagonalMatrix", "block30diagonal": "Block30DiagonalMatrix",
              "hierarchical15_15": "Hierarchical15_15Matrix", "triltoeplitz": "TrilToeplitzMatrix",
              "triutoeplitz": "TriuToeplitzMatrix"}


def S_dispatch(i, K="dense", C="dense", where="ctor"):
    """Every documented structure name selects its structure for the documented side and layer dimensions."""
    w = World(i)
    p = i.path
    a, b = w.linear("a", bias=True), w.conv("b", bias=False, stride=False, dilation=False, groups=False)
    w.build([("a", a), ("b", b)])
    h = {k: lit(v) for k, v in {**SETUP, "T": 1, "alpha1": Fraction(1, 2)}.items()}
    w.h["a"] = w.h["b"] = h
    names = (K, C)
    if where == "ctor":
        w.construct(None, structures=names, **h)
    else:
        other = ("diagonal", "triltoeplitz")
        b.group = 1
        w.construct([{"params": list(a.params), "structures": names}, {"params": list(b.params), "structures": other}], **h)
    site = site_of(w, "__init__")
    for l in w.layers:
        ns = names if where == "ctor" or l is a else other
        l.K_cls, l.C_cls = struct_classes(w, ns)
        for side, n, cls in zip(("input", "gradient"), ns, (l.K_cls, l.C_cls)):
            p.oblige("P14", cls.name == DOCUMENTED[n], f"structure {n!r} of the {side} side is implemented by {cls.name} "
                     f"but must be {DOCUMENTED[n]}", site=site)
    w.init_state()
    runs = w.iteration(data="full", grads="zero")
    w.check(runs, everything(w), 0, rule="P14", prule="P14")
    w.identify()
    for l in w.layers:
        ns = names if where == "ctor" or l is a else other
        for role, side, n, d in (("K", "input", ns[0], l.dK), ("C", "gradient", ns[1], l.dC), ("mK", "input", ns[0], l.dK), ("mC", "gradient", ns[1], l.dC)):
            o = getpath(w.opt, w.paths[(l.key, role)])
            ok = isinstance(o, SMV) and o.cls.name == DOCUMENTED[n] and p.simp(sc(o.dim)) == p.simp(d)
            p.oblige("P14", ok, f"{side}-side {'momentum' if role[0] == 'm' else 'factor'} of layer {l.key} is {getattr(getattr(o, 'cls', None), 'name', o)} "
                     f"of dimension {getattr(o, 'dim', '?')!r} but must be {DOCUMENTED[n]} of dimension {d!r}", site=site)


def S_unknown(i, side=0, name="bogus", where="ctor"):
    """Unknown structure names are rejected."""
    w, a, b = small(i)
    s = ["dense", "dense"]
    s[side] = name
    if where == "ctor":
        r, e = attempt(i, lambda: w.construct(None, structures=tuple(s)))
    else:
        r, e = attempt(i, lambda: w.construct([{"params": list(a.params)}, {"params": list(b.params), "structures": tuple(s)}]))
    i.path.oblige("P14", r == "raise", f"the unknown structure {name!r} is accepted", site=site_of(w, "__init__"))


def S_dtype(i, weight="float32", pre=(None, None), inp=None, alpha=True, kfac_like=False, normalize=False, where="ctor", conv=False, scale="none"):
    """Data types and devices of the optimizer's state and of its updates."""
    p = i.path
    D = {n: DType(n) for n in ("float32", "bfloat16", "float16", "float64")}
    w = World(i)
    w.scale_mode = scale
    w.dtype, w.device = D[weight], Device("cuda:0")
    a = (w.conv if conv else w.linear)("a", bias=True)
    w.dtype, w.device = F32, Device("cuda:1")
    b = w.linear("b", bias=False)
    w.build([("a", a), ("b", b)])
    h = {k: lit(v) for k, v in {**SETUP, "T": 1, "alpha1": SETUP["alpha1"] if alpha else 0, "kfac_like": kfac_like,
                                "normalize_lr_cov": normalize}.items()}
    if kfac_like:
        h["alpha1"] = num(0)
    w.h["a"], w.h["b"] = h, dict(h)
    pd = tuple(D[x] if x else None for x in pre)
    kw = {"init_grad_scale": num(4)} if scale != "none" else {}
    if where == "ctor":
        w.construct(None, structures=STRUCT_A, preconditioner_dtype=pd, **h, **kw)
        pdb = pd
    else:
        b.group = 1
        pdb = (None, D["bfloat16"])
        w.construct([{"params": list(a.params), "preconditioner_dtype": pd}, {"params": list(b.params), "preconditioner_dtype": pdb}],
                    structures=STRUCT_A, **h, **kw)
    for l in w.layers:
        l.K_cls, l.C_cls = struct_classes(w, STRUCT_A)
    w.init_state()
    site = site_of(w, "step")
    cfg = {"a": (D[weight], Device("cuda:0"), pd), "b": (F32, Device("cuda:1"), pdb)}
    for n in range(2):
        n0 = len(p.events)
        w.layer_env = {l.key: (D[inp] if inp else cfg[l.key][0], cfg[l.key][1]) for l in w.layers}
        runs = w.iteration(data="zero" if n == 0 else "full", grads="full" if n == 0 else "zero")
        w.check(runs, everything(w), n, rule="P15", prule="P15", what=f"iteration {n}: ")
        if n == 0:
            w.identify()
            w.generalise("'")
        for l in w.layers:
            wd, dev, (dk, dc) = cfg[l.key]
            for (key, role, *k), path in w.paths.items():
                if key != l.key:
                    continue
                o = getpath(w.opt, path)
                want = (dk or wd) if role in ("K", "mK") else (dc or wd) if role in ("C", "mC") else wd
                p.oblige("P15", o is not None and p.tok_eq(o.dtype, want) and p.tok_eq(o.device, dev),
                         f"{show_path(path)} has type {o.dtype.name} on {o.device.name} but must have {want.name} on {dev.name}"
                         f" (weights {wd.name}, pre-conditioner {pre})", site=site)
            for q in l.params:
                p.oblige("P15", p.tok_eq(q.dtype, wd) and p.tok_eq(q.device, dev),
                         f"parameter {q.label} becomes {q.dtype.name} on {q.device.name}", site=site)
    for e in p.events:
        if e["kind"] in ("device-mix",):
            p.oblige("P15", False, f"combines tensors on {e['devices']}", site=e["site"])


def S_graph(i, kfac_like=False, normalize=False, alpha=True, scale="none", conv=False, batches=1, structures=False):
    """One iteration whose backward pass builds an autograd graph (create_graph=True)."""
    w = std_world(i, dict(alpha1=SETUP["alpha1"] if alpha else 0, kfac_like=kfac_like, normalize_lr_cov=normalize), dict(alpha1=0), scale=scale, conv=conv)
    settle(w)
    t = NumV(w.t, "int")
    some_hyper(w, w.layers[0], damping=num(0))
    upd = updates(w, t)
    w.create_graph = True
    runs = w.iteration(batches=batches, data="zero" if conv else "full", grads="zero")
    w.check(runs, upd, t, rule="P16", prule="P16", what="after a backward pass with create_graph: ")
    closure(w)
