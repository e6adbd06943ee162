"""torch.nn.Module and torch.optim.Optimizer summaries."""
from .interp import CtxV, DefaultDict, NOATTR
from .values import (ClassV, Ext, FuncV, GenList, ModuleObj, Native, NumV, Obj, SMV, TensorV, Unknown, DType, Device)
from . import pylib

BASES = {
    "torch.nn.Linear": ["torch.nn.Module"],
    "torch.nn.Conv2d": ["torch.nn.modules.conv._ConvNd", "torch.nn.Module"],
    "torch.nn.Conv1d": ["torch.nn.modules.conv._ConvNd", "torch.nn.Module"],
    "torch.nn.BatchNorm2d": ["torch.nn.modules.batchnorm._BatchNorm", "torch.nn.Module"],
    "torch.nn.ReLU": ["torch.nn.Module"],
    "torch.nn.Sequential": ["torch.nn.Module"],
    "torch.nn.parallel.DataParallel": ["torch.nn.Module"],
    "torch.nn.parallel.DistributedDataParallel": ["torch.nn.Module"],
    "user.Net": ["torch.nn.Module"],
}


def short(p):
    """Canonical class path (re-exports inside torch.nn collapse to one name)."""
    n = p.split(".")[-1]
    if p.startswith("torch.nn.parallel") or n in ("DataParallel", "DistributedDataParallel"):
        return "torch.nn.parallel." + n
    if n in ("Parameter",):
        return "torch.nn.Parameter"
    if p.startswith("torch.nn.") and n[:1].isupper():
        return "torch.nn." + n
    return p


def kind_is(kind, path):
    k, p = short(kind), short(path)
    return k == p or p in BASES.get(k, ["torch.nn.Module"])


class Handle:
    pass


def all_modules(o):
    out, seen = [], set()

    def walk(m, name):
        if id(m) in seen:
            return
        seen.add(id(m))
        out.append((name, m))
        for n, c in m.children:
            walk(c, name + ("." if name else "") + n)

    walk(o, "")
    return out


def own_params(o):
    return [(n, v) for n, v in o.attrs.items() if isinstance(v, TensorV) and v.param is not None]


def named_parameters(o, recurse=True, prefix=""):
    out, seen = [], set()
    for mn, m in (all_modules(o) if recurse else [("", o)]):
        for n, v in own_params(m):
            if id(v) in seen:
                continue
            seen.add(id(v))
            out.append((prefix + ("." if prefix else "") + mn + ("." if mn else "") + n, v))
    return out


def _handle(i, lst, hook):
    h = Obj(ClassV("RemovableHandle", list(i.modules.values())[0], None, [Ext("torch.utils.hooks.RemovableHandle")]))
    h.attrs["remove"] = Native("remove", lambda it, a, k: lst.remove(hook) if hook in lst else None)
    h.attrs["id"] = h.id
    return h


def module_attr(model, o, name):
    i = model.i

    def nat(f):
        return Native("Module." + name, f)

    if name in o.attrs:
        return o.attrs[name]
    for n, c in o.children:
        if n == name:
            return c
    if name == "named_modules":
        return nat(lambda it, a, k: GenList([(n if not _arg(a, k, 1, "prefix", "") else _arg(a, k, 1, "prefix", "") + ("." if n else "") + n, m)
                                             for n, m in all_modules(o)]))
    if name == "modules":
        return nat(lambda it, a, k: GenList([m for _, m in all_modules(o)]))
    if name == "children":
        return nat(lambda it, a, k: GenList([m for _, m in o.children]))
    if name == "named_children":
        return nat(lambda it, a, k: GenList(list(o.children)))
    if name == "parameters":
        return nat(lambda it, a, k: GenList([p for _, p in named_parameters(o, it.truth(_arg(a, k, 0, "recurse", True)))]))
    if name == "named_parameters":
        return nat(lambda it, a, k: GenList(named_parameters(o, it.truth(_arg(a, k, 1, "recurse", True)), _arg(a, k, 0, "prefix", ""))))
    if name in ("buffers", "named_buffers"):
        return nat(lambda it, a, k: GenList([]))
    if name == "register_forward_hook":
        def rfh(it, a, k):
            hook = a[0] if a else k["hook"]
            if it.truth(k.get("with_kwargs", False)):
                it.abort("forward hook with kwargs")
            if it.truth(k.get("prepend", False)):
                o.fwd_hooks.insert(0, hook)
            else:
                o.fwd_hooks.append(hook)
            it.path.event("module-hook", module=o, hook=hook, what="forward")
            return _handle(it, o.fwd_hooks, hook)

        return nat(rfh)
    if name in ("register_forward_pre_hook", "register_full_backward_hook", "register_full_backward_pre_hook",
                "register_backward_hook"):
        lst = {"register_forward_pre_hook": o.pre_hooks}.get(name, o.bwd_hooks)

        def rh(it, a, k):
            hook = a[0] if a else k["hook"]
            lst.append(hook)
            it.path.event("module-hook", module=o, hook=hook, what=name[9:])
            return _handle(it, lst, hook)

        return nat(rh)
    if name == "_forward_hooks":
        return {n: h for n, h in enumerate(o.fwd_hooks)}
    if name == "_parameters":
        return {n: o.attrs[n] for n in ("weight", "bias") if n in o.attrs}
    if name == "_modules":
        return dict(o.children)
    if name == "get_submodule":
        return nat(lambda it, a, k: dict(all_modules(o))[a[0]])
    if name == "get_parameter":
        return nat(lambda it, a, k: dict(named_parameters(o))[a[0]])
    if name == "training":
        return i.path.cond("model in training mode")
    if name in ("train", "eval", "requires_grad_", "to", "cuda", "cpu", "half", "float", "double", "zero_grad", "apply",
                "load_state_dict", "add_module", "register_module", "register_parameter", "register_buffer"):
        def ch(it, a, k):
            it.path.event("model-attr", module=o.name, name=name)
            return o

        return nat(ch)
    if name == "_get_name":
        return nat(lambda it, a, k: short(o.kind).split(".")[-1])
    if name == "__class__":
        return Ext(short(o.kind))
    if name == "__dict__":
        i.abort("module __dict__")
    if name == "forward":
        return nat(lambda it, a, k: model.call_module(o, a, k))
    if name == "extra_repr":
        return nat(lambda it, a, k: "...")
    if name == "_version":
        return 1
    return NOATTR


def _arg(a, k, n, name, d):
    if len(a) > n:
        return a[n]
    return k.get(name, d)


# ------------------------------------------------------------------ optimizer
def optimizer_attr(model, o, name):
    i = model.i

    def nat(f):
        return Native("Optimizer." + name, f)

    if name == "__init__":
        def init(it, a, k):
            params = it.force(_arg(a, k, 0, "params", None))
            defaults = it.force(_arg(a, k, 1, "defaults", None))
            o.attrs["defaults"] = defaults
            if isinstance(params, TensorV):
                it.throw("TypeError", "params argument given to the optimizer should be an iterable of Tensors or dicts")
            o.attrs["state"] = _dd(it)
            o.attrs["param_groups"] = []
            groups = list(it.iterate(params))
            if not groups:
                it.throw("ValueError", "optimizer got an empty parameter list")
            if not isinstance(groups[0], dict):
                groups = [{"params": groups}]
            for g in groups:
                add_group(it, o, g)
            for e in ("_optimizer_step_pre_hooks", "_optimizer_step_post_hooks"):
                o.attrs.setdefault(e, {})
            return None

        return nat(init)
    if name == "add_param_group":
        return nat(lambda it, a, k: add_group(it, o, _arg(a, k, 0, "param_group", None)))
    if name == "state_dict":
        return nat(lambda it, a, k: state_dict(it, o))
    if name == "load_state_dict":
        return nat(lambda it, a, k: load_state_dict(it, o, _arg(a, k, 0, "state_dict", None)))
    if name == "zero_grad":
        def zg(it, a, k):
            for g in o.attrs["param_groups"]:
                for p in g["params"]:
                    if p.grad is not None:
                        it.path.event("grad-set", tensor=p, value=None)
                        p.grad = None

        return nat(zg)
    if name == "__setstate__":
        def ss(it, a, k):
            o.attrs.update(a[0])

        return nat(ss)
    if name in ("register_step_pre_hook", "register_step_post_hook", "register_state_dict_pre_hook",
                "register_load_state_dict_post_hook", "register_state_dict_post_hook", "register_load_state_dict_pre_hook"):
        i.abort(f"Optimizer.{name} used inside the package")
    if name == "profile_hook_step":
        return nat(lambda it, a, k: a[0])
    if name == "__repr__":
        return nat(lambda it, a, k: "Optimizer")
    if name == "step":
        return nat(lambda it, a, k: it.throw("NotImplementedError"))
    return NOATTR


def _dd(it):
    d = DefaultDict()
    d.factory = dict
    return d


def add_group(it, o, g):
    g = it.force(g)
    if not isinstance(g, dict):
        it.throw("TypeError", "param_group must be a dict")
    ps = it.force(g["params"])
    if isinstance(ps, TensorV):
        g["params"] = [ps]
    elif isinstance(ps, (set, frozenset)):
        it.throw("TypeError", "optimizer parameters need to be organized in ordered collections")
    else:
        g["params"] = list(it.iterate(ps))
    if g["params"] and isinstance(g["params"][0], tuple):
        g["param_names"] = [p[0] for p in g["params"]]
        g["params"] = [p[1] for p in g["params"]]
    for p in g["params"]:
        if not isinstance(p, TensorV):
            it.throw("TypeError", "optimizer can only optimize Tensors")
        if p.graph:
            it.throw("ValueError", "can't optimize a non-leaf Tensor")
    for k, v in o.attrs["defaults"].items():
        g.setdefault(k, v)
    have = [p for h in o.attrs["param_groups"] for p in h["params"]]
    if any(p is q for p in g["params"] for q in have):
        it.throw("ValueError", "some parameters appear in more than one parameter group")
    if len({id(p) for p in g["params"]}) != len(g["params"]):
        it.path.event("warn", msg="optimizer contains a parameter group with duplicate parameters", category="UserWarning",
                      chain=it.where())
    o.attrs["param_groups"].append(g)


def state_dict(it, o):
    idx = {}
    groups = []
    for g in o.attrs["param_groups"]:
        ng = {k: v for k, v in g.items() if k != "params"}
        for p in g["params"]:
            idx.setdefault(id(p), len(idx))
        ng["params"] = [idx[id(p)] for p in g["params"]]
        groups.append(ng)
    st = {}
    for k, v in o.attrs["state"].items():
        st[idx[id(k)] if isinstance(k, TensorV) and id(k) in idx else k] = v
    return {"state": st, "param_groups": groups}


def load_state_dict(it, o, sd):
    sd = it.force(sd)
    if not isinstance(sd, dict):
        it.throw("TypeError", "state_dict must be a dict")
    for k in ("param_groups", "state"):
        if k not in sd:
            it.throw("KeyError", k)
    saved = pylib.deepcopy(it, sd["param_groups"])
    groups = o.attrs["param_groups"]
    if len(saved) != len(groups):
        it.throw("ValueError", "loaded state dict has a different number of parameter groups")
    idmap = {}
    for g, s in zip(groups, saved):
        if len(g["params"]) != len(s["params"]):
            it.throw("ValueError", "loaded state dict contains a parameter group that doesn't match the size of optimizer's group")
        for p, n in zip(g["params"], s["params"]):
            idmap[n] = p

    def cast(p, v, key=None):
        if isinstance(v, TensorV):
            return it.model.to(v, p.dtype, p.device)
        if isinstance(v, dict):
            return {k: cast(p, x, k) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return type(v)(cast(p, x) for x in v)
        return v

    st = _dd(it)
    for k, v in sd["state"].items():
        if k in idmap:
            st[idmap[k]] = cast(idmap[k], v)
        else:
            st[k] = v
    new = []
    for g, s in zip(groups, saved):
        s = dict(s)
        s["params"] = g["params"]
        new.append(s)
    from .values import ClsMethod  # noqa: F401

    o.attrs["state"] = st
    o.attrs["param_groups"] = new
    it.path.event("setattr", obj=o, name="state", value=st)
    return None


def call_ext(model, path, args, kwargs):
    i = model.i
    n = path.split(".")[-1]
    if path.startswith("torch.optim"):
        if n == "Optimizer":
            i.abort("plain torch Optimizer constructed")
        if "." in path and args and isinstance(args[0], Obj):
            a = optimizer_attr(model, args[0], n)
            if a is not NOATTR:
                return i.call(a, args[1:], kwargs)
    if args and isinstance(args[0], ModuleObj) and path.startswith("torch.nn."):
        a = module_attr(model, args[0], n)
        if a is not NOATTR:
            return i.call(a, args[1:], kwargs)
    if path == "torch.nn.modules.utils._pair" or path == "torch.nn.modules.utils._ntuple":
        v = i.force(args[0])
        if isinstance(v, (list, tuple)):
            return tuple(v)
        return (v, v)
    if n == "Parameter" and path.startswith("torch.nn"):
        t = args[0]
        r = model.same_view(t)
        r.param, r.leaf, r.graph = "new", True, False
        return r
    if path == "torch.utils.data.get_worker_info":
        return None
    return NotImplemented
