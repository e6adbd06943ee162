"""Abstract interpreter over the syntax trees of the analysed package."""
import ast
import builtins as pybuiltins
import os
import threading
from fractions import Fraction

from .path import Abort, Infeasible, Path
from .sym import ONE, Sc, ZERO, sc, node, REBUILD
from .ten import Ten, Term, fresh, slot
from .values import *  # noqa: F401,F403
from .values import Unknown, NumV, Choice, Ext, FuncV, BoundM, Partial, Native, ClassV
from .values import ClsMethod, StatMethod, Prop, Obj, ModV, SuperV, SizeV, TensorV, SMV
from .values import ModuleObj, FamilyV, ExcV, PyRaise, GenList, DType, Device, Storage

BUILTIN_EXC = {
    n: v for n, v in vars(pybuiltins).items() if isinstance(v, type) and issubclass(v, BaseException)
}
PYTYPES = {"int": int, "float": float, "str": str, "bool": bool, "list": list, "tuple": tuple,
           "dict": dict, "set": set, "frozenset": frozenset, "object": object, "type": type,
           "bytes": bytes, "complex": complex}


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class SymSeq:
    """Sequence of symbolic length: count elements, get(index) -> value."""

    def __init__(self, count, get):
        self.count, self.get = sc(count), get


class SymStr:
    """str() of a symbolic token."""

    def __init__(self, tok):
        self.tok = tok

    def __repr__(self):
        return f"str({self.tok!r})"


class CtxV:
    def __init__(self, enter, exit_, deco=None):
        self.enter, self.exit, self.deco = enter, exit_, deco


class Slice:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class Env:
    __slots__ = ("vars", "parent", "module", "globals_", "nonlocals", "func", "self_", "cls", "yields", "gen")

    def __init__(self, module, parent=None, func=None):
        self.vars = {}
        self.parent, self.module, self.func = parent, module, func
        self.globals_, self.nonlocals = set(), set()
        self.yields = None
        self.cls = None
        self.self_ = None
        self.gen = None


class Source:
    """Parsed package sources (shared by all partitions)."""

    def __init__(self, root, package):
        self.root, self.package = root, package
        self.mods = {}
        for dp, dn, fn in os.walk(os.path.join(root, package)):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".py"):
                    full = os.path.join(dp, f)
                    rel = os.path.relpath(full, root)
                    name = rel[:-3].replace(os.sep, ".")
                    ispkg = name.endswith(".__init__")
                    if ispkg:
                        name = name[: -len(".__init__")]
                    with open(full) as fh:
                        tree = ast.parse(fh.read(), full)
                    self.mods[name] = (rel, tree, ispkg)

    def add(self, name, rel, text):
        """A client module that uses the package."""
        self.mods[name] = (rel, ast.parse(text, rel), False)


_GEN_CACHE = {}


def has_yield(fn):
    k = id(fn)
    if k not in _GEN_CACHE:
        r = False
        stack = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _GEN_CACHE[k] = (r, fn)
    return _GEN_CACHE[k][0]


def _assigned(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
    return out


OPTIMIZER_NAMES = {
    "add_param_group", "defaults", "load_state_dict", "param_groups", "profile_hook_step", "register_load_state_dict_post_hook",
    "register_load_state_dict_pre_hook", "register_state_dict_post_hook", "register_state_dict_pre_hook", "register_step_post_hook",
    "register_step_pre_hook", "state", "state_dict", "step", "zero_grad", "_cuda_graph_capture_health_check", "_patch_step_function",
    "_process_value_according_to_param_policy", "_zero_grad_profile_name", "_warned_capturable_if_run_uncaptured", "__getstate__", "__setstate__",
    "__repr__", "__dict__", "__class__", "__eq__", "__hash__", "__ne__", "__reduce__", "__sizeof__", "__str__", "__dir__"}


class Interp:
    MAX_STEPS = 400000

    def __init__(self, source, path, model=None):
        self.src = source
        self.path = path
        path.site = self.site
        self.modules = {}
        self.stack = []
        self.steps = 0
        self.model = model  # torch model
        self.touched = set()  # functions analysed
        self.globals_written = set()
        if model is not None:
            model.bind(self)

    # ------------------------------------------------------------------ sites
    def site(self):
        for fr in reversed(self.stack):
            if fr[1] is not None:
                return f"{fr[1]}:{fr[2]} in {fr[0]}"
        return None

    def where(self):
        """Call chain of package frames, innermost last."""
        return [f"{f[1]}:{f[2]} in {f[0]}" for f in self.stack if f[1]]

    def abort(self, reason):
        raise Abort(reason, self.site())

    def throw(self, name, *args):
        raise PyRaise(ExcV(name, args, BUILTIN_EXC.get(name)), self.site(), self.where())

    # ---------------------------------------------------------------- modules
    def import_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name not in self.src.mods:
            self.throw("ModuleNotFoundError", name)
        rel, tree, _ = self.src.mods[name]
        m = ModV(name, rel)
        self.modules[name] = m
        m.env["__name__"] = name
        m.env["__file__"] = rel
        env = Env(m)
        env.vars = m.env
        self.stack.append([f"<module {name}>", rel, 1])
        try:
            self.exec_block(tree.body, env)
        finally:
            self.stack.pop()
        return m

    def resolve_import(self, name):
        """Module object for a dotted name (analysed or external)."""
        if name.split(".")[0] == self.src.package:
            parts = name.split(".")
            for k in range(1, len(parts) + 1):
                self.import_module(".".join(parts[:k]))
                if k > 1:
                    self.modules[".".join(parts[: k - 1])].env.setdefault(
                        parts[k - 1], self.modules[".".join(parts[:k])]
                    )
            return self.modules[name]
        return Ext(name)

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        self.steps += 1
        if self.steps > self.MAX_STEPS:
            self.abort("step limit reached")
        self.stack[-1][2] = s.lineno
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.abort(f"unsupported statement {type(s).__name__}")
        return m(s, env)

    def x_Expr(self, s, env):
        self.eval(s.value, env)

    def x_Pass(self, s, env):
        pass

    def x_Import(self, s, env):
        for a in s.names:
            m = self.resolve_import(a.name)
            if a.asname:
                self.bind(a.asname, m, env)
            else:
                top = a.name.split(".")[0]
                self.bind(top, self.resolve_import(top), env)

    def x_ImportFrom(self, s, env):
        base = s.module or ""
        if s.level:
            pk = env.module.name.split(".")
            if not self.src.mods[env.module.name][2]:
                pk = pk[:-1]
            pk = pk[: len(pk) - (s.level - 1)]
            base = ".".join(pk + ([s.module] if s.module else []))
        m = self.resolve_import(base)
        for a in s.names:
            if a.name == "*":
                if not isinstance(m, ModV):
                    self.abort("star import from an external module")
                for k, v in list(m.env.items()):
                    if not k.startswith("_"):
                        self.bind(k, v, env)
                continue
            if isinstance(m, ModV):
                if a.name in m.env:
                    v = m.env[a.name]
                elif base + "." + a.name in self.src.mods:
                    v = self.resolve_import(base + "." + a.name)
                else:
                    self.throw("ImportError", a.name)
            else:
                v = Ext(base + "." + a.name) if base else Ext(a.name)
                v = self.model.ext_value(v) if self.model else v
            self.bind(a.asname or a.name, v, env)

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(self.eval(d, env), v, d)
        self.bind(s.name, v, env)

    def make_func(self, s, env):
        a = s.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {k.arg: self.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(s, "name", "<lambda>")
        qn = name
        if env.cls is not None:
            qn = env.cls.name + "." + name
        elif env.func is not None:
            qn = env.func.qualname + ".<locals>." + name
        return FuncV(s, env.module, env, qn, defaults, kwd, env.cls)

    def decorate(self, d, v, node_):
        if isinstance(d, CtxV):
            if d.deco is not None:
                return d.deco(v)
            return self.ctx_wrap(d, v)
        if d is classmethod:
            return ClsMethod(v)
        if d is staticmethod:
            return StatMethod(v)
        if d is property:
            return Prop(v)
        if isinstance(d, Native) and d.name == "prop.setter":
            d.f.fset = v
            return d.f
        return self.call(d, [v], {})

    def ctx_wrap(self, ctx, fn):
        def run(interp, args, kwargs):
            ctx.enter()
            try:
                return interp.call(fn, args, kwargs)
            finally:
                ctx.exit()

        return Native("ctx", run)

    def x_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        bases = [b for b in bases if not (isinstance(b, Ext) and b.path.startswith("typing."))]
        c = ClassV(s.name, env.module, s, bases)
        for b in bases:
            if isinstance(b, Unknown):
                self.abort(f"class {s.name} derives from {b!r}")
        e = Env(env.module, env, env.func)
        e.cls = c
        e.vars = c.dict
        c.dict["__module__"] = env.module.name
        c.dict["__qualname__"] = s.name
        self.exec_block(s.body, e)
        v = c
        for d in reversed(s.decorator_list):
            dv = self.eval(d, env)
            if isinstance(dv, Ext) and dv.path.endswith("dataclass"):
                self.make_dataclass(v)
                continue
            v = self.call(dv, [v], {})
        # __set_name__/__init_subclass__
        for b in c.mro()[1:]:
            if isinstance(b, ClassV) and "__init_subclass__" in b.dict:
                f = b.dict["__init_subclass__"]
                f = f.fn if isinstance(f, ClsMethod) else f
                kw = {k.arg: self.eval(k.value, env) for k in s.keywords if k.arg != "metaclass"}
                self.call(BoundM(f, c), [], kw)
                break
        self.bind(s.name, v, env)

    def make_dataclass(self, c):
        names = []
        for st in c.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                names.append(st.target.id)

        def init(interp, args, kwargs):
            self_ = args[0]
            for n, v in zip(names, args[1:]):
                self_.attrs[n] = v
            for n in names[len(args) - 1:]:
                if n in kwargs:
                    self_.attrs[n] = kwargs[n]
                elif n in c.dict:
                    v = c.dict[n]
                    self_.attrs[n] = v
                else:
                    interp.throw("TypeError", f"missing argument {n}")

        c.dict["__init__"] = Native("dataclass.__init__", init)

    def x_Return(self, s, env):
        raise ReturnEx(None if s.value is None else self.eval(s.value, env))

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Obj):
                    if t.attr not in o.attrs:
                        self.throw("AttributeError", t.attr)
                    del o.attrs[t.attr]
                elif isinstance(o, TensorV) and t.attr == "grad":
                    o.grad = None
                else:
                    self.abort(f"del attribute of {o!r}")

    def delitem(self, o, k):
        o = self.force(o)
        if isinstance(o, dict):
            k = self.key(k)
            if k not in o:
                self.throw("KeyError", k)
            del o[k]
        elif isinstance(o, list):
            if isinstance(k, slice):
                del o[k]
            else:
                del o[k]
        elif isinstance(o, Obj):
            self.call_method(o, "__delitem__", [k])
        else:
            self.abort(f"del item of {o!r}")

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            new = self.inplace(op, cur, self.eval(s.value, env))
            self.bind(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            new = self.inplace(op, cur, self.eval(s.value, env))
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            cur = self.getitem(o, k)
            new = self.inplace(op, cur, self.eval(s.value, env))
            self.setitem(o, k, new)

    def x_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_While(self, s, env):
        count = self._while_count(s, env)
        if count is not None:
            loop = ast.For(target=ast.Name("%w", ast.Store()), iter=None, body=s.body, orelse=s.orelse, lineno=s.lineno)
            return self.sym_loop(loop, SymSeq(count, lambda v: None), env)
        n = 0
        while True:
            if not self.truth(self.eval(s.test, env)):
                self.exec_block(s.orelse, env)
                return
            n += 1
            if n > 300:
                self.abort("unbounded while loop")
            try:
                self.exec_block(s.body, env)
            except BreakEx:
                return
            except ContinueEx:
                pass

    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        seq = self.iterate(it)
        if isinstance(seq, SymSeq):
            return self.sym_loop(s, seq, env)
        for v in seq:
            self.assign(s.target, v, env)
            try:
                self.exec_block(s.body, env)
            except BreakEx:
                return
            except ContinueEx:
                pass
        self.exec_block(s.orelse, env)

    def x_Break(self, s, env):
        raise BreakEx()

    def x_Continue(self, s, env):
        raise ContinueEx()

    def x_Assert(self, s, env):
        v = self.truth(self.eval(s.test, env))
        if not v:
            self.throw("AssertionError", ast.unparse(s.test))

    def x_Raise(self, s, env):
        if s.exc is None:
            cur = self.path.data.get("cur_exc")
            if cur:
                raise cur[-1]
            self.throw("RuntimeError", "No active exception to reraise")
        v = self.eval(s.exc, env)
        if isinstance(v, type) or isinstance(v, ClassV):
            v = self.call(v, [], {})
        if isinstance(v, ExcV):
            raise PyRaise(v, self.site(), self.where())
        if isinstance(v, Obj):
            raise PyRaise(ExcV(v.cls.name, (v,), v.cls), self.site(), self.where())
        self.abort(f"raise {v!r}")

    def exc_match(self, exc, typ):
        if isinstance(typ, (tuple, list)):
            return any(self.exc_match(exc, t) for t in typ)
        c = exc.cls
        if isinstance(c, ClassV):
            if isinstance(typ, ClassV):
                return c.is_sub(typ)
            for b in c.mro():
                if isinstance(b, type) and isinstance(typ, type) and issubclass(b, typ):
                    return True
            return False
        if isinstance(typ, type) and c is not None:
            return issubclass(c, typ)
        if isinstance(typ, Ext):
            return typ.path.split(".")[-1] == exc.name
        return False

    def x_Try(self, s, env):
        try:
            depth = len(self.stack)
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                del self.stack[depth:]
                for h in s.handlers:
                    if h.type is None or self.exc_match(e.exc, self.eval(h.type, env)):
                        if h.name:
                            self.bind(h.name, e.exc, env)
                        self.path.data.setdefault("cur_exc", []).append(e)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.path.data["cur_exc"].pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (Abort, Infeasible):
            raise
        except BaseException:
            self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.finalbody, env)

    def x_With(self, s, env):
        self._with(s.items, s.body, env)

    def _with(self, items, body, env):
        if not items:
            self.exec_block(body, env)
            return
        it = items[0]
        cm = self.eval(it.context_expr, env)
        if isinstance(cm, CtxV):
            v = cm.enter()
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            try:
                self._with(items[1:], body, env)
            except (Abort, Infeasible):
                raise
            except PyRaise as e:
                if cm.exit(e) is True:
                    return
                raise
            except BaseException:
                cm.exit()
                raise
            else:
                cm.exit()
        elif isinstance(cm, GenCtx):
            v = cm.start()
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            try:
                self._with(items[1:], body, env)
            except (Abort, Infeasible):
                cm.kill()
                raise
            except PyRaise as e:
                if cm.throw(e):
                    return
                raise
            except BaseException:
                cm.finish()
                raise
            else:
                cm.finish()
        elif isinstance(cm, Obj):
            v = self.call_method(cm, "__enter__", [])
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            try:
                self._with(items[1:], body, env)
            except (Abort, Infeasible):
                raise
            except PyRaise as e:
                if self.truth(self.call_method(cm, "__exit__", [e.exc.cls, e.exc, None])):
                    return
                raise
            except BaseException:
                self.call_method(cm, "__exit__", [None, None, None])
                raise
            else:
                self.call_method(cm, "__exit__", [None, None, None])
        else:
            self.abort(f"with {cm!r}")

    def x_Global(self, s, env):
        env.globals_ |= set(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def x_Match(self, s, env):
        v = self.eval(s.subject, env)
        for c in s.cases:
            if self.match_pat(c.pattern, v, env) and (c.guard is None or self.truth(self.eval(c.guard, env))):
                self.exec_block(c.body, env)
                return

    def match_pat(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("Is", v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match_pat(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match_pat(p.pattern, v, env):
                return False
            if p.name:
                self.bind(p.name, v, env)
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance(v, self.eval(p.cls, env))
        if isinstance(p, ast.MatchSequence):
            v = self.force(v)
            if not isinstance(v, (list, tuple)) or len(v) != len(p.patterns):
                return False
            return all(self.match_pat(q, x, env) for q, x in zip(p.patterns, v))
        self.abort("unsupported match pattern")

    # ----------------------------------------------------------- symbolic loops
    def _induction(self, body, before, env, fixed=()):
        """Numeric locals that change by the same amount in every iteration: {name: (value before, change)}.

        Decided from the unconditional assignments of the body; a name that is assigned anywhere else is not one.
        """
        assigned = _assigned(body) | set(fixed)
        bad = set()
        for t in body:
            if not isinstance(t, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                bad |= _assigned([t])
        cur, start = {}, {}
        for k in assigned:
            n = self.num(before[k]) if k in before and not isinstance(before[k], bool) else None
            if n is None or k in bad or k in fixed:
                cur[k] = self.num(env.vars[k]) if k in fixed and k in env.vars else None
            else:
                cur[k] = start[k] = Sc.atom(f"%before:{k}")

        def lin(e):
            if isinstance(e, ast.Name) and e.id in assigned:
                return cur.get(e.id)
            if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub, ast.Mult)):
                a, b = lin(e.left), lin(e.right)
                if a is None or b is None:
                    return None
                return a + b if isinstance(e.op, ast.Add) else a - b if isinstance(e.op, ast.Sub) else a * b
            if any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.NamedExpr)) or isinstance(x, ast.Name) and x.id in assigned
                   for x in ast.walk(e)):
                return None
            if not isinstance(e, (ast.Name, ast.Attribute, ast.Constant, ast.Subscript)):
                return None
            return self.num(self.eval(e, env))

        def store(t, v):
            if isinstance(t, ast.Name):
                cur[t.id] = v if t.id not in bad else None
            elif isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    store(x, None)

        for t in body:
            if isinstance(t, ast.Assign):
                tup = t.targets[0] if len(t.targets) == 1 else None
                if isinstance(tup, ast.Tuple) and isinstance(t.value, ast.Tuple) and len(tup.elts) == len(t.value.elts):
                    for x, v in zip(tup.elts, [lin(v) for v in t.value.elts]):
                        store(x, v)
                else:
                    v = lin(t.value)
                    for x in t.targets:
                        store(x, v)
            elif isinstance(t, ast.AnnAssign) and t.value is not None:
                store(t.target, lin(t.value))
            elif isinstance(t, ast.AugAssign) and isinstance(t.target, ast.Name):
                v = lin(ast.BinOp(left=ast.Name(t.target.id, ast.Load()), op=t.op, right=t.value))
                store(t.target, v)
        out = {}
        for k, a in start.items():
            if cur.get(k) is None:
                continue
            d = cur[k] - a
            if not any(x.startswith("%before:") for x in d.deep_atoms()) and not d.is_zero():
                out[k] = (before[k], d)
        return out

    def _while_count(self, s, env):
        """Number of iterations of a counting loop with a symbolic bound (None: execute it iteration by iteration)."""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq))):
            return None
        names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
        if any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(t)) or not names & _assigned(s.body):
            return None
        a, b = self.num(self.eval(t.left, env)), self.num(self.eval(t.comparators[0], env))
        if a is None or b is None:
            return None
        left = b - a if isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq)) else a - b
        if isinstance(t.ops[0], (ast.LtE, ast.GtE)):
            left = left + 1
        left = self.path.simp(left)
        if left.is_const():
            return None
        before = dict(env.vars)
        ind = self._induction(s.body, before, env)
        if not (names & _assigned(s.body)) <= set(ind):
            return None
        # change of the distance per iteration
        for k, (v, d) in ind.items():
            env.vars[k] = self.mknum(self.num(v) + d, "int")
        a2, b2 = self.num(self.eval(t.left, env)), self.num(self.eval(t.comparators[0], env))
        env.vars.clear()
        env.vars.update(before)
        step = (a2 - b2) - (a - b)
        if isinstance(t.ops[0], (ast.Gt, ast.GtE)):
            step = -step
        step = self.path.simp(step)
        if not step.is_int_const() or step.const_val() <= 0:
            return None
        step = int(step.const_val())
        if isinstance(t.ops[0], ast.NotEq):
            if step != 1 or not self.path.sign_in(left, {0, 1}):
                self.abort("counting loop that may not terminate")
            return left
        if not self.path.sign_in(left, {1}):
            return ZERO
        return left if step == 1 else self.floordiv(left + (step - 1), sc(step))

    def sym_loop(self, s, seq, env):
        """Summarise a loop of symbolic length by one generic iteration."""
        path = self.path
        if path.possible(path.simp(seq.count), True) <= {0, -1}:
            self.exec_block(s.orelse, env)
            return
        var = f"%L{path.fresh('')}"
        path.bd.set(var, 0)
        path.loopvars[var] = seq.count
        # i <= count-1
        path.bd.fact(seq.count - 1 - Sc.atom(var))
        assigned = _assigned(s.body) | _assigned([ast.Assign(targets=[s.target], value=ast.Constant(0), lineno=0)])
        before = {k: env.vars[k] for k in assigned if k in env.vars}
        self.model.begin_record()
        lists0 = self._lists_in(env)
        ind = {}

        def advance(n):
            for k, (v, d) in ind.items():
                env.vars[k] = self.mknum(self.num(v) + self.sum_sc(d.subst({var: Sc.atom(var)}), var, n), "int" if self.kind(v) == "int" else "float")

        def advanced(n):
            for k, (v, d) in ind.items():
                if not self.path.simp(self.num(env.vars[k]) - self.num(v) - self.sum_sc(d, var, n + 1)).is_zero():
                    self.abort("iterations of a symbolic loop depend on each other")

        try:
            self.assign(s.target, seq.get(Sc.atom(var)), env)
            targets = _assigned([ast.Assign(targets=[s.target], value=ast.Constant(0), lineno=0)])
            ind.update(self._induction(s.body, before, env, targets))
            advance(Sc.atom(var))
            try:
                self.exec_block(s.body, env)
            except ContinueEx:
                pass
            except BreakEx:
                self.abort("break inside a loop of symbolic length")
            except ReturnEx:
                self.abort("return inside a loop of symbolic length")
            advanced(Sc.atom(var))
        finally:
            rec = self.model.end_record()
        n = seq.count
        # appended lists become families
        for l, n0 in lists0:
            new = l[n0:]
            if new:
                if len(new) != 1:
                    self.abort("several appends per iteration of a symbolic loop")
                l[n0:] = [FamilyV(var, n, new[0])]
        # storages: sum of per-iteration changes
        final = {}
        deltas = {}
        for st, old in rec.items():
            d = (st.val - old).norm(path.bd)
            deltas[st] = d
            final[st] = (old + self.sum_over(d, var, n)).norm(path.bd)
        # accumulating locals
        acc = {}
        for k in assigned:
            if k in before and k in env.vars and env.vars[k] is not before[k] and k not in ind:
                o, v = before[k], env.vars[k]
                if isinstance(o, TensorV) and isinstance(v, TensorV) and o.shape == v.shape:
                    acc[k] = (o, v, (v.read() - o.read()).norm(path.bd))
                elif self.num(o) is not None and self.num(v) is not None:
                    acc[k] = (o, v, self.num(v) - self.num(o))
        if rec or acc:
            # second pass on the summarised state: must be idempotent or repeat the delta
            var2 = f"%L{path.fresh('')}"
            path.bd.set(var2, 0)
            path.loopvars[var2] = n
            path.bd.fact(n - 1 - Sc.atom(var2))
            finals_l = {}
            for st in rec:
                st.val = final[st]
            for k, (o, v, d) in acc.items():
                if isinstance(o, TensorV):
                    nv = self.model.new(o.read() + self.sum_over(d, var, n), o.dtype, o.device)
                else:
                    nv = self.mknum(self.num(o) + self.sum_sc(d, var, n), "int" if isinstance(o, int) else "float")
                finals_l[k] = nv
                env.vars[k] = nv
            nlists = [(l, len(l)) for l, _ in lists0]
            self.model.begin_record()
            try:
                self.assign(s.target, seq.get(Sc.atom(var2)), env)
                advance(Sc.atom(var2))
                try:
                    self.exec_block(s.body, env)
                except ContinueEx:
                    pass
                advanced(Sc.atom(var2))
            finally:
                rec2 = self.model.end_record()
            mp = {var: Sc.atom(var2)}
            from .path import subst_ten

            for st in rec:
                d2 = (st.val - final[st]).norm(path.bd)
                if d2.terms and (d2 - subst_ten(deltas[st], mp)).norm(path.bd).terms:
                    self.abort("iterations of a symbolic loop depend on each other")
                st.val = final[st]
            for st in rec2:
                if st not in rec and st.val is not rec2[st] and (st.val - rec2[st]).norm(path.bd).terms:
                    self.abort("iterations of a symbolic loop depend on each other")
            for k, (o, v, d) in acc.items():
                v2 = env.vars[k]
                if isinstance(o, TensorV):
                    d2 = (v2.read() - finals_l[k].read()).norm(path.bd)
                    ok = not (d2 - subst_ten(d, mp)).norm(path.bd).terms
                else:
                    ok = (self.num(v2) - self.num(finals_l[k]) - d.subst(mp)).is_zero()
                if not ok:
                    self.abort("iterations of a symbolic loop depend on each other")
            for l, k in nlists:
                del l[k:]
            for k, nv in finals_l.items():
                env.vars[k] = nv
            path.loopvars.pop(var2, None)
        advance(n)
        for k in assigned:
            if k in env.vars and k not in acc and k not in ind and env.vars.get(k) is not before.get(k):
                env.vars[k] = Unknown(f"value of {k} after a loop of symbolic length", self.site())
        path.loopvars.pop(var, None)
        self.exec_block(s.orelse, env)

    def _lists_in(self, env):
        out, seen = [], set()

        def add(v, d):
            if isinstance(v, list) and id(v) not in seen:
                seen.add(id(v))
                out.append((v, len(v)))
                if d:
                    for x in v:
                        add(x, d - 1)
            elif isinstance(v, dict) and id(v) not in seen:
                seen.add(id(v))
                if d:
                    for x in v.values():
                        add(x, d - 1)
            elif isinstance(v, Obj) and id(v) not in seen:
                seen.add(id(v))
                for x in v.attrs.values():
                    add(x, d - 1) if d else None

        e = env
        while e is not None:
            for v in list(e.vars.values()):
                add(v, 2)
            e = e.parent if e.parent is not None and e.vars is not e.module.env else None
        return out

    def sum_over(self, t, var, n):
        """Sum a tensor value over the free loop variable."""
        out = []
        for x in t.terms:
            nv = fresh("l")
            mp = {var: Sc.atom(nv)}
            if any(var in f.name for f in x.facs):
                self.abort("opaque value depends on the loop variable")
            from .ten import PFac

            coef = x.coef.subst(mp)
            pf = [PFac(p.poly.subst(mp), p.exp) for p in x.pfacs]
            if nv in coef.deep_atoms():
                if any(nv in Sc.atom(a).deep_atoms() and a != nv for a in coef.atoms()):
                    self.abort("coefficient depends on the loop variable")
                pf.append(PFac(coef, 1))
                coef = ONE
            out.append(Term(coef, x.facs, pf, {**{v: l.subst(mp) for v, l in x.vars.items()}, nv: n},
                            [e.subst(mp) for e in x.eqs]))
        return Ten(t.shape, out)

    def sum_sc(self, d, var, n):
        cr = d.coeff(var)
        if cr is not None:
            k, r = cr
            if var not in k.deep_atoms() and var not in r.deep_atoms():
                return k * n * (n - 1) * Fraction(1, 2) + r * n
        self.abort(f"sum over a symbolic range of {d!r}")

    # ------------------------------------------------------------- assignment
    def bind(self, name, v, env):
        if name in env.globals_:
            env.module.env[name] = v
            self.path.event("global", what=f"module variable {name}")
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars and e.cls is None:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v)
            if isinstance(vs, SymSeq):
                self.abort("unpacking a sequence of symbolic length")
            vs = list(vs)
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                k = star[0]
                m = len(t.elts) - 1
                if len(vs) < m:
                    self.throw("ValueError", "not enough values to unpack")
                tail = m - k
                mid = vs[k: len(vs) - tail]
                seq = vs[:k] + [list(mid)] + (vs[len(vs) - tail:] if tail else [])
                for x, y in zip(t.elts, seq):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
                return
            if len(vs) != len(t.elts):
                self.throw("ValueError", f"cannot unpack {len(vs)} values into {len(t.elts)}")
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            self.abort("unsupported assignment target")

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.abort(f"unsupported expression {type(e).__name__}")
        if hasattr(e, "lineno") and self.stack:
            self.stack[-1][2] = e.lineno
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return NumV(Sc.const(v), "float")
        return v

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def lookup(self, name, env):
        if name in env.globals_:
            if name in env.module.env:
                return env.module.env[name]
        e = env
        first = True
        while e is not None:
            if name in e.vars and (first or e.cls is None or e.vars is not e.cls.dict):
                return e.vars[name]
            first = False
            e = e.parent
        if name in env.module.env:
            return env.module.env[name]
        if name in PYTYPES:
            return PYTYPES[name]
        if name in BUILTIN_EXC:
            return BUILTIN_EXC[name]
        if name == "__class__":
            e = env
            while e is not None:
                if e.func is not None and e.func.cls is not None:
                    return e.func.cls
                e = e.parent
        if name == "NotImplemented":
            return NotImplemented
        if name == "Ellipsis":
            return Ellipsis
        if name in ("classmethod", "staticmethod", "property"):
            return getattr(pybuiltins, name)
        from . import pylib

        f = pylib.BUILTINS.get(name)
        if f is not None:
            if name in ("super", "locals"):
                return Native(name, lambda i, a, k, env=env: f(i, a, k, env))
            return f if isinstance(f, Native) else Native(name, f)
        self.throw("NameError", name)

    def e_Tuple(self, e, env):
        return tuple(self._elts(e.elts, env))

    def e_List(self, e, env):
        return list(self._elts(e.elts, env))

    def e_Set(self, e, env):
        return set(self.key(x) for x in self._elts(e.elts, env))

    def _elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                s = self.iterate(self.eval(x.value, env))
                if isinstance(s, SymSeq):
                    var, val = self.family(s, lambda v: v)
                    out.append(FamilyV(var, s.count, val))
                else:
                    out.extend(s)
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.force(self.eval(v, env))
                d.update(o)
            else:
                kk = self.key(self.eval(k, env))
                d[kk] = self.eval(v, env)
        return d

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            return not self.truth(v)
        v = self.force(v)
        if isinstance(v, Unknown):
            return v
        if isinstance(v, TensorV):
            return self.model.unary(op, v)
        n = self.num(v)
        if n is not None:
            if op == "USub":
                return self.mknum(-n, self.kind(v))
            if op == "UAdd":
                return v
            if op == "Invert" and isinstance(v, int):
                return ~v
        if isinstance(v, float):
            return -v if op == "USub" else v
        if isinstance(v, Obj):
            return self.call_method(v, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[op], [])
        self.abort(f"unary {op} of {v!r}")

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.eval(x, env)
            if k == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        r = True
        for k, (op, x) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(x, env)
            r = self.compare(type(op).__name__, left, right)
            if k < len(e.ops) - 1:
                if not self.truth(r):
                    return False
            left = right
        return r

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return self.make_func(e, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.bind(e.target.id, v, env)
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def e_Starred(self, e, env):
        return self.eval(e.value, env)

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.eval(x, env)
        return Slice(f(e.lower), f(e.upper), f(e.step))

    def eval_index(self, e, env):
        if isinstance(e, ast.Tuple):
            return tuple(self._elts(e.elts, env))
        return self.eval(e, env)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(o, Ext) and (o.path.startswith("typing.") or o.path.startswith("collections.abc")):
            return o
        if isinstance(o, type):
            return o
        return self.getitem(o, self.eval_index(e.slice, env))

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.eval(v.value, env)
                if isinstance(x, Choice) and len(self.candidates(x)) > 1:
                    if all(isinstance(o, str) for o in x.options):
                        x = self.force(x)
                out.append(self.tostr(x, v.conversion == 114))
        return "".join(out)

    def e_FormattedValue(self, e, env):
        return self.tostr(self.eval(e.value, env))

    def tostr(self, x, r=False):
        if isinstance(x, str):
            return repr(x) if r else x
        if isinstance(x, NumV):
            return repr(x.sc)
        if isinstance(x, ExcV):
            return " ".join(self.tostr(a) for a in x.args)
        if isinstance(x, ClassV):
            return f"<class '{x.module.name}.{x.name}'>"
        return repr(x)

    def comp(self, gens, env, emit):
        """Run comprehension generators; emit(env) per element. Returns nothing."""

        def rec(k, e):
            if k == len(gens):
                emit(e)
                return
            g = gens[k]
            s = self.iterate(self.eval(g.iter, e))
            if isinstance(s, SymSeq):
                raise _SymComp(k, s)
            for v in s:
                self.assign(g.target, v, e)
                if all(self.truth(self.eval(c, e)) for c in g.ifs):
                    rec(k + 1, e)

        e = Env(env.module, env, env.func)
        rec(0, e)

    def family(self, s, fn):
        var = f"%L{self.path.fresh('')}"
        self.path.bd.set(var, 0)
        self.path.bd.fact(s.count - 1 - Sc.atom(var))
        self.path.loopvars[var] = s.count
        try:
            return var, fn(s.get(Sc.atom(var)))
        finally:
            self.path.loopvars.pop(var, None)

    def listcomp(self, e, env):
        out = []
        try:
            self.comp(e.generators, env, lambda ev: out.append(self.eval(e.elt, ev)))
            return out
        except _SymComp as sc_:
            if len(e.generators) != 1 or e.generators[0].ifs:
                self.abort("filtered comprehension over a symbolic range")
            g = e.generators[0]
            ev = Env(env.module, env, env.func)

            def f(v):
                self.assign(g.target, v, ev)
                return self.eval(e.elt, ev)

            var, val = self.family(sc_.s, f)
            return [FamilyV(var, sc_.s.count, val)]

    def e_ListComp(self, e, env):
        return self.listcomp(e, env)

    def e_GeneratorExp(self, e, env):
        return GenList(self.listcomp(e, env))

    def e_SetComp(self, e, env):
        return set(self.key(x) for x in self.listcomp(e, env))

    def e_DictComp(self, e, env):
        d = {}

        def emit(ev):
            k = self.key(self.eval(e.key, ev))
            d[k] = self.eval(e.value, ev)

        try:
            self.comp(e.generators, env, emit)
        except _SymComp:
            self.abort("dict comprehension over a symbolic range")
        return d

    def e_Yield(self, e, env):
        v = None if e.value is None else self.eval(e.value, env)
        ge = env
        while ge is not None and ge.yields is None and ge.gen is None:
            ge = ge.parent
        if ge.gen is not None:
            return ge.gen.emit(v)
        ge.yields.append(v)
        if len(ge.yields) > 5000:
            self.abort("unbounded generator")
        return None

    def e_YieldFrom(self, e, env):
        s = self.iterate(self.eval(e.value, env))
        if isinstance(s, SymSeq):
            self.abort("yield from a symbolic sequence")
        env.yields.extend(s)

    # ---------------------------------------------------------------- helpers
    def num(self, v):
        """Sc of a numeric value, else None."""
        if isinstance(v, bool):
            return sc(int(v))
        if isinstance(v, int):
            return sc(v)
        if isinstance(v, NumV):
            return self.path.simp(v.sc) if self.path.eq else v.sc
        if isinstance(v, Fraction):
            return sc(v)
        if isinstance(v, float) and v == v and v not in (float("inf"), float("-inf")):
            return sc(v)
        return None

    def kind(self, v):
        if isinstance(v, NumV):
            return v.kind
        return "float" if isinstance(v, float) else "int"

    def mknum(self, s, kind="float"):
        s = sc(s)
        if kind == "int" and s.is_int_const():
            return int(s.const_val())
        return NumV(s, kind)

    def toint(self, v, what="value"):
        """Concrete int or Sc of an integer value."""
        v = self.force(v)
        n = self.num(v)
        if n is None:
            self.abort(f"{what} is not an integer: {v!r}")
        return n

    def candidates(self, c):
        return self.path.cands.setdefault(c.name, list(range(len(c.options))))

    def force(self, v):
        """Resolve a Choice to one option (partitioning)."""
        if isinstance(v, Choice):
            c = self.candidates(v)
            if len(c) > 1:
                if v.name in self.path.pins:
                    k = self.path.pins[v.name]
                    c = [k]
                else:
                    k = self.path.decide(v.name + "=" + "/".join(str(self.tostr(v.options[i]))[:20] for i in c), len(c))
                    c = [c[k]]
                self.path.cands[v.name] = c
            return self.force(v.options[c[0]])
        return v

    def pred(self, c, fn, label):
        """Evaluate a predicate on a Choice, splitting only when needed."""
        cs = self.candidates(c)
        if c.name in self.path.pins:
            cs = self.path.cands[c.name] = [self.path.pins[c.name]]
        vals = [(k, bool(fn(c.options[k]))) for k in cs]
        t = [k for k, v in vals if v]
        f = [k for k, v in vals if not v]
        if not f:
            return True
        if not t:
            return False
        r = self.path.decide(f"{c.name}:{label}", 2) == 0
        self.path.cands[c.name] = t if r else f
        return r

    def key(self, v):
        """Hashable dictionary key."""
        v = self.force(v)
        if isinstance(v, tuple) and not isinstance(v, SizeV):
            return tuple(self.key(x) for x in v)
        if isinstance(v, Unknown):
            self.abort(f"unknown dictionary key: {v.reason}")
        if isinstance(v, NumV):
            s = self.path.simp(v.sc)
            if s.is_int_const():
                return int(s.const_val())
            return NumV(s, v.kind)
        if isinstance(v, DType):
            return self.path.dt(v)
        if isinstance(v, (list, dict, set)):
            self.throw("TypeError", f"unhashable type: {type(v).__name__}")
        return v

    def truth(self, v):
        if v is True or v is False:
            return v
        if isinstance(v, Choice):
            return self.pred(v, lambda o: self.truth(o), "truth")
        if isinstance(v, Unknown):
            self.abort(f"branch on unknown value ({v.reason})")
        if isinstance(v, NumV):
            return not self.path.sign_in(v.sc, {0}, v.kind == "int")
        if isinstance(v, TensorV):
            return self.model.truth(v)
        if isinstance(v, GenList):
            return True
        if isinstance(v, SizeV):
            return len(v) > 0
        if isinstance(v, list):
            if v and all(isinstance(x, FamilyV) for x in v):
                return self.truth(NumV(sum((x.length for x in v), ZERO), "int"))
            return len(v) > 0
        if isinstance(v, (str, tuple, dict, set, frozenset, int, float)) or v is None:
            return bool(v)
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call_method(v, "__bool__", []))
            f, _ = v.cls.lookup("__len__")
            if f is not None:
                return self.truth(self.call_method(v, "__len__", []))
            return True
        return True

    # ------------------------------------------------------------- operators
    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if op == "Is" else not r
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else not r
        if isinstance(a, Choice) or isinstance(b, Choice):
            if isinstance(a, Choice) and isinstance(b, Choice):
                a = self.force(a)
            if isinstance(a, Choice):
                return self.pred(a, lambda o: self.truth(self.compare(op, o, b)), f"{op} {self.tostr(b)}")
            if isinstance(b, Choice):
                return self.pred(b, lambda o: self.truth(self.compare(op, a, o)), f"{op} {self.tostr(a)}")
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return a if isinstance(a, Unknown) else b
        if isinstance(a, TensorV) or isinstance(b, TensorV):
            return self.model.compare(op, a, b)
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b)
            if isinstance(r, Unknown):
                return r
            return r if op == "Eq" else not r
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            isint = self.kind(a) == "int" and self.kind(b) == "int"
            want = {"Lt": {-1}, "LtE": {-1, 0}, "Gt": {1}, "GtE": {0, 1}}[op]
            return self.path.sign_in(na - nb, want, isint)
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, float) and x in (float("inf"), float("-inf")) and (self.num(y) is not None or isinstance(y, float)):
                if isinstance(y, float) and y == x:
                    lt = gt = False
                else:
                    gt = x > 0
                    lt = not gt
                if flip:
                    lt, gt = gt, lt
                return {"Lt": lt, "LtE": lt or (not lt and not gt), "Gt": gt, "GtE": gt or (not lt and not gt)}[op]
        if isinstance(a, (str,)) and isinstance(b, str) or isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            for x, y in zip(a, b):
                if not self.truth(self.compare("Eq", x, y)):
                    return self.compare(op, x, y)
            return self.compare(op, len(a), len(b))
        if isinstance(a, Obj):
            return self.call_method(a, {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op], [b])
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            self.throw("TypeError", f"'{op}' not supported between {a!r} and {b!r}")
        self.abort(f"comparison {op} of {a!r} and {b!r}")

    def is_(self, a, b):
        if isinstance(a, Choice):
            return self.pred(a, lambda o: self.is_(o, b), f"is {self.tostr(b)}")
        if isinstance(b, Choice):
            return self.pred(b, lambda o: self.is_(a, o), f"is {self.tostr(a)}")
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            if a is b:
                return True
            self.abort("identity test of an unknown value")
        if isinstance(a, (Ext, DType)) or isinstance(a, BoundM):
            return self.equal(a, b) is True
        if isinstance(a, NumV) and isinstance(b, (bool, type(None))):
            return False
        if isinstance(a, (int, str)) and isinstance(b, (int, str)) and type(a) is type(b):
            return a == b
        return a is b

    def equal(self, a, b):
        if isinstance(a, Choice) or isinstance(b, Choice):
            return self.compare("Eq", a, b)
        if a is b:
            return True
        if isinstance(a, SymStr) or isinstance(b, SymStr):
            if isinstance(b, SymStr) and not isinstance(a, SymStr):
                a, b = b, a
            if isinstance(b, SymStr):
                return self.path.tok_eq(a.tok, b.tok)
            if isinstance(b, str):
                if isinstance(a.tok, Device):
                    return self.path.tok_eq(a.tok, Device(b))
                return self.path.tok_eq(a.tok, DType(b.replace("torch.", "")))
            return False
        if isinstance(a, (DType, Device)) or isinstance(b, (DType, Device)):
            if isinstance(a, str):
                a = Device(a)
            if isinstance(b, str):
                b = Device(b)
            if type(a) is not type(b):
                return False
            return self.path.tok_eq(a, b)
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            isint = self.kind(a) == "int" and self.kind(b) == "int"
            return self.path.sign_in(na - nb, {0}, isint)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if isinstance(a, list) != isinstance(b, list):
                return False
            if len(a) != len(b):
                return False
            return all(self.truth(self.equal(x, y)) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            return set(a) == set(b) and all(self.truth(self.equal(a[k], b[k])) for k in a)
        if isinstance(a, Obj):
            f, _ = a.cls.lookup("__eq__")
            if f is not None:
                return self.call_method(a, "__eq__", [b])
            return False
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return Unknown("comparison with unknown")
        if isinstance(a, TensorV) or isinstance(b, TensorV):
            return self.model.compare("Eq", a, b)
        try:
            return bool(a == b)
        except Exception:
            self.abort(f"equality of {a!r} and {b!r}")

    def contains(self, c, x):
        if isinstance(c, Choice):
            c = self.force(c)
        if isinstance(x, Choice) and not isinstance(c, (Obj, Unknown)):
            return self.pred(x, lambda o: self.contains(c, o), f"in {self.tostr(c)}")
        if isinstance(c, Unknown):
            self.abort("membership in an unknown container")
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            self.abort("substring test of a symbolic string")
        if isinstance(c, (dict, set, frozenset)):
            k = self.key(x)
            try:
                if k in c:
                    return True
            except TypeError:
                self.abort("unhashable key")
            if isinstance(k, NumV):
                for y in c:
                    if isinstance(y, (int, NumV)) and not isinstance(y, bool) and self.equal(y, k):
                        return True
            if isinstance(k, DType):
                return any(isinstance(y, DType) and self.equal(y, k) for y in c)
            return False
        if isinstance(c, (list, tuple)):
            for y in c:
                if isinstance(y, FamilyV):
                    self.abort("membership in a family")
                if y is x:
                    return True
                if isinstance(x, TensorV) and isinstance(y, TensorV):
                    # elementwise equality then truth: torch semantics
                    if self.truth(self.model.compare("Eq", x, y)):
                        return True
                    continue
                if self.truth(self.equal(y, x)):
                    return True
            return False
        if isinstance(c, Obj):
            f, _ = c.cls.lookup("__contains__")
            if f is not None:
                return self.truth(self.call_method(c, "__contains__", [x]))
        if isinstance(c, SymSeq):
            self.abort("membership in a symbolic range")
        s = self.iterate(c)
        if isinstance(s, SymSeq):
            self.abort("membership in a symbolic sequence")
        return self.contains(list(s), x)

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul", "Pow": "pow",
              "FloorDiv": "floordiv", "Mod": "mod", "BitOr": "or", "BitAnd": "and", "BitXor": "xor",
              "LShift": "lshift", "RShift": "rshift"}

    def inplace(self, op, a, b):
        a = self.force(a)
        if isinstance(a, TensorV):
            return self.model.inplace_op(op, a, self.force(b))
        if isinstance(a, list) and op == "Add":
            s = self.iterate(b)
            if isinstance(s, SymSeq):
                self.abort("list extension with a symbolic sequence")
            a.extend(s)
            return a
        if isinstance(a, (Obj, SMV)):
            if isinstance(a, Obj):
                f, _ = a.cls.lookup(f"__i{self.DUNDER[op]}__")
                if f is not None:
                    return self.call_method(a, f"__i{self.DUNDER[op]}__", [b])
        if isinstance(a, dict) and op == "BitOr":
            a.update(self.force(b))
            return a
        if isinstance(a, set) and op in ("BitOr", "Sub", "BitAnd"):
            b = self.force(b)
            {"BitOr": a.update, "Sub": a.difference_update, "BitAnd": a.intersection_update}[op](b)
            return a
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        if isinstance(a, TensorV) or isinstance(b, TensorV):
            for x in (a, b):
                if isinstance(x, Obj):
                    break
                if isinstance(x, SMV):
                    return self.model.sm_binop(op, a, b)
            else:
                return self.model.binop(op, a, b)
        if isinstance(a, SMV) or isinstance(b, SMV):
            return self.model.sm_binop(op, a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            d = self.DUNDER[op]
            if isinstance(a, Obj):
                f, _ = a.cls.lookup(f"__{d}__")
                if f is not None:
                    r = self.call_method(a, f"__{d}__", [b])
                    if r is not NotImplemented:
                        return r
            if isinstance(b, Obj):
                f, _ = b.cls.lookup(f"__r{d}__")
                if f is not None:
                    r = self.call_method(b, f"__r{d}__", [a])
                    if r is not NotImplemented:
                        return r
            self.throw("TypeError", f"unsupported operand type(s) for {op}: {a!r} and {b!r}")
        na, nb = self.num(a), self.num(b)
        if na is not None and nb is not None:
            return self.num_op(op, a, b, na, nb)
        for x in (a, b):
            if isinstance(x, float) and (self.num(a if x is b else b) is not None or isinstance(a, float) and isinstance(b, float)):
                inf = float("inf")
                if x in (inf, -inf):
                    if op == "Add" or (op == "Sub" and x is a):
                        return x
                    if op == "Sub":
                        return -x
                    if op == "Mult":
                        o = a if x is b else b
                        if self.path.sign_in(self.num(o), {1}, False):
                            return x
                return Unknown("infinite arithmetic")
        if isinstance(a, str) and op == "Mod":
            return a + "%" + self.tostr(b)
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)) and op == "Add":
            return self.tostr(a) + self.tostr(b)
        if op == "Add" and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            r = list(a) + list(b)
            return tuple(r) if isinstance(a, tuple) else r
        if op == "Mult":
            if isinstance(b, (list, tuple, str)) and isinstance(a, int):
                a, b = b, a
            if isinstance(a, (list, tuple, str)) and isinstance(b, int):
                return a * b
            if isinstance(a, (list, tuple)) and isinstance(b, NumV):
                var = f"%L{self.path.fresh('')}"
                if len(a) == 1:
                    r = [FamilyV(var, b.sc, a[0])]
                    return r if isinstance(a, list) else tuple(r)
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            return {"BitOr": lambda: a | b, "BitAnd": lambda: a & b, "Sub": lambda: a - b, "BitXor": lambda: a ^ b}[op]()
        if isinstance(a, dict) and isinstance(b, dict) and op == "BitOr":
            return {**a, **b}
        if op == "BitOr" and (isinstance(a, (type, ClassV, Ext)) or a is None):
            return (a, b) if not isinstance(a, tuple) else a + (b,)
        if isinstance(a, bool) and isinstance(b, bool):
            return {"BitOr": a | b, "BitAnd": a & b, "BitXor": a ^ b}[op]
        if isinstance(a, (str, type(None), dict)) or isinstance(b, (str, type(None), dict)):
            self.throw("TypeError", f"unsupported operand types for {op}: {a!r}, {b!r}")
        if isinstance(a, Ext) or isinstance(b, Ext):
            return Unknown(f"operation on external value {a!r} {op} {b!r}", self.site())
        self.abort(f"{op} of {a!r} and {b!r}")

    def num_op(self, op, a, b, na, nb):
        ka, kb = self.kind(a), self.kind(b)
        kind = "int" if ka == "int" and kb == "int" else "float"
        if op == "Add":
            return self.mknum(na + nb, kind)
        if op == "Sub":
            return self.mknum(na - nb, kind)
        if op == "Mult":
            return self.mknum(na * nb, kind)
        if op == "Div":
            if nb.is_const() and nb.is_zero():
                self.throw("ZeroDivisionError", "division by zero")
            return self.mknum(na / nb, "float")
        if op == "Pow":
            if nb.is_const():
                e = nb.const_val()
                if kind == "int" and e < 0:
                    kind = "float"
                return self.mknum(na.pow(e), kind)
            if na.is_const() and na.const_val() == 1:
                return self.mknum(ONE, kind)
            return self.mknum(Sc.atom(node("powf", (na, nb))), "float")
        if op == "FloorDiv":
            return self.mknum(self.floordiv(na, nb), kind)
        if op == "Mod":
            return self.mknum(na - self.floordiv(na, nb) * nb if self._fd_exact(na, nb) else self.mod(na, nb), kind)
        if isinstance(a, int) and isinstance(b, int):
            return {"BitOr": lambda: a | b, "BitAnd": lambda: a & b, "BitXor": lambda: a ^ b,
                    "LShift": lambda: a << b, "RShift": lambda: a >> b}[op]()
        self.abort(f"numeric {op}")

    def _fd_split(self, a, b):
        """a = q*b + r with 0 <= r < b provable, else None."""
        if b.is_const() and a.is_const() and b.const_val() != 0:
            x, y = a.const_val(), b.const_val()
            q = x // y
            return Sc.const(q), Sc.const(x - q * y)
        if not self.path.bd.pos(b):
            return None
        from .ten import split_const

        q, r = split_const(a, b)
        for k in (0, 1, -1, 2, -2):
            rr = r - b * k
            if self.path.bd.nonneg(rr) and self.path.bd.nonneg(b - 1 - rr):
                return q + k, rr
        return None

    def _fd_exact(self, a, b):
        a, b = self.path.simp(a), self.path.simp(b)
        return self._fd_split(a, b) is not None

    def floordiv(self, a, b):
        a, b = self.path.simp(a), self.path.simp(b)
        s = self._fd_split(a, b)
        if s is not None:
            return s[0]
        # (2n+c)//2 with c odd
        n = node("floordiv", (a, b))
        if self.path.bd.nonneg(a) and self.path.bd.pos(b):
            self.path.bd.set(n, 0)
        return Sc.atom(n)

    def mod(self, a, b):
        a, b = self.path.simp(a), self.path.simp(b)
        n = node("mod", (a, b))
        if self.path.bd.pos(b):
            self.path.bd.set(n, 0)
            if b.is_const():
                self.path.bd.set(n, hi=int(b.const_val()) - 1)
            else:
                self.path.bd.fact(b - 1 - Sc.atom(n))
        return Sc.atom(n)

    # --------------------------------------------------------------- iteration
    def iterate(self, v):
        v = self.force(v)
        if isinstance(v, SymSeq):
            return v
        if isinstance(v, GenList):
            r = v[v.pos:]
            v.pos = len(v)
            return self._fam(r)
        if isinstance(v, (list, tuple)):
            return self._fam(list(v))
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr) if any(isinstance(x, str) for x in v) else list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, TensorV):
            return self.model.iter_tensor(v)
        if isinstance(v, Obj):
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                return self.iterate(self.call_method(v, "__iter__", []))
            f, _ = v.cls.lookup("__getitem__")
            if f is not None:
                self.abort("old-style iteration")
        if isinstance(v, Unknown):
            self.abort(f"iteration over unknown value ({v.reason})")
        if v is None or isinstance(v, (int, NumV, FuncV)):
            self.throw("TypeError", f"{v!r} is not iterable")
        if isinstance(v, ModuleObj) and v.kind.endswith("Sequential"):
            return [m for _, m in v.children]
        self.abort(f"iteration over {v!r}")

    def _fam(self, l):
        if not any(isinstance(x, FamilyV) for x in l):
            return l
        if len(l) == 1:
            f = l[0]
            return SymSeq(f.length, lambda i, f=f: self.inst(f.elem, {f.var: i}))
        self.abort("iteration over a mixed symbolic list")

    def inst(self, v, mp):
        """Instantiate the loop variable of a family element."""
        from .path import subst_ten

        if isinstance(v, TensorV):
            return self.model.new(subst_ten(v.read(), mp), v.dtype, v.device, graph=v.graph)
        if isinstance(v, NumV):
            return NumV(v.sc.subst(mp), v.kind)
        if isinstance(v, tuple):
            return tuple(self.inst(x, mp) for x in v)
        if isinstance(v, list):
            return [self.inst(x, mp) for x in v]
        if isinstance(v, (int, str, bool, type(None), DType, Device)):
            return v
        self.abort(f"family of {v!r}")

    # ------------------------------------------------------------------- items
    def getitem(self, o, k):
        o = self.force(o)
        if isinstance(o, Unknown):
            return o
        if isinstance(o, TensorV):
            return self.model.index(o, k)
        if isinstance(o, dict):
            kk = self.key(k)
            if kk in o:
                return o[kk]
            if isinstance(kk, NumV):
                for y in list(o):
                    if isinstance(y, (int, NumV)) and not isinstance(y, bool) and self.equal(y, kk):
                        return o[y]
            if isinstance(kk, DType):
                for y in list(o):
                    if isinstance(y, DType) and self.equal(y, kk):
                        return o[y]
            if isinstance(o, DefaultDict):
                o[kk] = self.call(o.factory, [], {})
                return o[kk]
            self.throw("KeyError", kk)
        if isinstance(o, (list, tuple, str)):
            if isinstance(k, Slice):
                if isinstance(o, list) and any(isinstance(x, FamilyV) for x in o):
                    self.abort("slice of a symbolic list")
                a, b, c = (self._pyint(x) for x in (k.a, k.b, k.c))
                r = o[slice(a, b, c)]
                return SizeV(r) if isinstance(o, SizeV) else r
            k = self.force(k)
            if isinstance(k, TensorV):
                k = self.model.item(k)
            n = self.num(k)
            if n is None:
                self.throw("TypeError", f"indices must be integers, not {k!r}")
            if len(o) == 1 and isinstance(o[0], FamilyV):
                f = o[0]
                return self.inst(f.elem, {f.var: n if not n.is_const() or n.const_val() >= 0 else f.length + n})
            if not n.is_int_const():
                self.abort(f"symbolic index into a {type(o).__name__}")
            try:
                return o[int(n.const_val())]
            except IndexError:
                self.throw("IndexError", "index out of range")
        if isinstance(o, Obj):
            f, _ = o.cls.lookup("__getitem__")
            if f is not None:
                return self.call_method(o, "__getitem__", [k])
            r = self.model.obj_getitem(o, k)
            if r is not NotImplemented:
                return r
        if isinstance(o, ModuleObj):
            return o.children[self._pyint(k)][1]
        if isinstance(o, (ClassV, Ext)):
            return o
        if isinstance(o, SymSeq):
            return o.get(self.toint(k))
        if o is None:
            self.throw("TypeError", "'NoneType' object is not subscriptable")
        self.abort(f"subscript of {o!r}")

    def _pyint(self, x):
        if x is None:
            return None
        n = self.toint(x)
        if not n.is_int_const():
            self.abort("symbolic slice bound of a list")
        return int(n.const_val())

    def setitem(self, o, k, v):
        o = self.force(o)
        if isinstance(o, TensorV):
            return self.model.setindex(o, k, v)
        if isinstance(o, dict):
            kk = self.key(k)
            if isinstance(kk, NumV) and kk not in o:
                for y in list(o):
                    if isinstance(y, (int, NumV)) and not isinstance(y, bool) and self.equal(y, kk):
                        kk = y
                        break
            o[kk] = v
            return
        if isinstance(o, list):
            if isinstance(k, Slice):
                a, b, c = (self._pyint(x) for x in (k.a, k.b, k.c))
                o[slice(a, b, c)] = list(self.iterate(v))
                return
            i = self._pyint(k)
            try:
                o[i] = v
            except IndexError:
                self.throw("IndexError", "index out of range")
            return
        if isinstance(o, tuple):
            self.throw("TypeError", "'tuple' object does not support item assignment")
        if isinstance(o, Obj):
            f, _ = o.cls.lookup("__setitem__")
            if f is not None:
                self.call_method(o, "__setitem__", [k, v])
                return
        if isinstance(o, Unknown):
            self.abort(f"item assignment to unknown value ({o.reason})")
        self.abort(f"item assignment to {o!r}")

    # -------------------------------------------------------------- attributes
    def getattr(self, o, name, default=KeyError):
        v = self._getattr(o, name)
        if v is NOATTR:
            if default is not KeyError:
                return default
            o = self.force(o)
            if isinstance(o, Obj):
                if name in OPTIMIZER_NAMES and any(not isinstance(c, ClassV) for c in o.cls.mro()):
                    self.abort(f"attribute {name!r} of {o!r} is not modelled")
            elif o is not None and not isinstance(o, (ClassV, ModuleObj, ModV)):
                py = type(o) if type(o).__module__ == "builtins" else None
                if py is None or hasattr(py, name):
                    self.abort(f"attribute {name!r} of {o!r} is not modelled")
            self.throw("AttributeError", f"{o!r} has no attribute {name!r}")
        return v

    def _getattr(self, o, name):
        o = self.force(o)
        if isinstance(o, Unknown):
            return Unknown(f"{o.reason}.{name}", o.site)
        if isinstance(o, ModV):
            if name in o.env:
                return o.env[name]
            if o.name + "." + name in self.src.mods:
                return self.resolve_import(o.name + "." + name)
            return NOATTR
        if isinstance(o, Obj):
            return self.obj_getattr(o, name)
        if isinstance(o, ClassV):
            return self.class_getattr(o, name)
        if isinstance(o, SuperV):
            return self.super_getattr(o, name)
        if isinstance(o, FuncV):
            if name in ("__name__", "__qualname__"):
                return o.qualname.split(".")[-1] if name == "__name__" else o.qualname
            if name == "__func__":
                return o
            if name == "__doc__":
                return ast.get_docstring(o.node) if hasattr(o.node, "body") and isinstance(o.node, ast.FunctionDef) else None
            if name in ("cache_clear", "cache_info"):
                return Native(name, lambda i, a, k: (o.memo or {}).clear())
            return o.attrs.get(name, NOATTR)
        if isinstance(o, BoundM):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.fn
            return self._getattr(o.fn, name)
        if isinstance(o, Partial):
            return {"func": o.fn, "args": o.args, "keywords": o.kwargs}.get(name, NOATTR)
        if isinstance(o, ExcV):
            if name == "args":
                return tuple(o.args)
            return NOATTR
        if isinstance(o, Prop):
            if name == "setter":
                return Native("prop.setter", o)
        r = self.model.getattr(o, name)
        if r is not NotImplemented:
            return r
        from . import pylib

        return pylib.builtin_attr(self, o, name)

    def bind_attr(self, v, obj, cls):
        if isinstance(v, FuncV):
            return BoundM(v, obj)
        if isinstance(v, Native):
            return BoundM(v, obj)
        if isinstance(v, ClsMethod):
            return BoundM(v.fn, cls)
        if isinstance(v, StatMethod):
            return v.fn
        if isinstance(v, Prop):
            return self.call(v.fget, [obj], {})
        return v

    def obj_getattr(self, o, name):
        v, c = o.cls.lookup(name)
        if isinstance(v, Prop):
            return self.call(v.fget, [o], {})
        if name in o.attrs:
            return o.attrs[name]
        if v is not None or c is not None:
            return self.bind_attr(v, o, o.cls)
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return o.attrs
        if name == "__doc__":
            return None
        r = self.model.obj_attr(o, name)
        if r is not NotImplemented:
            return r
        f, _ = o.cls.lookup("__getattr__")
        if f is not None:
            return self.call(BoundM(f, o), [name], {})
        if name in ("__init__", "__init_subclass__"):
            return Native("object.__init__", lambda i, a, k: None)
        if name == "__setattr__":
            return Native("setattr", lambda i, a, k: o.attrs.__setitem__(a[0], a[1]))
        return NOATTR

    def class_getattr(self, c, name):
        r = self.model.contract_attr(c, name)
        if r is not NotImplemented:
            return r
        v, d = c.lookup(name)
        if d is not None:
            if isinstance(v, ClsMethod):
                return BoundM(v.fn, c)
            if isinstance(v, StatMethod):
                return v.fn
            return v
        if name in ("__name__", "__qualname__"):
            return c.name
        if name == "__module__":
            return c.module.name
        if name == "__mro__":
            return tuple(c.mro())
        if name == "mro":
            return Native("mro", lambda i, a, k: list(c.mro()))
        if name == "__bases__":
            return tuple(c.bases)
        if name == "__dict__":
            return dict(c.dict)
        if name == "__doc__":
            return None
        if name == "__subclasses__":
            self.abort("__subclasses__")
        if name == "__class__":
            return type
        r = self.model.class_attr(c, name)
        if r is not NotImplemented:
            return r
        return NOATTR

    def super_getattr(self, s, name):
        obj = s.obj
        cls = obj.cls if isinstance(obj, Obj) else obj
        mro = cls.mro()
        k = mro.index(s.cls) if s.cls in mro else -1
        for c in mro[k + 1:]:
            if isinstance(c, ClassV):
                if name in c.dict:
                    v = c.dict[name]
                    if isinstance(obj, Obj):
                        return self.bind_attr(v, obj, cls)
                    if isinstance(v, ClsMethod):
                        return BoundM(v.fn, cls)
                    if isinstance(v, StatMethod):
                        return v.fn
                    return v
            else:
                r = self.model.base_attr(c, obj, name)
                if r is not NotImplemented:
                    return r
        if name in ("__init__", "__init_subclass__", "__post_init__"):
            return Native("object.__init__", lambda i, a, k: None)
        if name == "__setattr__":
            return Native("setattr", lambda i, a, k: obj.attrs.__setitem__(a[0], a[1]))
        return NOATTR

    def setattr(self, o, name, v):
        o = self.force(o)
        if isinstance(o, Obj):
            p, _ = o.cls.lookup(name)
            if isinstance(p, Prop):
                if p.fset is None:
                    self.throw("AttributeError", f"can't set attribute {name}")
                self.call(p.fset, [o, v], {})
                return
            f, c = o.cls.lookup("__setattr__")
            if f is not None:
                self.call(BoundM(f, o), [name, v], {})
                return
            self.path.event("setattr", obj=o, name=name, value=v)
            o.attrs[name] = v
        elif isinstance(o, ClassV):
            self.path.event("global", what=f"class attribute {o.name}.{name}")
            o.dict[name] = v
        elif isinstance(o, ModV):
            self.path.event("global", what=f"module attribute {o.name}.{name}")
            o.env[name] = v
        elif isinstance(o, FuncV):
            o.attrs[name] = v
        elif isinstance(o, SuperV):
            self.setattr(o.obj, name, v)
        elif isinstance(o, Unknown):
            self.abort(f"attribute assignment to unknown value ({o.reason})")
        else:
            if not self.model.setattr(o, name, v):
                self.abort(f"attribute assignment {name} on {o!r}")

    # ------------------------------------------------------------------- calls
    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.iterate(self.eval(a.value, env))
                if isinstance(s, SymSeq):
                    var, val = self.family(s, lambda v: v)
                    args.append(FamilyV(var, s.count, val))
                else:
                    args.extend(s)
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                v = self.force(v)
                if not isinstance(v, dict):
                    self.abort(f"** of {v!r}")
                for kk, vv in v.items():
                    if kk in kwargs:
                        self.throw("TypeError", f"multiple values for keyword {kk}")
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = v
        if self.stack:
            self.stack[-1][2] = e.lineno
        return self.call(f, args, kwargs)

    def call_method(self, o, name, args, kwargs=None):
        return self.call(self.getattr(o, name), list(args), kwargs or {})

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        args = list(args)
        f = self.force(f)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, BoundM):
            return self.call(f.fn, [f.self_] + args, kwargs)
        if isinstance(f, Native):
            return f.f(self, args, kwargs)
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + args, {**f.kwargs, **kwargs})
        if isinstance(f, (ClsMethod, StatMethod)):
            return self.call(f.fn, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, type):
            if issubclass(f, BaseException):
                return ExcV(f.__name__, tuple(args), f)
            from . import pylib

            return pylib.call_type(self, f, args, kwargs)
        if isinstance(f, Ext):
            return self.model.call_ext(f.path, args, kwargs)
        if isinstance(f, Obj):
            return self.call_method(f, "__call__", args, kwargs)
        if isinstance(f, Unknown):
            self.abort(f"call of unknown value ({f.reason})")
        if isinstance(f, ModuleObj):
            return self.model.call_module(f, args, kwargs)
        if isinstance(f, CtxV):
            # context manager object used as decorator factory
            if args and isinstance(args[0], (FuncV, Native, BoundM)):
                return self.ctx_wrap(f, args[0])
        if f is None or isinstance(f, (int, str, NumV, TensorV, dict, list, tuple)):
            self.throw("TypeError", f"{f!r} is not callable")
        if f in (classmethod, staticmethod, property):
            return {classmethod: ClsMethod, staticmethod: StatMethod, property: Prop}[f](args[0])
        self.abort(f"call of {f!r}")

    def instantiate(self, c, args, kwargs):
        for b in c.mro():
            if isinstance(b, type) and issubclass(b, BaseException):
                return ExcV(c.name, tuple(args), c)
        r = self.model.instantiate(c, args, kwargs)
        if r is not NotImplemented:
            return r
        # abstract methods
        missing = self.abstract(c)
        if missing:
            self.throw("TypeError", f"Can't instantiate abstract class {c.name} with abstract methods {missing}")
        o = Obj(c)
        f, _ = c.lookup("__init__")
        if f is not None:
            self.call(BoundM(f, o), args, kwargs)
        else:
            r = self.model.base_init(o, args, kwargs)
        return o

    def abstract(self, c):
        if not any(isinstance(b, Ext) and b.path in ("abc.ABC",) for b in c.mro()):
            return []
        names = set()
        for k in c.mro():
            if isinstance(k, ClassV):
                for n, v in k.dict.items():
                    fn = v.fn if isinstance(v, (ClsMethod, StatMethod)) else v
                    if isinstance(fn, FuncV) and fn.attrs.get("abstract"):
                        names.add(n)
        out = []
        for n in sorted(names):
            v, _ = c.lookup(n)
            fn = v.fn if isinstance(v, (ClsMethod, StatMethod)) else v
            if isinstance(fn, FuncV) and fn.attrs.get("abstract"):
                out.append(n)
        return out

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kwargs = dict(kwargs)
        if len(args) > len(pos):
            if a.vararg is None:
                self.throw("TypeError", f"{f.qualname}() takes {len(pos)} positional arguments but {len(args)} were given")
            out[a.vararg.arg] = tuple(args[len(pos):])
            args = args[: len(pos)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            out[n] = v
        nd = len(f.defaults)
        for k, n in enumerate(pos):
            if n in out:
                if n in kwargs:
                    self.throw("TypeError", f"{f.qualname}() got multiple values for argument {n!r}")
                continue
            if n in kwargs:
                out[n] = kwargs.pop(n)
            elif k >= len(pos) - nd:
                out[n] = f.defaults[k - (len(pos) - nd)]
            else:
                self.throw("TypeError", f"{f.qualname}() missing required argument {n!r}")
        for x in a.kwonlyargs:
            n = x.arg
            if n in kwargs:
                out[n] = kwargs.pop(n)
            elif n in f.kwdefaults:
                out[n] = f.kwdefaults[n]
            else:
                self.throw("TypeError", f"{f.qualname}() missing keyword argument {n!r}")
        if a.kwarg is not None:
            out[a.kwarg.arg] = kwargs
        elif kwargs:
            self.throw("TypeError", f"{f.qualname}() got an unexpected keyword argument {sorted(kwargs)[0]!r}")
        return out

    def call_func(self, f, args, kwargs):
        if len(self.stack) > 120:
            self.abort("call depth limit")
        if f.memo is not None:
            try:
                mk = (tuple(self.key(a) if not isinstance(a, (TensorV, SMV, Obj)) else ("id", id(a)) for a in args),
                      tuple(sorted((k, self.key(v)) for k, v in kwargs.items())))
                hash(mk)
            except TypeError:
                self.throw("TypeError", "unhashable argument to a cached function")
            if mk in f.memo:
                self.path.event("memo-hit", fn=f.qualname)
                return f.memo[mk]
        loc = self.bind_args(f, args, kwargs)
        env = Env(f.module, f.closure, f)
        env.vars = loc
        self.touched.add((f.module.path, f.qualname))
        self.stack.append([f.qualname, f.module.path, f.node.lineno])
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.eval(f.node.body, env)
            elif has_yield(f.node):
                if f.attrs.get("ctxmanager"):
                    self.stack.pop()
                    g = GenCtx(self, f, env)
                    self.stack.append([f.qualname, f.module.path, f.node.lineno])
                    return g
                env.yields = []
                try:
                    self.exec_block(f.node.body, env)
                except ReturnEx:
                    pass
                r = GenList(env.yields)
            else:
                try:
                    self.exec_block(f.node.body, env)
                    r = None
                except ReturnEx as x:
                    r = x.v
        finally:
            self.stack.pop()
        if f.memo is not None:
            f.memo[mk] = r
        return r

    # -------------------------------------------------------------- isinstance
    def isinstance(self, v, t):
        if isinstance(v, Choice):
            return self.pred(v, lambda o: self.isinstance(o, t), f"isinstance {self.tostr(t)[:40]}")
        t = self.force(t)
        if isinstance(t, (tuple, list)):
            return any(self.isinstance(v, x) for x in t)
        if isinstance(v, Unknown):
            self.abort(f"isinstance of unknown value ({v.reason})")
        if t is None:
            return v is None
        if isinstance(t, ClassV):
            if isinstance(v, Obj):
                return v.cls.is_sub(t)
            if isinstance(v, SMV):
                return self.model.sm_isinstance(v, t)
            if isinstance(v, ExcV) and isinstance(v.cls, ClassV):
                return v.cls.is_sub(t)
            return False
        if isinstance(t, type):
            if t is object:
                return True
            if isinstance(v, NumV):
                if t is int:
                    return v.kind == "int"
                if t is float:
                    return v.kind == "float"
                return False
            if isinstance(v, bool):
                return t in (bool, int)
            if isinstance(v, (SymStr,)):
                return t is str
            if t is type:
                return isinstance(v, (type, ClassV))
            if isinstance(v, ExcV):
                return isinstance(v.cls, type) and issubclass(v.cls, t)
            if isinstance(v, (int, float, str, list, tuple, dict, set, frozenset)) or v is None:
                return isinstance(v, t)
            if isinstance(v, Obj):
                return any(b is t for b in v.cls.mro())
            return False
        if isinstance(t, Ext):
            n = t.path.split(".")[-1]
            if t.path.startswith("numbers."):
                if isinstance(v, bool):
                    return True
                if isinstance(v, (int,)) or isinstance(v, NumV) and v.kind == "int":
                    return n in ("Number", "Real", "Integral", "Rational", "Complex")
                if isinstance(v, (NumV, float)):
                    return n in ("Number", "Real", "Complex")
                return False
            if n == "Callable":
                return self.callable(v)
            if t.path.startswith(("typing.", "collections.abc.")):
                m = {"Iterable": (list, tuple, dict, set, frozenset, str), "Sequence": (list, tuple, str),
                     "Mapping": (dict,), "MutableMapping": (dict,), "Dict": (dict,), "List": (list,), "Tuple": (tuple,),
                     "Iterator": (GenList,), "Generator": (GenList,), "Hashable": (int, str, tuple),
                     "Collection": (list, tuple, dict, set)}.get(n)
                if m:
                    return isinstance(v, m)
            return self.model.isinstance_ext(v, t)
        if isinstance(t, DType):
            return False
        self.abort(f"isinstance with {t!r}")

    def callable(self, v):
        v = self.force(v)
        if isinstance(v, (FuncV, BoundM, Partial, Native, ClassV, type, Ext, ModuleObj, StatMethod, ClsMethod)):
            return True
        if isinstance(v, Obj):
            return v.cls.lookup("__call__")[0] is not None
        if isinstance(v, Unknown):
            self.abort("callable() of an unknown value")
        return False


class _NoAttr:
    def __repr__(self):
        return "<no attribute>"


NOATTR = _NoAttr()


class _SymComp(Exception):
    def __init__(self, k, s):
        self.k, self.s = k, s


class DefaultDict(dict):
    factory = None


class GenCtx:
    """Generator function used through contextlib.contextmanager (runs in a thread)."""

    def __init__(self, interp, f, env):
        self.i, self.f, self.env = interp, f, env
        self.env.gen = self
        self.to_gen = threading.Semaphore(0)
        self.to_main = threading.Semaphore(0)
        self.val = None
        self.err = None
        self.inject = None
        self.done = False
        self.main_stack = None
        self.gen_stack = None

    def _run(self):
        self.to_gen.acquire()
        try:
            if self.inject is None or self.inject != "kill":
                self.i.exec_block(self.f.node.body, self.env)
        except ReturnEx:
            pass
        except BaseException as e:  # noqa: BLE001
            self.err = e
        self.done = True
        self.to_main.release()

    def _switch(self):
        i = self.i
        self.main_stack = i.stack
        i.stack = self.gen_stack if self.gen_stack is not None else list(self.main_stack) + [
            [self.f.qualname, self.f.module.path, self.f.node.lineno]
        ]
        self.to_gen.release()
        self.to_main.acquire()
        self.gen_stack = i.stack
        i.stack = self.main_stack
        if self.err is not None:
            e, self.err = self.err, None
            if isinstance(e, _Kill):
                return
            raise e

    def start(self):
        self.t = threading.Thread(target=self._run, daemon=True)
        threading.stack_size(64 * 1024 * 1024)
        self.t.start()
        self._switch()
        if self.done:
            self.i.throw("RuntimeError", "generator didn't yield")
        return self.val

    def emit(self, v):
        self.val = v
        self.to_main.release()
        self.to_gen.acquire()
        if self.inject == "kill":
            raise _Kill()
        if self.inject is not None:
            e, self.inject = self.inject, None
            raise e
        return None

    def finish(self):
        self._switch()

    def throw(self, e):
        self.inject = e
        self._switch()
        return True  # not re-raised by the generator: swallowed

    def kill(self):
        if not self.done:
            self.inject = "kill"
            try:
                self._switch()
            except BaseException:  # noqa: BLE001
                pass


class _Kill(BaseException):
    pass


REBUILD_HOOK = REBUILD
