"""Trace-partitioning driver: enumerates all partitions of a scenario."""
import time
import traceback

from .interp import Interp
from .path import Abort, Infeasible, Path
from .ten import Undecided
from .torchmodel import TorchModel
from .values import PyRaise


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.infeasible = 0
        self.obls = []  # (rule, ok, msg, site, partition)
        self.undecided = []
        self.touched = set()
        self.raises = []
        self.finals = []
        self.time = 0.0
        self.rest = []
        self.colls = []

    def add(self, o):
        self.obls.append(o)


def explore(source, name, scenario, pins=None, max_paths=4000, model=None, collect=None, keep=False, budget=600, start=None, slice=None):
    """Run `scenario(i)` over every partition; obligations are collected from the paths."""
    res = Result(name)
    stack = [list(x) for x in start] if start is not None else [[]]
    t0 = time.time()
    while stack:
        if slice is not None and time.time() - t0 > slice:
            break
        prefix = stack.pop()
        if res.paths >= max_paths or time.time() - t0 > budget:
            res.undecided.append(dict(reason=f"more than {max_paths} partitions or {budget} s", site=None, part=""))
            break
        path = Path(prefix, pins)
        m = model() if model else TorchModel()
        i = Interp(source, path, m)
        out = None
        aborted = False
        try:
            out = scenario(i)
        except Infeasible:
            res.infeasible += 1
            aborted = True
            _push(stack, path, len(prefix))
            continue
        except (Abort, Undecided) as e:
            site = getattr(e, "site", None) or i.site() or " > ".join(i.where()[-2:])
            res.undecided.append(dict(reason=str(e), site=site, part=part(path), where=i.where()))
        except PyRaise as e:
            res.raises.append(dict(exc=repr(e.exc), site=e.site, part=part(path), stack=e.stack))
            path.oblige("no-raise", False, f"raises {e.exc!r}", site=e.site)
        except RecursionError:
            res.undecided.append(dict(reason="recursion limit", site=None, part=part(path)))
        except Exception as e:  # machinery failure
            tb = traceback.extract_tb(e.__traceback__)[-1]
            res.undecided.append(dict(reason=f"internal {type(e).__name__}: {e} ({tb.filename.split('/')[-1]}:{tb.lineno})",
                                      site=i.where()[-1:] or None, part=part(path)))
            if keep == "debug":
                raise
        res.paths += 1
        p = part(path)
        for o in path.obls:
            o["part"] = p
            o["scenario"] = name
            res.obls.append(o)
        res.touched |= i.touched
        if out is not None:
            res.finals.append(out)
        if path.data.get("dist"):
            res.colls.append(colls(path))
        if collect:
            collect(i, path, out)
        if any(o["ok"] is False for o in path.obls) and len(
                [o for o in res.obls if o["ok"] is False]) > 200:
            break
        _push(stack, path, len(prefix))
    res.rest = stack
    res.time = time.time() - t0
    return res


def _push(stack, path, n0):
    ch = [c for _, _, c in path.log]
    for k in range(len(path.log) - 1, n0 - 1, -1):
        _, n, c = path.log[k]
        for alt in range(n - 1, c, -1):
            stack.append(ch[:k] + [alt])


def part(path):
    return "; ".join(f"{l}{'' if n == 2 and c == 0 else ('=no' if n == 2 else f'#{c}')}" for l, n, c in path.log)


def colls(path):
    """Decisions (with locality) and the sequence of collectives of one partition."""
    seq = []
    for e in path.events:
        if e["kind"] == "coll":
            t = e["tensor"]
            shape = [repr(path.simp(x)) for x in t.shape] if hasattr(t, "shape") else [repr(path.simp(t.dim))] if t is not None else []
            cls = getattr(getattr(t, "cls", None), "name", "")
            seq.append((e["op"], cls + "[" + ",".join(shape) + "]", str(e["site"])))
            if e["async_"] and not e.get("waited"):
                seq.append(("UNFINISHED", "", str(e["site"])))
        elif e["kind"] == "race":
            seq.append(("RACE", e["root"], str(e["site"])))
    return ([(l, c, l in path.localdec, str(path.localdec.get(l))) for l, _, c in path.log], seq)
