"""Trace-partitioned analysis state: facts, events, obligations of one partition."""
import re
from fractions import Fraction
from math import gcd, lcm

from .sym import Bounds, NODES, ONE, Sc, ZERO, is_pos, sc, sc_is_zero
from .ten import Ten, Term, Fac, PFac, Undecided, is_var
from .values import CONCRETE_DTYPES, DType, Device

# inputs, outputs, gradients, overflow flags and sizes of the data of one process
DATA = re.compile(r"(?<![A-Za-z_0-9])(?:[XYgG]\d+\.|found_inf|batch\b|seq\d|H_|Wd_)")


class Abort(Exception):
    """The partition cannot be analysed further (construct outside the model)."""

    def __init__(self, reason, site=None):
        super().__init__(reason)
        self.reason, self.site = reason, site


class Infeasible(Exception):
    """The partition is excluded by the scenario's assumptions."""


class Path:
    def __init__(self, prefix=(), pins=None):
        self.prefix = list(prefix)
        self.log = []  # (label, noptions, chosen)
        self.bd = Bounds()
        self.eq = {}  # atom -> Sc
        self.signs = {}  # canonical expr -> frozenset of possible signs
        self.cands = {}  # choice name -> list of candidate indices
        self.conds = {}  # opaque condition key -> bool
        self.dtm = {}
        self.dtne = set()
        self.events = []
        self.obls = []
        self.pins = dict(pins or {})
        self.loopvars = {}
        self.notes = []
        self.site = lambda: None
        self.grad_mode = True
        self.warn_depth = 0
        self.data = {}
        self.localdec = {}  # label -> site
        self.counter = 0

    # -- branching
    def decide(self, label, n=2, default=0):
        if label in self.pins:
            return self.pins[label]
        k = len(self.log)
        c = self.prefix[k] if k < len(self.prefix) else 0
        if c >= n:
            raise Abort(f"non-deterministic exploration at {label}")
        self.log.append((label, n, c))
        return c

    def mark_local(self, names, label):
        """Remember decisions that depend on the data of one process."""
        if self.data.get("dist") and any(DATA.search(n) and not n.startswith("AVG") for n in names):
            self.localdec.setdefault(label, self.site())

    def event(self, kind, **kw):
        kw["kind"] = kind
        kw.setdefault("site", self.site())
        self.events.append(kw)
        return kw

    def oblige(self, rule, ok, msg="", site=None, **kw):
        self.obls.append(dict(rule=rule, ok=ok, msg=msg, site=site or self.site(), **kw))
        return ok

    # -- scalars
    def simp(self, x):
        x = sc(x)
        if self.eq:
            for _ in range(6):
                y = x.subst(self.eq)
                if y == x:
                    break
                x = y
        return x

    def simp_ten(self, t):
        if not self.eq:
            return t
        return subst_ten(t, self.eq)

    def _canon(self, d):
        if not d.t:
            return d, 1
        lead = min(d.t.items(), key=lambda kv: str(kv[0]))[1]
        return d * (1 / lead), (1 if lead > 0 else -1)

    def possible(self, d, isint):
        """Possible signs of d under the facts."""
        if d.is_const():
            v = d.const_val()
            return {(v > 0) - (v < 0)}
        if sc_is_zero(d):
            return {0}
        poss = {-1, 0, 1}
        c, sg = self._canon(d)
        st = self.signs.get(repr(c))
        if st is not None:
            poss &= {s * sg for s in st}
        if isint and not divisible(d):
            poss &= {-1, 1}
        if isint:
            if self.bd.nonneg(d - 1):
                poss &= {1}
            elif self.bd.nonneg(-d - 1):
                poss &= {-1}
            else:
                if self.bd.nonneg(d):
                    poss &= {0, 1}
                if self.bd.nonneg(-d):
                    poss &= {0, -1}
        else:
            if _real_pos(d, self):
                poss &= {1}
            elif _real_pos(-d, self):
                poss &= {-1}
            elif _real_nonneg(d, self):
                poss &= {0, 1}
            elif _real_nonneg(-d, self):
                poss &= {0, -1}
        return poss

    def sign_in(self, d, wanted, isint=True, label=None):
        d = self.simp(d)
        poss = self.possible(d, isint)
        w = set(wanted)
        if poss <= w:
            return True
        if not (poss & w):
            return False
        lv = {a for a in d.deep_atoms() if a in self.loopvars}
        if lv:
            raise Abort(f"branch depends on the symbolic loop variable: {d!r}", self.site())
        if any(is_var(a) for a in d.deep_atoms()):
            raise Abort(f"branch depends on an index variable: {d!r}", self.site())
        c, sg = self._canon(d)
        self.mark_local(d.deep_atoms(), label or f"{c!r} in {sorted(s * sg for s in w)}")
        ch = self.decide(label or f"{c!r} in {sorted(s * sg for s in w)}", 2) == 0
        poss = poss & w if ch else poss - w
        self.signs[repr(c)] = frozenset(s * sg for s in poss)
        if poss == {0}:
            self.add_eq(d)
        elif isint:
            if poss == {1}:
                self.add_fact(d - 1)
            elif poss == {0, 1}:
                self.add_fact(d)
            elif poss == {-1}:
                self.add_fact(-d - 1)
            elif poss == {-1, 0}:
                self.add_fact(-d)
        return ch

    def add_fact(self, p):
        """p >= 0 (integers)."""
        at = list(p.atoms())
        if len(at) == 1 and len(p.t) <= 2:
            cr = p.coeff(at[0])
            if cr and cr[0].is_const() and cr[1].is_const():
                k, r = cr[0].const_val(), cr[1].const_val()
                if k == 1:
                    self.bd.set(at[0], lo=_ceil(-r))
                    self._chk_single(at[0])
                    return
                if k == -1:
                    self.bd.set(at[0], hi=_floor(r))
                    self._chk_single(at[0])
                    return
                if k > 0:
                    self.bd.set(at[0], lo=_ceil(-r / k))
                    self._chk_single(at[0])
                    return
        self.bd.fact(p)

    def _chk_single(self, a):
        lo, hi = self.bd.lo.get(a), self.bd.hi.get(a)
        if lo is not None and hi is not None:
            if lo > hi:
                raise Infeasible()
            if lo == hi and a not in self.eq:
                self.eq[a] = sc(lo)

    def add_eq(self, d):
        best = None
        for a in sorted(d.atoms()):
            cr = d.coeff(a)
            if cr is None or not cr[0].is_const() or cr[0].is_zero():
                continue
            if a in NODES and not cr[1].is_const():
                continue
            pr = (abs(cr[0].const_val()) != 1, cr[1].is_const() is False, a)
            if best is None or pr < best[0]:
                best = (pr, a, cr)
        if best is None:
            # product of atoms equal to zero etc.: only remembered as a sign
            if len(d.t) == 1:
                (m, c), = d.t.items()
                live = [a for a, e in m if not is_pos(a) or a not in self.bd.lo or self.bd.lo[a] < 1]
                if len(live) == 1:
                    self.eq[live[0]] = ZERO
            return
        _, a, (k, r) = best
        v = (-r) / k
        if a in v.deep_atoms():
            return
        for x in list(self.eq):
            self.eq[x] = self.eq[x].subst({a: v})
        self.eq[a] = v
        if v.is_const() and v.is_int_const():
            lo, hi = self.bd.lo.get(a), self.bd.hi.get(a)
            n = v.const_val()
            if (lo is not None and n < lo) or (hi is not None and n > hi):
                raise Infeasible()
            self.bd.set(a, n, n)

    def cond(self, key, label=None):
        """Opaque boolean condition, consistent along the partition."""
        if key in self.conds:
            return self.conds[key]
        for a in self.loopvars:
            if a in key:
                raise Abort(f"branch depends on the symbolic loop variable: {key}", self.site())
        self.mark_local([key], label or key)
        r = self.decide(label or key, 2) == 0
        self.conds[key] = r
        return r

    # -- tokens
    def dt(self, d):
        while d in self.dtm:
            d = self.dtm[d]
        return d

    def tok_eq(self, a, b):
        a, b = self.dt(a), self.dt(b)
        if a == b:
            return True
        if type(a) is not type(b):
            return False
        if self.concrete_tok(a) and self.concrete_tok(b):
            return False
        k = frozenset((a.name, b.name))
        if k in self.dtne:
            return False
        if self.decide(f"{a.name}=={b.name}", 2) == 0:
            if self.concrete_tok(a):
                a, b = b, a
            self.dtm[a] = b
            return True
        self.dtne.add(k)
        return False

    @staticmethod
    def concrete_tok(t):
        if isinstance(t, DType):
            return t.name in CONCRETE_DTYPES
        return t.name == "cpu" or t.name.startswith("cuda")

    def fresh(self, p):
        self.counter += 1
        return f"{p}{self.counter}"


def divisible(d):
    """Whether the linear equation d = 0 over integers passes the divisibility test."""
    rest = [Fraction(c) for m, c in d.t.items() if m]
    if any(not isinstance(e, int) or e < 0 for m in d.t for _, e in m):
        return True
    const = sum((Fraction(c) for m, c in d.t.items() if not m), Fraction(0))
    scale = lcm(const.denominator, *(c.denominator for c in rest))
    return not rest or int(const * scale) % gcd(*(int(c * scale) for c in rest)) == 0


def _ceil(f):
    return -((-f.numerator) // f.denominator) if isinstance(f, Fraction) else f


def _floor(f):
    return f.numerator // f.denominator if isinstance(f, Fraction) else f


def _mono_nonneg(m, path):
    for a, e in m:
        if is_pos(a) or (path.bd.lo.get(a) is not None and path.bd.lo[a] >= 0):
            continue
        if isinstance(e, int) and e % 2 == 0:
            continue
        st = path.signs.get(a)
        if st is not None and st <= {0, 1}:
            continue
        return False
    return True


def _mono_pos(m, path):
    for a, e in m:
        if path.bd.lo.get(a) is not None and path.bd.lo[a] >= 1:
            continue
        if is_pos(a) and path.bd.lo.get(a) is None:
            continue
        st = path.signs.get(a)
        if st is not None and st <= {1}:
            continue
        return False
    return True


def _real_nonneg(d, path):
    if all(c > 0 and _mono_nonneg(m, path) for m, c in d.t.items()):
        return True
    for a in d.atoms():
        lo = path.data.get("rlo", {}).get(a)
        if lo is not None:
            cr = d.coeff(a)
            if cr and cr[0].is_const() and cr[0].const_val() > 0:
                r = cr[0] * lo + cr[1]
                if r.is_const() and r.const_val() >= 0:
                    return True
    return False


def _real_pos(d, path):
    return bool(d.t) and all(c > 0 and _mono_nonneg(m, path) for m, c in d.t.items()) and any(
        _mono_pos(m, path) for m in d.t
    )


def subst_ten(t, mp):
    out = []
    ch = False
    for x in t.terms:
        out.append(
            Term(
                x.coef.subst(mp),
                x.facs,
                [PFac(p.poly.subst(mp), p.exp) for p in x.pfacs],
                {v: l.subst(mp) for v, l in x.vars.items()},
                [e.subst(mp) for e in x.eqs],
            )
        )
    return Ten([s.subst(mp) for s in t.shape], out)
