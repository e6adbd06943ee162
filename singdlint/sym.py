"""Symbolic scalar algebra: sparse polynomials with rational exponents.

A scalar is a sum of monomials; a monomial is a product of atoms with rational
exponents.  Atoms are strings.  Nodes (uninterpreted applications) are atoms whose
structure is remembered in NODES so substitution can go through them.
"""
from fractions import Fraction
from functools import lru_cache

NODES = {}  # atom -> (fn, args tuple of Sc / str)
ATOM_INFO = {}  # atom -> dict(pos=bool)


def _norm_exp(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return int(e)
    return e


class Sc:
    __slots__ = ("t", "_h")

    def __init__(self, t=None):
        self.t = t or {}
        self._h = None

    # -- constructors
    @staticmethod
    def const(c):
        c = to_frac(c)
        return Sc({(): c}) if c != 0 else Sc()

    @staticmethod
    def atom(a, e=1):
        return Sc({((a, e),): Fraction(1)})

    # -- predicates
    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_val(self):
        if not self.t:
            return Fraction(0)
        return self.t[()]

    def is_int_const(self):
        return self.is_const() and self.const_val().denominator == 1

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def deep_atoms(self):
        out = set()
        for a in self.atoms():
            out.add(a)
            if a in NODES:
                for x in NODES[a][1]:
                    if isinstance(x, Sc):
                        out |= x.deep_atoms()
        return out

    def __eq__(self, o):
        if isinstance(o, Sc):
            return self.t == o.t
        if isinstance(o, (int, Fraction)):
            return self.is_const() and self.const_val() == o
        return NotImplemented

    def __hash__(self):
        if self._h is None:
            if self.is_const():
                self._h = hash(self.const_val())
            else:
                self._h = hash(frozenset(self.t.items()))
        return self._h

    # -- arithmetic
    def __add__(self, o):
        o = sc(o)
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n == 0:
                t.pop(m, None)
            else:
                t[m] = n
        return Sc(t)

    __radd__ = __add__

    def __neg__(self):
        return Sc({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-sc(o))

    def __rsub__(self, o):
        return sc(o) - self

    def __mul__(self, o):
        o = sc(o)
        if o.is_const():
            c = o.const_val()
            return Sc({m: k * c for m, k in self.t.items()}) if c else Sc()
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, f = mono_mul(m1, m2)
                c = c1 * c2 * f
                n = t.get(m, 0) + c
                if n == 0:
                    t.pop(m, None)
                else:
                    t[m] = n
        return Sc(t)

    __rmul__ = __mul__

    def pow(self, e):
        e = _norm_exp(Fraction(e))
        if e == 0:
            return ONE
        if e == 1:
            return self
        if not self.t:
            if e > 0:
                return ZERO
            return Sc.atom(node("inf", ()))
        if isinstance(e, int) and e > 0 and (len(self.t) > 1 and e <= 4):
            r = self
            for _ in range(e - 1):
                r = r * self
            return r
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if isinstance(e, int) or all(is_pos(a) for a, _ in m) and c > 0:
                nm = tuple(sorted((a, _norm_exp(Fraction(x) * e)) for a, x in m))
                if isinstance(e, int):
                    return Sc({nm: c**e})
                cc = const_pow(c, e)
                return cc * Sc({nm: Fraction(1)})
            if not isinstance(e, int):
                # pull out positive atoms / positive constants
                pos = tuple((a, x) for a, x in m if is_pos(a))
                rest = tuple((a, x) for a, x in m if not is_pos(a))
                if c < 0:
                    return Sc.atom(node("poly", (self,)), e)
                out = const_pow(c, e)
                out = out * Sc(
                    {tuple(sorted((a, _norm_exp(Fraction(x) * e)) for a, x in pos)): Fraction(1)}
                )
                if rest:
                    out = out * Sc.atom(node("poly", (Sc({rest: Fraction(1)}),)), e)
                return out
        # polynomial base: factor content out to be canonical
        lead = min(self.t.items(), key=lambda kv: str(kv[0]))
        c = lead[1]
        if isinstance(e, int):
            base = self * (1 / c)
            return Sc.atom(node("poly", (base,)), e) * (Fraction(c) ** e)
        return Sc.atom(node("poly", (self,)), e)

    def __truediv__(self, o):
        o = sc(o)
        if o.is_const() and not o.is_zero():
            return self * (1 / o.const_val())
        if len(o.t) > 1:
            q = exact_div(self, o)
            if q is not None:
                return q
        return self * o.pow(-1)

    def __rtruediv__(self, o):
        return sc(o) / self

    def subst(self, mp):
        """Substitute atoms by scalars (also inside nodes)."""
        if not mp:
            return self
        keys = mp.keys()
        if not (self.deep_atoms() & set(keys)):
            return self
        out = ZERO
        for m, c in self.t.items():
            r = Sc.const(c)
            for a, e in m:
                if a in mp:
                    v = mp[a]
                    r = r * (v if e == 1 else v.pow(e))
                elif a in NODES and _node_has(a, keys):
                    fn, args = NODES[a]
                    nargs = tuple(x.subst(mp) if isinstance(x, Sc) else x for x in args)
                    v = rebuild(fn, nargs)
                    r = r * (v if e == 1 else v.pow(e))
                else:
                    r = r * Sc({((a, e),): Fraction(1)})
            out = out + r
        return out

    def coeff(self, a):
        """(coefficient of atom a at power 1, remainder) or None when non linear."""
        co, rest = {}, {}
        for m, c in self.t.items():
            hit = None
            for x, e in m:
                if x == a:
                    hit = e
            if hit is None:
                rest[m] = c
            elif hit == 1:
                co[tuple(p for p in m if p[0] != a)] = c
            else:
                return None
        return Sc(co), Sc(rest)

    def __repr__(self):
        if not self.t:
            return "0"
        parts = []
        for m, c in sorted(self.t.items(), key=lambda kv: str(kv[0])):
            fs = []
            for a, e in m:
                nm = atom_str(a)
                fs.append(nm if e == 1 else f"{nm}^{e}")
            if not fs:
                parts.append(str(c))
            elif c == 1:
                parts.append("*".join(fs))
            elif c == -1:
                parts.append("-" + "*".join(fs))
            else:
                parts.append(f"{c}*" + "*".join(fs))
        return " + ".join(parts).replace("+ -", "- ")


def atom_str(a):
    if a in NODES:
        fn, args = NODES[a]
        if fn == "poly":
            return f"({args[0]!r})"
        return f"{fn}({', '.join(str(x) for x in args)})"
    return a


def mono_mul(m1, m2):
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = dict(m1)
    f = Fraction(1)
    for a, e in m2:
        n = _norm_exp(Fraction(d.get(a, 0)) + e)
        if n == 0:
            d.pop(a, None)
        else:
            d[a] = n
    # constants under roots: c^(p/q) with |p/q|>=1
    out = []
    for a, e in d.items():
        if a.startswith("rt:") and (e >= 1 or e <= -1):
            k = int(e)  # toward zero
            f *= Fraction(int(a[3:])) ** k
            e = _norm_exp(Fraction(e) - k)
            if e == 0:
                continue
        out.append((a, e))
    return tuple(sorted(out)), f


def const_pow(c, e):
    """c positive Fraction, e Fraction."""
    c = Fraction(c)
    e = Fraction(e)
    out = Sc.const(1)
    for base, sgn in ((c.numerator, 1), (c.denominator, -1)):
        if base == 1:
            continue
        q = e.denominator
        root = round(base ** (1.0 / q))
        if root**q == base:
            out = out * Sc.const(Fraction(root) ** int(e * q * sgn))
        else:
            # square-free style split for sqrt
            if q == 2:
                sqf, out_f = base, 1
                d = 2
                while d * d <= sqf:
                    while sqf % (d * d) == 0:
                        sqf //= d * d
                        out_f *= d
                    d += 1
                out = out * Sc.const(Fraction(out_f) ** int(e * q * sgn))
                ATOM_INFO.setdefault(f"rt:{sqf}", {"pos": True})
                if sqf != 1:
                    out = out * Sc.atom(f"rt:{sqf}", 1).pow_raw(e * sgn)
            else:
                ATOM_INFO.setdefault(f"rt:{base}", {"pos": True})
                out = out * Sc.atom(f"rt:{base}", 1).pow_raw(e * sgn)
    return out


def _rt(a, e):
    e = Fraction(e)
    k = int(e)
    r = e - k
    c = Fraction(int(a[3:])) ** k
    if r == 0:
        return Sc.const(c)
    return Sc({((a, _norm_exp(r)),): c})


Sc.pow_raw = lambda self, e: _rt(next(iter(self.atoms())), e)


def exact_div(a, b):
    """Exact polynomial division a / b for multi-term b (None if not exact)."""
    rem = a
    q = ZERO
    bl = max(b.t, key=_mono_order)
    for _ in range(64):
        if rem.is_zero():
            return q
        rl = max(rem.t, key=_mono_order)
        d = dict(rl)
        for x, e in bl:
            d[x] = d.get(x, 0) - e
            if d[x] < 0:
                return None
        m = tuple(sorted((x, e) for x, e in d.items() if e != 0))
        t = Sc({m: rem.t[rl] / b.t[bl]})
        q = q + t
        rem = rem - t * b
    return None


def _mono_order(m):
    return (sum(Fraction(e) for _, e in m), tuple((a, Fraction(e)) for a, e in m))


def to_frac(c):
    if isinstance(c, Fraction):
        return c
    if isinstance(c, bool):
        return Fraction(int(c))
    if isinstance(c, int):
        return Fraction(c)
    if isinstance(c, float):
        return Fraction(repr(c))
    raise TypeError(c)


def sc(x):
    if isinstance(x, Sc):
        return x
    return Sc.const(x)


def sym(name, pos=False):
    ATOM_INFO.setdefault(name, {})["pos"] = pos or ATOM_INFO.get(name, {}).get("pos", False)
    return Sc.atom(name)


def is_pos(a):
    if ATOM_INFO.get(a, {}).get("pos"):
        return True
    return False


def node(fn, args, pos=False):
    key = fn + "(" + ",".join(_k(x) for x in args) + ")"
    if key not in NODES:
        NODES[key] = (fn, tuple(args))
        ATOM_INFO.setdefault(key, {"pos": pos})
    return key


def _k(x):
    return repr(x)


def rebuild(fn, args):
    if fn == "poly":
        return args[0]
    if fn == "floordiv":
        r = REBUILD["floordiv"](*args)
        return r
    if fn == "mod":
        return REBUILD["mod"](*args)
    return Sc.atom(node(fn, args))


REBUILD = {
    "floordiv": lambda a, b: Sc.atom(node("floordiv", (a, b))),
    "mod": lambda a, b: Sc.atom(node("mod", (a, b))),
}


def _node_has(a, keys):
    for x in NODES[a][1]:
        if isinstance(x, Sc) and (x.deep_atoms() & set(keys)):
            return True
    return False


ZERO = Sc()
ONE = Sc({(): Fraction(1)})


class Bounds:
    """Interval facts about integer/real atoms plus linear facts (p >= 0)."""

    def __init__(self):
        self.lo = {}
        self.hi = {}
        self.facts = []

    def copy(self):
        b = Bounds()
        b.lo, b.hi, b.facts = dict(self.lo), dict(self.hi), list(self.facts)
        return b

    def fact(self, p):
        self.__dict__.pop("_ne", None)
        self.__dict__.pop("_nn", None)
        self.__dict__.pop("_sl", None)
        self.facts.append(p)

    def set(self, a, lo=None, hi=None):
        self.__dict__.pop("_ne", None)
        self.__dict__.pop("_nn", None)
        self.__dict__.pop("_sl", None)
        if lo is not None:
            self.lo[a] = lo if a not in self.lo else max(lo, self.lo[a])
        if hi is not None:
            self.hi[a] = hi if a not in self.hi else min(hi, self.hi[a])

    def _direct(self, p):
        """True if p >= 0 provably by shifting atoms to their bounds."""
        if p.is_const():
            return p.const_val() >= 0
        q = self._shift(p)
        if q is None:
            return False
        return all(c >= 0 for c in q.t.values())

    def _shift(self, p):
        mp = {}
        for a in p.atoms():
            lo, hi = self.lo.get(a), self.hi.get(a)
            if lo is not None and hi is not None and lo == hi:
                mp[a] = Sc.const(lo)
        if mp:
            p = p.subst(mp)
        mp = {}
        for a in sorted(p.atoms()):
            lo, hi = self.lo.get(a), self.hi.get(a)
            cr = p.coeff(a)
            if lo is None:
                if is_pos(a):
                    lo = 0
                elif hi is None:
                    # only even/unknown sign: cannot bound
                    return None
            use_hi = False
            if hi is not None:
                if lo is None:
                    use_hi = True
                elif cr is not None and all(c <= 0 for c in self._shift_simple(cr[0])):
                    use_hi = True
            if use_hi:
                mp[a] = Sc.const(hi) - Sc.atom("~" + a)
            elif lo != 0:
                if any(not (isinstance(e, int) and e > 0) for m in p.t for x, e in m if x == a):
                    continue
                mp[a] = Sc.const(lo) + Sc.atom("~" + a)
        return p.subst(mp) if mp else p

    def _shift_simple(self, p):
        if p.is_const():
            return [p.const_val()]
        mp = {}
        for a in p.atoms():
            lo = self.lo.get(a, 0 if is_pos(a) else None)
            if lo is None:
                return [1, -1]
            if lo != 0:
                mp[a] = Sc.const(lo) + Sc.atom("~" + a)
        return list(p.subst(mp).t.values())

    def nonneg(self, p, extra=()):
        if p.is_const():
            return p.const_val() >= 0
        if extra:
            return self._nonneg(p, extra)
        cache = self.__dict__.setdefault("_nn", {})
        r = cache.get(p)
        if r is None:
            r = cache[p] = self._nonneg(p)
        return r

    def _nonneg(self, p, extra=()):
        if self._direct(p):
            return True
        facts = list(extra) + self.facts
        if self._reduce(p, facts, 3):
            return True
        return bool(self.facts) and self._slack(p)

    def _slack(self, p):
        """Replace one atom per fact by a non-negative slack variable, then shift to the bounds."""
        mp = self.__dict__.get("_sl")
        if mp is None:
            mp, back = {}, {}
            for n, f in enumerate(self.facts):
                g = f.subst(mp) if mp else f
                for a in sorted(g.atoms(), key=lambda a: (a not in self.lo, a)):
                    if a in NODES or a.startswith("~s"):
                        continue
                    cr = g.coeff(a)
                    if cr is None or not cr[0].is_const() or cr[0].const_val() != 1:
                        continue
                    new = Sc.atom(f"~s{n}") - cr[1]
                    if a in new.deep_atoms():
                        continue
                    for x in list(mp):
                        mp[x] = mp[x].subst({a: new})
                    mp[a] = new
                    break
            self.__dict__["_sl"] = mp
        if not (set(mp) & p.atoms()):
            return False
        q = p.subst(mp)
        b = Bounds()
        b.lo, b.hi = dict(self.lo), dict(self.hi)
        for a in q.atoms():
            if a.startswith("~s"):
                b.lo[a] = 0
        return b._direct(q)

    def _reduce(self, p, facts, depth):
        """p minus non-negative multiples of facts is provably non-negative."""
        pat = p.atoms()
        cands = []
        for f in facts:
            sh = f.atoms() & pat
            if not sh:
                continue
            ks = set()
            for a in sh:
                for m, c in f.t.items():
                    if len(m) == 1 and m[0] == (a, 1) and m in p.t:
                        k = p.t[m] / c
                        if k > 0:
                            ks.add(k)
            if not ks and depth == 3:
                ks.add(1)
            for k in ks:
                cands.append((f, k))
        nxt = []
        for f, k in cands:
            q = p - f * k
            if self._direct(q):
                return True
            nxt.append(q)
        if depth > 1:
            for q in nxt:
                if self._reduce(q, facts, depth - 1):
                    return True
        return False

    def pos(self, p, extra=()):
        return self.nonneg(p - 1, extra)

    def cmp(self, a, b, integer=True):
        """-1 if a<b, 0 if equal, 1 if a>b, None unknown (ints)."""
        d = a - b
        if d.is_zero():
            return 0
        if d.is_const():
            return 1 if d.const_val() > 0 else -1
        one = 1 if integer else 0
        if integer:
            if self.nonneg(d - 1):
                return 1
            if self.nonneg(-d - 1):
                return -1
        return None


def clear_denoms(x):
    """Multiply by the polynomial denominators; expand positive poly powers."""
    for _ in range(20):
        den = {}
        expand = False
        for m in x.t:
            for a, e in m:
                if a in NODES and NODES[a][0] == "poly" and isinstance(e, int):
                    if e < 0:
                        den[a] = min(den.get(a, 0), e)
                    else:
                        expand = True
        if not den and not expand:
            return x
        if den:
            mono = tuple(sorted((a, -e) for a, e in den.items()))
            x = x * Sc({mono: Fraction(1)})
        out = ZERO
        for m, c in x.t.items():
            r = Sc.const(c)
            keep = []
            for a, e in m:
                if a in NODES and NODES[a][0] == "poly" and isinstance(e, int) and e > 0:
                    base = NODES[a][1][0]
                    for _i in range(e):
                        r = r * base
                else:
                    keep.append((a, e))
            out = out + r * Sc({tuple(keep): Fraction(1)})
        x = out
    return x


def sc_is_zero(x):
    return x.is_zero() or clear_denoms(x).is_zero()
