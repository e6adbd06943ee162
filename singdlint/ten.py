"""Tensor value domain: affine-index tensor-network normal forms.

A tensor value is a function of its index slots ``s0, s1, ...`` written as a sum of
terms.  A term is  coef * prod(factors)  summed over its variables, subject to affine
equations.  Every factor argument is a variable with an explicit integer range, so
slices, paddings, concatenations, flips, reshapes, diagonals and convolutions are all
affine equations.  Two values are equal iff the difference normalises to no terms.
"""
import itertools
from fractions import Fraction

from .sym import Bounds, ONE, Sc, ZERO, clear_denoms, node, sc, sc_is_zero

_ctr = itertools.count()


def fresh(prefix="v"):
    return f"%{prefix}{next(_ctr)}"


def is_var(a):
    return a[0] in "%$"


def slot(k):
    return f"${k}"


class Undecided(Exception):
    pass


class Fac:
    """Tensor atom entry ``name[args]`` (args are variable names)."""

    __slots__ = ("name", "args")

    def __init__(self, name, args):
        self.name, self.args = name, tuple(args)

    def ren(self, mp):
        return Fac(self.name, [mp.get(a, a) for a in self.args])


class PFac:
    """Index polynomial factor ``poly(vars) ** exp``."""

    __slots__ = ("poly", "exp")

    def __init__(self, poly, exp):
        self.poly, self.exp = poly, exp


class Term:
    __slots__ = ("coef", "facs", "pfacs", "vars", "eqs")

    def __init__(self, coef, facs=(), pfacs=(), vars=None, eqs=()):
        self.coef = coef
        self.facs = tuple(facs)
        self.pfacs = tuple(pfacs)
        self.vars = dict(vars or {})
        self.eqs = tuple(eqs)

    def rename_all(self):
        mp = {v: fresh() for v in self.vars}
        smp = {k: Sc.atom(v) for k, v in mp.items()}
        return Term(
            self.coef,
            [f.ren(mp) for f in self.facs],
            [PFac(_ren(p.poly, mp, smp), p.exp) for p in self.pfacs],
            {mp[v]: l for v, l in self.vars.items()},
            [_ren(e, mp, smp) for e in self.eqs],
        )

    def ren_slots(self, mp):
        """mp: slot name -> Sc atom var name (str)."""
        smp = {k: Sc.atom(v) for k, v in mp.items()}
        return Term(
            self.coef,
            [f.ren(mp) for f in self.facs],
            [PFac(_ren(p.poly, mp, smp), p.exp) for p in self.pfacs],
            self.vars,
            [_ren(e, mp, smp) for e in self.eqs],
        )


def _ren(p, mp, smp):
    # tri components: "x.r"
    full = dict(smp)
    for a in p.deep_atoms():
        if a.endswith((".r", ".c")) and a[:-2] in mp:
            full[a] = Sc.atom(mp[a[:-2]] + a[-2:])
    return p.subst(full)


class Ten:
    """Tensor value: shape (tuple of Sc) and terms over slots $0..$n-1."""

    __slots__ = ("shape", "terms", "_norm")

    def __init__(self, shape, terms=()):
        self.shape = tuple(sc(d) for d in shape)
        self.terms = tuple(terms)
        self._norm = False

    # constructors
    @staticmethod
    def atom(name, shape):
        args = [slot(k) for k in range(len(shape))]
        # each argument becomes its own variable tied to the slot
        vs = [fresh() for _ in shape]
        eqs = [Sc.atom(v) - Sc.atom(a) for v, a in zip(vs, args)]
        return Ten(shape, [Term(ONE, [Fac(name, vs)], (), {v: sc(d) for v, d in zip(vs, shape)}, eqs)])

    @staticmethod
    def full(shape, value):
        v = sc(value)
        return Ten(shape, [] if v.is_zero() else [Term(v)])

    @staticmethod
    def poly(shape, p):
        """Tensor whose entry is the polynomial p in slots."""
        return Ten(shape, [Term(ONE, (), [PFac(p, 1)])])

    # linear structure
    def __add__(self, o):
        assert len(self.shape) == len(o.shape), (self.shape, o.shape)
        return Ten(self.shape, self.terms + o.terms)

    def scale(self, s):
        s = sc(s)
        if s.is_zero():
            return Ten(self.shape)
        return Ten(
            self.shape,
            [Term(t.coef * s, t.facs, t.pfacs, t.vars, t.eqs) for t in self.terms],
        )

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-o)

    def outer(self, o):
        """Tensor product: slots of o follow slots of self."""
        n = len(self.shape)
        out = []
        mp = {slot(k): slot(k + n) for k in range(len(o.shape))}
        for a in self.terms:
            for b in o.terms:
                b2 = b.rename_all().ren_slots(mp)
                out.append(
                    Term(
                        a.coef * b2.coef,
                        a.facs + b2.facs,
                        a.pfacs + b2.pfacs,
                        {**a.vars, **b2.vars},
                        a.eqs + b2.eqs,
                    )
                )
        return Ten(self.shape + o.shape, out)

    def rel(self, out_shape, eqfn, aux=None):
        """Relational re-indexing.

        eqfn(i, o, a) -> list of Sc equations, with i/o lists of Sc variables for the
        input and output slots and a a dict of auxiliary variables (ranges in aux).
        Input indices are summed out subject to the equations.
        """
        out_shape = tuple(sc(d) for d in out_shape)
        aux = aux or {}
        terms = []
        for t in self.terms:
            t = t.rename_all()
            ivars = [fresh() for _ in self.shape]
            t = t.ren_slots({slot(k): v for k, v in enumerate(ivars)})
            amap = {k: fresh("a") for k in aux}
            eqs = eqfn(
                [Sc.atom(v) for v in ivars],
                [Sc.atom(slot(k)) for k in range(len(out_shape))],
                {k: Sc.atom(v) for k, v in amap.items()},
            )
            vs = dict(t.vars)
            vs.update({v: d for v, d in zip(ivars, self.shape)})
            vs.update({amap[k]: sc(d) for k, d in aux.items()})
            terms.append(Term(t.coef, t.facs, t.pfacs, vs, t.eqs + tuple(sc(e) for e in eqs)))
        return Ten(out_shape, terms)

    # --- shape operations
    def permute(self, perm):
        return self.rel([self.shape[p] for p in perm], lambda i, o, a: [i[p] - o[k] for k, p in enumerate(perm)])

    def slice(self, dim, start, length, step=1):
        shp = list(self.shape)
        shp[dim] = sc(length)
        return self.rel(
            shp,
            lambda i, o, a: [
                (i[k] - o[k] * sc(step) - sc(start)) if k == dim else i[k] - o[k]
                for k in range(len(shp))
            ],
        )

    def select(self, dim, idx):
        shp = [d for k, d in enumerate(self.shape) if k != dim]
        return self.rel(
            shp,
            lambda i, o, a: [
                (i[k] - sc(idx)) if k == dim else i[k] - o[k - (k > dim)]
                for k in range(len(self.shape))
            ],
        )

    def unsqueeze(self, dim):
        n = len(self.shape)
        shp = list(self.shape[:dim]) + [ONE] + list(self.shape[dim:])
        return self.rel(shp, lambda i, o, a: [i[k] - o[k + (k >= dim)] for k in range(n)])

    def squeeze(self, dim):
        return self.select(dim, 0)

    def broadcast(self, shape):
        """Broadcast to shape (right aligned)."""
        n, m = len(self.shape), len(shape)
        off = m - n

        def eq(i, o, a):
            out = []
            for k in range(n):
                if self.shape[k] == 1 and not sc(shape[k + off]) == 1:
                    out.append(i[k])
                else:
                    out.append(i[k] - o[k + off])
            return out

        return self.rel(shape, eq)

    def reshape(self, shape):
        shape = [sc(d) for d in shape]

        def eq(i, o, a):
            def lin(vs, ds):
                e, st = ZERO, ONE
                for v, d in reversed(list(zip(vs, ds))):
                    e = e + v * st
                    st = st * d
                return e

            # drop common leading/trailing dims for simpler equations
            ii, oo, ds, es = list(i), list(o), list(self.shape), list(shape)
            eqs = []
            while ii and oo and ds[-1] == es[-1]:
                eqs.append(ii.pop() - oo.pop())
                ds.pop(), es.pop()
            while ii and oo and ds[0] == es[0]:
                eqs.append(ii.pop(0) - oo.pop(0))
                ds.pop(0), es.pop(0)
            if ii or oo:
                eqs.append(lin(ii, ds) - lin(oo, es))
            return eqs

        return self.rel(shape, eq)

    def flip(self, dim):
        return self.rel(
            self.shape,
            lambda i, o, a: [
                (i[k] + o[k] - self.shape[k] + 1) if k == dim else i[k] - o[k]
                for k in range(len(self.shape))
            ],
        )

    def sum(self, dims):
        dims = set(dims)
        keep = [k for k in range(len(self.shape)) if k not in dims]
        return self.rel(
            [self.shape[k] for k in keep],
            lambda i, o, a: [i[k] - o[j] for j, k in enumerate(keep)],
        )

    def embed_diag(self):
        (n,) = self.shape
        return self.rel([n, n], lambda i, o, a: [i[0] - o[0], i[0] - o[1]])

    def diagonal(self, d0=0, d1=1):
        n = self.shape[d0]
        rest = [k for k in range(len(self.shape)) if k not in (d0, d1)]
        shp = [self.shape[k] for k in rest] + [n]
        return self.rel(
            shp,
            lambda i, o, a: [i[d0] - o[-1], i[d1] - o[-1]]
            + [i[k] - o[j] for j, k in enumerate(rest)],
        )

    def place(self, out_shape, dim, offset):
        """Embed into a larger zero tensor with an offset along dim."""
        return self.rel(
            out_shape,
            lambda i, o, a: [
                (i[k] + sc(offset) - o[k]) if k == dim else i[k] - o[k]
                for k in range(len(self.shape))
            ],
        )

    def mul(self, o):
        """Elementwise product, shapes already broadcast."""
        n = len(self.shape)
        x = self.outer(o)
        return x.rel(
            self.shape,
            lambda i, oo, a: [i[k] - oo[k] for k in range(n)] + [i[k + n] - oo[k] for k in range(n)],
        )

    def einsum(self, o, ia, ib, out):
        """Contract self[ia] and o[ib] into out (label sequences)."""
        x = self.outer(o)
        labels = list(ia) + list(ib)
        shp = []
        for l in out:
            shp.append(x.shape[labels.index(l)])

        def eq(i, oo, a):
            eqs = []
            first = {}
            for k, l in enumerate(labels):
                if l in first:
                    eqs.append(i[first[l]] - i[k])
                else:
                    first[l] = k
            for j, l in enumerate(out):
                eqs.append(i[first[l]] - oo[j])
            return eqs

        return x.rel(shp, eq)

    def relabel(self, ia, out, sizes=None):
        shp = [self.shape[list(ia).index(l)] for l in out]

        def eq(i, oo, a):
            eqs, first = [], {}
            for k, l in enumerate(ia):
                if l in first:
                    eqs.append(i[first[l]] - i[k])
                else:
                    first[l] = k
            for j, l in enumerate(out):
                eqs.append(i[first[l]] - oo[j])
            return eqs

        return self.rel(shp, eq)

    def matmul(self, o):
        return self.einsum(o, "ab", "bc", "ac")

    # --- normalisation
    def norm(self, bd):
        if self._norm:
            return self
        groups = {}
        order = []
        for t in self.terms:
            for nt in (y for x in norm_term(t, self.shape, bd) for y in canon_expand(x, self.shape, bd)):
                key = canon_key(nt, self.shape, bd)
                if key[0] in groups:
                    groups[key[0]][0] = groups[key[0]][0] + nt.coef
                else:
                    groups[key[0]] = [nt.coef, nt, key]
                    order.append(key[0])
        groups = merge_guards(groups, self.shape, bd)
        terms = []
        for k in sorted(groups):
            c, nt, key = groups[k]
            if sc_is_zero(c):
                continue
            terms.append(Term(c, nt.facs, nt.pfacs, nt.vars, nt.eqs))
        r = Ten(self.shape, terms)
        r._norm = True
        return r

    def equals(self, o, bd):
        if len(self.shape) != len(o.shape):
            return False
        for a, b in zip(self.shape, o.shape):
            if not sc_is_zero(a - b):
                return False
        return not (self - o).norm(bd).terms

    def is_zero(self, bd):
        return not self.norm(bd).terms

    def key(self, bd):
        n = self.norm(bd)
        parts = []
        for t in n.terms:
            k = canon_key(t, n.shape, bd)[0]
            parts.append(f"({t.coef!r})*{k}")
        return "[" + ",".join(map(repr, n.shape)) + "]" + " + ".join(sorted(parts))

    def show(self, bd, limit=600):
        s = self.key(bd)
        return s if len(s) <= limit else s[:limit] + "..."


# ---------------------------------------------------------------------------
def var_bounds(bd, vars_, shape):
    """Bounds object for plain numeric reasoning is bd; symbolic ranges returned."""
    rng = {}
    for v, l in vars_.items():
        rng[v] = l
    for k, d in enumerate(shape):
        rng[slot(k)] = d
    return rng


def split_affine(e):
    """Return (dict var -> coef Sc, const Sc). Raises Undecided if non-affine."""
    co = {}
    const = {}
    for m, c in e.t.items():
        vs = [(a, x) for a, x in m if is_var(a)]
        if not vs:
            const[m] = c
        elif len(vs) == 1 and vs[0][1] == 1:
            a = vs[0][0]
            rest = tuple(p for p in m if p[0] != a)
            co.setdefault(a, {})[rest] = c
        else:
            raise Undecided(f"non-affine index expression {e!r}")
    for a in e.atoms():
        if not is_var(a) and any(is_var(b) for b in Sc.atom(a).deep_atoms()):
            raise Undecided(f"index variable under uninterpreted function in {e!r}")
    return {a: Sc(c) for a, c in co.items()}, Sc(const)


def sgn(c, bd):
    """Sign of a dim polynomial: 1, -1, 0 or None."""
    if c.is_zero():
        return 0
    if bd.nonneg(c):
        return 1
    if bd.nonneg(-c):
        return -1
    return None


def extremes(e, rng, bd):
    """Symbolic (min, max) of an affine expression over variable ranges."""
    co, const = split_affine(e)
    lo = hi = const
    for v, c in co.items():
        s = sgn(c, bd)
        if s is None:
            return None
        if v not in rng:
            return None
        m = c * (rng[v] - 1)
        if s > 0:
            hi = hi + m
        else:
            lo = lo + m
    return lo, hi


def implied_nonneg(e, rng, constraints, bd):
    """e >= 0 over ranges, using constraint expressions known >= 0."""
    ex = extremes(e, rng, bd)
    if ex is not None and bd.nonneg(ex[0]):
        return True
    ev = {a for a in e.atoms() if is_var(a)}
    cs = [c for c in constraints if {a for a in c.atoms() if is_var(a)} & ev]
    for c in cs:
        ex = extremes(e - c, rng, bd)
        if ex is not None and bd.nonneg(ex[0]):
            return True
    mults = []
    for v, c in split_affine(e)[0].items():
        if not (c.is_const() and abs(c.const_val()) == 1):
            for r in (c, -c):
                if r not in mults and bd.nonneg(r):
                    mults.append(r)
    for r in mults:
        for c in cs:
            ex = extremes(e - c * r, rng, bd)
            if ex is not None and bd.nonneg(ex[0]):
                return True
    if len(cs) <= 28:
        for c in cs:
            r = e - c
            rv = {a for a in r.atoms() if is_var(a)}
            for d in constraints:
                if not (rv & d.atoms()):
                    continue
                ex = extremes(r - d, rng, bd)
                if ex is not None and bd.nonneg(ex[0]):
                    return True
    return _eliminate(e, rng, [c for c in constraints if any(is_var(a) for a in c.atoms())], bd, 3)


def _eliminate(e, rng, cs, bd, depth):
    """Subtract multiples of constraints that cancel a variable with a negative coefficient."""
    if len(cs) > 28:
        return False
    co, _ = split_affine(e)
    seen = []
    for c in cs:
        cc, _ = split_affine(c)
        for v, k in co.items():
            if v not in cc or sgn(k, bd) != -1:
                continue
            q = div_exact(k, cc[v])
            if q is None or q.is_zero() or not bd.nonneg(q):
                continue
            r = e - c * q
            ex = extremes(r, rng, bd)
            if ex is not None and bd.nonneg(ex[0]):
                return True
            seen.append((r, c))
            break
    if depth > 1 and len(seen) <= 8:
        for r, c in seen:
            if _eliminate(r, rng, [x for x in cs if x is not c], bd, depth - 1):
                return True
    return False


def radix_split(eqs, rng, bd):
    """Split R*A + B = 0 with |B| < R into A = 0, B = 0.  Returns (eqs, infeasible)."""
    out = []
    work = list(eqs)
    n = 0
    while work:
        n += 1
        e = work.pop()
        if e.is_zero():
            continue
        co, const = split_affine(e)
        if not co:
            if e.is_const():
                return out, True
            if bd.pos(e) or bd.pos(-e):
                return out, True
            out.append(e)
            continue
        # normalise: content
        done = False
        radices = []
        for v, c in co.items():
            if len(c.t) == 1:
                (m, k), = c.t.items()
                if not (m == () and abs(k) == 1):
                    cand = Sc({m: Fraction(1)})
                    kk = abs(k)
                    for r in (cand * kk, cand):
                        if not (r == 1) and r not in radices:
                            radices.append(r)
            else:
                if c not in radices:
                    radices.append(c)
        # prefer small radices first
        radices.sort(key=lambda r: (sum(sum(Fraction(x) for _, x in m) for m in r.t), repr(r)))
        for r in radices:
            if not bd.pos(r):
                continue
            a, b = ZERO, ZERO
            for v, c in co.items():
                q = div_exact(c, r)
                if q is not None:
                    a = a + q * Sc.atom(v)
                else:
                    b = b + c * Sc.atom(v)
            # constant: split multiples of r
            qc, rc = split_const(const, r)
            a = a + qc
            for shift in (0, 1, -1):
                bb = b + rc + r * shift
                if bb.is_zero():
                    # divide through by r
                    if a - shift != e:
                        work.append(a - shift)
                        done = True
                    break
                ex = extremes(bb, rng, bd)
                if ex is None:
                    continue
                lo, hi = ex
                if bd.nonneg(r - 1 - hi) and bd.nonneg(lo + r - 1):
                    work.append(a - shift)
                    work.append(bb)
                    done = True
                    break
            if done:
                break
        if not done:
            sp = coprime_split(co, const, rng, bd)
            if sp is not None:
                work += sp
                done = True
        if not done:
            ex = extremes(e, rng, bd)
            if ex is not None and (bd.pos(ex[0]) or bd.pos(-ex[1])):
                return out, True
            out.append(e)
        if n > 500:
            raise Undecided("radix splitting does not terminate")
    return out, False


def coprime_split(co, const, rng, bd):
    """n*X + (n+1)*Y = 0 with |X| <= n or |Y| < n  implies  X = Y = 0."""
    mags = []
    for c in co.values():
        if bd.pos(-c):
            c = -c
        elif not bd.pos(c):
            return None
        if c not in mags:
            mags.append(c)
        if len(mags) > 2:
            return None
    if len(mags) != 2:
        return None
    a, b = mags
    if (a - b) == 1:
        a, b = b, a
    elif not (b - a) == 1:
        return None
    if a == 1 and not b == 2:
        return None
    x = y = ZERO
    for v, c in co.items():
        s = 1 if c in (a, b) else -1
        if c in (a, -a):
            x = x + Sc.atom(v) * s
        else:
            y = y + Sc.atom(v) * s
    if not const.is_zero():
        q = div_exact(const, a)
        if q is not None:
            x = x + q
        else:
            q = div_exact(const, b)
            if q is None:
                return None
            y = y + q
    for e, bound in ((x, b), (y, a)):
        ex = extremes(e, rng, bd)
        if ex is not None and bd.nonneg(bound - 1 - ex[1]) and bd.nonneg(ex[0] + bound - 1):
            return [x, y]
    return None


def div_exact(c, r):
    if len(r.t) == 1:
        (m, k), = r.t.items()
        d = {}
        out = {}
        for mm, cc in c.t.items():
            d = dict(mm)
            for a, e in m:
                d[a] = d.get(a, 0) - e
                if d[a] < 0:
                    return None
            q = cc / k
            if q.denominator != 1 and cc.denominator == 1:
                return None
            out[tuple(sorted((a, e) for a, e in d.items() if e != 0))] = q
        return Sc(out)
    from .sym import exact_div

    return exact_div(c, r)


def split_const(c, r):
    q, rest = ZERO, ZERO
    for m, k in c.t.items():
        t = Sc({m: k})
        d = div_exact(t, r)
        if d is not None:
            q = q + d
        elif m == () and r.is_const():
            f = k // r.const_val()
            q = q + f
            rest = rest + (k - f * r.const_val())
        else:
            rest = rest + t
    return q, rest


def _lin_subst(e, co, v, expr):
    """Replace the affine variable v by expr in e (co: the split of e)."""
    c = co[v]
    t = {}
    for m, k in e.t.items():
        for a, _ in m:
            if a == v:
                break
        else:
            t[m] = k
    r = Sc(t)
    if c.is_const():
        k = c.const_val()
        if k == 1:
            return r + expr
        if k == -1:
            return r - expr
    return r + expr * c


def solve(eqs, order):
    """Gauss-Jordan with unit pivots chosen by order. -> (solved dict, leftover)."""
    pos = {v: k for k, v in enumerate(order)}
    big = 10**9

    def info(e):
        co, _ = split_affine(e)
        best = None
        for v, c in co.items():
            if c.is_const() and abs(c.const_val()) == 1:
                pr = pos.get(v, big)
                if best is None or pr < best[0]:
                    best = (pr, v, c.const_val())
        return [e, co, best]

    work = [info(e) for e in eqs if not e.is_zero()]
    solved = {}  # v -> [expr, co]
    while work:
        best = None
        for idx, w in enumerate(work):
            if w[2] is not None and (best is None or w[2][0] < best[0]):
                best = (w[2][0], idx)
        if best is None:
            break
        e, co, (_, v, k) = work.pop(best[1])
        # k*v + rest = 0  ->  v = -rest/k
        t = {}
        for m, c in e.t.items():
            if m and m[0][0] == v and len(m) == 1:
                continue
            t[m] = -c if k == 1 else c
        expr = Sc(t)
        nxt = []
        for w in work:
            if v in w[1]:
                ne = _lin_subst(w[0], w[1], v, expr)
                if not ne.is_zero():
                    nxt.append(info(ne))
            else:
                nxt.append(w)
        work = nxt
        for u, w in solved.items():
            if v in w[1]:
                ne = _lin_subst(w[0], w[1], v, expr)
                w[0], w[1] = ne, split_affine(ne)[0]
        solved[v] = [expr, {x: c if k == -1 else -c for x, c in co.items() if x != v}]
    return {v: w[0] for v, w in solved.items()}, [w[0] for w in work]


def quick_elim(eqs, pfs, vars_, used, shape):
    """Merge pure variables into variables they are equated with (x = y, same range)."""
    def known(v):
        return v in vars_ or v[0] == "$" and v[1:].isdigit() and int(v[1:]) < len(shape)

    simple, rest = [], []
    for e in eqs:
        if len(e.t) == 2:
            (m1, c1), (m2, c2) = e.t.items()
            if (len(m1) == 1 and len(m2) == 1 and m1[0][1] == 1 and m2[0][1] == 1 and c1 == -c2 and abs(c1) == 1):
                x, y = m1[0][0], m2[0][0]
                if known(x) and known(y):
                    simple.append((x, y))
                    continue
        rest.append(e)
    if not simple:
        return eqs, pfs, vars_

    def length(v):
        return vars_[v] if v in vars_ else shape[int(v[1:])]

    par = {}

    def find(x):
        while par.get(x, x) != x:
            x = par[x]
        return x

    def rank(v):
        return 0 if v[0] == "$" else 1 if v in used else 2

    keep = []
    for x, y in simple:
        a, b = find(x), find(y)
        if a == b:
            continue
        la, lb = length(a), length(b)
        if la is not lb and not la == lb:
            keep.append((x, y))
            continue
        if rank(a) > rank(b):
            a, b = b, a
        par[b] = a  # a is the representative
    ren = {}
    for v in list(vars_):
        r = find(v)
        if r != v:
            if v in used:
                keep.append((v, r))
            else:
                ren[v] = r
    for k in range(len(shape)):
        r = find(slot(k))
        if r != slot(k):
            keep.append((slot(k), r))
    if ren:
        vars_ = {v: l for v, l in vars_.items() if v not in ren}
        smp = {v: Sc.atom(r) for v, r in ren.items()}

        def sub(e):
            for a in e.deep_atoms():
                if a in ren or a[:-2] in ren:
                    return _ren(e, ren, smp)
            return e

        rest = [sub(e) for e in rest]
        pfs = [PFac(sub(p.poly), p.exp) for p in pfs]
    done = set()
    for x, y in keep:
        x, y = ren.get(x, x), ren.get(y, y)
        if x != y and (x, y) not in done:
            done.add((x, y))
            rest.append(Sc.atom(x) - Sc.atom(y))
    return rest, pfs, vars_


def nonempty(bd, rng):
    """Inside a term every variable range is non-empty (else the sum is vacuous)."""
    key = frozenset(rng.values())
    cache = bd.__dict__.setdefault("_ne", {})
    if key in cache:
        return cache[key]
    b = bd.copy()
    for l in set(rng.values()):
        if l.is_const():
            continue
        at = l.atoms()
        if len(at) == 1 and len(l.t) == 1:
            (mm, c), = l.t.items()
            if mm[0][1] == 1 and c > 0:
                b.set(mm[0][0], 1)
                continue
        b.fact(l - 1)
    cache[key] = b
    return b


def norm_term(t, shape, bd, count=True):
    """Normalise a term; returns a list (empty if the term vanishes)."""
    if t.coef.is_zero():
        return []
    vars_ = dict(t.vars)
    eqs = list(t.eqs)
    pf = []
    coef = t.coef
    t_facs = t.facs
    # factors must have distinct variable args; introduce copies if needed
    used = set()
    facs = []
    for f in t_facs:
        args = []
        for a in f.args:
            if a in used or a[0] == "$":
                v = fresh()
                vars_[v] = vars_[a] if a in vars_ else shape[int(a[1:])]
                eqs.append(Sc.atom(v) - Sc.atom(a))
                a = v
            used.add(a)
            args.append(a)
        facs.append(Fac(f.name, args))
    eqs, pf0, vars_ = quick_elim(eqs, list(t.pfacs), vars_, used, shape)
    # triangular enumerations: a variable used only through its .r/.c components
    eqs, pf0, vars_, extra = expand_tri(eqs, pf0, vars_, bd, used, shape)
    rng = var_bounds(bd, vars_, shape)
    bd = nonempty(bd, rng)
    rng.update(extra)
    facvars = [a for f in facs for a in f.args]
    slots_ = [slot(k) for k in range(len(shape))] + sorted(extra, reverse=True)
    # zero-length / unit-length variables
    for v, l in list(rng.items()):
        if l == 1:
            eqs.append(Sc.atom(v))
        elif l.is_zero():
            return []
    pvars = set()
    for p in pf0:
        pvars |= {a for a in p.poly.deep_atoms() if is_var(a)}
    eqs, bad = pair_radix(eqs, vars_, used, rng, bd)
    if bad:
        return []
    eqs, bad = radix_split(eqs, rng, bd)
    if bad:
        return []
    for _round in range(200):
        pure = [v for v in vars_ if v not in used]
        order = [v for v in pure if v not in pvars] + [v for v in pure if v in pvars] + list(reversed(facvars)) + list(reversed(slots_))
        solved, left = solve(eqs, order)
        new_eqs = [Sc.atom(v) - e for v, e in solved.items()] + left
        split, bad = radix_split(new_eqs, rng, bd)
        if bad:
            return []
        # drop implied pure variables
        constraints = []
        for v, e in solved.items():
            if v in used or v[0] == "$" or v in extra:
                constraints.append(e)
                constraints.append(rng[v] - 1 - e)
        for e in left:
            constraints += [e, -e]
        for v in extra:
            if v.endswith(".r"):
                kind, _n, _m, off = tri_info(rng[v[:-2]])
                d = (Sc.atom(v[:-2] + ".c") - Sc.atom(v)).subst(solved)
                constraints.append(off - d if kind == "tril" else d - off)
        guards = []
        for v in pure:
            if v in solved:
                guards += [solved[v], rng[v] - 1 - solved[v]]
        if contradictory(constraints + guards, bd):
            return []
        changed = False
        if len(split) != len(new_eqs):
            eqs = split
            changed = True
        else:
            eqs = new_eqs
            for v in pure:
                if v in solved:
                    e = solved[v]
                    others = list(constraints)
                    for w in pure:
                        if w != v and w in solved:
                            others += [solved[w], rng[w] - 1 - solved[w]]
                    lo_ok = implied_nonneg(e, rng, others, bd)
                    hi_ok = lo_ok and implied_nonneg(rng[v] - 1 - e, rng, others, bd)
                    if lo_ok and hi_ok:
                        eqs = [q for q in eqs if q != Sc.atom(v) - e]
                        if v in pvars:
                            pf0 = [PFac(p.poly.subst({v: e}), p.exp) for p in pf0]
                            pvars = set()
                            for p in pf0:
                                pvars |= {a for a in p.poly.deep_atoms() if is_var(a)}
                        del vars_[v], rng[v]
                        changed = True
                        break
                else:
                    inuse = v in pvars or any(v in q.atoms() for q in eqs)
                    if not inuse:
                        coef = coef * rng[v]
                        del vars_[v], rng[v]
                        changed = True
                        break
                    if v in pvars:
                        continue
                    cnt = count_interval(v, rng, solved, left, pure, constraints, bd) if count else None
                    if cnt is not None:
                        ws, c = cnt
                        eqs = [q for q in eqs if not any(q == Sc.atom(w) - solved[w] for w in ws)]
                        for w in ws + [v]:
                            del vars_[w], rng[w]
                        pf0 = pf0 + [PFac(c, 1)]
                        pvars |= {a for a in c.deep_atoms() if is_var(a)}
                        changed = True
                        break
        if not changed:
            break
    # guard intersection / infeasibility on solved ranges
    for v, e in solved.items():
        if v not in rng:
            continue
        ex = extremes(e, rng, bd)
        if ex is not None:
            if bd.pos(-ex[1]) or bd.pos(ex[0] - rng[v] + 1):
                return []
    # tighten: pure guards that share the same direction
    gs = [(v, solved[v]) for v in vars_ if v not in used and v in solved]
    for i, (v, e) in enumerate(gs):
        for w, f in gs[i + 1 :]:
            if v not in vars_ or w not in vars_:
                continue
            for sg in (1, -1):
                d = e - f * sg
                if not any(is_var(a) for a in d.atoms()):
                    # e in [0,Lv-1]; f = sg*(e-d)
                    if sg == 1:
                        lo2, hi2 = d, d + rng[w] - 1
                    else:
                        lo2, hi2 = d - (rng[w] - 1), d
                    lo1, hi1 = ZERO, rng[v] - 1
                    lo = lo1 if bd.nonneg(lo1 - lo2) else (lo2 if bd.nonneg(lo2 - lo1) else None)
                    hi = hi1 if bd.nonneg(hi2 - hi1) else (hi2 if bd.nonneg(hi1 - hi2) else None)
                    if lo is None or hi is None:
                        continue
                    if bd.pos(lo - hi):
                        return []
                    # replace both by one guard
                    nv = fresh()
                    eqs = [q for q in eqs if q not in (Sc.atom(v) - e, Sc.atom(w) - f)]
                    vv = dict(vars_)
                    del vv[v], vv[w]
                    vv[nv] = hi - lo + 1
                    eqs.append(Sc.atom(nv) - (e - lo))
                    return norm_term(Term(coef, facs, pf0, vv, eqs), shape, bd, count)
    # a pure guard that restricts exactly one factor variable/slot is kept as is
    # index polynomial factors
    mp = dict(solved)
    outp = []
    for p in pf0:
        q = p.poly.subst({v: e for v, e in mp.items()})
        if not any(is_var(a) for a in q.deep_atoms()):
            coef = coef * q.pow(p.exp)
        else:
            outp.append(PFac(q, p.exp))
    outp2 = []
    merged = {}
    for p in outp:
        # normalise sign/content: leading coefficient made positive 1
        merged.setdefault(p.poly, 0)
        merged[p.poly] += p.exp
    expanded = [([], ONE)]
    for poly, e in merged.items():
        if e == 0:
            continue
        outp2.append(PFac(poly, e))
    res = Term(coef, facs, outp2, vars_, eqs)
    # expand positive integer powers of polynomials into monomials? keep as is
    return expand_pf(res)


def pair_radix(eqs, vars_, used, rng, bd):
    """Two decompositions of one flat index agree digit by digit."""
    eqs = list(eqs)
    for _ in range(50):
        again = False
        for v in vars_:
            es = []
            for k, e in enumerate(eqs):
                if v in e.atoms():
                    co, _c = split_affine(e)
                    c = co.get(v)
                    if c is not None and c.is_const() and abs(c.const_val()) == 1:
                        es.append((k, e, c.const_val(), any(
                            not (q.is_const() and abs(q.const_val()) == 1) for q in co.values())))
            rad = [x for x in es if x[3]]
            if len(rad) < 2:
                continue
            k0, e0, c0, _r = rad[0]
            for k, e, c, _r in rad[1:]:
                d = e - e0 * (c / c0)
                if d.is_zero():
                    eqs.pop(k)
                    again = True
                    break
                sp, bad = radix_split([d], rng, bd)
                if bad:
                    return eqs, True
                if len(sp) > 1 or (len(sp) == 1 and sp[0] != d):
                    eqs = [q for j, q in enumerate(eqs) if j != k] + sp
                    again = True
                    break
            if again:
                break
        if not again:
            break
    return eqs, False


def contradictory(cons, bd):
    """Two constraints a >= 0, b >= 0 over opposite directions with a + b < 0."""
    seen = {}
    for c in cons:
        co, const = split_affine(c)
        if not co:
            if bd.pos(-const):
                return True
            continue
        d = tuple(sorted((v, k) for v, k in ((v, repr(k)) for v, k in co.items())))
        n = tuple(sorted((v, repr(-k)) for v, k in co.items()))
        for other in seen.get(n, ()):
            if bd.pos(-(const + other)):
                return True
        seen.setdefault(d, []).append(const)
    return False


def count_interval(v, rng, solved, left, pure, constraints, bd):
    """Number of values of the free variable v under its interval guards."""
    ws = []
    los, his = [ZERO], [rng[v]]
    if any(v in e.atoms() for e in left):
        return None
    for w, e in solved.items():
        if v not in e.atoms():
            continue
        if w not in pure:
            return None
        co, _ = split_affine(e)
        k = co.get(v)
        if k is None or not k.is_const() or abs(k.const_val()) != 1:
            return None
        if any(a in pure for a in e.atoms() if a != v):
            return None
        r = e - Sc.atom(v) * k
        if k.const_val() == 1:
            los.append(-r)
            his.append(rng[w] - r)
        else:
            los.append(r - rng[w] + 1)
            his.append(r + 1)
        ws.append(w)
    if not ws:
        return None
    cons = [c for c in constraints if v not in c.atoms()]
    for w in pure:
        if w in solved and w not in ws:
            cons += [solved[w], rng[w] - 1 - solved[w]]

    def pick(xs, sign):
        for i, x in enumerate(xs):
            if all(i == j or implied_nonneg((x - y) * sign, rng, cons, bd) for j, y in enumerate(xs)):
                return x
        return None

    lo, hi = pick(los, 1), pick(his, -1)
    if lo is None or hi is None or not implied_nonneg(hi - lo, rng, cons, bd):
        return None
    return ws, hi - lo


def expand_pf(t):
    """Split sums inside pfacs with exponent 1 so that equal values compare equal."""
    ps = [p for p in t.pfacs if p.exp in (1, 2, 3)]
    if not ps:
        return [t]
    rest = [p for p in t.pfacs if p.exp not in (1, 2, 3)]
    prod = ONE
    for p in ps:
        for _ in range(int(p.exp)):
            prod = prod * p.poly
    out = []
    groups = {}
    for m, c in prod.t.items():
        vs = tuple(a for a in m if any(is_var(x) for x in Sc.atom(a[0]).deep_atoms()))
        dm = tuple(a for a in m if a not in vs)
        groups.setdefault(vs, ZERO)
        groups[vs] = groups[vs] + Sc({dm: c})
    for vs, c in groups.items():
        np = [PFac(Sc({vs: Fraction(1)}), 1)] if vs else []
        # mark monomial powers so they are not expanded again
        out.append(Term(t.coef * c, t.facs, rest + np, t.vars, t.eqs))
    return out


def expand_tri(eqs, pfs, vars_, bd, used=(), shape=()):
    """Replace triangular enumeration variables by their (row, col) components."""
    comp = set()
    for e in list(eqs) + [p.poly for p in pfs]:
        for a in e.deep_atoms():
            if a.endswith((".r", ".c")) and is_var(a):
                comp.add(a[:-2])
    if not comp:
        return eqs, pfs, vars_, {}
    vars_ = dict(vars_)
    eqs = list(eqs)

    def length(a):
        return vars_[a] if a in vars_ else (shape[int(a[1:])] if a[0] == "$" else None)

    changed = True
    while changed:
        changed = False
        for e in eqs:
            at = [a for a in e.atoms() if is_var(a) and not a.endswith((".r", ".c"))]
            if not (len(at) == 2 and len(e.t) == 2 and sum(e.t.values()) == 0 and len(e.atoms()) == 2):
                continue
            for x, y in ((at[0], at[1]), (at[1], at[0])):
                if x in vars_ and x in comp and is_tri_len(vars_[x]):
                    mp = {x + ".r": Sc.atom(y + ".r"), x + ".c": Sc.atom(y + ".c")}
                    if x not in used:
                        mp[x] = Sc.atom(y)
                        eqs = [q.subst(mp) for q in eqs if q is not e]
                        del vars_[x]
                    else:
                        eqs = [q.subst(mp) for q in eqs]
                    pfs = [PFac(p.poly.subst(mp), p.exp) for p in pfs]
                    comp.discard(x)
                    comp.add(y)
                    changed = True
                    break
            if changed:
                break
        if changed:
            continue
        # equal components imply equal enumeration positions
        bases = sorted(comp)
        for i, x in enumerate(bases):
            for y in bases[i + 1:]:
                lx, ly = length(x), length(y)
                if lx is None or ly is None or lx != ly:
                    continue
                order = [x + ".r", x + ".c", y + ".r", y + ".c"]
                solved, _ = solve(eqs, order)
                d1 = (Sc.atom(x + ".r") - Sc.atom(y + ".r")).subst(solved)
                d2 = (Sc.atom(x + ".c") - Sc.atom(y + ".c")).subst(solved)
                dx = (Sc.atom(x) - Sc.atom(y)).subst(solved)
                if d1.is_zero() and d2.is_zero() and not dx.is_zero() and (x in vars_ or y in vars_):
                    if x not in vars_:
                        x, y = y, x
                    eqs.append(Sc.atom(x) - Sc.atom(y))
                    changed = True
                    break
            if changed:
                break
    extra = {}
    for v in sorted(comp):
        l = length(v)
        if l is None:
            continue
        kind, n, m, off = tri_info(l)
        bare = v in used or v not in vars_ or any(v in e.atoms() for e in eqs) or any(
            v in p.poly.atoms() for p in pfs)
        if bare:
            extra[v + ".r"], extra[v + ".c"] = n, m
            continue
        r, c, g = fresh(), fresh(), fresh("g")
        mp = {v + ".r": Sc.atom(r), v + ".c": Sc.atom(c)}
        eqs = [q.subst(mp) for q in eqs]
        pfs = [PFac(p.poly.subst(mp), p.exp) for p in pfs]
        del vars_[v]
        vars_[r], vars_[c] = n, m
        d = Sc.atom(c) - Sc.atom(r)
        if kind == "tril":  # c - r <= off   ->  off - d in [0, n-1+off]
            vars_[g] = n + off
            eqs.append(Sc.atom(g) - (off - d))
        else:  # triu: d >= off
            vars_[g] = m - off
            eqs.append(Sc.atom(g) - (d - off))
    return eqs, pfs, vars_, extra


TRI = {}


def tri_len(kind, n, m, off):
    a = node(kind, (sc(n), sc(m), sc(off)), pos=True)
    TRI[a] = (kind, sc(n), sc(m), sc(off))
    return Sc.atom(a)


def is_tri_len(l):
    return len(l.t) == 1 and len(l.atoms()) == 1 and next(iter(l.atoms())) in TRI


def tri_info(l):
    a = next(iter(l.atoms()))
    if a not in TRI:
        raise Undecided("triangular component of a non-triangular enumeration")
    return TRI[a]


# ---------------------------------------------------------------------------
MAX_PERM = 5040


def canon_key(t, shape, bd):
    """Canonical text of a normalised term (without coefficient).

    Returns (key, guards) with guards = list of (canonical body, expr, length) info
    used for merging.
    """
    facs = list(t.facs)
    names = sorted({f.name for f in facs})
    groups = [[k for k, f in enumerate(facs) if f.name == nm] for nm in names]
    perms = [list(itertools.permutations(g)) for g in groups]
    total = 1
    for p in perms:
        total *= len(p)
    if total > MAX_PERM:
        perms = [[tuple(g)] for g in groups]
    best = None
    used = {a for f in facs for a in f.args}
    pure = [v for v in t.vars if v not in used]
    for choice in itertools.product(*perms):
        ordered = [facs[k] for g in choice for k in g]
        cand = _key_for(ordered, pure, t, shape, bd)
        if best is None or cand[0] < best[0]:
            best = cand
    if best is None:
        best = _key_for([], pure, t, shape, bd)
    return best


def _key_for(ordered, pure, t, shape, bd):
    mp = {}
    n = 0
    facvars = []
    for f in ordered:
        for a in f.args:
            mp[a] = f"%f{n:03d}"
            facvars.append(mp[a])
            n += 1
    slots_ = [slot(k) for k in range(len(shape))]
    pmap = {v: f"%q{v[1:]}" for v in pure}
    allmp = {**mp, **pmap}
    smp = {k: Sc.atom(v) for k, v in allmp.items()}
    eqs = [_ren(e, allmp, smp) for e in t.eqs]
    # pure variables: solve first (they become guards), then factor vars, then slots
    order = list(pmap.values()) + list(reversed(facvars)) + list(reversed(slots_))
    solved, left = solve(eqs, order)
    freepure = [v for v in pmap.values() if v not in solved]
    inv = {v: k for k, v in mp.items()}
    pinv = {v: k for k, v in pmap.items()}
    if len(freepure) > 4:
        orders = [tuple(sorted(freepure))]
    else:
        orders = itertools.permutations(freepure)
    head = "*".join(f"{f.name}" + (f"/{len(f.args)}" if f.args else "") for f in ordered)
    lens = "L" + ",".join(repr(t.vars[inv[v]]) for v in facvars)
    best = None
    for fo in orders:
        # free pure variables (non unit equations) are named canonically
        ren = {v: Sc.atom(f"%p{k}") for k, v in enumerate(fo)}

        def R(e):
            return e.subst(ren) if ren else e

        body = [f"{v}={R(solved[v])!r}" for v in facvars + slots_ if v in solved]
        guards = []
        for v in pmap.values():
            if v not in solved:
                continue
            e = R(solved[v])
            ln = t.vars[pinv[v]]
            # orient: first variable coefficient positive
            co, const = split_affine(e)
            first = sorted(co)[0] if co else None
            if first is not None:
                s = sgn(co[first], bd)
                if s == -1:
                    e = ln - 1 - e
            co, const = split_affine(e)
            guards.append((repr(e - const), const, ln, v))
        guards.sort(key=lambda g: (g[0], repr(g[1]), repr(g[2])))
        ptxt = sorted(f"P({R(_ren(p.poly, allmp, smp).subst(solved))!r})^{p.exp}" for p in t.pfacs)
        txt = (
            head + "{" + ";".join(body) + "}" + lens
            + ("|" + "*".join(ptxt) if ptxt else "")
            + ("|left:" + ";".join(sorted(repr(R(l)) for l in left)) if left else "")
            + "".join(f"|%p{k}<{t.vars[pinv[v]]!r}" for k, v in enumerate(fo))
        )
        gtxt = ";".join(f"0<={g[0]}+({g[1]!r})<{g[2]!r}" for g in guards)
        full = txt + ("|G:" + gtxt if guards else "")
        if best is None or full < best[0]:
            best = (full, txt, guards, ordered)
    return best


def canon_expand(t, shape, bd):
    """Express index polynomials in the canonical free variables of the term."""
    if not t.pfacs or not t.facs:
        return [t]
    ordered = canon_key(Term(ONE, t.facs, (), t.vars, t.eqs), shape, bd)[3]
    used = [a for f in ordered for a in f.args]
    pure = [v for v in t.vars if v not in set(used)]
    order = pure + list(reversed(used)) + [slot(k) for k in reversed(range(len(shape)))]
    solved, _ = solve(list(t.eqs), order)
    pf = []
    changed = False
    for p in t.pfacs:
        q = p.poly.subst(solved)
        if q != p.poly:
            changed = True
        pf.append(PFac(q, p.exp))
    if not changed:
        return [t]
    return expand_pf(Term(t.coef, t.facs, pf, t.vars, t.eqs))


def merge_guards(groups, shape, bd):
    """Union adjacent guard intervals of otherwise identical terms."""
    changed = True
    n = 0
    groups = {k: v for k, v in groups.items() if not sc_is_zero(v[0])}
    while changed:
        changed = False
        n += 1
        if n > 200:
            break
        items = list(groups.items())
        bybody = {}
        for k, (c, nt, key) in items:
            if key[2]:
                bybody.setdefault(key[1], []).append(k)
        for body, ks in bybody.items():
            if len(ks) < 2:
                continue
            for a, b in itertools.combinations(ks, 2):
                r = _try_merge(groups[a], groups[b], shape, bd)
                if r is not None:
                    coef, nts, rest_a, rest_b = r
                    ca, na, ka = groups[a]
                    cb, nb, kb = groups[b]
                    del groups[a], groups[b]
                    newterms = [Term(coef, x.facs, x.pfacs, x.vars, x.eqs) for x in nts]
                    if not sc_is_zero(rest_a):
                        newterms.append(Term(rest_a, na.facs, na.pfacs, na.vars, na.eqs))
                    if not sc_is_zero(rest_b):
                        newterms.append(Term(rest_b, nb.facs, nb.pfacs, nb.vars, nb.eqs))
                    for x in newterms:
                        for y in (b for a in norm_term(x, shape, bd) for b in canon_expand(a, shape, bd)):
                            key = canon_key(y, shape, bd)
                            if key[0] in groups:
                                groups[key[0]][0] = groups[key[0]][0] + y.coef
                                if sc_is_zero(groups[key[0]][0]):
                                    del groups[key[0]]
                            else:
                                groups[key[0]] = [y.coef, y, key]
                    changed = True
                    break
            if changed:
                break
    return groups


def _try_merge(ga, gb, shape, bd):
    ca, na, ka = ga
    cb, nb, kb = gb
    if len(ka[2]) != len(kb[2]):
        return None
    # coefficient must agree (merge the common part)
    if not sc_is_zero(ca - cb):
        return None
    diff = []
    rest = list(kb[2])
    for g in ka[2]:
        hit = None
        for h in rest:
            if g[0] == h[0] and g[1] == h[1] and g[2] == h[2]:
                hit = h
                break
        if hit is not None:
            rest.remove(hit)
        else:
            diff.append(g)
    if len(diff) != 1 or len(rest) != 1 or diff[0][0] != rest[0][0]:
        return None
    g, h = diff[0], rest[0]
    # interval of direction d: [-c, -c+L)
    lo1, hi1 = -g[1], -g[1] + g[2]
    lo2, hi2 = -h[1], -h[1] + h[2]
    if sc_is_zero(hi1 - lo2):
        lo, ln = lo1, g[2] + h[2]
    elif sc_is_zero(hi2 - lo1):
        lo, ln = lo2, g[2] + h[2]
    else:
        return None
    # rebuild term from na with guard g replaced
    inv = "%" + g[3][2:]
    if inv not in na.vars:
        return None
    used = {a for f in na.facs for a in f.args}
    pure = [v for v in na.vars if v not in used]
    # direction expression in terms of na's own variables
    order = pure + [a for f in reversed(na.facs) for a in reversed(f.args)] + [
        slot(k) for k in reversed(range(len(shape)))
    ]
    solved, left = solve(list(na.eqs), order)
    e = solved[inv]
    # own guard: e in [0, L); relation to canonical oriented direction
    # canonical: expr = dir + c  where expr = e or L-1-e
    # recompute orientation by comparing constants: try both
    nv = fresh("g")
    L = na.vars[inv]
    vars_ = {k: v for k, v in na.vars.items() if k != inv}
    eqs = []
    for v, x in solved.items():
        if v != inv:
            eqs.append(Sc.atom(v) - x)
    eqs += left
    # g: canonical expr E = dir + g[1], E in [0,L).  new: E' = dir - lo in [0,ln)
    # E' = E - g[1] - lo ; E is e (same orientation) or L-1-e
    shift = -g[1] - lo  # E' = E + shift
    flipped = _is_flipped(na, inv, e, L, bd, ka, shape)
    E = (L - 1 - e) if flipped else e
    vars_[nv] = ln
    eqs.append(Sc.atom(nv) - (E + shift))
    return ca, [Term(ca, na.facs, na.pfacs, vars_, eqs)], ZERO, ZERO


def _is_flipped(na, inv, e, L, bd, ka, shape):
    """Whether canon_key reversed the orientation of guard inv."""
    # canonical naming for the best permutation is not stored; recompute
    facs = list(na.facs)
    names = sorted({f.name for f in facs})
    groups = [[k for k, f in enumerate(facs) if f.name == nm] for nm in names]
    perms = [list(itertools.permutations(g)) for g in groups]
    used = {a for f in facs for a in f.args}
    pure = [v for v in na.vars if v not in used]
    for choice in itertools.product(*perms):
        ordered = [facs[k] for g in choice for k in g]
        cand = _key_for(ordered, pure, na, shape, bd)
        if cand[0] == ka[0]:
            mp = {}
            n = 0
            fv = []
            for f in ordered:
                for a in f.args:
                    mp[a] = f"%f{n:03d}"
                    fv.append(mp[a])
                    n += 1
            pmap = {v: f"%q{v[1:]}" for v in pure}
            allmp = {**mp, **pmap}
            smp = {k: Sc.atom(v) for k, v in allmp.items()}
            eqs = [_ren(x, allmp, smp) for x in na.eqs]
            order = list(pmap.values()) + list(reversed(fv)) + [
                slot(k) for k in reversed(range(len(shape)))
            ]
            solved, left = solve(eqs, order)
            ee = solved[pmap[inv]]
            co, const = split_affine(ee)
            first = sorted(co)[0] if co else None
            return first is not None and sgn(co[first], bd) == -1
    return False
