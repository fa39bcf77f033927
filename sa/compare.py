"""Equality of gated value graphs under facts, region by region."""
import math
import random
import time
from fractions import Fraction as Fr
from . import terms as T
from . import lin


class Mismatch:
    def __init__(self, lits, a, b, boundary=False):
        self.lits, self.a, self.b, self.boundary = lits, a, b, boundary

    def text(self):
        reg = " and ".join(("" if v else "not ") + T.show_atom(c) for c, v in self.lits) or "everywhere"
        return "when %s: code = %s ; required = %s" % (clip(reg, 600), clip(T.show(self.a), 700), clip(T.show(self.b), 700))


def clip(s, n):
    return s if len(s) <= n else s[:n] + "..."


def interior(lits):
    """region has a full-dimensional part"""
    ex = []
    rest = []
    for a, v in lits:
        if a.op == "le":
            p = a.args[0]
            if T.all_int(p):
                rest.append((a, v))
                continue
            ex.append((p if v else T.p_scale(p, Fr(-1)), True))
        elif a.op == "eq":
            if v and not T.all_int(a.args[0]):
                return False
            rest.append((a, v))
        else:
            rest.append((a, v))
    return lin.feasible(rest, ex)


def equalities(lits):
    out = [a.args[0] for a, v in lits if a.op == "eq" and v]
    les = [(a.args[0], v) for a, v in lits if a.op == "le"]
    for p, v in les:
        if v:
            # p <= 0 and region implies p >= 0 ?
            if not lin.feasible(lits, [(p, True)]):
                out.append(p)
    return out


def reduce_by(d, eqs):
    """substitute linear equalities into d"""
    for _ in range(4):
        changed = False
        for p in eqs:
            for m, c in p.key:
                if len(m) == 1 and m[0][1] == 1:
                    a = T.A(m[0][0])
                    if a.op not in ("sym", "isym", "app", "sqrt"):
                        continue
                    sol = T.solve_linear(p, a)
                    if sol is None or a.id in T.deps(sol):
                        continue
                    if a.id in T.deps(d):
                        d2 = T.subst(d, {a: sol})
                        eqs = [T.subst(q, {a: sol}) for q in eqs if q is not p]
                        eqs = [q for q in eqs if isinstance(q, T.Poly)]
                        d = d2
                        changed = True
                        break
            if changed:
                break
        if not changed:
            break
    return d


class Budget(Exception):
    pass


DEADLINE = [None]       # wall-clock end of the whole run
PATIENCE = [None]       # seconds one comparison may take
PROBE_AT = 300          # case distinctions after which guided descents are tried


class Guide:
    """sample point that says which side of a case distinction to descend into; whether the side is feasible is decided exactly"""

    def __init__(self, seed, kind):
        self.r = random.Random(seed)
        self.kind, self.memo = kind, {}

    def atom(self, i):
        v = self.memo.get(i)
        if v is None:
            a = T.A(i)
            try:
                if a.op == "sqrt":
                    v = math.sqrt(abs(self.poly(a.args[0])))
                elif a.op == "exp":
                    v = math.exp(min(self.poly(a.args[0]), 50.0))
                elif a.op == "pol":
                    v = self.poly(a.args[0])
                else:
                    k = self.kind if self.kind != "mixed" else self.r.choice(("zero", "tiny", "one", "one"))
                    pos = T.atom_sign(a) is not None
                    v = {"zero": 0.0, "tiny": 1e-20, "one": 1.0, "big": 1e3}[k] * self.r.uniform(0.3, 1.7)
                    if pos:
                        v = v or self.r.uniform(0.3, 1.7)
                    elif self.r.random() < 0.5:
                        v = -v
            except (ValueError, OverflowError, TypeError, AttributeError):
                v = self.r.uniform(-1, 1)
            self.memo[i] = v
        return v

    def poly(self, p):
        t = 0.0
        for m, c in p.key:
            x = float(c)
            for i, e in m:
                y = self.atom(i)
                x *= (y if y or e > 0 else 1e-30) ** e
            t += x
        return t

    def side(self, c):
        try:
            if c.op == "le":
                return self.poly(c.args[0]) <= 0
            if c.op == "eq":
                return abs(self.poly(c.args[0])) < 1e-12
        except (ValueError, OverflowError, TypeError, AttributeError, ZeroDivisionError):
            pass
        return self.r.random() < 0.5


GUIDES = [(k, s) for s in range(4) for k in ("one", "zero", "tiny", "mixed", "big", "mixed")]


def descend(a, b, facts, guide):
    """the leaf pair of one feasible region, and the region"""
    lits = ()
    while True:
        if a is b:
            return None
        t = T._top(a, b)
        if t is None:
            return a, b, lits
        e = lin.entails(facts + lits, t)
        s = guide.side(t) if e is None else e
        if e is None:
            lits += ((t, s),)
        a, b = T._cof(a, t, s), T._cof(b, t, s)


def mismatches(a, b, facts=(), boundary=True, limit=3, budget=20000, leaf_eq=None):
    """list of Mismatch; boundary=False ignores measure-zero regions"""
    out = []
    facts = tuple(facts)
    n = [0]
    t0 = time.time()
    whole = a, b

    def probe():
        for k, s in GUIDES:
            r = descend(whole[0], whole[1], facts, Guide(s, k))
            if r is not None:
                walk(*r)
            if out:
                return

    def walk(a, b, lits):
        if len(out) >= limit:
            return
        if a is b:
            return
        n[0] += 1
        if n[0] == PROBE_AT and not out:
            probe()
            if len(out) >= limit:
                return
        if n[0] > budget:
            raise Budget()
        if n[0] % 16 == 0:
            now = time.time()
            if (DEADLINE[0] and now > DEADLINE[0]) or (PATIENCE[0] and now - t0 > PATIENCE[0]):
                raise Budget()
        t = T._top(a, b)
        if t is None:
            if leaf_eq is not None and leaf_eq(a, b):
                return
            if T.isnum(a) and T.isnum(b):
                pa, pb = T.num(a), T.num(b)
                d = T.p_add(pa, T.p_scale(pb, Fr(-1)))
                if T.p_is_zero(d):
                    return
                eqs = equalities(facts + lits)
                if eqs:
                    d2 = reduce_by(d, eqs)
                    if isinstance(d2, T.Poly):
                        if T.p_is_zero(d2):
                            return
                    else:
                        # substitution opened new gates
                        r = mismatches(d2, T.ZERO, facts + lits, boundary, limit, budget, leaf_eq)
                        if not r:
                            return
            isb = not interior(facts + lits)
            if isb and not boundary:
                return
            out.append(Mismatch(lits, a, b, isb))
            return
        e = lin.entails(facts + lits, t)
        if e is not False:
            walk(T._cof(a, t, True), T._cof(b, t, True), lits + (((t, True),) if e is None else ()))
        if e is not True:
            walk(T._cof(a, t, False), T._cof(b, t, False), lits + (((t, False),) if e is None else ()))
    walk(a, b, ())
    return out


def prune(v, facts=()):
    """drop infeasible gates"""
    facts = tuple(facts)
    memo = {}

    def rec(v, lits):
        if not isinstance(v, T.Ite):
            return v
        k = (v.uid, lits)
        if k in memo:
            return memo[k]
        e = lin.entails(facts + lits, v.c)
        if e is True:
            r = rec(v.hi, lits)
        elif e is False:
            r = rec(v.lo, lits)
        else:
            r = T.mk_ite(v.c, rec(v.hi, lits + ((v.c, True),)), rec(v.lo, lits + ((v.c, False),)))
        memo[k] = r
        return r
    return rec(v, ())


def regions(v, facts=(), limit=100000):
    """feasible (lits, leaf) pairs"""
    out = []
    facts = tuple(facts)

    def rec(v, lits):
        if not isinstance(v, T.Ite):
            out.append((lits, v))
            return
        e = lin.entails(facts + lits, v.c)
        if e is not False:
            rec(v.hi, lits + (((v.c, True),) if e is None else ()))
        if e is not True:
            rec(v.lo, lits + (((v.c, False),) if e is None else ()))
    rec(v, ())
    return out
