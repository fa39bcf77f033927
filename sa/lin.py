"""Exact rational polyhedra: emptiness / entailment of conjunctions of linear
comparisons between polynomial value numbers (each non-constant monomial is one
dimension).  General simplex on bounded slack rows, Bland's rule, delta
rationals for strict bounds.  Used as the numeric abstract domain that decides
which gates of a value graph are feasible together.
"""
from fractions import Fraction as Fr
from . import terms as T

_row_cache = {}
_q_cache = {}

PI_LO, PI_HI = Fr(314159265, 10 ** 8), Fr(314159266, 10 ** 8)


def _isqrt_bounds(c):
    from math import isqrt
    s = 10 ** 8
    n = c.numerator * c.denominator
    r = isqrt(n * s * s)
    return Fr(r, s * c.denominator), Fr(r + 1, s * c.denominator)


def mono_bounds(m):
    """(lo, lo_strict, hi, hi_strict) intrinsic bounds of a monomial"""
    lo = hi = None
    los = his = False
    if len(m) == 1 and m[0][1] == 1:
        a = T.A(m[0][0])
        if a.op == "sqrt" and T.is_const(a.args[0]):
            l, h = _isqrt_bounds(T.const_val(a.args[0]))
            return l, True, h, True
        if a.op == "sym" and a.args[0] == "pi":
            return PI_LO, True, PI_HI, True
        if a.op == "mod" and T.is_const(a.args[1]) and T.const_val(a.args[1]) > 0:
            return Fr(0), False, T.const_val(a.args[1]), True
        if a.op == "app" and a.args[0] == "erf":
            return Fr(-1), True, Fr(1), True
    s = T.mono_sign(m)
    if s == "+":
        lo, los = Fr(0), True
    elif s == "0+":
        lo = Fr(0)
    return lo, los, hi, his


class Simplex:
    """constraints: list of (dict var->coef, op, rhs) meaning sum op rhs,
    op in '<=', '<', """

    def __init__(self):
        self.nvars = 0
        self.names = {}
        self.lo = []
        self.hi = []
        self.rows = {}
        self.val = []
        self.rowkey = {}

    def var(self, m):
        k = self.names.get(m)
        if k is None:
            k = self._new()
            self.names[m] = k
            lo, ls, hi, hs = mono_bounds(m)
            if lo is not None:
                self.lo[k] = (lo, Fr(1 if ls else 0))
            if hi is not None:
                self.hi[k] = (hi, Fr(-1 if hs else 0))
        return k

    def _new(self):
        self.lo.append(None)
        self.hi.append(None)
        self.val.append((Fr(0), Fr(0)))
        self.nvars += 1
        return self.nvars - 1

    def add(self, coefs, upper):
        """sum coefs <= upper (delta rational)"""
        it = sorted(coefs.items())
        if len(it) == 1:
            v, c = it[0]
            b = (upper[0] / c, upper[1] / c)
            if c > 0:
                if self.hi[v] is None or b < self.hi[v]:
                    self.hi[v] = b
            else:
                if self.lo[v] is None or b > self.lo[v]:
                    self.lo[v] = b
            return
        k0 = it[0][1]
        key = tuple((v, c / abs(k0)) for v, c in it)
        ub = (upper[0] / abs(k0), upper[1] / abs(k0))
        nkey = tuple((v, -c) for v, c in key)
        if key in self.rowkey:
            s = self.rowkey[key]
            if self.hi[s] is None or ub < self.hi[s]:
                self.hi[s] = ub
            return
        if nkey in self.rowkey:
            s = self.rowkey[nkey]
            lb = (-ub[0], -ub[1])
            if self.lo[s] is None or lb > self.lo[s]:
                self.lo[s] = lb
            return
        s = self._new()
        self.rowkey[key] = s
        self.rows[s] = dict(key)
        self.hi[s] = ub

    def check(self):
        for v in range(self.nvars):
            if self.lo[v] is not None and self.hi[v] is not None and self.lo[v] > self.hi[v]:
                return False
        # initial nonbasic values inside bounds
        for v in range(self.nvars):
            if v in self.rows:
                continue
            x = (Fr(0), Fr(0))
            if self.lo[v] is not None and x < self.lo[v]:
                x = self.lo[v]
            if self.hi[v] is not None and x > self.hi[v]:
                x = self.hi[v]
            self.val[v] = x
        for s, row in self.rows.items():
            self.val[s] = self._ev(row)
        it = 0
        while True:
            it += 1
            if it > 3000:
                return True     # give up: treat as feasible
            b = None
            for s in sorted(self.rows):
                if self.lo[s] is not None and self.val[s] < self.lo[s]:
                    b, low = s, True
                    break
                if self.hi[s] is not None and self.val[s] > self.hi[s]:
                    b, low = s, False
                    break
            if b is None:
                return True
            row = self.rows[b]
            piv = None
            for v in sorted(row):
                c = row[v]
                if c == 0:
                    continue
                if low:
                    ok = (c > 0 and (self.hi[v] is None or self.val[v] < self.hi[v])) or \
                         (c < 0 and (self.lo[v] is None or self.val[v] > self.lo[v]))
                else:
                    ok = (c < 0 and (self.hi[v] is None or self.val[v] < self.hi[v])) or \
                         (c > 0 and (self.lo[v] is None or self.val[v] > self.lo[v]))
                if ok:
                    piv = v
                    break
            if piv is None:
                return False
            target = self.lo[b] if low else self.hi[b]
            self._pivot(b, piv, target)

    def _ev(self, row):
        a = Fr(0)
        d = Fr(0)
        for v, c in row.items():
            a += c * self.val[v][0]
            d += c * self.val[v][1]
        return (a, d)

    def _pivot(self, b, n, target):
        row = self.rows.pop(b)
        c = row.pop(n)
        # n = (b - sum others)/c
        new = {v: -x / c for v, x in row.items() if x != 0}
        new[b] = 1 / c
        for s, r in self.rows.items():
            k = r.pop(n, None)
            if k:
                for v, x in new.items():
                    y = r.get(v, 0) + k * x
                    if y == 0:
                        r.pop(v, None)
                    else:
                        r[v] = y
        self.rows[n] = new
        self.val[b] = target
        for s, r in self.rows.items():
            self.val[s] = self._ev(r)


def _prep(p):
    """Poly -> (coefs by mono, const) after clearing known-positive content"""
    r = _row_cache.get(p.uid)
    if r is None:
        d = {}
        k = Fr(0)
        for m, c in p.key:
            if m == ():
                k = c
            else:
                d[m] = c
        r = (d, k)
        _row_cache[p.uid] = r
    return r


def _lit_cons(atom, val):
    """-> list of (Poly, strict) meaning Poly <= 0 / < 0, or ('ne', Poly)"""
    if atom.op == "le":
        p = atom.args[0]
        if val:
            return [(p, False)]
        if T.all_int(p):
            return [(T.p_add(T.ONE, T.p_scale(p, Fr(-1))), False)]
        return [(T.p_scale(p, Fr(-1)), True)]
    if atom.op == "eq":
        p = atom.args[0]
        if val:
            return [(p, False), (T.p_scale(p, Fr(-1)), False)]
        return [("ne", p)]
    return []


def feasible(lits, extra=()):
    """lits: iterable of (cond atom, bool); extra: iterable of (Poly, strict)
    False only if the conjunction is unsatisfiable."""
    lits = frozenset(lits)
    extra = tuple(extra)
    key = (frozenset((a.id, b) for a, b in lits), tuple((p.uid, s) for p, s in extra))
    r = _q_cache.get(key)
    if r is not None:
        return r
    byid = {}
    for a, b in lits:
        if byid.setdefault(a.id, b) != b:
            _q_cache[key] = False
            return False
    cons = []
    nes = []
    for a, b in lits:
        for c in _lit_cons(a, b):
            if c[0] == "ne":
                nes.append(c[1])
            else:
                cons.append(c)
    cons += list(extra)
    # string equalities: x == 'a' and x == 'b' clash
    seen = {}
    for a, b in lits:
        if a.op == "opq" and a.args[0] == "eq" and b:
            x, y = a.args[1], a.args[2]
            for u, w in ((x, y), (y, x)):
                if isinstance(w, T.StrL) and all(isinstance(q, str) for q in w.key):
                    if seen.setdefault(u.uid, w) is not w:
                        _q_cache[key] = False
                        return False
    r = _feas(cons)
    if r:
        for p in nes:
            if not _feas(cons + [(p, True)]) and not _feas(cons + [(T.p_scale(p, Fr(-1)), True)]):
                r = False
                break
    _q_cache[key] = r
    return r


def _feas(cons):
    # keep only constraints connected through shared monomials? small: keep all
    s = Simplex()
    for p, strict in cons:
        d, k = _prep(p)
        if not d:
            if k > 0 or (strict and k == 0):
                return False
            continue
        s.add({s.var(m): c for m, c in d.items()}, (-k, Fr(-1 if strict else 0)))
    return s.check()


def entails(lits, atom):
    """True / False / None"""
    lits = list(lits)
    for a, b in lits:
        if a is atom:
            return b
    if atom.op not in ("le", "eq") and not (atom.op == "opq"):
        return None
    if not feasible(lits + [(atom, False)]):
        return True
    if not feasible(lits + [(atom, True)]):
        return False
    return None
