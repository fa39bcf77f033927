"""Hash-consed gated value numbers.

A *value* (V) is a reduced ordered decision diagram whose inner nodes are
boolean conditions (comparison facts) and whose leaves are one of

  Poly   canonical (Laurent) polynomial over atoms with rational coefficients
  BoolL  True / False
  StrL   string template (tuple of literal parts and values)
  NoneL  None
  RefL   reference to an abstract heap object

Atoms are interned uninterpreted terms (inputs, array reads, exp/sqrt/erf...,
finite sums, inverse polynomials).  Everything is interned, so two values that
normalise to the same term are the same Python object: this is classical
global value numbering over a gated (phi-aware) representation.
"""
from fractions import Fraction as Fr
from functools import lru_cache
import itertools
import sys

sys.setrecursionlimit(20000)

_atoms = {}
_atom_list = []


class Atom:
    __slots__ = ("op", "args", "id", "_deps")

    def __repr__(self):
        return show_atom(self)


def atom(op, *args):
    key = (op, args)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.op, a.args, a.id = op, args, len(_atom_list)
        a._deps = None
        _atoms[key] = a
        _atom_list.append(a)
    return a


_interned = {}


def _intern(cls, key):
    k = (cls, key)
    v = _interned.get(k)
    if v is None:
        v = cls.__new__(cls)
        v.key = key
        v._deps = None
        v.uid = len(_interned)
        _interned[k] = v
    return v


class V:
    __slots__ = ("key", "_deps", "uid")

    def __add__(self, o):
        return add(self, lift(o))

    def __radd__(self, o):
        return add(lift(o), self)

    def __sub__(self, o):
        return sub(self, lift(o))

    def __rsub__(self, o):
        return sub(lift(o), self)

    def __mul__(self, o):
        return mul(self, lift(o))

    def __rmul__(self, o):
        return mul(lift(o), self)

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __pow__(self, o):
        return power(self, lift(o))

    def __neg__(self):
        return neg(self)

    def __repr__(self):
        return show(self)


class Poly(V):
    """key: tuple of (mono, coef) sorted; mono: tuple of (atomid, exp)."""
    __slots__ = ()


class BoolL(V):
    __slots__ = ()


class StrL(V):
    __slots__ = ()


class NoneL(V):
    __slots__ = ()


class RefL(V):
    __slots__ = ()


class Ite(V):
    """key: (cond atom, hi, lo)"""
    __slots__ = ()

    @property
    def c(self):
        return self.key[0]

    @property
    def hi(self):
        return self.key[1]

    @property
    def lo(self):
        return self.key[2]


TRUE = _intern(BoolL, True)
FALSE = _intern(BoolL, False)
NONE = _intern(NoneL, None)


def ref(i):
    return _intern(RefL, i)


def strl(*parts):
    out = []
    for p in parts:
        if isinstance(p, StrL):
            ps = p.key
        elif isinstance(p, (tuple, list)):
            ps = p
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q == "" and isinstance(q, str):
                continue
            else:
                out.append(q)
    return _intern(StrL, tuple(out))


def _mkpoly(d):
    items = tuple(sorted((m, c) for m, c in d.items() if c != 0))
    return _intern(Poly, items)


ZERO = _mkpoly({})


def const(c):
    if isinstance(c, bool):
        return TRUE if c else FALSE
    return _mkpoly({(): Fr(c)})


ONE = const(1)


def lift(x):
    if isinstance(x, V):
        return x
    if x is None:
        return NONE
    if isinstance(x, str):
        return strl(x)
    if isinstance(x, (bool, int, Fr)):
        return const(x)
    if isinstance(x, float):
        return const(rat_of_float(x))
    raise TypeError("cannot lift %r" % (x,))


def rat_of_float(x):
    """Exact rational of a decimal literal; long decimals are read as the
    nearby simple fraction they abbreviate."""
    f = Fr(repr(x)) if not isinstance(x, int) else Fr(x)
    if len(repr(x).replace("-", "").replace(".", "").lstrip("0")) >= 14 and f != 0:
        g = f.limit_denominator(200000)
        if abs(g - f) <= abs(f) * Fr(1, 10 ** 14):
            return g
    return f


def of_atom(a):
    return _mkpoly({((a.id, 1),): Fr(1)})


def sym(name, *idx):
    return of_atom(atom("sym", name, *idx))


def isym(name):
    """integer-valued symbol"""
    return of_atom(atom("isym", name))


POSITIVE = set()


def possym(name, *idx):
    """symbol declared strictly positive"""
    v = sym(name, *idx)
    POSITIVE.add(single_atom(v).id)
    return v


def atom_sign(a):
    """'+', '0+' or None"""
    if a.id in POSITIVE:
        return "+"
    if a.op == "exp":
        return "+"
    if a.op == "sym" and a.args[0] == "pi":
        return "+"
    if a.op == "sqrt":
        s = poly_sign(a.args[0]) if isinstance(a.args[0], Poly) else None
        return "+" if s == "+" else "0+"
    if a.op == "pol":
        return poly_sign(a.args[0])
    if a.op == "ind":
        return "0+"
    return None


def mono_sign(m):
    s = "+"
    for i, e in m:
        t = atom_sign(_atom_list[i])
        if t is None:
            if e % 2 == 0:
                t = "0+"
            else:
                return None
        if t == "0+":
            s = "0+"
    return s


def poly_sign(p):
    """'+' / '0+' / '-' / '0-' / None"""
    if p.key == ():
        return None
    out = None
    for want in (1, -1):
        strict = False
        for m, c in p.key:
            if (c > 0) != (want > 0):
                break
            t = mono_sign(m)
            if t is None:
                break
            if t == "+":
                strict = True
        else:
            if want > 0:
                return "+" if strict else "0+"
            return "-" if strict else "0-"
    return out


def app(fn, *args):
    return of_atom(atom("app", fn, *args))


def A(i):
    return _atom_list[i]


# ---------------------------------------------------------------- polynomials

def is_const(p):
    return isinstance(p, Poly) and (p.key == () or (len(p.key) == 1 and p.key[0][0] == ()))


def const_val(p):
    if p.key == ():
        return Fr(0)
    return p.key[0][1]


def pdict(p):
    return dict(p.key)


def p_add(a, b):
    d = dict(a.key)
    for m, c in b.key:
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def p_scale(a, k):
    if k == 0:
        return ZERO
    return _mkpoly({m: c * k for m, c in a.key})


def _mono_mul(m1, m2):
    """product of monomials -> (poly)   handles sqrt^2, exp merging, indicators"""
    d = {}
    for i, e in m1:
        d[i] = d.get(i, 0) + e
    for i, e in m2:
        d[i] = d.get(i, 0) + e
    return _mono_norm(d)


_mono_cache = {}


def _mono_norm(d):
    """normalise exponent dict -> Poly"""
    d = {i: e for i, e in d.items() if e != 0}
    key = tuple(sorted(d.items()))
    r = _mono_cache.get(key)
    if r is not None:
        return r
    extra = None
    exps = []
    for i, e in list(d.items()):
        a = _atom_list[i]
        if a.op == "sqrt":
            # exponent kept in {0,1}
            q, rem = divmod(e, 2)
            if q != 0:
                base = a.args[0]
                if rem:
                    d[i] = 1
                else:
                    del d[i]
                f = p_pow(base, q)
                extra = f if extra is None else p_mul(extra, f)
        elif a.op == "exp":
            exps.append((i, e))
        elif a.op == "ind":
            if e > 1:
                d[i] = 1
    if len(exps) > 1 or (len(exps) == 1 and exps[0][1] != 1):
        arg = ZERO
        for i, e in exps:
            arg = p_add(arg, p_scale(_atom_list[i].args[0], e))
            del d[i]
        if not (arg.key == ()):
            a = atom("exp", arg)
            d[a.id] = d.get(a.id, 0) + 1
    # positive powers of 'pol' atoms are expanded
    for i, e in list(d.items()):
        a = _atom_list[i]
        if a.op == "pol" and e > 0:
            del d[i]
            f = p_pow(a.args[0], e)
            extra = f if extra is None else p_mul(extra, f)
    m = tuple(sorted((i, e) for i, e in d.items() if e != 0))
    r = _mkpoly({m: Fr(1)})
    if extra is not None:
        r = p_mul(r, extra)
    _mono_cache[key] = r
    return r


_pmul_cache = {}


def p_mul(a, b):
    if a.key == () or b.key == ():
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    k = (a.uid, b.uid) if a.uid <= b.uid else (b.uid, a.uid)
    r = _pmul_cache.get(k)
    if r is not None:
        return r
    d = {}
    for m1, c1 in a.key:
        for m2, c2 in b.key:
            p = _mono_mul(m1, m2)
            cc = c1 * c2
            for m, c in p.key:
                d[m] = d.get(m, 0) + c * cc
    r = _mkpoly(d)
    r = _cancel_pol(r)
    _pmul_cache[k] = r
    return r


def _poly_divmod_exact(num, den):
    """try exact division of polynomial num by den (multivariate, lex); None if
    not exact"""
    if den.key == ():
        return None
    q = {}
    r = dict(num.key)
    # leading monomial by key order (max)
    def lead(dd):
        m = max(dd, key=lambda m: _lexkey(m))
        return m, dd[m]
    dm, dc = lead(dict(den.key))
    steps = 0
    while r:
        steps += 1
        if steps > 400:
            return None
        m, c = lead(r)
        e = dict(m)
        for i, x in dm:
            e[i] = e.get(i, 0) - x
        if any(x < 0 for i, x in e.items()):
            return None
        qm = tuple(sorted((i, x) for i, x in e.items() if x))
        qc = c / dc
        q[qm] = q.get(qm, 0) + qc
        for m2, c2 in den.key:
            ee = dict(qm)
            for i, x in m2:
                ee[i] = ee.get(i, 0) + x
            mm = tuple(sorted((i, x) for i, x in ee.items() if x))
            v = r.get(mm, 0) - qc * c2
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = v
    return _mkpoly(q)


def _lexkey(m):
    # total order compatible with multiplication: graded by total degree then lex
    return (sum(e for _, e in m), tuple((-i, e) for i, e in m))


def _cancel_pol(p):
    """combine terms having 'pol' denominators: if the whole coefficient of
    pol^-k divides exactly, cancel."""
    pols = set()
    for m, c in p.key:
        for i, e in m:
            if e < 0 and _atom_list[i].op == "pol":
                pols.add(i)
    if not pols:
        return p
    changed = False
    for i in sorted(pols):
        base = _atom_list[i].args[0]
        while True:
            lo = 0
            for m, c in p.key:
                for j, e in m:
                    if j == i:
                        lo = min(lo, e)
            if lo == 0:
                break
            # terms with exactly exponent lo
            group = {}
            rest = {}
            for m, c in p.key:
                e = dict(m).get(i, 0)
                if e == lo:
                    mm = tuple((j, x) for j, x in m if j != i)
                    group[mm] = group.get(mm, 0) + c
                else:
                    rest[m] = c
            g = _mkpoly(group)
            if any(x < 0 and _atom_list[j].op != "pol" for m, c in g.key for j, x in m):
                # clear negative plain exponents by shifting
                shift = {}
                for m, c in g.key:
                    for j, x in m:
                        shift[j] = min(shift.get(j, 0), x)
                shift = {j: x for j, x in shift.items() if x < 0}
                gs = {}
                for m, c in g.key:
                    d = dict(m)
                    for j, x in shift.items():
                        d[j] = d.get(j, 0) - x
                    gs[tuple(sorted((j, x) for j, x in d.items() if x))] = c
                q = _poly_divmod_exact(_mkpoly(gs), base)
                if q is not None:
                    qs = {}
                    for m, c in q.key:
                        d = dict(m)
                        for j, x in shift.items():
                            d[j] = d.get(j, 0) + x
                        qs[tuple(sorted((j, x) for j, x in d.items() if x))] = c
                    q = _mkpoly(qs)
            else:
                q = _poly_divmod_exact(g, base)
            if q is None:
                break
            new = dict(rest)
            for m, c in q.key:
                d = dict(m)
                if lo + 1 != 0:
                    d[i] = d.get(i, 0) + lo + 1
                mm = tuple(sorted((j, x) for j, x in d.items() if x))
                new[mm] = new.get(mm, 0) + c
            p = _mkpoly(new)
            changed = True
    return p


def content(p):
    """(positive rational content, monomial gcd with integer exps, primitive)"""
    from math import gcd
    if p.key == ():
        return Fr(1), (), p
    num = 0
    den = 1
    for m, c in p.key:
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    k = Fr(num, den)
    common = None
    for m, c in p.key:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {i: min(e, d.get(i, 0)) for i, e in common.items()}
            for i, e in d.items():
                if i not in common and e < 0:
                    common[i] = e
            # atoms absent here but negative elsewhere
    # atoms with negative exponent anywhere
    for m, c in p.key:
        for i, e in m:
            if e < 0:
                common[i] = min(common.get(i, 0), e)
    common = {i: e for i, e in common.items() if e != 0}
    # do not pull out single sqrt unless in all; min handled above
    prim = {}
    for m, c in p.key:
        d = dict(m)
        for i, e in common.items():
            d[i] = d.get(i, 0) - e
        prim[tuple(sorted((i, e) for i, e in d.items() if e))] = c / k
    return k, tuple(sorted(common.items())), _mkpoly(prim)


def _lead_sign(p):
    m, c = max(p.key, key=lambda mc: _lexkey(mc[0]))
    return 1 if c > 0 else -1


UNDEF = of_atom(atom("undef"))


def p_inv(p):
    if p.key == ():
        return UNDEF
    if len(p.key) == 1:
        m, c = p.key[0]
        r = _mono_norm({i: -e for i, e in m})
        return p_scale(r, 1 / c)
    k, com, prim = content(p)
    if _lead_sign(prim) < 0:
        prim = p_scale(prim, Fr(-1))
        k = -k
    if len(prim.key) == 1:
        return p_mul(p_inv(prim), p_inv(p_mul(const(k), _mono_norm(dict(com)))))
    a = atom("pol", prim)
    d = {i: -e for i, e in com}
    r = _mono_norm(d)
    r = p_mul(r, _mkpoly({((a.id, -1),): Fr(1)}))
    return p_scale(r, 1 / k)


def p_pow(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return p_inv(p_pow(p, -n)) if len(p.key) <= 1 else p_pow(p_inv(p), -n)
    r = ONE
    b = p
    while n:
        if n & 1:
            r = p_mul(r, b)
        n >>= 1
        if n:
            b = p_mul(b, b)
    return r


def together(p):
    """(num, den) with den a product of pol atoms as Poly expanded; num w/o
    negative pol exponents"""
    need = {}
    for m, c in p.key:
        for i, e in m:
            if e < 0 and _atom_list[i].op == "pol":
                need[i] = max(need.get(i, 0), -e)
    if not need:
        return p, ONE
    num = ZERO
    for m, c in p.key:
        d = dict(m)
        t = None
        extra = ONE
        for i, k in need.items():
            e = d.pop(i, 0)
            extra = p_mul(extra, p_pow(_atom_list[i].args[0], k + e))
        t = p_scale(_mono_norm(d), c)
        num = p_add(num, p_mul(t, extra))
    den = ONE
    for i, k in need.items():
        den = p_mul(den, p_pow(_atom_list[i].args[0], k))
    return num, den


def p_is_zero(p):
    """decide p == 0 as a rational function of its atoms"""
    if p.key == ():
        return True
    n, d = together(p)
    k = 0
    while n.key != () and any(e < 0 and _atom_list[i].op == "pol" for m, c in n.key for i, e in m):
        n, d = together(n)
        k += 1
        if k > 5:
            return False
    return n.key == ()


def _sqfree(n):
    """n>0 int -> (a, b) n = a^2*b, b squarefree"""
    a, b = 1, 1
    f = 2
    while f * f <= n:
        k = 0
        while n % f == 0:
            n //= f
            k += 1
        a *= f ** (k // 2)
        if k % 2:
            b *= f
        f += 1
    return a, b * n


def _sqrt_int(n):
    a, b = _sqfree(n)
    r = const(a)
    f = 2
    while b > 1:
        while b % f == 0:
            r = p_mul(r, of_atom(atom("sqrt", const(f))))
            b //= f
        f += 1
    return r


def p_sqrt(p):
    if p.key == ():
        return ZERO
    num, den = together(p)
    if den is not ONE:
        if (poly_sign(den) == "-") or (poly_sign(num) == "-") or (poly_sign(den) is None and poly_sign(num) is None
                                                                  and _lead_sign(num) < 0 and _lead_sign(den) < 0):
            num, den = p_scale(num, Fr(-1)), p_scale(den, Fr(-1))
        return p_mul(p_sqrt(num), p_inv(p_sqrt(den)))
    if is_const(p):
        c = const_val(p)
        if c < 0:
            return app("sqrtneg", p)
        return p_mul(_sqrt_int(c.numerator), p_inv(_sqrt_int(c.denominator)))
    k, com, prim = content(p)
    res = p_mul(_sqrt_int(k.numerator), p_inv(_sqrt_int(k.denominator)))
    if len(prim.key) == 1 and prim.key[0][0] == ():
        c = prim.key[0][1]
        if c < 0:
            # sqrt(-m): keep sign inside with the monomial
            return p_mul(res, of_atom(atom("sqrt", _mkpoly({com: Fr(-1)}))))
        prim = None
    # monomial part
    neg = False
    for i, e in com:
        q, rem = divmod(e, 2)
        a = _atom_list[i]
        if a.op == "exp":
            res = p_mul(res, p_exp(p_scale(a.args[0], Fr(e, 2))))
            continue
        if q:
            res = p_mul(res, _mono_norm({i: q}))
        if rem:
            res = p_mul(res, of_atom(atom("sqrt", of_atom(a))))
    if prim is not None:
        res = p_mul(res, of_atom(atom("sqrt", prim)))
    return res


def p_exp(p):
    if p.key == ():
        return ONE
    return of_atom(atom("exp", p))


# ---------------------------------------------------------------- diagrams

_ite_memo = {}


def mk_ite(c, a, b):
    if a is b:
        return a
    return _intern(Ite, (c, a, b))


def _top(*vs):
    best = None
    for v in vs:
        if isinstance(v, Ite):
            if best is None or v.c.id < best.id:
                best = v.c
    return best


def _cof(v, c, b):
    if isinstance(v, Ite) and v.c is c:
        return v.hi if b else v.lo
    return v


def ite(cond, a, b):
    """cond: boolean V"""
    if cond is TRUE:
        return a
    if cond is FALSE:
        return b
    if a is b:
        return a
    k = (cond.uid, a.uid, b.uid)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if not isinstance(cond, Ite):
        cond = truth(cond)
        return ite(cond, a, b)
    t = _top(cond, a, b)
    r = mk_ite(t, ite(_cof(cond, t, True), _cof(a, t, True), _cof(b, t, True)),
               ite(_cof(cond, t, False), _cof(a, t, False), _cof(b, t, False)))
    _ite_memo[k] = r
    return r


def condv(c):
    return mk_ite(c, TRUE, FALSE)


def not_(v):
    return ite(v, FALSE, TRUE)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


_ap1 = {}


def apply1(tag, f, a):
    if not isinstance(a, Ite):
        return f(a)
    k = (tag, a.uid)
    r = _ap1.get(k)
    if r is None:
        r = ite(condv(a.c), apply1(tag, f, a.hi), apply1(tag, f, a.lo))
        _ap1[k] = r
    return r


_ap2 = {}


def apply2(tag, f, a, b):
    ta, tb = isinstance(a, Ite), isinstance(b, Ite)
    if not ta and not tb:
        return f(a, b)
    k = (tag, a.uid, b.uid)
    r = _ap2.get(k)
    if r is None:
        t = _top(a, b)
        r = ite(condv(t), apply2(tag, f, _cof(a, t, True), _cof(b, t, True)),
                apply2(tag, f, _cof(a, t, False), _cof(b, t, False)))
        _ap2[k] = r
    return r


def num(v):
    """leaf -> Poly (booleans become 0/1)"""
    if isinstance(v, Poly):
        return v
    if v is TRUE:
        return ONE
    if v is FALSE:
        return ZERO
    raise TypeError("not numeric: %s" % show(v))


def isnum(v):
    return isinstance(v, (Poly, BoolL))


def add(a, b):
    def f(x, y):
        if isinstance(x, StrL) and isinstance(y, StrL):
            return strl(x, y)
        if isinstance(x, StrL) or isinstance(y, StrL):
            if isinstance(x, StrL):
                return strl(x, y if not isinstance(y, StrL) else y)
            return strl(x, y)
        if not isnum(x) or not isnum(y):
            return app("add", x, y)
        return _cancel_pol(p_add(num(x), num(y)))
    return apply2("add", f, a, b)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    def f(x, y):
        if isinstance(x, StrL) and isnum(y):
            x, y = y, x
        if isinstance(y, StrL) and isnum(x):
            n = num(x)
            if is_const(n):
                return strl("".join([]), *([y] * int(const_val(n))))
            return app("strrep", y, n)
        if not isnum(x) or not isnum(y):
            return app("mul", x, y)
        return p_mul(num(x), num(y))
    # string * boolean-like opaque numeric
    return apply2("mul", f, a, b)


def inv(a):
    return apply1("inv", lambda x: p_inv(num(x)) if isnum(x) else app("inv", x), a)


def div(a, b):
    return mul(a, inv(b))


def power(a, b):
    def f(x, y):
        if not isnum(x) or not isnum(y):
            return app("pow", x, y)
        x, y = num(x), num(y)
        if is_const(y):
            e = const_val(y)
            if e.denominator == 1:
                return p_pow(x, int(e))
            if e.denominator == 2:
                return p_pow(p_sqrt(x), int(e * 2))
            if e.denominator == 4:
                return p_pow(p_sqrt(p_sqrt(x)), int(e * 4))
        if is_const(x) and const_val(x) == -1:
            # (-1)**n
            return ite(eq(mod(y, const(2)), ZERO), ONE, const(-1))
        if is_const(x) and const_val(x) == 1:
            return ONE
        return app("pow", x, y)
    return apply2("pow", f, a, b)


def sqrt(a):
    return apply1("sqrt", lambda x: p_sqrt(num(x)) if isnum(x) else app("sqrt", x), a)


def exp(a):
    return apply1("exp", lambda x: p_exp(num(x)) if isnum(x) else app("exp", x), a)


ODD_FUNCS = {"erf", "sin", "tan", "arctan", "sinh", "tanh"}


def _log_int(n):
    r, f = ZERO, 2
    while n > 1:
        while n % f == 0:
            r = p_add(r, app("log", const(f)))
            n //= f
        f += 1
        if f * f > n and n > 1:
            f = n
    return r


def p_log(p):
    """logarithm of a product of positive factors == sum of logarithms"""
    if len(p.key) != 1:
        return app("log", p)
    (m, c), = p.key
    if c <= 0 or c.numerator > 10 ** 6 or c.denominator > 10 ** 6:
        return app("log", p)
    r = p_add(_log_int(c.numerator), p_scale(_log_int(c.denominator), Fr(-1)))
    for i, e in m:
        a = of_atom(_atom_list[i])
        if poly_sign(a) != "+":
            return app("log", p)
        if _atom_list[i].op == "exp":
            r = p_add(r, p_scale(_atom_list[i].args[0], Fr(e)))
        else:
            r = p_add(r, p_scale(app("log", a), Fr(e)))
    return r


def log(a):
    return func("log", a)


def func(name, *args):
    """uninterpreted scalar function, distributed over gates"""
    def f1(x):
        if name == "log" and isinstance(x, Poly):
            return p_log(x)
        if name in ODD_FUNCS and isinstance(x, Poly):
            if x.key == ():
                return ZERO
            if _lead_sign(x) < 0:
                return p_scale(app(name, p_scale(x, Fr(-1))), Fr(-1))
        return app(name, num(x) if isinstance(x, BoolL) else x)
    if len(args) == 1:
        return apply1("f:" + name, f1, args[0])

    def rec(done, rest):
        if not rest:
            return app(name, *[num(z) if isinstance(z, BoolL) else z for z in done])
        v = rest[0]
        if isinstance(v, Ite):
            return ite(condv(v.c), rec(done, [v.hi] + rest[1:]), rec(done, [v.lo] + rest[1:]))
        return rec(done + [v], rest[1:])
    return rec([], list(args))


def floor_(a):
    def f(x):
        x = num(x)
        if is_const(x):
            c = const_val(x)
            return const(c.numerator // c.denominator)
        if all_int(x):
            return x
        # split off integer part
        ip, rp = {}, {}
        for m, c in x.key:
            if c.denominator == 1 and all(e > 0 and _is_int_atom(_atom_list[i]) for i, e in m):
                ip[m] = c
            else:
                rp[m] = c
        r = _mkpoly(rp)
        if r.key == ():
            return _mkpoly(ip)
        return p_add(_mkpoly(ip), of_atom(atom("floor", r)))
    return apply1("floor", f, a)


def int_(a):
    """python int(): truncation; sizes are non-negative so modelled as floor"""
    return floor_(a)


def trunc(a):
    """storing into a 64-bit integer slot: rounds towards zero"""
    def f(x):
        if not isinstance(x, Poly):
            return x
        if is_const(x):
            c = const_val(x)
            return const(int(c))
        if all_int(x):
            return x
        return of_atom(atom("trunc", x))
    return apply1("trunc", f, a)


def mod(a, b):
    def f(x, y):
        x, y = num(x), num(y)
        if is_const(x) and is_const(y):
            return const(const_val(x) % const_val(y))
        if is_const(y) and const_val(y).denominator == 1 and all_int(x):
            n = const_val(y)
            d = {m: c % n for m, c in x.key}
            x = _mkpoly(d)
            if x.key == ():
                return ZERO
            if is_const(x):
                return x
            k, com, prim = content(x)
        return of_atom(atom("mod", x, y))
    return apply2("mod", f, a, b)


INT_OPS = {"isym", "floor", "trunc", "mod", "size"}


def _is_int_atom(a):
    return a.op in INT_OPS


def all_int(p):
    return all(c.denominator == 1 and all(e > 0 and _is_int_atom(_atom_list[i]) for i, e in m)
               for m, c in p.key)


# ---- comparisons

def _pos_prim(p):
    """divide by known-positive content"""
    num_, den = together(p)
    if den is not ONE:
        sg = poly_sign(den)
        if sg == "+":
            p = num_
        elif sg == "-":
            p = p_scale(num_, Fr(-1))
    k, com, prim = content(p)
    keep = []
    for i, e in com:
        a = _atom_list[i]
        if atom_sign(a) == "+":
            continue
        if e % 2 == 0 and e < 0:
            continue
        if e < 0:
            keep.append((i, 1 if e % 2 else 0))
            continue
        keep.append((i, e))
    if not keep:
        return prim
    return p_mul(prim, _mono_norm(dict(keep)))


_CLOSED = {}
_IV = None


def _iv():
    global _IV
    if _IV is None:
        from mpmath import iv
        iv.dps = 30
        _IV = iv
    return _IV


def closed_atom(i):
    """interval holding the value of an atom without free symbols, or None"""
    if i in _CLOSED:
        return _CLOSED[i]
    a = _atom_list[i]
    iv = _iv()
    out = None
    if a.op == "sym" and a.args == ("pi",):
        out = iv.pi
    elif a.op in ("sqrt", "exp", "pol") or (a.op == "app" and len(a.args) == 2 and a.args[0] in ("sin", "cos", "tan", "log", "erf")):
        x = a.args[-1]
        x = closed(x) if isinstance(x, Poly) else None
        if x is not None:
            n = a.op if a.op != "app" else a.args[0]
            if n == "pol":
                out = x
            elif n == "erf":
                from mpmath import erf, mpf
                out = iv.mpf([erf(mpf(x.a)) - mpf("1e-14"), erf(mpf(x.b)) + mpf("1e-14")])
            elif n in ("sqrt", "log") and not x.a > 0:
                out = None
            else:
                out = getattr(iv, n)(x)
    _CLOSED[i] = out
    return out


def closed(p):
    """interval holding the value of a polynomial without free symbols, or None"""
    iv = _iv()
    tot = iv.mpf(0)
    for m, c in p.key:
        t = iv.mpf(c.numerator) / c.denominator
        for i, e in m:
            v = closed_atom(i)
            if v is None or (e < 0 and v.a <= 0 <= v.b):
                return None
            t *= v ** e
        tot += t
    return tot


def closed_sign(p):
    """'+' / '-' when the numbers that multiply each open monomial decide it"""
    groups, some = {}, False
    for m, c in p.key:
        o, k = [], []
        for i, e in m:
            (o if closed_atom(i) is None else k).append((i, e))
        some = some or bool(k)
        groups.setdefault(tuple(o), {})[tuple(k)] = c
    if not some:
        return None
    out = None
    for o, d in groups.items():
        if mono_sign(o) != "+":
            return None
        v = closed(_mkpoly(d))
        s = None if v is None else "+" if v.a > 0 else "-" if v.b < 0 else None
        if s is None or (out is not None and s != out):
            return None
        out = s
    return out


def le0(p):
    """p <= 0"""
    if is_const(p):
        return TRUE if const_val(p) <= 0 else FALSE
    sg = poly_sign(p)
    if sg is not None:
        if sg == "+":
            return FALSE
        if sg in ("-", "0-"):
            return TRUE
    p = _pos_prim(p)
    sg = closed_sign(p)
    if sg is not None:
        return FALSE if sg == "+" else TRUE
    # canonical direction: le(p) or not lt(-p)...  use both polarities as le
    return condv(atom("le", p))


def lt0(p):
    if is_const(p):
        return TRUE if const_val(p) < 0 else FALSE
    if all_int(p):
        return le0(p_add(p, ONE))
    return not_(le0(p_scale(p, Fr(-1))))


def eq0(p):
    if is_const(p):
        return TRUE if const_val(p) == 0 else FALSE
    if p_is_zero(p):
        return TRUE
    if poly_sign(p) in ("+", "-"):
        return FALSE
    p = _pos_prim(p)
    if _lead_sign(p) < 0:
        p = p_scale(p, Fr(-1))
    return condv(atom("eq", p))


def le(a, b):
    return apply2("le", lambda x, y: _cmpnum("le", x, y), a, b)


def lt(a, b):
    return apply2("lt", lambda x, y: _cmpnum("lt", x, y), a, b)


def _cmpnum(op, x, y):
    if isnum(x) and isnum(y):
        p = _cancel_pol(p_add(num(x), p_scale(num(y), Fr(-1))))
        return le0(p) if op == "le" else lt0(p)
    return condv(atom("opq", op, x, y))


def eq(a, b):
    def f(x, y):
        if x is y:
            return TRUE
        if isinstance(x, BoolL) and isinstance(y, BoolL):
            return TRUE if x is y else FALSE
        if isnum(x) and isnum(y):
            # comparison of an opaque number with a python bool
            return eq0(_cancel_pol(p_add(num(x), p_scale(num(y), Fr(-1)))))
        if isinstance(x, StrL) and isinstance(y, StrL):
            if all(isinstance(p, str) for p in x.key) and all(isinstance(p, str) for p in y.key):
                return FALSE
            if strl_differ(x, y):
                return FALSE
            return condv(atom("opq", "eq", x, y))
        if isinstance(x, NoneL) or isinstance(y, NoneL):
            return FALSE if not isinstance(x, Poly) and not isinstance(y, Poly) else condv(atom("opq", "eq", x, y))
        if isinstance(x, StrL) and isnum(y) and is_const(num(y)):
            return FALSE if all(isinstance(p, str) for p in x.key) else condv(atom("opq", "eq", x, y))
        if isinstance(y, StrL) and isnum(x) and is_const(num(x)):
            return FALSE if all(isinstance(p, str) for p in y.key) else condv(atom("opq", "eq", x, y))
        if isinstance(x, RefL) and isinstance(y, RefL):
            return FALSE
        if x.uid > y.uid:
            x, y = y, x
        return condv(atom("opq", "eq", x, y))
    return apply2("eq", f, a, b)


def strl_differ(x, y):
    """templates whose literal beginnings or endings already differ"""
    lit = lambda k: k if isinstance(k, str) else ""
    kx, ky = x.key or ("",), y.key or ("",)
    a, b = lit(kx[0]), lit(ky[0])
    n = min(len(a), len(b))
    if a[:n] != b[:n]:
        return True
    a, b = lit(kx[-1]), lit(ky[-1])
    n = min(len(a), len(b))
    return n > 0 and a[-n:] != b[-n:]


def truth(v):
    """python truthiness as boolean V"""
    def f(x):
        if isinstance(x, BoolL):
            return x
        if isinstance(x, NoneL):
            return FALSE
        if isinstance(x, Poly):
            return not_(eq0(x))
        if isinstance(x, StrL):
            if x.key == ():
                return FALSE
            return TRUE
        return TRUE
    return apply1("truth", f, v)


def abs_(a):
    def f(x):
        x = num(x)
        if is_const(x):
            return const(abs(const_val(x)))
        # canonical: cond on x with positive leading sign
        if _lead_sign(x) < 0:
            x = p_scale(x, Fr(-1))
        return ite(le0(p_scale(x, Fr(-1))), x, p_scale(x, Fr(-1)))
    return apply1("abs", f, a)


def min_(a, b):
    return ite(le(a, b), a, b)


def max_(a, b):
    return ite(le(b, a), a, b)


# ---------------------------------------------------------------- dependency

def deps(x):
    """set of atom ids occurring (transitively) in a value / atom"""
    if isinstance(x, Atom):
        if x._deps is None:
            s = {x.id}
            for a in x.args:
                s |= _deps_arg(a)
            x._deps = frozenset(s)
        return x._deps
    if isinstance(x, V):
        if x._deps is None:
            s = set()
            if isinstance(x, Poly):
                for m, c in x.key:
                    for i, e in m:
                        s |= deps(_atom_list[i])
            elif isinstance(x, Ite):
                s |= deps(x.c) | deps(x.hi) | deps(x.lo)
            elif isinstance(x, StrL):
                for p in x.key:
                    s |= _deps_arg(p)
            x._deps = frozenset(s)
        return x._deps
    return _deps_arg(x)


def _deps_arg(a):
    if isinstance(a, (Atom, V)):
        return deps(a)
    if isinstance(a, tuple):
        s = frozenset()
        for y in a:
            s |= _deps_arg(y)
        return s
    return frozenset()


def depends(v, a):
    """a: Atom or sym value"""
    if isinstance(a, Poly):
        a = single_atom(a)
    return a.id in deps(v)


def single_atom(p):
    (m, c), = p.key
    (i, e), = m
    assert c == 1 and e == 1
    return _atom_list[i]


def is_single_atom(p):
    return isinstance(p, Poly) and len(p.key) == 1 and p.key[0][1] == 1 and len(p.key[0][0]) == 1 and p.key[0][0][0][1] == 1


# ---------------------------------------------------------------- substitution

REBUILD = {}   # atom op -> function(args)->V


def subst(v, mp, _memo=None):
    """mp: {atom: V}.  Rebuilds normal forms."""
    if _memo is None:
        _memo = {}
    ids = frozenset(a.id for a in mp)
    return _subst(v, mp, ids, _memo)


def _subst(v, mp, ids, memo):
    if not (deps(v) & ids):
        return v
    r = memo.get(v.uid)
    if r is not None:
        return r
    if isinstance(v, Poly):
        r = ZERO
        for m, c in v.key:
            t = const(c)
            for i, e in m:
                av = _subst_atom(_atom_list[i], mp, ids, memo)
                t = mul(t, power(av, const(e)))
            r = add(r, t)
    elif isinstance(v, Ite):
        c = _subst_atom(v.c, mp, ids, memo)
        r = ite(c, _subst(v.hi, mp, ids, memo), _subst(v.lo, mp, ids, memo))
    elif isinstance(v, StrL):
        parts = [(_subst(p, mp, ids, memo) if isinstance(p, V) else
                  tuple(_subst(q, mp, ids, memo) if isinstance(q, V) else q for q in p) if isinstance(p, tuple) else p)
                 for p in v.key]
        r = strl_v(parts)
    else:
        r = v
    memo[v.uid] = r
    return r


def strl_v(parts):
    """parts: str | V | tuple; distributes gates inside V parts"""
    r = strl("")
    for p in parts:
        if isinstance(p, V):
            r = add_str(r, p)
        else:
            r = apply1(("sapp", p), lambda x, p=p: strl(x, (p,)), r)
    return r


def add_str(a, b):
    return apply2("sadd", lambda x, y: strl(x, y if isinstance(y, StrL) else (y,)), a, b)


def _subst_arg(a, mp, ids, memo):
    if isinstance(a, V):
        return _subst(a, mp, ids, memo)
    if isinstance(a, Atom):
        return a
    if isinstance(a, tuple):
        return tuple(_subst_arg(x, mp, ids, memo) for x in a)
    return a


def _subst_atom(a, mp, ids, memo):
    if a in mp:
        return mp[a]
    if not (deps(a) & ids):
        return of_atom(a) if a.op not in COND_OPS else condv(a)
    args = tuple(_subst_arg(x, mp, ids, memo) for x in a.args)
    return rebuild(a.op, args)


COND_OPS = {"le", "eq", "opq"}


def rebuild(op, args):
    if op == "le":
        return apply1("le0", lambda x: le0(num(x)), args[0])
    if op == "eq":
        return apply1("eq0", lambda x: eq0(num(x)), args[0])
    if op == "opq":
        if args[0] == "eq":
            return eq(args[1], args[2])
        if args[0] == "le":
            return le(args[1], args[2])
        if args[0] == "lt":
            return lt(args[1], args[2])
        return condv(atom(op, *args))
    if op == "sqrt":
        return sqrt(args[0])
    if op == "exp":
        return exp(args[0])
    if op == "pol":
        return args[0]
    if op == "floor":
        return floor_(args[0])
    if op == "mod":
        return mod(args[0], args[1])
    if op == "ind":
        return ite(args[0], ONE, ZERO)
    if op == "app":
        name = args[0]
        if name == "pow":
            return power(args[1], args[2])
        if name == "legendre":
            return legendre(args[1], args[2])
        f = REBUILD.get(name)
        if f:
            return f(*args[1:])
        if all(isinstance(x, V) for x in args[1:]) and len(args) > 1:
            return func(name, *args[1:])
        return app(*args)
    f = REBUILD.get(op)
    if f:
        return f(*args)
    # generic: distribute gates of V args
    return _gen(op, args)


def _gen(op, args):
    for k, x in enumerate(args):
        if isinstance(x, Ite):
            hi = _gen(op, args[:k] + (x.hi,) + args[k + 1:])
            lo = _gen(op, args[:k] + (x.lo,) + args[k + 1:])
            return ite(condv(x.c), hi, lo)
    return of_atom(atom(op, *args))


def legendre(n, z):
    """P_n(z) with small constant n expanded and P_n(-z) = (-1)^n P_n(z)"""
    def f(n, z):
        n, z = num(n), num(z)
        if is_const(n) and const_val(n).denominator == 1 and 0 <= const_val(n) <= 20:
            k = int(const_val(n))
            p0, p1 = ONE, z
            if k == 0:
                return ONE
            for m in range(1, k):
                p0, p1 = p1, p_scale(p_add(p_scale(p_mul(z, p1), Fr(2 * m + 1)), p_scale(p0, Fr(-m))), Fr(1, m + 1))
            return p1
        return app("legendre", n, z)
    return apply2("legendre", f, n, z)


# ---------------------------------------------------------------- finite sums

def _ind_poly(v):
    """V (numeric diagram) -> Poly with indicator atoms (canonical multilinear)"""
    if not isinstance(v, Ite):
        return num(v)
    i = of_atom(atom("ind", condv(v.c)))
    h, l = _ind_poly(v.hi), _ind_poly(v.lo)
    return p_add(l, p_mul(i, p_add(h, p_scale(l, Fr(-1)))))


def _split_gates(v, aid, f):
    """pull gates not depending on atom aid out; f applied on the rest"""
    if isinstance(v, Ite) and aid not in deps(v.c):
        return ite(condv(v.c), _split_gates(v.hi, aid, f), _split_gates(v.lo, aid, f))
    if isinstance(v, Ite):
        # look deeper for independent gates
        for c in _gates(v):
            if aid not in deps(c):
                hi, lo = restrict(v, c, True), restrict(v, c, False)
                return ite(condv(c), _split_gates(hi, aid, f), _split_gates(lo, aid, f))
    return f(v)


def _gates(v, acc=None):
    if acc is None:
        acc = {}
    if isinstance(v, Ite) and v.uid not in acc:
        acc[v.uid] = v.c
        _gates(v.hi, acc)
        _gates(v.lo, acc)
    out = []
    for c in acc.values():
        if c not in out:
            out.append(c)
    return out


def restrict(v, c, b):
    if not isinstance(v, Ite):
        return v
    if v.c is c:
        return restrict(v.hi if b else v.lo, c, b)
    return ite(condv(v.c), restrict(v.hi, c, b), restrict(v.lo, c, b))


def sum_(var, lo, hi, body):
    """Sum_{var=lo}^{hi-1} body; var: isym value"""
    va = single_atom(var)
    for b in (lo, hi):
        if isinstance(b, Ite):
            c = condv(b.c)
            return ite(c, sum_(var, _cof(lo, b.c, True), _cof(hi, b.c, True), body),
                       sum_(var, _cof(lo, b.c, False), _cof(hi, b.c, False), body))
    if is_const(lo) and is_const(hi) and const_val(hi) - const_val(lo) <= 4:
        r = ZERO
        k = const_val(lo)
        while k < const_val(hi):
            r = add(r, subst(body, {va: const(k)}))
            k += 1
        return r

    def leaf(v):
        p = _ind_poly(v) if isinstance(v, Ite) else num(v)
        res = ZERO
        for m, c in p.key:
            ind, dep = {}, {}
            for i, e in m:
                (dep if va.id in deps(_atom_list[i]) else ind)[i] = e
            outer = p_scale(_mono_norm(ind), c)
            if not dep:
                res = add(res, p_mul(outer, p_add(hi, p_scale(lo, Fr(-1)))))
                continue
            # delta rule: ind(eq(var - k)) with unit coefficient
            done = False
            for i, e in dep.items():
                a = _atom_list[i]
                if a.op == "ind" and isinstance(a.args[0], Ite) and a.args[0].c.op == "eq" and a.args[0].hi is TRUE and a.args[0].lo is FALSE:
                    sol = solve_linear(a.args[0].c.args[0], va)
                    if sol is not None and all_int(sol):
                        rest = dict(dep)
                        del rest[i]
                        b = subst(_mono_norm(rest), {va: sol})
                        inr = and_(le(lo, sol), lt(sol, hi))
                        res = add(res, mul(outer, ite(inr, b, ZERO)))
                        done = True
                        break
            if done:
                continue
            res = add(res, mul(outer, _mk_sum([(va, lo, hi)], dep)))
        return res
    return _split_gates(body, va.id, leaf)


def solve_linear(p, a):
    """solve p == 0 for atom a, coefficient +-1*const; None otherwise"""
    coef = None
    rest = {}
    for m, c in p.key:
        ids = [i for i, e in m]
        if any(a.id in deps(_atom_list[i]) for i in ids):
            if m == ((a.id, 1),):
                coef = c
            else:
                return None
        else:
            rest[m] = c
    if coef is None:
        return None
    return p_scale(_mkpoly(rest), Fr(-1) / coef)


def _mk_sum(binders, dep):
    """dep: exponent dict of a monomial; flatten nested sums (power 1)"""
    dep = dict(dep)
    binders = list(binders)
    bound_ids = {b[0].id for b in binders}
    changed = True
    factor = ONE
    while changed:
        changed = False
        for i, e in list(dep.items()):
            a = _atom_list[i]
            if a.op == "sum" and e == 1 and (deps(a) & bound_ids):
                # open inner sum with fresh bound vars
                inner_b, mono = a.args
                mp = {}
                nb = []
                for (bv, l, h) in inner_b:
                    fresh = atom("isym", ("bvf", next(_fresh)))
                    mp[bv] = of_atom(fresh)
                    nb.append((fresh, l, h))
                nb = [(v, subst(l, mp), subst(h, mp)) for v, l, h in nb]
                body = subst(mono, mp)
                del dep[i]
                ok = isinstance(body, Poly) and len(body.key) == 1
                if not ok:
                    dep[i] = e
                    continue
                (m, c), = body.key
                factor = p_scale(factor, c)
                for j, x in m:
                    dep[j] = dep.get(j, 0) + x
                binders += nb
                bound_ids |= {b[0].id for b in nb}
                changed = True
                break
    body = _mono_norm(dep)
    # canonicalise binder order/names: try all permutations (<= 5 binders)
    best = None
    n = len(binders)
    perms = itertools.permutations(range(n)) if n <= 4 else [tuple(range(n))]
    for perm in perms:
        mp = {}
        for pos, k in enumerate(perm):
            mp[binders[k][0]] = of_atom(atom("isym", ("bv", pos, n)))
        bl = []
        for pos, k in enumerate(perm):
            bl.append((single_atom(mp[binders[k][0]]), subst(binders[k][1], mp), subst(binders[k][2], mp)))
        b = subst(body, mp)
        key = (tuple((l.uid, h.uid) for _, l, h in bl), b.uid)
        if best is None or key < best[0]:
            best = (key, tuple(bl), b)
    return p_mul(factor, of_atom(atom("sum", best[1], best[2])))


_fresh = itertools.count()


def fresh_isym(tag="k"):
    return of_atom(atom("isym", (tag, next(_fresh))))


def _rebuild_sum(binders, mono):
    # re-open and re-sum after substitution (bounds/bodies may have changed)
    v = mono
    mp = {}
    fr = []
    for (bv, l, h) in binders:
        f = fresh_isym("bvs")
        mp[bv] = f
        fr.append((f, l, h))
    v = subst(v, mp)
    for f, l, h in reversed(fr):
        v = sum_(f, subst(l, mp), subst(h, mp), v)
    return v


REBUILD["sum"] = _rebuild_sum


# ---------------------------------------------------------------- derivative

def diff(v, a):
    """d v / d a  (a: Atom); gates are differentiated piecewise"""
    if isinstance(v, Ite):
        return ite(condv(v.c), diff(v.hi, a), diff(v.lo, a))
    v = num(v)
    res = ZERO
    for m, c in v.key:
        for k, (i, e) in enumerate(m):
            da = _diff_atom(_atom_list[i], a)
            if da is ZERO:
                continue
            d = dict(m)
            d[i] -= 1
            rest = p_scale(_mono_norm(d), c * e)
            res = add(res, mul(rest, da))
    return res


def _diff_atom(x, a):
    if x is a:
        return ONE
    if a.id not in deps(x):
        return ZERO
    if x.op == "exp":
        return mul(of_atom(x), diff(x.args[0], a))
    if x.op == "sqrt":
        return div(diff(x.args[0], a), mul(const(2), of_atom(x)))
    if x.op == "pol":
        return diff(x.args[0], a)
    if x.op == "app":
        n = x.args[0]
        if n == "erf":
            u = x.args[1]
            return mul(mul(const(2), inv(sqrt(of_atom(atom("sym", "pi"))))),
                       mul(exp(neg(mul(u, u))), diff(u, a)))
        if n == "expi":
            u = x.args[1]
            return mul(div(exp(u), u), diff(u, a))
        if n == "log":
            u = x.args[1]
            return div(diff(u, a), u)
        return mul(app("d", x.args[0], *x.args[1:]), app("dchain", of_atom(a)))
    if x.op == "sum":
        b, mono = x.args
        d = diff(mono, a)
        return _rebuild_sum(b, d)
    return app("d", of_atom(x), of_atom(a))


# ---------------------------------------------------------------- printing

def show_atom(a, depth=0):
    if depth > 12:
        return "..."
    if a.op in ("sym", "isym"):
        n = a.args[0]
        if isinstance(n, tuple):
            n = "_".join(str(x) for x in n)
        if len(a.args) > 1:
            return "%s[%s]" % (n, ",".join(_sa(x, depth + 1) for x in a.args[1:]))
        return str(n)
    if a.op == "app":
        return "%s(%s)" % (a.args[0], ", ".join(_sa(x, depth + 1) for x in a.args[1:]))
    if a.op == "sum":
        return "Sum{%s}(%s)" % (", ".join("%s=%s..%s" % (show_atom(v), show(l, depth + 1), show(h, depth + 1)) for v, l, h in a.args[0]), show(a.args[1], depth + 1))
    if a.op == "le":
        return "(%s <= 0)" % show(a.args[0], depth + 1)
    if a.op == "eq":
        return "(%s == 0)" % show(a.args[0], depth + 1)
    if a.op == "pol":
        return "(%s)" % show(a.args[0], depth + 1)
    return "%s(%s)" % (a.op, ", ".join(_sa(x, depth + 1) for x in a.args))


def _sa(x, depth):
    if isinstance(x, V):
        return show(x, depth)
    if isinstance(x, Atom):
        return show_atom(x, depth)
    if isinstance(x, tuple):
        return "<" + ",".join(_sa(y, depth) for y in x) + ">"
    return str(x)


def show(v, depth=0):
    if depth > 14:
        return "..."
    if isinstance(v, Poly):
        if v.key == ():
            return "0"
        out = []
        for m, c in v.key:
            t = []
            if c != 1 or not m:
                t.append(str(c))
            for i, e in m:
                s = show_atom(_atom_list[i], depth + 1)
                t.append(s if e == 1 else "%s^%d" % (s, e))
            out.append("*".join(t))
        return " + ".join(out)
    if isinstance(v, BoolL):
        return str(v.key)
    if isinstance(v, NoneL):
        return "None"
    if isinstance(v, RefL):
        return "&%s" % (v.key,)
    if isinstance(v, StrL):
        return "'" + "".join(p if isinstance(p, str) else "{%s}" % _sa(p, depth + 1) for p in v.key) + "'"
    if isinstance(v, Ite):
        return "[%s ? %s : %s]" % (show_atom(v.c, depth + 1), show(v.hi, depth + 1), show(v.lo, depth + 1))
    return object.__repr__(v)
