"""Oracles and anchors shared by the checks."""
import itertools
import random
import numpy as onp
from fractions import Fraction as Fr
from sa import terms as T
from sa import compare as C
from sa.check import Definite
from sa.interp import Undecided, Raised, Arr, Gated, Anchor, loc

PI = T.sym("pi")
Z = T.sym("zvar")
SQ2 = T.sqrt(T.const(2))


def cheb(n, z=Z):
    p0, p1 = T.ONE, z
    if n == 0:
        return p0
    for _ in range(1, n):
        p0, p1 = p1, 2 * z * p1 - p0
    return p1


def legendre(n, z=Z):
    return T.legendre(T.const(n), z)


def ddz(p, v=Z):
    return T.diff(p, T.single_atom(v))


def int_z(p, v=Z):
    """integral over [-1,1] of a polynomial in v"""
    a = T.single_atom(v)
    r = T.ZERO
    for m, c in p.key:
        d = dict(m)
        k = d.pop(a.id, 0)
        if k % 2 == 0:
            r = r + T.p_scale(T._mono_norm(d), c * Fr(2, k + 1))
    return r


def Bcheb(n, z, h):
    c = T.ONE if n == 0 else SQ2
    return c * cheb(n, z) / T.sqrt(PI * h)


def Bleg(n, z, h):
    return T.sqrt(T.const(2 * n + 1)) / T.sqrt(h) * legendre(n, z)


def where(f):
    n = getattr(f, "node", None)
    nm = getattr(f, "name", "?")
    if n is None and hasattr(f, "func"):
        return where(f.func)
    return "%s %s" % (loc(n) if n is not None else "?", nm)


def run(ctx, I, f, *args, **kw):
    """call; a path on which the code necessarily crashes is definite"""
    n0 = len(I.oob)
    try:
        r = I.run(f, *args, **kw)
    except Raised as e:
        raise Definite("every path raises in %s" % e, where(f))
    ctx.analysed |= I.analysed
    return r


def geom(I, name):
    return I.to_val({"slab": name == "slab", "sphere": name == "sphere"})


def cells(I, v):
    if isinstance(v, Arr):
        return list(I.cells(v).reshape(-1))
    if isinstance(v, T.V):
        return [v]
    return [I.scalar(x) if not isinstance(x, Arr) else x for x in I.iterate(v)]


def cell(edges_names="e", n=1):
    pass


def edges(I, n, name="e", start=None, free=None):
    """n cells: symbolic left end and positive widths (with `free`, the widths of the other cells are plain numbers)"""
    e = [T.sym(name + "0") if start is None else start]
    hs = [T.possym(name + "h", T.const(k)) if free is None or k in free else T.const(1 + k % 3) for k in range(n)]
    for k in range(n):
        e.append(e[-1] + hs[k])
    return e, hs


# ---------------------------------------------------------------- wiring
TYPES = ("plane", "square", "square_source", "gaussian", "mms", "gaussian_source")


def srctype(I, *on, extra=None, n=6):
    v = [0] * n
    for k in on:
        v[k] = 1
    if extra:
        for k, x in extra.items():
            v[k] = x
    return I.arr_of([T.lift(x) for x in v])


OPAC = ("constant", "gaussian", "siewert1", "siewert2", "siewert", "fake_sedov", "f_sedov", "linear")


def opac(I, name="constant"):
    return I.to_val({k: int(k == name) for k in OPAC})


def couple(I, name="none"):
    return I.to_val({"none": int(name == "none"), "rad_transfer": int(name != "none"), "const_cv": int(name != "none")})


def params(I, **kw):
    """symbolic value for every parameter of the problem container"""
    d = dict(N_ang=2, N_space=2, M=1, Msigma=1)
    d.update(kw)
    nq = d.pop("nq", 3)
    nt = d.pop("nt", 2)
    base = dict(
        tfinal=T.possym("tfinal"), x0=T.possym("x0"), t0=T.possym("t0"),
        mus=I.vec("mu", d["N_ang"]), ws=I.vec("w", d["N_ang"], pos=True),
        xs_quad=I.vec("xq", nq), ws_quad=I.vec("wq", nq, pos=True),
        t_quad=I.vec("tq", nt), t_ws=I.vec("tw", nt, pos=True),
        sigma_t=T.possym("sigma_t"), sigma_s=T.sym("sigma_s"), source_type=srctype(I),
        uncollided=0, moving=0, move_type=I.to_val([1, 0, 0, 0]), thermal_couple=couple(I), temp_function=I.to_val([0, 1]),
        e_initial=T.sym("e_init"), e_init=T.sym("e_init"), sigma=T.possym("sigma"), particle_v=T.ONE, edge_v=T.possym("edge_v"), cv0=T.possym("cv0"),
        thick=0, wave_loc_array=I.tensor("wl", (4, 1, 3)), source_strength=T.sym("A0"), move_factor=T.possym("mf"), l=T.possym("lsc"),
        save_wave_loc=0, pad=T.possym("pad"), leader_pad=T.possym("lpad"), quad_thick_source=I.vec("qts", max(2, d["N_space"] // 2 + 1)),
        quad_thick_edge=I.vec("qte", max(2, d["N_space"] // 4 + 1)), boundary_on=I.to_val([0, 0]), boundary_source_strength=T.sym("bss"),
        boundary_source=0, sigma_func=opac(I), finite_domain=0, domain_width=T.possym("width"), fake_sedov_v0=T.sym("v0sed"),
        test_dimensional_rhs=0, epsilon=T.possym("eps"), geometry=geom(I, "slab"))
    base.update(d)
    return {k: I.to_val(v) for k, v in base.items()}


def used_by_solver(I, name):
    """module from which the time-stepping driver imports name"""
    m = I.repo.find("solve")
    imp = m.imports.get(name) if m else None
    return imp[1] if imp and imp[0] == "from" else None


# meaning of the constructor parameters, in their order, should one be renamed
SIGNATURES = {
    "G_L": "build Mass_denom J_denom G_denom L_denom VV_denom Mass_coeff_even Mass_coeff_odd J_coeff G_coeff L_coeff_even L_coeff_odd VV_coeff_even VV_coeff_odd",
    "IC_func": "source_type uncollided x0 source_strength sigma x1 geometry",
    "build": "N_ang N_space M tfinal x0 t0 mus ws xs_quad ws_quad sigma_t sigma_s source_type uncollided moving move_type t_quad t_ws thermal_couple temp_function "
             "e_initial sigma particle_v edge_v cv0 thick wave_loc_array source_strength move_factor l save_wave_loc pad leader_pad quad_thick_source quad_thick_edge "
             "boundary_on boundary_source_strength boundary_source sigma_func Msigma finite_domain domain_width fake_sedov_v0 test_dimensional_rhs epsilon geometry",
    "make_output": "t N_ang ws xs u M edges uncollided geometry",
    "mesh_class": "N_space x0 tfinal moving move_type source_type edge_v thick move_factor wave_loc_array pad leader_pad thick_quad thick_quad_edge finite_domain "
                  "domain_width fake_sedov_v boundary_on t0 geometry",
}
ALIAS = {"thick_quad": "quad_thick_source", "thick_quad_edge": "quad_thick_edge", "fake_sedov_v": "fake_sedov_v0"}


def construct(ctx, I, clsname, P, prefer=None):
    """run the constructor of clsname with its parameters taken by name from P"""
    P = dict({a: P[b] for a, b in ALIAS.items() if b in P}, **P)
    c = I.func(clsname, prefer or used_by_solver(I, clsname))
    init = I.class_member(c, "__init__")
    a = init.node.args
    names = [p.arg for p in a.posonlyargs + a.args][1:]
    nd = len(a.defaults)
    args = []
    base = SIGNATURES.get(clsname, "build").split()
    for k, n in enumerate(names):
        if n not in P and len(base) == len(names) and base[k] in P and base[k] not in names:
            args.append(P[base[k]])
        elif n in P:
            args.append(P[n])
        elif k >= len(names) - nd:
            break
        else:
            raise Anchor("%s.__init__ has an unknown parameter %r" % (clsname, n))
    return run(ctx, I, c, *args)


def mkbuild(ctx, I, **kw):
    P = params(I, **kw)
    b = construct(ctx, I, "build", P)
    return b, P


# ---------------------------------------------------------------- read-only hierarchical files
def h5node(I, tree, prefix=""):
    """tree: {path: value}; a node answers node[path]"""
    from sa.interp import Builtin, const_str

    def get(I, a, kw):
        p = const_str(a[0])
        if p is None:
            raise Undecided("symbolic dataset path")
        full = p.strip("/") if p.startswith("/") else (prefix + "/" + p).strip("/")
        if full in tree:
            return tree[full]
        if any(k.startswith(full + "/") for k in tree):
            return h5node(I, tree, full)
        I.raises.append((I.abs_pc(), "KeyError", I.node))
        I.missing = getattr(I, "missing", []) + [full]
        raise Raised("KeyError %s" % full)
    return I.new_obj({"__getitem__": Builtin("get", get)})


def beyond(ctx, default, *names, cap=66):
    """a size above every whole number the code of these modules compares a value with, slices at or counts to: a case distinction on the
    number of cells, angles or orders is on one side for the small sizes and on the other for this one"""
    import ast
    top = default
    for m in ctx.repo.modules.values():
        if not any(m.path.endswith(n) for n in names):
            continue
        for n in ast.walk(m.tree):
            ks = []
            if isinstance(n, ast.Compare):
                ks = [n.left] + n.comparators
                ks = [e for k in ks for e in (k.elts if isinstance(k, (ast.Tuple, ast.List, ast.Set)) else [k])]
            elif isinstance(n, ast.Slice):
                ks = [n.lower, n.upper]
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("range", "min", "max"):
                ks = n.args
            for k in ks:
                if isinstance(k, ast.Constant) and type(k.value) is int and top <= k.value + 2 <= cap:
                    top = k.value + 2
    return top + top % 2


def some(n):
    """the cells of a large mesh whose widths stay symbolic"""
    return {0, 1, n // 2, n - 1} if n > 8 else None


RHS_CODE = ("rhs_class_1.py", "matrices.py", "numerical_flux.py", "phi_class.py", "opacity.py", "sources.py", "radiative_transfer.py")


def pairwise(factors, ok=lambda c: True):
    """configurations (dictionaries) in which every allowed combination of values of any two factors occurs. Deterministic."""
    names = list(factors)
    pairs = list(itertools.combinations(names, 2))
    allowed = [c for c in (dict(zip(names, v)) for v in itertools.product(*factors.values())) if ok(c)]
    where_ = {}
    for k, c in enumerate(allowed):
        for p in pairs:
            where_.setdefault((p, repr(c[p[0]]), repr(c[p[1]])), []).append(k)
    rnd, out, need = random.Random(7), [], set(where_)
    while need:
        first = min(need, key=lambda x: (len(where_[x]), repr(x)))
        cand = where_[first]
        cand = cand if len(cand) <= 60 else rnd.sample(cand, 60)
        sets = [(len(need & {(p, repr(allowed[k][p[0]]), repr(allowed[k][p[1]])) for p in pairs}), -k) for k in cand]
        c = allowed[-max(sets)[1]]
        need -= {(p, repr(c[p[0]]), repr(c[p[1]])) for p in pairs}
        out.append(c)
    return out


def order(ctx, default, *names):
    """an expansion order above every whole number the code of these modules distinguishes (bounded: the cost grows with it)"""
    return beyond(ctx, default, *names, cap=18)
