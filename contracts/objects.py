"""Contracts of the parameter objects: flattening (C06), derived parameters and presets (C25)."""
import itertools

from .common import *
from .background import cosmo_ob
from .kernels import AnyNz, AnyBias, kernel_subs
import jax_cosmo.bias as jbias
import jax_cosmo.parameters as parameters
import jax_cosmo.probes as probes
import jax_cosmo.redshift as rds
from jax.tree_util import tree_flatten, tree_leaves, tree_map, tree_structure, tree_unflatten


def any_function(x):
    """An arbitrary elementwise function."""
    return TR.uf("F", jnp.asarray(x) * 1.0) if SP.symbolic() else 1.1 * x + 0.03


def mark(x):
    """An arbitrary function of one leaf, summed over its elements."""
    x = jnp.asarray(x) * 1.0
    v = TR.uf("G", x) if SP.symbolic() else jnp.cos(1.0 + x * 0.7) + 0.1 * x**2
    return jnp.sum(v)


def about(config):
    """The configuration, as part of the structure of what is observed."""
    return {"%s=%r" % (k, config[k]): 0.0 for k in sorted(config)}


def see_cosmology(c):
    names = ("Omega", "Omega_b", "Omega_c", "Omega_m", "Omega_de", "Omega_k", "sqrtk", "h", "w0", "wa", "n_s", "sigma8")
    out = {n: getattr(c, n) for n in names}
    out["gamma"] = c.gamma if c.gamma is not None else "none"
    if c.gamma is None:
        out["gamma"] = {}
    out["E2"] = bkgrd.Esqr(c, jnp.array([0.3, 0.9]))
    return out


Z = onp.array([0.2, 0.9])


def see_nz(nz):
    return {"config": about(nz.config), "class": {type(nz).__name__: 0.0}, "pz": nz.pz_fn(jnp.asarray(Z)), "zmax": nz.zmax, "density": nz.gals_per_arcmin2,
            "steradian": nz.gals_per_steradian, "n(z)": nz(jnp.asarray(Z))}


def see_bias(b):
    cosmo = core.Cosmology(0.25, 0.05, 0.7, 0.96, 0.8, 0.0, -1.0, 0.0)
    return {"config": about(b.config), "class": {type(b).__name__: 0.0}, "b": b(cosmo, jnp.asarray(Z))}


def see_probe(p):
    cosmo = core.Cosmology(0.25, 0.05, 0.7, 0.96, 0.8, 0.0, -1.0, 0.0)
    return {"config": about(p.config), "class": {type(p).__name__: 0.0}, "zmax": p.zmax, "n": p.n_tracers, "noise": p.noise(),
            "kernel": p.kernel(cosmo, jnp.asarray(Z), 100.0)}


def see_spline(s):
    if s.k == 2:
        # evaluation after rebuilding: C20.quadratic...rebuilt
        return {"k": s.k, "leaves": tree_leaves(s)}
    q = jnp.array([0.31, 1.7, 9.5])
    return {"k": s.k, "s": s(q), "d": s.derivative(q), "a": s.antiderivative(q)}


class Config:
    def __init__(self, name, syms, make, see, dims=None, subs=None, ex=None):
        self.name, self.syms, self.make, self.see, self.dims, self.subs = name, syms, make, see, dims or {}, subs or {}


def val(n, lo=0.2, hi=1.5, shape=()):
    return Sym(n, shape, sign="+", sample=ranged(lo, hi))


def vals(prefix, n, lo=0.2, hi=1.5):
    return [val("%s%d" % (prefix, i), lo, hi) for i in range(n)]


def configs():
    out = []
    names = ("Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa", "gamma")
    out.append(Config("Cosmology", cosmo_syms(), lambda *x: core.Cosmology(*x), see_cosmology))
    out.append(Config("Cosmology.gamma", cosmo_syms(True), lambda *x: core.Cosmology(*x), see_cosmology))
    out.append(Config("Cosmology.keywords", cosmo_syms(True), lambda *x: core.Cosmology(**dict(zip(names, x))), see_cosmology))
    P = parameters.Planck15
    a, b, z0, g = val("a", 0.5, 3.0), val("b", 0.5, 2.0), val("z0"), val("g", 0.5, 30.0)
    out.append(Config("smail_nz", [a, b, z0, g], lambda a, b, z, g: rds.smail_nz(a, b, z, gals_per_arcmin2=g), see_nz))
    out.append(Config("smail_nz.zmax", [a, b, z0, g], lambda a, b, z, g: rds.smail_nz(a, b, z, gals_per_arcmin2=g, zmax=3.0), see_nz))
    out.append(Config("delta_nz", [z0, g], lambda z, g: rds.delta_nz(z, gals_per_arcmin2=g, zmax=4.0), see_nz))
    cat, wt = val("zcat", 0.1, 2.0, ("m",)), val("wt", 0.1, 1.0, ("m",))
    out.append(Config("kde_nz", [cat, wt, g], lambda c, w, g: rds.kde_nz(c, w, bw=0.2, gals_per_arcmin2=g, zmax=5.0), see_nz, {"m": 1}))
    out.append(Config("systematic_shift", [a, b, z0, g, val("s", -0.1, 0.1), val("g2")], lambda a, b, z, g, s, g2: rds.systematic_shift(
        rds.smail_nz(a, b, z, gals_per_arcmin2=g2, zmax=2.0), s, gals_per_arcmin2=g, zmax=6.0), see_nz))
    out.append(Config("systematic_shift.plane", [z0, g, val("s", -0.1, 0.1), val("g2")], lambda z, g, s, g2: rds.systematic_shift(
        rds.delta_nz(z, gals_per_arcmin2=g2), s, gals_per_arcmin2=g), see_nz))
    out.append(Config("constant_linear_bias", [a], jbias.constant_linear_bias, see_bias))
    out.append(Config("inverse_growth_linear_bias", [a], jbias.inverse_growth_linear_bias, see_bias,
                      subs={bkgrd.growth_factor: lambda c, a: SP.D(SP.params(c), a)}))
    out.append(Config("des_y1_ia_bias", [a, b, z0], jbias.des_y1_ia_bias, see_bias))
    # probes: bins (distribution parameter and density), biases, m
    ks = kernel_subs("lens", "count", "nla")
    bins = lambda th, g: [AnyNz(t, gals_per_arcmin2=d, zmax=2.0 + i) for i, (t, d) in enumerate(zip(th, g))]
    for n in (1, 2, 3):
        base = vals("t", n) + vals("g", n, 1.0, 20.0)
        for ia in ("none", "one", "each"):
            nb = {"none": 0, "one": 1, "each": n}[ia]
            for m in ("one", "each"):
                nm = 1 if m == "one" else n
                for se in ("one", "each", "default"):
                    if n == 3 and se == "default" or n == 2 and se == "one" and m == "one":
                        continue

                    def make(*x, n=n, ia=ia, nb=nb, m=m, nm=nm, se=se):
                        kw = {} if se == "default" else {"sigma_e": 0.3 if se == "one" else [0.3 - 0.05 * i for i in range(n)]}
                        bs = [AnyBias(t) for t in x[2 * n:2 * n + nb]]
                        ms = x[2 * n + nb:]
                        return probes.WeakLensing(bins(x[:n], x[n:2 * n]), None if ia == "none" else bs[0] if ia == "one" else bs,
                                                  ms[0] if m == "one" else list(ms), **kw)
                    out.append(Config("WeakLensing.%d.ia_%s.m_%s.sigma_e_%s" % (n, ia, m, se), base + vals("b", nb) + vals("m", nm, -0.1, 0.1), make,
                                      see_probe, subs=ks))
        for bb in ("one", "each"):
            nb = 1 if bb == "one" else n
            for rsd in (False, True):
                def make(*x, n=n, nb=nb, bb=bb, rsd=rsd):
                    bs = [AnyBias(t) for t in x[2 * n:]]
                    return probes.NumberCounts(bins(x[:n], x[n:2 * n]), bs[0] if bb == "one" else bs, **({"has_rsd": True} if rsd else {}))
                out.append(Config("NumberCounts.%d.bias_%s%s" % (n, bb, ".rsd" if rsd else ""), base + vals("b", nb), make, see_probe, subs=ks))
    out.append(Config("WeakLensing.planes", vals("t", 2) + vals("m", 2, -0.1, 0.1) + vals("g", 2), lambda a, b, m, m2, g, g2: probes.WeakLensing(
        [rds.delta_nz(a, gals_per_arcmin2=g), AnyNz(b, gals_per_arcmin2=g2)], multiplicative_bias=[m, m2]), see_probe, subs=ks))
    # splines
    for k, ends in ((1, "not-a-knot"), (2, "not-a-knot"), (3, "not-a-knot"), (3, "natural")):
        nc = {1: "n-1", 2: "n+1", 3: "n"}[k]
        x = Sym("x", ("n",), sample=lambda rng, s: onp.cumsum(rng.uniform(0.2, 1.0, size=s)))
        y, c = Sym("y", ("n",), sample=ranged(-1.0, 1.0)), Sym("c", (nc,), sample=ranged(-1.0, 1.0))
        out.append(Config("spline.%d.%s" % (k, ends), [x, y, c], lambda x, y, c, k=k, ends=ends: interpolate.InterpolatedUnivariateSpline(
            x, y, k=k, endpoints=ends, coefficients=c), see_spline, {"n": 5}))
    return out


def C06():
    obs = []
    for c in configs():
        subs = dict(base_subs())
        subs.update(c.subs)
        uses = {v.provides for v in c.subs.values() if hasattr(v, "provides")}
        opaque = ["lens_bin", "count_bin", "nla_bin", "D"]

        def ob(name, real, spec, c=c, subs=subs, uses=uses, **kw):
            obs.append(Ob("C06.%s.%s" % (c.name, name), [c.name.split(".")[0] + x for x in (".tree_flatten", ".tree_unflatten")], c.syms, real, spec,
                          dims=c.dims, sizes={d: 7 for d in c.dims}, subs=subs, base=list(base_subs()), opaque=opaque, uses=uses, rel=1e-7, refute=6, **kw))

        make, see = c.make, c.see

        def rebuilt(*x, make=make, see=see):
            leaves, tree = tree_flatten(make(*x))
            o = tree_unflatten(tree, leaves)
            leaves2, tree2 = tree_flatten(o)
            assert tree == tree2, "%s becomes %s" % (tree, tree2)
            return see(o)
        ob("rebuilt", rebuilt, lambda *x, make=make, see=see: see(make(*x)))
        ob("mapped", lambda *x, make=make, see=see: see(tree_map(any_function, make(*x))),
           lambda *x, make=make, see=see: see(make(*[any_function(t) for t in x])))
        ob("leaves", lambda *x, make=make: sum(mark(t) for t in tree_leaves(make(*x))), lambda *x: sum(mark(t) for t in x))
        ob("jit", lambda *x, make=make, see=see: jax.jit(see)(make(*x)), lambda *x, make=make, see=see: see(make(*x)))
        obs.append(Ob("C06.%s.any_leaf" % c.name, [c.name.split(".")[0] + ".tree_unflatten"], [], None, None, kind="check",
                      check=lambda seed, tier, c=c: any_leaf(c), bounded="one object; leaves that support no operation, None, batches and shapes"))
    return obs


class Opaque:
    """A leaf on which no operation is defined."""


def any_leaf(c):
    rng = onp.random.default_rng(1)
    xs = []
    for s in c.syms:
        sh = tuple(6 if d == "n" else 5 if d == "n-1" else 7 if d == "n+1" else 3 if isinstance(d, str) else d for d in s.shape)
        xs.append(jnp.asarray(s.sample(rng, sh)))
    o = c.make(*xs)
    tree, n = tree_structure(o), len(xs)
    if tree.num_leaves != n:
        return {"runs": 1, "violation": {"difference": "%d leaves for %d parameters" % (tree.num_leaves, n)}}
    runs = 0

    def bad(what, d):
        return {"runs": runs, "violation": {"leaves": what, "difference": str(d)[:300]}}
    try:
        for what, f in (("opaque objects", lambda x: Opaque()), ("shapes", lambda x: jax.ShapeDtypeStruct(x.shape, x.dtype)), ("strings", lambda x: "a")):
            runs += 1
            leaves = [f(x) for x in xs]
            q = tree_unflatten(tree, leaves)
            back = tree_leaves(q)
            if len(back) != n or any(a is not b for a, b in zip(back, leaves)):
                return bad(what, "the leaves are not kept")
            if tree_structure(q) != tree:
                return bad(what, "%s becomes %s" % (tree, tree_structure(q)))
        runs += 4
        none = tree_map(lambda x: None, o)
        if len(tree_leaves(none)) or tree_structure(none, is_leaf=lambda x: x is None) != tree_structure(tree_map(lambda x: 0, o)):
            return bad("None", tree_structure(none))
        out = jax.eval_shape(lambda o: o, o)
        if tree_structure(out) != tree:
            return bad("eval_shape", tree_structure(out))
        two = tree_map(lambda x: jnp.stack([x, 2.0 * x]), o)
        v = jax.vmap(lambda o: o)(two)
        if tree_structure(v) != tree:
            return bad("vmap", tree_structure(v))
        for a, b in zip(tree_leaves(v), tree_leaves(two)):
            if a.shape != b.shape or not bool((a == b).all()):
                return bad("vmap", "leaves changed")
        g = jax.grad(lambda o: sum(jnp.sum(x * x) for x in tree_leaves(o)))(o)
        for a, b in zip(tree_leaves(g), tree_leaves(o)):
            if not bool((abs(a - 2.0 * b) < 1e-12).all()):
                return bad("gradients", "of the wrong parameter")
    except Exception as e:
        return bad("", "raises %s: %s" % (type(e).__name__, e))
    return {"runs": runs}


# --- derived parameters and presets (C25) ---------------------------------------------------------

FIELDS = ("Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa", "gamma")
# Planck 2015 results XIII, table 4, last column
PLANCK15 = {"Omega_c": 0.2589, "Omega_b": 0.0486, "Omega_k": 0.0, "h": 0.6774, "n_s": 0.9667, "sigma8": 0.8159, "w0": -1.0, "wa": 0.0}


def read(c):
    return tuple(getattr(c, f) for f in FIELDS[:8]) + (() if c.gamma is None else (c.gamma,))


def C25():
    obs = []
    P = parameters.Planck15
    for gm in (False, True):
        s = cosmo_syms(gm)
        t = ".gamma" if gm else ""
        F = FIELDS[:len(s)]

        def derived(c):
            return (c.Omega, c.Omega_m, c.Omega_de, c.sqrtk, c.Omega_m + c.Omega_k + c.Omega_de, c.k)

        def of(p):
            m = p[0] + p[1]
            k = -jnp.sign(p[5])
            return (1.0 - p[5], m, 1.0 - p[5] - m, jnp.sqrt(jnp.abs(p[5])), 1.0, k)
        fn = ["Cosmology.__init__", "Cosmology properties"]
        mk = lambda name, real, spec, fn=fn, s=s: obs.append(Ob("C25." + name, fn, s, real, spec, rel=1e-12, samples=3))
        mk("positional" + t, lambda *x: read(core.Cosmology(*x)), lambda *x: x)
        mk("keywords" + t, lambda *x, F=F: read(core.Cosmology(**dict(zip(F, x)))), lambda *x: x)
        mk("reversed_keywords" + t, lambda *x, F=F: read(core.Cosmology(**dict(list(zip(F, x))[::-1]))), lambda *x: x)
        mk("derived" + t, lambda *x: derived(core.Cosmology(*x)), lambda *x: of(x))
        mk("derived.preset" + t, lambda *x, F=F: derived(P(**dict(zip(F, x)))), lambda *x: of(x))

        def preset(*x, F=F):
            """Every choice of parameters given explicitly, the others left at their documented values."""
            out = []
            for n in range(len(F) + 1):
                for w in itertools.combinations(range(len(F)), n):
                    out.append(read(P(**{F[i]: x[i] for i in w})))
            return tuple(out)

        def documented(*x, F=F):
            out = []
            for n in range(len(F) + 1):
                for w in itertools.combinations(range(len(F)), n):
                    out.append(tuple(x[i] if i in w else PLANCK15[f] for i, f in enumerate(FIELDS[:8])) + (
                        (x[8],) if 8 in w else ()))
            return tuple(out)
        obs.append(Ob("C25.Planck15" + t, ["Planck15"], s, preset, documented, rel=1e-12, timeout=150, cost=20, eager=True))
    obs.append(Ob("C25.gamma.absent", ["Cosmology.gamma"], [], None, None, kind="check", bounded="two constructions",
                  check=lambda seed, tier: absent()))
    return obs


def absent():
    for c in (core.Cosmology(*[0.3] * 8), parameters.Planck15()):
        if c.gamma is not None:
            return {"runs": 2, "violation": {"difference": "gamma is %r without having been given" % (c.gamma,)}}
    return {"runs": 2}
