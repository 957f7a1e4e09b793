"""Results do not depend on the history of an object (C05).

State of an object: what its attributes hold beyond what they hold after construction,
one item per attribute, per key for dictionaries.  V is the content of each item, as
written by the first call that creates it on a new object.

 states.*   For every call f, on an object in each of the states made of a subset of V:
            the result is that of a new object, the items afterwards hold V, and the
            parameters are unchanged.  By induction over the history, all reachable
            states are subsets of V and all results are those of new objects.
 traced.*   For every call h inside each transformation: f afterwards returns what it
            does on a new object.
 within.*   The same for f inside a transformation, after each h outside of it.
"""
import copy
import itertools

from .common import *
from .kernels import AnyPz, AnyNz, AnyBias
import jax_cosmo.bias as jbias
import jax_cosmo.probes as probes
import jax_cosmo.redshift as rds


def item_leaves(x):
    return [jnp.asarray(v) for v in jax.tree_util.tree_leaves(x)]


def items(o, new):
    """Items of the state, compared to the attributes `new` of a new object."""
    out = {}
    for k, v in vars(o).items():
        b = new.get(k, None)
        if isinstance(v, dict):
            for kk, vv in v.items():
                if not isinstance(b, dict) or kk not in b:
                    out[k, kk] = vv
        elif k not in new or (v is not b and not isinstance(v, (list, tuple))):
            out[k, None] = v
    return out


def attributes(o):
    return {k: dict(v) if isinstance(v, dict) else v for k, v in vars(o).items()}


def install(o, state):
    for (k, kk), v in state.items():
        if kk is None:
            setattr(o, k, v)
        else:
            getattr(o, k)[kk] = v


def contents(make, calls):
    """V: what each call writes on a new object."""
    V = {}
    for f in calls.values():
        o = make()
        new = attributes(o)
        f(o)
        for k, v in items(o, new).items():
            V.setdefault(k, v)
    return V


def subsets(keys):
    keys = sorted(keys, key=str)
    if len(keys) <= 5:
        return [w for n in range(len(keys) + 1) for w in itertools.combinations(keys, n)]
    few = [w for n in (0, 1, 2) for w in itertools.combinations(keys, n)]
    return few + [tuple(k for k in keys if k != x) for x in keys] + [tuple(keys)]


def flat(r):
    return [jnp.asarray(x) * 1.0 for x in jax.tree_util.tree_leaves(r)]


TRANSFORMS = {
    "jit": lambda f: jax.jit(lambda t: [x + 0.0 * t for x in flat(f())])(0.0),
    "vmap": lambda f: [x[0] for x in jax.vmap(lambda t: [x + 0.0 * t for x in flat(f())])(jnp.zeros(2))],
    "grad": lambda f: jax.value_and_grad(lambda t: (sum(jnp.sum(x) for x in flat(f())) * t, flat(f())), has_aux=True)(1.0)[0][1],
    "checkpoint": lambda f: jax.checkpoint(lambda t: [x + 0.0 * t for x in flat(f())])(0.0),
    "map": lambda f: [x[0] for x in jax.lax.map(lambda t: [x + 0.0 * t for x in flat(f())], jnp.zeros(1))],
    "jit_of_jit": lambda f: jax.jit(lambda t: jax.jit(lambda u: [x + 0.0 * u for x in flat(f())])(t))(0.0),
    "jit_of_grad": lambda f: jax.jit(lambda t: jax.value_and_grad(lambda u: (u, flat(f())), has_aux=True)(t)[0][1])(0.0),
}


def kept(make, read, f, V):
    """f in all the states: results, differences of the items from V, parameters."""
    out = []
    for w in subsets(V):
        o = make()
        new = attributes(o)
        p0 = read(o)
        install(o, {k: V[k] for k in w})
        out.append(flat(f(o)))
        after = items(o, new)
        for k in sorted(after, key=str):
            assert k in V, "an item %s that no call writes on a new object" % (k,)
        for k in sorted(V, key=str):
            for a, b in zip(item_leaves(after.get(k, V[k])), item_leaves(V[k]), strict=True):
                assert a.shape == b.shape, (k, a.shape, b.shape)
                out.append(a - b)
        out.append([x - y for x, y in zip(flat(read(o)), flat(p0), strict=True)])
    return out


def fresh(make, read, f, V):
    out = []
    r = flat(f(make()))
    for _ in subsets(V):
        out.append(r)
        for k in sorted(V, key=str):
            for b in item_leaves(V[k]):
                out.append(jnp.zeros(b.shape))
        out.append([jnp.zeros(x.shape) for x in flat(read(make()))])
    return out


A = onp.array([0.3, 0.85])
B, B2 = onp.array([0.4, 0.75]), onp.array([0.2, 0.6, 0.9])
K2 = onp.array([0.03, 0.5])


def other_transfer():
    """Another transfer function of the same name."""
    def user_transfer(c, k, shape=0.0):
        return SP.user_transfer(c, k, shape + 0.7)
    return user_transfer


A2 = onp.array([0.25, 0.5, 1.0])
K = onp.array([0.02, 0.4])


def cosmology_calls():
    b = bkgrd
    nz = lambda: AnyNz(0.7, zmax=2.0)
    return {
        "chi": lambda c: b.radial_comoving_distance(c, A),
        "chi.amin": lambda c: b.radial_comoving_distance(c, A2, log10_amin=-2),
        "chi.steps": lambda c: b.radial_comoving_distance(c, A, steps=64),
        "chi.both": lambda c: b.radial_comoving_distance(c, A, -2.0, 64),
        "a_of_chi": lambda c: b.a_of_chi(c, onp.array([500.0, 1500.0])),
        "fk": lambda c: b.transverse_comoving_distance(c, A2),
        "d_A": lambda c: b.angular_diameter_distance(c, A),
        "growth_factor": lambda c: b.growth_factor(c, A2),
        "growth_rate": lambda c: b.growth_rate(c, A),
        "rates": lambda c: (b.w(c, A), b.f_de(c, A), b.Esqr(c, A), b.H(c, A), b.Omega_m_a(c, A), b.Omega_de_a(c, A), b.dchioverda(c, A)),
        "transfer": lambda c: jax_cosmo.transfer.Eisenstein_Hu(c, K),
        "primordial": lambda c: power.primordial_matter_power(c, K),
        "linear": lambda c: power.linear_matter_power(c, K, 0.6, transfer_fn=SP.user_transfer),
        "nonlinear": lambda c: power.nonlinear_matter_power(c, K, A, SP.user_transfer, power.linear),
        # the same quantities for other arguments of the same shape, and with other options
        "chi.other": lambda c: b.radial_comoving_distance(c, B),
        "a_of_chi.other": lambda c: b.a_of_chi(c, onp.array([700.0, 900.0])),
        "fk.other": lambda c: b.transverse_comoving_distance(c, B2),
        "growth_factor.other": lambda c: b.growth_factor(c, B2),
        "growth_rate.other": lambda c: b.growth_rate(c, B),
        "rates.other": lambda c: (b.w(c, B), b.f_de(c, B), b.Esqr(c, B), b.H(c, B), b.Omega_m_a(c, B), b.Omega_de_a(c, B), b.dchioverda(c, B)),
        "transfer.other": lambda c: jax_cosmo.transfer.Eisenstein_Hu(c, K2, type="eisenhu"),
        "primordial.other": lambda c: power.primordial_matter_power(c, K2),
        "linear.a": lambda c: power.linear_matter_power(c, K, 0.8, transfer_fn=SP.user_transfer),
        "linear.k": lambda c: power.linear_matter_power(c, K2, 0.6, transfer_fn=SP.user_transfer),
        "linear.option": lambda c: power.linear_matter_power(c, K, 0.6, transfer_fn=SP.user_transfer, shape=0.4),
        "linear.range": lambda c: power.sigmasqr(c, 8.0, SP.user_transfer, kmin=1e-3, kmax=10.0),
        "linear.radius": lambda c: power.sigmasqr(c, 4.0, SP.user_transfer),
        "linear.transfer": lambda c: power.linear_matter_power(c, K, 0.6, transfer_fn=other_transfer()),
        "nonlinear.other": lambda c: power.nonlinear_matter_power(c, K2, B, other_transfer(), power.linear),
        "spectra.other": lambda c: jax_cosmo.angular_cl.angular_cl(c, onp.array([70.0]), [Tracer1(0.8)], other_transfer(), SP.user_nonlinear),
        "bias": lambda c: jbias.inverse_growth_linear_bias(1.4)(c, A2),
        "lensing": lambda c: probes.WeakLensing([rds.delta_nz(0.8, zmax=2.0)], None).kernel(c, A, 100.0),
        "counts": lambda c: probes.NumberCounts([nz()], AnyBias(0.5)).kernel(c, A, 100.0),
        "spectra": lambda c: jax_cosmo.angular_cl.angular_cl(c, onp.array([50.0]), [Tracer1(0.5)], SP.user_transfer, SP.user_nonlinear),
    }


class Tracer1:
    """One tracer with an arbitrary kernel."""

    n_tracers, zmax = 1, 2.0

    def __init__(self, t):
        self.t = t

    def kernel(self, cosmo, z, ell):
        return SP.kernel_fn(self.t, cosmo, jnp.atleast_1d(z), ell)[None]


# quick representatives of the others, as earlier and later calls
WRITERS = ("chi", "chi.amin", "chi.steps", "a_of_chi", "fk", "growth_factor", "growth_rate", "linear", "lensing", "spectra")
READERS = ("chi", "chi.steps", "a_of_chi", "growth_factor", "growth_rate")


def cosmology_read(c):
    return [getattr(c, n) for n in ("Omega_c", "Omega_b", "h", "n_s", "sigma8", "Omega_k", "w0", "wa")] + (
        [] if c.gamma is None else [c.gamma])


def group(prop, name, syms, make_of, read, calls, writers, readers, functions, **kw):
    obs = []
    k = dict(rel=1e-9, abs_=1e-12, refute=2, subs=base_subs(), base=list(base_subs()), eager=True, timeout=200, **kw)

    def ob(nm, real, spec, **kk):
        obs.append(Ob("%s.%s.%s" % (prop, name, nm), functions, syms, real, spec, **dict(k, **kk)))

    for fn, f in calls.items():
        ob("states." + fn, lambda *x, f=f: (lambda m: kept(m, read, f, contents(m, calls)))(make_of(*x)),
           lambda *x, f=f: (lambda m: fresh(m, read, f, contents(m, calls)))(make_of(*x)), cost=5)
    for tn, T in TRANSFORMS.items():
        for h in writers:
            def traced(*x, T=T, h=h):
                make = make_of(*x)
                out = []
                for r in readers:
                    o = make()
                    p0 = read(o)
                    T(lambda: calls[h](o))
                    out.append((flat(calls[r](o)), flat(calls[h](o)), [a - b for a, b in zip(flat(read(o)), flat(p0), strict=True)]))
                return out

            def new(*x, h=h):
                make = make_of(*x)
                return [(flat(calls[r](make())), flat(calls[h](make())), [jnp.zeros(v.shape) for v in flat(read(make()))]) for r in readers]
            ob("traced.%s.%s" % (tn, h), traced, new)
        for r in readers:
            def within(*x, T=T, r=r):
                make = make_of(*x)
                out = []
                for h in writers:
                    o = make()
                    calls[h](o)
                    out.append(flat(T(lambda: calls[r](o))))
                return out
            ob("within.%s.%s" % (tn, r), within, lambda *x, r=r: [flat(calls[r](make_of(*x)())) for h in writers])
    return obs


def distributions():
    a, b, z0 = [Sym(n, (), sign="+", sample=ranged(lo, hi)) for n, lo, hi in (("a", 0.5, 3.0), ("b", 0.5, 2.0), ("z0", 0.2, 1.5))]
    th, s = Sym("theta", (), sample=ranged(-1.0, 1.0)), Sym("s", (), sample=ranged(-0.1, 0.1))
    cat, wt = [Sym(n, ("m",), sign="+", sample=ranged(0.1, 2.0)) for n in ("zcat", "wt")]
    return {
        "any": ([th], lambda t: AnyPz(t, zmax=3.0), {}),
        "smail_nz": ([a, b, z0], lambda a, b, z: rds.smail_nz(a, b, z), {}),
        "delta_nz": ([z0], rds.delta_nz, {}),
        "kde_nz": ([cat, wt], lambda c, w: rds.kde_nz(c, w, bw=0.2, zmax=4.0), {"m": 1}),
        "systematic_shift": ([th, s], lambda t, s: rds.systematic_shift(AnyPz(t, zmax=3.0), s, zmax=2.0), {}),
    }


def distribution_calls():
    cosmo = lambda: core.Cosmology(0.25, 0.05, 0.7, 0.96, 0.8, 0.0, -1.0, 0.0)
    return {
        "n(z)": lambda n: n(onp.array([0.3, 1.1])),
        "n(z).other": lambda n: n(onp.array([0.0, 0.5, 2.9])),
        "pz": lambda n: n.pz_fn(onp.array([0.2, 0.9])),
        "shifted": lambda n: rds.systematic_shift(n, 0.05, zmax=2.5)(onp.array([0.3, 1.1])),
        "counts": lambda n: probes.NumberCounts([AnyNz(0.4, zmax=2.0), n], AnyBias(0.5)).kernel(cosmo(), onp.array([0.3]), 100.0)
        if not isinstance(n, rds.delta_nz) else n.gals_per_steradian,
        "noise": lambda n: probes.WeakLensing([n, AnyNz(0.2)]).noise(),
    }


def C05():
    obs = []
    for gm in (False, True):
        s = cosmo_syms(gm)
        obs += group("C05", "cosmology.gamma" if gm else "cosmology", s, lambda *x: lambda: make_cosmo(x), cosmology_read, cosmology_calls(),
                     WRITERS, READERS, ["radial_comoving_distance", "a_of_chi", "transverse_comoving_distance", "growth_factor", "growth_rate",
                                        "Cosmology"])
    dc = distribution_calls()
    for nm, (syms, mk, dims) in distributions().items():
        obs += group("C05", nm, syms, lambda *x, mk=mk: lambda: mk(*x), lambda n: [v for v in jax.tree_util.tree_leaves(n)], dc,
                     ("n(z)", "shifted", "counts"), ("n(z)", "n(z).other", "counts"), ["redshift_distribution.__call__"], dims=dims,
                     sizes={d: 4 for d in dims})
    return obs
