"""Contracts of jax_cosmo.angular_cl (C14, C15)."""
from .common import *
from .background import cosmo_ob
from .kernels import AnyNz, AnyBias, bins_of, kernel_subs, lens, count, nla, ZMAX
import jax_cosmo.angular_cl as acl
import jax_cosmo.bias as jbias
import jax_cosmo.probes as probes
import jax_cosmo.redshift as rds
import jax_cosmo.transfer as tklib
from jax_cosmo.jax_utils import container
from jax.tree_util import register_pytree_node_class


@register_pytree_node_class
class AnyProbe(container):
    """An arbitrary probe: tracers with arbitrary kernels and noise levels."""

    @property
    def n_tracers(self):
        return len(self.config["order"])

    @property
    def zmax(self):
        return self.config["zmax"] if "zmax" in self.config else self.params[-1]

    def kernel(self, cosmo, z, ell):
        z = jnp.atleast_1d(z)
        return jnp.stack([SP.kernel_fn(t, cosmo, z, ell) for t in self.params[0]])

    def noise(self):
        return jnp.stack([jnp.asarray(t) * 1.0 for t in self.params[0]])


def probes_of(sizes, thetas, zmaxs):
    out, k = [], 0
    for n, zm in zip(sizes, zmaxs):
        out.append(AnyProbe(list(thetas[k:k + n]), zmax=zm, order=tuple(range(n))))
        k += n
    return out


def thetas(n):
    return [Sym("t%d" % i, (), sample=ranged(0.2, 1.5), sign="+") for i in range(n)]


def ells(kind="f", lo=2, n="L"):
    if kind == "i":
        return Sym("ell", (n,), kind="i", sign="+", lo=2, hi=100000, sample=lambda rng, s: onp.sort(rng.integers(2, 3000, size=s)) + 7 * onp.arange(s[0]))
    return Sym("ell", (n,), sign="+", lo=2, sample=lambda rng, s: 2.0 + onp.cumsum(rng.uniform(1.0, 60.0, size=s)))


# halofit of the specification, as an arbitrary function of what it is given
def halofit_contract(c, k, a, transfer_fn, prescription="takahashi2012"):
    if SP.symbolic():
        return TR.uf("halofit:" + prescription, *SP.leaves_of(c), jnp.asarray(k) * 1.0, jnp.asarray(a) * 1.0, transfer_fn(c, SP.kappa()))
    return SP.halofit(SP.params(c) if not isinstance(c, SP.P) else c, k, a, transfer_fn, prescription).reshape(jnp.shape(k))


def nonlinear_contract(cosmo, k, a=1.0, transfer_fn=SP.eh_fn, nonlinear_fn=halofit_contract):
    return nonlinear_fn(cosmo, k, a, transfer_fn)


def cl_subs(extra=()):
    s = {power.nonlinear_matter_power: nonlinear_contract, power.halofit: halofit_contract, tklib.Eisenstein_Hu: SP.eh_fn}
    for d in extra:
        s.update(d)
    return s


SIZES = ((1,), (2,), (3,), (4,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (2, 2), (1, 1, 2))
ZM = {1: [(2.0,)], 2: [(2.0, 3.5), (3.0, 1.5)], 3: [(1.0, 4.0, 2.0), (4.0, 1.0, 2.0), (1.0, 2.0, 3.0)]}


def C14():
    obs = []
    U, N = SP.user_transfer, SP.user_nonlinear
    k = dict(subs=cl_subs(), functions=["angular_cl"], rel=1e-6, enum=16, timeout=150)

    def ob(name, real, spec, syms, dims=None, **kw):
        kk = dict(k, **kw)
        obs.append(cosmo_ob("C14", "angular_cl." + name, real, spec, syms, ["chi", "dchida", "eh"], dims=dims or {"L": 1},
                            sizes={"L": 4}, **kk))

    for sizes in SIZES:
        n = sum(sizes)
        for zm in ZM[len(sizes)]:
            for kind in ("f", "i") if sizes in ((2, 1), (1,)) else ("f",):
                def real(c, *x, sizes=sizes, zm=zm, n=n):
                    return acl.angular_cl(c, x[n], probes_of(sizes, x[:n], zm), transfer_fn=U, nonlinear_fn=N)

                def spec(p, *x, zm=zm, n=n):
                    Ks = [lambda q, z, l, t=t: SP.kernel_fn(t, q, z, l) for t in x[:n]]
                    return SP.limber(p, x[n], Ks, max(zm), lambda q, kk, a: N(q, kk, a, U))
                ob("%s.zmax%s.%s" % ("+".join(map(str, sizes)), ",".join("%g" % z for z in zm), "int" if kind == "i" else "float"),
                   real, spec, thetas(n) + [ells(kind)])
    # any largest redshift
    zmax = Sym("zmax", (), sign="+", sample=ranged(0.5, 6.0))
    ob("any_zmax", lambda c, t, zm, l: acl.angular_cl(c, l, [AnyProbe([t], zm, order=(0,))], U, N),
       lambda p, t, zm, l: SP.limber(p, l, [lambda q, z, l: SP.kernel_fn(t, q, z, l)], zm, lambda q, kk, a: N(q, kk, a, U)),
       thetas(1) + [zmax, ells()])
    # the functions used by default
    ob("default_functions", lambda c, t, l: acl.angular_cl(c, l, probes_of((1,), [t], (2.0,))),
       lambda p, t, l: SP.limber(p, l, [lambda q, z, l: SP.kernel_fn(t, q, z, l)], 2.0,
                                 lambda q, kk, a: halofit_contract(q, kk, a, SP.eh_fn)), thetas(1) + [ells()])
    ob("default_nonlinear", lambda c, t, l: acl.angular_cl(c, l, probes_of((1,), [t], (2.0,)), transfer_fn=U),
       lambda p, t, l: SP.limber(p, l, [lambda q, z, l: SP.kernel_fn(t, q, z, l)], 2.0,
                                 lambda q, kk, a: halofit_contract(q, kk, a, U)), thetas(1) + [ells()])
    ob("linear", lambda c, t, l: acl.angular_cl(c, l, probes_of((1,), [t], (2.0,)), U, power.linear),
       lambda p, t, l: SP.limber(p, l, [lambda q, z, l: SP.kernel_fn(t, q, z, l)], 2.0,
                                 lambda q, kk, a: lin_contract(q, kk, a, U)), thetas(1) + [ells()],
       subs=cl_subs([{power.linear: lin_contract}]))
    # one multipole at a time
    ob("independent", lambda c, t, u, l: acl.angular_cl(c, l, probes_of((1, 1), [t, u], (2.0, 1.0)), U, N),
       lambda p, t, u, l: jax.vmap(lambda x: acl.angular_cl(core.Cosmology(*SP.leaves(p)[:8]), x[None],
                                                            probes_of((1, 1), [t, u], (2.0, 1.0)), U, N)[:, 0], out_axes=1)(l),
       thetas(2) + [ells()])
    # the probes provided
    for pats in (("E",), ("ED", ), ("EE", "c"), ("c", "ED"), ("E", "E"), ("c", "c")):
        ns = [1 if x == "c" else len(x) for x in pats]
        n = sum(ns)

        def build(x, pats=pats):
            out, k = [], 0
            for q, pt in enumerate(pats):
                if pt == "c":
                    out.append(("c", bins_of("E", x[k:k + 1])))
                    k += 1
                else:
                    out.append(("w", bins_of(pt, x[k:k + len(pt)])))
                    k += len(pt)
            return out

        def real(c, *x, n=n, build=build):
            ps = [probes.NumberCounts(b, AnyBias(x[n])) if w == "c" else probes.WeakLensing(b, multiplicative_bias=x[n + 1])
                  for w, b in build(x)]
            return acl.angular_cl(c, x[n + 2], ps, U, N)

        def spec(p, *x, n=n, build=build):
            Ks, zm = [], 0.0
            for w, b in build(x):
                zm = max([zm] + [y.config["zmax"] for y in b])
                for i in range(len(b)):
                    if w == "c":
                        Ks.append(lambda q, z, l, b=b, i=i: count(p, p, b, AnyBias(x[n]), z)[i])
                    else:
                        Ks.append(lambda q, z, l, b=b, i=i: lens(p, b, z, l)[i] * (1.0 + x[n + 1]))
            return SP.limber(p, x[n + 2], Ks, zm, lambda q, kk, a: N(q, kk, a, U))

        obs.append(cosmo_ob("C14", "angular_cl.probes.%s" % "+".join(pats), real, spec,
                            thetas(n) + [Sym("b", (), sample=ranged(0.5, 2.0)), Sym("mb", (), sample=ranged(-0.1, 0.1)), ells()],
                            ["chi", "dchida", "eh", "lens_bin", "count_bin"], dims={"L": 1}, sizes={"L": 3}, rel=1e-6, enum=16, timeout=150,
                            subs=cl_subs([kernel_subs("lens", "count")]),
                            functions=["angular_cl", "WeakLensing.zmax", "WeakLensing.n_tracers", "NumberCounts.zmax", "NumberCounts.n_tracers"]))
    return obs


def lin_contract(c, k, a, transfer_fn):
    if SP.symbolic():
        return TR.uf("linear", *SP.leaves_of(c), jnp.asarray(k) * 1.0, jnp.asarray(a) * 1.0, transfer_fn(c, SP.kappa()))
    return SP.Plin(SP.params(c) if not isinstance(c, SP.P) else c, k, a, transfer_fn).reshape(jnp.shape(k))


# --- noise and covariance (C15) -----------------------------------------------------------------


def pos(n, lo, hi):
    return Sym(n, (), sign="+", sample=ranged(lo, hi))


def plain(name, real, spec, syms, dims=None, **kw):
    kw.setdefault("rel", 1e-9)
    return Ob("C15." + name, kw.pop("functions"), syms, real, spec, dims=dims or {},
              sizes={d: 4 for d in (dims or {})}, **kw)


def spectra_sym(n, name="S"):
    return Sym(name, (n * (n + 1) // 2, "L"), sample=ranged(0.1, 2.0), sign="+")


def total_noise(noise, n_ell):
    """The noise of tracer i in the spectrum (i, i), none elsewhere."""
    return jnp.stack([jnp.ones(n_ell) * (noise[i] if i == j else 0.0) for i, j in SP.pairs(len(noise))])


def entries(M, spectra, ell):
    """Element (i, p, j, q): the one at row i L + p, column j L + q of the dense matrix."""
    n, L = len(spectra), ell.shape[0]
    assert M.shape == (n * L, n * L), M.shape
    return M.reshape((n, L, n, L))


def blocks(C):
    """The same elements of the covariance C[i, j, p], diagonal in the multipole."""
    p = jnp.arange(C.shape[2])
    return jnp.where(p[:, None, None] == p[None, None, :], C.transpose((0, 2, 1))[:, :, :, None], 0.0)


def C15():
    obs = []
    f1 = ["WeakLensing.noise", "redshift_distribution.gals_per_steradian"]
    f2 = ["NumberCounts.noise", "redshift_distribution.gals_per_steradian"]
    KINDS_OF = {
        "nz": lambda i, g: AnyNz(1.0 * i, gals_per_arcmin2=g, zmax=2.0),
        "smail": lambda i, g: rds.smail_nz(1.0, 2.0, 1.0 + i, gals_per_arcmin2=g),
        "plane": lambda i, g: rds.delta_nz(1.0 - 0.1 * i, gals_per_arcmin2=g),
        "kde": lambda i, g: rds.kde_nz(jnp.ones(2), jnp.ones(2), bw=0.1, gals_per_arcmin2=g),
        "shifted": lambda i, g: rds.systematic_shift(AnyNz(1.0), 0.1, gals_per_arcmin2=g),
    }
    mixed = lambda g: [KINDS_OF[k](i, x) for i, (k, x) in enumerate(zip(("nz", "smail", "plane", "kde", "shifted"), g))]
    dens = lambda g: [x * SP.STERADIAN_ARCMIN2 for x in g]
    for n in (1, 2, 3, 4, 5):
        gs = [pos("g%d" % i, 0.5, 30.0) for i in range(n)]
        ss = [pos("s%d" % i, 0.1, 0.5) for i in range(n)]
        s = pos("s", 0.1, 0.5)
        obs += [
            plain("noise.counts.%d" % n, lambda *g: probes.NumberCounts(mixed(g), AnyBias(1.0)).noise(),
                  lambda *g: jnp.stack([1.0 / x for x in dens(g)]), gs, functions=f2),
            plain("noise.lensing.%d" % n, lambda s, *g: probes.WeakLensing(mixed(g), sigma_e=s).noise(),
                  lambda s, *g: jnp.stack([s**2 / x for x in dens(g)]), [s] + gs, functions=f1),
            plain("noise.lensing.default.%d" % n, lambda *g: probes.WeakLensing(mixed(g)).noise(),
                  lambda *g: jnp.stack([0.26**2 / x for x in dens(g)]), gs, functions=f1),
            plain("noise.lensing.list.%d" % n,
                  lambda *x, n=n: probes.WeakLensing(mixed(x[n:]), sigma_e=list(x[:n])).noise(),
                  lambda *x, n=n: jnp.stack([a**2 / b for a, b in zip(x[:n], dens(x[n:]))]), ss + gs, functions=f1),
            plain("noise.lensing.options.%d" % n,
                  lambda *x, n=n: probes.WeakLensing(mixed(x[n:]), AnyBias(1.0), 0.3, list(x[:n])).noise(),
                  lambda *x, n=n: jnp.stack([a**2 / b for a, b in zip(x[:n], dens(x[n:]))]), ss + gs, functions=f1),
        ]
    # the noise of the spectra
    cov = ["gaussian_cl_covariance", "noise_cl"]
    for sizes in SIZES:
        n = sum(sizes)
        tag = "+".join(map(str, sizes))
        zm = (2.0, 1.0, 3.0)[: len(sizes)]
        for kind in ("f", "i") if sizes in ((2, 1), (1,)) else ("f",):
            obs.append(plain("noise_cl.%s.%s" % (tag, "int" if kind == "i" else "float"),
                             lambda l, *x, sizes=sizes, zm=zm: acl.noise_cl(l, probes_of(sizes, x, zm)),
                             lambda l, *x: total_noise(x, l.shape[0]), [ells(kind)] + thetas(n), dims={"L": 1},
                             functions=["noise_cl"]))
    fs = Sym("f_sky", (), sign="+", sample=ranged(0.05, 1.0))
    for sizes in ((1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (2, 2)):
        n = sum(sizes)
        tag = "+".join(map(str, sizes))
        mk = lambda sizes=sizes: probes_of(sizes, [1.0] * sum(sizes), (2.0,) * len(sizes))
        for kind in ("f", "i") if sizes in ((2, 1), (1,)) else ("f",):
            k = dict(dims={"L": 2}, functions=["gaussian_cl_covariance"], timeout=150, enum=10)
            t = tag + (".int" if kind == "i" else "")
            syms = [ells(kind), spectra_sym(n), spectra_sym(n, "N")]
            obs += [
                plain("covariance.sparse.%s" % t, lambda l, S, N, f, mk=mk: acl.gaussian_cl_covariance(l, mk(), S, N, f),
                      lambda l, S, N, f, n=n: SP.covariance(l, S + N, f, n), syms + [fs], **k),
                plain("covariance.dense.%s" % t,
                      lambda l, S, N, f, mk=mk: entries(acl.gaussian_cl_covariance(l, mk(), S, N, f_sky=f, sparse=False), S, l),
                      lambda l, S, N, f, n=n: blocks(SP.covariance(l, S + N, f, n)), syms + [fs], **k),
                plain("covariance.default.%s" % t, lambda l, S, N, mk=mk: acl.gaussian_cl_covariance(l, mk(), S, N),
                      lambda l, S, N, n=n: SP.covariance(l, S + N, 0.25, n), syms, **k),
                plain("covariance.symmetric.%s" % t,
                      lambda l, S, N, f, mk=mk: acl.gaussian_cl_covariance(l, mk(), S, N, f),
                      lambda l, S, N, f, mk=mk: acl.gaussian_cl_covariance(l, mk(), S, N, f).transpose((1, 0, 2)), syms + [fs], **k),
            ]
    # together with the signal
    U, N = SP.user_transfer, SP.user_nonlinear
    subs = {acl.angular_cl: angular_contract}
    for sizes in ((1,), (1, 1), (2, 1), (1, 2), (2,), (1, 1, 1)):
        n = sum(sizes)
        tag = "+".join(map(str, sizes))
        for kind in ("f", "i") if sizes in ((2, 1), (1,)) else ("f",):
            for sparse in (True, False):
                def real(c, f, l, *x, sizes=sizes, sparse=sparse):
                    ps = probes_of(sizes, x, (2.0, 1.0, 3.0))
                    S, C = acl.gaussian_cl_covariance_and_mean(c, l, ps, U, N, f_sky=f, sparse=sparse)
                    return S, C if sparse else entries(C, SP.pairs(sum(sizes)), l)

                def spec(p, f, l, *x, sizes=sizes, n=n, sparse=sparse):
                    S = angular_contract(p, l, probes_of(sizes, x, (2.0, 1.0, 3.0)), U, N)
                    C = SP.covariance(l, S + total_noise(x, l.shape[0]), f, n)
                    return S.reshape((-1,)), C if sparse else blocks(C)
                obs.append(cosmo_ob("C15", "covariance_and_mean.%s.%s%s" % ("sparse" if sparse else "dense", tag, "" if kind == "f" else ".int"), real, spec,
                                    [fs, ells(kind)] + thetas(n), dims={"L": 2}, sizes={"L": 3}, subs=subs, rel=1e-6, timeout=200, enum=12,
                                    functions=["gaussian_cl_covariance_and_mean"] + cov))
    obs.append(cosmo_ob("C15", "covariance_and_mean.default",
                        lambda c, l, t: acl.gaussian_cl_covariance_and_mean(c, l, probes_of((1,), [t], (2.0,))),
                        lambda p, l, t: (lambda S: (S.reshape((-1,)), SP.dense(SP.covariance(l, S + t, 0.25, 1))))(
                            angular_contract(p, l, probes_of((1,), [t], (2.0,)))),
                        [ells()] + thetas(1), dims={"L": 2}, sizes={"L": 3}, rel=1e-6, subs=subs,
                        functions=["gaussian_cl_covariance_and_mean"]))
    obs.append(cosmo_ob("C15", "covariance_and_mean.probes",
                        lambda c, l, g1, g2, s: acl.gaussian_cl_covariance_and_mean(
                            c, l, [probes.WeakLensing([AnyNz(1.0, zmax=2.0, gals_per_arcmin2=g1)], sigma_e=[s]),
                                   probes.NumberCounts([AnyNz(1.0, zmax=1.0, gals_per_arcmin2=g2)], AnyBias(1.0))],
                            U, N, sparse=True)[1],
                        lambda p, l, g1, g2, s: (lambda S: SP.covariance(
                            l, S + total_noise([s**2 / dens([g1])[0], 1.0 / dens([g2])[0]], l.shape[0]), 0.25, 2))(
                            angular_contract(p, l, [probes.WeakLensing([AnyNz(1.0, zmax=2.0)]),
                                                    probes.NumberCounts([AnyNz(1.0, zmax=1.0)], AnyBias(1.0))], U, N)),
                        [ells(), pos("g1", 0.5, 30.0), pos("g2", 0.5, 30.0), pos("s", 0.1, 0.5)], dims={"L": 2}, sizes={"L": 3},
                        rel=1e-6, subs=subs, timeout=200, functions=["gaussian_cl_covariance_and_mean"] + cov + f1 + f2))
    return obs


def angular_contract(cosmo, ell, probes, transfer_fn=SP.eh_fn, nonlinear_fn=halofit_contract):
    """The spectra, arbitrary functions of the cosmology, multipole and kernels (C14)."""
    n = sum(p.n_tracers for p in probes)
    if SP.symbolic():
        kap = SP.kappa()
        power_fn = nonlinear_fn if nonlinear_fn is not power.halofit else halofit_contract
        tr = transfer_fn if transfer_fn is not tklib.Eisenstein_Hu else SP.eh_fn
        pk = power_fn(cosmo, kap, kap, tr)
        ks = []
        for p in probes:
            ks += [t for t in p.params[0]] if isinstance(p, AnyProbe) else [float(type(p).__name__ == "WeakLensing")] * p.n_tracers
        return jnp.stack([TR.uf("Cl", *SP.leaves_of(cosmo), jnp.asarray(ks[i]) * 1.0, jnp.asarray(ks[j]) * 1.0, pk,
                                jnp.asarray(ell) * 1.0) for i, j in SP.pairs(n)])
    c = cosmo if not isinstance(cosmo, SP.P) else core.Cosmology(*cosmo[:8])
    tr = transfer_fn if transfer_fn is not SP.eh_fn else tklib.Eisenstein_Hu
    return acl.angular_cl(c, ell, probes, tr, nonlinear_fn if nonlinear_fn is not halofit_contract else power.halofit)
