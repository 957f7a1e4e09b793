"""Contracts of jax_cosmo.redshift, bias and probes (C10 - C13)."""
import itertools

from jax.tree_util import register_pytree_node_class

from .common import *
from .background import cosmo_ob
import jax_cosmo.bias as jbias
import jax_cosmo.probes as probes
import jax_cosmo.redshift as rds


# --- arbitrary redshift distributions and biases ------------------------------------------


@register_pytree_node_class
class AnyPz(rds.redshift_distribution):
    """A distribution of the user: arbitrary unnormalised shape."""

    def pz_fn(self, z):
        return SP.pz_fn(self.params[0], z)


@register_pytree_node_class
class AnyNz(rds.redshift_distribution):
    """An arbitrary normalised distribution."""

    def pz_fn(self, z):
        return SP.nz_fn(self.params[0], z)

    def __call__(self, z):
        return SP.nz_fn(self.params[0], z)


@register_pytree_node_class
class AnyBias(jbias.constant_linear_bias):
    """An arbitrary bias."""

    def __call__(self, cosmo, z):
        return SP.bias_fn(self.params[0], cosmo, z)


def zsym(shape=("n",), name="z", lo=0.0, hi=3.0, special=(0.0,), sign="0+"):
    return Sym(name, shape, sign=sign, sample=ranged(lo, hi), special=special)


def nz_ob(name, syms, real, spec, dims=None, **kw):
    if dims is None:
        dims = {d: 1 for x in syms for d in x.shape if isinstance(d, str)}
    return Ob("C10." + name, kw.pop("functions", ["redshift_distribution.__call__"]), syms, real, spec, dims=dims,
              subs=base_subs(), base=list(base_subs()), **kw)


def C10():
    obs = []
    pos = lambda n, lo, hi, **k: Sym(n, (), sign="+", sample=ranged(lo, hi), **k)
    a, b, z0 = pos("alpha", 0.5, 3.0), pos("beta", 0.5, 2.0), pos("z0", 0.2, 1.5)
    theta = Sym("theta", (), sample=ranged(-1, 1))
    zmax = pos("zmax", 0.5, 12.0)
    bias = Sym("bias", (), sample=ranged(-0.3, 0.3), special=(0.0,))
    bw = pos("bw", 0.02, 0.5)
    zcat = Sym("zcat", ("m",), sign="+", sample=ranged(0.1, 2.5))
    wt = Sym("wt", ("m",), sign="+", sample=ranged(0.1, 1.0))
    for sh in (("n",), ()):
        t = "" if sh else ".scalar"
        z = zsym(sh)
        at1 = lambda f: f
        for own in (True, False):
            ext = [zmax] if own else []
            o = ".zmax" if own else ".default_zmax"
            kw = lambda x: {"zmax": x[0]} if x else {}
            top = lambda x: x[0] if x else 10.0
            obs.append(nz_ob("any" + o + t, [theta, z] + ext, lambda th, z, *x: AnyPz(th, **kw(x))(z),
                             lambda th, z, *x: SP.normed(lambda u: SP.pz_fn(th, u), z, top(x))))
            obs.append(nz_ob("smail_nz" + o + t, [a, b, z0, z] + ext,
                             lambda a, b, z0, z, *x: rds.smail_nz(a, b, z0, **kw(x))(z),
                             lambda a, b, z0, z, *x: SP.normed(lambda u: SP.smail(u, a, b, z0), z, top(x)),
                             functions=["smail_nz.pz_fn", "redshift_distribution.__call__"]))
            obs.append(nz_ob("systematic_shift" + o + t, [theta, bias, z] + ext,
                             lambda th, s, z, *x: rds.systematic_shift(AnyPz(th, zmax=7.0), s, **kw(x))(z),
                             lambda th, s, z, *x: SP.normed(lambda u: SP.pz_fn(th, jnp.maximum(u - s, 0.0)), z, top(x)),
                             functions=["systematic_shift.pz_fn", "redshift_distribution.__call__"]))
            obs.append(nz_ob("systematic_shift.twice" + o + t, [theta, bias, a, z] + ext,
                             lambda th, s, s2, z, *x: rds.systematic_shift(rds.systematic_shift(AnyPz(th), s), s2, **kw(x))(z),
                             lambda th, s, s2, z, *x: SP.normed(
                                 lambda u: SP.pz_fn(th, jnp.maximum(jnp.maximum(u - s2, 0.0) - s, 0.0)), z, top(x)),
                             functions=["systematic_shift.pz_fn"]))
            if sh:
                obs.append(nz_ob("kde_nz" + o + t, [zcat, wt, bw, z] + ext,
                                 lambda zc, w, bw, z, *x: rds.kde_nz(zc, w, bw=bw, **kw(x))(z),
                                 lambda zc, w, bw, z, *x: SP.normed(lambda u: SP.kde(u, zc, w, bw), z, top(x)),
                                 functions=["kde_nz.pz_fn", "kde_nz._kernel"]))
        obs.append(nz_ob("delta_nz" + t, [z0, Sym("z", sh, sign="0+", sample=lambda rng, s: rng.uniform(0, 2, size=s))],
                         lambda z0, z: (rds.delta_nz(z0)(z), rds.delta_nz(z0, zmax=3.0)(z0), rds.delta_nz(z0).pz_fn(z)),
                         lambda z0, z: (jnp.where(z == z0, 1.0, 0.0), 1.0, jnp.where(z == z0, 1.0, 0.0)),
                         functions=["delta_nz.__init__", "delta_nz.pz_fn"]))
    # the densities
    g = pos("g", 0.1, 50.0)
    mk = [("smail_nz", lambda **k: rds.smail_nz(1.0, 2.0, 1.0, **k)), ("delta_nz", lambda **k: rds.delta_nz(1.0, **k)),
          ("kde_nz", lambda **k: rds.kde_nz(jnp.ones(3), jnp.ones(3), bw=0.1, **k)),
          ("systematic_shift", lambda **k: rds.systematic_shift(AnyPz(1.0, gals_per_arcmin2=3.0), 0.1, **k))]
    for nm, f in mk:
        obs.append(nz_ob(
            "density." + nm, [g, zmax],
            lambda g, zm, f=f: (f(gals_per_arcmin2=g, zmax=zm).gals_per_arcmin2, f(gals_per_arcmin2=g).gals_per_steradian,
                                f().gals_per_steradian, f(zmax=zm, gals_per_arcmin2=g).zmax, f(gals_per_arcmin2=g).zmax),
            lambda g, zm: (g, g * SP.STERADIAN_ARCMIN2, SP.STERADIAN_ARCMIN2, zm, 10.0),
            functions=["redshift_distribution.gals_per_arcmin2", "redshift_distribution.gals_per_steradian",
                       "redshift_distribution.zmax"]))
    # several evaluations of one object share its normalisation
    obs.append(nz_ob("repeated", [theta, zsym(("n",), "z"), zsym(("m",), "y"), zmax],
                     lambda th, z, y, zm: (lambda nz: (nz(z), nz(y), nz(z)))(AnyPz(th, zmax=zm)),
                     lambda th, z, y, zm: tuple(SP.normed(lambda u: SP.pz_fn(th, u), x, zm) for x in (z, y, z))))
    return obs


# --- kernels -------------------------------------------------------------------------------

ZMAX = (3.0, 4.5, 2.0, 3.5)


def bins_of(pattern, thetas):
    return [(AnyNz(t, zmax=ZMAX[i]) if c == "E" else rds.delta_nz(t, zmax=ZMAX[i]))
            for i, (c, t) in enumerate(zip(pattern, thetas))]


def theta_syms(pattern, prefix="t"):
    return [Sym("%s%d" % (prefix, i), (), sample=ranged(0.2, 1.5), sign="+") for i, c in enumerate(pattern)]


def is_plane(pz):
    return isinstance(pz, rds.delta_nz)


def lens(p, pzs, z, ell):
    z = jnp.atleast_1d(z)
    zmax = max(pz.config["zmax"] for pz in pzs)
    return jnp.stack([
        SP.lens_bin(p, z, ell, zmax, plane=pz.params[0]) if is_plane(pz) else SP.lens_bin(p, z, ell, zmax, nz=pz)
        for pz in pzs])


def per_bin(bias, n):
    return list(bias) if isinstance(bias, list) else [bias] * n


def count(p, cosmo, pzs, bias, z):
    z = jnp.atleast_1d(z)
    return jnp.stack([SP.count_bin(p, z, pz, lambda u, b=b: b(cosmo, u)) for pz, b in zip(pzs, per_bin(bias, len(pzs)))])


def nla(p, cosmo, pzs, bias, z, ell):
    z = jnp.atleast_1d(z)
    return jnp.stack([SP.nla_bin(p, z, ell, pz, lambda u, b=b: b(cosmo, u)) for pz, b in zip(pzs, per_bin(bias, len(pzs)))])


def kernel_subs(*names):
    t = {
        "lens": (getattr(probes, "weak_lensing_kernel", None),
                 provided("lens", lambda c, pzs, z, ell: lens(SP.params(c), pzs, z, ell))),
        "count": (getattr(probes, "density_kernel", None),
                  provided("count", lambda c, pzs, b, z, ell: count(SP.params(c), c, pzs, b, z))),
        "nla": (getattr(probes, "nla_kernel", None),
                provided("nla", lambda c, pzs, b, z, ell: nla(SP.params(c), c, pzs, b, z, ell))),
    }
    return dict(t[n] for n in names if t[n][0] is not None)


def ell_sym(kind):
    if kind == "i":
        return Sym("ell", (), kind="i", sign="+", lo=2, hi=100000, sample=lambda rng, s: rng.integers(2, 4000, size=s),
                   special=(2, 60000))
    return Sym("ell", (), sign="+", lo=2, sample=ranged(2.0, 3000.0), special=(2.0,))


PATTERNS = ["".join(x) for n in (1, 2, 3) for x in itertools.product("ED", repeat=n)] + ["EDED", "DEDE", "DEED", "EDDE"]

CHI = ["chi", "D", "H"]


def kern_ob(prop, name, pattern, real, spec, extra=(), nb=0, kind="f", zshape=("n",), subs=(), **kw):
    """real(cosmo, bins, biases, z, ell, *extra); bins and biases made from symbolic leaves."""
    ts = theta_syms(pattern)
    bs = [Sym("b%d" % i, (), sample=ranged(0.5, 2.0), sign="+") for i in range(nb)]
    n, m = len(ts), len(ts) + nb

    def unpack(x):
        return bins_of(pattern, x[:n]), [AnyBias(t) for t in x[n:m]], x[m], x[m + 1], x[m + 2:]

    def r(c, *x):
        pzs, b, z, ell, ex = unpack(x)
        return real(c, pzs, b, z, ell, *ex)

    def s(p, *x):
        pzs, b, z, ell, ex = unpack(x)
        return spec(p, pzs, b, z, ell, *ex)
    return cosmo_ob(prop, name, r, s, ts + bs + [zsym(zshape, lo=0.01, hi=2.5), ell_sym(kind)] + list(extra), CHI,
                    subs=kernel_subs(*subs), dims={"n": 1} if zshape == ("n",) else {}, rel=1e-7, **kw)


KINDS = (("f", "float"), ("i", "int"))


def C11():
    obs = []
    f = getattr(probes, "weak_lensing_kernel", None)
    if f is not None:
        for pat in PATTERNS:
            for kind, kt in KINDS if len(pat) < 3 else KINDS[:1]:
                obs.append(kern_ob("C11", "weak_lensing_kernel.%s.%s" % (pat, kt), pat,
                                   lambda c, pzs, b, z, ell: f(c, pzs, z, ell),
                                   lambda p, pzs, b, z, ell: lens(p, pzs, z, ell), kind=kind,
                                   functions=["weak_lensing_kernel"], private="lens"))
        obs.append(kern_ob("C11", "weak_lensing_kernel.ED.scalar_z", "ED", lambda c, pzs, b, z, ell: f(c, pzs, z, ell),
                           lambda p, pzs, b, z, ell: lens(p, pzs, z, ell), zshape=(), functions=["weak_lensing_kernel"],
                           private="lens"))
    wl = probes.WeakLensing
    m0 = Sym("m", (), sample=ranged(-0.2, 0.2))
    ms = lambda n: [Sym("m%d" % i, (), sample=ranged(-0.2, 0.2)) for i in range(n)]

    def cosmo_of(p):
        return p

    def full(p, pzs, b, z, ell, m):
        k = lens(p, pzs, z, ell)
        if b is not None:
            k = k + nla(p, p, pzs, b, z, ell)
        m = jnp.stack([jnp.asarray(x) * 1.0 for x in (m if isinstance(m, list) else [m] * len(pzs))])
        return k * (1.0 + m)[:, None]

    for pat in ("E", "D", "EE", "ED", "DE", "DD", "EEE", "EDE", "DED", "DDE"):
        n = len(pat)
        for kind, kt in KINDS:
            if kind == "i" and n > 2:
                continue
            for sh in ("n", "1"):
                if sh == "1" and (n > 2 or kind == "i"):
                    continue
                zs = ("n",) if sh == "n" else ()
                tag = "%s.%s%s" % (pat, kt, "" if zs else ".scalar_z")
                k = dict(kind=kind, zshape=zs, subs=("lens", "nla"), functions=["WeakLensing.kernel"])
                obs.append(kern_ob("C11", "kernel.%s.plain" % tag, pat, lambda c, q, b, z, l: wl(q).kernel(c, z, l),
                                   lambda p, q, b, z, l: full(p, q, None, z, l, 0.0), **k))
                obs.append(kern_ob("C11", "kernel.%s.m" % tag, pat,
                                   lambda c, q, b, z, l, m: wl(q, multiplicative_bias=m, sigma_e=0.3).kernel(c, z, l),
                                   lambda p, q, b, z, l, m: full(p, q, None, z, l, m), [m0], **k))
                obs.append(kern_ob("C11", "kernel.%s.m_list" % tag, pat,
                                   lambda c, q, b, z, l, *m: wl(q, multiplicative_bias=list(m)).kernel(c, z, l),
                                   lambda p, q, b, z, l, *m: full(p, q, None, z, l, list(m)), ms(n), **k))
                if "D" in pat:
                    continue
                obs.append(kern_ob("C11", "kernel.%s.ia" % tag, pat,
                                   lambda c, q, b, z, l: wl(q, ia_bias=b[0]).kernel(c, z, l),
                                   lambda p, q, b, z, l: full(p, q, b[0], z, l, 0.0), nb=1, **k))
                obs.append(kern_ob("C11", "kernel.%s.ia_list.m_list" % tag, pat,
                                   lambda c, q, b, z, l, *m: wl(q, b, list(m)).kernel(c, z, l),
                                   lambda p, q, b, z, l, *m: full(p, q, b, z, l, list(m)), ms(n), nb=n, **k))
                obs.append(kern_ob("C11", "kernel.%s.ia.m" % tag, pat,
                                   lambda c, q, b, z, l, m: wl(q, b[0], m).kernel(c, z, l),
                                   lambda p, q, b, z, l, m: full(p, q, b[0], z, l, m), [m0], nb=1, **k))
    return obs


def bias_obs():
    obs = []
    pos = lambda n, lo, hi: Sym(n, (), sign="+", sample=ranged(lo, hi))
    b = Sym("b", (), sample=ranged(0.5, 3.0))
    for sh in (("n",), ()):
        t = "" if sh else ".scalar"
        z = zsym(sh)
        obs.append(cosmo_ob("C12", "constant_linear_bias" + t, lambda c, b, z: jbias.constant_linear_bias(b)(c, z),
                            lambda p, b, z: b * jnp.ones(z.shape), [b, z], functions=["constant_linear_bias.__call__"]))
        obs.append(cosmo_ob("C12", "inverse_growth_linear_bias" + t,
                            lambda c, b, z: jbias.inverse_growth_linear_bias(b)(c, z),
                            lambda p, b, z: b / jnp.atleast_1d(SP.D(p, 1.0 / (1.0 + z))), [b, z], ["D"],
                            functions=["inverse_growth_linear_bias.__call__"]))
        obs.append(cosmo_ob("C12", "des_y1_ia_bias" + t,
                            lambda c, A, eta, z0, z: jbias.des_y1_ia_bias(A, eta, z0)(c, z),
                            lambda p, A, eta, z0, z: A * ((1.0 + z) / (1.0 + z0)) ** eta,
                            [b, Sym("eta", (), sample=ranged(-2, 2)), pos("z0", 0.1, 1.5), z],
                            functions=["des_y1_ia_bias.__call__"]))
    return obs


def plane_rejections(prop, calls):
    mk = lambda pat: bins_of(pat, [0.5 + 0.3 * i for i in range(len(pat))])
    b = jbias.constant_linear_bias(1.0)
    z = jnp.array([0.3, 0.6])
    cases = []
    for nm, call in calls:
        for pat in ("D", "ED", "DE", "EED", "DD", "EDE"):
            cases.append(("%s with %s" % (nm, pat), lambda call=call, pat=pat: call(jc.Planck15(), mk(pat), b, z, 20.0),
                          (NotImplementedError, ValueError)))
    return rejects(prop, "planes_rejected", [n for n, _ in calls], cases)


def C12():
    obs = bias_obs()
    f = getattr(probes, "density_kernel", None)
    for pat in ("E", "EE", "EEE"):
        n = len(pat)
        for kind, kt in KINDS:
            for zs in (("n",), ()):
                tag = "%s.%s%s" % (pat, kt, "" if zs else ".scalar_z")
                if not zs and (kind == "i" or n > 2):
                    continue
                k = dict(kind=kind, zshape=zs)
                for nb, bt in ((1, "shared"), (n, "list")):
                    pick = (lambda b: b[0]) if nb == 1 and bt == "shared" else (lambda b: list(b))
                    if f is not None and zs:
                        obs.append(kern_ob("C12", "density_kernel.%s.%s" % (tag, bt), pat,
                                           lambda c, q, b, z, l, pick=pick: f(c, q, pick(b), z, l),
                                           lambda p, q, b, z, l, pick=pick: count(p, p, q, pick(b), z), nb=nb,
                                           functions=["density_kernel"], private="count", **k))
                    obs.append(kern_ob("C12", "NumberCounts.kernel.%s.%s" % (tag, bt), pat,
                                       lambda c, q, b, z, l, pick=pick: probes.NumberCounts(q, pick(b)).kernel(c, z, l),
                                       lambda p, q, b, z, l, pick=pick: count(p, p, q, pick(b), z), nb=nb,
                                       subs=("count",), functions=["NumberCounts.kernel"], **k))
    obs.append(plane_rejections("C12", [("NumberCounts.kernel",
                                         lambda c, q, b, z, l: probes.NumberCounts(q, b).kernel(c, z, l))]))
    return obs


def C13():
    obs = []
    f = getattr(probes, "nla_kernel", None)
    if f is not None:
        for pat in ("E", "EE", "EEE", "EEEE"):
            n = len(pat)
            for kind, kt in KINDS:
                for nb, bt in ((1, "shared"), (n, "list")):
                    pick = (lambda b: b[0]) if bt == "shared" else (lambda b: list(b))
                    obs.append(kern_ob("C13", "nla_kernel.%s.%s.%s" % (pat, kt, bt), pat,
                                       lambda c, q, b, z, l, pick=pick: f(c, q, pick(b), z, l),
                                       lambda p, q, b, z, l, pick=pick: nla(p, p, q, pick(b), z, l), nb=nb, kind=kind,
                                       functions=["nla_kernel"], private="nla"))
    # through the probe: the difference that the alignment bias makes
    for pat in ("E", "EE", "EEE"):
        n = len(pat)
        for kind, kt in KINDS:
            for nb, bt in ((1, "shared"), (n, "list")):
                pick = (lambda b: b[0]) if bt == "shared" else (lambda b: list(b))

                def real(c, q, b, z, l, pick=pick):
                    w = probes.WeakLensing
                    return w(q, pick(b)).kernel(c, z, l) - w(q).kernel(c, z, l)

                obs.append(kern_ob("C13", "WeakLensing.kernel.%s.%s.%s" % (pat, kt, bt), pat, real,
                                   lambda p, q, b, z, l, pick=pick: nla(p, p, q, pick(b), z, l), nb=nb, kind=kind,
                                   subs=("lens", "nla"), functions=["WeakLensing.kernel"]))
    obs.append(plane_rejections("C13", [("WeakLensing.kernel with alignment bias",
                                         lambda c, q, b, z, l: probes.WeakLensing(q, b).kernel(c, z, l))]))
    return obs
