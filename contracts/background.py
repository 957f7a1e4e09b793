"""Contracts of jax_cosmo.background (C01 - C04)."""
from .common import *


def formula(prop, name, real, spec, opaque=(), gamma=False, shape=("n",), dims=None, **kw):
    cs = cosmo_syms(gamma)
    nc = len(cs)
    return Ob(
        prop + "." + name, kw.pop("functions", [real]), cs + [asym(shape, **kw.pop("arg", {}))],
        lambda *x: getattr(bkgrd, real)(make_cosmo(x[:nc]), *x[nc:]),
        lambda *x: spec(make_p(x[:nc]), *x[nc:]),
        dims=dims if dims is not None else ({"n": 1} if "n" in shape else {}),
        subs=kw.pop("subs", modular(*opaque)), opaque=opaque, **kw)


def C01():
    obs = []
    for shape, tag in ((("n",), "array"), ((), "scalar")):
        for real, spec, op in (
            ("w", SP.w, ()), ("f_de", SP.f_de, ()), ("Esqr", SP.E2, ("f_de",)), ("H", SP.H, ("E2",)),
            ("Omega_m_a", SP.Om_a, ("E2",)), ("Omega_de_a", SP.Ode_a, ("E2", "f_de")),
        ):
            obs.append(formula("C01", "%s.%s" % (real, tag), real, spec, op, shape=shape))
    return obs


def cosmo_ob(prop, name, real, spec, extra=(), opaque=(), gamma=False, subs=None, **kw):
    """Contract of real(cosmology, *extra) against spec(parameters, *extra)."""
    cs = cosmo_syms(gamma)
    nc = len(cs)
    s = dict(base_subs())
    s.update(modular(*opaque))
    s.update(subs or {})
    if "halofit_pars" in opaque and not any(getattr(v, "provides", None) == "halofit_pars" for v in s.values()):
        opaque = [x for x in opaque if x != "halofit_pars"]
    uses = {v.provides for v in s.values() if hasattr(v, "provides")}
    dims = kw.pop("dims", None)
    if dims is None:
        dims = {d: 1 for x in extra for d in x.shape if isinstance(d, str)}
    return Ob(prop + "." + name, kw.pop("functions", [name]), cs + list(extra),
              lambda *x: real(make_cosmo(x[:nc]), *x[nc:]), lambda *x: spec(make_p(x[:nc]), *x[nc:]),
              dims=dims, subs=s, base=list(base_subs()), opaque=set(opaque), uses=uses, **kw)


def sums_to_one():
    def real(c, a):
        return bkgrd.Omega_m_a(c, a) + bkgrd.Omega_de_a(c, a) + c.Omega_k * jnp.power(a, -2) / bkgrd.Esqr(c, a)

    obs = [cosmo_ob("C01", "lemma.fractions", real, lambda p, a: jnp.ones(a.shape), [asym()],
                    functions=["Omega_m_a", "Omega_de_a", "Esqr"], ),
           cosmo_ob("C01", "lemma.today",
                    lambda c: (bkgrd.Esqr(c, 1.0), bkgrd.Omega_m_a(c, 1.0), bkgrd.Omega_de_a(c, 1.0),
                               bkgrd.H(c, 1.0)),
                    lambda p: (1.0, p.Oc + p.Ob, 1.0 - p.Ok - p.Oc - p.Ob, 100.0),
                    functions=["Omega_m_a", "Omega_de_a", "Esqr", "H"])]
    return obs


_C01 = C01


def C01():
    return _C01() + sums_to_one()


def C02():
    obs = [cosmo_ob("C02", "dchioverda", bkgrd.dchioverda, SP.dchida, [asym()], ["E2"])]
    settings = [(), (-3, 256), (-2, 256), (-3, 100), (-1, 64), (-2.5, 32), (-4, 1000)]
    for g in (False, True):
        for s in settings if not g else settings[:1]:
            for sh in (("n",), ()) if s == () else (("n",),):
                obs.append(cosmo_ob(
                    "C02", "chi%s%s%s" % (list(s), "" if sh else ".scalar", ".gamma" if g else ""),
                    lambda c, a, s=s: bkgrd.radial_comoving_distance(c, a, *s),
                    lambda p, a, s=s: jnp.atleast_1d(SP.chi(p, jnp.atleast_1d(a), *s)), [asym(sh, special=(1.0, 10.0 ** (s[0] if s else -3) * 1.5))], ["E2", "dchida"],
                    gamma=g, functions=["radial_comoving_distance"]))
        for sh in (("n",), ()):
            obs.append(cosmo_ob(
                "C02", "a_of_chi%s%s" % ("" if sh else ".scalar", ".gamma" if g else ""), bkgrd.a_of_chi,
                lambda p, c: SP.a_of_chi(p, jnp.atleast_1d(c)), [asym(sh, "x", 1.0, 6000.0)], ["E2", "dchida"],
                gamma=g, functions=["a_of_chi"]))
    return obs


def C03():
    curv = lambda sign: [curved(x, sign) for x in cosmo_syms()]
    obs = []
    for sign, tag in (("+", "open"), ("-", "closed"), (None, "any")):
        for sh in (("n",), ()):
            for f, s in ((bkgrd.transverse_comoving_distance, SP.fk),
                         (bkgrd.angular_diameter_distance, lambda p, a: a * SP.fk(p, a))):
                ob = cosmo_ob("C03", "%s.%s%s" % (f.__name__, tag, "" if sh else ".scalar"), f,
                              lambda p, a, s=s: jnp.atleast_1d(s(p, jnp.atleast_1d(a))), [asym(sh)], ["chi"],
                              functions=[f.__name__])
                ob.syms = [curved(x, sign) for x in ob.syms]
                obs.append(ob)
    return obs


def curved(x, sign):
    if x.name == "Omega_k" and sign:
        x.sign = sign
        x.special = ()
        x.sample = ranged(0.02, 0.3) if sign == "+" else ranged(-0.3, -0.02)
    return x


def C04():
    obs = []
    for g in (False, True):
        for sh in (("n",), ()):
            t = ("" if sh else ".scalar") + (".gamma" if g else "")
            obs.append(cosmo_ob("C04", "growth_factor" + t, bkgrd.growth_factor,
                                lambda p, a: SP.D(p, jnp.atleast_1d(a)), [asym(sh)], ["Om_a", "Ode_a", "w"], gamma=g,
                                functions=["growth_factor"]))
            obs.append(cosmo_ob("C04", "growth_rate" + t, bkgrd.growth_rate,
                                lambda p, a, g=g: SP.frate(p, jnp.atleast_1d(a) if not g else a), [asym(sh)],
                                ["Om_a", "Ode_a", "w"], gamma=g, functions=["growth_rate"]))
    return obs
