"""Contracts of jax_cosmo.transfer and jax_cosmo.power (C07 - C09)."""
from .common import *
from .background import cosmo_ob
import jax_cosmo.transfer as tklib


def ksym(shape=("n",)):
    return Sym("k", shape, sign="+", sample=lambda rng, sh: 10.0 ** rng.uniform(-4, 1.5, size=sh))


def C07():
    obs = []
    for sh in (("n",), ()):
        for args, ty in (((), "eisenhu_osc"), (("eisenhu_osc",), "eisenhu_osc"), (("eisenhu",), "eisenhu")):
            obs.append(cosmo_ob(
                "C07", "Eisenstein_Hu%s%s" % (list(args), "" if sh else ".scalar"),
                lambda c, k, args=args: tklib.Eisenstein_Hu(c, k, *args),
                lambda p, k, ty=ty: SP.eh(p, k, ty), [ksym(sh)], functions=["Eisenstein_Hu"], rel=1e-6))
    obs.append(rejects("C07", "unknown_type", ["Eisenstein_Hu"], [
        ("type=%r" % t, lambda t=t: tklib.Eisenstein_Hu(jc.Planck15(), jnp.array([0.1]), type=t),
         (NotImplementedError, ValueError)) for t in ("bbks", "", "eisenhu_os", "Eisenhu", None)]))
    return obs


def spec_of(f):
    return lambda c, *a, **k: f(SP.params(c), *a, **k)


def power_subs(*names):
    t = {
        "eh": (tklib.Eisenstein_Hu, SP.eh_fn),
        "sigma2": (power.sigmasqr, lambda c, R, T, **kw: SP.sigma2(SP.params(c), R, T, **kw)),
        "Plin": (power.linear_matter_power,
                 lambda c, k, a=1.0, transfer_fn=SP.eh_fn, **kw: lin(SP.params(c), k, a, transfer_fn, **kw)),
        "halofit_pars": (getattr(power, "_halofit_parameters", None), halofit_pars_contract),
    }
    return dict(t[n] for n in names if t[n][0] is not None)


def halofit_pars_contract(c, a, T):
    kn, n, C = SP.halofit_pars(SP.params(c), a, T)
    return sq(kn), n, C


halofit_pars_contract.provides = "halofit_pars"


def sq(x):
    """numpy's squeeze, the sizes of symbolic dimensions not being one."""
    return jnp.squeeze(x, axis=tuple(i for i, d in enumerate(x.shape) if isinstance(d, int) and d == 1))


def lin(p, k, a, T, **kw):
    return sq(SP.Plin(p, jnp.atleast_1d(k), jnp.atleast_1d(a), T, **kw))


SHAPES = [(("n",), ("n",)), (("n",), ()), ((), ("n",)), ((), ()), (("n",), None), ((), None)]


def shname(s):
    return ",".join("-" if x is None else "1" if not x else "n" for x in s)


def C08():
    obs = []
    UFS = {"eh": SP.eh_fn}
    for sh in (("n",), ()):
        obs.append(cosmo_ob("C08", "primordial_matter_power%s" % ("" if sh else ".scalar"),
                            power.primordial_matter_power, SP.primordial, [ksym(sh)]))
    R = Sym("R", (), sign="+", sample=ranged(1.0, 20.0))
    opt = Sym("shape", (), sample=ranged(-0.5, 0.5))
    kmin = Sym("kmin", (), sign="+", sample=ranged(1e-4, 1e-2))
    kmax = Sym("kmax", (), sign="+", sample=ranged(10.0, 1e3))
    U = SP.user_transfer
    for nm, extra, real, spec in (
        ("default", [R], lambda c, R: power.sigmasqr(c, R, U), lambda p, R, b: SP.sigma2(p, R, U, bounds=b)),
        ("options", [R, opt, kmin, kmax],
         lambda c, R, s, lo, hi: power.sigmasqr(c, R, U, kmin=lo, kmax=hi, shape=s),
         lambda p, R, s, lo, hi, b: SP.sigma2(p, R, U, lo, hi, bounds=b, shape=s)),
    ):
        one = lambda b: cosmo_ob("C08", "sigmasqr." + nm, real, lambda *x, spec=spec: spec(*x, b), extra,
                                 functions=["sigmasqr"], rel=1e-6)
        ob = one("ln")
        # known finding: the bounds are decimal logarithms
        ob.deviation = one("log10")
        ob.deviation.name += ".decimal_bounds"
        obs.append(ob)
    for sh in SHAPES:
        ext = [ksym(sh[0])] + ([asym(sh[1])] if sh[1] is not None else [])
        dims = {"n": 2} if ("n",) in sh else {}
        obs.append(cosmo_ob(
            "C08", "linear_matter_power[%s]" % shname(sh), lambda c, k, *a: power.linear_matter_power(c, k, *a),
            lambda p, k, *a: lin(p, k, a[0] if a else 1.0, SP.eh_fn), ext, ["D", "sigma2", "eh"],
            subs=power_subs("sigma2", "eh"), functions=["linear_matter_power"], dims=dims, rel=1e-6))
        obs.append(cosmo_ob(
            "C08", "linear_matter_power[%s].transfer_fn" % shname(sh),
            lambda c, s, k, *a: power.linear_matter_power(c, k, *a, transfer_fn=U, shape=s),
            lambda p, s, k, *a: lin(p, k, a[0] if a else 1.0, U, shape=s), [opt] + ext, ["D", "sigma2"],
            subs=power_subs("sigma2"), functions=["linear_matter_power"], dims=dims, rel=1e-6))
    obs.append(cosmo_ob(
        "C08", "linear", lambda c, k, a: power.linear(c, k, a, U), lambda p, k, a: lin(p, k, a, U),
        [ksym(), asym()], ["Plin"], subs=power_subs("Plin"), functions=["linear"], dims={"n": 2}, rel=1e-6))
    return obs


def C09():
    obs = []
    U = SP.user_transfer
    kn = lambda sh: ksym(sh)
    for ash, tag in ((("m",), "array"), ((), "scalar"), ((1,), "one")):
        real = lambda c, a: power._halofit_parameters(c, a, U)

        def spec(p, a):
            kk, n, C = SP.halofit_pars(p, a, U)
            return sq(kk), n, C
        if hasattr(power, "_halofit_parameters"): obs.append(cosmo_ob("C09", "_halofit_parameters.%s" % tag, real, spec, [asym(ash, lo=0.2)], ["Plin", "D"],
                            subs=power_subs("Plin"), dims={"m": 2} if "m" in ash else {}, rel=1e-6,
                            functions=["_halofit_parameters"], private="halofit_pars"))
    for sh in SHAPES[:4]:
        ext = [ksym(sh[0]), asym(sh[1], lo=0.2)]
        dims = {"n": 2} if ("n",) in sh else {}
        for args in ((), ("takahashi2012",), ("smith2003",)):
            obs.append(cosmo_ob(
                "C09", "halofit[%s]%s" % (shname(sh), list(args)),
                lambda c, k, a, args=args: power.halofit(c, k, a, U, *args),
                lambda p, k, a, args=args: sq(SP.halofit(p, k, a, U, *args)), ext,
                ["Plin", "halofit_pars", "Om_a", "Ode_a", "w"], subs=power_subs("Plin", "halofit_pars"),
                dims=dims, rel=1e-6, functions=["halofit"]))
    for sh in SHAPES:
        ext = [ksym(sh[0])] + ([asym(sh[1], lo=0.2)] if sh[1] is not None else [])
        dims = {"n": 2} if ("n",) in sh else {}
        obs.append(cosmo_ob(
            "C09", "nonlinear_matter_power[%s]" % shname(sh),
            lambda c, k, *a: power.nonlinear_matter_power(c, k, *a, transfer_fn=U, nonlinear_fn=SP.user_nonlinear),
            lambda p, k, *a: SP.user_nonlinear(p, k, a[0] if a else 1.0, U), ext, dims=dims, rel=1e-6,
            functions=["nonlinear_matter_power"]))
    obs.append(cosmo_ob(
        "C09", "nonlinear_matter_power.defaults", lambda c, k, a: power.nonlinear_matter_power(c, k, a),
        lambda p, k, a: sq(SP.halofit(p, k, a, SP.eh_fn)), [ksym(), asym(lo=0.2)],
        ["Plin", "halofit_pars", "Om_a", "Ode_a", "w", "eh"], subs=power_subs("Plin", "halofit_pars", "eh"),
        dims={"n": 2}, rel=1e-6, functions=["nonlinear_matter_power", "halofit"]))
    obs.append(rejects("C09", "unknown_prescription", ["halofit"], [
        ("prescription=%r" % t, lambda t=t: power.halofit(jc.Planck15(), jnp.array([0.1]), 1.0, tklib.Eisenstein_Hu,
                                                          prescription=t), (NotImplementedError, ValueError))
        for t in ("mead2020", "", "Smith2003", "takahashi")]))
    return obs
