"""Inputs and substitutions shared by the contracts."""
import jax
import jax.numpy as jnp
import numpy as onp

from jxv.prove import Ob
from jxv.trace import Sym
from . import spec as SP
from jxv import trace as TR

import jax_cosmo as jc
import jax_cosmo.angular_cl
import jax_cosmo.background as bkgrd
import jax_cosmo.bias
import jax_cosmo.core as core
import jax_cosmo.likelihood
import jax_cosmo.parameters
import jax_cosmo.power as power
import jax_cosmo.probes
import jax_cosmo.redshift
import jax_cosmo.sparse
import jax_cosmo.transfer
import jax_cosmo.scipy.integrate as integrate
import jax_cosmo.scipy.interpolate as interpolate
import jax_cosmo.scipy.ode as ode


def cosmo_syms(gamma=False):
    s = [
        Sym("Omega_c", sign="+", lo=0.1, hi=0.5),
        Sym("Omega_b", sign="+", lo=0.02, hi=0.08),
        Sym("h", sign="+", lo=0.5, hi=0.9),
        Sym("n_s", sign="+", lo=0.8, hi=1.1),
        Sym("sigma8", sign="+", lo=0.5, hi=1.1),
        Sym("Omega_k", lo=-0.2, hi=0.2, special=(0.0,)),
        Sym("w0", lo=-1.3, hi=-0.7, special=(-1.0,)),
        Sym("wa", lo=-0.3, hi=0.3, special=(0.0,)),
    ]
    # the ranges are those of the replays: the proofs only assume the signs
    for x in s:
        x.sample = ranged(x.lo, x.hi)
        x.lo = x.hi = None
    if gamma:
        s.append(Sym("gamma", sample=ranged(0.0, 0.9), special=(0.0,)))
    return s


def ranged(lo, hi):
    return lambda rng, shape: rng.uniform(lo, hi, size=shape)


def make_cosmo(args):
    """A cosmology of the real code from its parameters."""
    return core.Cosmology(*args[:8], **({"gamma": args[8]} if len(args) > 8 else {}))


def make_p(args):
    return SP.P(*args)


def asym(shape=("n",), name="a", lo=0.02, hi=1.0, special=(1.0, 1.4)):
    return Sym(name, shape, sign="+", sample=ranged(lo, hi), special=special)


def fn_interp(x, xp, fp):
    return SP.interp(x, xp, fp)


BASE = {}


def base_subs():
    """Contracts of the numerical tools, in force in every proof about their callers."""
    return {interpolate.interp: fn_interp, ode.odeint: SP.odeint, integrate.simps: SP.simps, integrate.romb: SP.romb}


def bk(name, **kw):
    f = getattr(SP, name)
    return lambda cosmo, a: f(SP.params(cosmo), a)


def bk1(name):
    """Contract of a function that returns at least one dimension."""
    f = getattr(SP, name)
    return lambda cosmo, a, *r, **kw: f(SP.params(cosmo), jnp.atleast_1d(a), *r, **kw)


def modular(*names):
    """Substitutions for the named functions of the background by their specifications."""
    table = {
        "w": (bkgrd.w, bk("w")), "f_de": (bkgrd.f_de, bk("f_de")), "E2": (bkgrd.Esqr, bk("E2")),
        "H": (bkgrd.H, bk("H")), "Om_a": (bkgrd.Omega_m_a, bk("Om_a")), "Ode_a": (bkgrd.Omega_de_a, bk("Ode_a")),
        "dchida": (bkgrd.dchioverda, bk("dchida")),
        "chi": (bkgrd.radial_comoving_distance, bk1("chi")),
        "a_of_chi": (bkgrd.a_of_chi, bk1("a_of_chi")),
        "fk": (bkgrd.transverse_comoving_distance, bk1("fk")),
        "D": (bkgrd.growth_factor, bk1("D")), "frate": (bkgrd.growth_rate, bk1("frate")),
    }
    return dict(table[n] for n in names if n in table)


def rejects(prop, name, functions, cases):
    """Calls that have to raise: a finite list, labelled bounded."""
    def check(seed, tier):
        n = 0
        for label, call, errors in cases:
            n += 1
            try:
                r = call()
            except errors:
                continue
            except Exception as e:
                return {"runs": n, "violation": {"case": label, "difference": "raises %s (%s) instead of %s" % (
                    type(e).__name__, str(e)[:200], "/".join(x.__name__ for x in errors))}}
            return {"runs": n, "violation": {"case": label, "difference": "accepted, result %s" % str(r)[:300]}}
        return {"runs": n}

    return Ob(prop + "." + name, functions, [], None, None, kind="check", check=check,
              bounded="%d listed calls" % len(cases))


def provided(name, f):
    """The contract of a private function, relied upon only when it is proved itself."""
    f.provides = name
    return f


def lean_ob(prop, name, path, theorems):
    """Lemmas checked by Lean: they connect contracts and do not depend on /repo."""
    def prover(ob, scope, modular, inline):
        import os
        import re
        import subprocess
        import tempfile

        from jxv.prove import Failed

        src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lean", path)
        text = open(src).read()
        if re.search(r"\b(sorry|axiom|admit|native_decide)\b", text):
            raise Failed("%s assumes what it should prove" % path)
        ns = re.search(r"^namespace (\S+)", text, re.M)
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "Check.lean")
            with open(f, "w") as h:
                h.write(text + "\n" + "\n".join("#print axioms %s.%s" % (ns.group(1), t) for t in theorems) + "\n")
            r = subprocess.run(["lean", f], capture_output=True, text=True, timeout=max(60, ob.timeout))
        out = r.stdout + r.stderr
        if r.returncode or "error" in out:
            raise Failed("lean: " + out[:1500])
        said = dict(re.findall(r"'%s\.(\w+)' (.*)" % re.escape(ns.group(1)), out))
        for t in theorems:
            ax = set(re.findall(r"[A-Za-z.]+", said.get(t, "").split("[")[-1])) if "[" in said.get(t, "") else set()
            if t not in said or not ax <= {"propext", "Classical.choice", "Quot.sound"}:
                raise Failed("%s: %s" % (t, said.get(t)))
        return {"elements": len(theorems), "backend": "lean"}

    return Ob(prop + "." + name, [], [], None, None, prover=prover, concrete=False, timeout=300, cost=30,
              trusted=["Lean 4 and Mathlib (kernel), axioms propext, Classical.choice, Quot.sound"])
