"""Derivatives with respect to every parameter and transformations (C24).

From each contract of a value follow
 derivative.*  the derivative (jax.jvp, in an arbitrary direction of all floating-point
               inputs) of the real code is the derivative of the specification. The
               derivatives of callees follow from their contracts: they are functions of
               the arguments.
 batch.*       jax.vmap of the real code over all inputs is the specification for each
               member of the batch.
 reverse.*     (bounded) jax.vjp inside jax.jit agrees with jax.jvp and with finite
               differences on sampled inputs, the special values included.
"""
import copy
import importlib

from .common import *

VALUES = {
    "C01": "background", "C02": "background", "C03": "background", "C04": "background", "C07": "spectra", "C08": "spectra",
    "C09": "spectra", "C10": "kernels", "C11": "kernels", "C12": "kernels", "C13": "kernels", "C14": "angular", "C15": "angular",
    "C18": "linear",
}


def floats(ob):
    return [k for k, s in enumerate(ob.syms) if s.kind == "f"]


def leaves_of(f):
    """The floating-point results."""
    def g(*x):
        out = [jnp.asarray(v) for v in jax.tree_util.tree_leaves(f(*x))]
        return [v for v in out if jnp.issubdtype(v.dtype, jnp.floating)]
    return g


def split(ob, f):
    """f of the floating-point inputs alone, given all of them and their tangents."""
    n, fl = len(ob.syms), floats(ob)

    def parts(x):
        def h(*v):
            a = list(x[:n])
            for k, w in zip(fl, v):
                a[k] = w
            return leaves_of(f)(*a)
        return h, tuple(x[k] for k in fl), tuple(x[n:])
    return parts


def derivative(ob, apart=False):
    o = copy.copy(ob)
    o.syms = list(ob.syms) + [Sym("d_" + ob.syms[k].name, ob.syms[k].shape, sample=ranged(-1, 1)) for k in floats(ob)]

    def jvp(f):
        parts = split(ob, f)

        def g(*x):
            h, p, t = parts(x)
            if not apart:
                return jax.jvp(h, p, t)[1]
            out = []
            for k in range(len(t)):
                out.append(jax.jvp(lambda v: h(*p[:k], v, *p[k + 1:]), (p[k],), (t[k],))[1])
            return out
        return g
    o.real, o.spec = jvp(ob.real), jvp(ob.spec)
    o.name = "C24.derivative." + ob.name
    o.rel, o.abs = max(o.rel, 1e-6), max(o.abs, 1e-10)
    return o


def batch(ob):
    o = copy.copy(ob)
    o.dims = dict(ob.dims, B=1)
    o.sizes = dict(ob.sizes or {}, B=2)
    o.syms = []
    for s in ob.syms:
        s = copy.copy(s)
        if s.fixed is None:
            s.shape = ("B",) + s.shape
        o.syms.append(s)
    ax = tuple(None if s.fixed is not None else 0 for s in ob.syms)
    o.real = lambda *x: jax.vmap(leaves_of(ob.real), in_axes=ax)(*x)
    o.spec = lambda *x: jax.vmap(leaves_of(ob.spec), in_axes=ax)(*x)
    o.name = "C24.batch." + ob.name
    return o


def values():
    out = []
    for p, m in VALUES.items():
        for ob in getattr(importlib.import_module("contracts." + m), p)():
            if ob.kind != "check" and ob.real is not None and ob.prover is None and ob.goal == "eq":
                out.append(ob)
    return out


# --- the tools ----------------------------------------------------------------------------


def interpolation():
    """Inside a cell and beyond the ends, with respect to the points and to the table."""
    from jxv import cells as CE
    from jxv import engine as EN
    from jxv import terms as T
    from jxv.prove import Failed
    from .splines import table_sample

    obs = []

    def ob(name, left, right, d, where):
        syms = [Sym("x", ("m",), sample=ranged(0, 1)), Sym("xp", ("n",), sample=table_sample), Sym("fp", ("n",), sample=ranged(-2, 2)),
                Sym("dx", ("m",)), Sym("dxp", ("n",)), Sym("dfp", ("n",))]
        dims = {"m": 1, "n": 3}
        fn = lambda x, xp, fp, dx, dxp, dfp: jax.jvp(interpolate.interp, (x, xp, fp), (dx, dxp, dfp))[1]

        def prover(ob, scope, modular, inline):
            n = 0
            cases = {"inside": (0, 1), "left": (0,), "right": (1,)}[where]
            for pick in cases:
                c = CE.Cell(left, right, d)
                c.choice, c.pick = cases, pick
                w1, w2 = T.var("w_left", sign="+"), T.var("w_right", sign="+")
                if where == "inside":
                    c.gap = lambda i, g=c.gap: T.add(w1, w2) if i == 0 else g(i)
                off = {"inside": w1, "left": T.scale(w1, -1), "right": T.add(c.gap(0), w1)}[where]
                x = T.add(c.x0, T.scale(off, d))
                c.ind = {"left": T.ZERO, "right": c.n}.get(where, T.add(c.j, T.num(1)))
                c.skip_low, c.skip_high = where == "left", where == "right"
                E, (r,) = CE.run(ob, scope, fn, c, x, "xp", "n")
                el = lambda nm, k: EN.element(nm, (T.add(c.j, T.num(k)),))
                h = T.scale(c.gap(0), d)
                u = T.mul(off, T.power(c.gap(0), -1))
                i = T.fresh_index(r.shape[0])
                rise = T.sub(el("fp", 1), el("fp", 0))
                du = T.mul(T.sub(T.sub(EN.element("dx", (i,)), el("dxp", 0)), T.mul(u, T.sub(el("dxp", 1), el("dxp", 0)))), T.power(h, -1))
                want = T.add(T.add(el("dfp", 0), T.mul(T.sub(el("dfp", 1), el("dfp", 0)), u)), T.mul(rise, du))
                got = r.at((i,))
                if not T.same(got, want):
                    raise Failed("%s, nearest entry j+%d: %s is not %s" % (where, pick, T.show(got)[:600], T.show(want)[:300]))
                n += 1 + c.checked
            return {"elements": n, "sensitive": 1, "ops": sum(E.trace_ops.values())}

        def place(x, xp):
            i = {"left": 0, "right": xp.shape[0] - 2}.get(where)
            i = jnp.floor(x * (xp.shape[0] - 1) * 0.999).astype(int) if i is None else i
            u = {"inside": 0.05 + 0.4 * x, "left": -0.1 - x, "right": 1.1 + x}[where]
            xp = xp if d > 0 else xp[::-1]
            return i, u, xp

        def real(x, xp, fp, dx, dxp, dfp):
            i, u, xp = place(x, xp)
            return fn(xp[i] + u * (xp[i + 1] - xp[i]), xp, fp, dx, dxp, dfp)

        def spec(x, xp, fp, dx, dxp, dfp):
            i, u, xp = place(x, xp)
            h = xp[i + 1] - xp[i]
            return dfp[i] + (dfp[i + 1] - dfp[i]) * u + (fp[i + 1] - fp[i]) * (dx - dxp[i] - u * (dxp[i + 1] - dxp[i])) / h
        obs.append(Ob("C24.derivative.interp." + name, ["interp"], syms, real, spec, dims=dims, sizes={"n": 9}, prover=prover, refute=12))

    for d, dt in ((1, "increasing"), (-1, "decreasing")):
        for loc, left, right in (("first", (0, True), (1, False)), ("inner", (1, False), (1, False)), ("last", (1, False), (0, True))):
            for where in ("inside",) + {"first": ("left",), "last": ("right",)}.get(loc, ()):
                ob("%s.%s.%s" % (dt, loc, where), left, right, d, where)
    return obs


def tools():
    from . import tools as TO

    return (interpolation() + [derivative(o) for o in TO.C22() if o.kind != "check" and o.prover is None]
            + [analytic(o) for o in TO.C23() if o.kind != "check" and o.prover is None])


# --- reverse mode and compilation: on samples ---------------------------------------------


def reverse(ob):
    """jax.vjp inside jax.jit, jax.jvp and finite differences of the real code on samples."""
    fl, n = floats(ob), len(ob.syms)

    def check(seed, tier):
        from jxv.prove import sample_inputs

        rng = onp.random.default_rng(seed)
        runs = 0
        # generic values, then every special value
        cases = [None] + [(k, v) for k, s in enumerate(ob.syms) for v in s.special]
        with SP.mode("concrete", set()):
            shapes = None
            for case in cases:
                vals = sample_inputs(ob, rng, 0, shapes)
                if vals is None:
                    continue
                shapes = [v.shape for v in vals]
                if case:
                    k, v = case
                    x = onp.array(vals[k])
                    if x.ndim:
                        x.flat[0] = v
                    else:
                        x = onp.asarray(v, x.dtype)
                    vals[k] = jnp.asarray(x)
                # at a redshift of zero, powers of it may not be differentiable
                still = case is not None and ob.syms[case[0]].name == "z"
                tans = [0.0 * vals[k] if still and k == case[0] else jnp.asarray(rng.uniform(-1, 1, size=vals[k].shape)) * (1e-3 + 0.1 * jnp.max(jnp.abs(vals[k]))) for k in fl]
                runs += 1
                bad = agree(ob, vals, tans, rng)
                if bad:
                    return {"runs": runs, "violation": {"inputs": {s.name: onp.asarray(v).tolist() for s, v in zip(ob.syms, vals)},
                                                        "direction": [onp.asarray(t).tolist() for t in tans], "difference": bad}}
        return {"runs": runs}

    jits = {}

    def agree(ob, vals, tans, rng):
        def h(*v):
            a = list(vals)
            for k, w in zip(fl, v):
                a[k] = w
            return [x * 1.0 for x in leaves_of(ob.real)(*a)]
        p = tuple(vals[k] for k in fl)
        others = tuple(v for k, v in enumerate(vals) if k not in fl)

        def both(p, others, tans, cts):
            def f(*v):
                a, o = list(v), list(others)
                full = [a.pop(0) if k in fl else o.pop(0) for k in range(n)]
                return [x * 1.0 for x in leaves_of(ob.real)(*full)]
            y, vjp = jax.vjp(f, *p)
            return y, vjp(cts), jax.jvp(f, p, tans)[1]
        shape = jax.eval_shape(h, *p)
        cts = [jnp.asarray(rng.uniform(0.5, 1, size=s.shape)) for s in shape]
        if "f" not in jits:
            jits["f"] = (jax.jit(both), jax.jit(lambda p, o: both(p, o, p, cts)[0]))
        y, back, forth = jits["f"][0](p, others, tuple(tans), cts)
        y = [onp.asarray(v) for v in y]
        if not all(onp.isfinite(v).all() for v in y):
            return None
        for k, b in zip(fl, back):
            if not onp.isfinite(onp.asarray(b)).all():
                return "the derivative with respect to %s is %s" % (ob.syms[k].name, onp.asarray(b).tolist())
        lhs = sum(float(jnp.sum(b * t)) for b, t in zip(back, tans))
        mag = sum(float(jnp.sum(jnp.abs(b * t))) for b, t in zip(back, tans))
        rhs = sum(float(jnp.sum(c * d)) for c, d in zip(cts, forth))
        if not abs(lhs - rhs) <= 1e-6 * mag + 1e-10:
            return "jax.vjp gives %r and jax.jvp %r along the direction" % (lhs, rhs)
        tot = lambda q: sum(float(onp.sum(onp.asarray(c) * onp.asarray(v))) for c, v in zip(cts, jits["f"][1](q, others)))
        scale = sum(float(onp.sum(onp.asarray(c) * onp.abs(v))) for c, v in zip(cts, y))
        # rounding is judged by the size of the result at other samples too
        scale = jits["scale"] = max(scale, jits.get("scale", 0.0))
        best = None
        for eps in (1e-4, 1e-5, 1e-6):
            for sides in ((1, -1), (1, 0), (0, -1)):
                up, lo = [tot(tuple(x + q * eps * t for x, t in zip(p, tans))) if q else sum(
                    float(onp.sum(onp.asarray(c) * v)) for c, v in zip(cts, y)) for q in sides]
                fd = (up - lo) / (eps * (sides[0] - sides[1]))
                if not onp.isfinite(fd):
                    continue  # outside the domain
                err = abs(fd - rhs)
                best = (err, fd) if best is None or err < best[0] else best
                if err <= 1e-3 * mag + 1e-11 * scale / eps + 1e-9 * scale:
                    return None
        if best is None:
            return None
        return "jax.jvp gives %r along the direction and finite differences %r" % (rhs, best[1])

    return Ob("C24.reverse." + ob.name, ob.functions, ob.syms, ob.real, ob.spec, kind="check", check=check, dims=ob.dims,
              bounded="one sample per special value of an input and one generic", timeout=240, cost=3, sizes=ob.sizes, pre=ob.pre)


# --- the list -------------------------------------------------------------------------------

SMOOTH = {"integer_pow", "add", "add_any", "mul", "div", "sub", "pow", "sqrt", "rsqrt", "log", "log1p", "neg", "exp", "expm1", "sin",
          "cos", "tan", "sinh", "cosh", "tanh", "square", "reduce_sum", "dot_general", "broadcast_in_dim", "reshape", "squeeze",
          "transpose", "concatenate", "slice", "expand_dims", "copy", "uf"}
# movements of elements, at places that do not depend on real numbers unless a primitive
# that is not in these lists computes the place
PLACES = {"dim_as_value", "gather", "dynamic_slice", "dynamic_update_slice", "iota", "rev", "pad", "select_n", "scatter", "split"}
TESTS = {"lt", "le", "gt", "ge", "eq", "ne", "clamp", "max", "min", "rem", "sign", "and", "or", "not"}  # of integers
CALLS = {"scan", "jit", "pjit", "closed_call", "core_call", "custom_lin"}


def rough(jaxpr):
    """Primitives whose derivative may not be that of the function of real numbers."""
    out = set()
    for e in jaxpr.eqns:
        nm = e.primitive.name
        if nm in CALLS:
            j = e.params.get("jaxpr") or e.params.get("call_jaxpr")
            out |= rough(getattr(j, "jaxpr", j))
        elif nm == "convert_element_type":
            a, b = e.invars[0].aval.dtype, e.outvars[0].aval.dtype
            if jnp.issubdtype(a, jnp.floating) and b != jnp.float64:
                out.add("convert_element_type to %s" % b)
        elif nm in TESTS:
            if any(jnp.issubdtype(v.aval.dtype, jnp.floating) for v in e.invars):
                out.add(nm)
        elif nm not in SMOOTH and nm not in PLACES:
            out.add(nm)
    return out


def analytic(ob):
    """The value is that of the specification (proved), and the code composes primitives
    which are analytic, with their derivatives, where defined: its derivative is then
    that of the specification.  Otherwise the derivatives themselves are compared."""
    o = derivative(ob)

    def prover(_, scope, modular, inline):
        from jxv import trace as TR
        from jxv.prove import Failed, prove, traced

        with SP.mode("symbolic", ob.opaque - set(inline) if modular else set()):
            j, _t = traced(ob, ob.real, scope, modular, inline)
        bad = rough(j.jaxpr)
        if bad:
            d = derivative(ob)
            d.timeout = 140
            return prove(d, modular, inline)
        return prove(ob, modular, inline)
    o.prover = prover
    o.timeout = 240
    return o


def along(ob, k):
    """In the direction of input k alone."""
    o = copy.copy(ob)
    s = ob.syms[k]
    o.syms = list(ob.syms) + [Sym("d_" + s.name, s.shape, sample=ranged(-1, 1))]
    n = len(ob.syms)

    def jvp(f):
        return lambda *x: jax.jvp(lambda v: leaves_of(f)(*x[:k], v, *x[k + 1:n]), (x[k],), (x[n],))[1]
    o.real, o.spec = jvp(ob.real), jvp(ob.spec)
    o.name = "C24.derivative.%s.%s" % (ob.name, s.name)
    o.rel, o.abs = max(o.rel, 1e-6), max(o.abs, 1e-10)
    o.cost = 5
    return o


def flat():
    """The transverse distance where the curvature vanishes."""
    obs = []
    for sh in (("n",), ()):
        for f, w in ((bkgrd.transverse_comoving_distance, lambda a: 1.0), (bkgrd.angular_diameter_distance, lambda a: a)):
            def spec(p, a, w=w):
                a = jnp.atleast_1d(a)
                c = SP.chi(p, a)
                x = p.Ok * (c / SP.RH) ** 2
                return w(a) * c * (1.0 + x / 6.0 + x**2 / 120.0)
            from .background import cosmo_ob
            ob = cosmo_ob("C03", "%s.flat%s" % (f.__name__, "" if sh else ".scalar"), f, lambda p, a, spec=spec: spec(p, a), [asym(sh)],
                          ["chi"], functions=[f.__name__])
            zero = [s for s in ob.syms if s.name == "Omega_k"][0]
            zero.fixed, zero.special = 0.0, ()
            zero.sample = lambda rng, shape: 0.0
            obs.append(ob)
    return obs


def chosen(name, thorough):
    """Whether the derivative and the batch of a contract are proved in the quick tier."""
    if thorough:
        return True
    if name.startswith("C11."):
        return not any(len(p) > 2 and set(p) <= set("ED") for p in name.split("."))
    if name.startswith("C15."):
        return not any(x in name for x in (".3", ".4", ".5", "1+1+1", "1+1+2", "2+2", "1+2"))
    if name.startswith("C14."):
        return any(x in name for x in (".1.zmax2.float", ".1.zmax2.int", ".2.zmax2.float", "any_zmax", "default_", "linear", "independent", "1+1.zmax"))
    return True


REVERSE = ("C01.", "C02.dchi", "C02.chi[].", "C02.chi[-2, 256]", "C02.a_of_chi", "C03.transverse_comoving_distance.any", "C03.angular_diameter_distance.any",
           "C04.", "C07.Eisenstein_Hu['", "C08.linear", "C08.primordial", "C08.sigmasqr", "C09.halofit[n,n]", "C09.nonlinear", "C10.",
           "C11.weak_lensing_kernel.E.", "C11.weak_lensing_kernel.ED", "C11.kernel.ED", "C12.", "C13.", "C14.angular_cl.1.zmax2.float",
           "C14.angular_cl.2.zmax2.float", "C14.angular_cl.default", "C15.noise.lensing.2", "C15.covariance.dense.2", "C15.covariance_and_mean.dense.1",
           "C18.")


# run in reverse in the thorough tier only: others share their code
ALIKE = (".EEE", "C13.nla_kernel.", "C12.density_kernel.", "C13.WeakLensing.kernel.E.", "C12.NumberCounts.kernel.E.float", ".twice", "default_zmax.scalar", ".kernel.ED.int",
         ".ED.float.scalar_z.m_list", "1,1]", "1,n]", ".positional", "default_zmax.kde")


def direction(ob, name, thorough):
    """Whether the derivative of an angular spectrum in the direction of this input is proved."""
    tracer = name[0] == "t" and name[1:].isdigit()
    if tracer:
        return True
    if ".1.zmax2.float" in ob.name:
        return True
    if "1+1+1" in ob.name or "covariance_and_mean" in ob.name and name == "Omega_c":
        return False  # beyond the time allowed
    if thorough:
        return True
    return name in {"any_zmax": ("zmax",), "default_nonlinear": ("sigma8",), "default_functions": ("Omega_c",), "linear": ("sigma8",)}.get(
        ob.name.split(".")[2], ("ell",)) and "1+1" not in ob.name


def C24():
    import os

    thorough = os.environ.get("VERIF_TIER") == "thorough"
    SP.detect_sigma()
    obs = []
    every = values()
    for ob in every:
        if getattr(ob, "deviation", None) is not None and SP.SIGMA["bounds"] == "log10":
            # the value is that of the known finding of C08: its derivatives are judged here
            nm = ob.name
            ob = ob.deviation
            ob.name = nm
        if not chosen(ob.name, thorough):
            continue
        if "C03." in ob.name and ".any" in ob.name:
            pass  # open, closed and flat apart
        elif ob.name.startswith("C07."):
            obs.append(analytic(ob))
        elif ob.name.startswith("C14.") or "covariance_and_mean.default" in ob.name:
            ks = [k for k in floats(ob) if direction(ob, ob.syms[k].name, thorough)]
            obs += [along(ob, k) for k in ks]
        else:
            obs.append(derivative(ob, apart=ob.name.startswith(("C11.", "C15."))))
        obs.append(batch(ob))
        if any(ob.name.startswith(r) for r in REVERSE) and (thorough or not any(r in ob.name for r in ALIKE)):
            obs.append(reverse(ob))
    for ob in flat():
        obs.append(derivative(ob))
    obs += tools()
    for o in obs:
        if o.kind != "check":
            o.samples = 0  # replayed when the proof fails; the code runs in reverse.*
            o.refute = min(o.refute, 12)
        o.timeout = max(o.timeout, 600 if thorough else 150)
    return obs
