"""Contracts of jax_cosmo.scipy: quadrature and differential equations (C22, C23)."""
from .common import *
from jxv import trace as TR


def fx(name, x, *args):
    """An arbitrary function."""
    x = jnp.asarray(x) * 1.0
    if SP.symbolic():
        return TR.uf(name, x, *args)
    y = jnp.cos(1.3 * x) + 0.3 * x**2 + 0.1 * len(name)
    for k, a in enumerate(args):
        y = y + jnp.sin(x * jnp.asarray(a)) * (0.5 + 0.2 * k)
    return y


def bound(name, shape=(), **kw):
    return Sym(name, shape, sample=ranged(-2.0, 3.0), **kw)


def half(i):
    """An input of no effect, whose size is half the number of intervals."""
    return Sym("half", (i,), sample=ranged(0, 1))


def simps_real(f, a, b, N):
    return integrate.simps(f, a, b, N)


def C22():
    obs = []
    a, b = bound("a"), bound("b")

    def ob(name, syms, real, spec, fns=("simps",), dims=None, **kw):
        if dims is None:
            dims = {d: 1 for x in syms for d in x.shape if isinstance(d, str)}
        obs.append(Ob("C22." + name, list(fns), syms, real, spec, dims=dims, sizes={"h": 9}, **kw))

    f = lambda x: fx("f", x)
    # any even number of intervals
    ob("simps.any_even_N", [a, b, half("h")], lambda a, b, h: integrate.simps(f, a, b, 2 * h.shape[0]),
       lambda a, b, h: SP.simps(f, a, b, 2 * h.shape[0]))
    ob("simps.any_even_N.keyword", [a, b, half("h")], lambda a, b, h: integrate.simps(f, a=a, b=b, N=2 * h.shape[0]),
       lambda a, b, h: SP.simps(f, a, b, 2 * h.shape[0]))
    ob("simps.default_N", [a, b], lambda a, b: integrate.simps(f, a, b), lambda a, b: SP.simps(f, a, b, 128))
    for N in (2, 4, 6, 64, 256, 512, 1000):
        ob("simps.N%d" % N, [a, b], lambda a, b, N=N: integrate.simps(f, a, b, N), lambda a, b, N=N: SP.simps(f, a, b, N))
    # vector-valued functions and arrays of bounds
    th = Sym("theta", ("m",), sample=ranged(-1, 1))
    vec = lambda t: (lambda x: fx("g", x[..., None], t))
    ob("simps.vector", [a, b, th, half("h")], lambda a, b, t, h: integrate.simps(vec(t), a, b, 2 * h.shape[0]),
       lambda a, b, t, h: SP.simps(vec(t), a, b, 2 * h.shape[0]))
    A, B = bound("a", ("m",)), bound("b", ("m",))
    ob("simps.bounds", [A, B, half("h")], lambda a, b, h: integrate.simps(f, a, b, 2 * h.shape[0]),
       lambda a, b, h: SP.simps(f, a, b, 2 * h.shape[0]))
    ob("simps.lower_bounds", [A, b, half("h")], lambda a, b, h: integrate.simps(f, a, b, 2 * h.shape[0]),
       lambda a, b, h: SP.simps(f, a, b, 2 * h.shape[0]))
    ob("simps.upper_bounds", [a, B, half("h")], lambda a, b, h: integrate.simps(f, a, b, 2 * h.shape[0]),
       lambda a, b, h: SP.simps(f, a, b, 2 * h.shape[0]))
    A2, B2 = bound("a", ("m", "k")), bound("b", ("m", "k"))
    ob("simps.bounds2", [A2, B2, half("h")], lambda a, b, h: integrate.simps(f, a, b, 2 * h.shape[0]),
       lambda a, b, h: SP.simps(f, a, b, 2 * h.shape[0]))
    # exact for cubics
    cs = [Sym("c%d" % i, (), sample=ranged(-1, 1)) for i in range(4)]

    def cubic(a, b, h, *c):
        return integrate.simps(lambda x: c[0] + c[1] * x + c[2] * x**2 + c[3] * x**3, a, b, 2 * h.shape[0])

    ob("lemma.simps.cubics", [a, b, half("h")] + cs, cubic,
       lambda a, b, h, *c: sum(c[i] * (b ** (i + 1) - a ** (i + 1)) / (i + 1.0) for i in range(4)))

    def odd(seed, tier):
        import jax
        from jax import export
        # for every number of intervals 2 h + 1, with h a symbolic dimension
        (h,) = export.symbolic_shape("h")
        TR.install_len()
        try:
            n = 0
            for N in [2 * h + 1] + list(range(1, 40, 2)):
                n += 1
                def run(x, y, N=N):
                    return integrate.simps(jnp.cos, x, y, N)
                try:
                    jax.make_jaxpr(run)(0.0, 1.0)
                except ValueError:
                    continue
                return {"runs": n, "violation": {"case": "N = %s" % N, "difference": "accepted"}}
            return {"runs": n}
        finally:
            TR.remove_len()
    obs.append(Ob("C22.simps.odd_N_rejected", ["simps"], [], None, None, kind="check", check=odd,
                  bounded="symbolic execution for every odd N, and 20 listed calls"))
    # Romberg
    for d in range(1, 10):
        for err in (False, True):
            k = {"return_error": True} if err else {}
            ob("romb.divmax%d%s" % (d, ".error" if err else ""), [a, b],
               lambda a, b, d=d, k=k: integrate.romb(f, a, b, divmax=d, **k),
               lambda a, b, d=d, k=k: SP.romb(f, a, b, divmax=d, **k), fns=["romb", "_difftrap1", "_difftrapn", "_romberg_diff"], timeout=100)
    p, q = Sym("p", (), sample=ranged(-1, 1)), Sym("q", ("m",), sample=ranged(-1, 1))
    g = lambda x, p, q: fx("g", x, p, q)
    ob("romb.default", [a, b], lambda a, b: integrate.romb(f, a, b), lambda a, b: SP.romb(f, a, b, divmax=6), fns=["romb"])
    ob("romb.args", [a, b, p, Sym("q", (), sample=ranged(-1, 1))],
       lambda a, b, p, q: (integrate.romb(g, a, b, (p, q)), integrate.romb(g, a, b, args=(p, q), divmax=3, return_error=True)),
       lambda a, b, p, q: (SP.romb(g, a, b, (p, q)), SP.romb(g, a, b, args=(p, q), divmax=3, return_error=True)), fns=["romb"])
    return obs


# --- differential equations ---------------------------------------------------------------


def rhs(y, t):
    """An arbitrary right-hand side."""
    y, t = jnp.asarray(y), jnp.asarray(t)
    if SP.symbolic():
        if y.ndim == 0:
            return TR.uf("F", y * 1.0, t * 1.0)
        return TR.uf("F", y * 1.0, t * 1.0, cores=(y.ndim, 0), outs=y.ndim)
    return -0.7 * y * jnp.cos(t) + 0.2 * jnp.flip(y) ** 2 + 0.3 * t


def step(f, y, t0, t1):
    """One classical fourth-order Runge-Kutta step."""
    h = t1 - t0
    k1 = f(y, t0)
    k2 = f(y + 0.5 * h * k1, t0 + 0.5 * h)
    k3 = f(y + 0.5 * h * k2, t0 + 0.5 * h)
    k4 = f(y + h * k3, t1)
    return y + h * (k1 + 2.0 * k2 + 2.0 * k3 + k4) / 6.0


def C23():
    obs = []
    for tag, sh in (("scalar", ()), ("vector", ("m",)), ("matrix", ("m", "k")), ("two", (2,)), ("array3", ("m", 2, "k"))):
        y0 = Sym("y0", sh, sample=ranged(-1, 1))
        t = Sym("t", ("n",), sample=lambda rng, s: onp.cumsum(rng.uniform(0.05, 0.4, size=s)) * rng.choice([-1, 1]))

        def real(y0, t):
            ys = ode.odeint(rhs, y0, t)
            m = jax.vmap(lambda y, a, b: step(rhs, y, a, b))(ys[:-1], t[:-1], t[1:])
            return ys[0] - y0, ys[1:] - m, ys.shape == t.shape + y0.shape

        dims = {d: 1 for d in sh if isinstance(d, str)}
        dims["n"] = 2
        obs.append(Ob("C23.odeint." + tag, ["odeint", "odeint.rk4"], [y0, t], real,
                      lambda y0, t: (jnp.zeros(y0.shape), jnp.zeros((t.shape[0] - 1,) + y0.shape), True),
                      dims=dims, sizes={"n": 7}, unfold=True, abs_=1e-10))
    # a right-hand side that depends on time only, as for distances, started from a number
    t = Sym("t", ("n",), sample=lambda rng, s: onp.cumsum(rng.uniform(0.05, 0.4, size=s)) * rng.choice([-1, 1]))

    def quad(t):
        ys = ode.odeint(lambda y, x: fx("f", x), 0.0, t)
        m = jax.vmap(lambda y, a, b: step(lambda y, x: fx("f", x), y, a, b))(ys[:-1], t[:-1], t[1:])
        return ys[0], ys[1:] - m

    obs.append(Ob("C23.odeint.quadrature", ["odeint", "odeint.rk4"], [t], quad,
                  lambda t: (0.0, jnp.zeros((t.shape[0] - 1,))), dims={"n": 2}, sizes={"n": 7}, unfold=True, abs_=1e-10))
    obs.append(Ob("C23.odeint.single_time", ["odeint"], [Sym("y0", ("m",), sample=ranged(-1, 1)), Sym("t", (1,), sample=ranged(-1, 1))],
                  lambda y0, t: ode.odeint(rhs, y0, t), lambda y0, t: y0[None], dims={"m": 1}))
    return obs
