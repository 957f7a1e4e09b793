"""Specifications, written from the publications and definitions, not from the code.

Each is a formula on the public parameters.  In a symbolic proof the ones named in
`opaque` stay uninterpreted functions of all the parameters and their arguments:
the contract of the function of /repo that computes them.
"""
import contextlib
import math
from collections import namedtuple

import jax
import jax.numpy as jnp
import numpy as onp

from jxv import trace as TR

MODE = {"mode": "concrete", "opaque": set()}


@contextlib.contextmanager
def mode(m, opaque):
    old = dict(MODE)
    MODE.update(mode=m, opaque=set(opaque))
    try:
        yield
    finally:
        MODE.update(old)


def opaque(name):
    return MODE["mode"] == "symbolic" and name in MODE["opaque"]


def symbolic():
    return MODE["mode"] == "symbolic"


P = namedtuple("P", "Oc Ob h ns s8 Ok w0 wa g")
P.__new__.__defaults__ = (None,)


def params(cosmo):
    """The parameters of a cosmology, through its public properties."""
    return P(cosmo.Omega_c, cosmo.Omega_b, cosmo.h, cosmo.n_s, cosmo.sigma8, cosmo.Omega_k, cosmo.w0, cosmo.wa,
             cosmo.gamma)


def leaves(p):
    return [x for x in p if x is not None]


C_KM_S = 299792.458
RH = 2997.92458  # c / (100 km/s/(Mpc/h))
H0 = 100.0
TCMB = 2.726
STERADIAN_ARCMIN2 = (180.0 * 60.0 / math.pi) ** 2


def contract(name):
    """A specification that may stay uninterpreted: name(p, *args) elementwise in args."""
    def deco(f):
        def g(p, *args):
            if opaque(name):
                nm = name if p.g is None else name + "|gamma"
                return TR.uf(nm, *leaves(p), *args)
            return f(p, *args)
        g.__name__ = name
        g.formula = f
        return g
    return deco


# --- background (C01 - C04) ------------------------------------------------------------------


def Om(p):
    return p.Oc + p.Ob


def Ode(p):
    return 1.0 - p.Ok - p.Oc - p.Ob


@contract("w")
def w(p, a):
    return p.w0 + p.wa * (1.0 - a)


@contract("f_de")
def f_de(p, a):
    return 3.0 * p.wa * (a - 1.0) - 3.0 * (1.0 + p.w0 + p.wa) * jnp.log(a)


@contract("E2")
def E2(p, a):
    a = jnp.asarray(a)
    return Om(p) / a**3 + p.Ok / a**2 + Ode(p) * jnp.exp(f_de(p, a))


@contract("H")
def H(p, a):
    return H0 * jnp.sqrt(E2(p, a))


@contract("Om_a")
def Om_a(p, a):
    a = jnp.asarray(a)
    return Om(p) / a**3 / E2(p, a)


@contract("Ode_a")
def Ode_a(p, a):
    return Ode(p) * jnp.exp(f_de(p, a)) / E2(p, a)


@contract("dchida")
def dchida(p, a):
    a = jnp.asarray(a)
    return RH / (a**2 * jnp.sqrt(E2(p, a)))


def odeint(fn, y0, t):
    """Classical fourth order Runge-Kutta, one step per interval."""
    if symbolic():
        return TR.odeint_contract(fn, y0, t)

    def step(y, i):
        h = t[i + 1] - t[i]
        m = t[i] + 0.5 * h
        k1 = fn(y, t[i])
        k2 = fn(y + 0.5 * h * k1, m)
        k3 = fn(y + 0.5 * h * k2, m)
        k4 = fn(y + h * k3, t[i + 1])
        y = y + h * (k1 + 2.0 * k2 + 2.0 * k3 + k4) / 6.0
        return y, y

    t = jnp.asarray(t)
    y0 = jnp.asarray(y0, dtype=float)
    _, ys = jax.lax.scan(step, y0, jnp.arange(t.shape[0] - 1))
    return jnp.concatenate([y0[None], ys])


def interp(x, xp, fp):
    """Straight line between the neighbouring entries; the end segments extend outwards."""
    if symbolic():
        return TR.interp_contract(x, xp, fp)
    x, xp, fp = jnp.asarray(x), jnp.asarray(xp), jnp.asarray(fp)
    up = xp[-1] > xp[0]
    xs, fs = jnp.where(up, xp, xp[::-1]), jnp.where(up, fp, fp[::-1])
    j = jnp.clip(jnp.sum(xs <= x[..., None], axis=-1) - 1, 0, xs.shape[0] - 2)
    return fs[j] + (x - xs[j]) * (fs[j + 1] - fs[j]) / (xs[j + 1] - xs[j])


def chi_table(p, log10_amin=-3, steps=256):
    atab = onp.logspace(log10_amin, 0.0, steps)
    lna = onp.log(atab)
    y = odeint(lambda y, x: dchida(p, jnp.exp(x)) * jnp.exp(x), 0.0, lna)
    return atab, y[-1] - y


def chi(p, a, log10_amin=-3, steps=256):
    if opaque("chi"):
        return TR.uf("chi" if p.g is None else "chi|gamma", *leaves(p), jnp.asarray(a) * 1.0,
                     float(log10_amin), float(steps))
    atab, chitab = chi_table(p, log10_amin, steps)
    return jnp.maximum(interp(jnp.asarray(a) * 1.0, atab, chitab), 0.0)


def a_of_chi(p, c):
    if opaque("a_of_chi"):
        return TR.uf("a_of_chi", *leaves(p), jnp.asarray(c) * 1.0)
    atab, chitab = chi_table(p)
    return interp(jnp.asarray(c) * 1.0, chitab, atab)


@contract("fk")
def fk(p, a):
    c = chi(p, a)
    k = jnp.sqrt(jnp.abs(jnp.where(p.Ok == 0, 1.0, p.Ok)))
    x = p.Ok * (c / RH) ** 2
    return jnp.where(
        p.Ok > 0, RH / k * jnp.sinh(k * c / RH),
        jnp.where(p.Ok < 0, RH / k * jnp.sin(k * c / RH), c))


def growth_tables(p):
    atab = onp.logspace(-3, 0.0, 128)
    if p.g is not None:
        y = odeint(lambda y, x: Om_a(p, jnp.exp(x)) ** p.g, float(onp.log(atab[0])), onp.log(atab))
        return atab, jnp.exp(y) / jnp.exp(y[-1]), None

    def rhs(y, a):
        om = Om_a(p, a)
        q = 2.0 - (om + (1.0 + 3.0 * w(p, a)) * Ode_a(p, a)) / 2.0
        return jnp.stack([y[1], 1.5 * om * y[0] / a**2 - q * y[1] / a])

    y = odeint(rhs, onp.array([atab[0], 1.0]), atab)
    return atab, y[:, 0] / y[-1, 0], atab * y[:, 1] / y[:, 0]


@contract("D")
def D(p, a):
    atab, g, _ = growth_tables(p)
    return jnp.clip(interp(jnp.asarray(a) * 1.0, atab, g), 0.0, 1.0)


@contract("frate")
def frate(p, a):
    if p.g is not None:
        return Om_a(p, a) ** p.g
    atab, _, f = growth_tables(p)
    return interp(jnp.asarray(a) * 1.0, atab, f)


# --- quadrature and user supplied functions ---------------------------------------------------


def simps(f, a, b, N=128):
    """Simpson's rule on N (even) equal intervals; f takes the array of abscissae."""
    if N % 2 == 1:
        raise ValueError("odd N")
    a, b = jnp.asarray(a), jnp.asarray(b)
    dx = (b - a) / N
    i = jnp.arange(N + 1).reshape((N + 1,) + (1,) * jnp.ndim(dx))
    y = f(a + i * dx)
    j = jnp.arange(N // 2)
    tot = jnp.sum(y[2 * j] + 4.0 * y[2 * j + 1] + y[2 * j + 2], axis=0)
    return dx * tot / 3.0


def romb(function, a, b, args=(), divmax=6, return_error=False):
    """Richardson extrapolation of the trapezoidal rules with 1, 2, ..., 2^divmax intervals."""
    f = lambda x: function(x, *args)
    T = [(b - a) * (f(a) + f(b)) / 2.0]
    rows = [[jnp.squeeze(jnp.asarray(T[0]))]]
    for j in range(1, divmax + 1):
        n = 2**j
        h = (b - a) / n
        # halving the intervals adds the odd points
        odd = a + h + 2.0 * h * jnp.arange(n // 2)
        T.append(T[-1] / 2.0 + h * jnp.sum(f(odd)))
        row = [jnp.squeeze(T[-1])]
        for k in range(1, j + 1):
            row.append((4.0**k * row[k - 1] - rows[-1][k - 1]) / (4.0**k - 1.0))
        rows.append(row)
    if return_error:
        return rows[divmax][divmax], jnp.abs(rows[divmax - 1][divmax - 1] - rows[divmax][divmax])
    return rows[divmax][divmax]


def leaves_of(c):
    """Parameters of a cosmology of the real code or of the specification."""
    return leaves(c if isinstance(c, P) else params(c))


def user_transfer(c, k, shape=0.0):
    """An arbitrary transfer function of the user, with an option of its own."""
    if symbolic():
        return TR.uf("T", *leaves_of(c), jnp.asarray(shape) * 1.0, jnp.asarray(k) * 1.0)
    p = c if isinstance(c, P) else params(c)
    q = jnp.asarray(k) / ((p.Oc + p.Ob) * p.h * (1.0 + 0.3 * shape))
    return jnp.log(1.0 + 2.34 * q) / (2.34 * q) * (1.0 + 3.89 * q + (16.1 * q) ** 2 + (5.46 * q) ** 3 + (
        6.71 * q) ** 4) ** -0.25


def kappa():
    """A wavenumber that occurs nowhere else: functions equal there are equal everywhere."""
    return TR.free("kappa")


def eh(p, k, type="eisenhu_osc"):
    """Eisenstein & Hu (1998), all lengths in Mpc."""
    if opaque("eh"):
        return TR.uf("eh:" + type, *leaves(p), jnp.asarray(k) * 1.0)
    km = jnp.asarray(k) * p.h  # Mpc^-1
    th = TCMB / 2.7
    om, ob = Om(p) * p.h**2, p.Ob * p.h**2
    fb, fc = p.Ob / Om(p), p.Oc / Om(p)
    zeq = 2.50e4 * om * th**-4  # (2)
    keq = 7.46e-2 * om * th**-2  # (3)
    b1 = 0.313 * om**-0.419 * (1.0 + 0.607 * om**0.674)  # (4)
    b2 = 0.238 * om**0.223
    zd = 1291.0 * om**0.251 / (1.0 + 0.659 * om**0.828) * (1.0 + b1 * ob**b2)
    R = lambda z: 31.5 * ob * th**-4 * (1.0e3 / z)  # (5)
    Req, Rd = R(zeq), R(zd)
    s = 2.0 / (3.0 * keq) * jnp.sqrt(6.0 / Req) * jnp.log(
        (jnp.sqrt(1.0 + Rd) + jnp.sqrt(Rd + Req)) / (1.0 + jnp.sqrt(Req)))  # (6)
    ksilk = 1.6 * ob**0.52 * om**0.73 * (1.0 + (10.4 * om) ** -0.95)  # (7)
    if type == "eisenhu":
        al = 1.0 - 0.328 * jnp.log(431.0 * om) * fb + 0.38 * jnp.log(22.3 * om) * fb**2  # (31)
        gam = Om(p) * p.h * (al + (1.0 - al) / (1.0 + (0.43 * km * s) ** 4))  # (30)
        q = k * th**2 / gam  # (28)
        L0 = jnp.log(2.0 * math.e + 1.8 * q)  # (29)
        C0 = 14.2 + 731.0 / (1.0 + 62.5 * q)
        return L0 / (L0 + C0 * q**2)
    q = km / (13.41 * keq)  # (10)
    a1 = (46.9 * om) ** 0.670 * (1.0 + (32.1 * om) ** -0.532)  # (11)
    a2 = (12.0 * om) ** 0.424 * (1.0 + (45.0 * om) ** -0.582)
    alc = a1 ** (-fb) * a2 ** (-(fb**3))
    bb1 = 0.944 / (1.0 + (458.0 * om) ** -0.708)  # (12)
    bb2 = (0.395 * om) ** -0.0266
    bec = 1.0 / (1.0 + bb1 * (fc**bb2 - 1.0))

    def T0(al, be):  # (19), (20)
        C = 14.2 / al + 386.0 / (1.0 + 69.9 * q**1.08)
        L = jnp.log(math.e + 1.8 * be * q)
        return L / (L + C * q**2)

    f = 1.0 / (1.0 + (km * s / 5.4) ** 4)  # (18)
    Tc = f * T0(1.0, bec) + (1.0 - f) * T0(alc, bec)  # (17)
    y = (1.0 + zeq) / (1.0 + zd)
    r = jnp.sqrt(1.0 + y)
    G = y * (-6.0 * r + (2.0 + 3.0 * y) * jnp.log((r + 1.0) / (r - 1.0)))  # (15)
    alb = 2.07 * keq * s * (1.0 + Rd) ** -0.75 * G  # (14)
    node = 8.41 * om**0.435  # (23)
    st = s / (1.0 + (node / (km * s)) ** 3) ** (1.0 / 3.0)  # (22)
    beb = 0.5 + fb + (3.0 - 2.0 * fb) * jnp.sqrt((17.2 * om) ** 2 + 1.0)  # (24)
    x = km * st
    j0 = jnp.sin(x) / x
    Tb = (T0(1.0, 1.0) / (1.0 + (km * s / 5.2) ** 2)
          + alb / (1.0 + (beb / (km * s)) ** 3) * jnp.exp(-((km / ksilk) ** 1.4))) * j0  # (21)
    return fb * Tb + fc * Tc  # (16)


def eh_fn(c, k, type="eisenhu_osc"):
    return eh(c if isinstance(c, P) else params(c), k, type)


def primordial(p, k):
    return jnp.asarray(k) ** p.ns


# The published variance integrates over ln k from ln(kmin) to ln(kmax).  The code takes
# decimal logarithms of the bounds instead: known finding of C08.
SIGMA = {"bounds": "ln", "known": False}


def detect_sigma():
    """Which of the two the current code does, for replays of its callers."""
    if SIGMA["known"]:
        return
    SIGMA["known"] = True
    import jax_cosmo.power as power
    from jax_cosmo.parameters import Planck15

    c = Planck15()
    with mode("concrete", set()):
        try:
            x = float(power.sigmasqr(c, 8.0, user_transfer))
            y = {b: float(sigma2(params(c), 8.0, user_transfer, bounds=b)) for b in ("ln", "log10")}
        except Exception:
            return
    if abs(x - y["log10"]) < 1e-6 * x and not abs(x - y["ln"]) < 1e-6 * x:
        SIGMA["bounds"] = "log10"


def sigma2(p, R, T, kmin=1e-4, kmax=1e3, bounds=None, **kw):
    if opaque("sigma2"):
        return TR.uf("sigma2", *leaves(p), jnp.asarray(R) * 1.0, T(p, kappa(), **kw), jnp.asarray(kmin) * 1.0,
                     jnp.asarray(kmax) * 1.0)

    def f(lnk):
        k = jnp.exp(lnk)
        x = k * R
        W = 3.0 * (jnp.sin(x) - x * jnp.cos(x)) / x**3
        return k**3 * primordial(p, k) * T(p, k, **kw) ** 2 * W**2

    lg = jnp.log if (bounds or SIGMA["bounds"]) == "ln" else jnp.log10
    return romb(f, lg(kmin), lg(kmax), divmax=7) / (2.0 * math.pi**2)


def Plin(p, k, a, T, **kw):
    """Elementwise in the (broadcast) arrays k and a."""
    k, a = jnp.asarray(k) * 1.0, jnp.asarray(a) * 1.0
    if opaque("Plin"):
        return TR.uf("Plin", *leaves(p), k, a, T(p, kappa(), **kw))
    return p.s8**2 * primordial(p, k) * T(p, k, **kw) ** 2 * D(p, a) ** 2 / sigma2(p, 8.0, T, **kw)


def halofit_pars(p, a, T):
    """Nonlinear wavenumber, effective index and curvature for each scale factor."""
    a = jnp.atleast_1d(a) * 1.0
    if opaque("halofit_pars"):
        args = [*leaves(p), a, T(p, kappa())]
        return TR.uf("k_nl", *args), TR.uf("n_eff", *args), TR.uf("C_nl", *args)
    lnr = jnp.log(1e-4) + jnp.arange(256) * (jnp.log(1e1) - jnp.log(1e-4)) / 255
    lo, hi = jnp.log(1e-4), jnp.log(1e4)

    def delta2(lnk):
        k = jnp.exp(lnk)
        return k**3 * Plin(p, k, 1.0, T) / (2.0 * math.pi**2)

    def one(a):
        g2 = D(p, jnp.atleast_1d(a)) ** 2
        s2 = simps(lambda lnk: (delta2(lnk) * g2)[:, None] * jnp.exp(-((jnp.exp(lnk)[:, None] * jnp.exp(lnr)[None]) ** 2)),
                   lo, hi, 256)
        return jnp.maximum(jnp.exp(interp(jnp.ones(1), s2, lnr)[0]), 1e-6)

    R = jax.vmap(one)(a)
    g2 = D(p, a) ** 2

    def moments(lnk):
        y2 = (jnp.exp(lnk)[:, None] * R[None]) ** 2
        d = delta2(lnk)[:, None] * g2[None] * jnp.exp(-y2)
        return jnp.stack([2.0 * d * y2, 4.0 * d * (y2 - y2**2)], axis=1)

    m = simps(moments, lo, hi, 256)
    return 1.0 / R, m[0] - 3.0, m[0] ** 2 + m[1]


def halofit(p, k, a, T, prescription="takahashi2012"):
    """Elementwise in the (broadcast) arrays k and a (at least one dimension)."""
    a = jnp.atleast_1d(a) * 1.0
    k = jnp.asarray(k) * 1.0
    kn, n, C = halofit_pars(p, a, T)
    om, ode, wa = Om_a(p, a), Ode_a(p, a), w(p, a)
    ten = lambda x: jnp.exp(x * math.log(10.0))
    if prescription == "takahashi2012":
        q = ode * (1.0 + wa)
        an = ten(1.5222 + 2.8553 * n + 2.3706 * n**2 + 0.9903 * n**3 + 0.2250 * n**4 - 0.6038 * C + 0.1749 * q)
        bn = ten(-0.5642 + 0.5864 * n + 0.5716 * n**2 - 1.5474 * C + 0.2279 * q)
        cn = ten(0.3698 + 2.0404 * n + 0.8161 * n**2 + 0.5869 * C)
        gam = 0.1971 - 0.0843 * n + 0.8460 * C
        al = jnp.abs(6.0835 + 1.3373 * n - 0.1959 * n**2 - 5.5274 * C)
        be = 2.0379 - 0.7354 * n + 0.3157 * n**2 + 1.2490 * n**3 + 0.3980 * n**4 - 0.1682 * C
        mu = 0.0
        nu = ten(5.2105 + 3.6902 * n)
        f1, f2, f3 = om**-0.0307, om**-0.0585, om**0.0743
    else:
        an = ten(1.4861 + 1.8369 * n + 1.6762 * n**2 + 0.7940 * n**3 + 0.1670 * n**4 - 0.6206 * C)
        bn = ten(0.9463 + 0.9466 * n + 0.3084 * n**2 - 0.9400 * C)
        cn = ten(-0.2807 + 0.6669 * n + 0.3214 * n**2 - 0.0793 * C)
        gam = 0.8649 + 0.2989 * n + 0.1631 * C
        al = 1.3884 + 0.3700 * n - 0.1452 * n**2
        be = 0.8291 + 0.9854 * n + 0.3401 * n**2
        mu = ten(-3.5442 + 0.1908 * n)
        nu = ten(0.9589 + 1.2857 * n)
        r = ode / (1.0 - om)
        f1 = r * om**-0.0307 + (1.0 - r) * om**-0.0732
        f2 = r * om**-0.0585 + (1.0 - r) * om**-0.1423
        f3 = r * om**0.0743 + (1.0 - r) * om**0.0725
    pl = Plin(p, k, a, T)
    d2 = k**3 * pl / (2.0 * math.pi**2)
    y = k / kn
    dq = d2 * (1.0 + d2) ** be / (1.0 + al * d2) * jnp.exp(-(y / 4.0 + y**2 / 8.0))
    dh = an * y ** (3.0 * f1) / (1.0 + bn * y**f2 + (cn * f3 * y) ** (3.0 - gam))
    dh = dh / (1.0 + mu / y + nu / y**2)
    return (dq + dh) * 2.0 * math.pi**2 / k**3


# --- redshift distributions, biases and kernels ---------------------------------------------------


def smail(z, a, b, z0):
    return z**a * jnp.exp(-((z / z0) ** b))


def kde(z, zcat, wt, bw):
    d = (zcat[:, None] - z[None, :]) / bw
    return jnp.sum(wt[:, None] * jnp.exp(-0.5 * d**2), axis=0) / (math.sqrt(2.0 * math.pi) * bw) / jnp.sum(wt)


def normed(pz, z, zmax):
    return pz(z) / simps(pz, 0.0, zmax, 256)


def pz_fn(theta, z):
    """An arbitrary unnormalised redshift distribution with a parameter theta."""
    if symbolic():
        return TR.uf("pz", theta, jnp.asarray(z) * 1.0)
    z = jnp.asarray(z)
    return (2.0 + theta) * z**1.5 * jnp.exp(-z * (1.2 + theta**2)) + 0.1


def nz_fn(theta, z):
    """An arbitrary normalised redshift distribution with a parameter theta."""
    if symbolic():
        return TR.uf("nz", theta, jnp.asarray(z) * 1.0)
    z = jnp.asarray(z)
    return (1.0 + 0.2 * theta) * z**2 * jnp.exp(-z * (1.5 + theta**2))


def bias_fn(theta, c, z):
    """An arbitrary bias."""
    if symbolic():
        return TR.uf("bias", *leaves_of(c), theta, jnp.asarray(z) * 1.0)
    p = c if isinstance(c, P) else params(c)
    return (1.0 + theta) * (1.0 + 0.3 * jnp.asarray(z)) ** (p.Oc + p.h)


def kernel_fn(theta, c, z, ell):
    """An arbitrary radial kernel of one tracer."""
    if symbolic():
        return TR.uf("K", *leaves_of(c), theta, jnp.asarray(z) * 1.0, jnp.asarray(ell) * 1.0)
    p = c if isinstance(c, P) else params(c)
    z = jnp.asarray(z)
    return (1.3 + jnp.sin(theta + 3.0 * z)) * (1.0 + 0.01 * theta * jnp.sqrt(ell * 1.0)) * (p.Oc + p.h)


def user_nonlinear(c, k, a, transfer_fn):
    """An arbitrary nonlinear power spectrum built on a transfer function."""
    if symbolic():
        return TR.uf("Pnl", *leaves_of(c), jnp.asarray(k) * 1.0, jnp.asarray(a) * 1.0, transfer_fn(c, kappa()))
    p = c if isinstance(c, P) else params(c)
    return k**p.ns * transfer_fn(c, k) ** 2 * a**1.5 * 1.0e4


def ellfac(ell):
    ell = jnp.asarray(ell) * 1.0
    return jnp.sqrt((ell + 2.0) * (ell + 1.0) * ell * (ell - 1.0)) / (ell + 0.5) ** 2


def lens_bin(p, z, ell, zmax, nz=None, plane=None):
    """Lensing kernel of a bin of sources distributed as nz, or in the plane at redshift `plane`."""
    if opaque("lens_bin"):
        src = ("nz", nz(kappa())) if plane is None else ("plane", jnp.asarray(plane) * 1.0)
        return TR.uf("lens_bin:" + src[0], *leaves(p), src[1], jnp.asarray(zmax) * 1.0, z, jnp.asarray(ell) * 1.0)
    at = lambda z: 1.0 / (1.0 + z)
    c = chi(p, at(z))

    def eff(c1):
        return jnp.maximum(c1 - c, 0.0) / jnp.maximum(c1, 1.0)

    if plane is not None:
        q = eff(chi(p, at(jnp.asarray(plane) * jnp.ones(z.shape))))
    else:
        q = simps(lambda zp: nz(zp) * eff(chi(p, at(zp))), z, zmax, 256)
    return 1.5 * H0**2 * Om(p) / C_KM_S * ellfac(ell) * (1.0 + z) * c * q


def count_bin(p, z, nz, b):
    if opaque("count_bin"):
        return TR.uf("count_bin", *leaves(p), nz(kappa()), b(kappa()), z)
    return nz(z) * b(z) * H(p, 1.0 / (1.0 + z))


def nla_bin(p, z, ell, nz, b):
    return -(5e-14 * 2.775e11) * Om(p) / D(p, 1.0 / (1.0 + z)) * count_bin(p, z, nz, b) * ellfac(ell)


def pairs(n):
    return [(i, j) for i in range(n) for j in range(i, n)]


def limber(p, ell, Ks, zmax, Pnl):
    """Angular spectra of all pairs of the kernels Ks, for an array of multipoles."""
    def one(l):
        def f(a):
            c = chi(p, a)
            k = (l + 0.5) / jnp.maximum(c, 1.0)
            base = Pnl(p, k, a) * dchida(p, a) / jnp.maximum(c**2, 1.0)
            z = 1.0 / a - 1.0
            K = [Ki(p, z, l) for Ki in Ks]
            return jnp.stack([base * K[i] * K[j] for i, j in pairs(len(Ks))], axis=1)
        return simps(f, 1.0 / (1.0 + zmax), 1.0, 512) / C_KM_S**2
    return jax.vmap(one, out_axes=1)(jnp.asarray(ell) * 1.0)


def spacing(ell):
    """Half the distance between the neighbours; the distance to the neighbour at the ends."""
    n = ell.shape[0]
    i = jnp.arange(n)
    up, dn = jnp.minimum(i + 1, n - 1), jnp.maximum(i - 1, 0)
    return (ell[up] - ell[dn]) / (up - dn)


def covariance(ell, cl, f_sky, ntr):
    """Elements [spectrum, spectrum', multipole] of the Gaussian covariance of total spectra cl."""
    pr = pairs(ntr)
    idx = lambda i, j: pr.index((min(i, j), max(i, j)))
    norm = (2.0 * ell + 1.0) * spacing(ell) * f_sky
    rows = [[(cl[idx(i, m)] * cl[idx(j, n)] + cl[idx(i, n)] * cl[idx(j, m)]) / norm for m, n in pr] for i, j in pr]
    return jnp.stack([jnp.stack(r) for r in rows])


def dense(sp):
    """Element p of block (i, j) at row i n + p, column j n + p."""
    a, b, n = sp.shape
    r, c = jnp.arange(a * n), jnp.arange(b * n)
    v = sp[r[:, None] // n, c[None, :] // n, r[:, None] % n]
    return jnp.where(r[:, None] % n == c[None, :] % n, v, 0.0)
