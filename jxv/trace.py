"""Tracing of the real functions, and the contracts that stand for their callees.

While a caller is traced, a callee is replaced by its contract: either an
uninterpreted function of its arguments (primitive `uf`) or a specification.
"""
import contextlib
import sys
import types

import jax
import jax.numpy as jnp
import numpy as onp
from jax import export
from jax.extend import core as jexc
from jax.interpreters import ad, batching, mlir

REPO_MODULES = [
    "jax_cosmo", "jax_cosmo.angular_cl", "jax_cosmo.background", "jax_cosmo.bias",
    "jax_cosmo.constants", "jax_cosmo.core", "jax_cosmo.jax_utils", "jax_cosmo.likelihood",
    "jax_cosmo.parameters", "jax_cosmo.power", "jax_cosmo.probes", "jax_cosmo.redshift",
    "jax_cosmo.sparse", "jax_cosmo.transfer", "jax_cosmo.utils", "jax_cosmo.scipy",
    "jax_cosmo.scipy.integrate", "jax_cosmo.scipy.interpolate", "jax_cosmo.scipy.ode",
]

ShapedArray = jax.core.ShapedArray

# --- uninterpreted functions ------------------------------------------------------

uf_p = jexc.Primitive("uf")


def uf(name, *args, cores=None, outs=0, dtype=None):
    """name(args): elementwise over the leading dimensions, with the last cores[k]
    dimensions of argument k passed as a whole and outs trailing dimensions in
    the result (of the sizes of the last dimensions of the first argument)."""
    args = [jnp.asarray(a) for a in args]
    args = [a.astype(float) if (a.dtype == bool or jnp.issubdtype(a.dtype, jnp.integer)) and not cores else a for a in args]
    cores = tuple(cores or (0,) * len(args))
    lead = jnp.broadcast_shapes(*[a.shape[: a.ndim - c] for a, c in zip(args, cores)])
    args = [
        a if a.shape[: a.ndim - c] == lead else spread(a, lead, c) for a, c in zip(args, cores)
    ]
    return uf_p.bind(*args, name=name, cores=cores, outs=outs)


def spread(a, lead, core):
    """a broadcast over the leading dimensions, within the ongoing trace."""
    if _Z and not isinstance(a, jax.core.Tracer):
        a = a + 0.0 * _Z[-1]
    return jnp.broadcast_to(a, tuple(lead) + tuple(a.shape[a.ndim - core:]))


@uf_p.def_impl
def _uf_impl(*args, name, cores, outs):
    raise NotImplementedError("contract %s evaluated on concrete values" % name)


@uf_p.def_abstract_eval
def _uf_abs(*args, name, cores, outs):
    a = args[0]
    lead = a.shape[: len(a.shape) - cores[0]]
    tail = a.shape[len(a.shape) - outs:] if outs else ()
    dt = jnp.result_type(float)
    return ShapedArray(tuple(lead) + tuple(tail), dt)


def _uf_batch(args, dims, *, name, cores, outs):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
    new = []
    for a, d in zip(args, dims):
        if d is None:
            new.append(jnp.broadcast_to(a, (size,) + tuple(a.shape)))
        else:
            new.append(jnp.moveaxis(a, d, 0))
    return uf_p.bind(*new, name=name, cores=cores, outs=outs), 0


batching.primitive_batchers[uf_p] = _uf_batch


def _uf_jvp(args, tans, *, name, cores, outs):
    out = uf_p.bind(*args, name=name, cores=cores, outs=outs)
    t = None
    for k, dt in enumerate(tans):
        if isinstance(dt, ad.Zero):
            continue
        if cores[k] == 0 and outs == 0:
            d = uf_p.bind(*args, name=name + "'%d" % k, cores=cores, outs=outs) * dt
        else:
            d = uf_p.bind(*args, dt, name=name + "'%d" % k, cores=cores + (cores[k],), outs=outs)
        t = d if t is None else t + d
    if t is None:
        t = ad.Zero.from_primal_value(out) if hasattr(ad.Zero, "from_primal_value") else jnp.zeros_like(out)
    return out, t


ad.primitive_jvps[uf_p] = _uf_jvp
mlir.register_lowering(uf_p, mlir.lower_fun(lambda *a, **k: _uf_impl(*a, **k), multiple_results=False))

# --- the solution of an ordinary differential equation -------------------------------

odevar_p = jexc.Primitive("odevar")
ode_p = jexc.Primitive("ode")


@odevar_p.def_impl
def _odevar_impl(z, *, level, which, shape, dtype):
    raise NotImplementedError("state of an unspecified time")


@odevar_p.def_abstract_eval
def _odevar_abs(z, *, level, which, shape, dtype):
    return ShapedArray(shape, dtype)


@ode_p.def_impl
def _ode_impl(*a, level, lead=0):
    raise NotImplementedError("contract odeint evaluated on concrete values")


@ode_p.def_abstract_eval
def _ode_abs(y0, t, F, *tangents, level, lead=0):
    return ShapedArray(tuple(t.shape) + tuple(y0.shape[lead:]), F.dtype)


def _ode_jvp(args, tans, *, level, lead=0):
    """The derivative of the solution is a function of what determines the solution and
    of the derivatives of the initial values, the times and the right-hand side (at
    given state and time)."""
    if len(args) > 3:
        raise NotImplementedError("second derivatives of odeint")
    out = ode_p.bind(*args, level=level, lead=lead)
    if all(isinstance(d, ad.Zero) for d in tans):
        return out, ad.Zero.from_primal_value(out)
    full = [jnp.zeros_like(a) if isinstance(d, ad.Zero) else d for a, d in zip(args, tans)]
    return out, ode_p.bind(*args, *full, level=level, lead=lead)


ad.primitive_jvps[ode_p] = _ode_jvp
ad.primitive_jvps[odevar_p] = lambda a, t, **kw: (odevar_p.bind(*a, **kw), ad.Zero(ShapedArray(kw["shape"], kw["dtype"])))


def _ode_batch(args, dims, *, level, lead=0):
    size = next(a.shape[d] for a, d in zip(args, dims) if d is not None)
    new = [jnp.broadcast_to(a, (size,) + tuple(a.shape)) if d is None else jnp.moveaxis(a, d, 0) for a, d in zip(args, dims)]
    return ode_p.bind(*new, level=level, lead=lead + 1), 0


batching.primitive_batchers[ode_p] = _ode_batch


_LEVEL = [0]
_Z = []


def odeint_contract(fn, y0, t):
    """odeint(fn, y0, t) as a function of y0, t and the right-hand side."""
    y0 = jnp.asarray(y0) * 1.0
    t = jnp.asarray(t) * 1.0
    _LEVEL[0] += 1
    lv = _LEVEL[0]
    # bind on a traced value, so that the variables belong to the ongoing trace
    z = _Z[-1]
    y = odevar_p.bind(z, level=lv, which="y", shape=tuple(y0.shape), dtype=jnp.result_type(float))
    x = odevar_p.bind(z, level=lv, which="x", shape=(), dtype=jnp.result_type(float))
    F = jnp.asarray(fn(y, x)) + 0.0 * z
    F = jnp.broadcast_to(F, y0.shape)
    return ode_p.bind(y0, t, F, level=lv)


def free(name):
    """A variable of the proof that is not an input."""
    return odevar_p.bind(_Z[-1], level=0, which=name, shape=(), dtype=jnp.result_type(float))


# --- interpolation and linear algebra contracts ---------------------------------------


def interp_contract(x, xp, fp):
    """interp(x, xp, fp) as an elementwise function of x, given the table."""
    return uf("interp", jnp.asarray(x) * 1.0, jnp.asarray(xp) * 1.0, jnp.asarray(fp) * 1.0, cores=(0, 1, 1))


def inv_contract(a):
    return uf("inv", a, cores=(2,), outs=2)


def slogdet_contract(a):
    return uf("detsign", a, cores=(2,)), uf("logabsdet", a, cores=(2,))


def det_contract(a):
    return uf("detsign", a, cores=(2,)) * jnp.exp(uf("logabsdet", a, cores=(2,)))


def solve_contract(a, b):
    # a^-1 b: the inverse is that of the contract of `inv`
    return jnp.matmul(inv_contract(a), b)


solve_p = jexc.Primitive("solve")


@solve_p.def_impl
def _solve_impl(a, b):
    raise NotImplementedError("contract of solve evaluated on concrete values")


@solve_p.def_abstract_eval
def _solve_abs(a, b):
    return ShapedArray(b.shape, b.dtype)


@contextlib.contextmanager
def solve_recorded():
    """np.linalg.solve(A, s) is an arbitrary z with A z = s: the residuals are at hand."""
    import jax.scipy.linalg as jsl

    saved = [(jnp.linalg, "solve", jnp.linalg.solve), (jsl, "solve", jsl.solve)]
    f = lambda a, b, **kw: solve_p.bind(jnp.asarray(a) * 1.0, jnp.asarray(b) * 1.0)
    jnp.linalg.solve = f
    jsl.solve = f
    try:
        yield
    finally:
        for m, n, g in saved:
            setattr(m, n, g)


@contextlib.contextmanager
def forked(choices):
    """Branches of the Python code on traced conditions follow `choices`; the conditions are recorded."""
    log = []
    cls = jax.core.Tracer
    old = cls.__bool__

    def decide(self):
        k = len(log)
        log.append((self, choices[k] if k < len(choices) else True))
        return log[-1][1]
    cls.__bool__ = decide
    try:
        yield log
    finally:
        cls.__bool__ = old


def tri(a, lower):
    """The symmetric matrix of which only the lower (upper) triangle is read."""
    n = a.shape[-1]
    i = jnp.arange(n)
    keep = (i[:, None] >= i[None, :]) if lower else (i[:, None] <= i[None, :])
    at = jnp.swapaxes(a, -1, -2)
    return jnp.where(keep, a, at)


class Cho:
    """Cholesky factor as an opaque object: only cho_solve may use it."""

    def __init__(self, sym):
        self.sym = sym


def cho_factor_contract(a, lower=False, overwrite_a=False, check_finite=True):
    return (Cho(tri(a, lower)), lower)


def cho_solve_contract(c_and_lower, b, overwrite_b=False, check_finite=True):
    c, lower = c_and_lower
    if isinstance(c, Cho):
        return jnp.matmul(inv_contract(c.sym), b)
    raise NotImplementedError("cho_solve of an unknown factor")


def sinc_contract(x):
    """sin(pi x) / (pi x), for x other than zero."""
    y = jnp.pi * jnp.asarray(x)
    return jnp.sin(y) / y


locate_p = jexc.Primitive("locate")


@locate_p.def_impl
def _locate_impl(x, bins, *, right, search):
    raise NotImplementedError("contract of digitize evaluated on concrete values")


@locate_p.def_abstract_eval
def _locate_abs(x, bins, *, right, search):
    return ShapedArray(x.shape, jnp.int32)


def _locate_batch(args, dims, **kw):
    x, bins = args
    dx, db = dims
    if db is not None:
        raise NotImplementedError("digitize in a batch of tables")
    return locate_p.bind(x, bins, **kw), dx


batching.primitive_batchers[locate_p] = _locate_batch


def _locate_jvp(args, tans, **kw):
    out = locate_p.bind(*args, **kw)
    return out, ad.Zero(jax.core.ShapedArray(out.shape, jax.dtypes.float0))


ad.primitive_jvps[locate_p] = _locate_jvp


def digitize_contract(x, bins, right=False, **kw):
    return locate_p.bind(jnp.asarray(x), jnp.asarray(bins), right=bool(right), search=False)


def searchsorted_contract(a, v, side="left", sorter=None, **kw):
    if sorter is not None:
        raise NotImplementedError("searchsorted with a sorter")
    return locate_p.bind(jnp.asarray(v), jnp.asarray(a), right=side == "left", search=True)


def squeeze_contract(a, axis):
    """Dimensions of symbolic size at least two stay."""
    if axis is None:
        axis = []
        for i, d in enumerate(a.shape):
            if isinstance(d, int):
                if d == 1:
                    axis.append(i)
            elif not d >= 2:
                raise ValueError("squeeze of a dimension that may be one")
    return jax.lax.squeeze(a, tuple(axis) if not isinstance(axis, int) else (axis,))


@contextlib.contextmanager
def library_contracts():
    """Functions of jax.numpy whose implementation is not inspected."""
    from jax._src.numpy import lax_numpy

    saved = [(jnp, n, getattr(jnp, n)) for n in ("sinc", "digitize", "searchsorted", "copysign", "signbit")]
    jnp.copysign = lambda a, b: jnp.abs(jnp.asarray(a) * 1.0) * jnp.where(jnp.asarray(b) < 0, -1.0, 1.0)
    jnp.signbit = lambda a: jnp.asarray(a) < 0
    jnp.digitize, jnp.searchsorted = digitize_contract, searchsorted_contract
    saved.append((lax_numpy, "_squeeze", lax_numpy._squeeze))
    jnp.sinc = sinc_contract
    lax_numpy._squeeze = squeeze_contract
    try:
        yield
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


@contextlib.contextmanager
def linalg_contracts():
    import jax.scipy.linalg as jsl

    saved = [(jnp.linalg, n, getattr(jnp.linalg, n)) for n in ("inv", "slogdet", "det", "solve")]
    saved += [(jsl, n, getattr(jsl, n)) for n in ("cho_factor", "cho_solve", "solve", "inv", "det")]
    jnp.linalg.inv = inv_contract
    jnp.linalg.slogdet = slogdet_contract
    jnp.linalg.det = det_contract
    jnp.linalg.solve = solve_contract
    jsl.cho_factor = cho_factor_contract
    jsl.cho_solve = cho_solve_contract
    jsl.solve = lambda a, b, **kw: solve_contract(a, b)
    jsl.inv = lambda a, **kw: inv_contract(a)
    jsl.det = lambda a, **kw: det_contract(a)
    try:
        yield
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


# --- callees replaced by their contracts ------------------------------------------------


def modules():
    return [sys.modules[n] for n in REPO_MODULES if n in sys.modules]


def functions():
    """All functions and classes of the repository, once each."""
    seen = {}
    for m in modules():
        for k, v in list(vars(m).items()):
            if isinstance(v, type):
                if str(getattr(v, "__module__", "")).startswith("jax_cosmo"):
                    for kk, vv in list(vars(v).items()):
                        f = getattr(vv, "__func__", vv)
                        if isinstance(f, types.FunctionType):
                            seen[id(f)] = f
            elif callable(v):
                f = v
                while hasattr(f, "__wrapped__"):
                    f = f.__wrapped__
                    if isinstance(f, types.FunctionType):
                        seen[id(f)] = f
                if isinstance(v, types.FunctionType):
                    seen[id(v)] = v
    return list(seen.values())


@contextlib.contextmanager
def patched(subs):
    """Replace functions of the repository, wherever they are referred to, by others."""
    subs = {id(k): (k, v) for k, v in subs.items()}
    undo = []
    for m in modules():
        for n, v in list(vars(m).items()):
            if id(v) in subs and not n.startswith("__"):
                undo.append((m, n, v))
                setattr(m, n, subs[id(v)][1])
            if isinstance(v, type) and str(getattr(v, "__module__", "")).startswith("jax_cosmo"):
                for nn, vv in list(vars(v).items()):
                    f = getattr(vv, "__func__", vv)
                    if id(f) in subs and isinstance(vv, types.FunctionType):
                        undo.append((v, nn, vv))
                        setattr(v, nn, subs[id(f)][1])
    fundo = []
    for f in functions():
        d = f.__defaults__
        if d and any(id(x) in subs for x in d):
            fundo.append((f, "__defaults__", d))
            f.__defaults__ = tuple(subs[id(x)][1] if id(x) in subs else x for x in d)
        d = f.__kwdefaults__
        if d and any(id(x) in subs for x in d.values()):
            fundo.append((f, "__kwdefaults__", d))
            f.__kwdefaults__ = {k: subs[id(x)][1] if id(x) in subs else x for k, x in d.items()}
    try:
        yield
    finally:
        for o, n, v in undo:
            setattr(o, n, v)
        for o, n, v in fundo:
            setattr(o, n, v)


_len = len


def symlen(x):
    s = getattr(x, "shape", None)
    if s is not None and isinstance(x, (jax.Array, jax.core.Tracer)) and s:
        return s[0]
    return _len(x)


def install_len():
    """`len` of an array of symbolic size is its first dimension."""
    for m in modules():
        m.__dict__["len"] = symlen


def remove_len():
    for m in modules():
        m.__dict__.pop("len", None)


# --- tracing ---------------------------------------------------------------------------------


class Sym:
    """Declaration of an input: a name, a shape over symbolic dimensions, a kind and a range."""

    def __init__(self, name, shape=(), kind="f", sign=None, lo=None, hi=None, sample=None, special=(), fixed=None):
        self.fixed = fixed  # a scalar of known value
        if fixed is not None:
            sample = lambda rng, shape: fixed
        self.name, self.shape, self.kind = name, tuple(shape), kind
        self.sign, self.lo, self.hi, self.sample = sign, lo, hi, sample
        self.special = tuple(special)

    def __repr__(self):
        return "%s%s" % (self.name, list(self.shape) if self.shape else "")


def scope_for(dims):
    """Symbolic dimensions sharing one scope: name -> minimum."""
    names = list(dims)
    if not names:
        return {}
    cons = ["%s >= %d" % (n, lo) for n, lo in dims.items() if lo and lo > 1]
    ds = export.symbolic_shape(",".join(names), constraints=cons)
    return dict(zip(names, ds))


def dimvalue(d, scope):
    if isinstance(d, str):
        return eval(d, {"__builtins__": {}}, dict(scope))
    return d


DT = {"f": jnp.float64, "i": jnp.int32, "b": jnp.bool_}


@contextlib.contextmanager
def staged_symbolic():
    """Constants of symbolic shape belong to the trace, also where the code asks for
    evaluation at compile time (jax.ensure_compile_time_eval): they have no value."""
    from jax._src import config
    from jax._src.interpreters import partial_eval as pe

    cls = pe.DynamicJaxprTrace
    old = cls.process_primitive

    def process(self, primitive, tracers, params, /):
        if config.eager_constant_folding.value and any(
                isinstance(v, tuple) and any(not isinstance(d, int) and export.is_symbolic_dim(d) for d in v)
                for v in (params.get("shape"), params.get("new_sizes"))):
            with config.eager_constant_folding(False):
                return old(self, primitive, tracers, params)
        return old(self, primitive, tracers, params)
    prod = jax.lax.reduce_prod_p
    rule = ad.primitive_jvps[prod]

    def product_jvp(args, tans, **kw):
        """jax has no derivative of a product of symbolically many factors (none of them zero)."""
        (x,), (t,) = args, tans
        if isinstance(t, ad.Zero) or all(isinstance(d, int) for d in x.shape):
            return rule(args, tans, **kw)
        y = prod.bind(x, **kw)
        return y, y * jnp.sum(t / x, axis=tuple(kw["axes"]))
    cls.process_primitive = process
    ad.primitive_jvps[prod] = product_jvp
    try:
        yield
    finally:
        cls.process_primitive = old
        ad.primitive_jvps[prod] = rule


def trace(fn, syms, scope):
    """The jaxpr of fn on the declared inputs, and the structure of its result."""
    avals = [
        jax.ShapeDtypeStruct(tuple(dimvalue(d, scope) for d in s.shape), DT[s.kind]) for s in syms
    ]
    store = {}

    def flat(z, *args):
        _Z.append(z)
        try:
            out = fn(*args)
        finally:
            _Z.pop()
        leaves, tree = jax.tree_util.tree_flatten(out)
        store["tree"] = tree
        store["arr"] = [not isinstance(l, (int, float, bool)) for l in leaves]
        return [jnp.asarray(l) for l in leaves]

    with staged_symbolic():
        closed = jax.make_jaxpr(flat)(jax.ShapeDtypeStruct((), jnp.float64), *avals)
    return closed, store["tree"]
