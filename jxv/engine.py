"""Evaluation of jaxprs (the traced real code, and the specifications) to terms.

An array is a shape together with a function from index terms to the term of
the element at that index, so array sizes may be symbolic and loops over them
are never unrolled.
"""
import math
import re

import numpy as onp

from . import terms as T
from .terms import S, ZERO, ONE


class Unsupported(Exception):
    pass


class Arr:
    __slots__ = ("shape", "kind", "fn", "memo", "const", "tag", "bits")

    def __init__(self, shape, kind, fn, const=None, tag=None, bits=64):
        self.shape = tuple(shape)
        self.kind = kind
        self.fn = fn
        self.memo = {}
        self.const = const
        self.tag = tag
        self.bits = bits

    def at(self, idx):
        idx = tuple(idx)
        r = self.memo.get(idx)
        if r is None:
            r = T.liftn(idx, lambda ix: self.fn(ix)) if any(T.has_cond(i) for i in idx) else self.fn(idx)
            self.memo[idx] = r
        return r


def scalar(nf, kind="f"):
    return Arr((), kind, lambda ix: nf)


class _D:
    """Arithmetic used to read a symbolic dimension back as a term."""

    def __init__(self, nf):
        self.nf = nf

    def _o(self, o):
        return o.nf if isinstance(o, _D) else T.num(o)

    def __add__(self, o):
        return _D(T.add(self.nf, self._o(o)))

    __radd__ = __add__

    def __sub__(self, o):
        return _D(T.sub(self.nf, self._o(o)))

    def __rsub__(self, o):
        return _D(T.sub(self._o(o), self.nf))

    def __mul__(self, o):
        return _D(T.mul(self.nf, self._o(o)))

    __rmul__ = __mul__

    def __neg__(self):
        return _D(T.scale(self.nf, -1))

    def __pow__(self, n):
        return _D(T.power(self.nf, n))


class Engine:
    def __init__(self, dims=None):
        self.dims = {}  # name -> minimum
        self.dims.update(dims or {})
        self.arrays = {}
        self.trace_ops = {}
        self.unfold = False
        self.dimvals = {}  # dimensions given by a term
        self.solved = []  # systems of linear equations (matrix, right-hand side, solution)
        self.cell = None  # location of the query point, see cells.py
        self.scan_uid = 0
        self.float32 = 0

    # -- dimensions -------------------------------------------------------
    def dim(self, d):
        if isinstance(d, (int, onp.integer)):
            return T.num(int(d))
        if isinstance(d, T.NF):
            return d
        s = str(d).replace("^", "**")
        names = set(re.findall(r"[A-Za-z_]\w*", s)) - {"floordiv", "mod", "max", "min"}
        env = {n: _D(self.dimvals[n] if n in self.dimvals else T.dim(n, self.dims.get(n, 1))) for n in names}
        w = lambda x: x.nf if isinstance(x, _D) else T.num(x)
        env["floordiv"] = lambda a, b: _D(T.floordiv(w(a), w(b)))
        env["mod"] = lambda a, b: _D(T.modulo(w(a), w(b)))
        env["max"] = lambda a, b: _D(T.maximum(w(a), w(b)))
        env["min"] = lambda a, b: _D(T.minimum(w(a), w(b)))
        r = eval(s, {"__builtins__": {}}, env)
        return r.nf if isinstance(r, _D) else T.num(r)

    def shape(self, sh):
        return tuple(self.dim(d) for d in sh)

    # -- values ------------------------------------------------------------
    def const(self, x):
        """A constant array.  Its elements at a symbolic index are given by a formula
        when they are affine in it (or their logarithm is), and otherwise by a
        selection among the entries, or by a named table when there are many."""
        x = onp.asarray(x)
        if x.dtype.names == ("float0",):  # derivatives with respect to integers
            x = onp.zeros(x.shape)
        kind = {"f": "f", "i": "i", "u": "i", "b": "b"}.get(x.dtype.kind)
        if kind is None:
            raise Unsupported("constant of type %s" % x.dtype)
        shape = tuple(T.num(n) for n in x.shape)
        if x.dtype == onp.float32:
            get = lambda v: T.num(float(str(v)))
        elif kind == "f":
            get = lambda v: self.fnum(float(v))
        else:
            get = lambda v: T.num(int(v))
        form = None
        if x.ndim >= 1 and x.size > 2 and kind != "b":
            form = self.formula(x)
        if form is None and x.size > 12 and max(x.shape) == x.size:
            form = self.ends(x, get, kind)

        def fn(ix):
            ks = []
            for i, n in zip(ix, x.shape):
                k = T.as_int(i)
                if k is not None and not 0 <= k < n:
                    return T.opaque("outofbounds", (i,))
                ks.append(k)
            if form is not None:
                return form(ix)
            if all(k is not None for k in ks):
                return get(x[tuple(ks)])
            sel = x[tuple(slice(None) if k is None else k for k in ks)]
            rest = [i for i, k in zip(ix, ks) if k is None]
            return self.entry(sel, rest, get, kind)

        return Arr(shape, kind, fn, const=x if x.size <= CONSTMAX else None)

    def ends(self, x, get, kind):
        """x as a formula away from one or two of its ends."""
        d = x.shape.index(x.size)
        v = x.ravel()
        n = v.size
        for a, b in ((1, 0), (0, 1), (1, 1), (2, 0), (0, 2)):
            y = v[a:n - b]
            if onp.all(y == y[0]):
                f = lambda i, y=y: get(y[0])
            elif kind != "b" and self.formula(y) is not None:
                f = lambda i, a=a, g=self.formula(y): g((T.sub(i, T.num(a)),))
            else:
                continue
            odd = list(range(a)) + list(range(n - b, n))

            def form(ix):
                r = f(ix[d])
                for k in odd:
                    r = T.ite(T.cond("eq", T.sub(ix[d], T.num(k))), get(v[k]), r)
                return r

            return form
        return None

    def entry(self, x, ix, get, kind):
        u = onp.unique(x)
        if u.size == 1:
            return get(u[0])
        if x.size <= 64:
            n = x.shape[0]
            out = []
            for k in range(n):
                c = T.cond("eq", T.sub(ix[0], T.num(k)))
                if c.t:
                    v = get(x[k]) if len(ix) == 1 else self.entry(x[k], ix[1:], get, kind)
                    out.append(T.mul(c, v))
            return T.addmany(out)
        return element(self.table(x), ix, sign="+" if x.min() > 0 else "0+" if x.min() >= 0 else None,
                       isint=kind != "f", lo=T.num(float(x.min())), hi=T.num(float(x.max())))

    def table(self, x):
        for name, y in TABLES:
            if y.shape == x.shape and onp.allclose(x, y, rtol=1e-12, atol=0):
                return name
        name = "table%d" % len(TABLES)
        TABLES.append((name, onp.array(x)))
        return name

    def formula(self, x):
        """x as an affine function of its indices, or the exponential of one."""
        if x.dtype.kind == "f":
            x = x.astype(float)
            if not onp.all(onp.isfinite(x)):
                return None
            if x.size > 12 and onp.all(x > 0):
                c = affine(onp.log(x))
                if c is not None and affine(x) is None:
                    return lambda ix: T.exp(T.addmany([self.fnum(c[0])] + [T.scale(i, k) for i, k in zip(ix, c[1:])]))
        c = affine(x)
        if c is None:
            return None
        return lambda ix: T.addmany([T.num(c[0])] + [T.scale(i, k) for i, k in zip(ix, c[1:])])

    def fnum(self, v):
        if v != v:
            return T.opaque("nan", (ONE,))
        if v in (float("inf"), float("-inf")):
            return T.opaque("inf" if v > 0 else "-inf", (ONE,))
        return T.num(v)

    def input(self, name, shape, kind="f", sign=None, lo=None, hi=None):
        shape = self.shape(shape)
        lo_ = None if lo is None else T.num(lo)
        hi_ = None if hi is None else T.num(hi)
        if sign is None and lo is not None and lo >= 0:
            sign = "+" if lo > 0 else "0+"
        isint = kind == "i"
        if not shape:
            nf = T.var(name, sign=sign, isint=isint, lo=lo_, hi=hi_)
            a = Arr((), kind, lambda ix: nf)
        else:
            rank = len(shape)

            def fn(ix):
                return element(name, ix, sign, isint, lo_, hi_)

            a = Arr(shape, kind, fn)
        self.arrays[name] = a
        return a

    # -- jaxprs -------------------------------------------------------------
    def run(self, closed, args):
        consts = [self.const(c) if not isinstance(c, Arr) else c for c in closed.consts]
        from jax.interpreters import partial_eval as pe

        # what the results do not depend on is left out
        jaxpr, _ = pe.dce_jaxpr(closed.jaxpr, [True] * len(closed.jaxpr.outvars), instantiate=True)
        return self.eval(jaxpr, consts, args)

    def eval(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if hasattr(v, "val"):
                return self.const(v.val)
            return env[v]

        for v, a in zip(jaxpr.constvars, consts):
            env[v] = a
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            name = eqn.primitive.name
            self.trace_ops[name] = self.trace_ops.get(name, 0) + 1
            outs = self.fold(eqn, ins)
            if outs is None:
                h = HANDLERS.get(name)
                if h is None:
                    raise Unsupported("primitive %s" % name)
                outs = h(self, eqn, *ins)
            if not isinstance(outs, (list, tuple)):
                outs = [outs]
            for v, o in zip(eqn.outvars, outs):
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def fold(self, eqn, ins):
        """Operations on constants are evaluated, so that it does not matter whether
        a table is computed while tracing or before."""
        name = eqn.primitive.name
        if name in NOFOLD or eqn.primitive.multiple_results and name not in ("sort", "split", "unstack"):
            return None
        if any(i.const is None for i in ins):
            return None
        for v in eqn.outvars:
            n = 1
            for d in v.aval.shape:
                if not isinstance(d, int):
                    return None
                n *= d
            if n > CONSTMAX:
                return None
        outs = eqn.primitive.bind(*[i.const for i in ins], **eqn.params)
        if not isinstance(outs, (list, tuple)):
            outs = [outs]
        return [self.const(onp.asarray(o)) for o in outs]

    def aval_kind(self, aval):
        return {"f": "f", "i": "i", "u": "i", "b": "b"}[onp.dtype(aval.dtype).kind]

    def out(self, eqn, fn, k=0):
        aval = eqn.outvars[k].aval
        return Arr(self.shape(aval.shape), self.aval_kind(aval), fn,
                   bits=onp.dtype(aval.dtype).itemsize * 8 if aval.dtype != bool else 1)


CONSTMAX = 4096
TABLES = []
NOFOLD = {"uf", "locate", "solve", "ode", "odevar", "stop_gradient", "scan", "while", "cond", "jit", "pjit", "custom_jvp_call",
          "custom_vjp_call", "dim_as_value"}


def affine(x):
    """Coefficients (constant, one per index) of an affine array, or None."""
    x = onp.asarray(x)
    base = x[(0,) * x.ndim]
    co = []
    fit = onp.zeros(x.shape) + base
    for d, n in enumerate(x.shape):
        if n == 1:
            co.append(0)
            continue
        last = [0] * x.ndim
        last[d] = n - 1
        k = (x[tuple(last)] - base) / (n - 1)
        k = float(k)
        co.append(k)
        sh = [1] * x.ndim
        sh[d] = n
        fit = fit + (onp.arange(n) * k).reshape(sh)
    tol = 2e-14 * max(1e-300, onp.max(onp.abs(x))) if x.dtype.kind == "f" else 0.25
    if onp.max(onp.abs(fit - x)) > tol:
        return None
    return [float(base) if x.dtype.kind == "f" else int(base)] + [T.nrm(c) for c in co]


def element(name, ix, sign=None, isint=False, lo=None, hi=None):
    return T.mono(T.atom("el", (name, sign, isint), ix, sign=sign, isint=isint, lo=lo, hi=hi))


def _rb_el(at, args):
    name, sign, isint = at.static
    return T.liftn(tuple(args), lambda xs: element(name, xs, sign, isint, at.lo, at.hi))


T.REBUILD["el"] = _rb_el

HANDLERS = {}


def prim(*names):
    def d(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return d


def bidx(arr, ix):
    """Index of an operand that may be broadcast: scalars have no index, and a single
    element is at 0."""
    if not arr.shape:
        return ()
    return tuple(ZERO if T.as_int(n) == 1 else i for n, i in zip(arr.shape, ix, strict=True))


def elementwise(f):
    def h(E, eqn, *ins):
        return E.out(eqn, lambda ix: f(*[a.at(bidx(a, ix)) for a in ins]))
    return h


INTLIM = 2**31


def from_data(nf):
    """Whether an integer may be as large as the data are: truth values and positions in arrays are not."""
    for a in {a for f, _ in nf.t for a, _ in f}:
        at = S.atoms[a]
        if at.op in ("br", "index", "argmin"):
            continue
        if any(S.atoms[b].op in ("el", "var") and not str(S.atoms[b].static).startswith("dim:") for b in T.deps(T.mono(at))):
            return True
    return False


def int_guard(f):
    """Integer arithmetic on data wraps around: exact only within 32 bits."""
    def h(E, eqn, *ins):
        kind = E.aval_kind(eqn.outvars[0].aval)

        def fn(ix):
            r = f(*[a.at(bidx(a, ix)) for a in ins])
            if kind == "i" and from_data(r):
                lo, hi = T.interval(r)
                if not (-INTLIM <= lo and hi < INTLIM):
                    return T.opaque("wrap", (r,), isint=True)
            return r
        return E.out(eqn, fn)
    return h


HANDLERS["add"] = int_guard(T.add)
HANDLERS["add_any"] = int_guard(T.add)
HANDLERS["sub"] = int_guard(T.sub)
HANDLERS["mul"] = int_guard(T.mul)
HANDLERS["neg"] = elementwise(lambda a: T.scale(a, -1))
HANDLERS["max"] = elementwise(T.maximum)
HANDLERS["min"] = elementwise(T.minimum)
HANDLERS["exp"] = elementwise(T.exp)
HANDLERS["exp2"] = elementwise(lambda a: T.exp(T.scale(a, math.log(2))))
HANDLERS["log"] = elementwise(T.log)
HANDLERS["log1p"] = elementwise(lambda a: T.log(T.add(a, ONE)))
HANDLERS["expm1"] = elementwise(lambda a: T.sub(T.exp(a), ONE))
HANDLERS["sqrt"] = elementwise(lambda a: T.power(a, 0.5))
HANDLERS["rsqrt"] = elementwise(lambda a: T.power(a, -0.5))
HANDLERS["cbrt"] = elementwise(lambda a: T.power(a, 1.0 / 3.0))
HANDLERS["sin"] = elementwise(lambda a: T.trig("sin", a))
HANDLERS["cos"] = elementwise(lambda a: T.trig("cos", a))
HANDLERS["tan"] = elementwise(lambda a: T.mul(T.trig("sin", a), T.power(T.trig("cos", a), -1)))
HANDLERS["sinh"] = elementwise(lambda a: T.scale(T.sub(T.exp(a), T.exp(T.scale(a, -1))), 0.5))
HANDLERS["cosh"] = elementwise(lambda a: T.scale(T.add(T.exp(a), T.exp(T.scale(a, -1))), 0.5))
HANDLERS["tanh"] = elementwise(
    lambda a: T.mul(T.sub(T.exp(a), T.exp(T.scale(a, -1))), T.power(T.add(T.exp(a), T.exp(T.scale(a, -1))), -1)))
HANDLERS["logistic"] = elementwise(lambda a: T.power(T.add(ONE, T.exp(T.scale(a, -1))), -1))
HANDLERS["abs"] = elementwise(T.absolute)
HANDLERS["sign"] = elementwise(T.signum)
HANDLERS["square"] = int_guard(lambda a: T.mul(a, a))
HANDLERS["not"] = elementwise(T.lnot)
HANDLERS["eq"] = elementwise(lambda a, b: T.cond("eq", T.sub(a, b)))
HANDLERS["ne"] = elementwise(lambda a, b: T.lnot(T.cond("eq", T.sub(a, b))))
HANDLERS["lt"] = elementwise(lambda a, b: T.cond("lt", T.sub(a, b)))
HANDLERS["gt"] = elementwise(lambda a, b: T.cond("lt", T.sub(b, a)))
HANDLERS["le"] = elementwise(lambda a, b: T.cond("le", T.sub(a, b)))
HANDLERS["ge"] = elementwise(lambda a, b: T.cond("le", T.sub(b, a)))
for _n in ("asin", "acos", "atan", "asinh", "acosh", "atanh", "erf", "erfc", "erf_inv", "lgamma", "digamma",
           "bessel_i0e", "bessel_i1e", "real", "imag", "conj"):
    HANDLERS[_n] = elementwise(lambda a, n=_n: T.opaque(n, (a,)))
for _n in ("floor", "ceil", "round"):
    HANDLERS[_n] = elementwise(lambda a, n=_n: a if T.is_intval(a) else T.opaque(n, (a,), isint=True))
HANDLERS["is_finite"] = elementwise(lambda a: ONE)
HANDLERS["atan2"] = elementwise(lambda a, b: T.opaque("atan2", (a, b)))
HANDLERS["nextafter"] = elementwise(lambda a, b: T.opaque("nextafter", (a, b)))


@prim("stop_gradient")
def _stop(E, eqn, a):
    return E.out(eqn, lambda ix: T.opaque("stop_gradient", (a.at(ix),)))


@prim("reduce_precision")
def _rp(E, eqn, a):
    return E.out(eqn, lambda ix: T.opaque("reduce_precision", (a.at(ix),)))


@prim("copy", "copy_p", "optimization_barrier", "sharding_constraint", "pvary", "mesh_cast")
def _id(E, eqn, *a):
    return list(a)


@prim("and")
def _and(E, eqn, a, b):
    if a.kind != "b":
        return E.out(eqn, lambda ix: T.opaque("and", (a.at(bidx(a, ix)), b.at(bidx(b, ix)))))
    return E.out(eqn, lambda ix: T.land(a.at(bidx(a, ix)), b.at(bidx(b, ix))))


@prim("or")
def _or(E, eqn, a, b):
    if a.kind != "b":
        return E.out(eqn, lambda ix: T.opaque("or", (a.at(bidx(a, ix)), b.at(bidx(b, ix)))))
    return E.out(eqn, lambda ix: T.lor(a.at(bidx(a, ix)), b.at(bidx(b, ix))))


@prim("xor")
def _xor(E, eqn, a, b):
    def fn(ix):
        x, y = a.at(bidx(a, ix)), b.at(bidx(b, ix))
        return T.sub(T.add(x, y), T.scale(T.mul(x, y), 2))
    return E.out(eqn, fn)


@prim("integer_pow")
def _ipow(E, eqn, a):
    n = int(eqn.params["y"])
    return int_guard(lambda x: T.power(x, n))(E, eqn, a)


@prim("pow")
def _pow(E, eqn, a, b):
    def f(x, y):
        if T.is_num(y):
            return T.power(x, T.numval(y))
        if T.is_num(x) and T.numval(x) > 0:
            return T.exp(T.scale(y, math.log(T.numval(x))))
        s = T.sign(x)
        if s == "+":
            return T.exp(T.mul(y, T.log(x)))
        # base possibly zero: 0**y is not exp(y log 0)
        return T.liftn((x, y), lambda p: powatom(*p))
    return E.out(eqn, lambda ix: f(a.at(bidx(a, ix)), b.at(bidx(b, ix))))


def powatom(x, y):
    if T.is_num(y):
        return T.power(x, T.numval(y))
    if T.is_num(x) and T.numval(x) > 0:
        return T.exp(T.scale(y, math.log(T.numval(x))))
    if T.sign(x) == "+":
        return T.exp(T.mul(y, T.log(x)))
    if not x.t and T.sign(y) == "+":
        return ZERO
    return T.mono(T.atom("pw", None, (x, y), sign="0+"))


T.REBUILD["pw"] = lambda at, args: T.liftn(tuple(args), lambda p: powatom(*p))


@prim("div")
def _div(E, eqn, a, b):
    if E.aval_kind(eqn.outvars[0].aval) == "i":
        def fi(x, y):
            if T.sign(x) in ("+", "0+", "0") and T.sign(y) == "+":
                return T.floordiv(x, y)
            return T.opaque("tdiv", (x, y), isint=True)
        return E.out(eqn, lambda ix: fi(a.at(bidx(a, ix)), b.at(bidx(b, ix))))
    return E.out(eqn, lambda ix: T.mul(a.at(bidx(a, ix)), T.power(b.at(bidx(b, ix)), -1)))


@prim("rem")
def _rem(E, eqn, a, b):
    def fi(x, y):
        if T.is_intval(x) and T.is_intval(y) and T.sign(x) in ("+", "0+", "0") and T.sign(y) == "+":
            return T.modulo(x, y)
        return T.opaque("trem", (x, y), isint=T.is_intval(x))
    return E.out(eqn, lambda ix: fi(a.at(bidx(a, ix)), b.at(bidx(b, ix))))


@prim("convert_element_type")
def _cet(E, eqn, a):
    new = onp.dtype(eqn.params["new_dtype"])
    kind = {"f": "f", "i": "i", "u": "i", "b": "b"}.get(new.kind)
    if kind is None:
        raise Unsupported("conversion to %s" % new)
    old = a.kind
    aval = eqn.invars[0].aval
    if kind == "f" and old == "f":
        if new.itemsize < onp.dtype(aval.dtype).itemsize and not getattr(eqn.invars[0], "val", None) is not None:
            return E.out(eqn, lambda ix: T.opaque("round_to_%s" % new, (a.at(ix),)))
        r = E.out(eqn, a.at)
        r.tag = a.tag
        return r
    if kind == "i" and old == "f":
        def fn(ix):
            v = a.at(ix)
            return T.lift1(v, lambda x: x if T.is_intval(x) else trunc(x))
        return E.out(eqn, fn)
    if kind == "b" and old != "b":
        return E.out(eqn, lambda ix: T.lnot(T.cond("eq", a.at(ix))))
    r = E.out(eqn, a.at)
    r.const = a.const.astype(new) if a.const is not None else None
    return r


def trunc(x):
    if T.is_num(x):
        return T.num(int(T.numval(x)))
    return T.opaque("trunc", (x,), isint=True)


@prim("select_n")
def _select(E, eqn, p, *cases):
    def fn(ix):
        c = p.at(bidx(p, ix))
        if p.kind == "b":
            if T.is_num(c):
                return cases[1 if T.numval(c) else 0].at(ix)
            return T.ite(c, cases[1].at(ix), cases[0].at(ix))
        r = cases[-1].at(ix)
        for k in range(len(cases) - 2, -1, -1):
            r = T.ite(T.cond("eq", T.sub(c, T.num(k))), cases[k].at(ix), r)
        return r
    return E.out(eqn, fn)


@prim("clamp")
def _clamp(E, eqn, lo, x, hi):
    return E.out(eqn, lambda ix: T.minimum(T.maximum(x.at(ix), lo.at(bidx(lo, ix))), hi.at(bidx(hi, ix))))


@prim("iota")
def _iota(E, eqn, *dyn):
    d = eqn.params["dimension"]
    return E.out(eqn, lambda ix: ix[d])


@prim("dim_as_value")
def _dimval(E, eqn):
    d = E.dim(eqn.params["dim"])
    return E.out(eqn, lambda ix: d)


@prim("broadcast_in_dim")
def _bid(E, eqn, a, *dyn):
    bd = eqn.params["broadcast_dimensions"]
    osh = E.shape(eqn.outvars[0].aval.shape)

    def fn(ix):
        return a.at(tuple(ZERO if T.as_int(n) == 1 else ix[d] for n, d in zip(a.shape, bd)))
    r = E.out(eqn, fn)
    if a.const is not None and not a.shape and all(T.as_int(n) is not None for n in osh):
        n = [T.as_int(x) for x in osh]
        if onp.prod(n) <= 4096:
            r.const = onp.broadcast_to(a.const, n)
    return r


def prod(xs):
    r = ONE
    for x in xs:
        r = T.mul(r, x)
    return r


def reindex(ish, osh):
    """Function taking an index into osh to the one of the same element in ish."""
    ish, osh = list(ish), list(osh)
    groups = []
    i = j = 0
    while i < len(ish) or j < len(osh):
        gi, gj = [], []
        if i < len(ish) and j < len(osh) and T.same(ish[i], osh[j]):
            groups.append(([i], [j]))
            i += 1
            j += 1
            continue
        # smallest groups of equal product
        done = False
        for a in range(0, len(ish) - i + 1):
            for b in range(0, len(osh) - j + 1):
                if a + b == 0:
                    continue
                if T.same(prod(ish[i:i + a]), prod(osh[j:j + b])):
                    groups.append((list(range(i, i + a)), list(range(j, j + b))))
                    i += a
                    j += b
                    done = True
                    break
            if done:
                break
        if not done:
            raise Unsupported("reshape %s -> %s" % (ish, osh))

    def f(ix):
        out = [ZERO] * len(ish)
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1:
                out[gi[0]] = ix[gj[0]]
                continue
            flat = ZERO
            for k in gj:
                flat = T.add(T.mul(flat, osh[k]), ix[k])
            for k in reversed(gi[1:]):
                out[k] = T.modulo(flat, ish[k]) if T.as_int(ish[k]) != 1 else ZERO
                flat = T.floordiv(flat, ish[k]) if T.as_int(ish[k]) != 1 else flat
            if gi:
                out[gi[0]] = flat if T.as_int(ish[gi[0]]) != 1 else ZERO
        return tuple(out)
    return f


@prim("reshape")
def _reshape(E, eqn, a, *dyn):
    p = eqn.params.get("dimensions")
    p = list(range(len(a.shape))) if p is None else list(p)
    osh = E.shape(eqn.outvars[0].aval.shape)
    f = reindex([a.shape[d] for d in p], osh)

    def fn(ix):
        g = f(ix)
        o = [None] * len(p)
        for k, d in enumerate(p):
            o[d] = g[k]
        return a.at(tuple(o))
    r = E.out(eqn, fn)
    if a.const is not None and p == list(range(len(a.shape))):
        r.const = a.const.reshape([T.as_int(n) for n in osh])
    return r


@prim("squeeze")
def _squeeze(E, eqn, a):
    dims = [d % len(a.shape) for d in eqn.params["dimensions"]]

    def fn(ix):
        it = iter(ix)
        return a.at(tuple(ZERO if k in dims else next(it) for k in range(len(a.shape))))
    r = E.out(eqn, fn)
    if a.const is not None:
        r.const = a.const.squeeze(tuple(dims))
    return r


@prim("expand_dims")
def _expand(E, eqn, a):
    dims = eqn.params["dimensions"]
    return E.out(eqn, lambda ix: a.at(tuple(x for k, x in enumerate(ix) if k not in dims)))


@prim("transpose")
def _transpose(E, eqn, a):
    p = eqn.params["permutation"]

    def fn(ix):
        o = [None] * len(p)
        for k, d in enumerate(p):
            o[d] = ix[k]
        return a.at(tuple(o))
    return E.out(eqn, fn)


@prim("rev")
def _rev(E, eqn, a):
    dims = eqn.params["dimensions"]
    return E.out(eqn, lambda ix: a.at(tuple(
        T.sub(T.sub(a.shape[k], ONE), x) if k in dims else x for k, x in enumerate(ix))))


@prim("slice")
def _slice(E, eqn, a):
    st = eqn.params["start_indices"]
    sr = eqn.params["strides"] or [1] * len(st)
    st = [E.dim(s) for s in st]
    sr = [E.dim(s) for s in sr]
    r = E.out(eqn, lambda ix: a.at(tuple(T.add(s, T.mul(t, x)) for s, t, x in zip(st, sr, ix))))
    if a.const is not None:
        li = eqn.params["limit_indices"]
        r.const = a.const[tuple(slice(int(s), int(l), int(t)) for s, l, t in
                                zip(eqn.params["start_indices"], li, eqn.params["strides"] or [1] * len(li)))]
    return r


@prim("unstack")
def _unstack(E, eqn, a):
    ax = eqn.params["axis"]
    return [E.out(eqn, lambda ix, k=k: a.at(tuple(ix[:ax]) + (T.num(k),) + tuple(ix[ax:])), k) for k in range(len(eqn.outvars))]


@prim("split")
def _split(E, eqn, a):
    ax = eqn.params["axis"]
    outs = []
    off = ZERO
    for k, n in enumerate(eqn.params["sizes"]):
        o = off
        outs.append(E.out(eqn, lambda ix, o=o: a.at(tuple(T.add(x, o) if d == ax else x for d, x in enumerate(ix))), k))
        off = T.add(off, E.dim(n))
    return outs


def clampidx(i, n, size):
    return T.minimum(T.maximum(i, ZERO), T.sub(n, size))


@prim("dynamic_slice")
def _dslice(E, eqn, a, *starts):
    sizes = [E.dim(s) for s in eqn.params["slice_sizes"]]
    starts = starts[: len(sizes)]

    def fn(ix):
        st = [clampidx(s.at(()), n, z) for s, n, z in zip(starts, a.shape, sizes)]
        return a.at(tuple(T.add(s, x) for s, x in zip(st, ix)))
    return E.out(eqn, fn)


@prim("dynamic_update_slice")
def _dus(E, eqn, a, u, *starts):
    def fn(ix):
        c = ONE
        off = []
        for s, n, z, x in zip(starts, a.shape, u.shape, ix):
            st = clampidx(s.at(()), n, z)
            d = T.sub(x, st)
            if T.as_int(z) == 1:
                c = T.land(c, T.cond("eq", d))
                off.append(ZERO)
            else:
                c = T.land(c, T.land(T.cond("le", T.scale(d, -1)), T.cond("lt", T.sub(d, z))))
                off.append(d)
        if T.is_num(c):
            return u.at(off) if T.numval(c) else a.at(ix)
        return T.ite(c, u.at(tuple(off)), a.at(ix))
    return E.out(eqn, fn)


@prim("concatenate")
def _concat(E, eqn, *ins):
    ax = eqn.params["dimension"]
    offs = []
    off = ZERO
    for a in ins:
        offs.append(off)
        off = T.add(off, a.shape[ax])

    def fn(ix):
        i = ix[ax]

        def pick(k):
            x = T.sub(i, offs[k])
            if k == len(ins) - 1:
                return ins[k].at(tuple(x if d == ax else y for d, y in enumerate(ix)))
            c = T.cond("lt", T.sub(x, ins[k].shape[ax]))
            if T.is_num(c):
                if T.numval(c):
                    return ins[k].at(tuple(x if d == ax else y for d, y in enumerate(ix)))
                return pick(k + 1)
            v = ins[k].at(tuple(x if d == ax else y for d, y in enumerate(ix)))
            return T.ite(c, v, pick(k + 1))
        return pick(0)
    r = E.out(eqn, fn)
    if all(a.const is not None for a in ins):
        c = onp.concatenate([a.const for a in ins], axis=ax)
        if c.size <= 4096:
            r.const = c
    return r


@prim("stack")
def _stack(E, eqn, *ins):
    ax = eqn.params.get("axis", eqn.params.get("dimension", 0))

    def fn(ix):
        i = ix[ax]
        rest = tuple(ix[:ax]) + tuple(ix[ax + 1:])
        k = T.as_int(i)
        if k is not None:
            return ins[k].at(rest)
        r = ins[-1].at(rest)
        for j in range(len(ins) - 2, -1, -1):
            r = T.ite(T.cond("eq", T.sub(i, T.num(j))), ins[j].at(rest), r)
        return r
    return E.out(eqn, fn)


@prim("pad")
def _pad(E, eqn, a, pv):
    cfg = eqn.params["padding_config"]

    def fn(ix):
        c = ONE
        jx = []
        for (lo, hi, inner), n, x in zip(cfg, a.shape, ix):
            d = T.sub(x, E.dim(lo))
            if E.dim(inner).t:
                st = T.add(E.dim(inner), ONE)
                c = T.land(c, T.cond("eq", T.modulo(d, st)))
                d = T.floordiv(d, st)
            c = T.land(c, T.cond("le", T.scale(d, -1)))
            c = T.land(c, T.cond("lt", T.sub(d, n)))
            jx.append(d)
        if T.is_num(c):
            return a.at(tuple(jx)) if T.numval(c) else pv.at(())
        return T.add(T.mul(c, a.at(tuple(jx))), T.mul(T.lnot(c), pv.at(())))
    return E.out(eqn, fn)


@prim("gather")
def _gather(E, eqn, a, ind):
    dn = eqn.params["dimension_numbers"]
    sizes = [E.dim(s) for s in eqn.params["slice_sizes"]]
    mode = str(eqn.params["mode"])
    ob = tuple(getattr(dn, "operand_batching_dims", ()))
    ib = tuple(getattr(dn, "start_indices_batching_dims", ()))
    nidx = len(ind.shape) - 1

    def fn(ix):
        batch = [x for k, x in enumerate(ix) if k not in dn.offset_dims]
        offs = [x for k, x in enumerate(ix) if k in dn.offset_dims]
        it = iter(offs)
        st = {}
        for k, d in enumerate(dn.start_index_map):
            st[d] = ind.at(tuple(batch) + (T.num(k),))
        out = []
        oob = ONE
        for d, n in enumerate(a.shape):
            if d in ob:
                out.append(batch[ib[ob.index(d)]])
                continue
            o = ZERO if d in dn.collapsed_slice_dims else next(it)
            s = st.get(d, ZERO)
            if d in st:
                if "CLIP" in mode.upper() or mode == "1":
                    s = clampidx(s, n, sizes[d])
                elif "FILL" in mode.upper():
                    oob = T.land(oob, T.land(T.cond("le", T.scale(s, -1)), T.cond("le", T.sub(T.add(s, sizes[d]), n))))
            out.append(T.add(s, o))
        v = a.at(tuple(out))
        if T.is_num(oob) and T.numval(oob):
            return v
        return T.ite(oob, v, T.opaque("nan", (ONE,)))
    return E.out(eqn, fn)


def scatter(op):
    def h(E, eqn, a, ind, u):
        dn = eqn.params["dimension_numbers"]
        ind_rank = len(ind.shape) - 1
        if getattr(dn, "operand_batching_dims", ()):
            raise Unsupported("batched scatter")
        uw = dn.update_window_dims
        ins = dn.inserted_window_dims
        sd = dn.scatter_dims_to_operand_dims
        us = [k for k in range(len(u.shape)) if k not in uw]
        ish = [u.shape[k] for k in us]

        def fn(ix):
            # sum over all updates of [target == ix] * update
            vs = [T.fresh_index(n) if T.as_int(n) != 1 else ZERO for n in ish]
            wdims = [d for d in range(len(a.shape)) if d not in ins]
            st = {d: ind.at(tuple(vs) + (T.num(k),)) for k, d in enumerate(sd)}
            c = ONE
            uix = [None] * len(u.shape)
            for k, v in zip(us, vs):
                uix[k] = v
            for d, n in enumerate(a.shape):
                s = st.get(d, ZERO)
                if d in ins:
                    c = T.land(c, T.cond("eq", T.sub(ix[d], s)))
                else:
                    k = uw[wdims.index(d)]
                    o = T.sub(ix[d], s)
                    c = T.land(c, T.land(T.cond("le", T.scale(o, -1)), T.cond("lt", T.sub(o, u.shape[k]))))
                    uix[k] = o
            val = u.at(tuple(uix))

            def tot(body):
                for v, n in zip(vs, ish):
                    if T.as_int(n) != 1:
                        body = T.sumover(body, v, n)
                return body
            if op == "add":
                return T.add(a.at(ix), tot(T.mul(c, val)))
            hit = tot(c)
            return T.add(T.mul(T.lnot(hit), a.at(ix)), tot(T.mul(c, val)))
        return E.out(eqn, fn)
    return h


HANDLERS["scatter-add"] = scatter("add")
HANDLERS["scatter"] = scatter("set")


def reduce_axes(a, axes, ix):
    it = iter(ix)
    vs = []
    full = []
    for d, n in enumerate(a.shape):
        if d in axes:
            if T.as_int(n) == 1:
                full.append(ZERO)
            else:
                v = T.fresh_index(n)
                vs.append((v, n))
                full.append(v)
        else:
            full.append(next(it))
    return tuple(full), vs


@prim("reduce_sum")
def _rsum(E, eqn, a):
    axes = eqn.params["axes"]

    def fn(ix):
        # concrete short axes element by element, the others by a binder
        full, vs = reduce_axes(a, axes, ix)
        ks = [(v, T.as_int(n)) for v, n in vs]
        small = [(v, k) for v, k in ks if k is not None and k <= 12]
        if small:
            pos = {T.the_atom(v).id for v, _ in vs}
            import itertools
            names = [T.the_atom(v).id for v, _ in small]
            tot = []
            for combo in itertools.product(*[range(k) for _, k in small]):
                m = dict(zip(names, combo))
                f2 = tuple(T.num(m[T.the_atom(x).id]) if (len(x.t) == 1 and is_atom(x) and T.the_atom(x).id in m) else x for x in full)
                tot.append(a.at(f2))
            r = T.addmany(tot)
            vs2 = [(v, n) for v, n in vs if T.the_atom(v).id not in names]
        else:
            r = a.at(full)
            vs2 = vs
        for v, n in reversed(vs2):
            r = T.sumover(r, v, n)
        return r
    return E.out(eqn, fn)


def is_atom(x):
    ((m, c),) = x.t.items()
    return c == 1 and len(m[0]) == 1 and m[0][0][1] == 1 and not m[1]


@prim("reduce_prod")
def _rprod(E, eqn, a):
    def fn(ix):
        full, vs = reduce_axes(a, eqn.params["axes"], ix)
        r = a.at(full)
        for v, n in reversed(vs):
            r = T.prodover(r, v, n)
        return r
    return E.out(eqn, fn)


def reduce_fold(f, name):
    def h(E, eqn, a):
        axes = eqn.params["axes"]

        def fn(ix):
            full, vs = reduce_axes(a, axes, ix)
            ks = [T.as_int(n) for v, n in vs]
            if all(k is not None and k <= 16 for k in ks):
                import itertools
                ids = [T.the_atom(v).id for v, _ in vs]
                r = None
                for combo in itertools.product(*[range(k) for k in ks]):
                    m = dict(zip(ids, combo))
                    f2 = tuple(T.num(m[T.the_atom(x).id]) if (len(x.t) == 1 and is_atom(x) and T.the_atom(x).id in m) else x for x in full)
                    v = a.at(f2)
                    r = v if r is None else f(r, v)
                return r
            r = a.at(full)
            for v, n in reversed(vs):
                b, hh = T.close(r, [v])
                r = T.mono(T.atom("fold", name, (n, b), bind=1))
            return r
        return E.out(eqn, fn)
    return h


HANDLERS["reduce_max"] = reduce_fold(T.maximum, "max")
HANDLERS["reduce_min"] = reduce_fold(T.minimum, "min")
HANDLERS["reduce_and"] = reduce_fold(T.land, "and")
HANDLERS["reduce_or"] = reduce_fold(T.lor, "or")


def _rb_fold(at, args):
    (v,), b = T.reopen(at, 1, args[1], [args[0]])
    bb, h = T.close(b, [v])
    return T.mono(T.atom("fold", at.static, (args[0], bb), bind=1))


T.REBUILD["fold"] = _rb_fold


@prim("argmin", "argmax")
def _argmin(E, eqn, a):
    (ax,) = eqn.params["axes"]
    name = eqn.primitive.name

    def fn(ix):
        full, vs = reduce_axes(a, (ax,), ix)
        if not vs:
            return ZERO
        (v, n), = vs
        if E.cell is not None:
            r = E.cell.argext(name, lambda i: a.at(tuple(i if T.same(y, v) else y for y in full)), n)
            if r is not None:
                return r
        return argext(name, a.at(full), v, n)
    return E.out(eqn, fn)


def argext(name, body, v, n):
    if name == "argmax":
        body = T.scale(body, -1)
    b, h = T.close(body, [v])
    return T.mono(T.atom("argmin", None, (n, b), sign="0+", isint=True, lo=ZERO, hi=T.sub(n, ONE), bind=1))


def _rb_argmin(at, args):
    (v,), b = T.reopen(at, 1, args[1], [args[0]])
    return T.lift1(args[0], lambda n: argext("argmin", b, v, n))


T.REBUILD["argmin"] = _rb_argmin


@prim("solve")
def _solve(E, eqn, a, b):
    if len(b.shape) != 1:
        raise Unsupported("solve with several right-hand sides")
    name = "solution%d" % len(E.solved)
    z = E.out(eqn, lambda ix: element(name, ix))
    E.solved.append((a, b, name))
    return z


@prim("locate")
def _locate(E, eqn, x, bins):
    """Number of entries of an increasing table that are at most (below) x; of a
    decreasing one, those above (at least) x."""
    right, search = eqn.params["right"], eqn.params["search"]
    if E.cell is not None:
        E.cell.bins = bins

    def fn(ix):
        v = x.at(ix)
        if E.cell is not None:
            r = E.cell.locate(v, bins, right, search)
            if r is not None:
                return r
        n = bins.shape[0]

        def number(strict):
            i = T.fresh_index(n)
            d = T.sub(bins.at((i,)), v)
            return T.sumover(T.cond("lt" if strict else "le", d), i, n)
        up = number(right)
        if search:
            return up
        down = T.sub(n, number(right))
        return T.ite(T.cond("le", T.sub(bins.at((ZERO,)), bins.at((T.sub(n, ONE),)))), up, down)
    return E.out(eqn, fn)


@prim("cumsum")
def _cumsum(E, eqn, a):
    ax = eqn.params["axis"]
    rev = eqn.params["reverse"]

    def fn(ix):
        k = ix[ax]
        if rev:
            n = T.sub(a.shape[ax], k)
        else:
            n = T.add(k, ONE)
        kk = T.as_int(n)
        if kk is not None and kk <= 16:
            return T.addmany([a.at(tuple((T.add(k, T.num(j)) if rev else T.num(j)) if d == ax else x for d, x in enumerate(ix))) for j in range(kk)])
        j = T.fresh_index(n)
        i = T.add(k, j) if rev else j
        return T.sumover(a.at(tuple(i if d == ax else x for d, x in enumerate(ix))), j, n)
    return E.out(eqn, fn)


@prim("cumprod", "cummax", "cummin", "cumlogsumexp")
def _cumother(E, eqn, a):
    ax = eqn.params["axis"]
    name = eqn.primitive.name
    n = T.as_int(a.shape[ax])
    if n is None or n > 16:
        raise Unsupported(name)
    f = {"cumprod": T.mul, "cummax": T.maximum, "cummin": T.minimum}[name]

    def fn(ix):
        k = T.as_int(ix[ax])
        if k is None:
            raise Unsupported(name + " at a symbolic index")
        r = None
        rng = range(k, n) if eqn.params["reverse"] else range(k + 1)
        for j in rng:
            v = a.at(tuple(T.num(j) if d == ax else x for d, x in enumerate(ix)))
            r = v if r is None else f(r, v)
        return r
    return E.out(eqn, fn)


@prim("dot_general")
def _dot(E, eqn, a, b):
    ((ca, cb), (ba, bb)) = eqn.params["dimension_numbers"]
    fa = [d for d in range(len(a.shape)) if d not in ca and d not in ba]
    fb = [d for d in range(len(b.shape)) if d not in cb and d not in bb]

    def fn(ix):
        nb = len(ba)
        ia, ib = [None] * len(a.shape), [None] * len(b.shape)
        for k, (p, q) in enumerate(zip(ba, bb)):
            ia[p] = ib[q] = ix[k]
        for k, d in enumerate(fa):
            ia[d] = ix[nb + k]
        for k, d in enumerate(fb):
            ib[d] = ix[nb + len(fa) + k]
        vs = []
        conc = []
        for p, q in zip(ca, cb):
            n = a.shape[p]
            k = T.as_int(n)
            if k is not None and k <= 12:
                conc.append((p, q, k))
            else:
                v = T.fresh_index(n)
                vs.append((v, n))
                ia[p] = ib[q] = v
        import itertools
        tot = []
        for combo in itertools.product(*[range(k) for _, _, k in conc]):
            for (p, q, _), k in zip(conc, combo):
                ia[p] = ib[q] = T.num(k)
            tot.append(T.mul(a.at(tuple(ia)), b.at(tuple(ib))))
        r = T.addmany(tot)
        for v, n in reversed(vs):
            r = T.sumover(r, v, n)
        return r
    return E.out(eqn, fn)


# --- calls -----------------------------------------------------------------------


@prim("jit", "pjit", "closed_call", "core_call", "remat", "remat2", "checkpoint", "custom_lin")
def _pjit(E, eqn, *ins):
    j = eqn.params.get("jaxpr") or eqn.params.get("call_jaxpr")
    if hasattr(j, "consts"):
        return E.run(j, ins)
    return E.eval(j, [], ins)


@prim("custom_jvp_call")
def _cjvp(E, eqn, *ins):
    return E.run(eqn.params["call_jaxpr"], ins)


@prim("custom_vjp_call", "custom_vjp_call_jaxpr")
def _cvjp(E, eqn, *ins):
    j = eqn.params.get("call_jaxpr") or eqn.params.get("fun_jaxpr")
    return E.run(j, ins)


@prim("cond")
def _cond(E, eqn, p, *ins):
    br = eqn.params["branches"]
    outs = [E.run(b, ins) for b in br]
    res = []
    for k in range(len(eqn.outvars)):
        def fn(ix, k=k):
            c = p.at(())
            if p.kind == "b":
                if T.is_num(c):
                    return outs[1 if T.numval(c) else 0][k].at(ix)
                return T.ite(c, outs[1][k].at(ix), outs[0][k].at(ix))

            def choose(v):
                if T.is_num(v):
                    i = max(0, min(len(br) - 1, int(T.numval(v))))
                    return outs[i][k].at(ix)
                r = outs[len(br) - 1][k].at(ix)
                for b in range(len(br) - 2, -1, -1):
                    test = T.cond("le", T.sub(v, T.num(b)))
                    r = T.ite(test, outs[b][k].at(ix), r)
                return r
            return T.lift1(c, choose)
        res.append(E.out(eqn, fn, k))
    return res


@prim("while")
def _while(E, eqn, *ins):
    raise Unsupported("while loop")


@prim("scan")
def _scan(E, eqn, *ins):
    p = eqn.params
    if "ft_in" in p:
        nc, nk = [len(x) for x in p["ft_in"].unpack()][:2]
    else:
        nc, nk = p["num_consts"], p["num_carry"]
    consts, init, xs = ins[:nc], ins[nc:nc + nk], ins[nc + nk:]
    n = E.dim(p["length"])
    rev = p["reverse"]
    body = p["jaxpr"]

    def xat(t):
        u = T.sub(T.sub(n, ONE), t) if rev else t
        return [Arr(x.shape[1:], x.kind, lambda ix, x=x: x.at((u,) + tuple(ix)),
                    const=x.const[T.as_int(u)] if x.const is not None and T.as_int(u) is not None else None) for x in xs]

    kn = T.as_int(n)
    nout = len(eqn.outvars) - nk
    if nk == 0:
        memo = {}

        def outs_at(t):
            if t not in memo:
                memo[t] = E.run(body, list(consts) + xat(t))
            return memo[t]
        return [E.out(eqn, lambda ix, k=k: outs_at(T.sub(T.sub(n, ONE), ix[0]) if rev else ix[0])[k].at(ix[1:]), k)
                for k in range(nout)]
    if kn is not None and kn <= 16:
        carry = list(init)
        ys = []
        for t in range(kn):
            o = E.run(body, list(consts) + carry + xat(T.num(t)))
            carry, y = o[:nk], o[nk:]
            ys.append(y)
        if rev:
            ys = ys[::-1]
        res = [E.out(eqn, carry[k].at, k) for k in range(nk)]
        for k in range(nout):
            def fn(ix, k=k):
                t = T.as_int(ix[0])
                if t is not None:
                    return ys[t][k].at(ix[1:])
                r = ys[kn - 1][k].at(ix[1:])
                for j in range(kn - 2, -1, -1):
                    r = T.ite(T.cond("eq", T.sub(ix[0], T.num(j))), ys[j][k].at(ix[1:]), r)
                return r
            res.append(E.out(eqn, fn, nk + k))
        return res
    sc = Scan(E, n, consts, init, body, xat, nk)
    res = []
    for k in range(nk):
        res.append(E.out(eqn, lambda ix, k=k: sc.pre(k, n, ix), k))
    for k in range(nout):
        def fn(ix, k=k):
            t = T.sub(T.sub(n, ONE), ix[0]) if rev else ix[0]
            return sc.out(k, t, ix[1:])
        res.append(E.out(eqn, fn, nk + k))
    return res


class Scan:
    """A recurrence: state(0) = init, state(t+1) = step(state(t), t)."""

    def __init__(self, E, n, consts, init, body, xat, nk):
        self.E, self.n, self.consts, self.init, self.body, self.xat, self.nk = E, n, consts, init, body, xat, nk
        E.scan_uid += 1
        self.uid = E.scan_uid
        self.comp = []  # for each carry: list of concrete component indices, or None
        import itertools
        for c in init:
            ks = [T.as_int(d) for d in c.shape]
            if all(k is not None for k in ks) and onp.prod(ks, dtype=int) <= 8 and not (E.unfold and c.kind == "f" and ks):
                self.comp.append(list(itertools.product(*[range(k) for k in ks])))
            else:
                self.comp.append(None)
        self.scalar = all(c is not None for c in self.comp)
        # step with symbolic state
        self.t = T.fresh_index(n, "t")
        self.slots = {}
        carry = []
        for j, c in enumerate(init):
            if self.comp[j] is not None:
                for ix in self.comp[j]:
                    self.slots[(j, ix)] = T.fresh_slot("c")
                    if c.kind == "i":
                        T.the_atom(self.slots[(j, ix)]).isint = True
                carry.append(Arr(c.shape, c.kind, lambda ix, j=j: self.slot_at(j, ix)))
            else:
                nm = "c%d_%d" % (self.uid, j)
                carry.append(Arr(c.shape, c.kind, lambda ix, nm=nm: T.opaque("slot:" + nm, ix)))
        self.step = E.run(body, list(consts) + carry + xat(self.t))
        self.slot_ids = {T.the_atom(v).id: k for k, v in self.slots.items()}
        self.direct = {}
        self.closed = {}
        self._keys = {}
        self.analyse()

    def slot_at(self, j, ix):
        ks = tuple(T.as_int(i) for i in ix)
        if all(k is not None for k in ks):
            return self.slots[(j, ks)]
        r = None
        for c in reversed(self.comp[j]):
            v = self.slots[(j, c)]
            if r is None:
                r = v
                continue
            test = ONE
            for a, b in zip(ix, c):
                test = T.land(test, T.cond("eq", T.sub(a, T.num(b))))
            r = T.ite(test, v, r)
        return r

    def comps(self):
        return [(j, c) for j in range(self.nk) if self.comp[j] is not None for c in self.comp[j]]

    def analyse(self):
        E = self.E
        self.upd = {}
        for j, c in self.comps():
            self.upd[(j, c)] = self.step[j].at(tuple(T.num(x) for x in c))
        # components that do not depend on the state
        arrslots = "slot:c%d_" % self.uid
        todo = dict(self.upd)
        changed = True
        sub = {}
        while changed:
            changed = False
            for key, nf in list(todo.items()):
                nf2 = T.subst(nf, sub) if sub else nf
                todo[key] = nf2
                d = T.deps(nf2)
                if any(str(S.atoms[a].static).startswith(arrslots) for a in d if S.atoms[a].op == "fn"):
                    continue
                live = [k for a, k in self.slot_ids.items() if a in d]
                if not live:
                    # state(t) = init at t = 0, else this at t - 1
                    ini = self.init[key[0]].at(tuple(T.num(x) for x in key[1]))
                    self.direct[key] = (ini, nf2)
                    t1 = T.subst(nf2, {T.the_atom(self.t).id: T.sub(self.t, ONE)})
                    v = T.ite(T.cond("eq", self.t), ini, t1)
                    sub[T.the_atom(self.slots[key]).id] = v
                    del todo[key]
                    changed = True
                elif live == [key]:
                    inc = T.sub(nf2, self.slots[key])
                    if T.the_atom(self.slots[key]).id not in T.deps(inc):
                        ini = self.init[key[0]].at(tuple(T.num(x) for x in key[1]))
                        self.closed[key] = (ini, inc)
                        sub[T.the_atom(self.slots[key]).id] = self.closed_at(key, self.t)
                        del todo[key]
                        changed = True
        self.sub = sub
        self.todo = todo  # genuinely recursive, in terms of their own slots and t

    def closed_at(self, key, t):
        ini, inc = self.closed[key]
        ta = T.the_atom(self.t).id
        if ta not in T.deps(inc):
            return T.add(ini, T.mul(t, inc))
        s = T.fresh_index(t)
        return T.add(ini, T.sumover(T.subst(inc, {ta: s}), s, t))

    def closure(self, key):
        """Components that `key` depends on, itself first, in order of first use."""
        seen = [key]
        for k in seen:
            d = T.deps(self.todo[k])
            for a in sorted(x for x in d if x in self.slot_ids):
                kk = self.slot_ids[a]
                if kk not in seen and kk in self.todo:
                    seen.append(kk)
        return seen

    def key_args(self, key):
        r = self._keys.get(key)
        if r is None:
            comps = self.closure(key)
            slots = [self.slots[k] for k in comps]
            bodies = [self.todo[k] for k in comps]
            h = 1 + max([T.height(b) for b in bodies])
            m = {T.the_atom(s).id: T.bv(h, i, False) for i, s in enumerate(slots)}
            m[T.the_atom(self.t).id] = T.bv(h, len(slots), True)
            bodies = [pad_height(T.subst(b, m), h) for b in bodies]
            inits = [self.init[k[0]].at(tuple(T.num(x) for x in k[1])) for k in comps]
            r = (len(comps), tuple(inits) + tuple(bodies), h)
            self._keys[key] = r
        return r

    def pre(self, j, t, ix):
        """Component j of the state after t steps."""
        if self.comp[j] is None:
            return self.pre_array(j, t, ix)
        ks = tuple(T.as_int(i) for i in ix)
        if any(k is None for k in ks):
            r = None
            for c in reversed(self.comp[j]):
                v = self.pre1((j, c), t)
                if r is None:
                    r = v
                    continue
                test = ONE
                for a, b in zip(ix, c):
                    test = T.land(test, T.cond("eq", T.sub(a, T.num(b))))
                r = T.ite(test, v, r)
            return r
        return self.pre1((j, ks), t)

    def pre1(self, key, t):
        return T.lift1(t, lambda t: self._pre1(key, t))

    def _pre1(self, key, t):
        ta = T.the_atom(self.t).id
        k = T.as_int(t)
        if key in self.direct:
            ini, nf = self.direct[key]
            if k == 0:
                return ini
            return T.ite(T.cond("eq", t), ini, T.subst(nf, {ta: T.sub(t, ONE)}))
        if key in self.closed:
            return self.closed_at(key, t)
        n, args, h = self.key_args(key)
        return state(self.E, n, h, t, args)

    def pre_array(self, j, t, ix):
        k = T.as_int(t)
        if k == 0:
            return self.init[j].at(ix)
        off = T.as_int(t) if k is not None else t.t.get(T.EMPTY, 0)
        if (k is not None and k <= 2) or (self.E.unfold and off >= 1):
            o = self.step_at(T.sub(t, ONE))
            return o[j].at(ix)
        return T.liftn((t,) + tuple(ix), lambda xs: T.mono(T.atom("fn", "state%d_%d" % (self.uid, j), xs)))

    def step_at(self, t):
        carry = [Arr(c.shape, c.kind, lambda ix, j=j: self.pre(j, t, ix)) for j, c in enumerate(self.init)]
        return self.E.run(self.body, list(self.consts) + carry + self.xat(t))

    def out(self, k, t, ix):
        # an output that is a component of the new state is that component one step later
        bj = self.body.jaxpr if hasattr(self.body, "jaxpr") else self.body
        ov = bj.outvars
        for j in range(self.nk):
            if ov[self.nk + k] is ov[j]:
                return self.pre(j, T.add(t, ONE), ix)
        ta = T.the_atom(self.t).id
        if self.scalar:
            nf = self.step[self.nk + k].at(ix)
            m = {T.the_atom(s).id: self.pre1(key, t) for key, s in self.slots.items()}
            m[ta] = t
            return T.subst(nf, m)
        return self.step_at(t)[self.nk + k].at(ix)


def pad_height(nf, h):
    """Bodies of one binder share the height of its bound variables."""
    return nf


def state(E, n, h, t, args):
    """Atom: first component of an n-component recurrence after t steps."""
    k = T.as_int(t)
    inits, bodies = args[:n], args[n:]
    if k == 0:
        return inits[0]
    off = k if k is not None else t.t.get(T.EMPTY, 0)
    if (k is not None and k <= 2) or (E.unfold and type(off) is int and off >= 1):
        prev = T.sub(t, ONE)
        vals = [state(E, n, h, prev, rotate(args, n, i)) if n > 1 else state(E, n, h, prev, args) for i in range(n)]
        m = {}
        for i in range(n):
            m[T.the_atom(T.bv(h, i, False)).id] = vals[i]
        m[T.the_atom(T.bv(h, n, True)).id] = prev
        return T.subst(bodies[0], m)
    a = T.atom("pre", (n, h), (t,) + tuple(args), bind=0, fv=None)
    # the bound variables are not free
    a.height = h
    a.fv = frozenset(v for v in a.fv if not (S.atoms[v].op == "bv" and S.atoms[v].static[0] == h))
    a.extra = E
    return T.mono(a)


def rotate(args, n, i):
    """The same recurrence with component i first."""
    raise Unsupported("unfolding a vector recurrence")


def _rb_pre(at, args):
    n, h = at.static
    hh = 1 + max(T.height(b) for b in args[1 + n:])
    if hh != h:
        # substitution changed the height of the bodies: rename the bound variables
        m = {}
        for i in range(n):
            m[T.the_atom(T.bv(h, i, False)).id] = T.bv(hh, i, False)
        m[T.the_atom(T.bv(h, n, True)).id] = T.bv(hh, n, True)
        args = list(args[:1 + n]) + [T.subst(b, m) for b in args[1 + n:]]
    return T.lift1(args[0], lambda t: state(at.extra, n, hh, t, tuple(args[1:])))


T.REBUILD["pre"] = _rb_pre


# --- contracts ---------------------------------------------------------------------


def ufatom(name, core, scal, groups, sign=None, isint=False):
    """The value of an uninterpreted function."""
    plain = list(core) + list(scal)
    return T.liftn(tuple(plain), lambda xs: T.bindmany(
        "uf", (name, len(core), len(scal)), list(xs), groups, sign=sign, isint=isint)) if plain else T.bindmany(
        "uf", (name, 0, 0), [], groups, sign=sign, isint=isint)


UFSIGN = {}


@prim("uf")
def _uf(E, eqn, *ins):
    name, cores, outs = eqn.params["name"], eqn.params["cores"], eqn.params["outs"]
    nb = len(ins[0].shape) - cores[0]

    def fn(ix):
        batch, core = tuple(ix[:nb]), tuple(ix[nb:])
        scal = [a.at(batch) for a, c in zip(ins, cores) if c == 0]
        groups = []
        for a, c in zip(ins, cores):
            if c == 0:
                continue
            ns = a.shape[nb:]
            vs = [T.fresh_index(n) for n in ns]
            groups.append((a.at(batch + tuple(vs)), vs, list(ns)))
        return ufatom(name, core, scal, groups, sign=UFSIGN.get(name))
    return E.out(eqn, fn)


def _rb_uf(at, args):
    op, (static, shapes) = at.op, at.static
    return T.rebuild_many(at, args, lambda plain, groups: ufatom(
        static[0], plain[: static[1]], plain[static[1]:], groups, sign=at.sign, isint=at.isint))


T.REBUILD["uf"] = _rb_uf


@prim("odevar")
def _odevar(E, eqn, z):
    p = eqn.params
    nm = "ode%d.%s" % (p["level"], p["which"])
    import itertools
    for d in p["shape"]:
        if not isinstance(d, int):
            raise Unsupported("state of symbolic shape")

    def fn(ix):
        ks = tuple(T.as_int(i) for i in ix)
        if any(k is None for k in ks):
            r = None
            for c in itertools.product(*[range(d) for d in p["shape"]]):
                v = T.var(nm + str(c))
                test = ONE
                for a, b in zip(ix, c):
                    test = T.land(test, T.cond("eq", T.sub(a, T.num(b))))
                r = v if r is None else T.ite(test, v, r)
            return r
        return T.var(nm + str(ks))
    return E.out(eqn, fn)


@prim("ode")
def _ode(E, eqn, y0, t, F, *tangents):
    import itertools
    lv, nb = eqn.params["level"], eqn.params.get("lead", 0)
    comps = list(itertools.product(*[range(T.as_int(d)) for d in y0.shape[nb:]]))

    def value(bt, i, c):
        num = lambda cc: bt + tuple(T.num(k) for k in cc)
        inits = [y.at(num(cc)) for y in (y0,) + tangents[:1] for cc in comps]
        vs = [T.var("ode%d.y%s" % (lv, cc)) for cc in comps] + [T.var("ode%d.x()" % lv)]
        groups = []
        n = t.shape[nb]
        for x in (t,) + tangents[1:2]:
            v = T.fresh_index(n)
            groups.append((x.at(bt + (v,)), [v], [n]))
        for f in (F,) + tangents[2:]:
            for cc in comps:
                groups.append((f.at(num(cc)), vs, []))
        return odeatom(comps.index(c), len(comps), i, inits, groups)

    def fn(ix):
        bt, i, c = tuple(ix[:nb]), ix[nb], tuple(ix[nb + 1:])
        ks = tuple(T.as_int(k) for k in c)
        if any(k is None for k in ks):
            r = None
            for cc in comps:
                test = ONE
                for a, b in zip(c, cc):
                    test = T.land(test, T.cond("eq", T.sub(a, T.num(b))))
                v = value(bt, i, cc)
                r = v if r is None else T.ite(test, v, r)
            return r
        return value(bt, i, ks)
    return E.out(eqn, fn)


def odeatom(k, n, i, inits, groups):
    def go(xs):
        if not xs[0].t and len(inits) == n:
            return xs[1 + k]
        return T.bindmany("ode", (k, n, len(inits)), list(xs), groups)
    return T.liftn((i,) + tuple(inits), go)


def _rb_ode(at, args):
    (k, n, _), shapes = at.static
    return T.rebuild_many(at, args, lambda plain, groups: odeatom(k, n, plain[0], plain[1:], groups))


T.REBUILD["ode"] = _rb_ode
