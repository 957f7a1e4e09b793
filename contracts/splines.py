"""Contracts of jax_cosmo.scipy.interpolate (C19 - C21)."""
from .common import *
from jxv import cells as CE
from jxv import engine as EN
from jxv import terms as T
from jxv.prove import Failed


def table_sample(rng, s):
    return onp.cumsum(rng.uniform(0.05, 0.5, size=s)) * 1.0 - 1.0


def C19():
    obs = []

    def ob(name, left, right, d, where):
        xs = lambda rng, s: onp.sort(rng.uniform(-1.0, 1.0, size=s))
        syms = [Sym("x", ("m",), sample=ranged(0, 1)), Sym("xp", ("n",), sample=table_sample), Sym("fp", ("n",), sample=ranged(-2, 2))]

        def place(x, xp):
            # query points of this case, from numbers between 0 and 1
            xp = xp if d > 0 else xp[::-1]
            n = xp.shape[0]
            lo = 0 if where != "right" and (left[1] or where == "left") else 1
            j = n - 2 if right == (0, True) else 0 if left == (0, True) else 1
            i = j if (left[1] or right[1]) else 1 + jnp.floor(x * (n - 3) * 0.999).astype(int)
            x0, x1 = xp[i], xp[jnp.minimum(i + 1, n - 1)]
            u = {"inside": 0.01 + 0.98 * x, "at": 0.0 * x, "end": 0.0 * x + 1.0, "left": -0.1 - x, "right": 1.1 + x}[where]
            return x0 + u * (x1 - x0), xp, i, u

        def real(x, xp, fp):
            q, t, i, u = place(x, xp)
            return interpolate.interp(q, t, fp)

        def spec(x, xp, fp):
            q, t, i, u = place(x, xp)
            return fp[i] + (fp[i + 1] - fp[i]) * u

        def prover(ob, scope, modular, inline):
            n = 0
            cases = {"inside": (0, 1), "at": (0,), "end": (1,), "left": (0,), "right": (1,)}[where]
            for pick in cases:
                c = CE.Cell(left, right, d)
                c.choice, c.pick = cases, pick
                w1 = T.var("w_left", sign="+")
                w2 = T.var("w_right", sign="+")
                k = T.num(1)
                if where == "inside":
                    c.gap = lambda i, g=c.gap: T.add(w1, w2) if i == 0 else g(i)
                    off = w1
                elif where == "at":
                    off = T.ZERO
                elif where == "end":
                    off = c.gap(0)
                elif where == "left":
                    off = T.scale(w1, -1)
                else:
                    off = T.add(c.gap(0), w1)
                x = T.add(c.x0, T.scale(off, d))
                # for tools that count entries instead of looking for the nearest
                c.ind = {"left": T.ZERO, "right": c.n}.get(where, T.add(c.j, T.num(2 if where == "end" and d > 0 else 0 if where == "at" and d < 0 else 1)))
                c.skip_low, c.skip_high = where == "left", where == "right"
                E, (r,) = CE.run(ob, scope, lambda x, xp, fp: interpolate.interp(x, xp, fp), c, x, "xp", "n")
                f0, f1 = (EN.element("fp", (T.add(c.j, T.num(k)),)) for k in (0, 1))
                want = T.add(f0, T.mul(T.mul(T.sub(f1, f0), off), T.power(c.gap(0), -1)))
                i = T.fresh_index(r.shape[0])
                got = r.at((i,))
                if not T.same(got, want):
                    raise Failed("%s, nearest entry j+%d: %s is not %s" % (where, pick, T.show(got)[:600], T.show(want)[:300]))
                n += 1 + c.checked
            return {"elements": n, "sensitive": 1, "ops": sum(E.trace_ops.values())}

        obs.append(Ob("C19." + name, ["interp"], syms, real, spec, dims={"m": 1, "n": 3}, sizes={"n": 9},
                      prover=prover, refute=12))

    for d, dt in ((1, "increasing"), (-1, "decreasing")):
        for loc, left, right in (("first", (0, True), (1, False)), ("inner", (1, False), (1, False)), ("last", (1, False), (0, True))):
            for where in ("inside", "at", "end") + {"first": ("left",), "last": ("right",)}.get(loc, ()):
                ob("interp.%s.%s.%s" % (dt, loc, where), left, right, d, where)
    return obs


# --- splines -------------------------------------------------------------------------------

KINDS = ((1, None), (2, None), (3, "natural"), (3, "not-a-knot"), (3, None))
MIN = {1: 2, 2: 3, 3: 4}
SOLVE = "numpy.linalg.solve(A, s) returns z with A z = s; A is invertible for strictly increasing abscissae"


def make(x, y, k, ends):
    return interpolate.InterpolatedUnivariateSpline(x, y, **({} if k is None else {"k": k}), **({"endpoints": ends} if ends else {}))


def derivatives(f, q, n):
    """f(q) and its derivatives with respect to q."""
    out = [f(q)]
    for _ in range(n):
        f = (lambda f: lambda q: jax.jvp(f, (q,), (jnp.ones(q.shape),))[1])(f)
        out.append(f(q))
    return tuple(out)


def tag(k, ends):
    return "k%s%s" % (k or "default", "." + ends if ends else "")


def data_syms(k):
    return [Sym("x", ("n",), sample=table_sample), Sym("y", ("n",), sample=ranged(-2, 2)), Sym("q", ("m",), sample=ranged(-1, 1))]


def reference(x, y, k, ends):
    """The spline by scipy, for the replays."""
    from scipy.interpolate import CubicSpline
    return CubicSpline(x, y, bc_type=ends or "not-a-knot")


def spline_ob(obs, name, k, prover, check, functions, **kw):
    """check(x, y): residuals of the property on concrete data, zero when it holds."""
    syms = data_syms(k)
    obs.append(Ob(name, functions, syms, lambda x, y, q: check(x, y, q), lambda x, y, q: 0.0, dims={"n": MIN[k or 3] + 1, "m": 1},
                  sizes={"n": 9}, prover=prover, eager=True, refute=6, abs_=1e-7, trusted=[SOLVE] if (k or 3) > 1 else (), **kw))


def worst(*rs):
    return jnp.max(jnp.stack([jnp.max(jnp.abs(jnp.asarray(r))) for r in rs]))


def breaks(x, k):
    if k == 2:
        m = (x[1:] + x[:-1]) / 2.0
        return jnp.concatenate([x[:1] - (x[1:2] - x[:1]) / 2.0, m, x[-1:] + (x[-1:] - x[-2:-1]) / 2.0])
    return x


def locations(lo, hi):
    """left in lo.. , right in hi..: the exact minima and all that is larger."""
    out = []
    for l, lt in (((lo, True), "L%d" % lo), ((lo + 1, True), "L%d" % (lo + 1)), ((lo + 2, False), "L")):
        for r, rt in (((hi, True), "R%d" % hi), ((hi + 1, True), "R%d" % (hi + 1)), ((hi + 2, False), "R")):
            out.append((lt + rt, l, r))
    return out


def enough(l, r, k):
    """Only cells of tables with the number of points needed: exact sizes below are left out."""
    return l[0] + r[0] + 2 >= MIN[k or 3] or not (l[1] and r[1])


def C20():
    obs = []
    for k, ends in KINDS:
        kk = k or 3
        t = tag(k, ends)
        fn = lambda x, y, q, k=k, ends=ends: derivatives(make(x, y, k, ends), q, 3)
        call = lambda x, y, q, k=k, ends=ends: (make(x, y, k, ends)(q),)
        last = 0 if kk == 2 else 0
        # through the data
        for lt, l, r in locations(0, -1 if kk == 2 else 0):
            if l[0] + r[0] + 2 < MIN[kk] and l[1] and r[1]:
                continue

            def through(ob, scope, modular, inline, l=l, r=r, kk=kk, call=call):
                n = 0
                ends_ = (0,) if kk == 2 or r != (0, True) else (0, 1)
                for c in ends_:
                    cell = CE.Cell(l, r)
                    cell.ind = T.add(cell.j, T.num(1 + c))
                    cell.skip_high = c == 1
                    E, (v,) = CE.run(ob, scope, call, cell, T.add(cell.x0, cell.offset(c)), "x", "n", "q")
                    want = EN.element("y", (T.add(cell.j, T.num(c)),))
                    if not T.same(CE.first(v), want):
                        raise Failed("at a data point: %s instead of %s" % (T.show(CE.first(v))[:600], T.show(want)))
                    n += 1 + cell.checked
                return {"elements": n, "sensitive": 1, "ops": sum(E.trace_ops.values())}

            spline_ob(obs, "C20.%s.data.%s" % (t, lt), k, through,
                      lambda x, y, q, k=k, ends=ends: worst(make(x, y, k, ends)(x) - y, make(x, y, k, ends)(x[0]) - y[0]),
                      ["InterpolatedUnivariateSpline.__init__", "InterpolatedUnivariateSpline.__call__"])
        # continuity with k - 1 derivatives at the knots
        for lt, l, r in locations(1, -1 if kk == 2 else 0):
            if l[0] + r[0] + 2 < MIN[kk] and l[1] and r[1]:
                continue

            def smooth(ob, scope, modular, inline, l=l, r=r, kk=kk, fn=fn):
                how = []
                # pieces j - 1 and j meet at knot j
                vals = []
                for side in (0, 1):
                    cell = CE.Cell(l, r, plain=True)
                    cell.ind = T.add(cell.j, T.num(side))
                    E, outs = CE.run(ob, scope, fn, cell, lambda ix, c=cell: c.bins.at((c.j,)), "x", "n", "q")
                    vals.append([CE.first(v) for v in outs])
                for d in range(kk):
                    how.append(CE.vanishes(E, cell, T.sub(vals[1][d], vals[0][d]), [cell.j] if E.solved else []))
                return {"elements": kk, "sensitive": 1, "ops": sum(E.trace_ops.values()), "by": how}

            def jumps(x, y, q, k=k, ends=ends, kk=kk):
                s = make(x, y, k, ends)
                b = breaks(x, kk)[1:-1]
                lo, hi = derivatives(s, b - 1e-9, 3)[:kk], derivatives(s, b + 1e-9, 3)[:kk]
                return worst(*[(p - q) * 1e-2 ** d for d, (p, q) in enumerate(zip(lo, hi))]) * 0.01

            spline_ob(obs, "C20.%s.smooth.%s" % (t, lt), k, smooth, jumps,
                      ["InterpolatedUnivariateSpline.__init__", "InterpolatedUnivariateSpline.__call__"])
        # end conditions
        if kk > 1:
            # equal highest derivatives across the knot next to the end, or vanishing curvature at the end
            nat = ends == "natural"
            for side in ("left", "right"):
                for more in (0, 1, 2):
                    l, r = (0 if nat else 1, True), (MIN[kk] - 2 + more, more < 2)
                    if kk == 2:
                        r = (more, more < 2)
                    elif not nat:
                        r = (MIN[kk] - 3 + more, more < 2)
                    if side == "right":
                        # as many knots on the right as there are on the left in the other case
                        l, r = r, l
                        l = (l[0] + (1 if not nat or kk == 2 else 0), l[1])
                        r = (-1 if kk == 2 else 0, True)
                        if nat:
                            l = (MIN[kk] - 2 + more, more < 2)

                    def end(ob, scope, modular, inline, l=l, r=r, kk=kk, fn=fn, nat=nat, side=side):
                        vals = []
                        for s in ((0,) if nat else (0, 1)):
                            cell = CE.Cell(l, r, plain=True)
                            cell.ind = T.add(cell.j, T.num(1 if nat else s))
                            knot = T.add(cell.j, T.num(1 if nat and side == "right" else 0))
                            E, outs = CE.run(ob, scope, fn, cell, lambda ix, c=cell: c.bins.at((knot,)), "x", "n", "q")
                            vals.append([CE.first(v) for v in outs])
                        j = vals[0][2] if nat else T.sub(vals[1][kk], vals[0][kk])
                        N = T.sub(E.solved[0][0].shape[0], T.ONE)
                        by = CE.vanishes(E, cell, j, [T.ZERO if side == "left" else N])
                        return {"elements": 1, "sensitive": 1, "ops": sum(E.trace_ops.values()), "by": by}

                    def ends_of(x, y, q, k=k, ends=ends, kk=kk, nat=nat):
                        s = make(x, y, k, ends)
                        b = breaks(x, kk)
                        if nat:
                            d = derivatives(s, jnp.stack([b[0], b[-1]]), 2)[2]
                            return worst(d)
                        p = jnp.stack([(b[0] + b[1]) / 2, (b[1] + b[2]) / 2, (b[-3] + b[-2]) / 2, (b[-2] + b[-1]) / 2])
                        d = derivatives(s, p, 3)[kk]
                        return worst(d[1] - d[0], d[3] - d[2]) / (1.0 + jnp.max(jnp.abs(d)))

                    spline_ob(obs, "C20.%s.end.%s.%d" % (t, side, more), k, end, ends_of, ["InterpolatedUnivariateSpline.__init__"])
        # extended by the pieces at the ends
        for side in ("left", "right"):
            for lt, l, r in locations(0, -1 if kk == 2 else 0):
                if (side == "left") != (l == (0, True)) or l[0] + r[0] + 2 < MIN[kk] and l[1] and r[1]:
                    continue
                if side == "right" and r != (-1 if kk == 2 else 0, True):
                    continue

                def beyond(ob, scope, modular, inline, l=l, r=r, fn=fn, side=side):
                    vals = []
                    x = T.var("query")
                    for out in (0, 1):
                        cell = CE.Cell(l, r, plain=True)
                        cell.ind = (lambda n, x, out=out: T.sub(n, T.num(1 - out))) if side == "right" else T.num(1 - out)
                        E, outs = CE.run(ob, scope, fn, cell, x, "x", "n", "q")
                        vals.append([CE.first(v) for v in outs])
                    for a, b in zip(*vals):
                        if not T.same(a, b):
                            raise Failed("beyond the last knot: %s instead of %s" % (T.show(b)[:500], T.show(a)[:500]))
                    return {"elements": len(vals[0]), "sensitive": 1, "ops": sum(E.trace_ops.values())}

                def outside(x, y, q, k=k, ends=ends, kk=kk, side=side):
                    s = make(x, y, k, ends)
                    b = breaks(x, kk)
                    e, inner = (b[0], b[1]) if side == "left" else (b[-1], b[-2])
                    m = (e + inner) / 2.0
                    d = derivatives(s, m[None], 3)
                    far = e + (e - inner) * jnp.array([0.5, 2.0])
                    w = far - m
                    return worst(s(far) - (d[0] + d[1] * w + d[2] * w**2 / 2 + d[3] * w**3 / 6)) / (1 + worst(s(far)))

                spline_ob(obs, "C20.%s.beyond.%s.%s" % (t, side, lt), k, beyond, outside, ["InterpolatedUnivariateSpline.__call__"])
        # rebuilt from its parts; queries of any shape
        sy = data_syms(k)[:2]
        for qt, sh in (("", ("m",)), (".scalar", ()), (".matrix", ("m", "p"))):
            q = Sym("q", sh, sample=ranged(-1.5, 2.0))
            dims = dict({"n": MIN[kk] + 1}, **{d: 1 for d in sh})

            def rebuilt(x, y, q, k=k, ends=ends):
                s = make(x, y, k, ends)
                c, a = s.tree_flatten()
                leaves, tree = jax.tree_util.tree_flatten(s)
                return type(s).tree_unflatten(a, c)(q), jax.tree_util.tree_unflatten(tree, leaves)(q)

            one = lambda x, y, q, k=k, ends=ends: make(x, y, k, ends)(q)

            def shaped(ob, scope, modular, inline, which=None, sh=sh):
                n = 0
                vals = []
                for f in (ob.real, ob.spec):
                    cell = CE.Cell((5, False), (5, False), plain=True, ind=CE.some_index)
                    E, outs = CE.run(ob, scope, f, cell, None, "x", "n", None)
                    vals.append(outs)
                for a, b in zip(*vals):
                    ix = tuple(T.fresh_index(m) for m in a.shape)
                    if len(a.shape) != len(b.shape) or not all(T.same(u, v) for u, v in zip(a.shape, b.shape)):
                        raise Failed("shape %s instead of %s" % (a.shape, b.shape))
                    if not T.same(a.at(ix), b.at(ix)):
                        raise Failed("%s instead of %s" % (T.show(a.at(ix))[:500], T.show(b.at(ix))[:500]))
                    n += 1
                return {"elements": n, "sensitive": 1, "ops": sum(E.trace_ops.values())}

            obs.append(Ob("C20.%s.rebuilt%s" % (t, qt), ["InterpolatedUnivariateSpline.tree_flatten", "InterpolatedUnivariateSpline.tree_unflatten"],
                          sy + [q], rebuilt, lambda x, y, q, one=one: (one(x, y, q),) * 2, dims=dims, sizes={"n": 9},
                          prover=shaped))
            if sh != ("m",):
                obs.append(Ob("C20.%s.elementwise%s" % (t, qt), ["InterpolatedUnivariateSpline.__call__"], sy + [q], one,
                              lambda x, y, q, one=one: one(x, y, q[None])[0] if q.ndim == 0 else jax.vmap(lambda r: one(x, y, r))(q),
                              dims=dims, sizes={"n": 9}, prover=shaped))
    return obs


def compare_pieces(cell_args, pairs, first=None):
    """A prover: the results of two functions agree for the given pieces of the spline."""
    def prover(ob, scope, modular, inline):
        n = 0
        ops = 0
        for args in cell_args:
            vals = []
            for f in pairs:
                l, r, ind = args
                cell = CE.Cell(l, r, plain=True)
                cell.ind = ind(cell)
                E, outs = CE.run(ob, scope, f, cell, None, "x", "n", None)
                vals.append(outs)
                ops += sum(E.trace_ops.values())
            for a, b in zip(*vals):
                if len(a.shape) != len(b.shape) or not all(T.same(u, v) for u, v in zip(a.shape, b.shape)):
                    raise Failed("shape %s instead of %s" % (list(map(T.show, a.shape)), list(map(T.show, b.shape))))
                ix = tuple(T.fresh_index(m) for m in a.shape)
                if not T.same(a.at(ix), b.at(ix)):
                    raise Failed("%s instead of %s" % (T.show(a.at(ix))[:600], T.show(b.at(ix))[:600]))
                n += 1
        return {"elements": n, "sensitive": 1, "ops": ops}
    return prover


def positions(kk):
    """All pieces: at and beyond both ends and inside."""
    out = []
    for lt, l, r in locations(0, -1 if kk == 2 else 0):
        if l[0] + r[0] + 2 < MIN[kk] and l[1] and r[1]:
            continue
        out.append((lt, l, r, lambda c: T.add(c.j, T.ONE)))
        if l == (0, True):
            out.append((lt + ".before", l, r, lambda c: T.ZERO))
        if r == (-1 if kk == 2 else 0, True):
            out.append((lt + ".after", l, r, lambda c: (lambda n, x: n)))
    return out


def integral_of(s, a, b):
    return jnp.reshape(s.integral(a, b), (-1,))[0]


def paths(ob, scope, fn, left, right, most=6):
    """The results of fn along every path of its Python branches: (conditions, outputs)."""
    import itertools as it
    out, todo = [], [()]
    while todo:
        ch = todo.pop()
        cell = CE.Cell(left, right, plain=True, ind=CE.some_index)
        with TR.forked(list(ch)) as log:
            def g(*xs):
                log.clear()
                r = fn(*xs)
                return tuple(r), tuple(c for c, _ in log)
            E, outs = CE.run(ob, scope, g, cell, None, "x", "n", None)
        taken = [t for _, t in log]
        if len(taken) > most:
            raise Failed("too many branches")
        for k in range(len(ch), len(taken)):
            todo.append(tuple(taken[:k]) + (not taken[k],))
        n = len(taken)
        out.append((list(zip(outs[len(outs) - n:], taken)), outs[:len(outs) - n], E))
    return out


def C21():
    obs = []
    cls = "InterpolatedUnivariateSpline."
    for k, ends in KINDS:
        kk = k or 3
        t = tag(k, ends)
        mk = lambda x, y, k=k, ends=ends: make(x, y, k, ends)
        for lt, l, r, ind in positions(kk):
            for n in list(range(kk + 1)) + ["default"]:
                if (l[0], l[1], r[1]) != (0, True, False) and n == "default":
                    continue
                m = 1 if n == "default" else n
                real = (lambda x, y, q, mk=mk, n=n: (mk(x, y).derivative(q, *(() if n == "default" else (n,))),))
                spec = (lambda x, y, q, mk=mk, m=m: (derivatives(mk(x, y), q, m)[m],))
                obs.append(Ob("C21.%s.derivative.%s.%s" % (t, n, lt), [cls + "derivative"], data_syms(k), real, spec,
                              dims={"n": MIN[kk] + 1, "m": 1}, sizes={"n": 9},
                              prover=compare_pieces([(l, r, ind)], (real, spec)), eager=True, refute=8, rel=1e-6, abs_=1e-9))
            real = lambda x, y, q, mk=mk: (derivatives(mk(x, y).antiderivative, q, 1)[1],)
            spec = lambda x, y, q, mk=mk: (mk(x, y)(q),)
            obs.append(Ob("C21.%s.antiderivative.%s" % (t, lt), [cls + "antiderivative"], data_syms(k), real, spec,
                          dims={"n": MIN[kk] + 1, "m": 1}, sizes={"n": 9},
                          prover=compare_pieces([(l, r, ind)], (real, spec)), eager=True, refute=8, rel=1e-6, abs_=1e-9))
        # continuous, and zero at the first knot
        anti = lambda x, y, q, mk=mk: (mk(x, y).antiderivative(q),)
        for lt, l, r in locations(0, -1 if kk == 2 else 0):
            if l[0] + r[0] + 2 < MIN[kk] and l[1] and r[1]:
                continue

            def meets(ob, scope, modular, inline, l=l, r=r, anti=anti):
                vals = []
                for s in ((1,) if l == (0, True) else (0, 1)):
                    cell = CE.Cell(l, r, plain=True)
                    cell.ind = T.add(cell.j, T.num(s))
                    E, (v,) = CE.run(ob, scope, anti, cell, lambda ix, c=cell: c.bins.at((c.j,)), "x", "n", "q")
                    vals.append(CE.first(v))
                if len(vals) == 1:
                    vals = [T.ZERO] + vals
                if not T.same(*vals):
                    raise Failed("%s instead of %s" % (T.show(vals[1])[:600], T.show(vals[0])[:600]))
                return {"elements": 1, "sensitive": 1, "ops": sum(E.trace_ops.values())}

            def gaps(x, y, q, mk=mk, kk=kk):
                s = mk(x, y)
                b = breaks(x, kk)
                return worst(s.antiderivative(b[:1]), (s.antiderivative(b - 1e-9) - s.antiderivative(b + 1e-9)) * 0.01)

            spline_ob(obs, "C21.%s.antiderivative.knots.%s" % (t, lt), k, meets, gaps, [cls + "antiderivative"])
        # integrals between bounds in either order
        ab = data_syms(k)[:2] + [Sym("a", (), sample=ranged(-1.5, 2.0)), Sym("b", (), sample=ranged(-1.5, 2.0))]
        real = lambda x, y, a, b, mk=mk: (integral_of(mk(x, y), a, b),)
        spec = lambda x, y, a, b, mk=mk: (lambda s: (s.antiderivative(b[None])[0] - s.antiderivative(a[None])[0],))(mk(x, y))

        def bounds(ob, scope, modular, inline, real=real, spec=spec):
            n = ops = 0
            for l, r in (((5, False), (5, False)),):
                cell = CE.Cell(l, r, plain=True, ind=CE.some_index)
                E, (want,) = CE.run(ob, scope, spec, cell, None, "x", "n", None)
                for conds, (got,), E in paths(ob, scope, real, l, r):
                    x, y = got.at(()), want.at(())
                    for c, truth in conds:
                        for f, _ in c.at(()).t:
                            for a, _ in f:
                                if T.S.atoms[a].op == "br" and len(c.at(()).t) == 1:
                                    x, y = T.assume(x, a, truth), T.assume(y, a, truth)
                    if not T.same(x, y):
                        raise Failed("%s instead of %s when %s; they differ in %s" % (T.show(x)[:300], T.show(y)[:300], [t for _, t in conds], T.explain(x, y)[-900:]))
                    n += 1
                    ops += sum(E.trace_ops.values())
            return {"elements": n, "sensitive": 1, "ops": ops}

        obs.append(Ob("C21.%s.integral" % t, [cls + "integral"], ab, real, spec, dims={"n": MIN[kk] + 1}, sizes={"n": 9},
                      prover=bounds, eager=True, refute=12, rel=1e-6, abs_=1e-9, samples=3))

    def bad(seed=None, tier=None):
        x = jnp.linspace(0.0, 1.0, 8)
        cases = []
        for k, ends in KINDS:
            s = make(x, jnp.cos(x), k, ends)
            for n in (-1, (k or 3) + 1, (k or 3) + 2, 7):
                cases.append(("derivative %d of order %s" % (n, k), lambda s=s, n=n: s.derivative(x, n), (AssertionError, ValueError)))
        return cases
    obs.append(rejects("C21", "derivative.rejected", [cls + "derivative"], bad()))
    return obs
