"""Proof obligations: the postcondition of a function of the repository for all inputs.

An obligation holds when the terms of the traced real code and of its
specification are proved equal for all values of the inputs, all array sizes
and all indices.
"""
import contextlib
import itertools
import signal
import time
import traceback

import jax
import jax.numpy as jnp
import numpy as onp

from . import engine as EN
from . import terms as T
from . import trace as TR
from .terms import S


class Timeout(Exception):
    pass


@contextlib.contextmanager
def timelimit(seconds):
    def handler(sig, frame):
        raise Timeout("no result within %g s" % seconds)

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds, 5)  # again when a callback swallows it
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Ob:
    """One contract of the real code.

    name        name of the obligation
    functions   functions of /repo under contract (and inlined, if so marked)
    syms        declared inputs (trace.Sym)
    dims        symbolic dimensions: name -> minimum
    real        calls the real code
    spec        the specification of the result
    subs        callees replaced by their contracts: function -> replacement
    opaque      names of specifications that stay uninterpreted in this proof
    facts       callable(engine, arrays) adding known inequalities
    rel, abs    tolerances used when replaying on concrete numbers
    """

    def __init__(self, name, functions, syms, real, spec, dims=None, subs=None, opaque=(), facts=None,
                 rel=1e-8, abs_=1e-12, samples=1, refute=40, timeout=60, enum=8, kind="proof", linalg=False,
                 check=None, bounded=None, goal="eq", pre=None, cost=1, note=None, sizes=None, concrete=True, base=(), private=None, uses=(), eager=False, unfold=False,
                 prover=None, trusted=(), assumes=()):
        self.name, self.functions, self.syms = name, list(functions), list(syms)
        self.real, self.spec, self.dims = real, spec, dict(dims or {})
        self.subs, self.opaque, self.facts = subs or {}, set(opaque), facts
        self.rel, self.abs, self.samples, self.refute = rel, abs_, samples, refute
        self.timeout, self.enum, self.kind, self.linalg = timeout, enum, kind, linalg
        self.check, self.bounded, self.goal, self.pre, self.cost = check, bounded, goal, pre, cost
        self.note, self.sizes, self.concrete = note, sizes, concrete
        self.private, self.uses, self.eager = private, set(uses), eager
        self.prover, self.trusted, self.assumes = prover, list(trusted), list(assumes)
        self.unfold = unfold  # recurrences are unfolded one step
        self.base = list(base)  # substitutions kept when callees are inlined


class Failed(Exception):
    """The obligation is not discharged."""


def traced(ob, fn, scope, modular, inline=()):
    jax.clear_caches()
    TR.install_len()
    stack = contextlib.ExitStack()
    with stack:
        stack.callback(TR.remove_len)
        stack.enter_context(TR.patched({k: v for k, v in ob.subs.items() if (modular and getattr(v, "provides", None) not in (inline or ("",))) or k in ob.base}))
        stack.enter_context(TR.library_contracts())
        if ob.linalg:
            stack.enter_context(TR.linalg_contracts())
        return TR.trace(fn, ob.syms, scope)


def arrays_of(ob, E):
    out = [EN.scalar(T.ZERO)]
    for s in ob.syms:
        if s.fixed is not None:
            out.append(EN.scalar(E.fnum(float(s.fixed)), s.kind))
            continue
        out.append(E.input(s.name, tuple(str(d) for d in s.shape), s.kind, s.sign, s.lo, s.hi))
    return out


def indices(shape, enum):
    axes = []
    for n in shape:
        k = T.as_int(n)
        if k is not None and k <= enum:
            axes.append([T.num(j) for j in range(k)])
        else:
            axes.append([T.fresh_index(n)])
    return itertools.product(*axes)


def describe(nf, limit=400):
    s = T.show(nf)
    return s if len(s) <= limit else s[:limit] + " ..."


def prove(ob, modular=True, inline=()):
    """Raises Failed, Unsupported, Limit or Timeout when the obligation is not discharged."""
    from contracts import spec as SP

    t0 = time.time()
    T.reset()
    EN.TABLES.clear()
    S.budget = 40_000_000
    scope = TR.scope_for(ob.dims)
    if ob.prover is not None:
        info = ob.prover(ob, scope, modular, inline)
        info.update(seconds=round(time.time() - t0, 2), terms=len(S.atoms), lra=S.stats.get("lra", 0))
        return info
    with SP.mode("symbolic", ob.opaque - set(inline) if modular else set()):
        rj, rt = traced(ob, ob.real, scope, modular, inline)
        sj, st = traced(ob, ob.spec, scope, modular, inline)
    if str(rt) != str(st):
        raise Failed("structure of the result: %s instead of %s" % (rt, st))
    E = EN.Engine(ob.dims)
    E.unfold = ob.unfold
    args = arrays_of(ob, E)
    if ob.facts:
        ob.facts(E)
    ra = E.run(rj, args)
    E.arrays = {}
    sa = E.run(sj, args)
    n = 0
    sens = set()
    for k, (r, s) in enumerate(zip(ra, sa)):
        if len(r.shape) != len(s.shape) or not all(T.same(x, y) for x, y in zip(r.shape, s.shape)):
            raise Failed("shape of result %d: %s instead of %s" % (k, r.shape, s.shape))
        for ix in indices(s.shape, ob.enum):
            x = r.at(ix)
            y = s.at(ix)
            n += 1
            if ob.goal == "eq":
                ok = T.same(x, y)
            elif ob.goal == "le":
                ok = T.le0(T.sub(x, y)) or T.sign(T.sub(x, y)) in ("-", "0-", "0")
            if not ok:
                raise Failed("result %d%s: %s  is not  %s" % (
                    k, list(map(T.show, ix)) if ix else "", describe(x), describe(y)) + "; they differ in " + T.explain(x, y)[-1500:])
            if len(sens) < 2 and ob.goal == "eq":
                for a in sorted(T.deps(y)):
                    at = S.atoms[a]
                    if at.op in ("var", "el") and a not in sens:
                        z = T.subst(y, {a: T.mono(T.atom("var", "other", (), sign=at.sign, isint=at.isint))})
                        if not T.same(x, z):
                            sens.add(a)
                            break
    return {
        "elements": n, "terms": len(S.atoms), "seconds": round(time.time() - t0, 2),
        "sensitive": len(sens), "ops": sum(E.trace_ops.values()), "lra": S.stats.get("lra", 0),
    }


# --- concrete replays ------------------------------------------------------------------


def sample_inputs(ob, rng, k, shapes=None):
    """Concrete sizes and values satisfying the declared ranges."""
    sizes = {}
    for d, lo in ob.dims.items():
        hi = (ob.sizes or {}).get(d, 5)
        sizes[d] = int(rng.integers(max(lo, 1), max(lo, hi) + 1))
    vals = []
    for q, s in enumerate(ob.syms):
        shape = shapes[q] if shapes else tuple(eval(str(d), {"__builtins__": {}}, dict(sizes)) if not isinstance(d, int) else d for d in s.shape)
        if s.sample is not None:
            v = s.sample(rng, shape)
        else:
            lo = s.lo if s.lo is not None else (0.05 if s.sign in ("+", "0+") else -2.0)
            hi = s.hi if s.hi is not None else max(2.0, lo + 2.0) if s.kind == "f" else lo + 50
            if s.kind == "i":
                v = rng.integers(int(lo), int(hi) + 1, size=shape)
            else:
                v = rng.uniform(lo, hi, size=shape)
        if s.special and rng.random() < (0.3 if k else 0.0):
            if shape == ():
                v = s.special[int(rng.integers(len(s.special)))]
            else:
                v = onp.array(v)
                v.flat[int(rng.integers(v.size))] = s.special[int(rng.integers(len(s.special)))]
        dt = {"f": onp.float64, "i": onp.int32, "b": bool}[s.kind]
        vals.append(jnp.asarray(onp.asarray(v, dtype=dt)))
    if ob.pre is not None and not ob.pre(*[onp.asarray(v) for v in vals]):
        return None
    return vals


def compare(ob, real, spec):
    """None when equal, else a description of the difference."""
    rl, rt = jax.tree_util.tree_flatten(real)
    sl, st = jax.tree_util.tree_flatten(spec)
    if str(rt) != str(st):
        return "structure %s instead of %s" % (rt, st)
    for k, (r, s) in enumerate(zip(rl, sl)):
        r, s = onp.asarray(r), onp.asarray(s)
        if r.shape != s.shape:
            return "result %d has shape %s instead of %s" % (k, r.shape, s.shape)
        r, s = r.astype(float), s.astype(float)
        ok = onp.isfinite(s)
        if not ok.any():
            continue
        scale = onp.max(onp.abs(s[ok]))
        bad = ok & ~(onp.abs(r - s) <= ob.rel * (onp.abs(s) + 1e-3 * scale) + ob.abs)
        if ob.goal == "le":
            bad = ok & ~(r <= s + ob.rel * (onp.abs(s) + 1e-3 * scale) + ob.abs)
        if bad.any():
            i = tuple(int(j[0]) for j in onp.nonzero(bad)) if r.ndim else ()
            return "result %d%s is %r instead of %r" % (k, list(i) if i else "", float(r[i]), float(s[i]))
    return None


def show_inputs(ob, vals):
    return {s.name: onp.asarray(v).tolist() for s, v in zip(ob.syms, vals)}


def concrete(ob, seed, count, deadline=None):
    """Runs the real code on concrete inputs: (number of runs, first counterexample).

    The first runs are as a user makes them; the others, of compiled code, cover
    more inputs of a few sizes."""
    from contracts import spec as SP

    rng = onp.random.default_rng(seed)
    done = 0
    cache = {}
    with SP.mode("concrete", set()):
        for k in range(count):
            if deadline and time.time() > deadline:
                break
            if k < 3 or len(cache) < 2:
                vals = sample_inputs(ob, rng, k)
            else:
                vals = sample_inputs(ob, rng, k, list(cache)[int(rng.integers(len(cache)))])
            if vals is None:
                continue
            real, spec, key = ob.real, ob.spec, None
            if k >= 3 and not ob.eager:
                key = tuple(v.shape for v in vals)
                if key not in cache:
                    cache[key] = (jax.jit(ob.real), jax.jit(ob.spec))
                real, spec = cache[key]
            try:
                want = spec(*vals)
            except Timeout:
                raise
            except Exception:
                if key is None:
                    raise
                cache[key] = (ob.real, ob.spec)
                continue
            try:
                got = real(*vals)
            except Timeout:
                raise
            except Exception as e:
                if key is not None and real is not ob.real:
                    cache[key] = (ob.real, ob.spec)
                    continue
                return done + 1, {"inputs": show_inputs(ob, vals), "difference": "raises %s: %s" % (
                    type(e).__name__, str(e)[:300])}
            done += 1
            d = compare(ob, got, want)
            if d and key is not None:
                d2 = compare(ob, ob.real(*vals), ob.spec(*vals))
                d = d2 or "compiled: " + d
            if d:
                return done, {"inputs": show_inputs(ob, vals), "difference": d}
    return done, None


# --- one obligation -----------------------------------------------------------------------


def discharge(ob, seed, tier, inline=()):
    """Result record of an obligation: proved, or failed with a failing input or without."""
    from contracts import spec as SP

    rec = {"name": ob.name, "functions": ob.functions, "kind": ob.kind, "trusted": ob.trusted, "assumes": ob.assumes}
    if ob.kind != "check":
        SP.detect_sigma()
    if ob.bounded:
        rec["bounded"] = ob.bounded
    t0 = time.time()
    if ob.kind == "check":
        # a finite (labelled) enumeration on the real code
        try:
            with timelimit(ob.timeout * (1 if tier == "quick" else 3)):
                r = ob.check(seed, tier)
            rec["runs"] = r.get("runs", 0)
            if r.get("violation"):
                rec["status"] = "violated"
                rec["counterexample"] = r["violation"]
            else:
                rec["status"] = "held"
            rec.update({k: v for k, v in r.items() if k not in ("violation", "runs")})
        except Exception as e:
            rec["status"] = "unproved"
            rec["reason"] = "%s: %s" % (type(e).__name__, e)
            rec["trace"] = traceback.format_exc()[-2000:]
        rec["seconds"] = round(time.time() - t0, 2)
        return rec
    reasons = []
    for modular in ((True, False) if (ob.subs or ob.opaque) else (True,)):
        try:
            with timelimit(ob.timeout * (1 if tier == "quick" else 4)):
                info = prove(ob, modular, inline)
            rec["proof"] = info
            rec["mode"] = "modular" if modular and ob.subs else "inlined"
            rec["status"] = "proved"
            break
        except Exception as e:
            reasons.append("%s: %s: %s" % ("modular" if modular else "inlined", type(e).__name__, str(e)[:1500]))
            if not isinstance(e, (Failed, Timeout, T.Limit, EN.Unsupported)):
                reasons.append(traceback.format_exc()[-1500:])
        finally:
            TR.remove_len()
    jax.clear_caches()
    T.reset()
    rec["prove_s"] = round(time.time() - t0, 2)
    if ob.concrete:
        n = ob.samples if rec.get("status") == "proved" else ob.refute
        try:
            with timelimit(150 if tier == "quick" else 400):
                runs, cex = concrete(ob, seed, n, time.time() + (40 if tier == "quick" else 300))
        except Timeout:
            runs, cex = 0, None
        rec["runs"] = runs
        if cex:
            rec["status"] = "violated"
            rec["counterexample"] = cex
    if "status" not in rec:
        rec["status"] = "unproved"
    if reasons:
        rec["reason"] = reasons
    rec["seconds"] = round(time.time() - t0, 2)
    return rec
