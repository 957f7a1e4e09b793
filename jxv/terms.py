"""Normal forms of scalar terms.

A term is a sum of coefficient * monomial, a monomial a product of powers of
atoms and at most one exponential E^p.  Atoms are variables, array elements,
primitive multi-term bases of non-polynomial powers, applications of functions,
0/1-valued conditions, binders (sums, products) and states of recurrences.
Two atoms of one function are the same atom when their arguments are proved
equal (`is_zero` of the difference), so equality of terms is congruence modulo
the laws of real arithmetic.  All rules are identities of real-valued
expressions wherever both sides are defined.
"""
import math
import random
import zlib

TOL = 1e-11


def nrm(c):
    if type(c) is int:
        return c
    r = round(c)
    if abs(c - r) <= 1e-13 * max(1.0, abs(c)) and abs(c) < 1e15:
        return int(r)
    return c


def nexp(c):
    """An exponent: rounding errors of its arithmetic are dropped."""
    if type(c) is int:
        return c
    c = round(c, 11)
    r = round(c)
    return int(r) if c == r else c


class Limit(Exception):
    """The term grew beyond what the prover works with."""


class Budget(Limit):
    """The proof takes too long."""


class Atom:
    __slots__ = (
        "id", "op", "static", "args", "val", "sign", "isint", "height", "fv",
        "lo", "hi", "extra", "key",
    )

    def __repr__(self):
        return show_atom(self)


class State:
    pass


S = State()


def reset():
    S.atoms = [None]
    S.table = {}
    S.nfs = {}
    S.exps = [None]
    S.exptab = {}
    S.rng = random.Random(12345)
    S.assumed = {}  # atom id of primitive base -> sign
    S.signs = {}
    S.memo = {}
    S.fresh = 0
    S.facts = []  # extra integer facts: NF <= 0
    S.work = 0
    S.budget = None
    S.stats = {"zero": 0, "atoms": 0}
    S.bvs = {}
    S.canon = {}
    S.static_keys = {}
    S.splits = 0
    global ZERO, ONE, MINUS1
    ZERO = mk({})
    ONE = num(1)
    MINUS1 = num(-1)


EMPTY = ((), 0)
LAZY = 256  # products of more terms are kept factored


class NF:
    __slots__ = ("t", "_val", "_fv", "_h", "_cond", "_key", "__weakref__")

    def __init__(self, t):
        self.t = t
        self._val = None
        self._fv = None
        self._h = None
        self._cond = None
        self._key = None

    def __add__(self, o):
        return add(self, coerce(o))

    __radd__ = __add__

    def __sub__(self, o):
        return sub(self, coerce(o))

    def __rsub__(self, o):
        return sub(coerce(o), self)

    def __mul__(self, o):
        return mul(self, coerce(o))

    __rmul__ = __mul__

    def __neg__(self):
        return scale(self, -1)

    def __repr__(self):
        return show(self)


def coerce(x):
    return x if isinstance(x, NF) else num(x)


def mk(t):
    key = frozenset(t.items())
    r = S.nfs.get(key)
    if r is None:
        r = NF(t)
        S.nfs[key] = r
    return r


def num(c):
    c = nrm(c)
    return mk({EMPTY: c}) if c != 0 else mk({})


def is_num(nf):
    return not nf.t or (len(nf.t) == 1 and EMPTY in nf.t)


def numval(nf):
    return nf.t.get(EMPTY, 0)


def as_int(nf):
    """The integer value of a constant term, or None."""
    if is_num(nf):
        c = numval(nf)
        if type(c) is int:
            return c
    return None


def tick(n=1):
    S.work += n
    if S.budget is not None and S.work > S.budget:
        raise Budget("work budget exhausted")


def add(a, b):
    if not a.t:
        return b
    if not b.t:
        return a
    if len(a.t) < len(b.t):
        a, b = b, a
    t = dict(a.t)
    tick(len(b.t))
    for m, c in b.t.items():
        o = t.get(m)
        if o is None:
            t[m] = c
        else:
            s = o + c
            if abs(s) <= TOL * max(abs(o), abs(c)):
                del t[m]
            else:
                t[m] = nrm(s)
    return mk(t)


def scale(a, c):
    c = nrm(c)
    if c == 0:
        return ZERO
    if c == 1:
        return a
    return mk({m: nrm(v * c) for m, v in a.t.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def addmany(nfs):
    t = {}
    for a in nfs:
        for m, c in a.t.items():
            o = t.get(m)
            if o is None:
                t[m] = c
            else:
                s = o + c
                if abs(s) <= TOL * max(abs(o), abs(c)):
                    del t[m]
                else:
                    t[m] = nrm(s)
        tick(len(a.t))
    return mk(t)


def exp_intern(p):
    """Number of the exponential E^p, p without constant term."""
    if not p.t:
        return 0
    r = S.exptab.get(p)
    if r is not None:
        return r
    v = val(p)
    for b in buckets(v):
        for i in S.canon.setdefault(("E", b), []):
            if same(S.exps[i], p):
                S.exptab[p] = i
                return i
    i = len(S.exps)
    S.exps.append(p)
    S.exptab[p] = i
    S.canon.setdefault(("E", bucket(v)), []).append(i)
    return i


def merge(m1, m2):
    """Product of two monomials: a monomial, or None when the result needs rewriting."""
    f1, e1 = m1
    f2, e2 = m2
    if not f2:
        f = f1
        special = False
    elif not f1:
        f = f2
        special = False
    else:
        d = dict(f1)
        special = False
        for a, e in f2:
            o = d.get(a)
            if o is None:
                d[a] = e
            else:
                n = nexp(o + e)
                op = S.atoms[a].op
                if op == "br":
                    n = 1
                elif op == "poly" and type(n) is int and n > 0:
                    special = True
                elif op in ("abs", "sgn") and type(n) is int and n != 1:
                    special = True
                if n == 0:
                    del d[a]
                else:
                    d[a] = n
        f = tuple(sorted(d.items()))
    if e1 and e2:
        p = add(S.exps[e1], S.exps[e2])
        e = exp_intern(p) if p.t else 0
    else:
        e = e1 or e2
    return (f, e), special


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) == 1 and EMPTY in a.t:
        return scale(b, a.t[EMPTY])
    if len(b.t) == 1 and EMPTY in b.t:
        return scale(a, b.t[EMPTY])
    key = ("*", a, b) if id(a) < id(b) else ("*", b, a)
    r = S.memo.get(key)
    if r is not None:
        return r
    n = len(a.t) * len(b.t)
    if n > LAZY and len(a.t) > 1 and len(b.t) > 1 and not has_cond(a) and not has_cond(b):
        r = product(a, b)
        S.memo[key] = r
        return r
    r = distribute(a, b)
    S.memo[key] = r
    return r


def product(a, b):
    """a b with the larger factors kept as bases of their own."""
    c1, m1, P1 = content(a)
    c2, m2, P2 = content(b)
    r = mk({m1: c1})
    r = mul(r, mk({m2: c2}))
    for P in (P1, P2):
        if sign(P) in ("-", "0-"):
            P, r = scale(P, -1), scale(r, -1)
        p = find_poly(P)
        if p is None:
            q = find_poly(scale(P, -1))
            if q is not None:
                p, r = q, scale(r, -1)
            else:
                p = poly(P)
        r = mul(r, mono(p))
    return r


def distribute(a, b, expand=True):
    n = len(a.t) * len(b.t)
    if n > 400000:
        raise Limit("product of %d terms" % n)
    tick(n)
    t = {}
    rest = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, special = merge(m1, m2)
            c = c1 * c2
            if special and (expand or any(S.atoms[q].op in ("abs", "sgn") for q, _ in m[0])):
                rest.append(rewrite_mono(m, c, expand))
                continue
            o = t.get(m)
            if o is None:
                t[m] = nrm(c)
            else:
                s = o + c
                if abs(s) <= TOL * max(abs(o), abs(c)):
                    del t[m]
                else:
                    t[m] = nrm(s)
    r = mk(t)
    if rest:
        r = addmany([r] + rest)
    return r


def rewrite_mono(m, c, expand=True):
    """Expand positive integer powers of primitive bases, even powers of |x| and sign(x)."""
    f, e = m
    keep = []
    out = []
    for a, n in f:
        at = S.atoms[a]
        if expand and at.op == "poly" and type(n) is int and n > 0 and len(at.args[0].t) ** n <= LAZY:
            out.append(ipow(at.args[0], n))
        elif at.op == "abs" and type(n) is int and n != 1:
            if n % 2 == 0:
                out.append(power(at.args[0], n))
            else:
                keep.append((a, 1))
                out.append(power(at.args[0], n - 1))
        elif at.op == "sgn" and type(n) is int and n != 1:
            if n % 2:
                keep.append((a, 1))
        else:
            keep.append((a, n))
    r = mk({(tuple(keep), e): nrm(c)})
    for o in out:
        r = mul(r, o)
    return r


def ipow(nf, n):
    r = ONE
    for _ in range(n):
        r = mul(r, nf)
    return r


def mono(a, e=1):
    e = nexp(e)
    return mk({(((a.id, e),), 0): 1})


# --- fingerprints ---------------------------------------------------------

EBASE = math.log(1.37)


def val(nf):
    v = nf._val
    if v is None:
        v = 0.0
        sc = 0.0
        for m, c in nf.t.items():
            x = c * mono_val(m)
            v += x
            sc += abs(x)
        nf._val = v
    return v


def mono_val(m):
    f, e = m
    v = 1.0
    try:
        for a, n in f:
            x = S.atoms[a].val
            if type(n) is int:
                v *= x**n
            else:
                v *= abs(x) ** n
        if e:
            v *= math.exp(EBASE * max(-2000.0, min(2000.0, val(S.exps[e]))))
    except (OverflowError, ZeroDivisionError):
        return float("nan")
    return v


def bucket(v):
    if v != v or v in (float("inf"), float("-inf")):
        return "nan"
    if v == 0 or abs(v) < 1e-9:
        return (0, 0)
    e = math.floor(math.log10(abs(v)))
    return (e, round(v / 10.0**e * 1e4))


def buckets(v):
    b = bucket(v)
    if b == "nan" or b == (0, 0):
        return (b,)
    out = [b]
    for f in (1 + 1e-8, 1 - 1e-8):
        c = bucket(v * f)
        if c not in out:
            out.append(c)
    return tuple(out)


def same(a, b):
    """Proved equal."""
    if a is b:
        return True
    va, vb = val(a), val(b)
    if va == va and vb == vb and abs(va - vb) > 1e-7 * (abs(va) + abs(vb)) + 1e-9 * magnitude(a):
        if not has_cond(a) and not has_cond(b):
            return False
    try:
        return is_zero(sub(a, b))
    except Budget:
        raise
    except Limit as e:
        S.stats["limit"] = S.stats.get("limit", 0) + 1
        S.limit = str(e)
        return False


def magnitude(nf):
    s = 0.0
    for m, c in nf.t.items():
        s += abs(c * mono_val(m))
    return s


# --- zero test -----------------------------------------------------------


def is_zero(nf, depth=0):
    if not nf.t:
        return True
    key = ("0", nf)
    r = S.memo.get(key)
    if r is None:
        r = _is_zero(nf, depth)
        S.memo[key] = r
    return r


def _is_zero(nf, depth):
    S.stats["zero"] += 1
    cond = has_cond(nf)
    if not cond:
        v = val(nf)
        if v == v:
            s = magnitude(nf)
            if abs(v) > 1e-7 * s:
                return False
    if cond:
        return zero_eq(nf, depth)
    polys = set()
    for (f, e) in nf.t:
        for a, n in f:
            if S.atoms[a].op == "poly":
                polys.add(a)
    if not polys:
        # irreducible atoms only: nothing left to cancel, except rounding
        return all(abs(c) < 1e-300 for c in nf.t.values())
    # take the outermost base (greatest id) and clear its powers
    a = max(polys)
    P = S.atoms[a].args[0]
    groups = {}
    for (f, e), c in nf.t.items():
        n = 0
        rest = f
        for i, (b, k) in enumerate(f):
            if b == a:
                n = k
                rest = f[:i] + f[i + 1:]
                break
        fr = nrm(n - math.floor(n + 1e-12))
        if type(fr) is not int:
            fr = round(fr, 9)
        groups.setdefault(fr, []).append((nrm(n - (0 if type(n) is int else fr)), (rest, e), c))
    for fr, lst in groups.items():
        lo = min(round(n) for n, _, _ in lst)
        byexp = {}
        for n, m, c in lst:
            byexp.setdefault(int(round(n)) - lo, {})
            d = byexp[int(round(n)) - lo]
            d[m] = d.get(m, 0) + c
        if max(byexp) > 24:
            raise Limit("power %d of a base" % max(byexp))
        # Horner
        acc = ZERO
        absmax = 0.0
        for k in range(max(byexp), -1, -1):
            acc = distribute(acc, P, False) if acc.t else acc
            if k in byexp:
                acc = add(acc, mk({m: c for m, c in byexp[k].items() if c != 0}))
        acc = prune(acc, nf)
        if not is_zero(acc, depth + 1):
            return False
    return True


def prune(acc, ref):
    """Drop coefficients that are rounding errors of the cancellation just made."""
    if not acc.t:
        return acc
    m = max(abs(c * (mono_val(k) if mono_val(k) == mono_val(k) else 1)) for k, c in ref.t.items())
    t = {}
    for k, c in acc.t.items():
        v = mono_val(k)
        if v == v and abs(c * v) < 1e-12 * m * 1e-2:
            continue
        t[k] = c
    return mk(t)


def zero_eq(nf, depth, path=()):
    """Conditions are left: split on the first one.  A case whose conditions contradict
    each other by linear arithmetic needs no further proof."""
    if depth > 24:
        return False
    a = first_cond(nf)
    if a is None:
        if not nf.t or is_zero(nf, depth + 1):
            return True
        return infeasible(path)
    if len(path) > 2 and infeasible(path):
        return True
    for truth in (True, False):
        r = assume(nf, a, truth)
        if r.t and not zero_eq(r, depth + 1, path + ((a, truth),)):
            for x in pinned(a, truth):
                q = subst(r, x)
                if q.t and not zero_eq(q, depth + 1, path + ((a, truth),)):
                    return False
            if not pinned(a, truth):
                return False
    return True


def pinned(a, truth):
    """Substitutions covering the case: the few values left to an integer by a condition."""
    at = S.atoms[a]
    if at.static != "ile":
        return []
    x = at.args[0]
    d, lo = (sub(ZERO, x), 0) if truth else (x, 1)  # d >= lo
    for g in (0, 1, 2):
        if le0(sub(d, num(lo + g))):
            out = []
            for v in range(lo, lo + g + 1):
                s = solve(sub(d, num(v)))
                if s is None:
                    return []
                out.append({s[0]: s[1]})
            return out
    return []


def infeasible(path):
    """The conditions contradict each other, each monomial taken as an unknown."""
    if not path:
        return False
    key = ("inf", path)
    r = S.memo.get(key)
    if r is None:
        try:
            r = _infeasible(path)
        except ImportError:
            r = False
        S.memo[key] = r
    return r


def _infeasible(path):
    import z3

    S.stats["lra"] = S.stats.get("lra", 0) + 1
    vs = {}
    so = z3.Solver()
    so.set("timeout", 3000)

    def mvar(m):
        v = vs.get(m)
        if v is None:
            isint = not m[1] and all(S.atoms[a].isint and type(n) is int and n > 0 for a, n in m[0])
            v = z3.Int("m%d" % len(vs)) if isint else z3.Real("m%d" % len(vs))
            vs[m] = v
            s = mono_sign(m)
            if s == "+":
                so.add(v > 0)
            elif s == "0+":
                so.add(v >= 0)
            elif s == "-":
                so.add(v < 0)
            elif s == "0-":
                so.add(v <= 0)
            if len(m[0]) == 1 and not m[1] and m[0][0][1] == 1:
                at = S.atoms[m[0][0][0]]
                if at.lo is not None:
                    so.add(v >= lin(at.lo))
                if at.hi is not None:
                    so.add(v <= lin(at.hi))
        return v

    def lin(nf):
        out = []
        for m, c in nf.t.items():
            k = z3.IntVal(c) if type(c) is int else z3.RealVal(repr(c))
            out.append(k if m == EMPTY else k * mvar(m))
        return z3.Sum(out) if out else z3.IntVal(0)

    for a, truth in path:
        at = S.atoms[a]
        x = lin(at.args[0])
        f = x < 0 if at.static == "lt" else x <= 0 if at.static == "ile" else x == 0
        so.add(f if truth else z3.Not(f))
    for f in S.facts:
        so.add(lin(f) <= 0)
    return so.check() == z3.unsat


# --- atoms -----------------------------------------------------------------


def fvs(nf):
    r = nf._fv
    if r is None:
        s = set()
        for (f, e) in nf.t:
            for a, n in f:
                s |= S.atoms[a].fv
            if e:
                s |= fvs(S.exps[e])
        r = frozenset(s)
        nf._fv = r
    return r


def height(nf):
    h = nf._h
    if h is None:
        h = 0
        for (f, e) in nf.t:
            for a, n in f:
                h = max(h, S.atoms[a].height)
            if e:
                h = max(h, height(S.exps[e]))
        nf._h = h
    return h


def has_cond(nf):
    r = nf._cond
    if r is None:
        r = False
        for (f, e) in nf.t:
            for a, n in f:
                if S.atoms[a].op == "br":
                    r = True
            if e and has_cond(S.exps[e]):
                r = True
        nf._cond = r
    return r


BINDERS = {"sum", "prod", "argmin", "pre", "uf", "inv", "ode"}


def atom(op, static, args, sign=None, isint=False, lo=None, hi=None, fv=None, bind=0):
    """The atom of op applied to args; an existing one when the arguments are equal."""
    args = tuple(args)
    key = (op, static, args)
    a = S.table.get(key)
    if a is not None:
        return a
    fp = 0.0
    for i, x in enumerate(args):
        fp += val(x) * (1.0 + 0.61803 * i)
    if args:
        for b in buckets(fp):
            for o in S.canon.get((op, static, len(args), b), ()):
                if all(same(x, y) for x, y in zip(o.args, args)):
                    S.table[key] = o
                    return o
    a = Atom()
    a.id = len(S.atoms)
    S.atoms.append(a)
    S.stats["atoms"] += 1
    a.op, a.static, a.args = op, static, args
    a.val = 0.6 + 1.1 * S.rng.random()
    if op == "poly":
        a.val = val(args[0])
        if a.val != a.val or abs(a.val) < 1e-6:
            a.val = 0.77 + S.rng.random() / 3 if a.val != a.val else a.val
    a.sign, a.isint = sign, isint
    a.lo, a.hi = lo, hi
    a.extra = None
    a.key = None
    h = 0
    f = set()
    for x in args:
        h = max(h, height(x))
        f |= fvs(x)
    a.height = h + (1 if bind else 0)
    if bind:
        # the bound variables of this binder are not free outside
        f = {v for v in f if not (S.atoms[v].op == "bv" and S.atoms[v].static[0] == h + 1)}
    if fv is not None:
        f |= fv
    a.fv = frozenset(f)
    if op in ("var", "bv", "fresh", "slot"):
        a.fv = frozenset((a.id,))
    S.table[key] = a
    if args:
        S.canon.setdefault((op, static, len(args), bucket(fp)), []).append(a)
    return a


def var(name, sign=None, isint=False, lo=None, hi=None):
    return mono(atom("var", name, (), sign=sign, isint=isint, lo=lo, hi=hi))


def dim(name, lo=0):
    a = atom("var", "dim:" + name, (), sign="+" if lo > 0 else "0+", isint=True, lo=num(lo))
    return mono(a)


def fresh_index(n, prefix="i"):
    """A fresh integer variable ranging over [0, n)."""
    S.fresh += 1
    a = atom("fresh", "%s%d" % (prefix, S.fresh), (), sign="0+", isint=True)
    a.lo = ZERO
    a.hi = sub(n, ONE)
    return mono(a)


def fresh_slot(prefix="s"):
    S.fresh += 1
    return mono(atom("slot", "%s%d" % (prefix, S.fresh), ()))


def bv(h, k, isint=True):
    a = atom("bv", (h, k, isint), (), sign="0+" if isint else None, isint=isint)
    return mono(a)


def the_atom(nf):
    """The atom of a term that is exactly one atom."""
    (m,) = nf.t
    ((a, e),) = m[0]
    return S.atoms[a]


# --- signs and bounds --------------------------------------------------------

NEG = {"+": "-", "-": "+", "0+": "0-", "0-": "0+", None: None, "0": "0"}


def smul(a, b):
    if a is None or b is None:
        return None
    if a == "0" or b == "0":
        return "0"
    weak = "0" in a or "0" in b
    neg = ("-" in a) != ("-" in b)
    return ("0" if weak else "") + ("-" if neg else "+")


def mono_sign(m):
    s = "+"
    f, e = m
    for a, n in f:
        at = S.atoms[a]
        b = atom_sign(at)
        if type(n) is int and n % 2 == 0:
            b = "+" if (b in ("+", "-") or n < 0) else "0+"
        elif type(n) is not int:
            b = "+" if (b == "+" or n < 0) else "0+"
        elif n < 0 and b in ("0+", "0-"):
            b = b[1]
        s = smul(s, b)
        if s is None:
            return None
    return s


def atom_sign(at):
    if at.op == "poly":
        s = S.assumed.get(at.id)
        if s:
            return s
        return sign(at.args[0])
    s = S.assumed.get(at.id)
    return s or at.sign


def sign(nf):
    """'+', '-', '0+', '0-', '0' or None (unknown)."""
    if not nf.t:
        return "0"
    key = ("s", nf)
    r = S.signs.get(key, 0)
    if r == 0:
        S.signs[key] = None
        r = _sign(nf)
        S.signs[key] = r
    return r


def _sign(nf):
    tot = None
    ok = True
    for m, c in nf.t.items():
        s = mono_sign(m)
        if c < 0:
            s = NEG[s]
        if s is None:
            ok = False
            break
        if tot is None:
            tot = s
        elif ("-" in tot) != ("-" in s):
            ok = False
            break
        elif "0" in tot:
            tot = s
    if ok:
        return tot
    # an asserted sign of the same primitive base
    if len(nf.t) > 1:
        c, m, P = content(nf)
        a = S.table.get(("poly", None, (P,)))
        if a is not None and a.id in S.assumed:
            s = smul(S.assumed[a.id], mono_sign(m))
            return NEG[s] if c < 0 else s
    lo, hi = interval(nf)
    if lo > 0:
        return "+"
    if hi < 0:
        return "-"
    if lo == 0:
        return "0+"
    if hi == 0:
        return "0-"
    # monotone substitution of index bounds
    if le0(nf):
        return "0-"
    if le0(scale(nf, -1)):
        return "0+"
    return None


INF = float("inf")


def imul(a, b):
    ps = []
    for x in a:
        for y in b:
            p = 0.0 if (x == 0 or y == 0) else x * y
            ps.append(p)
    return min(ps), max(ps)


def ipw(iv, n):
    lo, hi = iv
    if type(n) is int and n > 0:
        if n % 2 == 0:
            if lo <= 0 <= hi:
                return 0.0, max(lo**n if lo > -INF else INF, hi**n if hi < INF else INF)
            a, b = abs(lo), abs(hi)
            a, b = min(a, b), max(a, b)
            return a**n, (b**n if b < INF else INF)
        return (lo**n if lo > -INF else -INF), (hi**n if hi < INF else INF)
    if type(n) is int:
        if lo > 0:
            return (hi ** n if hi < INF else 0.0), lo**n
        if lo == 0:
            return (hi ** n if hi < INF else 0.0), INF
        if hi < 0 or n % 2:
            return (-INF, INF) if n % 2 else (0.0, INF)
        return 0.0, INF
    lo = max(lo, 0.0)
    if n > 0:
        return lo**n, (hi**n if hi < INF else INF)
    return (hi**n if hi < INF else 0.0), (lo**n if lo > 0 else INF)


def interval(nf):
    lo = hi = 0.0
    for (f, e), c in nf.t.items():
        iv = (1.0, 1.0)
        for a, n in f:
            at = S.atoms[a]
            iv = imul(iv, ipw(atom_interval(at), n))
        if e:
            l, h = interval(S.exps[e])
            iv = imul(iv, (math.exp(l) if l > -700 else 0.0, math.exp(h) if h < 700 else INF))
        l, h = imul(iv, (c, c))
        lo += l
        hi += h
        if lo == -INF and hi == INF:
            break
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    return lo, hi


def atom_interval(at):
    lo, hi = -INF, INF
    s = S.assumed.get(at.id) or at.sign
    if at.op == "poly":
        lo, hi = interval(at.args[0])
    if s in ("+", "0+"):
        lo = max(lo, 0.0)
    if s in ("-", "0-"):
        hi = min(hi, 0.0)
    if at.lo is not None and is_num(at.lo):
        lo = max(lo, numval(at.lo))
    if at.hi is not None and is_num(at.hi):
        hi = min(hi, numval(at.hi))
    if at.op == "br":
        return 0.0, 1.0
    if at.op in ("sin", "cos"):
        return -1.0, 1.0
    if at.op == "log":
        l, h = interval(at.args[0])
        lo = max(lo, math.log(l)) if l > 0 and l < INF else lo
        hi = min(hi, math.log(h)) if 0 < h < INF else hi
    return lo, hi


def le0(nf, depth=0):
    """nf <= 0 for all values of its bounded variables (sound, incomplete)."""
    if not nf.t:
        return True
    key = ("le0", nf)
    r = S.signs.get(key)
    if r is None:
        S.signs[key] = False
        r = _le0(nf, depth)
        S.signs[key] = r
    return r


def _le0(nf, depth):
    lo, hi = interval(nf)
    if hi <= 0:
        return True
    if depth > 8:
        return False
    # eliminate a variable that has symbolic bounds, innermost (greatest id) first
    cands = []
    for (f, e) in nf.t:
        if e:
            return False
        for a, n in f:
            at = S.atoms[a]
            if at.op in ("br",):
                continue
            if (at.lo is not None or at.hi is not None) and type(n) is int and n > 0:
                cands.append(a)
    for f in S.facts:
        # nf = (nf - f) + f with f <= 0
        pass
    for a in sorted(set(cands), reverse=True):
        at = S.atoms[a]
        co, rest = linear(nf, a)
        if co is None:
            continue
        s = sign(co) if a not in fvs(co) else None
        if s in ("+", "0+") and at.hi is not None:
            return le0(add(rest, mul(co, at.hi)), depth + 1)
        if s in ("-", "0-") and at.lo is not None:
            return le0(add(rest, mul(co, at.lo)), depth + 1)
    for f in S.facts:
        d = sub(nf, f)
        if len(d.t) < len(nf.t) and le0(d, depth + 1):
            return True
    return False


def linear(nf, a):
    """nf = co * a + rest, or (None, None)."""
    co = {}
    rest = {}
    for (f, e), c in nf.t.items():
        n = None
        for i, (b, k) in enumerate(f):
            if b == a:
                n = k
                g = f[:i] + f[i + 1:]
            elif a in S.atoms[b].fv:
                return None, None
        if e and a in fvs(S.exps[e]):
            return None, None
        if n is None:
            rest[(f, e)] = c
        elif n == 1:
            co[(g, e)] = c
        else:
            return None, None
    return mk(co), mk(rest)


def lt0(nf):
    return sign(nf) == "-" or (is_intval(nf) and le0(add(nf, ONE)))


def is_intval(nf):
    for (f, e), c in nf.t.items():
        if type(c) is not int or e:
            return False
        for a, n in f:
            if type(n) is not int or n < 0 or not S.atoms[a].isint:
                return False
    return True


# --- content, power, log, exp -------------------------------------------------


def content(nf):
    """nf = c * m * P with P primitive: no common atom, leading coefficient one."""
    key = ("c", nf)
    r = S.memo.get(key)
    if r is not None:
        return r
    ms = list(nf.t)
    common = None
    for f, e in ms:
        d = dict(f)
        if common is None:
            common = d
        else:
            for a in list(common):
                x = d.get(a, 0)
                if x < common[a]:
                    common[a] = x
            for a, x in d.items():
                if a not in common and x < 0:
                    common[a] = x
    common = {a: e for a, e in common.items() if e != 0}
    es = {e for f, e in ms}
    ecommon = 0
    if len(es) == 1:
        ecommon = es.pop()
    elif 0 not in es:
        # factor out the exponential of the first monomial when all have one
        ecommon = min(es)
    m = (tuple(sorted(common.items())), ecommon)
    P = mul(nf, mk({inv_mono(m): 1})) if m != EMPTY else nf
    lead = lead_of(P)
    c = P.t[lead]
    P = mk({k: nrm(v / c) for k, v in P.t.items()})
    r = (c, m, P)
    S.memo[key] = r
    return r


def inv_mono(m):
    f, e = m
    return (tuple((a, -n) for a, n in f), exp_intern(scale(S.exps[e], -1)) if e else 0)


def mono_order(m):
    f, e = m
    return (len(f), e, tuple((a, float(n)) for a, n in f))


def atom_key(a):
    """A number that does not depend on the names of index variables, nor on the order
    in which terms were made, so that normal forms keep their orientation under renaming."""
    at = S.atoms[a]
    k = at.key
    if k is None:
        if at.op in ("bv", "fresh", "slot"):
            k = 1
        else:
            st = S.static_keys.get(at.static)
            if st is None:
                st = S.static_keys[at.static] = zlib.crc32(repr((at.op, at.static)).encode())
            k = hash((len(at.op), st) + tuple(nf_key(x) for x in at.args))
        at.key = k
    return k


def nf_key(nf):
    k = nf._key
    if k is None:
        k = 0
        for m, c in nf.t.items():
            k += hash((mono_key(m), float("%.7g" % c)))
        nf._key = k
    return k


def mono_key(m):
    f, e = m
    k = nf_key(S.exps[e]) if e else 0
    for a, n in f:
        k += hash((atom_key(a), float("%.7g" % n)))
    return k


def lead_of(nf, skip=False):
    """The monomial that fixes sign and scale of a term."""
    f = [m for m in nf.t if not (skip and m == EMPTY)]
    return min(f, key=lambda m: (len(m[0]), m[1] != 0, mono_key(m), mono_order(m)))


def poly(P):
    """The atom of a primitive base."""
    return atom("poly", None, (P,))


def power(nf, r):
    r = nrm(r)
    if r == 0:
        return ONE
    if r == 1:
        return nf
    if not nf.t:
        return ZERO if r > 0 else opaque("div0", (nf,))
    key = ("^", nf, r)
    o = S.memo.get(key)
    if o is None:
        o = lift1(nf, lambda x: _power(x, r))
        S.memo[key] = o
    return o


def _power(nf, r):
    if not nf.t:
        return ZERO if r > 0 else opaque("div0", (nf,))
    if len(nf.t) == 1:
        ((m, c),) = nf.t.items()
        return pow_mono(m, c, r)
    if type(r) is int and r > 0:
        if r <= 12 and len(nf.t) ** r <= LAZY:
            return ipow(nf, r)
    c, m, P = content(nf)
    if len(P.t) == 1:
        return _power(mk(dict(nf.t)), r)
    sP = sign(P)
    if sP in ("-", "0-"):
        c, P = -c, scale(P, -1)
    if type(r) is int:
        a = find_poly(P)
        if a is None:
            b = find_poly(scale(P, -1))
            if b is not None and b.op == "poly" and sign(P) is None:
                a, c = b, -c
            else:
                a = poly(P)
        return mul(pow_mono(m, c, r), mono(a, r))
    # fractional power: the base is nonnegative wherever it is defined
    ms = mono_sign(m)
    if ms in ("+", "0+"):
        if c < 0:
            c, P = -c, scale(P, -1)
        a = find_poly(P) or poly(P)
        return mul(pow_mono(m, c, r), mono(a, r))
    if ms in ("-", "0-"):
        pass
    cc = abs(c)
    Q = scale(nf, 1.0 / cc)
    a = find_poly(Q) or poly(Q)
    return mul(num(cc**r), mono(a, r))


def find_poly(P):
    a = S.table.get(("poly", None, (P,)))
    if a is not None:
        return a
    for b in buckets(val(P)):
        for o in S.canon.get(("poly", None, 1, b), ()):
            if same(o.args[0], P):
                S.table[("poly", None, (P,))] = o
                return o
    return None


def pow_mono(m, c, r):
    f, e = m
    if type(r) is int:
        t = []
        special = False
        out = {}
        for a, n in f:
            k = nexp(n * r)
            op = S.atoms[a].op
            if op == "br":
                k = 1 if r > 0 else None
                if k is None:
                    return opaque("div0", (mk({m: c}),))
            if (op == "poly" and type(k) is int and k > 0) or (op in ("abs", "sgn") and k != 1):
                special = True
            t.append((a, k))
        ee = exp_intern(scale(S.exps[e], r)) if e else 0
        cc = c**r if (r > 0 or c in (1, -1)) else 1.0 / (c ** (-r))
        mm = (tuple(t), ee)
        return rewrite_mono(mm, cc) if special else mk({mm: nrm(cc)})
    neg = c < 0
    pos = []
    rest = []
    for a, n in f:
        s = atom_sign(S.atoms[a])
        if s in ("+", "0+") or type(n) is not int:
            pos.append((a, nexp(n * r)))
        elif n % 2 == 0:
            b = absolute(mono(S.atoms[a]))
            pos.append((None, power(b, n * r)))
        else:
            rest.append((a, n))
    ee = exp_intern(scale(S.exps[e], r)) if e else 0
    res = mk({(tuple((a, k) for a, k in pos if a is not None), ee): 1})
    if any(a is not None and S.atoms[a].op == "poly" and type(k) is int and k > 0 for a, k in pos):
        res = rewrite_mono(next(iter(res.t)), 1)
    for a, k in pos:
        if a is None:
            res = mul(res, k)
    if not neg and not rest:
        return mul(num(abs(c) ** r), res)
    # the remaining product is nonnegative wherever the power is defined
    if len(rest) == 1 and not neg:
        # x^n with n odd: x >= 0 there
        return mul(num(abs(c) ** r), mul(res, mk({(((rest[0][0], nexp(rest[0][1] * r)),), 0): 1})))
    Q = mk({(tuple(rest), 0): -1 if neg else 1})
    a = find_poly(Q) or poly(Q)
    return mul(num(abs(c) ** r), mul(res, mono(a, r)))


def log(nf):
    return lift1(nf, _log)


def _log(nf):
    if not nf.t:
        return opaque("log0", (nf,))
    if len(nf.t) == 1:
        ((m, c),) = nf.t.items()
        return log_mono(m, c)
    c, m, P = content(nf)
    ms = mono_sign(m)
    if ms in ("+",) or m == EMPTY:
        if sign(P) in ("-", "0-") or (sign(P) is None and c < 0):
            c, P = -c, scale(P, -1)
        if c < 0:
            return opaque("log0", (nf,))
        a = find_poly(P) or poly(P)
        r = mono(atom("log", None, (mono(a),)))
        if m != EMPTY:
            r = add(r, log_mono(m, 1))
        return add(r, num(math.log(c)))
    a = find_poly(nf) or poly(nf)
    return mono(atom("log", None, (mono(a),)))


def log_mono(m, c):
    f, e = m
    r = S.exps[e] if e else ZERO
    if c <= 0:
        Q = mk({m: -1})
        if sign(Q) in ("+", "0+"):
            pass
        a = find_poly(Q) or poly(Q)
        return add(num(math.log(-c)), mono(atom("log", None, (mono(a),)))) if c else opaque("log0", (ZERO,))
    r = add(r, num(math.log(c)))
    rest = []
    for a, n in f:
        at = S.atoms[a]
        s = atom_sign(at)
        if s in ("+", "0+") or type(n) is not int:
            r = add(r, scale(mono(atom("log", None, (mono(at),))), n))
        elif n % 2 == 0:
            r = add(r, scale(log(absolute(mono(at))), n))
        elif s == "-":
            rest.append((a, n))
        else:
            rest.append((a, n))
    if len(rest) == 1:
        a, n = rest[0]
        r = add(r, scale(mono(atom("log", None, (mono(S.atoms[a]),))), n))
    elif rest:
        Q = mk({(tuple(rest), 0): 1})
        a = find_poly(Q) or poly(Q)
        r = add(r, mono(atom("log", None, (mono(a),))))
    return r


def exp(nf):
    return lift1(nf, _exp)


def _exp(nf):
    t = {}
    res = ONE
    c0 = 0.0
    for m, c in nf.t.items():
        if m == EMPTY:
            c0 = c
            continue
        f, e = m
        if not e and len(f) == 1 and f[0][1] == 1 and S.atoms[f[0][0]].op == "log":
            base = S.atoms[f[0][0]].args[0]
            res = mul(res, power(base, c))
            continue
        t[m] = c
    if c0 > 700 or c0 < -700:
        raise Limit("exponential of a large constant")
    p = mk(t)
    k = exp_intern(p)
    return mul(res, mk({((), k): nrm(math.exp(c0))}))


def absolute(nf):
    return lift1(nf, _abs)


def _abs(nf):
    s = sign(nf)
    if s in ("+", "0+", "0"):
        return nf
    if s in ("-", "0-"):
        return scale(nf, -1)
    if len(nf.t) == 1:
        ((m, c),) = nf.t.items()
        f, e = m
        r = mk({((), e): abs(c)})
        for a, n in f:
            at = S.atoms[a]
            sg = atom_sign(at)
            if sg in ("+", "0+") or type(n) is not int:
                x = mk({(((a, n),), 0): 1})
            elif sg in ("-", "0-"):
                x = mk({(((a, n),), 0): -1 if n % 2 else 1})
            elif n % 2 == 0:
                x = mk({(((a, n),), 0): 1})
            else:
                b = mono(atom("abs", None, (mono(at),), sign="0+"))
                x = mul(b, mk({(((a, n - 1),), 0): 1})) if n != 1 else b
            r = mul(r, x)
        return r
    c, m, P = content(nf)
    a = find_poly(P)
    if a is None:
        b = find_poly(scale(P, -1))
        a = b or poly(P)
    r = mono(atom("abs", None, (mono(a),), sign="0+"))
    return mul(_abs(mk({m: abs(c)})), r)


def signum(nf):
    return lift1(nf, _sgn)


def _sgn(nf):
    s = sign(nf)
    if s == "+":
        return ONE
    if s == "-":
        return MINUS1
    if s == "0":
        return ZERO
    lt = cond("lt", nf)
    eq = cond("eq", nf)
    return sub(sub(ONE, scale(lt, 2)), eq)


def trig(op, nf):
    return lift1(nf, lambda x: _trig(op, x))


def _trig(op, nf):
    if is_num(nf):
        return num(getattr(math, op)(numval(nf)))
    lead = lead_of(nf)
    if nf.t[lead] < 0:
        r = mono(atom(op, None, (scale(nf, -1),)))
        return scale(r, -1) if op == "sin" else r
    return mono(atom(op, None, (nf,)))


def opaque(name, args, sign=None, isint=False):
    """An uninterpreted function of scalar arguments."""
    return liftn(args, lambda xs: mono(atom("fn", name, xs, sign=sign, isint=isint)))


# --- conditions ----------------------------------------------------------------


def first_cond(nf):
    for (f, e) in nf.t:
        for a, n in f:
            if S.atoms[a].op == "br":
                return a
        if e and has_cond(S.exps[e]):
            return first_cond(S.exps[e])
    return None


def lift1(nf, fn):
    """fn(nf), distributed over the conditions in nf."""
    if not has_cond(nf):
        return fn(nf)
    a = first_cond(nf)
    c = mono(S.atoms[a])
    S.splits += 1
    tick(5)
    x = lift1(assume(nf, a, True), fn)
    y = lift1(assume(nf, a, False), fn)
    if x is y:
        return x
    return add(mul(c, x), mul(sub(ONE, c), y))


def liftn(args, fn):
    for x in args:
        if has_cond(x):
            a = first_cond(x)
            c = mono(S.atoms[a])
            tick(5)
            p = liftn([assume(y, a, True) for y in args], fn)
            q = liftn([assume(y, a, False) for y in args], fn)
            if p is q:
                return p
            return add(mul(c, p), mul(sub(ONE, c), q))
    return fn(tuple(args))


def assume(nf, a, truth):
    """nf simplified knowing that condition atom a is true (or false)."""
    at = S.atoms[a]
    m = {a: ONE if truth else ZERO}
    if at.op == "br":
        kind, x = at.static, at.args[0]
        if truth:
            # conditions on the same term that it decides
            for k2 in ("lt", "eq"):
                if k2 != kind:
                    o = S.table.get(("br", k2, (x,)))
                    if o is not None:
                        m[o.id] = ZERO
            if kind == "eq":
                s = solve(x)
                if s is not None:
                    nf = subst(nf, m)
                    m = {s[0]: s[1]}
        if at.static == "lt":
            # |x| in the two cases
            o = S.table.get(("abs", None, (x,)))
            if o is None:
                q = S.table.get(("poly", None, (x,)))
                if q is not None:
                    o = S.table.get(("abs", None, (mono(q),)))
            if o is not None:
                m[o.id] = scale(x, -1) if truth else x
    return subst(nf, m)


def solve(x):
    """x = 0 solved for its most recent variable or other atom: (atom id, term) or None."""
    for a in sorted(fvs(x), reverse=True):
        co, rest = linear(x, a)
        if co is None or not co.t:
            continue
        if is_num(co):
            s = scale(rest, -1.0 / numval(co))
            if S.atoms[a].isint and not is_intval(s):
                continue
            return a, s
    for (f, e), c in x.t.items():
        if e or len(f) != 1 or f[0][1] != 1:
            continue
        a = f[0][0]
        rest = mk({m: k for m, k in x.t.items() if m != (f, e)})
        if S.atoms[a].op in ("br", "poly") or a in deps(rest):
            continue
        return a, scale(rest, -1.0 / c)
    if len(x.t) == 2:
        # c1 m1 + c2 m2 = 0 with m1/m2 an exponential
        (m1, c1), (m2, c2) = x.t.items()
        (f, e), _ = merge(m1, inv_mono(m2))
        if not f and e and -c2 / c1 > 0:
            return solve(sub(S.exps[e], num(math.log(-c2 / c1))))
    return None


def cond(kind, nf):
    """0/1 value of nf < 0 ('lt'), nf <= 0 ('le'), nf == 0 ('eq'); either of the first two
    for 'half', where it does not matter which."""
    return lift1(nf, lambda x: _cond(kind, x))


def _cond(kind, nf):
    if is_num(nf):
        v = numval(nf)
        return num(int(v < 0 if kind in ("lt", "half") else v <= 0 if kind == "le" else v == 0))
    s = sign(nf)
    if kind in ("lt", "half"):
        if s == "-":
            return ONE
        if s in ("+", "0+"):
            return ZERO
        if kind == "half" and is_intval(nf):
            kind = "lt"
    elif kind == "le":
        if s in ("-", "0-"):
            return ONE
        if s == "+":
            return ZERO
    else:
        if s in ("+", "-"):
            return ZERO
    if is_intval(nf):
        if kind == "lt":
            return _cond("le", add(nf, ONE))
        if kind == "le":
            if le0(nf):
                return ONE
            if le0(sub(ONE, nf)):
                return ZERO
        if kind == "eq":
            ks = [c for m, c in nf.t.items() if m != EMPTY]
            if all(type(c) is int for c in ks):
                g = math.gcd(*ks)
                if g > 1 and type(nf.t.get(EMPTY, 0)) is int and all(
                    k > 0 and S.atoms[a].isint for m in nf.t for a, k in m[0]
                ):
                    if nf.t.get(EMPTY, 0) % g:
                        return ZERO
                    return _cond(kind, mk({m: c // g for m, c in nf.t.items()}))
            if le0(add(nf, ONE)) or le0(sub(ONE, nf)):
                return ZERO
            if le0(nf) and le0(scale(nf, -1)):
                return ONE
        lead = lead_of(nf, True)
        if nf.t[lead] < 0:
            if kind == "eq":
                nf = scale(nf, -1)
            else:
                # nf <= 0  <=>  not (1 - nf <= 0)
                return sub(ONE, mono(atom("br", "ile", (sub(ONE, nf),), sign="0+", isint=True)))
        return mono(atom("br", "ile" if kind == "le" else "eq", (nf,), sign="0+", isint=True))
    c, m, P = content(nf)
    ms = mono_sign(m)
    if ms == "+":
        x = P
        if c < 0:
            x, flip = P, True
        else:
            flip = False
    elif ms == "-":
        x = P
        flip = c > 0
    else:
        x = scale(nf, 1.0 / abs(nf.t[lead_of(nf)]))
        flip = False
        if nf.t[lead_of(nf)] < 0:
            x, flip = scale(x, -1), True
    # reuse an existing condition on the opposite term
    if kind == "eq":
        if len(nf.t) == 1:
            # a product is zero when the one factor that may be is
            ((f, e),) = nf.t
            g = [a for a, n in f if S.atoms[a].sign not in ("+", "-")]
            if len(g) == 1 and (len(f) > 1 or e) and dict(f)[g[0]] > 0:
                return _cond("eq", mono(S.atoms[g[0]]))
        return mono(atom("br", "eq", (x,), sign="0+", isint=True))
    lt = mono(atom("br", "lt", (x,), sign="0+", isint=True))
    eq = mono(atom("br", "eq", (x,), sign="0+", isint=True))
    if kind == "half":
        return sub(ONE, lt) if flip else lt
    if not flip:
        return lt if kind == "lt" else add(lt, eq)
    return sub(sub(ONE, lt), eq) if kind == "lt" else sub(ONE, lt)


def ite(c, a, b):
    if is_num(c):
        return a if numval(c) else b
    if a is b:
        return a
    # [c] a + [not c] b where not-c leaves a single value of an index: there a may equal b
    if len(c.t) == 1 or (len(c.t) == 2 and EMPTY in c.t):
        at = None
        for (f, e), k in c.t.items():
            if len(f) == 1 and not e and S.atoms[f[0][0]].op == "br":
                at = S.atoms[f[0][0]]
        if at is not None:
            pos = len(c.t) == 1
            x, y = (a, b) if pos else (b, a)
            x2 = assume(x, at.id, True)
            y2 = assume(y, at.id, False)
            r = boundary(at, x2, y2)
            if r is not None:
                return r
            cc = mono(at)
            if x2 is y2:
                return x2
            return add(mul(cc, x2), mul(sub(ONE, cc), y2))
    return add(mul(c, a), mul(sub(ONE, c), b))


def boundary(at, x, y):
    """[at] x + [not at] y, when one of the two cases is a single index value."""
    if at.static == "ile":
        n = at.args[0]
        # at: n <= 0.  not at: n >= 1.  If n <= 1 always, not-at is n == 1.
        if le0(sub(n, ONE)):
            s = solve(sub(n, ONE))
            if s is not None:
                p, q = subst(x, {s[0]: s[1]}), subst(y, {s[0]: s[1]})
                if same(p, q):
                    return x
        # at is n == 0 when n >= 0 always
        if le0(scale(n, -1)):
            s = solve(n)
            if s is not None:
                p, q = subst(x, {s[0]: s[1]}), subst(y, {s[0]: s[1]})
                if same(p, q):
                    return y
    if at.static == "eq":
        s = solve(at.args[0])
        if s is not None:
            p, q = subst(x, {s[0]: s[1]}), subst(y, {s[0]: s[1]})
            if same(p, q):
                return y
    return None


def either(d):
    """[d < 0] or [d <= 0], where it does not matter which: the simpler one."""
    return cond("half", d)


def maximum(a, b):
    d = sub(a, b)
    s = sign(d)
    if s in ("+", "0+", "0"):
        return a
    if s in ("-", "0-"):
        return b
    return ite(either(d), b, a)


def minimum(a, b):
    d = sub(a, b)
    s = sign(d)
    if s in ("+", "0+", "0"):
        return b
    if s in ("-", "0-"):
        return a
    return ite(either(d), a, b)


def land(a, b):
    return mul(a, b)


def lnot(a):
    return sub(ONE, a)


def lor(a, b):
    return sub(ONE, mul(sub(ONE, a), sub(ONE, b)))


# --- integer division ---------------------------------------------------------


def floordiv(e, d):
    return liftn((e, d), lambda xs: _divmod(*xs)[0])


def modulo(e, d):
    return liftn((e, d), lambda xs: _divmod(*xs)[1])


def _divmod(e, d):
    if is_num(e) and is_num(d) and numval(d):
        q = numval(e) // numval(d)
        return num(q), num(numval(e) - q * numval(d))
    if d is ONE:
        return e, ZERO
    q = {}
    r = {}
    dk = as_int(d)
    if dk is None and len(d.t) == 1:
        ((dm, dc),) = d.t.items()
        for m, c in e.t.items():
            x, sp = merge(m, inv_mono(dm))
            if not sp and all(k > 0 for _, k in x[0]) and c % dc == 0:
                q[x] = c // dc
            else:
                r[m] = c
    elif dk is not None:
        for m, c in e.t.items():
            a = c // dk if type(c) is int else 0
            if type(c) is int and c % dk == 0:
                q[m] = c // dk
            elif type(c) is int and m == EMPTY:
                q[m] = c // dk
                if c % dk:
                    r[m] = c % dk
            else:
                r[m] = c
        q = {m: c for m, c in q.items() if c}
    else:
        r = dict(e.t)
    q, r = mk(q), mk(r)
    if not r.t:
        return q, ZERO
    if le0(scale(r, -1)) and le0(sub(add(r, ONE), d)):
        return q, r
    # r may exceed d by a bounded amount
    for k in (1, -1):
        r2 = sub(r, scale(d, k))
        if le0(scale(r2, -1)) and le0(sub(add(r2, ONE), d)):
            return add(q, num(k)), r2
    a = mono(atom("idiv", None, (r, d), isint=True, sign="0+" if sign(r) in ("+", "0+") else None))
    b = sub(r, mul(a, d))
    mo = mono(atom("imod", None, (r, d), isint=True, sign="0+", lo=ZERO, hi=sub(d, ONE)))
    return add(q, a), mo


# --- substitution --------------------------------------------------------------


REBUILD = {}


def subst(nf, m):
    if not m:
        return nf
    keys = set(m)
    memo = {}
    return _subst(nf, m, keys, memo)


def depends(nf, keys):
    return bool(deps(nf) & keys)


def deps(nf):
    """All atom ids occurring anywhere in nf."""
    r = S.memo.get(("d", nf))
    if r is None:
        s = set()
        for (f, e) in nf.t:
            for a, n in f:
                s |= adeps(a)
            if e:
                s |= deps(S.exps[e])
        r = frozenset(s)
        S.memo[("d", nf)] = r
    return r


def adeps(a):
    r = S.memo.get(("da", a))
    if r is None:
        s = {a}
        for x in S.atoms[a].args:
            s |= deps(x)
        r = frozenset(s)
        S.memo[("da", a)] = r
    return r


def _subst(nf, m, keys, memo):
    r = memo.get(nf)
    if r is not None:
        return r
    if not (deps(nf) & keys):
        memo[nf] = nf
        return nf
    tick(len(nf.t))
    same_ = {}
    out = []
    for (f, e), c in nf.t.items():
        ch = [(a, n) for a, n in f if adeps(a) & keys]
        che = bool(e) and bool(deps(S.exps[e]) & keys)
        if not ch and not che:
            same_[(f, e)] = c
            continue
        zero = False
        fac = []
        for a, n in ch:
            x = m.get(a)
            if x is None:
                x = rebuild(S.atoms[a], m, keys, memo)
            if not x.t and (type(n) is int or True) and n > 0:
                zero = True
                break
            fac.append((x, n))
        if zero:
            continue
        base = tuple((a, n) for a, n in f if not (adeps(a) & keys))
        r1 = mk({(base, 0 if che else e): c})
        for x, n in fac:
            r1 = mul(r1, power(x, n))
            if not r1.t:
                break
        if che and r1.t:
            r1 = mul(r1, exp(_subst(S.exps[e], m, keys, memo)))
        out.append(r1)
    r = addmany([mk(same_)] + out)
    memo[nf] = r
    return r


def rebuild(at, m, keys, memo):
    k = ("a", at.id)
    r = memo.get(k)
    if r is None:
        args = [_subst(x, m, keys, memo) for x in at.args]
        r = REBUILD[at.op](at, args)
        memo[k] = r
    return r


def _rb_poly(at, args):
    return args[0]


REBUILD["poly"] = _rb_poly
REBUILD["log"] = lambda at, args: log(args[0])
REBUILD["sin"] = lambda at, args: trig("sin", args[0])
REBUILD["cos"] = lambda at, args: trig("cos", args[0])
REBUILD["abs"] = lambda at, args: absolute(args[0])
REBUILD["sgn"] = lambda at, args: signum(args[0])
REBUILD["fn"] = lambda at, args: opaque(at.static, args, sign=at.sign, isint=at.isint)
REBUILD["br"] = lambda at, args: cond("le" if at.static == "ile" else at.static, args[0])
REBUILD["idiv"] = lambda at, args: floordiv(*args)
REBUILD["imod"] = lambda at, args: modulo(*args)


# --- sums ------------------------------------------------------------------------


def close(body, vs):
    """Body with the given fresh variables replaced by the bound variables of a new binder."""
    h = height(body) + 1
    return subst(body, {the_atom(v).id: bv(h, k, the_atom(v).isint) for k, v in enumerate(vs)}), h


def open_(at, k, body, ranges=None):
    """Body of a binder with fresh variables in place of its k bound ones."""
    h = at.height
    vs = [fresh_index(ranges[i]) if ranges is not None else fresh_slot() for i in range(k)]
    m = {}
    for i, v in enumerate(vs):
        for isint in (True, False):
            b = S.table.get(("bv", (h, i, isint), ()))
            if b is not None:
                m[b.id] = v
    return vs, subst(body, m)


def sumover(body, i, n):
    """Sum of body for i = 0 .. n-1 (i a fresh index variable)."""
    ia = the_atom(i).id
    if not body.t:
        return ZERO
    k = as_int(n)
    if k is not None and k <= 0:
        return ZERO
    out = []
    body = expand_in(body, ia)
    for m, c in body.t.items():
        out.append(sum_mono(m, c, i, ia, n))
    return addmany(out)


def expand_in(nf, ia):
    """The summand with its cofactors of [x = 0] simplified under that equation, so
    that the boundary of a case distinction does not matter where both cases agree."""
    eqs = set()
    for f, e in nf.t:
        for a, n in f:
            at = S.atoms[a]
            if at.op == "br" and at.static == "eq" and ia in at.fv and not is_intval(at.args[0]):
                eqs.add(a)
    for a in sorted(eqs):
        y = assume(nf, a, False)
        z = assume(sub(nf, y), a, True)
        nf = add(y, mul(mono(S.atoms[a]), z))
    return nf


def split_mono(m, ia):
    f, e = m
    free = tuple((a, x) for a, x in f if ia not in S.atoms[a].fv)
    dep = tuple((a, x) for a, x in f if ia in S.atoms[a].fv)
    ef, ed = e, 0
    if e and ia in fvs(S.exps[e]):
        pf, pd = {}, {}
        for mm, c in S.exps[e].t.items():
            d = any(ia in S.atoms[a].fv for a, _ in mm[0]) or (mm[1] and ia in fvs(S.exps[mm[1]]))
            (pd if d else pf)[mm] = c
        ef, ed = exp_intern(mk(pf)), exp_intern(mk(pd))
    return (free, ef), (dep, ed)


def sum_mono(m, c, i, ia, n):
    free, dep = split_mono(m, ia)
    co = mk({free: c})
    if dep == EMPTY:
        return mul(co, maximum(n, ZERO))
    # conditions on i
    for a, x in dep[0]:
        at = S.atoms[a]
        if at.op != "br":
            continue
        lin, rest = linear(at.args[0], ia)
        if lin is None:
            continue
        k = as_int(lin)
        others = mk({(tuple(p for p in dep[0] if p[0] != a), dep[1]): 1})
        if at.static == "eq" and k in (1, -1):
            v = scale(rest, -k)
            r = subst(others, {ia: v})
            inr = mul(cond("le", scale(v, -1)), cond("lt", sub(v, n)))
            return mul(co, mul(inr, r))
        if at.static == "ile" and k == 1:
            # i <= -rest
            top = minimum(n, sub(ONE, rest))
            j = fresh_index(top)
            body = subst(others, {ia: j})
            return mul(co, lift1(top, lambda t: sumover_r(body, j, t)))
        if at.static == "ile" and k == -1:
            # i >= rest
            lo = maximum(rest, ZERO)
            j = fresh_index(sub(n, lo))
            body = subst(others, {ia: add(j, lo)})
            return mul(co, sumover_r(body, j, sub(n, lo)))
    # split an index that is only used through quotient and remainder
    for a, x in dep[0]:
        sp = find_split(mk({(((a, 1),), 0): 1}), ia)
        if sp is not None:
            d = sp
            if is_num(d) and is_num(n) and numval(n) % numval(d) == 0:
                q = num(numval(n) // numval(d))
            else:
                q, r = _divmod(n, d)
                if r.t:
                    continue
            j, p = fresh_index(q), fresh_index(d)
            body = subst(mk({dep: 1}), {ia: add(mul(j, d), p)})
            return mul(co, sumover(sumover(body, p, d), j, q))
    # powers of the index
    if dep[1] == 0 and len(dep[0]) == 1 and dep[0][0][0] == ia and dep[0][0][1] in FAULHABER and sign(n) in ("+", "0+", "0"):
        r = ZERO
        for q, w in FAULHABER[dep[0][0][1]].items():
            r = add(r, scale(ipow(n, q), w))
        return mul(co, r)
    # constant offsets of the number of terms
    off = n.t.get(EMPTY, 0)
    if type(off) is int and len(n.t) > 1 and off and abs(off) <= 4 and not all(
        S.atoms[a].static and str(S.atoms[a].static).startswith("dim:") and not str(S.atoms[a].static).startswith("dim:cell_")
        for mm in n.t for a, _ in mm[0]
    ):
        base = sub(n, num(off))
        b = mk({dep: 1})
        r = sum_atom(dep, i, ia, base)
        for k in range(abs(off)):
            if off > 0:
                r = add(r, subst(b, {ia: add(base, num(k))}))
            else:
                r = sub(r, subst(b, {ia: sub(base, num(k + 1))}))
        return mul(co, r)
    return mul(co, sum_atom(dep, i, ia, n))


def bernoulli_sums():
    """Sum of i^p for i = 0 .. n-1 as a polynomial of n: p -> {power: coefficient}."""
    from fractions import Fraction as Q
    from math import comb

    out = {}
    b = [Q(1)]
    for m in range(1, 9):
        b.append(-sum(comb(m + 1, k) * b[k] for k in range(m)) / (m + 1))
    for p in range(1, 8):
        out[p] = {p + 1 - k: nrm(float(comb(p + 1, k) * b[k] / (p + 1))) for k in range(p + 1) if b[k]}
    return out


FAULHABER = bernoulli_sums()


def sumover_r(body, j, n):
    ja = the_atom(j)
    ja.hi = sub(n, ONE)
    return sumover(body, j, n)


def find_split(nf, ia):
    """The divisor d of an atom idiv(i, d) or imod(i, d) in nf."""
    for a in deps(nf):
        at = S.atoms[a]
        if at.op in ("idiv", "imod"):
            lin, rest = linear(at.args[0], ia)
            if lin is not None and as_int(lin) == 1 and not rest.t and ia not in fvs(at.args[1]):
                return at.args[1]
    return None


def small(n):
    k = as_int(n)
    return k is not None and k <= S_UNROLL


S_UNROLL = 4


def sum_atom(dep, i, ia, n):
    k = as_int(n)
    if k is not None and k <= S_UNROLL:
        b = mk({dep: 1})
        return addmany([subst(b, {ia: num(j)}) for j in range(k)])
    # nested sums are flattened when they occur as a factor
    ns, vs, body = [n], [i], mk({dep: 1})
    for a, x in dep[0]:
        at = S.atoms[a]
        if at.op == "sum" and x == 1:
            kk = at.static
            inner_ns = at.args[:kk]
            if any(ia in fvs(y) for y in inner_ns):
                continue
            ws, b = open_(at, kk, at.args[kk], inner_ns)
            rest = mk({(tuple(p for p in dep[0] if p[0] != a), dep[1]): 1})
            body = mul(rest, b)
            ns, vs = [n] + list(inner_ns), [i] + ws
            break
    if len(vs) > 1:
        out = []
        for m, c in body.t.items():
            out.append(scale(multisum(mk({m: 1}), vs, ns), c))
        return addmany(out)
    return multisum(body, vs, ns)


def multisum(body, vs, ns):
    import itertools

    best = None
    k = len(vs)
    if k > 1:
        # factors free of one variable could be pulled out; keep the canonical order instead
        for perm in itertools.permutations(range(k)):
            b, h = close(body, [vs[p] for p in perm])
            args = tuple(ns[p] for p in perm) + (b,)
            key = ("sum", k, args)
            a = S.table.get(key)
            if a is None:
                fp = sum(val(x) * (1.0 + 0.61803 * q) for q, x in enumerate(args))
                for bb in buckets(fp):
                    for o in S.canon.get(("sum", k, len(args), bb), ()):
                        if all(same(x, y) for x, y in zip(o.args, args)):
                            a = o
                            break
                    if a is not None:
                        break
            if a is not None:
                return mono(a)
    b, h = close(body, vs)
    if k == 1 and len(b.t) != 1:
        r = closed_sum(b, ns[0], h)
        if r is not None:
            return r
    a = atom("sum", k, tuple(ns) + (b,), sign=sum_sign(body), bind=k)
    return mono(a)


def closed_sum(b, n, h):
    """The sum of a body that has become several terms by the renaming of its variable."""
    x = the_atom(bv(h, 0)).id
    b = expand_in(b, x)
    out = []
    for m, c in b.t.items():
        free, dep = split_mono(m, x)
        body = mk({dep: 1})
        if dep == EMPTY:
            s = maximum(n, ZERO)
        elif height(body) + 1 != h:
            return None
        else:
            s = mono(atom("sum", 1, (n, body), sign=sum_sign(body), bind=1))
        out.append(mul(mk({free: c}), s))
    return addmany(out)


def sum_sign(body):
    s = sign(body)
    if s == "+":
        return "0+"
    if s == "-":
        return "0-"
    return s


def _rb_sum(at, args):
    k = at.static
    ns, body = args[:k], args[k]
    vs, b = reopen(at, k, body, ns)
    for v, n in reversed(list(zip(vs, ns))):
        the_atom(v).hi = sub(n, ONE)
    r = b
    for v, n in reversed(list(zip(vs, ns))):
        r = liftn((n,), lambda xs, r=r, v=v: sumover(r, v, xs[0]))
    return r


def bindmany(op, static, plain, groups, sign=None, isint=False):
    """Atom with plain arguments and several bodies, each with its own bound variables.

    groups: (body, variables, ranges); a range list may be empty (unbounded variables).
    """
    shapes = tuple((len(vs), len(ns)) for _, vs, ns in groups)
    bodies = [b for b, _, _ in groups]
    rest = list(plain) + [n for _, _, ns in groups for n in ns]
    h0 = max([height(x) for x in rest] or [0])
    h = 1 + max([h0] + [height(b) for b in bodies])
    for _ in range(4):
        closed = []
        for b, (_, vs, ns) in zip(bodies, groups):
            closed.append(subst(b, {the_atom(v).id: bv(h, k, the_atom(v).isint) for k, v in enumerate(vs)}))
        h2 = 1 + max([h0] + [height(c) for c in closed])
        if h2 == h:
            break
        h = h2
    args = rest + closed
    a = atom(op, (static, shapes), args, sign=sign, isint=isint, bind=1)
    return mono(a)


def rebuild_many(at, args, make):
    """Rebuild an atom made by bindmany from substituted arguments."""
    static, shapes = at.static
    nr = sum(r for _, r in shapes)
    nb = len(shapes)
    plain = list(args[: len(args) - nr - nb])
    ranges = list(args[len(plain): len(plain) + nr])
    bodies = list(args[len(plain) + nr:])
    groups = []
    h = at.height
    for (nv, r), b in zip(shapes, bodies):
        ns = [ranges.pop(0) for _ in range(r)]
        vs, m = [], {}
        for i in range(nv):
            for isint in (True, False):
                o = S.table.get(("bv", (h, i, isint), ()))
                if isint == (r > 0):
                    v = fresh_index(ns[i]) if r else fresh_slot()
                    vs.append(v)
                if o is not None and isint == (r > 0):
                    m[o.id] = v
        groups.append((subst(b, m), vs, ns))
    return make(plain, groups)


def reopen(at, k, body, ns):
    """Fresh variables for the bound ones of `at` in (already substituted) body."""
    h = at.height
    vs = [fresh_index(n) for n in ns]
    m = {}
    for i, v in enumerate(vs):
        b = S.table.get(("bv", (h, i, True), ()))
        if b is not None:
            m[b.id] = v
    return vs, subst(body, m)


REBUILD["sum"] = _rb_sum


def prodover(body, i, n):
    """Product of body for i = 0 .. n-1."""
    return lift_out(body, lambda b: _prodover(b, i, n))


def lift_out(body, fn):
    return fn(body)


def _prodover(body, i, n):
    ia = the_atom(i).id
    k = as_int(n)
    if k is not None and k <= S_UNROLL:
        r = ONE
        for j in range(k):
            r = mul(r, subst(body, {ia: num(j)}))
        return r
    if len(body.t) == 1:
        ((m, c),) = body.t.items()
        free, dep = split_mono(m, ia)
        if c == 1:
            r = ONE
        elif c > 0:
            r = exp(scale(n, math.log(c)))
        else:
            r = mul(exp(scale(n, math.log(-c))) if c != -1 else ONE, opaque("negpow", (n,)))
        for a, e in free[0]:
            r = mul(r, opaque("ipow", (mk({(((a, e),), 0): 1}), n)))
        if free[1]:
            r = mul(r, exp(mul(S.exps[free[1]], n)))
        if dep[1]:
            r = mul(r, exp(sumover(S.exps[dep[1]], i, n)))
        for a, e in dep[0]:
            b, h = close(mono(S.atoms[a]), [i])
            r = mul(r, power(mono(atom("prod", 1, (n, b), bind=1)), e))
        return r
    b, h = close(body, [i])
    return mono(atom("prod", 1, (n, b), bind=1))


def _rb_prod(at, args):
    (v,), b = reopen(at, 1, args[1], [args[0]])
    return prodover(b, v, args[0])


REBUILD["prod"] = _rb_prod


# --- printing ---------------------------------------------------------------------


def show_atom(a, depth=0):
    if a.op in ("var", "fresh", "slot"):
        return str(a.static)
    if a.op == "bv":
        return "b%d_%d" % a.static[:2]
    if depth > 6:
        return "#%d" % a.id
    args = ", ".join(show(x, depth + 1) for x in a.args)
    if a.op == "poly":
        return "(" + args + ")"
    if a.op == "br":
        return "[%s %s 0]" % (args, {"lt": "<", "ile": "<=", "eq": "=="}[a.static])
    if a.op in ("fn", "el"):
        return "%s(%s)" % (a.static if isinstance(a.static, str) else a.static[0], args)
    return "%s%s(%s)" % (a.op, "" if a.static is None else "<%s>" % (a.static,), args)


def show(nf, depth=0, limit=30):
    if not nf.t:
        return "0"
    out = []
    items = sorted(nf.t.items(), key=lambda kv: mono_order(kv[0]))
    for (f, e), c in items[:limit]:
        fs = []
        for a, n in f:
            s = show_atom(S.atoms[a], depth)
            fs.append(s if n == 1 else "%s^%s" % (s, n if type(n) is int else "%.6g" % n))
        if e:
            fs.append("exp(%s)" % show(S.exps[e], depth + 1))
        cs = str(c) if type(c) is int else "%.12g" % c
        if fs:
            out.append(("" if c == 1 else "-" if c == -1 else cs + "*") + "*".join(fs))
        else:
            out.append(cs)
    if len(items) > limit:
        out.append("... %d more" % (len(items) - limit))
    return " + ".join(out)


def explain(a, b, depth=0):
    """Where two terms differ, as text."""
    if depth > 12 or a is b:
        return "%s | %s" % (show(a)[:300], show(b)[:300])
    x = {m: c for m, c in a.t.items() if abs(c - b.t.get(m, 0)) > TOL * abs(c)}
    y = {m: c for m, c in b.t.items() if abs(c - a.t.get(m, 0)) > TOL * abs(c)}
    if len(x) == 1 and len(y) == 1:
        (m1, c1), (m2, c2) = list(x.items())[0], list(y.items())[0]
        f1 = [(p, n) for p, n in m1[0] if (p, n) not in m2[0]]
        f2 = [(p, n) for p, n in m2[0] if (p, n) not in m1[0]]
        if not f1 and not f2 and m1[1] != m2[1] and m1[1] and m2[1]:
            return "exp " + explain(S.exps[m1[1]], S.exps[m2[1]], depth + 1)
        if len(f1) == 1 and len(f2) == 1 and f1[0][1] == f2[0][1]:
            p, q = S.atoms[f1[0][0]], S.atoms[f2[0][0]]
            if p.op == q.op and p.static == q.static and len(p.args) == len(q.args):
                for k, (u, v) in enumerate(zip(p.args, q.args)):
                    if not same(u, v):
                        return "%s.%d " % (p.op if p.op != "uf" else p.static[0][0], k) + explain(u, v, depth + 1)
    px = {p for f, e in x for p, n in f if S.atoms[p].op == "poly"}
    py = {p for f, e in y for p, n in f if S.atoms[p].op == "poly"}
    if len(px - py) == 1 and len(py - px) == 1:
        return "base " + explain(S.atoms[(px - py).pop()].args[0], S.atoms[(py - px).pop()].args[0], depth + 1)
    return "%s | %s" % (show(mk(x)), show(mk(y)))



reset()
