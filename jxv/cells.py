"""Proofs about tables: the cell of the table in which the query point lies.

The table of symbolic size has j entries on the left of the cell [x_j, x_(j+1)]
and r on its right.  Near the cell the table is given by the increments between
its entries, which are positive variables; further entries only by their
positive distance to the cell.  Three locations (first, inner, last) cover all
cells of all sizes."""
from . import engine as EN
from . import terms as T
from . import trace as TR
from .prove import Failed, arrays_of, traced

NEAR = 3

LOCATIONS = ("first", "second", "inner", "before_last", "last")


class Cell:
    """location: minimum of (or exact) number of entries on the left and on the right."""

    def __init__(self, left, right, direction=1, near=NEAR, ind=None, plain=False):
        def count(name, spec):
            lo, exact = spec
            return T.num(lo) if exact else T.add(T.num(lo), T.dim(name, 0))
        self.left, self.right = left, right
        self.j = count("cell_l", left)
        self.r = count("cell_r", right)
        self.n = T.add(T.add(self.j, self.r), T.num(2))
        self.d = direction
        self.x0 = T.var("x_j")
        self.near = near
        self.ind = ind
        self.plain = plain  # the entries of the table stay as they are; no location is checked
        self.bins = None
        self.choice = None
        self.point = None
        self.pick = None
        self.skip_low = self.skip_high = False
        self.checked = 0

    def gap(self, k):
        return T.var("h_%s%d" % ("m" if k < 0 else "", abs(k)), sign="+")

    def offset(self, c):
        """x_(j+c) - x_j, without the direction."""
        if c >= 0:
            return T.addmany([self.gap(k) for k in range(c)])
        return T.scale(T.addmany([self.gap(k) for k in range(c, 0)]), -1)

    def entry(self, i):
        """x_i of the table."""
        o = T.sub(i, self.j)
        c = T.as_int(o)
        if c is not None and abs(c) <= self.near + 2:
            v = self.offset(c)
        else:
            if T.sign(T.add(o, T.num(self.near))) in ("-", "0-") or T.sign(o) == "-":
                v = T.scale(EN.element("gap_left", (T.scale(o, -1),), "+"), -1)
            elif T.sign(T.sub(o, T.ONE)) == "+":
                v = T.add(self.gap(0), EN.element("gap_right", (o,), "+"))
            else:
                return T.lift1(i, self.entry) if T.has_cond(i) else self.unknown(i)
        return T.add(self.x0, T.scale(v, self.d))

    def unknown(self, i):
        raise Failed("entry %s of the table is not located with respect to the cell" % T.show(i))

    def table(self, shape):
        def fn(ix):
            return T.lift1(ix[0], self.entry)
        return EN.Arr(shape, "f", fn)

    # -- contracts of the functions that locate the point ----------------------------

    def far(self, side):
        """An arbitrary index on the left or on the right of the cell."""
        v = T.dim("far", 0)
        if side == "left":
            return T.sub(T.sub(self.j, T.ONE), v)
        return T.add(T.add(self.j, T.num(2)), v)

    def argext(self, name, body, n):
        """The entry chosen: an arbitrary one among those where the minimum can be."""
        if not T.same(n, self.n):
            return None
        at = (lambda i: T.scale(body(i), -1)) if name == "argmax" else body
        here = [T.add(self.j, T.num(c)) for c in self.choice]
        others = [c for c in (0, 1) if c not in self.choice]
        # somewhere in the chosen entries the function is smaller than at any other
        def above(i):
            if not any(T.sign(T.sub(at(i), at(h))) == "+" for h in here):
                raise Failed("argmin may be at entry %s: %s" % (T.show(i), T.show(T.sub(at(i), at(here[0])))))
            self.checked += 1
        if not T.same(self.j, T.ZERO):
            above(self.far("left"))
        if not T.same(self.r, T.ZERO):
            above(self.far("right"))
        for c in others:
            above(T.add(self.j, T.num(c)))
        return T.add(self.j, T.num(self.pick))

    def locate(self, x, bins, right, search):
        """Number of entries at most x (below x when `right`)."""
        if self.ind is None:
            return None
        self.bins = bins
        if self.plain:
            return self.ind(bins.shape[0], x) if callable(self.ind) else self.ind
        k = self.ind  # number of entries, claimed by the case
        one = lambda i: bins.at((i,))
        d = self.d
        if search and d < 0:
            raise Failed("searchsorted in a decreasing table")
        # x lies after entry k - 1 and before entry k
        if not self.skip_low:
            s = T.sign(T.scale(T.sub(x, one(T.sub(k, T.ONE))), d))
            # the entry at x itself counts in an increasing table
            if s not in (("+", "0+", "0") if right != (d > 0) else ("+",)):
                raise Failed("the point is not after entry %s" % T.show(T.sub(k, T.ONE)))
            self.checked += 1
        if not self.skip_high:
            s = T.sign(T.scale(T.sub(one(k), x), d))
            if s not in (("+",) if right != (d > 0) else ("+", "0+", "0")):
                raise Failed("the point is not before entry %s" % T.show(k))
            self.checked += 1
        if not self.skip_low and not self.skip_high:
            if T.sign(T.scale(T.sub(one(k), one(T.sub(k, T.ONE))), d)) != "+":
                raise Failed("the table does not increase at entry %s" % T.show(k))
        return k

    def place(self, nf):
        """nf with the entries next to the cell given by the increments between them."""
        m = {}
        for c in range(-self.near, self.near + 2):
            e = EN.element(self.name, (T.add(self.j, T.num(c)),))
            m[T.the_atom(e).id] = T.add(self.x0, self.offset(c))
        return T.subst(nf, m)


def run(ob, scope, fn, cell, point, table, dims, query="x"):
    """Values of fn on the inputs of ob, with `table` the table and `point` the query."""
    with TR.solve_recorded():
        j, _ = traced(ob, fn, scope, True)
    E = EN.Engine(ob.dims)
    E.dimvals = {dims: cell.n}
    E.cell = cell
    cell.name = table
    args = arrays_of(ob, E)
    for k, s in enumerate(ob.syms):
        if s.name == table and not cell.plain:
            args[k + 1] = cell.table(args[k + 1].shape)
        if s.name == query:
            f = point if callable(point) else lambda ix: point
            args[k + 1] = EN.Arr(args[k + 1].shape, "f", f)
    return E, E.run(j, args)


def some_index(n, x):
    """An arbitrary function of the query, away from the ends."""
    return T.mono(T.atom("index", None, (x,), sign="+", isint=True, lo=T.num(4), hi=T.sub(n, T.num(4))))


def first(a):
    return a.at(tuple(T.fresh_index(n) for n in a.shape))


def residual(E, row):
    """The given row of the system of equations solved."""
    (a, b, name), = E.solved
    n = a.shape[1]
    i = T.fresh_index(n)
    s = T.sumover(T.mul(a.at((row, i)), EN.element(name, (i,))), i, n)
    return T.sub(s, b.at((row,)))


def vanishes(E, cell, jump, rows):
    """jump is zero, or zero by one of the equations."""
    if T.same(jump, T.ZERO):
        return "identity"
    for row in rows:
        r = residual(E, row)
        for a in sorted(T.deps(r)):
            at = T.S.atoms[a]
            if at.op != "el" or at.static[0] != E.solved[0][2]:
                continue
            cr, _ = T.linear(r, a)
            cj, _ = T.linear(jump, a)
            if cr is None or cj is None or not cr.t or T.sign(cell.place(cr)) not in ("+", "-"):
                continue
            if T.same(T.mul(jump, cr), T.mul(r, cj)):
                return "row %s" % T.show(row)
    raise Failed("not implied by the equations: %s = 0" % T.show(jump)[:800])
