"""C04: covariance matrices hold k(x_i, x_j) at every entry, serial or threaded."""
from contracts_async import task_arg, FRESH
from speclib import *
from contracts_std import num
import cxx
from c10 import mat_is, vec_eq, at, I_, J_

MOD = "callers"
CAP = 2 ** 31 - 1
OPT = dict(fresh=FRESH, cand_ms=600)
k_ = smt.uf("vpx::k", INT, REAL, REAL)
s_ = smt.uf("vpx::s", INT, INT, REAL)
m_ = smt.uf("vpx::m", INT, REAL)
def val(n):
    return n.d[0].e if isinstance(n, Struct) else n.e


el = lambda a, j: val(sel(a.el, j))


def entries(M, n, w, cond, e, pat=None):
    x = smt.at(M, I_, J_)
    return z3.And(smt.rows(M) == n, smt.cols(M) == w, forall([I_, J_], implies(z3.And(rng(I_, 0, n), rng(J_, 0, w), cond(I_, J_)), x == e(I_, J_)), x))


def shapes(n, w, conds, e):
    """candidate invariants: the entries selected by cond(counters...) are in place"""
    def t(ctx):
        out = []
        for mn, mg in ctx.mats():
            out.append(("shape of " + mn, lambda s, mg=mg: z3.And(smt.rows(mg(s).e) == n, smt.cols(mg(s).e) == w)))
            for nm, c in conds(ctx):
                out.append(("%s of %s" % (nm, mn), lambda s, mg=mg, c=c: entries(mg(s).e, n, w, lambda i, j: c(s, i, j), e)))
        return out
    return t


def counters(ctx):
    """integers the loop does not change, except sizes of things"""
    return [(n, g) for n, g in ctx.bounds() if not n.startswith(("len", "size", "rows", "cols")) and not z3.is_int_value(z3.simplify(g(ctx.entry)))]


def serial(ctx):
    """row by row and column by column progress, for every counter"""
    out = []
    for n1, g1 in ctx.ints():
        out.append(("rows below %s" % n1, lambda s, i, j, g1=g1: i < g1(s)))
        out.append(("columns below %s" % n1, lambda s, i, j, g1=g1: j < g1(s)))
    for n1, g1 in counters(ctx):
        for n2, g2 in ctx.ints():
            out.append(("rows below %s, row %s up to %s" % (n1, n1, n2), lambda s, i, j, g1=g1, g2=g2: z3.Or(i < g1(s), z3.And(i == g1(s), j < g2(s)))))
            out.append(("columns below %s, column %s up to %s" % (n1, n1, n2), lambda s, i, j, g1=g1, g2=g2: z3.Or(j < g1(s), z3.And(j == g1(s), i < g2(s)))))
    return out


@spec("C04", MOD, "cross", **OPT)
def cross(v):
    xs, ys = v.pre[1], v.pre[2]
    e = lambda i, j: k_(el(xs, i), el(ys, j))
    v.template(shapes(xs.n.e, ys.n.e, serial, e))
    for p in v.run():
        p.ensure("entry (i,j) is k(x_i, y_j)", mat_is(p.ret, xs.n.e, ys.n.e, e))


@spec("C04", MOD, "mean", **OPT)
def mean(v):
    xs = v.pre[1]
    e = lambda i, j: m_(el(xs, i))
    v.template(shapes(xs.n.e, z3.IntVal(1), serial, e))
    for p in v.run():
        p.ensure("entry i is m(x_i)", mat_is(p.ret, xs.n.e, z3.IntVal(1), e))


def blocks(ctx):
    """columns of the blocks done so far"""
    out = []
    for n1, g1 in ctx.of(Iter):
        for n2, g2 in counters(ctx):
            out.append(("columns below %s * %s" % (n1, n2), lambda s, i, j, g1=g1, g2=g2: j < g1(s).pos * g2(s)))
    return out


def untouched(ctx):
    """candidate invariants: entries this loop has not written"""
    out = []
    for mn, mg in ctx.mats():
        m0 = mg(ctx.entry).e
        same = lambda s, c, mg=mg, m0=m0: forall([I_, J_], implies(c(I_, J_), smt.at(mg(s).e, I_, J_) == smt.at(m0, I_, J_)), smt.at(mg(s).e, I_, J_))
        for n1, g1 in ctx.ints():
            out.append(("columns of %s outside those up to %s untouched" % (mn, n1), lambda s, same=same, g1=g1, a=g1(ctx.entry): same(s, lambda i, j: z3.Or(j < a, j >= g1(s)))))
        for n1, g1 in counters(ctx):
            out.append(("columns of %s other than %s untouched" % (mn, n1), lambda s, same=same, g1=g1: same(s, lambda i, j: j != g1(s))))
    return out


def only_own(v, own):
    """each task writes entries of its own block only, so the tasks commute and may run in any order or at once"""
    v.template(untouched)

    def check(ex, before, after, args):
        if not hasattr(ex, "block_width"):
            pick_width(ex, before, after, args)
        for obj, cells in before.mem.items():
            for off, n in cells.items():
                if isinstance(n, Leaf) and n.kind == "mat" and obj in after.mem and isinstance(after.mem[obj].get(off), Leaf):
                    m = after.mem[obj][off].e
                    if not m.eq(n.e):
                        ex.oblige(after, "a task writes only entries of its own block", forall([I_, J_], implies(
                            z3.And(0 <= I_, I_ < smt.rows(m), 0 <= J_, J_ < smt.cols(m), z3.Not(own(args, I_, J_))), smt.at(m, I_, J_) == smt.at(n.e, I_, J_)), smt.at(m, I_, J_)), "post")
    v.ex.guarantee = check


def pick_width(ex, before, after, args):
    """a witness for the width: an integer the closure captured for which the footprint claim can be proved"""
    seen = {}
    for obj, cells in before.mem.items():
        for off, n in cells.items():
            if isinstance(n, Leaf) and n.kind == "i64" and not n.ks and not z3.is_int_value(z3.simplify(n.e)):
                seen.setdefault(z3.simplify(n.e).sexpr(), n.e)
    import smt as S
    for e in seen.values():
        m = [(n.e, after.mem[o][off].e) for o, cells in before.mem.items() for off, n in cells.items()
             if isinstance(n, Leaf) and n.kind == "mat" and o in after.mem and isinstance(after.mem[o].get(off), Leaf) and not after.mem[o][off].e.eq(n.e)]
        g = z3.And([forall([I_, J_], implies(z3.And(0 <= I_, I_ < smt.rows(b), 0 <= J_, J_ < smt.cols(b), z3.Not(z3.And(args[0] * e <= J_, J_ < (args[0] + 1) * e))),
                                             smt.at(b, I_, J_) == smt.at(a, I_, J_)), smt.at(b, I_, J_)) for a, b in m])
        if m and S.prove(after.facts, g, timeout=1000, full=False)[0] == "proved":
            ex.block_width = e
            return


def strided(v):
    """block b owns the columns [b*w, (b+1)*w), for the width w the code computed (some integer in reach of the task)"""
    def own(args, i, j):
        w = widths(v.ex)
        return z3.And(args[0] * w <= j, j < (args[0] + 1) * w)
    return own


def widths(ex):
    return getattr(ex, "block_width", z3.Int("block_width"))


def held(v, elems):
    """futures so far hold the tasks of the blocks so far (elems: leaves of block j)"""
    def t(ctx):
        out = []
        for vn, vg in ctx.of(Vec):
            l = vg(ctx.entry).el
            if isinstance(l, Leaf) and l.kind == "i64":
                for i, fn in enumerate(elems):
                    arg = task_arg(i, Leaf("x", fn(J)))
                    out.append(("task argument %d of %s" % (i, vn), lambda s, vg=vg, arg=arg, fn=fn: forall(J, implies(rng(J, 0, vg(s).n.e), arg(sel(vg(s).el, J).e) == fn(J)), sel(vg(s).el, J).e)))
                # list of consecutive numbers (iota)
                out.append(("%s counts up" % vn, lambda s, vg=vg: forall(J, implies(rng(J, 0, vg(s).n.e), sel(vg(s).el, J).e == J), sel(vg(s).el, J).e)))
        return out
    v.template(t)


@spec("C04", MOD, "cross_pool", **OPT)
def cross_pool(v):
    xs, ys = v.pre[1], v.pre[2]
    e = lambda i, j: k_(el(xs, i), el(ys, j))
    only_own(v, strided(v))
    held(v, [lambda j: j])
    v.template(shapes(xs.n.e, ys.n.e, lambda ctx: serial(ctx) + blocks(ctx), e))
    for p in v.run():
        p.ensure("entry (i,j) is k(x_i, y_j)", mat_is(p.ret, xs.n.e, ys.n.e, e))


@spec("C04", MOD, "cross_swapped", **OPT)
def cross_swapped(v):
    xs, ys = v.pre[1], v.pre[2]
    e = lambda i, j: k_(el(ys, j), el(xs, i))
    v.template(shapes(xs.n.e, ys.n.e, serial, e))
    for p in v.run():
        p.ensure("entry (i,j) is k(y_j, x_i)", mat_is(p.ret, xs.n.e, ys.n.e, e))


@spec("C04", MOD, "diagonal", **OPT)
def diagonal(v):
    xs = v.pre[1]
    e = lambda i, j: s_(el(xs, i), el(xs, i))
    v.template(shapes(xs.n.e, z3.IntVal(1), serial, e))
    for p in v.run():
        p.ensure("entry i is k(x_i, x_i)", mat_is(p.ret, xs.n.e, z3.IntVal(1), e))


for fn, want in (("scalar", lambda v: k_(val(v.pre[1]), val(v.pre[2]))), ("scalar_swapped", lambda v: k_(val(v.pre[2]), val(v.pre[1]))), ("scalar_mean", lambda v: m_(v.pre[1].e))):
    def _(fn=fn, want=want):
        @spec("C04", MOD, fn, **OPT)
        def f(v):
            for p in v.run():
                p.ensure("value of the function", p.ret == want(v))
    _()


def symmetric(v):
    a, b = z3.Ints("sa sb")
    v.requires(forall([a, b], s_(a, b) == s_(b, a), s_(a, b)))


def square(ctx):
    """leading square, and progress along both sides of its border"""
    out = []
    for n1, g1 in ctx.ints():
        out.append(("square below %s" % n1, lambda s, i, j, g1=g1: z3.And(i < g1(s), j < g1(s))))
    for n1, g1 in counters(ctx):
        for n2, g2 in ctx.ints():
            out.append(("square below %s, border %s up to %s" % (n1, n1, n2), lambda s, i, j, g1=g1, g2=g2: z3.Or(
                z3.And(i < g1(s), j < g1(s)), z3.And(i == g1(s), j < g2(s)), z3.And(j == g1(s), i < g2(s)))))
    return out


@spec("C04", MOD, "auto_", **OPT)
def auto_(v):
    xs = v.pre[1]
    symmetric(v)
    e = lambda i, j: s_(el(xs, i), el(xs, j))
    v.template(shapes(xs.n.e, xs.n.e, lambda ctx: square(ctx) + serial(ctx), e))
    for p in v.run():
        p.ensure("entry (i,j) is k(x_i, x_j)", mat_is(p.ret, xs.n.e, xs.n.e, e))


P1 = lambda a, j: sel(a.el, j).d[0].e
P2 = lambda a, j: sel(a.el, j).d[8].e


def chained(r, size, end):
    """consecutive half-open blocks from 0 to end"""
    n = r.n.e
    return [("blocks are ordered", forall(J, implies(rng(J, 0, n), z3.And(0 <= P1(r, J), P1(r, J) <= P2(r, J), P2(r, J) <= size)), P1(r, J))),
            ("a block starts where the previous one ended", forall(J, implies(rng(J, 0, n - 1), P1(r, J + 1) == P2(r, J)), P2(r, J))),
            ("first block starts at zero", z3.Implies(n > 0, P1(r, z3.IntVal(0)) == 0)),
            ("last block ends at the end", z3.If(n > 0, P2(r, n - 1) == end, end == 0))]


@spec("C04", MOD, "triangular", **OPT)
def triangular(v):
    size, n = v.a(0), v.a(1)
    v.requires(z3.And(size >= 0, size < CAP, n >= 1, n < 2 ** 31))

    def t(ctx):
        out = []
        for n1, g1 in ctx.ints():
            for n2, g2 in ctx.reals():
                out.append(("%s * count == %s" % (n2, n1), lambda s, g1=g1, g2=g2: g2(s) * z3.ToReal(n) == z3.ToReal(g1(s))))
                out.append(("%s is where %s is used up" % (n1, n2), lambda s, g1=g1, g2=g2: z3.And(g2(s) >= 0, g2(s) <= 1, 0 <= g1(s), g1(s) <= size, g1(s) == smt.fn_rint(z3.ToReal(size) * smt.fn_sqrt(g2(s))))))
            for vn, vg in ctx.of(Vec):
                out.append(("%s blocks in %s" % (n1, vn), lambda s, g1=g1, vg=vg: vg(s).n.e == g1(s)))
                if 8 in getattr(vg(ctx.entry).el, "d", {}):
                    for i in range(4):
                        out.append(("%s: %s" % (vn, i), lambda s, i=i, vg=vg, g1=g1: chained(vg(s), size, g1(s))[i][1]))
        return out
    v.template(t)
    for p in v.run():
        r = p.ret
        p.ensure("as many blocks as asked for", r.n.e == n)
        for nm, g in chained(r, size, size):
            p.ensure(nm, g)


BLK = {}


def blocks_contract(c):
    size, n = num(c.args[-2]), num(c.args[-1])
    c.ex.oblige(c.st, "sizes of the blocks", z3.And(size >= 0, size < CAP, n >= 1, n < 2 ** 31), "pre")
    r = c.ex.fresh(c.st, cxx.parse_type("std::vector<std::pair<long, long> >"), "blocks")
    c.st.assume(r.n.e == n)
    for nm, g in chained(r, size, size):
        c.st.assume(g)
    BLK["r"], BLK["size"] = r, size
    return c.ret(r)


def upper(ctx):
    """upper triangle, column by column"""
    out = []
    for n1, g1 in ctx.of(Iter):
        def done(s, i, j, g1=g1):
            r = BLK["r"]
            end = z3.If(g1(s).pos < r.n.e, P1(r, g1(s).pos), BLK["size"])
            return z3.And(i <= j, j < end)
        if "r" in BLK:
            out.append(("upper columns of the blocks before %s" % n1, done))
    for n1, g1 in ctx.ints():
        out.append(("upper columns below %s" % n1, lambda s, i, j, g1=g1: z3.And(i <= j, j < g1(s))))
    for n1, g1 in counters(ctx):
        for n2, g2 in ctx.ints():
            out.append(("upper columns below %s, column %s up to row %s" % (n1, n1, n2), lambda s, i, j, g1=g1, g2=g2: z3.And(i <= j, z3.Or(
                j < g1(s), z3.And(j == g1(s), i < g2(s))))))
    return out


@spec("C04", MOD, "auto_pool", contracts={"albatross::detail::partition_triangular": blocks_contract}, **OPT)
def auto_pool(v):
    xs = v.pre[1]
    symmetric(v)
    BLK.clear()
    v.requires(xs.n.e < CAP)
    e = lambda i, j: s_(el(xs, i), el(xs, j))
    only_own(v, lambda a, i, j: z3.And(a[0] <= j, j < a[1]))
    held(v, [lambda j: P1(BLK["r"], j), lambda j: P2(BLK["r"], j)])
    v.template(shapes(xs.n.e, xs.n.e, lambda ctx: upper(ctx) + square(ctx), e))
    for p in v.run():
        p.ensure("entry (i,j) is k(x_i, x_j)", mat_is(p.ret, xs.n.e, xs.n.e, e))
