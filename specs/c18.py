"""C18: parameter stores, tunable vectors and their round trip."""
from speclib import *
import contracts_variant as CV

MOD = "parameters"
S = REAL          # keys
nthK, idxK, sizeK, _ = smt.ordfns(REAL)
k = z3.Const("pk", REAL)


def dom(d, x):
    return z3.Select(d.dom.e, x)


def entry(d, x):
    """(value, [prior leaves]) of the parameter stored under x"""
    n = sel(d.val, x)
    offs = sorted(n.d)
    return n.d[offs[0]].e, [n.d[o].e for o in offs[1:]]


def prior_fn(name, sort):
    def f(*xs):
        return smt.uf("prior_" + name, *([x.sort() for x in xs] + [sort]))(*xs)
    return f


lower, upper = prior_fn("lower", REAL), prior_fn("upper", REAL)
is_log, is_fixed = prior_fn("is_log", BOOL), prior_fn("is_fixed", BOOL)
log_pdf = prior_fn("log_pdf", REAL)


def leaves_at(c, p):
    ty = cxx.parse_type("albatross::PriorContainer")
    proto = c.ex.fresh(None, ty, "pc")
    from contracts_std import take
    n = take(c.ex, c.st, p, proto)
    return [n.d[o].e for o in sorted(n.d)]


import cxx


def summary(fn):
    """callee contract: a pure function of the container's contents (which function: property C19)"""
    def h(c):
        xs = leaves_at(c, c.args[0])
        return [(c.st, fn(*(xs + [a for a in c.args[1:]])))]
    return h


PC = {"albatross::PriorContainer::lower_bound": summary(lower), "albatross::PriorContainer::upper_bound": summary(upper),
      "albatross::PriorContainer::is_log_scale": summary(is_log), "albatross::PriorContainer::is_fixed": summary(is_fixed),
      "albatross::PriorContainer::log_pdf": summary(log_pdf)}


def sp(fn, **kw):
    return spec("C18", MOD, fn, contracts=PC, **kw)


@sp("set_value")
def set_value(v):
    _set(v, lambda old, new: (new, old[1]), lambda v: v.a(1))


def arg_entry(n):
    offs = sorted(n.d)
    return n.d[offs[0]].e, [n.d[o].e for o in offs[1:]]


def same_entry(a, b):
    return z3.And([a[0] == b[0]] + [x == y for x, y in zip(a[1], b[1])])


def _set(v, upd, new, ret=False):
    key, store = v.a(0), v.pre[2]
    v.ex.allow_throw = True
    if not ret:
        pass
    for p in v.run():
        out = p.out(2)
        p.ensure("no parameter added or removed", out.dom.e == store.dom.e)
        want = upd(entry(store, key), new(v))
        if ret:
            p.ensure("reports whether the parameter existed", p.ret == dom(store, key))
            p.ensure("named parameter changed", implies(dom(store, key), same_entry(entry(out, key), want)))
        else:
            p.ensure("unknown name is rejected", dom(store, key))
            p.ensure("named parameter changed", same_entry(entry(out, key), want))
        p.ensure("every other parameter unchanged",
                 forall(k, implies(z3.And(dom(store, k), k != key), same_entry(entry(out, k), entry(store, k)))))


@sp("set_param")
def set_param(v):
    _set(v, lambda old, new: new, lambda v: arg_entry(v.pre[1]))


@sp("set_prior")
def set_prior(v):
    _set(v, lambda old, new: (old[0], new), lambda v: [v.pre[1].d[o].e for o in sorted(v.pre[1].d)])


@sp("set_value_ie")
def set_value_ie(v):
    _set(v, lambda old, new: (new, old[1]), lambda v: v.a(1), True)


@sp("set_param_ie")
def set_param_ie(v):
    _set(v, lambda old, new: new, lambda v: arg_entry(v.pre[1]), True)


@sp("set_prior_ie")
def set_prior_ie(v):
    _set(v, lambda old, new: (old[0], new), lambda v: [v.pre[1].d[o].e for o in sorted(v.pre[1].d)], True)


# ------------------------------------------------------------------ whole stores
def arg_map_entry(d, x, has_prior):
    n = sel(d.val, x)
    if isinstance(n, Leaf):
        return n.e, None
    offs = sorted(n.d)
    return n.d[offs[0]].e, [n.d[o].e for o in offs[1:]]


def progress(v, src, store, want, unk=None):
    """invariant family: parameters named by the first pos entries of src already have their new contents"""
    def t(ctx):
        out = []
        for n, g in ctx.of(Dict):
            for pn, pg in iters_over(ctx, src):
                def f(s, g=g, pg=pg):
                    r = g(s)
                    done = z3.And(dom(src, k), idxK(src.dom.e, k) < pg(s))
                    w = want(k)
                    old = entry(store, k)
                    cur = entry(r, k)
                    return forall(k, implies(dom(store, k), z3.And([cur[0] == z3.If(done, w[0], old[0])] +
                                                                   [c == z3.If(done, a, b) for c, a, b in zip(cur[1], w[1], old[1])])),
                                  [cur[0]] + cur[1])

                def fd(s, g=g):
                    return g(s).dom.e == store.dom.e

                def fr(s, pg=pg):
                    j = J
                    return forall(j, implies(rng(j, 0, pg(s)), dom(store, nthK(src.dom.e, j))), nthK(src.dom.e, j))
                out += [("entries %s %s" % (n, pn), f), ("domain %s" % n, fd), ("known so far %s" % pn, fr)]
        for n, g in ctx.ints() if False else []:
            pass
        for pn, pg in iters_over(ctx, src):
            for n, g in ctx.bools():
                if unk is not None:
                    out.append(("all set so far %s" % n,
                                lambda s, g=g, pg=pg: g(s) == z3.And(sizeK(src.dom.e) > 0, unk(pg(s)) == 0)))
        return out
    v.template(t)


def many(fn, values_only, ret):
    @sp(fn)
    def f(v):
        src, store = v.pre[0], v.pre[1]
        v.ex.allow_throw = True
        saturate(v, src)

        def want(x):
            if values_only:
                return z3.Select(src.val.e, x), entry(store, x)[1]
            return entry(src, x)
        unk = count(v, "unknown", lambda i: z3.Not(dom(store, nthK(src.dom.e, i)))) if ret else None
        progress(v, src, store, want, unk)
        for p in v.run():
            out = p.out(1)
            p.ensure("no parameter added or removed", out.dom.e == store.dom.e)
            if not ret:
                p.ensure("unknown names are rejected", forall(k, implies(dom(src, k), dom(store, k))))
            else:
                p.ensure("reports whether all were set",
                         p.ret == z3.And(sizeK(src.dom.e) > 0, unk(sizeK(src.dom.e)) == 0))
            w = want(k)
            p.ensure("named parameters changed", forall(k, implies(z3.And(dom(src, k), dom(store, k)), same_entry(entry(out, k), w))))
            p.ensure("other parameters unchanged",
                     forall(k, implies(z3.And(dom(store, k), z3.Not(dom(src, k))), same_entry(entry(out, k), entry(store, k)))))
    return f


many("set_params", False, False)
many("set_values", True, False)
many("set_params_ie", False, True)
many("set_values_ie", True, True)


# ------------------------------------------------------------------ tunable vectors
def nkey(d, i):
    return nthK(d.dom.e, i)


def fixed_at(d, i):
    return is_fixed(*entry(d, nkey(d, i))[1])


def tun(d, i):
    e = entry(d, nkey(d, i))
    return e[0], lower(*e[1]), upper(*e[1]), is_log(*e[1])


def maybe_log(c, x):
    return z3.If(c, smt.fn_log(x), x)


@sp("get_tunable")
def get_tunable(v):
    d = v.pre[0]
    v.ex.allow_throw = True
    n = sizeK(d.dom.e)
    free = lambda i: z3.Not(fixed_at(d, i))
    cnt = count(v, "free", free)

    def el(i):
        x, lb, ub, lg = tun(d, i)
        return [nkey(d, i), maybe_log(lg, x), maybe_log(lg, lb), maybe_log(lg, ub)]

    def t(ctx):
        out = []
        for pn, pg in iters_over(ctx, d):
            for vn, vg in ctx.of(Vec):
                out.append(("len " + vn, lambda s, vg=vg, pg=pg: vg(s).n.e == cnt(pg(s))))
                for q in range(4):
                    def f(s, vg=vg, pg=pg, q=q):
                        x = vg(s)
                        w = el(J)[q]
                        if not (isinstance(x.el, Leaf) and x.el.e.sort().range() == w.sort()) or (x.el.kind == "str") != (q == 0):
                            return z3.BoolVal(False)
                        return forall(J, implies(z3.And(rng(J, 0, pg(s)), free(J)), z3.Select(x.el.e, cnt.limited(J)) == w), nkey(d, J))
                    out.append(("element %d %s" % (q, vn), f))

            def okv(s, pg=pg):
                x, lb, ub, lg = tun(d, J)
                return forall(J, implies(z3.And(rng(J, 0, pg(s)), free(J)), z3.And(x >= lb, x <= ub)), nkey(d, J))
            out.append(("valid so far", okv))
        return out
    v.template(t)
    for p in v.run():
        offs = sorted(p.ret.d)
        vs = [p.ret.d[o] for o in offs]
        x, lb, ub, lg = tun(d, J)
        p.ensure("invalid values are rejected", forall(J, implies(z3.And(rng(J, 0, n), free(J)), z3.And(x >= lb, x <= ub)), nkey(d, J)))
        for q, nm in enumerate(["name", "value", "lower bound", "upper bound"]):
            p.ensure("one %s per free parameter" % nm, vs[q].n.e == cnt(n))
            p.ensure("%s of each free parameter in order" % nm,
                     forall(J, implies(z3.And(rng(J, 0, n), free(J)), z3.Select(vs[q].el.e, cnt(J)) == el(J)[q]), nkey(d, J)))


@sp("within")
def within(v):
    n = v.pre[0]
    pr = [n.d[o].e for o in sorted(n.d)][1:]
    x, lb, ub = v.a(1), lower(*pr), upper(*pr)
    for p in v.run():
        p.ensure("clamped to the bounds", p.ret == z3.If(x < lb, lb, z3.If(x > ub, ub, x)))


def set_tunable_spec(fn, name, short=None):
    @sp(fn, name=name)
    def f(v):
        d, x = v.pre[0], v.pre[1]
        saturate(v, d)
        n = sizeK(d.dom.e)
        free = lambda i: z3.Not(fixed_at(d, i))
        cnt = count(v, "free", free)
        force = v.a(2) if len(v.pre) > 2 else z3.BoolVal(True)
        v.requires(x.n.e >= cnt(n))
        if short == "surplus":
            v.requires(x.n.e > cnt(n))
        else:
            v.requires(x.n.e == cnt(n))
        v.ex.allow_throw = short is not None

        def new(key):
            e = entry(d, key)
            lb, ub, lg = lower(*e[1]), upper(*e[1]), is_log(*e[1])
            r = z3.Select(x.el.e, cnt.limited(idxK(d.dom.e, key)))
            r = z3.If(lg, smt.fn_exp(r), r)
            return z3.If(z3.Not(force), r, z3.If(r < lb, lb, z3.If(r > ub, ub, r)))

        def t(ctx):
            out = []
            for pn, pg in iters_over(ctx, d):
                for nm, g in ctx.ints():
                    out.append(("used " + nm, lambda s, g=g, pg=pg: g(s) == cnt(pg(s))))
                for nm, g in ctx.of(Dict):
                    def f1(s, g=g, pg=pg):
                        e = entry(d, k)
                        c = entry(g(s), k)
                        done = z3.And(idxK(d.dom.e, k) < pg(s), z3.Not(is_fixed(*e[1])))
                        return forall(k, implies(dom(d, k), c[0] == z3.If(done, new(k), e[0])), c[0])

                    def f2(s, g=g):
                        e = entry(d, k)
                        c = entry(g(s), k)
                        return forall(k, implies(dom(d, k), z3.And([a == b for a, b in zip(c[1], e[1])])), [c[0]] + c[1])
                    out += [("written " + nm, f1), ("priors " + nm, f2), ("dom " + nm, lambda s, g=g: g(s).dom.e == d.dom.e)]
            return out
        v.template(t)
        for p in v.run():
            if short:
                p.ensure("surplus values are rejected", z3.BoolVal(False))
                continue
            r = p.ret
            e = entry(d, k)
            c = entry(r, k)
            p.ensure("no parameter added or removed", r.dom.e == d.dom.e)
            p.ensure("priors unchanged", forall(k, implies(dom(d, k), z3.And([a == b for a, b in zip(c[1], e[1])]))))
            p.ensure("fixed parameters unchanged", forall(k, implies(z3.And(dom(d, k), is_fixed(*e[1])), c[0] == e[0])))
            p.ensure("free parameters take their entry of the vector",
                     forall(k, implies(z3.And(dom(d, k), z3.Not(is_fixed(*e[1]))), c[0] == new(k))))


set_tunable_spec("set_tunable", "set_tunable")
set_tunable_spec("set_tunable_force", "set_tunable[force flag]")
set_tunable_spec("set_tunable", "set_tunable[surplus]", short="surplus")


@sp("is_valid")
def is_valid(v):
    n = v.pre[0]
    e = [n.d[o].e for o in sorted(n.d)]
    for p in v.run():
        p.ensure("within bounds", p.ret == z3.And(e[0] >= lower(*e[1:]), e[0] <= upper(*e[1:])))


@sp("valid")
def valid(v):
    d = v.pre[0]
    n = sizeK(d.dom.e)

    def ok(i):
        x, lb, ub, lg = tun(d, i)
        return z3.And(x >= lb, x <= ub)

    def t(ctx):
        return [("ok so far", lambda s, pg=pg: forall(J, implies(rng(J, 0, pg(s)), ok(J)), nkey(d, J))) for pn, pg in iters_over(ctx, d)]
    v.template(t)
    for p in v.run():
        p.ensure("true iff every parameter is within its bounds", p.ret == forall(J, implies(rng(J, 0, n), ok(J)), nkey(d, J)))


@sp("prior_ll")
def prior_ll(v):
    d = v.pre[0]
    n = sizeK(d.dom.e)
    term = lambda i: log_pdf(*(entry(d, nkey(d, i))[1] + [entry(d, nkey(d, i))[0]]))
    S_ = fold(v, "sum", REAL, z3.RealVal(0), lambda i, r: r + term(i))

    def t(ctx):
        return [("partial sum " + nm, lambda s, g=g, pg=pg: g(s) == S_(pg(s))) for pn, pg in iters_over(ctx, d) for nm, g in ctx.reals()]
    v.template(t)
    for p in v.run():
        p.ensure("sum over the parameters", p.ret == S_(n))


# ------------------------------------------------------------------ the same contracts through a model's interface
def store_of(v, i):
    """parameter store inside the model passed as argument i"""
    n = v.pre[i]
    ds = [n.d[o] for o in sorted(n.d) if isinstance(n.d[o], Dict)]
    if len(ds) != 1:
        raise Unsupported("model layout")
    return ds[0]


def out_store(p, i):
    n = p.out(i)
    ds = [n.d[o] for o in sorted(n.d) if isinstance(n.d[o], Dict)]
    if len(ds) != 1:
        raise Unsupported("model layout")
    return ds[0]


def nonempty(v, key):
    """documented precondition of set_param on a model: names are non-empty (asserted by the code)"""
    v.ex.allow_throw = True


def m_one(fn, upd, new, ret=False):
    @sp(fn)
    def f(v):
        key, store = v.a(1), store_of(v, 0)
        nonempty(v, key)
        for p in v.run():
            out = out_store(p, 0)
            p.ensure("no parameter added or removed", out.dom.e == store.dom.e)
            want = upd(entry(store, key), new(v))
            if ret:
                p.ensure("reports whether the parameter existed", p.ret == dom(store, key))
            else:
                p.ensure("unknown name is rejected", dom(store, key))
            p.ensure("named parameter changed", implies(dom(store, key), same_entry(entry(out, key), want)))
            p.ensure("every other parameter unchanged",
                     forall(k, implies(z3.And(dom(store, k), k != key), same_entry(entry(out, k), entry(store, k)))))
    return f


m_one("m_set_value", lambda o, n: (n, o[1]), lambda v: v.a(2))
m_one("m_set_param", lambda o, n: n, lambda v: arg_entry(v.pre[2]))
m_one("m_set_prior", lambda o, n: (o[0], n), lambda v: [v.pre[2].d[o].e for o in sorted(v.pre[2].d)])
m_one("m_set_param_ie", lambda o, n: n, lambda v: arg_entry(v.pre[2]), True)
m_one("m_set_value_ie", lambda o, n: (n, o[1]), lambda v: v.a(2), True)


@sp("m_value")
def m_value(v):
    d = store_of(v, 0)
    v.ex.allow_throw = True
    for p in v.run():
        p.ensure("unknown name is rejected", dom(d, v.a(1)))
        p.ensure("value of the named parameter", p.ret == entry(d, v.a(1))[0])


@sp("m_params")
def m_params(v):
    d = store_of(v, 0)
    for p in v.run():
        p.ensure("the model's own store", z3.And(p.ret.dom.e == d.dom.e, forall(k, implies(dom(d, k), same_entry(entry(p.ret, k), entry(d, k))))))


@sp("m_in_any")
def m_in_any(v):
    a, b = store_of(v, 0), store_of(v, 1)
    key, new = v.a(2), arg_entry(v.pre[3])
    v.ex.allow_throw = True
    for p in v.run():
        oa, ob = out_store(p, 0), out_store(p, 1)
        p.ensure("no parameter added or removed", z3.And(oa.dom.e == a.dom.e, ob.dom.e == b.dom.e))
        p.ensure("reports whether any part owns the parameter", p.ret == z3.Or(dom(a, key), dom(b, key)))
        p.ensure("first owner changed", implies(dom(a, key), same_entry(entry(oa, key), new)))
        p.ensure("otherwise the second", implies(z3.And(z3.Not(dom(a, key)), dom(b, key)), same_entry(entry(ob, key), new)))
        p.ensure("every other parameter unchanged", z3.And(
            forall(k, implies(z3.And(dom(a, k), k != key), same_entry(entry(oa, k), entry(a, k)))),
            forall(k, implies(z3.And(dom(b, k), z3.Or(k != key, dom(a, key))), same_entry(entry(ob, k), entry(b, k))))))


def second_pass(v, store):
    """invariant family of the forwarding loop: the model's store already equals the modified copy below the position"""
    def t(ctx):
        out = []
        for pn, pg in ctx.of(Iter):
            it = pg(ctx.entry)
            try:
                cn = ctx.ex.node_at(ctx.entry, it.c)
            except Unsupported:
                continue
            if not isinstance(cn, Dict) or isinstance(sel(cn.val, k), Leaf):
                continue
            for n, g in ctx.of(Dict):
                e0 = g(ctx.entry)
                if leaves_same(e0, cn):
                    continue

                def f(s, g=g, pg=pg, cn=cn, e0=e0):
                    cur, w, old = entry(g(s), k), entry(cn, k), entry(e0, k)
                    done = idxK(cn.dom.e, k) < pg(s).pos
                    return forall(k, implies(dom(store, k), z3.And([cur[0] == z3.If(done, w[0], old[0])] +
                                                                   [c == z3.If(done, a, b) for c, a, b in zip(cur[1], w[1], old[1])])),
                                  [cur[0]] + cur[1])
                out.append(("forwarded %s %s" % (n, pn), f))
                out.append(("store domain %s" % n, lambda s, g=g: g(s).dom.e == store.dom.e))
        return out
    v.template(t)


def leaves_same(a, b):
    la, lb = list(leaves(a)), list(leaves(b))
    return len(la) == len(lb) and all(x.e.eq(y.e) for x, y in zip(la, lb))


def m_many(fn, values_only, lenient):
    @sp(fn)
    def f(v):
        src, store = v.pre[1], store_of(v, 0)
        v.ex.allow_throw = True
        saturate(v, src, store)

        def want(x):
            if values_only:
                return z3.Select(src.val.e, x), entry(store, x)[1]
            return entry(src, x)
        progress(v, src, store, want)
        second_pass(v, store)
        for p in v.run():
            out = out_store(p, 0)
            p.ensure("no parameter added or removed", out.dom.e == store.dom.e)
            if not lenient:
                p.ensure("unknown names are rejected", forall(k, implies(dom(src, k), dom(store, k))))
            p.ensure("named parameters changed", forall(k, implies(z3.And(dom(src, k), dom(store, k)), same_entry(entry(out, k), want(k)))))
            p.ensure("other parameters unchanged",
                     forall(k, implies(z3.And(dom(store, k), z3.Not(dom(src, k))), same_entry(entry(out, k), entry(store, k)))))
    return f


m_many("m_set_params", False, False)
m_many("m_set_values", True, False)
m_many("m_set_params_ie", False, True)


def tunable_summary(c):
    """callee contract (proved above for set_tunable): a store with the same parameters and other contents"""
    n = c.ex.node_at(c.st, c.args[0])
    r = Dict(n.dom, sel_fresh(n.val), n.kkind, n.voff, n.ty)
    T_NEW.append(r)
    return c.ret(r)


T_NEW = []


def sel_fresh(n):
    return freshen(n, "tn")


@spec("C18", MOD, "m_set_tunable", contracts=dict(PC, **{"albatross::set_tunable_params_values": tunable_summary}))
def m_set_tunable(v):
    store = store_of(v, 0)
    v.ex.allow_throw = True
    saturate(v, store)
    del T_NEW[:]

    def t(ctx):
        if not T_NEW:
            return []
        src = T_NEW[-1]
        out = []
        for n, g in ctx.of(Dict):
            for pn, pg in iters_over(ctx, src):
                def f(s, g=g, pg=pg):
                    done = idxK(src.dom.e, k) < pg(s)
                    w, old, cur = entry(src, k), entry(store, k), entry(g(s), k)
                    return forall(k, implies(dom(store, k), z3.And([c == z3.If(done, a, b) for c, a, b in zip([cur[0]] + cur[1], [w[0]] + w[1], [old[0]] + old[1])])),
                                  [cur[0]] + cur[1])
                out += [("entries %s %s" % (n, pn), f), ("domain %s" % n, lambda s, g=g: g(s).dom.e == store.dom.e)]
        return out
    v.template(t)
    second_pass(v, store)
    for p in v.run():
        out = out_store(p, 0)
        p.ensure("the computed parameters are installed", z3.And(out.dom.e == store.dom.e,
                                                                forall(k, implies(dom(store, k), same_entry(entry(out, k), entry(T_NEW[-1], k))))))
