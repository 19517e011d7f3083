"""Assumed contract of the thread pool and of std::future (the pool is an empty submodule here; the replays run a real one):
enqueue(f, args...) yields a future whose get() returns f(args...) once the task has run.  Tasks without a result run no
earlier than enqueue and no later than get(): their effects are only assumed visible after get()."""
import re
import z3
import cxx
import smt
from trees import *
from exec import contract
from contracts_std import take, give, find_callee


def fresh_future(ex, st, ty, tag, ks):
    t = ty.args[0]
    if t.k == "void" or str(t) == "void":
        return Leaf("i64", z3.Const(fresh_name(tag + ".ticket"), lift(ks, INT)), ks)
    return ex.fresh(None if ks else st, t, tag + ".result", ks)


FRESH = {"std::future": fresh_future}


@contract("ThreadPool::thread_count")
def _count(c):
    n = z3.Int("pool_threads")
    c.st.assume(z3.And(n >= 0, n < 2 ** 31))
    return [(c.st, n)]


def body_of(ex, name):
    """the user function called by enqueue's eager body"""
    f = ex.mod.func(name)
    for b in f.order:
        for i in f.blocks[b]:
            if i.op in ("call", "invoke") and i.a["f"][0] == "global":
                g = i.a["f"][1]
                d = ex.mod.dem.get(g, g)
                if "operator()" in d and not d.startswith("std::"):
                    return g
    raise Unsupported("task of " + ex.mod.dem.get(name, name)[:120])


@contract("ThreadPool::enqueue")
def _enqueue(c):
    ex, st = c.ex, c.st
    sret, f, args = c.sret, c.args[1], c.args[2:]
    g = body_of(ex, c.name)
    fn = ex.mod.func(g)
    # private copies of the arguments
    vals = []
    for a in args:
        n = ex.node_at(st, ex.iter_deref(st, a) if isinstance(a, Iter) else a)
        if isinstance(n, Leaf):          # an aggregate is laid out field by field
            ty = cxx.parse_type(re.sub(r"(^const\b)|(\bconst\b)|&+$", "", c.params[len(vals) + 1].strip("& ")).strip()) if len(c.params) > len(vals) + 1 else None
            if ty is not None and ty.k == "named" and ty.name == "std::pair":
                n = take(ex, st, a, ex.fresh(None, ty, "argtype", ()))
        vals.append(n)
    ret_void = ex.mod.resolve(fn.ret).k == "void" and not any("sret" in at for _, _, at in fn.params)
    if not ret_void:
        ps = []
        for n in vals:
            pass_arg(ex, st, fn, ps, n)
        out = []
        if any("sret" in at for _, _, at in fn.params):
            for s2, _ in ex.run_fn(st, g, [sret, f] + ps):
                out.append((s2, None))
            return out
        for s2, r in ex.run_fn(st, g, [f] + ps):
            k = "f64" if z3.is_real(r) else "bool" if z3.is_bool(r) else "i64"
            ex.write(s2, sret, Leaf(k, r))
            out.append((s2, None))
        return out
    tasks = ex.__dict__.setdefault("tasks", [])
    site = None
    for i, (g2, f2, protos) in enumerate(tasks):
        if g2 == g:
            site = i
    if site is None:
        site = len(tasks)
        tasks.append((g, f, vals))
    else:
        tasks[site] = (g, f, vals)
    t = z3.Int(fresh_name("ticket"))
    for k, l in enumerate([l for n in vals for l in leaves(n)]):
        st.assume(task_arg(k, l)(t) == l.e)
    ex.write(st, sret, Leaf("i64", t))
    return [(st, None)]


def task_arg(k, l):
    return smt.uf("task_arg%d:%s" % (k, l.e.sort()), INT, l.e.sort())


def pass_arg(ex, st, fn, ps, n):
    """append the actual(s) for a copy of n: by reference, or its scalars in registers"""
    i = len(ps) + (2 if any("sret" in at for _, _, at in fn.params) else 1)
    if ex.mod.resolve(fn.params[i][0]).k == "ptr":
        p = Ptr(ex.new_obj(st, "arg"))
        give(ex, st, p, n)
        ps.append(p)
    else:
        ps += [l.e for l in leaves(n)]


@contract("std::future::get")
def _get(c):
    ex, st = c.ex, c.st
    if c.sret is None and ex.mod.resolve(c.rt).k == "void":
        tasks = getattr(ex, "tasks", [])
        if len(tasks) != 1:
            raise Unsupported("futures of %d kinds of task" % len(tasks))
        g, f, protos = tasks[0]
        t = ex.node_at(st, c.args[0])
        fn = ex.mod.func(g)
        ps, k = [], 0
        pre = getattr(ex, "interference", None)
        if pre:
            pre(ex, st)
        for n in protos:
            def one(l):
                nonlocal k
                e = task_arg(k, l)(t.e)
                k += 1
                return Leaf(l.kind, e)
            n2 = tmap(one, n)
            pass_arg(ex, st, fn, ps, n2)
        before = st.fork()
        out = []
        for s2, _ in ex.run_fn(st, g, [f] + ps):
            if getattr(ex, "guarantee", None):
                ex.guarantee(ex, before, s2, ps)
            out.append((s2, None))
        return out
    n = ex.node_at(st, c.args[0])
    if c.sret is not None:
        give(ex, st, c.sret, n)
        return [(st, None)]
    return [(st, n.e)]


@contract("std::future::~future")
def _dtor(c):
    return [(c.st, None)]


@contract("std::future::future", "std::future::operator=")
def _move(c):
    ex, st = c.ex, c.st
    if len(c.args) > 1:
        n = ex.node_at(st, ex.iter_deref(st, c.args[1]) if isinstance(c.args[1], Iter) else c.args[1])
        give(ex, st, c.args[0], n)
    return c.ret(c.args[0] if c.rt.k == "ptr" else None)


@contract("std::__basic_future::wait", "std::future::wait")
def _wait(c):
    return [(c.st, None)]


# a shared pointer to a thread pool is an opaque handle (0 when empty); the pool it leads to is the one of the contract above
def fresh_shared(ex, st, ty, tag, ks):
    return Leaf("i64", z3.Const(fresh_name(tag + ".handle"), lift(ks, INT)), ks)


import exec as X
X.FRESH["std::shared_ptr"] = fresh_shared


@contract("std::shared_ptr::shared_ptr", "std::shared_ptr::operator=")
def _shared(c):
    src = [p for p in c.params if "shared_ptr" in p]
    if c.params and not src and "nullptr" not in c.params[0] and "None" not in c.params[0]:
        return NotImplemented
    n = c.ex.node_at(c.st, c.args[1]) if src else Leaf("i64", z3.IntVal(0))
    c.ex.write(c.st, c.args[0], n)
    return c.ret(c.args[0] if c.rt.k == "ptr" and c.sret is None else None)


@contract("std::shared_ptr::~shared_ptr")
def _shared_end(c):
    return c.ret(None)


@contract("std::__shared_ptr::get")
def _shared_get(c):
    o = c.ex.new_obj(c.st, "pool")
    c.st.put(o, 0, Leaf("i64", c.ex.node_at(c.st, c.args[0]).e))
    return c.ret(Ptr(o))
