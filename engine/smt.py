"""SMT discharge: z3 in process, cvc5 / z3 binary as second opinions.  Background theory axioms."""
import time
import z3
from trees import *

stats = {"queries": 0, "time": 0.0, "by": {}, "slow": []}

I, J, K = z3.Ints("bi bj bk")

# ----------------------------------------------------------------- ordered dictionaries
_ordfn = {}


def ordfns(ksort_):
    key = str(ksort_)
    if key not in _ordfn:
        D = z3.ArraySort(ksort_, BOOL)
        nth = z3.Function("nth_" + key, D, INT, ksort_)
        idx = z3.Function("idx_" + key, D, ksort_, INT)
        size = z3.Function("size_" + key, D, INT)
        d = z3.Const("d", D)
        k = z3.Const("k", ksort_)
        ax = [
            z3.ForAll([d, I], z3.Implies(z3.And(I >= 0, I < size(d)),
                                         z3.And(z3.Select(d, nth(d, I)), idx(d, nth(d, I)) == I)),
                      patterns=[nth(d, I)]),
            z3.ForAll([d, k], z3.Implies(z3.Select(d, k),
                                         z3.And(idx(d, k) >= 0, idx(d, k) < size(d), nth(d, idx(d, k)) == k)),
                      patterns=[idx(d, k)]),
            z3.ForAll([d], size(d) >= 0, patterns=[size(d)]),
        ]
        if ksort_ in (INT, REAL):
            ax.append(z3.ForAll([d, I, J], z3.Implies(z3.And(I >= 0, I < J, J < size(d)), nth(d, I) < nth(d, J)),
                                patterns=[z3.MultiPattern(nth(d, I), nth(d, J))]))
            k2 = z3.Const("k2", ksort_)
            ax.append(z3.ForAll([d, k, k2], z3.Implies(z3.And(z3.Select(d, k), z3.Select(d, k2), k < k2),
                                                       idx(d, k) < idx(d, k2)),
                                patterns=[z3.MultiPattern(idx(d, k), idx(d, k2))]))
        _ordfn[key] = (nth, idx, size, ax)
    return _ordfn[key]


# ----------------------------------------------------------------- matrices
def F(name, *sorts):
    return z3.Function(name, *sorts)


rows = F("rows", MAT, INT)
cols = F("cols", MAT, INT)
at = F("at", MAT, INT, INT, REAL)
madd = F("madd", MAT, MAT, MAT)
msub = F("msub", MAT, MAT, MAT)
mneg = F("mneg", MAT, MAT)
mmul = F("mmul", MAT, MAT, MAT)
mscale = F("mscale", REAL, MAT, MAT)
mtr = F("mtr", MAT, MAT)
minv = F("minv", MAT, MAT)          # inverse (assumed invertible where used)
mcmul = F("mcmul", MAT, MAT, MAT)   # coefficient-wise product
mcdiv = F("mcdiv", MAT, MAT, MAT)
mblock = F("mblock", MAT, INT, INT, INT, INT, MAT)      # i,j,rows,cols
mblockset = F("mblockset", MAT, INT, INT, MAT, MAT)     # M with block at i,j replaced
mset = F("mset", MAT, INT, INT, REAL, MAT)
mconst = F("mconst", INT, INT, REAL, MAT)
mid = F("mid", INT, INT, MAT)
mdiag = F("mdiag", MAT, MAT)        # diagonal as column vector
mdiagm = F("mdiagm", MAT, MAT)      # vector -> diagonal matrix
mdiagset = F("mdiagset", MAT, MAT, MAT)   # M with its diagonal replaced by the vector
mtri = F("mtri", MAT, INT, MAT)      # lower (1) / upper (2) triangle, zero elsewhere
mtriset = F("mtriset", MAT, MAT, INT, MAT)   # first matrix with that triangle replaced by the second's
mcinv = F("mcinv", MAT, MAT)        # coefficient-wise inverse
mcolsum = F("mcolsum", MAT, MAT)    # row vector of the column sums
msum = F("msum", MAT, REAL)
mdot = F("mdot", MAT, MAT, REAL)
mrepl = F("mrepl", MAT, INT, INT, MAT)
mrep = F("mrep", MAT, INT, MAT)      # that many copies of a column side by side
mgcols = F("mgcols", MAT, z3.ArraySort(INT, INT), INT, MAT)    # the listed columns
mgather = F("mgather", MAT, z3.ArraySort(INT, INT), INT, z3.ArraySort(INT, INT), INT, MAT)

_A, _B = z3.Consts("mA mB", MAT)
_x = z3.Real("mx")
_h, _w = z3.Ints("mh mw")
_fa, _fb = z3.Consts("mfa mfb", z3.ArraySort(INT, INT))


def _mk():
    ax = []

    def dims(t, vs, r, c):
        ax.append(z3.ForAll(vs, z3.And(rows(t) == r, cols(t) == c), patterns=[t]))

    def shape(t, h, w):
        """a size given by numbers is a size only when they are not negative"""
        return z3.And(z3.Implies(h >= 0, rows(t) == h), z3.Implies(w >= 0, cols(t) == w))

    def el(t, vs, e):
        ax.append(z3.ForAll(vs + [I, J], at(t, I, J) == e, patterns=[at(t, I, J)]))
    ax.append(z3.ForAll([_A], rows(_A) >= 0, patterns=[rows(_A)]))
    ax.append(z3.ForAll([_A], cols(_A) >= 0, patterns=[cols(_A)]))
    for f, g in ((madd, lambda a, b: a + b), (msub, lambda a, b: a - b), (mcmul, lambda a, b: a * b),
                 (mcdiv, lambda a, b: a / b)):
        t = f(_A, _B)
        dims(t, [_A, _B], rows(_A), cols(_A))
        el(t, [_A, _B], g(at(_A, I, J), at(_B, I, J)))
    dims(mneg(_A), [_A], rows(_A), cols(_A))
    el(mneg(_A), [_A], -at(_A, I, J))
    dims(mscale(_x, _A), [_x, _A], rows(_A), cols(_A))
    el(mscale(_x, _A), [_x, _A], _x * at(_A, I, J))
    dims(mtr(_A), [_A], cols(_A), rows(_A))
    el(mtr(_A), [_A], at(_A, J, I))
    dims(mmul(_A, _B), [_A, _B], rows(_A), cols(_B))
    dims(mcolsum(_A), [_A], z3.IntVal(1), cols(_A))
    t = mcolsum(mcmul(_A, _B))
    ax.append(z3.ForAll([_A, _B, I, J], at(t, I, J) == at(mmul(mtr(_A), _B), J, J), patterns=[at(t, I, J)]))
    dims(minv(_A), [_A], cols(_A), rows(_A))
    dims(mcinv(_A), [_A], rows(_A), cols(_A))
    el(mcinv(_A), [_A], 1 / at(_A, I, J))
    t = mblock(_A, K, z3.Int("bl"), _h, _w)
    bl = z3.Int("bl")
    ax.append(z3.ForAll([_A, K, bl, _h, _w], shape(t, _h, _w), patterns=[t]))
    ax.append(z3.ForAll([_A, K, bl, _h, _w, I, J], at(t, I, J) == at(_A, I + K, J + bl), patterns=[at(t, I, J)]))
    t = mblockset(_A, K, bl, _B)
    ax.append(z3.ForAll([_A, K, bl, _B], z3.And(rows(t) == rows(_A), cols(t) == cols(_A)), patterns=[t]))
    ax.append(z3.ForAll([_A, K, bl, _B, I, J], at(t, I, J) ==
                        z3.If(z3.And(I >= K, I < K + rows(_B), J >= bl, J < bl + cols(_B)),
                              at(_B, I - K, J - bl), at(_A, I, J)), patterns=[at(t, I, J)]))
    t = mset(_A, K, bl, _x)
    ax.append(z3.ForAll([_A, K, bl, _x], z3.And(rows(t) == rows(_A), cols(t) == cols(_A)), patterns=[t]))
    ax.append(z3.ForAll([_A, K, bl, _x, I, J], at(t, I, J) == z3.If(z3.And(I == K, J == bl), _x, at(_A, I, J)),
                        patterns=[at(t, I, J)]))
    t = mconst(_h, _w, _x)
    ax.append(z3.ForAll([_h, _w, _x], shape(t, _h, _w), patterns=[t]))
    ax.append(z3.ForAll([_h, _w, _x, I, J], at(t, I, J) == _x, patterns=[at(t, I, J)]))
    t = mrep(_A, _w)
    ax.append(z3.ForAll([_A, _w], z3.And(rows(t) == rows(_A), z3.Implies(_w >= 0, cols(t) == _w)), patterns=[t]))
    ax.append(z3.ForAll([_A, _w, I, J], at(t, I, J) == at(_A, I, 0), patterns=[at(t, I, J)]))
    t = mid(_h, _w)
    ax.append(z3.ForAll([_h, _w], shape(t, _h, _w), patterns=[t]))
    ax.append(z3.ForAll([_h, _w, I, J], at(t, I, J) == z3.If(I == J, z3.RealVal(1), z3.RealVal(0)),
                        patterns=[at(t, I, J)]))
    t = mdiag(_A)
    ax.append(z3.ForAll([_A], z3.And(rows(t) == z3.If(rows(_A) <= cols(_A), rows(_A), cols(_A)), cols(t) == 1),
                        patterns=[t]))
    ax.append(z3.ForAll([_A, I, J], at(t, I, J) == at(_A, I, I), patterns=[at(t, I, J)]))
    t = mdiagm(_A)
    ax.append(z3.ForAll([_A], z3.And(rows(t) == rows(_A), cols(t) == rows(_A)), patterns=[t]))
    ax.append(z3.ForAll([_A, I, J], at(t, I, J) == z3.If(I == J, at(_A, I, 0), z3.RealVal(0)), patterns=[at(t, I, J)]))
    t = mdiagset(_A, _B)
    ax.append(z3.ForAll([_A, _B], z3.And(rows(t) == rows(_A), cols(t) == cols(_A)), patterns=[t]))
    ax.append(z3.ForAll([_A, _B, I, J], at(t, I, J) == z3.If(I == J, at(_B, I, 0), at(_A, I, J)),
                        patterns=[at(t, I, J)]))
    intri = lambda k: z3.If(k == 1, I >= J, I <= J)
    t = mtri(_A, K)
    ax.append(z3.ForAll([_A, K], z3.And(rows(t) == rows(_A), cols(t) == cols(_A)), patterns=[t]))
    ax.append(z3.ForAll([_A, K, I, J], at(t, I, J) == z3.If(intri(K), at(_A, I, J), z3.RealVal(0)), patterns=[at(t, I, J)]))
    t = mtriset(_A, _B, K)
    ax.append(z3.ForAll([_A, _B, K], z3.And(rows(t) == rows(_A), cols(t) == cols(_A)), patterns=[t]))
    ax.append(z3.ForAll([_A, _B, K, I, J], at(t, I, J) == z3.If(intri(K), at(_B, I, J), at(_A, I, J)), patterns=[at(t, I, J)]))
    t = mgcols(_A, _fb, _w)
    ax.append(z3.ForAll([_A, _fb, _w], z3.And(rows(t) == rows(_A), z3.Implies(_w >= 0, cols(t) == _w)), patterns=[t]))
    ax.append(z3.ForAll([_A, _fb, _w, I, J], at(t, I, J) == at(_A, I, z3.Select(_fb, J)), patterns=[at(t, I, J)]))
    t = mmul(mtr(mgcols(_A, _fa, _h)), mgcols(_B, _fb, _w))
    ax.append(z3.ForAll([_A, _B, _fa, _fb, _h, _w, I, J], at(t, I, J) == at(mmul(mtr(_A), _B), z3.Select(_fa, I), z3.Select(_fb, J)),
                        patterns=[at(t, I, J)]))
    r1, r2 = z3.Ints("r1 r2")
    t = mrepl(_A, r1, r2)
    ax.append(z3.ForAll([_A, r1, r2], z3.Implies(z3.And(r1 >= 0, r2 >= 0), z3.And(rows(t) == rows(_A) * r1, cols(t) == cols(_A) * r2)), patterns=[t]))
    t = mgather(_A, _fa, _h, _fb, _w)
    ax.append(z3.ForAll([_A, _fa, _h, _fb, _w], shape(t, _h, _w), patterns=[t]))
    ax.append(z3.ForAll([_A, _fa, _h, _fb, _w, I, J],
                        at(t, I, J) == at(_A, z3.Select(_fa, I), z3.Select(_fb, J)), patterns=[at(t, I, J)]))
    return ax


MAT_AXIOMS = _mk()

# ----------------------------------------------------------------- transcendental functions
fn_exp = F("f_exp", REAL, REAL)
fn_log = F("f_log", REAL, REAL)
fn_sqrt = F("f_sqrt", REAL, REAL)
fn_rint = F("f_rint", REAL, INT)     # nearest integer
fn_pow = F("f_pow", REAL, REAL, REAL)
_cw = {}
CW_AXIOMS = {}


def cwise(n):
    """coefficient-wise function of a matrix"""
    if n not in _cw:
        f = F("mc_" + n, MAT, MAT)
        t = f(_A)
        x = at(_A, I, J)
        e = {"log": lambda: fn_log(x), "exp": lambda: fn_exp(x), "sqrt": lambda: fn_sqrt(x), "abs": lambda: z3.If(x >= 0, x, -x)}[n]()
        CW_AXIOMS["mc_" + n] = [z3.ForAll([_A], z3.And(rows(t) == rows(_A), cols(t) == cols(_A)), patterns=[t]),
                                z3.ForAll([_A, I, J], at(t, I, J) == e, patterns=[at(t, I, J)])]
        _cw[n] = f
    return _cw[n]


ufs = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in ufs:
        ufs[k] = z3.Function(name, *sorts)
    return ufs[k]


_u, _v = z3.Reals("tu tv")
TRANS_AXIOMS = [
    z3.ForAll([_u], fn_exp(_u) > 0, patterns=[fn_exp(_u)]),
    z3.ForAll([_u], z3.And(z3.Implies(_u <= 0, fn_exp(_u) <= 1), z3.Implies(_u >= 0, fn_exp(_u) >= 1),
                           z3.Implies(_u < 0, fn_exp(_u) < 1), z3.Implies(_u > 0, fn_exp(_u) > 1)),
              patterns=[fn_exp(_u)]),
    z3.ForAll([_u], z3.Implies(_u >= 0, z3.And(fn_sqrt(_u) >= 0, fn_sqrt(_u) * fn_sqrt(_u) == _u)),
              patterns=[fn_sqrt(_u)]),
    z3.ForAll([_u], fn_log(fn_exp(_u)) == _u, patterns=[fn_exp(_u)]),
    z3.ForAll([_u], z3.Implies(_u > 0, fn_exp(fn_log(_u)) == _u), patterns=[fn_log(_u)]),
    z3.ForAll([_u, _v], z3.Implies(_u < _v, fn_exp(_u) < fn_exp(_v)),
              patterns=[z3.MultiPattern(fn_exp(_u), fn_exp(_v))]),
]


# an integer within a half; the choice at the half-way points is left open
CW_AXIOMS["f_rint"] = [z3.ForAll([_u], z3.And(2 * z3.ToReal(fn_rint(_u)) - 2 * _u <= 1, 2 * _u - 2 * z3.ToReal(fn_rint(_u)) <= 1), patterns=[fn_rint(_u)])]

_nm = {}


def symnames(e):
    """names of the function symbols of a formula (cached)"""
    k = e.get_id()
    if k in _nm:
        return _nm[k][1]
    names, seen, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            names.add(x.decl().name())
            stack.extend(x.children())
    if len(_nm) > 30000:
        _nm.clear()
    _nm[k] = (e, names)
    return names


def axioms_for(exprs):
    """background axioms relevant to the symbols occurring in exprs"""
    names = set()
    for e in exprs:
        names |= symnames(e)
    ax = []
    for key, (nth, idx, size, a) in _ordfn.items():
        if nth.name() in names or idx.name() in names or size.name() in names:
            ax += a
    if "at" in names or "rows" in names or "cols" in names:
        ax += [a for a in MAT_AXIOMS]
    for n in CW_AXIOMS:
        if n in names:
            ax += CW_AXIOMS[n]
    if names & {"f_exp", "f_log", "f_sqrt"}:
        ax += [a for a in TRANS_AXIOMS if _mentions(a, names)]
    return ax


_mn = {}


def _mentions(a, names):
    k = a.get_id()
    if k not in _mn:
        s = set()
        st = [a.body()]
        while st:
            e = st.pop()
            if z3.is_app(e):
                s.add(e.decl().name())
                st.extend(e.children())
        _mn[k] = s & {"f_exp", "f_log", "f_sqrt"}
    return _mn[k] <= names


def skolem(goal):
    """strip top-level foralls / implications / conjunctions of the goal: list of (hyps, goal)"""
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.Const(fresh_name("sk_" + goal.var_name(i)), goal.var_sort(i)) for i in range(goal.num_vars())]
        body = z3.substitute_vars(goal.body(), *reversed(vs))
        return skolem(body)
    if z3.is_app(goal):
        k = goal.decl().kind()
        if k == z3.Z3_OP_IMPLIES:
            return [([goal.arg(0)] + h, g) for h, g in skolem(goal.arg(1))]
        if k == z3.Z3_OP_AND:
            out = []
            for c in goal.children():
                out += skolem(c)
            return out
        if k == z3.Z3_OP_TRUE:
            return []
    return [([], goal)]


def check_one(hyps, goal, timeout=10000, seed=0, mbqi=False, want_model=False):
    s = z3.SimpleSolver()
    # the deciding limit is the solver's own step count (the same on a loaded machine); wall time is a backstop
    s.set("rlimit", int(timeout) * 2000)
    s.set("timeout", int(timeout) * 4)
    s.set("random_seed", seed)
    s.set("smt.mbqi", mbqi)
    s.set("auto_config", False)
    ax = axioms_for(list(hyps) + [goal])
    cr = s.ctx.ref()
    for e in ax:
        z3.Z3_solver_assert(cr, s.solver, e.as_ast())
    for e in hyps:
        z3.Z3_solver_assert(cr, s.solver, e.as_ast())
    s.add(z3.Not(goal))
    t = time.time()
    r = s.check()
    dt = time.time() - t
    stats["queries"] += 1
    stats["time"] += dt
    return str(r), s, dt


def _has_quant(es):
    seen = set()
    st = list(es)
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            return True
        st.extend(e.children())
    return False


_syms = {}


def symbols(e):
    k = e.get_id()
    if k in _syms:
        return _syms[k][1]
    out, seen, st = set(), set(), [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().get_id())
            st.extend(x.children())
    if len(_syms) > 20000:
        _syms.clear()
    _syms[k] = (e, out)
    return out


def relevant(hyps, goal, depth=3):
    """hypotheses connected to the goal through their rarest symbols (a subset: sound for proving)"""
    ss = [symbols(h) for h in hyps]
    occ = {}
    for x in ss:
        for y in x:
            occ[y] = occ.get(y, 0) + 1
    trig = [({y for y in x if occ[y] <= 1.3 * min(occ[z] for z in x)} if x else set()) for x in ss]
    want = set(symbols(goal))
    keep = [not x for x in ss]
    for _ in range(depth):
        new = [i for i in range(len(hyps)) if not keep[i] and trig[i] & want]
        if not new:
            break
        for i in new:
            keep[i] = True
            want |= ss[i]
    return [h for h, k in zip(hyps, keep) if k]


def prove(hyps, goal, timeout=10000, full=True):
    """returns (status, detail, model) with status in proved / failed / unknown"""
    goal = z3.simplify(goal) if z3.is_true(z3.simplify(goal)) else goal
    if z3.is_true(goal):
        return "proved", "trivial", None
    for h2, g in skolem(goal):
        hy = list(hyps) + h2
        if len(hy) > 25:
            sel = relevant(hy, g)
            if len(sel) < len(hy) * 0.8 and check_one(sel, g, min(timeout, 600))[0] == "unsat":
                stats["by"]["z3"] = stats["by"].get("z3", 0) + 1
                continue
        r, s, dt = check_one(hy, g, timeout)
        if r == "unsat":
            stats["by"]["z3"] = stats["by"].get("z3", 0) + 1
            continue
        if not full:
            if r == "unknown" and "incomplete" not in s.reason_unknown():
                return "unknown", "resources", None
            return "unknown", r, None
        saturated = False
        det = ""
        if r == "unknown":
            det = s.reason_unknown()
            saturated = "incomplete" in det
            short = min(timeout, 3000)
            for kw in (dict(seed=7, timeout=short if saturated else timeout),
                       dict(seed=3, mbqi=True, timeout=short if saturated else timeout)):
                r, s, dt = check_one(hy, g, **kw)
                if kw.get("mbqi") and r == "unsat":
                    r = "unknown"       # with model-based instantiation this z3 has answered unsat on satisfiable input: only its countermodels count
                if r != "unknown":
                    break
                saturated = saturated or "incomplete" in s.reason_unknown()
        if r == "unsat":
            stats["by"]["z3"] = stats["by"].get("z3", 0) + 1
            continue
        if r == "unknown" and nlsat_check(hy, g, min(timeout, 5000)):
            stats["by"]["z3-nlsat"] = stats["by"].get("z3-nlsat", 0) + 1
            continue
        if r == "unknown":
            c = cvc5_check(hy, g, min(timeout, 4000) if saturated else timeout)
            if c == "unsat":
                stats["by"]["cvc5"] = stats["by"].get("cvc5", 0) + 1
                continue
            if saturated or c == "sat":
                return "failed", "z3 saturated without a proof (%s); cvc5: %s" % (det, c), None
            return "unknown", "z3: %s; cvc5: %s" % (det, c), None
        return "failed", "countermodel", s.model()
    return "proved", "", None


class Batch:
    """many goals over the same hypotheses: one solver, goals pushed and popped"""

    def __init__(self, hyps, goals, timeout):
        self.hyps, self.timeout = list(hyps), timeout
        self.s = z3.SimpleSolver()
        self.s.set("auto_config", False)
        self.s.set("smt.mbqi", False)
        for e in axioms_for(self.hyps + list(goals)):
            self.s.add(e)
        for e in self.hyps:
            self.s.add(e)

    def prove(self, goal):
        g0 = z3.simplify(goal)
        if z3.is_true(g0):
            return "proved", "trivial", None
        for h2, g in skolem(goal):
            self.s.push()
            for h in h2:
                self.s.add(h)
            self.s.add(z3.Not(g))
            self.s.set("rlimit", int(self.timeout) * 2000)
            self.s.set("timeout", int(self.timeout) * 4)
            t = time.time()
            r = str(self.s.check())
            stats["queries"] += 1
            stats["time"] += time.time() - t
            why = self.s.reason_unknown() if r == "unknown" else ""
            self.s.pop()
            if r == "unsat":
                stats["by"]["z3"] = stats["by"].get("z3", 0) + 1
                continue
            if r == "unknown" and "incomplete" not in why:
                q = prove(self.hyps + h2, g, timeout=self.timeout, full=False)
                if q[0] == "proved":
                    continue
                return q
            return "unknown", r, None
        return "proved", "", None


def nlsat_check(hyps, goal, timeout):
    """quantifier-free nonlinear attempt: every maximal non-arithmetic real term becomes a constant, with the
    transcendental axioms instantiated at the terms present (sound: only weakens the hypotheses)"""
    fs = [h for h in hyps if not _has_quant([h])] + [z3.Not(goal)]
    if _has_quant(fs):
        return False
    memo, apps, sub = {}, [], {}
    K = z3
    ok_k = {K.Z3_OP_ADD, K.Z3_OP_SUB, K.Z3_OP_MUL, K.Z3_OP_UMINUS, K.Z3_OP_DIV, K.Z3_OP_LE, K.Z3_OP_LT, K.Z3_OP_GE, K.Z3_OP_GT,
            K.Z3_OP_EQ, K.Z3_OP_AND, K.Z3_OP_OR, K.Z3_OP_NOT, K.Z3_OP_IMPLIES, K.Z3_OP_ITE, K.Z3_OP_TRUE, K.Z3_OP_FALSE,
            K.Z3_OP_ANUM, K.Z3_OP_DISTINCT, K.Z3_OP_XOR, K.Z3_OP_IFF, K.Z3_OP_POWER}

    def walk(e):
        i = e.get_id()
        if i in memo:
            return memo[i][1]
        k = e.decl().kind()
        if k in ok_k and (z3.is_bool(e) or z3.is_real(e)) and all(z3.is_bool(c) or z3.is_real(c) for c in e.children()):
            ch = [walk(c) for c in e.children()]
            r = e.decl()(*ch) if ch and k not in (K.Z3_OP_AND, K.Z3_OP_OR, K.Z3_OP_ADD, K.Z3_OP_MUL, K.Z3_OP_SUB) else e
            if ch and k in (K.Z3_OP_AND, K.Z3_OP_OR, K.Z3_OP_ADD, K.Z3_OP_MUL, K.Z3_OP_SUB):
                import functools
                import operator
                if k == K.Z3_OP_AND:
                    r = z3.And(ch)
                elif k == K.Z3_OP_OR:
                    r = z3.Or(ch)
                else:
                    r = functools.reduce({K.Z3_OP_ADD: operator.add, K.Z3_OP_MUL: operator.mul, K.Z3_OP_SUB: operator.sub}[k], ch)
        elif z3.is_bool(e) or z3.is_real(e):
            r = z3.Const("nl!%d" % i, e.sort())
            if e.decl().name() in ("f_exp", "f_log", "f_sqrt"):
                apps.append((e.decl().name(), walk(e.arg(0)), r, e.arg(0)))
        else:
            r = e
        memo[i] = (e, r)
        return r
    try:
        out = [walk(f) for f in fs]
        ex = [a for a in apps if a[0] == "f_exp"]
        for nm, a, r, _ in apps:
            if nm == "f_exp":
                out += [r > 0, z3.Implies(a <= 0, r <= 1), z3.Implies(a >= 0, r >= 1)]
            elif nm == "f_sqrt":
                out += [z3.Implies(a >= 0, z3.And(r >= 0, r * r == a))]
        for x in ex[:5]:
            for y in ex[:5]:
                if x is not y:
                    out.append(z3.Implies(x[1] <= y[1], x[2] <= y[2]))
        t = time.time()
        s = z3.TryFor(z3.Then(z3.Tactic("simplify"), z3.Tactic("purify-arith"), z3.Tactic("qfnra-nlsat")), timeout).solver()
        for o in out:
            s.add(o)
        r = s.check()
        stats["time"] += time.time() - t
        stats["queries"] += 1
        return r == z3.unsat
    except z3.Z3Exception:
        return False


def cvc5_check(hyps, goal, timeout):
    try:
        import cvc5
        s = z3.Solver()
        for a in axioms_for(list(hyps) + [goal]):
            s.add(a)
        for h in hyps:
            s.add(h)
        s.add(z3.Not(goal))
        txt = s.to_smt2()
        import subprocess
        import tempfile
        import os
        f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
        f.write("(set-logic ALL)\n" + txt)
        f.close()
        t = time.time()
        try:
            r = subprocess.run(["cvc5", "--tlimit=%d" % timeout, f.name], capture_output=True, text=True,
                               timeout=timeout / 1000 + 5)
            out = r.stdout.strip().split("\n")[0] if r.stdout else "error"
        except subprocess.TimeoutExpired:
            out = "timeout"
        os.unlink(f.name)
        stats["time"] += time.time() - t
        stats["queries"] += 1
        return out
    except Exception as e:  # pragma: no cover
        return "error %s" % e


class Feas:
    """incremental quantifier-free feasibility checker for path conditions"""

    def __init__(self):
        self.reset()
        self.cache = {}

    def reset(self):
        self.s = z3.Solver()
        self.s.set("timeout", 300)
        self.s.set("smt.mbqi", False)
        self.lits = {}
        self.keep = []

    def lit(self, f):
        k = f.get_id()
        if k not in self.lits:
            if _has_quant([f]):
                self.lits[k] = None
            else:
                b = z3.Bool("L%d" % k)
                self.s.add(z3.Implies(b, f))
                self.lits[k] = b
            self.keep.append(f)
        return self.lits[k]

    def feasible(self, facts, cond=None):
        if len(self.lits) > 3000:
            self.reset()
        ls = [self.lit(f) for f in facts]
        ls = [l for l in ls if l is not None]
        if cond is not None:
            if z3.is_true(cond):
                pass
            elif z3.is_false(cond):
                return False
            else:
                l = self.lit(cond)
                if l is not None:
                    ls.append(l)
        t = time.time()
        r = self.s.check(*ls)
        stats["ftime"] = stats.get("ftime", 0) + time.time() - t
        stats["fq"] = stats.get("fq", 0) + 1
        return r != z3.unsat
