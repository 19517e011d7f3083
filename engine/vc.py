"""Specification runner: applies a contract to a harness function compiled from /repo's headers."""
import os
import subprocess
import time
import hashlib
import traceback
import z3
import ir
import cxx
import smt
from trees import *
import exec as X
from exec import Engine, State, Obligation, CONTRACTS, in_range, MAXLEN
import contracts_std as S
import contracts_variant
import contracts_async
try:
    import contracts_eigen as CE
    import contracts_ldlt
    import contracts_functor
    import ring as RG
except ImportError:
    CE = None

REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = "clang++-18"
INC = ["-I" + VERIF + "/stubs", "-I" + REPO + "/include", "-I/usr/include/eigen3", "-I/usr/include/suitesparse",
       "-I" + VERIF + "/harness"]
IRFLAGS = ["-std=c++17", "-O0", "-ffp-contract=off", "-DEIGEN_NO_DEBUG", "-fno-exceptions" if False else "-w", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]


class BuildError(Exception):
    pass


_mods = {}


def load_module(name, workdir):
    if name in _mods:
        return _mods[name]
    src = "%s/harness/%s.cc" % (VERIF, name)
    ll = "%s/%s.ll" % (workdir, name)
    r = subprocess.run([CLANG] + IRFLAGS + INC + ["-Xclang", "-fdump-record-layouts", "-S", "-emit-llvm", src, "-o", ll],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    lay, err = r.stdout, r.stderr
    if r.returncode != 0:
        raise BuildError(err[-3000:])
    m = ir.Module(ll)
    L = cxx.Layouts(lay)
    os.unlink(ll)
    _mods[name] = (m, L)
    return m, L


class Path:
    def __init__(self, vc, st, ret):
        self.vc, self.st, self.ret = vc, st, ret
        if isinstance(ret, Leaf):
            self.ret = ret.e

    def out(self, i):
        """object behind argument i after the call"""
        p = self.vc.argv[i]
        return self.vc.objnode(self.st, p, self.vc.argt[i])

    def at(self, p):
        return self.vc.ex.node_at(self.st, p)

    def ensure(self, name, goal):
        self.vc.ex.obls.append(Obligation(self.vc.name + ":" + name, list(self.st.facts), goal, self.vc.fn, "post"))

    def assume(self, f):
        self.st.assume(f)

    def algebra(self, name, ring, goal):
        """obligation with the matrix algebra laws at the products that occur in it (ring.py)"""
        hyps = list(self.st.facts)
        self.vc.ex.obls.append(Obligation(self.vc.name + ":" + name, hyps + RG.instances(ring, hyps + [goal]), goal, self.vc.fn, "post"))


class VC:
    def __init__(self, mod, lay, fn, opts=None, contracts=None, time_s=120):
        self.mod, self.lay = mod, lay
        self.fn = fn
        self.name = fn.split("::")[-1]
        self.ex = Engine(mod, lay, opts or {})
        if opts and opts.get("contracts"):
            self.ex.contracts.update(opts["contracts"])
        if contracts:
            self.ex.contracts.update(contracts)
        self.ex.deadline = time.time() + time_s
        cands = [k for k in mod.fn_at if mod.dem[k].replace("[abi:cxx11]", "").startswith(fn + "(")]
        if len(cands) != 1:
            raise Unsupported("harness function %s: %d candidates" % (fn, len(cands)))
        self.ir = cands[0]
        _, _, self.params = cxx.parse_fn(mod.dem[self.ir])
        self.st = State()
        self.argv, self.argt, self.pre, self.isref = [], [], [], []
        self.consts = []
        self.sret = None
        f = mod.func(self.ir)
        if f.params and "sret" in f.params[0][2]:
            self.sret = Ptr(self.ex.new_obj(self.st, "sret"))
        for i, ps in enumerate(self.params):
            ref = ps.rstrip().endswith(("&", "*"))
            const = " const" in ps.rstrip("&* ")[-6:] or ps.rstrip("&* ").endswith("const")
            ct = cxx.parse_type(ps)
            if ct.k == "ptr":
                ct = ct.tgt
            self.argt.append(ct)
            self.isref.append(ref)
            n = self.ex.fresh(self.st, ct, "a%d" % i)
            self.pre.append(n)
            if ref:
                o = self.ex.new_obj(self.st, "arg%d_" % i)
                self.ex.objty[o] = ct
                if isinstance(n, Struct):
                    for off, x in n.d.items():
                        self.st.put(o, off, x)
                else:
                    self.st.put(o, 0, n)
                self.argv.append(Ptr(o))
                self.consts.append(const)
            else:
                self.argv.append(n)
                self.consts.append(False)
        self.ex.opts["roots"] = [p.obj for p, r in zip(self.argv, self.isref) if r]
        self.paths_run = 0
        self.vacuous = 0

    def a(self, i):
        n = self.pre[i]
        if isinstance(n, Leaf):
            return n.e if n.kind not in () else n
        return n

    def objnode(self, st, p, ct):
        if not isinstance(p, Ptr):
            return p
        cells = st.mem[p.obj]
        if set(cells) == {0}:
            return cells[0]
        return Struct({k: v for k, v in cells.items() if isinstance(k, int)}, ct)

    def requires(self, f):
        self.st.assume(f)

    def template(self, fn):
        self.ex.templates.append(fn)
        return fn

    def run(self):
        ex = self.ex
        args = []
        for n, r in zip(self.argv, self.isref):
            if r:
                args.append(n)
            elif isinstance(n, Leaf):
                args.append(n.e)
            elif isinstance(n, Struct):
                args.append(X.Agg(n.d))
            else:
                args.append(n)
        if self.sret is not None:
            args = [self.sret] + args
        pre_cells = {p.obj: dict(self.st.mem[p.obj]) for p, r in zip(self.argv, self.isref) if r}
        self.st0 = self.st.fork()
        r, _, _ = smt.check_one(self.st.facts, z3.BoolVal(False), timeout=3000)
        if r == "unsat":
            raise Unsupported("vacuous precondition")
        outs = ex.run_fn(self.st, self.ir, args)
        res = []
        for st, ret in outs:
            if not ex.feas.feasible(st.facts):
                continue
            if smt.check_one(st.facts, z3.BoolVal(False), timeout=2000)[0] == "unsat":
                self.vacuous += 1
                continue        # contradictory path: unreachable
            if self.sret is not None:
                ret = self.objnode(st, self.sret, None)
            p = Path(self, st, ret)
            res.append(p)
            # frame: const reference arguments are unchanged
            for i, (pp, c) in enumerate(zip(self.argv, self.consts)):
                if c:
                    for off, v0 in pre_cells[pp.obj].items():
                        v1 = st.mem[pp.obj].get(off)
                        if not same(v0, v1):
                            p.ensure("frame:argument%d unchanged" % i, S.node_eq(v0, v1))
        self.paths_run = len(res)
        if not res and not ex.throws:
            raise Unsupported("no feasible path")
        return res


class Lemmas:
    """a spec with no code: lemmas over the background theory (named obligations)"""

    class _Ex:
        def __init__(self):
            self.obls, self.cut, self.throws, self.inlined = [], [], [], set()

    def __init__(self, name):
        self.name, self.ex = name, Lemmas._Ex()

    def ensure(self, name, hyps, goal):
        self.ex.obls.append(Obligation(self.name + ":" + name, list(hyps), goal, "lemma", "post"))


def discharge(obls, timeout=15000, budget=None):
    t0 = time.time()
    for o in obls:
        if o.status is not None:
            continue
        if budget and time.time() - t0 > budget:
            o.status, o.detail = "unknown", "time budget"
            continue
        st, det, model = smt.prove(o.hyps, o.goal, timeout=timeout)
        o.status, o.detail, o.model = st, det, model
