"""Check runner: proves the specifications of one property on code compiled from /repo, replays on failure."""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "specs")]

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = max(2, min(8, os.cpu_count() or 2))


def spec_worker(s, workdir, conn, budget, timeout):
    import z3
    import smt
    import vc
    import trees
    t0 = time.time()
    out = {"name": s.name, "fn": s.fn, "module": s.module, "status": "undecided", "reason": "", "obls": [],
           "contracts": [], "inlined": [], "externals": [], "cut": [], "time": 0}
    try:
        m, L = vc.load_module(s.module, workdir)
        if s.fn is None:
            v = vc.Lemmas(s.name)
        else:
            v = vc.VC(m, L, "vph::" + s.fn, opts=dict(s.opts), time_s=budget)
            v.name = s.name
        s.body(v)
        ex = v.ex
        vc.discharge(ex.obls, timeout=timeout, budget=budget)
        out["obls"] = [(o.name, o.status, o.detail, o.where[:300], o.kind) for o in ex.obls]
        if hasattr(ex, "used_contracts"):
            out["contracts"] = sorted(ex.used_contracts)
            out["inlined"] = sorted({m.dem.get(n, n) for n in ex.inlined})
            out["externals"] = sorted(ex.externals)
            out["assumed"] = sorted(ex.trusted)
            out["cut"] = [(w, inv, nb) for w, inv, nb in ex.cut]
        posts = [o for o in ex.obls if o.kind == "post"]
        bad = [o for o in ex.obls if o.status != "proved"]
        out["cex"] = None
        for o in bad:
            if o.model is not None:
                out["cex"] = (o.name, str(o.model)[:4000])
                break
        if not posts and not s.opts.get("no_post") and not ex.throws:
            out["status"], out["reason"] = "undecided", "no postcondition obligation generated"
        elif not bad and posts and vacuous(posts, s.fn is None):
            out["status"], out["reason"] = "undecided", "the hypotheses of the obligations contradict each other"
        elif not bad:
            out["status"] = "proved"
        else:
            definite = [o for o in bad if o.status == "failed"]
            # an obligation that lacks an invariant the solver had no time for says nothing about the code
            starved = getattr(ex, "starved", 0)
            out["status"] = "failed" if definite and not starved else "undecided"
            out["reason"] = ("%d candidate invariants not decided within the solver limit; " % starved if starved else "") + "; ".join("%s [%s %s]" % (o.name, o.status, o.detail) for o in (definite or bad)[:6])
            out["loopy"] = bool(out["cut"])
    except trees.Unsupported as e:
        out["reason"] = "outside the verifier's subset: %s" % e
    except vc.BuildError as e:
        out["reason"] = "harness does not compile: %s" % e
    except MemoryError:
        out["reason"] = "out of memory"
    except Exception as e:
        out["reason"] = "verifier error %s: %s" % (type(e).__name__, str(e)[:300])
        out["trace"] = traceback.format_exc()[-2500:]
    out["time"] = time.time() - t0
    out["smt"] = {"queries": smt.stats["queries"], "time": smt.stats["time"], "by": smt.stats["by"],
                  "feas": smt.stats.get("fq", 0)}
    conn.send(out)
    conn.close()


def vacuous(posts, lemmas):
    """guard against a proof from contradictory assumptions: some path (every lemma) has hypotheses the solver cannot refute"""
    import z3
    import smt
    seen = set()
    for o in posts:
        k = tuple(h.get_id() for h in o.hyps)
        if k in seen:
            continue
        seen.add(k)
        no = z3.BoolVal(False)
        dead = smt.check_one(list(o.hyps), no, 400)[0] == "unsat"
        if dead == lemmas:
            return lemmas
    return not lemmas


def run_specs(specs, workdir, budget, timeout):
    todo = list(enumerate(specs))
    running = []
    res = [None] * len(specs)
    while todo or running:
        while todo and len(running) < NPROC:
            i, s = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=spec_worker, args=(s, workdir, b, budget, timeout))
            p.start()
            b.close()
            running.append((i, s, p, a, time.time()))
        nr = []
        for (i, s, p, a, t) in running:
            if a.poll(0):
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = {"name": s.name, "fn": s.fn, "status": "undecided", "reason": "verifier process died",
                              "obls": [], "time": time.time() - t}
                p.join()
            elif not p.is_alive():
                if not a.poll(0.2):
                    res[i] = {"name": s.name, "fn": s.fn, "status": "undecided", "reason": "verifier process died",
                              "obls": [], "time": time.time() - t}
                else:
                    nr.append((i, s, p, a, t))
            elif time.time() - t > budget * 1.5 + 10:
                p.kill()
                p.join()
                res[i] = {"name": s.name, "fn": s.fn, "status": "undecided", "reason": "time budget exhausted",
                          "obls": [], "time": time.time() - t}
            else:
                nr.append((i, s, p, a, t))
        running = nr
        time.sleep(0.02)
    return res


# ----------------------------------------------------------------------------- replay (bounded) harness
REPO = os.environ.get("VP_REPO", "/repo")
CXX = ["clang++-18", "-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-I" + VERIF + "/stubs",
       "-I" + REPO + "/include", "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/suitesparse",
       "-I" + VERIF + "/replay"]


class Replay:
    def __init__(self, prop, workdir):
        self.prop, self.workdir = prop, workdir
        self.src = os.path.join(VERIF, "replay", prop + ".cc")
        self.exists = os.path.exists(self.src)
        self.bin = os.path.join(workdir, "replay_" + prop)
        self.err = None
        self.th = None

    def start(self):
        if self.exists:
            self.th = threading.Thread(target=self.build)
            self.th.start()

    def build(self):
        flags = []
        for l in open(self.src):
            if l.startswith("// LIBS:"):
                flags += l[8:].split()
        r = subprocess.run(CXX + [self.src, "-o", self.bin] + flags, capture_output=True, text=True)
        if r.returncode != 0:
            self.err = r.stderr[-3000:]

    def run(self, seconds, seed, extra=()):
        """-> (status, cases, output): status in ok / violation / unavailable"""
        if not self.exists:
            return "unavailable", {}, "no replay harness"
        self.th.join()
        if self.err is not None:
            return "unavailable", {}, "replay harness does not compile against this tree:\n" + self.err
        sc = os.path.join(self.workdir, "scratch")
        os.makedirs(sc, exist_ok=True)
        out = os.path.join(self.workdir, "replay.out")
        with open(out, "w") as f:
            try:
                r = subprocess.run([self.bin, str(seed), str(seconds)] + list(extra), stdout=f, stderr=subprocess.DEVNULL,
                                   timeout=seconds * 4 + 60, cwd=sc)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = None
        txt = open(out, errors="replace").read()
        st = {}
        fails = []
        for l in txt.split("\n"):
            if l.startswith("STAT "):
                k, n = l[5:].rsplit(" ", 1)
                st[k] = int(n)
            elif l.startswith("FAIL "):
                fails.append(l)
        if fails:
            return "violation", st, "\n".join(fails[:200])
        if rc == 0:
            return "ok", st, txt[-2000:]
        if rc is None:
            return "unavailable", st, "replay exceeded its time limit"
        return "violation", st, "FAIL harness :: abnormal termination rc=%s\n%s" % (rc, txt[-2000:])


def load_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p)).get("findings", [])
    return []


def main(prop):
    t0 = time.time()
    thorough = TIER == "thorough"
    workdir = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    rc = 1
    try:
        rc = run(prop, workdir, thorough, t0)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    sys.stdout.flush()
    return rc


def run(prop, workdir, thorough, t0):
    import speclib
    rp = Replay(prop, workdir)
    rp.start()
    reasons = []
    specs = []
    try:
        importlib.import_module(prop.lower())
        specs = [s for s in speclib.SPECS if s.prop == prop]
    except ImportError as e:
        if e.name != prop.lower():
            raise
    import vc
    mods = sorted({s.module for s in specs if s.module})
    ths = []

    def ld(mn):
        try:
            vc.load_module(mn, workdir)
        except vc.BuildError as e:
            reasons.append("module %s: %s" % (mn, str(e)[-600:]))
    ths = [threading.Thread(target=ld, args=(m,)) for m in mods]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    ok_mods = set(vc._mods)
    run_list = [s for s in specs if s.module in ok_mods or s.module is None]
    missing = [s for s in specs if s not in run_list]
    budget = 240 if thorough else 100
    import gc
    gc.freeze()
    res = run_specs(run_list, workdir, budget, 20000 if thorough else 10000)
    for s in missing:
        res.append({"name": s.name, "fn": s.fn, "status": "undecided", "reason": "harness module does not compile", "obls": [],
                    "time": 0})
    failed = [r for r in res if r["status"] == "failed"]
    undec = [r for r in res if r["status"] == "undecided"]
    # bounded replay: confirms the assumed dependency contracts at run time, looks for failing inputs
    secs = 60 if thorough else 12
    if failed or undec:
        secs = max(secs, 90 if thorough else 45)
    rst, stats, rout = rp.run(secs, SEED)
    known = [f for f in load_findings() if f.get("property") == prop and f.get("status") == "open"]
    viol = None
    kf_lines = []
    if rst == "violation":
        lines = [l for l in rout.split("\n") if l.startswith("FAIL ")]
        rest = []
        for l in lines:
            hit = [f for f in known if f["match"] in l]
            if hit:
                kf_lines.append(hit[0])
            else:
                rest.append(l)
        if rest:
            viol = ("concrete", rest)
    if viol is None and failed:
        def is_known(r):
            return any(f.get("obligation") and f["obligation"] in r["reason"] for f in known)
        hard = [r for r in failed if not is_known(r)]
        for r in failed:
            if is_known(r):
                for f in known:
                    if f.get("obligation") and f["obligation"] in r["reason"]:
                        kf_lines.append(f)
        if hard:
            viol = ("proof", hard)
    for f in known:
        if f.get("always"):
            kf_lines.append(f)
    seen = set()
    for f in kf_lines:
        if f["id"] not in seen:
            seen.add(f["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    write_evidence(prop, thorough, res, rst, stats, rout, t0, viol, reasons, rp)
    for r in res:
        mark = {"proved": "proved", "failed": "FAILED", "undecided": "undecided"}[r["status"]]
        print("  [%s] %s (%d obligations, %.1fs) %s" % (mark, r["name"], len(r["obls"]), r["time"], r["reason"][:400]))
        if r.get("trace") and os.environ.get("VP_DEBUG"):
            print(r["trace"])
    print("  replay: %s %s" % (rst, json.dumps(stats)))
    if rst == "unavailable" and rp.exists:
        print(rout[:1500])
    if viol is None:
        print("OK property=%s: %d specs, %d proved, %d undecided" % (prop, len(res), sum(r["status"] == "proved" for r in res),
                                                                  len(undec)))
        return 0
    path = os.path.join(evdir, "replay_%s.txt" % prop)
    with open(path, "w") as f:
        f.write("property %s, seed %d\n" % (prop, SEED))
        for r in failed + undec:
            f.write("obligation(s) not discharged in %s (harness function vph::%s): %s\n" % (r["name"], r["fn"], r["reason"]))
            for o in r["obls"]:
                if o[1] != "proved":
                    f.write("   %s\n      status %s (%s)\n      in %s\n" % (o[0], o[1], o[2], o[3]))
            if r.get("cex"):
                f.write("   verifier countermodel for %s:\n%s\n" % r["cex"])
        if viol[0] == "concrete":
            f.write("concrete failing inputs, run against the code compiled from %s:\n" % REPO)
            for l in viol[1]:
                f.write(l + "\n")
            f.write("reproduce: %s %s -o /tmp/r && /tmp/r %d %d\n" % (" ".join(CXX), rp.src, SEED, secs))
        else:
            f.write("no concrete failing input found within %d s of search (replay: %s)\n" % (secs, rst))
    if viol[0] == "concrete":
        for l in viol[1][:10]:
            print("  " + l[:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    else:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
    return 1


def write_evidence(prop, thorough, res, rst, stats, rout, t0, viol, reasons, rp):
    obls = [o for r in res for o in r["obls"]]
    disch = sum(1 for o in obls if o[1] == "proved")
    contracts = sorted({c for r in res for c in r.get("contracts", [])})
    inl = sorted({f for r in res for f in r.get("inlined", []) if "albatross::" in f.split("(")[0]})
    by = {}
    for r in res:
        for k, n in r.get("smt", {}).get("by", {}).items():
            by[k] = by.get(k, 0) + n
    undec = [r for r in res if r["status"] != "proved"]
    import spec_meta
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": SEED,
        "level": "proof" if (res and not undec) else "other",
        "coverage": {
            "obligations": len(obls), "discharged": disch,
            "checker_cmd": "python3-vt /verif/check.py %s" % prop,
            "trusted_base": spec_meta.TRUSTED + ["assumed dependency contract: " + c for c in contracts],
            "specifications": [{"name": r["name"], "status": r["status"], "obligations": len(r["obls"]),
                                "seconds": round(r["time"], 2), "reason": r["reason"][:300]} for r in res],
            "repo_functions_verified": [f[:200] for f in inl],
            "repo_functions_count": len(inl),
            "loops_cut_with_inferred_invariants": sum(len(r.get("cut", [])) for r in res),
            "uninterpreted_callbacks": sorted({e for r in res for e in r.get("externals", [])}),
            "solver_seconds": round(sum(r.get("smt", {}).get("time", 0) for r in res), 2),
            "solver_queries": sum(r.get("smt", {}).get("queries", 0) for r in res),
            "back_ends": by,
            "bounded_replay": {"status": rst, "label": "bounded: randomised/small-exhaustive executions, never counted as proved",
                               "cases": stats},
        },
        "assumptions": spec_meta.ASSUMPTIONS + spec_meta.NOTES.get(prop, []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
    }
    if ev["level"] == "other":
        ev["coverage"]["explanation"] = ("%d of %d specifications fully discharged; the others are undecided on this tree and covered "
                                         "only by the bounded replay: %s" % (len(res) - len(undec), len(res),
                                                                           "; ".join(r["name"] + ": " + r["reason"][:120] for r in undec)))
    if reasons:
        ev["coverage"]["extraction_problems"] = reasons
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
