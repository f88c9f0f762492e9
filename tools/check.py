#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [quick|thorough].

1. regenerates the workspace from the sources of /repo and compiles it to LLVM IR,
2. runs the harness entries of the property in the symbolic executor (engine/vx.cpp, Z3),
3. replays every counterexample natively (an unoptimised build of the same sources) and only
   reports those that reproduce,
4. replays a few witnesses of passing paths natively, as a check of the executor itself,
5. writes evidence/<PROPERTY>.json.

Exit 0: held; 1: VIOLATION line; 2: no answer."""
import concurrent.futures, hashlib, json, os, re, resource, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
from props import PROPS

VERIF = gen.VERIF
BUILD = os.environ.get("VX_BUILD", os.path.join(VERIF, ".build"))
OUT = os.environ.get("VX_OUT", VERIF)
TRIPLE = "x86_64-unknown-linux-gnu"
ENV = {**os.environ, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"}
for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER"): ENV.pop(k, None)


def log(*a): print(*a, file=sys.stderr, flush=True)


class NoAnswer(Exception): pass


def run(cmd, timeout, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env or ENV, cwd=cwd, text=True, errors="replace")
    except subprocess.TimeoutExpired: raise NoAnswer(f"timeout: {cmd[0]} {cmd[1] if len(cmd) > 1 else ''}")
    return p.returncode, p.stdout


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.cfg = prop, tier, PROPS[prop]
        self.h = "h_" + prop.lower().replace("-", "_")
        self.ws = os.path.join(BUILD, "ws")
        self.ll = os.path.join(BUILD, self.h + ".ll")
        os.makedirs(BUILD, exist_ok=True)

    def generate(self):
        acc = os.path.join(VERIF, "harness", "access.rs")
        self.entries = gen.generate(self.ws, self.cfg["harness"], open(acc).read(), self.cfg.get("features", ()), self.h, self.tier == "thorough")

    def engine(self):
        src = b"".join(open(os.path.join(VERIF, "engine", f), "rb").read() for f in sorted(os.listdir(os.path.join(VERIF, "engine"))))
        self.vx = os.path.join(BUILD, "vx-" + hashlib.sha256(src).hexdigest()[:12])
        if os.path.exists(self.vx): return
        tmp = self.vx + f".{os.getpid()}"
        rc, o = run(["g++", "-O2", "-std=c++17", "-w", "-o", tmp, os.path.join(VERIF, "engine", "vx.cpp"), "-lz3"], 300)
        if rc: raise NoAnswer("engine does not build: " + o[-600:])
        os.rename(tmp, self.vx)

    def ir(self):
        t = os.path.join(BUILD, "ir")
        env = {**ENV, "RUSTFLAGS": "--cfg vx_sym -C no-vectorize-loops -C no-vectorize-slp -C target-cpu=x86-64 -A warnings", "CARGO_TARGET_DIR": t}
        deps = os.path.join(t, "release", "deps")
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if f.startswith(self.h + "-") and ".rcgu." in f: os.unlink(os.path.join(deps, f))
        # touch so that the saved bitcode is produced again
        os.utime(os.path.join(self.ws, self.h, "src", "main.rs"))
        rc, o = run(["cargo", "rustc", "--offline", "-q", "--release", "-p", self.h, "--", "-C", "save-temps", "-C", "linker=/bin/true"], 600, env, self.ws)
        if rc: raise NoAnswer("IR build failed:\n" + o[-3000:])
        bc = [f for f in os.listdir(deps) if f.startswith(self.h + "-") and f.endswith("cgu.0.rcgu.bc")]
        if len(bc) != 1: raise NoAnswer(f"bitcode not found: {bc}")
        sysroot = run(["rustc", "--print", "sysroot"], 60, ENV, self.ws)[1].strip().splitlines()[-1]
        opt = os.path.join(sysroot, "lib/rustlib", TRIPLE, "bin/opt")
        rc, o = run([opt, "--strip-debug", "-S", os.path.join(deps, bc[0]), "-o", self.ll], 120)
        if rc: raise NoAnswer("opt failed: " + o[-500:])
        for f in os.listdir(deps):
            if f.startswith(self.h + "-") and ".rcgu." in f: os.unlink(os.path.join(deps, f))

    def native_build(self):
        t = os.path.join(BUILD, "native")
        env = {**ENV, "RUSTFLAGS": "-A warnings -C debuginfo=0", "CARGO_TARGET_DIR": t}
        rc, o = run(["cargo", "build", "--offline", "-q", "-p", self.h], 600, env, self.ws)
        if rc: raise NoAnswer("native build failed:\n" + o[-3000:])
        self.bin = os.path.join(t, "debug", self.h)

    def native(self, entry, inputs, kind, vid):
        f = os.path.join(BUILD, f"inputs.{self.h}.{os.getpid()}")
        open(f, "w").write(" ".join(map(str, inputs)))
        try: p = subprocess.run([self.bin, entry], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, env={**ENV, "VX_INPUTS": f, "RUST_BACKTRACE": "0"}, text=True, errors="replace")
        except subprocess.TimeoutExpired: return (kind == "hang"), "native replay: still running after 60 s"
        finally: os.unlink(f)
        o = p.stdout[-1500:]
        if kind is None: ok = p.returncode == 0 and "VX-END" in p.stdout
        elif kind == "assert": ok = p.returncode == 42 and f"VX-FAILED {vid}\n" in p.stdout
        elif kind == "panic": ok = p.returncode in (101, 43, 134, -6)
        else: ok = p.returncode not in (0, 77)
        return ok, f"native replay: exit {p.returncode}\n{o}"

    def explore(self, entry, e):
        quick = self.tier != "thorough"
        d = {"timeout": 90 if quick else 1500, "jobs": 8, "steps": 200_000_000, **e.get("quick" if quick else "thorough", {})}
        out = os.path.join(BUILD, f"out.{self.h}.{entry}")
        cmd = [self.vx, "--ll", self.ll, "--entry", entry, "--out", out, "--jobs", str(d["jobs"]), "--timeout", str(d["timeout"]), "--max-steps", str(d["steps"]), "--split", str(d.get("split", 64))]
        if e.get("opaque"): cmd.append("--opaque-fmt")
        for k in self.known: cmd += ["--known", k["id"]]
        t = time.time()
        rc, o = run(cmd, d["timeout"] + 120)
        if rc: raise NoAnswer(f"engine failed on {entry}: {o[-800:]}")
        tot = {"entry": entry, "wall_s": round(time.time() - t, 2), "violations": [], "inconclusive": {}, "covers": set(), "functions": set(), "samples": []}
        for line in open(out):
            j = json.loads(line)
            if j.get("worker_died"): tot["inconclusive"]["worker died (memory)"] = 1; continue
            for k in ("done", "assumed", "viol", "incon", "forks", "steps", "asserts", "asserts_sym", "queries", "z3", "sat", "unsat", "solver_ms"): tot[k] = tot.get(k, 0) + j[k]
            tot["violations"] += j["violations"]
            for k, v in j["inconclusive"].items(): tot["inconclusive"][k] = tot["inconclusive"].get(k, 0) + v
            tot["covers"] |= set(j["covers"]); tot["functions"] |= set(j["functions"]); tot["samples"] += j["samples"]
        os.unlink(out)
        log(f"  {entry}: {tot['done']} paths, {tot['forks']} forks, {tot['asserts']} asserts ({tot['asserts_sym']} symbolic), {tot['z3']} z3 calls, {tot['solver_ms']/1000:.1f} s solver, {tot['wall_s']} s" + (f", inconclusive {tot['inconclusive']}" if tot["incon"] else ""))
        return tot

    def known_findings(self):
        try: k = json.load(open(os.path.join(VERIF, "known_findings.json")))
        except OSError: k = []
        return [x for x in k if x.get("property") == self.prop and x.get("status") == "known"]

    def main(self):
        t0 = time.time()
        self.known = self.known_findings()
        self.generate()
        want = [e for e in self.cfg["entries"] if self.tier == "thorough" or not e.get("thorough_only")]
        for e in want:
            if e["name"] not in self.entries: raise NoAnswer("no entry " + e["name"])
        with concurrent.futures.ThreadPoolExecutor() as ex:
            fs = [ex.submit(self.engine), ex.submit(self.ir)]
            for f in fs: f.result()
            tb = time.time() - t0
            log(f"{self.prop}: built in {tb:.0f} s")
            nat = ex.submit(self.native_build)
            res, viol, seen_known, cut = [], None, {}, False
            for e in want:
                r = self.explore(e["name"], e)
                res.append(r)
                for v in r["violations"]:
                    k = next((k for k in self.known if k["id"] == v["id"]), None)
                    if k: seen_known.setdefault(k["id"], k)
                    elif viol is None: viol = (e["name"], v)
                if viol: break
            nat.result()
        bad = []
        report = None
        if viol:
            entry, v = viol
            ok, text = self.native(entry, v["inputs"], v["kind"], v["id"])
            if ok:
                os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
                report = os.path.join(OUT, "replays", f"{self.prop}-{entry}.json")
                names = run(["c++filt"] + [x for x in v["trace"].split("\n") if x], 20)[1].split("\n") if v["trace"].strip() else []
                json.dump({"property": self.prop, "tier": self.tier, "entry": entry, "kind": v["kind"], "id": v["id"], "msg": v["msg"], "inputs": v["inputs"], "trace": names, "native": text, "how": f"python3 {VERIF}/tools/replay.py <this file>"}, open(report, "w"), indent=1)
            else:
                bad.append(f"counterexample {v['kind']} {v['id']} {v['msg']} of {entry} did not reproduce natively: {text}\ninputs {v['inputs']}\n{v['trace']}")
        validated, samples = 0, []
        if not viol:
            for r, e in zip(res, want):
                miss = [c for c in e["covers"] if c not in r["covers"]]
                if miss and not (e.get("quick_may_miss") and self.tier == "quick"): bad.append(f"{e['name']}: not reached: {miss} {r['inconclusive']}")
                if not r["done"]: bad.append(f"{e['name']}: no path finished {r['inconclusive']}")
                # every few witnesses natively (skipped where a known finding would abort the native run)
                step = max(1, len(r["samples"]) // 3)
                for s in r["samples"][::step][:3]:
                    ok, text = self.native(e["name"], s, None, None)
                    if ok:
                        validated += 1
                        if len(samples) < 6: samples.append({"entry": e["name"], "inputs": s[:60]})
                    elif any(f"VX-FAILED {k['id']}\n" in text for k in self.known): pass
                    else: bad.append(f"{e['name']}: the executor's passing path {s} differs natively: {text}")
        self.evidence(res, want, validated, samples, 1 if report else 0, seen_known, time.time() - t0, tb)
        for k in seen_known.values(): print(f"KNOWN-FINDING: property={self.prop} {k['id']}: {k['what']}")
        if report:
            print(f"violated: {viol[0]}: {viol[1]['kind']} {viol[1]['id']} {viol[1]['msg']}")
            print(f"VIOLATION property={self.prop} replay={report}")
            return 1
        if bad:
            for b in bad: print("no answer:", b)
            return 2
        print(f"{self.prop}: held on {sum(r['done'] for r in res)} paths, {time.time()-t0:.0f} s")
        return 0

    def evidence(self, res, want, validated, samples, violations, known, wall, tb):
        S = lambda k: sum(r.get(k, 0) for r in res)
        fns = set().union(*[r["functions"] for r in res]) if res else set()
        names = run(["c++filt"] + sorted(fns), 30)[1].split("\n") if fns else []
        own = sorted({re.sub(r"\[[0-9a-f]{16}\]", "", n) for n in names if re.search(r"\bcdn_(proto|broker|client|marshal)\b", n)})
        cov = {"states": S("done") + S("assumed") + S("viol") + S("incon"), "transitions": S("steps"), "traces_validated_against_impl": validated, "samples": samples or [{"none": True}],
               "exhaustive": S("incon") == 0, "paths_completed": S("done"), "paths_inconclusive": S("incon"), "paths_infeasible": S("assumed"), "forks": S("forks"),
               "assertions_decided": S("asserts"), "assertions_with_symbolic_condition": S("asserts_sym"),
               "solver_queries": S("queries"), "z3_calls": S("z3"), "sat": S("sat"), "unsat": S("unsat"), "solver_s": round(S("solver_ms") / 1000, 2), "build_s": round(tb, 1),
               "functions_encoded": len(own), "functions_encoded_names": own[:400], "ir_functions_executed": len(fns),
               "bounds": {e["name"]: e.get("bounds_thorough", e["bounds"]) if self.tier == "thorough" else e["bounds"] for e in want},
               "entries": [{k: (sorted(v) if isinstance(v, set) else v) for k, v in r.items() if k not in ("functions", "samples", "violations")} for r in res],
               "rule": "one state per explored path of the real code (a path condition over the symbolic inputs, scheduling choices and fault choices); transitions are LLVM IR instructions executed",
               "known_findings": sorted(known)}
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": "model_checking", "coverage": cov,
              "assumptions": self.cfg.get("assumptions", []) + ["the environment models of /verif/models (runtime, clock, network, crypto, storage) stand in for the real crates", "symbolic executor engine/vx.cpp and Z3 are trusted for 'holds' verdicts; counterexamples are replayed natively"],
              "wall_s": round(wall, 1), "violations": violations}
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(OUT, "evidence", self.prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        if sys.argv[1] == "--setup": Check("C14", tier).engine(); rc = 0
        else: rc = Check(sys.argv[1], tier).main()
    except NoAnswer as e:
        print("no answer:", e)
        rc = 2
    sys.exit(rc)
