"""Runs solver-based scenarios over /repo's current source and reports them."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, random
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LIB = os.path.join(VERIF, "lib")
ENGINE = os.path.join(BUILD, "symex")
OPTP = ["-passes=sroa,simplifycfg,early-cse,simplifycfg"]
CF = ["-w", "-fno-builtin", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-strict-aliasing", "-fwrapv", "-ffp-contract=off"]
UBSAN = ["-fsanitize=shift,integer-divide-by-zero,float-cast-overflow,array-bounds,vla-bound,return,unreachable,bool", "-fsanitize-trap=all"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def die_quiet(msg):
    print("INCONCLUSIVE:", msg)


class Env:
    """Scratch directory with the current compiler as bitcode and as a native binary."""

    def __init__(self, prop):
        self.prop = prop
        base = os.path.join(VERIF, "build", "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.ok = True
        self.err = ""
        self._native = {}
        self._lock = threading.Lock()
        self.build_engine()
        self.build_target()

    def build_engine(self):
        r = sh(["bash", os.path.join(VERIF, "symex", "build.sh"), BUILD])
        if r.returncode or not os.path.exists(ENGINE):
            raise SystemExit("engine build failed:\n" + r.stdout)
        for src, dst in (("drv.c", "drv.bc"),):
            s, d = os.path.join(LIB, src), os.path.join(BUILD, dst)
            if not os.path.exists(d) or os.path.getmtime(d) < max(os.path.getmtime(s), os.path.getmtime(os.path.join(LIB, "drv.h"))):
                t = d + ".%d.tmp" % os.getpid()
                r = sh(["clang"] + CF + ["-emit-llvm", "-c", s, "-o", t])
                if r.returncode:
                    raise SystemExit(r.stdout)
                os.rename(t, d)
        self.drvbc = os.path.join(BUILD, "drv.bc")
        self.libcbc = os.path.join(BUILD, "libc.bc")

    def build_target(self):
        d = self.dir
        self.src = os.path.join(d, "repo")
        os.makedirs(self.src)
        for n in ("src", "include", "lib"):
            if os.path.isdir(os.path.join(REPO, n)):
                shutil.copytree(os.path.join(REPO, n), os.path.join(self.src, n))
        for n in ("configure", "Makefile"):
            shutil.copy(os.path.join(REPO, n), self.src)
        # the same configuration step the build uses; headers are taken from /repo's tree
        r = sh(["sh", "./configure", "CC=gcc", "--libdir=" + os.path.join(REPO, "lib")], cwd=self.src)
        if r.returncode:
            self.ok, self.err = False, "configure failed: " + r.stdout[-300:]
            return
        self.bc = os.path.join(d, "lacc.bc")
        r = sh("clang -std=gnu89 -w -O1 -Xclang -disable-llvm-passes -fno-builtin -D__NO_CTYPE -Iinclude -include config.h -DAMALGAMATION "
               "-Dmain=lacc_main -emit-llvm -c src/lacc.c -o %s/lacc0.bc && opt %s %s/lacc0.bc -o %s" % (d, OPTP[0].replace("-passes=", "-passes='") + "'", d, self.bc),
               cwd=self.src, shell=True)
        if r.returncode:
            self.ok, self.err = False, "bitcode build failed: " + r.stdout[-500:]

    def native(self, kind="plain"):
        """path of the real compiler built from the current source"""
        with self._lock:
            return self._build_native(kind)

    def _build_native(self, kind):
        if kind not in self._native:
            out = os.path.join(self.dir, "lacc-" + kind)
            flags = {"plain": ["gcc", "-O1"], "asan": ["clang", "-O1", "-g", "-fsanitize=address,bounds,integer-divide-by-zero,unreachable,return,vla-bound,null", "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=all"],
                     "pattern": ["clang", "-O1", "-ftrivial-auto-var-init=pattern"], "zero": ["clang", "-O1", "-ftrivial-auto-var-init=zero"],
                     "msan": ["clang", "-O1", "-g", "-fsanitize=memory", "-fsanitize-memory-track-origins"]}[kind]
            r = sh(flags + ["-std=gnu89", "-w", "-Iinclude", "-include", "config.h", "-DAMALGAMATION", "src/lacc.c", "-o", out], cwd=self.src)
            if r.returncode:
                self.err = r.stdout[-300:]
                out = None
            self._native[kind] = out
        return self._native[kind]

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Scenario:
    """One driver: C text for the engine and for replay, plus the reference source."""

    def __init__(self, name, drv, ref=None, args=None, time=60, query_ms=20000, hang=60000000, max_paths=100000, lacc="plain", opts="", ubsan=True, need=None, refflags=None, replay=None, what=None, known=None, std=None):
        self.name, self.drv, self.ref, self.args = name, drv, ref, args or []
        self.time, self.query_ms, self.hang, self.max_paths = time, query_ms, hang, max_paths
        self.lacc, self.opts, self.ubsan, self.need = lacc, opts, ubsan, need or []
        self.refflags = refflags or []
        self.replay, self.what, self.known = replay, what, known


def compile_bc(text, out, extra, cwd):
    p = subprocess.run(["clang"] + CF + extra + ["-I", LIB, "-x", "c", "-emit-llvm", "-c", "-", "-o", out + ".0"], input=text, text=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return p.stdout
    r = sh(["opt"] + OPTP + [out + ".0", "-o", out])
    os.unlink(out + ".0")
    return r.stdout if r.returncode else None


class Runner:
    def __init__(self, env, tier, seed, budget):
        self.env, self.tier, self.seed = env, tier, seed
        self.t0 = time.time()
        self.budget = budget
        self.results = []
        self.n = 0
        self.validated = 0
        self.disagree = []

    def left(self):
        return self.budget - (time.time() - self.t0)

    def run_one(self, sc, idx):
        d = os.path.join(self.env.dir, "s%d" % idx)
        os.makedirs(d, exist_ok=True)
        res = {"name": sc.name, "opts": sc.opts, "status": "ok", "cex": []}
        if self.left() < 3:
            res["status"] = "skipped"
            return res
        dbc = os.path.join(d, "drv.bc")
        e = compile_bc(sc.drv, dbc, [], d)
        if e:
            res.update(status="infra", msg="driver does not compile: " + e[:400])
            return res
        cmd = [ENGINE, "--target", self.env.bc, "--mod", self.env.libcbc, "--mod", self.env.drvbc, "--mod", dbc]
        if sc.ref is not None:
            rbc = os.path.join(d, "ref.bc")
            e = compile_bc(sc.ref, rbc, (UBSAN if sc.ubsan else []) + sc.refflags, d)
            if e:
                res.update(status="infra", msg="reference does not compile: " + e[:400])
                return res
            cmd += ["--ref", rbc]
        limit = max(2, min(sc.time, self.left()))
        cmd += ["--out", os.path.join(d, "out.json"), "--max-time", str(limit), "--query-ms", str(sc.query_ms), "--hang", str(sc.hang), "--max-paths", str(sc.max_paths), "--quiet", "--seed", str(self.seed), sc.opts] + list(sc.args)
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit + sc.query_ms / 1000 + 20, cwd=d,
                               preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (10 << 30, 10 << 30)))
        except subprocess.TimeoutExpired:
            res.update(status="timeout", msg="engine time limit")
            return res
        try:
            j = json.load(open(os.path.join(d, "out.json")))
        except Exception:
            res.update(status="infra", msg="engine failed rc=%s: %s" % (p.returncode, p.stderr[-300:]))
            return res
        res["j"] = j
        if j["cex"]:
            tried, done = set(), set()
            for c in j["cex"]:
                key = (c["msg"], json.dumps(c["inputs"], sort_keys=True))
                place = (c["msg"], re.sub("0x[0-9a-f]+", "", c.get("last_error") or ""))
                if key in tried or len(tried) >= 10 or place in done:
                    continue
                tried.add(key)
                rep = self.replay(sc, c, d, len(tried))
                if rep["confirmed"]:
                    done.add(place)
                c["replay"] = rep
                res["cex"].append(c)
        return res

    def replay(self, sc, cex, d, k):
        """run the model against the real compiler; returns dict(ok=confirmed, text=...)"""
        if sc.replay == "skip":
            return {"confirmed": False, "text": "no replay for this scenario"}
        rd = os.path.join(d, "replay%d" % k)
        os.makedirs(rd, exist_ok=True)
        lacc = self.env.native(sc.lacc)
        if not lacc:
            return {"confirmed": False, "text": "native compiler does not build: " + self.env.err}
        model = os.path.join(rd, "model.txt")
        with open(model, "w") as f:
            for n, h in cex["inputs"].items():
                f.write("%s %s\n" % (n, h))
        open(os.path.join(rd, "driver.c"), "w").write(sc.drv)
        if sc.ref is not None:
            open(os.path.join(rd, "ref.c"), "w").write(sc.ref)
        script = "#!/bin/bash\n# replays one counterexample against the real compiler; exit 1: reproduced\n" \
                 "cd \"$(dirname \"$0\")\"\nLIB=%s\nLACC=${1:-%s}\n" % (LIB, lacc)
        if sc.ref is not None:
            script += "clang -w -O1 -fPIC -fno-strict-aliasing -fwrapv -ffp-contract=off -fno-builtin %s -c ref.c -o ref.o || exit 3\n" % " ".join(sc.refflags)
            script += "gcc -shared -Wl,-Bsymbolic -o ref.so ref.o || exit 3\nexport REPLAY_REF=./ref.so\n"
        script += "clang -w -O1 -fno-strict-aliasing -fwrapv -fno-builtin -ffp-contract=off -DSX_NATIVE -I$LIB driver.c $LIB/drv.c $LIB/native.c -rdynamic -ldl -lm -o replay || exit 3\n"
        if "sx_heap_down" in sc.drv:
            script += "gcc -shared -fPIC -w $LIB/detmalloc.c -o detmalloc.so || exit 3\nexport REPLAY_DETMALLOC=$PWD/detmalloc.so REPLAY_LACC2=%s\n" % self.env.native("zero")
        if "vf_fork_child" in sc.drv:
            script += "gcc -shared -fPIC -w $LIB/execlog.c -o execlog.so || exit 3\nexport REPLAY_EXECLOG=$PWD/execlog.so\n"
        script += "export REPLAY_MODEL=model.txt REPLAY_LACC=\"$LACC\" REPLAY_OPTS='%s'\n" % sc.opts
        for i, a in enumerate(sc.args):
            script += "export REPLAY_ARG%d='%s'\n" % (i + 1, a)
        script += "export ASAN_OPTIONS=exitcode=99:detect_leaks=0 UBSAN_OPTIONS=halt_on_error=1:exitcode=99 MSAN_OPTIONS=exitcode=99\n"
        script += "timeout 120 ./replay\n"
        sp = os.path.join(rd, "replay.sh")
        open(sp, "w").write(script)
        try:
            p = sh(["bash", sp], timeout=200)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, out = 124, "replay timed out"
        return {"confirmed": rc == 1 and "REPLAY-FAIL" in out, "rc": rc, "text": out[-1500:], "dir": rd}

    def run(self, scenarios, jobs=8):
        scenarios = list(scenarios)
        with ThreadPoolExecutor(jobs) as ex:
            futs = [ex.submit(self.run_one, sc, self.n + i) for i, sc in enumerate(scenarios)]
            self.n += len(scenarios)
            for f, sc in zip(futs, scenarios):
                r = f.result()
                r["sc"] = sc
                if os.environ.get("SX_VERBOSE"):
                    j = r.get("j") or {}
                    print("  %-40s %-8s %s paths %s inc %s unsup %s %s q %s %.1fs solver %.1fs %s" % (r["name"], r["opts"], r["status"], j.get("paths"), j.get("incomplete"), j.get("unsupported"), j.get("unsup_msgs", [])[:2], j.get("solver_queries"), j.get("secs", j.get("wall", 0)) or 0, j.get("solver_secs", 0), [(c["msg"], c["inputs"], c["replay"].get("confirmed")) for c in r["cex"]][:3]), flush=True)
                self.results.append(r)
        return self.results

    def validate(self, n=5):
        """re-run models of explored paths against the real compiler (guards against an engine that models too little)"""
        c = [(i, r) for i, r in enumerate(self.results) if r.get("j") and r["j"]["samples"] and not r["cex"] and r["sc"].replay != "skip"]
        step = max(1, len(c) // n)
        pick = c[::step][:n]
        def one(ir):
            i, r = ir
            return r, self.replay(r["sc"], {"inputs": r["j"]["samples"][-1]}, os.path.join(self.env.dir, "s%d" % i), 99)
        if self.left() < 10:
            return
        with ThreadPoolExecutor(8) as ex:
            for r, rep in ex.map(one, pick):
                if rep.get("rc") == 0:
                    self.validated += 1
                elif rep.get("confirmed"):
                    self.disagree.append("%s %s: native run of an explored path fails: %s" % (r["name"], r["opts"], rep["text"][-200:]))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def save_replay(prop, res, cex, n):
    """keep the confirmed counterexample under evidence/ (git-ignored)"""
    dst = os.path.join(VERIF, "evidence", "replay", "%s-%d" % (prop, n))
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    rd = cex["replay"].get("dir")
    if rd and os.path.isdir(rd):
        for f in os.listdir(rd):
            s = os.path.join(rd, f)
            if os.path.isfile(s) and os.path.getsize(s) < (1 << 20) and not f.endswith((".so", ".o")) and f != "replay":
                shutil.copy(s, dst)
    json.dump({"property": prop, "scenario": res["name"], "options": res["opts"], "message": cex["msg"], "inputs": cex["inputs"], "last_error": cex.get("last_error"), "log": cex.get("log"), "native": cex["replay"]["text"]}, open(os.path.join(dst, "cex.json"), "w"), indent=1)
    return dst


def finish(prop, tier, seed, level, runner, bounds, assumptions, t0, require=None, extra=None):
    """write evidence, print findings, return the exit code"""
    known = [k for k in load_known()["findings"] if k["property"] == prop]
    tot = {k: 0 for k in ("paths", "forks", "assert_structural", "assert_solver", "solver_queries", "solver_unsat", "solver_sat", "solver_unknown", "solver_secs", "domain_hits", "ir_insts", "x86_insts", "ub_excluded", "incomplete", "unsupported")}
    funcs, covers, samples, notes = set(), {}, [], []
    counts = {"ok": 0, "skipped": 0, "infra": 0, "timeout": 0}
    exhausted = 0
    violations, knownhits, unconf = [], {}, []
    for r in runner.results:
        counts[r["status"]] = counts.get(r["status"], 0) + 1
        j = r.get("j")
        if r["status"] in ("infra", "timeout"):
            notes.append("%s %s: %s" % (r["name"], r["opts"], r.get("msg")))
        if not j:
            continue
        for k in tot:
            tot[k] += j.get(k, 0)
        funcs.update(j["functions"])
        for k, v in j["covers"].items():
            covers[k] = covers.get(k, 0) + v
        if j["exhausted"] and not j["incomplete"] and not j["unsupported"]:
            exhausted += 1
        elif len(notes) < 60:
            notes.append("%s %s: not exhausted (pending %d, incomplete %d, unsupported %s)" % (r["name"], r["opts"], j["pending"], j["incomplete"], j["unsup_msgs"][:2]))
        if len(samples) < 5 and j["samples"]:
            samples.append({"scenario": r["name"], "options": r["opts"], "path_inputs": j["samples"][:2], "asserts": j["assert_structural"] + j["assert_solver"]})
        for c in r["cex"]:
            if not c["replay"]["confirmed"]:
                unconf.append((r, c))
                continue
            hit = None
            for k in known:
                if re.search(k["scenario"], r["name"]) and re.search(k["message"], c["msg"] + " | " + (c.get("last_error") or "")) and (not k.get("opts") or re.search(k["opts"], r["opts"])):
                    hit = k
                    break
            if hit:
                knownhits[hit["id"]] = hit
            else:
                violations.append((r, c))
    for k in known:
        if k["id"] in knownhits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    nasserts = tot["assert_structural"] + tot["assert_solver"]
    seen = set()
    for n, (r, c) in enumerate(violations):
        key = (r["name"], c["msg"], re.sub("0x[0-9a-f]+", "", c.get("last_error") or ""))
        if key in seen or len(seen) > 40:
            continue
        seen.add(key)
        path = save_replay(prop, r, c, n)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  scenario %s options '%s': %s inputs %s" % (r["name"], r["opts"], c["msg"], json.dumps(c["inputs"])[:300]))
        if c.get("last_error"):
            print("  " + c["last_error"][:300])
    for r, c in unconf[:10]:
        notes.append("unconfirmed counterexample (not reproduced by the real compiler): %s %s: %s %s / %s" % (r["name"], r["opts"], c["msg"], (c.get("last_error") or "")[:200], c["replay"]["text"][-200:]))
    notes += runner.disagree
    missing = [x for x in (require or []) if not covers.get(x)]
    if missing:
        notes.append("vacuity witnesses not reached: %s" % missing)
    cov = {"states": tot["paths"], "transitions": tot["forks"], "traces_validated_against_impl": runner.validated + sum(len(r["cex"]) for r in runner.results),
           "rule": "a state is one completed symbolic path through the compiler (and the code it emitted), standing for every input that satisfies its path condition; a transition is a feasible two-way split of a path; an obligation is an assertion on such a path, discharged for all its inputs by the solver or because both sides are one and the same term; a validated trace is a model re-run against the natively built compiler",
           "assertions_by_solver": tot["assert_solver"], "assertions_by_identical_terms": tot["assert_structural"], "undecided": tot["incomplete"],
           "trusted_base": ["clang 18 translation of /repo to LLVM IR", "the symbolic executor in symex/", "z3", "libc model symex/libc.c"],
           "programs": len(runner.results),
           "samples": samples or [{"scenario": r["name"]} for r in runner.results[:3]],
           "scenarios": counts, "scenarios_exhausted": exhausted, "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs),
           "solver": {k: tot[k] for k in ("solver_queries", "solver_unsat", "solver_sat", "solver_unknown", "domain_hits")}, "solver_seconds": round(tot["solver_secs"], 3),
           "ir_instructions": tot["ir_insts"], "machine_instructions": tot["x86_insts"], "ub_paths_excluded": tot["ub_excluded"], "witnesses": covers, "bounds": bounds, "notes": notes[:60], "known_findings_reported": sorted(knownhits),
           "explanation": "bounded symbolic execution of the compiler built from /repo; see DESIGN.md", "exhaustive": False}
    if extra:
        cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(seen)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d scenarios (%s), %d exhausted, %d paths, %d assertions (%d by solver), %d queries in %.1fs, %d notes, %.1fs" % (prop, len(runner.results), counts, exhausted, tot["paths"], nasserts, tot["assert_solver"], tot["solver_queries"], tot["solver_secs"], len(notes), time.time() - t0))
    return 1 if seen else 0
