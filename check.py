#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property of /repo by symbolic execution of the real code. The
harness crate /verif/harness has a path dependency on /repo, so what is
executed is /repo's current working tree, by one of two engines:
 - Kani compiles it to goto programs, CBMC unrolls them and a SAT solver
   decides every assertion for all values within the stated bounds;
 - /verif/lsx executes its LLVM IR path by path with symbolic values; Z3
   decides which branches are possible and every assertion on every path.

exit 0  every query of every harness was discharged
exit 1  VIOLATION: a counterexample that reproduces against the real build
exit 2  no verdict (build error, timeout, counterexample that does not replay)
"""
import json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, ".build")
HARNESS = os.path.join(VERIF, "harness")
REPLAY = os.path.join(VERIF, "replay")
BASEFLAGS = "-A dangerous_implicit_autorefs -A unexpected_cfgs"
HOOK = "--cfg indexing_verif"

sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402


def env(flags, toolchain=None):
    e = dict(os.environ)
    for k in ("CARGO_TARGET_DIR", "RUSTUP_TOOLCHAIN", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTFLAGS"] = flags
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    return e


def sh(cmd, cwd, e, timeout, log, enough=None):
    """Run to the end, for at most `timeout` seconds, or until `enough(output)`."""
    end = time.time() + timeout
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        while True:
            try:
                rc = p.wait(timeout=max(0.01, min(end - time.time(), 2 if enough else 1e6)))
                break
            except subprocess.TimeoutExpired:
                if time.time() < end and not (enough and enough(open(log, errors="replace").read())):
                    continue
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = None
                break
    with open(log, errors="replace") as f:
        return rc, f.read()


class Fail(Exception):
    pass


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.p = PROPS[pid]
        self.dir = os.path.join(BUILD, pid)
        os.makedirs(self.dir, exist_ok=True)
        self.t0 = time.time()
        self.deadline = self.t0 + (820 if tier == "quick" else 14000)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.results, self.paths, self.cbmc, self.notes, self.traces = [], [], {}, [], 0
        self.late = []
        self.cmds = []

    def left(self):
        return max(5, self.deadline - time.time())

    def flags(self, run):
        # "deep": a path-wise run of the quick tier that uses the constants of the thorough one
        return BASEFLAGS + (" " + HOOK if run.get("hook") else "") + (" --cfg deeper" if run.get("deep") and self.tier == "thorough" else "")

    def features(self, run):
        return ["--features", "thorough"] if self.tier == "thorough" or run.get("deep") else []

    def env(self, run, toolchain=None):
        # "release": as a release build decides it, without debug assertions
        # (Kani reports every overflow all the same)
        e = env(self.flags(run), toolchain)
        if run.get("release"):
            e.update(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false")
        return e

    def suffix(self, run):
        return ("-hook" if run.get("hook") else "") + ("-deep" if run.get("deep") else "") + ("-release" if run.get("release") else "")

    # ---- solver runs -------------------------------------------------------
    @staticmethod
    def failed_so_far(log):
        """Harnesses a running solver run has already reported as failed (with
        what failed), those that only ran past a loop bound or have to panic aside."""
        names, out = {}, {}
        for m in re.finditer(r"^Thread (\d+): (?:Checking harness (\S+?)\.\.\.|\s*\nVERIFICATION RESULT:(.*?)Verification Time)", log, re.M | re.S):
            t, name, body = m.groups()
            if name:
                names[t] = name
            elif "VERIFICATION:- FAILED" in body and t in names and "refuses" not in names[t]:
                ds = [d for d in re.findall(r"^Failed Checks: (.*)$", body, re.M) if "unwinding assertion" not in d and "recursion" not in d]
                if ds:
                    out[names[t]] = ds
        return out

    def kani(self, run, k, stop=True):
        out = os.path.join(self.dir, "kani%d.json" % k)
        if os.path.exists(out):
            os.remove(out)
        cap = run.get("timeout", 420 if self.tier == "quick" else 7200)
        cmd = ["cargo", "kani", "--lib", "-j", "8", "--output-format", "terse", "-Z", "unstable-options",
               "--export-json", out, "--harness-timeout", "%ds" % int(min(cap, self.left())),
               "--target-dir", os.path.join(self.dir, "kani%d" % k)]
        if self.tier == "thorough":
            cmd += ["--features", "thorough"]
        cmd += ["-Z", "stubbing", "--no-assertion-reach-checks"]
        for f in run["filters"]:
            cmd += ["--harness", f]
        cmd += run.get("args", [])
        self.cmds.append(" ".join(cmd))
        # a harness that has failed is pursued a few seconds after its failure is known
        seen = []
        def enough(log):
            if self.failed_so_far(log):
                seen.append(time.time())
            return bool(seen) and time.time() - seen[0] > 15
        rc, log = sh(cmd, HARNESS, self.env(run), self.left() + 20, os.path.join(self.dir, "kani%d.log" % k), enough if stop else None)
        if not os.path.exists(out) and seen:
            return [{"harness_id": n, "status": "Failure", "duration_ms": i, "cut": True,
                     "checks": [{"status": "Failure", "description": d, "category": "assertion"} for d in ds]}
                    for i, (n, ds) in enumerate(self.failed_so_far(log).items())]
        if not os.path.exists(out):
            raise Fail("solver run gave no result (rc %s): %s" % (rc, self.tail(log)))
        d = json.load(open(out))
        rs = d.get("verification_results", {}).get("results", [])
        if not rs:
            raise Fail("no harness was run: " + self.tail(log))
        for c in d.get("cbmc", []):
            self.cbmc[c["harness_id"]] = c.get("cbmc_stats", {}) or {}
        return rs

    def tail(self, log):
        lines = [l for l in log.splitlines() if l.startswith("error") or "imeout" in l or "memory" in l]
        return " | ".join((lines or log.splitlines())[-6:])[:1500]

    @staticmethod
    def failing(r):
        return [c for c in r.get("checks", []) if c["status"] in ("Failure", "FAILURE")]

    def judge(self, run, r):
        """(list of unexpected failing checks, list of violated must-not-reach covers)"""
        name = r["harness_id"]
        refuses = "refuses" in name
        bad = []
        for c in self.failing(r):
            if refuses and c.get("category") == "assertion" and not c["description"].startswith("unwinding"):
                continue  # the refusal itself: a panic
            bad.append(c)
        covers = [c for c in r.get("checks", []) if c.get("category") == "cover"]
        reached = [c for c in covers if c["description"].startswith("N:") and c["status"] == "Satisfied"]
        witnesses = [c for c in covers if not c["description"].startswith("N:")]
        unsat = [c for c in witnesses if c["status"] != "Satisfied"]
        return bad, reached, witnesses, unsat

    # ---- counterexamples ---------------------------------------------------
    def counterexamples(self, run, k, name, unwind=None):
        cmd = ["cargo", "kani", "--lib", "--exact", "--harness", name, "-Z", "concrete-playback",
               "--concrete-playback=print", "-Z", "unstable-options",
               "--harness-timeout", "%ds" % int(self.left()),
               "--target-dir", os.path.join(self.dir, "kani%d" % k)]
        if self.tier == "thorough":
            cmd += ["--features", "thorough"]
        cmd += ["-Z", "stubbing", "--no-assertion-reach-checks"]
        if unwind:
            cmd += ["--unwind", str(unwind)]
        cmd += run.get("args", [])
        rc, log = sh(cmd, HARNESS, self.env(run), self.left() + 20,
                     os.path.join(self.dir, "cex_%s.log" % name.replace("::", "_")))
        out = []
        for m in re.finditer(r'/// Check for `([^`]*)`: "((?:[^"\n]|"(?!\n))*)"\n(?:///[^\n]*\n|\s*\n)*#\[test\](.*?)\n```', log, re.S):
            kind, desc, body = m.groups()
            body = body.replace("\\n", "\n")
            body = re.sub(r"//.*", "", body)
            vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([\d,\s]+)\]", body)]
            out.append((kind, desc, vals))
        return out, log

    def unwind_traces(self, run, k, name, unwind=None):
        """Concrete inputs on which a loop runs past its bound (Kani prints no
        values for those): run its CBMC command once more with a trace."""
        cmd = ["cargo", "kani", "--lib", "--exact", "--harness", name, "--verbose", "--keep-temps",
               "-Z", "unstable-options", "-Z", "stubbing", "--no-assertion-reach-checks", "--harness-timeout", "1s",
               "--target-dir", os.path.join(self.dir, "kani%d" % k)]
        if self.tier == "thorough":
            cmd += ["--features", "thorough"]
        if unwind:
            cmd += ["--unwind", str(unwind)]
        cmd += run.get("args", [])
        rc, log = sh(cmd, HARNESS, self.env(run), self.left() + 20, os.path.join(self.dir, "trace.log"))
        m = re.search(r"Running: `(cbmc [^`]*)`", log)
        if not m:
            return []
        e = env("")
        kani = os.path.expanduser("~/.kani")
        for d in sorted(os.listdir(kani)) if os.path.isdir(kani) else []:
            e["PATH"] = os.path.join(kani, d, "bin") + ":" + e["PATH"]
        argv = [a for a in m.group(1).split() if a != "--slice-formula"] + ["--trace"]
        out = os.path.join(self.dir, "trace.json")
        with open(out, "w") as f:
            try:
                subprocess.run(argv, cwd=HARNESS, env=e, stdout=f, stderr=subprocess.DEVNULL, timeout=self.left())
            except subprocess.TimeoutExpired:
                return []
        found = []
        try:
            for x in json.load(open(out)):
                for r in x.get("result", []):
                    if r.get("status") != "FAILURE" or not re.search(r"unwind|recursion", r.get("property", "") + r.get("description", "")):
                        continue
                    vals = []
                    for st in r.get("trace", []):
                        fn = (st.get("sourceLocation") or {}).get("function", "")
                        if st.get("stepType") == "assignment" and fn.startswith("kani::any_raw_") and st.get("lhs", "").startswith("goto_symex$$return_value"):
                            b = st["value"]["binary"]
                            vals.append([int(b[i:i + 8], 2) for i in range(len(b) - 8, -1, -8)])
                    found.append(("unwind", r.get("description", "unwinding"), vals))
        except (ValueError, KeyError):
            pass
        return found

    def native(self, run, release=False):
        tgt = os.path.join(self.dir, "native" + self.suffix(dict(run, release=False)))
        cmd = ["cargo", "build", "--offline", "--target-dir", tgt] + (["--release"] if release else [])
        cmd += self.features(run)
        rc, log = sh(cmd, REPLAY, env(self.flags(run), "stable"), max(60, self.left()), os.path.join(self.dir, "native.log"))
        if rc != 0:
            raise Fail("native build failed: " + self.tail(log))
        return os.path.join(tgt, "release" if release else "debug", "verif_replay")

    def miri(self, run, name, path):
        e = self.env(run, "nightly")
        e["MIRI_SYSROOT"] = os.path.join(BUILD, "miri-sysroot")
        e["MIRIFLAGS"] = "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation"
        log = os.path.join(self.dir, "miri.log")
        if not os.path.isdir(e["MIRI_SYSROOT"]):
            rc, out = sh(["cargo", "miri", "setup"], REPLAY, e, max(120, self.left()), log)
            if rc != 0:
                return None, "miri setup failed: " + out[-500:]
        cmd = ["cargo", "miri", "run", "--target-dir", os.path.join(self.dir, "miri")]
        cmd += self.features(run)
        cmd += ["--", "run", name, path]
        rc, out = sh(cmd, REPLAY, e, max(120, min(400, self.left())), log)
        if "Undefined Behavior" in out or "memory leaked" in out:
            m = re.search(r"error: (Undefined Behavior: .*)", out)
            return True, (m.group(1) if m else "undefined behavior")
        if rc == 1:
            return True, out.strip().splitlines()[-1]
        return False, "miri: no undefined behavior (rc %s)" % rc

    def confirm(self, run, name, vals, desc, hang_counts, native=True, miri=True):
        """Replay on the real build: dev, release, then Miri. Returns (path, how) or None."""
        rep = os.path.join(self.dir, "replay")
        os.makedirs(rep, exist_ok=True)
        path = os.path.join(rep, "%s_%d.txt" % (name.replace("::", "_"), len(os.listdir(rep))))
        with open(path, "w") as f:
            f.write("# property %s harness %s\n# %s\n" % (self.pid, name, desc))
            for v in vals:
                f.write("".join("%02x" % b for b in v) + "\n")
        def note(how, cmd):
            with open(path, "a") as f:
                f.write("# reproduced by: %s\n# with: %s\n" % (how, cmd))
            return path, how
        seen = []
        for rel in (False, True) if native else ():
            exe = self.native(run, rel)
            log = os.path.join(self.dir, "replay.log")
            rc, out = sh([exe, "run", name, path], self.dir, env(""), 30, log)
            prof = "release" if rel else "dev"
            seen.append("%s: rc=%s %s" % (prof, rc, out.strip()[-200:]))
            if rc == 1 or (rc is not None and (rc < 0 or rc >= 128)):
                return note("%s build: %s" % (prof, out.strip()[-300:] or "killed by signal %s" % rc), "%s run %s %s" % (exe, name, path))
            if rc is None and hang_counts:
                return note("%s build: does not terminate within 30 s" % prof, "%s run %s %s" % (exe, name, path))
        if not miri:
            return None
        ok, how = self.miri(run, name, path)
        seen.append(str(how))
        if ok:
            return note("Miri: " + how, "cargo +nightly miri run -- run %s %s (in %s)" % (name, path, REPLAY))
        self.notes.append("counterexample for %s (%s) not reproduced: %s" % (name, desc, "; ".join(seen)))
        return None

    def resolve(self, run, k, r, bad, reached):
        """A harness failed: find a counterexample that reproduces."""
        name = r["harness_id"]
        onlyunwind = bool(bad) and not reached and all("unwinding assertion" in c["description"] or "recursion" in c["description"] for c in bad)
        tries = [None]
        if onlyunwind:
            tries = [None] + run.get("more_unwind", [24])
        for u in tries:
            cex, log = self.counterexamples(run, k, name, u)
            if onlyunwind and u is not None and "VERIFICATION:- SUCCESSFUL" in log:
                self.notes.append("%s needed unwind %d" % (name, u))
                return "ok", None
            if onlyunwind and not any(c[0] != "cover" for c in cex):
                cex += self.unwind_traces(run, k, name, u)
            covers = [c for c in cex if c[0] == "cover" and c[1].strip('"').startswith("N:")]
            order = covers if covers and "refuses" in name else [c for c in cex if c[0] != "cover"] + covers
            for native, miri in ((True, False), (False, True)):
                for kind, desc, vals in order:
                    got = self.confirm(run, name, vals, desc.strip('"'), "unwind" in desc or onlyunwind, native, miri)
                    if got:
                        return "violation", (name, desc.strip('"'), got)
            if time.time() > self.deadline - 30:
                break
        return "unknown", (name, ", ".join(sorted({c["description"] for c in bad + reached}))[:400])

    # ---- validation: the same harnesses run natively -----------------------
    def validate(self, run):
        exe = self.native(run, bool(run.get("release")))
        n = str(run.get("random", 400))
        rc, out = sh([exe, "random", str(self.seed), n] + run["filters"], self.dir, env(""),
                     min(120, self.left()), os.path.join(self.dir, "random.log"))
        self.traces += sum(int(x) for x in re.findall(r"^RANDOM \S+ ok=(\d+)", out, re.M))
        broken = re.findall(r"^BROKEN (\S+) values (.*?) : (.*)$", out, re.M)
        for name, vals, msg in broken:
            vv = [list(bytes.fromhex(v)) for v in vals.split()]
            got = self.confirm(run, name, vv, msg, False)
            if got:
                return (name, msg, got)
        if rc not in (0, 1) and not broken:
            self.notes.append("random native runs ended with %s" % rc)
        return None

    # ---- evidence ----------------------------------------------------------
    def evidence(self, violations):
        fns, samples, checks = set(), [], 0
        for r in self.results:
            ds = []
            for c in r.get("checks", []):
                checks += 1
                f = c.get("function") or ""
                if "indexing::" in f and not f.startswith("std::"):
                    fns.add(re.sub(r"<.*", "", re.sub(r"^<?&?", "", f)) if not f.startswith("<") else f[:120])
                elif c.get("location", {}).get("file", "").startswith("/repo"):
                    fns.add(f[:120])
                if c.get("category") == "assertion" and (c.get("location", {}).get("file") or "").startswith("src/"):
                    ds.append("%s: %s" % (c["status"], c["description"].strip('"')))
            st = self.cbmc.get(r["harness_id"], {})
            samples.append({"harness": r["harness_id"], "status": r["status"], "ms": r["duration_ms"],
                            "ssa_steps": st.get("size_program_expression"), "vccs": st.get("vccs_generated"),
                            "solver_s": st.get("runtime_solver_s"), "assertions": sorted(set(ds))[:12]})
        for r in self.paths:
            fns |= {f for f in r.get("functions", []) if f.startswith("indexing::") or "<indexing::" in f}
            samples.append({"harness": r["harness"], "status": r["status"], "paths": r["paths"], "branches": r["branches"],
                            "instructions": r["steps"], "queries": r["queries"], "solver_s": round(r["solver_s"], 2), "seconds": r["finished_s"],
                            "assertions": r["checks"], "witnesses": r["covers"]})
        pw = lambda key: sum(r[key] for r in self.paths)
        st = list(self.cbmc.values())
        cov = {
            "states": int(sum(s.get("size_program_expression") or 0 for s in st) + pw("steps")),
            "transitions": int(sum(s.get("vccs_generated") or 0 for s in st) + pw("branches")),
            "traces_validated_against_impl": self.traces,
            "samples": samples,
            "harnesses": len(self.results) + len(self.paths),
            "queries_discharged": int(sum(s.get("vccs_remaining") or 0 for s in st) + pw("queries")),
            "paths": pw("paths"),
            "checks_decided": checks + sum(sum(r["checks"].values()) for r in self.paths),
            "solver_s": round(sum(s.get("runtime_solver_s") or 0 for s in st) + pw("solver_s"), 3),
            "symex_s": round(sum(s.get("runtime_symex_s") or 0 for s in st), 3),
            "functions_encoded": sorted(fns),
            "bounds": self.p["bounds"][1 if self.tier == "thorough" else 0],
            "outside_the_bounds": self.p.get("outside", ""),
            "meaning": "states = steps of the symbolic (SSA) program over all harnesses, plus the instructions executed by the path-wise "
                       "engine; transitions = verification conditions generated, plus the symbolic decisions of the path-wise engine; traces = random concrete executions of the same harnesses on the native build that satisfied "
                       "the harness assumptions and held",
            "commands": self.cmds,
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.p.get("assumptions", []) + [
                  *(["Kani 0.68's translation of MIR, CBMC 6.11 and its SAT back end are trusted"] if self.results else []),
                  *(["rustc's LLVM IR (opt-level 1), the interpreter /verif/lsx and Z3 4.8.12 are trusted"] if self.paths else []),
                  "dev-profile semantics (overflow and debug assertions on), in the runs marked release those of the release profile; usize is 64 bit"] + self.notes,
              "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    # ---- path-wise engine --------------------------------------------------
    def lsx(self, run, k):
        tool = build_lsx()
        tgt = os.path.join(self.dir, "ir" + self.suffix(run))
        deps = os.path.join(tgt, "debug", "deps")
        if os.path.isdir(deps):
            for f in os.listdir(deps):
                if f.endswith(".ll"):
                    os.remove(os.path.join(deps, f))
            shutil.rmtree(os.path.join(tgt, "debug", ".fingerprint"), ignore_errors=True)
        e = self.env(run, "stable")
        e["RUSTFLAGS"] += " --cfg lsx -Zshare-generics=no --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp"
        e.update(CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_DEV_CODEGEN_UNITS="1", CARGO_INCREMENTAL="0",
                 RUSTC_BOOTSTRAP="1")  # for -Zshare-generics=no: every generic function's body is in the IR
        cmd = ["cargo", "build", "--lib", "--offline", "--target-dir", tgt] + self.features(run)
        rc, log = sh(cmd, HARNESS, e, max(60, self.left()), os.path.join(self.dir, "ir.log"))
        files = sorted(os.path.join(deps, f) for f in os.listdir(deps) if f.endswith(".ll")) if rc == 0 else []
        if len(files) < 2:
            raise Fail("no LLVM IR: " + self.tail(log))
        rc, out = sh([self.native(run, False), "list"], self.dir, env(""), 30, os.path.join(self.dir, "list.log"))
        names = [n for n in out.split() if any(n.startswith(f) for f in run["filters"]) and not any(n.startswith(f) for f in run.get("not", []))]
        if not names:
            raise Fail("no harness matches %s" % run["filters"])
        res = os.path.join(self.dir, "lsx%d.json" % k)
        if os.path.exists(res):
            os.remove(res)
        cap = run.get("timeout", 700 if self.tier == "quick" else 7200)
        cmd = [tool, "--deadline", str(int(min(cap, self.left() - 20))), "--jobs", "8", "--out", res]
        for n in names:
            cmd += ["--harness", "verif_harness::" + n]
        cmd += run.get("args", []) + ["--"] + files
        self.cmds.append(re.sub(re.escape(VERIF) + "/", "", " ".join(cmd)))
        rc, log = sh(cmd, self.dir, env(""), self.left() + 30, os.path.join(self.dir, "lsx%d.log" % k))
        if not os.path.exists(res):
            raise Fail("path-wise run gave no result (rc %s): %s" % (rc, log[-500:]))
        rs = json.load(open(res))
        if len(rs) != len(names):
            raise Fail("path-wise run decided %d of %d harnesses" % (len(rs), len(names)))
        for r in rs:
            r["harness"] = r["harness"].replace("verif_harness::", "")
        return rs

    def run_lsx(self, run, k, unknown):
        rs = self.lsx(run, k)
        self.paths += rs
        for r in rs:
            name, v = r["harness"], r.get("violation")
            if r["status"] == "violation" and v:
                vals = [[int(x[i:i + 2], 16) for i in range(0, len(x), 2)] for x in v["values"]]
                got = self.confirm(run, name, vals, v["what"], v["hang"])
                if got:
                    return (name, v["what"], got)
                unknown.append("%s: failed but not confirmed (%s)" % (name, v["what"]))
            elif r["status"] == "timeout":
                self.late.append(name)
            elif r["status"] != "held":
                unknown.append("%s: %s %s" % (name, r["status"], r.get("error", "")))
            elif not r["covers"] or not all(r["covers"].values()):
                unknown.append("%s: vacuous, witness not reachable: %s" % (name, [c for c, b in r["covers"].items() if not b]))
        return self.validate(run)

    def run_kani(self, run, k, unknown):
        for stop in (True, False):
            rs = self.kani(run, k, stop)
            todo, now = [], []
            for r in rs:
                bad, reached, wit, unsat = self.judge(run, r)
                st = r["status"]
                if bad or reached:
                    todo.append((r, bad, reached))
                elif st not in ("Success",) and not ("refuses" in r["harness_id"] and self.failing(r)):
                    self.late.append(r["harness_id"])
                elif unsat or not wit:
                    now.append("%s: vacuous, witness not reachable: %s" % (r["harness_id"], [c["description"] for c in unsat]))
            # assertion failures first, fastest first
            todo.sort(key=lambda t: (all("unwinding" in c["description"] for c in t[1]), t[0]["duration_ms"]))
            for r, bad, reached in todo:
                verdict, info = self.resolve(run, k, r, bad, reached)
                if verdict == "violation":
                    self.results += rs
                    return info
                if verdict == "unknown":
                    now.append("%s: failed but not confirmed (%s)" % info)
            if not any(r.get("cut") for r in rs):
                break
        self.results += rs
        unknown += now
        return self.validate(run)

    def run(self):
        shutil.rmtree(os.path.join(self.dir, "replay"), ignore_errors=True)
        unknown = []
        runs = self.p["runs"]
        for k, run in sorted(enumerate(runs), key=lambda r: r[1].get("engine") != "lsx"):
            if run.get("tier", self.tier) != self.tier:
                continue
            if run.get("engine") == "lsx":
                v = self.run_lsx(run, k, unknown)
                if v:
                    return self.violation(v)
                continue
            v = self.run_kani(run, k, unknown)
            if v:
                return self.violation(v)
        # a harness that ran out of time is not covered; the verdict is about the others
        late = ["%s: not explored within the time limit" % n for n in self.late]
        if 3 * len(self.late) > len(self.results) + len(self.paths):
            unknown += late
        else:
            self.notes += late
            for u in late:
                print("UNEXPLORED property=%s %s" % (self.pid, u))
        self.evidence(0)
        if unknown:
            for u in unknown + self.notes:
                print("UNDECIDED property=%s %s" % (self.pid, u))
            return 2
        for line in known_findings(self.pid):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, line))
        print("HELD property=%s tier=%s harnesses=%d wall=%.1fs" % (self.pid, self.tier, len(self.results) + len(self.paths), time.time() - self.t0))
        return 0

    def violation(self, info):
        name, desc, (path, how) = info
        self.evidence(1)
        print("harness %s: %s" % (name, desc))
        print("reproduced: %s" % how)
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1


def build_lsx():
    tgt = os.path.join(BUILD, "lsx")
    rc, log = sh(["cargo", "build", "--release", "--offline", "--target-dir", tgt], os.path.join(VERIF, "lsx"), env("", "stable"), 300,
                 os.path.join(BUILD, "lsx.log"))
    if rc != 0:
        raise Fail("the path-wise engine does not build: " + log[-500:])
    return os.path.join(tgt, "release", "lsx")


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(pid, tier)
    try:
        rc = c.run()
    except Fail as e:
        print("UNDECIDED property=%s %s" % (pid, e))
        c.notes.append(str(e))
        c.evidence(0)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
