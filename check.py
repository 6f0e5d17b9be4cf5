#!/usr/bin/env python3
"""Decides one property: translates the functions it depends on from /repo to
Verus, joins them with their contracts, lets Verus discharge every obligation,
and runs the bounded search of the property on the real code, which also looks
for a failing input when an obligation fails.

usage: check.py <property id>      (VERIF_SEED, VERIF_TIER=quick|thorough)
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def sh(cmd, cwd=None, env=None, timeout=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        d = lambda b: b.decode("utf-8", "replace") if isinstance(b, bytes) else (b or "")
        return -1, d(e.stdout), d(e.stderr) + "\ntimed out"


def goenv(tmp):
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    e.setdefault("HOME", "/root")
    return e


class Proof:
    """The deductive part."""

    def __init__(self, pid, cfg, tmp, thorough):
        self.pid, self.cfg, self.tmp, self.thorough = pid, cfg, tmp, thorough
        self.errors = []      # (name of the obligation, text)
        self.obligations = self.discharged = 0
        self.solver_ms = 0
        self.report = {}
        self.cmd = ""
        self.log = ""
        self.probes = 0

    def gen(self, name, probe):
        out, rep = f"{self.tmp}/{name}.rs", f"{self.tmp}/{name}.json"
        cmd = [f"{self.tmp}/go2verus", "-repo", REPO, "-contracts", f"{V}/contracts", "-roots", ",".join(self.cfg["roots"]),
               "-specs", ",".join(self.cfg.get("specs", [])), "-out", out, "-report", rep, "-variant", self.cfg.get("variant", "")]
        if probe:
            cmd.append("-probe")
        rc, so, se = sh(cmd, timeout=120)
        r = {}
        try:
            r = json.load(open(rep))
        except Exception:
            pass
        if rc != 0 or r.get("fatal"):
            return None, r, r.get("fatal") or se
        return out, r, se

    def verus(self, out, extra):
        cmd = ["verus", out, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--num-threads", "8", "--no-report-long-running", "--rlimit", str(self.cfg.get("rlimit", 50))] + extra
        self.cmd = "verus <generated>.rs --triggers-mode silent --rlimit 50 --multiple-errors 3"
        return sh(cmd, cwd=self.tmp, timeout=int(self.cfg.get("timeout", 500)))

    @staticmethod
    def blocks(err):
        """error blocks of rustc output: (message, first line number, text)"""
        res = []
        for b in re.split(r"\n(?=error|warning|note: )", "\n" + err):
            b = b.strip("\n")
            if not b.startswith("error"):
                continue
            m = re.search(r"-->\s*\S+?:(\d+):", b)
            if not m:
                continue
            res.append((b.split("\n", 1)[0], int(m.group(1)), b))
        return res

    def owner(self, line):
        for f in self.report.get("funcs") or []:
            if f["start"] <= line <= f["end"]:
                return f["key"]
        for n, a, b in self.report.get("spec") or []:
            if a <= line <= b:
                return "lemma " + n
        return f"line {line}"

    def run(self):
        out, self.report, err = self.gen("gen", False)
        if out is None:
            self.errors.append(("translation", err))
            return
        for f in self.report["funcs"]:
            if f.get("error"):
                self.errors.append((f["key"], "not translated: " + f["error"]))
        rc, so, se = self.verus(out, ["--multiple-errors", "3"])
        self.log = se[-20000:]
        try:
            j = json.loads(so[so.index("{"):])
        except Exception:
            j = {}
        vr = j.get("verification-results", {})
        self.discharged = int(vr.get("verified", 0))
        self.obligations = self.discharged + int(vr.get("errors", 0))
        try:
            self.solver_ms = j["times-ms"]["smt"]["smt-run"]
        except Exception:
            self.solver_ms = 0
        if not vr.get("success"):
            bl = self.blocks(se)
            again = self.retry(out, bl, int(vr.get("errors", 0)))
            for msg, line, text in bl:
                if self.fname(out, line) not in again:
                    self.errors.append((self.owner(line), text[:3000]))
            self.discharged += len(again)
            if not bl:
                self.errors.append(("verifier", (se or so)[-3000:]))
        elif self.obligations == 0:
            self.errors.append(("verifier", "no obligations were generated"))
        missing = [k for k in self.cfg["roots"] if k not in [f["key"] for f in self.report["funcs"] if f["mode"] in ("verified", "dispatch")]]
        for k in missing:
            if k.split(".")[-1][0].islower() and k not in [f["key"] for f in self.report["funcs"]]:
                continue    # a private function which is gone
            self.errors.append((k, "the function is not verified"))

    def fname(self, out, line):
        """the name of the function of the generated text at the line"""
        for f in (self.report.get("funcs") or []):
            if f["start"] <= line <= f["end"]:
                a, b = f["start"], f["end"]
                break
        else:
            a, b = next(((a, b) for n, a, b in self.report.get("spec") or [] if a <= line <= b), (0, 0))
        if not hasattr(self, "lines"):
            self.lines = open(out).read().split("\n")
        for l in self.lines[max(a - 2, 0):b]:
            m = re.search(r"\bfn (\w+)", l)
            if m:
                return m.group(1)
        return None

    def retry(self, out, bl, failed):
        """the solver may fail on a true obligation by bad luck: every function which fails is verified again,
        alone, with other seeds of the solver; returns the functions whose obligations were all discharged then"""
        names = []
        for msg, line, text in bl:
            n = self.fname(out, line)
            if n is None:
                return set()        # not an obligation
            if n not in names:
                names.append(n)
        if len(names) != failed:
            return set()
        end = time.time() + 200
        done = set()

        def one(n, seed):
            if n in done or time.time() > end or os.path.exists(f"{self.tmp}/no-retry"):
                return
            rc, so, se = sh(["verus", out, "--triggers-mode", "silent", "--output-json", "--num-threads", "1", "--no-report-long-running", "--rlimit", "120",
                             "--verify-root", "--verify-function", n, "--smt-option", f"smt.random_seed={seed}"], cwd=self.tmp, timeout=100)
            try:
                v = json.loads(so[so.index("{"):])["verification-results"]
            except Exception:
                return
            if rc == 0 and v.get("encountered-error") is False and v.get("encountered-vir-error") is False and v.get("verified", 0) >= 1 and v.get("errors", 1) == 0:
                done.add(n)

        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda a: one(*a), [(n, k) for k in (7, 0, 23) for n in names[:6]]))
        return done

    @staticmethod
    def owner_in(rep, line):
        return next((f["key"] for f in rep["funcs"] if f["start"] <= line <= f["end"]), "axioms")

    def probe(self):
        """the assertions which must fail, at the start of every function with a contract and in its loops"""
        out, rep, err = self.gen("probe", True)
        if out is None:
            return
        lines = open(out).read().split("\n")
        want = {i + 1 for i, l in enumerate(lines) if l.rstrip().endswith("// probe")}
        rc, so, se = self.verus(out, ["--multiple-errors", "60"])
        if "timed out" in se:
            return
        got = {line for msg, line, text in self.blocks(se) if "assertion failed" in msg}
        # the solver gave up on the other assertions of these functions: it did not prove false
        gaveup = {self.owner_in(rep, line) for msg, line, text in self.blocks(se) if "Resource limit" in msg or "rlimit" in msg}
        # the spans of the failed assertion are on the line of the probe
        left = want - got
        dead = set(self.cfg.get("unreachable", []))
        self.probes = len(want) - len(left)
        if not got and self.errors:
            return
        for l in sorted(left):
            o = next((f["key"] for f in rep["funcs"] if f["start"] <= l <= f["end"]), "axioms")
            # the entry of a function with a loop which is never reached is reached
            if o in dead and any(self.owner_in(rep, x) == o for x in got):
                continue
            if o not in gaveup:
                self.errors.append((o, f"vacuous: the assertion of false at line {l} is proved: {lines[l-2].strip()}"))


def known():
    k, fx = {}, []
    for l in open(f"{V}/known-findings.txt"):
        m = re.match(r"known: property=(\S+) input=(\".*\") -- (.*)", l)
        if m:
            k.setdefault(m.group(1), []).append((m.group(2), m.group(3).strip()))
    return k


def searches(pid, tmp, seed, budget, scale, tag, kn, procs):
    """searches with different seeds at once; returns (results, error)"""
    exe = f"{tmp}/search"
    if not os.path.exists(exe):
        rc, so, se = sh(["go", "build", "-o", exe, f"./{pid.lower()}"], cwd=f"{tmp}/searchsrc", env=goenv(tmp), timeout=300)
        if rc != 0:
            return [], "the search does not build against the code: " + (se or so)[-3000:]
    with concurrent.futures.ThreadPoolExecutor(procs) as ex:
        fs = [ex.submit(search, pid, tmp, seed + 7919 * k, budget, scale, f"{tag}{k}", kn) for k in range(procs)]
        rs = [f.result() for f in fs]
    return [r for r, _ in rs if r], next((e for _, e in rs if e), None)


def search(pid, tmp, seed, budget, scale, tag, kn):
    """the bounded search; returns (result, error)"""
    exe = f"{tmp}/search"
    env = goenv(tmp)
    env["GOMAXPROCS"] = "2"
    kf = f"{tmp}/known-{tag}.txt"
    with open(kf, "w") as f:
        f.write("".join(i + "\n" for i, _ in kn))
    out = f"{tmp}/res-{tag}.json"
    rc, so, se = sh([exe, "-seed", str(seed), "-budget", str(budget), "-scale", str(scale), "-out", out, "-known", kf], env=env, timeout=budget + 90)
    try:
        return json.load(open(out)), None
    except Exception:
        # a crash that can't be recovered (stack overflow, fatal error)
        m = re.search(r"^(fatal error|panic): .*", se, re.M)
        cur = ""
        try:
            cb = open(out + ".cur", "rb").read()
            cur = cb[2:2 + cb[0] + 256 * cb[1]].decode("utf-8", "replace")
        except Exception:
            pass
        return {"evaluations": 0, "distinct": 0, "nontrivial": 0, "rule": "", "samples": [], "seconds": 0,
                "failures": [{"input": cur or "see detail", "detail": "the process ended: " + (m.group(0) if m else "") + " " + se[-1500:], "case": 0}]}, None


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    thorough = tier == "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    cfg = json.load(open(f"{V}/checks.json"))[pid]
    kn = known().get(pid, [])
    tmp = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        rc = check(pid, cfg, kn, tmp, tier, thorough, seed, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def check(pid, cfg, kn, tmp, tier, thorough, seed, t0):
    env = goenv(tmp)
    shutil.copytree(f"{V}/search", f"{tmp}/searchsrc")
    shutil.copytree(f"{V}/go2verus", f"{tmp}/g2vsrc")
    if REPO != "/repo":
        p = f"{tmp}/searchsrc/go.mod"
        s = open(p).read().replace("=> /repo", "=> " + REPO)
        open(p, "w").write(s)
    proof = None
    violations = []     # (obligation or input, text, has input)

    def do_proof():
        if not cfg.get("roots"):
            return None
        p = Proof(pid, cfg, tmp, thorough)
        rc, so, se = sh(["go", "build", "-o", f"{tmp}/go2verus", "."], cwd=f"{tmp}/g2vsrc", env=env, timeout=300)
        if rc != 0:
            p.errors.append(("translation", se))
            return p
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            a = ex.submit(p.run)
            b = ex.submit(p.probe)
            a.result()
            b.result()
        return p

    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fp = ex.submit(do_proof)
        fs = ex.submit(searches, pid, tmp, seed, 400 if thorough else 40, 12 if thorough else 2, "a", kn, 6 if thorough else 4)
        fs.add_done_callback(lambda f: any(r["failures"] for r in f.result()[0]) and open(f"{tmp}/no-retry", "w").close())
        proof, (runs, serr) = fp.result(), fs.result()

    fails = [f for r in runs for f in (r["failures"] or [])]
    if not fails and proof is not None and proof.errors and runs and not thorough:
        # an obligation failed: look longer for an input
        left = max(30, min(150, 800 - (time.time() - t0)))
        r2, e2 = searches(pid, tmp, seed * 1000 + 1, left, 8, "b", kn, 8)
        runs += r2
        fails = [f for r in runs for f in (r["failures"] or [])]

    os.makedirs(f"{V}/replay", exist_ok=True)
    rc = 0
    for i, what in kn:
        if any(x == json.loads(i) for r in runs for x in (r.get("known") or [])):
            print(f"KNOWN-FINDING: property={pid} {what}")
    nviol = 0
    if fails:
        f = fails[0]
        rp = f"{V}/replay/{pid}-{hashlib.sha1(f['input'].encode()).hexdigest()[:10]}.json"
        json.dump({"property": pid, "input": f["input"], "what": f["detail"], "case": f["case"],
                   "failed_obligations": [e[0] for e in proof.errors] if proof else [],
                   "replay": f"cd /verif/search && GOFLAGS=-mod=mod GOPROXY=off go run ./{pid.lower()} -seed {next((r.get('seed', seed) for r in runs if r['failures']), seed)} -scale {12 if thorough else 2} -budget 400"},
                  open(rp, "w"), indent=1, ensure_ascii=False)
        print(f"{pid}: {f['input'][:400]}: {f['detail'][:600]}")
        print(f"VIOLATION property={pid} replay={rp}")
        nviol, rc = 1, 1
    elif serr or (proof is not None and proof.errors):
        errs = (proof.errors if proof else []) + ([("search", serr)] if serr else [])
        names = sorted({e[0] for e in errs})
        rp = f"{V}/replay/{pid}-obligation-{hashlib.sha1(' '.join(names).encode()).hexdigest()[:10]}.json"
        json.dump({"property": pid, "failed_obligations": names, "details": [{"obligation": a, "verifier": b} for a, b in errs[:20]],
                   "failing_input": None}, open(rp, "w"), indent=1, ensure_ascii=False)
        for a, b in errs[:10]:
            print(f"{pid}: obligation of {a} is not discharged: {b[:700]}")
        print(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
        nviol, rc = 1, 1

    ev = sum(r["evaluations"] for r in runs)
    nt = max([r["nontrivial"] for r in runs] or [0])   # distinct within a run: a lower bound of all
    bounded = {"evaluations": ev, "distinct_nontrivial": nt, "rule": (runs[0]["rule"] if runs else ""), "samples": (runs[0]["samples"] or [])[:5] if runs else []}
    level = cfg["level"]
    cov = dict(bounded)
    assumptions = list(cfg.get("assumptions", []))
    if proof is not None:
        fs = proof.report.get("funcs") or []
        ver = [f["key"] for f in fs if f["mode"] in ("verified", "dispatch") and not f.get("error")]
        tru = [f["key"] for f in fs if f["mode"] == "trusted"]
        part = [f["key"] for f in fs if f["mode"] == "verified" and f.get("partial")]
        pv = {"obligations": proof.obligations, "discharged": proof.discharged, "checker_cmd": proof.cmd,
              "trusted_base": base(proof.report, tru), "backend": "Verus 0.2026.09.13 with its Z3", "solver_ms": proof.solver_ms,
              "functions_under_contract": [f["key"] for f in fs if f.get("contract")], "functions_verified": ver,
              "functions_inlined": proof.report.get("inlined") or [], "reachability_probes_failed_as_they_must": proof.probes,
              "termination_not_proved": part}
        if level == "proof":
            cov = dict(pv)
            cov["bounded_search"] = bounded
        else:
            cov.update({"partial_proof": pv})
        assumptions += ["trusted contract of " + k for k in tru]
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
               "wall_s": round(time.time() - t0, 2), "violations": nviol},
              open_evidence(pid), indent=1, ensure_ascii=False)
    if rc == 0:
        s = f"{pid}: held; search {ev} cases ({nt} non-trivial)"
        if proof is not None:
            s += f"; {proof.discharged}/{proof.obligations} obligations discharged, {proof.probes} probes"
        print(s + f"; {time.time()-t0:.1f} s")
    return rc


def base(rep, tru):
    b = ["Verus, its Z3, rustc", "go2verus: the translation of the Go functions (typed AST to Verus; values for slices and strings, explicit heaps for tree nodes)",
         "contracts/prelude.rs: the models of Go strings, slices, arrays and maps, and of the standard library functions: " + ", ".join(rep.get("std") or [])]
    b += ["go2verus assumes: " + a for a in (rep.get("assume") or [])]
    b += ["trusted contract of " + k for k in tru]
    return b


def open_evidence(pid):
    os.makedirs(f"{V}/evidence", exist_ok=True)
    return open(f"{V}/evidence/{pid}.json", "w")


if __name__ == "__main__":
    main()
