#!/usr/bin/env python3
"""check.py <property id>: decides one property of dockerfile-parser-rs.

1. builds the extractor and the bounded oracle against /repo's working tree;
2. extracts the functions the property depends on, puts the contracts of
   contracts/ on them and lets Verus discharge every obligation;
3. runs the bounded oracle (concrete executions of the real crate), which both
   stands in where a function is out of the verifier's reach and looks for the
   failing input behind a failed obligation.
Exit 0: held. Exit 1 + VIOLATION line: broken."""
import json
import shutil, os, re, subprocess, sys, time, threading
import vlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough" or "--thorough" in sys.argv


def log(*a):
    print(*a, flush=True)


def die(msg):
    log("ERROR:", msg)
    sys.exit(2)


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--offline", "-q", "--target-dir", TARGET], cwd=os.path.join(VERIF, "harness"),
                       capture_output=True, text=True, env=env)
    if p.returncode != 0:
        die("building the harness against %s failed:\n%s" % (REPO, p.stderr[-4000:]))
    return os.path.join(TARGET, "debug")


class Oracle:
    """bounded search on the real code"""

    def __init__(self, bindir, pid, seed, ms, threads):
        self.bin = os.path.join(bindir, "oracle")
        self.pid, self.seed, self.ms, self.threads = pid, seed, ms, threads
        self.trace = os.path.join(BUILD, "trace-%s-%d" % (pid, os.getpid()))
        self.t0 = time.time()
        self.p = subprocess.Popen([self.bin, pid, "--seed", str(seed), "--ms", str(ms), "--threads", str(threads), "--repo", REPO,
                                   "--trace", self.trace], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=BUILD)

    def wait(self):
        out, err = self.p.communicate(timeout=self.ms / 1000 + 240)
        res = None
        for line in out.split("\n"):
            if line.startswith("{"):
                res = json.loads(line)
        if self.p.returncode not in (0, 1) or res is None:
            # the process died (abort, stack overflow): the trace files name the case
            res = res or {"evaluations": 0, "nontrivial": 0, "distinct_nontrivial": 0, "samples": []}
            for th in range(self.threads):
                f = "%s.%d" % (self.trace, th)
                if os.path.exists(f):
                    r = subprocess.run([self.bin, self.pid, "--replay", f], capture_output=True, text=True)
                    if r.returncode != 0:
                        res["violation"] = {"case": json.load(open(f)), "message": "process died: " + (r.stdout + r.stderr)[-500:]}
                        break
            else:
                if not res.get("violation"):
                    die("oracle ended with %s\n%s" % (self.p.returncode, err[-2000:]))
        for th in range(64):
            f = "%s.%d" % (self.trace, th)
            if os.path.exists(f):
                os.remove(f)
        res["wall"] = time.time() - self.t0
        return res


class UnitRun:
    def __init__(self, name, extracted, cfg, baseline):
        self.name = name
        self.unit = vlib.Unit(name, extracted, cfg, baseline)
        self.failed, self.undecided, self.notes = [], {}, []
        self.verus = None
        self.runs = 0
        self.broken = None     # whole unit could not be checked

    def run(self, threads, timeout):
        u = self.unit
        for m in u.missing:
            self.undecided[m] = "function not found in the source"
        path = os.path.join(BUILD, "gen", "%s.rs" % self.name)
        for attempt in range(10):
            try:
                text = u.compose()
            except vlib.grammar.Unsupported as e:
                self.broken = "the grammar is outside what the contracts cover: %s" % e
                return
            open(path, "w").write(text)
            r = vlib.run_verus(path, threads=threads, timeout=timeout, extra=self.extra())
            self.runs += 1
            self.verus = r
            if r["timeout"]:
                self.broken = "verifier timed out"
                break
            vr = (r["results"] or {}).get("verification-results", {})
            hard = [d for d in r["errors"] if not vlib.is_verification_error(d) and not d["message"].startswith("aborting due to")]
            if not hard and vr.get("encountered-vir-error") is False:
                break
            # an extracted function the verifier does not accept: keep its contract, drop its body
            progress = set()
            for d in hard:
                for s in d.get("spans", []):
                    k = u.owner(s["line_start"])
                    if not s.get("is_primary") or k.startswith("@"):
                        continue
                    cur = u.dropped.get(k, (None, ""))[0]
                    nxt = "assume" if cur is None else ("bare" if cur == "assume" else None)
                    if k in progress:
                        break
                    if nxt:
                        u.dropped[k] = (nxt, d["message"][:200])
                        self.undecided[k] = "outside the verifier's reach: " + d["message"][:200]
                        progress.add(k)
                    break
            if not progress:
                self.broken = "composed file rejected: " + "; ".join(d["message"][:200] for d in hard[:3]) + ("" if hard else r["raw"][-500:])
                break
        self.classify()

    def extra(self):
        e = []
        if self.unit.cfg.get("rlimit"):
            e += ["--rlimit", str(self.unit.cfg["rlimit"])]
        return e

    def classify(self):
        u = self.unit
        for k, (mode, why) in u.dropped.items():
            self.undecided.setdefault(k, why)
        for k in u.drift:
            self.undecided.setdefault(k, "structure changed: " + "; ".join(u.drift[k]))
        if self.broken:
            return
        for d in self.verus["errors"]:
            if d["message"].startswith("aborting due to"):
                continue
            prim = [s for s in d.get("spans", []) if s.get("is_primary")] or d.get("spans", [])
            k = u.owner(prim[0]["line_start"]) if prim else "@unknown"
            # postcondition failures point at the ensures clause of the trait for impls: look at all spans
            if k.startswith("@prelude") or k == "@unknown":
                for s in d.get("spans", []):
                    o = u.owner(s["line_start"])
                    if not o.startswith("@prelude"):
                        k = o
                        break
            rl = "resource limit" in d["message"].lower() or "rlimit" in d["message"].lower()
            if k == "@lemma:ref_syntax.rs":
                # written differently, not necessarily accepting something else
                self.undecided.setdefault(k, "the grammar's rules are not those of the reference syntax: " + vlib.rendered(d)[:300])
                continue
            if k == "@gen:generated":
                # pest rewrote a rule in a way that norm (gen.rs) does not know
                self.undecided.setdefault(k, "the generated parser could not be matched to the grammar: " + vlib.rendered(d)[:300])
                continue
            if k in self.undecided or rl:
                self.undecided.setdefault(k, "solver resource limit" if rl else "obligation open")
            elif u.calls_unknown(k):
                self.undecided[k] = "calls code without a contract: " + ", ".join(u.calls_unknown(k))
            else:
                self.failed.append({"function": k, "obligation": d["message"], "text": vlib.rendered(d)})

    def verified_functions(self):
        if self.broken:
            return []
        bad = {f["function"] for f in self.failed} | set(self.undecided)
        return [k for k, m in self.unit.modes().items() if m == "verify" and k not in bad]


def differential(bindir, extracted, pid, with_grammar):
    """the assumed contracts on libraries, run against the libraries"""
    ms = 30000 if THOROUGH else 2000
    out, ps = {}, []
    tmp = os.path.join(BUILD, "%s-%d" % (pid, os.getpid()))
    try:
        if with_grammar:
            g = vlib.grammar.Grammar(extracted["grammar"])
            json.dump([[n, g.ty[n], g.body[n]] for n in g.order], open(tmp + "-core.json", "w"))
            ps.append(("pest against contracts/peg.rs", ["pegcheck", tmp + "-core.json"]))
        json.dump(extracted["regexes"], open(tmp + "-re.json", "w"))
        ps.append(("std and regex against contracts/prelude.rs, pair.rs, regex.rs", ["libcheck", tmp + "-re.json"]))
        for what, a in ps:
            try:
                p = subprocess.run([os.path.join(bindir, a[0])] + a[1:] + [REPO, str(SEED), str(ms)], capture_output=True, text=True, timeout=ms / 1000 + 120)
                out[what] = json.loads(p.stdout.strip('\n').split('\n')[-1])
            except (subprocess.TimeoutExpired, ValueError, IndexError) as e:
                out[what] = {"mismatch": None, "not_run": str(e)[:200]}
    except vlib.grammar.Unsupported as e:
        out["not_run"] = str(e)
    finally:
        for f in ("-core.json", "-re.json"):
            if os.path.exists(tmp + f):
                os.remove(tmp + f)
    return out


def dependency(bindir, name):
    """the extracted source of a dependency, as cargo resolves it for the crate"""
    p = subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=os.path.join(VERIF, "harness"),
                       capture_output=True, text=True, env=dict(os.environ, CARGO_NET_OFFLINE="true"))
    if p.returncode != 0:
        log("cargo metadata:", p.stderr[-500:])
        return None
    name, _, one = name.partition("/")   # a crate, or one file of it
    for k in json.loads(p.stdout)["packages"]:
        if k["name"] == name:
            src = os.path.join(os.path.dirname(k["manifest_path"]), "src")
            if one:
                d = os.path.join(BUILD, "dep-" + name)
                os.makedirs(d, exist_ok=True)
                shutil.copy(os.path.join(src, one), os.path.join(d, "lib.rs"))
                src = d
            q = subprocess.run([os.path.join(bindir, "extract"), src], capture_output=True, text=True)
            if q.returncode == 0:
                x = json.loads(q.stdout)
                x["version"] = k["version"]
                return x
            log("extraction of %s failed: %s" % (name, q.stderr[-500:]))
    return None


def vacuity(name, extracted, cfg, baseline, threads, timeout):
    """every precondition must be satisfiable: assert(false) at each entry has to fail"""
    u = vlib.Unit(name, extracted, cfg, baseline)
    u.reach = True
    path = os.path.join(BUILD, "gen", "%s_reach.rs" % name)
    try:
        open(path, "w").write(u.compose())
    except vlib.grammar.Unsupported:
        return None, []
    extra = []
    if cfg.get("rlimit"):
        extra += ["--rlimit", str(cfg["rlimit"])]
    r = vlib.run_verus(path, threads=threads, timeout=timeout, extra=extra, multi=0)
    if r["timeout"] or not r["results"]:
        return None, []
    failing = set()
    for d in r["errors"]:
        for s in d.get("spans", []):
            failing.add(u.owner(s["line_start"]))
    want = [k for k, m in u.modes().items() if m == "verify"]
    if r["results"].get("verification-results", {}).get("encountered-vir-error"):
        return None, []
    return len([k for k in want if k in failing]), [k for k in want if k not in failing]


def main():
    t0 = time.time()
    pid = sys.argv[1]
    props = json.load(open(os.path.join(VERIF, "contracts", "props.json")))
    units = json.load(open(os.path.join(VERIF, "contracts", "units.json")))
    baseline = json.load(open(os.path.join(VERIF, "contracts", "baseline.json")))
    cfg = props[pid]
    os.makedirs(os.path.join(BUILD, "gen"), exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    bindir = build()
    orc = Oracle(bindir, pid, SEED, cfg.get("ms_thorough", 180000) if THOROUGH else cfg.get("ms", 8000), 4)

    extracted, runs, reach, diff = None, [], {}, {}
    if cfg.get("units"):
        p = subprocess.run([os.path.join(bindir, "extract"), os.path.join(REPO, "src")], capture_output=True, text=True)
        if p.returncode == 0:
            extracted = json.loads(p.stdout)
            if any(units[u].get("generated") for u in cfg["units"]):
                q = subprocess.run([os.path.join(bindir, "gengram"), os.path.join(REPO, "src", "dockerfile_parser.pest")], capture_output=True, text=True)
                extracted["generated"] = json.loads(q.stdout) if q.returncode == 0 else {"no_skip": False, "rules": {}}
        else:
            log("extraction failed:", p.stderr[-1000:])
    sources = {}
    if extracted:
        ths = []
        for u in cfg["units"]:
            src = units[u].get("source")
            if src and src not in sources:
                sources[src] = dependency(bindir, src)
            x = sources[src] if src else extracted
            if x is None:
                continue
            ur = UnitRun(u, x, units[u], baseline)
            runs.append(ur)
            ths.append(threading.Thread(target=ur.run, args=(4, 400 if THOROUGH else 240)))

            def vac(u=u, x=x):
                reach[u] = vacuity(u, x, units[u], baseline, 2, 240)
            ths.append(threading.Thread(target=vac))
        diff = {}
        ths.append(threading.Thread(target=lambda: diff.update(differential(bindir, extracted, pid, any(units[u].get("automata") for u in cfg["units"])))))
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    ores = orc.wait()
    evals = {"evaluations": ores["evaluations"], "nontrivial": ores["nontrivial"], "distinct_nontrivial": ores["distinct_nontrivial"]}

    failed = [dict(f, unit=r.name) for r in runs for f in r.failed]
    undecided = {"%s: %s" % (r.name, k): v for r in runs for k, v in r.undecided.items()}
    for r in runs:
        if r.broken:
            undecided[r.name] = r.broken
        if units[r.name].get("source") and r.failed:
            # another version of the dependency: nothing about the repository's code
            undecided[r.name] = "the source of %s does not meet its contract: %s" % (units[r.name]["source"], [f["function"] for f in r.failed])
            failed = [f for f in failed if f["unit"] != r.name]
    for d, x in sources.items():
        if x is None:
            undecided[d] = "its source was not found"
    if cfg.get("units") and not extracted:
        undecided["extraction"] = "the source could not be extracted"
    for what, r in diff.items():
        if isinstance(r, dict) and r.get("mismatch"):
            # a proof over an assumption that the libraries do not meet decides nothing
            undecided["assumption: " + what] = r["mismatch"][:600]
            failed = []
    vac_bad = ["%s: %s" % (u, k) for u, (n, bad) in reach.items() for k in bad]

    # an open or failed obligation: search longer for a concrete failing input
    if not ores.get("violation") and (failed or undecided):
        ms = 60000 if failed else 30000
        log("searching %d s for a failing input (%d failed obligations, %d undecided)" % (ms // 1000, len(failed), len(undecided)))
        more = Oracle(bindir, pid, SEED + 7919, ms * (4 if THOROUGH else 1), 8).wait()
        for k in evals:
            evals[k] += more[k] if k in more else 0
        if more.get("violation"):
            ores["violation"] = more["violation"]

    # ------------------------------------------------------------- verdict
    rc, line = 0, None
    replay = os.path.join(EVID, "replay-%s.json" % pid)
    if os.path.exists(replay):
        os.remove(replay)
    if ores.get("violation"):
        json.dump(ores["violation"]["case"], open(replay, "w"), indent=1)
        json.dump({"property": pid, "message": ores["violation"]["message"], "failed_obligations": failed, "undecided": undecided,
                   "replay": "%s %s --replay %s" % (os.path.join(bindir, "oracle"), pid, replay)}, open(replay + ".info", "w"), indent=1)
        log("failing input: %s" % json.dumps(ores["violation"]["case"])[:2000])
        log("  %s" % ores["violation"]["message"][:2000])
        for f in failed[:5]:
            log("failed obligation in %s: %s" % (f["function"], f["obligation"]))
        rc, line = 1, "VIOLATION property=%s replay=%s" % (pid, replay)
    elif failed:
        json.dump({"property": pid, "failed_obligations": failed, "undecided": undecided,
                   "note": "obligations that Verus discharges on the original tree and that now fail; no failing input found"}, open(replay, "w"), indent=1)
        for f in failed[:5]:
            log("failed obligation in %s: %s\n%s" % (f["function"], f["obligation"], f["text"]))
        rc, line = 1, "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay)

    # ------------------------------------------------------------ evidence
    obligations = discharged = 0
    smt_ms = 0
    fns, trusted, cmds = {}, set(), []
    for r in runs:
        if r.verus and r.verus["results"]:
            vr = r.verus["results"].get("verification-results", {})
            obligations += vr.get("verified", 0) + vr.get("errors", 0)
            discharged += vr.get("verified", 0)
            tm = r.verus["results"].get("times-ms", {})
            smt_ms += (tm.get("smt", {}) or {}).get("smt-run", 0) if isinstance(tm.get("smt"), dict) else 0
        cmds.append(" ".join(r.verus["cmd"]) if r.verus else "")
        fns[r.name] = {"proved_against_contract": r.verified_functions(),
                       "assumed": [k for k, m in r.unit.modes().items() if m != "verify"]}
        trusted |= set(vlib.trusted_scan(os.path.join(BUILD, "gen", r.name + ".rs")))
        if units[r.name].get("source"):
            fns[r.name]["source"] = "%s %s, from cargo's registry" % (units[r.name]["source"], sources[units[r.name]["source"]]["version"])
    if "unquote" in fns.get("ENQ", {}).get("proved_against_contract", []):
        trusted.discard("v_unquote")  # the same contract, proved of the crate's source
    n_ok = sum(len(v["proved_against_contract"]) for v in fns.values())
    cov = {
        "evaluations": evals["evaluations"], "distinct_nontrivial": evals["distinct_nontrivial"],
        "rule": cfg.get("rule", "inputs generated by harness/src/bin/oracle/gen.rs (grammar-directed documents, corpus files, dictionary harvested from the source, mutations); non-trivial when the part of the result this property constrains is present"),
        "samples": ores.get("samples", [])[:6],
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": " ; ".join(cmds) or "none",
        "trusted_base": sorted(trusted) + ["Verus 0.2026.09.13 and Z3", "extraction rules of harness/src/bin/extract (DESIGN.md)"] if runs else [],
        "functions": fns, "functions_proved": n_ok,
        "failed_obligations": failed, "undecided": undecided,
        "assumptions_tested": diff,
        "reachability": {u: {"entries_reachable": n, "vacuous": b} for u, (n, b) in reach.items()},
        "proved": cfg.get("proved", ""), "bounded": cfg.get("bounded", ""),
        "solver_ms": smt_ms, "verifier_runs": sum(r.runs for r in runs),
        "explanation": cfg.get("explanation", "contracts on extracted code discharged by Verus where listed; the bounded oracle stands in elsewhere and is not counted as proof"),
    }
    ev = {"property": pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": cfg["level"], "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + vlib.STANDING_ASSUMPTIONS if runs else cfg.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if rc else 0}
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)

    for l in open(os.path.join(VERIF, "known_findings.txt")):
        if l.startswith("finding: property=%s " % pid):
            log("KNOWN-FINDING: " + l[len("finding: "):].strip())
    for k, v in undecided.items():
        log("undecided: %s (%s)" % (k, v))
    log("%s: %d/%d obligations discharged (%d units), %d functions proved against their contracts; %d inputs run, %d distinct non-trivial; %.1f s"
        % (pid, discharged, obligations, len(runs), n_ok, evals["evaluations"], evals["distinct_nontrivial"], time.time() - t0))
    if rc == 0:
        # guards against an empty check
        if runs and extracted and not undecided and (obligations == 0 or n_ok == 0):
            die("no obligations generated")
        if vac_bad and not undecided:
            die("precondition not reachable: " + ", ".join(vac_bad))
        if evals["evaluations"] == 0:
            die("the oracle ran nothing")
    if line:
        log(line)
    sys.exit(rc)


if __name__ == "__main__":
    main()
