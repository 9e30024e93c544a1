#!/usr/bin/env python3
"""check.py <PROPERTY>  -- decide one property by symbolic execution of the real code.

1. build the property's harness crate (and, through its path dependencies, /repo's current tree)
   to one whole-program LLVM module, and natively for replay;
2. run the engine on every entry, raising the bound along the entry's ladder;
3. replay every counterexample and a sample of the completed paths natively;
4. write evidence/<id>.json, print VIOLATION / KNOWN-FINDING lines.
Exit 0 held within the stated bounds, 1 violation, 2 error of the check.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(ROOT, "target")
ENGINE = os.path.join(ROOT, "engine/target/release/symrun")
EV = os.path.join(ROOT, "evidence")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def run(cmd, cwd, timeout, env=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout, errors="replace")


def build_engine():
    env = dict(ENV, CARGO_TARGET_DIR=os.path.join(ROOT, "engine/target"))
    r = run(["cargo", "build", "--release", "--offline"], os.path.join(ROOT, "engine"), 600, env)
    if r.returncode:
        raise CheckError("engine build failed:\n" + r.stdout[-4000:])


def forget(profile, names):
    """Make cargo rebuild these crates whatever their time stamps say."""
    for n in names:
        for d in glob.glob(f"{TARGET}/{profile}/.fingerprint/{n}-*"):
            if re.fullmatch(re.escape(n) + r"-[0-9a-f]{16}", os.path.basename(d)):
                shutil.rmtree(d, ignore_errors=True)


REPO_CRATES = ["parse-display", "parse-display-derive", "parse-display-with", "pdd-mirror"]


class BuildFailed(CheckError):
    def __init__(self, what, out):
        super().__init__(f"{what} failed")
        self.out = out


def build_ir(crate_dir, name):
    forget("release", REPO_CRATES + [name])
    for f in glob.glob(f"{TARGET}/release/deps/{name.replace('-', '_')}-*.ll"):
        os.unlink(f)
    env = dict(ENV, CARGO_TARGET_DIR=TARGET)
    r = run(["cargo", "rustc", "--release", "--offline", "--bin", name, "--", "--emit=llvm-ir", "-C", "no-vectorize-loops",
             "-C", "no-vectorize-slp", "-C", "linker=/bin/true"], crate_dir, 800, env)
    if r.returncode:
        raise BuildFailed("symbolic build", r.stdout)
    ll = glob.glob(f"{TARGET}/release/deps/{name.replace('-', '_')}-*.ll")
    if len(ll) != 1:
        raise CheckError(f"expected one LLVM module, found {ll}")
    return ll[0]


def build_native(crate_dir, name, profile):
    """profile: dev or replay (release without LTO, unwinding)."""
    pdir = "debug" if profile == "dev" else profile
    forget(pdir, REPO_CRATES + [name])
    env = dict(ENV, CARGO_TARGET_DIR=TARGET)
    r = run(["cargo", "build", "--offline", "--bin", name, "--features", "native", "--profile", profile], crate_dir, 800, env)
    if r.returncode:
        raise BuildFailed(f"native build ({profile})", r.stdout)
    return f"{TARGET}/{pdir}/{name}"


def native_run(binary, cases, tag):
    """cases: [(entry, params, hex)] -> [(outcome, [obs])]"""
    if len(cases) > 400:  # one process per chunk
        k = (len(cases) + JOBS - 1) // JOBS
        with cf.ThreadPoolExecutor(JOBS) as ex:
            parts = ex.map(lambda i: native_run1(binary, cases[i:i + k], f"{tag}-{i}"), range(0, len(cases), k))
            return [x for p in parts for x in p]
    return native_run1(binary, cases, tag)


def native_run1(binary, cases, tag):
    done = []
    for _ in range(6):
        if len(done) == len(cases):
            break
        rest = cases[len(done):]
        path = os.path.join(TARGET, f"replay-{tag}.txt")
        with open(path, "w") as f:
            for e, p, h in rest:
                f.write(f"{e} {','.join(map(str, p)) or '-'} {h}\n")
        try:
            r = subprocess.run([binary, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=90)
            stdout, how = r.stdout, f"crash:{r.returncode}"
        except subprocess.TimeoutExpired as e:
            stdout, how = e.stdout or b"", "hang"
        os.unlink(path)
        out = {}
        for line in stdout.decode(errors="replace").splitlines():
            m = re.match(r"RESULT (\d+) (\S+) ?(.*)$", line)
            if m:
                out[int(m[1])] = (m[2], [int(x, 16) for x in m[3].split(",") if x])
        k = 0
        while k in out:
            done.append(out[k])
            k += 1
        if k < len(rest):  # this case killed or stalled the process; go on after it
            done.append((how, []))
    return done + [("unknown", [])] * (len(cases) - len(done))


def engine(ll, entry, params, timeout, qto, traces, tag, dump=None):
    out = os.path.join(TARGET, f"sym-{tag}-{entry}-{'_'.join(map(str, params))}.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [ENGINE, "--ll", ll, "--entry", ":".join([entry] + list(map(str, params))), "--out", out, "--timeout", str(timeout),
           "--query-timeout", str(qto), "--traces", str(traces)]
    if dump:
        cmd += ["--dump", dump, "--dump-every", "50"]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 60, errors="replace")
    except subprocess.TimeoutExpired:
        return {"entry": entry, "params": params, "complete": False, "timeout": True, "error": None, "violations": [], "traces": []}
    if not os.path.exists(out):
        return {"entry": entry, "params": params, "complete": False, "timeout": False, "error": f"engine died rc={r.returncode}: {r.stdout[-600:]}",
                "violations": [], "traces": []}
    with open(out) as f:
        res = json.load(f)[0]
    os.unlink(out)
    if res["timeout"] and (res["error"] or "").startswith("time budget"):
        res["error"] = None
    return res


SOFT = time.time() + 300  # quick: no optional rung is started after this


def climb(ll, spec, tier, deadline, tag, dump):
    """Raise the bound along the ladder; stop at a violation, an error or a timeout."""
    quick = tier == "quick"
    ladder = spec.get("ladder", [[]]) + ([] if quick else spec.get("thorough", []))
    floor = spec.get("floor", 1)  # levels tried whatever they cost; later ones only while cheap enough
    budget = spec.get("budget", 12) if quick else spec.get("thorough_budget", 1800)
    done, last = [], 0.0
    for i, p in enumerate(ladder):
        left = deadline - time.time()
        due = i < floor or any(not any(r.get("reached", {}).get(str(m)) for r in done) for m in spec.get("reach", []))
        if left < 2 or (not due and (last * 3 > budget or (quick and time.time() > SOFT))):
            break
        per = left if due else min(left, budget * 3)
        t = time.time()
        r = engine(ll, spec["entry"], p, per, 30000, 60 if quick else 150, tag, dump)
        last = time.time() - t
        done.append(r)
        if os.environ.get("VERIF_VERBOSE"):
            log("  ", spec["entry"], p, {k: r.get(k) for k in ("complete", "paths", "forks", "z3_calls", "solver_s", "wall_s", "n_violations", "error", "timeout", "reached")})
        if r["error"] or r["timeout"] or r["violations"]:
            break
    return done


def repo_builds():
    tgt = os.path.join(ROOT, "target/repo-build")
    r = run(["cargo", "build", "--offline", "--workspace"], REPO, 600, dict(ENV, CARGO_TARGET_DIR=tgt))
    return r.returncode == 0, r.stdout


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    os.makedirs(TARGET, exist_ok=True)
    evf = os.path.join(EV, f"{prop}.json")
    if os.path.exists(evf):
        os.unlink(evf)
    cfg = json.load(open(os.path.join(ROOT, "checks", f"{prop}.json")))
    known = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"] if k["property"] == prop]
    budget = (700 if tier == "quick" else 6 * 3600)
    deadline = t0 + budget
    build_engine()

    violations, notes, results, samples, errors = [], [], [], [], []
    replay_dir = os.path.join(EV, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    for f in glob.glob(os.path.join(replay_dir, f"{prop}-*")):
        os.unlink(f)
    validated, native_bins = 0, []
    build_s = 0.0
    for h in cfg["harnesses"]:
        if isinstance(h["entries"], dict):  # {"entry names": {common spec}}
            h["entries"] = [dict(spec, entry=e) for names, spec in h["entries"].items() for e in names.split()]
    harnesses = [h for h in cfg["harnesses"] if tier == "thorough" or not h.get("thorough_only")]

    def prepare(h):
        """-> (crate dir, None) or (None, reason) for kernels whose private API has moved."""
        crate = os.path.join(ROOT, "harness", h["crate"])
        if h.get("prepare"):
            r = run(["python3", os.path.join(ROOT, h["prepare"]), REPO, ROOT], ROOT, 120)
            if r.returncode:
                return None, "preparing the kernel mirror failed: " + r.stdout[-600:]
        return crate, None

    for h in harnesses:
        tb = time.time()
        name = h["crate"].replace("/", "-")
        crate, why = prepare(h)
        if crate is None:
            notes.append(f"harness {name} skipped: {why}")
            continue
        with cf.ThreadPoolExecutor(2) as ex:
            fi = ex.submit(build_ir, crate, name)
            fn = ex.submit(build_native, crate, name, "dev")
            try:
                ll, dev = fi.result(), fn.result()
            except BuildFailed as e:
                try:
                    fn.result()
                except CheckError:
                    pass
                if h.get("optional"):
                    # a harness over private functions: their signatures are free to change
                    notes.append(f"harness {name} did not compile against the current private API and was left out: "
                                 + " / ".join(re.findall(r"^error.*$", e.out, re.M)[:4]))
                    continue
                ok, out = repo_builds()
                if not ok:
                    raise CheckError("/repo itself does not build:\n" + out[-3000:])
                if not re.search(r"^error", e.out, re.M) or "No space left" in e.out or "could not execute process" in e.out:
                    raise CheckError(str(e) + "\n" + e.out[-3000:])
                # the corpus consists of documented, valid uses; the tree builds and rejects one of them
                rp = os.path.join(replay_dir, f"{prop}-{name}-rejected.txt")
                with open(rp, "w") as f:
                    f.write(f"# valid program(s) rejected; reproduce: cd {crate} && cargo build --features native\n" + e.out[-20000:])
                violations.append({"harness": name, "kind": "valid program rejected by the derive macro", "replay": rp,
                                   "what": " / ".join(re.findall(r"^error.*$", e.out, re.M)[:3])})
                continue
        build_s += time.time() - tb
        log(f"built {name} in {time.time() - tb:.1f}s")
        specs = [s for s in h["entries"] if tier == "thorough" or not s.get("thorough_only")]
        dump = None
        if tier == "thorough":
            dump = os.path.join(TARGET, f"dump-{prop}-{name}")
            shutil.rmtree(dump, ignore_errors=True)
            os.makedirs(dump)
        share = deadline if tier == "thorough" else time.time() + max(60, (deadline - time.time()) / (len(harnesses) - harnesses.index(h)))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            # heavy entries first
            order = sorted(specs, key=lambda s: -s.get("weight", 1))
            all_runs = list(ex.map(lambda s: (s, climb(ll, s, tier, share, f"{prop}-{name}", dump)), order))
        # --- judge
        cases, refs = [], []
        for s, runs in all_runs:
            for r in runs:
                for v in r["violations"]:
                    cases.append((s["entry"], r["params"], v["input"]))
                    refs.append(("viol", s, r, v))
                for t in r["traces"]:
                    cases.append((s["entry"], r["params"], t["input"]))
                    refs.append(("trace", s, r, t))
        outs = native_run(dev, cases, f"{prop}-{name}")
        rel = None
        mism = []
        for (kind, s, r, x), (o, obs), case in zip(refs, outs, cases):
            if kind == "trace":
                if o == "unknown":
                    continue
                if o.startswith(("panic", "crash", "hang")):
                    # the debug build (overflow checks, debug assertions, real stack) stops where the optimised one does not
                    rp = os.path.join(replay_dir, f"{prop}-{len(violations)}.json")
                    json.dump({"property": prop, "harness": name, "entry": s["entry"], "params": r["params"], "input": x["input"],
                               "engine": "completed (optimised build)", "native": {"dev": o},
                               "input_text": bytes.fromhex(x["input"]).decode("utf-8", "backslashreplace"),
                               "reproduce": f"{ROOT}/replay.sh {rp}"}, open(rp, "w"), indent=1)
                    if len(violations) < 20:
                        violations.append({"harness": name, "entry": s["entry"], "kind": "stops in the debug build", "input": x["input"],
                                           "replay": rp, "what": f"{s['entry']} on input {x['input']}: debug build {o}"})
                    continue
                if o != "done" or obs != x["obs"]:
                    mism.append((case, o, obs, x["obs"]))
                else:
                    validated += 1
                    if len(samples) < 12 and x["forks"] > 0 and validated % 7 == 1:
                        samples.append({"harness": name, "entry": s["entry"], "params": r["params"], "input": x["input"], "outcome": o})
            else:
                if rel is None:
                    rel = build_native(crate, name, "replay")
                o2, _ = native_run(rel, [case], f"{prop}-{name}-rel")[0]
                repro = {"dev": o, "release": o2}
                if o in ("done", "assume", "unknown") and o2 in ("done", "assume", "unknown"):
                    errors.append(f"counterexample does not reproduce natively: {name} {case} engine says {x['kind']}, native {repro}")
                    continue
                rp = os.path.join(replay_dir, f"{prop}-{len(violations)}.json")
                json.dump({"property": prop, "harness": name, "entry": s["entry"], "params": r["params"], "input": x["input"],
                           "engine": x["kind"], "native": repro, "input_text": bytes.fromhex(x["input"]).decode("utf-8", "backslashreplace"),
                           "stack": x["stack"], "reproduce": f"{ROOT}/replay.sh {rp}"}, open(rp, "w"), indent=1)
                violations.append({"harness": name, "entry": s["entry"], "kind": x["kind"], "input": x["input"], "replay": rp,
                                   "what": f"{s['entry']} {x['kind']} on input {x['input']} native={repro}"})
        if mism:
            errors.append(f"engine and native execution disagree on {len(mism)} completed path(s), first: {mism[0]}")
        for s, runs in all_runs:
            full = [r for r in runs if r["complete"]]
            bad = [r for r in runs if r["error"]]
            unk = [r for r in runs if r.get("unknown")]
            if any(r["violations"] for r in runs):
                continue
            if bad:
                errors.append(f"{name}/{s['entry']}: {bad[0]['error']}")
                continue
            if unk:
                errors.append(f"{name}/{s['entry']}: solver gave up on {unk[0]['unknown']} queries")
                continue
            if not full:
                errors.append(f"{name}/{s['entry']}: smallest bound {s.get('ladder', [[]])[0]} did not finish in time")
                continue
            if h.get("optional") and any(r["reached"].get("90") for r in full):
                notes.append(f"{name}/{s['entry']}: the generated code no longer has the form this kernel reads; left out")
                continue
            best = full[-1]
            for m in s.get("reach", []):
                if not any(r.get("reached", {}).get(str(m)) for r in runs):
                    errors.append(f"{name}/{s['entry']}: vacuous, marker {m} never reached")
            if best["checks"] == 0:
                errors.append(f"{name}/{s['entry']}: vacuous, no assertion was reached")
                continue
            results.append((name, s, full, [r for r in runs if not r["complete"]]))
        if dump:
            cfgx = cross_check(dump)
            notes.append(cfgx)
            shutil.rmtree(dump, ignore_errors=True)
        native_bins.append(dev)

    if errors and not violations:  # a confirmed violation outranks trouble elsewhere
        raise CheckError("\n".join(errors[:20]))
    if not results and not violations:
        raise CheckError("nothing was decided: " + "; ".join(notes))
    notes += ["trouble elsewhere: " + e for e in errors[:20]]

    # --- known findings: replay each listed case; report only while it still fails
    fresh = []
    for v in violations:
        hit = next((k for k in known if k.get("entry") == v.get("entry") and k.get("kind") == v["kind"]
                    and (v.get("input") in k.get("inputs", []))), None)
        if hit:
            log(f"KNOWN-FINDING: property={prop} {hit['what']}")
        else:
            fresh.append(v)

    # --- evidence
    tot = lambda k: sum(r[k] for _, _, full, part in results for r in full + part if k in r)
    fns = sorted({n for _, _, full, _ in results for r in full for n in r["fn_names_pd"]})
    fsym = sorted({n for _, _, full, _ in results for r in full for n in r["fn_names_symbolic"]})
    for name, s, full, _ in results:
        if len(samples) < 6 and full[-1]["traces"]:
            samples.append({"harness": name, "entry": s["entry"], "params": full[-1]["params"], "input": full[-1]["traces"][0]["input"], "outcome": "done"})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("forks"),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "exhaustive": not fresh,
            "what": "states = symbolic paths explored to the end (each stands for every input with its path condition); "
                    "transitions = solver-decided forks; every path inside the stated bound was explored for the entries listed under bounds",
            "bounds": [{"harness": n, "entry": s["entry"], "params": full[-1]["params"], "meaning": s.get("bound", cfg.get("bound", "")),
                        "paths": full[-1]["paths"], "assertions": full[-1]["checks"], "wall_s": full[-1]["wall_s"],
                        "not_completed": [r["params"] for r in part]} for n, s, full, part in results],
            "assertions_checked": tot("checks"), "assertions_symbolic": tot("checks_sym"),
            "queries_discharged": tot("queries"), "queries_answered_from_cache": tot("cache_hits"), "z3_calls": tot("z3_calls"),
            "z3_sat": tot("sat"), "z3_unsat": tot("unsat"), "z3_unknown": tot("unknown"), "solver_s": round(tot("solver_s"), 3),
            "instructions_interpreted": tot("steps"),
            "functions_encoded_repo": fns[:300], "functions_with_symbolic_data": len(fsym), "functions_with_symbolic_data_names": fsym[:200],
            "solver": next((r["z3"] for _, _, full, _ in results for r in full), ""),
            "build_s": round(build_s, 1),
            "notes": notes,
            "outside": cfg.get("outside", ""),
        },
        "assumptions": cfg.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(evf, "w") as f:
        json.dump(ev, f, indent=1)
    for v in fresh:
        log(f"VIOLATION property={prop} replay={v['replay']}")
        log("  " + v["what"])
    for n in notes:
        log("note: " + n)
    log(f"{prop}: {len(results)} entries decided, paths={ev['coverage']['states']} assertions={ev['coverage']['assertions_checked']} "
        f"z3={ev['coverage']['z3_calls']} ({ev['coverage']['solver_s']}s) validated={validated} build={build_s:.1f}s wall={ev['wall_s']}s violations={len(fresh)}")
    return 1 if fresh else 0


COMMON_ASSUMPTIONS = [
    "the engine's reading of LLVM IR (validated on every run by replaying sampled paths against the native build)",
    "rustc/LLVM's optimised whole-program module (panic=abort, fat LTO, x86-64) means what the native build means",
    "memory allocation succeeds; hash-map keys are fixed",
    "the oracle in the harness states the property",
]


def cross_check(dump):
    """Ask a second solver the dumped queries."""
    files = sorted(glob.glob(dump + "/*.smt2"))[:300]
    n = bad = unk = 0
    for f in files:
        want = open(f).readline().split()[-1]
        try:
            r = subprocess.run(["cvc5", "--tlimit=20000", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=40)
        except subprocess.TimeoutExpired:
            unk += 1
            continue
        ans = r.stdout.split()[:1]
        if ans == [want]:
            n += 1
        elif ans and ans[0] in ("sat", "unsat"):
            bad += 1
        else:
            unk += 1
    if bad:
        raise CheckError(f"cvc5 disagrees with z3 on {bad} dumped queries")
    return f"cross-check: cvc5 agrees on {n} dumped queries, no answer on {unk}"


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        log("ERROR:", e, getattr(e, "out", "")[-3000:])
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        log("ERROR: timeout", e)
        sys.exit(2)
