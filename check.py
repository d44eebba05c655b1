#!/usr/bin/env python3
"""Runner: decides one property by discharging its proof obligations with Kani/CBMC.

usage: check.py PROPERTY [--tier quick|thorough]     check.py --build-only

Every run recompiles /repo's current tree together with the contract harnesses in
/verif/kani (Kani extracts the goto program mechanically from the compiled MIR) and
re-discharges every obligation.  Then
  * an obligation FAILED: look for a concrete failing input with the native search in
    /verif/witness and with Kani's concrete playback -> VIOLATION line, exit 1
  * all discharged: exit 0
  * some undecided (lost anchor, unwinding, unsupported construct, timeout, vacuous
    harness): neither a pass nor an alarm of the verifier.  They are printed as UNDECIDED and
    not counted as discharged; the native search stands in (bounded): exit 0 if it is quiet.
  * scope stated as outside the verifier's reach (obligations.STANDIN) is searched natively on
    every run, labelled bounded.
  * /repo does not build: exit 2.
"""
import io, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
from obligations import CHECKS, HARNESSES, STANDIN, TRUSTED, WITNESS  # noqa: E402

CRATE = os.path.join(VERIF, "kani")
WORK = os.path.join(VERIF, ".work")
WCRATE = os.path.join(VERIF, "witness")
BASE = ["-Z", "stubbing", "-Z", "unstable-options", "--no-assertion-reach-checks"]
CBMC = ["--cbmc-args", "--unwindset", "memcmp.0:14"]
# categories that mean "not decided", never "violated"
UNDECIDED = ("unwind", "unsupported_construct", "reachability_check", "recursion")


def env(target):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = target
    e.pop("RUSTFLAGS", None)
    return e


def kani(target, harnesses, timeout, extra=(), jobs=8, out=None, tag="run"):
    js = os.path.join(target, tag + ".json")
    if os.path.exists(js):
        os.remove(js)
    cmd = ["cargo", "kani", *BASE, "--output-format", "terse", "-j", str(jobs),
           "--harness-timeout", "%ds" % timeout, "--export-json", js, *extra]
    for h in harnesses:
        cmd += ["--harness", h]
    cmd += ["--exact", *CBMC]
    try:
        p = subprocess.run(cmd, cwd=CRATE, env=env(target), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout * max(1, (len(harnesses) + jobs - 1) // jobs) + 240)
        text = p.stdout
    except subprocess.TimeoutExpired as x:
        text = (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
    if out:
        with open(out, "a") as f:
            f.write(text)
    data = None
    if os.path.exists(js):
        try:
            data = json.load(open(js))
        except Exception:
            data = None
    return cmd, text, data


def prove(target, harnesses, timeout, out):
    """Run the verifier; contract modules that no longer compile against /repo are left out.
    -> (command, output, data, {module: reason})"""
    off = {}
    for _ in range(6):
        hs = [h for h in harnesses if not dead(h.split("::")[0], off)]
        if not hs:
            return [], "", None, off
        extra = ("--features", ",".join("off_" + m for m in sorted(off))) if off else ()
        cmd, text, data = kani(target, hs, timeout, extra=extra, out=out)
        if data and data["verification_results"]["results"]:
            return cmd, text, data, off
        errs = {}
        for m in re.finditer(r"^error(?:\[\w+\])?: (.*)\n\s*--> src/(\w+)\.rs:", text, re.M):
            errs.setdefault(m.group(2), m.group(1))
        if not errs:
            return cmd, text, None, off
        new = {}
        for m, why in errs.items():
            if m not in off and m in GATED:
                new[m] = why
            elif "ghost" not in off:
                new["ghost"] = why
        if not new:
            return cmd, text, None, off
        off.update(new)
    return cmd, text, None, off


GATED = {"c_wide", "c_freeze", "c_perm15", "c_inode", "c_key", "c_leaf", "c_perm", "c_version", "c_suffix", "c_value", "c_alloc", "rg", "ghost", "seq", "seq_split",
         "seq_ins", "seq_create", "rg_get", "seq_walk"}
NEEDS = {"c_leaf": ["c_perm"], "c_freeze": ["c_perm"], "c_alloc": ["c_value", "ghost"], "c_version": ["rg"],
         **{m: ["ghost"] for m in ("seq", "seq_split", "seq_ins", "seq_create", "rg_get", "seq_walk")}}


def dead(mod, off):
    return mod in off or any(n in off for n in NEEDS.get(mod, []))


def search(prop, target, seconds, seed, log):
    """Native search for a concrete failing input. -> (None or a description, [summary lines])"""
    wt = os.path.join(target, "w")
    done = []
    for i, (b, part) in enumerate(WITNESS[prop]):
        p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bin", b], cwd=WCRATE, env=env(wt), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=240)
        if p.returncode:
            log.write("\nwitness %s does not build:\n%s\n" % (b, p.stdout[-3000:]))
            done.append("%s %s: does not build against this tree" % (b, part))
            continue
        secs = max(3, seconds // len(WITNESS[prop]))
        cmd = [os.path.join(wt, "debug", b), part, str(secs), str(seed)]
        try:
            p = subprocess.run(cmd, cwd=target, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                               timeout=secs + 100)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as x:
            rc, out = None, x.stdout.decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        last = re.findall(r"^case (\d+)$", out, re.M)
        m = re.search(r"^WITNESS .*$", out, re.M)
        q = re.search(r"^QUIET .*$", out, re.M)
        if rc == 0 and q:
            done.append("%s %s: %s" % (b, part, q.group(0)))
            continue
        if rc is None and not m:
            done.append("%s %s: no answer within %d s" % (b, part, secs + 100))
            continue
        case = last[-1] if last else "0"
        what = m.group(0) if m else "the program dies (exit status %s) in case %s" % (rc, case)
        rerun = "cd /verif/witness && cargo run --offline --bin %s -- %s 0 %d %s" % (b, part, seed, case)
        log.write("\nconcrete failing input (native run against the real crate):\n  %s\n  rerun: %s\n  output:\n%s\n" % (what, rerun, out[-2000:]))
        return what, done
    return None, done


def rest_of(failed, exp):
    return [c for c in failed if c not in exp]


def classify(h, res):
    """-> (verdict, failed obligations, undecided reasons, discharged, total, covers)"""
    spec = HARNESSES[h]
    failed, und = [], []
    disch = total = cov = covsat = 0
    for c in res.get("checks", []):
        st, cat = c.get("status", ""), c.get("category", "")
        if cat == "cover":
            cov += 1
            if st.lower().startswith("satisf") or st.lower() == "covered":
                covsat += 1
            else:
                und.append("cover not satisfied (vacuous?): %s:%s" % (c["location"]["file"], c["location"]["line"]))
            continue
        total += 1
        s = st.lower()
        if s in ("success", "unreachable"):
            disch += 1
        elif s == "failure":
            if any(cat.startswith(u) for u in UNDECIDED) or "unwinding assertion" in c.get("description", ""):
                und.append("%s: %s" % (cat, c.get("description")))
            else:
                failed.append(c)
        else:
            und.append("%s (%s)" % (c.get("description"), st))
    if total == 0:
        und.append("no obligations generated")
    if spec.get("should_panic"):
        # the contract is `requires the input to be rejected`: exactly the expected
        # panic may fail, and it has to
        want = spec["should_panic"]
        exp = [c for c in failed if re.search(want, c.get("description", ""))]
        if exp and not rest_of(failed, exp):
            total = disch + len(exp) + sum(not u.endswith("(Unknown)") for u in und)
        if exp:  # what follows the expected failure is not decided, and need not be
            und = [u for u in und if not u.endswith("(Unknown)")]
        rest = [c for c in failed if c not in exp]
        if rest:
            return "fail", rest, und, disch, total, cov
        if not exp:
            return ("undecided" if und else "fail",
                    [] if und else [{"description": "the required panic (%s) is not raised" % want, "function": h,
                                     "category": "assertion", "location": {"file": "?", "line": "?"}, "id": 0}],
                    und, disch, total, cov)
        return ("undecided" if und else "ok"), [], und, disch + len(exp), total, cov
    if failed:
        return "fail", failed, und, disch, total, cov
    if und:
        return "undecided", [], und, disch, total, cov
    return "ok", [], und, disch, total, cov


def playback(target, h, log):
    """Try to replay the verifier's counterexample natively against the real code."""
    if HARNESSES[h].get("stubbed", True):
        return None
    cmd = ["cargo", "kani", *BASE, "-Z", "concrete-playback", "--concrete-playback", "print",
           "--harness-timeout", "200s", "--harness", h, "--exact", *CBMC]
    try:
        p = subprocess.run(cmd, cwd=CRATE, env=env(target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=260)
    except subprocess.TimeoutExpired:
        return None
    m = re.findall(r"```\n(.*?)```", p.stdout, re.S)
    if not m:
        return None
    scratch = tempfile.mkdtemp(prefix="mtv-replay-")
    try:
        dst = os.path.join(scratch, "kani")
        shutil.copytree(CRATE, dst, ignore=shutil.ignore_patterns("target"))
        mod = h.split("::")[0]
        f = os.path.join(dst, "src", mod + ".rs")
        for i, test in enumerate(m[:3]):
            name = re.search(r"fn (kani_concrete_playback_\w+)", test)
            if not name:
                continue
            base = open(os.path.join(CRATE, "src", mod + ".rs")).read()
            open(f, "w").write(base + "\n" + test + "\n")
            r = subprocess.run(["cargo", "kani", "playback", "-Z", "concrete-playback", "--", name.group(1), "--nocapture"],
                               cwd=dst, env=env(os.path.join(scratch, "t")), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace", timeout=200)
            log.write("\n--- playback of %s\n%s\n--- result\n%s\n" % (h, test, r.stdout[-4000:]))
            if re.search(r"panicked at", r.stdout) and "test result: FAILED" in r.stdout:
                return test
    except Exception as x:  # replay is best effort
        log.write("\nplayback failed: %r\n" % (x,))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return None


def main():
    args = [a for a in sys.argv[1:]]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    if args and args[0] == "--build-only":
        os.makedirs(WORK, exist_ok=True)
        t = tempfile.mkdtemp(prefix="build-", dir=WORK)
        p = subprocess.run(["cargo", "kani", *BASE, "--only-codegen"], cwd=CRATE, env=env(t))
        shutil.rmtree(t, ignore_errors=True)
        return p.returncode
    prop = args[0]
    spec = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    target = tempfile.mkdtemp(prefix="t-%s-" % prop, dir=WORK)
    rep_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rep_dir, exist_ok=True)
    try:
        return run(prop, spec, tier, seed, t0, target, rep_dir)
    finally:
        shutil.rmtree(target, ignore_errors=True)


def run(prop, spec, tier, seed, t0, target, rep_dir):
    harnesses = list(spec["quick"]) + (list(spec.get("thorough", [])) if tier == "thorough" else [])
    # longest first, so that the pool stays full
    harnesses.sort(key=lambda h: -HARNESSES[h].get("cost", 10))
    limit = 3000 if tier == "thorough" else 700
    outlog = os.path.join(target, "log.txt")
    path = os.path.join(rep_dir, "%s.txt" % prop)
    cmd, text, data, off = prove(target, harnesses, limit, outlog)
    results = {}
    if data:
        for r in data["verification_results"]["results"]:
            results[r["harness_id"]] = r
    stats = {}
    for c in (data or {}).get("cbmc", []):
        stats[c["harness_id"]] = c.get("cbmc_stats", {})
    if not results:
        p = subprocess.run(["cargo", "check", "--offline", "--lib"], cwd="/repo", env=env(os.path.join(target, "c")),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode:
            print(p.stdout[-4000:])
            print("UNDECIDED property=%s /repo does not build" % prop)
            return 2
        print("\n".join(text.splitlines()[-40:]))
    rows, viol, und = [], [], []
    deadline = t0 + (840 if tier == "quick" else 6000)
    for h in harnesses:
        if h not in results or not results[h].get("checks"):
            m = h.split("::")[0]
            why = [off[n] for n in [m] + NEEDS.get(m, []) if n in off]
            und.append((h, ["lost anchor: " + why[0] if why else "no result (timeout or out of memory)"]))
            rows.append((h, "undecided", 0, 0, 0, 0.0))
            continue
        v, failed, u, d, t, cov = classify(h, results[h])
        # a rewritten loop may need more unwindings: retry with larger bounds
        if v == "undecided" and any("unwind" in x for x in u):
            for n in (12, 26, 60):
                left = deadline - time.time()
                if left < 60:
                    break
                _, _, d2 = kani(target, [h], int(left - 20), extra=("--unwind", str(n)), jobs=1, out=outlog, tag="retry")
                if d2 and d2["verification_results"]["results"]:
                    r2 = d2["verification_results"]["results"][0]
                    if r2.get("checks"):
                        v, failed, u, d, t, cov = classify(h, r2)
                        results[h] = r2
                if v != "undecided":
                    break
        rows.append((h, v, d, t, cov, results[h].get("duration_ms", 0) / 1000.0))
        if v == "fail":
            viol.append((h, failed))
        elif v == "undecided":
            und.append((h, u))
    # native search: on a failure, for undecided obligations, and for the stated out-of-reach scope
    quick = tier == "quick"
    secs = (60 if quick else 300) if viol else (60 if quick else 600) if und else (12 if quick else 180) if prop in STANDIN else 0
    left = deadline - time.time() - (130 if quick else 0)
    secs = max(0, min(secs, int(left)))
    wlog = io.StringIO()
    witness, searched = (None, [])
    if secs >= 5:
        try:
            witness, searched = search(prop, target, secs, seed, wlog)
        except subprocess.TimeoutExpired:
            searched = ["native search: no answer"]
    total = sum(r[3] for r in rows)
    disch = sum(r[2] for r in rows)
    complete = [r for r in rows if HARNESSES[r[0]].get("bound", "none").startswith("none")]
    wall = time.time() - t0
    funcs = {}
    for h in harnesses:
        for c in results.get(h, {}).get("checks", []):
            loc = c.get("location") or {}
            if str(loc.get("file", "")).startswith("/repo/"):
                funcs.setdefault(c["function"], 0)
                funcs[c["function"]] += 1
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"], "wall_s": round(wall, 1),
        "violations": len(viol) + (1 if witness and not viol else 0),
        "assumptions": spec.get("assumptions", []),
        "coverage": {
            # counted here: harnesses without a bound; the bounded ones are counted apart
            "obligations": sum(r[3] for r in complete), "discharged": sum(r[2] for r in complete),
            "bounded_obligations": total - sum(r[3] for r in complete), "bounded_discharged": disch - sum(r[2] for r in complete),
            "harnesses_complete": len(complete), "harnesses_bounded": len(rows) - len(complete),
            "checker_cmd": " ".join(cmd),
            "trusted_base": TRUSTED + spec.get("trusted", []),
            "explanation": spec["explanation"],
            "undecided": [{"harness": h, "why": sorted(set(u))[:3]} for h, u in und],
            "bounded_not_proved": {"scope": STANDIN.get(prop, "none") + ("; and the undecided obligations above" if und else ""),
                                   "native_search": searched, "found": witness or "nothing"},
            "harnesses": [
                {"name": h, "contract": HARNESSES[h]["what"], "bound": HARNESSES[h].get("bound", "none: complete over the stated domain"),
                 "verdict": v, "obligations": t, "discharged": d, "covers_satisfied": cov,
                 "stubs": HARNESSES[h].get("stubs", []), "seconds": s,
                 "solver_s": stats.get(h, {}).get("runtime_solver_s"), "backend": "CBMC 6.11 + CaDiCaL or MiniSat (via Kani 0.68; the harness names its solver)"}
                for (h, v, d, t, cov, s) in rows],
            "repo_functions_with_obligations": dict(sorted(funcs.items())),
            "solver_time_s": round(sum((s or {}).get("runtime_solver_s") or 0 for s in stats.values()), 2),
        },
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for h, v, d, t, cov, s in rows:
        print("%-44s %-9s %5d/%-5d obligations  covers=%d  %.0fs" % (h, v, d, t, cov, s))
    for kf in known(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, kf))
    for line in searched:
        print("BOUNDED (not counted as proved) %s" % line)
    for h, u in und:
        print("UNDECIDED %s: %s" % (h, "; ".join(sorted(set(u)))[:300]))
    if viol or witness:
        replayed = bool(witness)
        with open(path, "w") as f:
            f.write("property %s\n" % prop)
            f.write(wlog.getvalue())
            for h, failed in viol:
                f.write("\nharness %s\n  contract: %s\n" % (h, HARNESSES[h]["what"]))
                for c in failed:
                    l = c.get("location") or {}
                    f.write("  FAILED obligation: %s\n    in %s at %s:%s\n" % (c.get("description"), c.get("function"), l.get("file"), l.get("line")))
                if not replayed and time.time() < deadline - 480:
                    replayed = bool(playback(target, h, f))
            f.write("\nverifier output:\n")
            f.write(open(outlog).read()[-20000:] if os.path.exists(outlog) else "")
        for h, failed in viol:
            print("FAILED %s: %s" % (h, "; ".join(sorted({c.get("description", "?") for c in failed}))[:400]))
        if witness:
            print("INPUT %s" % witness[:1000])
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if replayed else " no-failing-input-found"))
        return 1
    if und:
        print("PARTLY UNDECIDED property=%s %d/%d obligations discharged in %.0fs, %d harnesses undecided, bounded stand-in quiet"
              % (prop, disch, total, wall, len(und)))
        return 0 if searched and not any("no answer" in x or "does not build" in x for x in searched) else 2
    print("OK property=%s %d/%d obligations discharged in %.0fs" % (prop, disch, total, wall))
    return 0


def known(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out.append(m.group(2))
    return out


if __name__ == "__main__":
    sys.exit(main())
