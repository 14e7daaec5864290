#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Compiles the property's harness(es) against /repo's current working tree with sanitizers, runs the
workload in shards, collects the monitors' verdicts, writes evidence/<property>.json.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: violated.  Exit 2: no answer
(harness did not compile, environment failure, watchdog without confirmation).
"""
import glob, json, os, re, shutil, subprocess, sys, time, signal, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks_config import CHECKS, MODES, COMMON_FLAGS, COMMON_LIBS  # noqa

NJOBS = int(os.environ.get("VERIF_JOBS", "8"))


def env_for(mode):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:hard_rss_limit_mb=3500:handle_abort=1:strict_string_checks=1:detect_odr_violation=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:suppressions=" + os.path.join(HERE, "harness", "tsan.supp")
    return e


def compile_bin(b, work):
    mode = MODES[b.get("mode", "asan")]
    out = os.path.join(work, b["name"])
    srcs = [os.path.join(HERE, "harness", s) for s in b["src"]]
    srcs += [os.path.join(REPO, s) for s in b.get("repo_src", [])]
    objs, extra = [], ["-I" + os.path.join(HERE, d) for d in b.get("first_inc", [])] + ["-I" + os.path.join(REPO, d) for d in b.get("repo_inc", [])]
    if mode.get("pstl"):  # our own, instrumented back end under libstdc++'s parallel algorithms
        d = os.path.join(work, "pstl_" + b["name"])
        src = sorted(glob.glob("/usr/include/c++/*/pstl"))[-1]
        shutil.copytree(src, os.path.join(d, "pstl"), dirs_exist_ok=True)
        shutil.copy(os.path.join(HERE, "harness", "pstl_shim", "parallel_backend_tbb.h"), os.path.join(d, "pstl"))
        extra = ["-I" + d] + extra
    def one(s):
        o = os.path.join(work, b["name"] + "__" + os.path.basename(s) + ".o")
        cmd = ["clang++-18", "-c", s, "-o", o] + mode["flags"] + extra + COMMON_FLAGS(REPO, HERE) + b.get("flags", [])
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return o, r.returncode, r.stdout, cmd
    with cf.ThreadPoolExecutor(NJOBS) as ex:
        for o, rc, txt, cmd in ex.map(one, srcs):
            if rc != 0:
                return None, " ".join(cmd) + "\n" + txt[:2500]
            objs.append(o)
    cmd = ["clang++-18"] + mode["flags"] + objs + ["-o", out] + COMMON_LIBS + b.get("libs", [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, " ".join(cmd) + "\n" + r.stdout[:2500]
    return out, ""


def read_cur(path):
    try:
        with open(path, "rb") as f:
            return f.read(256).decode("latin1").strip()
    except OSError:
        return ""


def run_proc(binp, args, work, tag, mode, case_timeout, total_timeout):
    """Runs one process; watches the progress file. Returns dict."""
    cur = os.path.join(work, tag + ".cur")
    outp = os.path.join(work, tag + ".json")
    log = os.path.join(work, tag + ".log")
    for p in (cur, outp):
        if os.path.exists(p):
            os.remove(p)
    with open(log, "wb") as lf:
        pr = subprocess.Popen([binp] + args + ["--out", outp, "--cur", cur], stdout=lf, stderr=subprocess.STDOUT,
                              env=env_for(mode), cwd=work, start_new_session=True)
        t0 = tlast = time.time(); last = None; hung = None
        while True:
            try:
                rc = pr.wait(timeout=0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            c = read_cur(cur)
            now = time.time()
            if c != last:
                last, tlast = c, now
            if now - tlast > case_timeout:
                hung = c
            if hung is not None or now - t0 > total_timeout:
                try:
                    os.killpg(pr.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                rc = pr.wait()
                if hung is None:
                    return {"status": "timeout", "cur": c, "log": log}
                return {"status": "hang", "cur": hung, "log": log}
        if os.path.getsize(log) > 3_000_000:   # keep the tail only
            with open(log, "rb") as f:
                f.seek(-2_000_000, 2); tail = f.read()
            with open(log, "wb") as f:
                f.write(tail)
    res = None
    if os.path.exists(outp):
        try:
            res = json.load(open(outp))
        except Exception:
            res = None
    if rc == 0 and res:
        return {"status": "ok", "res": res, "log": log}
    if rc == 66 and res:   # ThreadSanitizer reports, run completed
        return {"status": "ok", "res": res, "log": log, "tsan": True}
    if rc == -signal.SIGKILL:
        return {"status": "killed", "cur": read_cur(cur), "log": log}
    return {"status": "crash", "rc": rc, "cur": read_cur(cur), "log": log}


def san_summary(log):
    """A stable key for a sanitizer / abort report: kind + first frame in the code under test."""
    try:
        txt = open(log, "rb").read().decode("latin1")
    except OSError:
        return "crash", ""
    m = re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: .*|WARNING: ThreadSanitizer: [\w -]+|Assertion .* failed|terminate called.*|hard rss limit exhausted)", txt)
    kind = m.group(1) if m else "crash"
    kind = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", kind)[:110]
    at = ""
    for fm in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.*?) (/[^\s:]+):(\d+)", txt[m.start() if m else 0:]):
        if "/repo/" in fm.group(2) or fm.group(2).startswith(REPO):
            at = re.sub(r"<.*|\(.*", "", fm.group(1)) + "@" + os.path.basename(fm.group(2))
            break
    i = m.start() if m else 0
    return "san:" + kind.replace(" ", "_") + (":" + at if at else ""), txt[i:i + 3000]


def tsan_reports(log):
    txt = open(log, "rb").read().decode("latin1")
    reps = {}
    for blk in re.split(r"={18}\n", txt):
        if "WARNING: ThreadSanitizer" not in blk:
            continue
        kind = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", blk)
        frames = [re.sub(r"<.*|\(.*", "", x) for x in re.findall(r"#\d+ (\S.*?) /repo\S*", blk)]
        key = "tsan:" + (kind.group(1) if kind else "report").replace(" ", "_") + ":" + "|".join(sorted(set(frames))[:2])
        reps.setdefault(key, blk[:3000])
    return reps


def load_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["known"] if os.path.exists(p) else []


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--seed": seed = int(a[i + 1]); i += 2
        elif a[i] == "--replay": replay = a[i + 1]; i += 2
        else: i += 1
    cfg = CHECKS[prop]
    t0 = time.time()
    work = os.path.join(HERE, ".work", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rep_dir = os.path.join(HERE, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    bins = [b for b in cfg["bins"] if tier == "thorough" or not b.get("thorough_only")]
    if replay:
        rp = json.load(open(replay))
        bins = [b for b in bins if b["name"] == rp["bin"]]
    built = {}
    with cf.ThreadPoolExecutor(NJOBS) as ex:
        futs = {ex.submit(compile_bin, b, work): b for b in bins}
        for f in cf.as_completed(futs):
            o, msg = f.result()
            if o is None:
                print("ERROR: harness %s does not build:\n%s" % (futs[f]["name"], msg))
                return 2
            built[futs[f]["name"]] = o
    t_build = time.time() - t0
    if replay:
        b = bins[0]
        args = ["--seed", str(rp["seed"]), "--tier", rp["tier"], "--family", rp["family"], "--idx", str(rp["idx"])]
        r = run_proc(built[b["name"]], args, work, "replay", b.get("mode", "asan"), 300, 900)
        print(open(r["log"], "rb").read().decode("latin1")[-8000:])
        bad = r["status"] != "ok" or r["res"]["violations"]
        print("replay:", "violation reproduced" if bad else "no violation")
        return 1 if bad else 0

    case_to = cfg.get("case_timeout", 60) * (1 if tier == "quick" else 4)
    total_to = 840 if tier == "quick" else 6 * 3600
    viols, inconclusive, merged = [], [], {"evaluations": 0, "counters": {}, "samples": {}, "distinct": set(), "ratios": {}, "viol_count": {}}

    def merge(res, bname):
        merged["evaluations"] += res["evaluations"]
        for k, v in res["counters"].items(): merged["counters"][k] = merged["counters"].get(k, 0) + v
        for k, v in res["viol_count"].items(): merged["viol_count"][k] = merged["viol_count"].get(k, 0) + v
        for k, v in res["ratios"].items(): merged["ratios"][k] = max(merged["ratios"].get(k, 0), v)
        for k, v in res["samples"].items(): merged["samples"].setdefault(k, []).extend(v)
        merged["distinct"].update(bname + h for h in res["distinct"])
        for v in res["violations"]:
            viols.append(dict(v, bin=bname))

    def shard_run(b, sh, n):
        base = ["--seed", str(seed), "--tier", tier, "--shard", str(sh), "--nshards", str(n)]
        skips, results = [], []
        mode = b.get("mode", "asan")
        for attempt in range(6):
            args = base + sum((["--skip", s] for s in skips), [])
            r = run_proc(built[b["name"]], args, work, "%s_%d" % (b["name"], sh), mode, case_to, total_to)
            if r["status"] == "ok":
                results.append(("ok", r))
                return results
            cur = r.get("cur", "")
            m = re.match(r"^(\S+):(-?\d+)$", cur)
            if not m:
                results.append(("inconclusive", "%s shard %d: %s outside any case, log %s" % (b["name"], sh, r["status"], r["log"])))
                return results
            fam, idx = m.group(1), int(m.group(2))
            if r["status"] == "timeout":
                results.append(("inconclusive", "total time limit in %s" % cur))
                return results
            # confirm on the case alone
            key0, det0 = san_summary(r["log"]) if r["status"] == "crash" else (r["status"], "")
            args1 = ["--seed", str(seed), "--tier", tier, "--family", fam, "--idx", str(idx)]
            r1 = run_proc(built[b["name"]], args1, work, "%s_%d_re" % (b["name"], sh), mode, case_to * 2, total_to)
            if r1["status"] == "crash":
                key, det = san_summary(r1["log"])
                results.append(("viol", {"family": fam, "idx": idx, "key": key, "detail": det, "bin": b["name"]}))
            elif r1["status"] == "hang":
                results.append(("viol", {"family": fam, "idx": idx, "key": "hang", "detail": "no progress in case %s (twice)" % cur, "bin": b["name"]}))
                return results
            elif r["status"] == "crash":
                # crashed in the shard, not alone: still an observed sanitizer report / abort
                results.append(("viol", {"family": fam, "idx": idx, "key": key0, "detail": det0 + " (seen in the shard run, not alone)", "bin": b["name"]}))
            else:
                results.append(("inconclusive", "%s in %s not reproduced (%s)" % (r["status"], cur, r1["status"])))
            skips.append("%s:%d" % (fam, idx))
            if tier == "quick" and time.time() - t0 > 400 and any(k == "viol" for k, _ in results):
                return results
        results.append(("inconclusive", "%s shard %d: gave up after %d aborted runs" % (b["name"], sh, len(skips))))
        return results

    jobs = []
    for b in bins:
        n = b.get("shards", NJOBS)
        jobs += [(b, sh, n) for sh in range(n)]
    conc = cfg.get("concurrency", NJOBS)
    with cf.ThreadPoolExecutor(conc) as ex:
        for (b, sh, n), rs in zip(jobs, ex.map(lambda j: shard_run(*j), jobs)):
            for kind, x in rs:
                if kind == "ok":
                    merge(x["res"], b["name"])
                    if MODES[b.get("mode", "asan")].get("tsan"):
                        for key, blk in tsan_reports(x["log"]).items():
                            viols.append({"family": "tsan", "idx": -1, "key": key, "detail": blk, "bin": b["name"]})
                elif kind == "viol":
                    viols.append(x)
                else:
                    inconclusive.append(x)

    known = [f for f in load_findings() if f["property"] == prop]
    seen_known, new = set(), []
    for v in viols:
        full = "%s/%s" % (v["family"], v["key"])
        hit = None
        for f in known:
            if re.fullmatch(f["match"], full) and (not f.get("detail") or re.search(f["detail"], v["detail"])):
                hit = f
        if hit is not None:
            seen_known.add(hit["id"])
        else:
            new.append(v)
    # floors: a run that observed too little is no answer
    for k, v in cfg.get("floors", {}).items():
        got = merged["counters"].get(k, 0)
        if got < v and not new:
            inconclusive.append("monitor %s observed %d events, needs %d" % (k, got, v))

    # de-duplicate
    uniq = {}
    for v in new:
        uniq.setdefault((v["bin"], v["family"], v["key"]), v)
    out_lines = []
    for f in known:
        if f["id"] in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for n_, ((bn, fam, key), v) in enumerate(sorted(uniq.items())):
        path = os.path.join(rep_dir, "%s_%d.json" % (prop, n_))
        json.dump({"property": prop, "bin": bn, "family": fam, "idx": v["idx"], "seed": seed, "tier": tier, "key": key,
                   "detail": v["detail"], "how": "python3 check.py %s --replay %s" % (prop, os.path.relpath(path, HERE))}, open(path, "w"), indent=1)
        if n_ < 20:
            print("  %s/%s case %s: %s" % (fam, key, v["idx"], v["detail"][:400].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s" % (prop, path))

    cov = {
        "evaluations": merged["evaluations"],
        "distinct_nontrivial": len(merged["distinct"]),
        "rule": cfg["rule"],
        "samples": [s for k in sorted(merged["samples"]) for s in merged["samples"][k][:2]][:40],
        "observed": {k: merged["counters"][k] for k in sorted(merged["counters"])},
        "closest_to_limit": dict(sorted(merged["ratios"].items(), key=lambda kv: -kv[1])[:12]),
        "instrumentation": sorted({MODES[b.get("mode", "asan")]["what"] for b in bins}),
        "build_s": round(t_build, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": cfg.get("assumptions", []) + ["held on the executions produced; nothing is claimed for paths the workload does not drive"],
          "wall_s": round(time.time() - t0, 1), "violations": len(uniq)}
    if inconclusive:
        ev["coverage"]["inconclusive"] = inconclusive[:20]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    print("%s %s: %d evaluations, %d distinct, %d violations, %d inconclusive, build %.0fs total %.0fs" % (
        prop, tier, cov["evaluations"], cov["distinct_nontrivial"], len(uniq), len(inconclusive), t_build, time.time() - t0))
    if uniq:
        return 1
    if inconclusive:
        print("INCONCLUSIVE: " + "; ".join(inconclusive[:5]))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
