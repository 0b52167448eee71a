#!/usr/bin/env python3
"""Builds the harness against /repo's working tree and runs one property's check.

usage: check.py ID            run the check (VERIF_SEED, VERIF_TIER)
       check.py ID --replay F re-run one replay file
       check.py --setup       warm up the build
Exit 0: held; 1: VIOLATION line printed; 2: the check itself failed.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AAV_REPO", "/repo")  # another tree is only used while developing
HARNESS = os.path.join(VERIF, "harness")
RACE = {"C12", "C19", "C30", "C31"}
SHARDS = {"quick": 6, "thorough": 8}
TIMEOUT = {"quick": 600, "thorough": 3000}
PKG = "github.com/256dpi/oauth2/v2"


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def die(msg):
    log("check error:", msg)
    sys.exit(2)


def goenv():
    e = dict(os.environ)
    e.update(GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED=e.get("CGO_ENABLED", "1"))
    for k in ("GOEXPERIMENT", "GODEBUG"):
        e.pop(k, None)
    path = e.get("PATH", "")
    extra = sorted(glob.glob("/opt/veriftools/go1*/bin"), reverse=True) + ["/usr/local/go/bin"]
    e["PATH"] = os.pathsep.join([path] + extra)
    e.setdefault("HOME", "/root")
    return e


def build(tmp, race):
    """Compile the test binary from the repository's current tree."""
    mod = os.path.join(tmp, "go.mod")
    src = open(os.path.join(HARNESS, "go.mod")).read()
    open(mod, "w").write(re.sub(r"=> .*", "=> " + REPO, src))
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(tmp, "go.sum"))
    out = os.path.join(tmp, "checks-race.test" if race else "checks.test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + mod, "-o", out] + (["-race"] if race else []) + ["./checks"]
    p = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        log(p.stdout)
        die("the harness does not build against " + REPO)
    return out


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def main():
    if sys.argv[1] == "--setup":
        tmp = tempfile.mkdtemp(prefix="aav-")
        try:
            build(tmp, False)
            build(tmp, True)
        finally:
            shutil.rmtree(tmp)
        print("ok")
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in SHARDS:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    tmp = tempfile.mkdtemp(prefix="aav-")
    try:
        return check(prop, tier, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(prop, tier, seed, tmp):
    start = time.time()
    binary = build(tmp, prop in RACE)
    built = time.time() - start
    known = known_findings(prop)
    env = goenv()
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, PBT_KNOWN=" ".join(known), GORACE="halt_on_error=1 exitcode=66", AAV_BIN=binary, AAV_REPO=REPO)
    test = ["-test.run", "^Test%s$" % prop, "-test.timeout", "%ds" % TIMEOUT[tier], "-test.count", "1", "-test.v"]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        env["PBT_REPLAY"] = os.path.abspath(sys.argv[3])
        p = subprocess.run([binary] + test, cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        print(p.stdout)
        if p.returncode == 0:
            return 0
        if "REPRODUCED" in p.stdout.replace("NOT REPRODUCED", "") or in_code(p.stdout):
            print("VIOLATION property=%s replay=%s" % (prop, sys.argv[3]))
            return 1
        return 2
    shards = int(os.environ.get("AAV_SHARDS", SHARDS[tier]))
    procs = []
    for i in range(shards):
        d = os.path.join(tmp, "out%d" % i)
        os.mkdir(d)
        e = dict(env, PBT_OUT=d, PBT_SHARD=str(i), TMPDIR=d)
        f = open(os.path.join(d, "log"), "w")
        procs.append((i, d, subprocess.Popen([binary] + test, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT)))
    errors, violations, results = [], [], []
    deadline = time.time() + TIMEOUT[tier] + 30
    for i, d, p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    for i, d, p in procs:
        text = open(os.path.join(d, "log"), errors="replace").read()
        rf = os.path.join(d, "result-%d.json" % i)
        res = None
        if os.path.exists(rf):
            try:
                res = json.load(open(rf))
            except ValueError:
                pass
        if res is not None:
            results += res
            v = [r["Violation"] for r in res if r.get("Violation")]
            violations += v
            if p.returncode != 0 and not v:
                errors.append("shard %d failed without a violation:\n%s" % (i, text[-4000:]))
            if p.returncode == 0 and v:
                errors.append("shard %d reported a violation but passed" % i)
            continue
        # the process died
        if in_code(text):
            rp = {"property": prop, "part": "?", "message": "", "case": None}
            inf = os.path.join(d, "inflight-%d.json" % i)
            if os.path.exists(inf):
                try:
                    rp = json.load(open(inf))
                except ValueError:
                    pass
            rp["message"] = "the process died: " + excerpt(text)
            violations.append(rp)
        else:
            errors.append("shard %d died (exit %s):\n%s" % (i, p.returncode, text[-4000:]))
    report(prop, tier, seed, results, violations, known, time.time() - start, built, shards)
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v.get("case"))))
        v = violations[0]
        rd = os.path.join(VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s-%d.json" % (prop, re.sub(r"\W+", "_", v.get("part", "")), seed))
        json.dump(v, open(path, "w"), indent=1)
        print(v["message"][:6000])
        print("case:", json.dumps(v.get("case"))[:4000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for e in errors:
            log(e)
        return 2
    return 0


def in_code(text):
    """Did the process die inside the code under test?"""
    m = re.search(r"^(fatal error: |panic: |WARNING: DATA RACE|SIGSEGV|unexpected fault)", text, re.M)
    if not m or "test timed out" in text or "harness panic" in text or "[rapid] panic" in text:
        return False
    tail = text[m.start():]
    if "out of memory" in tail[:200]:
        return False
    if "DATA RACE" in m.group(0):
        return PKG + "." in tail
    # first goroutine of the dump only
    return PKG + "." in tail.split("\n\n")[0] or PKG + "." in "\n\n".join(tail.split("\n\n")[:2])


def excerpt(text):
    m = re.search(r"^(fatal error: |panic: |WARNING: DATA RACE|SIGSEGV|unexpected fault)", text, re.M)
    return text[m.start():m.start() + 3000] if m else text[-2000:]


def report(prop, tier, seed, results, violations, known, wall, built, shards):
    ev = 0
    hashes, samples, parts, hits = set(), [], {}, {}
    for r in results:
        ev += r["Evaluations"]
        p = parts.setdefault(r["Name"], {"evaluations": 0, "distinct_nontrivial": set(), "labels": {}, "counts": {}, "cut_short_by_other_properties": 0, "known_findings_hit": {}})
        p["evaluations"] += r["Evaluations"]
        p["cut_short_by_other_properties"] += r["Foreign"]
        if r.get("ForeignWhy"):
            p["cut_short_example"] = r["ForeignWhy"][:500]
        for h in r["Hashes"] or []:
            hashes.add((r["Name"], h))
            p["distinct_nontrivial"].add(h)
        for k, n in (r["Labels"] or {}).items():
            p["labels"][k] = p["labels"].get(k, 0) + n
        for k, n in (r["Counts"] or {}).items():
            p["counts"][k] = p["counts"].get(k, 0) + n
        for k, n in (r["KnownCount"] or {}).items():
            p["known_findings_hit"][k] = p["known_findings_hit"].get(k, 0) + n
            hits[k] = r["Known"][k]
        if sum(1 for s in samples if s["part"] == r["Name"]) < 2:
            for s in (r["Samples"] or [])[:2]:
                samples.append({"part": r["Name"], "case": s})
    for k in sorted(hits):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, k, known.get(k, "")))
    rules = json.load(open(os.path.join(VERIF, "tools", "rules.json")))
    info = rules.get(prop, {})
    for p in parts.values():
        p["distinct_nontrivial"] = len(p["distinct_nontrivial"])
        if not p["known_findings_hit"]:
            del p["known_findings_hit"]
        if not p["counts"]:
            del p["counts"]
    doc = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(hashes), "rule": info.get("rule", ""), "samples": samples or [{"part": "none", "case": None}],
            "parts": parts, "processes": shards, "build_s": round(built, 1),
        },
        "assumptions": info.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(doc, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
