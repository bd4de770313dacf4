#!/usr/bin/env python3
"""Runs the checks of one property against /repo's working tree.

usage: run.py <property>            quick or thorough, by VERIF_TIER
       run.py --replay <file>       judge one saved case again
       run.py --build-only

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 3: the check could not be carried out (no build, worker died, time).
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
SHARDS = 8
RACE = {"C26"}
LIMIT = {"quick": 840, "thorough": 3 * 3600}


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin"
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=readonly", GOWORK="off", VT_KNOWN=KNOWN)
    for k in list(e):
        if k.startswith("VT_") and k not in ("VT_KNOWN", "VT_ONLY", "VT_SCALE"):
            del e[k]
    return e


def error(msg):
    print("ERROR: " + msg)
    sys.exit(3)


def build(out, race=False):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    e = env()
    if race:
        cmd.append("-race")
        e["CGO_ENABLED"] = "1"
    cmd.append("./props")
    r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        error("the harness does not build against /repo")


def worker(binary, work, extra, stderr):
    e = env()
    e.update(extra)
    e["GOMAXPROCS"] = e.get("VT_PROCS", "2")
    e["GORACE"] = "halt_on_error=1 exitcode=66"
    return subprocess.Popen([binary, "-test.run", "^TestVerif$", "-test.timeout", "0", "-test.v=false"],
                            cwd=work, env=e, stdout=stderr, stderr=subprocess.STDOUT)


def replay(binary, work, path, timeout=300):
    """Judges one case in a fresh process; returns (outcome, output)."""
    log = os.path.join(work, "replay.log")
    with open(log, "w") as f:
        p = worker(binary, work, {"VT_REPLAY": path, "VT_OUT": work}, f)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return "timeout", open(log).read()
    text = open(log).read()
    if "REPRODUCED property" in text and "NOT REPRODUCED" not in text:
        return "reproduced", text
    if rc == 66 or "DATA RACE" in text:
        return "race", text
    if rc == 2 and "fatal error:" in text:
        return "fatal", text
    if rc == 77:
        return "runaway", text
    if rc == 0:
        return "quiet", text
    return "unknown", text


def save(prop, src, note=""):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    name = "%s-%s" % (prop, os.path.basename(src).replace("fail-", "").replace("current-", ""))
    dst = os.path.join(VERIF, "replays", name)
    shutil.copyfile(src, dst)
    return dst


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        work = tempfile.mkdtemp(prefix="verif-")
        try:
            prop = json.load(open(sys.argv[2]))["property"]
            b = os.path.join(work, "props.test")
            build(b, prop in RACE)
            out, text = replay(b, work, os.path.abspath(sys.argv[2]))
            print(text)
            print(out)
            sys.exit(0 if out == "quiet" else 1)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    if sys.argv[1] == "--build-only":
        work = tempfile.mkdtemp(prefix="verif-")
        try:
            build(os.path.join(work, "a.test"))
            build(os.path.join(work, "b.test"), True)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return

    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        run(prop, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, seed, work):
    start = time.time()
    binary = os.path.join(work, "props.test")
    build(binary, prop in RACE)
    procs = []
    for shard in range(SHARDS):
        log = open(os.path.join(work, "log-%d" % shard), "w")
        extra = {"VT_PROP": prop, "VT_SHARD": str(shard), "VT_SHARDS": str(SHARDS), "VT_SEED": str(seed),
                 "VT_TIER": tier, "VT_OUT": work}
        procs.append((shard, worker(binary, work, extra, log), log))
    deadline = start + LIMIT[tier]
    timed_out = False
    waiting = {shard: p for shard, p, log in procs}
    while waiting:
        time.sleep(0.05)
        for shard, p in list(waiting.items()):
            if p.poll() is not None:
                del waiting[shard]
                if p.returncode == 77:
                    # The others are likely to meet the same.
                    deadline = min(deadline, time.time() + 20)
                if glob.glob(os.path.join(work, "fail-*-%d.json" % shard)):
                    # One shard has found and shrunk a violation: the others
                    # get a little time for theirs.
                    deadline = min(deadline, time.time() + 45)
        if time.time() > deadline:
            timed_out = True
            for p in waiting.values():
                p.kill()
                p.wait()
            waiting = {}
    for shard, p, log in procs:
        log.close()

    violations, problems = [], []
    confirmed = False
    merged = {}
    known = {}
    hashes = set()
    evaluations = 0
    for shard, p, log in procs:
        text = open(log.name).read()
        fails = sorted(glob.glob(os.path.join(work, "fail-*-%d.json" % shard)))
        stats = os.path.join(work, "stats-%d.json" % shard)
        if os.path.exists(stats):
            for s in json.load(open(stats)):
                m = merged.setdefault(s["check"], {"rule": s["rule"], "planned": 0, "evaluations": 0, "classes": {}, "samples": [], "distinct": set()})
                m["rss"] = max(m.get("rss", 0), s["rss_kb"])
                m["planned"] += s["planned"]
                m["evaluations"] += s["evaluations"]
                evaluations += s["evaluations"]
                m["distinct"].update(s["hashes"] or [])
                for k, n in (s["classes"] or {}).items():
                    m["classes"][k] = m["classes"].get(k, 0) + n
                if len(m["samples"]) < 2:
                    m["samples"] += (s["samples"] or [])[:1]
                known.update(s["known"] or {})
        if fails:
            violations += fails
            continue
        if p.returncode == 0 and os.path.exists(stats):
            continue
        # The worker died on something it could not recover from.
        current = os.path.join(work, "current-%d.json" % shard)
        if os.path.exists(current) and p.returncode in (2, 66, 77):
            dead = os.path.join(work, "dead-%d.json" % shard)
            try:
                case = json.loads(open(current, "rb").read().split(b"\0")[0])
            except ValueError:
                problems.append("shard %d died (exit %s)" % (shard, p.returncode))
                continue
            kind = {2: "fatal error", 66: "data race", 77: "work out of proportion, or stuck"}[p.returncode]
            case["category"], case["detail"] = kind, text[-6000:]
            json.dump(case, open(dead, "w"), indent=1)
            if p.returncode == 66 or (p.returncode == 77 and confirmed):
                violations.append(dead)
                continue
            out, _ = replay(binary, work, dead)
            if out in ("fatal", "race", "reproduced", "runaway"):
                violations.append(dead)
                confirmed = confirmed or p.returncode == 77
                continue
        problems.append("shard %d ended with %s: %s" % (shard, p.returncode, text[-1500:]))

    for m in merged.values():
        hashes |= m["distinct"]
    evidence = {
        "property": prop, "tier": tier, "seed": seed,
        "level": level(prop),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": " || ".join("%s: %s" % (k, m["rule"]) for k, m in sorted(merged.items())),
            "samples": [s for k, m in sorted(merged.items()) for s in m["samples"]][:8],
            "checks": {k: {"planned": m["planned"], "evaluations": m["evaluations"], "distinct_nontrivial": len(m["distinct"]),
                           "events": dict(sorted(m["classes"].items()))} for k, m in sorted(merged.items())},
        },
        "assumptions": ["Go's standard library, golang.org/x/crypto/hkdf, filippo.io/edwards25519 and the protobuf runtime are right",
                        "cases not generated are not covered"],
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for k, what in sorted(known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (prop, tier, seed, evaluations, len(hashes), time.time() - start))
    if violations:
        seen = set()
        for v in violations:
            f = json.load(open(v))
            key = (f["check"], f["category"])
            if key in seen:
                continue
            seen.add(key)
            dst = save(prop, v)
            print("%s/%s: %s" % (prop, f["check"], f["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, dst))
        sys.exit(1)
    if timed_out:
        error("time limit reached; nothing found in what was explored")
    if problems:
        error("; ".join(problems))
    short = [k for k, m in merged.items() if m["evaluations"] < m["planned"]]
    if short:
        error("fewer cases than planned in " + ", ".join(short))


def level(prop):
    try:
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                return c["level"]
    except (OSError, ValueError, KeyError):
        pass
    return "exploration"


main()
