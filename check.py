#!/usr/bin/env python3
"""Runs the check of one property.

  python3 check.py C01                    quick tier (or VERIF_TIER)
  python3 check.py C01 --replay FILE      run only the failing case in FILE
  python3 check.py --build                build the harness, nothing else

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.
Exit 2: no answer (build failure, resource limit, internal error).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
REPLAYS = os.path.join(HERE, "replays")
KNOWN = os.path.join(HERE, "known_findings.json")
SHARDS = 8
# Terminations of the test process that are the tested code's doing.
FATAL = re.compile(r"^(fatal error: (stack overflow|all goroutines are asleep - deadlock!|concurrent map .*)|runtime: goroutine stack exceeds .*|SIGSEGV.*|panic: .*)$", re.M)

FAULT = {"C09", "C15"}
RACE = {"C23"}
# percent of the case counts written in the harness, so that a quick check takes about 15 s on 8 cores
SCALE = dict(C01=8000, C02=2500, C03=3000, C04=1800, C05=300, C06=5000, C07=6000, C08=5000, C09=1400, C10=16000, C11=1000, C12=500,
             C13=700, C14=700, C15=600, C16=700, C17=600, C18=700, C19=200, C20=600, C21=1600, C22=1600, C24=2000, C25=1600, C26=700)

def env(extra=None):
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off",
             GOFLAGS="-mod=readonly", CGO_ENABLED="0", GODEBUG="randautoseed=0,randseednop=0",
             GOCACHE=e.get("GOCACHE", "/root/.cache/go-build"), GOMODCACHE=e.get("GOMODCACHE", "/root/go/pkg/mod"))
    e["PATH"] = e.get("PATH", "") + ":/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
    if extra:
        e.update(extra)
    return e

def die(msg, log=None):
    print("ERROR: " + msg)
    if log:
        print(log[-4000:])
    sys.exit(2)

def build(outdir, race=False):
    binp = os.path.join(outdir, "harness.test")
    if race:
        # goroutines are observed by Go's race detector; without a C compiler the plain build has to do
        r = subprocess.run(["go", "test", "-race", "-c", "-vet=off", "-o", binp, "."], cwd=HARNESS, env=env(dict(CGO_ENABLED="1")),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0 and os.path.exists(binp):
            return binp
    r = subprocess.run(["go", "test", "-c", "-vet=off", "-o", binp, "."], cwd=HARNESS, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(binp):
        die("the harness does not build against /repo", r.stdout)
    return binp

def main():
    args = sys.argv[1:]
    if not args:
        die("usage: check.py ID [--replay FILE]")
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        if args[0] == "--build":
            build(work)
            print("harness builds")
            return 0
        prop = args[0]
        replay = None
        if "--replay" in args:
            replay = os.path.abspath(args[args.index("--replay") + 1])
        return check(prop, replay, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def check(prop, replay, work):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    known = json.load(open(KNOWN))
    listed = {k["key"]: k for k in known["known"] if k["property"] == prop}
    binp = build(work, prop in RACE)
    t_build = time.time() - t0

    if replay:
        head = open(replay, errors="replace").read(2000)
        sub = re.search(r"^# sub: (\S+)", head, re.M)
        d = os.path.join(work, "replay")
        os.makedirs(d)
        extra = dict(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SHARD="0", VERIF_SHARDS="1")
        at = re.search(r"^# property: \S+ seed: (\d+) tier: (\w+) shard: (\d+)/(\d+)", head, re.M)
        extra["VERIF_SCALE"] = str(SCALE.get(prop, 100))
        if at:
            extra.update(VERIF_SEED=at.group(1), VERIF_TIER=at.group(2), VERIF_SHARD=at.group(3), VERIF_SHARDS=at.group(4))
        if sub and sub.group(1) != "?":
            extra["VERIF_SUB"] = sub.group(1)
        cmd = [binp, "-test.run", "^Test%s$" % prop, "-test.timeout", "800s"]
        if "# enumerated case" not in head and "# seed-only" not in head:
            raw = os.path.join(d, "case.fail")
            body = open(replay, errors="replace").read()
            open(raw, "w").write(re.sub(r"\A# sub: .*\n# property: .*\n", "", body))
            cmd.append("-rapid.failfile=" + raw)
        r = subprocess.run(cmd, cwd=d, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(r.stdout[-6000:])
        if r.returncode != 0:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        return 0

    procs = []
    limit = 840 if tier == "quick" else 7200
    for k in range(SHARDS):
        d = os.path.join(work, "s%d" % k)
        os.makedirs(d)
        lf = open(os.path.join(d, "log"), "w")
        e = env(dict(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SHARD=str(k), VERIF_SHARDS=str(SHARDS),
                     VERIF_SCALE=str(int(os.environ.get("VERIF_SCALE", SCALE.get(prop, 100)))), VERIF_OUT=d, GOMAXPROCS="2", GOMEMLIMIT="2500MiB"))
        e.pop("VERIF_SUB", None)
        p = subprocess.Popen([binp, "-test.run", "^Test%s$" % prop, "-test.v", "-test.timeout", "%ds" % limit,
                              "-rapid.shrinktime=%s" % ("10s" if tier == "quick" else "30s")],
                             cwd=d, env=e, stdout=lf, stderr=subprocess.STDOUT)
        procs.append((k, d, p, lf))
    outs, fails, errors = [], [], []
    for k, d, p, lf in procs:
        try:
            rc = p.wait(timeout=limit + 30)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = None
        lf.close()
        log = open(os.path.join(d, "log"), errors="replace").read()
        res = os.path.join(d, "shard%d.json" % k)
        o = None
        if os.path.exists(res):
            o = json.load(open(res))
            outs.append(o)
        if rc == 0 and o is not None:
            continue
        if rc == 1 and o is not None and "--- FAIL: Test%s" % prop in log and "test timed out" not in log:
            fails.append((k, d, log))
        elif rc is not None and "test timed out" not in log and FATAL.search(log):
            fails.append((k, d, log))
        else:
            errors.append((k, rc, log))

    cov, findings = merge(prop, outs)
    cov["build_s"] = round(t_build, 2)
    ev = dict(property=prop, tier=tier, seed=seed,
              level="fault_enumeration" if prop in FAULT else "exploration",
              coverage=cov, assumptions=ASSUME.get(prop, []) + COMMON,
              wall_s=round(time.time() - t0, 2), violations=0)
    status = 0
    for f in sorted(findings):
        if f in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[f]["what"]))
        else:
            fails.append((0, None, "unlisted finding " + f))
    if fails:
        k, d, log = fails[0]
        path = save_replay(prop, seed, tier, k, d, log)
        print(tail(log))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        ev["violations"] = len(fails)
        status = 1
    elif errors:
        k, rc, log = errors[0]
        print("ERROR: shard %d of %s ended with %s" % (k, prop, rc))
        print(log[-3000:])
        status = 2
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, "." + prop + ".tmp")
    json.dump(ev, open(tmp, "w"), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs, exit %d" %
          (prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"], status))
    return status

def merge(prop, outs):
    subs, keys, findings, extra, rule = {}, set(), set(), {}, ""
    for o in outs:
        rule = o.get("rule") or rule
        keys.update(o.get("keys") or [])
        findings.update(o.get("findings") or [])
        for k, v in (o.get("extra") or {}).items():
            extra[k] = extra.get(k, 0) + v
        for n, s in o["subs"].items():
            m = subs.setdefault(n, dict(evaluations=0, nontrivial=0, classes={}, samples=[]))
            m["evaluations"] += s["evaluations"]
            m["nontrivial"] += s["nontrivial"]
            for l, c in (s.get("labels") or {}).items():
                m["classes"][l] = m["classes"].get(l, 0) + c
            m["samples"] += s.get("samples") or []
    samples = []
    for n in sorted(subs):
        samples += subs[n].pop("samples")[:3]
        subs[n]["classes"] = dict(sorted(subs[n]["classes"].items()))
    cov = dict(evaluations=sum(s["evaluations"] for s in subs.values()),
               distinct_nontrivial=len(keys) + extra.pop("enumerated_nontrivial", 0),
               rule=rule, samples=samples, subchecks=subs, shards=len(outs))
    cov.update(extra)
    return cov, findings

def tail(log):
    lines = [l for l in log.splitlines() if l.strip()]
    for i, l in enumerate(lines):
        if "WARNING: DATA RACE" in l:
            return "\n".join(x[:300] for x in lines[i:i + 40])[:5000]
    for i, l in enumerate(lines):
        if "[rapid]" in l and ("failed" in l or "panic" in l):
            return "\n".join(x[:600] for x in lines[i:i + 40])[:5000]
    for i, l in enumerate(lines):
        if re.search(r"--- FAIL: \w+/", l):
            return "\n".join(x[:600] for x in lines[max(0, i - 25):i + 12])[:5000]
    return "\n".join(x[:600] for x in lines[-40:])[:5000]

def save_replay(prop, seed, tier, shard, d, log):
    os.makedirs(REPLAYS, exist_ok=True)
    m = re.search(r"--- FAIL: Test%s/([\w.\-]+)" % prop, log)
    sub = m.group(1) if m else "?"
    src = None
    if d:
        for root, _, files in os.walk(os.path.join(d, "testdata")):
            for f in sorted(files):
                if f.endswith(".fail"):
                    src = os.path.join(root, f)
    if src:
        body = open(src, errors="replace").read()
    else:
        body = "# seed-only\n" + "".join("# " + l + "\n" for l in tail(log).splitlines())
    body = "# sub: %s\n# property: %s seed: %d tier: %s shard: %d/%d\n" % (sub, prop, seed, tier, shard, SHARDS) + body
    name = "%s-%s-%s.fail" % (prop, re.sub(r"\W", "_", sub), hashlib.sha256(body.encode()).hexdigest()[:10])
    path = os.path.join(REPLAYS, name)
    open(path, "w").write(body)
    return path

COMMON = ["the harness only uses the exported API of /repo, built from its working tree with the installed Go toolchain",
          "absence of a violation means none was found among the generated cases"]
ASSUME = {
    "C02": ["integer division by zero is outside the domain (Go itself panics)"],
    "C03": ["NaN and infinities are outside the domain of reductions", "integer averages stay within the type's range of element counts"],
    "C05": ["floating-point contractions may be summed in any order (tolerance n*eps*sum|a*b|)"],
    "C09": ["element type int is not a fixed-size type and is outside the domain"],
    "C12": ["reference gradients are computed by an independent reverse-mode differentiation in float64", "inputs closer than 1e-3 to a kink of an activation, and ties in a pool, are not compared"],
    "C13": ["steps whose gradient is ill-conditioned in the element type (measured by perturbing the reference) are not compared", "the random draws of Train come from Go's global generator, seeded by the harness"],
    "C16": ["the parts are not compiled before being composed"],
    "C17": ["each part of a composition trained on its own is a known finding and not generated"],
    "C19": ["PNG encoding and decoding is Go's own", "translucent images lose precision to alpha premultiplication and are not compared after a round trip"],
    "C20": ["the reference conversion is exact integer and float64 arithmetic in the harness"],
    "C22": ["distribution checks are bounds with error probabilities below 1e-9, run with fixed seeds"],
    "C23": ["goroutine schedules are those the Go scheduler and the race detector produce; absence of shared writes is decided by the race detector on the generated histories"],
    "C24": ["Deconv2D accepts any kernel and stride, as its definition allows"],
    "C26": ["the model is compiled before it is printed"],
}

if __name__ == "__main__":
    sys.exit(main())
