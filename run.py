#!/usr/bin/env python3
"""run.py ID [--replay FILE] [--keep]

Builds the generated-input check of property ID from /repo's working tree and
runs it: exit 0 held, exit 1 + 'VIOLATION property=ID replay=PATH' violated,
anything else an error of the check (build failure, time limit, ...).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
CONF = json.load(open(os.path.join(VERIF, "checks.json")))
GO = "/opt/veriftools/go1.23.12/bin/go"
MASK = (1 << 64) - 1


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GO111MODULE="on",
             GOMODCACHE="/root/go/pkg/mod", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["PATH"] = "/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    for k in ("GOROOT", "RAPID_CHECKS", "RAPID_SEED", "RAPID_STEPS", "RAPID_FAILFILE"):
        e.pop(k, None)
    return e


def splitmix(x):
    x = (x + 0x9E3779B97F4A7C15) & MASK
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & MASK
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & MASK
    return x ^ (x >> 31)


def shard_seed(seed, i):
    s = splitmix(splitmix(seed & MASK) + i * 0x51_7C_C1_B7)
    return s % ((1 << 62) - 1) + 1


def overlay(pid, out):
    """The base overlay plus the files this check adds to packages of /repo."""
    o = json.load(open(os.path.join(VERIF, "overlay/overlay.json")))
    for dst, src in CONF[pid].get("shims", {}).items():
        o["Replace"]["/repo/" + dst] = os.path.join(VERIF, src)
    path = out + ".overlay.json"
    json.dump(o, open(path, "w"))
    return path


def build(pid, out):
    cmd = [GO, "test", "-c", "-vet=off", "-overlay", overlay(pid, out), "-o", out,
           "./props/" + pid.lower()]
    if CONF[pid].get("race"):
        cmd.insert(3, "-race")
    r = subprocess.run(cmd, cwd=VERIF, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def known():
    ks = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m:
                ks[m.group(2)] = (m.group(1), m.group(3))
    except FileNotFoundError:
        pass
    return ks


def main():
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    conf = CONF[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    try:
        return run(pid, conf, tier, seed, scratch, replay, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, conf, tier, seed, scratch, replay, t0):
    binf = os.path.join(scratch, "check.test")
    rc, out = build(pid, binf)
    if rc != 0:
        print(out)
        print("ERROR: %s does not build" % pid)
        return 3
    tb = time.time() - t0
    nsh = conf.get("shards_thorough", 8) if tier == "thorough" else conf.get("shards", 4)
    limit = conf.get("limit_thorough", 3600) if tier == "thorough" else conf.get("limit", 780)
    if replay:
        nsh = 1
    procs = []
    for i in range(nsh):
        d = os.path.join(scratch, "s%d" % i)
        for sub in ("out", "cwd", "tmp"):
            os.makedirs(os.path.join(d, sub))
        e = env()
        e.update(VERIF_OUT=d + "/out", VERIF_SCRATCH=d + "/tmp", TMPDIR=d + "/tmp", VERIF_TIER=tier,
                 VERIF_SEED=str(seed), VERIF_SHARD=str(i), HOME=d + "/tmp", GOMAXPROCS=str(conf.get("maxprocs", 2)))
        s = shard_seed(seed, i)
        cmd = [binf, "-test.timeout=0", "-rapid.seed=%d" % s, "-rapid.shrinktime=%ds" % conf.get("shrink", 15)]
        if replay:
            name = os.path.basename(replay).split("--")[0]
            e["VERIF_REPLAY"] = "1"
            cmd += ["-test.run=^%s$" % name, "-rapid.failfile=" + os.path.abspath(replay), "-test.v"]
        if conf.get("run"):
            cmd += ["-test.run=" + conf["run"]]
        lf = open(d + "/log", "w")
        procs.append((i, d, s, subprocess.Popen(cmd, cwd=d + "/cwd", env=e, stdout=lf, stderr=subprocess.STDOUT,
                                                 start_new_session=True,
                                                 preexec_fn=limit_as if conf.get("oom_violation") else None), lf))
    status = {}
    deadline = time.time() + limit
    viol = False
    while len(status) < len(procs):
        for i, d, s, p, lf in procs:
            if i not in status and p.poll() is not None:
                status[i] = p.returncode
                if p.returncode not in (0, None):
                    viol = True
        if len(status) == len(procs):
            break
        if time.time() > deadline or (viol and time.time() > deadline - limit + 0 and any(
                status.get(i, 0) != 0 for i in status) and grace(status)):
            for i, d, s, p, lf in procs:
                if i not in status:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    status[i] = "stopped" if viol else "timeout"
            break
        time.sleep(0.05)
    for _, _, _, p, lf in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        lf.close()
    return report(pid, conf, tier, seed, procs, status, t0, tb, replay)


_g = {}


def grace(status):
    """once one shard failed, give the others a little time, then stop them"""
    _g.setdefault("t", time.time())
    return time.time() - _g["t"] > 5


def limit_as():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def classify(log, rc, conf):
    if rc == 0:
        return "ok"
    if rc in ("stopped",):
        return "ok"
    if rc == "timeout":
        return "error"
    if rc == 77 or "VERIF-HANG" in log:
        return "violation"
    if rc < 0 and rc not in (-6, -11, -4, -7):  # killed (e.g. out of memory), not a Go crash
        return "error"
    if "only generated" in log and "valid tests from" in log and "[rapid] failed after" not in log and "[rapid] panic after" not in log:
        return "error"
    if conf.get("oom_violation") and "out of memory" in log:  # the check runs with its own address space limit
        return "violation"
    if "out of memory" in log or "cannot allocate memory" in log or "no space left on device" in log:
        return "error"
    if "VERIF-HARNESS-ERROR" in log:
        return "error"
    return "violation"


def report(pid, conf, tier, seed, procs, status, t0, tb, replay):
    agg = {}
    violations, errors = [], []
    knownseen = set()
    for i, d, s, p, lf in procs:
        log = open(d + "/log", errors="replace").read()
        for m in re.finditer(r"VERIF-KNOWN (\S+)", log):
            knownseen.add(m.group(1))
        c = classify(log, status[i], conf)
        if c == "violation":
            violations.append((i, d, s, log))
        elif c == "error":
            errors.append((i, status[i], log))
        for f in sorted(os.listdir(d + "/out")):
            if not f.endswith(".json"):
                continue
            st = json.load(open(os.path.join(d, "out", f)))
            a = agg.setdefault(st["test"], dict(evals=0, distinct=set(), labels={}, samples=[], rule=st["rule"], wall=0.0))
            a["evals"] += st["evals"]
            a["distinct"].update(st["distinct"] or [])
            a["wall"] = max(a["wall"], st["wall_s"])
            for k, v in (st["labels"] or {}).items():
                a["labels"][k] = a["labels"].get(k, 0) + v
            a["samples"] += st["samples"] or []
    ks = known()
    unlisted = [k for k in knownseen if k not in ks or ks[k][0] != pid]
    rep = None
    if violations:
        i, d, s, log = violations[0]
        rdir = os.path.join(VERIF, "replays", pid)
        os.makedirs(rdir, exist_ok=True)
        fails = []
        for root, _, files in os.walk(d + "/cwd/testdata"):
            fails += [os.path.join(root, f) for f in files if f.endswith(".fail")]
        if fails:
            test = os.path.basename(os.path.dirname(fails[0]))
            rep = os.path.join(rdir, "%s--seed%d-shard%d.fail" % (test, seed, i))
            shutil.copy(fails[0], rep)
        else:
            rep = os.path.join(rdir, "seed%d-shard%d.log" % (seed, i))
            open(rep, "w").write("rapid seed %d\n" % s + log)
        open(os.path.join(rdir, "last.log"), "w").write(log)
    ev = sum(a["evals"] for a in agg.values())
    dn = sum(len(a["distinct"]) for a in agg.values())
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tests = {t: dict(evaluations=a["evals"], distinct_nontrivial=len(a["distinct"]), labels=a["labels"], rule=a["rule"],
                     wall_s=round(a["wall"], 2)) for t, a in sorted(agg.items())}
    samples = []
    for t, a in sorted(agg.items()):
        samples += [t + ": " + x for x in a["samples"][:3]]
    evd = dict(property=pid, tier=tier, seed=seed, level=conf.get("level", "exploration"),
               coverage=dict(evaluations=ev, distinct_nontrivial=dn,
                             rule=" || ".join("%s: %s" % (t, a["rule"]) for t, a in sorted(agg.items())) or "none",
                             samples=samples or ["(none recorded)"], tests=tests, shards=len(procs), build_s=round(tb, 1)),
               assumptions=conf.get("assumptions", []), wall_s=round(time.time() - t0, 2),
               violations=len(violations) + len(unlisted))
    if not replay:
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(evd, f, indent=1, sort_keys=True)
            f.write("\n")
    for k in sorted(knownseen):
        if k in ks and ks[k][0] == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, ks[k][1]))
    if violations or unlisted:
        if violations:
            log = violations[0][3]
            print(log[-6000:])
        print("VIOLATION property=%s replay=%s" % (pid, rep or "unlisted finding " + unlisted[0]))
        return 1
    if errors:
        for i, rc, log in errors[:2]:
            print("shard %d ended with %s\n%s" % (i, rc, log[-3000:]))
        print("ERROR: %s gave no answer" % pid)
        return 4
    if ev == 0:
        print("ERROR: %s generated nothing" % pid)
        return 5
    print("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs (build %.1fs)" % (
        pid, tier, seed, ev, dn, time.time() - t0, tb))
    if replay:
        print(open(procs[0][1] + "/log").read()[-4000:])
    return 0


if __name__ == "__main__":
    sys.exit(main())
