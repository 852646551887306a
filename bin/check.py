#!/usr/bin/env python3
"""Run one property's check: bin/check.py ID [--replay FILE] [--keep]

Builds an in-package test binary from /repo's working tree (overlay: the
harness files are added, the repository's own _test.go files are left out, so
nothing in /repo is touched), runs it in a scratch directory and maps the
outcome to exit 0 (held), 1 (VIOLATION line) or 2 (error of the check).
"""
import json, os, random, re, shutil, signal, socket, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOBIN = "/opt/veriftools/go1.25.14/bin"
RAPID = "v1.3.0"
# extra harness files per property, besides common_test.go and <id>_test.go
EXTRA = json.load(open(os.path.join(VERIF, "harness", "files.json")))


def base_env(scratch):
    env = {k: v for k, v in os.environ.items()
           if k in ("LANG", "LC_ALL", "TERM", "VERIF_SEED", "VERIF_TIER")}
    env.update(
        HOME=os.path.join(scratch, "home"), PATH=GOBIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOTELEMETRY="off",
        GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.path.join(scratch, "gocache"),
        TMPDIR=os.path.join(scratch, "tmp"), GOSUMDB="off", GOFLAGS="",
        GOPATH=os.path.join(scratch, "gopath"))
    for d in ("home", "tmp", "gopath"):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    return env


def seed_cache(scratch):
    """A private go build cache, seeded from the sandbox's one (read only)."""
    dst = os.path.join(scratch, "gocache")
    os.makedirs(dst, exist_ok=True)
    src = os.environ.get("VERIF_GOCACHE_SEED", "/opt/vp/gocache")
    if not os.path.isdir(src):
        return
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            p = os.path.join(root, f)
            try:
                if os.path.getsize(p) <= 12 << 20:  # skip cached test binaries
                    shutil.copy2(p, os.path.join(dst, rel, f))
            except OSError:
                pass


def free_port():
    for _ in range(50):
        port = random.randrange(20000, 32000)
        with socket.socket() as s:
            try:
                s.bind(("127.0.0.1", port))
                return port
            except OSError:
                pass
    return 20001


def build(scratch, env, pid, race, pkg="lens", files=None, quiet=False):
    gomod = open(os.path.join(REPO, "go.mod")).read()
    gosum = open(os.path.join(REPO, "go.sum")).read()
    modfile = os.path.join(scratch, "verif.mod")
    with open(modfile, "w") as f:
        f.write(gomod + "\nrequire pgregory.net/rapid %s\n" % RAPID)
    with open(os.path.join(scratch, "verif.sum"), "w") as f:
        f.write(gosum + open(os.path.join(VERIF, "harness", "rapid.sum")).read())
    rep = {}
    pkgdir = os.path.join(REPO, pkg)
    for f in os.listdir(pkgdir):
        if f.endswith("_test.go"):
            rep[os.path.join(pkgdir, f)] = ""
    for f in files:
        rep[os.path.join(pkgdir, "zz_verif_" + os.path.basename(f))] = os.path.join(VERIF, "harness", f)
    overlay = os.path.join(scratch, "overlay.json")
    json.dump({"Replace": rep}, open(overlay, "w"))
    out = os.path.join(scratch, pid + (".race" if race else "") + ".test")
    cmd = ["go", "test", "-c", "-vet=off", "-mod=mod", "-modfile=" + modfile, "-overlay=" + overlay, "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./" + pkg)
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        if quiet:
            return None
        sys.stdout.write(p.stdout[-6000:])
        print("ERROR: harness for %s does not build against /repo" % pid)
        return None
    return out


def run_bin(binary, cwd, env, args, limit, log):
    with open(log, "w") as lf:
        p = subprocess.Popen([binary] + args, cwd=cwd, env=env, stdout=lf, stderr=subprocess.STDOUT,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGQUIT)
            try:
                p.wait(timeout=10)
            except subprocess.TimeoutExpired:
                pass
            rc = "timeout"
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    return rc


def main():
    pid = sys.argv[1]
    replay = None
    if "--replay" in sys.argv:
        replay = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if seed <= 0:
        seed = 1000003 - seed
    cfg = EXTRA.get(pid, {})
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=os.environ.get("VERIF_SCRATCH", "/tmp"))
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    rc = 2
    try:
        rc = check(pid, cfg, tier, seed, scratch, replay, t0)
    finally:
        if "--keep" in sys.argv:
            print("scratch kept:", scratch)
        else:
            subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
            shutil.rmtree(scratch, ignore_errors=True)
    return rc


def check(pid, cfg, tier, seed, scratch, replay, t0):
    env = base_env(scratch)
    env["VERIF_TIER"], env["VERIF_SEED"] = tier, str(seed)
    evid_dir = os.path.join(VERIF, "evidence")
    rep_dir = os.path.join(VERIF, "replays")
    os.makedirs(evid_dir, exist_ok=True)
    os.makedirs(rep_dir, exist_ok=True)
    evid = os.path.join(evid_dir, pid + ".json")
    if not replay and os.path.exists(evid):
        os.remove(evid)
    seed_cache(scratch)
    race = bool(cfg.get("race")) and (tier == "thorough" or cfg.get("race") == "always")
    files = ["common_test.go", pid.lower() + "_test.go"] + cfg.get("extra", [])
    # Optional files reach further into the package; without them the check
    # still decides the property, should /repo's internals have moved.
    opt = [f for f in ([pid.lower() + "_opt_test.go"] + cfg.get("opt", []))
           if os.path.exists(os.path.join(VERIF, "harness", f))]
    binary = None
    if opt:
        binary = build(scratch, env, pid, race, cfg.get("pkg", "lens"), files + opt, quiet=True)
        if binary is None:
            print("note: optional part of the %s harness does not build against /repo, left out" % pid)
    if binary is None:
        binary = build(scratch, env, pid, race, cfg.get("pkg", "lens"), files)
    if binary is None:
        return 2
    work = os.path.join(scratch, "work")
    os.makedirs(work)
    env["VERIF_WORK"] = os.path.join(scratch, "wd")
    os.makedirs(env["VERIF_WORK"])
    env["VERIF_REPO"] = REPO
    env["VERIF_DIR"] = VERIF
    env["VERIF_EVIDENCE"] = os.path.join(scratch, "evidence.json")
    env["VERIF_PROPERTY"] = pid
    env["LENS_MONITOR_PORT"] = str(free_port())
    env["VERIF_CASEFILE"] = os.path.join(scratch, "current_case.txt")
    env["VERIF_KNOWN"] = os.path.join(VERIF, "known_findings.txt")
    limit = cfg.get("limit", 780) if tier == "quick" else cfg.get("thorough_limit", 5400)
    args = ["-test.v", "-test.timeout=0", "-test.count=1", "-test.run=^Test%s" % pid, "-rapid.seed=%d" % seed,
            "-rapid.shrinktime=%s" % cfg.get("shrink", "20s")]
    if replay:
        args.append("-rapid.failfile=" + replay)
        m = re.match(r"(?:%s__)?(Test[A-Za-z0-9_]+)__" % pid, os.path.basename(replay))
        if m:
            args.append("-test.run=^%s$" % m.group(1))  # the last one counts
    logs = []
    rc = None
    for attempt in (1, 2):
        log = os.path.join(scratch, "run%d.log" % attempt)
        logs.append(log)
        for d in ("testdata",):
            shutil.rmtree(os.path.join(work, d), ignore_errors=True)
        rc = run_bin(binary, work, env, args, max(60, limit - (time.time() - t0)), log)
        text = open(log, errors="replace").read()
        crashed = rc not in (0, "timeout") and not re.search(r"^--- FAIL|^\s*--- FAIL", text, re.M)
        if not crashed:
            break
        # The test process died (fatal error, stack overflow, os.Exit): only a
        # death that repeats from a fresh process is reported.
        if rc in (-9, -15):
            break
    for line in text.splitlines():
        if line.startswith("KNOWN-FINDING:"):
            print(line)
    ev = {}
    if os.path.exists(env["VERIF_EVIDENCE"]):
        ev = json.load(open(env["VERIF_EVIDENCE"]))
    violated = False
    if rc == 0 and ev:
        ret = 0
    elif rc == "timeout" or rc in (-9, -15):
        sys.stdout.write(text[-3000:])
        print("ERROR: the check did not finish (%s): inconclusive" % rc)
        ret = 2
    elif "VERIF-HARNESS-ERROR" in text:
        sys.stdout.write(text[-4000:])
        print("ERROR: harness error, inconclusive")
        ret = 2
    elif re.search(r"^\s*--- FAIL", text, re.M) or crashed:
        violated = True
        ret = 1
    else:
        sys.stdout.write(text[-3000:])
        print("ERROR: unexpected outcome rc=%s" % rc)
        ret = 2
    if not replay:
        cov = ev.get("coverage") or {"evaluations": 0, "distinct_nontrivial": 0,
                                     "rule": "run did not finish", "samples": []}
        doc = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
               "coverage": cov, "assumptions": cfg.get("assumptions", []),
               "wall_s": round(time.time() - t0, 2), "violations": 1 if violated else 0}
        with open(evid, "w") as f:
            json.dump(doc, f, indent=1)
    if ret == 0:
        c = ev["coverage"]
        print("%s held: %d evaluations, %d distinct non-trivial (%s, seed %d, %.0fs)" % (
            pid, c["evaluations"], c["distinct_nontrivial"], tier, seed, time.time() - t0))
        return 0
    if violated:
        path = replay
        if not replay:
            m = re.search(r"^\s*--- FAIL: (Test[A-Za-z0-9_]+)", text, re.M)
            test = m.group(1) if m else "crash"
            stem = os.path.join(rep_dir, "%s__%s__seed%d" % (pid, test, seed))
            with open(stem + ".txt", "w") as f:
                f.write("# replay: bin/check.py %s --replay <this>.fail (or rerun with VERIF_SEED=%d VERIF_TIER=%s)\n" % (pid, seed, tier))
                if crashed and os.path.exists(env["VERIF_CASEFILE"]):
                    f.write("# last case started:\n" + open(env["VERIF_CASEFILE"], errors="replace").read() + "\n")
                f.write(text[-60000:])
            path = stem + ".txt"
            for root, _, fs in os.walk(os.path.join(work, "testdata")):
                for x in fs:
                    if x.endswith(".fail"):
                        shutil.copy(os.path.join(root, x), stem + ".fail")
                        path = stem + ".fail"
        sys.stdout.write(text[-5000:] + "\n")
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return ret


if __name__ == "__main__":
    sys.exit(main())
