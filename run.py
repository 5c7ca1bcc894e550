#!/usr/bin/env python3
"""run.py CNN [--replay FILE]: build the check of one property from /repo's
current tree, run it, and turn crashes, sanitizer reports and hangs of the code
under test into VIOLATION lines."""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
CONF = json.load(open(os.path.join(VERIF, "checks.json")))


def goenv():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOSUMDB="off", CGO_ENABLED="1", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in ("GOARCH", "GOOS", "GOEXPERIMENT", "GODEBUG", "GOGC", "GOMEMLIMIT"):
        e.pop(k, None)
    return e


def die(msg):
    print("CHECK-ERROR:", msg)
    sys.exit(2)


def violation(pid, key, desc):
    known = {}
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    except OSError:
        pass
    if key in known:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[key], key))
        return False
    d = os.path.join(VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "crash-%s.json" % re.sub(r"[^A-Za-z0-9_.-]", "_", key))
    json.dump({"property": pid, "key": key, "seed": os.environ.get("VERIF_SEED", "1"),
               "tier": os.environ.get("VERIF_TIER", "quick"), "description": desc[:30000]},
              open(p, "w"), indent=1)
    print("VIOLATION property=%s replay=%s" % (pid, p))
    print("  key=%s" % key)
    print("  " + desc[:3000].replace("\n", "\n  "))
    return True


def is_seth(text):
    return re.search(r"philhofer/seth[./]|%s/" % re.escape(REPO), text) is not None


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        tmp = tempfile.mkdtemp(prefix="vh-setup-")
        try:
            for f in ("go.mod", "go.sum"):
                shutil.copy(os.path.join(HARNESS, f), os.path.join(tmp, f))
            p = subprocess.run(["go", "build", "-modfile", os.path.join(tmp, "go.mod"), "./vh", "./ref"],
                               cwd=HARNESS, env=goenv(), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print(p.stdout)
        sys.exit(p.returncode)
    conf = CONF[pid]
    env = goenv()
    env["VERIF_DIR"] = VERIF
    env["VERIF_REPO"] = REPO
    env.setdefault("VERIF_SEED", "1")
    env.setdefault("VERIF_TIER", "quick")
    os.environ["VERIF_SEED"], os.environ["VERIF_TIER"] = env["VERIF_SEED"], env["VERIF_TIER"]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        rp = json.load(open(sys.argv[3]))
        env["VERIF_SEED"], env["VERIF_TIER"] = str(rp["seed"]), rp["tier"]
        if rp.get("case"):
            env["VERIF_CASE"] = rp["case"]
    thorough = env["VERIF_TIER"] == "thorough"
    limit = conf.get("limit_thorough", 7200) if thorough else conf.get("limit", 600)
    replays = os.path.join(VERIF, "replays", pid)
    if "VERIF_CASE" not in env:
        shutil.rmtree(replays, ignore_errors=True)
    ev = os.path.join(VERIF, "evidence", pid + ".json")
    if os.path.exists(ev) and "VERIF_CASE" not in env:
        os.remove(ev)
    tmp = tempfile.mkdtemp(prefix="vh-%s-" % pid)
    rc = 2
    try:
        rc = 0
        variants = [dict(conf, name="default")] + [dict(conf, **v) for v in conf.get("variants", [])]
        done = {}
        for i, v in enumerate(variants):
            vt = os.path.join(tmp, "v%d" % i)
            os.mkdir(vt)
            venv = dict(env, VERIF_VARIANT=v["name"])
            if i > 0:
                venv["VERIF_EVIDENCE"] = os.path.join(vt, "ev.json")
                venv["VERIF_SCALE"] = str(v.get("scale", 1))
            rc = run(pid, v, venv, vt, limit)
            if rc != 0:
                break
            if i > 0 and "VERIF_CASE" not in env:
                done[v["name"]] = json.load(open(venv["VERIF_EVIDENCE"]))
        if done and rc == 0:
            merge(ev, done)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def merge(path, done):
    e = json.load(open(path))
    cov = e["coverage"]
    cov["variants"] = {}
    for n, d in done.items():
        cov["variants"][n] = {"evaluations": d["coverage"]["evaluations"],
                              "distinct_nontrivial": d["coverage"]["distinct_nontrivial"]}
        cov["evaluations"] += d["coverage"]["evaluations"]
        e["wall_s"] += d["wall_s"]
    json.dump(e, open(path, "w"), indent=1)


def run(pid, conf, env, tmp, limit):
    env["VERIF_TMP"] = os.path.join(tmp, "work")
    env["TMPDIR"] = env["VERIF_TMP"]
    os.makedirs(env["VERIF_TMP"])
    benv = dict(env)
    benv["TMPDIR"] = tmp
    binp = os.path.join(tmp, "check.test")
    # The harness module is built through a modfile copy, so that the module
    # files of /verif stay as committed.
    mod = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(os.path.join(tmp, "go.mod"), "w").write(mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(tmp, "go.sum"))
    env["VERIF_HARNESS"] = HARNESS
    env["VERIF_MODFILE"] = os.path.join(tmp, "go.mod")
    t0 = time.time()
    toolflags = []
    if conf.get("yubisim"):
        # the stand-in for the vendor's library: instrumented for the check
        # itself, plain for the tools
        src = os.path.join(HARNESS, "yubisim")
        for d, flags in (("yubi", ["-fsanitize=address"]), ("yubiplain", [])):
            d = os.path.join(tmp, d)
            os.mkdir(d)
            for f in ("yubihsm.h", "yubisim.h"):
                shutil.copy(os.path.join(src, f), d)
            for c in (["gcc", "-g", "-O1", "-Wno-address-of-packed-member"] + flags + ["-c", os.path.join(src, "yubisim.c"), "-o", os.path.join(d, "yubisim.o")],
                      ["ar", "rcs", os.path.join(d, "libyubihsm.a"), os.path.join(d, "yubisim.o")]):
                p = subprocess.run(c, env=benv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    die("cannot build the stand-in library:\n" + p.stdout)
        toolflags = ["-tags", "yubihsm"]
        benv["CGO_CFLAGS"] = "-g -O1 -I" + os.path.join(tmp, "yubiplain")
        benv["CGO_LDFLAGS"] = "-L" + os.path.join(tmp, "yubiplain")
    for tool in conf.get("tools", []):
        # binaries of /repo under test, built from its current tree
        out = os.path.join(tmp, os.path.basename(tool))
        p = subprocess.run(["go", "build"] + (["-race"] if conf.get("tools_race") else []) + toolflags + ["-o", out, "./" + tool],
                           cwd=REPO, env=dict(benv, GOFLAGS="-mod=mod -modfile=" + repo_mod(tmp)),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            die("cannot build %s:\n%s" % (tool, p.stdout[-4000:]))
        env["VERIF_BIN_" + os.path.basename(tool).upper()] = out
    if conf.get("yubisim"):
        benv["CGO_CFLAGS"] = "-g -O1 -I" + os.path.join(tmp, "yubi")
        benv["CGO_LDFLAGS"] = "-L" + os.path.join(tmp, "yubi")
    for k in ("GOARCH", "CGO_ENABLED"):
        if k in conf:
            benv[k] = conf[k]
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", os.path.join(tmp, "go.mod"), "-o", binp]
    if conf.get("race", False):
        # the pinned x/crypto has the same out-of-bounds conversion that was
        # repaired in /repo/keccak; it is not under test
        cmd += ["-race", "-gcflags=golang.org/x/crypto/sha3=-d=checkptr=0"]
    cmd += conf.get("build", [])
    cmd.append("./" + conf["pkg"])
    p = subprocess.run(cmd, cwd=HARNESS, env=benv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("build of %s failed:\n%s" % (conf["pkg"], p.stdout[-6000:]))
    print("built %s in %.1fs" % (conf["pkg"], time.time() - t0))
    sys.stdout.flush()
    env["GORACE"] = "halt_on_error=0 exitcode=66 history_size=3 log_path=" + os.path.join(tmp, "race")
    env["GOTRACEBACK"] = "all"
    env["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:exitcode=67:handle_segv=0:log_path=" + os.path.join(tmp, "asan")
    env.update(conf.get("env", {}))
    log = open(os.path.join(tmp, "out.log"), "w+b")
    # Code under test that allocates without end is to fail by itself instead
    # of using up the machine's memory (the race detector's shadow memory
    # would count, so not with it).
    mem = None
    if not conf.get("race", False) and not conf.get("asan", False):
        mem = lambda: resource.setrlimit(resource.RLIMIT_DATA, (20 << 30, 20 << 30))
    child = subprocess.Popen([binp, "-test.timeout=0", "-test.run=^TestProperty$"] + ["-test.count=1"],
                             cwd=env["VERIF_TMP"], env=env, stdout=log, stderr=subprocess.STDOUT,
                             start_new_session=True, preexec_fn=mem)
    hung = False
    try:
        child.wait(limit)
    except subprocess.TimeoutExpired:
        hung = True
        child.send_signal(signal.SIGQUIT)
        try:
            child.wait(20)
        except subprocess.TimeoutExpired:
            pass
    try:
        os.killpg(child.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    rc = child.wait()
    log.seek(0)
    out = log.read().decode("utf-8", "replace")
    log.close()
    tail = out if len(out) < 20000 else out[:8000] + "\n...\n" + out[-8000:]
    races = ""
    for f in sorted(os.listdir(tmp)):
        if f.startswith("race."):
            races += open(os.path.join(tmp, f), errors="replace").read()
    bad = False
    for l in out.splitlines():
        if l.startswith("VIOLATION property=%s " % pid):
            bad = True
    print(tail)
    seen = 0
    if races:
        for rep in races.split("=================="):
            if "WARNING: DATA RACE" in rep:
                if is_seth(rep):
                    seen += 1
                    if seen <= 3 and violation(pid, "datarace-%d" % seen, rep):
                        bad = True
                else:
                    print("race report without a frame of the code under test:\n" + rep)
                    if not bad:
                        die("data race inside the harness")
    reports = ""
    for f in sorted(os.listdir(tmp)):
        if f.startswith("asan."):
            reports += open(os.path.join(tmp, f), errors="replace").read()
    if "ERROR: AddressSanitizer" in reports:
        # The stand-in library keeps to its contract and is only wrong about
        # memory when the bindings give it a bad pointer.
        m = re.search(r"AddressSanitizer: ([a-z-]+)", reports)
        if violation(pid, "asan-" + m.group(1), reports):
            bad = True
    if bad:
        return 1
    if hung:
        if is_seth(out):
            return 1 if violation(pid, "hang", "run did not end in %d s\n%s" % (limit, tail)) else 0
        die("run did not end in %d s" % limit)
    if rc == 66 and races:
        rc = 0 if "VERIF-DONE" in out else 2
    if rc == 0 and "VERIF-DONE " + pid in out:
        return 0
    if "HARNESS-ERROR" in out:
        die("the harness failed")
    m = re.search(r"^(panic:|fatal error:|SIG|runtime: |unexpected fault|checkptr)", out, re.M)
    if m and rc != 0:
        crash = out[m.start():]
        # the first goroutine of the dump is the one that crashed
        first = crash.split("\n\ngoroutine ")[0:2]
        head = "\n\ngoroutine ".join(first)
        if is_seth(head):
            return 1 if violation(pid, "crash", "the process crashed (exit %d)\n%s" % (rc, crash[:20000])) else 0
    die("the check ended with status %d" % rc)


def repo_mod(tmp):
    d = os.path.join(tmp, "repomod")
    os.makedirs(d, exist_ok=True)
    for f in ("go.mod", "go.sum"):
        if os.path.exists(os.path.join(REPO, f)):
            shutil.copy(os.path.join(REPO, f), os.path.join(d, f))
    return os.path.join(d, "go.mod")


main()
