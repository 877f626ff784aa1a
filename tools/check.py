#!/usr/bin/env python3
"""Driver of all checks:  check.py PID [--tier quick|thorough] [--replay FILE] [--seed N]

Builds /repo's working tree with sanitizers, builds the monitor of the property,
runs it in shards over all cores, matches what it reports with the known
findings, and writes evidence/<PID>.json.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
"""
import argparse, fcntl, glob, importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
NCPU = os.cpu_count() or 8
sys.path.insert(0, HERE)

SAN = {
    "asan": "-fsanitize=address,undefined -fno-sanitize=alignment",
    "tsan": "-fsanitize=thread",
    "plain": "",
}
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=12",
    "UBSAN_OPTIONS": "print_stacktrace=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:report_signal_unsafe=0:suppressions=" + os.path.join(HARN, "tsan.supp"),
    "LSAN_OPTIONS": "suppressions=" + os.path.join(HARN, "lsan.supp"),
    "G_SLICE": "always-malloc",
}


class NoAnswer(Exception):
    pass


def sh(cmd, timeout=800, **kw):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", timeout=timeout, **kw)
    return p.returncode, p.stdout


def build_lib(mode, binaries=False):
    """configure and build /repo's working tree out of source; returns the build dir"""
    d = os.path.join(BUILD, mode)
    os.makedirs(d, exist_ok=True)
    flags = "-O1 -g1 -DNDEBUG -w -fno-omit-frame-pointer " + SAN[mode]
    if True:  # always: the source lists are globbed
        cmd = ["cmake", "-G", "Ninja", "-S", REPO, "-B", d, "-DCMAKE_BUILD_TYPE=None", "-DENABLE_TESTS=OFF",
               "-DENABLE_GLCACHE=ON", "-DENABLE_LRB=OFF", "-DUSE_HUGEPAGE=OFF", "-DCMAKE_C_FLAGS=" + flags,
               "-DCMAKE_CXX_FLAGS=" + flags, "-DCMAKE_EXE_LINKER_FLAGS=" + SAN[mode] + " -fuse-ld=gold" * 0]
        rc, out = sh(cmd)
        if rc:
            raise NoAnswer("cmake failed:\n" + out[-3000:])
    targets = []
    if not binaries:
        rc, out = sh(["ninja", "-C", d, "-t", "targets", "all"])
        for l in out.splitlines():
            m = re.match(r"(\S+\.a): ", l)
            if m and "traceAnalyzer" not in m.group(1):
                targets.append(m.group(1))
    rc, out = sh(["ninja", "-C", d] + targets)
    if rc:
        raise NoAnswer("build of /repo failed:\n" + out[-4000:])
    return d


def pkg(*a):
    return subprocess.run(["pkg-config"] + list(a), stdout=subprocess.PIPE, text=True).stdout.split()


def build_mon(name, sources, mode, libthread):
    """compile the monitor's sources (while the library builds), then link"""
    d = os.path.join(BUILD, "mon-" + mode)
    os.makedirs(d, exist_ok=True)
    inc = ["-I" + REPO + "/libCacheSim/include", "-I" + REPO + "/libCacheSim", "-I" + HARN] + pkg("--cflags", "glib-2.0")
    base = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-DENABLE_GLCACHE=1", "-DINCLUDE_PRIV=1", "-DSUPPORT_ZSTD_TRACE=1"] + SAN[mode].split()
    procs, objs = [], []
    for s in sources:
        o = os.path.join(d, s.replace(".cpp", ".o").replace(".c", ".o"))
        objs.append(o)
        procs.append((s, subprocess.Popen(base + inc + ["-c", os.path.join(HARN, s), "-o", o], stdout=subprocess.PIPE,
                                          stderr=subprocess.STDOUT, text=True)))
    errs = []
    for s, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            errs.append(s + ":\n" + out[-3000:])
    libthread.join()
    if libthread.err:
        raise libthread.err
    if errs:
        raise NoAnswer("monitor does not compile:\n" + "\n".join(errs))
    L = libthread.dir
    libs = sorted(glob.glob(L + "/libCacheSim/**/*.a", recursive=True))
    exe = os.path.join(d, name)
    rc, out = sh(base + objs + ["-Wl,--start-group"] + libs + ["-Wl,--end-group"] + pkg("--libs", "glib-2.0", "gthread-2.0") +
                 ["-lzstd", "-lm", "-ldl", "-lpthread", "-lxgboost", "-o", exe])
    if rc:
        raise NoAnswer("monitor does not link:\n" + out[-4000:])
    return exe


class LibThread(threading.Thread):
    def __init__(self, mode, binaries):
        super().__init__()
        self.mode, self.binaries, self.err, self.dir = mode, binaries, None, None

    def run(self):
        try:
            self.dir = build_lib(self.mode, self.binaries)
        except Exception as e:
            self.err = e if isinstance(e, NoAnswer) else NoAnswer(repr(e))


def load_known(pid):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) subject=(\S+) kind=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == pid:
                known.append(dict(subject=m.group(2), kind=m.group(3), pat=m.group(4), text=m.group(5), seen=0))
    return known


class Run:
    """collects what the monitors report"""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.cnt, self.viol, self.samples, self.notes = {}, [], [], []
        self.known = load_known(pid)
        self.errors = []

    def count(self, k, n=1):
        self.cnt[k] = self.cnt.get(k, 0) + n

    def violation(self, subject, kind, detail, **kw):
        for k in self.known:
            if re.fullmatch(k["subject"], subject) and re.fullmatch(k["kind"], kind) and re.search(k["pat"], detail):
                k["seen"] += 1
                return
        self.viol.append(dict(subject=subject, kind=kind, detail=detail, **kw))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def feed(self, path, need_done=True):
        done = False
        if os.path.exists(path):
            for l in open(path, errors="replace"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                t = d.pop("t", "")
                if t == "cnt":
                    for k, v in d.items():
                        self.count(k, v)
                elif t == "viol":
                    self.violation(d.pop("subject"), d.pop("kind"), d.pop("detail"), **d)
                elif t == "sample":
                    self.sample(d)
                elif t == "done":
                    done = True
                elif t == "error":
                    self.errors.append(d.get("msg", ""))
        if need_done and not done:
            self.errors.append("a shard did not finish: " + path)


def run_mon(run, exe, args, nshard, timeout, env=None, wrap=None, vglog=False):
    tmp = tempfile.mkdtemp(prefix="vmon-")
    e = dict(os.environ)
    e.update(ENV)
    if env:
        e.update(env)
    e["MON_TMP"] = tmp
    procs = []
    for i in range(nshard):
        out = os.path.join(tmp, "out.%d" % i)
        cmd = (wrap or []) + (["--log-file=%s/vg.%%p" % tmp] if vglog else []) + [exe, "--out", out, "--shard", str(i), "--nshard", str(nshard), "--seed", str(run.seed), "--tier", run.tier] + args
        wd = os.path.join(tmp, "wd%d" % i)
        os.makedirs(wd)
        procs.append((out, subprocess.Popen(cmd, cwd=wd, env=e, stdout=subprocess.DEVNULL,
                                            stderr=open(out + ".err", "w"), start_new_session=True)))
    end = time.time() + timeout if run.tier != "quick" else min(time.time() + timeout, run.t0 + 800)
    try:
        for out, p in procs:
            try:
                rc = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                run.errors.append("a shard ran out of time")
                run.feed(out, need_done=False)
                continue
            if rc != 0:
                run.errors.append("shard exited with %s: %s" % (rc, open(out + ".err", errors="replace").read()[-1500:]))
            run.feed(out)
        if e.get("MON_SLOW"):
            for out, p in procs:
                sys.stderr.write("".join(l for l in open(out + ".err", errors="replace") if l.startswith("SLOW")))
    finally:
        for _, p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        shutil.rmtree(tmp, ignore_errors=True)


def finish(run, spec, t0, extra=None):
    pid = run.pid
    ev = EVID
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    for f in glob.glob(os.path.join(ev, "replay", pid + "-*")):
        os.unlink(f)
    c = run.cnt
    evals = c.get("cases", 0)
    nontriv = c.get("nontrivial", 0)
    cov = dict(evaluations=evals, distinct_nontrivial=nontriv, rule=spec["rule"],
               samples=run.samples or [{"counters": dict(sorted(c.items())[:20])}],
               observed={k: v for k, v in sorted(c.items()) if k not in ("cases", "nontrivial") and not k.startswith("sub:")},
               subjects={k[4:]: v for k, v in sorted(c.items()) if k.startswith("sub:")})
    if extra:
        cov.update(extra)
    d = dict(property=pid, tier=run.tier, seed=run.seed, level="exploration", coverage=cov,
             assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(run.viol))
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(d, f, indent=1)
    for k in run.known:
        if k["seen"]:
            print("KNOWN-FINDING: property=%s %s (%d times)" % (pid, k["text"], k["seen"]))
    if run.viol:
        seen = set()
        n = 0
        for v in run.viol:
            key = (v["subject"], v["kind"])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(ev, "replay", "%s-%d.json" % (pid, n))
            n += 1
            v = dict(v, property=pid, tier=run.tier, seed=run.seed, replay_cmd="python3 tools/check.py %s --replay %s" % (pid, path))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s: %s: %s" % (v["subject"], v["kind"], v["detail"].replace("\n", " | ")[:300]))
            if n >= int(os.environ.get("VERIF_MAXV", "8")):
                break
        if run.errors:
            print("also: " + " | ".join(run.errors)[:1500])
        return 1
    if run.errors:
        print("ERROR " + " | ".join(run.errors)[:3000])
        return 2
    if evals == 0 or nontriv == 0:
        print("ERROR nothing was observed (cases=%d nontrivial=%d)" % (evals, nontriv))
        return 2
    print("OK property=%s tier=%s cases=%d nontrivial=%d wall=%.1fs" % (pid, run.tier, evals, nontriv, time.time() - t0))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="check that the tools the checks need are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0, help="multiply the number of cases (development)")
    ap.add_argument("--only")
    a = ap.parse_args()
    t0 = time.time()
    if a.selftest:
        missing = [t for t in ("cmake", "ninja", "g++", "pkg-config", "zstd", "valgrind") if not shutil.which(t)]
        print("missing: " + ", ".join(missing) if missing else "ok")
        return 1 if missing else 0
    import specs
    spec = specs.SPECS[a.pid]
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    rep = None
    if a.replay:
        rep = json.load(open(a.replay))
        a.tier, a.seed = rep.get("tier", a.tier), rep.get("seed", a.seed)
    run = Run(a.pid, a.tier, a.seed)
    try:
        rc = spec["run"](run, spec, a, rep)
        if rc is None:
            rc = finish(run, spec, t0)
    except NoAnswer as e:
        print("ERROR " + str(e))
        rc = 2
    except subprocess.TimeoutExpired as e:
        print("ERROR timeout " + str(e)[:500])
        rc = 2
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
