#!/usr/bin/env python3
"""Runs one property's check: builds its harnesses from /repo's working tree, runs their workloads in
parallel worker processes, turns what the monitors and sanitizers report into a verdict, and writes
the evidence file."""
import hashlib, json, mmap, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time
import concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import build as B
from checks import CHECKS

ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:handle_sigill=1:handle_abort=1:handle_segv=1:handle_sigfpe=1:"
                    "allocator_may_return_null=1:new_delete_type_mismatch=0:alloc_dealloc_mismatch=0:"
                    "hard_rss_limit_mb=3000:malloc_context_size=12:allow_user_segv_handler=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:handle_sigill=1:handle_abort=1",
    "LC_ALL": "C.UTF-8", "PATH": "/usr/local/bin:/usr/bin:/bin", "TZ": "UTC", "HOME": "/nonexistent",
}
NOBODY = 65534
HANG_S = 90
IDLE_S = 30


def can_drop():
    try:
        return subprocess.run(["true"], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
    except Exception:
        return False


def activity(session):
    """CPU ticks of every thread in the session, or None if one of them is running, runnable or waiting for a disk."""
    out = []
    try:
        for pid in os.listdir("/proc"):
            if not pid.isdigit():
                continue
            try:
                st = open("/proc/%s/stat" % pid).read().rpartition(")")[2].split()
                if int(st[3]) != session:
                    continue
            except (OSError, IndexError, ValueError):
                continue
            try:
                for t in os.listdir("/proc/%s/task" % pid):
                    f = open("/proc/%s/task/%s/stat" % (pid, t)).read().rpartition(")")[2].split()
                    if f[0] in "RDTt":
                        return None
                    out.append((pid, t, f[11], f[12]))
            except (OSError, IndexError, ValueError):
                return None
    except OSError:
        return None
    return sorted(out) or None


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.spec = CHECKS[prop]
        self.lock = threading.Lock()
        self.violations = {}   # key -> dict
        self.counters, self.maxima = {}, {}
        self.samples, self.distinct = [], set()
        self.evals = 0
        self.perw = {}
        self.inconclusive = []
        self.stop = False
        self.known = load_known(prop)
        self.drop = can_drop()
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir="/tmp")
        os.chmod(self.tmp, 0o755)
        self.n = 0

    # ---- one worker process over cases [a, b) of a workload
    def spawn(self, exe, flavor, w, a, b, hang):
        with self.lock:
            self.n += 1
            d = os.path.join(self.tmp, "w%d" % self.n)
        os.makedirs(os.path.join(d, "scratch"))
        out, prog, err = d + "/out", d + "/prog", d + "/err"
        with open(prog, "wb") as f:
            f.truncate(8 + 8 + 8192)
        open(out, "w").close()
        if self.drop:
            for p in (d, d + "/scratch", out, prog):
                os.chown(p, NOBODY, NOBODY)
        cmd = [exe, "--w", w, "--from", str(a), "--to", str(b), "--seed", str(self.seed), "--out", out,
               "--progress", prog, "--scratch", d + "/scratch"]
        if self.tier == "thorough":
            cmd.append("--thorough")
        env = dict(ENV)
        env.update(self.spec.get("env", {}))
        env.update(self.tool_env)
        env["VF_WORKSPACE"] = d + "/scratch/ws/"
        env["TMPDIR"] = d + "/scratch"
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if self.drop else {}

        def pre():
            os.setsid()
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
            if flavor.startswith("dl"):
                resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, cwd=d + "/scratch", env=env, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef,
                                 preexec_fn=pre, **kw)
        last, last_t, hung, idle = None, time.time(), False, None
        step = 0.005
        while True:
            try:
                p.wait(timeout=step)
                break
            except subprocess.TimeoutExpired:
                step = min(0.25, step * 1.5)
            with open(prog, "rb") as f:
                cur = f.read(16)
            if cur != last:
                last, last_t, idle = cur, time.time(), None
            elif time.time() - last_t > hang:
                hung = True
                break
            elif time.time() - last_t > 10:
                # Blocked for good: every thread sleeps and none has used the CPU for a long time
                act = activity(p.pid)
                if act is None or idle is None or act != idle[1]:
                    idle = (time.time(), act) if act is not None else None
                elif time.time() - idle[0] > IDLE_S:
                    hung = "blocked"
                    break
            if self.stop or self.hangs(w):
                hung = None
                break
            if os.path.getsize(err) > 200 << 20:
                hung = True
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        with open(prog, "rb") as f:
            pr = f.read()
        case = struct.unpack("Q", pr[:8])[0]
        context = pr[16:].split(b"\0")[0].decode(errors="replace")
        with open(err, "rb") as f:
            f.seek(max(0, os.path.getsize(err) - 60000))
            errtext = f.read().decode(errors="replace")
        finished = False
        with open(out, errors="replace") as f:
            for line in f:
                t = line.rstrip("\n").split("\t")
                if t[0] == "F":
                    finished = True
                elif t[0] == "V":
                    self.violation(t[1], exe, flavor, w, int(t[2]), "\t".join(t[3:]), "")
                elif t[0] == "E":
                    with self.lock:
                        self.evals += int(t[1])
                        self.perw[w] = self.perw.get(w, 0) + int(t[1])
                elif t[0] == "C":
                    with self.lock:
                        self.counters[t[1]] = self.counters.get(t[1], 0) + int(t[2])
                elif t[0] == "M":
                    with self.lock:
                        self.maxima[t[1]] = max(self.maxima.get(t[1], 0), int(t[2]))
                elif t[0] == "S":
                    with self.lock:
                        if len([s for s in self.samples if s.startswith(w + ":")]) < 2 and len(self.samples) < 24:
                            self.samples.append(w + ": " + t[1])
                elif t[0] == "D":
                    with self.lock:
                        self.distinct.add((w, t[1]))
        subprocess.run(["chmod", "-R", "u+rwx", d], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        shutil.rmtree(d, ignore_errors=True)
        return p.returncode, hung, finished, case, context, errtext, cmd

    def violation(self, key, exe, flavor, w, case, msg, detail):
        with self.lock:
            if key in self.violations:
                return
            self.violations[key] = dict(key=key, flavor=flavor, workload=w, case=case, msg=msg, detail=detail)

    def crash_key(self, w, err, rc):
        kind = None
        m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
        if m:
            kind = m.group(1)
            if kind == "ILL":
                kind = "assertion-failed"
        elif "WARNING: ThreadSanitizer" in err:
            m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", err)
            kind = "tsan-" + m.group(1).strip().replace(" ", "-")
        else:
            m = re.search(r"runtime error: ([^\n]+)", err)
            if m:
                kind = "ub-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|\d+", "", m.group(1)).lower())[:50].strip("-")
            elif "hard rss limit" in err:
                kind = "memory-exhausted"
            elif rc is not None and rc < 0:
                kind = "signal-%d" % -rc
                if -rc == signal.SIGILL:
                    kind = "assertion-failed"
            else:
                kind = "exit-%s" % rc
        fn = ""
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)", err):
            f, path = m.group(1), m.group(2)
            if "/src/" in path and "/plywood/" in path:
                fn = re.sub(r"[<(].*", "", f)
                break
        return "%s:%s:%s" % (w, kind, fn)

    def hangs(self, w):
        """Whether a hang is established, so that there's no point in waiting for more; likewise if a violation is
        and the run has taken long."""
        v = [k for k in list(self.violations) if k not in self.known]
        return any(k.endswith(":no-progress") for k in v) or (self.tier == "quick" and bool(v) and time.time() - self.t0 > 300)

    def shard(self, exe, flavor, w, a, b):
        crashes = 0
        while a < b and not self.stop and not self.hangs(w):
            rc, hung, finished, case, context, err, cmd = self.spawn(exe, flavor, w, a, b, self.spec.get("hang", HANG_S))
            if hung is None:
                return
            if hung == "blocked":
                self.violation("%s:no-progress" % w, exe, flavor, w, case, "case %d waits for ever: every thread is asleep, "
                               "and none has run for %d s: %s" % (case, IDLE_S, context), err[-4000:])
                crashes += 2
                a = case + 1
            elif hung:
                # re-run that case alone, with more time, before believing it
                rc, hung2, finished, c2, context, err, cmd = self.spawn(exe, flavor, w, case, case + 1,
                                                                     2 * self.spec.get("hang", HANG_S))
                if hung2 is None:
                    return
                if hung2:
                    self.violation("%s:no-progress" % w, exe, flavor, w, case,
                                   "case %d made no progress twice: %s" % (case, context), err[-4000:])
                    crashes += 2
                elif rc != 0 or not finished:
                    self.violation(self.crash_key(w, err, rc), exe, flavor, w, case, context, err)
                    crashes += 1
                else:
                    self.inconclusive.append("%s case %d: slow once, finished when re-run" % (w, case))
                a = case + 1
            elif rc == 0 and finished:
                return
            elif rc in (98, 99) and "Sanitizer" not in err:
                raise SystemExit("harness error rc=%s: %s\n%s" % (rc, " ".join(cmd), err[-2000:]))
            else:
                self.violation(self.crash_key(w, err, rc), exe, flavor, w, case, context, err)
                crashes += 1
                with self.lock:
                    self.evals += case - a + 1
                    self.perw[w] = self.perw.get(w, 0) + case - a + 1
                a = case + 1
            if crashes >= 3:
                return

    def run(self):
        t0 = self.t0 = time.time()
        jobs = []
        self.tool_env = B.tool_env(self.spec["plytool"]) if self.spec.get("plytool") else {}
        for r in self.spec["runs"]:
            exe = B.build(r.get("name", r["harness"] if isinstance(r["harness"], str) else r["harness"][0]).replace(".cpp", ""),
                          r["harness"], r["modules"],
                          r["flavor"], extra_defs=r.get("defs", ()), skip=r.get("skip", ()),
                          extra_sources=r.get("extra_sources", ()), ldflags=r.get("ldflags", ()))
            ls = subprocess.run([exe, "--list"], env=ENV, stdout=subprocess.PIPE, check=True).stdout.decode()
            for line in ls.split("\n"):
                if not line.strip():
                    continue
                name, q, t, serial = line.split()
                if not re.match(r.get("only", ".*"), name) or (ONLY and not re.match(ONLY, name)):
                    continue
                n = int(t if self.tier == "thorough" else q)
                if r.get("cap"):
                    n = min(n, r["cap"][0 if self.tier == "quick" else 1])
                k = 1 if int(serial) else min(n, 16 if n > 64 else 8)
                if r.get("repeat"):
                    pass
                for i in range(k):
                    a, b = n * i // k, n * (i + 1) // k
                    if a < b:
                        jobs.append((r.get("prio", 0), exe, r["flavor"], name, a, b))
        tb = time.time() - t0
        # slow (racy, threaded) ones run with fewer workers
        width = self.spec.get("width", os.cpu_count() or 4)
        with cf.ThreadPoolExecutor(max_workers=width) as ex:
            fs = [ex.submit(self.shard, *j[1:]) for j in jobs]
            for f in fs:
                f.result()
        self.build_s = tb


ONLY = None


def load_known(prop):
    known = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3).strip()
    return known


def main():
    global ONLY
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    args = sys.argv[2:]
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--only":
            ONLY = args.pop(0)
    t0 = time.time()
    rn = Runner(prop, tier, seed)
    try:
        rn.run()
    except B.BuildError as e:
        print("BUILD ERROR\n%s" % e)
        shutil.rmtree(rn.tmp, ignore_errors=True)
        sys.exit(3)
    finally:
        rn.stop = True
        shutil.rmtree(rn.tmp, ignore_errors=True)
    wall = time.time() - t0
    known = load_known(prop)
    new = 0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    seen_known = set()
    lines = []
    for key, v in sorted(rn.violations.items()):
        if key in known:
            seen_known.add(key)
            continue
        new += 1
        path = os.path.join(rdir, "%s-%s.txt" % (prop, hashlib.sha256(key.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write("property: %s\nkey: %s\nflavor: %s\nworkload: %s\ncase: %d\nseed: %d\ntier: %s\n"
                    "replay: VERIF_SEED=%d python3 /verif/vf/replay.py %s %s %s %d\n\n%s\n\n%s\n" % (
                        prop, key, v["flavor"], v["workload"], v["case"], seed, tier, seed, prop, v["flavor"],
                        v["workload"], v["case"], v["msg"], v["detail"]))
        if new <= 12:
            lines.append("  [%s] %s" % (key, v["msg"][:700]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    for key in known:
        print("KNOWN-FINDING: property=%s %s [%s]%s" % (prop, known[key], key, "" if key in seen_known else " (not reached in this run)"))
    print("%s %s seed=%d: %d evaluations, %d distinct, build %.1fs, total %.1fs" % (
        prop, tier, seed, rn.evals, len(rn.distinct), getattr(rn, "build_s", 0), wall))
    for x in rn.inconclusive:
        print("  inconclusive:", x)
    cov = {
        "evaluations": rn.evals,
        "distinct_nontrivial": len(rn.distinct),
        "rule": rn.spec["rule"],
        "samples": rn.samples or ["(none)"],
        "per_workload": rn.perw,
        "observed": rn.counters,
        "maxima": rn.maxima,
        "flavors": sorted({r["flavor"] for r in rn.spec["runs"]}),
        "inconclusive": rn.inconclusive,
        "known_findings_reproduced": sorted(seen_known),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": rn.spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": new}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not ONLY:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    if new:
        sys.exit(1)
    if not ONLY and (rn.evals == 0 or len(rn.distinct) < 2):
        print("nothing observed: inconclusive")
        sys.exit(4)
    sys.exit(0)


if __name__ == "__main__":
    main()
