#!/usr/bin/env python3
"""Runner: builds the drivers of a property from /repo's working tree, runs them
sharded, gathers what the monitors observed, writes the evidence file.

  run.py check P01 [--tier quick|thorough]
  run.py replay evidence/replays/P01.json
exit 0: held on everything explored; exit 1 + VIOLATION line: violated.
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 8)
sys.path.insert(0, HERE)
from plan import PLAN, FLAVORS  # noqa: E402


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        if os.path.isfile(base):
            h.update(base.encode()); h.update(open(base, "rb").read()); continue
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    return h.hexdigest()


_SRC = None


def src_hash():
    global _SRC
    if _SRC is None:
        _SRC = tree_hash([os.path.join(REPO, "printemps"), os.path.join(REPO, "application"),
                          os.path.join(HERE, "harness"), os.path.join(HERE, "plan.py")])
    return _SRC


class Builder:
    """Compiles drivers; results are cached under /verif/.build by content hash."""

    def __init__(self):
        self.root = os.path.join(HERE, ".build")
        os.makedirs(self.root, exist_ok=True)
        self.dir = os.path.join(self.root, src_hash()[:20])
        for d in os.listdir(self.root):  # keep only a few trees
            p = os.path.join(self.root, d)
            if p != self.dir and time.time() - os.path.getmtime(p) > 6 * 3600:
                shutil.rmtree(p, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)

    def build(self, drv, flavor):
        out = os.path.join(self.dir, drv + "." + flavor)
        if os.path.exists(out):
            return out
        f = FLAVORS[flavor]
        tmp = out + ".tmp%d" % os.getpid()
        src = f.get("src", {}).get(drv) or os.path.join(HERE, "harness", drv + ".cpp")
        src = src.replace("$REPO", REPO)
        cmd = [f.get("cxx", "g++"), "-std=c++17", "-w", "-I", os.path.join(REPO, "printemps"), "-I",
               os.path.join(HERE, "harness")] + f["flags"] + [src] + \
              [os.path.join(HERE, "harness", x) for x in f.get("extra", [])] + ["-o", tmp] + f.get("libs", [])
        t = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            # one retry (memory pressure), then give up
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            raise RuntimeError("build of %s.%s failed:\n%s" % (drv, flavor, p.stdout[-3000:]))
        os.replace(tmp, out)
        log("built %s.%s in %.1fs" % (drv, flavor, time.time() - t))
        return out


class Shard:
    pass


STALL = 90.0  # seconds without finishing a case


def run_range(binary, seed, lo, n, mode, env, scratch, sink, deadline, wrap=()):
    """Runs cases [lo, lo+n), restarting after a crashed or stuck case."""
    state = tempfile.NamedTemporaryFile(dir=scratch, delete=False).name
    cur, end = lo, lo + n
    crashes = maps = 0
    while cur < end:
        if time.time() > deadline:
            sink.cut(end - cur)
            break
        open(state, "w").write(str(cur))
        sdir = tempfile.mkdtemp(dir=scratch)
        cmd = list(wrap) + [binary, "--seed", str(seed), "--from", str(cur), "--n", str(end - cur), "--mode", mode, "--state", state,
               "--scratch", sdir]
        errf = tempfile.TemporaryFile()
        outf = tempfile.TemporaryFile()
        p = subprocess.Popen(cmd, stdout=outf, stderr=errf, env=env, cwd=sdir, start_new_session=True)
        last, lt, stuck, timed = None, time.time(), False, False
        nap = 0.02
        while True:
            try:
                p.wait(timeout=nap)
                break
            except subprocess.TimeoutExpired:
                pass
            nap = min(0.5, nap * 1.5)
            try:
                now = open(state).read()
            except OSError:
                now = last
            if now != last:
                last, lt = now, time.time()
            if time.time() - lt > STALL:
                stuck = True
            if time.time() > deadline:
                timed = True
            if stuck or timed:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                break
        outf.seek(0)
        out = outf.read().decode("utf-8", "replace")
        errf.seek(0, 2)
        sz = errf.tell()
        errf.seek(max(0, sz - 8000))
        err = errf.read().decode("utf-8", "replace")
        outf.close(); errf.close()
        shutil.rmtree(sdir, ignore_errors=True)
        done = sink.feed(out)
        if p.returncode == 0 and done and not stuck:
            break
        try:
            at = int(open(state).read().strip() or cur)
        except ValueError:
            at = cur
        if timed and not stuck:
            sink.partial(at - cur)
            sink.cut(end - at)
            break
        if "unexpected memory mapping" in err and maps < 50:
            maps += 1  # the sanitizer could not lay out its shadow memory; nothing ran
            continue
        crashes += 1
        sink.crash(at, p.returncode, stuck, err, cur)
        cur = at + 1
        if crashes > 6:
            sink.cut(end - cur)
            break
    try:
        os.unlink(state)
    except OSError:
        pass


class Sink:
    def __init__(self, job):
        self.job = job
        self.lock = threading.Lock()
        self.viol = []
        self.evaluations = self.cases = self.inconclusive = self.cutn = 0
        self.events, self.samples, self.hashes = {}, [], set()
        self.distinct_sum = 0
        self.crashes = []

    def feed(self, out):
        done = False
        with self.lock:
            for l in out.splitlines():
                if l.startswith("@@V "):
                    try:
                        self.viol.append(json.loads(l[4:], strict=False))
                    except ValueError:
                        self.viol.append({"key": "unparsed", "case": "?", "detail": l})
                elif l.startswith("@@R "):
                    done = True
                    r = json.loads(l[4:], strict=False)
                    self.evaluations += r["evaluations"]
                    self.cases += r["cases"]
                    self.inconclusive += r["inconclusive"]
                    for k, v in r["events"].items():
                        self.events[k] = max(self.events.get(k, 0), v) if k.startswith("max:") else self.events.get(k, 0) + v
                    self.samples += r["samples"][:1]
                    self.hashes.update(r["hashes"])
                    self.distinct_sum = max(self.distinct_sum, r["distinct"])
        return done

    def cut(self, n):
        with self.lock:
            self.cutn += n

    def partial(self, n):
        with self.lock:
            self.cases += max(0, n)

    def crash(self, at, rc, stuck, err, start):
        with self.lock:
            self.crashes.append((at, rc, stuck, err, start))


def load_known():
    known = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) case=(\S+) (.*)", l.strip())
            if m:
                known.append(m.groups())
    return known


def match_known(known, pid, v):
    for k in known:
        if k[0] == pid and k[1] == v["key"] and k[2] == v["case"]:
            return k
    return None


def san_env(env, flavor):
    env = dict(env)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
    env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=97:report_signal_unsafe=0:history_size=4"
    env.update(FLAVORS[flavor].get("env", {}))
    return env


def err_sig(err):
    """Short, stable description of a sanitizer report or abort message."""
    for pat in (r"(?m)^(.*runtime error: .*)$", r"ERROR: AddressSanitizer: ([^\n]*)", r"WARNING: ThreadSanitizer: ([^\n]*)",
                r"(?m)^==\d+== ((?:Conditional jump|Use of uninit|Invalid|Syscall param)[^\n]*(?:\n==\d+==    (?:at|by)[^\n]*){0,4})",
                r"(?m)^(.*Assertion.*failed.*)$", r"(?m)^(terminate called.*(?:\n.*what.*)?)"):
        m = re.search(pat, err)
        if m:
            s = m.group(1)
            fr = re.findall(r"(?m)^\s+#\d+ .*?(?:in )?(?:.*?)(/repo/\S+?:\d+)", err)
            return s[:300] + ((" at " + fr[0]) if fr else "")
    return err.strip()[-300:]


def run_job(pid, job, tier, seed, builder, deadline):
    """job: dict(drv, flavor, n, mode, keys, weight)"""
    binary = builder.build(job["drv"], job.get("flavor", "o1"))
    n = job["thorough"] if tier == "thorough" else job["quick"]
    if job.get("thorough_factor") and tier == "thorough":
        n = job["quick"] * job["thorough_factor"]
    procs = job.get("procs", NCPU)
    sink = Sink(job)
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    env = san_env(os.environ, job.get("flavor", "o1"))
    env["OMP_NUM_THREADS"] = str(job.get("omp", 1))
    env["VF_REPO"] = REPO
    env["VF_PROP"] = pid
    if job.get("aux"):
        env["VF_AUX"] = builder.build(*job["aux"])
    nshards = procs if tier == "quick" else procs * 3
    per = max(1, (n + nshards - 1) // nshards)
    ranges = [(i, min(per, n - i)) for i in range(0, n, per)]
    mode = job.get("mode", "all")
    wrap = FLAVORS[job.get("flavor", "o1")].get("wrap", [])
    try:
        with cf.ThreadPoolExecutor(procs) as ex:
            fs = [ex.submit(run_range, binary, seed, lo, m, mode, env, scratch, sink, deadline, wrap) for lo, m in ranges]
            for f in fs:
                f.result()
        # crashes: run the single case once more, alone
        for at, rc, stuck, err, start in sink.crashes:
            s2 = Sink(job)
            run_range(binary, seed, at, 1, mode, env, scratch, s2, time.time() + STALL + 30, wrap)
            again = bool(s2.crashes)
            if stuck:
                if again and s2.crashes[0][2]:
                    sink.viol.append({"key": "HANG:" + job["drv"], "case": "%s:%s:%d" % (job["drv"], seed, at),
                                      "detail": "no progress for %ds, twice" % STALL})
                else:
                    sink.inconclusive += 1
                continue
            if not again and rc in (-9, -15, 137):
                sink.inconclusive += 1  # killed from outside (memory)
                continue
            sink.viol.append({"key": "CRASH:" + job["drv"], "case": "%s:%s:%d" % (job["drv"], seed, at),
                              "detail": "exit %s%s: %s" % (rc, "" if again else " (not repeated when run alone)", err_sig(err))})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return sink


def relevant(keys, v):
    if v["key"].startswith("CRASH:") or v["key"] == "unparsed":
        return True
    return any(v["key"].startswith(k) for k in keys)


def check(pid, tier, seed):
    t0 = time.time()
    spec = PLAN[pid]
    limit = 820 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_SECONDS", "3300"))
    deadline = t0 + limit
    builder = Builder()
    known = load_known()
    jobs = spec["jobs"]
    # compile in parallel first
    need = {(j["drv"], j.get("flavor", "o1")) for j in jobs} | {tuple(j["aux"]) for j in jobs if j.get("aux")}
    with cf.ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda x: builder.build(*x), sorted(need)))
    ev = dict(evaluations=0, distinct=0, cases=0, inconclusive=0, cut=0)
    events, samples, viol, per_job, knownhit = {}, [], [], [], []
    for j in jobs:
        s = run_job(pid, j, tier, seed, builder, deadline)
        ev["evaluations"] += s.evaluations
        ev["distinct"] += max(len(s.hashes), s.distinct_sum)
        ev["cases"] += s.cases
        ev["inconclusive"] += s.inconclusive
        ev["cut"] += s.cutn
        name = j["drv"] + ("" if j.get("mode", "all") == "all" else ":" + j["mode"])
        name += "" if j.get("flavor", "o1") == "o1" else "@" + j["flavor"]
        for k, v in s.events.items():
            if not k.startswith("viol:"):
                events[name + "/" + k] = v
        samples += s.samples[:2]
        for v in s.viol:
            if relevant(j["keys"], v) or (v["key"].startswith("HANG") and "HANG" in j["keys"]):
                v["job"] = {"drv": j["drv"], "flavor": j.get("flavor", "o1"), "mode": j.get("mode", "all"), "omp": j.get("omp", 1)}
                k = match_known(known, pid, v)
                (knownhit if k else viol).append(v)
            elif v["key"].startswith("HANG"):
                ev["inconclusive"] += 1
    for k, c in sorted({(v["key"], v["case"]) for v in knownhit}):
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k, c))
    # vacuity guard: the monitors must have observed something
    miss = [e for e in spec.get("must_see", []) if not any(k.endswith("/" + e) and n > 0 for k, n in events.items())]
    out = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev["evaluations"], "distinct_nontrivial": ev["distinct"], "rule": spec["rule"],
            "samples": samples[:8], "cases_generated": ev["cases"], "inconclusive": ev["inconclusive"],
            "not_run_out_of_time": ev["cut"], "observed_events": events, "never_observed": miss,
        },
        "assumptions": spec.get("assumptions", []),
        "violations": len(viol), "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(out, f, indent=1)
    if viol:
        rd = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + ".json")
        json.dump({"property": pid, "seed": seed, "tier": tier, "violations": viol[:50]}, open(rp, "w"), indent=1)
        seen = set()
        for v in viol:
            if v["key"] not in seen:
                seen.add(v["key"])
                print("  %s %s %s" % (v["key"], v["case"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s tier=%s evaluations=%d distinct=%d inconclusive=%d wall=%.1fs" %
          (pid, tier, ev["evaluations"], ev["distinct"], ev["inconclusive"], time.time() - t0))
    if miss:
        print("note: never observed: " + ", ".join(miss))
    return 0


def replay(path):
    r = json.load(open(path))
    builder = Builder()
    for v in r["violations"][:10]:
        j = v["job"]
        m = re.search(r":(\d+):(\d+)", v["case"])
        if not m:
            print("no case id in", v["case"]); continue
        b = builder.build(j["drv"], j["flavor"])
        env = san_env(os.environ, j["flavor"]); env["OMP_NUM_THREADS"] = str(j["omp"]); env["VF_REPO"] = REPO
        d = tempfile.mkdtemp()
        cmd = FLAVORS[j["flavor"]].get("wrap", []) + [b, "--seed", m.group(1), "--only", m.group(2), "--mode", j["mode"], "--scratch", d]
        print("+ " + " ".join(cmd))
        subprocess.run(cmd, env=env, cwd=d)
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "build", "all", "setup"])
    ap.add_argument("what", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if a.cmd == "replay":
        return replay(a.what)
    if a.cmd == "setup":  # nothing to prepare: every check builds its own drivers from /repo's current tree
        subprocess.run(["g++", "--version"], stdout=subprocess.DEVNULL, check=True)
        return 0
    if a.cmd == "build":
        b = Builder()
        need = sorted({(j["drv"], j.get("flavor", "o1")) for p in PLAN.values() for j in p["jobs"]})
        with cf.ThreadPoolExecutor(6) as ex:
            list(ex.map(lambda x: b.build(*x), need))
        return 0
    if a.cmd == "all":
        rc = 0
        for pid in sorted(PLAN):
            rc |= check(pid, a.tier, seed)
        return rc
    return check(a.what, a.tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # a failure of the machinery is neither "held" nor "violated"
        log("error: %s" % e)
        rc = 2
    sys.exit(rc)
