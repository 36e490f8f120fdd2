#!/usr/bin/env python3
"""Decide one property by deterministic simulation.

  run_check.py P04                  build the simulator from /repo, search seeds
  run_check.py --replay FILE        rebuild and replay one recorded execution

Exit 0: no violation found.  Exit 1 and a line
"VIOLATION property=<id> replay=<path>": a violation that was reproduced
identically in fresh processes.  Everything random comes from VERIF_SEED.
"""
import collections, json, os, re, shutil, subprocess, sys, tarfile, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS          # per property: binary, run counts, text for the evidence

WORKERS = 8
M = (1 << 64) - 1


def mix64(a, b):
    s = ((a * 0x2545F4914F6CDD1D) & M) ^ ((b + 0x632BE59BD9B4E019) & M)
    s = (s + 0x9E3779B97F4A7C15) & M
    z = s
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M
    return z ^ (z >> 31)


def seed_of(base, i):
    return mix64(base, i) >> 1


def coarse(cls):
    """Memory errors are one class: which one the sanitizer names first depends on the neighbouring bytes."""
    return "memory" if cls.startswith(("memory:", "signal:")) else cls


def build(out, kind):
    p = subprocess.run(["bash", os.path.join(HERE, "sim", "build.sh"), out, kind], capture_output=True, text=True,
                       env=dict(os.environ, REPO=REPO))
    if p.returncode:
        sys.stdout.write(p.stdout[-3000:] + p.stderr[-6000:])
        print("the simulator does not build against the current tree")
        sys.exit(3)
    with tarfile.open(os.path.join(HERE, "golden.tar.xz")) as t:      # database files written earlier (P16)
        t.extractall(out)
    os.environ["FILEDB_SIM_GOLDEN"] = os.path.join(out, "golden")
    return os.path.join(out, "simbin_" + kind)


def replay(binp, path, timeout=120):
    """One fresh process: (class, detail, hash)."""
    try:
        p = subprocess.run([binp, "replay", path], capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return ("stuck", "no progress within %d s" % timeout, "0")
    m = re.search(r"^RESULT class=(\S+) hash=(\w+)(?: detail=(.*))?$", p.stdout, re.M)
    if m:
        return (m[1], m[3] or "", m[2])
    c = re.findall(r"CRASH class=(\S+)", p.stdout)
    if c:
        return (c[-1], "memory error in the code under test", "0")
    if p.returncode < 0:
        return ("signal:%d" % -p.returncode, "the process died", "0")
    return ("none", "rc %d" % p.returncode, "0")


class Search:
    def __init__(self, prop, binp, base, runs, cap, tmp):
        self.prop, self.binp, self.base, self.runs, self.cap, self.tmp = prop, binp, base, runs, cap, tmp
        self.stats, self.found, self.crashes, self.covs = [], [], [], []
        self.lock = threading.Lock()
        self.stop = threading.Event()
        self.t0 = time.time()

    def worker(self, w):
        n = (self.runs + WORKERS - 1) // WORKERS
        at = 0
        tries = 0
        while at < n and not self.stop.is_set() and time.time() - self.t0 < self.cap:
            tries += 1
            st = "%s/status%d" % (self.tmp, w)
            cov = "%s/cov%d_%d" % (self.tmp, w, tries)
            cmd = [self.binp, "run", "--prop=" + self.prop, "--base=%d" % self.base, "--from=%d" % (at * WORKERS + w),
                   "--stride=%d" % WORKERS, "--count=%d" % (n - at), "--out=" + self.tmp, "--maxfound=1",
                   "--status=" + st, "--recheck", "--cov=" + cov, "--cap=%f" % max(1, self.cap - (time.time() - self.t0))]
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
            last, since, stuck = None, time.time(), False
            while True:
                try:
                    p.wait(timeout=0.3)
                    break
                except subprocess.TimeoutExpired:
                    pass
                if self.stop.is_set():
                    p.kill()
                    p.wait()
                    p.stdout.close()
                    return
                try:
                    cur = open(st).read()
                except OSError:
                    cur = ""
                if cur != last:
                    last, since = cur, time.time()
                elif time.time() - since > 90:
                    stuck = True
                    p.kill()
            out = p.stdout.read()
            p.stdout.close()
            lines = out.rstrip().splitlines()
            with self.lock:
                for l in lines:
                    if l.startswith("STATS "):
                        self.stats.append(json.loads(l[6:]))
                    m = re.match(r"FOUND seed=(\d+) class=(\S+) hash=(\S+) file=(\S+) detail=(.*)", l)
                    if m:
                        self.found.append((int(m[1]), m[2], m[4], m[5]))
                        self.stop.set()
                if os.path.exists(cov):
                    self.covs.append(cov)
            if lines and lines[-1].startswith("STATS "):
                return
            # the worker process died inside a run
            try:
                seed = int(open(st).read())
            except (OSError, ValueError):
                print("worker %d failed before its first run: rc %s" % (w, p.returncode))
                return
            with self.lock:
                self.crashes.append((seed, stuck))
                if len(self.crashes) >= 4:
                    self.stop.set()
            while seed_of(self.base, at * WORKERS + w) != seed:
                at += 1
            at += 1

    def go(self):
        ts = [threading.Thread(target=self.worker, args=(w,)) for w in range(WORKERS)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()


def confirm(prop, binp, path, keep_dir, seed, notes, mini_secs):
    """Replay twice in fresh processes, minimise, replay the minimised file twice."""
    a, b = replay(binp, path), replay(binp, path)
    if coarse(a[0]) != coarse(b[0]) or a[0] == "none":
        notes.append("seed %d: %s then %s, not reproduced, not reported" % (seed, a[0], b[0]))
        return None
    if a[2] != b[2]:
        notes.append("seed %d: trace hashes differ (%s %s), not reported" % (seed, a[2], b[2]))
        return None
    best, res = path, a
    mini = path + ".min"
    if a[0] != "stuck":
        try:
            p = subprocess.run([binp, "minimise", path, mini, "--secs=%d" % mini_secs], capture_output=True, text=True, timeout=mini_secs + 120, errors="replace")
            c, d = replay(binp, mini), replay(binp, mini)
            if coarse(c[0]) == coarse(d[0]) == coarse(a[0]) and c[2] == d[2]:
                best, res = mini, c
                notes.append(p.stdout.strip().splitlines()[-1][:300])
        except (subprocess.TimeoutExpired, OSError, IndexError):
            pass
    os.makedirs(keep_dir, exist_ok=True)
    final = os.path.join(keep_dir, "%s-%d.plan" % (prop, seed))
    shutil.copy(best, final)
    return final, res


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*?) :: (.*)", l)
            if m and m[1] == prop:
                out.append((m[2], m[3], m[4].strip()))
    except OSError:
        pass
    return out


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        txt = open(sys.argv[2]).read()
        prop = re.search(r"^prop (\S+)", txt, re.M)[1]
        tmp = tempfile.mkdtemp(prefix="filedb-sim-")
        try:
            binp = build(tmp, PROPS[prop]["kind"])
            p = subprocess.run([binp, "replay", "--log", sys.argv[2]], stderr=subprocess.DEVNULL, stdout=subprocess.PIPE, text=True, errors="replace")
            sys.stdout.write(p.stdout)
            sys.exit(1 if "RESULT class=none" not in p.stdout else 0)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2].lstrip("-")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    runs, cap = cfg[tier]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="filedb-sim-")
    notes = []
    try:
        binp = build(tmp, cfg["kind"])
        t_build = time.time() - t0
        base = mix64(vseed, 0x46444253 + int(prop[1:])) >> 2
        s = Search(prop, binp, base, runs, cap, tmp)
        s.go()
        t_search = time.time() - t0 - t_build
        # what was found: reproduce, minimise
        known, violation = known_findings(prop), None
        seen_known = collections.OrderedDict()
        cands = [(seed, f) for seed, cls, f, d in s.found]
        for seed, stuck in s.crashes:
            f = os.path.join(tmp, "crash-%d.plan" % seed)
            try:
                subprocess.run([binp, "plan", "--prop=" + prop, "--seed=%d" % seed, "--out=" + f], timeout=120, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            except subprocess.TimeoutExpired:
                pass
            if not os.path.exists(f):    # generation itself runs the code (fault placement): without faults then
                subprocess.run([binp, "plan", "--prop=" + prop, "--seed=%d" % seed, "--out=" + f, "--skipfaults"], timeout=120, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(f):
                cands.append((seed, f))
            else:
                notes.append("seed %d: plan could not be written" % seed)
        for seed, f in cands:
            r = confirm(prop, binp, f, os.path.join(HERE, "replays"), seed, notes, 25 if tier == "quick" else 90)
            if not r:
                continue
            final, (cls, detail, h) = r
            k = [x for x in known if x[0] == coarse(cls) and re.search(x[1], detail)]
            if k:
                seen_known[k[0][2]] = final
                continue
            violation = (final, cls, detail, seed)
            break
        # evidence
        tot = collections.Counter()
        fired, fcall, stat = collections.Counter(), collections.Counter(), collections.Counter()
        for x in s.stats:
            for k2 in ("runs", "ops", "steps", "events", "sim_us", "sched_points", "switches", "distinct", "interleavings", "runs_with_fault", "faults_planned"):
                tot[k2] += x[k2]
            fired.update(x["fired"]); fcall.update(x["fired_call"]); stat.update(x["stat"])
        cov = None
        for c in s.covs:
            b = open(c, "rb").read()
            cov = bytearray(b) if cov is None else bytearray(p | q for p, q in zip(cov, b))
        edges = sum(1 for x in (cov or b"") if x)
        sample_seed = seed_of(base, 0)
        sp = os.path.join(tmp, "sample.plan")
        try:
            subprocess.run([binp, "plan", "--prop=" + prop, "--seed=%d" % sample_seed, "--out=" + sp], timeout=60, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            sample = open(sp).read().splitlines()
        except (OSError, subprocess.TimeoutExpired):
            sample = ["seed %d" % sample_seed]
        wall = time.time() - t0
        ev = {
            "property": prop, "tier": tier, "seed": vseed, "level": cfg.get("level", "exploration"),
            "coverage": {
                "evaluations": tot["runs"], "distinct_nontrivial": tot["distinct"],
                "rule": "One evaluation is one simulated execution (plan) derived from one seed: " + cfg["rule"] + " Distinct: executions whose full trace hash (every simulated system call, return value and operation result) differs, counted per worker; non-trivial: the plan executed at least one library operation, which all do.",
                "samples": [{"seed": sample_seed, "plan": sample[:60] + (["... %d lines" % len(sample)] if len(sample) > 60 else [])}],
                "operations": tot["ops"], "trace_events": tot["events"],
                "runs_per_hour": int(tot["runs"] * 3600 / t_search) if t_search > 0 else 0,
                "simulated_seconds": round(tot["sim_us"] / 1e6, 3),
                "instrumented_steps": tot["steps"],
                "faults_fired_by_kind": dict(fired), "faults_fired_by_call": dict(fcall),
                "faults_planned": tot["faults_planned"], "runs_with_a_fired_fault": tot["runs_with_fault"],
                "events_by_kind": {k2: v for k2, v in stat.items() if k2 not in ("determinism_rechecks", "nondeterministic")},
                "determinism_rechecks": stat["determinism_rechecks"], "determinism_mismatches": stat["nondeterministic"],
                "scheduling_points": tot["sched_points"], "context_switches": tot["switches"], "distinct_interleavings": tot["interleavings"],
                "interleaving_measure": "hash of the sequence of (scheduling point, thread chosen) of the run",
                "code_edges_reached": edges, "code_edges_total": (s.stats[0]["edges_total"] if s.stats else 0),
                "real_components": cfg["real"], "stubbed_components": cfg["stub"],
                "build_s": round(t_build, 1), "search_s": round(t_search, 1), "notes": notes,
            },
            "assumptions": cfg["assumptions"],
            "wall_s": round(wall, 2), "violations": 1 if violation else 0,
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k2, final in seen_known.items():
            print("KNOWN-FINDING: property=%s %s" % (prop, k2))
        print("%s %s: %d runs, %d distinct, %d faults fired, %d/%d edges, %.1f s" % (prop, tier, tot["runs"], tot["distinct"], sum(fired.values()), edges, ev["coverage"]["code_edges_total"], wall))
        for n in notes:
            print("  note: " + n)
        if violation:
            final, cls, detail, seed = violation
            print("  %s: %s (seed %d)" % (cls, detail, seed))
            print("VIOLATION property=%s replay=%s" % (prop, final))
            return 1
        if not tot["runs"]:
            print("no run completed")
            return 3
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
