#!/usr/bin/env python3
"""Driver of the model checker for tpp.

  run.py check C07 [--tier quick|thorough]   decide one property, write evidence/C07.json
  run.py replay FILE                         replay a recorded counterexample against /repo
  run.py list C07 [--tier T]                 the binaries and jobs of a check
  run.py setup                               check that the tools are there

Exit status of `check`: 0 held on everything explored, 1 violated (a VIOLATION line is printed).
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from collections import Counter, defaultdict

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import CONFIGS, CONT_NAMES, LEVEL, PLAN, SOURCES  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
CACHE = os.path.join(BUILD, "cache")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
CORES = os.cpu_count() or 4
DEADLINE = {"quick": 780, "thorough": 6 * 3600}
SHARD_WALL = {"quick": 700, "thorough": 5 * 3600}

stop = threading.Event()
running = set()
running_lock = threading.Lock()


def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def limits():
    os.setpgid(0, 0)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(cmd, timeout, on_line=None):
    """Runs cmd in a process group of its own; returns (rc, stdout lines, stderr)."""
    with tempfile.TemporaryFile() as err:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=err, preexec_fn=limits, text=True, errors="replace")
        with running_lock:
            running.add(p.pid)
        timed = threading.Timer(timeout, lambda: kill(p.pid))
        timed.start()
        lines = []
        try:
            for line in p.stdout:
                lines.append(line)
                if on_line:
                    on_line(line)
            rc = p.wait()
        finally:
            timed.cancel()
            with running_lock:
                running.discard(p.pid)
            kill(p.pid)
        err.seek(0)
        return rc, lines, err.read().decode(errors="replace")


def kill(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass


def children_of(pid):
    kids = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open(f"/proc/{d}/stat") as f:
                    if f.read().rsplit(")", 1)[1].split()[1] == str(pid):
                        kids.append(int(d))
            except (OSError, IndexError):
                pass
    return kids


def kill_all():
    with running_lock:
        pids = list(running)
    for p in pids:
        for k in children_of(p):
            kill(k)
        kill(p)


class Binary:
    def __init__(self, src, cfg, cont):
        self.src, self.cfg, self.cont = src, cfg, cont
        self.label = f"{src}-{cfg}-c{cont:02d}"
        cc, flags = CONFIGS[cfg]
        self.cmd = [cc, *flags.split(), "-g0", "-w", f"-DCONT={cont}", f"-I{REPO}", os.path.join(HARNESS, SOURCES[src])]

    def build(self, sources_hash):
        os.makedirs(CACHE, exist_ok=True)
        key = hashlib.sha256((sources_hash + "\0" + "\0".join(self.cmd)).encode()).hexdigest()[:32]
        self.path = os.path.join(CACHE, f"{self.label}-{key}")
        if os.path.exists(self.path):
            os.utime(self.path)
            return None
        tmp = f"{self.path}.{os.getpid()}.{threading.get_ident()}.tmp"
        err = ""
        for _ in range(2):
            rc, _, err = run([*self.cmd, "-o", tmp], 600)
            if rc == 0 and os.path.exists(tmp):
                os.replace(tmp, self.path)
                return None
            if stop.is_set():
                return None
        return err or "the compiler failed"


def prune_cache(keep=600):
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
        fs.sort(key=os.path.getmtime, reverse=True)
        for f in fs[keep:]:
            os.unlink(f)
    except OSError:
        pass


def load_known(prop):
    """Entries: 'finding: property=<id> binary=<regex> job=<regex> msg=<regex> :: <what fails>'."""
    res = []
    try:
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"finding:\s+property=(\S+)\s+binary=(\S+)\s+job=(\S+)\s+msg=(.*?)\s+::\s+(.*)$", line.strip())
                if m and m.group(1) == prop:
                    res.append({"binary": m.group(2), "job": m.group(3), "msg": m.group(4), "what": m.group(5)})
    except OSError:
        pass
    return res


def matches(k, d):
    return re.fullmatch(k["binary"], d["binary"]) and re.fullmatch(k["job"], d["job"]) and re.search(k["msg"], d["msg"])


def check(prop, tier):
    t0 = time.time()
    replays = os.path.join(BUILD, "replays", prop)
    shutil.rmtree(replays, ignore_errors=True)
    os.makedirs(replays)
    os.makedirs(EVIDENCE, exist_ok=True)
    sources_hash = tree_hash(os.path.join(REPO, "tpp"), HARNESS)
    entries = PLAN[prop][tier]
    bins, seen = [], set()
    for src, cfg, conts in entries:
        for c in conts:
            if (src, cfg, c) not in seen:
                seen.add((src, cfg, c))
                bins.append(Binary(src, cfg, c))
    known = load_known(prop)
    known_hit = set()
    violations, notes = [], []
    jobs = {}
    lock = threading.Lock()
    deadline = t0 + DEADLINE[tier]

    def violation(d):
        with lock:
            for k in known:
                if matches(k, d):
                    known_hit.add(k["what"])
                    return
            violations.append(d)
        stop.set()

    def result(b, d):
        with lock:
            jobs[(b.label, d["job"])] = d
        if d["kind"] == "violation":
            violation(d)
        elif d["kind"] in ("unconfirmed", "error") and not stop.is_set():
            again(b, d)

    def again(b, d):
        """A failure that did not reproduce at once: explore that job again, twice."""
        for _ in range(2):
            out = []
            run([b.path, "run", prop, tier, replays, b.label, d["job"]], SHARD_WALL[tier], lambda l: out.append(l))
            if stop.is_set():
                return
            for line in out:
                try:
                    e = json.loads(line)
                except ValueError:
                    continue
                with lock:
                    jobs[(b.label, e["job"])] = e
                if e["kind"] == "violation":
                    violation(e)
                    return
                if e["kind"] == "ok":
                    notes.append(f"{b.label} {d['job']}: {d['kind']} once ({d['msg']}), passed when explored again")
                    return
        if d["kind"] == "unconfirmed":
            p = os.path.join(replays, f"{prop}_{b.label}_{d['job'].replace('/', '_')}.replay")
            with open(p, "w") as f:
                f.write(f"property {prop}\ntier {tier}\nbinary {b.label}\nexplore {d['job']}\n# {d['msg']}\n")
            violation({**d, "replay": p})
        else:
            notes.append(f"{b.label} {d['job']}: error: {d['msg']}")

    def shard(b, i, n):
        if stop.is_set() or time.time() > deadline:
            return
        def on_line(line):
            try:
                d = json.loads(line)
            except ValueError:
                return
            result(b, d)
        left = max(1, min(SHARD_WALL[tier], deadline - time.time()))
        run([b.path, "run", prop, tier, replays, b.label, f"{i}/{n}"], left, on_line)

    nshards = 8 if tier == "thorough" else 4
    with cf.ThreadPoolExecutor(CORES) as pool:
        def build(b):
            if stop.is_set():
                return
            err = b.build(sources_hash)
            if err is not None and not stop.is_set():
                p = os.path.join(replays, f"{prop}_{b.label}_compile.log")
                with open(p, "w") as f:
                    f.write("# " + " ".join(b.cmd) + "\n" + err)
                first = next((l for l in err.splitlines() if "error" in l), err[:200])
                violation({"job": "compile", "binary": b.label, "kind": "violation", "msg": "a program that only uses the public interface does not compile: " + first[:300], "ops": "", "replay": p})
        builds = [(b, pool.submit(build, b)) for b in bins]
        runs = []
        for b, f in builds:
            f.result()
            if not stop.is_set() and os.path.exists(b.path):
                runs += [pool.submit(shard, b, i, nshards) for i in range(nshards)]
        while not stop.is_set() and not all(f.done() for f in runs):
            time.sleep(0.05)
        if stop.is_set():
            grace = time.time() + 3
            while time.time() < grace and not all(f.done() for f in runs):
                time.sleep(0.05)
            for f in runs:
                f.cancel()
            kill_all()
    complete = not stop.is_set() and time.time() < deadline

    # configurations must agree on what every job observed
    compared = 0
    if prop == "C15" and complete:
        by = defaultdict(dict)
        for (label, job), d in jobs.items():
            if d["kind"] == "ok":
                src, cfg, cont = label.split("-")
                by[(src, cont, job)][label] = d["obs"]
        for (src, cont, job), m in sorted(by.items()):
            compared += len(m) - 1
            if len(set(m.values())) > 1:
                common = Counter(m.values()).most_common(1)[0][0]
                good = next(l for l in m if m[l] == common)
                bad = next(l for l in m if m[l] != common)
                p = os.path.join(replays, f"{prop}_{bad}_{job.replace('/', '_')}.replay")
                with open(p, "w") as f:
                    f.write(f"property {prop}\ntier {tier}\nbinary {bad}\ncompare {good}\nexplore {job}\n")
                violation({"job": job, "binary": bad, "kind": "violation", "msg": f"observations of this build differ from those of {good}", "ops": "", "replay": p})

    total = Counter()
    groups = defaultdict(Counter)
    samples = []
    for (label, job), d in sorted(jobs.items()):
        for k in ("states", "transitions", "programs", "faults", "validated", "verified", "distinct", "capped"):
            total[k] += d[k]
        g = groups[re.split(r"[-/]", job)[0]]
        g["jobs"] += 1
        for k in ("states", "transitions", "programs", "faults", "capped"):
            g[k] += d[k]
        if len(samples) < 12 and d["samples"] and (not samples or samples[-1]["job"] != job):
            samples.append({"binary": label, "job": job, "sample": d["samples"][0][:600]})
    if len(samples) > 6:
        samples = samples[::max(1, len(samples) // 6)][:6]
    exhaustive_jobs = sum(1 for d in jobs.values() if d["kind"] == "ok" and not d["capped"])
    level = LEVEL[prop]
    cov = {
        "binaries": sorted(b.label for b in bins),
        "containers": {f"c{c:02d}": CONT_NAMES.get(c, "?") for c in sorted({b.cont for b in bins})},
        "jobs": len(jobs),
        "jobs_enumerated_completely": exhaustive_jobs,
        "jobs_stopped_at_their_state_bound": total["capped"],
        "families": {k: dict(v) for k, v in sorted(groups.items())},
        "largest_container": max([d["max_elems"] for d in jobs.values()] or [0]),
        "most_buckets": max([d["max_buckets"] for d in jobs.values()] or [0]),
        "exhaustive": bool(complete and not notes),
        "bounds": "every operation sequence of each job up to its depth or state bound, every program of each enumerated family; see DESIGN.md",
        "samples": samples,
    }
    if level == "fault_enumeration":
        cov["evaluations"] = total["faults"] + total["programs"] + total["transitions"]
        cov["distinct_nontrivial"] = total["faults"]
        cov["rule"] = ("for every operation of every explored state or program, one run per fallible step (allocation, element copy, hash, comparison) it performs, with an exception at exactly that step; "
                       "a case is non-trivial when the fault was really thrown (each counted case is a distinct combination of state, operation and step)")
        cov["faults_injected"] = total["faults"]
        cov["states"] = total["states"]
        cov["transitions"] = total["transitions"]
    else:
        cov["states"] = total["states"] + total["programs"]
        cov["transitions"] = total["transitions"]
        cov["traces_validated_against_impl"] = total["validated"] + total["programs"]
        cov["programs"] = total["programs"]
        cov["states_explored_by_search"] = total["states"]
        cov["state_checks_by_the_oracle"] = total["verified"]
        cov["exceptions_injected"] = total["faults"]
    if compared:
        cov["observation_comparisons_between_builds"] = compared
    if notes:
        cov["notes"] = notes[:20]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level, "coverage": cov,
        "assumptions": ["elements, hash and comparison functors, and allocators behave as their named requirements say; bounds are those of the jobs listed",
                        "the reference model in harness/uni*.hpp and multi.cpp states what the properties mean"],
        "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    tmp = os.path.join(EVIDENCE, f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))
    prune_cache()

    for w in sorted(known_hit):
        print(f"KNOWN-FINDING: property={prop} {w}")
    print(f"{prop} {tier}: {len(bins)} binaries, {len(jobs)} jobs, {total['states']} states, {total['transitions']} transitions, {total['programs']} programs, {total['faults']} faults, {time.time() - t0:.0f} s")
    for n in notes[:5]:
        print("NOTE " + n)
    if not complete and not violations:
        print("NOTE time ran out before everything was explored")
    if not jobs and not violations:
        # nothing ran at all: there is no answer to give
        print("ERROR nothing was explored")
        return 3
    for d in violations[:3]:
        print(f"  {d['binary']} {d['job']}: {d['msg'][:500]}")
        if d["ops"]:
            print(f"    after {d['ops'][-700:]}")
        print(f"VIOLATION property={prop} replay={d['replay']}")
    return 1 if violations else 0


def replay(path):
    head = {}
    with open(path) as f:
        for line in f:
            w = line.split()
            if w and w[0] in ("property", "tier", "binary", "job", "explore", "compare"):
                head[w[0]] = w[1]
    if "binary" not in head:
        print("a compile log: run its first line again")
        return 1
    h = tree_hash(os.path.join(REPO, "tpp"), HARNESS)
    obs = []
    for label in [head["binary"]] + ([head["compare"]] if "compare" in head else []):
        src, cfg, cont = label.split("-")
        b = Binary(src, cfg, int(cont[1:]))
        err = b.build(h)
        if err is not None:
            print(err)
            return 1
        if "explore" in head:
            with tempfile.TemporaryDirectory() as tmp:
                rc, out, _ = run([b.path, "run", head["property"], head["tier"], tmp, label, head["explore"]], 3600)
                for l in out:
                    d = json.loads(l)
                    obs.append(d["obs"])
                    print(label, d["kind"], d["msg"], "observations", d["obs"])
                    if d["kind"] != "ok":
                        return 1
        else:
            rc, out, err = run([b.path, "replay", path], 600)
            sys.stdout.write("".join(out) + err)
            return rc
    return 1 if len(set(obs)) > 1 else 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a[:1] == ["check"] and len(a) == 2:
        sys.exit(check(a[1], tier))
    if a[:1] == ["replay"] and len(a) == 2:
        sys.exit(replay(a[1]))
    if a[:1] == ["list"] and len(a) == 2:
        for src, cfg, conts in PLAN[a[1]][tier]:
            for c in conts:
                print(Binary(src, cfg, c).label)
        sys.exit(0)
    if a[:1] == ["setup"]:
        for t in ("g++", "clang++"):
            if not shutil.which(t):
                print(f"{t} is missing")
                sys.exit(1)
        os.makedirs(CACHE, exist_ok=True)
        os.makedirs(EVIDENCE, exist_ok=True)
        print("ready")
        sys.exit(0)
    print(__doc__)
    sys.exit(2)


if __name__ == "__main__":
    main()
