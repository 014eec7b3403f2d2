#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE] -- decide one property on /repo's current tree."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import build as builder  # noqa: E402
import graph  # noqa: E402
import models  # noqa: E402
import tlc  # noqa: E402
from props import PROPS  # noqa: E402

VERIF = builder.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CHUNKS = 8
REPLAY_CALLS = 30000      # per model, quick tier
COMP_RUNS = {"util": 10, "log": 80, "store": 120, "restore": 40, "ccconv": 30, "reads": 40}


def sh(cmd, timeout):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


class Job:
    """One piece of exploration: the driver writes a trace, TLC validates it."""

    def __init__(self, kind, args, module="Trace", san=False):
        self.kind, self.args, self.module, self.san = kind, args, module, san
        self.lines = self.runs = 0
        self.tags = []
        self.error = ""
        self.calls = {}
        self.sample = None
        self.missed = 0


def stats(job, path):
    call = re.compile(rb'^\{"e":"(?:comp","n":\d+,"op":")?([\w.]+)"')
    with open(path, "rb") as f:
        for i, line in enumerate(f):
            m = call.match(line)
            k = m.group(1).decode() if m else "?"
            job.calls[k] = job.calls.get(k, 0) + 1
            job.lines += 1
            if k == "info":
                job.missed += int(re.search(rb'"missed":(\d+)', line).group(1))
            if (k == "step" or job.kind == "comp" and job.lines < 9) and (job.sample is None or i < 400):
                job.sample = line.decode(errors="replace").strip()[:900]
    job.runs = job.calls.get("hdr", 0)


def run_lines(path, first, last):
    r = []
    with open(path, errors="replace") as f:
        for i, line in enumerate(f, 1):
            if i < first:
                continue
            if i > last:
                break
            r.append(line.rstrip("\n"))
    return r


def split(path, out):
    """The runs of a trace in files of their own."""
    res, cur = [], None
    with open(path, errors="replace") as f:
        for line in f:
            if line.startswith('{"e":"hdr"'):
                if cur:
                    cur.close()
                p = "%s/part%d.ndjson" % (out, len(res))
                res.append(p)
                cur = open(p, "w")
            if cur:
                cur.write(line)
    if cur:
        cur.close()
    return res


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.p = PROPS[prop]
        self.focus = [re.compile(x + "$") for x in self.p["focus"]]
        self.start = time.time()
        self.work = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self.violations = []      # (job, line, first, label, tags)
        self.other = {}
        self.mc = {}
        self.missed = 0      # steps of a model that could not be carried out in the real code
        self.lock = threading.Lock()
        self.san, self.san_lock = {}, threading.Lock()
        self.cores = threading.Semaphore(CHUNKS)

    def relevant(self, label, tags):
        return [t for t in tags if any(f.match(label + "|" + t) for f in self.focus)]

    # ---------------------------------------------------------------- traces
    def explore(self, job, n):
        """Generate and validate one trace."""
        path = "%s/%s%d.ndjson" % (self.work, job.kind, n)
        job.path = path
        if self.violations and not THOROUGH:
            return      # decided
        driver = self.sanitized(job.san) if job.san else self.driver
        with self.cores:
            try:
                p = sh([driver, "out=" + path] + job.args, 900)
            except subprocess.TimeoutExpired:
                raise RuntimeError("driver did not finish: " + " ".join(job.args))
            if p.returncode and job.san:
                # the sanitizer itself could not start; what the code does shows in the exit of a run
                print("note: the sanitized driver did not run: %s" % p.stdout[-200:])
                return
            if p.returncode:
                raise RuntimeError("driver failed (%d): %s %s" % (p.returncode, " ".join(job.args), p.stdout[-500:]))
            stats(job, path)
            if job.kind.startswith("replay"):
                self.missed += job.missed
            r = tlc.validate(self.work, job.module, path)
            job.tags = r.tags
            if not r.ok:
                self.rejected(job, r.error or "no answer from TLC")
        with self.lock:
            for line, first, label, tg in job.tags:
                rel = self.relevant(label, tg)
                if rel:
                    self.violations.append((job, line, first, label, rel))
                else:
                    for t in tg:
                        k = label + "|" + t
                        self.other[k] = self.other.get(k, 0) + 1
        if not any(v[0] is job for v in self.violations):
            os.unlink(path)

    def rejected(self, job, err):
        """TLC could not evaluate the specification on what the code did: find the run."""
        d = tempfile.mkdtemp(dir=self.work)
        base = 1
        found = False
        for part in split(job.path, d):
            n = sum(1 for _ in open(part, errors="replace"))
            r = tlc.validate(self.work, job.module, part, timeout=120)
            if not r.ok:
                r = tlc.validate(self.work, job.module, part, timeout=240)
            if not r.ok:
                if "OutOfMemory" in r.error or not r.error:
                    raise RuntimeError("TLC failed: " + (r.error or err))
                job.tags.append((base + n - 1, base, "eval", ["spec.reject"]))
                job.error = r.error[:600]
                found = True
                break
            base += n
        shutil.rmtree(d, ignore_errors=True)
        if not found:
            raise RuntimeError("TLC failed on a trace but on none of its runs: " + err[:600])

    def sanitized(self, kind):
        """The driver compiled under the address and undefined behaviour sanitizers, or the one for threads."""
        with self.san_lock:
            if kind not in self.san:
                flags = {"memory": ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], "threads": ["-fsanitize=thread"]}
                try:
                    self.san[kind] = builder.build(self.work + "/san_" + kind, flags=["-O1", "-g1"] + flags[kind])
                except RuntimeError as e:
                    print("note: cannot build with sanitizers: %s" % str(e)[:300])
                    self.san[kind] = self.driver
            return self.san[kind]

    # ---------------------------------------------------------------- models
    def model(self, name):
        d = "%s/mc_%s" % (self.work, name)
        os.makedirs(d)
        for f in glob.glob(VERIF + "/spec/*.tla"):
            shutil.copy(f, d)
        models.write(d, name, TIER, base="Graph", spec="GSpec", extra=["ACTION_CONSTRAINT Edge"])
        g = graph.Graph()
        r = tlc.model_check(d, workers=8 if THOROUGH else 4, timeout=5400 if THOROUGH else 600, mem="12g" if THOROUGH else "4g", dump=g.add)
        shutil.rmtree(d, ignore_errors=True)
        self.mc[name] = r
        if r["error"]:
            raise RuntimeError("the specification itself violates the property in model %s: %s" % (name, r["error"]))
        if not r["complete"] and not THOROUGH:
            raise RuntimeError("model %s was not explored completely" % name)
        # carry the behaviours of the model out in the real code
        walks, covered = g.walks(None if THOROUGH else REPLAY_CALLS)
        r["local_steps"], r["replayed"], r["behaviours"] = len(g.locals), covered, len(walks)
        parts = [[]]
        for w in walks:
            parts[-1].append(w)
            if sum(map(len, parts[-1])) > 2500:
                parts.append([])
        res = []
        for k, ws in enumerate(parts):
            if not ws:
                continue
            f = "%s/walks_%s%d" % (self.work, name, k)
            with open(f, "w") as o:
                o.write("\n".join("\t".join(w) for w in ws) + "\n")
            res.append(Job("replay_%s_" % name, ["mode=replay", "in=" + f, "seed=%d" % SEED] + graph.scene(models.MODELS[name][TIER])))
        return res

    # ------------------------------------------------------------------ jobs
    def jobs(self):
        r = []
        scale = 12 if THOROUGH else 1
        profiles = ["", "final:0.2"] + [p for p in self.p["profiles"] for _ in (0, 1)]
        while len(profiles) < CHUNKS:
            profiles += self.p["profiles"]
        runs = self.p.get("runs", 24)
        for s in range(scale):
            base = SEED * 1000 + s * 20
            for k, pf in enumerate(profiles[:CHUNKS]):
                r.append(Job("cluster", ["mode=cluster", "seed=%d" % (base + k), "runs=%d" % runs, "profile=" + pf]))
            for k, pf in enumerate(["", "small:0.2", self.p["solo"], self.p["solo"], self.p["solo"] + ",steps:400"]):
                r.append(Job("solo", ["mode=solo", "seed=%d" % (base + k), "runs=%d" % (120 if "steps" not in pf else 50), "profile=" + pf]))
            for kind in self.p.get("comp", "").split():
                if not self.components:
                    continue
                if kind == "quorumall" and s > 0:
                    continue
                if kind == "quorumall":
                    r.append(Job("comp", ["mode=comp", "kind=quorumall", "seed=1", "runs=1"]))
                    continue
                for k in range(2 if kind == "log" else 1):
                    r.append(Job("comp", ["mode=comp", "kind=" + kind, "seed=%d" % (base + k), "runs=%d" % COMP_RUNS.get(kind, 60),
                                          "profile=steps:%d" % (120 if kind == "log" else 160)]))
        if self.p.get("san"):
            # the same under sanitizers, with other seeds; last, so that the build does not hold up the rest
            for k, pf in enumerate(["prop:10,snap:5,compact:5,propcc:4,read:4,xfer:2"] + self.p["profiles"][:2]):
                r.append(Job("cluster", ["mode=cluster", "seed=%d" % (base + 500 + k), "runs=%d" % (runs * 2 // 3), "profile=" + pf], san="memory"))
            r.append(Job("solo", ["mode=solo", "seed=%d" % (base + 500), "runs=80", "profile=" + self.p["solo"]], san="memory"))
            for kind in self.p["san"].split() if self.components else ():
                r.append(Job("comp", ["mode=comp", "kind=" + kind, "seed=%d" % (base + 500), "runs=30", "profile=steps:120"], san="memory"))
        if self.p.get("threads"):
            # several threads: on one storage, and on nodes that have nothing to do with each other
            for k in range(3 * scale):
                if self.components:
                    r.append(Job("comp", ["mode=comp", "kind=shared", "seed=%d" % (SEED * 1000 + 700 + k), "runs=16", "profile=steps:80"]))
                r.append(Job("apart", ["mode=apart", "seed=%d" % (SEED * 1000 + 700 + k), "runs=8", "profile=steps:100"]))
            for k in range(scale):
                if self.components:
                    r.append(Job("comp", ["mode=comp", "kind=shared", "seed=%d" % (SEED * 1000 + 800 + k), "runs=16", "profile=steps:80"], san="threads"))
                r.append(Job("apart", ["mode=apart", "seed=%d" % (SEED * 1000 + 800 + k), "runs=10", "profile=steps:60"], san="threads"))
        return r

    # ------------------------------------------------------------------- run
    def run(self):
        errors = []
        try:
            self.driver = builder.build(self.work + "/b")
        except RuntimeError as e:
            print("cannot build the code under test: %s" % e)
            return 2
        self.components = builder.has_components(self.driver)
        if not self.components:
            print("note: the component part does not compile against this tree; the components are exercised through nodes only")
        jobs = self.jobs()
        with cf.ThreadPoolExecutor(CHUNKS + 2) as ex:
            fs = [ex.submit(self.model, m) for m in self.p["models"]]
            fs += [ex.submit(self.explore, j, n) for n, j in enumerate(jobs)]
            k = 0
            while k < len(fs):
                try:
                    more = fs[k].result()
                    for j in more or ():
                        fs.append(ex.submit(self.explore, j, len(jobs)))
                        jobs.append(j)
                except Exception as e:      # noqa: BLE001
                    errors.append("%s: %s" % (type(e).__name__, e))
                k += 1
        self.evidence(jobs)
        if self.violations:
            self.report()
            return 1
        if errors:
            print("ERROR " + "\nERROR ".join(errors))
            return 2
        print("property %s held: %d model states, %d calls of the real code validated in %d runs, %.0f s" % (
            self.prop, sum(m["distinct"] for m in self.mc.values()), sum(j.lines for j in jobs),
            sum(j.runs for j in jobs), time.time() - self.start))
        return 0

    def report(self):
        d = "%s/replays/%s" % (VERIF, self.prop)
        os.makedirs(d, exist_ok=True)
        self.violations.sort(key=lambda v: (v[1] - v[2], v[1]))
        job, line, first, label, tg = self.violations[0]
        path = d + "/seed%d_%s.ndjson" % (SEED, TIER)
        lines = run_lines(job.path, first, line)
        with open(path, "w") as f:
            f.write(json.dumps({"e": "info", "property": self.prop, "label": label, "tags": tg, "driver": job.args,
                                "module": job.module, "violations": len(self.violations), "error": job.error}) + "\n")
            f.write("\n".join(lines) + "\n")
        seen = {}
        for _, _, _, lb, ts in self.violations:
            for t in ts:
                seen[lb + "|" + t] = seen.get(lb + "|" + t, 0) + 1
        for k, v in sorted(seen.items(), key=lambda x: -x[1])[:12]:
            print("  differs: %s (%d)" % (k, v))
        print("  last call: %s" % (lines[-1][:700] if lines else "?"))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))

    def evidence(self, jobs):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        calls = {}
        for j in jobs:
            for k, v in j.calls.items():
                calls[k] = calls.get(k, 0) + v
        ev = {
            "property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": "model_checking",
            "coverage": {
                "states": sum(m["distinct"] for m in self.mc.values()),
                "transitions": sum(m["generated"] for m in self.mc.values()),
                "traces_validated_against_impl": sum(j.runs for j in jobs),
                "calls_validated": sum(j.lines for j in jobs),
                "calls_by_kind": calls,
                "models": {k: {"distinct": m["distinct"], "generated": m["generated"], "complete": m["complete"],
                               "local_steps": m.get("local_steps", 0), "local_steps_replayed_in_code": m.get("replayed", 0),
                               "behaviours_replayed": m.get("behaviours", 0)}
                           for k, m in self.mc.items()},
                "replay_steps_not_possible": self.missed,
                "component_part": self.components,
                "unrelated_differences": self.other,
                "samples": [j.sample for j in jobs if j.sample][:3],
            },
            "assumptions": ["the application follows the usage contract (DESIGN.md, environment)",
                            "single-threaded use of a node", "bounds of the models and executions as listed"],
            "wall_s": round(time.time() - self.start, 2),
            "violations": len(self.violations),
        }
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, self.prop), "w"), indent=1)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


def main():
    c = Check(sys.argv[1])
    try:
        rc = c.run()
    finally:
        c.close()
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
