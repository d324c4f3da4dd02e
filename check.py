#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Checks a property: explores the specification with TLC, runs behaviours generated from it and
at random on the code in /repo, and has TLC check what was recorded against the specification.
"""
import argparse
import collections
import hashlib
import json
import os
import random
import re
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True

import corrupt  # noqa: E402
import props  # noqa: E402
import tlc  # noqa: E402
import walks  # noqa: E402
from tlc import MachineryError  # noqa: E402

EVIDENCE = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "known-findings.txt")


# -- recording ---------------------------------------------------------------
def _work(job):
    i, job, prop, limit = job
    sys.stdout.flush()
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 1)
    os.dup2(null, 2)
    if prop == "C20":
        import vcs
        return i, vcs.record(job)
    import recorder
    return i, recorder.record(job, limit)


def record_all(prop, jobs, limit, deadline):
    """Events of each job; a job that hangs or kills its process is a crash"""
    import multiprocessing as mp

    if prop != "C20":
        import recorder
        try:
            recorder.load()
        except Exception as exc:  # the package cannot even be imported: no property holds
            return [[{"op": "import", "crash": "import: %s: %s" % (type(exc).__name__, exc)}]], 1
    out = [None] * len(jobs)
    hung = 0
    with mp.get_context("fork").Pool(8, maxtasksperchild=1 if prop != "C20" else 4) as pool:
        it = pool.imap_unordered(_work, [(i, j, prop, limit) for i, j in enumerate(jobs)], chunksize=1)
        n = 0
        while n < len(jobs):
            try:
                i, ev = it.next(timeout=max(1.0, deadline - time.time()))
            except mp.TimeoutError:
                break  # the rest is left out
            out[i] = ev
            n += 1
            if ev and ev[-1].get("crash") == "timeout":
                hung += 1
                if hung >= 3:
                    break
        pool.terminate()
    return out, n


# -- jobs --------------------------------------------------------------------
def random_jobs(prop, seed, count):
    if prop == "C20":
        import vcs
        return [vcs.generate(seed, i) for i in range(count)]
    import gen
    return gen.traces(prop, seed, count)


def walk_jobs(prop, cfg, edges, limit, seed):
    rng = random.Random("walk/%s/%s" % (seed, cfg))
    start, adj, _ = walks.graph(edges)
    ws, done, total = walks.cover(start, adj, rng, maxlen=25 if prop == "C20" or cfg.startswith("MC_System") else 60, limit=limit)
    if prop == "C20":
        import vcs
        jobs = [vcs.from_walk(w, seed, i) for i, w in enumerate(ws)]
    else:
        import gen
        make = gen.from_system if cfg.startswith("MC_System") else gen.from_life
        jobs = [make(w, props.OBJS[cfg], random.Random("%s/%s/%d" % (seed, cfg, i))) for i, w in enumerate(ws)]
    return jobs, done, total


def call_jobs(prop, cfg, calls, limit, seed):
    import gen

    rng = random.Random("calls/%s/%s/%s" % (prop, seed, cfg))
    groups = collections.defaultdict(list)
    for c in calls:
        groups[(c["kind"], json.dumps(c["prior"]))].append(c)
    total, jobs, done = len(calls), [], 0
    share = 1.0 if limit is None else min(1.0, limit / max(1, total))
    for k in sorted(groups):
        g = sorted(groups[k], key=lambda c: json.dumps(c, sort_keys=True))
        rng.shuffle(g)
        g = g[:int(round(len(g) * share))]
        for i in range(0, len(g), 6):
            jobs.append(gen.from_scenarios(g[i:i + 6], random.Random("%s/%s/%s/%d" % (seed, cfg, k, i))))
            done += len(g[i:i + 6])
    return jobs, done, total


# -- judging -----------------------------------------------------------------
def judge(prop, recordings, workers=8, timeout=700):
    """What TLC says about recordings: (result, [(index, line, op, clauses)])"""
    d = tempfile.mkdtemp(prefix="traces-")
    path = os.path.join(d, "t.ndjson")
    try:
        with open(path, "w", encoding="utf-8") as fh:
            for ev in recordings:
                fh.write(json.dumps(ev) + "\n")
        mod = "VersionTrace" if prop == "C20" else "Trace"
        r = tlc.run(mod, mod + ".cfg", env={"TRACES": path}, workers=workers, heap="10g", timeout=timeout)
    finally:
        if os.path.exists(path):
            os.remove(path)
        os.rmdir(d)
    if not r.ok:
        raise MachineryError("trace checking failed:\n" + r.error())
    return r, [(p["trace"] - 1, p["line"], p["op"], sorted(p["fail"])) for p in r.printed()]


def distinct(jobs):
    return len({hashlib.sha1(json.dumps(j, sort_keys=True, default=str).encode()).hexdigest() for j in jobs})


def nontrivial(prop, ev):
    if prop == "C20":
        return any(e.get("obs") for e in ev)
    for e in ev:
        if not e.get("ok", True) or e["op"] in ("conv", "ecs"):
            return True
        if e["op"] == "scen" and e["out"]["rows"]:
            return True
        if e["op"] in ("step", "run") and any(v for v in e["obs"][e["o"]]["A"]):
            return True
    return False


def findings():
    """Listed findings: (property, identification, text)"""
    out = []
    if os.path.exists(FINDINGS):
        with open(FINDINGS, encoding="utf-8") as fh:
            for line in fh:
                m = re.match(r"^finding: property=(\S+) id=(\S+) (.*)$", line)
                if m:
                    out.append(m.groups())
    return out


def identify(prop, job, line, clauses):
    """Identification of a failure: the clauses and the input that fails"""
    h = hashlib.sha1(json.dumps([prop, job, line], sort_keys=True, default=str).encode()).hexdigest()[:12]
    return "%s:%s" % ("+".join(clauses), h)


def brief(v, depth=0):
    if isinstance(v, list):
        if len(v) > 6:
            return [brief(x, depth + 1) for x in v[:6]] + ["... %d in all" % len(v)]
        return [brief(x, depth + 1) for x in v]
    if isinstance(v, dict):
        return {k: brief(x, depth + 1) for k, x in v.items()}
    return v


# -- the check ---------------------------------------------------------------
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.budget = 600 if self.quick else 3300
        self.seen = []       # violations: (job, line, op, clauses, event)
        self.other = collections.Counter()
        self.ops = collections.Counter()
        self.stats = collections.Counter()
        self.mc = []
        self.cover = {}
        self.samples = []
        self.selftest = {}
        self.nontrivial = 0
        self.alljobs = []

    def batch(self, jobs, selftest=False):
        limit = 60 if self.quick else 180
        recs, _ = record_all(self.prop, jobs, limit, self.t0 + self.budget * 0.5)
        if recs and len(recs) != len(jobs):
            jobs = jobs[:len(recs)] or [[]]
        keep = [i for i, r in enumerate(recs) if r]
        self.stats["left_out"] += len(recs) - len(keep)
        if not keep:
            raise MachineryError("nothing could be recorded")
        jobs, recs = [jobs[i] for i in keep], [recs[i] for i in keep]
        bad = []
        if selftest:
            bad = corrupt.corrupted(self.prop, recs, random.Random(self.seed))
        r, fails = judge(self.prop, recs + [b for _, b in bad])
        self.stats["trace_states"] += r.distinct
        self.stats["trace_wall"] += int(r.wall * 10)
        n = len(recs)
        for i, line, op, cl in fails:
            if i >= n:
                continue
            mine = [c for c in cl if props.relevant(self.prop, c)]
            for c in cl:
                if c not in mine:
                    self.other[c] += 1
            if mine:
                self.seen.append((jobs[i], line, op, mine, recs[i][line - 1]))
        self.stats["traces"] += n
        self.stats["events"] += sum(map(len, recs))
        for ev in recs:
            for e in ev:
                self.ops["%s%s" % (e["op"], "" if e.get("ok", True) else " refused")] += 1
            if nontrivial(self.prop, ev):
                self.nontrivial += 1
        self.alljobs += jobs
        if len(self.samples) < 3:
            self.samples.append(brief(jobs[0]))
        if selftest:
            kinds = range(len(corrupt.KINDS[self.prop]))
            caught = collections.Counter()
            made = collections.Counter(k for k, _ in bad)
            hit = {i - n for i, line, op, cl in fails if i >= n and any(props.relevant(self.prop, c) for c in cl)}
            for j, (k, _) in enumerate(bad):
                caught[k] += j in hit
            self.selftest = {"corrupted": sum(made.values()), "rejected": sum(caught.values())}
            if not self.seen and not self.other:
                for k in kinds:
                    if not made[k]:
                        raise MachineryError("self-test: corruption %d could not be made" % k)
                    if not caught[k]:  # some may have nothing to compare with
                        raise MachineryError("self-test: corruption %d rejected in %d of %d traces" % (k, caught[k], made[k]))

    def run(self):
        plan = props.PLAN[self.prop]
        ti = 0 if self.quick else 1
        cfgs = plan["mc"][ti]
        # the specification in the background, four at a time
        waiting, running, done = list(cfgs), [], {}

        def pump(block=False):
            while waiting and len(running) < 3:
                m, c = waiting.pop(0)
                running.append((c, tlc.Job(m, c, workers=3 if self.quick else 4)))
            for c, j in list(running):
                if block or j.p.poll() is not None:
                    done[c] = j.result(1500)
                    running.remove((c, j))

        try:
            pump()
            count = props.COUNT[self.prop][ti]
            jobs = random_jobs(self.prop, self.seed, count)
            size = 300 if self.prop != "C20" else 100
            for a in range(0, len(jobs), size):
                self.batch(jobs[a:a + size], selftest=a == 0)
                pump()
                if self.enough():
                    break
            while waiting or running:
                pump(block=True)
        finally:
            for _, j in running:
                j.kill()
        for m, c in cfgs:
            r = done[c]
            if not r.ok:
                raise MachineryError("%s %s: the specification breaks its own properties\n%s" % (m, c, r.error()))
            self.mc.append({"module": m, "config": c, "states": r.distinct, "transitions": r.generated, "depth": r.depth,
                            "wall_s": round(r.wall, 1), "cmd": r.cmd})
        for kind, make in (("walks", walk_jobs), ("calls", call_jobs)):
            for cfg, limits in plan.get(kind, {}).items():
                if limits[ti] == 0 or self.enough():
                    continue
                if cfg not in done:
                    raise MachineryError("no states of " + cfg)
                jobs, got, total = make(self.prop, cfg, done[cfg].printed(), limits[ti], self.seed)
                self.cover[cfg] = {"replayed": got, "of": total, "traces": len(jobs), "unit": "transitions" if kind == "walks" else "calls"}
                for a in range(0, len(jobs), 1500):
                    self.batch(jobs[a:a + 1500])

    def enough(self):
        return len(self.seen) >= 20 or time.time() - self.t0 > self.budget * 0.7

    def evidence(self, violations):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {
            "states": sum(m["states"] for m in self.mc),
            "transitions": sum(m["transitions"] for m in self.mc),
            "traces_validated_against_impl": self.stats["traces"],
            "distinct_traces": distinct(self.alljobs),
            "nontrivial_traces": self.nontrivial,
            "rule": props.RULE,
            "events_validated": self.stats["events"],
            "trace_states": self.stats["trace_states"],
            "operations": dict(self.ops),
            "specification_runs": self.mc,
            "replayed_from_specification": self.cover,
            "selftest": self.selftest,
            "clauses": sorted(props.CLAUSES[self.prop]),
            "clauses_of_other_properties_broken": dict(self.other),
            "left_out": self.stats["left_out"],
            "samples": self.samples,
            "exhaustive": False,
        }
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
            "assumptions": [
                "specification configurations are finite: few objects, drivers, parameter values and rows (see the .cfg files)",
                "real runs are those generated: floating-point results are compared within the tolerances stated in spec/Physics.tla",
                "TLC, its Java overrides of spec/Big.tla (checked against the pure definitions by MC_Arith), CPython and numpy are trusted",
            ],
            "wall_s": round(time.time() - self.t0, 2), "violations": violations,
        }
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1)


def save_replay(prop, job, line, op, clauses, event):
    d = os.path.join(EVIDENCE, "replay")
    os.makedirs(d, exist_ok=True)
    text = json.dumps({"property": prop, "clauses": clauses, "at": line, "op": op, "job": job,
                       "outcome": {k: event.get(k) for k in ("ok", "err", "msg", "crash") if k in event}}, indent=1)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
    with open(path, "w", encoding="utf-8") as fh:
        fh.write(text)
    return path


def replay(prop, path):
    with open(path, encoding="utf-8") as fh:
        rep = json.load(fh)
    recs, _ = record_all(prop, [rep["job"]], 180, time.time() + 200)
    _, fails = judge(prop, [r for r in recs if r])
    bad = 0
    for _, line, op, cl in fails:
        mine = [c for c in cl if props.relevant(prop, c)]
        print("event %d (%s): %s%s" % (line, op, " ".join(cl), "" if mine else " (not of this property)"))
        e = recs[0][line - 1]
        print("   ", {k: e.get(k) for k in ("ok", "err", "msg", "crash") if k in e})
        bad += bool(mine)
    if bad:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("the recorded behaviour is allowed")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", choices=sorted(props.PLAN))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.property, a.replay)
    c = Check(a.property, a.tier, a.seed)
    c.run()
    known = {(p, i): t for p, i, t in findings()}
    fresh, listed = [], set()
    for v in c.seen:
        key = (a.property, identify(a.property, v[0], v[1], v[3]))
        if key in known:
            listed.add(key)
        else:
            fresh.append(v)
    c.evidence(len(fresh))
    for p, i, t in findings():
        if p == a.property:
            print("KNOWN-FINDING: property=%s %s" % (p, t))
    print("%s %s: %d specification states, %d traces (%d events), %s, %.0f s" % (
        a.property, a.tier, sum(m["states"] for m in c.mc), c.stats["traces"], c.stats["events"],
        ", ".join("%s %d/%d" % (k, v["replayed"], v["of"]) for k, v in c.cover.items()) or "no replay", time.time() - c.t0))
    if fresh:
        groups = {}
        for v in fresh:
            groups.setdefault(tuple(v[3]), v)
        for cl, v in sorted(groups.items())[:8]:
            path = save_replay(a.property, *v)
            print("broken: %s at event %d (%s) %s" % (" ".join(cl), v[1], v[2], {k: v[4].get(k) for k in ("ok", "err", "msg", "crash") if v[4].get(k)}))
            print("VIOLATION property=%s replay=%s" % (a.property, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except MachineryError as exc:
        print("ERROR " + str(exc))
        code = 2
    except Exception:  # pylint: disable=broad-except
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
