"""Driver: seeded search over scenarios, minimisation, replay files, evidence.

  run.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--wall S]
  run.py --replay FILE
  run.py --selftest [PROPERTY...]
Exit 0: held on everything explored; 1: VIOLATION; 2: the machinery itself failed.
"""
import argparse
import copy
import json
import multiprocessing as mp
import os
import queue
import random
import signal
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import core  # noqa
from core import Build, HarnessError, Slot, Zygotes, h64  # noqa
from ctx import Ctx  # noqa
import props  # noqa
import shrink  # noqa

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
KNOWN = os.path.join(VERIF, "known-findings.json")


def known_findings(pid):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)["known"] if k["property"] == pid]
    except FileNotFoundError:
        return []


def match_known(known, v):
    for k in known:
        if v["key"] == k["key"] and all(s in v["msg"] for s in k.get("contains", [])):
            return k
    return None


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)


class Engine:
    """What one worker needs to execute scenarios."""

    def __init__(self, build, zseed, slot=None):
        self.slot = Slot(slot)
        self.zy = Zygotes(build, zseed)
        self.build = build
        self.aux = {}

    def execute(self, prop, sc, stats=None):
        stats = {} if stats is None else stats
        ctx = Ctx(self.zy, self.slot.path, stats)
        ctx.aux = self.aux
        ctx.build = self.build
        prop.run(ctx, sc)
        dig = ctx.digest()
        return ctx, dig

    def close(self):
        self.zy.stop()
        self.slot.release()


def worker(pid, tier, vseed, widx, nworkers, nruns, deadline, build, outq, limit):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    eng = None
    stats = {}
    ids = set()
    samples = []
    done = 0
    try:
        prop = props.PROPS[pid]
        eng = Engine(build, vseed)
        i = widx
        known = known_findings(pid)
        while i < nruns and i < limit.value and time.time() < deadline:
            sseed = h64(pid, vseed, i)
            rng = random.Random(sseed)
            sc = prop.gen(rng, i, tier)
            sc["_i"] = i
            ctx, dig = eng.execute(prop, sc, stats)
            done += 1
            ctx.note("scenarios")
            if ctx.interesting:
                ctx.note("nontrivial")
                ids.update(ctx.ids)
            if len(samples) < 1 and ctx.interesting:
                samples.append(prop.describe(sc))
            bad = [v for v in ctx.viol if not match_known(known, v)]
            for v in ctx.viol:
                k = match_known(known, v)
                if k:
                    outq.put(("known", k["id"], v["msg"]))
            if bad:
                outq.put(("viol", i, sc, bad, dig, eng.slot.n))
                with limit.get_lock():
                    limit.value = min(limit.value, i)
            i += nworkers
        outq.put(("done", widx, stats, list(ids), samples, done, i < nruns and i < limit.value))
    except HarnessError as e:
        outq.put(("error", widx, f"{e}\n{traceback.format_exc()}"))
    except BaseException:
        outq.put(("error", widx, traceback.format_exc()))
    finally:
        if eng:
            eng.close()


def explore(pid, tier, vseed, nruns, wall, build):
    c = mp.get_context("fork")
    outq = c.Queue()
    limit = c.Value("q", 1 << 60)
    nw = max(1, min(WORKERS, nruns))
    deadline = time.time() + wall
    ps = [c.Process(target=worker, args=(pid, tier, vseed, i, nw, nruns, deadline, build, outq, limit)) for i in range(nw)]
    for p in ps:
        p.start()
    res = {"stats": {}, "ids": set(), "samples": [], "done": 0, "viol": [], "known": {}, "errors": [], "cut": False}
    left = nw
    last = time.time()
    while left:
        try:
            m = outq.get(timeout=5)
        except queue.Empty:
            if not any(p.is_alive() for p in ps) and outq.empty():
                res["errors"].append("a worker died")
                break
            if time.time() > deadline + 600:
                res["errors"].append("workers hang")
                break
            continue
        last = time.time()
        if m[0] == "done":
            left -= 1
            merge(res["stats"], m[2])
            res["ids"].update(m[3])
            res["samples"] += m[4]
            res["done"] += m[5]
            res["cut"] |= m[6]
        elif m[0] == "viol":
            res["viol"].append(m[1:])
        elif m[0] == "known":
            res["known"].setdefault(m[1], m[2])
        elif m[0] == "error":
            left -= 1
            res["errors"].append(m[2])
            with limit.get_lock():
                limit.value = -1
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    return res


def minimise(prop, eng, sc, key, budget):
    """Greedy delta debugging over the explicit scenario."""
    t_end = time.time() + budget
    tries = 0

    def bad(s):
        nonlocal tries
        tries += 1
        try:
            ctx, dig = eng.execute(prop, s)
        except HarnessError:
            return None
        for v in ctx.viol:
            if v["key"] == key:
                return v, dig
        return None
    cur = copy.deepcopy(sc)
    best = bad(cur)
    if best is None:
        return None
    progress = True
    while progress and time.time() < t_end:
        progress = False
        for cand in shrink.candidates(cur):
            if time.time() > t_end:
                break
            r = bad(cand)
            if r is not None:
                cur, best, progress = cand, r, True
                break
    # the scenario as executed may have been completed in place (resolved faults); run once more for the digest
    r = bad(cur)
    if r is not None:
        best = r
    return cur, best[0], best[1], tries


def check(pid, tier, vseed, nruns=None, wall=None, quiet=False):
    t0 = time.time()
    prop = props.PROPS[pid]
    build = Build()
    try:
        build.build()
        prop.prepare(build)
        n = nruns or prop.runs[tier]
        w = wall or {"quick": 240, "thorough": 3000}[tier]
        res = explore(pid, tier, vseed, n, w, build)
        if res["errors"]:
            print("HARNESS-ERROR " + res["errors"][0], file=sys.stderr)
            return 2
        code = 0
        known = known_findings(pid)
        # every listed finding is shown again by its own recorded scenario
        nknown = 0
        for k in known:
            if k["id"] in res["known"]:
                print(f"KNOWN-FINDING: property={pid} {k['what']}")
                nknown += 1
            elif k.get("scenario"):
                eng = Engine(build, vseed)
                try:
                    ctx, _ = eng.execute(prop, copy.deepcopy(k["scenario"]), res["stats"])
                finally:
                    eng.close()
                if any(match_known([k], v) for v in ctx.viol):
                    print(f"KNOWN-FINDING: property={pid} {k['what']}")
                    nknown += 1
                bad = [v for v in ctx.viol if not match_known(known, v)]
                if bad:
                    res["viol"].append((-1, k["scenario"], bad, "", None))
        if res["viol"]:
            i, sc, bad, dig, slot = min(res["viol"], key=lambda x: x[0])
            key = bad[0]["key"]
            rep = None
            eng = Engine(build, vseed, slot)
            try:
                for _ in range(3):
                    rep = minimise(prop, eng, sc, key, {"quick": 45, "thorough": 300}[tier])
                    if rep:
                        break
                slotn = eng.slot.n
            finally:
                eng.close()
            if rep is None:
                print(f"HARNESS-ERROR scenario {i} of {pid} (seed {vseed}) reported '{bad[0]['msg']}' once but not again", file=sys.stderr)
                return 2
            msc, v, mdig, tries = rep
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{pid}-{vseed}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": pid, "verif_seed": vseed, "index": i, "scenario_seed": h64(pid, vseed, i), "slot": slotn, "key": key, "digest": mdig,
                           "message": v["msg"], "detail": v["detail"], "minimise_tries": tries, "scenario": msc}, f, indent=1, ensure_ascii=True, default=str)
            rp = subprocess.run([sys.executable, os.path.abspath(__file__), "--replay", path], capture_output=True, text=True)
            exact = "REPLAY exact" in rp.stdout
            print(f"property {pid} violated (seed {vseed}, scenario {i}, kind {key}): {v['msg']}")
            print(f"minimised scenario ({tries} tries): {json.dumps(prop.describe(msc), default=str)[:1500]}")
            print(f"replay in a fresh process: {'exact' if exact else 'violation again, other digest' if rp.returncode == 1 else 'NOT reproduced'}")
            print(f"VIOLATION property={pid} replay={path}")
            code = 1
        wall_s = time.time() - t0
        st = res["stats"]
        notes = st.get("notes", {})
        ev = {
            "property": pid, "tier": tier, "seed": vseed, "level": prop.level, "wall_s": round(wall_s, 2), "violations": len(res["viol"]),
            "assumptions": prop.assumptions,
            "coverage": {
                "evaluations": res["done"], "distinct_nontrivial": len(res["ids"]), "rule": prop.rule, "samples": res["samples"][:3],
                "simulated_processes": st.get("procs", 0), "seam_operations": st.get("ops", 0), "input_edits_during_runs": st.get("edits", 0),
                "simulated_seconds": round(st.get("sim_ns", 0) / 1e9, 3),
                "seeds_per_hour": round(res["done"] / wall_s * 3600), "simulated_runs_per_hour": round(st.get("procs", 0) / wall_s * 3600),
                "faults_injected": dict(sorted(st.get("faults", {}).items())), "counters": dict(sorted(notes.items())),
                "distinct_measure": "hash of the global sequence (process, operation, path, action) of a simulated world",
                "stopped_by_wall_limit": res["cut"], "known_findings_seen": nknown,
                "real_components": prop.real, "stub_components": prop.stub,
            },
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if not quiet:
            print(f"{pid} {tier}: {res['done']} scenarios, {st.get('procs', 0)} simulated processes, {len(res['ids'])} distinct non-trivial executions, "
                  f"{sum(st.get('faults', {}).values())} faults, {wall_s:.1f} s, {'VIOLATED' if code else 'held'}")
        return code
    finally:
        build.clean()


def survey(pid, vseed, n, tier="quick"):
    """Development aid: all kinds of violations with counts and one example each."""
    build = Build()
    build.build()
    props.PROPS[pid].prepare(build)
    c = mp.get_context("fork")
    q = c.Queue()

    def go(k):
        eng = Engine(build, vseed)
        r = {}
        st = {}
        try:
            for i in range(k, n, WORKERS):
                sc = props.PROPS[pid].gen(random.Random(h64(pid, vseed, i)), i, tier)
                ctx, _ = eng.execute(props.PROPS[pid], sc, st)
                for v in ctx.viol:
                    x = r.setdefault(v["key"], [0, i, v["msg"], v["detail"]])
                    x[0] += 1
        except BaseException:
            r["CRASH"] = [1, i, traceback.format_exc(), {}]
        finally:
            eng.close()
            q.put((r, st))
    ps = [c.Process(target=go, args=(k,)) for k in range(WORKERS)]
    for p in ps:
        p.start()
    tot, st = {}, {}
    for p in ps:
        r, s1 = q.get()
        merge(st, s1)
        for k, v in r.items():
            if k in tot:
                tot[k][0] += v[0]
            else:
                tot[k] = v
    for p in ps:
        p.join()
    build.clean()
    for k, v in sorted(tot.items(), key=lambda x: -x[1][0]):
        print(f"{v[0]:5d} {k}  (scenario {v[1]}) {v[2][:600]}")
        if os.environ.get("DETAIL"):
            print("      ", json.dumps(v[3])[-1500:])
    print(json.dumps(st.get("notes", {}), sort_keys=True)[:1500], st.get("procs"), "procs")


def replay(path):
    with open(path) as f:
        r = json.load(f)
    prop = props.PROPS[r["property"]]
    build = Build()
    try:
        build.build()
        prop.prepare(build)
        eng = Engine(build, r["verif_seed"], r.get("slot"))
        try:
            ctx, dig = eng.execute(prop, r["scenario"])
        finally:
            eng.close()
    finally:
        build.clean()
    hit = [v for v in ctx.viol if v["key"] == r["key"]]
    print(f"REPLAY {'exact' if dig == r['digest'] and hit else 'differs'} digest={dig} recorded={r['digest']}")
    if hit:
        print(hit[0]["msg"])
        print(f"VIOLATION property={r['property']} replay={path}")
        return 1
    print("not reproduced: the property held in this execution")
    return 0


def selftest(pids, vseed):
    """Same seeds, two fresh engines: every execution must be identical."""
    bad = 0
    n = 0
    for pid in pids or sorted(props.PROPS):
        prop = props.PROPS[pid]
        if not prop.uses_sim:
            continue
        digs = []
        for rep in range(2):
            build = Build()
            build.build()
            prop.prepare(build)
            eng = Engine(build, vseed, 40 + rep * 0)
            try:
                d = []
                order = range(12) if rep == 0 else reversed(range(12))
                for i in order:
                    rng = random.Random(h64(pid, vseed, i))
                    sc = prop.gen(rng, i, "quick")
                    ctx, dig = eng.execute(prop, sc)
                    d.append((i, dig, [v["key"] for v in ctx.viol]))
                digs.append(sorted(d))
            finally:
                eng.close()
                build.clean()
        for a, b in zip(*digs):
            n += 1
            if a != b:
                bad += 1
                print(f"{pid}: scenario {a[0]} not repeatable: {a} {b}")
    print(f"selftest: {n} scenarios executed twice in fresh engines, {bad} differences")
    return 2 if bad else 0


def setup():
    """Nothing is kept between runs; this only shows that the seam builds and a simulated export works."""
    build = Build()
    try:
        build.build()
        eng = Engine(build, 1)
        try:
            prop = props.PROPS["C01"]
            eng.execute(prop, prop.gen(random.Random(1), 0, "quick"))
        finally:
            eng.close()
    finally:
        build.clean()
    print("setup: seam built, simulated export ran")
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--wall", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--survey", type=int)
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    try:
        if a.setup:
            return setup()
        if a.replay:
            return replay(a.replay)
        if a.survey:
            return survey(a.prop[0], a.seed, a.survey)
        if a.selftest:
            return selftest(a.prop, a.seed)
        return check(a.prop[0], a.tier if a.tier in ("quick", "thorough") else "quick", a.seed, a.runs, a.wall)
    except HarnessError as e:
        print(f"HARNESS-ERROR {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
