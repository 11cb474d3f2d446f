"""C16, C17: recovery once faults stop, and processes that an export leaves as it found them."""
import copy
import errno
import json
import os
import random
import re
import shutil

import core
import faults as fl
import gen
from ctx import diff, env, lay, outputs, spec_of, tail
from props import C03, Prop, fired, some_model, suit


def put_version(w, base, m):
    """The files of one version of a model in place of another version's."""
    files = gen.render(m)
    for f in gen.render(base):
        if f not in files:
            try:
                os.unlink(w.p(f))
            except OSError:
                pass
    for f, t in files.items():
        link = isinstance(t, str) and t.startswith(core.LINK)
        f0 = w.p(f)
        if not link and not os.path.islink(f0) and os.path.isfile(f0) and w.read(f) == (t if isinstance(t, bytes) else t.encode("utf-8", "surrogateescape")):
            continue
        if os.path.isdir(f0) and not os.path.islink(f0):
            shutil.rmtree(f0)
        elif os.path.lexists(f0):
            os.unlink(f0)
        w.write(f, t)


# ------------------------------------------------------------------------------------------------ C16
class C16(Prop):
    runs = {"quick": 1100, "thorough": 12000}
    rule = ("one case = a model and command that succeed in a fresh environment, run again in an environment where 1-5 earlier runs (of this and other exporters, models and broken "
            "versions of the same files) completed, failed, were killed, interrupted or lost un-synced data, and under transient conditions only (short transfers, interrupted "
            "calls, stalls, clock jumps); non-trivial if an earlier run was disturbed or a transient condition met")

    def gen(self, rng, i, tier):
        exp = rng.choice(gen.EXPORTERS + ["samm", "apigear", "protobuf"])
        m = some_model(rng, types=rng.choice([0, 0.5, 1]))
        suit(rng, m, exp)
        cs = gen.cmdspec(rng, m, exp)
        sc = {"models": {"A": m}, "cmd": cs, "env": env(rng), "pseed": rng.getrandbits(48), "prior": [], "transient": rng.random() < 0.6}
        for k in range(rng.choice([1, 1, 2, 2, 3, 5])):
            who = rng.choice(["A", "A", "A", "B", "X", "V"])
            if who == "B" and "B" not in sc["models"]:
                sc["models"]["B"] = gen.relocate(some_model(rng, types=rng.choice([0, 1])), "b/")
            if who == "X" and "X" not in sc["models"]:
                sc["models"]["X"] = gen.break_model(rng, m)[0]
            if who == "V" and "V" not in sc["models"]:
                sc["models"]["V"] = gen.same_size(rng, m)
            o = cs if rng.random() < 0.55 else gen.cmdspec(rng, sc["models"][who], exp if rng.random() < 0.4 else rng.choice(gen.EXPORTERS))
            o = copy.deepcopy(o)
            sc["prior"].append({"m": who, "cmd": o, "end": rng.choice(["ok", "crash", "crash", "power", "power", "fault", "fault"])})
            if rng.random() < 0.15:
                sc["prior"][-1]["cmd"]["global"] = ["--log-file", "$R/out/run.log"]
        if rng.random() < 0.15:
            sc["cmd"] = dict(cs, **{"global": ["--log-file", "$R/out/run.log"]})
        return sc

    def run(self, ctx, sc):
        A = sc["models"]["A"]
        c = gen.cmd(A, sc["cmd"])
        w = ctx.world()
        for n, m in sc["models"].items():
            if n in ("A", "B"):
                lay(w, m)
        (p0,) = w.run([spec_of(c, sc.get("env"), name="j")])
        fresh = outputs(w, c)
        ctx.note(f"ref-exit{p0.exit}")
        if p0.exit != 0:
            return
        w = ctx.world()
        for n, m in sc["models"].items():
            if n in ("A", "B"):
                lay(w, m)
        rng = random.Random(sc["pseed"])
        for k, pr in enumerate(sc["prior"]):
            m = sc["models"][pr["m"]]
            pc = gen.cmd(m, pr["cmd"])
            if pr["m"] in ("X", "V"):
                put_version(w, A, m)
            if "faults" not in pr:
                pr["faults"] = []
                if pr["end"] != "ok":
                    kinds = {"crash": ("crash",), "power": ("crash",), "fault": ("errno", "full", "sigint", "errno")}[pr["end"]]
                    w2 = core.World(w.zy, ctx.path + "/plan", "plan", {})
                    lay(w2, m)
                    if "B" in sc["models"] and pr["m"] != "B":
                        lay(w2, sc["models"]["B"])
                    (pp,) = w2.run([spec_of(pc, sc.get("env"), name="plan")])
                    f = fl.pick(rng, pp.ops, pc, f"p{k}", kinds, prefer_out=0.7)
                    if f:
                        pr["faults"] = [f]
            (p,) = w.run([spec_of(pc, sc.get("env"), name=f"p{k}")], pr["faults"])
            ctx.note("prior-killed" if p.exit != 0 and p.killed is not None else f"prior-exit{p.exit if p.exit in (0, 1) else 'other'}")
            if pr["end"] == "power" and p.killed is not None:
                w.power_loss(p, sc["pseed"] + k)
            if p.faulted or p.exit != 0:
                ctx.interesting = True
            if pr["m"] in ("X", "V"):
                put_version(w, m, A)
        if sc["cmd"]["exp"] == "apigear":
            # this exporter refuses an existing directory by design; its user removes it
            for d in c["dirs"]:
                shutil.rmtree(w.p(d), ignore_errors=True)
        if "faults" not in sc:
            sc["faults"] = self.transient(rng, p0, c) if sc["transient"] else []
        (p,) = w.run([spec_of(c, sc.get("env"), name="j")], sc["faults"])
        if p.faulted:
            ctx.interesting = True
        ctx.note(f"judged-exit{p.exit}")
        hist = f"(earlier runs: {[(x['m'], x['cmd']['exp'], x['end']) for x in sc['prior']]}; conditions met: {[(k, o) for _, o, _, k in p.faulted[:4]]})"
        if p.exit != 0:
            ctx.fail(f"stuck:{c['exp']}", f"{c['exp']}: succeeds in a fresh environment, but ends with {p.exit} in one where all faults have stopped {hist}", log=tail(w, p))
            return
        after = outputs(w, c)
        d = diff(fresh, {k: v for k, v in after.items() if k in fresh}, "fresh", "recovered")
        if d:
            ctx.fail(f"wrong:{c['exp']}", f"{c['exp']}: after faults stopped the export leaves other files than in a fresh environment: {d} {hist}", log=tail(w, p))

    def transient(self, rng, p0, c):
        fs = []
        for _ in range(rng.choice([1, 1, 2, 4])):
            k = rng.choice(["eintr", "eintr", "short", "short", "stall", "clockjump"])
            if k in ("eintr", "short"):
                ops = [r for r in p0.ops if r[0] in (("READ", "WRITE", "OPEN") if k == "eintr" else ("READ", "WRITE"))]
                f = fl.pick(rng, ops, c, "j", ("errno",) if k == "eintr" else ("short",), prefer_out=0.5)
                if not f:
                    continue
                if k == "eintr":
                    f["errno"] = "EINTR"
                    f.pop("sticky", None)
                fs.append(f)
                if k == "short" and f["op"] == "WRITE" and not f.get("sticky") and rng.random() < 0.4:
                    fs.append(dict({q: f[q] for q in ("proc", "op", "path")}, nth=f["nth"] + 1, kind="errno", errno="EINTR"))
            else:
                fs.append({"proc": "j", "op": rng.choice(["OPEN", "READ", "WRITE", "*"]), "nth": rng.randrange(3), "sticky": rng.choice([0, 1]), "kind": k,
                           "ns": rng.choice([10**9, 3600 * 10**9, 10**13]) * (1 if k == "stall" else rng.choice([1, -1]))})
                if not fs[-1]["sticky"]:
                    fs[-1].pop("sticky")
        return fs


# ------------------------------------------------------------------------------------------------ C17
class C17(Prop):
    runs = {"quick": 1000, "thorough": 9000}
    rule = ("one case = one simulated Python process making up to 6 export or library calls (valid, invalid, interrupted, hit by I/O faults), with its process-wide state recorded "
            "before the first and after every call; non-trivial if a call failed or was hit by a fault")

    def gen(self, rng, i, tier):
        sc = {"models": {}, "calls": [], "env": env(rng), "pseed": rng.getrandbits(48)}
        exps = rng.sample(gen.EXPORTERS + ["id", "samm"], rng.choice([1, 1, 2]))
        A = some_model(rng, size=rng.choice([3, 6, 8]), types=rng.choice([0, 0.7, 1.0]))
        for e in exps:
            suit(rng, A, e)
        sc["models"]["A"] = A
        sc["models"]["X"] = gen.relocate(gen.break_model(rng, A)[0], "x/")
        for k in range(len(exps) + rng.choice([1, 2, 3, 4])):
            warm = k < len(exps)
            n = "A" if warm or rng.random() < 0.65 else "X"
            m = sc["models"][n]
            call = {"m": n, "cmd": gen.cmdspec(rng, m, exps[k] if warm else rng.choice(exps), simple=False)}
            if rng.random() < 0.2:
                call["cmd"]["global"] = rng.choice([["--log-file", f"$R/out/c{k}.log"], ["--log-level", "DEBUG"], ["--log-level", "ERROR", "--log-file", f"$R/out/c{k}.log"]])
            if not warm:
                if rng.random() < 0.12:
                    call["lib"] = 1
                if rng.random() < 0.65:
                    call["fault"] = rng.choice(["sigint", "errno", "errno", "short", "full"])
            sc["calls"].append(call)
        sc["warm"] = len(exps)
        sc["pre"] = int(rng.random() < 0.5)
        return sc

    def run(self, ctx, sc):
        rng = random.Random(sc["pseed"])
        w = ctx.world()
        for m in sc["models"].values():
            lay(w, m)
        calls, fts, what = [], [], []
        for k, call in enumerate(sc["calls"]):
            m = sc["models"][call["m"]]
            c = gen.cmd(m, dict(call["cmd"], outdir=f"out/c{k}"))
            os.makedirs(w.p(f"out/c{k}"), exist_ok=True)
            if call.get("lib"):
                q = {"vspec": "$R/" + m["main"], "include_dirs": ["$R/" + x for x in m["incdirs"]], "aborts": [], "strict": False, "extended_attributes": m["ext"], "uuid": False,
                     "quantities": ["$R/" + x for x in m["quantities"]], "units": ["$R/" + x for x in m["units"]], "types": ["$R/" + x for x in m["types"]],
                     "overlays": ["$R/" + x for x in m["overlays"]], "expand": True}
                calls.append({"lib": q, "dump": f"$R/out/c{k}/dump.json"})
            else:
                calls.append({"argv": c["argv"]})
            if call.get("fault") and "faults" not in call:
                call["faults"] = []
                w2 = core.World(w.zy, ctx.path + "/plan", "plan", {})
                for mm in sc["models"].values():
                    lay(w2, mm)
                os.makedirs(w2.p(f"out/c{k}"), exist_ok=True)
                (pp,) = w2.run([dict(sc.get("env") or {}, calls=[calls[-1]], name="s")])
                f = fl.pick(rng, [r for r in pp.ops if r[1].startswith("$R/")], c, "s", (call["fault"],), logfile=f"out/c{k}.log")
                if f and f.get("errno") == "EPIPE":
                    f["errno"] = "EIO"      # click itself replaces the standard streams on a broken pipe
                if f:
                    f["in"] = k
                    f.setdefault("path", None)
                    call["faults"] = [f]
            fts += [x for x in call.get("faults", [])]
            what.append(("get_trees" if call.get("lib") else c["exp"]) + f"({call['m']})")
        # faults name the n-th operation on a file inside their own call: add what the calls before do is not known, so place them on the first call that gets there
        (p,) = w.run([dict(sc.get("env") or {}, calls=calls, name="s", cpu=120, state=1, pre=sc.get("pre", 0))], [{a: b for a, b in f.items() if a != "in" and b is not None} for f in fts])
        states = [json.loads(x) for x in open(p.state, encoding="utf-8")]
        if len(states) != len(calls) + 1:
            ctx.note("session-died")
            if p.killed is None:
                ctx.fail("session-died", f"the process making the calls {what} died with {p.exit}", log=tail(w, p))
            return
        if p.faulted or any(p.codes):
            ctx.interesting = True
        for k in range(len(calls)):
            ctx.note(f"call-exit{min(p.codes[k], 2)}")
            for kind, base in (("hard", 0), ("soft", 0 if sc.get("pre") else sc["warm"])):
                if k + 1 <= base:
                    continue
                a, b = states[base][kind], states[k + 1][kind]
                for q in a:
                    if a[q] != b[q]:
                        extra = ""
                        if q == "open files":
                            extra = " (" + ", ".join(sorted(str(p.fds.get(x, x)) for x in set(b[q]) - set(a[q]))) + ")"
                        ctx.fail(f"{q}:{what[k].split('(')[0]}", f"call {k + 1} of {what} (ends with {p.codes[k]}) leaves other {q} than before: {str(a[q])[:200]} -> {str(b[q])[:200]}{extra}; "
                                 f"faults {[(x[1], x[2], x[3]) for x in p.faulted[:3]]}", log=tail(w, p, 1500))
                        return


# ------------------------------------------------------------------------------------------------ C18
ERROR = re.compile(r"ERROR|CRITICAL|Error|Usage|Traceback|Exception|Aborted")


def flat(t):
    """Console text without line breaks, frames and blanks, which depend on its width."""
    return re.sub(r"[\s\u2500-\u257f]+", "", t)


class C18(C03):
    runs = {"quick": 2200, "thorough": 20000}
    rule = ("one case = one run of an invalid or valid model into which 0-1 lasting I/O faults were injected, with healthy standard streams; what it says is compared with how it "
            "ends; non-trivial if it ends non-zero")

    def gen(self, rng, i, tier):
        sc = super().gen(rng, i, tier)
        sc["fault"] = sc["why"] == "read" or rng.random() < 0.2
        sc["old"] = "none"
        g = rng.random()
        if g < 0.2:
            sc["cmd"]["global"] = ["--log-level", rng.choice(["ERROR", "WARNING", "DEBUG", "CRITICAL", "CRITICAL"])]
        if 0.1 < g < 0.3:
            sc["cmd"]["global"] = sc["cmd"].get("global", []) + ["--log-file", "$R/out/run.log"]
        if rng.random() < 0.3:
            sc["env"]["env"] = {"COLUMNS": rng.choice(["40", "80", "300"])}
        return sc

    def run(self, ctx, sc):
        m = sc["models"]["A"]
        c = gen.cmd(m, sc["cmd"])
        ok0 = None
        if sc["fault"] and "faults" not in sc:
            sc["faults"] = []
            w = ctx.world()
            lay(w, m)
            (p0,) = w.run([spec_of(c, sc.get("env"), name=0)])
            f = fl.pick(random.Random(sc["pseed"]), [r for r in p0.ops if r[1].startswith("$R/") and not r[1].endswith("/run.log")], c, 0, ("errno", "errno", "errno", "full"), prefer_out=0.45)
            if f:
                if f.get("errno") in ("EPIPE", "EAGAIN", "EINTR"):
                    f["errno"] = "EIO"      # a broken pipe is no message to anyone; the others are no failure
                sc["faults"] = [f]
            sc["ok0"] = p0.exit == 0
        ok0 = sc.get("ok0")
        w = ctx.world()
        lay(w, m)
        (p,) = w.run([spec_of(c, sc.get("env"), name=0)], sc.get("faults", []))
        o, e = w.std(p)
        t = o + e
        ctx.note(f"exit{min(p.exit, 2) if isinstance(p.exit, int) else p.exit}-{'fault' if p.faulted else sc['why']}")
        if p.exit == 0:
            if re.search(r"^(\[[\d:]+\])?\s+(ERROR|CRITICAL)\s", t, re.M):
                ctx.fail(f"error-but-0:{c['exp']}", f"{c['exp']}: reports an error and ends with exit status 0; faults {fired(p)}", log=tail(w, p))
            return
        if p.killed is not None:
            return
        ctx.interesting = True
        if not ERROR.search(t):
            ctx.fail(f"silent:{c['exp']}", f"{c['exp']}: ends with {p.exit} without any error message; {sc['why']}, faults {fired(p)}", log=tail(w, p))
            return
        ft = flat(t)
        if p.faulted and ok0:
            said = False
            for _, op, path, k in p.faulted:
                why = os.strerror({"full": errno.ENOSPC}.get(k) or getattr(errno, k, errno.ENOSPC))
                said = said or flat(path.rsplit("/", 1)[1]) in ft or flat(why) in ft
            if not said:
                ctx.fail(f"unnamed:{c['exp']}", f"{c['exp']}: fails because of {fired(p)}, but its messages name neither that file nor the reason", log=tail(w, p, 1500))
            return


# ------------------------------------------------------------------------------------------------ C19
CONSOLE = re.compile(r"^(?:\[\d\d:\d\d:\d\d\]|\s{10})\s+(DEBUG|INFO|WARNING|ERROR|CRITICAL)\s+(.*)$")
RECORD = re.compile(r"^[-\d]{10} [:\d]{8},\d{3}:(DEBUG|INFO|WARNING|ERROR|CRITICAL):", re.M)
WHERE = re.compile(r"(^|\s+)[\w<>-]+(\.py)?:\d+\s*$")
WIDE = "900"


def console(t):
    """(level, beginning of the message) of every message on a console, and whether the last line is complete."""
    out = []
    for line in t.split("\n"):
        x = CONSOLE.match(line)
        if x:
            out.append((x.group(1), flat(CTRL.sub("", WHERE.sub("", x.group(2))))))
    return out


CTRL = re.compile(r"[\x00-\x1f\x7f]")


def records(b):
    """(level, message) of every message in a log file; None if it has another format."""
    t = b.decode("utf-8", "replace").replace("\r\n", "\n")
    at = list(RECORD.finditer(t))
    if t and (not at or at[0].start()):
        return None
    return [(x.group(1), flat(CTRL.sub("", t[x.end():at[i + 1].start() if i + 1 < len(at) else len(t)]))) for i, x in enumerate(at)]


def beginning(t):
    """A message up to where its spelling may depend on the codeset."""
    return re.split(r"[^!-~]|\\", t)[0]


def mismatch(con, rec, raw, killed=False):
    """Why a log file does not hold exactly the messages of a console, or ''."""
    if rec is None:
        # another format: every message, in order
        t = flat(CTRL.sub("", raw.decode("utf-8", "replace")))
        pos = 0
        for i, (_, msg) in enumerate(con):
            q = t.find(msg, pos)
            if q < 0 and not (killed and i == len(con) - 1):
                return f"message {i + 1} of {len(con)} is missing or out of order: {msg[:100]!r}"
            pos = max(pos, q + len(msg))
        return ""
    # a killed run may have written its last message to either place only
    slack = 1 if killed else 0
    for i in range(max(len(con), len(rec))):
        if i >= len(rec):
            if i < len(con) - slack:
                return f"it ends after {len(rec)} of {len(con)} messages; missing {con[i][0]} {con[i][1][:100]!r}"
        elif i >= len(con):
            if i >= len(con) + slack:
                return f"it goes on after {len(con)} messages with {rec[i][0]} {rec[i][1][:100]!r}"
        elif con[i][0] != rec[i][0] or not (rec[i][1].startswith(con[i][1]) or killed and i >= len(rec) - 1 and con[i][1].startswith(rec[i][1])):
            return f"message {i + 1} is {rec[i][0]} {rec[i][1][:100]!r}, on the console {con[i][0]} {con[i][1][:100]!r}"
    return ""


class C19(Prop):
    runs = {"quick": 900, "thorough": 9000}
    rule = ("one case = one command with a log file, judged fault-free, in other codesets, over an earlier log, killed or interrupted at seeded operations, with faults on its inputs and "
            "outputs, with transient faults on the log file, and as one of several calls of a process with log files of their own; non-trivial if the run logs at least two messages")

    def gen(self, rng, i, tier):
        m = some_model(rng, size=rng.choice([3, 6, 10]))
        if rng.random() < 0.35:
            m = gen.break_model(rng, m)[0]
        exp = rng.choice(gen.EXPORTERS + ["id", "samm"])
        suit(rng, m, exp)
        sc = {"models": {"A": m}, "cmd": gen.cmdspec(rng, m, exp), "env": env(rng), "pseed": rng.getrandbits(48), "variants": []}
        level = rng.choice([[], [], ["--log-level", "DEBUG"], ["--log-level", "DEBUG"], ["--log-level", "INFO"], ["--log-level", "WARNING"], ["--log-level", "ERROR"], ["--log-level", "CRITICAL"]])
        lf = ["--log-file", rng.choice(["$R/out/run.log", "$R/log dir/é.log", "$R/cwd/x"])]
        sc["cmd"]["global"] = level + lf if rng.random() < 0.7 else lf + level
        for _ in range(4):
            sc["variants"].append({"kind": rng.choice(["crash", "crash", "crash", "sigint", "error", "error", "transient", "transient", "codeset", "old", "session", "session"]),
                                   "seed": rng.getrandbits(32)})
        return sc

    def world(self, ctx, m, log, old=None):
        w = ctx.world()
        lay(w, m)
        os.makedirs(os.path.dirname(w.p(log)), exist_ok=True)
        if old is not None:
            w.write(log, old)
        return w

    def run(self, ctx, sc):
        m = sc["models"]["A"]
        c = gen.cmd(m, sc["cmd"])
        g = sc["cmd"]["global"]
        log = g[g.index("--log-file") + 1].removeprefix("$R/")
        ev = copy.deepcopy(sc.get("env") or {})
        ev.setdefault("env", {})["COLUMNS"] = WIDE
        w = self.world(ctx, m, log)
        (p0,) = w.run([spec_of(c, ev, name=0)])
        raw = w.read(log)
        con = console(w.std(p0)[0] + w.std(p0)[1])
        ctx.note(f"exit{min(p0.exit, 2)}")
        if p0.exit == 2 and raw is None:
            return      # refused command line
        if len(con) > 1:
            ctx.interesting = True
        if self.judge(ctx, c, "fault-free", w, p0, raw, con):
            return
        rec0 = records(raw)
        for v in sc["variants"]:
            rng = random.Random(v["seed"])
            k = v["kind"]
            ctx.note(k)
            if k in ("crash", "sigint", "error", "transient"):
                if "faults" not in v:
                    v["faults"] = self.plan(rng, k, p0, c, log)
                if not v["faults"]:
                    continue
                w = self.world(ctx, m, log, b"old\n" * 400 if rng.random() < 0.3 else None)
                (p,) = w.run([spec_of(c, ev, name=0)], v["faults"])
                if not p.faulted:
                    continue
                o, e = w.std(p)
                raw = w.read(log)
                if raw is None and k == "error" and not console(o + e):
                    continue        # the log file itself could not be opened
                if self.judge(ctx, c, f"{k} {fired(p)}", w, p, raw, console(o + e), p.killed is not None, k == "sigint"):
                    return
            elif k == "codeset" or k == "old":
                w = self.world(ctx, m, log, rng.choice([b"old line\n" * 3000, b"\xff\xfe", b""]) if k == "old" else None)
                e2 = dict(ev, codeset=rng.choice(["ANSI_X3.4-1968", "ISO-8859-1"])) if k == "codeset" else ev
                (p,) = w.run([spec_of(c, e2, name=0)])
                if p.exit != p0.exit:
                    continue
                raw = w.read(log)
                got = records(raw) if raw is not None else None
                same = (lambda a, b: a == b) if k == "old" else (lambda a, b: a[0] == b[0] and beginning(a[1]) == beginning(b[1]))
                if raw is None or (rec0 is not None and (got is None or len(got) != len(rec0) or not all(map(same, rec0, got)))):
                    n = next((i for i, (a, b) in enumerate(zip(rec0, got or [])) if not same(a, b)), min(len(rec0), len(got or [])))
                    ctx.fail(f"{k}:log", f"{c['exp']}: the log file of the same run differs {'under codeset ' + e2['codeset'] if k == 'codeset' else 'over an earlier log file'}: "
                             f"message {n + 1} is {got[n:n + 1] if got is not None else raw and raw[:200]}, not {rec0[n:n + 1]}", log=tail(w, p))
                    return
            elif rec0 is not None:
                if self.session(ctx, sc, rng, m, c, ev, log, rec0, p0):
                    return

    def plan(self, rng, k, p0, c, log):
        ops = [r for r in p0.ops if r[1].startswith("$R/") or r[1] in ("<stdout>", "<stderr>")]
        mine = [r for r in ops if r[1] == "$R/" + log]
        std = [r for r in ops if r[1].startswith("<std")]
        if k == "crash" or k == "sigint":
            some = rng.choice([mine, std, ops, ops])
            f = fl.pick(rng, some, c, 0, (k,), prefer_out=0.3)
        elif k == "error":
            f = fl.pick(rng, [r for r in ops if r not in mine and r not in std], c, 0, ("errno", "errno", "full"))
            if f and f.get("pathprefix"):
                f.pop("pathprefix")
                f["path"] = next((r[1] for r in ops if r[0] == "WRITE" and r not in mine and r not in std), "$R/out/none")
        else:
            f = fl.pick(rng, [r for r in mine if r[0] in ("WRITE", "OPEN", "CLOSE")], c, 0, ("short", "errno"), prefer_out=0)
            if f and f["kind"] == "errno":
                if f["op"] == "CLOSE":
                    return []
                f["errno"] = "EINTR"
                f.pop("sticky", None)
        return [f] if f else []

    def judge(self, ctx, c, what, w, p, raw, con, killed=False, interrupted=False):
        rec = records(raw) if raw is not None else []
        if interrupted and rec is not None and abs(len(con) - len(rec)) == 1:
            # the message being written when the interruption came may be in one place only
            a, b = (con, rec) if len(con) > len(rec) else (rec, con)
            for i in range(len(a)):
                x = a[:i] + a[i + 1:]
                if not mismatch(*((x, b) if a is con else (b, x)), raw):
                    return False
        d = "it does not exist" if raw is None and con[1 if killed else 0:] else "" if raw is None else mismatch(con, rec, raw, killed)
        if d:
            ctx.fail(f"log:{what.split()[0]}", f"{c['exp']}, {what}, exit {p.exit}: the log file is not what the console shows: {d}", log=tail(w, p, 1500))
        return bool(d)

    def session(self, ctx, sc, rng, m, c, ev, log, rec0, p0):
        """The same command among other calls of one process, which have other log files, other levels or none."""
        w = self.world(ctx, m, log)
        w.write("in/none.vspec", "A.B.C:\n  type: branch\n")
        calls = []
        n = rng.choice([1, 2])
        for k in range(n + 1 + rng.choice([0, 1])):
            if k == n:
                calls.append({"argv": c["argv"]})
                continue
            g = rng.choice([[], ["--log-level", "DEBUG"], ["--log-level", "CRITICAL"]]) + rng.choice([[], ["--log-file", f"$R/log{k}"], ["--log-file", f"$R/log{k}"]])
            os.makedirs(w.p(f"out/c{k}"), exist_ok=True)
            other = gen.cmd(m, dict(sc["cmd"], outdir=f"out/c{k}", **{"global": g}))
            if rng.random() < 0.3:
                other = {"argv": g + ["export", rng.choice(["json", "yaml"]), "-s", "$R/in/none.vspec", "-o", f"$R/out/c{k}/none"]}
            calls.append({"argv": other["argv"]})
        (p,) = w.run([dict(ev, calls=calls, name=0, cpu=120)])
        if len(p.codes) != len(calls) or p.codes[n] != p0.exit:
            return False
        raw = w.read(log)
        got = records(raw) if raw is not None else None
        if got != rec0:
            k = next((i for i, (a, b) in enumerate(zip(rec0, got or [])) if a != b), min(len(rec0), len(got or [])))
            ctx.fail("log:session", f"{c['exp']}: the log file differs when the call is number {n + 1} of a process: message {k + 1} is {got[k:k + 1] if got is not None else raw and raw[:200]}, "
                     f"alone it is {rec0[k:k + 1]}; calls {[x['argv'][:6] for x in calls]}", log=tail(w, p))
            return True
        return False
