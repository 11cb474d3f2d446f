"""The properties decided by simulating the export command line."""
import copy
import json
import random

import core
import faults as fl
import gen
from core import HarnessError, h64
from ctx import alone, diff, env, lay, outputs, spec_of, tail

REAL = ["all of src/vss_tools (CLI, loader, model validation, tree, every exporter)", "CPython, click, pydantic, PyYAML, anytree, rdflib, graphql-core, rich",
        "kernel file system semantics on a scratch tmpfs directory"]
STUB = ["clock, sleep, entropy, pid, host name, locale codeset, directory order, locks: simulated at the libc seam (sim/shim.c)",
        "disk errors, short transfers, full disk, crashes, signals: injected at the libc seam", "fork/exec: refused and recorded"]
TRUST = ["a crash keeps what the process had handed to write(2), plus seeded truncation of un-fsynced files where power loss is simulated",
         "scenarios are sampled by seed, not enumerated"]


class Prop:
    level = "fault_enumeration"
    runs = {"quick": 400, "thorough": 8000}
    assumptions = TRUST
    real = REAL
    stub = STUB
    uses_sim = True

    def prepare(self, build):
        pass

    def describe(self, sc):
        d = {k: v for k, v in sc.items() if k not in ("models", "_i", "_keep1")}
        d["models"] = {n: {"files": {f: (len(s.get("nodes", {})) if "nodes" in s else "text") for f, s in m["files"].items()}, "main": m["main"]}
                       for n, m in sc.get("models", {}).items()}
        return d


def some_model(rng, exp=None, size=None, **over):
    f = gen.swarm(rng, None, **over)
    m = gen.gen_model(rng, f, size)
    if rng.random() < 0.35:
        fix_leaf_values(m)
    return m


def fix_leaf_values(m):
    pass


def staticuid_model(m, rng, drop=False):
    """Give every node a staticUID extra attribute (protobuf --static-uid)."""
    m["staticuid"] = 1
    n = 0
    for f in m["files"].values():
        for v in f.get("nodes", {}).values():
            n += 1
            if drop and rng.random() < 0.15:
                continue
            v["staticUID"] = "0x%08X" % (0x1000 + n * 7919)
    m["ext"] = m["ext"] + ["staticUID"]


PRIMITIVE = set(gen.RANGE) | set(gen.FLOATS) | {"boolean", "string", "numeric"}


def plain(m, exp=None):
    """No signal or property of a struct type."""
    for f in m["files"].values():
        for d in f.get("nodes", {}).values():
            dt = str(d.get("datatype", ""))
            if dt and dt.removesuffix("[]") not in PRIMITIVE and "." in dt + "." * (d.get("type") == "property"):
                arr = str(d["datatype"]).endswith("[]")
                d["datatype"] = ("int8" if len(d.get("description", "")) % 2 else "string") + ("[]" if arr else "")
            if exp == "binary" and isinstance(d.get("allowed"), list) and any(not isinstance(x, str) for x in d["allowed"]):
                d.pop("allowed")


def suit(rng, m, exp):
    """Most models for an exporter without struct types have none, so that the run reaches the exporter's own code."""
    if exp not in ("jsonschema", "binary", "franca", "graphql") or m.get("broken") or rng.random() < 0.15:
        return
    plain(m, exp)
    if exp != "jsonschema" or rng.random() < 0.7:
        for t in m["types"]:
            m["files"].pop(t, None)
        m["types"] = []


def pick_cmd(rng, m, exps=None, simple=False):
    exp = rng.choice(exps or gen.EXPORTERS)
    if exp == "protobuf" and rng.random() < 0.2 and not m.get("staticuid"):
        staticuid_model(m, rng, rng.random() < 0.3)
    suit(rng, m, exp)
    return gen.cmdspec(rng, m, exp, simple)


# ------------------------------------------------------------------------------------------------ C01
class C01(Prop):
    runs = {"quick": 1600, "thorough": 14000}
    level = "exploration"
    rule = ("one case = one model and command executed in 3 simulated environments that differ in hash seed, address layout, clock (with jumps during the run), "
            "entropy, pid, host, codeset, TZ, cwd, home, temp, file times and directory order; non-trivial if the first run exits 0 and the environments differ in at "
            "least four of these; measured on the seam operation sequences")

    def gen(self, rng, i, tier):
        exp = rng.choice(gen.EXPORTERS + ["protobuf"])
        m = some_model(rng, **({"types": 1.0, "struct": 0.6} if exp == "protobuf" and rng.random() < 0.6 else {}))
        if rng.random() < 0.15:
            m, _ = gen.break_model(rng, m, rng.choice([None, ("dropunits", "dropunitopt", "dropunitopt", "missingfile", "noinclude")]))
        sc = {"models": {"A": m}, "cmd": pick_cmd(rng, m, [exp]), "variants": []}
        for k in range(3):
            sc["variants"].append(self.variant(rng, k))
        sc["rel"] = rng.random() < 0.25
        return sc

    def variant(self, rng, k):
        if k == 0:
            return {"zyg": 0, "seed": 1}
        v = {"zyg": rng.choice([1, 2, 1, 2, 3]) if rng.random() < 0.95 else 0, "seed": rng.getrandbits(40)}
        opts = {
            "clock": rng.choice([10**18, -10**18, 86_400_000_000_000 * 365, -1, 3 * 10**18, rng.randrange(-core.EPOCH, 7 * 10**18)]), "pid": rng.choice([1, 2, 4242, 99999]), "host": rng.choice(["h", "build-node-17"]),
            "codeset": rng.choice(["UTF-8", "ANSI_X3.4-1968", "ISO-8859-1"]), "umask": rng.choice([0o077, 0o002]),
            "cwd": rng.choice(["elsewhere", "in", "out"]), "jump": rng.choice([10**15, -10**15, 3_600_000_000_000]),
            "mtime": rng.choice([-10**17, 10**17, 0]), "magic": rng.randrange(1, 1 << 30), "tty": 1, "decoys": rng.choice(["junk", "valid"]),
        }
        for o in opts:
            if rng.random() < 0.6:
                v[o] = opts[o]
        e = {}
        for name, vals in {"TZ": ["Asia/Kolkata", "America/New_York", "Pacific/Apia"], "LC_ALL": ["C", "de_DE.UTF-8", "tr_TR.UTF-8"], "LANG": ["C", "ja_JP.UTF-8"],
                           "USER": ["root", "ci"], "HOME": ["$R/home2"], "TMPDIR": ["$R/tmp2"], "COLUMNS": ["40", "200"], "PWD": ["/"], "HOSTNAME": ["x"],
                           "SOURCE_DATE_EPOCH": ["1", "99"], "VSS_TOOLS_X": ["1"], "TERM": ["dumb", "xterm-256color"], "NO_COLOR": ["1"], "FORCE_COLOR": ["1"]}.items():
            if rng.random() < 0.3:
                e[name] = rng.choice(vals)
        v["env"] = e
        v["probes"] = k == 1
        return v

    def run(self, ctx, sc):
        m = sc["models"]["A"]
        c = gen.cmd(m, sc["cmd"])
        base, probes = None, []
        for k, v in enumerate(sc["variants"]):
            v = dict(v)
            w = ctx.world()
            lay(w, m)
            import os
            for d in ("home2", "tmp2", "elsewhere"):
                os.makedirs(w.p(d), exist_ok=True)
            if v.get("decoys"):
                # files of the same names as inputs, where nothing says that they are looked for
                for d in ("home2", "elsewhere", "home", "cwd", "tmp", "tmp2", "out"):
                    for f in ("units.yaml", "quantities.yaml", "inc1.vspec", "inc2.vspec", ".vspec", ".vss-tools", "vss_tools.cfg", "vspec.yaml", "signals.txt", "logging.conf", ".env"):
                        if v["decoys"] == "valid" and f in ("units.yaml", "quantities.yaml"):
                            w.write(f"{d}/{f}", gen.render_file({"yaml": gen.MIN_UNITS if f[0] == "u" else gen.MIN_QUANT}))
                            continue
                        w.write(f"{d}/{f}", "Decoy:\n  type: branch\n  description: Not asked for.\n" if f.endswith("vspec") else "decoy:\n  definition: not asked for\n")
            if v.pop("probes", None) and probes:
                # something at the places the first run looked for without finding anything
                for n, x in enumerate(probes[:12]):
                    if os.environ.get("DETAIL"):
                        print("probe", c["exp"], x)
                    if not os.path.lexists(w.p(x)):
                        w.write(x, ["Probe:\n  type: branch\n  description: Not asked for.\n", "", "1\n", gen.render_file({"yaml": gen.MIN_UNITS})][h64(n, c["argv"], v["seed"]) % 4])
                for o in ("cwd", "codeset"):
                    v.pop(o, None)
                v["env"] = {a: b for a, b in v["env"].items() if a not in ("HOME", "TMPDIR")}
                ctx.note("probed-places", len(probes))
            if v.get("mtime"):
                for f in sorted(m["files"]):
                    w.stamp(w.p(f), core.EPOCH + v["mtime"] + h64(k, f) % 10**12)
            jump = v.pop("jump", None)
            v.pop("mtime", None)
            v.pop("decoys", None)
            fts = [{"proc": 0, "op": "*", "nth": 0, "sticky": 1, "kind": "clockjump", "ns": jump // 50}] if jump else []
            if sc.get("rel"):
                cwd = v.get("cwd", "cwd")
                c = dict(c, argv=[("../" + x[3:] if x.startswith("$R/") else x) for x in gen.cmd(m, sc["cmd"])["argv"]])
            (p,) = w.run([spec_of(c, v, name=0)], fts)
            o = outputs(w, c)
            if base is None:
                base = (p.exit, o)
                probes = sorted({r[1][3:] for r in p.ops if r[0] in ("STAT", "OPEN", "ACCESS", "OPENDIR") and r[1].startswith(("$R/home/", "$R/cwd/", "$R/tmp/")) and r[6] == 2
                                 and not any(r[1].rsplit("/", 1)[1] in a for a in c["argv"])})
                if p.exit == 0:
                    ctx.interesting = True
                ctx.note(f"exit{p.exit}:{c['exp']}")
                continue
            if p.exit != base[0]:
                ctx.fail(f"exit:{c['exp']}", f"{c['exp']}: exit status {base[0]} in one environment, {p.exit} in another ({brief(v)})", log=tail(w, p))
            elif p.exit == 0 and o != base[1]:
                ctx.fail(f"bytes:{c['exp']}", f"{c['exp']}: output differs between environments: {diff(base[1], o, 'first', 'other')} ({brief(v)})")


def brief(v):
    return json.dumps(v, sort_keys=True)[:300]


# ------------------------------------------------------------------------------------------------ C02
class C02(Prop):
    runs = {"quick": 1200, "thorough": 9000}
    rule = ("one case = one model and command executed fault-free and then 6 times with 1-3 faults placed on operations of the fault-free run; non-trivial if the "
            "fault-free run exits 0 and a fault fired")

    def gen(self, rng, i, tier):
        m = some_model(rng)
        return {"models": {"A": m}, "cmd": pick_cmd(rng, m), "env": env(rng), "pseed": rng.getrandbits(48), "n": 6, "old": rng.random() < 0.3}

    def run(self, ctx, sc):
        m = sc["models"]["A"]
        c = gen.cmd(m, sc["cmd"])
        if not c["files"] and not c["dirs"]:
            return
        p0, ref, w0 = alone(ctx, m, c, sc.get("env"), name=0)
        ctx.note(f"ref-exit{p0.exit}")
        if p0.exit != 0:
            return
        rng = random.Random(sc["pseed"])
        if "variants" not in sc:
            sc["variants"] = [self.make(rng, p0, c) for _ in range(sc["n"])]
        for v in sc["variants"]:
            w = ctx.world()
            lay(w, m)
            if sc.get("old"):
                for f in c["files"]:
                    if f in ref:
                        w.write(f, "old content\n" * 40)
            (p,) = w.run([spec_of(c, sc.get("env"), name=0, **({"nomem": v["nomem"]} if v.get("nomem") else {}))], v["faults"])
            if p.faulted or v.get("nomem"):
                ctx.interesting = True
            if v.get("nomem"):
                st = ctx.stats.setdefault("faults", {})
                st["ENOMEM@malloc"] = st.get("ENOMEM@malloc", 0) + 1
            ctx.note(f"exit{p.exit if p.exit in (0, 1, 2, 120, 130) else 'other'}")
            if p.exit == 0:
                d = diff(ref, outputs(w, c), "fault-free", "this run")
                if d:
                    ctx.fail(f"incomplete:{c['exp']}", f"{c['exp']}: exit status 0 although the output is not what the fault-free run writes: {d}; "
                             f"faults {fired(p)}{' allocation failure ' + str(v['nomem']) if v.get('nomem') else ''}", log=tail(w, p))
                    sc["variants"] = [v]
                    return

    def make(self, rng, p0, c):
        x = rng.random()
        if x < 0.08:
            a = int(10 ** rng.uniform(1.5, 5.3))
            return {"faults": [], "nomem": [a, a + rng.choice([1, 1, 2, 20, 100000])]}
        if x < 0.22:
            # shortly after the n-th call of a function of an exporter
            a = int(10 ** rng.uniform(0, 3))
            if rng.random() < 0.7:
                # or of one of its lines, or of a line from which exceptions are handled
                what = rng.choice(["line", "guarded", "guarded-exporter", "guarded-exporter"])
                a = int(10 ** rng.uniform(0, 1.5)) - 1
                return {"faults": [], "nomem": [a, a + rng.choice([1, 1, 1, 2, 20, 100000]), int(10 ** rng.uniform(0, 3.3 if what == "line" else 2.2)), what]}
            return {"faults": [], "nomem": [a, a + rng.choice([1, 1, 2, 20, 100000]), int(10 ** rng.uniform(0, 2.3))]}
        fs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            f = fl.pick(rng, p0.ops, c, 0, ("errno", "errno", "short", "full", "sigint"), prefer_out=0.6)
            if f:
                fs.append(f)
                if f["kind"] == "short" and f["op"] == "WRITE" and not f.get("sticky") and rng.random() < 0.6:
                    fs.append(fl.then_again(rng, f))
                elif f["kind"] == "errno" and f["op"] == "WRITE" and rng.random() < 0.2:
                    f["errno"] = "EAGAIN"
                    f.pop("sticky", None)
        return {"faults": fs}


def fired(p):
    return [f"{k}@{op} {path} (operation {n})" for n, op, path, k in p.faulted[:4]]


# ------------------------------------------------------------------------------------------------ C03
class C03(Prop):
    runs = {"quick": 2500, "thorough": 22000}
    rule = ("one case = one rejected run: an invalid model, an exporter requirement that is not met, or a read fault on an input file, with or without an earlier output in "
            "place; non-trivial if the run exits non-zero")

    def gen(self, rng, i, tier):
        m = some_model(rng)
        good = m
        x = rng.random()
        why = "read"
        if x < 0.6:
            m, why = gen.break_model(rng, m)
        cs = None
        if x >= 0.6 and x < 0.78:
            cs, why = self.requirement(rng, m)
        if cs is None:
            cs = pick_cmd(rng, m)
        if rng.random() < 0.2:
            cs["opts"].append(["--strict"])
        sc = {"models": {"A": m}, "cmd": cs, "env": env(rng), "pseed": rng.getrandbits(48), "why": why,
              "old": rng.choice(["none", "garbage", "garbage", "good"])}
        return sc

    def requirement(self, rng, m):
        k = rng.choice(["staticuid", "gql", "valfile", "struct-gql", "sigfile", "badopt", "outdir-missing", "gqlname", "idval", "any"])
        main = m["files"][m["main"]]["nodes"]
        root = next(iter(main))
        if k == "staticuid":
            staticuid_model(m, rng, True)
            cs = gen.cmdspec(rng, m, "protobuf")
            return cs, k
        if k == "gql":
            cs = gen.cmdspec(rng, m, "graphql")
            cs["opts"] += [["-g", rng.choice(["a,b,c", "nocomma", "", "x,y,z,w"])]]
            return cs, k
        if k == "gqlname":
            main[root + ".Bad-Name"] = {"type": "sensor", "datatype": "uint8", "description": "x"}
            return gen.cmdspec(rng, m, "graphql"), k
        if k == "struct-gql":
            return gen.cmdspec(rng, m, rng.choice(["graphql", "franca", "binary", "ddsidl", "apigear", "samm", "go"])), k
        if k in ("valfile", "idval"):
            cs = gen.cmdspec(rng, m, "id")
            t = {"valfile": rng.choice(["Vehicle:\n  [broken", "x", "", "Vehicle:\n  type: branch\n"]),
                 "idval": "Vehicle:\n  type: branch\n  description: d\n  staticUID: 0x1\nVehicle.Q:\n  type: sensor\n  datatype: uint8\n  description: d\n  staticUID: zz\n"}[k]
            m["files"]["in/prev.vspec"] = {"raw": t}
            cs["extra"] = ["--validate-static-uid", "$R/in/prev.vspec"]
            return cs, k
        if k == "sigfile":
            cs = gen.cmdspec(rng, m, "samm")
            if rng.random() < 0.5:
                m["files"]["in/sig.txt"] = {"raw": rng.choice(["No.Such.Signal\n", "\x00", "Vehicle\n"])}
            cs["extra"] = ["--signals-file", "$R/in/sig.txt"]
            return cs, k
        if k == "badopt":
            cs = gen.cmdspec(rng, m, rng.choice(gen.EXPORTERS))
            cs["extra"] = rng.choice([["--nosuchoption"], ["-s"], ["-u", "$R/in/nope.yaml"], ["-a", "nosuchabort"], ["-I", "$R/in/nodir"]])
            return cs, k
        if k == "outdir-missing":
            cs = gen.cmdspec(rng, m, rng.choice([e for e in gen.EXPORTERS if e in gen.EXT]))
            cs["types_out"] = True
            return cs, k
        return gen.cmdspec(rng, m, rng.choice(gen.EXPORTERS)), k

    def run(self, ctx, sc):
        m = sc["models"]["A"]
        c = gen.cmd(m, sc["cmd"])
        if "faults" not in sc:
            sc["faults"] = []
            if sc["why"] == "read":
                w = ctx.world()
                lay(w, m)
                (p0,) = w.run([spec_of(c, sc.get("env"), name=0)])
                rng = random.Random(sc["pseed"])
                inputs = {"$R/" + f for f in m["files"]}
                g = {}
                nth = {}
                for r in p0.ops:
                    k = (r[0], r[1])
                    n = nth.get(k, 0)
                    nth[k] = n + 1
                    if r[1] in inputs and r[0] in ("OPEN", "READ", "STAT", "FSTAT", "ACCESS", "CLOSE"):
                        g.setdefault(r[0], []).append((r[1], n))
                if g:
                    op = rng.choice(sorted(g))
                    if rng.random() < 0.6 and "READ" in g:
                        op = "READ"
                    path, n = rng.choice(g[op])
                    f = {"proc": 0, "op": op, "path": path, "nth": n, "kind": "errno", "errno": rng.choice([e for e in fl.ERRNOS.get(op, ["EIO"]) if e != "EINTR"] + ["EACCES"])}
                    if rng.random() < 0.3:
                        f["sticky"] = 1
                    sc["faults"] = [f]
        w = ctx.world()
        lay(w, m)
        old = sc.get("old")
        if old == "garbage":
            for f in c["files"]:
                w.write(f, f"previous release of {f}\n" * 20)
            for d in c["dirs"]:
                if c["exp"] != "apigear":
                    w.write(d + "/previous.txt", "previous release\n")
        elif old == "good":
            (pg,) = w.run([spec_of(c, sc.get("env"), name="prev")])
        before = outputs(w, c)
        (p,) = w.run([spec_of(c, sc.get("env"), name=0)], sc["faults"])
        after = outputs(w, c)
        ctx.note(f"{sc['why']}:exit{p.exit}")
        if p.exit == 0:
            return
        ctx.interesting = True
        for d in c["dirs"]:  # creating the (empty) directory itself is not a partial output file
            for mp in (before, after):
                for k in [k for k, v in mp.items() if v == b"<dir>"]:
                    del mp[k]
        d = diff(before, after, "before", "after")
        if d:
            ctx.fail(f"touched:{c['exp']}:{sc['why'] if sc['why'] in ('read',) else 'model'}:{site(w, p)}",
                     f"{c['exp']}: the run ended with status {p.exit} (cause: {sc['why']}) but changed its output location: {d}", log=tail(w, p))


def site(w, p):
    """Coarse call site of a failure: the exception name and innermost tool frame, if a traceback was printed."""
    import re
    o, e = w.std(p)
    t = re.findall(r'File "[^"]*/src/vss_tools/([^"]+)", line \d+, in (\w+)', e)
    x = re.findall(r"^(\w+(?:\.\w+)*(?:Error|Exception|Interrupt|Exit)?)(?::|$)", e, re.M)
    exc = x[-1].split(".")[-1] if x else "exit"
    return f"{exc}@{t[-1][0].split('/')[-1]}:{t[-1][1]}" if t else exc


# ------------------------------------------------------------------------------------------------ C04
class C04(Prop):
    runs = {"quick": 2000, "thorough": 28000}
    rule = ("one case = one run (valid or invalid model, optional log file, UID validation, earlier outputs, by-standing files) with 0-2 faults including crashes; the whole "
            "simulated disk is compared before and after, and every modifying operation is checked as it happens; non-trivial if the run performed a modifying operation")

    def gen(self, rng, i, tier):
        m = some_model(rng)
        odd = rng.random() < 0.1
        if odd:
            m, _ = gen.break_model(rng, m, ("oddname",))
        elif rng.random() < 0.25:
            m, _ = gen.break_model(rng, m)
        cs = pick_cmd(rng, m, ["apigear", "samm", "protobuf"] if odd else gen.EXPORTERS + ["id", "samm", "protobuf"])
        sc = {"models": {"A": m}, "cmd": cs, "env": env(rng), "pseed": rng.getrandbits(48), "nf": rng.choice([0, 0, 1, 1, 2]), "old": rng.random() < 0.4}
        if rng.random() < 0.3:
            cs["global"] = ["--log-file", "$R/log/run.log"] + (["--log-level", "DEBUG"] if rng.random() < 0.5 else [])
            sc["log"] = "log/run.log"
            sc["oldlog"] = rng.choice([0, 0, 50, 20_000, 2_000_000])
        if cs["exp"] == "id" and rng.random() < 0.7:
            cs["extra"] = ["--validate-static-uid", "$R/in/prev.vspec"]
            sc["prev"] = True
            if rng.random() < 0.6:
                cs["extra"].append("--validate-only")
                sc["valonly"] = True
        if rng.random() < 0.3:
            sc["env"]["cwd"] = rng.choice(["in", "out", "elsewhere"])
        sc["rel"] = rng.random() < 0.25
        return sc

    def run(self, ctx, sc):
        m = sc["models"]["A"]
        c = gen.cmd(m, sc["cmd"])

        def world():
            w = ctx.world()
            lay(w, m)
            import os
            if sc.get("prev"):
                c0 = gen.cmd(m, dict(sc["cmd"], extra=[], opts=sc["cmd"]["opts"]))
                (p,) = w.run([spec_of(c0, sc.get("env"), name="prev")])
                d = w.read(c0["files"][0])
                w.write("in/prev.vspec", d if d else "Vehicle:\n  type: branch\n  description: x\n  staticUID: '0x00000001'\n")
                for f in c0["files"]:
                    if os.path.isfile(w.p(f)):
                        os.unlink(w.p(f))
            if sc.get("old"):
                for f in c["files"]:
                    w.write(f, "old content\n" * (30 if h64(sc["pseed"]) % 3 else 30000))
            os.makedirs(w.p("log"), exist_ok=True)
            if sc.get("oldlog"):
                w.write(sc["log"], "an older record\n" * (sc["oldlog"] // 16))
            for d in ("in", "out", "cwd", "home", "tmp", "elsewhere", "log"):
                w.write(f"{d}/bystander.txt", "keep me\n")
            for f in c["files"]:
                for s in (".tmp", ".bak", "~", ".lock", ".part", ".1"):
                    w.write(f + s, "keep me too\n")
            w.write("out/.hidden", "x")
            return w
        argv = c["argv"]
        if sc.get("rel"):
            argv = [("../" + x[3:] if x.startswith("$R/") else x) for x in argv]
        if "faults" not in sc:
            sc["faults"] = []
            if sc["nf"]:
                w = world()
                (p0,) = w.run([spec_of(c, sc.get("env"), name=0, argv=argv)])
                rng = random.Random(sc["pseed"])
                for _ in range(sc["nf"]):
                    f = fl.pick(rng, p0.ops, c, 0, ("errno", "short", "full", "sigint", "crash", "crash"), logfile=sc.get("log"))
                    if f:
                        sc["faults"].append(f)
        w = world()
        before = w.snapshot()
        s = spec_of(c, sc.get("env"), name=0)
        s["argv"] = argv
        (p,) = w.run([s], sc["faults"])
        after = w.snapshot()
        allowed_files = set(c["files"]) if not sc.get("valonly") else set()
        dirs = c["dirs"] if not sc.get("valonly") else []
        if sc.get("log"):
            allowed_files.add(sc["log"])
        parents = set()
        for f in list(allowed_files) + list(dirs):
            x = f
            while "/" in x:
                x = x.rsplit("/", 1)[0]
                parents.add(x + "/")
        ctx.note(f"exit{p.exit if p.exit in (0, 1, 2) else 'other'}")

        def ok(k):
            if k in allowed_files:
                return True
            if k in parents and k not in before:
                return True
            return any(k == d + "/" or k.startswith(d + "/") for d in dirs)
        if p.opened_for_write:
            ctx.interesting = True
        for k in sorted(set(before) | set(after)):
            if before.get(k, 0) != after.get(k, 0) and not ok(k):
                what = "created" if k not in before else "deleted" if k not in after else "changed"
                ctx.fail(f"stray:{what}:{c['exp']}", f"{c['exp']}: {what} {k}, which no option names (exit {p.exit}, faults {fired(p)})", log=tail(w, p))
                return
        for path in p.opened_for_write:
            rel = path[3:] if path.startswith("$R/") else None
            if rel is None:
                continue
            if rel in before and before[rel] is not None and not ok(rel):
                ctx.fail(f"modifies:{c['exp']}", f"{c['exp']}: opens or changes {rel} for writing, which no option names as output")
                return
        if p.escapes:
            ctx.fail(f"escape:{c['exp']}", f"{c['exp']}: writes outside the simulated disk: {p.escapes[:3]}")


# ------------------------------------------------------------------------------------------------ C05
class C05(Prop):
    runs = {"quick": 1200, "thorough": 16000}
    rule = ("one case = 1-4 earlier runs into the output location (successful, failing, other models or options, killed at arbitrary operations, power loss tearing un-synced "
            "files), then the judged run, compared with the same run into a fresh location; non-trivial if an earlier run left something behind")

    def gen(self, rng, i, tier):
        exp = rng.choice(gen.EXPORTERS + ["protobuf", "apigear", "samm", "id"])
        m = some_model(rng, types=1.0 if exp == "protobuf" else rng.choice([0, 1]))
        suit(rng, m, exp)
        cs = gen.cmdspec(rng, m, exp)
        sc = {"models": {"A": m}, "cmd": cs, "env": env(rng), "pseed": rng.getrandbits(48), "prior": []}
        for k in range(rng.choice([1, 1, 2, 3, 4])):
            who = rng.choice(["A", "A", "B", "broken", "same", "near", "near"])
            if who == "near" and "N" not in sc["models"]:
                sc["models"]["N"] = gen.relocate(gen.near(rng, m), "n/")
            if who == "same" and "S" not in sc["models"]:
                sc["models"]["S"] = gen.relocate(gen.same_size(rng, m), "s/")
            if who == "B" and "B" not in sc["models"]:
                sc["models"]["B"] = gen.relocate(some_model(rng, types=1.0 if exp == "protobuf" else rng.choice([0, 1])), "b/")
            if who == "broken" and "X" not in sc["models"]:
                sc["models"]["X"] = gen.relocate(gen.break_model(rng, m)[0], "x/")
            pm = {"A": "A", "B": "B", "broken": "X", "same": "S", "near": "N"}[who]
            o = cs if rng.random() < 0.6 + 0.3 * (who in ("same", "near")) else gen.cmdspec(rng, sc["models"][pm], exp)
            o = copy.deepcopy(o)
            o["types_out"] = cs.get("types_out")
            sc["prior"].append({"m": pm, "cmd": o, "end": "ok" if who in ("near", "same") and rng.random() < 0.5 else rng.choice(["ok", "crash", "crash", "power", "fault"])})
        return sc

    def run(self, ctx, sc):
        A = sc["models"]["A"]
        c = gen.cmd(A, sc["cmd"])
        if not c["files"] and not c["dirs"]:
            return
        w = ctx.world()
        for m in sc["models"].values():
            lay(w, m)
        (p0,) = w.run([spec_of(c, sc.get("env"), name="j")])
        fresh = outputs(w, c)
        ctx.note(f"ref-exit{p0.exit}")
        if p0.exit != 0:
            return
        w = ctx.world()
        for m in sc["models"].values():
            lay(w, m)
        rng = random.Random(sc["pseed"])
        for k, pr in enumerate(sc["prior"]):
            m = sc["models"][pr["m"]]
            pc = gen.cmd(m, pr["cmd"])
            if "faults" not in pr:
                pr["faults"] = []
                if pr["end"] != "ok":
                    kinds = {"crash": ("crash",), "power": ("crash",), "fault": ("errno", "full", "sigint", "short")}[pr["end"]]
                    # place the fault on an operation of the judged run: the same files are touched
                    ref = p0.ops
                    if pr["m"] != "A":
                        w2 = core.World(w.zy, ctx.path + "/plan", "plan", {})
                        for mm in sc["models"].values():
                            lay(w2, mm)
                        (pp,) = w2.run([spec_of(pc, sc.get("env"), name="plan")])
                        ref = pp.ops
                    f = fl.pick(rng, ref, pc, f"p{k}", kinds, prefer_out=0.85)
                    if f:
                        pr["faults"] = [f]
            (p,) = w.run([spec_of(pc, sc.get("env"), name=f"p{k}")], pr["faults"])
            ctx.note("prior-killed" if p.exit != 0 and p.killed is not None else f"prior-exit{p.exit if p.exit in (0, 1) else 'other'}")
            if pr["end"] == "power" and p.killed is not None:
                w.power_loss(p, sc["pseed"] + k)
        before = outputs(w, c)
        if before:
            ctx.interesting = True
        (p,) = w.run([spec_of(c, sc.get("env"), name="j")])
        ctx.note(f"judged-exit{p.exit}")
        if p.exit != 0:
            return
        after = outputs(w, c)
        got = {k: v for k, v in after.items() if k in fresh}
        d = diff(fresh, got, "fresh location", "rerun")
        extra = sorted(k for k in after if k not in fresh and after[k] != before.get(k))
        if d or extra:
            ctx.fail(f"diverge:{c['exp']}", f"{c['exp']}: run into a used location exits 0 but leaves {d or 'other files ' + str(extra)} "
                     f"(earlier runs: {[(x['m'], x['end']) for x in sc['prior']]})", log=tail(w, p))


# ------------------------------------------------------------------------------------------------ C06
class C06(Prop):
    runs = {"quick": 1500, "thorough": 9000}
    rule = ("one case = one simulated Python process making 2-5 export (or library) calls over 1-3 models, valid and invalid, with input files replaced between calls and calls "
            "interrupted by faults, each compared with that call alone in a fresh process; non-trivial if at least one call after the first is comparable")

    def gen(self, rng, i, tier):
        nm = rng.choice([1, 2, 2, 3])
        sc = {"models": {}, "calls": [], "env": env(rng), "pseed": rng.getrandbits(48)}
        if sc["env"]["zyg"] == 3 and rng.random() < 0.5:
            sc["env"]["zyg"] = 0
        for k in range(nm):
            m = some_model(rng, size=rng.choice([3, 6, 8]), types=rng.choice([0, 0.7, 1.0]))
            if k and rng.random() < 0.35:
                m = copy.deepcopy(sc["models"]["M0"])
                m = unrelocate(m, "m0/")
            if rng.random() < 0.25 and "nodes" in m["files"].get(m["main"], {}):
                m, why = gen.break_model(rng, m, rng.choice([None, ("dropunits", "dropunitopt", "droptypes", "badunit", "baddt")]))
            sc["models"][f"M{k}"] = gen.relocate(m, f"m{k}/")
        for n in list(sc["models"]):
            # the same files with other options: fewer overlays, types, include directories, or another main file
            if rng.random() < 0.5:
                m = copy.deepcopy(sc["models"][n])
                for key, q in (("overlays", 0.8), ("types", 0.15), ("incdirs", 0.15), ("ext", 0.3), ("units", 0.1)):
                    if m[key] and rng.random() < q:
                        m[key] = rng.choice([[], m[key][:-1], m[key][1:], m[key][::-1]])
                sc["models"][n + "v"] = m
            m = sc["models"][n]
            main = m["files"].get(m["main"], {}).get("nodes")
            structs = [x for f in m["types"] for x, v in m["files"].get(f, {}).get("nodes", {}).items() if v.get("type") == "struct"]
            if main and structs and rng.random() < 0.4:
                # the same model with a signal some exporters refuse
                if rng.random() < 0.7:
                    plain(m)
                m = gen.relocate(copy.deepcopy(m), "u/")
                m["files"][m["main"]]["nodes"][next(iter(main)) + ".Odd"] = {"type": "sensor", "datatype": rng.choice(structs), "description": "Of a struct type."}
                sc["models"][n + "u"] = m
        few = rng.random() < 0.6
        exps = rng.sample(gen.EXPORTERS + ["samm", "samm", "jsonschema"], rng.choice([1, 2])) if few else gen.EXPORTERS
        for k in range(rng.choice([2, 3, 3, 4, 5])):
            n = rng.choice(sorted(sc["models"]))
            m = sc["models"][n]
            exp = rng.choice(exps)
            if sc["calls"] and sc["calls"][-1]["m"] + "u" in sc["models"] and rng.random() < 0.4:
                n, exp = sc["calls"][-1]["m"] + "u", sc["calls"][-1]["cmd"]["exp"]
                m = sc["models"][n]
            if rng.random() < 0.7 and not n.endswith("u"):
                suit(rng, m, exp)
            cs = gen.cmdspec(rng, m, exp)
            before = [q for q in sc["calls"] if q["cmd"]["exp"] == exp]
            if before and rng.random() < 0.35:
                # the same model again with other options
                n = before[-1]["m"]
                m = sc["models"][n]
                cs = gen.cmdspec(rng, m, exp)
                if rng.random() < 0.6:
                    # of which only one is new, has another value or is gone
                    old = copy.deepcopy(before[-1]["cmd"]["opts"])
                    new = [o for o in cs["opts"] if o not in old]
                    if new and rng.random() < 0.7:
                        o = rng.choice(new)
                        old = [q for q in old if q[0] != o[0]] + [o]
                    elif old:
                        old.remove(rng.choice(old))
                    cs["opts"] = old
            if rng.random() < 0.15:
                cs["global"] = ["--log-level", rng.choice(["DEBUG", "ERROR", "WARNING"])]
            if rng.random() < 0.15 and cs["exp"] != "tree":
                cs.setdefault("global", [])
                cs["global"] = cs["global"] + ["--log-file", f"$R/out/c{k}.log"]
            call = {"m": n, "cmd": cs}
            if rng.random() < 0.25:
                call["fault"] = rng.choice(["sigint", "errno", "short"])
            if k and rng.random() < 0.2:
                # the model file is edited (a new version at the same path) before this call
                m2 = copy.deepcopy(m)
                x = rng.random()
                main = m2["files"].get(m2["main"], {})
                if "nodes" in main:
                    ks = [q for q in main["nodes"] if main["nodes"][q].get("datatype")]
                    if ks:
                        q = rng.choice(ks)
                        main["nodes"][q]["description"] = "Changed before the next call"
                        if x < 0.4:
                            del main["nodes"][q]
                        call["edit"] = {m2["main"]: gen.render(m2)[m2["main"]]}
            sc["calls"].append(call)
        return sc

    def run(self, ctx, sc):
        rng = random.Random(sc["pseed"])
        state = {}
        for m in sc["models"].values():
            state.update(gen.render(m))
        calls = []
        exp = []
        for k, call in enumerate(sc["calls"]):
            m = sc["models"][call["m"]]
            c = gen.cmd(m, dict(call["cmd"], outdir=f"out/c{k}"))
            if call.get("edit"):
                state = dict(state, **{f: t for f, t in call["edit"].items() if f in state})
            w = ctx.world()
            import os
            for f, t in state.items():
                w.write(f, t)
            os.makedirs(w.p(f"out/c{k}"), exist_ok=True)
            (p,) = w.run([spec_of(c, sc.get("env"), name="alone")])
            exp.append((p.exit, outputs(w, c), c, tail(w, p), w.norm(w.std(p)[0])))
            if call.get("fault") and "faults" not in call:
                call["faults"] = []
                f = fl.pick(rng, [r for r in p.ops if r[1].startswith("$R/")], c, "s", (call["fault"],))
                if f:
                    f.pop("sticky", None)
                    call["faults"] = [f]
            calls.append({"argv": c["argv"]})
        w = ctx.world()
        import os
        for m in sc["models"].values():
            lay(w, m)
        fts, edits = [], []
        for k, call in enumerate(sc["calls"]):
            os.makedirs(w.p(f"out/c{k}"), exist_ok=True)
            fts += call.get("faults", [])
            if call.get("edit"):
                edits.append({"at": ["s", "call", k], "files": call["edit"]})
        (p,) = w.run([dict(sc.get("env") or {}, calls=calls, name="s", cpu=120)], fts, edits=edits)
        if len(p.codes) != len(calls):
            ctx.fail("session-died", f"the process making the calls died with {p.exit} after {len(p.codes)} of {len(calls)} calls", log=tail(w, p))
            return
        # a fault may hit another call than the one it was placed for (same file): find out which calls were hit
        hit = set()
        cur = 0
        nop = {n for n, _, _, _ in p.faulted}
        for n, r in enumerate(p.ops):
            if r[0] == "POINT" and r[2] > 0:
                cur += 1
            if n in nop:
                hit.add(cur)
        if len(calls) > 1:
            ctx.interesting = True
        seq = [f"{c['cmd']['exp']}({c['m']})" + ("!" if k in hit else "") for k, c in enumerate(sc["calls"])]
        for k, (code, outs, c, log, so) in enumerate(exp):
            got = p.codes[k]
            ctx.note(f"alone{min(code, 1) if isinstance(code, int) else code}-got{min(got, 1)}{'-faulted' if k in hit else ''}")
            if k in hit:
                continue
            if (code == 0) != (got == 0):
                ctx.fail(f"status:{c['exp']}:{'accepts' if got == 0 else 'rejects'}", f"call {k + 1} of {seq} exits {got} in the session, but {code} alone in a fresh process",
                         alone=log, session=tail(w, p, 1500))
                return
            if code == 0:
                d = diff(outs, outputs(w, c), "alone", "in the session")
                if d:
                    ctx.fail(f"bytes:{c['exp']}", f"call {k + 1} of {seq} writes other output than alone in a fresh process: {d}")
                    return


def unrelocate(m, prefix):
    m = copy.deepcopy(m)
    n = len(prefix)
    m["files"] = {k[n:]: v for k, v in m["files"].items()}
    m["main"] = m["main"][n:]
    for k in ("overlays", "types", "units", "quantities", "incdirs"):
        m[k] = [x[n:] for x in m[k]]
    return m


# ------------------------------------------------------------------------------------------------ C07
class C07(Prop):
    runs = {"quick": 1200, "thorough": 11000}
    rule = ("one case = 2-4 exports running concurrently under a seeded schedule of their system calls, sharing inputs and folders, some failing or killed, each surviving one "
            "compared with the same command alone; non-trivial if the schedule switched between processes at least twice")

    def gen(self, rng, i, tier):
        sc = {"models": {"A": some_model(rng, size=rng.choice([3, 6, 10]))}, "procs": [], "sched": {"seed": rng.getrandbits(48)}, "pseed": rng.getrandbits(48)}
        if rng.random() < 0.5:
            sc["models"]["B"] = gen.relocate(some_model(rng, size=rng.choice([3, 6])), "b/")
        same = rng.random() < 0.45
        e0 = rng.choice(gen.EXPORTERS)
        cwd = rng.choice(["cwd", "cwd", "out", "in"])
        for k in range(rng.choice([2, 2, 3, 4])):
            n = rng.choice(sorted(sc["models"]))
            exp = e0 if same else rng.choice(gen.EXPORTERS)
            suit(rng, sc["models"][n], exp)
            cs = gen.cmdspec(rng, sc["models"][n], exp)
            cs["tag"] = f"p{k}-"
            if rng.random() < 0.15:
                cs["global"] = ["--log-file", f"$R/out/p{k}.log"]
            pr = {"m": n, "cmd": cs, "env": dict(env(rng), cwd=cwd)}
            if rng.random() < 0.3:
                pr["end"] = rng.choice(["crash", "crash", "errno", "sigint"])
            sc["procs"].append(pr)
        return sc

    def run(self, ctx, sc):
        import os
        rng = random.Random(sc["pseed"])
        exp = []
        specs = []
        fts = []
        for k, pr in enumerate(sc["procs"]):
            m = sc["models"][pr["m"]]
            c = gen.cmd(m, pr["cmd"])
            w = ctx.world()
            for mm in sc["models"].values():
                lay(w, mm)
            name = pr["cmd"]["tag"]
            s = spec_of(c, pr["env"], name=name)
            (p,) = w.run([s])
            exp.append((p.exit, outputs(w, c), c))
            if pr.get("end") and "faults" not in pr:
                f = fl.pick(rng, p.ops, c, name, (pr["end"],), prefer_out=0.6)
                pr["faults"] = [f] if f else []
            fts += pr.get("faults", [])
            specs.append(s)
        w = ctx.world()
        for mm in sc["models"].values():
            lay(w, mm)
        ps = w.run(specs, fts, sched=sc.get("sched"))
        sc["_switch"] = w.switchlog
        if len(w.switchlog) > 2:
            ctx.interesting = True
        ctx.note("switches", len(w.switchlog))
        for p, (code, outs, c), pr in zip(ps, exp, sc["procs"]):
            if p.faulted or p.killed is not None:
                ctx.note("faulted")
                continue
            if (p.exit == 0) != (code == 0):
                ctx.fail(f"status:{c['exp']}", f"{pr['cmd']['tag']}{c['exp']} exits {p.exit} next to {[x['cmd']['tag'] + x['cmd']['exp'] for x in sc['procs'] if x is not pr]}, but {code} alone", log=tail(w, p))
                return
            if code == 0:
                d = diff(outs, outputs(w, c), "alone", "concurrently")
                if d:
                    ctx.fail(f"bytes:{c['exp']}", f"{pr['cmd']['tag']}{c['exp']} writes other output next to {[x['cmd']['tag'] + x['cmd']['exp'] for x in sc['procs'] if x is not pr]} than alone: {d}")
                    return


# ------------------------------------------------------------------------------------------------ C08
class C08(Prop):
    runs = {"quick": 750, "thorough": 12000}
    rule = ("one case = one export during which 1-3 input files are atomically replaced by new versions at seeded system calls (at most 2 replacements per file); the result must be "
            "that of one combination of versions; non-trivial if a replacement took place while the run was between its first and last access to an input")

    def gen(self, rng, i, tier):
        m = some_model(rng, include=rng.choice([0.3, 0.9]), overlay=rng.choice([0.3, 0.9]), types=rng.choice([0, 0.5, 1.0]))
        cs = pick_cmd(rng, m, ["json", "yaml", "csv", "jsonschema", "id", "protobuf", "ddsidl", "franca", "graphql", "go", "binary", "apigear", "samm"])
        sc = {"models": {"A": m}, "cmd": cs, "env": env(rng), "pseed": rng.getrandbits(48), "changes": [], "edits": None}
        rep = self.repeat(rng, m) if rng.random() < 0.25 else None
        files = [f for f in m["files"]]
        rng.shuffle(files)
        # main and included files first: they are read in several steps
        files.sort(key=lambda f: 0 if rng.random() < 0.6 and (f == m["main"] or f in m["types"] or m["files"][f].get("inc")) else 1)
        if rng.random() < 0.2:
            ch = self.cross(rng, sc["models"], rng.choice(m["units"] if m["units"] and rng.random() < 0.5 else files))
            if ch:
                sc["changes"].append(ch)
                return sc
        if rep and rng.random() < 0.7:
            files.insert(0, files.pop(files.index(rep)))
        for f in files[:rng.choice([1, 1, 2, 3])]:
            ch = self.change(rng, m, f)
            if ch:
                sc["changes"].append(ch)
        return sc

    def repeat(self, rng, m):
        """A file that is included at several places of the model."""
        main = m["files"][m["main"]]
        base = m["main"].rsplit("/", 1)[0]
        root = next(iter(main["nodes"])).split(".")[0]
        for q in "LR":
            main["nodes"][f"{root}.Rep{q}"] = {"type": "branch", "description": "Has the nodes of a file that is used twice."}
        hosts = [main] + [m["files"][o] for o in m.get("overlays", []) if o.rsplit("/", 1)[0] == base and "nodes" in m["files"][o] and rng.random() < 0.3]
        main["inc"].append(["rep.vspec", f"{root}.RepL"])
        hosts[-1].setdefault("inc", []).append([rng.choice(["rep.vspec", "rep.vspec", "./rep.vspec", f"../{base.rsplit('/', 1)[-1]}/rep.vspec"]), f"{root}.RepR"])
        m["files"][f"{base}/rep.vspec"] = {"nodes": {"Part": {"type": "branch", "description": "Part."},
                                                     "Part.One": {"type": "sensor", "datatype": "uint8", "description": "One."},
                                                     "Part.Two": {"type": "actuator", "datatype": "string", "description": "Two."}}, "inc": [], "prefixed": True}
        return f"{base}/rep.vspec"

    def cross(self, rng, models, f):
        """Two versions of a file that are wrong at different places: only a mixture of them is acceptable."""
        m = copy.deepcopy(models["A"])
        s = copy.deepcopy(m["files"][f])
        if "yaml" in s:
            ks = [k for k in s["yaml"] if "quantity" in s["yaml"][k]]
            if len(ks) < 2:
                return None
            a, b = rng.sample(ks, 2)
            bad = rng.choice([{"quantity": "nosuch"}, {"allowed-datatypes": ["nosuch"]}])
            for q in (a, b):
                if rng.random() < 0.4 and "string" not in str(s["yaml"][q].get("allowed-datatypes")):
                    s["yaml"][q].pop("allowed-datatypes", None)
                    bad = {"quantity": "nosuch"}
            one, two = copy.deepcopy(s), copy.deepcopy(s)
            one["yaml"][a].update(bad)
            two["yaml"][b].update(bad)
        elif "nodes" in s:
            ks = [k for k in s["nodes"] if s["nodes"][k].get("datatype") and s["nodes"][k].get("type") != "property"]
            if len(ks) < 2:
                return None
            a, b = rng.sample(ks, 2)
            bad = rng.choice([{"datatype": "uint7"}, {"type": "nosuch"}, {"unit": "nosuch"}])
            one, two = copy.deepcopy(s), copy.deepcopy(s)
            one["nodes"][a].update(bad)
            two["nodes"][b].update(bad)
        else:
            return None
        m["files"][f] = one
        models["A"] = m
        return {"file": f, "new": gen.render_file(two), "extra": {}}

    def change(self, rng, m, f):
        s = copy.deepcopy(m["files"][f])
        extra = {}
        if "yaml" in s:
            k = rng.choice(sorted(s["yaml"]))
            x = rng.random()
            if x < 0.15 and len(s["yaml"]) > 2:
                # names move between entries
                a, b = rng.sample(sorted(s["yaml"]), 2)
                s["yaml"][a], s["yaml"][b] = dict(s["yaml"][b]), dict(s["yaml"][a])
            elif x < 0.3:
                del s["yaml"][k]
            elif x < 0.6 and "allowed-datatypes" in s["yaml"][k]:
                s["yaml"][k]["allowed-datatypes"] = ["string"]
            else:
                s["yaml"][k]["definition"] = "Changed definition"
        elif "nodes" in s:
            ks = [k for k in s["nodes"] if s["nodes"][k].get("datatype")]
            x = rng.random()
            st = [k for k in s["nodes"] if s["nodes"][k].get("type") == "struct"]
            if st and x < 0.5:
                # a struct gets another name, goes, or comes
                k = rng.choice(st)
                below = {q: s["nodes"][q] for q in s["nodes"] if q == k or q.startswith(k + ".")}
                new = k + rng.choice(["V2", "X"]) if x < 0.35 else None
                if x < 0.45:
                    s["nodes"] = {q: v for q, v in s["nodes"].items() if q not in below}
                else:
                    new = k + "New"
                if new:
                    s["nodes"].update({new + q[len(k):]: v for q, v in below.items()})
                    for v in s["nodes"].values():
                        if str(v.get("datatype", "")).removesuffix("[]") in (k, k.rsplit(".", 1)[1]) and rng.random() < 0.7:
                            v["datatype"] = new + "[]" * v["datatype"].endswith("[]")
            elif x < 0.35 and f not in m["types"]:
                # the new version includes another file (or no longer includes one) and its nodes differ
                root = next(iter(s["nodes"])).split(".")[0] if f == m["main"] or not s.get("prefixed") else None
                if s.get("inc") and rng.random() < 0.5:
                    s["inc"] = s["inc"][1:]
                else:
                    nf = f.rsplit("/", 1)[0] + "/added.vspec"
                    top = next(iter(s["nodes"]))
                    if s.get("prefixed"):
                        s["inc"] = s.get("inc", []) + [["added.vspec", None]]
                        extra[nf] = {"nodes": {top + ".FromAdded": {"type": "sensor", "datatype": "uint8", "description": "added"}}}
                    else:
                        s["inc"] = s.get("inc", []) + [["added.vspec", top.split(".")[0]]]
                        extra[nf] = {"nodes": {"FromAdded": {"type": "sensor", "datatype": "uint8", "description": "added"}}}
                for k in ks[:2]:
                    s["nodes"][k]["description"] = "Second version."
            elif ks:
                for k in rng.sample(ks, min(len(ks), rng.randint(1, 2))):
                    s["nodes"][k]["description"] = "Second version."
                if x < 0.6:
                    k = rng.choice(ks)
                    s["nodes"][k.rsplit(".", 1)[0] + ".NewInV2"] = dict(s["nodes"][k], description="new")
                for k in ks:
                    if rng.random() < 0.3:
                        s["nodes"][k]["comment"] = "v2"
            else:
                return None
        else:
            return None
        return {"file": f, "new": gen.render_file(s), "extra": {k: gen.render_file(v) for k, v in extra.items()}}

    def run(self, ctx, sc):
        m = sc["models"]["A"]
        c = gen.cmd(m, sc["cmd"])
        if not c["files"] and not c["dirs"]:
            return
        base = gen.render(m)
        ch = [x for x in sc["changes"] if x["file"] in base]
        if not ch:
            return

        def layw(versions):
            import os
            w = ctx.world()
            lay(w, m)
            for x in ch:
                for k, t in x["extra"].items():
                    if k not in base:
                        w.write(k, t)
            for x, v in zip(ch, versions):
                if v:
                    w.write(x["file"], x["new"])
            return w
        results = []
        ref_ops = None
        for mask in range(1 << len(ch)):
            vs = [(mask >> k) & 1 for k in range(len(ch))]
            w = layw(vs)
            (p,) = w.run([spec_of(c, sc.get("env"), name=0)])
            if mask == 0:
                ref_ops = p.ops
            results.append((vs, p.exit, outputs(w, c)))
        if sc.get("edits") is None:
            rng = random.Random(sc["pseed"])
            paths = {"$R/" + f for f in base}
            idx = [n for n, r in enumerate(ref_ops) if r[1] in paths]
            sc["edits"] = []
            for k, x in enumerate(ch):
                own = [n for n, r in enumerate(ref_ops) if r[1] == "$R/" + x["file"]]
                pool = own if own and rng.random() < 0.7 else idx
                if not pool:
                    continue
                n = rng.choice(pool) + rng.choice([0, 1, 1])
                sc["edits"].append({"at": [0, n], "change": k})
                if rng.random() < 0.25 and own:
                    n2 = rng.choice([q for q in own if q >= n] or [n + 2]) + 1
                    sc["edits"].append({"at": [0, n2], "change": k, "back": 1})
        w = layw([0] * len(ch))
        edits = []
        for e in sc["edits"]:
            if e["change"] >= len(ch):
                continue
            x = ch[e["change"]]
            at = list(e["at"])
            same = [q for q in edits if q["at"] == at]
            txt = base[x["file"]] if e.get("back") else x["new"]
            if same:
                same[0]["files"][x["file"]] = txt
            else:
                edits.append({"at": at, "files": {x["file"]: txt}})
        n0 = ctx.stats.get("edits", 0)
        (p,) = w.run([spec_of(c, sc.get("env"), name=0)], edits=edits)
        if ctx.stats.get("edits", 0) > n0:
            ctx.interesting = True
        ctx.note(f"exit{p.exit}")
        if p.exit != 0:
            return
        o = outputs(w, c)
        if any(code == 0 and o == r for vs, code, r in results):
            ctx.note("matches-version", 1)
            return
        near = [(vs, diff(r, o, f"versions {vs}", "this run")) for vs, code, r in results if code == 0]
        ctx.fail(f"mixed:{c['exp']}", f"{c['exp']}: exports a mixture of versions of {[x['file'] for x in ch]} (replaced at {[e['at'][1] for e in edits]}): "
                 + ("; ".join(f"{d}" for vs, d in near[:2]) or "accepted although every combination of versions is rejected"))


def camel(k):
    return "".join(c for c in k.lower() if c.isalnum() or c == ".")


# ------------------------------------------------------------------------------------------------ C11
class C11(Prop):
    runs = {"quick": 1200, "thorough": 10000}
    rule = ("one case = a model exported to YAML, re-imported and exported again for 1-3 cycles with crashed and retried runs in between, plus one other exporter compared from "
            "original and re-imported model; non-trivial if the first export exits 0")
    # array size, aggregate and instance marks are not carried by the YAML form
    OTHERS = ["json", "csv", "jsonschema", "franca", "graphql", "id"]

    def gen(self, rng, i, tier):
        m = some_model(rng, explicit_units=1.0)
        m.pop("strict", None)
        if m.get("aborts"):
            m["aborts"] = ["name-style"]       # a listed attribute such as uuid is not part of the model
        for f in m["files"].values():
            for k, v in f.get("nodes", {}).items():
                for a in [a for a in v if v[a] == [] and a in gen.EXTRA]:
                    del v[a]                   # an empty list counts as not given
                if rng.random() < 0.15 and v.get("datatype") == "string" and "allowed" not in v:
                    v["default"] = rng.choice(["0x1F", "1_000", "12:30:45", "2020-01-01", "off", "No", "1e3", ".5", "~", "", " lead", "trail ", "0o17", "=", "<<", "null", "a: b", "#c", "é\u2028x", "\ttab"])
                if rng.random() < 0.1:
                    v["comment"] = rng.choice(["12:30", "# not a comment", "'", '"', "a\n\nb", "multi\nline\n", "- x", "? y", "|", ">", "&a", "*a", "!t", "%x", "@", "`", "\u0085", "x" * 200 + " y" * 40])
        main = m["files"][m["main"]]["nodes"]
        ib = [k for k, v in main.items() if v.get("instances") == ["Left", "Right"] or v.get("instances") == ["Front", "Rear"]]
        if ib and rng.random() < 0.12:
            # an instance whose name is taken, or that is listed twice
            b = rng.choice(ib)
            if rng.random() < 0.7:
                main[f"{b}.{rng.choice(main[b]['instances'])}"] = {"type": "branch", "description": "Not an instance.", "instantiate": False}
                main[f"{b}.{main[b]['instances'][0]}x"] = {"type": "sensor", "datatype": "uint8", "description": "x"}
            else:
                main[b]["instances"] = main[b]["instances"] + main[b]["instances"][:1]
        cs = gen.cmdspec(rng, m, "yaml")
        cs.pop("types_out", None)
        if rng.random() < 0.6:
            cs["opts"] = [o for o in cs["opts"] if o not in (["--no-expand"], ["--uuid"], ["--extend-all-attributes"])] + [["--extend-all-attributes"]]
        oc = gen.cmdspec(rng, m, rng.choice(self.OTHERS))
        oc["opts"] = [o for o in oc["opts"] if o != ["--no-expand"] and o != ["--uuid"]]
        return {"models": {"A": m}, "cmd": cs, "other": oc, "cycles": rng.choice([1, 1, 2, 3]), "env": env(rng), "pseed": rng.getrandbits(48),
                "crash": rng.choice([0, 0, 1, 2]), "typesout": rng.random() < 0.5}

    def run(self, ctx, sc):
        m = sc["models"]["A"]
        rng = random.Random(sc["pseed"])
        cs = copy.deepcopy(sc["cmd"])
        if m["types"]:
            cs["types_out"] = True
        c = gen.cmd(m, dict(cs, tag="c0-"))
        w = ctx.world()
        lay(w, m)
        (p,) = w.run([spec_of(c, sc.get("env"), name="e0")])
        ctx.note(f"exit{p.exit}")
        if p.exit != 0:
            return
        ctx.interesting = True
        prev = outputs(w, c)
        first = prev
        prevc = c
        flts = sc.setdefault("faults", None)
        if flts is None:
            flts = sc["faults"] = []
            for _ in range(sc.get("crash", 0)):
                f = fl.pick(rng, p.ops, c, "x", ("crash", "crash", "errno", "full"), prefer_out=0.8)
                if f:
                    flts.append(f)
        for k in range(1, sc["cycles"] + 1):
            m2 = dict(m, main=prevc["files"][0], overlays=[], incdirs=[])
            if m["types"]:
                m2["types"] = [prevc["files"][1]]
            ck = gen.cmd(m2, dict(cs, tag=f"c{k}-"))
            # a run that is killed or fails comes first; then the one that counts
            if flts:
                fx = []
                for f in flts[(k - 1) % len(flts):][:1]:
                    f = dict(f)
                    if f.get("path"):
                        f["path"] = f["path"].replace("c0-", f"c{k}-")
                    fx.append(f)
                w.run([spec_of(ck, sc.get("env"), name="x")], fx)
            (p,) = w.run([spec_of(ck, sc.get("env"), name=f"e{k}")])
            if p.exit != 0:
                ctx.fail("reimport", f"the YAML export of cycle {k - 1} cannot be loaded again with the same options (exit {p.exit}, {site(w, p)})", log=tail(w, p, 1500), yaml=prev[prevc["files"][0]][-1500:].decode("utf-8", "replace"))
                return
            got = outputs(w, ck)
            a = {f.replace(f"c{k}-", "c0-"): v for f, v in got.items()}
            d = diff(first, a, "first export", f"after {k} cycles")
            if d:
                ctx.fail("unstable", f"re-exporting the YAML export changes it: {d}")
                return
            prev, prevc = got, ck
        if any(o in (["--no-expand"], ["--uuid"]) for o in cs["opts"]):
            return
        if not any(o == ["--extend-all-attributes"] for o in cs["opts"]):
            return  # extra attributes outside the list given with -e are not part of the export
        import yaml
        fq = [camel(k) for k in yaml.safe_load(prev[prevc["files"][0]].decode()) or {}]
        if sc["other"]["exp"] == "graphql" and len(set(fq)) != len(fq):
            ctx.note("names-graphql-cannot-tell-apart")
            return
        self.other(ctx, sc, m, w, prevc)

    def other(self, ctx, sc, m, w, prevc):
        m2 = dict(m, main=prevc["files"][0], overlays=[], incdirs=[])
        if m["types"]:
            m2["types"] = [prevc["files"][1]]
        oc = sc["other"]
        a = gen.cmd(m, dict(oc, outdir="out/oa"))
        b = gen.cmd(m2, dict(oc, outdir="out/ob"))
        import os
        os.makedirs(w.p("out/oa"))
        os.makedirs(w.p("out/ob"))
        (pa,) = w.run([spec_of(a, sc.get("env"), name="oa")])
        (pb,) = w.run([spec_of(b, sc.get("env"), name="ob")])
        if pa.exit == 0 and pb.exit != 0:
            ctx.fail(f"other-status:{oc['exp']}", f"{oc['exp']}: exit {pa.exit} from the original model but {pb.exit} from its YAML export", log=tail(w, pb) + tail(w, pa))
            return
        ctx.note(f"other-exit{pa.exit}")
        if pa.exit == 0:
            oa = {k.replace("out/oa", "out/o"): self.canon(oc["exp"], v) for k, v in outputs(w, a).items()}
            ob = {k.replace("out/ob", "out/o"): self.canon(oc["exp"], v) for k, v in outputs(w, b).items()}
            d = diff(oa, ob, "from the original", "from the YAML export")
            if d:
                ctx.fail(f"other-bytes:{oc['exp']}", f"{oc['exp']}: output from the re-imported model differs: {d}")

    def canon(self, exp, v):
        """Output up to the order of siblings and what the YAML form does not carry."""
        if not isinstance(v, bytes):
            return v
        t = v.decode()
        if exp in ("json", "jsonschema"):
            def strip(x):
                if isinstance(x, dict):
                    return {k: (sorted(map(str, y)) if k == "required" else strip(y)) for k, y in x.items()
                            if not (exp == "jsonschema" and k in ("minItems", "maxItems", "x-aggregate", "x-instantiate", "arraysize", "aggregate", "type") and not isinstance(y, dict))}
                return [strip(y) for y in x] if isinstance(x, list) else x
            t = json.dumps(strip(json.loads(t)), sort_keys=True, indent=1)
        elif exp == "csv":
            import csv
            import io
            t = "\n".join(sorted(map(repr, csv.reader(io.StringIO(t)))))
        elif exp == "graphql":
            t = "\n".join(sorted(t.split("\n")))
        elif exp == "franca":
            t = "\n".join(sorted(x.strip(",\n]") for x in t.split("\n{")))
        return t.encode()


# ------------------------------------------------------------------------------------------------ C12
class C12(Prop):
    runs = {"quick": 900, "thorough": 14000}
    rule = ("one case = one model and command run plainly and then in 4 diagnostic configurations (log level, log file, terminal, colours, in-process neighbours) with faults on the "
            "log file and the standard streams; non-trivial if a configuration differs or a fault fired")

    def gen(self, rng, i, tier):
        m = some_model(rng)
        if rng.random() < 0.33:
            # warnings that decide: strict mode, abort options, attributes of other node types
            m, _ = gen.break_model(rng, m, rng.choice([None, ("coreattr", "strictextra", "baddesc", "badunit", "dupunit")]))
        sc = {"models": {"A": m}, "cmd": pick_cmd(rng, m, gen.EXPORTERS + ["id", "id", "yaml", "tree"]), "env": env(rng), "variants": [], "pseed": rng.getrandbits(48)}
        for k in range(4):
            v = {"g": [], "env": {}, "tty": int(rng.random() < 0.4), "magic": rng.randrange(1, 1 << 30) if rng.random() < 0.4 else 0}
            if rng.random() < 0.7:
                v["g"] += ["--log-level", rng.choice(["DEBUG", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"])]
            if rng.random() < 0.6:
                v["g"] += ["--log-file", rng.choice(["$R/log/a.log", "$R/log/a.log", "$R/out/x.log", "$R/nodir/x.log", "$R/log/é.log", "/dev/null"])]
            for n, vals in {"COLUMNS": ["1", "20", "79", "120", "200", "500", "2000", "bad"], "NO_COLOR": ["1"], "FORCE_COLOR": ["1"], "TERM": ["dumb", "xterm-256color", "unknown"], "LINES": ["1"],
                            "PYTHONWARNINGS": ["error"], "TTY_COMPATIBLE": ["1"], "JUPYTER_COLUMNS": ["30"]}.items():
                if rng.random() < (0.6 if n == "COLUMNS" else 0.3):
                    v["env"][n] = rng.choice(vals)
            v["codeset"] = rng.choice(["UTF-8", "UTF-8", "ANSI_X3.4-1968"])
            v["nf"] = rng.choice([0, 1, 1, 2])
            v["session"] = rng.random() < 0.25
            v["oldlog"] = rng.random() < 0.3
            sc["variants"].append(v)
        return sc

    def run(self, ctx, sc):
        import os
        m = sc["models"]["A"]
        plain = gen.cmd(m, sc["cmd"])
        e = dict(sc.get("env") or {})
        p0, ref, _ = alone(ctx, m, plain, e, name=0)
        rng = random.Random(sc["pseed"])
        ctx.note(f"ref-exit{p0.exit}")
        for v in sc["variants"]:
            c = gen.cmd(m, dict(sc["cmd"], **{"global": v["g"]}))
            lf = v["g"][v["g"].index("--log-file") + 1] if "--log-file" in v["g"] else None
            logrel = lf[3:] if lf and lf.startswith("$R/") else None
            ev = dict(e, env=dict(e.get("env") or {}, **v["env"]), codeset=v["codeset"], tty=v.get("tty"), magic=v.get("magic"))
            if "faults" not in v:
                v["faults"] = []
                if v["nf"]:
                    w = ctx.world()
                    lay(w, m)
                    os.makedirs(w.p("log"), exist_ok=True)
                    (pp,) = w.run([spec_of(c, ev, name=0)])
                    for _ in range(v["nf"]):
                        f = fl.pick(rng, pp.ops, c, 0, ("errno", "errno", "short", "full"), only=("std", "log"), prefer_out=0, logfile=logrel)
                        if f:
                            f.pop("pathprefix", None)
                            if f["kind"] == "full" and not f.get("path"):
                                f["path"] = "<stdout>"
                            v["faults"].append(f)
            w = ctx.world()
            lay(w, m)
            os.makedirs(w.p("log"), exist_ok=True)
            if v.get("oldlog") and logrel and not logrel.startswith("nodir"):
                w.write(logrel, "old log line\n" * (1 if len(logrel) % 2 else 3000))
            if v["session"] and not v["faults"]:
                self.session(ctx, sc, m, c, ev, w, logrel, p0, ref, v)
                if ctx.viol:
                    return
                continue
            (p,) = w.run([spec_of(c, ev, name=0)], v["faults"])
            if v["g"] or v["env"] or p.faulted:
                ctx.interesting = True
            self.judge(ctx, w, p, p.exit, c, p0, ref, v)
            if ctx.viol:
                return

    def judge(self, ctx, w, p, code, c, p0, ref, v):
        if p0.exit != 0 and code == 0:
            ctx.fail(f"accepts:{c['exp']}", f"{c['exp']}: rejected with status {p0.exit} by default, accepted with {v['g']} {v['env']} and diagnostic faults {fired(p)}", log=tail(w, p))
        elif p0.exit == 0 and code == 0:
            d = diff(ref, outputs(w, c), "default diagnostics", "this configuration")
            if d:
                ctx.fail(f"bytes:{c['exp']}", f"{c['exp']}: output depends on diagnostics {v['g']} {v['env']} {fired(p)}: {d}")
        elif p0.exit == 0 and not p.faulted and not (v["g"] and any("nodir" in x for x in v["g"])):
            if v["env"].get("PYTHONWARNINGS") or v["codeset"] != "UTF-8":
                return
            ctx.fail(f"rejects:{c['exp']}", f"{c['exp']}: exit 0 by default but {code} with {v['g']} {v['env']}", log=tail(w, p))

    def session(self, ctx, sc, m, c, ev, w, logrel, p0, ref, v):
        """Two in-process runs with different log files: each gets its own records only."""
        import os
        os.makedirs(w.p("out/second"), exist_ok=True)
        other = gen.cmd(m, dict(sc["cmd"], outdir="out/second", **{"global": ["--log-level", "DEBUG", "--log-file", "$R/log/second.log"]}))
        third = gen.cmd(m, dict(sc["cmd"], outdir="out/second", tag="third", **{"global": ["--log-level", "DEBUG"]}))
        snaps = []
        calls = [{"argv": c["argv"]}, {"argv": other["argv"]}, {"argv": third["argv"]}]
        orig = w.decide

        def decide(pr, fts):
            if pr.pending[0] == "POINT" and pr.pending[2] > 0:
                snaps.append({k: w.read(k) for k in ([logrel] if logrel else []) + ["log/second.log"]})
            return orig(pr, fts)
        w.decide = decide
        (p,) = w.run([dict(ev, calls=calls, name=0, cpu=120)])
        w.decide = orig
        if len(p.codes) < 3 or len(snaps) < 3:
            return
        ctx.interesting = True
        ctx.note("log-sessions")
        if logrel and logrel != "log/second.log" and not logrel.startswith("nodir"):
            for later, who in ((1, "second"), (2, "third")):
                if snaps[later][logrel] != snaps[0][logrel]:
                    new = (snaps[later][logrel] or b"")[len(snaps[0][logrel] or b""):]
                    ctx.fail("log-foreign", f"the log file of the first run receives records of the {who} run in the same process: {new[:120]!r}")
                    return
        if snaps[2]["log/second.log"] != snaps[1]["log/second.log"]:
            ctx.fail("log-foreign", "the log file of the second run receives records of a later run in the same process that asked for no log file")
            return
        self.judge(ctx, w, p, p.codes[0], c, p0, ref, dict(v, g=v["g"]))


# ------------------------------------------------------------------------------------------------ C13
class C13(Prop):
    runs = {"quick": 1200, "thorough": 18000}
    rule = ("one case = one run over a normal, cyclic or self-including model with persistent or repeated faults; operations, simulated waiting, lock waits, spawned processes and CPU "
            "time are bounded; non-trivial if a fault fired or the model is cyclic")

    def gen(self, rng, i, tier):
        m = some_model(rng)
        sc = {"models": {"A": m}, "env": env(rng), "pseed": rng.getrandbits(48), "nf": rng.choice([0, 1, 1, 2, 3])}
        x = rng.random()
        if x < 0.11:
            sc["cyclic"] = self.cycle(rng, m)
        elif x < 0.3:
            m, _ = gen.break_model(rng, m, rng.choice([None, ("badlink", "missingfile", "noinclude", "foreign", "foreign")]))
            sc["models"]["A"] = m
        elif x < 0.42:
            # large instance products
            main = m["files"][m["main"]]["nodes"]
            root = next(iter(main))
            main[root + ".Many"] = {"type": "branch", "description": "x", "instances": rng.choice(["Row[1,40]", ["Row[1,8]", "Pos[1,6]"], [f"I{k}" for k in range(30)], ["A[1,3]", "B[1,3]", "C[1,3]"]])}
            main[root + ".Many.Leaf"] = {"type": "sensor", "datatype": "uint8", "description": "x"}
        sc["cmd"] = pick_cmd(rng, m)
        if rng.random() < 0.3:
            sc["cmd"]["global"] = ["--log-file", "$R/out/run.log"]
        sc["locks"] = rng.random() < 0.3
        return sc

    def cycle(self, rng, m):
        main = m["files"][m["main"]]
        base = m["main"].rsplit("/", 1)[0]
        k = rng.choice(["self", "self-prefix", "pair", "overlay", "types", "deep", "struct-self", "struct-pair", "struct-deep", "struct-all", "struct-all", "deep", "wide"])
        root = next(iter(main["nodes"]))
        name = m["main"].rsplit("/", 1)[1]
        if k == "self":
            main["inc"].append([name, None])
        elif k == "self-prefix":
            main["inc"].append([name, root])
        elif k == "pair":
            main["inc"].append(["cyc.vspec", root])
            m["files"][base + "/cyc.vspec"] = {"nodes": {"Cyc": {"type": "branch", "description": "x"}}, "inc": [[name, None]], "prefixed": True}
        elif k == "overlay":
            m["files"]["in/cyov.vspec"] = {"nodes": {root: {"type": "branch", "description": "x"}}, "inc": [["cyov.vspec", None]]}
            m["overlays"].append("in/cyov.vspec")
        elif k.startswith("struct"):
            # struct types that contain themselves
            st = {"type": "struct", "description": "x"}
            n = {"struct-self": 1, "struct-pair": 2, "struct-deep": 12, "struct-all": rng.choice([3, 4])}[k]
            ty = {"Types": {"type": "branch", "description": "x"}, "Types.Cy": {"type": "branch", "description": "x"}}
            for q in range(n):
                ty[f"Types.Cy.S{q}"] = dict(st)
                if k == "struct-all":
                    # each struct has members of every other one
                    for o in range(n):
                        if o != q or rng.random() < 0.2:
                            ty[f"Types.Cy.S{q}.M{o}"] = {"type": "property", "description": "x", "datatype": f"Types.Cy.S{o}" + rng.choice(["", "", "[]"])}
                    continue
                nxt = (q + 1) % n if k != "struct-deep" or q < n - 1 else None
                ty[f"Types.Cy.S{q}.A"] = {"type": "property", "description": "x", "datatype": "uint8" if nxt is None else f"Types.Cy.S{nxt}" + rng.choice(["", "[]"])}
                ty[f"Types.Cy.S{q}.B"] = {"type": "property", "description": "x", "datatype": "uint8" if nxt is None or k != "struct-deep" else f"Types.Cy.S{nxt}"}
            m["files"]["in/cyst.vspec"] = {"nodes": ty}
            m["broken"] = 1
            m["types"] = ["in/cyst.vspec"] if rng.random() < 0.7 else m["types"] + ["in/cyst.vspec"]
            main["nodes"][root + ".UsesCy"] = {"type": "sensor", "description": "x", "datatype": "Types.Cy.S0" + rng.choice(["", "[]"])}
        elif k == "types":
            m["files"]["in/cyty.vspec"] = {"nodes": {"Types": {"type": "branch", "description": "x"}}, "inc": [["cyty.vspec", None]]}
            m["types"].append("in/cyty.vspec")
        else:
            if k == "wide":
                for q in range(rng.choice([30, 60])):
                    main["inc"].append([f"w{q}.vspec", root])
                    m["files"][f"{base}/w{q}.vspec"] = {"nodes": {f"W{q}": {"type": "branch", "description": "x"}}, "inc": [], "prefixed": True}
                return k
            n = rng.choice([10, 40, 60])
            main["inc"].append(["d0.vspec", root])
            for q in range(n):
                m["files"][f"{base}/d{q}.vspec"] = {"nodes": {f"D{q}": {"type": "branch", "description": "x"}}, "inc": [[f"d{q + 1}.vspec", None]] if q < n - 1 else [], "prefixed": True}
        return k

    def bound(self, m, p0ops):
        size = sum(len(t) for t in gen.render(m).values())
        return 6000 + 8 * len(m["files"]) + size // 8 + 6 * p0ops

    def run(self, ctx, sc):
        m = sc["models"]["A"]
        c = gen.cmd(m, sc["cmd"])
        w = ctx.world()
        lay(w, m)
        cap = 40000
        (p,) = w.run([spec_of(c, sc.get("env"), name=0, cpu=35)], max_ops=cap)
        self.judge(ctx, sc, w, p, c, m, None)
        if ctx.viol:
            return
        n0 = p.nops
        if sc.get("cyclic"):
            ctx.interesting = True
            ctx.note("cyclic-exit" + ("0" if p.exit == 0 else "nonzero"))
        if "faults" not in sc:
            sc["faults"] = []
            rng = random.Random(sc["pseed"])
            for _ in range(sc["nf"]):
                f = fl.pick(rng, p.ops, c, 0, ("errno", "errno", "short", "full", "sigint"), prefer_out=0.4)
                if f:
                    if f["kind"] == "errno" and rng.random() < 0.75:
                        if f["errno"] == "EINTR":
                            for q in range(5):
                                sc["faults"].append(dict(f, nth=f["nth"] + q))
                            continue
                        f["sticky"] = 1
                        if rng.random() < 0.3:
                            f.pop("path", None)
                            f["pathprefix"] = "$R/out"
                    sc["faults"].append(f)
        if (not sc["faults"] and not sc.get("locks")) or p.exit in ("steps", -24, -9):
            return
        if sc.get("cyclic") and n0 > 4000:
            return  # bounded by the interpreter's recursion limit: fault-free runs of this kind are checked, their faulted runs are too slow
        w = ctx.world()
        lay(w, m)
        if sc.get("locks"):
            self.locks(ctx, w, c)
        (p,) = w.run([spec_of(c, sc.get("env"), name=0, cpu=35)], sc["faults"], max_ops=cap)
        if p.faulted:
            ctx.interesting = True
        self.judge(ctx, sc, w, p, c, m, n0)

    def locks(self, ctx, w, c):
        """Left-over lock-like files of a dead process: nothing may wait for them to disappear."""
        for f in c["files"]:
            for s in (".lock", ".lck", ".pid", ".tmp"):
                w.write(f + s, "1\n")
        for f in ("out/.lock", "tmp/vspec.lock", "tmp/vss-tools.lock", "cwd/.vspec.lock", "home/.vspec.lock"):
            w.write(f, "1\n")

    def judge(self, ctx, sc, w, p, c, m, n0):
        what = f"{c['exp']}{' cyclic ' + sc['cyclic'] if sc.get('cyclic') else ''}"
        lim = self.bound(m, n0 or 0)
        if any(f.get("frac") is not None and f.get("sticky") for f in sc.get("faults") or []):
            lim += 40000
        waits = [r for r in p.ops if r[0] == "SLEEP"]
        if p.exit == "steps" or (p.nops > lim and not sc.get("cyclic")):
            ctx.fail(f"unbounded:{c['exp']}", f"{what}: {p.nops} seam operations (fault-free: {n0}), stopped there; last: {[(r[0], r[1]) for r in p.ops[-4:]]}; faults {fired(p)}")
        elif p.exit in (-24, -9) and p.killed is None:
            ctx.fail(f"cpu:{c['exp']}", f"{what}: used up its CPU limit without ending; last operations {[(r[0], r[1]) for r in p.ops[-4:]]}; faults {fired(p)}")
        elif p.maxfds > 24:
            ctx.fail(f"files:{c['exp']}", f"{what}: holds {p.maxfds} files open at once (model of {len(m['files'])} files); faults {fired(p)}")
        elif (getattr(p, "rss", 0) or 0) > (1 << 20):
            ctx.fail(f"memory:{c['exp']}", f"{what}: used {p.rss // 1024} MB of memory; faults {fired(p)}")
        elif waits:
            ctx.fail(f"waits:{c['exp']}", f"{what}: waits for the clock ({len(waits)} sleeps, {sum(r[2] for r in waits) / 1e9:.2f} s); faults {fired(p)}")
        elif any(waits_for_lock(r) for r in p.ops):
            ctx.fail(f"locks:{c['exp']}", f"{what}: waits for a lock: {[r[1] for r in p.ops if waits_for_lock(r)][:3]}")
        elif p.spawned:
            ctx.fail(f"spawns:{c['exp']}", f"{what}: starts another process")


def waits_for_lock(r):
    return r[0] == "LOCK" and not r[2] & 4


PROPS = {"C01": C01(), "C02": C02(), "C03": C03(), "C04": C04(), "C05": C05(), "C06": C06(), "C07": C07(), "C08": C08(), "C11": C11(), "C12": C12(), "C13": C13()}

import releases  # noqa: E402
PROPS["C09"] = releases.C09()
PROPS["C10"] = releases.C10()

import parsers  # noqa: E402
PROPS["C14"] = parsers.C14()
PROPS["C15"] = parsers.C15()

import lifecycle  # noqa: E402
PROPS["C16"] = lifecycle.C16()
PROPS["C17"] = lifecycle.C17()
PROPS["C18"] = lifecycle.C18()
PROPS["C19"] = lifecycle.C19()
