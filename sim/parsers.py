"""C14, C15: the real C and Go parsers of the binary format behind simulated files and memory."""
import csv
import glob
import io
import json
import os
import random
import re
import resource
import shutil
import subprocess

import faults as fl
import gen
from core import REPO, HarnessError
from ctx import alone, env, lay, spec_of, tail
from props import Prop, TRUST, some_model

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "parsers")
WRAP = ["malloc", "calloc", "realloc", "strdup", "fopen", "read"]
VALIDATE = ["write-only", "read-write", "write-only+consent", "read-write+consent"]
VCODE = {"": 0, "write-only": 1, "read-write": 2, "write-only+consent": 11, "read-write+consent": 12}
GOENV = {"GOPROXY": "off", "GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod -buildvcs=false", "GONOSUMDB": "*", "GOSUMDB": "off"}


def sh(cmd, cwd, e=None):
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, errors="replace")


def build_c(build):
    d = os.path.join(build.base, "cparser")
    shutil.copytree(os.path.join(REPO, "binary", "c_parser"), d)
    shutil.copy(os.path.join(HERE, "cdriver.c"), d)
    srcs = [f for f in sorted(glob.glob(os.path.join(d, "*.c"))) if "main(" not in open(f, errors="replace").read()] + [os.path.join(d, "cdriver.c")]
    exe = os.path.join(d, "drive")
    err = ""
    for san in (["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], []):
        for fld in ([], ["-DNO_FIELDS"]):
            r = sh(["gcc", "-g", "-O1", "-w", *san, *fld, "-o", exe, *srcs, *[f"-Wl,--wrap={w}" for w in WRAP]], d)
            if r.returncode:
                err = r.stderr
                continue
            open(os.path.join(d, "empty"), "w").close()
            if sh([exe, "empty", "o"], d).returncode == 0:
                return exe
    raise HarnessError("the C parser does not build: " + err[-2000:])


def build_go(build):
    d = os.path.join(build.base, "goparser")
    shutil.copytree(os.path.join(REPO, "binary", "go_parser"), d)
    for f in glob.glob(d + "/**/go.mod", recursive=True) + glob.glob(d + "/**/go.sum", recursive=True) + glob.glob(d + "/*.go") + glob.glob(d + "/**/*_test.go", recursive=True):
        os.unlink(f)
    with open(d + "/go.mod", "w") as f:
        f.write("module github.com/COVESA/vss-tools/binary/go_parser\n\ngo 1.14\n")
    os.mkdir(d + "/simos")
    shutil.copy(os.path.join(HERE, "simos.go"), d + "/simos/simos.go")
    shutil.copy(os.path.join(HERE, "main.go"), d + "/main.go")
    orig = {}
    for f in glob.glob(d + "/parserlib/*.go") + glob.glob(d + "/datamodel/*.go"):
        with open(f) as fh:
            orig[f] = fh.read()
    cache = os.path.join(build.base, "gocache")
    e = dict(os.environ, GOCACHE=cache, HOME=build.base, GOPATH=os.path.join(build.base, "gopath"), **GOENV)
    e["PATH"] = "/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:" + e.get("PATH", "")
    if os.path.isdir("/opt/vss/gocache"):
        shutil.copytree("/opt/vss/gocache", cache, dirs_exist_ok=True)
    exe = os.path.join(d, "drive")
    err = ""
    for seam in (True, False):
        for f, t in orig.items():
            with open(f, "w") as fh:
                fh.write(re.sub(r'(?m)^(\s*)(?:import\s+)?(?:os\s+)?"os"\s*$', lambda g: g[0].replace("os \"os\"", '"os"').replace('"os"', 'os "github.com/COVESA/vss-tools/binary/go_parser/simos"'), t) if seam else t)
        for fld in ("fields.go", "nofields.go"):
            shutil.copy(os.path.join(HERE, fld), d + "/f.go")
            r = sh(["go", "build", "-o", exe, "."], d, e)
            if r.returncode == 0:
                return exe
            err = r.stderr
    raise HarnessError("the Go parser does not build: " + err[-2000:])


# ------------------------------------------------------------------ reference: the exported model as the JSON export shows it
class T:
    def __init__(self, name, d, parent):
        self.name, self.parent = name, parent
        self.path = name if parent is None else parent.path + "." + name
        self.type = d["type"]
        g = lambda k: str(d[k]) if k in d else ""  # noqa
        self.validate = VCODE.get(g("validate"), 0)
        leafy = self.type != "branch"
        self.fields = [name, g("uuid"), g("description"), g("datatype") if leafy else "", g("unit") if leafy else "", g("min"), g("max"), g("default")]
        self.allowed = [str(x) for x in d.get("allowed", [])]
        self.kids = [T(k, v, self) for k, v in d.get("children", {}).items()]

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


def ref_search(root, path, any_, leaf, maxn, noscope):
    """-> (nodes, validation or None), or None if the query has no specified result."""
    segs = path.split(".")
    D = len(segs)
    maxd = 100 if any_ else D
    ns = set(noscope)
    firstwild = next((i for i, s in enumerate(segs, 1) if s == "*"), None)
    val = [0]
    undefined = []
    exact = [False]

    def seg(d):
        return segs[d - 1] if d <= D else ("*" if path.endswith("*") and any_ else "")

    def visit(n, d):
        s = seg(d)
        if s != "*" and s != n.name:
            return [], False
        v = n.validate
        val[0] = max(val[0] % 10, v % 10) + (10 if val[0] >= 10 or v >= 10 else 0)
        under = firstwild is not None and d >= firstwild
        full = (not n.kids and d >= D) or d == maxd
        if d == D:
            exact[0] = True
        out = [n]
        if not (not n.kids or d == maxd or n.path in ns):
            for k in n.kids:
                if seg(d + 1) in ("*", k.name):
                    o, f = visit(k, d + 1)
                    out += o
                    full |= f
        if under and not full:
            return [], False
        if not under and d < D and n.type != "branch":
            undefined.append(n)
        return out, full
    out, _ = visit(root, 1)
    if undefined or (not leaf and firstwild is None and not exact[0]) or (segs[0] not in ("*", root.name)):
        return None
    if leaf:
        out = [n for n in out if n.type != "branch"]
    plain = firstwild is None or (any_ and firstwild == D)
    return out[:maxn], val[0] if plain and not ns else None


def dec(s):
    return "" if s == "-" else re.sub(r"%([0-9A-F]{2})", lambda g: chr(int(g[1], 16)), s[1:]).encode("latin-1").decode("utf-8", "surrogateescape")


LISTRE = re.compile(r'\{"([^"]+)",\s*"([^"]*)"\}|\{"path":\s*"([^"]*)",\s*"uuid":\s*"([^"]*)"\}')


class Parser(Prop):
    runs = {"quick": 900, "thorough": 16000}
    assumptions = TRUST + ["node paths of at most 511 characters and trees of at most 99 levels, the limits of the parser API",
                           "the JSON export of the same simulated disk content is the reference for what was exported"]
    lang = ""
    cfaults = True

    def gen(self, rng, i, tier):
        m = some_model(rng, allow_types=False) if False else self.model(rng)
        return {"models": {"A": m}, "uuid": rng.random() < 0.5, "env": env(rng), "torn": rng.random() < 0.3, "pseed": rng.getrandbits(40), "nsteps": rng.choice([4, 8, 14]),
                "_keep1": ("models",)}

    def model(self, rng):
        f = gen.swarm(rng, None, struct=0, types=0)
        m = gen.gen_model(rng, f, rng.choice([1, 3, 6, 12, 25]), allow_types=False)
        main = m["files"][m["main"]]["nodes"]
        root = next(iter(main))
        r = rng.random()
        if r < 0.15:      # many children
            main[root + ".Wide"] = {"type": "branch", "description": "wide"}
            for q in range(rng.choice([40, 127, 128, 200, 255])):
                main[f"{root}.Wide.S{q}"] = {"type": "sensor", "datatype": "uint8", "description": f"n {q}"}
        elif r < 0.3:     # deep
            p = root
            for q in range(rng.choice([12, 18, 19, 22, 40])):
                p += f".D{q}"
                main[p] = {"type": "branch", "description": "deep"}
                if rng.random() < 0.5:
                    main[f"{p}.X"] = {"type": "sensor", "datatype": "uint8", "description": "x"}
            main[f"{p}.End"] = {"type": "sensor", "datatype": "uint8", "description": "end"}
        elif r < 0.4:     # long names
            n = rng.choice([63, 64, 98, 99, 100, 101, 128, 255])
            main[root + "." + ("L" * n)] = {"type": "branch", "description": "long"}
            main[root + "." + ("L" * n) + "." + ("S" * rng.choice([5, 99, 100, 200]))] = {"type": "sensor", "datatype": "uint8", "description": "x"}
        elif r < 0.6:     # same names at several depths and below several branches
            for b in rng.sample(["A", "B", "C", "X", "Z"], rng.randint(2, 5)):
                main[f"{root}.{b}"] = {"type": "branch", "description": "b"}
                for x in rng.sample(["X", "Y", "A", "Z"], rng.randint(0, 3)):
                    if rng.random() < 0.5:
                        main[f"{root}.{b}.{x}"] = {"type": "sensor", "datatype": "int8", "description": "x"}
                    else:
                        main[f"{root}.{b}.{x}"] = {"type": "branch", "description": "x"}
                        for y in rng.sample(["X", "Y", "A"], rng.randint(0, 2)):
                            main[f"{root}.{b}.{x}.{y}"] = {"type": "actuator", "datatype": "int8", "description": "x"}
        if rng.random() < 0.25:     # names that begin alike
            for b in rng.sample(["Cab", "Cabin", "Ca", "CabinDoor", "cab"], rng.randint(2, 4)):
                main[f"{root}.{b}"] = {"type": "branch", "description": "b"}
                for x in rng.sample(["Do", "Door", "D", "DoorLeft"], rng.randint(1, 3)):
                    main[f"{root}.{b}.{x}"] = {"type": "sensor", "datatype": "int8", "description": "x"}
        if rng.random() < 0.25:
            n = rng.choice([1, 30, 254, 255, 256, 300])
            main[root + ".Enum"] = {"type": "attribute", "datatype": "string", "description": "e", "allowed": [f"V{q}" for q in range(n)]}
            if rng.random() < 0.5:
                main[root + ".Enum"]["allowed"].append(rng.choice(["L" * 63, "L" * 64, "L" * 65, "L" * 255, "é" * 100]))
        if rng.random() < 0.12:
            # many bytes of allowed values: the lengths of the binary format are 16 bit
            n, q = rng.choice([(140, 235), (160, 200), (250, 131), (255, 255), (255, 128), (130, 255), (240, 250), (170, 192), (256, 127), (256, 253), (257, 128), (300, 120), (400, 90),
                               (600, 60), (1000, 40), (2000, 20), (3000, 19), (5000, 8), (511, 126), (512, 125)])
            main[root + ".Big"] = {"type": "attribute", "datatype": "string", "description": "b", "allowed": [f"{x:04d}" + "v" * (q - 4) for x in range(n)]}
        if rng.random() < 0.25:
            main[root + ".Text"] = {"type": "attribute", "datatype": "string", "description": rng.choice(["d" * 255, "d" * 256, "é" * 2000, "d" * 65535]),
                                    "default": rng.choice(["x" * 255, "x", "", "0"])}
        has = rng.random() < 0.6
        for fl_ in m["files"].values():
            for v in fl_.get("nodes", {}).values():
                if any(not isinstance(x, str) for x in v.get("allowed", [])):
                    v.pop("allowed")
                if has and rng.random() < 0.3 and not v.get("delete"):
                    v["validate"] = rng.choice(VALIDATE)
        m["ext"] = sorted(set(m["ext"]) | {"validate"})
        return m

    # -------------------------------------------------------------- steps
    def steps(self, rng, sc, root, size):
        nodes = list(root.walk())
        leaves = [n for n in nodes if n.type != "branch"]
        branches = [n for n in nodes if n.kids]
        s = []

        def read():
            d = {"op": "read", "file": "good"}
            r = rng.random()
            if r < 0.3:
                d["file"] = rng.choice(["cut", "cut", "cut", "missing", "dir", "empty", "torn"])
                if d["file"] == "cut":
                    d["at"] = rng.randrange(max(1, size))
            elif r < 0.45:
                d["eio"] = rng.choice([0, 1, size - 1, size, rng.randrange(size), rng.randrange(size)])
            elif r < 0.6 and self.cfaults:
                d["mallocfail"] = rng.randrange(max(1, 8 * len(nodes)))
            if rng.random() < 0.5:
                d["chunk"] = rng.choice([1, 2, 7, 100, 4096])
            if self.cfaults and rng.random() < 0.3:
                d["eintr"] = rng.choice([2, 5, 20])
            if self.cfaults and rng.random() < 0.7:
                d["poison"] = rng.choice([0, 1, 0x41, 0xA5, 255, 256])
            d["seed"] = rng.getrandbits(31)
            return d

        def search():
            a = rng.random() < 0.5
            lf = rng.random() < 0.7
            r = rng.random()
            ns = []
            if r < 0.25:
                p = rng.choice(leaves or nodes).path
            elif r < 0.35:
                p = rng.choice(nodes).path
            elif r < 0.55:
                p = rng.choice(branches or nodes).path + ".*"
            elif r < 0.6:
                p = "*"
            elif r < 0.65:
                p = rng.choice(branches or nodes).path + ".NoSuch"
            else:
                q = rng.choice(nodes).path.split(".")
                for _ in range(rng.randint(1, 2)):
                    q[rng.randrange(1 if len(q) > 1 and rng.random() < 0.8 else 0, len(q))] = "*"
                if rng.random() < 0.2:
                    q.append("*")
                p = ".".join(q)
            if rng.random() < 0.15 and branches:
                ns = [n.path for n in rng.sample(branches, min(len(branches), rng.randint(1, 3)))]
                for j in range(len(ns)):      # paths that are no node, or resemble one
                    g = rng.random()
                    if g < 0.2:
                        ns[j] = ns[j][:rng.randint(1, len(ns[j]))].rstrip(".") or root.path
                    elif g < 0.3:
                        ns[j] += rng.choice(["X", ".", ".*", "."  + "No"])
                    elif g < 0.4:
                        ns[j] = rng.choice(nodes).path
                    elif g < 0.45:
                        ns[j] = rng.choice(["*", "No", ns[j].lower(), ns[j].upper(), ns[j].split(".")[-1]])
            return {"op": "search", "path": p, "any": int(a), "leaf": int(lf), "max": rng.choice([1500, 1500, len(nodes), 1, 2, 5, max(1, len(leaves) - 1)]), "noscope": ns}
        if rng.random() < 0.8:
            s.append({"op": "read", "file": "good", "seed": 1, **({"poison": rng.choice([165, 256, 0x31])} if self.cfaults else {})})
        for _ in range(sc["nsteps"]):
            r = rng.random()
            if r < 0.45:
                s.append(read())
            elif r < 0.75:
                s.append(search())
            elif r < 0.83:
                s.append({"op": rng.choice(["leaflist", "uuidlist"]), "old": rng.random() < 0.4})
            elif r < 0.93:
                s.append({"op": "write", "old": rng.random() < 0.4, "over": rng.random() < 0.2})
            else:
                s.append({"op": "walk"})
        if rng.random() < 0.8:
            s.append({"op": "read", "file": "good", "seed": 1})
            s.append(search())
            s.append({"op": rng.choice(["leaflist", "uuidlist", "write"]), "old": True})
        return s

    # -------------------------------------------------------------- run
    def run(self, ctx, sc):
        m = sc["models"]["A"]
        o = [["--uuid"]] if sc["uuid"] else []
        cb = gen.cmd(m, {"exp": "binary", "opts": o})
        cj = gen.cmd(m, {"exp": "json", "opts": o + [["--extend-all-attributes"]]})
        w = ctx.world()
        lay(w, m)
        cc = gen.cmd(m, {"exp": "csv", "opts": []})
        pb, pj, pc = w.run([spec_of(cb, sc["env"], name="b"), spec_of(cj, sc["env"], name="j"), spec_of(cc, sc["env"], name="c")])
        if pb.exit != 0 or pj.exit != 0 or pc.exit != 0:
            ctx.note("not-exported")
            return
        data = w.read(cb["files"][0])
        root = T(*next(iter(json.loads(w.read(cj["files"][0])).items())), None)
        # the JSON export sorts by name, the CSV export shows the order of the model
        rows = [r[0] for r in csv.reader(io.StringIO(w.read(cc["files"][0]).decode(), newline=""))]
        order = {r: i for i, r in enumerate(rows)}
        if len(order) != len(rows):
            ctx.note("ambiguous-names")  # a sibling named like an instance: the JSON reference shows only one of them
            return
        for n in root.walk():
            n.kids.sort(key=lambda k: order[k.path])
        nodes = list(root.walk())
        if max(len(n.path.encode()) for n in nodes) > 511 or max(n.path.count(".") for n in nodes) > 98:
            ctx.note("beyond-limits")
            return
        # what a killed export leaves behind
        if sc["torn"] and "crash" not in sc:
            f = fl.pick(random.Random(sc["pseed"]), pb.ops, cb, "b", ("crash",), only=("out",), prefer_out=1.0)
            sc["crash"] = [f] if f else []
        if sc.get("crash"):
            (pk,) = w.run([spec_of(cb, sc["env"], name="b")], sc["crash"])
            torn = w.read(cb["files"][0]) or b""
            if pk.killed is not None:
                ctx.note("killed-exports")
                if torn != data and sc["pseed"] % 2:
                    w.power_loss(pk, sc["pseed"])
                    torn = w.read(cb["files"][0]) or b""
        else:
            torn = data[:len(data) // 2]
        if not data.startswith(torn):
            torn = b""
        rng = random.Random(sc["pseed"] + 1)
        if "steps" not in sc:
            sc["steps"] = self.steps(rng, sc, root, len(data))
        self.drive(ctx, sc, w, data, torn, root, nodes)

    def drive(self, ctx, sc, w, data, torn, root, nodes):
        d = os.path.join(w.meta, "drv")
        os.makedirs(d + "/isdir")
        script, want = [], []

        def put(name, content):
            with open(f"{d}/{name}", "wb") as f:
                f.write(content)
        put("good", data)
        put("empty", b"")
        put("torn", torn)
        have = False
        for n, s in enumerate(sc["steps"]):
            if s["op"] == "read":
                file = s["file"]
                ok = True
                if file == "cut":
                    put(f"cut{n}", data[:s["at"] % max(1, len(data))])
                    file, ok = f"cut{n}", False
                elif file == "torn":
                    ok = torn == data
                elif file == "dir":
                    file, ok = "isdir", False
                elif file in ("missing", "empty"):
                    ok = False
                for k, dflt in (("seed", 1), ("chunk", 0), ("eintr", 0), ("eio", -1), ("poison", -1), ("mallocfail", -1)):
                    script.append(f"set\t{k}\t{s.get(k, dflt)}")
                script.append(f"read\t{file}")
                want.append(("read", s, ok))
                have |= ok and "eio" not in s and "mallocfail" not in s
            elif s["op"] == "search":
                if len(s["path"].encode()) > 511:
                    continue
                script.append("\t".join(["search", s["path"], str(s["any"]), str(s["leaf"]), str(s["max"])] + s["noscope"]))
                want.append(("search", s, None))
            elif s["op"] in ("leaflist", "uuidlist"):
                if s.get("old"):
                    put(f"list{n}", b"x" * (200 + 60 * len(nodes)))
                script.append(f"{s['op']}\tlist{n}")
                want.append((s["op"], s, f"list{n}"))
            elif s["op"] == "write":
                t = "good" if s.get("over") and have else f"tree{n}"
                if s.get("old") and t != "good":
                    put(t, data + b"junk" * 50)
                script.append(f"write\t{t}")
                want.append(("write", s, t))
                if have:
                    script += [f"set\t{k}\t{v}" for k, v in (("chunk", 0), ("eintr", 0), ("eio", -1), ("poison", -1), ("mallocfail", -1))]
                    script.append(f"read\t{t}")
                    want.append(("read", {"op": "reread", "file": t}, True))
            else:
                script.append("walk")
                want.append(("walk", s, None))
        put("script", ("\n".join(script) + "\n").encode())

        def lim():
            resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
        try:
            r = subprocess.run([self.exe(ctx), "script", "result"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120, preexec_fn=lim,
                               env={"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0", "GOMAXPROCS": "1", "PATH": "/usr/bin:/bin"})
        except subprocess.TimeoutExpired:
            raise HarnessError("the parser did not end within 120 s of real time")
        st = ctx.stats
        st["procs"] = st.get("procs", 0) + 1
        st["ops"] = st.get("ops", 0) + len(script)
        with open(d + "/result", "rb") as f:
            lines = f.read().decode("ascii", "replace").split("\n")
        res, cur = [], None
        z = None
        for ln in lines:
            if ln.startswith("C "):
                cur = []
                res.append(cur)
            elif ln.startswith("Z "):
                z = [int(x) for x in ln.split()[1:]]
            elif ln and cur is not None:
                cur.append(ln)
        w.digest.update(repr(lines).encode())
        ctx.interesting = True
        ctx.ids.append(str(hash_lines(script, len(data), lines)))
        flt = st.setdefault("faults", {})
        for k, v in zip(("short-read", "EIO@READ", "alloc-failure", "EINTR@READ", "poisoned-alloc"), z or []):
            if v:
                flt[k] = flt.get(k, 0) + v
        if r.returncode != 0:
            i = max(0, len(res) - 1)
            kind, s, _ = want[i] if i < len(want) else ("end", {}, None)
            why = [x for x in r.stderr.decode("utf-8", "replace").split("\n") if re.search(r"ERROR|runtime error|panic|goroutine|SIGSEGV|signal|#[0-6] ", x)][:8]
            pl = [x for x in lines if x.startswith("P ")]
            ctx.fail(f"crash:{kind}", f"the {self.lang} parser ends with status {r.returncode} during {s}: {' | '.join(why)[:700]} {dec(pl[0].split()[1]) if pl else ''}")
            return
        loaded = False
        for (kind, s, x), out in zip(want, res):
            errs = [o for o in out if o.startswith("E ")]
            if errs:
                ctx.fail("tree", f"the {self.lang} parser: {errs[0][2:]} after {s}")
                return
            if kind == "read":
                ok, fired = (int(v) for v in out[0].split()[1:])
                if x and fired:
                    ctx.note("faulted-reads")
                if not x:
                    ctx.note("incomplete-files")
                if ok and not x:
                    ctx.fail("incomplete-accepted", f"the {self.lang} parser presents an incomplete file as a tree: {s}, file of {len(data)} bytes, torn {len(torn)}")
                elif ok and fired:
                    # an error that the parser could repair is fine if the result is the complete tree
                    self.compare(ctx, out[1:], nodes, s)
                elif not ok and x and not fired:
                    ctx.fail("complete-rejected", f"the {self.lang} parser rejects a complete file: {s}")
                elif ok:
                    self.compare(ctx, out[1:], nodes, s)
                loaded |= bool(ok)
            elif not loaded:
                pass
            elif kind == "walk":
                self.compare(ctx, out, nodes, s)
            elif kind == "search":
                self.judge_search(ctx, out, root, nodes, s)
            elif kind in ("leaflist", "uuidlist"):
                self.judge_list(ctx, out, f"{d}/{x}", kind, nodes, s)
            elif kind == "write":
                with open(f"{d}/{x}", "rb") as f:
                    got = f.read()
                ctx.note("written-back")
                if x != "good" and got != data or (x == "good" and got != data):
                    p = next((q for q, (a, b) in enumerate(zip(got, data)) if a != b), min(len(got), len(data)))
                    ctx.fail("write-back", f"the {self.lang} parser writes the tree back differently: {len(got)} instead of {len(data)} bytes, first difference at {p}: {got[max(0, p - 20):p + 20]!r} instead of {data[max(0, p - 20):p + 20]!r}")
            if ctx.viol:
                return

    def compare(self, ctx, out, nodes, s):
        ns = [o.split() for o in out if o.startswith("N ")]
        if len(ns) != len(nodes):
            ctx.fail("tree", f"the {self.lang} parser returns {len(ns)} nodes instead of {len(nodes)} after {s}")
            return
        idx = {id(n): i for i, n in enumerate(nodes)}
        allowed = {}
        for o in out:
            if o.startswith("A "):
                _, i, v = o.split()
                allowed.setdefault(int(i), []).append(dec(v))
        for i, (g, n) in enumerate(zip(ns, nodes)):
            exp = [str(i), str(idx[id(n.parent)] if n.parent else -1), n.type, str(n.validate), str(len(n.kids))]
            got = [dec(v) for v in g[6:]]
            if g[1:6] != exp:
                ctx.fail("tree", f"the {self.lang} parser: node {n.path}: index, parent, type, validate, children are {g[1:6]} instead of {exp} after {s}")
            elif got != n.fields[:len(got)]:
                k = next(j for j in range(len(got)) if got[j] != n.fields[j])
                what = ["name", "uuid", "description", "datatype", "unit", "min", "max", "default"][k]
                ctx.fail("tree", f"the {self.lang} parser: {what} of {n.path} is {got[k][:80]!r} instead of {n.fields[k][:80]!r} after {s}")
            elif n.type != "branch" and allowed.get(i, []) != n.allowed:
                ctx.fail("tree", f"the {self.lang} parser: allowed values of {n.path} are {allowed.get(i, [])[:5]} ({len(allowed.get(i, []))}) instead of {n.allowed[:5]} ({len(n.allowed)}) after {s}")
            if ctx.viol:
                return

    def judge_search(self, ctx, out, root, nodes, s):
        r = ref_search(root, s["path"], s["any"], s["leaf"], s["max"], s["noscope"])
        _, k, val = out[0].split()
        got = [(int(o.split()[1]), dec(o.split()[2])) for o in out if o.startswith("M ")]
        if int(k) != len(got):
            ctx.fail("search", f"the {self.lang} parser: search {s} reports {k} results, {len(got)} fit the buffer")
            return
        for i, p in got:
            if not (0 <= i < len(nodes)) or nodes[i].path != p:
                ctx.fail("search", f"the {self.lang} parser: search {s} returns path {p} with the node {nodes[i].path if 0 <= i < len(nodes) else 'outside of the tree'}")
                return
        if r is None:
            ctx.note("unspecified-searches")
            return
        ctx.note("searches")
        exp, v = r
        if [p for _, p in got] != [n.path for n in exp]:
            ctx.fail("search", f"the {self.lang} parser: search {s} returns {[p for _, p in got][:12]} instead of {[n.path for n in exp][:12]}")
        elif v is not None and int(val) != v:
            ctx.fail("validation", f"the {self.lang} parser: search {s} returns validation {val} instead of {v}")

    def judge_list(self, ctx, out, file, kind, nodes, s):
        leaves = [n for n in nodes if n.type != "branch"]
        k = int(out[0].split()[1])
        with open(file, errors="surrogateescape") as f:
            t = f.read()
        ctx.note("lists")
        if kind == "leaflist":
            try:
                got = json.loads(t)["leafpaths"]
            except (ValueError, KeyError, TypeError):
                ctx.fail("list", f"the {self.lang} parser: the leaf list is not valid: {t[-120:]!r}")
                return
            exp = [n.path for n in leaves]
        else:
            if not t.startswith('{"leafuuids":[') or not t.endswith("]}"):
                ctx.fail("list", f"the {self.lang} parser: the uuid list is not valid: {t[-120:]!r}")
                return
            got = [(g[1] or g[3] or "", (g[2] if g[1] else g[4]) or "") for g in LISTRE.finditer(t)]
            exp = [(n.path, n.fields[1]) for n in leaves]
        if got != exp or k != len(exp):
            ctx.fail("list", f"the {self.lang} parser: {kind} reports {k} entries, {got[:6]} ({len(got)}) instead of {exp[:6]} ({len(exp)})")


def hash_lines(*a):
    from core import h64
    return f"{h64(*a):016x}"


class C14(Parser):
    lang = "C"
    rule = ("one case = one exported model and a history of parser calls (reads of complete, truncated, torn, missing and unreadable files with split, interrupted and failing reads, "
            "poisoned and failing allocations; searches, lists, write-backs) against the tree that the JSON export of the same disk shows; distinct = hash of script, file and results")
    real = ["all of binary/c_parser/cparserlib.c, compiled with address and undefined-behaviour sanitizers", "the binary and JSON exporters, run under the simulator"]
    stub = ["stdio streams (fopencookie) and read(2): split, EINTR, EIO", "malloc family: poisoned content, nth failure", "truncation and torn files"]

    def prepare(self, build):
        build.cexe = build_c(build)

    def exe(self, ctx):
        return ctx.build.cexe


class C15(Parser):
    lang = "Go"
    cfaults = False
    rule = C14.rule.replace("split, interrupted and failing reads, poisoned and failing allocations", "split and failing reads")
    real = ["all of binary/go_parser/parserlib and datamodel (import of os redirected in a scratch copy)", "the binary and JSON exporters, run under the simulator"]
    stub = ["os.File.Read: split reads and EIO at any offset", "truncation and torn files"]

    def prepare(self, build):
        build.goexe = build_go(build)

    def exe(self, ctx):
        return ctx.build.goexe
