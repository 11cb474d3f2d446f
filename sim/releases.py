"""C09, C10: histories of model releases with published static UIDs, crashes and retries."""
import copy
import os
import random
import shutil

import yaml

import faults as fl
import gen
import ref
from ctx import env, outputs, spec_of, tail
from props import Prop, fired

COLLIDE = {
    False: [("SeatWindowWheel44712", "CabinLightDoor53379"), ("LightMotorAxle54495", "BatteryChassisBattery63038"), ("SpeedSpeedTire65754", "ChassisSpeedDoor114686"),
            ("BatteryCabinMotor57543", "LightBatteryAxle125194"), ("MotorChassisChassis27196", "WindowSeatSpeed126384"), ("MotorWindowChassis104390", "WheelCabinDoor128924")],
    True: [("ChassisWheelWheel17243", "WindowSpeedSeat36710"), ("SpeedAxleWheel85951", "TireBatteryAxle102572"), ("SeatChassisBattery99133", "LightLightAxle129054"),
           ("CabinCabinWheel32297", "AxleLightChassis165987"), ("SeatChassisWheel162609", "AxleWindowLight181855"), ("ChassisWindowSpeed40893", "TireWindowWindow183382")],
}


# ------------------------------------------------------------------ how a model changes between releases
def absolute_files(m):
    return [f for f in [m["main"]] + m["overlays"] if "nodes" in m["files"].get(f, {})]


def sites(m, leaf=True, only_main=False):
    out = []
    for fn in ([m["main"]] if only_main else absolute_files(m)):
        for k, v in m["files"][fn]["nodes"].items():
            if "." in k and (("datatype" in v) if leaf else v.get("type") == "branch") and not v.get("delete"):
                out.append((fn, k))
    return out


def under_instances(m, k):
    main = m["files"][m["main"]]["nodes"]
    p = k
    while "." in p:
        p = p.rsplit(".", 1)[0]
        if main.get(p, {}).get("instances"):
            return True
    return False


def rekey(nodes, f):
    items = [(f(k), v) for k, v in nodes.items()]
    nodes.clear()
    nodes.update(items)


def rename(m, old, new):
    """Everywhere, with everything below."""
    def f(k):
        return new + k[len(old):] if k == old or k.startswith(old + ".") else k
    for fn in absolute_files(m):
        rekey(m["files"][fn]["nodes"], f)
        for i in m["files"][fn].get("inc", []):
            if i[1]:
                i[1] = f(i[1])


def set_all(m, k, fn):
    for f in absolute_files(m):
        v = m["files"][f]["nodes"].get(k)
        if v is not None:
            fn(v)


def names(m):
    return {k for f in absolute_files(m) for k in m["files"][f]["nodes"]}


def mutate(rng, m, cs, f):
    """One edit; returns its label."""
    main = m["files"][m["main"]]["nodes"]
    root = next(iter(main))
    ops = ["desc", "desc", "descspace", "longallowed", "meta", "unit", "minmax", "allowed", "datatype", "type", "rename-fka", "rename-fka", "rename", "renamebranch", "case", "add", "add", "delete",
           "deleteflag", "freeze", "const", "layout", "split", "reorder", "fkaorder", "fkaadd", "extra", "unitalias", "default", "swapname", "nestroot"]
    if rng.random() < 0.03:
        ops = ["collide", "dupconst", "dupcase", "dupfka"]
    op = rng.choice(ops)
    lv = sites(m)
    k = rng.choice(lv)[1] if lv else None
    if k is None and op not in ("add", "reorder", "collide"):
        op = "add"
    cur = {}
    if k:
        for fn in absolute_files(m):
            cur.update(m["files"][fn]["nodes"].get(k, {}))
    last = [fn for fn in absolute_files(m) if k in m["files"][fn]["nodes"]]

    def put(**kv):
        for n, v in kv.items():
            set_all(m, k, lambda d: d.pop(n, None))
            if v is not None:
                m["files"][rng.choice(last[-1:])]["nodes"][k][n] = v
    num = cur.get("datatype") in gen.RANGE or cur.get("datatype") in gen.FLOATS
    if op == "desc":
        put(description=rng.choice(gen.TEXTS) + rng.choice(["", " v2", "é"]))
    elif op == "descspace" and cur.get("description"):
        # the same words, written in another way
        t = str(cur["description"])
        put(description=rng.choice([t + " ", " " + t, t.replace(" ", "  ", 1), t.replace(" ", "\n", 1), t + "\n", t.upper(), t.lower(), t.rstrip("."), t + ".", t.replace(" ", "\u00a0", 1),
                                    t.replace("é", "e\u0301"), t.strip(), t.replace("-", "_"), t + "\u200b"]) or "x")
    elif op == "longallowed" and cur.get("datatype") == "string":
        al = list(cur.get("allowed") or [])
        if len(al) < 9:
            al = [f"OPT_{q}" for q in range(rng.randint(9, 20))]
        else:
            al = rng.choice([al[:-1], al + ["LAST"], al[:-1] + ["Z" + al[-1]], al[::-1], al[:9] + ["MID"] + al[9:], [al[0].lower()] + al[1:]])
        put(allowed=al, default=None)
    elif op == "meta":
        put(comment=rng.choice(gen.TEXTS), deprecation=rng.choice([None, "V5 removed", "V6 moved"]))
    elif op == "extra":
        m["files"][last[-1]]["nodes"][k][rng.choice(gen.EXTRA)] = rng.choice(["t", 3, ["a"]])
    elif op == "unit" and num:
        put(unit=rng.choice([None, "km", "mm", "V", "percent", "s"]))
    elif op == "unitalias" and num and cur.get("unit") in gen.UNITS:
        put(unit=gen.UNITS[cur["unit"]][1])
    elif op == "minmax" and num and not cur.get("allowed"):
        z = [None, 0, -1, 1, 5] + ([0.0, -0.5] if cur.get("datatype") in gen.FLOATS else [])
        x = rng.random()
        if x < 0.4:
            put(min=rng.choice(z), default=None)
        elif x < 0.8:
            put(max=rng.choice([None, 0, 0, 100, 101]), default=None)
        else:
            put(min=rng.choice(z), max=rng.choice([None, 100, 101, 0]), default=None)
    elif op == "allowed" and cur.get("datatype") == "string":
        put(allowed=rng.choice([None, ["A", "B"], ["B", "A"], ["A", "B", "C"], ["it's", "x"], ["a", "B"]]), default=None)
    elif op == "default" and not cur.get("allowed") and cur.get("min") is None and cur.get("max") is None and cur.get("datatype") in gen.RANGE:
        put(default=rng.choice([None, 1, 7]))
    elif op == "datatype":
        put(unit=None, min=None, max=None, allowed=None, default=None, arraysize=None)
        set_all(m, k, lambda d: d.__setitem__("datatype", "uint16"))
        nt = rng.choice(["uint8", "float", "string", "uint8[]", "boolean", "uint32"])
        set_all(m, k, lambda d: d.__setitem__("datatype", nt))
    elif op == "type":
        nt = rng.choice(["sensor", "actuator", "attribute"])
        set_all(m, k, lambda d: d.__setitem__("type", nt))
    elif op in ("rename-fka", "rename", "freeze"):
        par = k.rsplit(".", 1)[0] if rng.random() < 0.7 else rng.choice([root] + [b for _, b in sites(m, False, True)])
        new = f"{par}.{rng.choice(gen.WORDS)}R{rng.randint(1, 99)}"
        if new in names(m):
            return "none"
        old_uid = ref.uid(k, dict(cur, type=cur.get("type", "sensor")), cs)
        rename(m, k, new)
        if op == "rename-fka" and not (under_instances(m, new) and rng.random() < 0.9):
            fka = list(cur.get("fka") or [])
            if not fka and rng.random() < 0.3:
                fka = [root + ".Never" + w for w in rng.sample(gen.WORDS, rng.choice([1, 2]))]
            if rng.random() < 0.7:
                fka = fka + [k]
            else:
                fka = [k] + fka
            for fn in last:
                m["files"][fn]["nodes"][new].pop("fka", None)
            m["files"][last[-1]]["nodes"][new]["fka"] = fka
        elif op == "freeze" and not under_instances(m, new):
            m["files"][last[-1]]["nodes"][new]["constUID"] = old_uid
    elif op == "renamebranch":
        bs = [b for _, b in sites(m, False, True)]
        if not bs:
            return "none"
        b = rng.choice(bs)
        new = b.rsplit(".", 1)[0] + "." + rng.choice(gen.WORDS) + f"B{rng.randint(1, 99)}"
        if new in names(m):
            return "none"
        below = [x for x in main if x == b or x.startswith(b + ".")]
        inst = under_instances(m, b)
        rename(m, b, new)
        if rng.random() < 0.6 and not inst:
            for x in below:
                y = new + x[len(b):]
                v = main.get(y)
                if v is not None and not under_instances(m, y) and not v.get("fka") and rng.random() < 0.8:
                    v["fka"] = [x]
    elif op == "case":
        par, nm = k.rsplit(".", 1)
        new = par + "." + (nm.upper() if rng.random() < 0.5 else nm[0] + nm[1:].swapcase())
        if new not in names(m):
            rename(m, k, new)
            if rng.random() < 0.4 and not under_instances(m, new):
                m["files"][last[-1]]["nodes"][new]["fka"] = list(cur.get("fka") or []) + [k]
    elif op == "add":
        par = rng.choice([root] + [b for _, b in sites(m, False, True)])
        new = f"{par}.{rng.choice(gen.WORDS)}A{rng.randint(1, 999)}"
        if new not in names(m):
            main[new] = gen.leaf(rng, dict(f, struct=0))
    elif op == "delete":
        for fn in absolute_files(m):
            m["files"][fn]["nodes"].pop(k, None)
    elif op == "swapname":
        # one node goes, another comes whose name contains it, is contained in it, or ends like it
        par, nm = k.rsplit(".", 1)
        c = [f"{k}Ext", f"{par}.Pre{nm}", f"{root}.{nm}", f"{root}.{par.split('.')[-1]}{nm}", f"{par}.{nm}.{nm}", k[:-1], f"{par}.{nm[1:].capitalize()}"]
        if k.startswith(f"{root}.{root}."):
            c = [k[len(root) + 1:]]
        new = rng.choice(c)
        if new in names(m) or new.rsplit(".", 1)[0] not in names(m) or not new.rsplit(".", 1)[1]:
            return "none"
        d = {x: v for x, v in cur.items() if x in ("type", "datatype", "description", "unit")}
        for fn in absolute_files(m):
            m["files"][fn]["nodes"].pop(k, None)
        main[new] = dict(d, datatype="uint8") if d.get("unit") is None else d
        main[new].setdefault("description", "x")
    elif op == "nestroot":
        b = f"{root}.{root}"
        if b not in main:
            main[b] = {"type": "branch", "description": "named like the root"}
        src = rng.choice([x for x in main if x.count(".") == 1 and main[x].get("datatype")] or [root + ".Speed"])
        new = b + src[len(root):]
        if new in names(m):
            return "none"
        main[new] = {"type": "sensor", "datatype": "uint8", "description": "nested"}
    elif op == "deleteflag":
        m["files"][last[-1]]["nodes"][k]["delete"] = True
    elif op == "const" and not under_instances(m, k):
        put(constUID=rng.choice([None, "0x%08X" % rng.getrandbits(32), ("0x%08x" % rng.getrandbits(32))]))
    elif op == "layout":
        bs = [b for _, b in sites(m, False, True)]
        if bs:
            b = rng.choice(bs)
            below = {x[len(b) + 1:]: main[x] for x in main if x.startswith(b + ".")}
            base = m["main"].rsplit("/", 1)[0]
            fn = f"{base}/moved{len(m['files'])}.vspec"
            if below and fn not in m["files"]:
                for x in below:
                    del main[b + "." + x]
                m["files"][fn] = {"nodes": below, "inc": [], "prefixed": True}
                m["files"][m["main"]]["inc"].append([fn.rsplit("/", 1)[1], b])
    elif op == "split":
        at = [a for a in cur if a not in ("type", "datatype", "delete")]
        fn = f"in/split{len(m['files'])}.vspec"
        if at and fn not in m["files"]:
            a = rng.choice(at)
            for x in last:
                m["files"][x]["nodes"][k].pop(a, None)
            m["files"][fn] = {"nodes": {k: {a: cur[a]}}}
            m["overlays"].append(fn)
    elif op == "reorder":
        ks = list(main)[1:]
        rng.shuffle(ks)
        items = [(root, main[root])] + [(x, main[x]) for x in ks]
        main.clear()
        main.update(items)
    elif op == "fkaorder" and len(cur.get("fka") or []) > 1:
        put(fka=list(reversed(cur["fka"])))
    elif op == "fkaadd" and not under_instances(m, k):
        put(fka=list(cur.get("fka") or []) + ["Vehicle.Never" + rng.choice(gen.WORDS)])
    elif op == "collide":
        if root != "Vehicle":
            return "none"
        for n in rng.choice(COLLIDE[cs]):
            main[f"Vehicle.{n}"] = {"type": "sensor", "datatype": "uint8", "description": "collides"}
    elif op == "dupconst":
        o = rng.choice(lv)[1]
        if o == k:
            return "none"
        try:
            u = ref.uids(m, cs)[0].get(o)
        except ref.Unsupported:
            return "none"
        if u:
            put(constUID=u if rng.random() < 0.5 else "0x" + u[2:].lower())
    elif op == "dupcase":
        par, nm = k.rsplit(".", 1)
        new = par + "." + nm.upper()
        if new not in names(m):
            main[new] = copy.deepcopy({x: y for x, y in cur.items() if x not in ("delete",)})
            main[new].setdefault("description", "x")
    elif op == "dupfka":
        new = root + ".DupFka"
        main[new] = copy.deepcopy({x: y for x, y in cur.items() if x not in ("delete", "fka", "constUID")})
        main[new].setdefault("description", "x")
        main[new]["fka"] = [k]
    else:
        return "none"
    return op


class Releases(Prop):
    validates = False

    def gen(self, rng, i, tier):
        f = gen.swarm(rng, None, constuid=rng.choice([0, 0, 0.05]), fka=rng.choice([0, 0, 0.06]))
        m = gen.gen_model(rng, f, rng.choice([3, 5, 8, 12]))
        cs = rng.random() < 0.35
        n = rng.choice([2, 2, 3, 4] if self.validates else [1, 2, 3, 4])
        models, steps = {}, []
        ex = rng.random() < 0.8
        for r in range(n):
            if r:
                m = copy.deepcopy(m)
                if rng.random() < 0.1:
                    m = copy.deepcopy(models[f"R{rng.randrange(r)}"])
                for _ in range(rng.choice([1, 1, 2, 3, 6])):
                    mutate(rng, m, cs, f)
                for fn in m["overlays"]:
                    if not m["files"].get(fn, {}).get("nodes"):
                        m["files"][fn] = {"raw": "# nothing left\n"}
                m["overlays"] = [o for o in m["overlays"] if "nodes" in m["files"].get(o, {})]
            models[f"R{r}"] = m
            st = {"model": f"R{r}", "cs": cs if rng.random() < 0.95 else not cs, "expand": ex if rng.random() < 0.95 else not ex, "env": env(rng),
                  "nf": rng.choice([0, 0, 1, 1, 2]), "uuid": rng.random() < 0.15, "samemod": rng.random() < 0.3}
            if r:
                st["against"] = rng.choice([r - 1, r - 1, rng.randrange(r)])
                st["validate"] = self.validates or rng.random() < 0.4
                st["only"] = rng.random() < 0.3
                st["strict"] = rng.random() < 0.1
                st["global"] = ["--log-level", "DEBUG"] if rng.random() < 0.2 else []
            steps.append(st)
        return {"models": models, "steps": steps, "pseed": rng.getrandbits(48)}

    def describe(self, sc):
        d = super().describe(sc)
        for n, m in sc["models"].items():
            d["models"][n]["text"] = gen.render_file(m["files"][m["main"]])[:400]
        return d

    def command(self, m, st, val=None, only=False, log=None):
        o = [] if st["expand"] else [["--no-expand"]]
        if st["cs"]:
            o.append(["--case-sensitive"])
        if st.get("uuid"):
            o.append(["--uuid"])
        if st.get("strict") or m.get("aborts") or m.get("strict"):
            o.append(["-e", "staticUID"])
        if val:
            o.append(["--validate-static-uid", "$R/" + val])
        if only:
            o.append(["--validate-only"])
        s = {"exp": "id", "opts": o}
        if log:
            s["global"] = st.get("global", []) + ["--log-file", "$R/" + log]
        return gen.cmd(m, s)

    def run(self, ctx, sc):
        try:
            self.history(ctx, sc)
        finally:
            sc.pop("_ops", None)

    def history(self, ctx, sc):
        w = ctx.world()
        rng = random.Random(sc["pseed"])
        pubs = {}
        for d in ("pub", "out", "log"):
            os.makedirs(w.p(d), exist_ok=True)
        for r, st in enumerate(sc["steps"]):
            if st["model"] not in sc["models"]:
                continue
            m = sc["models"][st["model"]]
            shutil.rmtree(w.p("in"), ignore_errors=True)
            for name, text in gen.render(m).items():
                w.write(name, text)
            try:
                u, attrs = ref.uids(m, st["cs"], st["expand"])
            except ref.Unsupported:
                ctx.note("model-outside-reference")
                continue
            c = self.command(m, st)
            dup = ref.duplicates(u)
            done = None
            # publication: attempts that may fail or die, then one more
            for a in range(st["nf"] + 1):
                fts = []
                if a < st["nf"]:
                    fts = st.setdefault("faults", {}).get(str(a))
                    if fts is None:
                        ops = sc.get("_ops")
                        if ops is None:
                            (p,) = w.run([spec_of(c, st["env"], name=0)])
                            ops = sc["_ops"] = [list(x[:3]) for x in p.ops]
                        x = fl.pick(rng, ops, c, 0)
                        fts = st["faults"][str(a)] = [x] if x else []
                (p,) = w.run([spec_of(c, st["env"], name=0)], fts)
                text = w.read(c["files"][0])
                if p.exit == 0:
                    if not self.published(ctx, w, p, c, st, text, u, attrs, dup, fts):
                        return
                    done = text
                elif not fts and not dup:
                    self.rejected(ctx, w, p, m, st)
                    if ctx.viol:
                        return
            if dup:
                ctx.note("duplicate-uid-release")
                ctx.interesting = True
            if done is not None:
                w.replace(f"pub/r{r}.vspec", done)
                pubs[r] = (done, st["cs"])
                if r:
                    ctx.interesting = True
            if st.get("validate") and done is not None:
                j = st["against"]
                if j not in pubs or j == r:
                    j = max([x for x in pubs if x < r], default=None)
                if j is not None:
                    self.validation(ctx, w, m, st, r, j, pubs, u, attrs, done, rng, sc)
                    if ctx.viol:
                        return

    def published(self, ctx, w, p, c, st, text, u, attrs, dup, fts):
        try:
            got = yaml.safe_load(text.decode("utf-8"))
            ids = {k: e["staticUID"] for k, e in got.items()}
        except Exception as e:
            ctx.fail("unreadable", f"id export exited 0 but its output is not a static UID file: {type(e).__name__} {e}; faults {fired(p)}")
            return False
        if dup:
            ctx.fail("duplicate-accepted", f"nodes {dup[0]} have the same static UID but the export exited 0")
            return False
        if set(ids) != set(u):
            ctx.fail("nodes", f"static UID file lists {sorted(set(ids) - set(u))[:3]} too much and lacks {sorted(set(u) - set(ids))[:3]}; faults {fired(p)}")
            return False
        for k in u:
            if ids[k].lower() != u[k].lower():
                a = {x: attrs[k].get(x) for x in ("type", "datatype", "unit", "allowed", "min", "max", "fka", "constUID") if attrs[k].get(x) is not None}
                ctx.fail("uid", f"static UID of {k} is {ids[k]}, its identity {a} ({'case-sensitive' if st['cs'] else 'case-insensitive'}) gives {u[k]}")
                return False
        low = {}
        for k, x in ids.items():
            if x.lower() in low:
                ctx.fail("distinct", f"{k} and {low[x.lower()]} share static UID {x} in an accepted release")
                return False
            low[x.lower()] = k
        ctx.note("releases")
        ctx.note("uids-checked", len(ids))
        return True

    def rejected(self, ctx, w, p, m, st):
        """No duplicates, no faults: only a model nobody accepts may be refused."""
        cj = gen.cmd(m, {"exp": "json", "opts": [] if st["expand"] else [["--no-expand"]], "tag": "chk"})
        (q,) = w.run([spec_of(cj, st["env"], name="chk")])
        ctx.note("release-rejected" if q.exit else "release-refused")
        if q.exit == 0:
            ctx.fail("refused", f"all static UIDs of this release are distinct and the model is valid, but the id export exits {p.exit}", log=tail(w, p))

    def validation(self, ctx, w, m, st, r, j, pubs, u, attrs, done, rng, sc):
        pub = f"pub/r{j}.vspec"
        log = f"log/v{r}.log"
        c = self.command(m, st, pub, st.get("only"), log)
        for f in c["files"]:
            w.replace(f, b"previous\n")
        fts = []
        if st["nf"] > 1:
            fts = st.get("vfaults")
            if fts is None:
                x = {"proc": 0, "op": "READ", "path": "$R/" + pub, "nth": rng.randrange(2), "kind": rng.choice(["short", "errno", "errno"])}
                x.update({"frac": rng.choice([0.2, 0.9]), "sticky": rng.randrange(2)} if x["kind"] == "short" else {"errno": rng.choice(["EIO", "EINTR"])})
                fts = st["vfaults"] = [x]
        (p,) = w.run([spec_of(c, st["env"], name=0)], fts)
        ctx.note("validations")
        if w.read(pub) != pubs[j][0]:
            ctx.fail("pub-changed", f"the validation changed the published file {pub}")
            return
        text = w.read(c["files"][0])
        if st.get("only") and text != b"previous\n":
            ctx.fail("validate-only-writes", "a --validate-only run changed the output file")
            return
        if p.exit == 0 and not st.get("only") and text != done:
            ctx.fail("validation-changes-uids", f"the static UID file differs when the same model is validated against {pub}; faults {fired(p)}")
            return
        if not self.validates:
            return
        old = yaml.safe_load(pubs[j][0].decode())
        exp = ref.report(old, u, attrs, st["cs"])
        if exp is None:
            ctx.note("ambiguous-history")
            return
        if p.exit != 0:
            if not p.faulted:
                ctx.fail("validation-fails", f"validating a valid release against an accepted static UID file exits {p.exit}", log=tail(w, p))
            return
        logtext = (w.read(log) or b"").decode("utf-8", "replace")
        gl = ref.parse_report(logtext)
        got = set(gl)
        for x in ("RENAMED", "DESCRIPTION", "BREAKING", "ADDED", "DELETED"):
            ctx.note("reported-" + x, sum(1 for y in exp if y[0] == x))
        ctx.note("unchanged-nodes", len(u) - len({k for _, k in exp if k in u}))
        if got != exp:
            miss, extra = sorted(exp - got), sorted(got - exp)
            kind = (miss or extra)[0][0]
            ctx.fail(f"report:{'missing' if miss else 'extra'}:{kind}",
                     f"release {st['model']} against r{j} ({'case-sensitive' if st['cs'] else 'case-insensitive'}): not reported {miss[:4]}, wrongly reported {extra[:4]}")
        elif len([x for x in gl if x[0] in ("ADDED", "DELETED", "BREAKING")]) != len([x for x in exp if x[0] in ("ADDED", "DELETED", "BREAKING")]):
            ctx.fail("report:twice", f"some change is reported more than once: {gl[:6]}")


class C09(Releases):
    runs = {"quick": 1300, "thorough": 18000}
    rule = ("one case = a history of 1-4 model releases (edits of identity, metadata, names, layout, case, constant UIDs, collisions) published with faults, crashes and retries; every "
            "acknowledged static UID file is compared with an independent model of node identity and FNV-1; non-trivial if a second release or a duplicate was reached")


class C10(Releases):
    validates = True
    runs = {"quick": 900, "thorough": 12000}
    rule = ("one case = a history of 2-4 releases published with faults and retries, each validated against an earlier publication; the report is compared with an independent "
            "classification of every node; non-trivial if a release was validated")
