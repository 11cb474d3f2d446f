"""Candidates for a smaller scenario: fewer steps, faults, switches, options, files, nodes, attributes."""
import copy


def candidates(sc):
    # 1. lists the scenario declares as shrinkable
    for key in ("steps", "calls", "procs", "prior", "faults", "edits", "variants", "changes"):
        v = sc.get(key)
        if isinstance(v, list) and len(v) > (1 if key in sc.get("_keep1", ("steps", "calls", "procs", "variants", "changes")) else 0):
            yield from chunks(sc, key)
    for i, st in enumerate(sc.get("prior", [])):
        if isinstance(st, dict) and st.get("faults"):
            for j in range(len(st["faults"])):
                c = copy.deepcopy(sc)
                del c["prior"][i]["faults"][j]
                yield c
    for i, st in enumerate(sc.get("steps", [])):
        if isinstance(st, dict):
            for key in ("nf", "validate", "only", "uuid", "strict", "global"):
                if st.get(key):
                    c = copy.deepcopy(sc)
                    c["steps"][i][key] = type(st[key])()
                    yield c
    for i, v in enumerate(sc.get("variants", [])):
        for key in list(v):
            if key in ("zyg", "seed", "g", "env", "faults", "nf", "codeset", "session", "oldlog", "kind"):
                continue
            c = copy.deepcopy(sc)
            del c["variants"][i][key]
            yield c
        for key in ("env", "faults"):
            for k in list(v.get(key) or []):
                c = copy.deepcopy(sc)
                if key == "env":
                    del c["variants"][i]["env"][k]
                else:
                    c["variants"][i]["faults"].remove(k)
                yield c
    for key in ("procs", "calls"):
        for i, st in enumerate(sc.get(key, [])):
            if isinstance(st, dict) and st.get("faults"):
                for j in range(len(st["faults"])):
                    c = copy.deepcopy(sc)
                    del c[key][i]["faults"][j]
                    yield c
    if sc.get("_switch") and sc.get("sched") and "seed" in sc["sched"]:
        c = copy.deepcopy(sc)
        c["sched"] = {"switch": dict(sc["_switch"])}
        yield c
        return
    if sc.get("sched") and sc["sched"].get("switch"):
        ks = list(sc["sched"]["switch"])
        n = len(ks)
        size = n
        while size >= 1:
            for a in range(0, n, size):
                c = copy.deepcopy(sc)
                for k in ks[a:a + size]:
                    del c["sched"]["switch"][k]
                yield c
            if size == 1:
                break
            size = max(1, size // 2)
    # environment back to the plain one
    for key in ("env",):
        if sc.get(key) and sc[key] != {"zyg": 0}:
            c = copy.deepcopy(sc)
            c[key] = {"zyg": 0}
            yield c
    # 2. options of commands
    for path, spec in find_cmds(sc):
        for i in range(len(spec.get("opts", []))):
            c = copy.deepcopy(sc)
            del get(c, path)["opts"][i]
            yield c
        for k in ("types_out", "noout"):
            if spec.get(k):
                c = copy.deepcopy(sc)
                get(c, path).pop(k)
                yield c
    # 3. models
    for name, m in sorted(sc.get("models", {}).items()):
        for key in ("overlays", "types", "ext", "incdirs"):
            for i in range(len(m[key])):
                c = copy.deepcopy(sc)
                x = c["models"][name][key].pop(i)
                if key in ("overlays", "types") and x in c["models"][name]["files"]:
                    del c["models"][name]["files"][x]
                yield c
        for fn, f in m["files"].items():
            for i in range(len(f.get("inc", []))):
                c = copy.deepcopy(sc)
                t = c["models"][name]["files"][fn]["inc"].pop(i)[0]
                yield c
            nodes = f.get("nodes")
            if nodes:
                ks = list(nodes)
                size = max(1, len(ks) // 2)
                while True:
                    for a in range(0, len(ks), size):
                        drop = ks[a:a + size]
                        if len(drop) == len(ks) and len(ks) == 1 and fn == m["main"]:
                            continue
                        c = copy.deepcopy(sc)
                        cn = c["models"][name]["files"][fn]["nodes"]
                        for k in drop:
                            if fn == m["main"] and k == ks[0]:
                                continue
                            cn.pop(k, None)
                        if len(cn) < len(nodes):
                            yield c
                    if size == 1:
                        break
                    size //= 2
                for k, v in nodes.items():
                    for at in list(v):
                        if at in ("type", "datatype"):
                            continue
                        if at == "description":
                            if v[at] == "x":
                                continue
                            c = copy.deepcopy(sc)
                            c["models"][name]["files"][fn]["nodes"][k][at] = "x"
                            yield c
                            continue
                        c = copy.deepcopy(sc)
                        del c["models"][name]["files"][fn]["nodes"][k][at]
                        yield c
        used = str(sc)
        for fn in list(m["files"]):
            if fn != m["main"] and fn not in m["overlays"] and fn not in m["types"] and fn not in m["units"] and fn not in m["quantities"] \
                    and not fn.endswith(("units.yaml", "quantities.yaml")):
                base = fn.rsplit("/", 1)[1]
                if not any(base == i[0] for f in m["files"].values() for i in f.get("inc", [])):
                    c = copy.deepcopy(sc)
                    del c["models"][name]["files"][fn]
                    yield c


def chunks(sc, key):
    n = len(sc[key])
    size = n
    while size >= 1:
        for a in range(0, n, size):
            c = copy.deepcopy(sc)
            del c[key][a:a + size]
            if c[key] or key in ("faults", "edits", "prior"):
                yield c
        if size == 1:
            break
        size = max(1, size // 2)


def find_cmds(o, path=()):
    if isinstance(o, dict):
        if "exp" in o and "opts" in o:
            yield path, o
        for k, v in o.items():
            if k != "models":
                yield from find_cmds(v, path + (k,))
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from find_cmds(v, path + (i,))


def get(o, path):
    for p in path:
        o = o[p]
    return o
