"""Seeded workload: models (as data, so they can be shrunk) and command lines."""
import copy
import random

import yaml

from core import LINK

WORDS = ("Speed Cabin Door Seat Window Light Battery Motor Chassis Axle Wheel Tire Brake Body Mirror Trunk Hood Driver Row "
         "Position Temperature Pressure Level State Mode Voltage Current Power Range Distance Angle Rate Count Status Info "
         "Service Unit Type Left Right Front Rear OBD ADAS Acceleration Torque Pedal Gear Lamp Wiper Horn Fuel Air Oil").split()
BOOLS = ("IsOpen IsLocked IsActive HasError IsOn IsEngaged HasChild IsWarning").split()
INTS = "uint8 int8 uint16 int16 uint32 int32 uint64 int64".split()
FLOATS = "float double".split()
UNITS = {
    "km": ("length", "kilometer", ["numeric"]), "mm": ("length", "millimeter", ["numeric"]),
    "celsius": ("temperature", "degree celsius", ["numeric"]), "percent": ("relation", "percent", ["numeric"]),
    "V": ("voltage", "volt", ["numeric"]), "kW": ("power", "kilowatt", ["numeric"]),
    "rpm": ("angular-speed", "revolutions per minute", ["uint16", "uint32", "float", "double"]),
    "iso8601": ("datetime", "ISO 8601", ["string"]), "s": ("duration", "second", ["numeric"]),
}
TEXTS = [
    "Plain description.", "Speed of the vehicle.", "Angle: positive = left, negative = right.", "It's a 'quoted' \"text\".",
    "Temperature in °C – außen.", "Two words", "Ends with colon:", "a # b", "{braces} [brackets]", "100 %", "- dash first",
    "日本語の説明", "tab\tinside", "Line one.\nLine two.", "trailing dot...", "@at & amp <tag>", "yes", "1.0", "null", "~tilde",
    "back\\slash", "very long description " + "with many words " * 12, "é", "Ωmega µ", "*star", "!bang", "%percent", "`tick`", "", "Two  \nlines with \nblanks at their ends ", "One.\n\nThree.\n", "wide " + "one two three four five six seven eight nine ten " * 9, "unbroken" * 40, " leading and trailing ", "UPPER lower Case",
]
EXTRA = ["dbc", "source", "quality", "owner", "zzz", "abc", "x_custom", "priority", "vendor", "group", "calibration"]
MIN_UNITS = {k: {"definition": f"{v[1]} unit", "unit": v[1], "quantity": v[0], "allowed-datatypes": v[2]} for k, v in UNITS.items()}
MIN_QUANT = {q: {"definition": f"quantity {q}"} for q in sorted({v[0] for v in UNITS.values()})}

RANGE = {"uint8": (0, 255), "int8": (-128, 127), "uint16": (0, 65535), "int16": (-32768, 32767), "uint32": (0, 2**32 - 1),
         "int32": (-2**31, 2**31 - 1), "uint64": (0, 2**63), "int64": (-2**63, 2**63 - 1)}


INCDIRS = ["in/lib", "in/lib2", "in/zlib", "in/a"]


class Model:
    """files: {name: {"nodes": {...}, "inc": [[file, prefix|None], ...]}} or {"yaml": data} or {"raw": text}"""

    def __init__(self, d=None):
        self.d = d or {"files": {}, "main": "", "overlays": [], "types": [], "units": [], "quantities": [], "incdirs": [], "ext": []}


def dump_nodes(nodes):
    return yaml.safe_dump(nodes, sort_keys=False, allow_unicode=True, width=200)


def render_file(spec):
    if "raw" in spec:
        return spec["raw"]
    if "link" in spec:
        return LINK + spec["link"]
    if "yaml" in spec:
        return yaml.safe_dump(spec["yaml"], sort_keys=False, allow_unicode=True)
    out = []
    if spec.get("head"):
        out.append(spec["head"])
    incs = [f"#include {f}" + (f" {p}" if p else "") for f, p in spec.get("inc", [])]
    if spec.get("inc_first"):
        out += incs
    for k, v in spec["nodes"].items():
        out.append(dump_nodes({k: v}))
    if not spec.get("inc_first"):
        out += incs
    return "\n".join(out) + "\n"


def render(model):
    return {name: render_file(s) for name, s in model["files"].items()}


ODD_FLOATS = [0.1, 1e-7, 1e22, 3.4028235e+38, -0.0, 123456789.125, 1e16, 5e-324, float("inf"), float("-inf"), 2**53 + 1]
# texts that YAML, or something else, could take for another value
ODD_STRINGS = ["2024-01-01", "12:30:00", "1e5", "0x1F", "0o7", "null", "~", "=", "<<", "no", "Off", "1_000", ".5", ".inf", "", " ", " x ", "a, b", 'q"uote', "it's", "[x]", "{x: y}", "- a", "a: b",
               "#x", "x #y", "ÉTÉ", "Ωhm", "é", "\t", "a\nb", "a\n", "&a", "*a", "!t", "%d", "${HOME}", "\\n", "\u00a0", "\u2028", "\U0001F600", "x" * 130]


def val(rng, dt):
    if dt in RANGE:
        lo, hi = RANGE[dt]
        return rng.choice([0 if lo <= 0 else lo, 1, 7, lo, hi, min(hi, 100)])
    if dt in FLOATS or dt == "numeric":
        return rng.choice([0.0, 1.5, -2.25, 100.0, 3]) if rng.random() < 0.75 else rng.choice(ODD_FLOATS)
    if dt == "boolean":
        return rng.choice([True, False])
    return rng.choice(["ALPHA", "BETA", "some text", "x", "1", "true", "été"]) if rng.random() < 0.75 else rng.choice(ODD_STRINGS)


def leaf(rng, f, structs=()):
    """One signal.  f: feature probabilities."""
    r = rng.random()
    d = {"type": rng.choice(["sensor", "actuator", "attribute"])}
    if structs and r < f["struct"]:
        dt = rng.choice(structs)
    elif r < 0.5:
        dt = rng.choice(INTS)
    elif r < 0.7:
        dt = rng.choice(FLOATS)
    elif r < 0.8:
        dt = "boolean"
    elif r < 0.98 or not f["numeric"]:
        dt = "string"
    else:
        dt = "numeric"
    arr = rng.random() < f["array"]
    if rng.random() < 0.5:
        d["description"] = rng.choice(TEXTS)
    d["datatype"] = dt + ("[]" if arr else "")
    prim = dt not in structs
    if prim and arr and rng.random() < 0.4:
        d["arraysize"] = rng.randint(1, 4)
    num = dt in RANGE or dt in FLOATS
    if prim and num and rng.random() < f["unit"]:
        u = rng.choice(["km", "mm", "celsius", "percent", "V", "kW", "s"])
        d["unit"] = u if rng.random() < 0.8 else UNITS[u][1]
    elif dt == "string" and rng.random() < 0.1:
        d["unit"] = "iso8601"
    mm = False
    if num and not arr and rng.random() < f["minmax"]:
        mm = True
        lo, hi = RANGE.get(dt, (-1000, 1000))
        if rng.random() < 0.8:
            d["min"] = rng.choice([0, 1, -5, -40]) if lo < 0 else rng.choice([0, 1, 5])
            if dt in FLOATS and rng.random() < 0.5:
                d["min"] = d["min"] + 0.5
        if rng.random() < 0.8:
            d["max"] = rng.choice([100, 120, 127])
        if dt in FLOATS and rng.random() < 0.15:
            d[rng.choice(["min", "max"])] = rng.choice(ODD_FLOATS)
        elif dt in ("int64", "uint64", "uint32") and rng.random() < 0.15:
            d[rng.choice(["min", "max"])] = rng.choice(RANGE[dt])
    if prim and not mm and dt in FLOATS + ["boolean"] and rng.random() < f["allowed"] / 6:
        d["allowed"] = rng.choice([[True], [True, False]]) if dt == "boolean" else rng.sample([0.5, 1, 2.0, 0.1, 1e22, -3.25], rng.randint(1, 4))
    if prim and not mm and dt in ("string",) + tuple(INTS[:4]) and rng.random() < f["allowed"]:
        if dt == "string":
            d["allowed"] = rng.sample(["ALPHA", "BETA", "GAMMA", "DELTA", "UNKNOWN", "A_1", "1ST", "été" if f["uniallowed"] else "ETE"], rng.randint(1, 4))
            if f["uniallowed"] and rng.random() < 0.15:
                d["allowed"] += rng.sample(ODD_STRINGS, rng.choice([1, 2]))
        else:
            d["allowed"] = rng.sample([0, 1, 2, 3, 7, 100], rng.randint(1, 3))
    if prim and rng.random() < f["default"]:
        def one():
            if "allowed" in d:
                return rng.choice(d["allowed"])
            if mm:
                return d.get("min", d.get("max", 1)) if dt in FLOATS else int(d.get("max", d.get("min", 1)))      # (not compared with the range by the code)
            return val(rng, dt)
        d["default"] = [one() for _ in range(d.get("arraysize") or rng.randint(1, 3))] if arr else one()
    meta(rng, f, d)
    d.setdefault("description", rng.choice(TEXTS))
    return d


def meta(rng, f, d):
    if rng.random() < f["comment"]:
        d["comment"] = rng.choice(TEXTS)
    if rng.random() < f["deprecation"]:
        d["deprecation"] = "V4.1 " + rng.choice(["moved", "removed: see Other", "renamed"])
    if rng.random() < f["extra"]:
        for k in rng.sample(EXTRA, rng.randint(1, 5)):
            d[k] = rng.choice(["text", 1, 2.5, True, ["a", "b"], {"sub": "v", "n": 1}, "été", 0, False, "", [], "0x1F", "12:30", {"z": [1, {"y": 2}], "a": 0}])
    if rng.random() < f["fka"]:
        d["fka"] = ["Vehicle.Old" + w for w in rng.sample(WORDS, rng.choice([1, 1, 2, 3]))]
    if rng.random() < f["constuid"]:
        d["constUID"] = "0x%08X" % rng.getrandbits(32)


DEFAULT_F = dict(struct=0.15, array=0.15, unit=0.5, minmax=0.3, allowed=0.3, default=0.25, comment=0.2, deprecation=0.08, extra=0.15,
                 fka=0.03, constuid=0.0, instances=0.25, overlay=0.5, include=0.5, delete=0.15, types=0.5, numeric=0, uniallowed=1,
                 staticuid=0, boolnames=1, incdir=0.3, explicit_units=0.5)


def swarm(rng, base=None, **over):
    """Per-run feature set: switch some features off, some up."""
    f = dict(base or DEFAULT_F)
    for k in f:
        x = rng.random()
        if k in ("numeric", "uniallowed", "staticuid", "constuid", "boolnames"):
            continue
        if x < 0.25:
            f[k] = 0
        elif x > 0.8:
            f[k] = min(1.0, f[k] * 2.5)
    f.update(over)
    return f


def pick_name(rng, used, dt=None):
    for _ in range(50):
        n = rng.choice(BOOLS) if dt == "boolean" and rng.random() < 0.9 else rng.choice(WORDS)
        if rng.random() < 0.25:
            n += rng.choice(WORDS)
        if rng.random() < 0.1:
            n += str(rng.randint(1, 9))
        x = rng.random()
        if x < 0.03:
            n = n.lower() if x < 0.015 else n.upper()
        elif x < 0.06:
            n = rng.choice(sorted(used) or [n]) + rng.choice(WORDS)      # one name the start of another
        elif x < 0.08 and used:
            n = rng.choice(sorted(used)).swapcase()                       # names that differ in case only
        if n not in used:
            used.add(n)
            return n
    n = f"N{len(used)}"
    used.add(n)
    return n


def gen_tree(rng, f, root, nodes, depth, budget, structs, names, rootname=True):
    """Fill nodes (flat dict) below root; returns list of branch names."""
    branches = [root]
    used = {root: set()}
    while budget > 0:
        budget -= 1
        par = rng.choice(branches)
        if rng.random() < 0.35 and par.count(".") - root.count(".") < depth:
            n = pick_name(rng, used.setdefault(par, set()))
            fq = f"{par}.{n}"
            d = {"type": "branch", "description": rng.choice(TEXTS)}
            if rng.random() < f["instances"]:
                d["instances"] = rng.choice([["Left", "Right"], "Row[1,2]", ["Row[1,2]", ["DriverSide", "PassengerSide"]],
                                             ["Front", "Rear"], [["A", "B"], ["C", "D"]], "Only", ["Pos[2,3]"]])
            if rng.random() < 0.05:
                d["aggregate"] = True
            if rng.random() < 0.1:
                d["instantiate"] = False
            meta(rng, f, d)
            d.pop("constUID", None)
            nodes[fq] = d
            branches.append(fq)
        else:
            d = leaf(rng, f, structs)
            n = pick_name(rng, used.setdefault(par, set()), d["datatype"])
            if rng.random() < 0.05:
                d["instantiate"] = False
            nodes[f"{par}.{n}"] = d
    return branches


def gen_types(rng, f):
    nodes = {"Types": {"type": "branch", "description": "User types."}}
    structs = []
    brs = ["Types"]
    for _ in range(rng.choice([1, 2, 3, 3, 5])):
        b = f"{rng.choice(brs[:2])}.{rng.choice(['Geo', 'Base', 'Common', 'GeoExt', 'Sub', 'A', 'AB'])}"
        if b not in nodes:
            nodes[b] = {"type": "branch", "description": rng.choice(TEXTS)}
            brs.append(b)
    for _ in range(rng.choice([1, 2, 3, 4, 7])):
        b = rng.choice(brs[1:])
        n = rng.choice(["Point", "Time", "Pose", "Item", "Location", "PointExt"])
        s = f"{b}.{n}"
        if s in nodes:
            continue
        nodes[s] = {"type": "struct", "description": rng.choice(TEXTS)}
        used = set()
        for _ in range(rng.randint(1, 3)):
            d = leaf(rng, dict(f, struct=0, extra=0, fka=0, constuid=0))
            d["type"] = "property"
            if structs and rng.random() < 0.35:
                t = rng.choice(structs)
                d = {"type": "property", "description": rng.choice(TEXTS), "datatype": (t if rng.random() < 0.7 or t.rsplit(".", 1)[0] != b else t.split(".")[-1]) + rng.choice(["", "[]"])}
            nodes[f"{s}.{pick_name(rng, used, d['datatype'])}"] = d
        structs.append(s)
    return nodes, structs


def gen_model(rng, f, size=None, allow_types=True):
    size = size or (rng.choice([3, 6, 10, 16]) if rng.random() < 0.97 else rng.choice([60, 120]))
    m = {"files": {}, "main": "in/" + rng.choice(["m.vspec", "Vehicle.vspec", "spec/root.vspec", "m.vspec", "Fahrzeug \u00e4.vspec"]), "overlays": [], "types": [], "units": [],
         "quantities": [], "incdirs": [], "ext": []}
    structs = []
    base = m["main"].rsplit("/", 1)[0]
    if allow_types and rng.random() < f["types"]:
        tn, structs = gen_types(rng, f)
        tf = rng.choice(["in/types.vspec", base + "/t/types.vspec"])
        m["types"] = [tf]
        if rng.random() < 0.15:
            ks = list(tn)[1:]
            rng.shuffle(ks)
            tn = {k: tn[k] for k in ["Types"] + ks}
        m["files"][tf] = {"nodes": tn}
        if structs and rng.random() < 0.3:
            # a second types file that builds on the first one
            t2 = {"Types": {"type": "branch", "description": "More types."}, "Types.More": {"type": "branch", "description": rng.choice(TEXTS)}}
            s2 = "Types.More." + rng.choice(["Track", "Point", "Extra"])
            t2[s2] = {"type": "struct", "description": rng.choice(TEXTS)}
            t2[s2 + ".Base"] = {"type": "property", "description": "b", "datatype": rng.choice(structs) + rng.choice(["", "[]"])}
            t2[s2 + ".Plain"] = {"type": "property", "description": "p", "datatype": rng.choice(INTS)}
            m["files"]["in/types2.vspec"] = {"nodes": t2}
            m["types"].append("in/types2.vspec")
            structs = structs + [s2]
    root = rng.choice(["Vehicle", "Vehicle", "Vehicle", "Drone"])
    nodes = {root: {"type": "branch", "description": "High-level vehicle data."}}
    if rng.random() < 0.2:
        nodes[root + ".VersionVSS"] = {"type": "branch", "description": "Supported version."}
        for k in ("Major", "Minor", "Patch"):
            nodes[f"{root}.VersionVSS.{k}"] = {"type": "attribute", "datatype": "uint32", "description": k, "default": rng.randint(1, 9)}
    brs = gen_tree(rng, f, root, nodes, 3, size, structs, None)
    main = {"nodes": nodes, "inc": [], "inc_first": rng.random() < 0.3}
    if rng.random() < 0.1:
        main["head"] = "# a comment é"
    m["files"][m["main"]] = main
    # includes, with prefix or absolute names, possibly nested and through include dirs
    ninc = 0
    while rng.random() < f["include"] and ninc < 3:
        ninc += 1
        host = m["main"] if ninc == 1 or rng.random() < 0.6 else f"{base}/inc{ninc-1}.vspec"
        if host not in m["files"]:
            host = m["main"]
        cand = [b for b in brs if not any(k.startswith(b + ".Inc") for k in nodes)]
        pre = rng.choice(cand) if cand else root
        # a prefix is only legal if the including file is not itself prefixed
        hostpre = m["files"][host].get("prefixed")
        name = f"inc{ninc}.vspec"
        sub = {}
        top = f"Inc{ninc}" + rng.choice(["", "Sub"])
        sub[top] = {"type": "branch", "description": rng.choice(TEXTS)}
        gen_tree(rng, dict(f, instances=f["instances"] / 2), top, sub, 1, rng.randint(1, 4), structs, None)
        if rng.random() < f["incdir"]:
            d = rng.choice(INCDIRS)
            if d not in m["incdirs"]:
                m["incdirs"].append(d)
            fn = f"{d}/{name}"
            target = name
            shadow = rng.random() < 0.5
        else:
            fn = f"{base}/{name}"
            target = name if host.rsplit("/", 1)[0] == base else None
            if target is None:
                host = m["main"]
                hostpre = None
                target = name
            shadow = rng.random() < 0.1
        if rng.random() < 0.15 and "/" not in target:
            # a target in a sub-folder
            sd = rng.choice(["sub", "a/b"])
            target = f"{sd}/{name}"
            fn = fn.rsplit("/", 1)[0] + "/" + target
        if hostpre:
            pre = None
        m["files"][fn] = {"nodes": sub if hostpre or pre is not None else sub, "inc": [], "prefixed": True}
        m["files"][host]["inc"].append([target, pre])
        if shadow:
            # other files of the same name that other include directories hold
            for d in rng.sample(INCDIRS, rng.randint(1, 3)):
                if f"{d}/{target}" not in m["files"]:
                    if d not in m["incdirs"]:
                        m["incdirs"].insert(rng.randint(0, len(m["incdirs"])), d)
                    alt = copy.deepcopy(sub)
                    for k, v in alt.items():
                        v["description"] = f"From {d}."
                    alt[top + ".Only" + d[3:].title().replace("/", "")] = {"type": "sensor", "datatype": "uint8", "description": "x"}
                    m["files"][f"{d}/{target}"] = {"nodes": alt, "inc": [], "prefixed": True}
    if rng.random() < 0.1:
        for d in rng.sample(INCDIRS, rng.randint(1, 2)):
            if d not in m["incdirs"]:
                m["incdirs"].append(d)
                m["files"].setdefault(d + "/README", {"raw": "not included\n"})
    # overlays
    nov = 0
    while rng.random() < f["overlay"] and nov < 2:
        nov += 1
        ov = {}
        fn = rng.choice([f"in/ov{nov}.vspec", f"{base}/o/ov{nov}.vspec"])
        names = list(nodes)
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            k = rng.choice(names[1:]) if len(names) > 1 else names[0]
            o = nodes[k]
            if r < 0.4:
                d = {"type": o["type"]}
                if "datatype" in o:
                    d["datatype"] = o["datatype"]
                d["description"] = "Overlay: " + rng.choice(TEXTS)
                if "datatype" in o and o["datatype"] in RANGE and "allowed" not in o and rng.random() < 0.4:
                    d["max"] = 99
                meta(rng, f, d)
                if o["type"] != "branch" and "constUID" not in o:
                    pass
                ov[k] = d
            elif r < 0.4 + f["delete"] and o["type"] != "branch":
                ov[k] = {"type": o["type"], "datatype": o["datatype"], "description": "gone", "delete": True}
            else:
                par = rng.choice([b for b in brs])
                d = leaf(rng, f, structs)
                ov[f"{par}.Ov{nov}{rng.choice(WORDS)}"] = d
        if ov and fn not in m["files"]:
            m["files"][fn] = {"nodes": ov}
            m["overlays"].append(fn)
    # overlay on a particular instance
    if rng.random() < f["overlay"] * 0.5:
        ib = [k for k, v in nodes.items() if v.get("instances") in (["Left", "Right"], "Row[1,2]", ["Front", "Rear"])]
        if ib:
            b = rng.choice(ib)
            lv = [k for k, v in nodes.items() if k.startswith(b + ".") and k.count(".") == b.count(".") + 1 and v["type"] != "branch" and v.get("instantiate", True)]
            if lv:
                lf = rng.choice(lv)
                inst = {"Row[1,2]": "Row1"}.get(nodes[b]["instances"]) if isinstance(nodes[b]["instances"], str) else nodes[b]["instances"][0]
                fn = "in/ovinst.vspec"
                m["files"][fn] = {"nodes": {f"{b}.{inst}.{lf.rsplit('.', 1)[1]}": {"type": nodes[lf]["type"], "datatype": nodes[lf]["datatype"], "description": "Instance overlay"}}}
                m["overlays"].append(fn)
    # units and quantities: default files beside the model, or explicit, or split over two files
    units = MIN_UNITS
    if rng.random() < 0.2:
        units = {k: {a: b for a, b in v.items() if a != "allowed-datatypes" or rng.random() < 0.4} for k, v in MIN_UNITS.items()}
    if rng.random() < f["explicit_units"]:
        ks = list(units)
        if rng.random() < 0.5:
            c = rng.randint(1, len(ks) - 1)
            m["files"]["in/u/u1.yaml"] = {"yaml": {k: units[k] for k in ks[:c]}}
            m["files"]["in/u/u2.yaml"] = {"yaml": {k: units[k] for k in ks[c:]}}
            m["units"] = ["in/u/u1.yaml", "in/u/u2.yaml"]
        else:
            m["files"]["in/u/units.yaml"] = {"yaml": units}
            m["units"] = ["in/u/units.yaml"]
        m["files"]["in/u/q.yaml"] = {"yaml": MIN_QUANT}
        m["quantities"] = ["in/u/q.yaml"]
    else:
        m["files"][base + "/units.yaml"] = {"yaml": units}
        m["files"][base + "/quantities.yaml"] = {"yaml": MIN_QUANT}
    if rng.random() < 0.08:
        # no node has a unit, and none may be defined
        for fl in m["files"].values():
            for n in fl.get("nodes", {}).values():
                n.pop("unit", None)
        if rng.random() < 0.7:
            for k in [k for k in m["files"] if k in m["units"] or k.endswith("/units.yaml")]:
                del m["files"][k]
            m["units"] = []
            if rng.random() < 0.4:
                for k in [k for k in m["files"] if k in m["quantities"] or k.endswith("/quantities.yaml")]:
                    del m["files"][k]
                m["quantities"] = []
    # attributes the user declares
    seen = sorted({k for fl in m["files"].values() for n in fl.get("nodes", {}).values() for k in n if k in EXTRA})
    if seen and rng.random() < 0.6:
        m["ext"] = rng.sample(seen, rng.randint(1, len(seen)))
    if rng.random() < 0.06:
        m["aborts"] = rng.sample(["name-style", "unknown-attribute"], rng.randint(1, 2))
    if rng.random() < 0.03:
        m["strict"] = True
    if rng.random() < 0.1:
        # definitions in any order
        ks = list(nodes)[1:]
        rng.shuffle(ks)
        main["nodes"] = {k: nodes[k] for k in [root] + ks}
    return m


def same_size(rng, m):
    """Another version of the model whose files have the same sizes: a name, a text or a number differs in single characters."""
    m = copy.deepcopy(m)
    fs = [f for f in [m["main"]] + m["overlays"] if "nodes" in m["files"].get(f, {})]
    main = m["files"][m["main"]].get("nodes", {})
    for _ in range(rng.choice([1, 1, 2])):
        ks = [k for k in main if main[k].get("datatype")]
        if not ks:
            break
        k = rng.choice(ks)
        x = rng.random()
        if x < 0.6:
            new = k[:-1] + rng.choice([c for c in ("abxyzQ" if k[-1].isalpha() else "12345") if c != k[-1]])
            if new not in main and not any(q.startswith(k + ".") for q in main):
                for f in fs:
                    nd = m["files"][f]["nodes"]
                    items = [(new if q == k else q, v) for q, v in nd.items()]
                    nd.clear()
                    nd.update(items)
        elif x < 0.8:
            for f in fs:
                if k in m["files"][f]["nodes"] and m["files"][f]["nodes"][k].get("description"):
                    m["files"][f]["nodes"][k]["description"] = m["files"][f]["nodes"][k]["description"].swapcase()
        else:
            for f in fs:
                d = m["files"][f]["nodes"].get(k, {})
                if isinstance(d.get("max"), int) and d["max"] == 100:
                    d["max"] = 120 if d.get("default", 0) != 100 else 100
                elif d.get("type") == "sensor" and d.get("datatype") == "float":
                    d["datatype"] = "int16" if not any(a in d for a in ("min", "max", "default", "unit", "allowed")) else "float"
    return m


def near(rng, m):
    """A model that differs in little: a name or text goes on or stops a bit later, a node more or less, mostly at the end of a file."""
    m = copy.deepcopy(m)
    fs = [f for f in [m["main"]] * 3 + m["overlays"] + m["types"] if "nodes" in m["files"].get(f, {})]
    if not fs:
        return m
    nodes = m["files"][rng.choice(fs)]["nodes"]
    ks = [k for k in nodes if "." in k and not any(q.startswith(k + ".") for q in nodes)]
    if not ks:
        return m
    # exports are sorted or in file order: the last node is one of these
    k = rng.choice([ks[-1], max(ks), max(ks), rng.choice(ks)])
    x = rng.random()
    if x < 0.55:
        rename_node(m, k, k.rpartition(".")[2] + rng.choice(["2", "x", "Long", "23"]))
    elif x < 0.65 and len(k.rpartition(".")[2]) > 2:
        if k[:-1] not in nodes:
            rename_node(m, k, k.rpartition(".")[2][:-1])
    elif x < 0.7:
        del nodes[k]
    elif x < 0.85:
        nodes[k.rpartition(".")[0] + ".Zzz"] = {**{a: v for a, v in nodes[k].items() if a in ("type", "datatype")}, "description": "One more."}
    elif nodes[k].get("description"):
        nodes[k]["description"] = str(nodes[k]["description"]) + rng.choice([" And more.", "2", "\nMore."])
    return m


def relocate(m, prefix):
    """The same model with all its files below another directory."""
    import copy
    m = copy.deepcopy(m)
    m["files"] = {prefix + k: v for k, v in m["files"].items()}
    m["main"] = prefix + m["main"]
    for k in ("overlays", "types", "units", "quantities", "incdirs"):
        m[k] = [prefix + x for x in m[k]]
    return m


def unit_files(m):
    base = m["main"].rsplit("/", 1)[0]
    return (m["units"] or [base + "/units.yaml"]), (m["quantities"] or [base + "/quantities.yaml"])


def rename_node(m, old, name):
    """Another last name for a node, in every file and include that mentions it."""
    new = (old.rpartition(".")[0] + "." if "." in old else "") + name

    def sub(k):
        return new + k[len(old):] if k is not None and (k == old or k.startswith(old + ".")) else k
    for s in m["files"].values():
        if "nodes" in s:
            s["nodes"] = {sub(k): v for k, v in s["nodes"].items()}
        if s.get("inc"):
            s["inc"] = [[f, sub(p)] for f, p in s["inc"]]


# ----------------------------------------------------------------- invalid models
def break_model(rng, m, only=None):
    """Make the model unacceptable in one way; returns (model, label)."""
    import copy
    m = copy.deepcopy(m)
    main = m["files"][m["main"]]
    root = next(iter(main["nodes"]))
    leaves = [(fn, k) for fn, s in m["files"].items() for k, v in s.get("nodes", {}).items() if v.get("datatype") and not v.get("delete") and fn == m["main"]]
    kinds = ["yaml", "noinclude", "badinclude", "twodroots", "noroot", "badunitfile", "missingfile", "badtype", "noarray", "orphan", "badquant", "dupunit",
             "baddesc", "empty", "binary", "strictextra", "dropunits", "dropunitopt", "coreattr", "coreattr", "badlink", "foreign", "undecodable",
             "oddtext", "oddtext", "oddtext", "oddname", "oddvalue"]
    if m["types"]:
        kinds += ["droptypes"] * 2
    if leaves:
        kinds += ["baddt", "badunit", "baddefault", "badallowed", "minmaxallowed", "badconst", "arraysize", "leafparent", "nodesc"] * 2
    k = rng.choice(([x for x in kinds if x in only] if only else kinds) or kinds)
    fn, lf = rng.choice(leaves) if leaves else (None, None)
    nd = m["files"][fn]["nodes"][lf] if lf else None
    ufile = (m["units"] or [m["main"].rsplit("/", 1)[0] + "/units.yaml"])[-1]
    qfile = (m["quantities"] or [m["main"].rsplit("/", 1)[0] + "/quantities.yaml"])[-1]
    anyspec = rng.choice([x for x in m["files"] if "nodes" in m["files"][x]])
    if k == "yaml":
        m["files"][anyspec] = {"raw": render_file(m["files"][anyspec]) + "\nVehicle.X:\n  type: [unclosed\n bad: {\n"}
    elif k == "noinclude":
        main["inc"].append(["does/not/exist.vspec", None])
    elif k == "badinclude":
        m["files"][anyspec] = {"raw": render_file(m["files"][anyspec]) + "\n#include\n"}
    elif k == "twodroots":
        main["nodes"]["Second"] = {"type": "branch", "description": "second root"}
    elif k == "noroot":
        m["files"][m["main"]] = {"raw": "A.B.C:\n  type: sensor\n  datatype: uint8\n  description: x\n"}
    elif k == "badunitfile":
        m["files"][ufile] = {"raw": rng.choice(["km:\n", "km: [1, 2]\n", "km:\n  definition: x\n", "km\n", "km: {definition: x, unit: y, quantity: nosuch}\n"])}
    elif k == "badquant":
        m["files"][qfile] = {"raw": rng.choice(["length:\n", "length: {}\n", "length: {comment: x}\n", "[a\n"])}
    elif k == "dupunit":
        if len(m["units"]) < 1:
            m["units"] = [ufile]
            m["quantities"] = [qfile]
        m["units"] = m["units"] + [m["units"][0]]
    elif k == "missingfile":
        x = rng.choice([f for f in m["files"] if f not in (ufile, qfile)])
        del m["files"][x]
    elif k == "dropunits":
        # the units this model uses exist, but in no file of this model
        for u in m["units"] or [ufile]:
            m["files"][u] = {"yaml": {"rpm": MIN_UNITS["rpm"]}}
        main["nodes"][root + ".UsesUnit"] = {"type": "sensor", "datatype": "uint8", "unit": "percent", "description": "x"}
    elif k == "dropunitopt":
        for u in m["units"] or [ufile]:
            m["files"].pop(u, None)
        m["units"] = []
        main["nodes"][root + ".UsesUnit"] = {"type": "sensor", "datatype": "uint8", "unit": "percent", "description": "x"}
    elif k == "droptypes":
        structs = [t for f in m["types"] for t, v in m["files"][f]["nodes"].items() if v["type"] == "struct"]
        for f in m["types"]:
            m["files"].pop(f)
        m["types"] = []
        main["nodes"][root + ".UsesType"] = {"type": "sensor", "datatype": rng.choice(structs) if structs else "Types.No.Such", "description": "x"}
    elif k == "badtype":
        main["nodes"][root + ".Bad"] = {"type": "nosuchtype", "description": "x"}
    elif k == "noarray":
        main["nodes"][root + ".Bad"] = {"type": "sensor", "description": "x", "datatype": "uint8", "default": [1, 2]}
    elif k == "orphan":
        if m["types"]:
            m["files"][m["types"][0]]["nodes"]["Types.No.Such.S"] = {"type": "struct", "description": "x"}
        else:
            main["nodes"][root + ".No.Such.Leaf"] = {"type": "sensor", "datatype": "uint8", "description": "x"}
    elif k == "foreign":
        # nodes of another root, deep down, or with odd names
        n = rng.choice(["Other.X", "Other.Deep.Leaf", "Other.A.B.C.D", root.lower() + ".Deep.Leaf", root + "..X", "." + root, root + ".", root + "x.Y.Z", "Types.A.B", root + ".A.B.C.D.E"])
        if rng.random() < 0.5:
            kids = [x.split(".")[1] for x in main["nodes"] if "." in x] or ["A"]
            n = ".".join([rng.choice([root, "Other", "Other", root.lower(), "", root + "x"])]
                         + [rng.choice(["A", "B", "X", "", rng.choice(kids), "Other", root]) for _ in range(rng.choice([1, 2, 3]))] + rng.choice([[], [], [""]]))
        nd = {"type": rng.choice(["sensor", "branch"]), "description": "x", "datatype": "uint8"}
        if nd["type"] == "branch":
            nd.pop("datatype")
        tgt = m["files"][rng.choice([m["main"]] + [o for o in m["overlays"] if "nodes" in m["files"].get(o, {})])]["nodes"]
        tgt[n] = nd
        if rng.random() < 0.3:
            tgt[n + ".More.Leaf"] = {"type": "sensor", "datatype": "uint8", "description": "x"}
    elif k == "baddesc":
        main["nodes"][root + ".Bad"] = {"type": "sensor", "datatype": "uint8"}
    elif k == "empty":
        m["files"][m["main"]] = {"raw": ""}
    elif k == "undecodable":
        x = rng.choice(sorted(m["files"]))
        t = render_file(m["files"][x])
        if not t.startswith(chr(0)):
            m["files"][x] = {"raw": rng.choice(["# \udcff\udcfe\n" + t, t + "# \udce9t\udce9\n", t.replace("description: ", "description: \udcb0", 1)])}
    elif k == "binary":
        m["files"][anyspec] = {"raw": "\x00\x01\x02: [\x07"}
    elif k == "strictextra":
        main["nodes"][root + ".Bad"] = {"type": "sensor", "datatype": "uint8", "description": "x", "unknown_attr_q": 1}
        m["strict"] = True
    elif k == "coreattr":
        # an attribute of other node types
        b = [x for x in main["nodes"] if main["nodes"][x]["type"] == "branch"]
        x, a, v = rng.choice([(rng.choice(b), "unit", "km"), (rng.choice(b), "datatype", "uint8"), (rng.choice(b), "allowed", ["A"]), (rng.choice(b), "default", 1),
                              (lf or b[0], "instances", ["A", "B"]), (rng.choice(b), "arraysize", 2), (rng.choice(b), "max", 3)])
        main["nodes"][x][a] = v
    elif k == "oddtext":
        # texts that are no Unicode texts (lone surrogates), or unusual ones, wherever a text can be
        specs = [s for s in m["files"].values() if "nodes" in s]
        for _ in range(rng.choice([1, 1, 2])):
            s = rng.choice(specs)
            x = rng.choice(sorted(s["nodes"]))
            bad = rng.choice(["x\ud800", "\udc00", "a\udfffb", "\ud83dx", "\ude00\ud83d", "x\0y", "x\x85y", "x\u2028y", "\ud83d\ude00", "\ufeffx"])
            where = rng.choice(["description", "description", "comment", "deprecation", "name", "allowed", "default", "fka", "instances", "ext", "constUID", "validate", "unit"])
            nd = s["nodes"][x]
            if where == "name":
                rename_node(m, x, bad.strip())
            elif where == "allowed" or where == "default":
                for a in ("min", "max", "unit", "arraysize", "allowed", "default"):
                    nd.pop(a, None)
                if nd.get("datatype"):
                    nd["datatype"] = "string"
                nd[where] = bad if where == "default" else ["A", bad]
            elif where == "ext":
                m["ext"] = m["ext"] + ["oddattr"]
                nd["oddattr"] = rng.choice([bad, [bad], {bad: 1}])
            elif where in ("fka", "instances"):
                nd[where] = [bad]
            else:
                nd[where] = bad
    elif k == "oddname":
        # names of nodes that would lead elsewhere if they were taken as file names
        s = m["files"][rng.choice([m["main"]] * 3 + list(m["types"]) * 3)]
        x = rng.choice([next(iter(s["nodes"]))] * len(s["nodes"]) + sorted(s["nodes"]))
        rename_node(m, x, rng.choice(["/nonexistent/", "/nonexistent/", "/nonexistent/", "/nonexistent/", "../", "/", "", "-", "~", "$HOME", "*", "|", "%s", "'", '"']) + rng.choice(["x", "y/z", "é", "", "A b"]))
    elif k == "oddvalue":
        # values only YAML has
        m["ext"] = m["ext"] + ["oddattr"]
        s = m["files"][rng.choice([m["main"]] + [o for o in m["overlays"] if "nodes" in m["files"].get(o, {})])]
        fn = [f for f in m["files"] if m["files"][f] is s][0]
        x = rng.choice(sorted(s["nodes"]))
        t = render_file({**s, "nodes": {**s["nodes"], x: {**s["nodes"][x], "oddattr": "ODD@VALUE"}}})
        v = rng.choice(["2024-01-01", "2024-01-01T10:00:00Z", "!!binary gICA", "!!set {a, b}", "&a [*a]", "&a {x: *a}", "{1: 2, a: 3}", "{[1, 2]: 3}", ".inf", ".nan", "!!omap [a: 1]",
                        "!!python/tuple [1]", "!nosuchtag x", "1_000", "0o17", "190:20:30", "1e400", "9" * 400, "9" * 5000, "[" * 60 + "]" * 60, "~", "? x"])
        m["files"][fn] = {"raw": t.replace("ODD@VALUE", v)}
    elif k == "badlink":
        # an input that is a dangling link, a link to itself, or a link to a directory
        x = rng.choice([f for f in m["files"]])
        m["files"][x] = {"link": rng.choice(["nowhere", x.rsplit("/", 1)[1], ".", "/nonexistent/x"])}
    elif k == "baddt":
        nd["datatype"] = rng.choice(["uint7", "Types.No.Such", "uint8[", ""])
    elif k == "badunit":
        nd["unit"] = "nosuchunit"
    elif k == "baddefault":
        nd.pop("allowed", None)
        nd["datatype"] = "uint8"
        nd["default"] = rng.choice(["text", -1, 1.5, 256])
        for x in ("min", "max", "unit", "arraysize"):
            nd.pop(x, None)
    elif k == "badallowed":
        nd.update(datatype="uint8", allowed=["text", 300])
        for x in ("min", "max", "unit", "arraysize", "default"):
            nd.pop(x, None)
    elif k == "minmaxallowed":
        nd.update(datatype="uint8", allowed=[1, 2], min=0)
        for x in ("max", "unit", "arraysize", "default"):
            nd.pop(x, None)
    elif k == "badconst":
        nd["constUID"] = "0x12"
    elif k == "arraysize":
        nd.update(datatype="uint8", arraysize=2)
        for x in ("default", "allowed"):
            nd.pop(x, None)
    elif k == "leafparent":
        main["nodes"][lf + ".Child"] = {"type": "sensor", "datatype": "uint8", "description": "child of a leaf"}
    elif k == "nodesc":
        nd.pop("description", None)
    # no overlay may repair the damage
    if k in ("baddt", "badunit", "baddefault", "badallowed", "minmaxallowed", "badconst", "arraysize", "nodesc"):
        for o in m["overlays"]:
            m["files"].get(o, {}).get("nodes", {}).pop(lf, None)
            if o in m["files"] and "nodes" in m["files"][o] and not m["files"][o]["nodes"]:
                m["files"][o] = {"raw": "# empty\n"}
    m["broken"] = 1
    return m, k


# ----------------------------------------------------------------- command lines
EXPORTERS = ["json", "yaml", "csv", "jsonschema", "protobuf", "franca", "binary", "ddsidl", "graphql", "id", "apigear", "samm", "go", "tree"]
TYPES_OK = {"json", "yaml", "csv", "jsonschema", "protobuf", "ddsidl", "id", "apigear", "samm", "go", "tree"}


def common_args(m, exp):
    a = ["-s", "$R/" + m["main"]]
    for flag, key in (("-l", "overlays"), ("-u", "units"), ("-q", "quantities"), ("-I", "incdirs")):
        for o in m[key]:
            a += [flag, "$R/" + o]
    for o in m["ext"]:
        a += ["-e", o]
    if exp in TYPES_OK:
        for o in m["types"]:
            a += ["-t", "$R/" + o]
    for o in m.get("aborts", []):
        a += ["-a", o]
    if m.get("strict"):
        a += ["--strict"]
    return a


EXT = {"json": "json", "yaml": "yaml", "csv": "csv", "jsonschema": "json", "protobuf": "proto", "franca": "fidl", "binary": "binary",
       "ddsidl": "idl", "graphql": "graphql", "id": "vspec", "go": "go", "tree": "txt"}


def cmdspec(rng, m, exp, simple=False):
    """Seeded options of one export; independent of file names so that the model can be shrunk below it."""
    opt = (lambda p: False) if simple else (lambda p: rng.random() < p)
    o = []
    if exp in ("json", "yaml", "csv", "jsonschema", "franca", "binary", "ddsidl", "id", "apigear", "samm", "tree") and opt(0.3):
        o.append(["--uuid"])
    if exp in ("json", "yaml", "csv", "jsonschema", "id", "tree") and opt(0.25):
        o.append(["--no-expand"])
    if exp in ("json", "yaml", "jsonschema") and opt(0.5):
        o.append(["--extend-all-attributes"])
    if exp in ("json", "jsonschema") and opt(0.5):
        o.append(["--pretty"])
    s = {"exp": exp, "opts": o}
    if exp == "tree" and opt(0.15):
        s["noout"] = True
    if exp in ("json", "yaml", "csv") and opt(0.5):
        s["types_out"] = "always" if opt(0.4) else True
    if exp == "jsonschema":
        if opt(0.3):
            o.append(["--no-additional-properties"])
        if opt(0.3):
            o.append(["--require-all-properties"])
    if exp == "protobuf":
        if opt(0.3):
            o.append(["--add-optional"])
        if m.get("staticuid"):
            o.append(["--static-uid"])
    if exp == "graphql" and opt(0.4):
        o.append(["-g", "source,Source"])
        o.append(["-g", "quality,Quality of value"])
    if exp == "ddsidl" and opt(0.4):
        o.append(["--all-idl-features"])
    if exp == "go":
        if opt(0.3):
            o.append(["--package", "vehiclepkg"])
        if opt(0.4):
            o.append(["--no-short-names"])
    if exp == "franca" and opt(0.5):
        o.append(["--franca-vss-version", "5.1"])
    if exp == "id" and opt(0.3):
        o.append(["--case-sensitive"])
    if exp == "tree" and opt(0.6):
        for x in rng.sample(["type", "datatype", "unit", "description", "allowed", "min", "uuid"], rng.randint(1, 4)):
            o.append(["--attr", x])
    if exp == "apigear":
        for x in ("unreal", "cpp", "qt5", "qt6"):
            if opt(0.3):
                o.append([f"--apigear-template-{x}-path", f"{x}_layer"])
    if exp == "samm":
        if opt(0.3):
            o.append(["--target-namespace", "com.example.veh"])
        if opt(0.5):
            o.append(["--split-depth", rng.choice(["2", "3", "0", "1"])])
        if opt(0.2):
            o.append(["--no-split"])
        if opt(0.25):
            ks = [k for k, v in m["files"].get(m["main"], {}).get("nodes", {}).items() if v.get("datatype")]
            if ks:
                f = m["main"].rsplit("/", 1)[0] + "/signals.txt"
                m["files"][f] = {"raw": "\n".join(rng.sample(ks, min(len(ks), rng.randint(1, 4)))) + rng.choice(["", "\n"])}
                s["extra"] = ["--signals-file", "$R/" + f]
    x = rng.random()
    if not simple and x < 0.1 and exp in EXT:
        s["name"] = rng.choice([f"{exp} \u00fc", f"{exp}.v1", f".{exp}", exp.upper()])
    return s


def cmd(m, spec, outdir="out", tag=""):
    """-> {"argv", "files": declared output files, "dirs": declared output directories, "exp"}"""
    exp = spec["exp"]
    a = ["export", exp] + common_args(m, exp)
    for g in spec["opts"]:
        a += g
    files, dirs = [], []
    R = "$R/"
    has_t = bool(m["types"]) and exp in TYPES_OK
    tag = spec.get("tag", tag)
    outdir = spec.get("outdir", outdir)
    if exp in EXT and not spec.get("noout"):
        f = f"{outdir}/{tag}{spec.get('name', exp)}.{EXT[exp]}"
        a += ["-o", R + f]
        files.append(f)
    if spec.get("types_out") and (has_t or spec["types_out"] == "always" and exp in ("json", "yaml", "csv")):
        f = f"{outdir}/{tag}{exp}-types.{EXT[exp]}"
        a += ["--types-output", R + f]
        files.append(f)
    if exp == "protobuf" and has_t:
        d = f"{outdir}/{tag}protos"
        a += ["--types-out-dir", R + d]
        dirs.append(d)
    if exp == "apigear":
        d = f"{outdir}/{tag}apigear"
        a += ["--output-dir", R + d]
        dirs.append(d)
    if exp == "samm":
        d = f"{outdir}/{tag}ttls"
        a += ["--target-folder", R + d]
        dirs.append(d)
    return {"argv": spec.get("global", []) + a + spec.get("extra", []), "files": files, "dirs": dirs, "exp": exp}
