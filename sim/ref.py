"""Small executable reference model: what a generated model resolves to, and static UIDs.

Written from docs/vspec.md, docs/id.md and the VSS rule set, not from the code: layering by
file order, includes with prefixes, deletion, instance expansion, FNV-1 identity.
"""
import copy
import re


class Unsupported(Exception):
    """The reference model does not cover this model; such a scenario decides nothing."""


KNOWN_EXCLUDE = ("delete", "instantiate", "arraysize", "aggregate", "instances")


def layers(m):
    """Node definitions in the order in which later ones take precedence."""
    files = m["files"]

    def load(fn, prefix):
        s = files.get(fn)
        if s is None or "nodes" not in s:
            raise Unsupported(fn)
        yield {(f"{prefix}.{k}" if prefix else k): v for k, v in s["nodes"].items()}
        base = fn.rsplit("/", 1)[0]
        for target, pre in s.get("inc", []):
            for d in inc_dirs + [base]:
                if f"{d}/{target}" in files:
                    p = prefix
                    if pre is not None:
                        p = f"{prefix}.{pre}" if prefix else pre
                    yield from load(f"{d}/{target}", p)
                    break
            else:
                raise Unsupported("include " + target)
    for top in [m["main"]] + m["overlays"]:
        inc_dirs = [top.rsplit("/", 1)[0]] + m["incdirs"]
        yield from load(top, None)


def merge(base, new):
    for k, v in new.items():
        if isinstance(v, dict) and isinstance(base.get(k), dict):
            merge(base[k], v)
        else:
            base[k] = copy.deepcopy(v)


class N:
    def __init__(self, name, data):
        self.name, self.data, self.kids = name, data, []

    def kid(self, name):
        return next((k for k in self.kids if k.name == name), None)

    def clone(self):
        n = N(self.name, copy.deepcopy(self.data))
        n.kids = [k.clone() for k in self.kids]
        return n


def tree(m):
    flat = {}
    for layer in layers(m):
        merge(flat, layer)
    roots = [k for k in flat if "." not in k]
    if len(roots) != 1:
        raise Unsupported("roots")
    root = N(roots[0], flat[roots[0]])
    for k, v in flat.items():
        parts = k.split(".")
        if parts[0] != root.name:
            raise Unsupported("foreign root")
        n = root
        for i, p in enumerate(parts[1:], 1):
            c = n.kid(p)
            if c is None:
                c = N(p, {"type": "branch", "_auto": True})
                n.kids.append(c)
            n = c
        n.data = v
    return root


def unroll(label):
    g = re.match(r"^(.*)\[(\d+),(\d+)\](.*)$", label)
    if not g:
        return [label]
    return [f"{g[1]}{i}{g[4]}" for i in range(int(g[2]), int(g[3]) + 1)]


def expand(n):
    inst = n.data.get("instances") if n.data.get("type") == "branch" and "description" in n.data else None
    if isinstance(inst, str):
        inst = [inst]
    if inst:
        levels, single = [], []
        for item in inst:
            if isinstance(item, list):
                levels.append([x for s in item for x in unroll(str(s))])
            else:
                u = unroll(str(item))
                if len(u) > 1:
                    levels.append(u)
                else:
                    single += u
        if single and levels:
            raise Unsupported("mixed instance declaration")
        if single:
            levels = [single]
        inherited = [k for k in n.kids if k.data.get("instantiate", True)]
        stay = [k for k in n.kids if not k.data.get("instantiate", True)]
        proto = {k: v for k, v in n.data.items() if k != "instances"}
        labels = set(levels[0])
        over = {k.name: k for k in inherited if k.name in labels}
        inherited = [k for k in inherited if k.name not in labels]
        if any(k.name in labels for k in stay):
            raise Unsupported("label clash")

        def grow(parent, depth):
            for lab in levels[depth]:
                b = N(lab, copy.deepcopy(proto))
                parent.kids.append(b)
                if depth + 1 < len(levels):
                    grow(b, depth + 1)
                else:
                    b.kids = [k.clone() for k in inherited]
        n.kids = stay
        n.data = dict(n.data)
        n.data.pop("instances")
        grow(n, 0)

        def lay_over(dst, src):
            if dst.data.get("delete"):
                raise Unsupported("overlay on an instance of a deleted node")
            merge(dst.data, {k: v for k, v in src.data.items() if k != "_auto"})
            for c in src.kids:
                d = dst.kid(c.name)
                if d is None:
                    dst.kids.append(c.clone())
                else:
                    lay_over(d, c)
        for name, o in over.items():
            lay_over(n.kid(name), o)
    for k in n.kids:
        expand(k)


def resolve(m, expanded=True):
    """{fqn: attributes} of the resolved model (order: parents before children)."""
    r = tree(m)
    if expanded:
        expand(r)
    out = {}

    def walk(n, pre):
        if n.data.get("delete"):
            return
        fq = f"{pre}.{n.name}" if pre else n.name
        if n.data.get("_auto") or "type" not in n.data or "description" not in n.data:
            raise Unsupported("undescribed node " + fq)
        if n.data["type"] != "branch" and n.kids:
            raise Unsupported("children of a leaf")
        out[fq] = n.data
        for k in n.kids:
            walk(k, fq)
    walk(r, "")
    return out


# ------------------------------------------------------------------- static UIDs
def fnv1(data):
    h = 0x811C9DC5
    for b in data:
        h = (h * 0x01000193) % (1 << 32)
        h ^= b
    return h


def identity(name, d, case_sensitive):
    al = d.get("allowed")
    s = "{}: unit: {}, datatype: {}, type: {}allowed: {}min: {}max: {}".format(
        name, d.get("unit") or "", d.get("datatype") or "", d["type"], "" if not al else str(al),
        "" if d.get("min") is None else d["min"], "" if d.get("max") is None else d["max"])
    b = s.encode("utf-8")
    return b if case_sensitive else bytes(c + 32 if 65 <= c <= 90 else c for c in b)


def hashed(name, d, cs):
    return "0x%08X" % fnv1(identity(name, d, cs))


def uid(fqn, d, cs):
    if d.get("constUID"):
        return d["constUID"]
    fka = d.get("fka")
    return hashed(fka[0] if fka else fqn, d, cs)


def uids(m, cs, expanded=True):
    """({fqn: uid}, {fqn: attributes})"""
    r = resolve(m, expanded)
    return {k: uid(k, v, cs) for k, v in r.items()}, r


def duplicates(u):
    seen, dup = {}, []
    for k, v in u.items():
        x = v.lower()
        if x in seen:
            dup.append((seen[x], k))
        seen.setdefault(x, k)
    return dup


# ------------------------------------------------------------------- change report
def report(old, cur_uids, cur, cs):
    """Expected validation report as a set of (category, node), or None if the history is ambiguous.
    old: published entries {fqn: entry}."""
    by_uid = {}
    for k, e in old.items():
        by_uid.setdefault(e["staticUID"], []).append(k)
    if any(len(v) > 1 for v in by_uid.values()):
        return None
    exp = set()
    taken = {}
    rest = []
    for k, u in cur_uids.items():
        if u in by_uid:
            o = by_uid[u][0]
            if o in taken:
                return None
            taken[o] = k
            if o != k and any(hashed(f, cur[k], cs) == u for f in cur[k].get("fka") or []):
                exp.add(("RENAMED", k))
            if old[o]["description"] != cur[k]["description"]:
                exp.add(("DESCRIPTION", k))
        else:
            rest.append(k)
    for k in rest:
        hits = {by_uid[h][0] for f in cur[k].get("fka") or [] for h in [hashed(f, cur[k], cs)] if h in by_uid}
        if len(hits) > 1:
            return None
        if hits:
            o = hits.pop()
            if o in taken or (k in old and k != o):
                return None
            taken[o] = k
            exp.add(("RENAMED", k))
    for k in rest:
        if ("RENAMED", k) in exp:
            continue
        if k in old:
            if k in taken:
                return None     # its old name now belongs to another node
            taken[k] = k
            exp.add(("BREAKING", k))
        else:
            exp.add(("ADDED", k))
    # a published name taken over by another node while its own node went elsewhere
    for o, k in taken.items():
        if o != k and k in old and k not in taken:
            return None
        if o != k and o in cur_uids:
            return None
    for o in old:
        if o not in taken:
            exp.add(("DELETED", o))
    return exp


CATS = (("RENAMED", r"(?:SEMANTIC NAME CHANGE|PATH CHANGE)[^']*'([^']*)'"), ("DESCRIPTION", r"DESCRIPTION MISMATCH[^\n]*? of (\S+) has changed"),
        ("BREAKING", r"BREAKING CHANGE[^']*'([^']*)'"), ("ADDED", r"ADDED ATTRIBUTE[^']*'([^']*)'"), ("DELETED", r"DELETED ATTRIBUTE[^']*'([^']*)'"))


def parse_report(text):
    got = []
    for cat, rx in CATS:
        for g in re.finditer(rx, text):
            got.append((cat, g[1]))
    return got
