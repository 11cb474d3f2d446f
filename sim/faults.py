"""Turning seeded picks into explicit faults, using the operations of a fault-free run."""

ERRNOS = {
    "OPEN": ["EACCES", "EMFILE", "ENFILE", "EIO", "EROFS", "EPERM", "ENOMEM", "EINTR"],
    "READ": ["EIO", "EIO", "EINTR"],
    "WRITE": ["ENOSPC", "EIO", "EDQUOT", "EINTR", "EFBIG", "EPIPE", "EAGAIN"],
    "CLOSE": ["EIO", "ENOSPC", "EDQUOT"],
    "STAT": ["EACCES", "EIO", "ENOMEM"],
    "FSTAT": ["EIO", "ENOMEM"],
    "ACCESS": ["EACCES", "EIO"],
    "MKDIR": ["ENOSPC", "EACCES", "EROFS", "EDQUOT", "EIO"],
    "OPENDIR": ["EACCES", "EMFILE", "ENOMEM", "EIO"],
    "FSYNC": ["EIO", "ENOSPC"],
}
DEFAULT_ERR = ["EIO", "EACCES", "ENOSPC", "EPERM"]
SKIP = {"POINT", "SLEEP", "ESCAPE", "SPAWN", "THREAD"}


def category(op, path, c, logfile=None):
    if path in ("<stdout>", "<stderr>"):
        return "std"
    if logfile and path == "$R/" + logfile:
        return "log"
    for f in c["files"]:
        if path == "$R/" + f:
            return "out"
    for d in c["dirs"]:
        if path == "$R/" + d or path.startswith("$R/" + d + "/"):
            return "out"
    if path.startswith("$R/out"):
        return "outparent"
    if path.startswith("$R/"):
        return "in"
    return "sys"


def groups(ops, c, only=None, logfile=None):
    g = {}
    nth = {}
    for i, r in enumerate(ops):
        op, path = r[0], r[1].split(" -> ")[0] if " -> " in r[1] else r[1]
        k = nth.get((op, r[1]), 0)
        nth[(op, r[1])] = k + 1
        if op in SKIP:
            continue
        cat = category(op, path, c, logfile)
        if only and cat not in only:
            continue
        g.setdefault((op, cat), []).append((i, op, r[1], k, r[2]))
    return g


def then_again(rng, f):
    """What follows a short write: the rest fails once, or would block."""
    return dict({k: f[k] for k in ("proc", "op", "path")}, nth=f["nth"] + 1, kind="errno", errno=rng.choice(["EAGAIN", "EAGAIN", "EINTR", "ENOSPC", "EIO"]))


def pick(rng, ops, c, name=0, kinds=("errno", "short", "full", "sigint", "crash"), only=None, prefer_out=0.5, logfile=None):
    """One explicit fault, or None."""
    g = groups(ops, c, only, logfile)
    if not g:
        return None
    keys = sorted(g)
    if rng.random() < prefer_out:
        ok = [k for k in keys if k[1] in ("out", "outparent")]
        keys = ok or keys
    op, cat = rng.choice(keys)
    i, op, path, nth, size = rng.choice(g[(op, cat)])
    ks = [k for k in kinds if (k != "short" or op in ("READ", "WRITE")) and (k != "full" or op == "WRITE")]
    if not ks:
        return None
    k = rng.choice(ks)
    f = {"proc": name, "op": op, "path": path, "nth": nth, "kind": k}
    if k == "errno":
        f["errno"] = rng.choice(ERRNOS.get(op, DEFAULT_ERR))
        if rng.random() < 0.25 and f["errno"] not in ("EINTR", "EAGAIN"):
            f["sticky"] = 1
    elif k == "short":
        f["frac"] = rng.choice([0.0, 0.3, 0.5, 0.9, 0.999])
        if rng.random() < 0.4:
            f["sticky"] = 1
    elif k == "full":
        total = sum(r[4] for r in g[(op, cat)] if r[2] == path)
        f["bytes"] = rng.choice([0, 1, total // 2, max(0, total - 1), rng.randint(0, max(1, total))])
        f["nth"] = 0
        f["sticky"] = 1
        if rng.random() < 0.4:
            f["pathprefix"] = "$R/"      # the whole disk
            f.pop("path")
    elif k == "crash":
        f["when"] = rng.choice(["before", "part", "after"] if op == "WRITE" else ["before", "after"])
        if f["when"] == "part":
            f["frac"] = rng.choice([0.0, 0.25, 0.5, 0.9])
    return f
