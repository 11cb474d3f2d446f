"""One scenario's execution context: worlds, statistics, and the common checks' helpers."""
import hashlib
import os

from core import World
import gen


class Violation(Exception):
    def __init__(self, key, msg, detail=None):
        super().__init__(msg)
        self.key, self.msg, self.detail = key, msg, detail


class Ctx:
    def __init__(self, zygotes, slotpath, stats):
        self.zy = zygotes
        self.path = slotpath
        self.stats = stats
        self.begin()

    def begin(self):
        self.nworlds = 0
        self.worlds = []
        self.viol = []
        self.trace = []
        self.interesting = False
        self.ids = []
        self.open = None

    def world(self):
        self.close_world()
        w = World(self.zy, self.path, f"w{self.nworlds}", self.stats)
        self.nworlds += 1
        self.open = w
        return w

    def close_world(self):
        w = self.open
        if w is None:
            return
        h = w.digest.copy()
        for k, v in sorted(w.snapshot().items()):
            h.update(repr((k, v)).encode("utf-8", "surrogateescape"))
        self.trace.append(h.hexdigest())
        self.ids.append(w.interleaving_id())
        self.stats["sim_ns"] = self.stats.get("sim_ns", 0) + w.now
        self.open = None

    def fail(self, key, msg, **detail):
        self.viol.append({"key": key, "msg": msg, "detail": detail})

    def note(self, what, n=1):
        d = self.stats.setdefault("notes", {})
        d[what] = d.get(what, 0) + n

    def digest(self):
        self.close_world()
        return hashlib.blake2b(repr(self.trace).encode(), digest_size=12).hexdigest()


# ----------------------------------------------------------------- helpers
def lay(w, m, only=None):
    for name, text in gen.render(m).items():
        w.write(name, text)
    os.makedirs(w.p("out"), exist_ok=True)
    os.makedirs(w.p("in"), exist_ok=True)


def outputs(w, c):
    """Declared outputs as they are on disk: {relative path: bytes}; directories recursively."""
    out = {}
    for f in c["files"]:
        d = w.read(f)
        if d is not None:
            out[f] = d
        elif os.path.isdir(w.p(f)):
            out[f] = b"<directory>"
    for d in c["dirs"]:
        for k, v in w.snapshot(d).items():
            out[k] = v if v is not None else b"<dir>"
    return out


def diff(a, b, la="expected", lb="got"):
    """Short text about how two output maps differ, or '' if equal."""
    r = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) == b.get(k):
            continue
        if k not in b:
            r.append(f"{k}: missing in {lb}")
        elif k not in a:
            r.append(f"{k}: only in {lb}")
        else:
            x, y = a[k], b[k]
            n = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
            r.append(f"{k}: {la} {len(x)} bytes, {lb} {len(y)} bytes, first difference at byte {n}: {x[max(0, n-30):n+30]!r} vs {y[max(0, n-30):n+30]!r}")
        if len(r) > 4:
            break
    return "; ".join(r)


def spec_of(c, env=None, **kw):
    s = dict(env or {})
    s["argv"] = c["argv"]
    s.update(kw)
    return s


def alone(ctx, m, c, env=None, **kw):
    """The command alone in a fresh world without faults."""
    w = ctx.world()
    lay(w, m)
    (p,) = w.run([spec_of(c, env, **kw)])
    p.text = w.std(p)
    return p, outputs(w, c), w


def tail(w, p, n=600):
    o, e = w.std(p)
    return w.norm((o[-n:] + e[-n:]).strip())


def env(rng):
    """A random but harmless environment."""
    e = {"zyg": rng.randrange(3) if rng.random() < 0.9 else 3, "seed": rng.getrandbits(32), "clock": rng.choice([0, 0, 10**17, -10**17, 86400 * 10**9 * 400]),
         "pid": rng.choice([1000, 7, 31999]), "codeset": "UTF-8",
         "umask": rng.choice([0o022, 0o022, 0o077, 0o027, 0o002])}
    return e
