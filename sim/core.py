"""The simulator: zygotes, simulated processes, scheduler, disk, faults, history.

A World is one simulated execution.  All of its choices come from the scenario
(explicit data) and from hashes of (schedule seed, process, operation index), so
that removing one fault does not move the others - which is what minimisation
and replay need.  Exactly one simulated process runs at any time.
"""
import array
import errno
import fcntl
import hashlib
import heapq
import json
import os
import shutil
import signal
import socket
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_PY = "/opt/venv/bin/python"

OPS = ["", "OPEN", "READ", "WRITE", "CLOSE", "STAT", "FSTAT", "MKDIR", "RMDIR", "UNLINK", "RENAME", "LINK", "SYMLINK",
       "TRUNC", "FTRUNC", "FSYNC", "ACCESS", "OPENDIR", "CHMOD", "UTIME", "READLINK", "LOCK", "SLEEP", "ESCAPE",
       "SPAWN", "THREAD", "POINT"]
GO, FAIL, SHORT, CRASH_BEFORE, CRASH_PART, CRASH_AFTER, SIGINT = range(7)
REQ = struct.Struct("<iiqqqiiii")
REP = struct.Struct("<iiqqq")
WRITE_OPS = {"MKDIR", "RMDIR", "UNLINK", "RENAME", "LINK", "SYMLINK", "TRUNC", "FTRUNC", "CHMOD", "UTIME", "WRITE"}
LINK = "\0symbolic link to "        # file content that stands for a symbolic link
EPOCH = 1_700_000_000_000_000_000


class HarnessError(Exception):
    """The simulator itself misbehaved: never a verdict about the code under test."""


def encode(text):
    """File content: U+DC80-DCFF stand for undecodable bytes, other surrogates are written the (invalid) way they are."""
    try:
        return text.encode("utf-8", "surrogateescape")
    except UnicodeEncodeError:
        return text.encode("utf-8", "surrogatepass")


def h64(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), "little")


def unit(*a):
    return h64(*a) / 2.0**64


# ----------------------------------------------------------------- build + zygotes
class Build:
    """Scratch area of one worker: shim, byte-code cache, run directories."""

    def __init__(self, base=None):
        self.own = base is None
        if base is None:
            top = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
            base = tempfile.mkdtemp(prefix="vsim-", dir=top)
        self.base = base
        self.shim = os.path.join(base, "shim.so")
        self.pyc = os.path.join(base, "pyc")

    def build(self):
        r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", self.shim, os.path.join(HERE, "shim.c"), "-ldl", "-lpthread"],
                           capture_output=True, text=True)
        if r.returncode:
            raise HarnessError("cannot build the seam: " + r.stderr)
        # byte code of the working tree, in a scratch cache (never in /repo)
        env = dict(os.environ, PYTHONPYCACHEPREFIX=self.pyc, LC_ALL="C.UTF-8")
        subprocess.run([VENV_PY, "-m", "compileall", "-q", "-j", "4", os.path.join(REPO, "src")], env=env,
                       capture_output=True)

    def clean(self):
        if self.own:
            shutil.rmtree(self.base, ignore_errors=True)


_ASLR = None


def aslr_off():
    """Address layout is a source of nondeterminism too: fixed per zygote where the kernel lets us."""
    global _ASLR
    if _ASLR is None:
        _ASLR = []
        try:
            if subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0:
                _ASLR = ["setarch", "-R"]
        except OSError:
            pass
    return _ASLR


class Slot:
    """A fixed scratch path, so that absolute paths are the same on replay."""

    def __init__(self, prefer=None):
        top = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        order = ([prefer] if prefer is not None else []) + [i for i in range(90) if i != prefer]
        for i in order:
            p = os.path.join(top, f"vsim-{i:02d}")
            try:
                self.fd = os.open(p + ".lock", os.O_RDWR | os.O_CREAT | os.O_CLOEXEC, 0o600)
                fcntl.flock(self.fd, fcntl.LOCK_EX | fcntl.LOCK_NB)
            except OSError:
                continue
            self.n, self.path = i, p
            shutil.rmtree(p, ignore_errors=True)
            os.makedirs(p)
            return
        raise HarnessError("no free scratch slot")

    def release(self):
        shutil.rmtree(self.path, ignore_errors=True)
        try:
            os.unlink(self.path + ".lock")
        except OSError:
            pass
        os.close(self.fd)


class Zygote:
    def __init__(self, build, hashseed, mode):
        self.hashseed, self.mode = hashseed, mode
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        for s in (a, b):
            for o in (socket.SO_SNDBUF, socket.SO_RCVBUF):
                s.setsockopt(socket.SOL_SOCKET, o, 1 << 20)
        env = {
            "PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": str(hashseed), "SIM_PYC": build.pyc,
            "PYTHONDONTWRITEBYTECODE": "1", "LD_PRELOAD": build.shim, "SIM_REPO": REPO, "SIM_SHIM": build.shim,
            "SIM_MODE": mode, "SIM_CTL": str(b.fileno()), "HOME": "/nonexistent", "PYTHONNOUSERSITE": "1",
        }
        cmd = aslr_off() + [VENV_PY, "-W", "ignore", os.path.join(HERE, "zygote.py")]
        self.err = open(os.path.join(build.base, f"zyg-{os.getpid()}-{hashseed}-{mode}.err"), "wb")
        self.p = subprocess.Popen(cmd, env=env, pass_fds=[b.fileno()], stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err,
                                  start_new_session=True)
        b.close()
        self.s = a
        self.ready = False

    def wait_ready(self):
        if self.ready:
            return
        self.s.settimeout(120)
        try:
            ok = self.s.recv(64) == b"ready"
        except OSError:
            ok = False
        if not ok:
            self.err.flush()
            raise HarnessError("zygote did not start: " + open(self.err.name, errors="replace").read()[-3000:])
        self.ready = True

    def spawn(self, job):
        self.wait_ready()
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        data = json.dumps(job).encode()
        self.s.sendmsg([data], [(socket.SOL_SOCKET, socket.SCM_RIGHTS, array.array("i", [b.fileno()]))])
        b.close()
        r = self.s.recv(1 << 16)
        if not r:
            raise HarnessError("zygote died")
        return a, json.loads(r)["pid"]

    def reap(self, pid):
        self.s.send(json.dumps({"reap": pid}).encode())
        r = self.s.recv(1 << 16)
        if not r:
            raise HarnessError("zygote died")
        return json.loads(r)

    def stop(self):
        try:
            self.s.close()
            self.p.kill()
            self.p.wait(10)
        except Exception:
            pass


class Zygotes:
    """Zygotes differ in hash seed and in warm/cold import; all workers have the same set."""

    def __init__(self, build, seed, n=3):
        self.specs = []
        for i in range(n):
            self.specs.append((1 + h64("hashseed", seed, i) % 4_000_000_000, "warm"))
        self.specs.append((1 + h64("hashseed", seed, n) % 4_000_000_000, "cold"))
        self.build = build
        self.z = {}

    def get(self, i):
        i %= len(self.specs)
        return self.by_spec(*self.specs[i])

    def by_spec(self, hs, mode):
        if (hs, mode) not in self.z:
            self.z[(hs, mode)] = Zygote(self.build, hs, mode)
        return self.z[(hs, mode)]

    def start_all(self):
        for s in self.specs:
            self.by_spec(*s)

    def stop(self):
        for z in self.z.values():
            z.stop()


# ----------------------------------------------------------------- processes
class Proc:
    def __init__(self, idx, spec):
        self.idx = idx
        self.spec = spec            # dict: argv|calls, env, cwd, zyg, ...
        self.sock = None
        self.nops = 0
        self.pending = None
        self.counts = {}
        self.fds = {}
        self.maxfds = 0             # most files open at once
        self.ops = []               # history: (op, path, a, b, action, ret, err)
        self.t0 = self.t1 = 0
        self.exit = None            # exit status, or -signal
        self.codes = []             # per in-process call
        self.opened_for_write = []
        self.escapes = []
        self.spawned = 0
        self.threads = 0
        self.faulted = []           # faults that fired
        self.killed = None
        self.cpu = 0.0
        self.wrote = {}             # path -> 1 if modified since last fsync (power-loss model)


class World:
    MAX_OPS = 60000

    def __init__(self, zygotes, rundir, wid="w", stats=None):
        self.zy = zygotes
        self.dir = rundir
        self.root = os.path.join(rundir, "r")
        self.meta = os.path.join(rundir, "m")
        for d in (self.root, self.meta):
            if os.path.isdir(d):
                shutil.rmtree(d)
            os.makedirs(d)
        self.now = 0                # simulated ns
        self.steps = 0
        self.nproc = 0
        self.history = []           # global op log (normalised)
        self.stats = stats if stats is not None else {}
        self.mtimes = {}
        self.digest = hashlib.blake2b(digest_size=16)

    # -- files -------------------------------------------------------
    def p(self, rel):
        return os.path.join(self.root, rel)

    def write(self, rel, data):
        f = self.p(rel)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if isinstance(data, str) and data.startswith(LINK):
            if os.path.islink(f):
                os.unlink(f)
            os.symlink(data[len(LINK):].replace("$R", self.root), f)
            self.stamp(f)
            return
        if isinstance(data, str):
            data = encode(data)
        with open(f, "wb") as fh:
            fh.write(data)
        self.stamp(f)

    def stamp(self, f, t=None):
        """File times follow the simulated clock, never the real one."""
        t = EPOCH + self.now if t is None else t
        try:
            os.utime(f, ns=(t, t), follow_symlinks=False)
            self.mtimes[f] = t
        except OSError:
            pass

    def stamp_new(self):
        for d, dn, fn in os.walk(self.root):
            for x in fn + dn:
                f = os.path.join(d, x)
                try:
                    if os.lstat(f).st_mtime_ns != self.mtimes.get(f):
                        self.stamp(f)
                except OSError:
                    pass

    def replace(self, rel, data):
        f = self.p(rel)
        if isinstance(data, str):
            data = encode(data)
        t = os.path.join(self.meta, "newversion")
        with open(t, "wb") as fh:
            fh.write(data)
        os.replace(t, f)
        self.stamp(f)

    def read(self, rel):
        try:
            with open(self.p(rel), "rb") as f:
                return f.read()
        except OSError:
            return None

    def snapshot(self, sub=""):
        """{relative path: bytes | None for a directory | 'link:..'} below root/sub."""
        out = {}
        base = self.p(sub) if sub else self.root
        for d, dn, fn in os.walk(base):
            dn.sort()
            for x in dn:
                out[os.path.relpath(os.path.join(d, x), self.root) + "/"] = None
            for x in fn:
                f = os.path.join(d, x)
                if os.path.islink(f):
                    out[os.path.relpath(f, self.root)] = b"link:" + os.readlink(f).encode()
                    continue
                try:
                    with open(f, "rb") as fh:
                        out[os.path.relpath(f, self.root)] = fh.read()
                except OSError as e:
                    out[os.path.relpath(f, self.root)] = b"unreadable:" + str(e).encode()
        return out

    def norm(self, s):
        return s.replace(self.root, "$R") if isinstance(s, str) else s

    # -- running -----------------------------------------------------
    def env_for(self, spec):
        env = {"PATH": "/usr/bin:/bin", "HOME": self.p("home"), "TMPDIR": self.p("tmp"), "LC_ALL": "C.UTF-8",
               "LANG": "C.UTF-8", "TZ": "UTC", "USER": "user", "LOGNAME": "user"}
        for k, v in (spec.get("env") or {}).items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v.replace("$R", self.root)
        return env

    def start(self, spec):
        pr = Proc(self.nproc, spec)
        self.nproc += 1
        for d in ("home", "tmp", "cwd"):
            os.makedirs(self.p(d), exist_ok=True)
        cwd = self.p(spec.get("cwd", "cwd"))
        os.makedirs(cwd, exist_ok=True)
        seed = h64("proc", spec.get("seed", 0), pr.idx)
        pr.out = os.path.join(self.meta, f"o{pr.idx}")
        pr.err = os.path.join(self.meta, f"e{pr.idx}")
        ent = os.path.join(self.meta, f"rnd{pr.idx}")
        with open(ent, "wb") as f:
            f.write(hashlib.shake_128(str(seed).encode()).digest(4096))

        def sub(x):
            if isinstance(x, str):
                return x.replace("$R", self.root)
            if isinstance(x, list):
                return [sub(y) for y in x]
            if isinstance(x, dict):
                return {k: sub(v) for k, v in x.items()}
            return x
        self.clock_skew = spec.get("clock", 0)
        job = {"env": self.env_for(spec), "cwd": cwd, "root": self.root, "stdout": pr.out, "stderr": pr.err, "seed": seed,
               "now": EPOCH + self.now + spec.get("clock", 0), "mono": 10**12 + self.now, "pid": spec.get("pid", 1000 + pr.idx),
               "host": spec.get("host", "simhost"), "codeset": spec.get("codeset", "UTF-8"), "entropy": ent,
               "umask": spec.get("umask", 0o022), "cpu": spec.get("cpu", 60)}
        if spec.get("pre"):
            job["pre"] = 1
        if spec.get("state"):
            pr.state = job["state"] = os.path.join(self.meta, f"state{pr.idx}")
        for k in ("magic", "tty"):
            if spec.get(k):
                job[k] = spec[k]
        if spec.get("nomem"):
            job["nomem"] = spec["nomem"]
        if "calls" in spec:
            job["calls"] = sub(spec["calls"])
        else:
            job["argv"] = sub(spec["argv"])
        pr.z = self.zy.get(spec.get("zyg", 0))
        pr.skew = spec.get("clock", 0)
        pr.sock, pr.pid = pr.z.spawn(job)
        pr.sock.settimeout(spec.get("cpu", 60) * 6 + 60)
        pr.t0 = self.now
        return pr

    def recv(self, pr):
        """Run the process until its next seam (or its end)."""
        try:
            data = pr.sock.recv(16384)
        except socket.timeout:
            os.kill(pr.pid, signal.SIGKILL)
            raise HarnessError("a simulated process made no system call for a very long (real) time")
        except ConnectionResetError:
            data = b""
        if not data:
            r = pr.z.reap(pr.pid)
            pr.sock.close()
            st = r["status"]
            pr.cpu = r["cpu"]
            pr.rss = r["rss"]
            pr.exit = os.waitstatus_to_exitcode(st)
            pr.t1 = self.now
            if pr.ops and pr.ops[-1][5] is None:
                pr.ops[-1][5] = "?"
            if pr.exit == 99 and not pr.ops:
                raise HarnessError("simulated process failed to start: " + self.std(pr)[1][-2000:])
            return False
        op, fd, a, b, ret, err, l1, l2, _ = REQ.unpack_from(data)
        p1 = data[REQ.size:REQ.size + l1].decode("utf-8", "surrogateescape")
        p2 = data[REQ.size + l1:REQ.size + l1 + l2].decode("utf-8", "surrogateescape")
        if pr.ops:
            last = pr.ops[-1]
            last[5], last[6] = ret, err
            if last[0] == "OPEN" and ret >= 0:
                pr.fds[ret] = last[1]
                pr.maxfds = max(pr.maxfds, len(pr.fds))
            elif last[0] == "CLOSE":
                pr.fds.pop(last[7], None)
        opn = OPS[op]
        path = self.norm(p1)
        if not path and fd >= 0:
            path = pr.fds.get(fd, {1: "<stdout>", 2: "<stderr>"}.get(fd, f"<fd{fd}>"))
        pr.pending = (opn, fd, a, b, path, self.norm(p2))
        return True

    def decide(self, pr, faults):
        """Which action does the scenario prescribe for this operation?"""
        opn, fd, a, b, path, p2 = pr.pending
        key = (opn, path)
        n = pr.counts.get(key, 0)
        pr.counts[key] = n + 1
        act, err, arg, extra = GO, 0, 0, None
        for f in faults:
            if f["proc"] != pr.spec.get("name", pr.idx):
                continue
            if "op_index" in f:
                if f["op_index"] != pr.nops:
                    continue
            else:
                if f["op"] != opn and f["op"] != "*":
                    continue
                if f.get("path") is not None and f["path"] != path:
                    continue
                if f.get("pathprefix") is not None and not path.startswith(f["pathprefix"]):
                    continue
                if f.get("sticky"):
                    if n < f.get("nth", 0):
                        continue
                elif f.get("nth", 0) != n:
                    continue
            k = f["kind"]
            if k == "errno":
                if opn == "CLOSE" and a:
                    continue
                act, err = FAIL, getattr(errno, f["errno"])
            elif k == "short":
                if opn not in ("READ", "WRITE") or a <= 1:
                    continue
                act, arg = SHORT, max(1, int(f.get("frac", 0.5) * a))
            elif k == "full":       # disk full: the write that does not fit is short, later ones fail
                if opn != "WRITE":
                    continue
                left = f.setdefault("_left", f["bytes"])
                if left <= 0:
                    act, err = FAIL, errno.ENOSPC
                elif a > left:
                    act, arg = SHORT, left
                    f["_left"] = 0
                else:
                    f["_left"] = left - a
                    continue
            elif k == "crash":
                act = {"before": CRASH_BEFORE, "part": CRASH_PART, "after": CRASH_AFTER}[f.get("when", "before")]
                arg = int(f.get("frac", 0.5) * a) if opn == "WRITE" else 0
                pr.killed = pr.nops
            elif k == "sigint":
                act = SIGINT
            elif k == "stall":
                self.now += int(f["ns"])
                extra = "stall"
            elif k == "clockjump":
                pr.skew += int(f["ns"])
                extra = "clockjump"
            else:
                raise HarnessError("unknown fault " + k)
            label = extra or (f["errno"] if k == "errno" else k)
            pr.faulted.append((pr.nops, opn, path, label))
            st = self.stats.setdefault("faults", {})
            st[f"{label}@{opn}"] = st.get(f"{label}@{opn}", 0) + 1
            if act != GO:
                break
        return act, err, arg

    def apply(self, pr, act, err, arg):
        opn, fd, a, b, path, p2 = pr.pending
        rec = [opn, path if not p2 else path + " -> " + p2, a if opn != "POINT" else a, b, (act, err, arg), None, 0, fd]
        pr.ops.append(rec)
        pr.nops += 1
        self.steps += 1
        self.history.append((pr.idx, rec))
        if opn == "OPEN" and (a & 3 or a & (os.O_CREAT | os.O_TRUNC)):
            pr.opened_for_write.append(path)
        elif opn in WRITE_OPS and opn != "WRITE":
            pr.opened_for_write.append(path)
            if p2:
                pr.opened_for_write.append(p2)
        elif opn == "ESCAPE":
            pr.escapes.append(path)
        elif opn == "SPAWN":
            pr.spawned += 1
        elif opn == "THREAD":
            pr.threads += 1
        elif opn == "POINT" and a > 0:
            pr.codes.append(a % 1000)
        if act in (GO, SHORT, CRASH_PART, CRASH_AFTER):
            if opn == "WRITE":
                pr.wrote[path] = 1
            elif opn == "OPEN" and a & os.O_TRUNC:
                pr.wrote[path] = 1
            elif opn == "FSYNC":
                pr.wrote.pop(path, None)
        try:
            pr.sock.send(REP.pack(act, err, arg, EPOCH + self.now + pr.skew, 10**12 + self.now))
        except OSError:
            pass

    LAT = {"READ": 60_000, "WRITE": 120_000, "OPEN": 40_000, "FSYNC": 4_000_000, "MKDIR": 80_000, "RENAME": 90_000, "CLOSE": 20_000}

    def run(self, specs, faults=(), sched=None, edits=(), max_ops=None):
        """Run processes concurrently to their end.  sched: {"seed": n} latency-driven,
        {"switch": {"name:op": target}} explicit, or None (one after the other)."""
        procs = [self.start(s) for s in specs]
        byname = {pr.spec.get("name", pr.idx): pr for pr in procs}
        faults = [dict(f) for f in faults]
        limit = max_ops or self.MAX_OPS
        sseed = (sched or {}).get("seed")
        switches = (sched or {}).get("switch")
        switchlog = []
        heap = []
        seq = 0
        for pr in procs:
            alive = self.recv(pr)
            if alive:
                t = self.now + (int(unit(sseed, "start", pr.idx) * 3_000_000) if sseed is not None else 0)
                heapq.heappush(heap, (t, seq, pr))
                seq += 1
        current = None
        edits = {tuple(e["at"]): e for e in edits}
        while heap:
            if switches is None and sseed is not None:
                t, _, pr = heapq.heappop(heap)
                self.now = max(self.now, t)
                if current is not None and current is not pr and current.exit is None:
                    switchlog.append([f"{current.spec.get('name', current.idx)}:{current.nops}", pr.spec.get("name", pr.idx)])
                elif current is None or current.exit is not None:
                    switchlog.append([f"*{len([p for p in procs if p.exit is not None])}", pr.spec.get("name", pr.idx)])
            else:
                pr = current if current is not None and current.exit is None else None
                if switches:
                    want = None
                    if pr is not None:
                        want = switches.get(f"{pr.spec.get('name', pr.idx)}:{pr.nops}")
                    else:
                        want = switches.get(f"*{len([p for p in procs if p.exit is not None])}")
                    if want is not None and byname.get(want) is not None and byname[want].exit is None:
                        pr = byname[want]
                if pr is None:
                    pr = next(p for p in procs if p.exit is None)
                i = next(i for i, x in enumerate(heap) if x[2] is pr)
                t = heap.pop(i)[0]
                heapq.heapify(heap)
                self.now = max(self.now, t)
            current = pr
            name = pr.spec.get("name", pr.idx)
            e = edits.get((name, pr.nops))
            if pr.pending[0] == "POINT" and pr.pending[2] >= 0:
                e = edits.get((name, "call", pr.pending[2] // 1000)) or e
            if e:
                for rel, data in e["files"].items():
                    self.replace(rel, data)
                self.stats["edits"] = self.stats.get("edits", 0) + 1
                self.digest.update(repr(("edit", sorted(e["files"]))).encode())
            act, err, arg = self.decide(pr, faults)
            opn, a = pr.pending[0], pr.pending[2]
            lat = self.LAT.get(opn, 15_000)
            if opn == "SLEEP":
                lat += max(0, a)
            if sseed is not None:
                lat = int(lat * (0.3 + 3.0 * unit(sseed, pr.idx, pr.nops) ** 4 * 4))
            self.apply(pr, act, err, arg)
            if pr.nops > limit:
                os.kill(pr.pid, signal.SIGKILL)
                pr.killed = "steps"
                while self.recv(pr):
                    pass
                pr.exit = "steps"
                continue
            if self.recv(pr):
                heapq.heappush(heap, (self.now + lat, seq, pr))
                seq += 1
        for pr in procs:
            for r in pr.ops:
                self.digest.update(repr((pr.idx, r[0], r[1], r[3] if r[0] != "OPEN" else 0, r[4], r[5], r[6])).encode("utf-8", "surrogateescape"))
            self.digest.update(repr((pr.idx, pr.exit)).encode())
            self.digest.update(self.norm(self.std(pr)[0]).encode("utf-8", "surrogateescape"))
            st = self.stats
            st["procs"] = st.get("procs", 0) + 1
            st["ops"] = st.get("ops", 0) + pr.nops
        self.switchlog = switchlog
        self.stamp_new()
        return procs

    def std(self, pr):
        r = []
        for f in (pr.out, pr.err):
            with open(f, "rb") as fh:
                r.append(fh.read().decode("utf-8", "surrogateescape"))
        return r

    def power_loss(self, pr, seed):
        """Everything a dead process had not fsynced may be lost: its files keep a seeded prefix."""
        for path in sorted(pr.wrote):
            f = path.replace("$R", self.root)
            if not os.path.isfile(f) or os.path.islink(f):
                continue
            n = os.path.getsize(f)
            c = h64("power", seed, path) % 4
            keep = {0: 0, 1: n, 2: int(n * unit("pl", seed, path)), 3: (int(n * unit("pl", seed, path)) // 512) * 512}[c]
            if keep != n:
                os.truncate(f, keep)
                st = self.stats.setdefault("faults", {})
                st["powerloss-torn-file"] = st.get("powerloss-torn-file", 0) + 1

    def interleaving_id(self):
        h = hashlib.blake2b(digest_size=8)
        for i, r in self.history:
            h.update(f"{i}{r[0]}{r[1]}{r[4][0]};".encode("utf-8", "surrogateescape"))
        return h.hexdigest()
