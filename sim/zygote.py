"""Warm interpreter from which simulated processes are forked.

Started with LD_PRELOAD=shim and a fixed PYTHONHASHSEED.  Each job arrives as one
datagram (JSON) with one descriptor, the child's line to the simulator.  The child
becomes a fresh `vspec` process: own argv, environment, cwd, umask, standard
streams, logging set-up, entropy; every libc call of interest then goes through
the shim.  mode "cold" leaves the whole tool un-imported, so that the child
imports it exactly as the console script does; "warm" pre-imports the core.
"""
import array
import ctypes
import fcntl
import gc
import io
import json
import os
import resource
import signal
import socket
import sys

REPO = os.environ["SIM_REPO"]
SHIM = os.environ["SIM_SHIM"]
MODE = os.environ["SIM_MODE"]
ctl = socket.socket(fileno=int(os.environ["SIM_CTL"]))
sys.path[:] = [os.path.join(REPO, "src")] + [p for p in sys.path if p and not p.endswith("/src") and "verif" not in p]
sys.dont_write_bytecode = True

import atexit, copy, csv, difflib, importlib, importlib.metadata, keyword, locale, logging, math, pathlib, random, re, struct, tempfile, typing, uuid  # noqa
import anytree, graphql, pydantic, rdflib, rich.console, rich.logging, rich.pretty, rich.traceback, rich_click, typing_extensions, yaml  # noqa
import rdflib.plugins.serializers.turtle  # noqa
import rdflib.plugins.parsers.notation3  # noqa
from pydantic import BaseModel, ConfigDict, Field, ValidationError, field_validator, model_validator  # noqa


class _Warm(BaseModel):
    model_config = ConfigDict(extra="allow")
    a: int | float | None = None
    b: list[str] = []

    @field_validator("a")
    @classmethod
    def f(cls, v):
        return v


def _warm_libs():
    """Fill third-party caches (regexes, cell widths) that every process would fill for itself."""
    con = rich.console.Console(file=io.StringIO(), width=80, color_system=None)
    h = rich.logging.RichHandler(console=con, rich_tracebacks=True)
    lg = logging.Logger("warm")
    lg.addHandler(h)
    lg.warning("Loaded 'VSSUnit', file=/a/b/c.yaml, elements=3 x=1.5 {'a': [1, True, None]}")
    try:
        raise ValueError("x")
    except ValueError:
        con.print(rich.traceback.Traceback())
        import traceback
        traceback.format_exc()
    yaml.safe_load("A:\n  b: [1, 2.5, 'x', true]\n  c: {d: null}\n")
    yaml.dump({"a": [1, "b", None, 1.5, True]}, io.StringIO())
    rich.pretty.pretty_repr({"a": [1, 2]})
    _Warm(a=1, x=2).model_dump()


_warm_libs()
try:
    import _testcapi
except ImportError:  # allocation faults are then not offered
    _testcapi = None

sys.pycache_prefix = os.environ.pop("SIM_PYC")  # from here on: byte code of the tool comes from the check's own build
if MODE == "warm":
    import vss_tools.vspec.cli  # noqa
    import vss_tools.vspec.main  # noqa
    for _e in ("json", "yaml", "csv", "id", "jsonschema", "protobuf", "graphql", "franca", "binary", "ddsidl", "apigear", "tree", "go"):
        importlib.import_module("vss_tools.vspec.vssexporters.vss2" + _e)
    from vss_tools.vspec.vssexporters.vss2samm import vss2samm as _s  # noqa (helpers stay unimported: the exporter imports them)

shim = ctypes.CDLL(SHIM)
shim.sim_arm.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_uint64, ctypes.c_int64, ctypes.c_int64, ctypes.c_int,
                         ctypes.c_char_p, ctypes.c_char_p, ctypes.c_char_p]
shim.sim_point.argtypes = [ctypes.c_int64]
CLI_ENTRY = "vss_tools.vspec.cli"


def one_cli(argv):
    """What the console script does: sys.exit(cli()).  Returns the exit code."""
    sys.argv = ["vspec"] + argv
    try:
        mod = importlib.import_module(CLI_ENTRY)
        rv = mod.cli()
        raise SystemExit(rv)
    except SystemExit as e:
        c = e.code
        if c is None:
            return 0
        if isinstance(c, int):
            return c & 0xFF
        print(c, file=sys.stderr)
        return 1
    except KeyboardInterrupt:
        sys.excepthook(*sys.exc_info())
        return 130
    except BaseException:
        try:
            sys.excepthook(*sys.exc_info())
        except BaseException:
            pass
        return 1


def one_lib(kw, dump):
    """Library use: load the trees and dump them."""
    try:
        from pathlib import Path
        main = importlib.import_module("vss_tools.vspec.main")
        args = {}
        for k, v in kw.items():
            if k == "vspec":
                v = Path(v)
            elif k in ("include_dirs", "overlays", "units", "quantities", "types"):
                v = tuple(Path(x) for x in v)
            elif isinstance(v, list):
                v = tuple(v)
            args[k] = v
        root, types = main.get_trees(**args)
        d = {"root": root.as_flat_dict(True), "types": types.as_flat_dict(True) if types else None}
        with open(dump, "w", encoding="utf-8") as f:
            json.dump(d, f)
        return 0
    except SystemExit as e:
        c = e.code
        return 0 if c is None else (c & 0xFF if isinstance(c, int) else 1)
    except KeyboardInterrupt:
        return 130
    except BaseException:
        try:
            sys.excepthook(*sys.exc_info())
        except BaseException:
            pass
        return 1


class _Tty(io.FileIO):
    def isatty(self):
        return True


def _magic(seed, env_too):
    """Facts about the machine that are no input of an export: processors, users, load, terminal size, memory limits, and every environment variable the tool may ask for."""
    import platform
    r = random.Random(seed)
    n = r.choice([1, 2, 96])
    uid = r.choice([0, 1000, 65534])
    os.cpu_count = lambda: n
    os.process_cpu_count = lambda: n
    os.sched_getaffinity = lambda pid: set(range(n))
    for f in ("getuid", "geteuid", "getgid", "getegid"):
        setattr(os, f, lambda: uid)
    os.getlogin = lambda: r.choice(["root", "ci"])
    os.getloadavg = lambda: (9.5, 8.5, 7.5)
    un = os.uname_result((r.choice(["Linux", "Darwin"]), "node", "9.9.9", "#1", r.choice(["x86_64", "aarch64", "armv7l"])))
    os.uname = lambda: un
    platform.uname = lambda: un
    platform.system, platform.machine, platform.node, platform.release = (lambda: un[0]), (lambda: un[4]), (lambda: un[1]), (lambda: un[2])
    sz = os.terminal_size(r.choice([(40, 10), (300, 80), (1, 1)]))
    os.get_terminal_size = lambda fd=1: sz
    if not env_too:
        return
    cls = type(os.environ)
    real = cls.__getitem__

    def item(self, key):
        try:
            return real(self, key)
        except KeyError:
            f = sys._getframe(1)
            for _ in range(3):
                if f is None or not f.f_code.co_filename.endswith(("/os.py", "_collections_abc.py", "<frozen os>", "<frozen _collections_abc>")):
                    break
                f = f.f_back
            if f is None or "/vss_tools/" not in f.f_code.co_filename:
                raise
            return random.Random(f"{seed}{key}").choice(["1", "0", "true", "no", "x", "2024", "/nonexistent"])
    cls.__getitem__ = item


def _state(first):
    """What a process owns and an export has no business keeping or changing."""
    import csv
    import decimal
    import enum
    import faulthandler
    import locale
    import pathlib
    import tempfile
    import time
    import socket as so
    import threading
    import warnings
    import yaml
    gc.collect()
    fds = []
    for n in range(3, 400):
        try:
            fcntl.fcntl(n, fcntl.F_GETFD)
            fds.append(n)
        except OSError:
            pass
    um = os.umask(0)
    os.umask(um)

    def log_of(x):
        return [type(h).__name__ for h in x.handlers]
    hard = {
        "working directory": os.getcwd(), "umask": um, "environment": dict(os.environ), "limits": [resource.getrlimit(getattr(resource, r)) for r in ("RLIMIT_NOFILE", "RLIMIT_FSIZE", "RLIMIT_AS", "RLIMIT_STACK", "RLIMIT_CPU")],
        "signal handlers": {s: _name(signal.getsignal(s)) for s in (1, 2, 3, 6, 10, 12, 13, 14, 15)}, "timers": [signal.getitimer(t)[1] for t in (0, 1, 2)] + [signal.getitimer(0)[0] > 0],
        "blocked signals": sorted(int(x) for x in signal.pthread_sigmask(signal.SIG_BLOCK, [])), "locale": locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit(),
        "standard streams": [sys.stdout is first[0], sys.stderr is first[1], sys.stdout.encoding, sys.stdout.errors, sys.stderr.errors], "exception hook": _name(sys.excepthook),
        "disabled logging": logging.root.manager.disable, "trace": repr(sys.gettrace()) + repr(sys.getprofile()), "gc": [gc.isenabled(), gc.get_threshold()],
        "socket timeout": so.getdefaulttimeout(), "switch interval": sys.getswitchinterval(), "integer digits": sys.get_int_max_str_digits(), "unraisable hook": _name(sys.unraisablehook),
        "open": _name(open) + _name(print) + _name(os.getcwd) + _name(os.open) + _name(json.dumps), "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "temporary directory": tempfile.tempdir, "thread hook": _name(threading.excepthook), "display hook": _name(sys.displayhook),
        "log level names": [logging.getLevelName(x) for x in range(0, 60, 5)], "log classes": [logging.getLoggerClass().__name__, _name(logging.getLogRecordFactory()), logging.raiseExceptions],
        "fault handler": faulthandler.is_enabled(), "bytecode": sys.dont_write_bytecode, "processors": sorted(os.sched_getaffinity(0)),
        "number context": [str(decimal.getcontext().rounding), sorted(str(k) for k, v in decimal.getcontext().traps.items() if v)], "standard input": [sys.stdin is first[2]],
        "patches": [_name(x) for x in (json.JSONEncoder.default, json.JSONEncoder.encode, yaml.SafeDumper.represent_data, yaml.SafeDumper.ignore_aliases, yaml.Dumper.ignore_aliases, logging.Logger.handle,
                                       pathlib.Path.open, pathlib.Path.read_text, pathlib.Path.write_text, os.path.exists, time.time, csv.writer, enum.Enum.__str__, warnings.showwarning, sys.exit)],
    }
    soft = {
        "root log level": logging.root.level,
        "open files": fds, "threads": threading.active_count(), "root log handlers": log_of(logging.getLogger()), "log handlers": log_of(logging.getLogger("vss-tools")),
        "log filters": [len(logging.getLogger(x).filters) for x in (None, "vss-tools")], "log handler levels": [h.level for h in logging.getLogger().handlers],
        "module search path": list(sys.path), "warning filters": [str(x[:2]) + _name(x[2]) for x in warnings.filters], "csv dialects": sorted(csv.list_dialects()), "csv limit": csv.field_size_limit(), "decimal precision": decimal.getcontext().prec,
        "yaml constructors": {c.__name__: sorted(str(k) + _name(v) for k, v in c.yaml_constructors.items()) for c in (yaml.SafeLoader, yaml.FullLoader, yaml.Loader)},
        "yaml representers": {c.__name__: sorted(str(k) + _name(v) for k, v in c.yaml_representers.items()) for c in (yaml.SafeDumper, yaml.Dumper)},
        "yaml resolvers": {c.__name__: sorted(f"{k}{len(v)}" for k, v in c.yaml_implicit_resolvers.items()) for c in (yaml.SafeLoader, yaml.SafeDumper, yaml.Loader)},
        "exit handlers": atexit._ncallbacks(), "builtins": len(vars(__builtins__) if not isinstance(__builtins__, dict) else __builtins__), "tzset": list(__import__("time").tzname),
        "import hooks": [len(sys.meta_path), len(sys.path_hooks)],
    }
    return {"hard": hard, "soft": soft}


def _name(f):
    return getattr(f, "__module__", "") and f"{f.__module__}.{getattr(f, '__qualname__', f)}" or str(getattr(f, "__qualname__", f))


def _guarded(code):
    """Lines of a function from which an exception is handled, or passed through a with or finally, in the function itself."""
    import dis
    r = set()
    try:
        tab = dis._parse_exception_table(code)
    except Exception:
        return r
    for s, e, line in code.co_lines():
        if line is not None and any(t.start < e and s < t.end and not t.lasti for t in tab):
            r.add(line)
    return r


def _nomem_at(a, b, nth, what="call"):
    """Allocations start to fail a few after the nth call of a function, or the nth line (guarded line), of an exporter module (of any module)."""
    mon = sys.monitoring
    left = [nth]
    lines = {}

    def start(code, at):
        if what[:7] == "guarded":
            if ("/vss_tools/" if what == "guarded" else "/vssexporters/") not in code.co_filename:
                return mon.DISABLE
            if code not in lines:
                lines[code] = _guarded(code)
            if at not in lines[code]:
                return mon.DISABLE
        elif "/vssexporters/" not in code.co_filename:
            return mon.DISABLE
        left[0] -= 1
        if left[0] == 0:
            mon.set_events(4, 0)
            _testcapi.set_nomemory(a, b)
    mon.use_tool_id(4, "sim")
    ev = mon.events.PY_START if what == "call" else mon.events.LINE
    mon.register_callback(4, ev, start)
    mon.set_events(4, ev)


def child(job, cfd):
    os.setsid()
    for fd, p in ((0, "/dev/null"), (1, job["stdout"]), (2, job["stderr"])):
        f = os.open(p, os.O_RDONLY if fd == 0 else os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
        os.dup2(f, fd)
        os.close(f)
    # keep only the line to the simulator, away from the low descriptors
    hi = 1000
    os.dup2(cfd, hi, inheritable=False)
    os.close(cfd)
    ctl.close()
    os.environ.clear()
    os.environ.update(job["env"])
    os.chdir(job["cwd"])
    os.umask(job.get("umask", 0o022))
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_CPU, (job.get("cpu", 60), job.get("cpu", 60) + 2))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_NOFILE, (1024, 1024))
    cs = job["codeset"]
    sys.stdout = io.TextIOWrapper(io.BufferedWriter(io.FileIO(1, "w", closefd=False)), encoding=cs, errors="backslashreplace" if cs != "UTF-8" else "strict", line_buffering=False)
    sys.stderr = io.TextIOWrapper(io.BufferedWriter(io.FileIO(2, "w", closefd=False)), encoding=cs, errors="backslashreplace", line_buffering=True)
    if job.get("tty"):
        sys.stdout = io.TextIOWrapper(io.BufferedWriter(_Tty(1, "w", closefd=False)), encoding=cs, errors=sys.stdout.errors, line_buffering=False)
        sys.stderr = io.TextIOWrapper(io.BufferedWriter(_Tty(2, "w", closefd=False)), encoding=cs, errors="backslashreplace", line_buffering=True)
    if job.get("magic"):
        _magic(job["magic"], job.get("envmagic", True))
    sys.__stdout__, sys.__stderr__ = sys.stdout, sys.stderr
    random.seed(job["seed"])
    if "TZ" in job["env"]:
        import time
        time.tzset()
    if "vss_tools" in sys.modules:
        rootlog = logging.getLogger()
        for h in list(rootlog.handlers):
            rootlog.removeHandler(h)
        importlib.reload(sys.modules["vss_tools"])
    sfd = None
    if job.get("pre"):
        # every module of the tool imported before the first call: what changes later is the calls' doing
        import pkgutil
        import vss_tools
        for x in pkgutil.walk_packages(vss_tools.__path__, "vss_tools."):
            if not x.name.endswith("__main__"):
                try:
                    importlib.import_module(x.name)
                except Exception:
                    pass
        for x in ("vss2samm.vss2samm",):
            try:
                importlib.import_module("vss_tools.vspec.vssexporters." + x)
            except Exception:
                pass
    if job.get("state"):
        f = os.open(job["state"], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        sfd = 1001
        os.dup2(f, sfd, inheritable=False)
        os.close(f)
    shim.sim_arm(hi, job["root"].encode(), job["seed"] & 0xFFFFFFFFFFFFFFFF, job["now"], job["mono"], job["pid"],
                 job["host"].encode(), cs.encode(), job["entropy"].encode())
    code = 1
    shim.sim_point(0)
    if job.get("nomem") and _testcapi:
        if len(job["nomem"]) > 2:
            _nomem_at(*job["nomem"])
        else:
            _testcapi.set_nomemory(*job["nomem"])
    try:
        if "calls" in job:
            streams = (sys.stdout, sys.stderr, sys.stdin)
            if sfd:
                os.write(sfd, json.dumps(_state(streams)).encode() + b"\n")
            for i, c in enumerate(job["calls"]):
                if "chdir" in c:
                    os.chdir(c["chdir"])
                code = one_lib(c["lib"], c["dump"]) if "lib" in c else one_cli(c["argv"])
                try:
                    sys.stdout.flush()
                    sys.stderr.flush()
                except BaseException:
                    pass
                if sfd:
                    os.write(sfd, json.dumps(_state(streams)).encode() + b"\n")
                shim.sim_point((i + 1) * 1000 + code)
            code = 0
        else:
            code = one_cli(job["argv"])
    finally:
        if job.get("nomem") and _testcapi:
            _testcapi.remove_mem_hooks()
    # interpreter shutdown: exit handlers, standard streams, then leftover file objects
    try:
        atexit._run_exitfuncs()
    except BaseException:
        pass
    try:
        sys.stdout.flush()
    except BaseException:
        code = 120 if code == 0 else code
    try:
        sys.stderr.flush()
    except BaseException:
        pass
    gc.collect()
    for o in gc.get_objects():
        if isinstance(o, (io.TextIOWrapper, io.BufferedWriter)) and o is not sys.stdout and o is not sys.stderr:
            try:
                if not o.closed and o.writable() and o.fileno() not in (1, 2, hi):
                    o.close()
            except BaseException:
                pass
    shim.sim_point(-1000 - code)
    os._exit(code)


def main():
    keep = [bytearray(48) for _ in range(int(os.environ.get("PYTHONHASHSEED", "0")) % 4096)]  # seeded address layout
    gc.collect()
    gc.freeze()
    ctl.send(b"ready")
    while True:
        try:
            data, anc, _, _ = ctl.recvmsg(1 << 20, socket.CMSG_SPACE(4))
        except OSError:
            break
        if not data:
            break
        msg = json.loads(data)
        if "reap" in msg:
            pid, st, ru = os.wait4(msg["reap"], 0)
            ctl.send(json.dumps({"status": st, "cpu": ru.ru_utime + ru.ru_stime, "rss": ru.ru_maxrss}).encode())
            continue
        fds = array.array("i")
        fds.frombytes(anc[0][2][:4])
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                child(msg, fds[0])
            finally:
                os._exit(99)
        os.close(fds[0])
        ctl.send(json.dumps({"pid": pid}).encode())


main()
