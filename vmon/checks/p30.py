"""What the library does to the process it runs in."""
import gc
import io
import locale
import os
import random
import signal
import socket
import subprocess
import sys
import threading
import time
import warnings

from vmon import zoo
from vmon.checks.p21 import DONE, Guard, big_blocks, damage, explore, metadata
from vmon.monitor import Violation

CASES = {"quick": 6000, "thorough": 50000}
RULE = "distinct (volume kind, shape, whole or kind of damage) opened and read under watch"
MINIMUM = {"watched": 2500, "whole": 1000, "damaged": 500, "comparisons": 20000, "reads": 10000, "imports": 10}

# what only ever touches the process or the file system around it
QUIET = ("import", "exec", "compile", "object.", "sys._getframe", "code.__new__", "marshal.", "builtins.id", "sys.unraisablehook", "gc.",
         "sys.monitoring", "monitoring.", "cpython.", "function.__new__", "time.sleep", "ctypes.", "sys.excepthook", "array.", "pickle.")
_watch = []
_installed = []


def _hook(event, args):
    if not _watch or event.startswith(QUIET):
        return
    log = _watch[-1]
    if event == "open":
        path, mode, flags = (*args, None, None, None)[:3]
        writes = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        if str(path).endswith((".py", ".pyc")) and not writes or f"{path}".find("__pycache__") >= 0:
            return
        event = f"open {path!r} {mode}"
    if event in ("os.listdir", "os.scandir") and sys._getframe(1).f_code.co_filename.startswith("<frozen importlib"):
        return
    log.append(event)


def state():
    return {
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "recursion limit": sys.getrecursionlimit(),
        "threads": threading.active_count(),
        "locale": locale.setlocale(locale.LC_ALL),
        "random state": random.getstate(),
        "signal handlers": {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGCHLD)},
        "time zone": (time.tzname, time.timezone),
        "socket timeout": socket.getdefaulttimeout(),
        "warning filters": list(warnings.filters),
        "module path": list(sys.path),
        "collector": (gc.isenabled(), gc.get_threshold()),
        "descriptors": len(os.listdir("/proc/self/fd")),
        "integer text limit": sys.get_int_max_str_digits(),
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile()),
    }


class Watch:
    """Everything between enter and exit has to leave the process alone."""

    def __init__(self, ctx, what, whole):
        self.ctx, self.what, self.whole = ctx, what, whole

    def __enter__(self):
        if not _installed:
            _installed.append(True)
            sys.addaudithook(_hook)
        self.out, self.err = io.StringIO(), io.StringIO()
        self.old = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = self.out, self.err
        self.caught = warnings.catch_warnings(record=True)
        self.warned = self.caught.__enter__()
        warnings.simplefilter("always")
        self.before = state()
        self.events = []
        _watch.append(self.events)
        return self

    def __exit__(self, kind, exc, tb):
        _watch.pop()
        after = state()
        self.caught.__exit__(None, None, None)
        sys.stdout, sys.stderr = self.old
        if kind and not isinstance(exc, Violation):
            return
        ctx = self.ctx
        ctx.count("watched")
        if self.out.getvalue() or self.err.getvalue():
            raise Violation("output", f"{self.what}: {(self.out.getvalue() + self.err.getvalue())[:200]!r} on the standard streams")
        if self.warned and self.whole:
            raise Violation("output", f"{self.what}: warning {self.warned[0].message}")
        if self.events:
            raise Violation("side effect", f"{self.what}: {self.events[:5]}")
        for k, v in self.before.items():
            ctx.count("comparisons")
            if after[k] != v:
                raise Violation("side effect", f"{self.what}: {k} changed")


def device(kind, fh):
    if kind == "md":
        from dissect.volume.md.md import MDPhysicalDisk

        return MDPhysicalDisk(fh)
    if kind == "ddf":
        from dissect.volume.ddf.ddf import DDFPhysicalDisk

        return DDFPhysicalDisk(fh)
    if kind == "vinum":
        from dissect.volume.vinum.vinum import VinumPhysicalDisk

        return VinumPhysicalDisk(fh)
    if kind in ("lvm", "lvmthin"):
        from dissect.volume.lvm.physical import LVM2Device

        return LVM2Device(fh)
    return fh


def use(ctx, rng, setup, fhs, ways):
    """Open and read everything; whether that works is the matter of other checks."""
    guard = Guard(ctx, f"{setup.kind} {setup.tag} damaged by {ways}")
    if rng.random() < 0.3:
        # devices opened beforehand are welcome, too
        ready = rng.choice([True, False])
        fhs[:] = [guard(lambda f=f: device(setup.kind, f)) or f if ready or rng.random() < 0.5 else f for f in fhs]
    if setup.kind in ("md", "ddf", "vinum", "lvm", "lvmthin"):
        rng.shuffle(fhs)
    given = [id(f) for f in fhs]
    if setup.kind == "raid":
        walk = iter([v.open for v in setup.enter(ctx, fhs)])
    else:
        walk = explore(setup, fhs, rng)
    for _ in range(8):
        opener = guard(lambda: next(walk, DONE))
        if opener is DONE or opener is None:
            break
        stream = guard(opener)
        if stream is None:
            continue
        size = int(guard(lambda: stream.seek(0, 2)) or 0)
        for off in (0, max(0, size - 700), *(rng.randint(0, max(0, size)) for _ in range(1 if ways else 5))):
            guard(lambda: (stream.seek(off), stream.read(rng.choice([1, 5000, 20000]))))
            ctx.count("reads")
        if rng.random() < 0.5:
            guard(stream.close)
    ctx.eq("file objects handed over", [id(f) for f in fhs], given)
    ctx.count("damaged" if ways else "whole")
    ctx.count("failed", bool(guard.errors))


IMPORTS = """
import importlib.util, io, os, sys
import dissect.cstruct, dissect.util.stream
from vmon.checks.p30 import state
names = []
for top in importlib.util.find_spec("dissect.volume").submodule_search_locations:
    for at, _, files in os.walk(top):
        inner = [p for p in os.path.relpath(at, top).split(os.sep) if p != "."]
        names += [".".join(["dissect.volume", *inner, f[:-3]]) for f in files if f.endswith(".py") and not f.startswith("__")]
names.sort()
if any(n in sys.modules for n in names):
    sys.exit("imported too early")
old = sys.stdout, sys.stderr
sys.stdout = sys.stderr = text = io.StringIO()
before = state()
for n in names:
    try:
        importlib.import_module(n)
    except ImportError:
        pass  # not for this system
after = state()
sys.stdout, sys.stderr = old
print(len(names), [k for k in before if before[k] != after[k]], repr(text.getvalue()), sep="|")
"""


def imports(ctx):
    """Importing every module in a fresh interpreter."""
    # this process has them imported already, so its environment is not the one to start from
    env = {k: v for k, v in os.environ.items() if k.startswith("PYTHON") or k in ("PATH", "HOME", "LANG", "LC_ALL", "TZ")}
    run = subprocess.run([sys.executable, "-c", IMPORTS], env=env, capture_output=True, text=True, timeout=300)
    if run.returncode:
        raise RuntimeError(f"modules cannot be imported: {run.stderr[-500:]}")
    count, changed, text = run.stdout.strip().split("|", 2)
    ctx.count("imports", int(count))
    ctx.eq("what importing the modules changes", changed, "[]")
    ctx.eq("what importing the modules prints", text, "''")


def case(ctx, rng, idx, tier):
    if idx == 0:
        imports(ctx)
    kind = zoo.KINDS[idx % len(zoo.KINDS)]
    setup = zoo.make(rng, kind)
    ways = []
    if rng.random() < 0.35 and kind != "raid":
        meta = metadata(setup.disks)
        ways = [damage(rng, setup, meta)]
        if big_blocks(meta):
            return
    elif rng.random() < 0.2 and len(setup.disks) > 1 and kind not in ("raid", "thin"):
        ways = [("missing",)]
    ctx.params = dict(kind=kind, tag=repr(setup.tag), ways=ways)
    fhs = [ctx.source(d, f"{kind}{i}", with_size=rng.random() < 0.5) for i, d in enumerate(setup.disks)]
    if ways == [("missing",)]:
        fhs.pop(rng.randrange(len(fhs)))
    import dissect.volume.disk, dissect.volume.vss, dissect.volume.ddf, dissect.volume.md, dissect.volume.vinum, dissect.volume.lvm, dissect.volume.dm.thin  # noqa: E401

    with Watch(ctx, f"{kind} {setup.tag} {ways}", not ways):
        use(ctx, rng, setup, fhs, ways)
    ctx.state(kind, *setup.tag, *(ways[0][:1] if ways else ()))
