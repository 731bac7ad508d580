"""Case context: counters, verdicts and the stream monitor."""
from __future__ import annotations

import io
from collections import Counter
from contextlib import contextmanager

from vmon.source import TracedSource
from vmon.steps import BudgetExceeded, steps


class Violation(Exception):
    def __init__(self, kind: str, detail: str):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class Ctx:
    """One case of one check."""

    def __init__(self, prop: str, known: dict):
        self.prop = prop
        self.known_table = known
        self.counters: Counter = Counter()
        self.states: set[str] = set()
        self.known_hits: dict[str, str] = {}
        self.sources: list[TracedSource] = []
        self.forbidden: list[str] = []
        self.source_ops = 0
        self.source_bytes = 0
        self.source_op_budget = 5_000_000
        self.source_byte_budget = 1 << 31
        self.step_budget = 20_000_000
        self.params: dict = {}
        self.positions = None  # where sources are left before they are handed over; at their start if not set

    # building -----------------------------------------------------------------------------------
    def source(self, model, name="src", with_size=False) -> TracedSource:
        src = TracedSource(self, model, name, with_size)
        if self.positions and self.positions.random() < 0.5:
            src.leave_at(self.positions.choice([model.size, self.positions.randint(0, model.size)]))
        return src

    # observing ----------------------------------------------------------------------------------
    def count(self, name: str, n: int = 1) -> None:
        self.counters[name] += n

    def state(self, *key) -> None:
        self.states.add("|".join(str(k) for k in key))

    def violate(self, kind: str, detail: str = ""):
        raise Violation(kind, detail)

    def known(self, key: str, detail: str) -> None:
        """A recorded finding was observed; anything not recorded is a violation."""
        entry = self.known_table.get(key)
        if not entry or self.prop not in [entry["property"], *entry.get("also", [])] or entry["status"] != "known":
            raise Violation(f"unlisted finding {key}", detail)
        self.known_hits.setdefault(key, entry["what"])

    @contextmanager
    def observing(self, what: str):
        """Any error escaping from the code under test in here is a violation."""
        try:
            yield
        except (Violation, KeyboardInterrupt, SystemExit):
            raise
        except BudgetExceeded as e:
            raise Violation("unbounded work", f"{what}: {e}") from None
        except AssertionError as e:
            if e.args and isinstance(e.args[0], tuple) and e.args[0] and e.args[0][0] == "model source too short":
                raise  # harness problem
            raise Violation("unexpected error", f"{what}: AssertionError {e}") from e
        except BaseException as e:
            raise Violation("unexpected error", f"{what}: {type(e).__name__}: {e}") from e

    def lib(self, what: str, fn, *args, **kw):
        with self.observing(what):
            self.count("lib_calls")
            return fn(*args, **kw)

    def expect_error(self, what: str, types, fn, *args, **kw):
        try:
            self.count("lib_calls")
            fn(*args, **kw)
        except types as e:
            self.count("expected_errors")
            return e
        except BudgetExceeded as e:
            raise Violation("unbounded work", f"{what}: {e}") from None
        except BaseException as e:
            raise Violation("wrong error", f"{what}: {type(e).__name__}: {e}") from e
        raise Violation("missing error", what)

    def eq(self, what: str, got, want) -> None:
        self.count("comparisons")
        if got != want:
            raise Violation("wrong value", f"{what}: got {_short(got)}, expected {_short(want)}")

    def check_sources(self) -> None:
        if self.forbidden:
            raise Violation("forbidden source operation", ", ".join(self.forbidden[:5]))

    @contextmanager
    def bounded(self, n: int):
        old_count, old_budget = steps.count, steps.budget
        steps.budget = min(old_budget, steps.count + n)
        try:
            yield
        finally:
            steps.budget = old_budget


def _short(v) -> str:
    r = repr(v)
    return r if len(r) <= 300 else r[:300] + "..."


class StreamMonitor:
    """Drives one opened stream with an operation history and checks every answer against the model."""

    def __init__(self, ctx: Ctx, stream, model, label: str, grains=(512,), max_len: int = 1 << 18, size=True, hot=()):
        self.ctx = ctx
        self.stream = stream
        self.model = model
        self.label = label
        self.size = model.size
        self.pos = 0
        self.grains = [g for g in grains if g > 0] or [512]
        self.hot = [h for h in hot if 0 <= h <= model.size]
        # numbers of bytes and sectors that need more than 31 or 32 bits
        self.hot += [1 << b for b in (31, 32, 40, 41) if 1 << b < model.size]
        self.max_len = max_len
        with ctx.observing(f"{label}: initial position"):
            ctx.eq(f"{label}: initial position", stream.tell(), 0)
        if size:
            with ctx.observing(f"{label}: size"):
                ctx.eq(f"{label}: stream size", stream.seek(0, io.SEEK_END), self.size)
                stream.seek(0)

    # single operations ---------------------------------------------------------------------------
    def _cmp(self, what: str, pos: int, n: int, got) -> None:
        want = self.model.read(pos, n)
        self.ctx.count("stream_bytes", len(want))
        got = bytes(got)
        if got != want:
            if len(got) != len(want):
                d = f"{len(got)} bytes instead of {len(want)}"
            else:
                i = next(i for i in range(len(want)) if got[i] != want[i])
                d = f"first difference at +{i} (offset {pos + i:#x}): {got[i:i + 8].hex()} != {want[i:i + 8].hex()}"
            raise Violation("wrong data", f"{self.label}: {what} at {pos:#x} length {n:#x}: {d}")

    def read(self, n: int) -> None:
        ctx = self.ctx
        ctx.count("stream_ops")
        with ctx.observing(f"{self.label}: read({n}) at {self.pos:#x}"):
            got = self.stream.read(n)
        eff = max(0, self.size - self.pos) if n < 0 else n
        self._cmp(f"read({n})", self.pos, eff, got)
        self.pos += len(got)
        with ctx.observing(f"{self.label}: tell"):
            t = self.stream.tell()
        if t != self.pos:
            raise Violation("wrong position", f"{self.label}: after read {t} != {self.pos}")

    def seek(self, off: int, whence: int = 0) -> None:
        self.ctx.count("stream_ops")
        with self.ctx.observing(f"{self.label}: seek({off}, {whence})"):
            got = self.stream.seek(off, whence)
            t = self.stream.tell()
        want = off if whence == 0 else max(0, self.pos + off) if whence == 1 else max(0, self.size + off)
        if got != want or t != want:
            raise Violation("wrong position", f"{self.label}: seek({off}, {whence}) -> {got}/{t}, expected {want}")
        self.pos = want

    def readinto(self, n: int) -> None:
        ctx = self.ctx
        ctx.count("stream_ops")
        buf = bytearray(b"\xcc" * n)
        with ctx.observing(f"{self.label}: readinto({n}) at {self.pos:#x}"):
            got = self.stream.readinto(buf)
        self._cmp(f"readinto({n})", self.pos, n, buf[:got])
        if bytes(buf[got:]) != b"\xcc" * (n - got):
            raise Violation("wrong data", f"{self.label}: readinto wrote beyond what it returned")
        self.pos += got

    def peek(self, n: int) -> None:
        if not hasattr(self.stream, "peek"):
            return
        self.ctx.count("stream_ops")
        with self.ctx.observing(f"{self.label}: peek({n}) at {self.pos:#x}"):
            got = self.stream.peek(n)
            t = self.stream.tell()
        self._cmp(f"peek({n})", self.pos, n, got)
        if t != self.pos:
            raise Violation("wrong position", f"{self.label}: peek moved {self.pos} -> {t}")

    def readoffset(self, off: int, n: int) -> None:
        if not hasattr(self.stream, "readoffset"):
            self.seek(off)
            return self.read(n)
        self.ctx.count("stream_ops")
        with self.ctx.observing(f"{self.label}: readoffset({off:#x}, {n})"):
            got = self.stream.readoffset(off, n)
        self._cmp(f"readoffset({n})", off, n, got)
        self.pos = off + len(got)

    def at(self, off: int, n: int) -> None:
        self.seek(off)
        self.read(n)

    # histories -----------------------------------------------------------------------------------
    def pick_offset(self, rng) -> int:
        size = self.size
        r = rng.random()
        if r < 0.08:
            return 0
        if r < 0.2:
            return max(0, size - rng.choice([0, 1, 2, 511, 512, 513, 4096, rng.randint(0, 70000)]))
        if r < 0.24:
            return size + rng.choice([0, 1, 512, 100000])
        if r < 0.4 and self.hot:
            return max(0, rng.choice(self.hot) + rng.choice([0, 0, -1, 1, -512, 512, -rng.randint(0, 70000), rng.randint(0, 5000)]))
        if r < 0.85:
            g = rng.choice(self.grains)
            k = rng.randint(0, max(0, size // g))
            return max(0, k * g + rng.choice([0, 0, 0, -1, 1, -512, 512, rng.randint(-g, g)]))
        return rng.randint(0, max(0, size))

    def pick_len(self, rng) -> int:
        r = rng.random()
        g = rng.choice(self.grains)
        if r < 0.06:
            return rng.choice([0, 1, 2])
        if r < 0.25:
            return rng.choice([511, 512, 513, 4096, 8192, 8193, rng.randint(1, 10000)])
        if r < 0.6:
            return min(self.max_len, max(1, g + rng.choice([0, 0, -1, 1, 512, -512])))
        if r < 0.9:
            return min(self.max_len, max(1, g * rng.randint(1, 9) + rng.choice([0, 0, -1, 1, rng.randint(0, 512)])))
        return rng.randint(1, self.max_len)

    def step(self, rng) -> None:
        r = rng.random()
        if r < 0.45:
            self.at(self.pick_offset(rng), self.pick_len(rng))
        elif r < 0.6:
            self.read(self.pick_len(rng))
        elif r < 0.7:
            self.readoffset(self.pick_offset(rng), self.pick_len(rng))
        elif r < 0.78:
            self.peek(self.pick_len(rng))
        elif r < 0.86:
            self.readinto(self.pick_len(rng))
        elif r < 0.91:
            self.seek(rng.choice([-1, 1]) * self.pick_len(rng), 1)
        elif r < 0.96:
            self.seek(-rng.randint(0, min(self.size, 1 << 20)), 2)
        else:
            if self.size - self.pos <= self.max_len:
                self.read(-1)
            else:
                self.seek(self.pick_offset(rng))

    def run(self, rng, n: int) -> None:
        for _ in range(n):
            self.step(rng)

    def full(self, limit: int = 1 << 22, piece: int | None = None) -> None:
        """Sequentially read the whole stream (if not above the limit)."""
        if self.size > limit:
            return
        self.seek(0)
        if piece is None:
            self.read(-1)
        else:
            while self.pos < self.size:
                self.read(piece)
        self.read(16)
