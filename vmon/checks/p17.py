"""Streams as fixed byte arrays under interleaved histories."""
from vmon import zoo
from vmon.monitor import StreamMonitor, Violation
from vmon.checks.p04 import Clip

CASES = {"quick": 4000, "thorough": 36000}
RULE = "distinct (volume kinds open at the same time, streams, sources disturbed, same volume opened twice)"
MINIMUM = {"stream_ops": 20000, "streams": 1500, "disturbances": 2000}


def bounded_model(vol, stream, ctx):
    """The array the stream has to look like; mirrors may go on behind the volume."""
    if not vol.prefix:
        return vol.model
    with ctx.observing(f"{vol.label}: end"):
        end = stream.seek(0, 2)
        stream.seek(0)
    if end < vol.model.size:
        raise Violation("wrong value", f"{vol.label}: ends at {end}, volume has {vol.model.size}")
    return Prefix(vol.model, end)


class Prefix:
    """Known up to some point; what follows is learned from the first answer."""

    def __init__(self, model, size):
        self.model, self.size = model, size
        self.known = model.size
        self.tail = {}

    def read(self, off, n):
        return self.model.read(off, min(n, max(0, self.known - off)))


class PrefixMonitor(StreamMonitor):
    def _cmp(self, what, pos, n, got):
        want = self.model.read(pos, n)
        full = max(0, min(n, self.size - pos))
        if len(got) != full:
            raise Violation("wrong data", f"{self.label}: {what} at {pos:#x}: {len(got)} bytes instead of {full}")
        if bytes(got[: len(want)]) != want:
            raise Violation("wrong data", f"{self.label}: {what} at {pos:#x} length {n:#x}")
        self.ctx.count("stream_bytes", len(want))


def watch(ctx, vol, max_len=70000):
    stream = ctx.lib(f"{vol.label}: open", vol.open)
    model = bounded_model(vol, stream, ctx)
    cls = PrefixMonitor if vol.prefix else StreamMonitor
    ctx.count("streams")
    return cls(ctx, stream, model, vol.label, grains=vol.grains, max_len=max_len, hot=vol.hot)


def enter(ctx, setup, fhs):
    with ctx.observing(f"{setup.kind}: opening"):
        ctx.count("lib_calls")
        return setup.enter(ctx, fhs)


def case(ctx, rng, idx, tier):
    kinds = [zoo.KINDS[idx % len(zoo.KINDS)]]
    if rng.random() < 0.3:
        kinds.append(rng.choice(zoo.KINDS))
    setups = [zoo.make(rng, k, base_id=1 + 200 * i) for i, k in enumerate(kinds)]
    ctx.params = dict(kinds=kinds, tags=[repr(s.tag) for s in setups])
    mons, sources = [], []
    vols = []
    for s in setups:
        fhs = [ctx.source(d, f"{s.kind}{i}", with_size=rng.random() < 0.5) for i, d in enumerate(s.disks)]
        for fh in fhs:
            fh.seek(rng.choice([0, 0, rng.randint(0, fh._len)]) if s.kind not in ("mbr", "gpt", "apm", "bsd", "nested") else 0)
        sources += fhs
        vs = enter(ctx, s, fhs)
        vols += vs
        if rng.random() < 0.3:
            # a second view of the same volumes over the same file objects
            for fh in fhs:
                fh.seek(0)
            vols += enter(ctx, s, fhs)
    if not vols:
        return
    twice = False
    disturb = rng.random() < 0.8
    for step in range(rng.choice([20, 40, 60])):
        if not mons or (len(mons) < 5 and rng.random() < 0.1):
            v = rng.choice(vols)
            twice |= any(m.label == v.label for m in mons)
            mons.append(watch(ctx, v))
        m = rng.choice(mons)
        if disturb and rng.random() < 0.4:
            fh = rng.choice(sources)
            what = rng.random()
            if what < 0.5:
                fh.seek(rng.randint(0, fh._len + 10))
            elif what < 0.8:
                fh.seek(rng.randint(0, fh._len))
                fh.read(rng.choice([1, 512, 5000]))
            else:
                fh.seek(0, 2)
            ctx.count("disturbances")
        m.step(rng)
    ctx.state(*sorted(s.kind for s in setups), len(mons), disturb, twice)
