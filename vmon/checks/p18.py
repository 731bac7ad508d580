"""What the library does to the file objects it is given: reads only, and no more than needed."""
import gc

from vmon import zoo
from vmon.checks.p21 import DONE, Guard, big_blocks, damage, explore, metadata
from vmon.monitor import Violation

CASES = {"quick": 4600, "thorough": 34000}
RULE = "distinct (volume kind, shape, read length class, volume size class) with source accounting"
MINIMUM = {"opened": 800, "accounted_reads": 10000, "closed": 1000, "failing": 150, "terabyte_volumes": 100}

KiB = 1024


def open_bound(setup):
    """Superblocks, labels and tables of every disk, however large the disks are."""
    per_disk = {"md": 32, "raid": 4, "ddf": 64, "vinum": 160, "lvm": 96, "lvmthin": 192, "thin": 96}.get(setup.kind, 96)
    return len(setup.disks) * per_disk * KiB + 4 * setup.meta


def read_bound(setup, vol, n):
    block = max(vol.block or 0, 512)
    bound = n + n // 4 + 2 * block + 64 * KiB
    if setup.kind == "vinum":
        bound += 128 * KiB  # many subdisks smaller than the granularity of reads
    if setup.kind == "vss":
        bound += vol.model.size // (8 * 16256 * 16 * KiB) * 2 * 16 * KiB  # bitmaps of more than one block, on first need
    if "thin" in setup.kind:
        bound += (n // block + 2) * 16 * 4096
    return bound


class Account:
    def __init__(self, ctx):
        self.ctx = ctx
        self.start = ctx.source_bytes

    def spent(self, what, bound):
        got = self.ctx.source_bytes - self.start
        self.start = self.ctx.source_bytes
        self.ctx.count("account_checks")
        if got > bound:
            raise Violation("too much read", f"{what}: {got} bytes of the sources were read, {bound} allowed")
        self.ctx.check_sources()


def one_read(ctx, rng, vol, stream, acc, setup):
    size = vol.model.size
    n = rng.choice([0, 1, 511, 512, 4096, 5000, 70000, rng.randint(1, 300000)])
    if rng.random() < 0.03:
        n = rng.randint(1, 1 << 22)
    off = rng.choice([0, rng.randint(0, size), rng.randint(0, size), max(0, size - rng.randint(0, 70000)), size + 5])
    n_eff = max(0, min(n, size - off))
    r = rng.random()
    what = f"{vol.label} (size {size}): reading {n} at {off:#x}"
    with ctx.observing(what):
        if r < 0.7:
            stream.seek(off)
            got = stream.read(n)
        elif r < 0.8:
            stream.seek(off)
            buf = bytearray(n)
            got = buf[: stream.readinto(buf)]
        elif r < 0.9:
            got = stream.readoffset(off, n) if hasattr(stream, "readoffset") else b""
        else:
            stream.seek(off)
            got = stream.peek(n) if hasattr(stream, "peek") else b""
    acc.spent(what, read_bound(setup, vol, n if vol.prefix else n_eff))
    if got and bytes(got[:n_eff]) != vol.model.read(off, n_eff)[: len(got)]:
        raise Violation("wrong data", what)
    ctx.count("accounted_reads")


def failing(ctx, rng, kind):
    """Errors are no reason to touch the sources either."""
    setup = zoo.make(rng, kind)
    meta = metadata(setup.disks)
    if rng.random() < 0.5:
        ways = ["wiped"]
        for d, _ in meta:
            d._over.clear()
    else:
        ways = [damage(rng, setup, meta)]
        if big_blocks(meta):
            return
    ctx.params = dict(kind=kind, tag=repr(setup.tag), ways=ways)
    fhs = [ctx.source(d, f"{kind}{i}", with_size=rng.random() < 0.5) for i, d in enumerate(setup.disks)]
    guard = Guard(ctx, f"{kind} {setup.tag} damaged by {ways}")
    walk = explore(setup, fhs, rng)
    for _ in range(6):
        opener = guard(lambda: next(walk, DONE))
        if opener is DONE or opener is None:
            break
        stream = guard(opener)
        if stream is not None:
            guard(lambda: stream.read(rng.choice([1, 512, 5000])))
            guard(stream.close)
    ctx.check_sources()
    ctx.count("failing", bool(guard.errors))


def case(ctx, rng, idx, tier):
    kind = zoo.KINDS[idx % len(zoo.KINDS)]
    if rng.random() < 0.15 and kind != "raid":
        failing(ctx, rng, kind)
        return
    big = rng.random() < 0.7
    setup = zoo.make(rng, kind, big=big)
    ctx.params = dict(kind=kind, tag=repr(setup.tag), big=big)
    fhs = [ctx.source(d, f"{kind}{i}", with_size=rng.random() < 0.5) for i, d in enumerate(setup.disks)]
    acc = Account(ctx)
    with ctx.observing(f"{kind}: opening"):
        vols = setup.enter(ctx, fhs)
    acc.spent(f"{kind} {setup.tag}: opening {len(fhs)} disks", open_bound(setup))
    ctx.count("opened")
    # again, in the state the first one left the sources in
    if rng.random() < 0.2:
        for fh in fhs:
            fh.seek(0)
        with ctx.observing(f"{kind}: opening again"):
            vols = setup.enter(ctx, fhs)
        acc.spent(f"{kind}: opening again", open_bound(setup))
    streams = []
    for vol in rng.sample(vols, min(len(vols), 4)):
        stream = ctx.lib(f"{vol.label}: open", vol.open)
        with ctx.observing("seek to the end"):
            stream.seek(0, 2)
            stream.seek(0)
        acc.spent(f"{vol.label}: open", 32 * KiB + (96 * KiB if "thin" in kind else 0) + 2 * setup.meta)
        if vol.model.size >= 1 << 40:
            ctx.count("terabyte_volumes")
        if kind == "vss":
            # the block lists of the store and of the newer ones are read once
            with ctx.observing("first read"):
                stream.seek(0)
                stream.read(1)
            acc.spent(f"{vol.label}: first read", 3 * setup.meta + 128 * KiB)
        streams.append((vol, stream))
        ctx.state(kind, *setup.tag, vol.model.size.bit_length())
    for _ in range(rng.choice([8, 16])):
        if not streams:
            break
        vol, stream = rng.choice(streams)
        one_read(ctx, rng, vol, stream, acc, setup)
        if rng.random() < 0.05 and len(streams) > 1:
            # giving up one stream must leave the sources alone
            streams.remove((vol, stream))
            ctx.lib("close", stream.close)
            ctx.count("closed")
    while streams:
        vol, stream = streams.pop()
        if rng.random() < 0.5:
            ctx.lib("close", stream.close)
        del stream
        ctx.count("closed")
        acc.spent("closing", 0)
    del vols, vol
    gc.collect(0)
    acc.spent("dropping everything", 0)
