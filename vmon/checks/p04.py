"""MD superblock recognition and description."""
from datetime import datetime, timedelta, timezone

from vmon.build_md import array_model, build_members, random_array, uuid_of
from vmon.content import SparseDisk
from vmon.monitor import StreamMonitor, Violation

CASES = {"quick": 6000, "thorough": 60000}
ANY_POSITION = True
RULE = "distinct (version, level, layout, member count, device alignment class, size class) assembled, described and read"
MINIMUM = {"stream_ops": 3000, "comparisons": 10000, "expected_errors": 20}
EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)


def as_time(v):
    return EPOCH + timedelta(seconds=v & 0xFFFFFFFFFF, microseconds=v >> 40)


def same_time(got, want):
    """Equal times; beyond 2038 up to what floating point arithmetic on seconds can resolve."""
    if want.year >= 2038 and isinstance(got, datetime) and abs(got - want) < timedelta(milliseconds=1):
        return want
    return got


def observe_size(ctx, a, vd, what="array"):
    """Returns the size the stream is expected to have; records the known deviations."""
    want = a.true_size()
    got = vd.size
    ctx.count("comparisons")
    comp = a.component * 512
    if a.version == "0.90" and a.level in (1, 4, 5, 6, 10):
        if got == want:
            return want
        if got == comp // 2:
            ctx.known("KF-MD90-SIZE", f"{what}: size {got}, array has {want}")
            return got
    elif a.level in (4, 5, 6, 10) and got != want and got == comp:
        ctx.known("KF-MD-COMPONENT-SIZE", f"{what}: size {got}, array has {want}")
        return got
    if got != want:
        raise Violation("wrong value", f"{what} level {a.level} version {a.version}: size {got}, expected {want}")
    return want


class Clip:
    def __init__(self, model, size):
        self.model, self.size = model, min(size, model.size)

    def read(self, off, n):
        n = min(n, self.size - off)
        return self.model.read(off, n) if n > 0 else b""


def monitor_array(ctx, rng, a, vd, members, content, ops=8, label=None):
    with ctx.observing("size"):
        size = observe_size(ctx, a, vd)
    stream = ctx.lib("open volume", vd.open)
    model = array_model(a, members, content)
    label = label or f"MD {a.version} level {a.level}/{a.layout:#x} n={a.n} chunk={a.chunk}"
    if a.level == 1:
        # the stream of a mirror may extend to the end of the member's data area
        model = content
        with ctx.observing("size"):
            end = stream.seek(0, 2)
            stream.seek(0)
        if end < content.size:
            raise Violation("wrong value", f"{label}: stream ends at {end}, array has {content.size}")
        for _ in range(ops):
            n = rng.choice([1, 512, 4096, 8193, 70000])
            off = rng.randint(0, max(0, content.size - n))
            with ctx.observing(label):
                got = stream.readoffset(off, n) if hasattr(stream, "readoffset") else (stream.seek(off), stream.read(n))[1]
            ctx.count("stream_ops")
            want = content.read(off, n)
            if bytes(got[: len(want)]) != want:
                raise Violation("wrong data", f"{label}: at {off:#x} length {n}")
        return stream
    if model.size > size:
        model = Clip(model, size)
    sm = StreamMonitor(ctx, stream, model, label, grains=(a.chunk, a.chunk * a.n, 512), max_len=1 << 18)
    if model.size:
        sm.run(rng, ops)
        sm.full(1 << 20, piece=rng.choice([None, 65536, 12345]))
    return stream


def case(ctx, rng, idx, tier):
    from dissect.volume.md import md as mdmod

    if idx % 25 == 24:
        # no superblock anywhere
        size = rng.choice([0, 1, 100, 512, 4096, 8192, 65536, 200000, 1 << 20, 1 << 40])
        fh = ctx.source(SparseDisk(9, size, zero=rng.random() < 0.3), "plain", with_size=rng.random() < 0.5)
        ctx.expect_error("MD() on a device without superblock", Exception, lambda: mdmod.MD([fh]))
        ctx.state("none", size)
        return
    version = ["0.90", "1.0", "1.1", "1.2"][idx % 4]
    level = [-1, 0, 1, 4, 5, 6, 10][(idx // 4) % 7]
    big = rng.random() < 0.2 and version != "0.90"
    a = random_array(rng, version, level, big=big)
    ctx.params = dict(version=version, level=level, layout=a.layout, n=a.n, chunk=a.chunk, component=a.component,
                      members=a.member_sectors, data_offsets=a.data_offsets)
    members, roles, numbers, content = build_members(rng, a)
    fhs = [ctx.source(d, f"m{i}", with_size=rng.random() < 0.5) for i, (d, _) in enumerate(members)]
    arg = fhs if len(fhs) > 1 or rng.random() < 0.5 else fhs[0]
    md = ctx.lib("MD()", mdmod.MD, arg)
    with ctx.observing("description"):
        ctx.eq("number of arrays", len(md.configurations), 1)
        conf = md.configurations[0]
        ctx.eq("number of members", len(conf.physical_disks), a.n)
        ctx.eq("number of volumes", len(conf.virtual_disks), 1)
        by_slot = {d.raid_disk: d for d in conf.physical_disks}
        ctx.eq("slots", sorted(by_slot), list(range(a.n)))
        for slot, (disk, info) in enumerate(members):
            pd = by_slot[slot]
            name = None if version == "0.90" else a.name.decode(errors="surrogateescape")
            for attr, want in [
                ("set_uuid", uuid_of(a.set_uuid)), ("set_name", name), ("events", info["events"]), ("level", a.level),
                ("layout", a.layout), ("chunk_size", a.chunk), ("raid_disks", a.n), ("raid_disk", slot),
                ("dev_number", info["dev_number"]), ("data_offset", info["data_offset"]), ("data_size", info["data_size"]),
                ("sectors", info["data_size"]), ("chunk_sectors", a.chunk // 512),
                ("device_uuid", None if version == "0.90" else uuid_of(info["device_uuid"])),
                ("creation_time", as_time(a.ctime)), ("update_time", as_time(info["utime"])),
                ("size", info["data_size"] * 512), ("offset", info["data_offset"] * 512),
            ]:
                got = getattr(pd, attr)
                ctx.eq(f"member {slot} {attr} ({version})", same_time(got, want) if "time" in attr else got, want)
        vd = conf.virtual_disks[0]
        for attr, want in [("name", name), ("uuid", str(uuid_of(a.set_uuid))), ("level", a.level), ("layout", a.layout),
                           ("stripe_size", a.chunk), ("num_disks", a.n)]:
            ctx.eq(f"volume {attr}", getattr(vd, attr), want)
    monitor_array(ctx, rng, a, vd, members, content)
    ctx.state(version, level, a.layout, a.n, sorted({(d.size // 512) % 8 for d, _ in members})[0], "big" if big else "small")
