"""The data area of a single member."""
from vmon.build_ddf import random_set
from vmon.build_lvm import VG
from vmon.build_md import build_members, random_array
from vmon.build_vinum import World
from vmon.checks.p10 import make_vg, write_vg
from vmon.content import Slice
from vmon.monitor import StreamMonitor
from vmon.vinumtext import DATA_START

CASES = {"quick": 3500, "thorough": 30000}
ANY_POSITION = True
RULE = "distinct (kind, data offset class, size class) read"
MINIMUM = {"stream_ops": 10000, "areas": 2000, "sector_reads": 1000, "volumes": 300}


def area(ctx, rng, kind, fh_model, stream, start, size, exact=True):
    there = max(0, min(size, fh_model.size - start))
    model = Slice(fh_model, start, there)
    label = f"{kind} data area at {start:#x} of {size:#x}"
    if exact and there == size:
        m = StreamMonitor(ctx, stream, model, label, grains=(512, 4096, 8192), max_len=1 << 16, hot=[0, size])
        m.run(rng, 12)
        m.full(1 << 18, piece=rng.choice([None, 4096, 5000]))
    else:
        # the recorded size may exceed the device; only what is there is asked for
        m = StreamMonitor(ctx, stream, model, label, size=False)
        for _ in range(8):
            n = min(there, rng.choice([1, 512, 4096, 8192, 30000]))
            m.at(rng.randint(0, there - n), n)
    ctx.count("areas")
    ctx.state(kind, start.bit_length(), size.bit_length(), start % 4096 == 0, size % 4096 == 0)


def volumes(ctx, rng, vg, src):
    """Physical volumes as the volume group describes them."""
    from dissect.volume.lvm import LVM2

    pvs = list(vg.pvs)
    rng.shuffle(pvs)
    lvm = ctx.lib("LVM2()", LVM2, [src(p.disk, p.name) for p in pvs])
    for p in pvs:
        with ctx.observing("physical volume"):
            pv = lvm.vg.physical_volumes[p.name]
            got = pv.size
        sectors = p.disk.size // 512
        want = sectors * 512 if p.described else (p.pe_start + p.count * vg.extent_sectors) * 512
        if p.described and got != want and got == sectors * vg.extent_sectors:
            ctx.known("KF-LVM-PV-SIZE", f"{p.name}: size {got}, recorded {want}")
        else:
            ctx.eq(f"{p.name} size", got, want)
        # from the first to the last extent
        stream = ctx.lib("open", pv.open)
        whole = p.count * vg.extent
        m = StreamMonitor(ctx, stream, Slice(p.disk, p.pe_start * 512, whole), f"{p.name} extents", size=False)
        for _ in range(6):
            n = min(whole, rng.choice([1, 512, 4096, vg.extent]))
            m.at(rng.choice([0, whole - n, rng.randint(0, whole - n)]), n)
        ctx.count("volumes")
        ctx.state("pv", p.described, p.header_size is None, vg.extent_sectors)


def case(ctx, rng, idx, tier):
    kind = ["md", "ddf", "vinum", "lvm"][idx % 4]
    src = lambda d, n: ctx.source(d, n, with_size=rng.random() < 0.5)
    if kind == "md":
        from dissect.volume.md.md import MDPhysicalDisk

        a = random_array(rng, big=rng.random() < 0.2 and "big" or False)
        members = build_members(rng, a)[0]
        ctx.params = dict(version=a.version, level=a.level)
        for disk, info in members:
            pd = ctx.lib("MDPhysicalDisk()", MDPhysicalDisk, src(disk, "md"))
            area(ctx, rng, kind, disk, ctx.lib("open", pd.open), info["data_offset"] * 512, info["data_size"] * 512)
    elif kind == "ddf":
        from dissect.volume.ddf.ddf import DDFPhysicalDisk

        s = random_set(rng)
        bs = s.sector if s.pde_bs == 0xFFFF else s.pde_bs
        for i, disk in enumerate(s.disks):
            pd = ctx.lib("DDFPhysicalDisk()", DDFPhysicalDisk, src(disk, "ddf"), s.sector)
            area(ctx, rng, kind, disk, ctx.lib("open", pd.open), 0, s.configured[i] * bs)
    elif kind == "vinum":
        from dissect.volume.vinum.vinum import VinumPhysicalDisk

        w = World(rng)
        for d in w.drives.values():
            pd = ctx.lib("VinumPhysicalDisk()", VinumPhysicalDisk, src(d.disk, "vinum"))
            area(ctx, rng, kind, d.disk, ctx.lib("open", pd.open), DATA_START, d.drive_size or d.disk.size, exact=False)
    else:
        from dissect.volume.lvm.lvm2 import LVM2Device

        vg = make_vg(rng)
        holders = write_vg(rng, vg)
        if holders:
            volumes(ctx, rng, vg, src)
        for p in vg.pvs:
            dev = ctx.lib("LVM2Device()", LVM2Device, src(p.disk, "lvm"))
            start = p.pe_start * 512
            with ctx.observing("device"):
                ctx.eq("id", dev.id, p.uuid.replace("-", ""))
                size = p.disk.size if p.header_size is None else p.header_size
                ctx.eq("size", dev.size, size)
            area(ctx, rng, kind, p.disk, ctx.lib("open", dev.open), start, size, exact=False)
            room = (min(p.disk.size, size) - start) // 512
            if room <= 0:
                continue
            for _ in range(6):
                n = min(room, rng.choice([0, 1, 8, rng.randint(1, 200)]))
                at = rng.choice([0, room - n, rng.randint(0, room - n)])
                got = ctx.lib(f"read_sectors({at}, {n})", dev.read_sectors, at, n)
                with ctx.observing("read_sectors"):
                    ctx.eq(f"sectors {at}+{n}", bytes(got), p.disk.read(start + at * 512, n * 512))
                ctx.count("sector_reads")
