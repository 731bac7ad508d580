"""RAID0 and concatenation content."""
from vmon.content import SparseDisk
from vmon.monitor import StreamMonitor
from vmon.raidmodel import Raid0Big, linear_model, raid0_extents

CASES = {"quick": 6000, "thorough": 60000}
RULE = "distinct (kind, member count, zone count, layout, chunk class, alignment class, data start class) whose stream was read across all zone/member boundaries"
MINIMUM = {"stream_ops": 5000, "stream_bytes": 10_000_000, "boundary_reads": 1000}

CHUNKS = [512, 1024, 1536, 4096, 4096, 6 * 512, 8192, 65536, 65536, 3 * 4096, 524288, 1 << 20]


def member_sizes(rng, n, chunk, aligned, max_rows=60):
    base = [rng.randint(1, max_rows) * chunk for _ in range(rng.choice([1, 1, 2, 3, 5]))]
    sizes = [rng.choice(base) for _ in range(n)]
    if not aligned:
        sizes = [s + rng.randrange(0, chunk, 512) for s in sizes]
    return sizes


def build_raid0(ctx, rng, n, chunk, sizes, layout, shared=False):
    from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

    members, entries = [], {}
    zero = rng.random() < 0.4
    equal = len({s // chunk for s in sizes}) == 1
    map_start = equal and rng.random() < 0.3
    for m in range(n):
        off = 0 if zero else rng.randrange(0, 5000) * 512
        dstart = rng.randrange(0, 100) * 512 if map_start else 0
        disk = SparseDisk(m + 1, off + dstart + sizes[m] + rng.choice([0, 4096]))
        fh = ctx.source(disk, f"member{m}", with_size=rng.random() < 0.5)
        entries[m] = (dstart, PhysicalDisk(fh, off, dstart + sizes[m]))
        members.append((disk, off + dstart, sizes[m]))
    order = list(range(n))
    rng.shuffle(order)
    big = Raid0Big(chunk, members, orig=layout == 1)
    size = big.size
    if map_start:
        size = min(s // chunk * chunk for s in sizes) * n
        big.size = size
    vd = VirtualDisk("vd", "uuid", size, 0, layout, chunk, n, {m: entries[m] for m in order})
    cls = "mapstart" if map_start else "zero" if zero else "off"
    return vd, big, members, cls


def build_linear(ctx, rng, n, sizes):
    from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

    members, entries = [], {}
    zero = rng.random() < 0.4
    map_start = rng.random() < 0.4
    for m in range(n):
        off = 0 if zero else rng.randrange(0, 5000) * 512
        dstart = rng.randrange(0, 100) * 512 if map_start else 0
        disk = SparseDisk(m + 1, off + dstart + sizes[m] + rng.choice([0, 4096]))
        fh = ctx.source(disk, f"member{m}", with_size=rng.random() < 0.5)
        entries[m] = (dstart, PhysicalDisk(fh, off, dstart + sizes[m]))
        members.append((disk, off + dstart, sizes[m]))
    order = list(range(n))
    rng.shuffle(order)
    model = linear_model(members)
    vd = VirtualDisk("vd", "uuid", model.size, -1, 0, 0, n, {m: entries[m] for m in order})
    return vd, model, "mapstart" if map_start else "zero" if zero else "off"


def case(ctx, rng, idx, tier):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 8, rng.choice([7, 16, 17, rng.randint(9, 40)])])
    if idx % 4 == 3:
        huge = rng.random() < 0.2
        sizes = [rng.choice([512, 8192, rng.randint(1, 400) * 512]) * (rng.randint(1, 1 << rng.choice([20, 20, 32])) if huge else 1) for _ in range(n)]
        vd, model, cls = build_linear(ctx, rng, n, sizes)
        ctx.params = dict(kind="linear", sizes=sizes)
        hot = [sum(sizes[:i]) for i in range(n + 1)]
        label = f"linear n={n}"
        stream = ctx.lib("open", vd.open)
        sm = StreamMonitor(ctx, stream, model, label, grains=(512, 8192), hot=hot, max_len=1 << 18)
        ctx.state("linear", n, len(set(sizes)), cls, "huge" if huge else "")
    else:
        chunk = rng.choice(CHUNKS)
        aligned = rng.random() < 0.5
        huge = rng.random() < 0.2
        sizes = member_sizes(rng, n, chunk, aligned, 1 << rng.choice([22, 22, 33, 35]) if huge else 20 if chunk > 100000 else 60)
        zones = len({s // chunk for s in sizes})
        layout = rng.choice([1, 2]) if zones > 1 else rng.choice([0, 1, 2])
        ctx.params = dict(kind="raid0", chunk=chunk, sizes=sizes, layout=layout)
        vd, model, members, cls = build_raid0(ctx, rng, n, chunk, sizes, layout)
        if not huge and cls != "mapstart":
            # two independently written models of the layout must agree
            ref = raid0_extents(chunk, members, orig=layout == 1)
            assert ref.size == model.size
            model = ref
        label = f"RAID0 n={n} chunk={chunk} zones={zones} layout={layout}"
        hot, pos, done = [], 0, 0
        for lv in sorted({s // chunk * chunk for s in sizes}):
            pos += (lv - done) * sum(1 for s in sizes if s // chunk * chunk > done)
            done = lv
            hot.append(pos)
        stream = ctx.lib("open", vd.open)
        sm = StreamMonitor(ctx, stream, model, label, grains=(chunk, chunk * n, 512), hot=hot, max_len=1 << 18)
        ctx.state("raid0", n, zones, layout if zones > 1 else "-", chunk if chunk & (chunk - 1) else "pow2", "al" if aligned else "unal", cls)
    for h in hot:
        ctx.count("boundary_reads")
        sm.at(max(0, h - 4608), 9216)
    sm.run(rng, 10)
    if sm.size <= 1 << 21:
        sm.full(1 << 21, piece=rng.choice([None, 4096, 70000, 12345]))
