"""Parity RAID content."""
from vmon.content import SparseDisk
from vmon.monitor import StreamMonitor
from vmon.raidmodel import RAID5_LAYOUTS, RAID6_LAYOUTS, parity_data_disks, parity_model

CASES = {"quick": 1800, "thorough": 14000}
RULE = "distinct (level, layout, member count, chunk size class, data start class) whose stream was read across a full parity rotation"
MINIMUM = {"stream_ops": 2000, "stream_bytes": 10_000_000}

COMBOS = [(4, l) for l in (0, 5)] + [(5, l) for l in RAID5_LAYOUTS] + [(6, l) for l in RAID6_LAYOUTS]
CHUNKS = [512, 1024, 1536, 4096, 4096, 5120, 8192, 16384, 65536, 65536, 3 * 4096, 7 * 512, 131072, 524288, 1 << 20, 3 * 131072]


def build(ctx, rng, level, layout, n, chunk, rows, shared=False, start_class=None, tail=None):
    """Returns (virtual disk, model)."""
    from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

    data = parity_data_disks(level, n)
    start_class = rng.choice(["zero", "same", "mixed"]) if start_class is None else start_class
    disk_map, members = {}, []
    same = rng.randrange(1, 5000) * 512
    order = list(range(n))
    rng.shuffle(order)  # insertion order of the map must not matter
    entries = {}
    for m in range(n):
        off = 0 if start_class == "zero" else same if start_class == "same" else rng.randrange(0, 9000) * 512
        dstart = 0 if start_class != "mixed" else rng.choice([0, rng.randrange(0, 300) * 512])
        size = dstart + rows * chunk + rng.choice([0, 512, chunk, 100 * 512])
        disk = SparseDisk(m + 1, off + size + rng.choice([0, 4096]))
        fh = ctx.source(disk, f"member{m}", with_size=rng.random() < 0.5)
        entries[m] = (dstart, PhysicalDisk(fh, off, size))
        members.append((disk, off + dstart))
    for m in order:
        disk_map[m] = entries[m]
    size = rows * data * chunk
    if tail:
        size -= tail
    vd = VirtualDisk("vd", "uuid", size, level, layout, chunk, n, disk_map)
    return vd, parity_model(level, layout, chunk, members, size), start_class


def case(ctx, rng, idx, tier):
    level, layout = COMBOS[idx % len(COMBOS)]
    lo = 4 if level == 6 else 3
    if layout >= 16:
        lo = 4
    n = rng.choice([lo, lo + 1, lo + 2, rng.randint(lo, 12), rng.randint(lo, 12), rng.choice([2 if lo == 3 else 4, 16, 17, 27, 32, rng.randint(13, 40)])])
    chunk = rng.choice(CHUNKS)
    rows = rng.choice([n, 2 * n + 1, rng.randint(1, 40)])
    huge = rng.random() < 0.15
    if huge:
        rows = rng.randint(1 << 20, 1 << rng.choice([21, 28, 28, 33, 35]))
    tail = rng.choice([0, 0, 512, rng.randrange(0, chunk, 512)])
    ctx.params = dict(level=level, layout=layout, n=n, chunk=chunk, rows=rows, tail=tail)
    vd, model, start_class = build(ctx, rng, level, layout, n, chunk, rows, tail=tail)
    stream = ctx.lib("open", vd.open)
    data = parity_data_disks(level, n)
    rot = chunk * data * n
    sm = StreamMonitor(ctx, stream, model, f"RAID{level}/{layout} n={n} chunk={chunk}",
                       grains=(chunk, chunk * data, 512, rot), max_len=max(1 << 17, min(rot * 2, 1 << 21)))
    sm.run(rng, 12)
    if not huge:
        sm.full(1 << 21, piece=rng.choice([None, chunk, 4096, chunk * data + 512, 12345]))
    else:
        # one full rotation anywhere
        k = rng.randint(0, max(0, rows - 2 * n)) * data * chunk
        sm.at(k, min(rot, 1 << 20))
    ctx.state(level, layout, n, "pow2" if chunk & (chunk - 1) == 0 else "npow2", start_class, "huge" if huge else "small")
