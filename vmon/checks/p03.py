"""RAID1 and RAID10 content."""
from vmon.content import SparseDisk
from vmon.monitor import StreamMonitor
from vmon.raidmodel import raid10_all_copies, raid10_model

CASES = {"quick": 6000, "thorough": 60000}
ANY_POSITION = True
RULE = "distinct (kind, member count, near, far, offset, far-set flag, chunk class / subset, data start class)"
MINIMUM = {"stream_ops": 5000, "stream_bytes": 10_000_000}

CHUNKS = [512, 1024, 1536, 4096, 4096, 8192, 65536, 65536, 3 * 4096, 524288]


def build_raid10(ctx, rng, n, near, far, offset, sets, chunk, rows, absent=()):
    from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

    layout = near | far << 8 | (1 << 16 if offset else 0) | sets << 17
    disk_rows = rows * far
    cls = rng.choice(["zero", "same", "mixed"])
    same = rng.randrange(1, 5000) * 512
    entries, members = {}, []
    for m in range(n):
        off = 0 if cls == "zero" else same if cls == "same" else rng.randrange(0, 5000) * 512
        dstart = 0 if cls != "mixed" else rng.choice([0, rng.randrange(0, 100) * 512])
        size = dstart + disk_rows * chunk
        disk = SparseDisk(m + 1, off + size + rng.choice([0, 4096]))
        fh = ctx.source(disk, f"member{m}", with_size=rng.random() < 0.5)
        entries[m] = (dstart, PhysicalDisk(fh, off, size))
        members.append((disk, off + dstart))
    size = rows * n // near * chunk
    model = raid10_model(chunk, members, near, far, offset, size)
    order = [m for m in range(n) if m not in absent]
    rng.shuffle(order)
    vd = VirtualDisk("vd", "uuid", size, 10, layout, chunk, n, {m: entries[m] for m in order})
    return vd, model, members, cls


def case(ctx, rng, idx, tier):
    from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

    if idx % 4 == 3:
        n = rng.choice([1, 2, 3, 4, 5, 9])
        size = rng.choice([rng.randint(1, 2000) * 512, rng.randint(1, 1 << rng.choice([30, 30, 36])) * 512])
        subset = sorted(rng.sample(range(n), rng.randint(1, n)))
        cls = rng.choice(["zero", "off", "mapstart"])
        entries, content = {}, SparseDisk(1, size)
        order = subset[:]
        rng.shuffle(order)
        for m in order:
            off = 0 if cls == "zero" else rng.randrange(0, 5000) * 512
            dstart = rng.randrange(0, 200) * 512 if cls == "mapstart" else 0
            disk = SparseDisk(m + 10, off + dstart + size + rng.choice([0, 4096]))
            disk.embed(off + dstart, content)
            entries[m] = (dstart, PhysicalDisk(ctx.source(disk, f"member{m}"), off, dstart + size))
        ctx.params = dict(kind="raid1", n=n, subset=subset, size=size, cls=cls)
        vd = VirtualDisk("vd", "uuid", size, 1, 0, 0, n, entries)
        stream = ctx.lib("open", vd.open)
        sm = StreamMonitor(ctx, stream, content, f"RAID1 n={n} {cls}", grains=(512, 8192), max_len=1 << 18)
        sm.run(rng, 12)
        sm.full(1 << 20, piece=rng.choice([None, 4096, 12345]))
        ctx.state("raid1", n, subset, cls)
        return

    n = rng.choice([2, 3, 4, 4, 5, 6, 7, 8, 9, rng.choice([16, 17, rng.randint(10, 40)])])
    near = rng.randint(1, min(4, n))
    far = rng.choice([1, 1, 2, 3, 4])
    while near * far > n:
        near, far = rng.randint(1, min(4, n)), rng.choice([1, 2, 3, 4])
    if rng.random() < 0.08:
        # as many copies as the fields and members allow
        n = rng.randint(8, 64)
        near = rng.choice([1, rng.randint(1, n)])
        far = rng.randint(1, n // near)
    offset = far > 1 and rng.random() < 0.5
    sets = rng.choice([0, 0, 1, 2]) if far > 1 else 0
    chunk = rng.choice(CHUNKS)
    rows = rng.randint(1, 30)
    huge = rng.random() < 0.2
    if huge:
        rows = rng.randint(1 << 18, 1 << rng.choice([19, 27, 27, 33, 35]))
    ctx.params = dict(kind="raid10", n=n, near=near, far=far, offset=offset, sets=sets, chunk=chunk, rows=rows)
    vd, model, members, cls = build_raid10(ctx, rng, n, near, far, offset, sets, chunk, rows)
    if model.size == 0:
        return
    # the position must be one of the copies the layout defines
    fset = n if sets == 0 else n // far if sets == 1 else far * near
    for _ in range(3):
        no = rng.randrange(model.size // chunk)
        src, off = model.locate(no)
        m = next(i for i, (d, s) in enumerate(members) if d is src)
        assert (m, (off - members[m][1]) // chunk) in raid10_all_copies(n, near, far, offset, fset, no, rows)
    stream = ctx.lib("open", vd.open)
    sm = StreamMonitor(ctx, stream, model, f"RAID10 n={n} near={near} far={far} off={offset} chunk={chunk}",
                       grains=(chunk, chunk * n, 512), max_len=1 << 18)
    sm.run(rng, 12)
    sm.full(1 << 21, piece=rng.choice([None, chunk, 4096, 12345]))
    ctx.state("raid10", n, near, far, offset, sets, "pow2" if chunk & (chunk - 1) == 0 else "npow2", cls)
