"""Thin volumes."""
from vmon.build_lvm import VG
from vmon.build_thin import Pool
from vmon.monitor import StreamMonitor

CASES = {"quick": 2500, "thorough": 20000}
ANY_POSITION = True
RULE = "distinct (block size, tree depth, number of mapped blocks class, unmapped kinds, devices, through LVM) read"
MINIMUM = {"stream_ops": 3000, "volumes": 400, "unmapped_reads": 300, "expected_errors": 100}


def watch(ctx, rng, pool, dev, stream, ops, label):
    model = pool.model(dev)
    m = pool.devices[dev]
    edges = []
    ks = sorted(m)
    for k in rng.sample(ks, min(6, len(ks))):
        edges += [k * pool.bs, (k + 1) * pool.bs]
    sm = StreamMonitor(ctx, stream, model, label, grains=(pool.bs, 4096), max_len=min(pool.bs * 2, 5 << 20) + 5000, hot=edges)
    for e in edges[:6]:
        if e < model.size:
            sm.at(max(0, e - 700), 2000)
    # something around the end of the mapped part and across unmapped blocks
    gaps = [k + 1 for k in ks if k + 1 not in m][:4]
    for g in gaps:
        if g * pool.bs < model.size:
            sm.at(max(0, (g - 1) * pool.bs + pool.bs - 512), 1024)
            ctx.count("unmapped_reads")
    sm.run(rng, ops)
    sm.full(1 << 20, piece=rng.choice([None, pool.bs, 70000]))
    return model


def case(ctx, rng, idx, tier):
    from dissect.volume.dm.thin import ThinPool
    from dissect.volume.exceptions import DMError

    through_lvm = rng.random() < 0.25
    if through_lvm:
        return lvm_case(ctx, rng)
    pool = Pool(rng, block_sectors=rng.choice([None] * 20 + [rng.choice([2176, 4096, 6144, 8192])]))
    ctx.params = dict(bs=pool.bs, devices={d: [len(m), sorted(m)[:20], pool.sizes[d]] for d, m in pool.devices.items()})
    mfh = ctx.source(pool.meta_disk(), "metadata", with_size=rng.random() < 0.5)
    dfh = ctx.source(pool.data, "data", with_size=rng.random() < 0.5)
    tp = ctx.lib("ThinPool()", ThinPool, mfh, dfh)
    for dev in rng.sample(list(pool.devices), len(pool.devices)):
        stream = ctx.lib("open", tp.open, dev, pool.sizes[dev])
        watch(ctx, rng, pool, dev, stream, 6, f"thin {dev} bs={pool.bs} depth={pool.depth}")
        ctx.count("volumes")
        n = len(pool.devices[dev])
        ctx.state(pool.bs, pool.depth, n.bit_length(), len(pool.devices), pool.sizes[dev] % pool.bs != 0, "direct")
    unknown = next(x for x in iter(lambda: rng.choice([rng.randint(0, 12), rng.randint(0, 1 << 24), max(pool.devices) + 1]), None) if x not in pool.devices)
    if pool.orphan is not None and rng.random() < 0.5:
        unknown = pool.orphan
    ctx.expect_error(f"unknown volume {unknown}", DMError, tp.open, unknown, 1 << 20)


def lvm_case(ctx, rng, base_id=1):
    from dissect.volume.lvm import LVM2

    vg, pool, ids = make_lvm(rng, base_id)
    ctx.params = dict(bs=pool.bs, extent=vg.extent, devices={d: [len(m), sorted(m)[:20], pool.sizes[d]] for d, m in pool.devices.items()})
    fhs = [ctx.source(p.disk, p.name) for p in vg.pvs]
    rng.shuffle(fhs)
    lvm = ctx.lib("LVM2()", LVM2, fhs)
    for name, dev in ids.items():
        stream = ctx.lib("open", lvm.vg.logical_volumes[name].open)
        watch(ctx, rng, pool, dev, stream, 6, f"thin lv {name} bs={pool.bs}")
        ctx.count("volumes")
        ctx.state(pool.bs, pool.depth, len(pool.devices[dev]).bit_length(), len(pool.devices), "lvm")
    ctx.expect_error("volume number not in the pool", Exception, lvm.vg.logical_volumes["ghost"].open)


def make_lvm(rng, base_id=1):
    """A volume group with a thin pool whose metadata and data live on (multi-segment) hidden volumes."""
    while True:
        ext = rng.choice([128, 256, 2048, 8192])
        pool = Pool(rng, meta_id=base_id + 90, data_id=base_id + 91, block_sectors=rng.choice([128, 256]), max_blocks=rng.choice([5, 30]), ndev=rng.choice([1, 2, 3]))
        meta = pool.meta_disk(zero=True)
        need_m = -(-meta.size // (ext * 512))
        need_d = -(-pool.data.size // (ext * 512))
        if need_m > 60 or need_d > 120:
            continue
        vg = VG(rng, npv=rng.randint(1, 4), extent_sectors=ext, pe=need_m + need_d + 10, base_id=base_id)
        for p in vg.pvs:
            p.pe_start = 2048
            p.disk = type(p.disk)(p.disk_id, p.pe_start * 512 + p.count * vg.extent)
        a = vg.plain_lv("pool_tmeta", nseg=rng.choice([1, 2, 3]), visible=False, length=need_m)
        b = vg.plain_lv("pool_tdata", nseg=rng.choice([1, 2, 4]), visible=False, length=need_d)
        if a is None or b is None:
            continue
        for name, content in (("pool_tmeta", meta), ("pool_tdata", pool.data)):
            for seg in vg.lvs[name].values():
                if isinstance(seg, dict):
                    pos = seg["start_extent"] * vg.extent
                    pv = next(p for p in vg.pvs if p.name == seg["stripes"][0])
                    n = min(seg["extent_count"] * vg.extent, content.size - pos)
                    if n > 0:
                        pv.disk.embed(pv.at(seg["stripes"][1]), content, n, pos)
        vg.add_lv("pool", [{"start_extent": 0, "extent_count": need_d, "type": "thin-pool", "metadata": "pool_tmeta", "pool": "pool_tdata",
                            "transaction_id": 1, "chunk_size": pool.bs_sectors, "discards": "passdown", "zero_new_blocks": 1}])
        ids = {}
        for i, dev in enumerate(pool.devices):
            n = -(-pool.sizes[dev] // vg.extent)
            pool.sizes[dev] = n * vg.extent
            vg.add_lv(f"thin{i}", [{"start_extent": 0, "extent_count": n, "type": "thin", "thin_pool": "pool", "transaction_id": 0, "device_id": dev}])
            ids[f"thin{i}"] = dev
        vg.add_lv("ghost", [{"start_extent": 0, "extent_count": 1, "type": "thin", "thin_pool": "pool", "transaction_id": 0,
                             "device_id": max(pool.devices) + 1}])
        vg.build()
        return vg, pool, ids
