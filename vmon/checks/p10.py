"""LVM2 logical volume content."""
import copy

from vmon.build_lvm import UNSUPPORTED, VG
from vmon.monitor import StreamMonitor

CASES = {"quick": 4000, "thorough": 30000}
ANY_POSITION = True
RULE = "distinct (segment kinds, stripes, stripe size, extent size, volumes, absent physical volumes) read"
MINIMUM = {"stream_ops": 5000, "volumes": 1000, "striped": 200, "mirrored": 100, "refused": 50}


def make_vg(rng, extent_sectors=None, base_id=1):
    vg = VG(rng, extent_sectors=extent_sectors, base_id=base_id, pe=rng.choice([None, 12, 200]))
    for p in vg.pvs:
        if rng.random() < 0.2:
            # the extents in use are far out on a large device
            base = rng.choice([1 << 12, 1 << 16, 1 << 24, rng.randint(1, 1 << 31)])
            base = min(base, (1 << 60) // vg.extent)
            p.free = [base + e for e in p.free]
            p.count += base
        p.pe_start = max(p.pe_start, 400 + rng.choice([0, 1, 7, 1000]))
        p.disk = type(p.disk)(p.disk_id, p.pe_start * 512 + p.count * vg.extent + rng.choice([0, 512, vg.extent]))
        p.described = rng.random() < 0.8
        if rng.random() < 0.2 and (not p.described or vg.extent_sectors >= 512):
            # the device's own header is outdated: the volume group's description decides
            p.header_size = 512 * rng.choice([0, 1, rng.randint(0, p.disk.size // 512), p.pe_start])
    for i in range(rng.choice([1, 2, 4, 8])):
        r = rng.random()
        if r < 0.25:
            vg.mirror_lv(f"mir{i}", copies=rng.choice([2, 2, 3]))
        elif r < 0.35:
            u = copy.deepcopy(rng.choice(UNSUPPORTED))
            vg.add_lv(f"odd{i}", [{"start_extent": 0, "extent_count": 4, **u}])
        else:
            vg.plain_lv(f"lv{i}")
    return vg


def write_vg(rng, vg):
    from vmon.build_lvm import write_text

    text = write_text(rng, vg.tree(), rng.choice(["lvm", "lvm", "free"])).encode()
    holders = [p for p in vg.pvs if rng.random() < 0.7] or [vg.pvs[0]]
    for p in vg.pvs:
        need = len(text) + 513 + 4096
        vg.write_device(p, text if p in holders and p.pe_start * 512 - 4096 - 512 > len(text) + 1 else None)
    ok = [p for p in holders if p.pe_start * 512 - 4096 - 512 > len(text) + 1]
    return ok


def case(ctx, rng, idx, tier):
    from dissect.volume.lvm import LVM2

    while True:
        vg = make_vg(rng)
        holders = write_vg(rng, vg)
        if holders:
            break
    present = list(vg.pvs)
    if len(present) > 1 and rng.random() < 0.35:
        for gone in rng.sample(present, rng.randint(1, len(present) - 1)):
            if any(p in holders for p in present if p is not gone):
                present.remove(gone)
    have = {p.name for p in present}
    rng.shuffle(present)
    ctx.params = dict(extent=vg.extent, present=sorted(have), lvs={k: [s for s in v.values() if isinstance(s, dict)] for k, v in vg.lvs.items()})
    fhs = [ctx.source(p.disk, p.name, with_size=rng.random() < 0.5) for p in present]
    arg = fhs
    if rng.random() < 0.25:
        from dissect.volume.lvm.physical import LVM2Device

        arg = [ctx.lib("LVM2Device()", LVM2Device, fh) if rng.random() < 0.7 else fh for fh in fhs]
    elif len(fhs) == 1 and rng.random() < 0.5:
        arg = fhs[0]
    lvm = ctx.lib("LVM2()", LVM2, arg)
    for name in rng.sample(list(vg.lvs), len(vg.lvs)):
        with ctx.observing("lookup"):
            lv = lvm.vg.logical_volumes[name]
        if name not in vg.models:
            try:
                lv.open()
            except Exception:
                ctx.count("refused")
                continue
            ctx.violate("wrong value", f"{name}: an unsupported volume was opened")
        if not any(n <= have for n in vg.needs[name]):
            ctx.expect_error(f"{name} needs an absent physical volume", Exception, lv.open)
            ctx.count("refused")
            continue
        model = vg.models[name]
        segs = [s for s in vg.lvs[name].values() if isinstance(s, dict)]
        stream = ctx.lib("open", lv.open)
        grains = [vg.extent] + [s["stripe_size"] * 512 for s in segs if "stripe_size" in s]
        sm = StreamMonitor(ctx, stream, model, f"lv {name}", grains=grains, max_len=1 << 17,
                           hot=[s["start_extent"] * vg.extent for s in segs])
        sm.run(rng, 8)
        sm.full(1 << 19, piece=rng.choice([None, 65536, 5000]))
        ctx.count("volumes")
        ctx.count("striped", any(s.get("stripe_count", 1) > 1 for s in segs))
        ctx.count("mirrored", segs[0]["type"].startswith("mirror"))
        for s in segs:
            ctx.state(s["type"], s.get("stripe_count"), s.get("stripe_size"), vg.extent_sectors, len(segs), len(vg.pvs) - len(present))
