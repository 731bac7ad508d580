"""Volumes of every kind behind one interface, for the checks that cut across them."""
from __future__ import annotations

from dataclasses import dataclass

from vmon.build_ddf import KINDS as DDF_KINDS
from vmon.build_ddf import random_set
from vmon.build_disk import random_apm, random_bsd, random_gpt, random_mbr
from vmon.build_md import array_model, build_members, random_array
from vmon.build_thin import Pool
from vmon.build_vinum import World
from vmon.build_vss import BS, random_volume
from vmon.checks.p04 import Clip, observe_size
from vmon.content import SparseDisk
from vmon.raidmodel import RAID5_LAYOUTS, RAID6_LAYOUTS, Raid0Big, linear_model, parity_data_disks, parity_model, raid10_model


@dataclass
class Vol:
    label: str
    open: object  # callable returning the stream
    model: object
    prefix: bool = False  # the stream may go on behind the volume's end
    grains: tuple = (512, 4096)
    hot: tuple = ()
    works: bool = True  # has to work with the disks that were given
    block: int = 0  # reads may be rounded to this much


@dataclass
class Setup:
    kind: str
    disks: list
    enter: object  # callable(ctx, [file or None per disk]) -> [Vol]
    tag: tuple = ()
    meta: int = 0  # bytes of metadata there are, as far as they are not negligible
    ids: tuple = ()
    alive: object = None  # callable(files) -> some volume has to work


def _raid(rng, base_id, big):
    level = rng.choice([-1, 0, 1, 4, 5, 5, 6, 10, 10])
    chunk = rng.choice([512, 1536, 4096, 8192, 65536])
    layout = 0
    n = rng.randint({4: 3, 5: 3, 6: 4, 10: 2}.get(level, 1), 6)
    rows = rng.randint(1, 1 << 28) if big else rng.randint(1, 40)
    if level == 5:
        layout = rng.choice(RAID5_LAYOUTS)
    elif level == 6:
        layout = rng.choice(RAID6_LAYOUTS)
    elif level == 10:
        near = rng.randint(1, min(n, 3))
        far = rng.randint(1, max(1, n // near))
        off = far > 1 and rng.random() < 0.5
        layout = near | far << 8 | off << 16
        rows *= far
    lens = [rows * chunk] * n
    if level in (-1, 0):
        lens = [max(1, rows + rng.choice([0, 0, 1, 5])) * chunk for _ in range(n)]
    offs = [rng.randrange(0, 500) * 512 for _ in range(n)]
    content = SparseDisk(base_id + 40, lens[0])
    disks = [SparseDisk(base_id + i, offs[i] + lens[i] + rng.choice([0, 4096])) for i in range(n)]
    at = [(d, o) for d, o in zip(disks, offs)]
    if level == -1:
        model = linear_model([(d, o, s) for (d, o), s in zip(at, lens)])
    elif level == 0:
        layout = 2
        model = Raid0Big(chunk, [(d, o, s) for (d, o), s in zip(at, lens)])
    elif level == 1:
        model = content
        for d, o in at:
            d.embed(o, content)
    elif level == 10:
        model = raid10_model(chunk, at, near, far, off, rows // far * n // near * chunk)
    else:
        model = parity_model(level, layout, chunk, at, rows * parity_data_disks(level, n) * chunk)

    def enter(ctx, fhs):
        from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

        dm = {i: (0, PhysicalDisk(fh, offs[i], lens[i])) for i, fh in enumerate(fhs) if fh is not None}
        vd = VirtualDisk("vd", "u", model.size, level, layout, chunk, n, dm)
        return [Vol(f"raid{level}", vd.open, model, grains=(chunk, chunk * n, 512), block=chunk,
                    works=None not in fhs or level == 1)]

    return Setup("raid", disks, enter, (level, layout, n, chunk), alive=lambda fhs: True)


def _md(rng, base_id, big, level=None, version=None):
    a = random_array(rng, version=version, level=level, big=big, base_id=base_id)
    members, roles, numbers, content = build_members(rng, a)
    disks = [d for d, _ in members]
    model = array_model(a, members, content)

    def enter(ctx, fhs):
        from dissect.volume.md.md import MD

        md = MD([fh for fh in fhs if fh is not None])
        vd = md.configurations[0].virtual_disks[0]
        if a.level in (-1, 0) and any(fh is None for fh in fhs):
            m = model
        else:
            m = Clip(model, observe_size(ctx, a, vd))
        if a.level == 1:
            m = model
        return [Vol(f"md{a.level}", vd.open, m, prefix=a.level == 1, grains=(a.chunk or 4096, (a.chunk or 4096) * a.n, 512), block=a.chunk,
                    works=None not in fhs or a.level == 1)]

    return Setup("md", disks, enter, (a.version, a.level, a.n), alive=lambda fhs: a.level == 1)


def _ddf(rng, base_id, big):
    def usable(fhs, v):
        there = [fhs[m] is not None for m in v.members]
        return any(there) if DDF_KINDS[v.kind][2] == 1 else all(there)

    s = random_set(rng, base_id=base_id, rows=1 << 26 if big else 40)

    def enter(ctx, fhs):
        from dissect.volume.ddf.ddf import DDF

        ddf = DDF([fh for fh in fhs if fh is not None], s.sector)
        by = {vd.uuid: vd for c in ddf.configurations for vd in c.virtual_disks}
        out = []
        for v in s.vds:
            vd = by.get(v.guid.hex())
            if vd is None or not v.size_blocks:
                continue
            level = DDF_KINDS[v.kind][2]
            chunk = (1 << v.strip) * s.bs
            out.append(Vol(f"ddf {v.kind}", vd.open, v.content if level == 1 else s.model(v), grains=(chunk, 512, 8192),
                           block=chunk, works=usable(fhs, v)))
        return out

    return Setup("ddf", s.disks, enter, (tuple(sorted({v.kind for v in s.vds})),), alive=lambda fhs: any(usable(fhs, v) for v in s.vds))


def _vinum(rng, base_id, big):
    while True:
        w = World(rng, base_id=base_id, faults=False, stale=False, slack=1 << 42 if big else 0)
        drives = list(w.drives.values())
        want, by = w.resolve(drives)
        if any(full for full, *_ in want.values()):
            break

    def enter(ctx, fhs):
        from dissect.volume.vinum.vinum import Vinum

        v = Vinum([fh for fh in fhs if fh is not None])
        alive, _ = w.resolve([d for d, fh in zip(drives, fhs) if fh is not None])
        vds = {vd.name: vd for vd in v.configurations[0].virtual_disks}
        out = []
        for name, (full, partial, altered, active) in want.items():
            vd = vds.get(name.decode())
            if vd is None or not full:
                continue
            m = w.plex_model(full[0][0], full[0][1], by)
            chunk = max([p.stripesize for p, *_ in full] + [512])
            out.append(Vol(f"vinum {name.decode()}", vd.open, m, grains=(chunk, 512, 8192), block=chunk, works=bool(name in alive and alive[name][0])))
        return out

    def alive(fhs):
        left, _ = w.resolve([d for d, fh in zip(drives, fhs) if fh is not None])
        return any(full for full, *_ in left.values())

    return Setup("vinum", [d.disk for d in drives], enter, tuple(sorted({p.org for p in w.plexes})), alive=alive)


def _lvm(rng, base_id, big):
    from vmon.checks.p10 import make_vg, write_vg

    while True:
        vg = make_vg(rng, base_id=base_id, extent_sectors=1 << 26 if big else None)
        holders = write_vg(rng, vg)
        if holders and vg.models:
            break

    def enter(ctx, fhs):
        from dissect.volume.lvm import LVM2

        lvm = LVM2([fh for fh in fhs if fh is not None])
        out = []
        have = {p.name for p, fh in zip(vg.pvs, fhs) if fh is not None}
        for name, model in vg.models.items():
            lv = lvm.vg.logical_volumes[name]
            segs = [s for s in vg.lvs[name].values() if isinstance(s, dict)]
            grains = [vg.extent] + [s["stripe_size"] * 512 for s in segs if "stripe_size" in s]
            out.append(Vol(f"lv {name}", lv.open, model, grains=tuple(grains), hot=tuple(s["start_extent"] * vg.extent for s in segs),
                           works=any(need <= have for need in vg.needs[name])))
        return out

    return Setup("lvm", [p.disk for p in vg.pvs], enter, (len(vg.pvs), len(vg.models)),
                 alive=lambda fhs: any(fhs[i] is not None for i, p in enumerate(vg.pvs) if p in holders))


def _lvmthin(rng, base_id, big):
    from vmon.checks.p11 import make_lvm

    vg, pool, ids = make_lvm(rng, base_id)

    def enter(ctx, fhs):
        from dissect.volume.lvm import LVM2

        lvm = LVM2([fh for fh in fhs if fh is not None])
        return [Vol(f"thin lv {n}", lvm.vg.logical_volumes[n].open, pool.model(d), grains=(pool.bs, 4096), block=pool.bs,
                    works=None not in fhs) for n, d in ids.items()]

    return Setup("lvmthin", [p.disk for p in vg.pvs], enter, (len(vg.pvs), len(ids)), alive=lambda fhs: False)


def _thin(rng, base_id, big):
    pool = Pool(rng, meta_id=base_id, data_id=base_id + 1)

    def enter(ctx, fhs):
        from dissect.volume.dm.thin import ThinPool

        tp = ThinPool(fhs[0], fhs[1])
        return [Vol(f"thin {d}", lambda d=d: tp.open(d, pool.sizes[d]), pool.model(d), grains=(pool.bs, 4096), block=pool.bs,
                    hot=tuple(k * pool.bs for k in list(pool.devices[d])[:20])) for d in pool.devices]

    return Setup("thin", [pool.meta_disk(), pool.data], enter, (pool.bs, len(pool.devices)), ids=tuple(pool.devices))


def _disk(kind, make):
    def build(rng, base_id, big):
        while True:
            img = make(rng, base_id)
            if any(not p.extra.get("listed only") for p in img.parts):
                break
        d = img.disk()

        def enter(ctx, fhs):
            from dissect.volume.disk import Disk

            disk = Disk(fhs[0], sector_size=img.ss)
            out = []
            for want, got in zip(img.parts, disk.partitions, strict=True):
                if want.extra.get("listed only"):
                    continue
                size = want.size
                if want.kind == "gpt" and got.size == size - img.ss:
                    ctx.known("KF-GPT-SIZE", f"{got}")
                    size = got.size
                out.append(Vol(f"{kind} partition at {want.offset:#x}", got.open, img.stream_model(want, size), grains=(img.ss, 4096)))
            return out

        return Setup(kind, [d], enter, (img.ss, min(10, len(img.parts))), meta=8 * img.ss * (len(img.parts) + 2))

    return build


def _nested(rng, base_id):
    from vmon.checks.p15 import nested_gpt, nested_mbr

    return rng.choice([nested_gpt, nested_mbr])(rng, base_id=base_id)[0]


def _vss(rng, base_id, big):
    vol = random_volume(rng, base_id, blocks=None if big else rng.choice([60, 200, rng.randint(60, 2000)]))

    def enter(ctx, fhs):
        from dissect.volume.vss import VSS

        vss = VSS(fhs[0])
        return [Vol(f"snapshot {k}", st.open, vol.model(k), grains=(BS, 4096, 512), hot=tuple(vol.hot_offsets(k)[:20]), block=BS)
                for k, st in enumerate(vss.catalog.stores)]

    return Setup("vss", [vol.disk], enter, (len(vol.stores), vol.blocks.bit_length()), meta=BS * sum(len(o) for o in vol.offsets.values()))


MAKERS = {
    "raid": _raid, "md": _md, "ddf": _ddf, "vinum": _vinum, "lvm": _lvm, "lvmthin": _lvmthin, "thin": _thin,
    "mbr": _disk("mbr", random_mbr), "gpt": _disk("gpt", random_gpt), "apm": _disk("apm", random_apm), "bsd": _disk("bsd", random_bsd),
    "nested": _disk("nested", _nested), "vss": _vss,
}
KINDS = list(MAKERS)


def make(rng, kind=None, base_id=1, big=False, **kw) -> Setup:
    kind = kind or rng.choice(KINDS)
    return MAKERS[kind](rng, base_id, big, **kw)
