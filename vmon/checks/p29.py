"""Text forms of the reported objects."""
import copy
import struct

from vmon.build_ddf import random_set
from vmon.build_disk import random_apm, random_bsd, random_gpt, random_mbr
from vmon.build_lvm import UNSUPPORTED, VG, new_uuid
from vmon.build_vss import random_volume
from vmon.checks.disks import open_disk
from vmon.monitor import Violation

CASES = {"quick": 3000, "thorough": 30000}
RULE = "distinct (kind of object, shape of the text, widths of the values in it) described"
MINIMUM = {"texts": 20000, "partitions": 3000, "lvm": 3000, "ddf": 3000, "vss": 3000}


def text(ctx, what, obj, *values):
    """The text form is there and has all the values."""
    with ctx.observing(f"text form of {what}"):
        got = repr(obj)
        plain = str(obj)
    if not isinstance(got, str) or plain != got:
        raise Violation("wrong value", f"{what}: {got!r} and {plain!r}")
    for v in values:
        forms = (str(v), f"{v:x}") if isinstance(v, int) else (str(v),)
        ctx.count("comparisons")
        if not any(f in got for f in forms):
            raise Violation("wrong value", f"{what}: {got} does not show {v!r}")
    ctx.count("texts")
    ctx.state(what, *(v.bit_length() // 8 if isinstance(v, int) else min(40, len(str(v))) // 4 for v in values))


def partitions(ctx, rng):
    img = rng.choice([random_mbr, random_gpt, random_apm, random_bsd])(rng)
    disk, _ = open_disk(ctx, rng, img)
    with ctx.observing("partitions"):
        parts = list(disk.partitions)
    for p in rng.sample(parts, min(12, len(parts))):
        with ctx.observing("partition"):
            values = p.number, p.offset, p.size, repr(p.type_str), repr(p.name)
        text(ctx, "partition", p, *values)
        ctx.count("partitions")


def lvm(ctx, rng):
    from dissect.volume.lvm import LVM2

    vg = VG(rng, name=rng.choice(["vg0", "my-vg", "vg_1.x", "VG+a"]), extent_sectors=8)
    for i in range(rng.choice([0, 1, 2, 4])):
        r = rng.random()
        if r < 0.3:
            vg.mirror_lv(f"mir{i}")
        elif r < 0.7:
            u = copy.deepcopy(rng.choice(UNSUPPORTED))
            vg.add_lv(f"odd{i}", [{"start_extent": 0, "extent_count": 4, **u}])
        else:
            vg.plain_lv(f"lv{i}")
    old = {f"-old{i}": {"id": new_uuid(rng), "name": f"gone{i}", **rng.choice([{}, {"creation_time": 1500000000 + i}]),
                        **rng.choice([{}, {"removal_time": 1600000000 + rng.randint(0, 9999)}]),
                        **rng.choice([{}, {"origin": "x"}, {"descendants": ["a"]}])} for i in range(rng.choice([0, 0, 1, 3]))}
    if old:
        vg.extra["historical_logical_volumes"] = old
    vg.build(style=rng.choice(["lvm", "free"]))
    top = ctx.lib("LVM2()", LVM2, [ctx.source(p.disk, p.name) for p in vg.pvs])
    text(ctx, "LVM2", top, vg.name, vg.uuid)
    text(ctx, "volume group", top.vg, vg.name, vg.uuid)
    with ctx.observing("volumes"):
        pvs, lvs = list(top.vg.pv), dict(top.vg.logical_volumes or {})
        gone = top.vg.historical_logical_volumes or {}
        gone = dict(gone) if isinstance(gone, dict) else {h.name: h for h in gone}
        devs = [(p.name, p.dev) for p in pvs]
    sizes = {p.name: p.disk.size if p.header_size is None else p.header_size for p in vg.pvs}
    ids = {p.name: p.uuid for p in vg.pvs}
    for p in pvs:
        text(ctx, "physical volume", p, p.name, ids[p.name])
    for name, dev in devs:
        text(ctx, "LVM2 device", dev, ids[name].replace("-", "") if ids[name] not in repr(dev) else ids[name], sizes[name])
    for name, sec in vg.lvs.items():
        segs = [s for s in sec.values() if isinstance(s, dict) and "start_extent" in s]
        text(ctx, "logical volume", lvs[name], name, sec["id"], len(segs))
        with ctx.observing("segments"):
            have = {s.start_extent: s for s in lvs[name].segments}
        for s in segs:
            text(ctx, "segment", have[s["start_extent"]], s["start_extent"], s["extent_count"], s["type"].split("+")[0])
    with ctx.observing("historical volumes"):
        by = {h.id: h for h in gone.values()}
        ctx.eq("historical volumes", sorted(by), sorted(h["id"] for h in old.values()))
    for h in old.values():
        text(ctx, "historical volume", by[h["id"]], h["id"], h["name"])
    ctx.count("lvm", 1 + len(pvs) + len(lvs))


def ddf(ctx, rng):
    from dissect.volume.ddf.ddf import DDF

    s = random_set(rng)
    conf = ctx.lib("DDF()", DDF, [ctx.source(d, f"disk{i}") for i, d in enumerate(s.disks)], s.sector).configurations[0]
    with ctx.observing("disks"):
        pds = list(conf.physical_disks)
        parts = [(pd.reference, pd.controller_data, pd.physical_disk_data, list(pd.physical_disk_records), list(pd.virtual_disk_records)) for pd in pds]
        confs = [(vd.uuid, vd.virtual_disk_configuration_record) for vd in conf.virtual_disks]
    at = {r: i for i, r in enumerate(s.refs)}
    for pd, (ref, ctrl, data, prec, vrec) in zip(pds, parts):
        i = at[ref]
        text(ctx, "DDF disk", pd, s.guids[i], ref)
        text(ctx, "DDF controller", ctrl, s.ctrl[0], s.ctrl[1])
        text(ctx, "DDF disk data", data, s.guids[i], ref)
        for r, k in zip(prec, range(s.n)):
            text(ctx, "DDF disk record", r, s.guids[k], s.refs[k])
        for r, v in zip(vrec, s.vds):
            text(ctx, "DDF virtual disk record", r, v.guid, v.number, repr(v.name.decode()))
        ctx.count("ddf", 3 + len(prec) + len(vrec))
    for uuid, rec in confs:
        text(ctx, "DDF configuration record", rec, next(v.guid for v in s.vds if v.guid.hex() == uuid))


def vss(ctx, rng):
    from dissect.volume.vss import VSS, BlockDescriptor

    vol = random_volume(rng, blocks=rng.randint(60, 400))
    top = ctx.lib("VSS()", VSS, ctx.source(vol.disk, "volume"))
    text(ctx, "shadow copy volume", top, vol.identifier, vol.store_volume)
    text(ctx, "catalog", top.catalog, len(vol.stores))
    for _ in range(10):
        values = [rng.getrandbits(rng.choice([8, 40, 64])) for _ in range(3)] + [rng.choice([0, 1, 2, 4, rng.randrange(64)]), rng.getrandbits(32)]
        rec = ctx.lib("block record", BlockDescriptor, struct.pack("<QQQII", *values))
        text(ctx, "block record", rec, *values[:3], values[4])
    ctx.count("vss", 12)


def case(ctx, rng, idx, tier):
    (partitions, lvm, ddf, vss)[idx % 4](ctx, rng)
