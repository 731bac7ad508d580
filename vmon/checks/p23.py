"""Recorded identification and state of members and virtual disks."""
from datetime import datetime, timedelta, timezone

from vmon.build_ddf import KINDS, random_set
from vmon.build_vinum import World

CASES = {"quick": 5000, "thorough": 50000}
ANY_POSITION = True
RULE = "distinct (kind, sector size, block size, members, virtual disks, explicit sizes) described"
MINIMUM = {"comparisons": 10000, "disks": 2000, "records": 1000, "drives": 500}
DDF_EPOCH = datetime(1980, 1, 1, tzinfo=timezone.utc)
UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)


def attributes(ctx, what, obj, want):
    for name, value in want.items():
        with ctx.observing(f"{what} {name}"):
            ctx.eq(f"{what} {name}", getattr(obj, name), value)


def ddf(ctx, rng):
    from dissect.volume.ddf.ddf import DDF

    s = random_set(rng)
    order = rng.sample(range(s.n), s.n)
    fhs = [ctx.source(s.disks[i], f"disk{i}", with_size=rng.random() < 0.5) for i in order]
    conf = ctx.lib("DDF()", DDF, fhs, s.sector).configurations[0]
    bs = s.sector if s.pde_bs == 0xFFFF else s.pde_bs
    with ctx.observing("disks"):
        by = {pd.reference: pd for pd in conf.physical_disks}
        ctx.eq("disks", sorted(by), sorted(s.refs))
    for i in range(s.n):
        pd = by[s.refs[i]]
        kind, state, path = s.pd_info[i]
        attributes(ctx, "disk", pd, dict(guid=s.guids[i], reference=s.refs[i], type=kind, state=state, path_information=path, block_size=bs,
                                         size=s.configured[i] * bs, sector_size=s.sector))
        attributes(ctx, "controller", pd.controller_data, dict(guid=s.ctrl[0], type=s.ctrl[1]))
        with ctx.observing("tables"):
            ctx.eq("disk table", [(r.guid, r.reference, r.type, r.state, r.size, r.path_information) for r in pd.physical_disk_records],
                   [(s.guids[k], s.refs[k], s.pd_info[k][0], s.pd_info[k][1], s.configured[k], s.pd_info[k][2]) for k in range(s.n)])
            ctx.eq("virtual disk table", [(r.guid, r.number, r.type, r.state, r.init_state, r.name) for r in pd.virtual_disk_records],
                   [(v.guid, v.number, (4 if v.unicode else 0) | v.extra_type, v.state, v.init, v.name.decode()) for v in s.vds])
        ctx.count("disks")
    with ctx.observing("virtual disks"):
        vds = {vd.uuid: vd for vd in conf.virtual_disks}
    for v in s.vds:
        prl, rlq, _, _ = KINDS[v.kind]
        vd = vds[v.guid.hex()]
        with ctx.observing("records"):
            rec, conf_rec = vd.virtual_disk_record, vd.virtual_disk_configuration_record
        attributes(ctx, "virtual disk record", rec, dict(guid=v.guid, number=v.number, type=(4 if v.unicode else 0) | v.extra_type, state=v.state,
                                                         init_state=v.init, name=v.name.decode()))
        attributes(ctx, "configuration record", conf_rec, dict(
            guid=v.guid, timestamp=DDF_EPOCH + timedelta(seconds=v.timestamp), sequence_number=v.seqno, primary_element_count=v.pec, strip_size=v.strip,
            primary_raid_level=prl, raid_level_qualifier=rlq, secondary_element_count=v.sec, secondary_raid_level=v.srl, size=v.size_blocks,
            rotate_parity_count=v.rotate, block_size=v.block_size_field))
        with ctx.observing("configuration record"):
            k = conf_rec.secondary_element_seq
            if v.sec == 1:
                ctx.eq("element", k, v.lone_seq)
                k = 0
            ctx.eq("element", 0 <= k < v.sec, True)
            part = slice(k * v.pec, (k + 1) * v.pec)
            ctx.eq("sequence", list(conf_rec.physical_disk_sequence), [s.refs[m] for m in v.members[part]])
            ctx.eq("starting blocks", list(conf_rec.starting_block), v.starts[part])
        ctx.count("records")
        ctx.state("ddf", v.kind, s.sector, s.bs, s.n, len(s.vds), s.pde_bs == 0xFFFF, v.block_size_field == 0xFFFF)


def vinum(ctx, rng):
    from dissect.volume.vinum.vinum import Vinum, VinumPhysicalDisk

    w = World(rng)
    for d in [*w.drives.values(), *w.idle]:
        fh = ctx.source(d.disk, d.name.decode(), with_size=rng.random() < 0.5)
        pd = ctx.lib("VinumPhysicalDisk()", VinumPhysicalDisk, fh)
        attributes(ctx, "drive", pd, dict(id=d.name, name=d.name.decode(), active=d.active))
        with ctx.observing("drive"):
            want = UNIX_EPOCH + timedelta(seconds=d.ts[0], microseconds=d.ts[1])
            # kept as a binary fraction of a second
            ctx.eq("update time", abs((pd.config_time - want).total_seconds()) <= 2e-6, True)
            raw = d.disk.read(4608, 65536)
            second = d.disk.read(4608 + 65536, 65536)
            n = int.from_bytes(d.disk.read(4096 + 8, 8), "big")
            ctx.eq("configuration", pd.config, raw[:n])
            ctx.eq("second configuration", pd.config2, second[:n])
            if d.drive_size:
                ctx.eq("size", pd.size, d.drive_size)
        ctx.count("drives")
        ctx.state("vinum", d.active, len(d.lists).bit_length(), bool(d.drive_size))


def case(ctx, rng, idx, tier):
    (vinum if idx % 3 == 2 else ddf)(ctx, rng)
