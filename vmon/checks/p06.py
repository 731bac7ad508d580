"""DDF virtual disks."""
from vmon.build_ddf import KINDS, random_set
from vmon.checks.p04 import Clip
from vmon.content import SparseDisk
from vmon.monitor import StreamMonitor, Violation

CASES = {"quick": 3500, "thorough": 30000}
ANY_POSITION = True
RULE = "distinct (kind, member count, strip size, sector size, non-zero start, number of virtual disks) listed and read"
MINIMUM = {"stream_ops": 3000, "virtual_disks": 500, "expected_errors": 10}


def check_set(ctx, rng, s, conf, ops=6):
    with ctx.observing("virtual disks"):
        got = sorted(vd.uuid for vd in conf.virtual_disks)
        ctx.eq("virtual disks", got, sorted(vd.guid.hex() for vd in s.vds))
        ctx.eq("physical disks", sorted(pd.reference for pd in conf.physical_disks), sorted(s.refs))
        by = {vd.uuid: vd for vd in conf.virtual_disks}
    for v in s.vds:
        vd = by[v.guid.hex()]
        prl, rlq, level, layout = KINDS[v.kind]
        size = v.size_blocks * s.bs
        with ctx.observing("attributes"):
            ctx.eq("name", vd.name, v.name.decode("utf-8"))
            ctx.eq("size", vd.size, size)
            ctx.eq("level", vd.level, level)
            ctx.eq("stripe size", vd.stripe_size, (1 << v.strip) * s.bs)
            ctx.eq("number of disks", vd.num_disks, len(v.members))
        ctx.count("virtual_disks")
        stream = ctx.lib("open", vd.open)
        label = f"DDF {v.kind} n={len(v.members)} strip={1 << v.strip} starts={v.starts}"
        if size:
            sm = StreamMonitor(ctx, stream, v.content if level == 1 else s.model(v), label, grains=((1 << v.strip) * s.bs, 512, 8192), max_len=1 << 17,
                               hot=[v.blocks * s.bs * i for i in range(len(v.members))])
            sm.run(rng, ops)
            sm.full(1 << 20, piece=rng.choice([None, 65536, 12345]))
        ctx.state(v.kind, len(v.members), v.strip, s.sector, s.bs, any(v.starts), len(s.vds))


def case(ctx, rng, idx, tier):
    from dissect.volume.ddf.ddf import DDF, DDFPhysicalDisk

    if idx % 50 == 49:
        fh = ctx.source(SparseDisk(9, rng.choice([0, 511, 512, 4096, 1 << 20]), zero=rng.random() < 0.5), "plain")
        ctx.expect_error("DDF() on a disk without anchor", Exception, lambda: DDF([fh]))
        return
    sets = [random_set(rng, kinds=[list(KINDS)[idx % len(KINDS)]] if rng.random() < 0.3 else None)]
    if rng.random() < 0.2:
        sets.append(random_set(rng, base_id=101, sector=sets[0].sector, like=sets[0]))
    ctx.params = dict(sets=[[repr(v)[:300] for v in s.vds] for s in sets], sector=sets[0].sector)
    pool = [ctx.source(d, f"disk{d.disk_id}", with_size=rng.random() < 0.5) for s in sets for d in s.disks]
    rng.shuffle(pool)
    ss = sets[0].sector
    if rng.random() < 0.2:
        pool = [ctx.lib("DDFPhysicalDisk()", DDFPhysicalDisk, fh, ss) if rng.random() < 0.5 else fh for fh in pool]
    arg = pool[0] if len(pool) == 1 and rng.random() < 0.8 else pool
    ddf = ctx.lib("DDF()", DDF, arg, ss) if ss != 512 or rng.random() < 0.5 else ctx.lib("DDF()", DDF, arg)
    with ctx.observing("configurations"):
        ctx.eq("configurations", len(ddf.configurations), len(sets))
        confs = []
        for s in sets:
            match = [c for c in ddf.configurations if {pd.reference for pd in c.physical_disks} & set(s.refs)]
            ctx.eq("configurations of a group", len(match), 1)
            confs.append(match[0])
    for s, c in zip(sets, confs):
        check_set(ctx, rng, s, c)
