"""MD assembly: order independence, spares, journals, stale and foreign devices."""
import copy

from vmon.build_md import FAULTY, JOURNAL, SPARE, array_model, build_device, build_members, random_array, uuid_of
from vmon.checks.p04 import monitor_array
from vmon.content import SparseDisk, fresh_id
from vmon.monitor import Violation

CASES = {"quick": 3000, "thorough": 30000}
ANY_POSITION = True
RULE = "distinct (versions, levels, kinds of extra devices, number of arrays, stale kind) assembled in a shuffled order"
MINIMUM = {"stream_ops": 3000, "extra_devices": 300, "orders": 1200}


def make_set(ctx, rng, base_id, others=()):
    version = rng.choice(["0.90", "1.0", "1.1", "1.2", "1.2"])
    level = rng.choice([-1, 0, 1, 1, 4, 5, 5, 6, 10])
    a = random_array(rng, version, level, base_id=base_id)
    while a.n < 2 and level != -1:
        a = random_array(rng, version, level, base_id=base_id)
    a.set_uuid = fresh_id(rng, 16, [o.set_uuid for o in others])
    if others and version != "0.90" and rng.random() < 0.3:
        a.name = others[0].name
    kinds = []
    extra = []
    if level not in (-1, 0):
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            pool = ["spare", "faulty"]
            if version != "0.90" and level in (4, 5, 6):
                pool += ["journal", "journal"]
            if version != "0.90":
                pool.append("beyond")
            k = rng.choice(pool)
            kinds.append(k)
            extra.append({"spare": SPARE, "faulty": FAULTY, "journal": JOURNAL, "beyond": SPARE}[k])
    members, roles, numbers, content = build_members(rng, a, extra)
    devices = []  # (disk, info, kind)
    for d, i in members:
        devices.append((d, i, "member"))
    for j, k in enumerate(kinds):
        num = numbers[a.n + j]
        if k == "beyond":
            num = len(roles) + rng.randint(0, 5)
        ev = a.events
        if k == "faulty":
            ev = a.events - rng.choice([0, 1])
        d, i = build_device(rng, a, base_id + 20 + j, data_sectors=max(a.member_sectors), data_offset=a.data_offsets[0],
                            dev_number=num, role=extra[j], roles=roles, events=ev)
        devices.append((d, i, k))
        ctx.count("extra_devices")
    stale = "none"
    if rng.random() < 0.45:
        # an old copy of a member: same slot, lower event count, other content, maybe older array parameters
        stale = "duplicate"
        slot = rng.randrange(a.n)
        old = copy.copy(a)
        what = rng.choice(["same", "name", "chunk", "layout", "raid_disks", "level"])
        if what == "chunk" and a.chunk:
            old.chunk = a.chunk * 2
        elif what == "layout" and level in (5, 6):
            old.layout = (a.layout + 1) % 4
        elif what == "raid_disks" and level in (1, 5, 6):
            old.n = a.n + 1
        elif what == "level":
            old.level = {5: 4, 6: 5, 4: 5, 1: 5, 0: 5, 10: 0, -1: 0}[level]
        stale += ":" + what
        src = copy.copy(a)
        if what == "name" and version != "0.90":
            src.name = b"old-name"
        d, i = build_device(rng, src, base_id + 30, data_sectors=a.member_sectors[slot] if rng.random() < 0.5 else max(a.member_sectors) + 128,
                            data_offset=a.data_offsets[slot], dev_number=numbers[slot], role=slot, roles=roles,
                            events=a.events - rng.choice([1, 1, 2, rng.randint(1, a.events - 1)]), array=old)
        devices.append((d, i, "stale"))
        ctx.count("extra_devices")
    elif level == 1 and a.n > 1 and rng.random() < 0.6:
        # mirrors that dropped out: their content is old
        stale = "mirror"
        keep = rng.randrange(a.n)
        for slot in range(a.n):
            if slot == keep:
                continue
            d, i = build_device(rng, a, base_id + 30 + slot, data_sectors=a.member_sectors[slot], data_offset=a.data_offsets[slot],
                                dev_number=numbers[slot], role=slot, roles=roles, events=a.events - rng.randint(1, a.events - 1))
            devices[slot] = (d, i, "stale")
        ctx.count("extra_devices")
    return a, members, content, devices, (version, level, sorted(set(kinds)), stale)


def check_set(ctx, rng, a, members, content, devices, conf, ops):
    with ctx.observing("description"):
        ctx.eq("number of members", len(conf.physical_disks), len(devices))
        ctx.eq("number of volumes", len(conf.virtual_disks), 1)
        vd = conf.virtual_disks[0]
        name = None if a.version == "0.90" else a.name.decode(errors="surrogateescape")
        for attr, want in [("name", name), ("uuid", str(uuid_of(a.set_uuid))), ("level", a.level), ("layout", a.layout),
                           ("stripe_size", a.chunk), ("num_disks", a.n)]:
            ctx.eq(f"volume {attr}", getattr(vd, attr), want)
        got = sorted((pd.dev_number, pd.events, -1 if pd.raid_disk is None else pd.raid_disk) for pd in conf.physical_disks)
        want = sorted((i["dev_number"], i["events"], i["role"] if k in ("member", "stale") else -1) for _, i, k in devices)
        ctx.eq("members (number, events, slot)", got, want)
        slots = [pd.raid_disk for pd in conf.physical_disks]
        ctx.eq("order of members", slots, sorted(slots, key=lambda s: (s is None, s or 0)))
    monitor_array(ctx, rng, a, vd, members, content, ops=ops)


def case(ctx, rng, idx, tier):
    from dissect.volume.md.md import MD, MDConfiguration, MDPhysicalDisk

    sets = []
    for i in range(rng.choice([1, 1, 2, 3])):
        sets.append(make_set(ctx, rng, 1 + 100 * i, [s[0] for s in sets]))
    ctx.params = dict(sets=[s[4] for s in sets], arrays=[repr(s[0])[:400] for s in sets])
    for rep in range(2):
        pool = []
        for si, s in enumerate(sets):
            for d, i, k in s[3]:
                pool.append(ctx.source(d, f"set{si}:{k}", with_size=rng.random() < 0.5))
        rng.shuffle(pool)
        if rng.random() < 0.3:
            pool = [ctx.lib("MDPhysicalDisk()", MDPhysicalDisk, fh) if rng.random() < 0.5 else fh for fh in pool]
        md = ctx.lib("MD()", MD, pool)
        if len(sets) > 1 and rng.random() < 0.3:
            members = [pd for c in md.configurations for pd in c.physical_disks]
            ctx.expect_error("one array of devices from several", ValueError, lambda: MDConfiguration(members))
        ctx.count("orders")
        with ctx.observing("arrays"):
            confs = {c.virtual_disks[0].uuid: c for c in md.configurations}
            ctx.eq("arrays", (len(md.configurations), sorted(confs)), (len(sets), sorted(str(uuid_of(s[0].set_uuid)) for s in sets)))
        for a, members, content, devices, key in sets:
            check_set(ctx, rng, a, members, content, devices, confs[str(uuid_of(a.set_uuid))], 4)
    for s in sets:
        ctx.state(len(sets), *s[4])
