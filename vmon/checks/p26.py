"""Lists and bitmaps of shadow copy stores."""
import struct

from vmon.monitor import StreamMonitor
from vmon.build_vss import BS, random_volume

CASES = {"quick": 500, "thorough": 4000}
ANY_POSITION = True
RULE = "distinct (snapshots, ranges, volume size class, bitmap blocks) described"
MINIMUM = {"comparisons": 5000, "stores": 400, "ranges": 2000, "bits": 20000, "long_ranges": 20, "absent": 50, "empty_reads": 300, "records": 1000}


def compare_records(ctx, rng, cls):
    """Block records of 32 bytes, equal or with one field changed."""
    values = [rng.getrandbits(rng.choice([8, 40, 64])) for _ in range(3)] + [rng.randrange(64), rng.getrandbits(32)]
    one = ctx.lib("block record", cls, struct.pack("<QQQII", *values))
    same = ctx.lib("block record", cls, struct.pack("<QQQII", *values))
    i = rng.randrange(5)
    values[i] ^= 1 << rng.randrange([64, 64, 64, 6, 32][i])
    other = ctx.lib("block record", cls, struct.pack("<QQQII", *values))
    with ctx.observing("comparison of block records"):
        ctx.eq("equal records", (one == same, one != same, one == one), (True, False, True))
        ctx.eq(f"records that differ in field {i}", (one == other, one != other, other == one), (False, True, False))
        ctx.eq("a record and something else", (one == values[0], one == None, one != "x"), (False, False, True))  # noqa: E711
    ctx.count("records", 3)


def case(ctx, rng, idx, tier):
    from dissect.volume.vss import VSS, BlockDescriptor

    compare_records(ctx, rng, BlockDescriptor)

    unused = idx % 3 == 0
    vol = random_volume(rng, unused=unused, blocks=rng.randint(60, 5000) if unused else None)
    ctx.params = dict(blocks=vol.blocks, ranges=[len(s["ranges"]) for s in vol.stores])
    vss = ctx.lib("VSS()", VSS, ctx.source(vol.disk, "volume", with_size=rng.random() < 0.5))
    with ctx.observing("catalog"):
        ctx.eq("catalog entries", len(vss.catalog.entries), vol.entries)
        stores = list(vss.catalog.stores)
        ctx.eq("snapshots", len(stores), len(vol.stores))
        for k, st in enumerate(stores):
            ctx.eq("index", st.index, k)
            ctx.eq("older", st.previous_store is (stores[k - 1] if k else None), True)
            ctx.eq("newer", st.next_store is (stores[k + 1] if k + 1 < len(stores) else None), True)
    for k in rng.sample(range(len(stores)), len(stores)):
        st, want = stores[k], vol.stores[k]
        with ctx.observing("information"):
            info = st.information
            kind, provider, attrs, mach, serv = want["info"]
            ctx.eq("type", info.type, kind)
            ctx.eq("provider", info.provider, provider)
            ctx.eq("attributes", int(info.attributes), attrs)
            ctx.eq("operating machine", info.operating_machine, mach)
            ctx.eq("service machine", info.service_machine, serv)
            ctx.eq("volume size", st.volume_size, vol.size)
        with ctx.observing("ranges"):
            ctx.eq("ranges", [(r.store_offset, r.relative_offset, r.size) for r in st.range_list.entries], want["ranges"])
            ctx.count("ranges", len(want["ranges"]))
            ctx.count("long_ranges", len(want["ranges"]) > 677)
        for name, bits in zip(("bitmap", "previous_bitmap"), want["maps"]):
            with ctx.observing(name):
                bm = getattr(st, name)
                if bits is None:
                    ctx.eq(f"{name} without a record", bm, None)
                    ctx.count("absent")
                    continue
                for b in [0, vol.blocks - 1, *(rng.randrange(vol.blocks) for _ in range(30))]:
                    bit = bits[b // 8] >> b % 8 & 1
                    ctx.eq(f"{name} of block {b}", (bool(bm.is_set(b)), bool(bm.in_use(b)), bool(bm[b]), bool(bm.has_offset(b * BS + rng.randrange(BS)))),
                           (bit == 1, bit == 0, bit == 0, bit == 0))
                    ctx.count("bits")
        if unused and k == len(stores) - 1:
            empty = sorted(vol.empty())
            m = StreamMonitor(ctx, ctx.lib("open", st.open), vol.model(k), "newest snapshot", grains=(BS, 4096, 512), max_len=4 * BS, hot=[b * BS for b in empty])
            m.run(rng, 20)
            for b in rng.sample(empty, min(10, len(empty))):
                m.at(max(0, b * BS - 512), BS + 1024)
                ctx.count("empty_reads")
        ctx.count("stores")
        ctx.state(len(stores), len(want["ranges"]), vol.blocks.bit_length(), len(want["maps"][0]) > BS - 128)
