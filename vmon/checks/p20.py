"""Volume shadow copies."""
from vmon.build_vss import BS, random_volume
from vmon.monitor import StreamMonitor

CASES = {"quick": 1500, "thorough": 12000}
ANY_POSITION = True
RULE = "distinct (snapshots, volume size class, copies, overlays, catalog blocks, list blocks) read"
MINIMUM = {"stream_ops": 5000, "snapshots": 500, "overlay_reads": 100, "moved_reads": 300, "linked_lists": 20}


def check_snapshots(ctx, rng, vol, vss, ops=8):
    with ctx.observing("listing"):
        ctx.eq("volume identifier", vss.volume_identifier, vol.identifier)
        ctx.eq("store volume identifier", vss.store_volume_identifier, vol.store_volume)
        stores = list(vss.catalog.stores)
        ctx.eq("snapshots", [(s.copy_identifier, s.copy_set_identifier, s.creation_time, s.size) for s in stores],
               [(s["copy"], s["set"], s["time"], vol.size) for s in vol.stores])
    for k in rng.sample(range(len(stores)), len(stores)):
        st = vol.stores[k]
        label = f"snapshot {k} of {len(stores)}"
        m = StreamMonitor(ctx, ctx.lib("open", stores[k].open), vol.model(k), label, grains=(BS, BS, 4096, 512), max_len=4 * BS, hot=vol.hot_offsets(k))
        for b in rng.sample(list(st["overlays"]), min(3, len(st["overlays"]))):
            m.at(b * BS, BS)
            ctx.count("overlay_reads")
        for b in rng.sample(list(st["copies"]), min(3, len(st["copies"]))):
            m.at(max(0, b * BS - 512), BS + 1024)
        for b in rng.sample(list(st["moved"]), min(3, len(st["moved"]))):
            m.at(b * BS + rng.choice([0, 100]), BS)
            ctx.count("moved_reads")
        for o in vol.stores:
            # what other snapshots keep is not necessarily ours
            for b in rng.sample([*o["copies"], *o["overlays"]], min(2, len(o["copies"]) + len(o["overlays"]))):
                m.at(b * BS + rng.choice([0, 512, 5000]), 2000)
        m.run(rng, ops)
        m.full(64 * BS, piece=rng.choice([None, BS, 50000]))
        ctx.count("snapshots")
        ctx.state(len(stores), vol.blocks.bit_length(), len(st["copies"]).bit_length(), len(st["overlays"]).bit_length(), len(st["moved"]), vol.entries > 127, len(st["records"]) > 508, vol.tail)


def case(ctx, rng, idx, tier):
    from dissect.volume.vss import VSS

    vol = random_volume(rng)
    ctx.params = dict(blocks=vol.blocks, stores=[dict(copies=s["copies"], overlays=s["overlays"]) for s in vol.stores])
    if any(len(s["records"]) > 508 for s in vol.stores):
        ctx.count("linked_lists")
    fh = ctx.source(vol.disk, "volume", with_size=rng.random() < 0.5)
    fh.seek(rng.choice([0, 0, 12345]))
    vss = ctx.lib("VSS()", VSS, fh)
    check_snapshots(ctx, rng, vol, vss)
