"""Vinum volumes."""
from vmon.build_vinum import World
from vmon.content import SparseDisk
from vmon.monitor import StreamMonitor, Violation

CASES = {"quick": 4500, "thorough": 24000}
ANY_POSITION = True
RULE = "distinct (plex organisations, subdisks, same drive used twice, missing/inactive/stale drives, mirrored) read"
MINIMUM = {"stream_ops": 3000, "volumes": 500, "mirrors": 50, "expected_errors": 20}
LEVELS = {b"concat": -1, b"striped": 0, b"raid5": 5}


def check_volumes(ctx, rng, w, present, vds, ops=6):
    want, drives = w.resolve(present)
    with ctx.observing("volumes"):
        listed = [vd.name for vd in vds]
        ctx.eq("volumes listed twice", len(set(listed)), len(listed))
        by = {vd.name: vd for vd in vds}
    names = set()
    for name, (full, partial, altered, active) in want.items():
        text = name.decode()
        names.add(text)
        if not full and not partial:
            ctx.eq(f"volume {text} without usable plex is listed", text in by, False)
            continue
        if not full:
            if active == 1 and not altered and text in by:
                # incomplete, but the size is defined
                plex, sds, _ = partial[0]
                total = sum(o.length for o in sds)
                with ctx.observing("attributes"):
                    ctx.eq(f"{text} size", by[text].size, total - sds[0].length if plex.org == b"raid5" else total)
                ctx.count("incomplete")
            continue
        vd = by.get(text)
        if vd is None:
            raise Violation("wrong value", f"volume {text} with a complete plex is not listed: {listed}")
        if altered:  # the newest configuration is gone and what is left describes something else
            continue
        models = [w.plex_model(p, sds, drives) for p, sds, _ in full]
        model = models[0]
        with ctx.observing("attributes"):
            ctx.eq(f"{text} size", vd.size, model.size)
            if active == 1:
                ctx.eq(f"{text} level", vd.level, LEVELS[full[0][0].org])
                if full[0][0].org != b"concat":
                    ctx.eq(f"{text} stripe size", vd.stripe_size, full[0][0].stripesize)
            else:
                ctx.eq(f"{text} level", vd.level, 1)
                ctx.count("mirrors")
        stream = ctx.lib("open", vd.open)
        label = f"vinum {text} {[(p.org, len(s)) for p, s, _ in full]}"
        sm = StreamMonitor(ctx, stream, model, label, grains=(512, full[0][0].stripesize or 4096, 8192), max_len=1 << 17,
                           hot=[o.plexoffset for o in full[0][1]])
        sm.run(rng, ops)
        if rng.random() < 0.5:
            sm.full(1 << 20, piece=rng.choice([None, 65536, 9999]))
        ctx.count("volumes")
        for p, sds, _ in full:
            ctx.state(p.org, len(sds), len({o.drive for o in sds}) < len(sds), len(full), len(partial), altered,
                      len(present) < len(w.drives), bool(w.idle))
    with ctx.observing("volumes"):
        for n in listed:
            if n not in names:
                raise Violation("wrong value", f"volume {n!r} is not configured")


def case(ctx, rng, idx, tier):
    from dissect.volume.vinum.vinum import Vinum, VinumPhysicalDisk

    if idx % 60 == 59:
        fh = ctx.source(SparseDisk(9, rng.choice([0, 4096, 5000, 1 << 20]), zero=rng.random() < 0.5), "plain")
        ctx.expect_error("Vinum() without drive header", Exception, lambda: Vinum([fh]))
        return
    w = World(rng)
    present = [*w.drives.values(), *w.idle]
    if rng.random() < 0.25 and len(present) > 1:
        present.remove(rng.choice(present))
    for rep in range(rng.choice([1, 2])):
        rng.shuffle(present)
        ctx.params = dict(drives=[(d.name, d.active, d.ts, [repr(o) for o in d.lists][:8]) for d in present])
        fhs = [ctx.source(d.disk, d.name.decode(), with_size=rng.random() < 0.5) for d in present]
        if rng.random() < 0.2:
            fhs = [ctx.lib("VinumPhysicalDisk()", VinumPhysicalDisk, f) if rng.random() < 0.5 else f for f in fhs]
        want, _ = w.resolve(present)
        arg = fhs[0] if len(fhs) == 1 else fhs
        if not any(f or p for f, p, *_ in want.values()):
            ctx.expect_error("Vinum() without usable volume", ValueError, Vinum, arg)
            continue
        if not any(f for f, *_ in want.values()):
            try:
                Vinum(arg)
            except Exception:
                pass
            continue
        v = ctx.lib("Vinum()", Vinum, arg)
        with ctx.observing("configuration"):
            ctx.eq("configurations", len(v.configurations), 1)
            vds = v.configurations[0].virtual_disks
        check_volumes(ctx, rng, w, present, vds)
