"""Apple partition maps."""
from vmon.build_disk import random_apm
from vmon.checks.disks import check_listing, direct, open_disk

CASES = {"quick": 10000, "thorough": 100000}
RULE = "distinct (descriptor present, entries, lengths of names and types, magnitude) listed and read"
MINIMUM = {"partitions": 5000, "partitions_read": 3000}


def case(ctx, rng, idx, tier):
    from dissect.volume.disk.schemes import APM

    img = random_apm(rng)
    ctx.params = dict(parts=[(p.offset, p.size, p.type, p.name) for p in img.parts])
    disk, fh = open_disk(ctx, rng, img)
    with ctx.observing("scheme"):
        ctx.eq("scheme", type(disk.scheme), APM)
    check_listing(ctx, rng, img, disk.partitions, "APM")
    if rng.random() < 0.2:
        fh.seek(0)
        apm = direct(ctx, rng, img, APM, fh)
        check_listing(ctx, rng, img, apm.partitions, "APM scheme", reads=1)
    ctx.state(img.writes[0][1][:2], len(img.parts), len(img.parts[0].name), len(img.parts[-1].type),
              max(p.offset.bit_length() for p in img.parts) // 4)
