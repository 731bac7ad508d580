"""MBR partition tables."""
from vmon.build_disk import random_mbr
from vmon.checks.disks import check_listing, direct, open_disk

CASES = {"quick": 5000, "thorough": 40000}
RULE = "distinct (sector size, used slots, extended slot, logicals, magnitude of starts) listed and read"
MINIMUM = {"partitions": 5000, "partitions_read": 3000, "logicals": 2000}


def case(ctx, rng, idx, tier):
    from dissect.volume.disk.schemes import MBR

    img = random_mbr(rng)
    ctx.params = dict(ss=img.ss, slots=img.slots, parts=[(p.kind, p.offset, p.size, p.type, p.flags) for p in img.parts])
    disk, fh = open_disk(ctx, rng, img)
    with ctx.observing("scheme"):
        ctx.eq("scheme", type(disk.scheme), MBR)
        ctx.eq("serial", disk.serial, img.serial)
    check_listing(ctx, rng, img, disk.partitions, f"MBR ss={img.ss}")
    if rng.random() < 0.3:
        fh.seek(0)
        mbr = direct(ctx, rng, img, MBR, fh)
        check_listing(ctx, rng, img, mbr.partitions, "MBR scheme", reads=1)
    ctx.count("logicals", len(img.chain))
    ctx.state(img.ss, "".join("-" if s is None else "E" if s[1] in (5, 15, 0x85) else "p" for s in img.slots), len(img.chain),
              max([p.offset.bit_length() // 4 for p in img.parts], default=0))
