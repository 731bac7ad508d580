"""GUID partition tables."""
from vmon.build_disk import random_gpt
from vmon.checks.disks import check_listing, direct, open_disk

CASES = {"quick": 6000, "thorough": 60000}
RULE = "distinct (sector size, entry size, entry count, table position class, slots of the MBR, used entries) listed and read"
MINIMUM = {"partitions": 5000, "partitions_read": 3000, "hybrid": 200}


def case(ctx, rng, idx, tier):
    from dissect.volume.disk.schemes import GPT

    img = random_gpt(rng)
    ctx.params = dict(ss=img.ss, esize=img.esize, count=img.count, table=img.table_lba, slots=img.slots)
    disk, fh = open_disk(ctx, rng, img)
    with ctx.observing("scheme"):
        ctx.eq("scheme", type(disk.scheme), GPT)
    check_listing(ctx, rng, img, disk.partitions, f"GPT ss={img.ss}")
    if rng.random() < 0.2:
        fh.seek(0)
        gpt = direct(ctx, rng, img, GPT, fh)
        check_listing(ctx, rng, img, gpt.partitions, "GPT scheme", reads=1)
    if any(p.kind == "hybrid" for p in img.parts):
        ctx.count("hybrid")
    ctx.state(img.ss, img.esize, img.count.bit_length(), img.table_lba.bit_length() // 4,
              "".join("-" if s is None else "E" if s[1] == 0xEE else "p" for s in img.slots), min(20, len(img.parts)))
