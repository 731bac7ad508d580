"""BSD disklabels, bare and nested."""
from vmon.build_disk import BSD_GPT, BSD_MBR, Part, bsd_label, random_bsd, random_gpt, random_mbr
from vmon.checks.disks import check_listing, direct, open_disk
from vmon.content import SparseDisk

CASES = {"quick": 6000, "thorough": 60000}
RULE = "distinct (where, bits, sector size, slices, listed entries, base class) listed and read"
MINIMUM = {"partitions": 5000, "partitions_read": 3000, "nested": 500}


def slice_of(rng, disk_id, bits, ss, start):
    """A labelled slice starting at sector start: (content model, parts, sectors)."""
    sectors = rng.choice([100, 5000, rng.randint(40, 1 << 20)])
    content = SparseDisk(disk_id, sectors * ss)
    base = rng.choice([0, min(start, 0xFFFFFFFF), min(start, 0xFFFFFFFF), rng.randint(0, 1 << 24)])
    label, parts = bsd_label(rng, bits, base, ss, limit=content.size, base_model=content)
    content.write(0, bytes(512))
    content.write(ss, label)
    return content, parts, sectors


def nested_mbr(rng, ss=None, base_id=1):
    bits = rng.choice([32, 32, 64])
    ss = ss or (512 if bits == 64 else rng.choice([512, 512, 4096]))
    slots = []
    embeds = []
    pos = rng.choice([63, 2048, rng.randint(1, 100000)])
    for i, slot in enumerate(sorted(rng.sample(range(4), rng.choice([1, 1, 1, 2, 3])))):
        model, parts, sectors = slice_of(rng, base_id + 10 + i, bits, ss, pos)
        slots.append((slot, (rng.choice([0, 0x80]), rng.choice(BSD_MBR), pos, sectors), parts))
        embeds.append((pos * ss, model, model.size))
        pos += sectors + rng.randint(0, 5000)
    while True:
        img = random_mbr(rng, base_id, ss, extended=rng.random() < 0.3, extra_slots=slots)
        # the boot records of the chain must not lie in the slices
        if all(b <= o or a >= o + n for o, _, n in embeds for a, b in img.taken if a):
            break
    img.embeds = embeds
    img.end = max(img.end, pos * ss)
    img.bits = bits
    return img, len(slots)


def nested_gpt(rng, ss=None, base_id=1):
    bits = rng.choice([32, 32, 64])
    ss = ss or 512
    fixed = []
    embeds = []
    pos = rng.choice([400, 2048, rng.randint(400, 100000)])
    for i, entry in enumerate(sorted(rng.sample(range(6), rng.choice([1, 1, 2])))):
        model, parts, sectors = slice_of(rng, base_id + 10 + i, bits, ss, pos)
        # the size the library sees may lack the last sector
        parts = [p for p in parts]
        fixed.append((entry, rng.choice(BSD_GPT), pos, pos + sectors, parts))
        embeds.append((pos * ss, model, model.size))
        pos += sectors + rng.randint(1, 5000)
    while True:
        img = random_gpt(rng, base_id, ss, fixed=fixed)
        if all(b <= o or a >= o + n for o, _, n in embeds for a, b in img.taken if a):
            break
    img.embeds = embeds
    img.end = max(img.end, pos * ss)
    img.bits = bits
    return img, len(fixed)


def case(ctx, rng, idx, tier):
    from dissect.volume.disk.schemes import BSD

    where = rng.choice(["bare", "mbr", "mbr", "gpt"])
    if where == "bare":
        img, n = random_bsd(rng), 1
    else:
        img, n = (nested_mbr if where == "mbr" else nested_gpt)(rng)
        ctx.count("nested")
    ctx.params = dict(where=where, ss=img.ss, bits=img.bits, parts=[(p.kind, p.number, p.offset, p.size, p.type) for p in img.parts])
    disk, fh = open_disk(ctx, rng, img)
    with ctx.observing("scheme"):
        if where == "bare":
            ctx.eq("scheme", type(disk.scheme), BSD)
    check_listing(ctx, rng, img, disk.partitions, f"BSD {where} {img.bits} ss={img.ss}", reads=5)
    if where == "bare" and rng.random() < 0.3:
        fh.seek(0)
        bsd = direct(ctx, rng, img, BSD, fh)
        check_listing(ctx, rng, img, bsd.partitions, "BSD scheme", reads=1)
    ctx.state(where, img.bits, img.ss, n, sum(p.kind.startswith("bsd") for p in img.parts), len(img.parts))
