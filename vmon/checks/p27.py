"""How partition types are described."""
from uuid import UUID

from vmon.build_disk import BSD_NAMES, EXTENDED, random_apm, random_bsd, random_gpt, random_mbr
from vmon.checks.disks import open_disk
from vmon.checks.p15 import nested_gpt, nested_mbr
from vmon.parttypes import GPT_TYPES, MBR_TYPES

CASES = {"quick": 8000, "thorough": 60000}
RULE = "distinct (scheme, partition type) described"
MINIMUM = {"described": 8000, "mbr_named": 50, "gpt_named": 300, "unknown": 500, "bsd": 1000, "apm": 500}

# What an entry of a disk that has these types means differs, or the entry is not listed
MBR_LISTED = [t for t in range(1, 256) if t not in EXTENDED and t != 0xEE]
GPT_LISTED = [t for t in GPT_TYPES if t.int]


def described(part):
    """(description, name) the listed partition has to have."""
    if part.kind == "apm":
        return part.type, part.type
    if part.kind.startswith("bsd"):
        name = BSD_NAMES.get(part.type, "?")
        return name, name
    if part.kind == "gpt":
        name = GPT_TYPES.get(part.type, "Unknown")
        return f"{part.type} ({name})", name
    name = MBR_TYPES.get(part.type, "Unknown")
    return f"0x{part.type:x} ({name})", name


def case(ctx, rng, idx, tier):
    kind = rng.choice(["mbr", "mbr", "gpt", "gpt", "apm", "bsd", "nested_mbr", "nested_gpt"])
    if kind == "mbr":
        img = random_mbr(rng, types=MBR_LISTED)
    elif kind == "gpt":
        # near misses of known identifiers are not known either
        near = [UUID(int=rng.choice(GPT_LISTED).int ^ 1 << rng.randrange(128)) for _ in range(3)]
        img = random_gpt(rng, types=[*GPT_LISTED, *[t for t in near if t not in GPT_TYPES]])
    elif kind == "apm":
        img = random_apm(rng)
    elif kind == "bsd":
        img = random_bsd(rng)
    else:
        img, _ = (nested_mbr if kind == "nested_mbr" else nested_gpt)(rng)
    ctx.params = dict(kind=kind, ss=img.ss, types=[(p.kind, str(p.type)) for p in img.parts])
    disk, _ = open_disk(ctx, rng, img)
    with ctx.observing("partitions"):
        listed = list(disk.partitions)
        ctx.eq("number of partitions", len(listed), len(img.parts))
    for want, got in zip(img.parts, listed):
        text, name = described(want)
        what = f"{want.kind} type {want.type}"
        with ctx.observing(what):
            ctx.eq(f"{what}: type", got.type, want.type)
            ctx.eq(f"{what}: description", got.type_str, text)
            ctx.eq(f"{what}: name of the type", got.type_name, name)
        ctx.count("described")
        if want.kind == "apm" or want.kind.startswith("bsd"):
            ctx.count(want.kind[:3])
        elif name == "Unknown":
            ctx.count("unknown")
        else:
            ctx.count("gpt_named" if want.kind == "gpt" else "mbr_named")
        ctx.state(want.kind, str(want.type) if name != "Unknown" and want.kind != "apm" else name)
