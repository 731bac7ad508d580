"""What the disk checks share."""
from vmon.monitor import StreamMonitor


def compare_partition(ctx, part, got, label):
    """Compare one listed partition with what the table says; returns the size to read."""
    with ctx.observing(label):
        ctx.eq(f"{label}: offset", got.offset, part.offset)
        ctx.eq(f"{label}: type", got.type, part.type)
        if part.number is not None:
            ctx.eq(f"{label}: number", got.number, part.number)
        if part.flags is not None:
            ctx.eq(f"{label}: flags", got.flags, part.flags)
        if part.name is not None:
            ctx.eq(f"{label}: name", got.name, part.name)
        if part.guid is not None:
            ctx.eq(f"{label}: identifier", got.guid, part.guid)
        if part.type_str is not None:
            ctx.eq(f"{label}: description", got.type_str, part.type_str)
        size = got.size
        if part.kind == "gpt" and size == part.size - part.extra["ss"]:
            ctx.known("KF-GPT-SIZE", f"{label}: size {size:#x} instead of {part.size:#x}")
        else:
            ctx.eq(f"{label}: size", size, part.size)
    return size


def read_partition(ctx, rng, img, part, got, size, label, ops=3):
    stream = ctx.lib(f"{label}: open", got.open)
    model = img.stream_model(part, size)
    m = StreamMonitor(ctx, stream, model, label, grains=(img.ss, 4096), max_len=20000)
    m.at(0, min(3000, model.size + 100))
    m.at(max(0, model.size - 700), 2000)
    m.run(rng, ops)
    m.full(40000)
    ctx.count("partitions_read")


def check_listing(ctx, rng, img, partitions, what, reads=4, ops=3):
    with ctx.observing(what):
        parts = list(partitions)
        ctx.eq(f"{what}: number of partitions", len(parts), len(img.parts))
    ctx.count("partitions", len(parts))
    sizes = [compare_partition(ctx, want, got, f"{what} #{i} ({want.kind})") for i, (want, got) in enumerate(zip(img.parts, parts))]
    whole = [i for i, p in enumerate(img.parts) if not p.extra.get("listed only")]
    pick = rng.sample(whole, min(len(whole), reads))
    for i in pick:
        read_partition(ctx, rng, img, img.parts[i], parts[i], sizes[i], f"{what} #{i} ({img.parts[i].kind})", ops)


def open_disk(ctx, rng, img, disk=None):
    from dissect.volume.disk import Disk

    model = img.disk() if disk is None else disk
    fh = ctx.source(model, "disk", with_size=rng.random() < 0.5)
    if img.ss == 512 and rng.random() < 0.5:
        return ctx.lib("Disk()", Disk, fh), fh
    return ctx.lib("Disk()", Disk, fh, sector_size=img.ss), fh


def direct(ctx, rng, img, scheme, fh):
    """Use a scheme without looking for it."""
    if img.ss == 512 and rng.random() < 0.5:
        return ctx.lib(f"{scheme.__name__}()", scheme, fh)
    return ctx.lib(f"{scheme.__name__}()", scheme, fh, sector_size=img.ss)
