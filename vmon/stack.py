"""Volumes as carriers of the disks of other volumes."""
from __future__ import annotations

import struct
from bisect import bisect_right
from uuid import UUID

from vmon.build_disk import BSD_MAGIC, GPT_TYPES, mbr_sector
from vmon.build_lvm import VG
from vmon.build_md import array_model, build_members, random_array
from vmon.build_thin import Pool
from vmon.content import ChunkMap, Extents, Slice, SparseDisk
from vmon.raidmodel import RAID5_LAYOUTS, RAID6_LAYOUTS, Raid0Big, linear_model, parity_data_disks, parity_model, raid10_model

MAX_PIECES = 3000


def where(model, off):
    """(disk, offset on it, how far that holds) for one position of a model."""
    if isinstance(model, SparseDisk):
        return model, off, model.size - off
    if isinstance(model, Slice):
        d, o, n = where(model.src, model.offset + off)
        return d, o, min(n, model.size - off)
    if isinstance(model, Extents):
        i = bisect_right(model._starts, off) - 1
        length, src, soff = model._ext[i]
        skip = off - model._starts[i]
        d, o, n = where(src, soff + skip)
        return d, o, min(n, length - skip)
    if isinstance(model, ChunkMap):
        no, skip = divmod(off, model.chunk)
        src, soff = model.locate(no)
        d, o, n = where(src, soff + skip)
        return d, o, min(n, model.chunk - skip)
    if isinstance(model, Raid0Big):
        z0, z1, dstart, alive = next(z for z in model.zones if z[0] <= off < z[1])
        no, skip = divmod(off - z0, model.chunk)
        row, j = divmod(no, len(alive))
        if model.orig:
            j = off // model.chunk % len(alive)
        src, start, _ = model.members[alive[j]]
        return src, start + dstart + row * model.chunk + skip, model.chunk - skip
    raise TypeError(model)


def place(model, content):
    """Make the volume described by the model start with the content."""
    pos = 0
    while pos < content.size:
        d, o, n = where(model, pos)
        n = min(n, content.size - pos)
        assert n > 0, (model, pos)
        d.embed(o, content, n, pos)
        pos += n


# Carriers: (disks, open(ctx, files) -> one stream per content). `exact` carriers end where the content ends.
def table_disk(rng, did, contents, scheme):
    ss = 512
    first = {"mbr": 63, "ebr": 63, "gpt": 40, "apm": 64, "bsd": 16}[scheme] + rng.choice([0, 1, 2048])
    pos = first
    at = []
    for c in contents:
        n = c.size // ss
        at.append((pos, n))
        pos += n + rng.choice([1, 1, 7, 2048])
    d = SparseDisk(did, (pos + rng.choice([0, 34])) * ss)
    offsets = [p * ss for p, _ in at]
    for c, o in zip(contents, offsets):
        d.embed(o, c)
    if scheme == "mbr":
        d.write(0, mbr_sector(rng, [(0, rng.choice([0x83, 0xFD, 0x8E, 0x07]), p, n) for p, n in at], 77))
    elif scheme == "ebr":
        # logical volumes; every boot record sits right before its volume
        ext = first - 1
        d.write(0, mbr_sector(rng, [(0, 5, ext, pos - ext)], 78))
        for i, (p, n) in enumerate(at):
            nxt = (0, 5, at[i + 1][0] - 1 - ext, at[i + 1][1] + 1) if i + 1 < len(at) else None
            d.write((p - 1) * ss, mbr_sector(rng, [(0, 0x83, 1, n), nxt], 0))
    elif scheme == "gpt":
        table = bytearray(128 * 128)
        for i, (p, n) in enumerate(at):
            # one sector more: the listed size leaves it off (KF-GPT-SIZE)
            table[i * 128 : i * 128 + 128] = rng.choice(GPT_TYPES).bytes_le + rng.randbytes(16) + struct.pack("<QQQ", p, p + n, 0) + bytes(72)
        d.write(0, mbr_sector(rng, [(0, 0xEE, 1, 0xFFFFFFFF)], 79))
        d.write(ss, struct.pack("<8sIIIIQQQQ16sQIII", b"EFI PART", 0x10000, 92, 1, 0, 1, pos, 34, pos, rng.randbytes(16), 2, 128, 128, 1).ljust(512, b"\0"))
        d.write(2 * ss, bytes(table))
    elif scheme == "apm":
        d.write(0, (b"ER" + struct.pack(">HI", 512, pos)).ljust(512, b"\0"))
        entries = [("map", "Apple_partition_map", 1, 10)] + [(f"part{i}", "Apple_HFS", p, n) for i, (p, n) in enumerate(at)]
        for i, (name, typ, p, n) in enumerate(entries):
            d.write((1 + i) * ss, struct.pack(">2sHIII32s32s", b"PM", 0, len(entries), p, n, name.encode(), typ.encode()).ljust(512, b"\0"))
    elif scheme == "bsd":
        head = struct.pack("<IHH16s16s", BSD_MAGIC, 4, 0, b"SCSI", b"pack") + struct.pack("<6I", ss, 63, 255, 100, 16065, 1 << 20) + bytes(68)
        slots = [x for x in range(8) if x != 2][: len(at)]
        head += struct.pack("<IHHII", BSD_MAGIC, 0, 8, 8192, 8192)
        ents = {2: (0, 0, 0)}
        for s, (p, n) in zip(slots, at):
            ents[s] = (n, p, rng.choice([7, 14]))
        for i in range(8):
            n, p, fs = ents.get(i, (0, 0, 0))
            head += struct.pack("<IIIBBH", n, p, 0, fs, 0, 0)
        d.write(0, bytes(512))
        d.write(ss, head.ljust(512, b"\0"))

    def enter(ctx, fhs):
        from dissect.volume.disk import Disk

        parts = {p.offset: p for p in Disk(fhs[0]).partitions}
        return [parts[o].open() for o in offsets]

    return [d], enter


def lvm_carrier(rng, did, contents):
    need = sum(c.size for c in contents)
    ext = next(e for e in (8, 64, 512, 4096, 1 << 15, 1 << 18, 1 << 22, 1 << 26, 1 << 31) if need // (e * 512) <= 90)
    while True:
        total = sum(-(-c.size // (ext * 512)) for c in contents)
        vg = VG(rng, npv=rng.randint(1, 4), extent_sectors=ext, pe=2 * total + 10, base_id=did)
        for p in vg.pvs:
            p.pe_start = 2048
            p.disk = SparseDisk(p.disk_id, p.pe_start * 512 + p.count * vg.extent)
        ok = True
        for i, c in enumerate(contents):
            n = -(-c.size // vg.extent)
            stripes = rng.choice([1, 1, 2, 3])
            got = None
            if stripes > 1:
                n = -(-n // stripes) * stripes
                got = vg.stripe_segment(0, n, stripes)
                if got and c.size // (got[0]["stripe_size"] * 512) > MAX_PIECES:
                    got = None
            if got:
                seg, model, _ = got
                vg.add_lv(f"disk{i}", [seg])
                vg.models[f"disk{i}"] = model
            elif vg.plain_lv(f"disk{i}", nseg=rng.choice([1, 2, 3]), length=n) is None:
                ok = False
                break
        if ok:
            break
    for i, c in enumerate(contents):
        place(vg.models[f"disk{i}"], c)
    vg.build()

    def enter(ctx, fhs):
        from dissect.volume.lvm import LVM2

        vg2 = LVM2(fhs).vg
        return [vg2.logical_volumes[f"disk{i}"].open() for i in range(len(contents))]

    return [p.disk for p in vg.pvs], enter


def md_carrier(rng, did, contents):
    (content,) = contents
    size = content.size
    level = rng.choice([-1, 0, 1, 4, 5, 6, 10])
    pool = [c for c in (4096, 65536, 524288) if size // c <= MAX_PIECES]
    if not pool:
        level, pool = 1, [65536]
    chunk = rng.choice(pool)
    # the volume of the other levels ends after the size of one member (KF-MD-COMPONENT-SIZE)
    rows = -(-size // (4096 if level == 1 else chunk)) + rng.choice([0, 0, 3])
    a = random_array(rng, version=rng.choice(["1.0", "1.1", "1.2"]), level=level, base_id=did, rows=rows, chunk=chunk)
    members, _, _, mirror = build_members(rng, a)
    place(array_model(a, members, mirror), content)

    def enter(ctx, fhs):
        from dissect.volume.md.md import MD

        return [MD(fhs).configurations[0].virtual_disks[0].open()]

    return [d for d, _ in members], enter


def raid_carrier(rng, did, contents):
    (content,) = contents
    size = content.size
    pool = [c for c in (1024, 4096, 65536, 524288) if size // c <= MAX_PIECES]
    level = rng.choice([-1, 0, 1, 4, 5, 6, 10]) if pool else rng.choice([-1, 1])
    chunk = rng.choice(pool or [65536])
    n = rng.randint(2, 4) if level in (-1, 0, 1) else rng.randint(4, 6)
    layout = {5: rng.choice(RAID5_LAYOUTS), 6: rng.choice(RAID6_LAYOUTS), 10: 0x102, 0: 2}.get(level, 0)
    per = -(-size // (n if level <= 0 else 1)) // chunk * chunk + chunk
    offs = [rng.randrange(100) * 512 for _ in range(n)]
    lens = [per] * n
    if level == -1:
        lens[-1] = size - per * (n - 1)
        while lens[-1] <= 0:
            lens.pop()
            n -= 1
            lens[-1] = size - per * (n - 1)
    disks = [SparseDisk(did + i, offs[i] + lens[i]) for i in range(n)]
    at = list(zip(disks, offs))
    if level == -1:
        model = linear_model([(d, o, s) for (d, o), s in zip(at, lens)])
    elif level == 0:
        model = Raid0Big(chunk, [(d, o, s) for (d, o), s in zip(at, lens)])
    elif level == 10:
        model = raid10_model(chunk, at, 2, 1, False, size)
    elif level != 1:
        model = parity_model(level, layout, chunk, at, size)
    if level == 1:
        for d, o in at:
            d.embed(o, content)
        lens = [size] * n
    else:
        place(model, content)

    def enter(ctx, fhs):
        from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk

        dm = {i: (0, PhysicalDisk(fh, offs[i], lens[i])) for i, fh in enumerate(fhs)}
        return [VirtualDisk("c", "u", size, level, layout, chunk, n, dm).open()]

    return disks, enter


def thin_carrier(rng, did, contents):
    sizes = [c.size for c in contents]
    bs = next(b for b in (128, 256, 2048) if sum(sizes) // (b * 512) <= MAX_PIECES)
    pool = Pool(rng, meta_id=did, data_id=did + 1, block_sectors=bs, exact=sizes)
    devs = list(pool.devices)
    for dev, c in zip(devs, contents):
        place(pool.model(dev), c)

    def enter(ctx, fhs):
        from dissect.volume.dm.thin import ThinPool

        tp = ThinPool(fhs[0], fhs[1])
        return [tp.open(d, s) for d, s in zip(devs, sizes)]

    return [pool.meta_disk(), pool.data], enter


CARRIERS = {
    # name: (maximum number of contents, exact, largest content, builder)
    "mbr": (4, True, 1 << 40, lambda rng, did, c: table_disk(rng, did, c, "mbr")),
    "ebr": (12, True, 1 << 39, lambda rng, did, c: table_disk(rng, did, c, "ebr")),
    "gpt": (128, True, 1 << 62, lambda rng, did, c: table_disk(rng, did, c, "gpt")),
    "apm": (10, True, 1 << 40, lambda rng, did, c: table_disk(rng, did, c, "apm")),
    "bsd": (7, True, 1 << 40, lambda rng, did, c: table_disk(rng, did, c, "bsd")),
    "lvm": (8, False, 1 << 45, lvm_carrier),
    "md": (1, False, 1 << 40, md_carrier),
    "raid": (1, True, 1 << 45, raid_carrier),
    "thin": (4, True, 1 << 30, thin_carrier),
}


class Layer:
    """Carriers for a list of disks; some disks may stay as they are."""

    def __init__(self, rng, contents, first_id, need_exact):
        self.plan = []  # (carrier name or None, content indices, first disk, disks, enter)
        self.disks = []
        left = list(range(len(contents)))
        rng.shuffle(left)
        did = first_id
        names = []
        while left:
            usable = []
            for name, (limit, exact, largest, _) in CARRIERS.items():
                if contents[left[0]].size <= largest and (exact or not need_exact):
                    usable.append(name)
            name = rng.choice(usable)
            limit, exact, largest, make = CARRIERS[name]
            take = [i for i in left if contents[i].size <= largest // 16 or i == left[0]][: rng.randint(1, limit)]
            if name == "thin" and sum(contents[i].size for i in take) > 1 << 31:
                take = take[:1]
            disks, enter = make(rng, did, [contents[i] for i in take])
            for d in disks:
                d.size -= d.size % 512
            left = [i for i in left if i not in take]
            self.plan.append((take, len(self.disks), len(disks), enter))
            self.disks += disks
            did += 30
            names.append(name)
        self.next_id = did
        self.names = tuple(sorted(set(names)))

    def open(self, ctx, fhs, count):
        out = [None] * count
        for take, first, n, enter in self.plan:
            for i, s in zip(take, enter(ctx, fhs[first : first + n])):
                out[i] = s
        return out
