"""Disks with MBR, GPT, Apple and BSD partition tables, and what has to be listed for them."""
from __future__ import annotations

import struct
from dataclasses import dataclass, field
from uuid import UUID

from vmon.content import Slice, SparseDisk

EXTENDED = (0x05, 0x0F, 0x85)
BSD_MBR = (0xA5, 0xA6, 0xA9, 0x6C)
BSD_GPT = (UUID("9D087404-1CA5-11DC-8817-01301BB8A9F5"), UUID("3D48CE54-1D16-11DC-8696-01301BB8A9F5"),
           UUID("516E7CB4-6ECF-11D6-8FF8-00022D09712B"))
GPT_TYPES = [UUID(x) for x in ("C12A7328-F81F-11D2-BA4B-00A0C93EC93B", "EBD0A0A2-B9E5-4433-87C0-68B6B72699C7",
                               "0FC63DAF-8483-4772-8E79-3D69D8477DE4", "A19D880F-05FC-4D3B-A006-743F0F84911E")]
PLAIN_TYPES = [t for t in range(1, 256) if t not in EXTENDED and t not in BSD_MBR and t != 0xEE]
BSD_MAGIC = 0x82564557
BSD_MAGIC64 = 0xC4464C59
# fstypenames[] of the BSDs
BSD_NAMES = {1: "swap", 2: "Version 6", 3: "Version 7", 4: "System V", 5: "4.1BSD", 6: "Eighth Edition", 7: "4.2BSD", 8: "MSDOS",
             9: "4.4LFS", 10: "unknown", 11: "HPFS", 12: "ISO9660", 13: "boot", 14: "vinum", 15: "raid",
             16: "Filecore", 17: "EXT2FS", 18: "NTFS", 20: "ccd", 21: "jfs", 22: "HAMMER", 23: "HAMMER2", 24: "UDF", 26: "EFS", 27: "ZFS",
             30: "nandfs"}
BSD_TYPES = [*BSD_NAMES, *BSD_NAMES, *range(1, 256)]


@dataclass
class Part:
    offset: int
    size: int
    type: object
    number: int | None = None  # None: not claimed
    flags: int | None = None
    name: str | None = None
    guid: UUID | None = None
    type_str: str | None = None
    kind: str = "mbr"
    base: object = None  # model the offset is relative to (the disk if None)
    extra: dict = field(default_factory=dict)


def mbr_sector(rng, entries, serial=0, sig=0xAA55, code=None):
    """entries: up to four (boot flag, type, start, count)."""
    if code is None:
        code = b"\xfa\x33\xc0" + bytes(rng.choice([0, 0x90, rng.randrange(128, 256)]) for _ in range(0x1B8 - 3))
        if rng.random() < 0.3:
            code = bytes(0x1B8)
    raw = code + struct.pack("<IH", serial, rng.choice([0, 0x5A5A]))
    for i in range(4):
        if i < len(entries) and entries[i]:
            flag, typ, start, count = entries[i]
            raw += struct.pack("<BBHBBHII", flag, rng.randrange(256), rng.randrange(1 << 16), typ, rng.randrange(256), rng.randrange(1 << 16), start, count)
        else:
            raw += bytes(16)
    raw += struct.pack("<H", sig)
    assert len(raw) == 512
    return raw


class Image:
    """A list of writes plus the partitions that have to be listed."""

    def __init__(self, rng, disk_id=1, ss=None):
        self.rng = rng
        self.ss = ss or rng.choice([512, 512, 512, 1024, 2048, 4096])
        self.disk_id = disk_id
        self.writes: list[tuple[int, bytes]] = []
        self.parts: list[Part] = []
        self.end = 0
        self.serial = None
        self.embeds = []
        self.taken: list[tuple[int, int]] = []  # byte ranges that hold metadata

    def put(self, off, data):
        self.writes.append((off, data))
        self.taken.append((off, off + len(data)))
        self.end = max(self.end, off + len(data))

    def free(self, off, length):
        return all(off + length <= a or off >= b for a, b in self.taken)

    def cover(self, part):
        self.end = max(self.end, part.offset + part.size)

    def disk(self, slack=None):
        rng = self.rng
        d = SparseDisk(self.disk_id, self.end + (rng.choice([0, 512, 1 << 20]) if slack is None else slack))
        for off, m, n in self.embeds:
            d.embed(off, m, n)
        for off, data in self.writes:
            d.write(off, data)
        self.model = d
        return d

    def stream_model(self, part, size=None):
        return Slice(part.base or self.model, part.offset, part.size if size is None else size)


def spread(rng, lo, scale):
    """A sector number at or above lo at a random magnitude."""
    return min(0xFFFFFFFF, lo + rng.choice([0, 1, 62, rng.randint(0, 2000), rng.randint(0, scale), rng.randint(0, 1 << rng.randint(1, 31))]))


def some_count(rng):
    return rng.choice([1, 2, 63, rng.randint(1, 300), rng.randint(1, 1 << rng.randint(1, 32)) & 0xFFFFFFFF or 1, 0xFFFFFFFF if rng.random() < 0.2 else 5])


def flag(rng):
    return rng.choice([0, 0, 0x80, 0x80, rng.randrange(256)])


def random_mbr(rng, disk_id=1, ss=None, extended=None, logicals=None, types=None, extra_slots=()):
    """Random MBR. extra_slots: [(slot, (flag, type, start, count), [Part, ...])] prepared by the caller."""
    img = Image(rng, disk_id, ss)
    img.serial = rng.choice([0, 1, rng.getrandbits(32), 0xFFFFFFFF])
    slots = [None] * 4
    img.taken.append((0, img.ss))
    where = {}
    for slot, entry, parts in extra_slots:
        slots[slot] = entry
        where[slot] = parts
    ext_slot = None
    if extended if extended is not None else rng.random() < 0.6:
        free = [i for i in range(4) if slots[i] is None]
        if free:
            ext_slot = rng.choice(free)
    pick = lambda: rng.choice(types or PLAIN_TYPES)  # noqa: E731
    ext_start = None
    if ext_slot is not None:
        ext_start = spread(rng, 1, 1 << 20)
        ext_count = some_count(rng)
        slots[ext_slot] = (flag(rng), rng.choice(EXTENDED), ext_start, ext_count)
        n = logicals if logicals is not None else rng.choice([0, 1, 2, 3, 5, rng.randint(0, 60)]) if rng.random() < 0.97 else rng.randint(60, 300)
        # boot records of the chain; the first one sits at the start of the extended partition
        rel = [0]
        used = {0}
        tries = 0
        while len(rel) < max(1, n):
            lo = rel[-1] + 1
            r = spread(rng, lo, 5000) if rng.random() < 0.8 else rng.randint(1, 1 << 24)
            if rng.random() < 0.1:
                r = rng.randint(0, rel[-1])  # chains need not be sorted
            tries += 1
            if r in used and tries < 1000:
                continue
            if r in used:
                r = max(used) + 1
            used.add(r)
            rel.append(min(r, 0xFFFFFFFF))
            used.add(rel[-1])
        logical = []
        for i, r in enumerate(rel):
            at = (ext_start + r) * img.ss
            entries = [None] * 4
            if n:
                start, count = spread(rng, 1, 5000), some_count(rng)
                typ, fl = pick(), flag(rng)
                entries[0] = (fl, typ, start, count)
                logical.append(Part(at + start * img.ss, count * img.ss, typ, None, fl, kind="logical"))
            if i + 1 < len(rel):
                entries[1] = (flag(rng), rng.choice(EXTENDED), rel[i + 1], some_count(rng))
            if not img.free(at, 512):
                return random_mbr(rng, disk_id, ss, extended, logicals, types, extra_slots)
            img.put(at, mbr_sector(rng, entries, serial=rng.getrandbits(32)))
        where[ext_slot] = logical
    for i in range(4):
        if slots[i] is None and rng.random() < 0.6:
            typ = pick()
            start, count = spread(rng, 1, 1 << 20), some_count(rng)
            slots[i] = (flag(rng), typ, start, count)
            where[i] = [Part(start * img.ss, count * img.ss, typ, i + 1, slots[i][0], kind="primary")]
    for i in range(4):
        img.parts += where.get(i, [])
    for p in img.parts:
        if p.base is None:
            img.cover(p)
    img.put(0, mbr_sector(rng, slots, img.serial))
    img.slots = slots
    img.chain = [p for p in img.parts if p.kind == "logical"]
    return img


def gpt_name(rng):
    """(72 bytes, text)"""
    n = rng.choice([0, 1, 5, 20, 35, 36, 36])
    text = ""
    while True:
        c = rng.choice([chr(rng.randint(0x20, 0x7E)), chr(rng.randint(0x20, 0x7E)), chr(rng.choice([0xE9, 0x4E2D, 0x20AC, 0xFFFD])), chr(0x1F4BE)])
        if len((text + c).encode("utf-16-le")) > n * 2:
            break
        text += c
    raw = text.encode("utf-16-le")
    if len(raw) <= 70 and rng.random() < 0.2:
        raw += b"\0\0" + rng.randbytes(70 - len(raw))
    return raw.ljust(72, b"\0"), text


def random_gpt(rng, disk_id=1, ss=None, hybrid=None, used=None, types=None, fixed=()):
    """fixed: [(entry index, type, first lba, last lba, [Part...] or None)] prepared by the caller."""
    img = Image(rng, disk_id, ss)
    esize = rng.choice([128, 128, 128, 256, 512, 136, 384])
    count = max(rng.choice([128, 128, 1, 4, rng.randint(1, 300)]), max([f[0] + 1 for f in fixed], default=1))
    table_lba = rng.choice([2, 2, 2, 3, rng.randint(2, 100), rng.randint(2, 1 << rng.randint(3, 40))])
    table = bytearray(count * esize)
    if esize > 128 and rng.random() < 0.5:
        table = bytearray(rng.randbytes(count * esize))
        for i in range(count):
            table[i * esize : i * esize + 128] = bytes(128)
    n = min(count, rng.choice([0, 1, 2, 4, 10, count]) if used is None else used)
    fixed = {f[0]: f for f in fixed}
    idx = sorted(set(rng.sample(range(count), n)) | set(fixed))
    if rng.random() < 0.3:
        idx = sorted(set(range(min(n, count))) | set(fixed))
    gparts = []
    top = rng.choice([20, 30, 40, 52])
    for i in idx:
        raw, text = gpt_name(rng)
        guid = UUID(bytes=rng.randbytes(16))
        attrs = rng.choice([0, 1, 1 << 60, rng.getrandbits(64)])
        if i in fixed:
            _, typ, first, last, parts = fixed[i]
        else:
            typ = rng.choice(types or [*GPT_TYPES, UUID(bytes=rng.randbytes(16))])
            first = rng.choice([34, 2048, rng.randint(1, 5000), rng.randint(1, 1 << rng.randint(1, top))])
            last = first + rng.choice([0, 1, 7, rng.randint(0, 1000), rng.randint(0, 1 << rng.randint(1, top))])
            parts = None
        table[i * esize : i * esize + 128] = typ.bytes_le + guid.bytes_le + struct.pack("<QQQ", first, last, attrs) + raw
        me = Part(first * img.ss, (last - first + 1) * img.ss, typ, i + 1, attrs, text, guid, kind="gpt", extra={"ss": img.ss})
        if parts is None:
            gparts.append(me)
        else:
            gparts += parts
        img.cover(me)
    for i in set(range(count)) - set(idx):
        if rng.random() < 0.02:
            # a unique identifier left behind in an unused entry
            table[i * esize + 16 : i * esize + 32] = rng.randbytes(16)
    img.header = struct.pack("<8sIIIIQQQQ16sQIII", b"EFI PART", 0x10000, 92, rng.getrandbits(32), 0, 1, rng.randint(1, 1 << 30), 34, 1 << 30,
                             rng.randbytes(16), table_lba, count, esize, rng.getrandbits(32))
    img.put(img.ss, img.header.ljust(512, b"\0"))
    # protective or hybrid MBR
    slots = [None] * 4
    style = rng.random() if hybrid is None else (0.9 if hybrid else 0.1)
    where = {}
    if style < 0.6:
        slots[0 if rng.random() < 0.9 else rng.randrange(4)] = (0, 0xEE, 1, rng.choice([0xFFFFFFFF, 5000]))
    else:
        order = sorted(rng.sample(range(4), rng.randint(1, 4)))
        first_ee = rng.choice(order)
        for s in order:
            if s == first_ee:
                slots[s] = (0, 0xEE, 1, rng.randint(1, 5000))
            elif s > first_ee and rng.random() < 0.3:
                slots[s] = (0, 0xEE, rng.randint(1, 1 << 31), rng.randint(1, 5000))
            else:
                typ, start, cnt = rng.choice(PLAIN_TYPES), rng.randint(1, 1 << 24), some_count(rng)
                slots[s] = (flag(rng), typ, start, cnt)
                where[s] = Part(start * img.ss, cnt * img.ss, typ, s + 1, slots[s][0], kind="hybrid")
                img.cover(where[s])
    img.serial = rng.getrandbits(32)
    img.put(0, mbr_sector(rng, slots, img.serial))
    base = table_lba * img.ss
    if not img.free(base, len(table)):
        return random_gpt(rng, disk_id, ss, hybrid, used, types, [tuple(f) for f in fixed.values()])
    img.put(base, bytes(table))
    seen = False
    for s in range(4):
        if slots[s] and slots[s][1] == 0xEE:
            if not seen:
                img.parts += gparts
            seen = True
        elif s in where:
            img.parts.append(where[s])
    img.count, img.esize, img.table_lba, img.slots = count, esize, table_lba, slots
    return img


def apm_text(rng):
    n = rng.choice([0, 1, 5, 19, 31, 32, 32])
    text = ""
    while True:
        c = rng.choice([chr(rng.randint(0x20, 0x7E)), chr(rng.randint(0x20, 0x7E)), "_", "é"])
        if len((text + c).encode()) > n:
            break
        text += c
    return text


def random_apm(rng, disk_id=1, descriptor=None):
    img = Image(rng, disk_id, 512)
    n = rng.choice([1, 2, 3, 10, rng.randint(1, 60)]) if rng.random() < 0.96 else rng.randint(60, 300)
    at = 0
    if descriptor if descriptor is not None else rng.random() < 0.75:
        at = 512
        img.put(0, (b"ER" + struct.pack(">HIHHIH", 512, rng.getrandbits(31), 1, 1, 0, 0)).ljust(512, rng.choice([b"\0", b"\x11"])))
    for i in range(n):
        name, typ = apm_text(rng), rng.choice(["Apple_partition_map", "Apple_HFS", "Apple_Free", apm_text(rng)])
        start, cnt = spread(rng, 0, 1 << 20), rng.choice([some_count(rng), 0])
        cnt = cnt if rng.random() < 0.9 else 0
        raw = struct.pack(">2sHIII32s32s", b"PM", 0, n, start, cnt, name.encode(), typ.encode())
        raw += rng.choice([bytes(376 + 16 + 40), rng.randbytes(372 + 16 + 40) + bytes(4)])
        raw = raw[:512].ljust(512, b"\0")
        if raw[510:] == b"\x55\xaa":
            raw = raw[:510] + b"\0\0"
        img.put(at + i * 512, raw)
        p = Part(start * 512, cnt * 512, typ, i + 1, name=name, kind="apm")
        img.parts.append(p)
        img.cover(p)
    return img


def bsd_label(rng, bits, base, ss, limit=None, n=None, base_model=None):
    """(label bytes for the second sector, [Part...]) with offsets relative to the slice."""
    n = n or rng.choice([8, 8, 16, rng.randint(8, 20), rng.randint(3 if bits == 32 else 1, 8)])
    parts = []
    if bits == 32:
        head = struct.pack("<IHH16s16s", BSD_MAGIC, rng.randrange(16), 0, b"SCSI", b"pack") + struct.pack("<6I", ss, 63, 255, 100, 16065, 1 << 20)
        head += rng.randbytes(2 + 2 + 4 + 8 + 12 + 20 + 20)
        head += struct.pack("<IHHII", BSD_MAGIC, rng.randrange(1 << 16), n, 8192, 8192)
        assert len(head) == 148, len(head)
        for i in range(n):
            fs = rng.choice([7, 7, 1, *BSD_TYPES])
            if i == 2:
                size, off = rng.choice([0, some_count(rng)]), base
                fs = rng.choice([0, 0, 7])
            else:
                rel = spread(rng, 0, 1 << 16)
                size = some_count(rng)
                if limit:
                    rel = rng.randint(0, max(0, limit // ss - 1))
                    size = rng.randint(1, max(1, limit // ss - rel))
                off = min(0xFFFFFFFF, base + rel)
                rel = off - base
                style = rng.random()
                if style < 0.2:
                    size = 0
                elif style < 0.35:
                    fs = 0
                elif style < 0.42 and base:
                    off = rng.randint(0, base - 1)  # lies before the slice
                elif style < 0.5:
                    size = fs = off = 0
                if limit and size and rng.random() < 0.08:
                    size += rng.randint(1, 1 << 20)  # ends behind the slice
                if size and fs and off >= base:
                    parts.append(Part(rel * ss, size * ss, fs, i + 1, type_str=BSD_NAMES.get(fs, "?"), kind="bsd32", base=base_model))
                    parts[-1].extra["listed only"] = bool(limit) and (rel + size) * ss > limit
            head += struct.pack("<IIIBBH", size, off, 2048, fs, 8, rng.randrange(1 << 16))
        return head, parts
    head = struct.pack("<IIII", BSD_MAGIC64, rng.getrandbits(32), 1 << 20, n) + rng.randbytes(16)
    head += struct.pack("<5Q", 1 << 40, 0, 0x100000, 1 << 40, 0) + bytes(128)
    assert len(head) == 200
    for i in range(n):
        fs = rng.choice([7, 1, 10, *BSD_TYPES])
        off = rng.choice([0, 0x100000, rng.randint(0, 1 << 20) * 512, rng.randint(1, 1 << rng.randint(10, 42)), rng.randint(1, 1 << 30)])
        size = rng.choice([512, 4096, rng.randint(1, 1 << rng.randint(5, 40)), rng.randint(1, 1 << 20) * 512])
        if limit:
            off = rng.randint(0, limit - 1)
            size = rng.randint(1, limit - off)
        guid = UUID(bytes=rng.choice([rng.randbytes(16), rng.randbytes(16), bytes(8) + rng.randbytes(8), rng.randbytes(8) + bytes(8), bytes(16)]))
        style = rng.random()
        if style < 0.2:
            off = size = 0
        elif style < 0.35:
            fs = 0
        if limit and size and rng.random() < 0.08:
            size += rng.randint(1, 1 << 40)
        if style >= 0.35 and i != 2:
            parts.append(Part(off, size, fs, i + 1, guid=guid, type_str=BSD_NAMES.get(fs, "?"), kind="bsd64", base=base_model))
            parts[-1].extra["listed only"] = bool(limit) and off + size > limit
        head += struct.pack("<QQBBBBIII", off, size, fs, 0, 0, 0, 0, 0, 0) + rng.randbytes(16) + guid.bytes_le
    return head, parts


def random_bsd(rng, disk_id=1):
    """Label on a bare disk."""
    bits = rng.choice([32, 32, 64])
    img = Image(rng, disk_id, None if bits == 32 else 512)
    label, parts = bsd_label(rng, bits, rng.choice([0, 0, 63, rng.randint(0, 1 << 24)]), img.ss)
    img.put(0, rng.choice([bytes(512), b"\x01" * 512]))
    img.put(img.ss, label.ljust(max(512, -(-len(label) // 512) * 512), b"\0"))
    img.parts = parts
    for p in parts:
        img.cover(p)
    img.bits = bits
    return img
