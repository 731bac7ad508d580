"""Scheme detection and clean failures."""
import struct

from vmon.build_disk import BSD_GPT, BSD_MBR, EXTENDED, Image, Part, bsd_label, mbr_sector, random_apm, random_bsd, random_gpt, random_mbr
from vmon.checks.disks import check_listing
from vmon.checks.p15 import nested_gpt, nested_mbr
from vmon.content import Bytes, SparseDisk

CASES = {"quick": 10000, "thorough": 100000}
RULE = "distinct (kind of image, fault, outcome) observed"
MINIMUM = {"opened": 1500, "refused": 1500, "faults": 2000, "boot_sectors": 150, "unlabelled": 150}

# OEM names the usual formatting tools write
OEM = [b"MSDOS5.0", b"MSWIN4.0", b"MSWIN4.1", b"NTFS    ", b"EXFAT   ", b"-FVE-FS-", b"SYSLINUX", b"mkfs.fat", b"mkdosfs\0"]


def attempt(ctx, what, fh, ss):
    """Open twice; the outcome must be a disk or the disk error, and the same both times."""
    from dissect.volume.disk import Disk
    from dissect.volume.exceptions import DiskError

    seen = []
    disk = None
    for _ in range(2):
        fh.seek(0)
        try:
            with ctx.observing(what):
                ctx.count("lib_calls")
                try:
                    disk = Disk(fh, sector_size=ss)
                except DiskError:
                    disk = None
                    seen.append(None)
                    continue
                seen.append((type(disk.scheme).__name__, [(p.number, p.offset, p.size, str(p.type), p.name) for p in disk.partitions]))
        except RecursionError:
            ctx.violate("unexpected error", f"{what}: recursion")
    ctx.eq(f"{what}: second attempt", seen[1], seen[0])
    ctx.count("opened" if disk is not None else "refused")
    return disk


def names(disk):
    return "refused" if disk is None else type(disk.scheme).__name__


def valid(ctx, rng, kind):
    if kind == "gpt":
        return random_gpt(rng), "GPT"
    if kind == "mbr":
        return random_mbr(rng), "MBR"
    if kind == "apm":
        return random_apm(rng), "APM"
    if kind == "bsd":
        return random_bsd(rng), "BSD"
    if kind == "nested_mbr":
        return nested_mbr(rng)[0], None
    if kind == "nested_gpt":
        return nested_gpt(rng)[0], None
    raise AssertionError(kind)


KINDS = ["gpt", "mbr", "apm", "bsd", "nested_mbr", "nested_gpt"]


def case(ctx, rng, idx, tier):
    what = rng.choice(["valid", "coexist", "truncate", "truncate", "corrupt", "corrupt", "corrupt", "random", "boot", "protective", "unlabelled", "unlabelled"])
    globals()["do_" + what](ctx, rng)


def do_valid(ctx, rng):
    kind = rng.choice(KINDS)
    img, scheme = valid(ctx, rng, kind)
    ctx.params = dict(kind=kind, ss=img.ss)
    disk = attempt(ctx, f"valid {kind}", ctx.source(img.disk(), "disk"), img.ss)
    if disk is None:
        ctx.violate("valid disk refused", kind)
    if scheme:
        ctx.eq("scheme", names(disk), scheme)
    ctx.eq("number of partitions", len(disk.partitions), len(img.parts))
    with ctx.observing("serial"):
        if kind == "mbr":
            ctx.eq("serial", disk.serial, img.serial)
        elif scheme:
            ctx.eq("serial", disk.serial, None)
    ctx.state("valid", kind, img.ss, names(disk))


def do_coexist(ctx, rng):
    """Structures of a later scheme next to those of an earlier one."""
    which = rng.choice(["mbr+bsd", "mbr+apm", "apm+bsd", "gpt+apm"])
    if which == "mbr+bsd":
        img = random_mbr(rng)
        if img.free(img.ss, 2048):
            img.put(img.ss, bsd_label(rng, 32, 0, img.ss)[0])
        want = "MBR"
    elif which == "mbr+apm":
        img = random_mbr(rng, ss=512)
        apm = random_apm(rng, descriptor=True)
        sector = bytearray(img.writes[-1][1])
        sector[:14] = apm.writes[0][1][:14]
        img.put(0, bytes(sector))
        for off, data in apm.writes[1:]:
            if img.free(off, len(data)):
                img.put(off, data)
        want = "MBR"
    elif which == "gpt+apm":
        img = random_gpt(rng, ss=512)
        sector = bytearray(next(d for o, d in img.writes if o == 0))
        sector[:4] = b"ER\x08\x00"  # the map of such hybrid disks starts at 2048
        img.put(0, bytes(sector))
        apm = random_apm(rng, descriptor=False)
        if img.free(2048, len(apm.writes) * 512):
            for off, data in apm.writes:
                img.put(2048 + off, data)
        want = "GPT"
    else:
        while len((img := random_apm(rng, descriptor=False)).parts) > 1:
            pass
        img.put(512, bsd_label(rng, 32, 0, 512)[0])
        want = "APM"
    ctx.params = dict(which=which, ss=img.ss)
    disk = attempt(ctx, which, ctx.source(img.disk(), "disk"), img.ss)
    ctx.eq(f"{which}: scheme", names(disk), want)
    check_listing(ctx, rng, img, disk.partitions, which, reads=1)
    ctx.state("coexist", which, img.ss)


def do_truncate(ctx, rng):
    kind = rng.choice(KINDS)
    img, scheme = valid(ctx, rng, kind)
    model = img.disk()
    cuts = [0, 1, 2, 4, 100, 440, 446, 510, 511, 512, 513, img.ss, img.ss + 1, img.ss + 4, img.ss + 92, img.ss + 148, img.ss + 512, 2 * img.ss]
    for off, data in img.writes:
        cuts += [off, off + 1, off + len(data) // 2, off + len(data) - 1, off + len(data)]
    for p in img.parts:
        if p.base is None:
            cuts += [p.offset, p.offset + p.size, p.offset + 1]
    for off, m, n in img.embeds:
        cuts += [off, off + 1, off + img.ss, off + img.ss + 3, off + img.ss + 100, off + img.ss + 148, off + img.ss + 300, off + 2 * img.ss, off + n]
    cut = rng.choice([c for c in cuts if c <= model.size])
    ctx.params = dict(kind=kind, ss=img.ss, cut=cut)
    whole = model.size
    model.size = cut
    ctx.count("faults")
    disk = attempt(ctx, f"{kind} cut at {cut:#x}", ctx.source(model, "disk", with_size=rng.random() < 0.5), img.ss)
    metadata = max(off + len(data) for off, data in img.writes)
    labels = max([off + img.ss + 4096 for off, _, _ in img.embeds], default=0)
    if cut >= max(metadata, labels, min(whole, 2 * img.ss)):
        # all tables are there; where the disk ends behind them does not matter
        if disk is None:
            ctx.violate("valid disk refused", f"{kind} cut at {cut:#x}")
        if scheme:
            ctx.eq("scheme", names(disk), scheme)
        ctx.eq("number of partitions", len(disk.partitions), len(img.parts))
    if cut < 512:
        ctx.eq(f"{cut} bytes", names(disk), "refused")
    ctx.state("truncate", kind, cut if cut < 5000 else cut.bit_length(), names(disk))


FIELDS = {"gpt": [(1, 0, 8), (1, 8, 4), (1, 12, 4), (1, 72, 8), (1, 80, 4), (1, 84, 4)],
          "bsd": [(1, 0, 4), (1, 4, 4), (1, 12, 4), (1, 132, 4), (1, 138, 2), (1, 148 + 32, 8), (1, 148 + 36, 4)]}


def corrupt_fields(rng, img, model, kind, n):
    done = []
    for _ in range(n):
        targets = []
        if kind in ("gpt", "nested_gpt", "bsd"):
            targets += [(img.ss + off, size) for _, off, size in FIELDS["gpt" if "gpt" in kind else "bsd"]]
        if kind in ("mbr", "gpt", "nested_mbr", "nested_gpt"):
            targets += [(510, 2)] + [(446 + 16 * i + o, s) for i in range(4) for o, s in ((0, 1), (4, 1), (8, 4), (12, 4))]
        if kind == "apm":
            targets += [(off + o, s) for off, _ in img.writes for o, s in ((0, 2), (2, 2), (4, 4), (8, 4), (12, 4), (16, 32), (48, 32))]
        for off, _, _ in img.embeds:
            targets += [(off + img.ss + o, s) for o, s in ((0, 4), (12, 4), (132, 4), (138, 2), (148 + 36, 4))]
        off, size = rng.choice(targets) if rng.random() < 0.85 else (rng.choice([o for o, d in img.writes]) + rng.randrange(512), 1)
        old = model.read(off, size)
        style = rng.random()
        if style < 0.3:
            new = rng.randbytes(size)
        elif style < 0.5:
            new = rng.choice([b"\0", b"\xff", b"\x80", b"\x7f"]) * size
        elif style < 0.7:
            v = (int.from_bytes(old, "little") + rng.choice([-1, 1, 2, 128])) % (1 << 8 * size)
            new = v.to_bytes(size, "little")
        else:
            b = bytearray(old)
            if b:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            new = bytes(b)
        if size == 1 and rng.random() < 0.5:
            new = bytes([rng.choice([0xEE, *BSD_MBR, *EXTENDED, 0])])
        if off + len(new) <= model.size and new:
            model.write(off, new)
            done.append((off, new.hex()))
    return done


def do_corrupt(ctx, rng):
    kind = rng.choice(KINDS)
    img, scheme = valid(ctx, rng, kind)
    model = img.disk(slack=1 << 16)
    size = rng.choice([model.size, min(model.size, 1 << 20), min(model.size, 40000)])
    model.size = min(model.size, max(size, 512))
    done = corrupt_fields(rng, img, model, kind, rng.choice([1, 1, 2, 4]))
    if model.size > 1 << 22:
        model.size = 1 << 22  # keeps damaged counts from walking over gigabytes
    ctx.params = dict(kind=kind, ss=img.ss, writes=done, size=model.size)
    ctx.count("faults")
    disk = attempt(ctx, f"{kind} damaged {done}", ctx.source(model, "disk", with_size=rng.random() < 0.5), img.ss)
    ctx.state("corrupt", kind, names(disk), len(done), [o % 512 for o, _ in done][:1])


def do_random(ctx, rng):
    n = rng.choice([0, 1, 511, 512, 513, 1024, rng.randint(0, 5000), 70000])
    data = bytearray(rng.randbytes(n) if rng.random() < 0.5 else rng.choice([b"\0", b"\xff", b"PM", b"ER", b"EFI PART"]) * n)[:n]
    for off, mark in ((510, b"\x55\xaa"), (0, b"ER\x02\x00"), (512, b"PM"), (0, b"PM"), (512, b"EFI PART"), (512, struct.pack("<I", 0x82564557)),
                      (512, struct.pack("<I", 0xC4464C59)), (450, b"\xee"), (450, b"\xa5"), (450, b"\x05"), (512 + 132, struct.pack("<I", 0x82564557))):
        if rng.random() < 0.2 and off + len(mark) <= n:
            data[off : off + len(mark)] = mark
    ss = rng.choice([512, 512, 4096])
    ctx.params = dict(n=n, ss=ss, head=bytes(data[:600]).hex())
    ctx.count("faults")
    disk = attempt(ctx, f"{n} arbitrary bytes", ctx.source(Bytes(bytes(data)), "disk", with_size=rng.random() < 0.5), ss)
    if n < 512:
        ctx.eq(f"{n} bytes", names(disk), "refused")
    ctx.state("random", n if n < 1100 else 9, ss, names(disk))


def do_boot(ctx, rng):
    """A file system without partition table."""
    oem = rng.choice(OEM)
    code = bytearray(rng.randbytes(0x1B8) if rng.random() < 0.5 else bytes(0x1B8))
    code[:3] = rng.choice([b"\xeb\x52\x90", b"\xeb\x3c\x90", b"\xeb\x58\x90", b"\xeb\x76\x90"])
    code[3:11] = oem
    if rng.random() < 0.15:
        # boot sectors of QNX have no such name
        oem, at = rng.choice([(b"Hit Esc for .altboot", 18), (b"\r\nQNX ", 168)])
        code[3:11] = bytes(8)
        code[at : at + len(oem)] = oem
    else:
        at = 3
    entries = [None] * 4
    if rng.random() < 0.6:
        # boot code lies where the table would be
        entries = [(rng.randrange(256), rng.choice([0, rng.randrange(256)]), rng.getrandbits(32), rng.getrandbits(32)) for _ in range(4)]
    if rng.random() < 0.3:
        entries[0] = (0x80, 7, 2048, 5000)
    disk = SparseDisk(1, rng.choice([1 << 20, 1440 * 1024, 4096]))
    disk.write(0, mbr_sector(rng, entries, rng.getrandbits(32), code=bytes(code)))
    ss = rng.choice([512, 512, 512, 4096])
    ctx.params = dict(oem=oem.decode(), entries=entries)
    ctx.count("boot_sectors")
    d = attempt(ctx, f"boot sector {oem}", ctx.source(disk, "disk"), ss)
    ctx.eq(f"boot sector {oem}", names(d), "refused")
    if rng.random() < 0.3:
        # the same sector without the file system's mark is a partition table
        code[at : at + len(oem)] = bytes(len(oem))
        disk.write(0, mbr_sector(rng, [(0, 7, 1, 5), (0, 0x83, 6, 5)], 5, code=bytes(code)))
        d = attempt(ctx, "no boot sector", ctx.source(disk, "disk"), ss)
        ctx.eq("no boot sector", names(d), "MBR")
    ctx.state("boot", oem, ss)


def do_protective(ctx, rng):
    """0xEE entry but no GPT (or one for another sector size)."""
    ss = rng.choice([512, 512, 4096])
    disk = SparseDisk(1, 1 << 20)
    entries = [None] * 4
    slot = rng.choice([0, 0, rng.randrange(4)])
    for i in range(4):
        if i == slot:
            entries[i] = (0, 0xEE, rng.choice([1, 1, rng.randint(1, 100)]), 0xFFFFFFFF)
        elif rng.random() < 0.3:
            entries[i] = (0, rng.choice([7, 0x83, 0x0C, *BSD_MBR]), rng.randint(100, 1000), rng.randint(100, 500))
    labelled = False
    for e in entries:
        if e and e[1] in BSD_MBR and (e[2] + 1) * ss + 2048 < disk.size and rng.random() < 0.8:
            disk.write((e[2] + 1) * ss, bsd_label(rng, 32, 0, ss, limit=e[3] * ss)[0])
            labelled = True
    if rng.random() < 0.5:
        other = 4096 if ss == 512 else 512
        if entries[slot][2] * ss != other:
            disk.write(other, b"EFI PART" + bytes(84))
    disk.write(0, mbr_sector(rng, entries, rng.getrandbits(32)))
    ctx.params = dict(ss=ss, entries=entries)
    d = attempt(ctx, "protective MBR without GPT", ctx.source(disk, "disk"), ss)
    ctx.eq(f"protective MBR without GPT {entries}", names(d), "refused")
    ctx.state("protective", ss, slot, labelled, sum(e is not None for e in entries))


def do_unlabelled(ctx, rng):
    """BSD partition types without a (complete) label."""
    fault = rng.choice(["none", "none", "magic", "magic2", "past the end", "short", "partly outside"])
    where = rng.choice(["mbr", "mbr", "logical", "gpt"])
    ss = rng.choice([512, 512, 4096])
    bits = 32 if fault == "magic2" or ss != 512 else rng.choice([32, 64])
    start, count = rng.randint(3000, 100000), rng.randint(40, 5000)
    label, labelled_parts = bsd_label(rng, bits, 0, ss, limit=count * ss, n=20)
    if fault == "short":
        count = 1 if bits == 32 or ss != 512 else rng.choice([1, 2])
    while True:
        if where == "gpt":
            typ = rng.choice(BSD_GPT)
            entry = rng.randrange(4)
            img = random_gpt(rng, ss=ss, fixed=[(entry, typ, start, start + count, None)])
        elif where == "logical":
            typ = rng.choice(BSD_MBR)
            img = random_mbr(rng, ss=ss, extended=True, logicals=rng.randint(1, 4), types=[7, typ])
            if not any(p.kind == "logical" and p.type == typ for p in img.parts):
                continue
        else:
            typ = rng.choice(BSD_MBR)
            slot = rng.randrange(4)
            me = Part(start * ss, count * ss, typ, slot + 1, 0x80)
            img = random_mbr(rng, ss=ss, extra_slots=[(slot, (0x80, typ, start, count), [me])])
            img.cover(me)
        if img.free(start * ss, 8192):
            break
    img.end = max(img.end, start * ss + 16384)
    model = img.disk()
    if where != "logical" and fault in ("magic", "magic2", "short", "partly outside"):
        if fault == "magic":
            label = rng.randbytes(4) + label[4:]
        elif fault == "magic2":
            label = label[:132] + rng.randbytes(4) + label[136:]
        if fault in ("short", "partly outside") or rng.random() < 0.7:
            model.write(start * ss + ss, label)
    limit = max(off + len(data) for off, data in img.writes)
    at = start * ss + ss
    if fault in ("past the end", "partly outside") and where != "logical":
        cut = at - rng.choice([0, 1, ss]) if fault == "past the end" else at + rng.choice([3, 100, 150, len(label) - 1])
        if cut >= limit:
            model.size = cut
            # reads of partitions beyond this end are not looked at here
        else:
            fault = "none"
            model.write(at, bytes(4))
    ctx.params = dict(where=where, fault=fault, ss=ss, bits=bits, start=start, count=count)
    ctx.count("unlabelled")
    d = attempt(ctx, f"unlabelled {where} {fault}", ctx.source(model, "disk", with_size=rng.random() < 0.5), ss)
    ctx.eq(f"unlabelled {where} {fault}: scheme", names(d), "GPT" if where == "gpt" else "MBR")
    check_listing(ctx, rng, img, d.partitions, f"unlabelled {where} {fault}", reads=0)
    ctx.state("unlabelled", where, fault, ss, bits)
