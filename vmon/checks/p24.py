"""Layouts and structures that are not what they have to be."""
import copy
import struct

from vmon.build_ddf import DDFSet
from vmon.build_disk import random_apm, random_bsd, random_gpt, random_mbr
from vmon.build_lvm import write_text
from vmon.build_md import build_members, random_array
from vmon.build_thin import Pool
from vmon.build_vinum import World
from vmon.build_vss import BS, random_volume
from vmon.checks.disks import direct
from vmon.checks.p10 import make_vg
from vmon.raidmodel import RAID5_LAYOUTS, RAID6_LAYOUTS

CASES = {"quick": 6000, "thorough": 50000}
RULE = "distinct (kind, what is wrong, value class)"
MINIMUM = {"refused": 2500, "accepted": 200, "expected_errors": 2500}


def flip(rng, disk, offset, length):
    """Change some bits of a field."""
    raw = bytearray(disk.read(offset, length))
    before = bytes(raw)
    while bytes(raw) == before:
        style = rng.random()
        if style < 0.6:
            raw[rng.randrange(length)] ^= 1 << rng.randrange(8)
        elif style < 0.8:
            raw = bytearray(reversed(raw))
        else:
            raw = bytearray(rng.choice([bytes(length), b"\xff" * length, rng.randbytes(length)]))
    disk.write(offset, bytes(raw))


def use(vols):
    for v in vols:
        fh = v.open()
        fh.seek(0)
        if fh.read(4096):
            return True
    return False


def sources(ctx, rng, disks):
    return [ctx.source(d, f"disk{i}", with_size=rng.random() < 0.5) for i, d in enumerate(disks)]


def refused(ctx, what, fn):
    ctx.params = {**ctx.params, "what": what}
    ctx.expect_error(what, Exception, fn)
    ctx.count("refused")


# ---------------------------------------------------------------------------------------------------------
def ddf_valid(prl, rlq, pec, sec, srl):
    if sec > 1:
        return prl == 1 and srl in (0, 3) and (rlq, pec) in ((0, 2), (1, 3))
    if prl == 0x1F:
        return True
    if prl == 1:
        return (rlq, pec) in ((0, 2), (1, 3))
    return rlq in {0: (0,), 0x11: (0, 1), 4: (1,), 5: (0, 2, 3), 6: (1, 2, 3)}.get(prl, ())


def ddf_layout(ctx, rng):
    from dissect.volume.ddf.ddf import DDF

    while True:
        sec = rng.choice([1, 1, 1, 2, 3])
        pec = rng.choice([1, 2, 3, 4, 5] if sec == 1 else [2, 2, 3, 4])
        prl = rng.choice([0, 1, 1, 0x11, 4, 5, 6, 2, 3, 7, 8, 0x10, 0x12, 0x15, 0x25, 0x35, rng.randrange(256)]) if sec == 1 else rng.choice([0, 1, 1, 1, 4, 5, 6, 0x11, 0x1F])
        rlq = rng.choice([0, 0, 1, 2, 3, 4, 5, rng.randrange(256)])
        srl = rng.choice([0, 0, 3, 1, 2, rng.randrange(256)]) if sec > 1 else 0
        if not ddf_valid(prl, rlq, pec, sec, srl):
            break
    s = DDFSet(rng, max(2, pec * sec), rng.choice([512, 512, 4096]))
    vd = s.add_vd("raid0", b"vd", False, pec * sec, rng.randint(0, 7), rng.randint(4, 20))
    vd.levels, vd.per = (prl, rlq, srl), pec
    s.build()
    ctx.params = dict(prl=prl, rlq=rlq, srl=srl, pec=pec, sec=sec)
    fhs = sources(ctx, rng, s.disks)
    refused(ctx, f"DDF level {prl:#x}/{rlq}/{srl} with {pec}x{sec} members", lambda: use(DDF(fhs, s.sector).configurations[0].virtual_disks))
    ctx.state("ddf level", prl, min(rlq, 6), min(srl, 4), pec, sec)


def ddf_damage(ctx, rng):
    from dissect.volume.ddf.ddf import DDF

    s = DDFSet(rng, rng.randint(1, 3), rng.choice([512, 512, 4096]))
    s.add_vd("concat", b"vd", False, 1, 3, 4)
    s.build()
    d = rng.randrange(s.n)
    name = rng.choice(["anchor", "ctrl", "pdr", "vdr", "pdd", "reference"])
    disk = s.disks[d]
    good = name == "anchor" and rng.random() < 0.3
    if good:
        pass
    elif name == "anchor":
        flip(rng, disk, disk.size - s.sector, 4)
    elif name == "reference":
        # not one of the disks that are listed
        at = [*s.where[d, "pdd"]]
        new = rng.choice([r for r in (rng.getrandbits(32) for _ in range(9)) if r not in (*s.refs, 0xFFFFFFFF)])
        for a in at:
            disk.write(a + 32, struct.pack(">I", new))
    else:
        for a in s.where[d, name]:
            flip(rng, disk, a, 4)
    fhs = sources(ctx, rng, s.disks)
    act = lambda: use(DDF(fhs, s.sector).configurations[0].virtual_disks)
    if good:
        ctx.lib("DDF set without damage", act)
        ctx.count("accepted")
    else:
        refused(ctx, f"DDF disk with a damaged {name}", act)
    ctx.state("ddf", name, s.sector)


def md(ctx, rng):
    from dissect.volume.md.md import MD

    what = rng.choice(["level", "level", "layout", "layout", "magic", "none"])
    a = random_array(rng, level=rng.choice([5, 6]) if what == "layout" else None, rows=5)
    good = a.level, a.layout
    members = build_members(rng, a)[0]
    for disk, info in members:
        v0 = a.version == "0.90"
        if v0:
            sb = (disk.size // 512 & ~127) - 128
        else:
            sb = {"1.0": (disk.size // 512 - 16) & ~7, "1.1": 0, "1.2": 8}[a.version]
        info["sb"] = sb * 512
    if what == "level":
        value = rng.choice([2, 3, 7, 8, 9, 11, 12, 50, 100, 1 << 16, 1 << 30, -2, -3, -4, -5, -6, -10, -1000])
        for disk, info in members:
            disk.write(info["sb"] + (28 if a.version == "0.90" else 72), struct.pack("<i", value))
    elif what == "layout":
        known = RAID5_LAYOUTS if a.level == 5 else RAID6_LAYOUTS
        value = rng.choice([v for v in [*range(40), 255, 256, 0x102, 0x10201, 1 << 31] if v not in known])
        for disk, info in members:
            disk.write(info["sb"] + (256 if a.version == "0.90" else 76), struct.pack("<I", value))
    elif what == "magic":
        disk, info = rng.choice(members)
        value = 0
        flip(rng, disk, info["sb"], 4)
    ctx.params = dict(version=a.version, good=repr(good), what=what, value=what != "none" and value)
    fhs = sources(ctx, rng, [d for d, _ in members])
    act = lambda: use(MD(fhs).configurations[0].virtual_disks)
    if what == "none":
        ctx.lib("MD set without damage", act)
        ctx.count("accepted")
        return
    refused(ctx, f"MD set with an unknown {what} {value} instead of {good}", act)
    ctx.state("md", a.version, a.level, what, value)


def vinum(ctx, rng):
    from dissect.volume.vinum.vinum import Vinum

    w = World(rng, stale=False, faults=False)
    drives = [*w.drives.values(), *w.idle]
    bad = rng.random() < 0.8
    if bad:
        flip(rng, rng.choice(drives).disk, 4096, 8)
        magic = {d.disk.read(4096, 8) for d in drives}
        if magic <= {struct.pack(">Q", m) for m in VINUM_MAGICS}:
            return
    fhs = sources(ctx, rng, [d.disk for d in drives])
    act = lambda: use(Vinum(fhs).configurations[0].virtual_disks)
    if bad:
        refused(ctx, "vinum drive without its magic", act)
    else:
        ctx.lib("vinum set without damage", act)
        ctx.count("accepted")
    ctx.state("vinum", len(drives), bad)


VINUM_MAGICS = (22322600044678729, 22322600044678990, 0x494E2056494E4F00, 0x4E4F2056494E4F00)


def lvm(ctx, rng):
    from dissect.volume.lvm import LVM2

    while True:
        vg = make_vg(rng)
        vg.plain_lv("plain")
        if "plain" not in vg.lvs:
            continue  # no space left
        tree = vg.tree()
        what = rng.choice(["label", "two groups", "no group", "no metadata", "none", "none"])
        if what == "two groups":
            other = copy.deepcopy(tree[vg.name])
            tree["other"] = other
        elif what == "no group":
            del tree[vg.name]
        text = write_text(rng, tree, "lvm").encode()
        if all(p.pe_start * 512 - 4096 - 512 > len(text) + 1 for p in vg.pvs):
            break
    for p in vg.pvs:
        vg.write_device(p, None if what == "no metadata" else text, label_sector=rng.randrange(4))
    if what == "label":
        p = rng.choice(vg.pvs)
        for sector in range(4):
            if p.disk.read(sector * 512, 8) == b"LABELONE":
                flip(rng, p.disk, sector * 512, 8)
    ctx.params = dict(what=what, pvs=len(vg.pvs))
    fhs = sources(ctx, rng, [p.disk for p in vg.pvs])
    act = lambda: use([LVM2(fhs).vg.logical_volumes["plain"]])
    if what == "none":
        ctx.lib("LVM2 without damage", act)
        ctx.count("accepted")
    else:
        refused(ctx, f"LVM2 with {what}", act)
    ctx.state("lvm", what, len(vg.pvs))


def thin(ctx, rng):
    from dissect.volume.dm.thin import ThinPool

    p = Pool(rng, max_blocks=20)
    disk = p.meta_disk()
    dev = rng.choice(list(p.devices))
    what = rng.choice(["magic", "block size", "device", "device", "node", "none"])
    if what == "node" and not p.mapped:
        what = "magic"
    if what == "magic":
        flip(rng, disk, 32, 8)
    elif what == "block size":
        disk.write(56 + 256 + 8 + 16, bytes(4))
    elif what == "node":
        # neither an inner node nor a leaf
        dev = rng.choice(p.mapped)
        (root,) = struct.unpack("<Q", disk.read(320, 8))
        disk.write(root * 4096 + 4, struct.pack("<I", rng.choice([0, 4, 8, 1 << 31])))
    elif what == "device":
        near = {d + x for d in p.devices for x in (-1, 1, 1 << 24, 1 << 32)} | {0, rng.getrandbits(24), *(k for m in p.devices.values() for k in list(m)[:5])}
        dev = rng.choice(sorted(x for x in near if 0 <= x and x not in p.devices))
    ctx.params = dict(what=what, dev=dev, devices=sorted(p.devices))
    meta, data = sources(ctx, rng, [disk, p.data])

    class Opener:
        def open(self):
            return ThinPool(meta, data).open(dev, 1 << 20)

    act = lambda: use([Opener()])
    if what == "none":
        ctx.lib("thin pool without damage", act)
        ctx.count("accepted")
    else:
        refused(ctx, f"thin pool with a wrong {what} ({dev})", act)
    ctx.state("thin", what, len(p.devices))


def vss(ctx, rng):
    from dissect.volume.vss import VSS

    vol = random_volume(rng, blocks=rng.randint(100, 2000))
    d = vol.disk
    k = rng.randrange(len(vol.stores))
    st = vol.stores[k]
    what = rng.choice(["volume header", "catalog", "catalog block", "no catalog", "entry type", "lone entry", "store", "list", "list type", "bitmap", "bitmap type", "previous",
                       "previous type", "range", "range type", "none"])
    lists = {"list": st["list"], "bitmap": st["bitmap"], "previous": st["previous"], "range": st["range"]}
    where = what.split()[0]
    typed = what.endswith(" type") and where in lists
    if where in lists and not lists[where]:
        return
    if what == "volume header":
        flip(rng, d, 0x1E00, 16)
    elif what == "catalog":
        flip(rng, d, vol.catalog, 16)
    elif what == "catalog block":
        flip(rng, d, rng.choice(vol.offsets["catalog"]), 16)
    elif what == "no catalog":
        d.write(0x1E00 + 48, bytes(8))
    elif what == "entry type":
        d.write(vol.catalog + 128, struct.pack("<Q", rng.choice([4, 5, 256, 1 << 32, rng.getrandbits(62) | 1 << 40])))
    elif what == "lone entry":
        at = next(a for a in range(vol.catalog + 128, vol.catalog + BS, 128) if d.read(a, 1)[0] != 1)
        if vol.entries > 126:
            return
        d.write(at, struct.pack("<Q", 1))
    elif what == "store":
        flip(rng, d, st["header"], 16)
    elif typed:
        right = {"list": 3, "range": 5, "bitmap": 6, "previous": 6}[where]
        d.write(lists[where] + 20, struct.pack("<I", rng.choice([x for x in (0, 1, 2, 3, 4, 5, 6, 7, 0x103) if x != right])))
    elif where in lists:
        flip(rng, d, lists[where], 16)
    ctx.params = dict(what=what, store=k, stores=len(vol.stores), entries=vol.entries)
    (fh,) = sources(ctx, rng, [d])

    def act():
        store = VSS(fh).catalog.stores[k]
        for name in ("block_list", "range_list", "bitmap", "previous_bitmap"):
            if not where in lists or name == {"list": "block_list", "range": "range_list", "bitmap": "bitmap", "previous": "previous_bitmap"}[where]:
                getattr(store, name)

    if what == "none":
        ctx.lib("snapshots without damage", act)
        ctx.count("accepted")
    else:
        refused(ctx, f"snapshots with a wrong {what}", act)
    ctx.state("vss", what, k, len(vol.stores))


def table(ctx, rng):
    """Partition tables that are asked for by kind."""
    from dissect.volume.disk.schemes import APM, BSD, GPT, MBR

    kind, what = rng.choice([("mbr", "none"), ("mbr", "signature"), ("gpt", "none"), ("gpt", "signature"), ("gpt", "boot signature"),
                             ("gpt", "protective entry"), ("apm", "none"), ("apm", "first"), ("apm", "later"), ("bsd", "none"),
                             ("bsd", "magic"), ("bsd", "second magic")])
    img = {"mbr": random_mbr, "gpt": random_gpt, "apm": random_apm, "bsd": random_bsd}[kind](rng)
    d = img.disk()
    if what in ("signature", "boot signature"):
        flip(rng, d, *((510, 2) if kind == "mbr" or what == "boot signature" else (img.ss, 8)))
    elif what == "protective entry":
        for i, slot in enumerate(img.slots):
            if slot and slot[1] == 0xEE:
                d.write(446 + 16 * i + 4, bytes([rng.choice([7, 0x83, 0xED, 0xEF, 0x6E])]))
    elif what in ("first", "later"):
        at = sorted(off for off, data in img.writes if data[:2] == b"PM")
        if what == "later" and len(at) == 1:
            return
        flip(rng, d, at[0] if what == "first" else rng.choice(at[1:]), 2)
    elif what == "magic":
        flip(rng, d, img.ss, 4)
    elif what == "second magic":
        if img.bits != 32:
            return
        flip(rng, d, img.ss + 132, 4)
    if kind == "apm" and what == "first" and d.read(0, 2) == b"ER" and at[0] == 0:
        return
    ctx.params = dict(kind=kind, what=what, ss=img.ss)
    (fh,) = sources(ctx, rng, [d])
    scheme = {"mbr": MBR, "gpt": GPT, "apm": APM, "bsd": BSD}[kind]
    act = lambda: direct(ctx, rng, img, scheme, fh)
    if what == "none":
        act()
        ctx.count("accepted")
    else:
        ctx.params = {**ctx.params, "what": what}
        ctx.expect_error(f"{kind} with a wrong {what}", Exception, scheme, fh, sector_size=img.ss)
        ctx.count("refused")
    ctx.state("table", kind, what, img.ss)


KINDS = [ddf_layout, ddf_damage, md, vinum, lvm, thin, vss, ddf_layout, table]


def case(ctx, rng, idx, tier):
    ctx.params = {}
    KINDS[idx % len(KINDS)](ctx, rng)
