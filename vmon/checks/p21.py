"""Damaged metadata: an error or an end, never endless work."""
import random
import struct

from vmon import zoo
from vmon.build_vinum import ACTIVE, INACTIVE
from vmon.build_vss import IDENT as VSS_ID
from vmon.content import SparseDisk
from vmon.monitor import Violation
from vmon.steps import BudgetExceeded, steps

CASES = {"quick": 10000, "thorough": 40000}
RULE = "distinct (volume kind, way of damage, field width, outcome class)"
MINIMUM = {"damaged": 3000, "errors": 800, "survived": 500, "links_redirected": 300}
KINDS = [k for k in zoo.KINDS if k != "raid"]

STEPS = 2_000_000
BYTES = 192 << 20
OPS = 200_000


def metadata(disks):
    """All (disk, sector) with explicitly written bytes, through embedded content."""
    out, seen, todo = [], set(), list(disks)
    while todo:
        d = todo.pop()
        if id(d) in seen or not isinstance(d, SparseDisk):
            continue
        seen.add(id(d))
        out += [(d, s) for s in sorted(d._over)]
        todo += [m for _, _, m, _ in d._src]
    return out


def locations(meta, units=(1, 512, 4096, 16384)):
    locs = set()
    for d, s in meta:
        for u in units:
            if s * 512 % u == 0:
                locs.add(s * 512 // u)
    locs.discard(0)
    return locs


def links(meta, locs):
    """Aligned fields whose value is the place of some metadata."""
    out = []
    for d, s in meta:
        raw = bytes(d._over[s])
        for w, fmt in ((8, "<Q"), (8, ">Q"), (4, "<I"), (4, ">I")):
            for i in range(0, 512 - w + 1, w if w == 8 else 2):
                if raw[i : i + w] != bytes(w) and struct.unpack_from(fmt, raw, i)[0] in locs:
                    out.append((d, s, i, w, fmt))
    return out


INTERESTING = [0, 1, 2, 3, 7, 0x7F, 0x80, 0xFF, 0x7FFF, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 1 << 40, (1 << 63) - 1, (1 << 64) - 1]


def text_like(raw):
    return sum(32 <= c < 127 or c in (9, 10) for c in raw) > len(raw) * 0.9


def signed_fields(meta):
    """Fields of structures that are known by their signature: [(disk, sector, offset, width, byte order)], and the ones of them
    that give a count, a size or the place of another structure."""
    out, main = [], set()

    def add(d, s, order, *spots, main_spots=()):
        out.extend((d, s, o, w, order) for o, w in dict.fromkeys((*main_spots, *spots)) if o + w <= 512)
        main.update((o, w, order) for o, w in main_spots)

    for d, s in meta:
        raw = bytes(d._over[s])
        word = struct.unpack_from(">I", raw)[0]
        if raw[:8] == b"EFI PART":
            add(d, s, "<", (12, 4), main_spots=[(72, 8), (80, 4), (84, 4)])
        elif raw[:2] == b"PM":
            add(d, s, ">", (8, 4), (12, 4), main_spots=[(4, 4)])
        elif raw[:8] == b"LABELONE":
            add(d, s, "<", (8, 8), (20, 4), main_spots=[(o, 8) for o in range(64, 160, 8)])
        elif raw[4:20] == b" LVM2 x[5A%r0N*>":
            add(d, s, "<", (20, 4), (24, 8), (60, 4), main_spots=[(32, 8), (40, 8), (48, 8)])
        elif raw[:4] == struct.pack("<I", 0xA92B4EFC):
            add(d, s, "<", *((o, 4) for o in range(4, 256, 4)), main_spots=[(128, 8), (136, 8), (220, 4), (160, 4), (88, 4), (92, 4)])
        elif raw[:4] in (struct.pack("<I", 0x82564557), struct.pack("<I", 0xC4464C59)):
            add(d, s, "<", *((o, 2) for o in range(132, 144, 2)), *((o, 4) for o in range(0, 256, 4)), main_spots=[(138, 2)] if raw[0] == 0x57 else [(12, 4), (48, 8)])
        elif raw[:8] in VINUM:
            add(d, s, ">", (8, 8), (80, 8), (88, 8), (96, 8), (104, 8), (112, 8))
        elif raw[32:40] == struct.pack("<Q", 27022010):
            add(d, s, "<", (40, 4), main_spots=[(320, 8), (328, 8), (336, 4), (340, 4)])
        elif raw[:16] == VSS_ID:
            add(d, s, "<", *((o, w) for o in range(16, 128, 8) for w in (4, 8)), main_spots=[(40, 8), (48, 8)])
        elif word in DDF_SIGNATURES:
            add(d, s, ">", *((o, w) for o in range(4, 320, 2) for w in (2, 4)))
        elif raw[510:] == b"\x55\xaa":
            add(d, s, "<", *((446 + 16 * i + o, w) for i in range(4) for o, w in ((4, 1), (8, 4), (12, 4))))
        elif s % 8 == 0 and raw[4:8] in (b"\1\0\0\0", b"\2\0\0\0"):
            add(d, s, "<", (4, 4), main_spots=[(16, 4), (20, 4), (24, 4), *((o, 8) for o in range(32, 64, 8))])
    return out, main


VINUM = {struct.pack(">Q", m) for m in (*ACTIVE, *INACTIVE)}
DDF_SIGNATURES = (0xDE11DE11, 0xAD111111, 0x22222222, 0x33333333, 0xDDDDDDDD, 0xEEEEEEEE, 0x88888888, 0x99999999)


def damage(rng, setup, meta):
    """One corruption; returns (way, width)."""
    way = rng.choices(["field", "link", "bytes", "copy", "fill", "truncate", "number", "loop", "text", "signed"], [6, 8, 3, 2, 1, 1, 4, 3, 5, 14])[0]
    d, s = rng.choice(meta)
    raw = d._over[s]
    if way in ("link", "loop"):
        locs = locations(meta)
        found = links(meta, locs)
        if not found:
            way = "field"
        else:
            d, s, i, w, fmt = rng.choice(found)
            if way == "loop":
                # to itself, in the unit the link seems to be in
                old = struct.unpack_from(fmt, d._over[s], i)[0]
                own = [s * 512 // u for u in (1, 512, 4096, 16384) if any(x * 512 // u == old for _, x in meta)]
                new = rng.choice(own)
            else:
                new = rng.choice(sorted(locs))
            d._over[s][i : i + w] = struct.pack(fmt, new & (1 << 8 * w) - 1)
            return way, w
    if way == "signed":
        found, main = signed_fields(meta)
        if found:
            # every kind of structure as often as the others
            spots = sorted({(o, w, order) for _, _, o, w, order in found})
            spots = rng.choice([spots, sorted(main) or spots])
            o, w, order = rng.choice(spots)
            d, s = rng.choice([(d, s) for d, s, *f in found if tuple(f) == (o, w, order)])
            fields = [(o, w, order)]
            near = {x for e, x, *_ in found if e is d}
            places = {v for x in near for v in (x, x // 8, x * 512)} - {0}
            locs = sorted(places)
            if rng.random() < 0.4:
                # a link to a structure of this kind, maybe the same one
                ptr = [(d, s, o, w, order) for d, s, o, w, order in found
                       if (o, w, order) in main or int.from_bytes(d._over[s][o : o + w], "little" if order == "<" else "big") in places]
                if ptr:
                    d, s, *f = rng.choice(ptr)
                    fields = [tuple(f)]
                way = "relink"
            elif rng.random() < 0.3:
                fields += sorted([f for e, x, *f in rng.sample(found, len(found)) if e is d and x == s], key=lambda f: tuple(f) not in main)[: rng.choice([1, 1, 4])]
            for o, w, order in fields:
                old = int.from_bytes(d._over[s][o : o + w], "little" if order == "<" else "big")
                new = rng.choice([0, 1, old + 1, old * 2, old ^ 1 << rng.randrange(8 * w), 1 << rng.randrange(8 * w), (1 << 8 * w) - 1, 1 << 8 * w - 1,
                                  rng.getrandbits(8 * w), rng.randrange(1 << rng.randint(1, 8 * w))])
                if way == "relink" and locs:
                    new = rng.choice([s, s // 8, s * 512, rng.choice(locs), rng.choice(locs), rng.choice(locs)])
                d._over[s][o : o + w] = struct.pack(order + {1: "B", 2: "H", 4: "I", 8: "Q"}[w], new & (1 << 8 * w) - 1)
            return way, w
        way = "field"
    if way == "text":
        # structure of a text: brackets, quotes and line ends lost, doubled or exchanged, or the rest missing
        texts = [(d, s) for d, s in meta if text_like(d._over[s])]
        if texts:
            d, s = rng.choice(texts)
            raw = d._over[s]
            kinds = [k for k in b"[]{}\"=,#\n" if k in raw]
            if kinds and rng.random() < 0.8:
                k = rng.choice(kinds)
                i = rng.choice([i for i in range(512) if raw[i] == k])
                raw[i] = rng.choice(b"[]{}\"=,#\n   \0")
            else:
                i = rng.randrange(512)
                fill = rng.choice([b" ", b"\0", b"\n", b"#", b"["])
                raw[i:] = fill * (512 - i)
                for d2, s2 in texts:
                    if d2 is d and s2 > s:
                        d2._over[s2][:] = fill * 512
            return way, 1
        way = "field"
    if way == "number":
        # a number in a text
        texts = [(d, s) for d, s in meta if text_like(d._over[s])]
        if texts:
            d, s = rng.choice(texts)
            raw = d._over[s]
            spots = [i for i in range(1, 511) if 48 <= raw[i] <= 57]
            if spots:
                i = rng.choice(spots)
                raw[i] = rng.choice(b"0123456789-.")
                if rng.random() < 0.5:
                    j = i
                    while j < 511 and 48 <= raw[j] <= 57:
                        raw[j] = rng.choice(b"09")
                        j += 1
                return way, 1
        way = "field"
    if way == "field":
        w = rng.choice([1, 2, 4, 4, 8])
        order = rng.choice("<>")
        spots = [i for i in range(0, 512, w) if any(raw[i : i + w])] if rng.random() < 0.8 else []
        i = rng.choice(spots or range(0, 512 - w + 1, w))
        new = rng.choice(INTERESTING + [rng.getrandbits(8 * w)])
        if rng.random() < 0.2:
            new = (int.from_bytes(raw[i : i + w], "little") ^ 1 << rng.randrange(8 * w))
        raw[i : i + w] = struct.pack(order + {1: "B", 2: "H", 4: "I", 8: "Q"}[w], new & (1 << 8 * w) - 1)
        return way, w
    if way == "bytes":
        for _ in range(rng.choice([1, 2, 10, 60])):
            raw[rng.randrange(512)] = rng.randrange(256)
    elif way == "copy":
        d2, s2 = rng.choice(meta)
        raw[:] = d2._over[s2]
    elif way == "fill":
        raw[:] = bytes([rng.choice([0, 0xFF, 0x41, 0x20, 0x7B])]) * 512
    elif way == "truncate":
        top = rng.choice(setup.disks)
        mine = [s * 512 for x, s in meta if x is top] or [top.size]
        top.size = max(0, min(top.size, rng.choice(mine) + rng.choice([0, 1, 100, 512, 513])))
    return way, 0


def explore(setup, fhs, rng):
    """Everything reachable through the public entry points."""
    kind = setup.kind
    if kind in ("md", "ddf", "vinum"):
        if kind == "md":
            from dissect.volume.md.md import MD

            top = MD(fhs)
        elif kind == "ddf":
            from dissect.volume.ddf.ddf import DDF

            top = DDF(fhs)
        else:
            from dissect.volume.vinum.vinum import Vinum

            top = Vinum(fhs)
        for c in top.configurations:
            repr(c.physical_disks)
            for vd in c.virtual_disks:
                repr((vd.name, vd.uuid, vd.size, vd.level))
                yield vd.open
    elif kind in ("lvm", "lvmthin"):
        from dissect.volume.lvm import LVM2

        vg = LVM2(fhs).vg
        for lv in vg.logical_volumes.values():
            yield lv.open
        for pv in vg.physical_volumes.values():
            repr(pv.name)
    elif kind == "thin":
        from dissect.volume.dm.thin import ThinPool

        tp = ThinPool(fhs[0], fhs[1])
        for d in setup.ids:
            yield lambda d=d: tp.open(d, 1 << 30)
    elif kind == "vss":
        from dissect.volume.vss import VSS

        for st in VSS(fhs[0]).catalog.stores:
            yield st.open
    else:
        from dissect.volume.disk import Disk

        disk = Disk(fhs[0], sector_size=setup.tag[0])
        if len(disk.partitions) > 0x10000:
            raise Violation("unbounded work", f"{len(disk.partitions)} partitions listed")
        for p in rng.sample(disk.partitions, min(6, len(disk.partitions))):
            repr(p)
            yield p.open


def big_blocks(meta):
    """A thin pool with data blocks up to the limit of 1 GiB; every read costs a whole block."""
    for d, s in meta:
        raw = d._over[s]
        if raw[32:40] == struct.pack("<Q", 27022010) and (1 << 18) < struct.unpack_from("<I", raw, 336)[0] <= (1 << 21):
            return True
    return False


class Guard:
    """Runs one call under the budgets; errors are fine."""

    def __init__(self, ctx, what):
        self.ctx, self.what = ctx, what
        self.errors = 0

    def __call__(self, fn):
        ctx = self.ctx
        ctx.count("lib_calls")
        ctx.source_op_budget = ctx.source_ops + OPS
        ctx.source_byte_budget = ctx.source_bytes + BYTES
        try:
            with ctx.bounded(STEPS):
                return fn()
        except Violation:
            raise
        except BudgetExceeded as e:
            raise Violation("unbounded work", f"{self.what}: {e}") from e
        except MemoryError as e:
            if "stack overflow" in str(e):
                # how the Python parser refuses deep nesting, no memory is involved
                self.errors += 1
                ctx.count("errors")
                return None
            raise Violation("unbounded work", f"{self.what}: MemoryError {e}") from e
        except Exception as e:
            self.errors += 1
            ctx.count("errors")
            ctx.params["error"] = f"{type(e).__name__}: {e}"[:200]
            return None


DONE = object()


def case(ctx, rng, idx, tier):
    kind = KINDS[idx % len(KINDS)]
    setup = zoo.make(rng, kind)
    meta = metadata(setup.disks)
    blank = rng.random() < 0.5
    if blank:
        # nothing but zeros around the metadata
        for d in {id(d): d for d in [*setup.disks, *(d for d, _ in meta)]}.values():
            d.zero = True
    if rng.random() < 0.5 and kind not in ("md", "ddf"):
        # much room behind the metadata
        for d in setup.disks:
            d.size += 1 << 41
    ways = [damage(rng, setup, meta)]
    if rng.random() < 0.15:
        ways.append(damage(rng, setup, meta))
    ctx.params = dict(kind=kind, tag=repr(setup.tag), ways=ways)
    if big_blocks(meta):
        ctx.count("big_blocks")
        return
    ctx.count("damaged")
    ctx.count("links_redirected", ways[0][0] in ("link", "loop", "relink"))
    fhs = [ctx.source(d, f"{kind}{i}", with_size=rng.random() < 0.5) for i, d in enumerate(setup.disks)]
    guard = Guard(ctx, f"{kind} {setup.tag} damaged by {ways}")
    walk = explore(setup, fhs, rng)
    for _ in range(12):
        opener = guard(lambda: next(walk, DONE))
        if opener is DONE or opener is None:
            break
        stream = guard(opener)
        if stream is None:
            continue
        size = int(guard(lambda: stream.seek(0, 2)) or 0)
        for off in (0, size // 2, max(0, size - 700), rng.randint(0, max(0, size))):
            def read():
                stream.seek(off)
                return stream.read(rng.choice([1, 512, 5000]))

            got = guard(read)
            if got is not None and len(got) > 5000:
                raise Violation("unbounded work", f"{len(got)} bytes returned for at most 5000")
    ctx.count("survived", not guard.errors)
    ctx.state(kind, *ways[0], "error" if guard.errors else "fine")
