"""Vinum drives: builder and independent resolution of what the volumes contain."""
from __future__ import annotations

import struct
from dataclasses import dataclass, field, replace

from vmon.content import ChunkMap, Extents, SparseDisk
from vmon.vinumtext import DATA_START, render, size_word

ACTIVE = (0x494E2056494E4F00, 0x56494E554D2D3100)
INACTIVE = (0x4E4F2056494E4F00, 0x56494E554D2D2D00)


@dataclass
class Sd:
    name: bytes
    drive: bytes
    length: int
    driveoffset: int
    plex: bytes
    plexoffset: int
    state: bytes = b"up"
    altered: bool = False


@dataclass
class Plex:
    name: bytes
    org: bytes
    stripesize: int
    volume: bytes
    state: bytes = b"up"
    altered: bool = False


@dataclass
class Vol:
    name: bytes
    state: bytes = b"up"
    altered: bool = False


@dataclass
class Drive:
    name: bytes
    disk: SparseDisk
    ts: tuple
    active: bool = True
    drive_size: int = 0
    lists: list = field(default_factory=list)  # objects its configuration names


def plex_sizes(rng, total, org):
    """(stripe size, subdisk lengths) of a plex of this total size."""
    if org == b"concat":
        n = rng.choice([1, 1, 2, 3, 5])
        cuts = sorted(rng.sample(range(1, total // 512), min(n - 1, total // 512 - 1)))
        edges = [0] + [c * 512 for c in cuts] + [total]
        return 0, [b - a for a, b in zip(edges, edges[1:])]
    lo = 2 if org == b"striped" else 3
    options = []
    for n in range(lo, 6):
        data = n if org == b"striped" else n - 1
        if total % (data * 512):
            continue
        length = total // data
        for mult in (1, 2, 3, 4, 8, 16, 128, 256):
            s = mult * 512
            if length % s == 0 and length // s <= 300:
                options.append((n, s, length))
    n, s, length = rng.choice(options)
    return s, [length] * n


PLEX_STATES = (b"up", b"initializing", b"degraded", b"growable")


def place(plex, sds, content, drives, usable):
    """Store the volume's content into the extents of the subdisks."""
    at = lambda sd: (drives[sd.drive].disk, sd.driveoffset)
    if plex.org == b"concat":
        for sd in usable:
            d, o = at(sd)
            d.embed(o, content, sd.length, sd.plexoffset)
        return
    s = plex.stripesize
    n = len(sds)
    for no in range(content.size // s):
        if plex.org == b"striped":
            row, slot = divmod(no, n)
        else:
            slot, row = locate5(no, n)
        if sds[slot] not in usable:
            continue
        d, o = at(sds[slot])
        d.embed(o + row * s, content, s, no * s)


def locate5(no, n):
    """FreeBSD's organisation: parity walks from the last subdisk down, data fills the rest in order."""
    row, col = divmod(no, n - 1)
    parity = n - 1 - row % n
    return (col if col < parity else col + 1), row


class World:
    def __init__(self, rng, base_id=1, nvol=None, ndrives=None, stale=True, faults=True, slack=0):
        self.rng = rng
        nd = ndrives or rng.randint(1, 6)
        self.drives = {}
        alloc = {}
        names = [b"drive%d" % i if rng.random() < 0.8 else b"d%d-%s" % (i, b"x" * 20) for i in range(nd)]
        for n in names:
            alloc[n] = DATA_START + 512 * rng.choice([0, 0, 0, rng.randint(1, 200)])
            if rng.random() < 0.08:
                alloc[n] += 512 * rng.randint(1, 1 << rng.choice([24, 33, 40]))  # far out on a large drive
        self.vols, self.plexes, self.sds = [], [], []
        self.contents = {}
        pending = []
        for v in range(nvol or rng.choice([1, 1, 2, 3, 4])):
            vname = rng.choice([b"vol%d", b"my-%d", b"data.%d", "völ%d".encode()]) % v
            total = 512 * 60 * rng.choice([1, 2, 4, 8, 16])
            self.vols.append(Vol(vname, rng.choice([b"up", b"up", b"up", b"down"])))
            content = SparseDisk(base_id + 100 + v, total)
            self.contents[vname] = content
            order = list(range(rng.choice([1, 1, 1, 2, 3])))
            for p in order:
                org = rng.choice([b"concat", b"striped", b"raid5"])
                s, lengths = plex_sizes(rng, total, org)
                plex = Plex(vname + b".p%d" % p, org, s, vname, rng.choice([b"up"] * 10 + [b"degraded", b"degraded", b"growable", b"initializing"]))
                self.plexes.append(plex)
                off = 0
                sds = []
                for i, ln in enumerate(lengths):
                    d = rng.choice(names) if rng.random() < 0.4 else names[(i + p) % nd]
                    alloc[d] += 512 * rng.choice([0, 0, rng.randint(1, 50)])
                    # striped and RAID5 subdisks: the position in the plex is counted per subdisk in stripes or in bytes
                    sd = Sd(plex.name + b".s%d" % i, d, ln, alloc[d], plex.name, off, rng.choice([b"up"] * 8 + [b"growable"]))
                    off += ln if org == b"concat" else s
                    alloc[d] += ln
                    sds.append(sd)
                self.sds += sds
                pending.append((plex, sds, content))
        same = rng.random() < 0.4 or not stale
        base = rng.randint(1, 4_000_000_000)
        for i, n in enumerate(names):
            size = alloc[n] + 512 * rng.choice([0, 1, 40]) + slack
            ts = (base, 5) if same else (base + rng.randint(-2, 2), rng.randint(0, 999999))
            self.drives[n] = Drive(n, SparseDisk(base_id + i, size), ts, drive_size=rng.choice([0, size, size]))
        while not same and len({d.ts for d in self.drives.values()}) < nd:
            for d in self.drives.values():
                d.ts = (base + rng.randint(-2, 2), rng.randint(0, 999999))
        # states
        usable = self.sds
        if faults:
            # of the mirrored plexes first: there is a complete one to read instead
            mirrored = [s for s in self.sds if sum(p.volume == s.plex.rpartition(b".")[0] for p in self.plexes) > 1]
            if rng.random() < 0.4:
                for _ in range(rng.choice([1, 1, 2])):
                    out = rng.choice(mirrored if mirrored and rng.random() < 0.8 else self.sds)
                    out.state = rng.choice([b"down", b"stale", b"degraded", b"initializing", b"crashed", b"empty", b"reviving"])
                usable = [s for s in self.sds if s.state in (b"up", b"growable")]
            if rng.random() < 0.2:
                rng.choice(self.plexes).state = rng.choice([b"down", b"faulty", b"flaky"])
        for plex, sds, content in pending:
            # what is out of use holds something else
            place(plex, sds, content, self.drives, [s for s in sds if s in usable and plex.state in PLEX_STATES])
        if faults and rng.random() < 0.08:
            rng.choice(self.plexes).org = b"?"
        extra = []
        if rng.random() < 0.2:
            extra.append(Plex(b"lost.p0", b"concat", 0, b"no-such-volume"))
            extra.append(Sd(b"lost.p0.s0", names[0], 512, DATA_START, b"lost.p0", 0))
        if rng.random() < 0.2:
            extra.append(Sd(b"lost.p7.s0", names[0], 512, DATA_START, b"no-such-plex", 0))
        objects = self.vols + self.plexes + self.sds + extra
        by_age = sorted(self.drives.values(), key=lambda d: d.ts, reverse=True)
        for obj in objects:
            listers = [d for d in by_age if same or rng.random() < 0.75] or [rng.choice(by_age)]
            first = True
            for d in listers:
                d.lists.append(obj if same or first or rng.random() < 0.5 else self.alter(obj))
                first = False
        # drives that are present but out of use, with a newer and wrong configuration
        self.idle = []
        if faults and rng.random() < 0.25:
            n = rng.choice(names + [b"old"])
            d = Drive(n, SparseDisk(base_id + 50, max(x.disk.size for x in self.drives.values())), (base + 100, 0), active=False)
            d.lists = [self.alter(o) for o in objects if rng.random() < 0.7]
            self.idle.append(d)
        for d in [*self.drives.values(), *self.idle]:
            self.write(d)
        self.same = same

    def alter(self, obj):
        rng = self.rng
        if isinstance(obj, Vol):
            return replace(obj, state=b"down", altered=True)
        if isinstance(obj, Plex):
            return replace(obj, altered=True, **rng.choice([{"state": b"down"}, {"volume": b"elsewhere"}, {"stripesize": obj.stripesize * 2}]))
        choice = rng.choice(["driveoffset", "drive", "state", "length", "plexoffset"])
        if choice == "driveoffset":
            return replace(obj, altered=True, driveoffset=obj.driveoffset + 512)
        if choice == "drive":
            return replace(obj, altered=True, drive=rng.choice(list(self.drives)))
        if choice == "length":
            return replace(obj, altered=True, length=obj.length // 2)
        if choice == "plexoffset":
            return replace(obj, altered=True, plexoffset=obj.plexoffset + 512 * 60)
        return replace(obj, altered=True, state=b"down")

    def line(self, o, messy):
        rng = self.rng
        sz = lambda n: size_word(rng, n) if messy else (b"%ds" % (n // 512))
        if isinstance(o, Vol):
            return render(rng, b"volume", [[o.name], [b"state", o.state]], messy)
        if isinstance(o, Plex):
            org = [b"org", o.org] + ([sz(o.stripesize)] if o.org in (b"striped", b"raid5") else [])
            return render(rng, b"plex", [[b"name", o.name], org, [b"vol", o.volume], [b"state", o.state]], messy)
        return render(rng, b"sd", [[b"name", o.name], [b"drive", o.drive], [b"len", sz(o.length)], [b"driveoffset", sz(o.driveoffset)],
                                   [b"plex", o.plex], [b"plexoffset", sz(o.plexoffset)], [b"state", o.state]], messy)

    def write(self, d):
        rng = self.rng
        messy = rng.random() < 0.3
        text = b"".join(self.line(o, messy) + b"\n" for o in d.lists)
        assert len(text) < 65536
        length = 65536 if rng.random() < 0.04 else len(text) + rng.choice([0, 1, 512, rng.randint(0, 1000)])
        hdr = struct.pack(">QQ", rng.choice(ACTIVE if d.active else INACTIVE), length)
        hdr += b"host".ljust(32, b"\0") + d.name.ljust(32, b"\0") + struct.pack(">QQQQQ", 1, 2, d.ts[0], d.ts[1], d.drive_size)
        d.disk.write(4096, hdr.ljust(512, b"\0"))
        d.disk.write(4608, text.ljust(65536, b"\0"))
        d.disk.write(4608 + 65536, text.ljust(65536, b"\0"))

    # ------------------------------------------------------------------------------------------------
    def resolve(self, present):
        """What the present active drives define: {volume: (complete plexes, partial plexes, altered, active plexes)}."""
        newest = {}
        for d in present:
            if not d.active:
                continue
            for o in d.lists:
                key = (type(o).__name__, o.name)
                if key not in newest or d.ts > newest[key][0]:
                    newest[key] = (d.ts, o)
        objs = {k: v[1] for k, v in newest.items()}
        drives = {d.name: d for d in present if d.active}
        out = {}
        for (kind, name), vol in objs.items():
            if kind != "Vol":
                continue
            full, partial, altered, active = [], [], vol.altered, 0
            for (k, _), plex in objs.items():
                if k != "Plex" or plex.volume != name:
                    continue
                if plex.org not in (b"concat", b"striped", b"raid5") or plex.state not in PLEX_STATES:
                    continue
                active += 1
                sds = sorted((o for (k2, _), o in objs.items() if k2 == "Sd" and o.plex == plex.name), key=lambda o: o.plexoffset)
                usable = [o for o in sds if o.state in (b"up", b"growable") and o.drive in drives]
                known_all = all(("Sd", o.name) in objs for o in self.sds if o.plex == plex.name)
                changed = plex.altered or any(o.altered for o in sds) or not known_all or \
                    len({o.plexoffset for o in sds}) != len(sds)
                altered |= changed
                if sds and len(usable) == len(sds):
                    full.append((plex, sds, changed))
                elif usable:
                    partial.append((plex, sds, changed))
            out[name] = (full, partial, altered, active)
        return out, drives

    def plex_model(self, plex, sds, drives):
        """Content through the drives themselves."""
        at = [(drives[o.drive].disk, o.driveoffset) for o in sds]
        if plex.org == b"concat":
            return Extents([(o.length, d, off) for o, (d, off) in zip(sds, at)])
        s, n = plex.stripesize, len(sds)
        if plex.org == b"striped":
            return ChunkMap(n * sds[0].length, s, lambda no: (at[no % n][0], at[no % n][1] + no // n * s))

        def loc(no):
            slot, row = locate5(no, n)
            return at[slot][0], at[slot][1] + row * s

        return ChunkMap((n - 1) * sds[0].length, s, loc)
