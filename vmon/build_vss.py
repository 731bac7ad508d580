"""Volumes with shadow copies."""
from __future__ import annotations

import struct
from uuid import UUID

from vmon.content import Extents, SparseDisk

IDENT = bytes.fromhex("6b87083876c1484eb7ae04046e6cc752")
BS = 0x4000
RECORD = {"volume": 1, "catalog": 2, "index": 3, "store": 4, "range": 5, "bitmap": 6}


class VssVolume:
    def __init__(self, rng, disk_id=1, nstores=None, blocks=None, unused=False):
        self.rng = rng
        self.unused = unused
        self.blocks = blocks or rng.choice([60, 200, rng.randint(60, 2000), rng.randint(2000, 20000), rng.randint(130049, 400000)])
        self.size = self.blocks * BS
        if rng.random() < 0.25:
            self.size -= rng.choice([512, 1024, 4096, BS // 2])
        self.disk = SparseDisk(disk_id, self.size)
        self.low = list(range(1, min(self.blocks - 1, 60)))
        n = nstores or rng.choice([1, 1, 2, 3, 4])
        self.free = None
        self.used = {0, self.blocks - 1}
        self.identifier = UUID(bytes=rng.randbytes(16))
        self.store_volume = UUID(bytes=rng.randbytes(16))
        times = sorted(rng.sample(range(1, 1 << rng.choice([10, 40, 62])), n))
        self.stores = []
        # blocks that change during the life of the snapshots
        hot = rng.sample(range(self.blocks), min(self.blocks // 3, rng.choice([3, 10, 20, 20, 600])))
        if rng.random() < 0.7:
            hot.append(self.blocks - 1)
        self.tail = self.size % BS != 0
        for i in range(n):
            self.stores.append({"time": times[i], "id": rng.randbytes(16), "copy": UUID(bytes=rng.randbytes(16)), "set": UUID(bytes=rng.randbytes(16)),
                                "copies": {}, "overlays": {}, "moved": {}, "records": []})
        for i, st in enumerate(self.stores):
            older = self.stores[:i]
            for b in hot:
                r = rng.random()
                if self.tail and b == self.blocks - 1:
                    continue
                if r < 0.5:
                    st["copies"][b] = self.alloc()
                if rng.random() < 0.25 and (r >= 0.5 or all(b in o["copies"] for o in older)):
                    # parts written to the snapshot itself
                    st["overlays"][b] = (self.alloc(), [rng.getrandbits(32) & rng.getrandbits(32) for _ in range(rng.choice([1, 1, 2, 3]))])
        for st in self.stores:
            # blocks whose earlier content is found at another place
            away = [b for b in rng.sample(range(1, self.blocks - 1), min(self.blocks // 8, rng.choice([0, 0, 2, 8]) * 2)) if b not in st["copies"] and b not in st["overlays"]]
            st["moved"] = dict(zip(away[::2], away[1::2]))
            if st["moved"] and 0 not in st["copies"] and 0 not in st["overlays"] and rng.random() < 0.3:
                st["moved"][away[0]] = 0
        for st in self.stores:
            recs = []
            targets = set(st["moved"].values())
            elsewhere = lambda: rng.choice([0 if 0 not in targets else BS << 20, rng.choice([r for r in (rng.randrange(1 << 20) for _ in range(20)) if r not in targets]) * BS])
            for b, t in st["moved"].items():
                recs.append((b, b * BS, t * BS, rng.choice([0, rng.randrange(self.blocks) * BS]), 1, rng.choice([0, 0, rng.getrandbits(32)])))
            for b, at in st["copies"].items():
                recs.append((b, b * BS, elsewhere(), at * BS, 0, rng.choice([0, 0, rng.getrandbits(32)])))
            for b, (at, maps) in st["overlays"].items():
                for m in maps:
                    recs.append((b, b * BS, rng.choice([0, rng.randrange(1 << 20) * BS]), at * BS, 2, m))
            for _ in range(rng.choice([0, 1, 5, 20])):
                b = rng.choice([*hot, rng.randrange(self.blocks)])
                recs.append((b, b * BS, rng.choice([0, rng.randrange(1 << 20) * BS]), rng.randrange(self.blocks) * BS, rng.choice([4, 4, 6, 5]), rng.getrandbits(32)))
            rng.shuffle(recs)
            st["records"] = [struct.pack("<QQQII", *r[1:]) for r in recs]
        self.write()

    def alloc(self):
        """A free 16 KiB block for metadata or copies."""
        if len(self.used) > self.blocks * 0.9:
            raise OverflowError
        while True:
            b = self.rng.choice([self.rng.randrange(1, self.blocks), self.rng.choice(self.low)])
            if b not in self.used:
                self.used.add(b)
                return b

    def chain(self, kind, data, per, size_field=0):
        """Write a list of linked blocks with the given payload; returns the first offset."""
        rng = self.rng
        room = BS - 128
        room -= per and room % per  # whole entries only
        pieces = [data[i : i + room] for i in range(0, len(data), room)] or [b""]
        if len(pieces[-1]) == room and per and rng.random() < 0.5:
            pieces.append(b"")
        at = [self.alloc() * BS for _ in pieces]
        for i, p in enumerate(pieces):
            nxt = at[i + 1] if i + 1 < len(at) else 0
            head = IDENT + struct.pack("<IIQQQQ", 1, RECORD[kind], i * BS, at[i], nxt, size_field)
            self.disk.write(at[i], (head.ljust(128, b"\0") + p).ljust(BS, b"\0"))
        self.offsets.setdefault(kind, []).extend(at)
        return at[0]

    def write(self):
        rng = self.rng
        self.offsets = {}
        groups = []
        for st in self.stores:
            st["list"] = self.chain("index", b"".join(st["records"]), 32)
            # unless blocks without content are wanted, the two bitmaps never agree
            n = (self.blocks + 7) // 8
            flip = rng.random() < 0.5
            one = rng.randbytes(n) if rng.random() < 0.5 else bytes(n)
            other = bytes(x ^ 0xFF for x in one)
            a, b = (one, other) if flip else (other, one)
            if self.unused and st is self.stores[-1]:
                a, b = (bytes(x | y for x, y in zip(rng.randbytes(n), rng.randbytes(n))) for _ in range(2))
                b = rng.choice([a, b, b, None])
            elif rng.random() < 0.25:
                a, b = b"\xff" * n, None
            st["bitmap"] = self.chain("bitmap", a, 0)
            st["previous"] = self.chain("bitmap", b, 0) if b is not None else 0
            st["maps"] = a, b
            st["ranges"] = [(rng.randrange(1, 1 << 40) * BS, rng.randrange(1 << 40) * BS, rng.randrange(1, 1 << 20) * BS) for _ in range(rng.choice([0, 1, 3, 100, 676, 677, 678, rng.randint(679, 2500)]))]
            st["range"] = self.chain("range", b"".join(struct.pack("<QQQ", *r) for r in st["ranges"]), 24)
            hdr = self.alloc() * BS
            st["header"] = hdr
            self.offsets.setdefault("store", []).append(hdr)
            mach, serv = rng.choice(["PC", "WORKSTATION-01", ""]), rng.choice(["PC", "server.example.com", ""])
            kind, provider, attrs = rng.getrandbits(32), rng.getrandbits(32), rng.choice([0x42000D, rng.getrandbits(26) & 0x3FF00FF])
            st["info"] = kind, provider, attrs, mach, serv
            info = rng.randbytes(16) + st["copy"].bytes_le + st["set"].bytes_le + struct.pack("<IIII", kind, provider, attrs, 0)
            info += struct.pack("<H", len(mach) * 2) + mach.encode("utf-16-le") + struct.pack("<H", len(serv) * 2) + serv.encode("utf-16-le")
            head = IDENT + struct.pack("<IIQQQQ", 1, RECORD["store"], 0, hdr, 0, BS)
            self.disk.write(hdr, (head.ljust(128, b"\0") + info).ljust(1024, b"\0"))
            e2 = struct.pack("<QQ16sQQQ", 2, self.size, st["id"], rng.getrandbits(32), 0x40, st["time"]).ljust(128, b"\0")
            e3 = struct.pack("<QQ16sQQQQQQQ", 3, st["list"], st["id"], hdr, st["range"], st["bitmap"], rng.getrandbits(40), rng.randrange(1 << 30),
                             st["previous"], 0).ljust(128, b"\0")
            groups.append([e2, e3])
        style = rng.choice(["pairs", "mixed", "types"])
        rng.shuffle(groups)
        if style == "pairs":
            entries = [e for g in groups for e in g]
        elif style == "types":
            entries = [g[0] for g in groups] + [g[1] for g in groups]
        else:
            entries = []
            pend = [list(g) for g in groups]
            while pend:
                g = rng.choice(pend)
                entries.append(g.pop(0))
                if not g:
                    pend.remove(g)
        for _ in range(rng.choice([0, 0, 2, 10, 130])):
            entries.insert(rng.randint(0, len(entries)), struct.pack("<Q", 1) + (bytes(120) if rng.random() < 0.5 else rng.randbytes(120)))
        self.catalog = self.chain("catalog", b"".join(entries), 128)
        self.entries = len(entries)
        header = IDENT + struct.pack("<IIQQQQQ", 1, 1, 0x1E00, 0x1E00, 0, self.catalog, rng.getrandbits(40))
        header += self.identifier.bytes_le + self.store_volume.bytes_le + struct.pack("<I", 1)
        self.disk.write(0x1E00, header.ljust(512, b"\0"))

    def empty(self):
        """Blocks without content according to the newest snapshot."""
        a, b = self.stores[-1]["maps"]
        targets = set(self.stores[-1]["moved"].values())
        return {i for i in range(self.blocks) if i not in targets and not (a[i // 8] | (b[i // 8] if b else 0)) >> i % 8 & 1}

    def model(self, k):
        """Content of snapshot k (oldest first)."""
        own = self.stores[k]["overlays"]
        blocks = {}
        for st in reversed(self.stores[k:]):
            moved = {b: blocks.get(t, t) for b, t in st["moved"].items()}
            blocks.update(moved)
            blocks.update(st["copies"])
        ext = []
        pos = 0
        empty = self.empty() if self.unused else ()
        for b in sorted({*blocks, *own, *empty}):
            if b > pos:
                ext.append(((b - pos) * BS, self.disk, pos * BS))
            if b in empty and b not in blocks:
                base = None, 0
            else:
                base = self.disk, blocks.get(b, b) * BS
            length = min(BS, self.size - b * BS)
            if b in own:
                at, maps = own[b]
                bits = 0
                for m in maps:
                    bits |= m
                for i in range(32):
                    ext.append((512, *((self.disk, at * BS + i * 512) if bits >> i & 1 else (base[0], base[1] + i * 512))))
            else:
                ext.append((length, *base))
            pos = b + 1
        if pos * BS < self.size:
            ext.append((self.size - pos * BS, self.disk, pos * BS))
        return Extents(ext, self.size)

    def hot_offsets(self, k):
        st = self.stores[k]
        return [b * BS for b in [*st["copies"], *st["overlays"], *st["moved"]]]


def random_volume(rng, disk_id=1, **kw):
    while True:
        try:
            return VssVolume(rng, disk_id, **kw)
        except OverflowError:
            continue
