"""Device-mapper thin pool metadata."""
from __future__ import annotations

import struct

from vmon.content import Extents, SparseDisk


class MetaDev:
    """Allocates metadata blocks and writes B-tree nodes."""

    def __init__(self, rng, disk_id=1, block=4096, spread=False):
        self.rng = rng
        self.block = block
        self.blocks: dict[int, bytes] = {}
        self.next = rng.randint(1, 50)
        self.disk_id = disk_id
        # close together or all over a large metadata device
        self.steps = [1, 1, 1, 2, 17] if not spread or rng.random() < 0.7 else [1, 256, 4096, 65536]

    def alloc(self):
        n = self.next
        self.next += self.rng.choice(self.steps)
        return n

    def node(self, leaf: bool, keys: list[int], values: list[bytes], value_size: int) -> int:
        n = self.alloc()
        cap = (self.block - 32) // (8 + value_size)
        mx = max(len(keys), self.rng.choice([cap // 3 * 3, cap, min(cap, len(keys) + 2)]))
        assert len(keys) <= mx <= cap
        body = struct.pack("<IQIIII", 2 if leaf else 1, n, len(keys), mx, value_size, 0)
        body += b"".join(struct.pack("<Q", k) for k in keys).ljust(8 * mx, b"\xee")
        body += b"".join(values).ljust(value_size * mx, b"\xdd")
        body = body.ljust(self.block - 4, b"\0")
        self.blocks[n] = struct.pack("<I", self.rng.getrandbits(32)) + body
        return n

    def tree(self, items: dict[int, bytes], value_size: int, fanout=None) -> int:
        """Root of a B-tree holding the items; shape depends on the random fan-out."""
        rng = self.rng
        cap = (self.block - 32) // (8 + value_size) // 3 * 3
        pick = fanout or rng.choice([lambda: rng.randint(1, 3), lambda: rng.randint(2, 8), lambda: rng.randint(1, cap), lambda: cap])
        keys = sorted(items)
        level = []
        i = 0
        while i < len(keys) or not level:
            n = max(1, min(cap, pick()))
            if len(keys) > 3000 and n < 40:
                n = 40
            part = keys[i : i + n]
            blk = self.node(True, part, [items[k] for k in part], value_size)
            # a separator may be lower than the first key below it, but is above everything to its left
            first = part[0] if part else 0
            floor = keys[i - 1] + 1 if i else 0
            level.append((rng.choice([first, first, rng.randint(floor, first)]), blk))
            i += n
        depth = 1
        icap = (self.block - 32) // 16 // 3 * 3
        while len(level) > 1 or (depth < 4 and rng.random() < 0.1):
            up = []
            i = 0
            while i < len(level):
                n = min(icap, max(2, pick()))
                part = level[i : i + n]
                up.append((part[0][0], self.node(False, [k for k, _ in part], [struct.pack("<Q", b) for _, b in part], 8)))
                i += n
            level = up
            depth += 1
        self.depth = depth
        return level[0][1]

    def disk(self, size=None, zero=False) -> SparseDisk:
        total = (max(self.blocks) + 2) * self.block
        d = SparseDisk(self.disk_id, size or total, zero=zero)
        for n, b in self.blocks.items():
            d.write(n * self.block, b)
        return d


class Pool:
    def __init__(self, rng, meta_id=1, data_id=2, block_sectors=None, max_blocks=None, ndev=None, exact=None):
        self.rng = rng
        self.bs_sectors = block_sectors or rng.choice([128, 128, 256, 384, 512, 1024, 2048])
        self.bs = self.bs_sectors * 512
        self.meta = MetaDev(rng, meta_id, spread=not max_blocks and not exact)
        self.devices: dict[int, dict[int, int]] = {}
        self.sizes: dict[int, int] = {}
        nd = len(exact) if exact else ndev or rng.choice([1, 2, 3, 6])
        used = 0
        ids = set()
        while len(ids) < nd:
            ids.add(rng.choice([rng.randint(0, 10), rng.randint(0, 1 << 24)]))
        ids = list(ids)
        rng.shuffle(ids)
        shape = rng.choice(["dense", "gappy", "sparse", "runs", "big"])
        limit = max_blocks or {"big": rng.choice([300, 2000])}.get(shape, rng.choice([1, 5, 30, 130]))
        free = []
        for i, dev in enumerate(ids):
            if exact:
                m = {v: None for v in range(-(-exact[i] // self.bs))}
            elif i and rng.random() < 0.4:
                # snapshot of an earlier volume that went its own way
                m = dict(self.devices[rng.choice(ids[:i])])
                for k in rng.sample(list(m), min(len(m), rng.choice([0, 1, 3]))):
                    if rng.random() < 0.7:
                        m[k] = None
                    else:
                        del m[k]
            else:
                m = {}
                n = rng.randint(0, limit) if rng.random() < 0.85 else 0
                v = rng.choice([0, 0, rng.randint(0, 20)])
                for _ in range(n):
                    m[v] = None
                    step = {"dense": 1, "gappy": rng.choice([1, 1, 2, 3]), "sparse": rng.choice([1, 100, 1 << 20, 1 << 20, 1 << 33]),
                            "runs": 1 if rng.random() < 0.9 else rng.randint(2, 50), "big": rng.choice([1, 1, 1, 5])}[shape]
                    v += step
            self.devices[dev] = m
        need = sum(1 for m in self.devices.values() for v in m.values() if v is None)
        blocks = list(range(need + rng.choice([0, 1, 10])))
        if blocks and not max_blocks and not exact and rng.random() < 0.25:
            # a huge data device
            top = 1 << rng.choice([17, 24, 25, 32, 33, 39])
            blocks = rng.sample(range(top), len(blocks))
            blocks[0] = top - 1
        rng.shuffle(blocks)
        if rng.random() < 0.3:
            blocks.sort()
        for m in self.devices.values():
            for k in m:
                if m[k] is None:
                    m[k] = blocks.pop()
        self.data_blocks = max([need, *(b for m in self.devices.values() for b in m.values())]) + 10
        for dev, m in self.devices.items():
            top = (max(m) + 1 if m else 0) + rng.choice([0, 0, 1, 5, 1000])
            top = max(1, top)
            size = top * self.bs
            if rng.random() < 0.3:
                size -= rng.choice([512, 4096, self.bs // 2])
            elif rng.random() < 0.1:
                size = max(512, rng.randint(1, top) * self.bs)
            self.sizes[dev] = exact[ids.index(dev)] if exact else size
        self.data = SparseDisk(data_id, self.data_blocks * self.bs)
        roots = {}
        for dev, m in self.devices.items():
            # equal maps may share their tree
            same = [d for d in roots if self.devices[d] == m]
            if same and rng.random() < 0.7:
                roots[dev] = roots[same[0]]
            else:
                roots[dev] = self.meta.tree({k: struct.pack("<Q", b << 24 | rng.getrandbits(24)) for k, b in m.items()}, 8)
        self.depth = getattr(self.meta, "depth", 1)
        tops = dict(roots)
        self.orphan = None
        if not exact and rng.random() < 0.5:
            # a volume that never had anything mapped need not be in the mapping tree
            tops = {d: r for d, r in roots.items() if self.devices[d]}
        if not exact and rng.random() < 0.3:
            # and a mapping without volume is not a volume
            orphan = rng.choice([max(ids) + 1, rng.randint(0, 1 << 24)])
            if orphan not in ids:
                self.orphan = orphan
                tops[orphan] = rng.choice(list(roots.values()))
        self.mapped = [d for d in ids if d in tops]
        top = self.meta.tree({d: struct.pack("<Q", r) for d, r in tops.items()}, 8)
        details = self.meta.tree({d: struct.pack("<QQII", len(m), 1, 2, 3) for d, m in self.devices.items()}, 24)
        sb = struct.pack("<IIQ", rng.getrandbits(32), 0, 0) + bytes(16) + struct.pack("<QIIQQ", 27022010, 2, 5, 1, 0)
        sb += bytes(256) + struct.pack("<QQIIQIII", top, details, self.bs_sectors, self.meta.block // 512, 1000, 0, 0, 0)
        self.meta.blocks[0] = sb.ljust(self.meta.block, b"\0")

    def meta_disk(self, **kw):
        return self.meta.disk(**kw)

    def model(self, dev):
        """Zeros except for the mapped blocks."""
        ext = []
        pos = 0
        size = self.sizes[dev]
        for v in sorted(self.devices[dev]):
            if v * self.bs >= size:
                break
            if v > pos:
                ext.append(((v - pos) * self.bs, None, 0))
            ext.append((self.bs, self.data, self.devices[dev][v] * self.bs))
            pos = v + 1
        if pos * self.bs < size:
            ext.append((size - pos * self.bs, None, 0))
        return Extents(ext, size)
