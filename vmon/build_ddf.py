"""SNIA DDF metadata builder."""
from __future__ import annotations

import struct
from dataclasses import dataclass, field

from vmon.content import SparseDisk, fresh_id
from vmon.raidmodel import ChunkMap, Extents, parity_data_disks, parity_model, raid10_model

# kind: (prl, rlq, level, layout)
KINDS = {
    "concat": (0x1F, 0, -1, None),
    "raid0": (0, 0, 0, None),
    "raid1": (1, 0, 1, None),
    "raid1m": (1, 1, 1, None),
    "raid1e": (0x11, 0, 10, 0x102),
    "raid4": (4, 1, 4, None),
    "raid5-0r": (5, 0, 5, 1),
    "raid5-nr": (5, 2, 5, 0),
    "raid5-nc": (5, 3, 5, 2),
    "raid6-0r": (6, 1, 6, 8),
    "raid6-nr": (6, 2, 6, 9),
    "raid6-nc": (6, 3, 6, 10),
    "raid10": (1, 0, 10, 0x102),
    "raid10m": (1, 1, 10, 0x103),
}


@dataclass
class VD:
    kind: str
    guid: bytes
    name: bytes
    unicode: bool
    strip: int  # log2 blocks
    blocks: int  # per member
    members: list = field(default_factory=list)  # disk index per slot
    starts: list = field(default_factory=list)
    size_blocks: int = 0
    number: int = 0
    block_size_field: int = 0xFFFF
    levels: tuple = ()  # recorded instead of those of the kind
    srl: int = 0  # striped (0) and spanned (3) mirrors are read alike
    after: bytes = b""  # what follows the end of the name
    per: int = 0  # members of each secondary element, if not those of the kind

    @property
    def sec(self):
        return len(self.members) // self.pec

    @property
    def pec(self):
        return self.per or {"raid10": 2, "raid10m": 3}.get(self.kind, len(self.members))


class DDFSet:
    def __init__(self, rng, ndisks, sector=512, base_id=1, like=None):
        self.rng = rng
        self.sector = sector
        # unit of everything counted in blocks, as opposed to the unit of the header's LBAs
        self.bs = rng.choice([sector, sector, sector, 512, 4096])
        self.pde_bs = rng.choice([0xFFFF, sector]) if self.bs == sector else self.bs
        self.seqno = rng.choice([1, 7, rng.getrandbits(32)])
        self.ctrl = rng.randbytes(24), rng.randbytes(8)
        self.pd_info = [(rng.getrandbits(16), rng.getrandbits(16), rng.choice([rng.randbytes(18), rng.randbytes(18), b"\xff" * 18, bytes(18)]))
                        for _ in range(ndisks)]
        self.header_guid = fresh_id(rng, 24, [like.header_guid] if like else [])
        # references count within their group only, but are kept apart to tell the groups
        taken = [r.to_bytes(4, "big") for r in like.refs] if like else []
        self.refs, self.guids = [], []
        while len(self.refs) < ndisks:
            ref = fresh_id(rng, 4, taken)
            if ref not in (bytes(4), b"\xff" * 4):
                taken.append(ref)
                self.refs.append(int.from_bytes(ref, "big"))
                self.guids.append(fresh_id(rng, 24, self.guids))
        self.alloc = [rng.choice([0, 0, rng.randint(0, 500)]) for _ in range(ndisks)]
        self.vds: list[VD] = []
        self.n = ndisks
        self.base_id = base_id
        self.disks: list[SparseDisk] = []
        self.where = {}  # places of the sections by disk and name

    def add_vd(self, kind, name, unicode, nmembers, strip, rows, extra_type=0):
        rng = self.rng
        members = rng.sample(range(self.n), nmembers)
        unit = 1 << strip
        blocks = rows * unit + (rng.randrange(unit) if kind in ("concat", "raid1", "raid1m") else 0)
        vd = VD(kind, fresh_id(rng, 24, [v.guid for v in self.vds]), name, unicode, strip, blocks, members)
        for m in members:
            self.alloc[m] += rng.choice([0, 0, rng.randint(0, 300)])
            vd.starts.append(self.alloc[m])
            self.alloc[m] += blocks
        n = nmembers
        level = KINDS[kind][2]
        vd.size_blocks = {
            -1: blocks * n, 0: blocks * n, 1: blocks, 4: blocks * (n - 1), 5: blocks * (n - 1), 6: blocks * (n - 2),
            10: rows * n // (3 if kind == "raid10m" else 2) * unit,
        }[level]
        vd.number = len(self.vds)
        vd.block_size_field = rng.choice([0xFFFF, self.bs])
        vd.timestamp = rng.choice([0, 0x2000, rng.getrandbits(32)])
        vd.seqno = rng.choice([1, 3, rng.getrandbits(32)])
        vd.lone_seq = rng.choice([0, 0, 0, 1, 0xFF])  # without meaning if there is no second level
        vd.rotate = rng.getrandbits(8)
        vd.state, vd.init = rng.getrandbits(8), rng.getrandbits(8)
        vd.number = rng.choice([vd.number, rng.getrandbits(16)])
        vd.extra_type = extra_type
        if level == 10:
            vd.srl = rng.choice([0, 0, 3])
        if rng.random() < 0.3:
            vd.after = b"\0" + rng.randbytes(16)
        self.vds.append(vd)
        return vd

    # -------------------------------------------------------------------------------------------
    def header(self, primary, secondary, htype, lay, mppe, rec_len):
        out = struct.pack(">II", 0xDE11DE11, 0xFFFFFFFF) + self.header_guid + b"02.00.00"
        out += struct.pack(">IIBBB", self.seqno, 0x12345, 0xFF, 0, 0) + b"\xff" * 13 + b"\xff" * 32
        out += struct.pack(">QQB", primary, secondary, htype) + b"\xff" * 3
        out += struct.pack(">IQHHHHHI", 0x8000, 0, 16, 16, 8, rec_len, mppe, 256) + b"\xff" * 50
        out += struct.pack(">16I", *lay)
        out += b"\xff" * 256
        assert len(out) == 512, len(out)
        return out

    def vdcr(self, vd, seq, mppe, signature=0xEEEEEEEE, shift=0):
        prl, rlq, _, _ = KINDS[vd.kind]
        prl, rlq, srl = vd.levels or (prl, rlq, vd.srl)
        pec, sec = vd.pec, vd.sec
        out = struct.pack(">II", signature, 0xFFFFFFFF) + vd.guid + struct.pack(">II", vd.timestamp, vd.seqno) + b"\xff" * 24
        out += struct.pack(">HBBBBBB", pec, vd.strip, prl, rlq, sec, seq if sec > 1 else vd.lone_seq, srl)
        out += struct.pack(">QQHB", vd.blocks, vd.size_blocks, vd.block_size_field, vd.rotate) + b"\xff" * 5
        out = out.ljust(512, b"\xff")
        idx = range(seq * pec, seq * pec + pec)
        refs = [self.refs[vd.members[i]] for i in idx] + [0xFFFFFFFF] * (mppe - pec)
        starts = [vd.starts[i] + shift for i in idx] + [0xFFFFFFFFFFFFFFFF] * (mppe - pec)
        return out + struct.pack(f">{mppe}I", *refs) + struct.pack(f">{mppe}Q", *starts)

    def build(self):
        rng, ss = self.rng, self.sector
        mppe = rng.choice([8, 16, 30])
        rec_len = max(1, -(-(512 + 12 * mppe) // ss)) + rng.choice([0, 0, 1])
        slots = rng.choice([4, 8, 12])
        for d in range(self.n):
            recs = []
            for vd in self.vds:
                if d in vd.members or rng.random() < 0.15:
                    if d in vd.members and rng.random() < 0.8:
                        seqs = [vd.members.index(d) // vd.pec]
                    else:
                        seqs = list(range(vd.sec))
                    recs += [self.vdcr(vd, s, mppe) for s in seqs]
            fillers = []
            for _ in range(rng.choice([0, 1, 2, 4])):
                fillers.append(rng.choice([b"\xff" * 512, bytes(512), struct.pack(">II", 0x88888888, 1) + rng.randbytes(504),
                                           struct.pack(">III", 0x55555555, 1, 1) + b"\xff" * 7 + b"\0" + struct.pack(">HH", 0, 4) + b"\xff" * 488]))
            for vd in self.vds:
                if d in vd.members and rng.random() < 0.2:
                    # a former record of the same virtual disk, no longer marked as one
                    fillers.append(self.vdcr(vd, vd.members.index(d) // vd.pec, mppe, rng.choice([0, 0xFFFFFFFF, 0x88888888, 0x55555555]), shift=rng.randint(1, 50)))
            allrecs = recs + fillers
            rng.shuffle(allrecs)
            nslots = max(slots, len(allrecs))
            # PDE / VDE tables, possibly with holes
            pdes = [self.pde(i) for i in range(self.n)]
            vdes = [self.vde(vd) for vd in self.vds]
            pde_max, vde_max = self.n + 4, len(self.vds) + 4
            pde_tab = self.holes(pdes, pde_max)
            vde_tab = self.holes(vdes, vde_max)
            pos = 1 + rng.randint(0, 2)
            sec = {}
            for name, size in [("ctrl", 512), ("pdr", 64 + 64 * pde_max), ("vdr", 64 + 64 * vde_max), ("cfg", nslots * rec_len * ss), ("pdd", 512)]:
                ln = -(-size // ss)
                sec[name] = (pos, ln)
                pos += ln + rng.choice([0, 0, 3])
            lay = [*sec["ctrl"], *sec["pdr"], *sec["vdr"], *sec["cfg"], *sec["pdd"]] + [0xFFFFFFFF, 0] * 3
            conf_end = self.configured[d]
            primary = -(-conf_end * self.bs // ss) + rng.randint(0, 20)
            secondary = rng.choice([0xFFFFFFFFFFFFFFFF, primary + pos + 2])
            total = primary + 2 * pos + 8 + 1
            disk = SparseDisk(self.base_id + d, total * ss)
            disk.write((total - 1) * ss, self.header(primary, secondary, 0, lay, mppe, rec_len))
            for lba, t in ((primary, 1), (secondary, 2)):
                if lba == 0xFFFFFFFFFFFFFFFF:
                    continue
                disk.write(lba * ss, self.header(primary, secondary, t, lay, mppe, rec_len))
                o = lambda name: (lba + sec[name][0]) * ss
                for name in sec:
                    self.where.setdefault((d, name), []).append(o(name))
                disk.write(o("ctrl"), (struct.pack(">II", 0xAD111111, 0) + b"".join(self.ctrl) + b"P" * 16).ljust(512, b"\xff"))
                disk.write(o("pdr"), struct.pack(">IIHH", 0x22222222, 0, self.n, pde_max) + b"\xff" * 52 + b"".join(pde_tab))
                disk.write(o("vdr"), struct.pack(">IIHH", 0xDDDDDDDD, 0, len(self.vds), vde_max) + b"\xff" * 52 + b"".join(vde_tab))
                for i in range(nslots):
                    rec = allrecs[i] if i < len(allrecs) else b"\xff" * 512
                    disk.write(o("cfg") + i * rec_len * ss, rec.ljust(rec_len * ss, b"\xff"))
                disk.write(o("pdd"), (struct.pack(">II", 0x33333333, 0) + self.guids[d] + struct.pack(">IBB", self.refs[d], 0, 0)).ljust(512, b"\xff"))
            self.disks.append(disk)
        return self.disks

    @property
    def configured(self):
        if not hasattr(self, "_conf"):
            self._conf = [a + self.rng.randint(0, 50) for a in self.alloc]
        return self._conf

    def pde(self, i):
        kind, state, path = self.pd_info[i]
        return self.guids[i] + struct.pack(">IHHQ", self.refs[i], kind, state, self.configured[i]) + path + \
            struct.pack(">H", self.pde_bs) + b"\xff" * 4

    def vde(self, vd):
        t = (4 if vd.unicode else 0) | vd.extra_type
        return vd.guid + struct.pack(">HHIBBB", vd.number, 0xFFFF, t, vd.state, vd.init, 0) + b"\xff" * 13 + (vd.name + vd.after)[:16].ljust(16, b"\0")

    def holes(self, entries, maximum):
        """Entries keep their order but unused entries (all 0xff) may lie between them."""
        out = list(entries)
        if self.rng.random() < 0.5:
            for _ in range(self.rng.randint(1, maximum - len(entries))):
                out.insert(self.rng.randint(0, len(out)), b"\xff" * 64)
        return out + [b"\xff" * 64] * (maximum - len(out))

    def model(self, vd: VD):
        ss = self.bs
        chunk = (1 << vd.strip) * ss
        size = vd.size_blocks * ss
        disks = [(self.disks[m], s * ss) for m, s in zip(vd.members, vd.starts)]
        level, layout = KINDS[vd.kind][2], KINDS[vd.kind][3]
        if level == -1:
            return Extents([(vd.blocks * ss, d, o) for d, o in disks])
        if level == 0:
            return ChunkMap(size, chunk, lambda no: (disks[no % len(disks)][0], disks[no % len(disks)][1] + no // len(disks) * chunk))
        if level == 1:
            return None
        if level == 10:
            return raid10_model(chunk, disks, layout & 0xFF, layout >> 8, False, size)
        return parity_model(level, layout, chunk, disks, size)


def nmembers(rng, kind, limit):
    lo, hi = {"concat": (1, 6), "raid0": (1, 6), "raid1": (2, 2), "raid1m": (3, 3), "raid1e": (3, 6), "raid4": (3, 6)}.get(kind, (0, 0))
    if kind.startswith("raid5"):
        lo, hi = 3, 7
    elif kind.startswith("raid6"):
        lo, hi = 4, 8
    elif kind == "raid10":
        return 2 * rng.randint(2, max(2, min(4, limit // 2)))
    elif kind == "raid10m":
        return 6
    return rng.randint(lo, max(lo, min(hi, limit)))


NAMES_ASCII = [b"vd", b"DataVolume", b"0123456789abcdef", b"a b-c_d", b"", b" lead", b"trail ", b"~!@#$%^&*()\t?"]
NAMES_UTF8 = ["värdé".encode(), "名前".encode(), "plain".encode(), "ñandú-7".encode(), "trailé ".encode(), "\ufeffbom".encode(), "e\u0301".encode()]


def random_set(rng, base_id=1, kinds=None, sector=None, rows=40, like=None):
    ndisks = rng.choice([1, *range(2, 9), *range(2, 9)])
    sector = sector or rng.choice([512, 512, 512, 4096])
    s = DDFSet(rng, ndisks, sector, base_id, like)
    usable = kinds or list(KINDS)
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        kind = rng.choice(usable)
        n = nmembers(rng, kind, ndisks)
        if n > ndisks:
            continue
        uni = rng.random() < 0.4
        name = rng.choice(NAMES_UTF8 if uni else NAMES_ASCII)
        strip = rng.randint(0, 7)
        s.add_vd(kind, name, uni, n, strip, rng.randint(1, rows), extra_type=rng.choice([0, 0, 1, 2, 8]))
    if not s.vds:
        s.add_vd("concat", b"vd", False, rng.randint(1, ndisks), 7, 5)
    s.build()
    # mirrors: same content on all members of the set
    for i, vd in enumerate(s.vds):
        if KINDS[vd.kind][2] == 1:
            c = SparseDisk(base_id + 60 + i, vd.blocks * s.bs)
            vd.content = c
            for m, st in zip(vd.members, vd.starts):
                s.disks[m].embed(st * s.bs, c)
    return s
