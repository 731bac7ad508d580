"""Linux MD device builder."""
from __future__ import annotations

import struct
from dataclasses import dataclass, field
from uuid import UUID

from vmon.content import SparseDisk
from vmon.raidmodel import Raid0Big, linear_model, parity_data_disks, parity_model, raid10_model, RAID5_LAYOUTS

SPARE, FAULTY, JOURNAL = 0xFFFF, 0xFFFE, 0xFFFD
MAGIC = 0xA92B4EFC


def sb1_sector(minor: int, dev_sectors: int) -> int:
    return {0: (dev_sectors - 16) & ~7, 1: 0, 2: 8}[minor]


def sb1(*, set_uuid, name: bytes, ctime, level, layout, size, chunk, raid_disks, data_offset, data_size, super_offset,
        dev_number, device_uuid, utime, events, roles, rng=None, feature_map=0):
    r = (lambda n: rng.getrandbits(n)) if rng else (lambda n: 0)
    out = struct.pack("<IIII", MAGIC, 1, feature_map, 0)
    out += set_uuid + name.ljust(32, b"\0")
    out += struct.pack("<QiIQIII", ctime, level, layout, size, chunk, raid_disks, r(16))
    out += struct.pack("<IQIIII", 0, 0, 0, 0, 0, 0)
    assert len(out) == 128
    out += struct.pack("<QQQQII", data_offset, data_size, super_offset, r(20), dev_number, r(8))
    out += device_uuid + struct.pack("<BBHi", 0, 9, 8, 16)
    assert len(out) == 192
    out += struct.pack("<QQQII", utime, events, r(40), r(32), len(roles)) + bytes(32)
    assert len(out) == 256
    return out + struct.pack(f"<{len(roles)}H", *roles)


def sb90(*, set_uuid, ctime, level, layout, size_kib, chunk, raid_disks, dev_number, utime, events, disks, minor=90):
    """disks: list of (number, raid_disk, state)."""
    w = [0] * 1024
    w[0:5] = [MAGIC, 0, minor, 3, 0]
    u = struct.unpack("<4I", set_uuid)
    w[5], w[6], w[7], w[8], w[9], w[10] = u[0], ctime, level & 0xFFFFFFFF, size_kib, len(disks), raid_disks
    w[13:16] = u[1:]
    w[32], w[33], w[34] = utime, 1, raid_disks
    w[39], w[40] = events & 0xFFFFFFFF, events >> 32
    w[64], w[65] = layout, chunk
    for number, raid_disk, state in disks:
        w[128 + 32 * number : 128 + 32 * number + 5] = [number, 8, number * 16, raid_disk, state]
        if number == dev_number:
            w[992:997] = [number, 8, number * 16, raid_disk, state]
    return struct.pack("<1024I", *w)


@dataclass
class MDArray:
    """Description of one array; build() creates the member devices and the content model."""

    version: str  # "0.90", "1.0", "1.1", "1.2"
    level: int
    n: int
    chunk: int = 65536
    layout: int = 0
    component: int = 0  # used sectors per member (1,4,5,6,10)
    member_sectors: list = field(default_factory=list)  # per member data sectors available
    set_uuid: bytes = b""
    name: bytes = b""
    ctime: int = 0
    utime: int = 0
    events: int = 10
    data_offsets: list = field(default_factory=list)
    base_id: int = 1

    @property
    def near(self):
        return self.layout & 0xFF

    @property
    def far(self):
        return self.layout >> 8 & 0xFF

    def true_size(self) -> int:
        c = self.component * 512
        if self.level == -1:
            return sum(self.contrib(i) for i in range(self.n))
        if self.level == 0:
            return sum(self.member_sectors[i] * 512 // self.chunk * self.chunk for i in range(self.n))
        if self.level == 1:
            return c
        if self.level in (4, 5, 6):
            return c // self.chunk * self.chunk * parity_data_disks(self.level, self.n)
        rows = c // self.chunk
        return rows // self.far * self.n // self.near * self.chunk

    def contrib(self, i):
        s = self.member_sectors[i] * 512
        return s // self.chunk * self.chunk if self.chunk else s

    def model_for(self, disks):
        """disks: per slot (SparseDisk, data offset in bytes)"""
        if self.level == -1:
            return linear_model([(d, o, self.contrib(i)) for i, (d, o) in enumerate(disks)])
        if self.level == 0:
            return Raid0Big(self.chunk, [(d, o, self.member_sectors[i] * 512) for i, (d, o) in enumerate(disks)], orig=self.layout == 1)
        if self.level in (4, 5, 6):
            return parity_model(self.level, self.layout, self.chunk, disks, self.true_size())
        if self.level == 10:
            return raid10_model(self.chunk, disks, self.near, self.far, bool(self.layout & 1 << 16), self.true_size())
        raise ValueError(self.level)


def seconds(rng, wide):
    """Seconds since the epoch; 40 bits in version 1 superblocks, kept to the years a date can express."""
    return rng.randint(1, 253402300000 if wide and rng.random() < 0.4 else 1 << 31)


def random_array(rng, version=None, level=None, big=False, base_id=1, rows=None, chunk=None) -> MDArray:
    version = version or rng.choice(["0.90", "1.0", "1.1", "1.2", "1.2"])
    level = rng.choice([-1, 0, 1, 4, 5, 6, 10]) if level is None else level
    chunk_pool = [4096, 8192, 65536, 65536, 524288]
    if level in (0, -1):
        chunk_pool += [12288, 5 * 4096, 3 * 65536]
    chunk = chunk or rng.choice(chunk_pool)
    if level == 1:
        chunk = rng.choice([0, 65536])
    n = {-1: rng.randint(1, 6), 0: rng.randint(1, 6), 1: rng.randint(1, 5), 4: rng.randint(3, 6), 5: rng.randint(3, 8),
         6: rng.randint(4, 8), 10: rng.randint(2, 6)}[level]
    layout = 0
    if level == 5:
        layout = rng.choice(RAID5_LAYOUTS)
    elif level == 6:
        layout = rng.choice([0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20])
    elif level == 10:
        near = rng.randint(1, min(3, n))
        far = rng.randint(1, 3)
        while near * far > n:
            near, far = rng.randint(1, min(3, n)), rng.randint(1, 3)
        layout = near | far << 8 | (rng.choice([0, 1 << 16]) if far > 1 else 0)
    unit = max(chunk, 4096) // 512
    rows = rows or (rng.randint(1, rng.choice([1 << 20, (1 << (32 if version == "0.90" else 36)) // unit])) if big else rng.choice([rng.randint(1, 60), 2 * n * n]))
    component = rows * unit
    if level == 10 and (layout >> 8 & 0xFF) > 1:
        component = rows * (layout >> 8 & 0xFF) * unit
    a = MDArray(version, level, n, chunk, layout, component, base_id=base_id)
    if level == 1:
        a.component = component = component + rng.randrange(0, 8) * 2
    for i in range(n):
        if level in (-1, 0):
            s = rng.choice([component, component, component + rng.randint(0, 5) * unit]) + rng.choice([0, 0, rng.randint(0, unit)])
        else:
            s = component + rng.choice([0, 0, 8, rng.randint(0, 200)])
        a.member_sectors.append(s)
    if level == 0 and len({s * 512 // chunk for s in a.member_sectors}) > 1:
        a.layout = rng.choice([1, 2])
    elif level == 0:
        a.layout = rng.choice([0, 1, 2])
    a.set_uuid = rng.randbytes(16)
    a.name = rng.choice([b"host:%d" % rng.randint(0, 200), b"x" * 32, b"", "höst:datä".encode(), b"any:name with space", b"h\xf6st:\xff", "höst".encode()[:2]])
    us = version != "0.90"
    a.ctime = seconds(rng, us) | (rng.randrange(1000000) << 40 if us and rng.random() < 0.5 else 0)
    a.utime = seconds(rng, us) | (rng.randrange(1000000) << 40 if us and rng.random() < 0.5 else 0)
    a.events = rng.choice([rng.randint(2, 1000), rng.randint(1 << 33, 1 << 40)])
    if version in ("0.90", "1.0"):
        a.data_offsets = [0] * n
    else:
        base = rng.choice([16, 128, 2048, 8192, 262144])
        a.data_offsets = [base if rng.random() < 0.7 else base + rng.randint(0, 100) * 8 for _ in range(n)]
    return a


def build_device(rng, a: MDArray, disk_id: int, *, data_sectors: int, data_offset: int, dev_number: int, role: int, roles: list,
                 events: int | None = None, utime: int | None = None, device_uuid: bytes | None = None, array=None):
    """Returns (SparseDisk, info). `roles` maps device number -> role for all devices known to the array."""
    p = array or a
    events = a.events if events is None else events
    utime = a.utime if utime is None else utime
    device_uuid = device_uuid or rng.randbytes(16)
    info = dict(dev_number=dev_number, role=role, events=events, utime=utime, device_uuid=device_uuid,
                data_offset=data_offset, data_size=data_sectors)
    if a.version == "0.90":
        # superblock occupies the last full 64 KiB block; the data before it is the member
        # data_sectors must end where the superblock starts
        sb_sector = (data_sectors + 127) & ~127
        dev_sectors = sb_sector + 128 + rng.randrange(0, 128)
        disk = SparseDisk(disk_id, dev_sectors * 512 + rng.choice([0, 0, rng.randrange(512)]))
        descs = []
        for num, r in enumerate(roles):
            if r in (SPARE, JOURNAL):
                descs.append((num, num, rng.choice([0, 0, 2])))  # a device being rebuilt is active, but not in sync
            elif r == FAULTY:
                descs.append((num, num, 1))
            else:
                descs.append((num, r, 6))
        disk.write(sb_sector * 512, sb90(set_uuid=a.set_uuid, ctime=a.ctime & 0xFFFFFFFF, level=p.level, layout=p.layout,
                                         size_kib=p.component // 2, chunk=p.chunk, raid_disks=p.n, dev_number=dev_number,
                                         utime=utime & 0xFFFFFFFF, events=events, disks=descs))
        info.update(data_offset=0, data_size=sb_sector)
        return disk, info
    minor = int(a.version[2])
    if minor == 0:
        need = data_sectors + rng.choice([0, 0, 8, 64, 2048])
        # superblock sector s = (dev - 16) & ~7 must be >= need
        dev_sectors = ((need + 7) & ~7) + 16 + rng.randrange(0, 8)
        sb = sb1_sector(0, dev_sectors)
        assert sb >= data_sectors
    else:
        dev_sectors = data_offset + data_sectors + rng.choice([0, 0, 1, 7, 8, 1000])
        sb = sb1_sector(minor, dev_sectors)
    disk = SparseDisk(disk_id, dev_sectors * 512 + rng.choice([0, 0, rng.randrange(512)]))
    disk.write(sb * 512, sb1(set_uuid=a.set_uuid, name=a.name, ctime=a.ctime, level=p.level, layout=p.layout,
                             size=0 if p.level in (-1, 0) else p.component, chunk=p.chunk // 512, raid_disks=p.n,
                             data_offset=data_offset, data_size=data_sectors, super_offset=sb, dev_number=dev_number,
                             device_uuid=device_uuid, utime=utime, events=events, roles=roles, rng=rng))
    return disk, info


def build_members(rng, a: MDArray, extra_roles=(), permute_numbers=None, max_dev=None):
    """Builds the n data members. Returns (list of (disk, info) by slot, roles table, model or None for RAID1).

    For RAID1 all members embed the same content.
    """
    total = a.n + len(extra_roles)
    numbers = list(range(total))
    if permute_numbers if permute_numbers is not None else rng.random() < 0.4:
        rng.shuffle(numbers)
    if a.version == "0.90" :
        numbers = list(range(a.n)) + list(range(a.n, total))
    size = total if max_dev is None else max(max_dev, total)
    if max_dev is None:
        size = rng.choice([total, total + 3, 128, 384]) if a.version != "0.90" else total
    roles = [FAULTY if a.version != "0.90" else SPARE] * size
    for slot in range(a.n):
        roles[numbers[slot]] = slot
    for j, r in enumerate(extra_roles):
        roles[numbers[a.n + j]] = r
    content = SparseDisk(a.base_id + 50, max(1, a.component * 512)) if a.level == 1 else None
    members = []
    for slot in range(a.n):
        if a.version == "0.90":
            # the member ends at the superblock, i.e. at a 64 KiB boundary
            a.member_sectors[slot] = (a.member_sectors[slot] + 127) & ~127
        disk, info = build_device(rng, a, a.base_id + slot, data_sectors=a.member_sectors[slot], data_offset=a.data_offsets[slot],
                                  dev_number=numbers[slot], role=slot, roles=roles)
        if content is not None:
            disk.embed(info["data_offset"] * 512, content)
        members.append((disk, info))
    return members, roles, numbers, content


def array_model(a, members, content):
    if a.level == 1:
        return content
    return a.model_for([(d, i["data_offset"] * 512) for d, i in members])


def uuid_of(raw: bytes) -> UUID:
    return UUID(bytes_le=raw)
