"""LVM2 physical volumes: text format writer, metadata areas, allocation and content models."""
from __future__ import annotations

import string
import struct
import zlib

from vmon.content import ChunkMap, Extents, SparseDisk

ALNUM = string.ascii_letters + string.digits
MDA_MAGIC = b" LVM2 x[5A%r0N*>"


def new_uuid(rng, others=()) -> str:
    s = rng.choices(ALNUM, k=32)
    if others and rng.random() < 0.5:
        # one character off another one
        s = list(rng.choice(others).replace("-", ""))
        at = rng.randrange(32)
        s[at] = rng.choice([c for c in ALNUM if c != s[at]])
        if rng.random() < 0.2:
            s = "".join(rng.choice([rng.choice(others), "".join(s)])).replace("-", "").swapcase()
    s = "".join(s)
    return "-".join([s[:6], s[6:10], s[10:14], s[14:18], s[18:22], s[22:26], s[26:]])


# text --------------------------------------------------------------------------------------------------
def quote(s: str) -> str:
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def scalar(v) -> str:
    return quote(v) if isinstance(v, str) else repr(v)


COMMENTS = ["# comment", "# 4 Megabytes", "#", "# a = 1", "#x{", "# }", "# [", "# it's", "#\t", "# linear", "# 'q' ]"]
QUOTED = ['# say "hi"', '# "']


def write_text(rng, tree: dict, style: str) -> str:
    """style 'lvm' is what the tools write, 'free' uses the freedom of the grammar."""
    out = []
    free = style == "free"

    def tail(quoted=False):
        if free:
            r = rng.random()
            if r < 0.12:
                return rng.choice([" ", "\t", "\t\t"])
            if r < 0.3:
                return rng.choice(["\t", " ", "\t\t", ""]) + rng.choice(COMMENTS + (QUOTED if quoted else []))
        elif rng.random() < 0.1:
            return "\t\t" + rng.choice(["# 4 Megabytes", "# linear", "# 2020-03-03 11:12:13 +0100", "# Gigabytes"])
        return ""

    def between(depth):
        if free and rng.random() < 0.15:
            out.append(rng.choice(["", "", "\t", "# comment", "#", '# with "quotes"', "  # x = 1", "#}", "# {", "# ["]))

    def emit(d, depth):
        ind = "\t" * depth if not free else rng.choice(["\t" * depth, "  " * depth, ""])
        for k, v in d.items():
            between(depth)
            if isinstance(v, dict):
                if not free and depth:
                    out.append("")
                out.append(f"{ind}{k} {{" + (tail() if free else ""))
                emit(v, depth + 1)
                out.append(f"{ind}}}" + (tail() if free else ""))
            elif isinstance(v, list):
                eq = " = " if not free or rng.random() < 0.7 else rng.choice(["=", "  =", "= ", "\t=\t"])
                if v and (len(v) > 2 and not free and not isinstance(v[0], str) or k in ("stripes", "mirrors", "raids", "raid0_lvs") or free and rng.random() < 0.4):
                    first = ""
                    items = list(v)
                    if free and rng.random() < 0.3 and len(items) > 1:
                        first = rng.choice(["", " "]) + scalar(items.pop(0)) + ","
                    out.append(f"{ind}{k}{eq}[{first}" + (tail() if free else ""))
                    while items:
                        n = rng.choice([1, 2, 2, 2, 4])
                        part, items = items[:n], items[n:]
                        out.append(ind + ", ".join(scalar(x) for x in part) + ("," if items else "") + (tail(True) if free else ""))
                        if free and rng.random() < 0.1:
                            out.append(rng.choice(["", "\t", "# in list", '# "in" list', "#"]))
                    if free and rng.random() < 0.25 and not out[-1].strip().startswith("#") and "#" not in out[-1]:
                        # closed on the line of its last element
                        out[-1] = out[-1].rstrip() + rng.choice(["", " "]) + "]" + tail()
                        continue
                    out.append(ind + "]" + (tail() if free else ""))
                else:
                    pad = rng.choice(["", " "]) if free else ""
                    out.append(f"{ind}{k}{eq}[{pad}" + ", ".join(scalar(x) for x in v) + f"{pad}]" + (tail() if free else ""))
            else:
                eq = " = " if not free or rng.random() < 0.7 else rng.choice(["=", "  =", "= ", "\t=\t"])
                out.append(f"{ind}{k}{eq}{scalar(v)}" + tail(free))

    vg = {k: v for k, v in tree.items() if isinstance(v, dict)}
    rest = {k: v for k, v in tree.items() if not isinstance(v, dict)}
    if not free or rng.random() < 0.5:
        emit(vg, 0)
        out.append("# Generated by LVM2 version 2.02.176(2) (2017-11-03): Tue Mar  3 11:12:13 2020")
        out.append("")
        emit(rest, 0)
    else:
        emit(tree, 0)
    out.append("")
    return "\n".join(out)


STRINGS = ["", "plain", "with space", 'quo"ted', "back\\slash", "end\\", '\\"', "hash # inside", "brace {", "} brace", "[x]", "]", "a = b",
           "Created *after* executing 'vgcreate vg /dev/sda'", "ünïcödé", "名", "\\n", "tab\there", "# start", "x{", '"', "=", "\\x41"]


def random_string(rng) -> str:
    s = rng.choice(STRINGS)
    if rng.random() < 0.3:
        s += rng.choice(STRINGS)
    return s


def random_value(rng):
    r = rng.random()
    if r < 0.35:
        return random_string(rng)
    if r < 0.65:
        return rng.choice([0, 1, -1, 8192, 1 << 40, (1 << 64) - 1, rng.randint(0, 1 << 32)])
    if r < 0.7:
        return rng.choice([0.5, 1.25, -3.0])
    if r < 0.85:
        return [random_string(rng) for _ in range(rng.choice([0, 1, 2, 5]))]
    return [rng.choice([random_string(rng), rng.randint(0, 1 << 40)]) for _ in range(rng.choice([1, 2, 6]))]


# volume group ------------------------------------------------------------------------------------------
class PV:
    def __init__(self, rng, idx, count, extent, base_id):
        self.name = f"pv{idx}"
        self.uuid = new_uuid(rng)
        self.count = count
        self.free = list(range(count))
        self.pe_start = rng.choice([2048, 384, 128, 2048 * rng.randint(1, 4), rng.randint(100, 5000)])  # sectors
        self.disk_id = base_id + idx
        self.extent = extent
        self.disk = SparseDisk(self.disk_id, (self.pe_start * 512 + count * extent) + rng.choice([0, 512, 4096, extent]))
        self.header_size = None  # as recorded on the device itself, when it differs
        self.described = True  # with its size in the volume group's description

    def at(self, pe):
        return self.pe_start * 512 + pe * self.extent


class VG:
    def __init__(self, rng, name="vg0", npv=None, extent_sectors=None, pe=None, base_id=1):
        self.rng = rng
        self.name = name
        self.uuid = new_uuid(rng)
        self.extent_sectors = extent_sectors or rng.choice([2, 8, 8, 16, 128, 2048, 8192])
        self.extent = self.extent_sectors * 512
        self.seqno = rng.randint(1, 1000)
        self.pvs = [PV(rng, i, pe or rng.randint(10, 60), self.extent, base_id) for i in range(npv or rng.randint(1, 5))]
        for i, p in enumerate(self.pvs[1:], 1):
            near = new_uuid(rng, [q.uuid for q in self.pvs[:i]])
            if near not in [q.uuid for q in self.pvs]:
                p.uuid = near
        self.lvs: dict[str, dict] = {}
        self.models = {}
        self.needs = {}
        self.extra = {}

    def take(self, n, contiguous=True, pv=None):
        """n extents on one physical volume -> (pv, first) or None."""
        rng = self.rng
        pvs = [pv] if pv else rng.sample(self.pvs, len(self.pvs))
        for p in pvs:
            runs = []
            free = set(p.free)
            for s in p.free:
                if all(s + i in free for i in range(n)):
                    runs.append(s)
            if runs:
                s = rng.choice(runs)
                for i in range(n):
                    p.free.remove(s + i)
                return p, s
        return None

    def stripe_segment(self, start, count, stripes, kind="striped"):
        """One segment of count extents over the given number of stripes; None when it does not fit."""
        rng = self.rng
        per = count // stripes
        got = []
        for _ in range(stripes):
            g = self.take(per)
            if g is None:
                for p, s in got:
                    p.free += range(s, s + per)
                    p.free.sort()
                return None
            got.append(g)
        seg = {"start_extent": start, "extent_count": count, "type": kind, "stripe_count": stripes}
        if stripes > 1:
            sizes = [s for s in (1, 2, 8, 16, 64, 128, 256, 2048) if s <= self.extent_sectors]
            seg["stripe_size"] = rng.choice(sizes)
        seg["stripes"] = [x for p, s in got for x in (p.name, s)]
        if stripes == 1:
            p, s = got[0]
            model = Extents([(count * self.extent, p.disk, p.at(s))])
        else:
            ss = seg["stripe_size"] * 512
            model = ChunkMap(count * self.extent, ss, lambda no: (got[no % stripes][0].disk, got[no % stripes][0].at(got[no % stripes][1]) + no // stripes * ss))
        return seg, model, {p.name for p, _ in got}

    def add_lv(self, name, segs, visible=True, shuffle=True, extra=None):
        rng = self.rng
        lv = {"id": new_uuid(rng), "status": ["READ", "WRITE"] + (["VISIBLE"] if visible else []), "flags": [],
              "creation_time": 1583232000 + rng.randint(0, 1 << 26), "creation_host": "host"}
        if rng.random() < 0.3:
            del lv["creation_time"], lv["creation_host"]
        if extra:
            lv.update(extra)
        lv["segment_count"] = len(segs)
        if rng.random() < 0.15:
            # the text need not follow the order of the extents
            segs = rng.sample(segs, len(segs))
        if rng.random() < 0.1:
            # flags that keep older versions from using the volume
            for s in segs:
                s["type"] += "" if "+" in s["type"] else rng.choice(["+FLAG", "+SOME_FLAG+OTHER"])
        for i, s in enumerate(segs):
            lv[f"segment{i + 1}"] = s
        self.lvs[name] = lv
        return lv

    def plain_lv(self, name, nseg=None, max_stripes=5, visible=True, length=None, max_extents=10):
        """Linear and striped segments."""
        rng = self.rng
        segs, models, needs = [], [], set()
        start = 0
        todo = length
        for _ in range(nseg or rng.choice([1, 1, 2, 3, 6])):
            if length is not None:
                count, stripes = (todo if len(segs) + 1 == nseg else rng.randint(1, max(1, todo - 1))), 1
                if todo <= 0:
                    break
            else:
                stripes = rng.choice([1, 1, 2, 3, 5])
                stripes = min(stripes, max_stripes)
                count = stripes * rng.randint(1, max(1, max_extents // stripes))
            got = self.stripe_segment(start, count, stripes, "linear" if stripes == 1 and rng.random() < 0.1 else "striped")
            if got is None:
                continue
            seg, model, need = got
            segs.append(seg)
            models.append(model)
            needs |= need
            start += count
            if length is not None:
                todo -= count
        if length is not None and todo > 0:
            got = self.stripe_segment(start, todo, 1)
            if got is None:
                return None
            segs.append(got[0])
            models.append(got[1])
            needs |= got[2]
        if not segs:
            return None
        self.add_lv(name, segs, visible)
        self.models[name] = Extents([(m.size, m, 0) for m in models])
        self.needs[name] = [needs]
        return self.models[name]

    def mirror_lv(self, name, copies=2, extents=None, nseg=None):
        rng = self.rng
        total = extents or rng.randint(1, 8)
        images = []
        for i in range(copies):
            img = f"{name}_mimage_{i}" if rng.random() < 0.7 else f"{name}_{rng.choice('zyxabc')}{i}"
            # the mirror may use a part of the image only
            shift = rng.choice([0, 0, 0, rng.randint(1, 4)])
            m = self.plain_lv(img, nseg=rng.choice([1, 1, 2, 3]), visible=False, length=total + shift)
            if m is None:
                return None
            images.append((img, shift))
        size = total * self.extent
        master = Extents([(size, self.models[images[0][0]], images[0][1] * self.extent)])
        for img, shift in images[1:]:
            # same bytes in the extents of the other copies
            for seg in self.lvs[img].values():
                if isinstance(seg, dict):
                    pos = seg["start_extent"] * self.extent
                    pv = next(p for p in self.pvs if p.name == seg["stripes"][0])
                    first = max(pos, shift * self.extent)
                    n = pos + seg["extent_count"] * self.extent - first
                    if n > 0:
                        pv.disk.embed(pv.at(seg["stripes"][1]) + first - pos, master, n, first - shift * self.extent)
        listed = list(images)
        if rng.random() < 0.1:
            # a copy that is not described any more
            listed.insert(rng.randint(0, copies), (f"{name}_gone", 0))
        segs = []
        start = 0
        n = nseg or rng.choice([1, 1, 2, 3])
        for i in range(n):
            count = total - start if i == n - 1 else rng.randint(0, total - start)
            if count:
                segs.append({"start_extent": start, "extent_count": count, "type": "mirror", "mirror_count": len(listed),
                             "mirrors": [x for img, shift in listed for x in (img, start + shift)]})
                if rng.random() < 0.5:
                    segs[-1]["region_size"] = 1024
                start += count
        self.add_lv(name, segs)
        self.models[name] = master
        self.needs[name] = [s for img, _ in images for s in self.needs[img]]
        return master

    # metadata ----------------------------------------------------------------------------------------
    def tree(self, seqno=None, **top):
        rng = self.rng
        pvs = {}
        for p in self.pvs:
            pvs[p.name] = {"id": p.uuid, "device": f"/dev/sd{p.name}", "status": ["ALLOCATABLE"], "flags": [],
                           **({"dev_size": p.disk.size // 512} if p.described else {}), "pe_start": p.pe_start, "pe_count": p.count}
        vg = {"id": self.uuid, "seqno": self.seqno if seqno is None else seqno, "format": "lvm2", "status": ["RESIZEABLE", "READ", "WRITE"],
              "flags": [], "extent_size": self.extent_sectors, "max_lv": 0, "max_pv": 0, "metadata_copies": 0}
        vg.update(self.extra)
        vg["physical_volumes"] = pvs
        if self.lvs:
            vg["logical_volumes"] = self.lvs
        t = {self.name: vg, "contents": "Text Format Volume Group", "version": 1, "description": "", "creation_host": "host",
             "creation_time": rng.choice([1583232000 + rng.randint(-100000, 100000)] * 7 + [rng.randint(1 << 31, 1 << 33)])}
        t.update(top)
        return t

    def write_device(self, p: PV, text: bytes | None, label_sector=1, areas=1, ignored=False, ring=None, header_offset=32, clear=True):
        """Label, header and metadata area(s) of one physical volume."""
        rng = self.rng
        d = p.disk
        start = 4096
        size = p.pe_start * 512 - start
        for s in range(4):
            d.write(s * 512, bytes(512))
        mdas = []
        if areas:
            mdas.append((start, size))
        locn = b""
        for o, n in mdas:
            locn += struct.pack("<QQ", o, n)
        pvh = p.uuid.replace("-", "").encode() + struct.pack("<Q", d.size if p.header_size is None else p.header_size)
        pvh += struct.pack("<QQQQ", p.pe_start * 512, 0, 0, 0)
        pvh += locn + bytes(16) + struct.pack("<II", 2, 1) + bytes(16)
        lab = b"LABELONE" + struct.pack("<QII", label_sector, 0, header_offset) + b"LVM2 001"
        sector = (lab.ljust(header_offset, b"\0") + pvh).ljust(512, b"\0")
        assert len(sector) == 512
        d.write(label_sector * 512, sector)
        for o, n in mdas:
            head = MDA_MAGIC + struct.pack("<IQQ", 1, o, n)
            if text is None:
                raw = struct.pack("<QQII", 0, 0, 0, 1) if ignored else b""
            else:
                blob = text + b"\0"
                room = n - 512
                assert len(blob) <= room, (len(blob), room)
                if ring is None:
                    pos = rng.randrange(0, room - len(blob) + 1, 512)
                else:
                    pos = ring(room, len(blob))
                raw = struct.pack("<QQII", 512 + pos, len(blob), zlib.crc32(blob), 0)
                first = blob[: room - pos]
                d.write(o + 512 + pos, first)
                if len(blob) > len(first):
                    d.write(o + 512, blob[len(first):])
            body = (head + raw).ljust(508, b"\0")
            d.write(o, struct.pack("<I", zlib.crc32(body)) + body)
        return d

    def build(self, style="lvm", copies=None):
        """Write the same description to all (or the first ``copies``) physical volumes."""
        text = write_text(self.rng, self.tree(), style).encode()
        need = len(text) + 1 + 512 + 4096
        for i, p in enumerate(self.pvs):
            self.grow(p, need)
        for i, p in enumerate(self.pvs):
            self.write_device(p, text if copies is None or i < copies else None)
        return text

    def grow(self, p, need):
        assert p.pe_start * 512 >= need, "metadata area too small"


UNSUPPORTED = [
    {"type": "snapshot", "chunk_size": 16, "origin": "o", "cow_store": "c"},
    {"type": "raid1", "device_count": 2, "region_size": 4096, "raids": ["a_rmeta_0", "a_rimage_0", "a_rmeta_1", "a_rimage_1"]},
    {"type": "raid5", "device_count": 3, "region_size": 4096, "stripe_size": 128, "raids": ["a_rmeta_0", "a_rimage_0"]},
    {"type": "raid10", "device_count": 4, "data_copies": 2, "region_size": 4096, "stripe_size": 128, "raids": ["a_rmeta_0", "a_rimage_0"]},
    {"type": "raid0", "stripe_count": 2, "stripe_size": 128, "raid0_lvs": ["a_rimage_0", "a_rimage_1"]},
    {"type": "raid6", "device_count": 5, "region_size": 1024, "stripe_size": 64, "writebehind": 1, "min_recovery_rate": 1, "max_recovery_rate": 2, "raids": ["a", "b"]},
    {"type": "cache", "cache_pool": "cp", "origin": "o", "policy_settings": {"migration_threshold": 2048}},
    {"type": "cache", "cache_pool": "cv", "origin": "o", "metadata_format": 2, "chunk_size": 128, "cache_mode": "writethrough", "policy": "smq",
     "metadata_start": 0, "metadata_len": 8, "data_start": 8, "data_len": 100},
    {"type": "cache-pool", "data": "d", "metadata": "m", "metadata_format": 2, "chunk_size": 128, "cache_mode": "writethrough", "policy": "smq"},
    {"type": "writecache", "origin": "o", "writecache": "w", "writecache_block_size": 4096},
    {"type": "integrity", "origin": "o", "data_sectors": 8192, "mode": "J", "tag_size": 4, "block_size": 512, "internal_hash": "crc32c"},
    {"type": "error"}, {"type": "zero"}, {"type": "vdo", "vdo_pool": "vp", "vdo_offset": 0},
    {"type": "vdo-pool", "data": "d", "header_size": 1024, "virtual_extents": 10, "use_compression": 1, "use_deduplication": 1, "minimum_io_size": 8,
     "block_map_cache_size_mb": 128, "block_map_era_length": 16380, "index_memory_size_mb": 256, "max_discard": 1, "slab_size_mb": 2048,
     "ack_threads": 1, "bio_threads": 4, "bio_rotation": 64, "cpu_threads": 2, "hash_zone_threads": 1, "logical_threads": 1, "physical_threads": 1},
    {"type": "thin-pool", "metadata": "gone_tmeta", "pool": "gone_tdata", "transaction_id": 1, "chunk_size": 128, "discards": "passdown", "zero_new_blocks": 1},
    {"type": "thin", "thin_pool": "gone", "transaction_id": 0, "device_id": 1},
    {"type": "some-future-kind", "blah": ["x"]},
    {"type": "mirror+CMIRROR", "mirror_count": 2, "mirrors": ["gone_mimage_0", 0, "gone_mimage_1", 0]},
]
