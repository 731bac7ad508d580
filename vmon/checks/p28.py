"""Records of the Windows Logical Disk Manager database."""
import io
import struct

CASES = {"quick": 12000, "thorough": 120000}
RULE = "distinct (structure, lengths of the variable fields class, entry point, cut) decoded"
MINIMUM = {"comparisons": 40000, "decoded": 5000, "expected_errors": 500}

U8, U16, U32, U64 = "B", ">H", ">I", ">Q"
VAR = "var"  # a length byte and that many bytes

HEAD = [("update_status", U16), ("record_type", U16), ("data_length", U32), ("object_id", VAR), ("name", VAR)]
REGION = [("name", 8), ("flags", U16), ("offset", U64), ("size", U64), ("unk", U16), ("copy_number", U16), ("zeroes", 4)]

# Offsets as in the Linux kernel's reader (block/partitions/ldm.c)
STRUCTS = {
    "PRIVHEAD": [("magic", 8), ("checksum", U32), ("version_major", U16), ("version_minor", U16), ("last_update", U64),
                 ("update_sequence_number", U64), ("primary_private_header_offset", U64), ("secondary_private_header_offset", U64),
                 ("disk_id", 64), ("host_id", 64), ("disk_group_id", 64), ("disk_group_name", 31), ("sector_size", U32), ("flags", U32),
                 ("public_region_slice_number", U16), ("private_region_slice_number", U16), ("public_region_offset", U64),
                 ("public_region_size", U64), (None, 97)],
    "TOCBLOCK": [("magic", 8), ("sequence_number1", U32), ("zeroes1", 4), ("sequence_number2", U32), ("zeroes2", 16), ("config", REGION),
                 ("log", REGION)],
    "VMDB": [("magic", 4), ("last_vblk_sequence", U32), ("vblk_size", U32), ("first_vblk", U32), ("update_status", U16),
             ("version_major", U16), ("version_minor", U16), ("disk_group_name", 31), ("disk_group_guid", 64), ("commit_sequence", U64),
             ("pending_sequence", U64), ("num_committed_volume_vblk", U32), ("num_committed_component_vblk", U32),
             ("num_committed_partition_vblk", U32), ("num_committed_disk_vblk", U32), (None, 12), ("num_pending_volume_vblk", U32),
             ("num_pending_component_vblk", U32), ("num_pending_partition_vblk", U32), ("num_pending_disk_vblk", U32), (None, 12),
             ("last_access_time", U64)],
    "VBLK_HEADER": [("magic", 4), ("sequence_number", U32), ("group_number", U32), ("record_number", U16), ("num_records", U16)],
    "VBLK_COMPONENT": [*HEAD, ("volume_state", VAR), ("component_type", U8), (None, 4), ("num_children", VAR), ("log_commit_id", U64),
                       (None, 8), ("parent_id", VAR), (None, 1), ("strip_size", VAR), ("num_columns", VAR)],
    "VBLK_PARTITION": [*HEAD, (None, 4), ("log_commit_id", U64), ("start", U64), ("volume_offset", U64), ("size", VAR), ("parent_id", VAR),
                       ("disk_object_id", VAR), ("component_part_index", VAR)],
    "VBLK_DISK3": [*HEAD, ("disk_id", VAR), ("alternate_name", VAR), (None, 4), ("log_commit_id", U64)],
    "VBLK_DISK4": [*HEAD, ("disk_id1", 16), ("disk_id2", 16), (None, 3), ("id", U16), ("log_commit_id", U64)],
    "VBLK_DISK_GROUP3": [*HEAD, ("disk_group_id", VAR), (None, 4), ("log_commit_id", U64)],
    "VBLK_DISK_GROUP4": [*HEAD, ("disk_group_id", 16), ("disk_set_id", 16), (None, 4), ("log_commit_id", U64)],
}
MAGIC = {"PRIVHEAD": b"PRIVHEAD", "TOCBLOCK": b"TOCBLOCK", "VMDB": b"VMDB", "VBLK_HEADER": b"VBLK"}
TYPES = {"VBLK_COMPONENT": 0x32, "VBLK_PARTITION": 0x33, "VBLK_DISK3": 0x34, "VBLK_DISK_GROUP3": 0x35, "VBLK_DISK4": 0x44,
         "VBLK_DISK_GROUP4": 0x45}
ENUMS = {
    "VBLK_RECORD_TYPE": dict(COMPONENT=0x32, PARTITION=0x33, DISK3=0x34, DISK_GROUP3=0x35, DISK4=0x44, DISK_GROUP4=0x45, VOLUME=0x51),
    "VMDB_STATE": dict(CONSISTENT=1, CREATION=2, DELETION=3),
    "VBLK_STATE": dict(CONSISTENT=1, DELETION=2, INACTIVE=3),
    "TOCREGION_FLAGS": dict(NOT_EXIST=1, NEW=2, DELETE=4, DISABLED=8),
}


def generate(rng, name, fields, values, path=""):
    out = b""
    for field, kind in fields:
        if isinstance(kind, list):
            out += generate(rng, None, kind, values, f"{field}.")
            continue
        if kind == VAR:
            value = rng.randbytes(rng.choice([0, 1, 1, 2, 4, 8, rng.randint(0, 40), rng.choice([127, 128, 255])]))
            out += bytes([len(value)]) + value
            values[f"{path}{field}_len"] = len(value)
        elif isinstance(kind, int):
            value = rng.randbytes(kind)
            if field == "magic":
                value = MAGIC[name]
            out += value
        else:
            bits = 8 * struct.calcsize(kind)
            value = rng.choice([rng.getrandbits(bits), rng.randrange(4), 1 << bits - 1, (1 << bits) - 1])
            if field == "record_type":
                value = TYPES[name]
            out += struct.pack(kind, value)
        if field:
            values[path + field] = value
    return out


def case(ctx, rng, idx, tier):
    from dissect.volume.ldm import c_ldm

    name = list(STRUCTS)[idx % len(STRUCTS)]
    values = {}
    raw = generate(rng, name, STRUCTS[name], values)
    ctx.params = dict(name=name, raw=raw.hex())
    form = rng.choice(["bytes", "padded", "file"])
    cls = getattr(c_ldm, name)
    lead = rng.randrange(600)
    if form == "file":
        fh = io.BytesIO(rng.randbytes(lead) + raw + rng.randbytes(20))
        fh.seek(lead)
        obj = ctx.lib(name, cls, fh)
    else:
        obj = ctx.lib(name, cls, raw + (rng.randbytes(30) if form == "padded" else b""))
    with ctx.observing(name):
        for path, want in values.items():
            got = obj
            for part in path.split("."):
                got = getattr(got, part)
            if isinstance(want, int):
                ctx.eq(f"{name} {path}", int(got), want)
            else:
                ctx.eq(f"{name} {path}", bytes(got), want)
        if form == "file" and name != "PRIVHEAD":
            ctx.eq(f"{name}: position behind the record", fh.tell(), lead + len(raw))
    ctx.count("decoded")
    sizes = "".join("0" if not v else "1" if v < 9 else "n" for k, v in values.items() if k.endswith("_len"))
    cut = rng.random() < 0.2 and name != "PRIVHEAD"
    if cut:
        n = rng.choice([len(raw) - 1, rng.randrange(len(raw)), 0])
        ctx.expect_error(f"{name} cut to {n} of {len(raw)} bytes", Exception, lambda: cls(raw[:n]))
    if idx % 50 == 0:
        with ctx.observing("names of values"):
            for enum, names in ENUMS.items():
                for key, value in names.items():
                    ctx.eq(f"{enum} {key}", (int(getattr(getattr(c_ldm, enum), key)), getattr(c_ldm, enum)(value).name), (value, key))
    ctx.state(name, sizes[:4], form, cut)
