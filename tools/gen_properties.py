"""Regenerates /verif/properties.jsonl (one JSON object per line)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe_at=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": [f"dissect/volume/{f}" for f in files],
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": f"dissect/volume/{w}"} for n, w in mechanism],
            "observe_at": list(observe_at),
            "hook_needed": None,
        },
    })

prop("P01", "Parity RAID (levels 4, 5, 6) reads return the striped data",
     "For a complete RAID4, RAID5 or RAID6 set, reading any byte range of the volume returns exactly the bytes that the set's level, "
     "parity layout, chunk size, member count and per-member data start place there, for every supported Linux/DDF parity layout. "
     "The result does not depend on how the range is split over reads, and the stream ends exactly at the volume size.",
     ["inputs", "configurations", "histories"],
     "all levels x layouts x member counts (3-12) x chunk sizes (including non powers of two) x member data starts x read ranges, from inside one chunk to several full parity rotations",
     "The stable tests open no parity RAID at all (images are not available); the upstream image tests read 4 KiB at a time from offset 0 of one layout per level, so neither multi-chunk reads nor the 20 other layouts are reached.",
     ["raid/raid.py", "raid/stream.py"],
     [("chunk to member mapping per layout", "raid/stream.py"), ("level dispatch", "raid/raid.py")],
     [("disk_map", "member index -> (data start, physical disk)", "virtual disk")],
     ["bytes returned by the volume stream", "reads issued to the member file objects"])

prop("P02", "RAID0 and concatenated sets read back their members' data",
     "For a complete striped (RAID0) or concatenated set, every byte of the volume is the byte the kernel layout assigns to it, including sets whose members "
     "have different sizes (several stripe zones, original and alternate multi-zone layout) or sizes that are not a multiple of the chunk, any chunk size, and members whose data does not start at the beginning of the disk. "
     "A concatenated set consists of exactly each member's own contribution in member order, and neither kind exposes bytes that belong to no member.",
     ["inputs", "configurations", "histories"],
     "member counts 1-8, equal/unequal/unaligned member sizes giving 1-5 zones, chunk sizes 512 B - 512 KiB, all read ranges across zone and member boundaries",
     "Existing tests read only the first zone of one RAID0 image and one linear image (both unavailable here).",
     ["raid/raid.py", "raid/stream.py", "md/md.py"],
     [("zone construction and lookup", "raid/stream.py"), ("member concatenation", "raid/stream.py")],
     [("zones", "list of (end, start on member, members)", "striped stream")],
     ["bytes returned by the volume stream"])

prop("P03", "RAID1 and RAID10 volumes read one consistent copy of the data",
     "For RAID1 and RAID10 sets (near, far and offset layouts, any number of copies), every byte of the volume is the byte stored in a copy of that chunk on the member and at the position the layout prescribes, honouring each member's data start. "
     "A RAID1 set can be opened from any single one of its members.",
     ["inputs", "configurations", "histories"],
     "RAID10 layouts near 1-4 x far 1-4 x offset flag x far-set flags, 2-9 members, all chunk sizes; RAID1 with every non-empty subset of members",
     "Only two images (not available) with one layout each; reads of one 4 KiB block never cross a chunk.",
     ["raid/raid.py", "raid/stream.py"],
     [("near/far/offset mapping", "raid/stream.py"), ("first available mirror", "raid/raid.py")],
     observe_at=["bytes returned by the volume stream"])

prop("P04", "Linux MD members are recognised and described correctly for all versions",
     "A block device carrying a valid MD superblock of version 0.90, 1.0, 1.1 or 1.2 is recognised whatever the device size, and its array identity, array name, device identity, level, layout, chunk size, member count, role, data start and data length, event count, creation and update time are reported as stored. "
     "The array's volume then exposes the array's bytes, with the size following from level and members; a device without a superblock is rejected with an error.",
     ["inputs", "configurations"],
     "superblock versions x device sizes (aligned and not to 4 KiB / 64 KiB, multi-TB) x all field values x levels linear,0,1,4,5,6,10",
     "The tests use eight fixed images (unavailable) created with one tool version and round sizes.",
     ["md/md.py", "md/c_md.py"],
     [("superblock search", "md/md.py"), ("superblock structures", "md/c_md.py"), ("timestamp split", "md/md.py")],
     observe_at=["attributes of the reported physical and virtual disks", "bytes returned by the volume stream"])

prop("P05", "MD assembly picks the right members in any order of supply",
     "Assembling MD devices gives the same arrays and the same bytes for every order in which the devices are supplied; devices of different arrays never mix. "
     "Spares, faulty members and journal devices may be supplied along and never take the place of a data member, array parameters come from the most recently updated superblock, and of two devices claiming the same slot or of several mirrors the most recently updated one supplies the data.",
     ["inputs", "configurations", "histories"],
     "all permutations / random shuffles of member sets with 0-3 spares, faulty or journal devices, stale members and interleaved foreign arrays",
     "Tests pass complete sets in natural order with no spare, journal, stale or foreign device.",
     ["md/md.py"],
     [("grouping by array identity", "md/md.py"), ("role decoding", "md/md.py"), ("reference superblock by event count", "md/md.py")],
     observe_at=["reported arrays, their members and volumes", "bytes returned"])

prop("P06", "DDF sets yield every virtual disk with its name, size and content",
     "From the disks of a DDF controller, in any order, every configured virtual disk is reported exactly once with its name (ASCII or UTF-8 when so flagged), size, level and chunk size, also when several virtual disks share the disks, when records sit behind unused or foreign record slots, and when a virtual disk starts at a non-zero block. "
     "Reading it returns the bytes that its level, qualifier, member order, starting blocks and block size assign, for concatenation, RAID0, RAID1, RAID1E (adjacent), RAID4, RAID5, RAID6 and RAID10.",
     ["inputs", "configurations"],
     "DDF metadata with 1-4 virtual disks over 2-8 disks, all supported level/qualifier pairs, starting blocks, strip sizes, record slot patterns, supply orders",
     "Upstream images (unavailable) hold one or two virtual disks starting at block 0 in the first slots.",
     ["ddf/ddf.py", "ddf/c_ddf.py", "raid/raid.py", "raid/stream.py"],
     [("record section walk", "ddf/ddf.py"), ("level/qualifier conversion", "ddf/ddf.py"), ("member map", "ddf/ddf.py")],
     observe_at=["reported virtual disks", "bytes returned by their streams"])

prop("P07", "Vinum configuration text is parsed exactly like the FreeBSD kernel does",
     "Parsing an on-disk vinum configuration yields exactly the volumes, plexes and subdisks of the lines up to the first line that is malformed (unknown kind, missing value or name, unknown keyword, bad stripe size, drive offset or plex offset, quoted token), with names, sizes in any unit, organisations and states as written. "
     "Blank lines and comments are ignored wherever they appear, unknown states read as down and unknown organisations as unusable, and nothing after the first malformed line is used.",
     ["inputs"],
     "all configuration texts: random valid configurations, random whitespace/comment/NUL placement, every kind of single-token mutation, arbitrary bytes",
     "Tests fix about eighty hand-written lines; combinations, later lines, separators and arbitrary bytes are not reached.",
     ["vinum/config.py"],
     [("tokenizer", "vinum/config.py"), ("per-kind line parsers", "vinum/config.py"), ("stop at first bad line", "vinum/config.py")],
     observe_at=["parsed configuration objects"])

prop("P08", "Vinum volumes expose the data of their usable plexes and subdisks",
     "For every vinum volume with a usable plex, the reported volume has the volume's name, the size its subdisks define, and content where each subdisk's extent on its drive is placed as its plex organisation (concatenated, striped, RAID5) prescribes, including several subdisks per drive and subdisks that do not start at the first data byte. "
     "Per object the newest configuration among the active drives wins regardless of drive order, unusable plexes and subdisks are not used, inactive drives are ignored, and a mirrored volume is served from a plex that has all its subdisks when there is one.",
     ["inputs", "configurations"],
     "1-4 volumes x 1-3 plexes x 1-5 subdisks over 1-6 drives, states, missing/stale/inactive drives, all drive orders",
     "The image tests (unavailable) have one subdisk per drive at the first data byte, all up, and one configuration version.",
     ["vinum/vinum.py", "vinum/c_vinum.py", "vinum/config.py", "raid/raid.py", "raid/stream.py"],
     [("newest configuration merge", "vinum/vinum.py"), ("subdisk to member map", "vinum/vinum.py"), ("plex selection", "vinum/vinum.py")],
     observe_at=["reported virtual disks", "bytes returned by their streams"])

prop("P09", "LVM2 metadata is located and parsed without loss",
     "For a physical volume with its label in any of the first four sectors, the volume group description found through its metadata area is reported exactly as written: names, identifiers, numbers, strings with escapes, lists on one or several lines, nested sections, comments ignored, also when the text wraps around the end of its circular area. "
     "Given several physical volumes in any order, the description with the highest sequence number is used, and physical volumes without a metadata copy are accepted.",
     ["inputs", "configurations"],
     "random volume group descriptions in LVM's text format, label sector, header offset, area position, ring position, copies per device, device order",
     "Tests parse three fixed images (unavailable) with the label in sector 1, unwrapped text and a copy on the first device.",
     ["lvm/lvm2.py", "lvm/physical.py", "lvm/metadata.py", "lvm/c_lvm2.py"],
     [("label scan", "lvm/physical.py"), ("text parser", "lvm/physical.py"), ("object model", "lvm/metadata.py")],
     observe_at=["volume group, physical volume, logical volume and segment attributes"])

prop("P10", "LVM2 logical volumes read the extents their segments name",
     "Reading any range of a linear, striped (interleaved by the stripe size) or mirrored logical volume returns the bytes of exactly the physical extents its segments name, for any number and order of segments, physical volumes and data area starts, and its size is the sum of its segments. "
     "A mirrored volume is readable while one copy is complete; a logical volume needing an absent physical volume cannot be opened; logical volumes of unsupported kinds do not keep the other volumes from being read.",
     ["inputs", "configurations", "histories"],
     "volume groups with 1-5 physical volumes (subset present), 1-8 logical volumes, 1-6 segments, 1-5 stripes, stripe sizes 4 KiB - extent size, extent sizes 1 KiB - 4 MiB",
     "Image tests (unavailable) have one linear segment or a simple mirror, and read the first blocks.",
     ["lvm/metadata.py", "lvm/physical.py", "lvm/lvm2.py"],
     [("segment to extent mapping", "lvm/metadata.py"), ("data area stream", "lvm/physical.py"), ("mirror fallback", "lvm/metadata.py")],
     observe_at=["bytes returned by the logical volume stream", "errors on open"])

prop("P11", "Thin volumes read mapped blocks, and zeros where nothing is mapped",
     "Reading any range of a thin volume returns for every block the content of the data block currently mapped to it, and zeros for blocks that have no mapping, for any mixture of mapped and unmapped blocks, any mapping tree shape and depth, any block size, and volumes or snapshots sharing data blocks. "
     "Different thin volumes of one pool never see each other's private blocks, and an unknown volume number is refused with an error.",
     ["inputs", "configurations", "histories"],
     "mapping trees of depth 1-4 with 1-126+ keys per node, device ids up to 2^24, sparse/dense/gappy maps, block sizes 64 KiB - 1 MiB, all read ranges",
     "The only available behaviour in tests is an empty thin device; the image tests (unavailable) read fully mapped prefixes.",
     ["dm/thin.py", "dm/btree.py", "dm/c_dm.py", "lvm/metadata.py"],
     [("two level tree lookup", "dm/btree.py"), ("block/time split", "dm/thin.py"), ("zero fill", "dm/thin.py")],
     observe_at=["bytes returned by the thin volume stream"])

prop("P12", "MBR partition tables list primary and logical partitions correctly",
     "For a disk with an MBR, every used primary entry and every logical partition of the extended partition's chain is listed once, in table/chain order, with its byte offset and size (32-bit sector values times the sector size, logical ones relative to their own boot record and links relative to the start of the extended partition), type and boot flag; primary partitions carry their slot number (1-4). "
     "Empty entries and the extended container itself are not listed, and reading a partition returns exactly the disk's bytes of that range.",
     ["inputs", "configurations"],
     "all slot patterns and types, extended partition (0x05/0x0F/0x85) in any slot with 0-60 logicals, sector sizes 512-4096, sector numbers up to 2^32-1, any disk signature",
     "The image test (unavailable) covers two primary partitions of one disk.",
     ["disk/disk.py", "disk/partition.py", "disk/schemes/mbr.py"],
     [("table walk and chain recursion", "disk/schemes/mbr.py"), ("partition range stream", "disk/partition.py")],
     observe_at=["listed partitions", "bytes returned by partition streams"])

prop("P13", "GPT and hybrid tables list every used entry with its range and identity",
     "For a GPT disk, every used entry is listed once in table order with its entry number, byte offset, size (last sector included), type and unique identifier, attribute flags and name (up to 36 UTF-16 units, stopping at the first NUL), for any entry count, entry size, table position and sector size; entries of a hybrid MBR are listed in place around the GPT entries. "
     "Reading a partition returns the disk's bytes from its first sector on for its length.",
     ["inputs", "configurations"],
     "entry counts 1-300, entry sizes 128-512, table anywhere, 512-4096 byte sectors, LBAs up to 2^52, all name and identifier values, hybrid and repeated protective entries",
     "Three fixed images (unavailable) with the usual 128 entries at LBA 2.",
     ["disk/schemes/gpt.py", "disk/disk.py", "disk/partition.py"],
     [("entry walk", "disk/schemes/gpt.py"), ("protective entry handling", "disk/schemes/gpt.py")],
     observe_at=["listed partitions", "bytes returned by partition streams"])

prop("P14", "Apple partition maps list all entries with range, type and name",
     "For a disk with an Apple partition map, preceded by a driver descriptor or not, every map entry is listed once in map order, numbered from 1, with byte offset, size, type and name as stored. "
     "Reading a partition returns exactly the disk's bytes of that range.",
     ["inputs", "configurations"],
     "1-60 entries, all offsets and sizes up to 2^32-1 sectors, all type/name lengths 0-32",
     "One fixed image (unavailable).",
     ["disk/schemes/apm.py", "disk/disk.py", "disk/partition.py"],
     [("map walk", "disk/schemes/apm.py")],
     observe_at=["listed partitions", "bytes returned by partition streams"])

prop("P15", "BSD disklabels (32 and 64 bit, bare or nested) list their partitions",
     "For a 32-bit or 64-bit BSD disklabel, bare or inside an MBR/GPT partition of a BSD type, every used entry except the raw 'c' entry is listed with its slot number, file system type and description, size, unique identifier (64-bit), and an offset that is relative to the start of the raw entry for 32-bit labels and to the slice for 64-bit labels. "
     "Reading it returns the bytes of that range of the enclosing disk or slice; on a disk with several partitions, those before and after a labelled slice are still listed.",
     ["inputs", "configurations"],
     "8-20 entries in any usage pattern, raw entry at any start, label in bare disks, MBR slices of each BSD type and GPT slices, several slices",
     "Two small images (unavailable).",
     ["disk/schemes/bsd.py", "disk/disk.py", "disk/partition.py"],
     [("raw entry offset", "disk/schemes/bsd.py"), ("nested label expansion", "disk/disk.py")],
     observe_at=["listed partitions", "bytes returned by partition streams"])

prop("P16", "Scheme detection is deterministic and failures are clean disk errors",
     "Opening a disk image either reports the partition scheme that is actually present (GPT before MBR before Apple before BSD) or fails with the disk error type and no other error, for any input bytes and length; boot sectors of file systems are not taken for partition tables, and a protective MBR without readable GPT is refused. "
     "A partition of a BSD type that holds no readable disklabel does not keep the disk from being opened and is listed as an ordinary partition, and a plain MBR disk reports the disk signature stored in its MBR as serial.",
     ["inputs", "fault_sequences"],
     "valid images of each scheme, every truncation point class, single-field corruption, file system boot sectors, random bytes",
     "Tests try four all-zero inputs.",
     ["disk/disk.py", "disk/schemes/__init__.py", "disk/schemes/mbr.py", "disk/schemes/gpt.py", "disk/schemes/apm.py", "disk/schemes/bsd.py"],
     [("ordered scheme attempts", "disk/disk.py"), ("boot sector heuristics", "disk/schemes/mbr.py")],
     observe_at=["reported scheme and partitions", "type of raised error"])

prop("P17", "Volume streams behave like one fixed byte array under any access history",
     "Any stream the library opens (partition, RAID volume, logical volume, thin volume, snapshot) answers every sequence of seeks, reads, peeks and read-intos as a fixed read-only byte array of its size would: data, positions, short reads at the end and whence handling. "
     "Answers do not depend on other streams opened before or used in between, even if they share the same underlying file objects, nor on the position in which the underlying file objects were left.",
     ["histories", "schedules"],
     "random operation histories over 1-5 simultaneously open streams with shared sources, interleaved at operation granularity, with the sources' positions disturbed in between",
     "Tests read each stream sequentially, once, alone.",
     ["raid/stream.py", "raid/raid.py", "dm/thin.py", "lvm/metadata.py", "lvm/physical.py", "disk/partition.py", "vss.py"],
     [("explicit seek before each source read", "raid/stream.py"), ("aligned buffering", "raid/stream.py")],
     observe_at=["results of every stream operation"])

prop("P18", "Sources are only ever read, and only as much as needed",
     "No operation of the library writes to, truncates or closes a file object handed to it. "
     "Opening a volume of any size reads an amount of data related to the size of its metadata, and reading n bytes from it reads an amount related to n plus the chunk or block size, never to the size of the volume or disk.",
     ["inputs", "histories", "configurations"],
     "all source file objects of all volume kinds during open and random reads, including volumes of many terabytes",
     "Tests use small images in memory and observe neither the amount nor the kind of source access.",
     ["raid/stream.py", "raid/raid.py", "md/md.py", "ddf/ddf.py", "dm/thin.py", "dm/btree.py", "lvm/physical.py", "disk/disk.py", "vinum/vinum.py", "vss.py"],
     [("on demand block reads", "raid/stream.py")],
     observe_at=["operations received by the source file objects"])

prop("P19", "Missing members give an error, never wrong data",
     "When members, physical volumes or drives of a set are missing, then for every read either an error is raised (on opening or reading) or the returned bytes are exactly those the complete set would have returned. "
     "In particular zeros, bytes of another member or shortened data are never returned in place of missing data; RAID1 sets with any member left, mirrored logical volumes with a complete mirror left and vinum volumes with a complete plex left keep working.",
     ["fault_sequences", "configurations"],
     "every subset of missing members of linear, RAID0/1/4/5/6/10 (generic, MD, DDF), vinum and LVM sets with few members, random subsets of larger ones",
     "No test opens an incomplete set.",
     ["raid/raid.py", "raid/stream.py", "md/md.py", "ddf/ddf.py", "vinum/vinum.py", "lvm/metadata.py"],
     [("missing member checks", "raid/stream.py"), ("absent physical volume error", "lvm/metadata.py")],
     observe_at=["errors on open/read", "bytes returned"])

prop("P20", "Volume shadow copies read as the volume was when they were taken",
     "For an NTFS volume with shadow copies, every snapshot is listed once in creation order with its size, identifiers and creation time, and reading it returns for each 16 KiB block the copy kept in its store, else the block as seen by the next newer snapshot, else the current volume's block, with partial-block overlays applied only to their own snapshot and unused records ignored. "
     "A block recorded as forwarded reads as the block at the forwarded place in the next newer snapshot or current volume. "
     "Catalogs and block lists may span several linked blocks, and the previous bitmap may be absent.",
     ["inputs", "configurations"],
     "1-4 snapshots x random copy-on-write histories x plain, overlay, forwarding and unused records x multi-block catalogs and lists",
     "There is no test for this code at all.",
     ["vss.py"],
     [("catalog walk", "vss.py"), ("block list and overlay handling", "vss.py"), ("fallback chain", "vss.py")],
     observe_at=["listed snapshots", "bytes returned by the snapshot streams"])

prop("P21", "Corrupt metadata never causes unbounded work",
     "For any single corruption of on-disk metadata (changed bytes, links pointing back or to themselves, huge counts, zero entry sizes, truncation), opening and reading through any entry point finishes or raises an ordinary error within an amount of work bounded by the size of the metadata. "
     "It never loops without end, and never grows its results without bound.",
     ["fault_sequences", "inputs"],
     "enumerated single-field corruptions of every metadata structure plus random multi-byte damage, counted in logical steps and source operations",
     "Tests never feed damaged metadata except all-zero blocks.",
     ["disk/schemes/mbr.py", "disk/schemes/gpt.py", "disk/schemes/bsd.py", "disk/schemes/apm.py", "dm/btree.py", "dm/thin.py", "vss.py", "lvm/physical.py", "lvm/metadata.py", "md/md.py", "ddf/ddf.py", "vinum/config.py"],
     [("chain walks", "disk/schemes/mbr.py"), ("tree descent", "dm/btree.py"), ("linked block reads", "vss.py")],
     observe_at=["logical steps", "source operations", "raised errors"])

prop("P22", "Volume layers compose: a volume works as the source of another volume",
     "A stream opened from one layer (a partition, RAID volume, logical volume or thin volume) used as the source of another layer yields the same volumes and bytes as the same content in a plain file. "
     "This holds for stacks such as partition -> MD -> LVM -> thin, for members living on partitions of one shared disk, and for nested partition tables.",
     ["configurations", "histories"],
     "random stacks of depth 2-4 out of GPT/MBR/BSD partitions, MD levels, LVM (linear, striped, thin), vinum on BSD partitions, with sources shared between members",
     "Every test uses plain files as sources for a single layer.",
     ["disk/disk.py", "disk/partition.py", "md/md.py", "raid/stream.py", "lvm/lvm2.py", "lvm/metadata.py", "dm/thin.py", "vinum/vinum.py"],
     [("file-like contract between layers", "raid/raid.py")],
     observe_at=["bytes returned by the outermost stream"])

prop("P23", "DDF and vinum members report what is recorded about them",
     "For every member of a DDF set the library reports the recorded disk identifier, reference, type, state, path information, block size and size, its controller, and the tables of all disks and virtual disks in order without their unused entries. "
     "For every virtual disk it reports the recorded number, type, states and name and the configuration's time (seconds since 1980), sequence number, element counts, levels, strip size, rotation count, members and starting blocks. "
     "For every vinum drive it reports name, size, whether it is active, the update time with microseconds and both configuration texts at their recorded length.",
     ["inputs", "configurations"],
     "random values of every recorded field over all DDF level kinds, sector and block sizes, and random vinum drives",
     "The stable tests open no DDF set and check four attributes of one vinum set (images are not available).",
     ["ddf/ddf.py", "ddf/c_ddf.py", "vinum/vinum.py", "vinum/c_vinum.py"],
     [("record parsing", "ddf/ddf.py"), ("drive header parsing", "vinum/vinum.py")],
     observe_at=["attributes of physical and virtual disks"])

prop("P24", "Unsupported layouts and foreign structures are refused",
     "A set whose recorded RAID level, layout, qualifier, element count or secondary level is not one the library supports, or a member, label, superblock, catalog, list or partition table without its signature, magic or record type, leads to an error when it is opened or first read; no data is returned for it. "
     "The same goes for an LVM text with no or several volume groups, thin pools with a zero block size or unknown device id, shadow copy volumes without catalog or with unknown or unpaired catalog entries, and DDF disks that are not in their own list of disks. "
     "The same structures without the change open and read.",
     ["inputs", "fault_sequences"],
     "all level/qualifier/count combinations outside the supported ones, single bit to full damage of every signature and record type",
     "Tests feed only valid structures and a few zeroed blocks.",
     ["ddf/ddf.py", "md/md.py", "raid/raid.py", "raid/stream.py", "vinum/vinum.py", "lvm/physical.py", "lvm/lvm2.py", "dm/thin.py", "vss.py", "disk/schemes/mbr.py", "disk/schemes/gpt.py", "disk/schemes/apm.py", "disk/schemes/bsd.py"],
     [("layout conversion", "ddf/ddf.py"), ("signature checks", "ddf/ddf.py"), ("superblock search", "md/md.py"), ("record type checks", "vss.py")],
     observe_at=["errors on open and first read"])

prop("P25", "A single member's data area reads on its own",
     "The stream opened from a single MD, DDF or vinum member returns the bytes of exactly that member's data area, from its recorded data start for its recorded size. "
     "The stream and sector reads of an LVM physical volume return the bytes from the start of its extents on, sector n being the n-th sector behind that start. "
     "A physical volume of a volume group has the size in bytes that its description records, or without one its data start plus its extents, and its stream covers all its extents even if the device's own header records a smaller size.",
     ["inputs", "histories"],
     "members of all MD versions and levels, DDF sets, vinum drives and LVM physical volumes x random read histories and sector ranges",
     "No test opens a member by itself.",
     ["raid/raid.py", "md/md.py", "ddf/ddf.py", "vinum/vinum.py", "lvm/physical.py", "lvm/metadata.py"],
     [("data area ranges", "raid/raid.py"), ("sector reads", "lvm/physical.py"), ("physical volume sizes", "lvm/metadata.py")],
     observe_at=["bytes returned by member streams and sector reads"])

prop("P26", "Shadow copy stores report their lists, bitmaps and information",
     "For each shadow copy the recorded snapshot type, provider, attributes, machine names, store ranges (also lists of many linked blocks), bitmaps and the next older and newer snapshot are reported; a block counts as in use exactly if its bitmap bit is clear, and an unrecorded previous bitmap is reported as none. "
     "In the newest snapshot a block without a record that is in use in its bitmap and in its previous bitmap (if it has one) reads as zeros, unless another block is forwarded to it. "
     "Two block records compare equal exactly if all their recorded values are equal.",
     ["inputs", "configurations"],
     "1-4 snapshots, range lists of 0-2500 entries, bitmaps of one to many blocks, with and without previous bitmap",
     "There is no test for this code at all.",
     ["vss.py"],
     [("range list walk", "vss.py"), ("bitmap lookup", "vss.py"), ("zero block rule", "vss.py")],
     observe_at=["store attributes", "bytes returned by the newest snapshot"])

prop("P27", "Partition types are described by their own names",
     "Each listed partition of an MBR or GUID partition table carries the known name of its type, or 'Unknown', and a description of the identifier followed by that name in parentheses. "
     "For Apple partitions the recorded type text, and for BSD partitions the name of the recorded file system type ('?' if there is none), serves as both. "
     "Names of one table's types are never used for another's.",
     ["inputs", "configurations"],
     "all MBR types and all known GUIDs, GUIDs one bit away from known ones, all 255 BSD file system types, bare and nested",
     "Tests compare the description of a handful of partitions of one image each.",
     ["disk/partition.py", "disk/schemes/bsd.py", "disk/schemes/apm.py"],
     [("type table and translation", "disk/partition.py"), ("file system names", "disk/schemes/bsd.py")],
     observe_at=["type description and type name of listed partitions"])

prop("P28", "Records of the Windows LDM database decode to their recorded fields",
     "The definitions of the Windows logical disk manager give for every private header (up to the size of its public region), table of contents block, database header, record header, and component, partition, disk and disk group record the recorded value of each field, whatever the lengths of its variable length numbers and names. "
     "Record types, record states and region flags have the documented numbers. "
     "A record that ends early leads to an error.",
     ["inputs"],
     "random values of all fields, variable length numbers of 0-8 bytes, names of 0-255 bytes, truncation at every position",
     "No test uses these definitions at all.",
     ["ldm.py"],
     [("record definitions", "ldm.py")],
     observe_at=["fields of decoded records"])

prop("P29", "Reported objects describe themselves by their recorded identity",
     "The text form of every listed partition shows its number, offset, size, type description and name, and that of every volume group, physical volume, logical and historical logical volume its name and identifier, of a segment its first extent, extent count and type. "
     "The text form of DDF disks, controllers and records shows the recorded identifier, and reference or number and name where there is one; that of a shadow copy volume both identifiers, of a catalog the number of its stores and of a block record its offsets and bitmap. "
     "Producing the text form never fails on an object the library reports.",
     ["inputs", "configurations"],
     "random partition tables of all schemes, volume groups with all segment kinds and historical volumes with and without optional values, DDF sets, shadow copy volumes and records",
     "No test looks at a text form.",
     ["disk/partition.py", "lvm/metadata.py", "lvm/lvm2.py", "lvm/physical.py", "ddf/ddf.py", "vss.py"],
     [("partition text", "disk/partition.py"), ("volume and segment texts", "lvm/metadata.py"), ("DDF texts", "ddf/ddf.py"), ("shadow copy texts", "vss.py")],
     observe_at=["repr() and str() of reported objects"])

prop("P30", "The library leaves the process and its surroundings alone",
     "Whatever volume or disk is opened and read, whole, incomplete or damaged, the library writes nothing to the standard streams (messages through the logging module aside), and as long as the metadata is whole raises no warnings. "
     "It opens, creates or removes no files by name, starts no processes, threads or connections, and leaves the working directory, environment, locale, random state, signal handlers, interpreter limits and hooks as they were. "
     "Lists of file objects handed to it stay as they were.",
     ["inputs", "configurations", "fault_sequences"],
     "volumes of every kind, whole, with missing members and with damaged metadata x reads at random places",
     "Tests do not look at what happens besides the returned values, and read no shadow copies.",
     ["vss.py", "vinum/vinum.py", "vinum/config.py", "lvm/lvm2.py", "lvm/physical.py", "md/md.py", "ddf/ddf.py", "dm/thin.py", "disk/disk.py", "raid/stream.py"],
     [("reading of snapshot blocks", "vss.py"), ("configuration assembly", "vinum/vinum.py")],
     observe_at=["standard streams", "interpreter audit events", "process state before and after"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
