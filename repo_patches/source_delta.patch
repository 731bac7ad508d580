From 402aa815f315fdc08f03034d1d92acc79847f24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:36:30 +0000
Subject: [PATCH 01/58] fix: read only the current chunk in RAID4/5/6 and
 RAID10 streams

---
 dissect/volume/raid/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2d1edeb..2216af6 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -366,7 +366,7 @@ class RAID456Stream(AlignedStream):
 
             offset_on_disk = dd_dev.offset + dd_start + offset_in_device
             dd_dev.fh.seek(offset_on_disk)
-            result.append(dd_dev.fh.read(length))
+            result.append(dd_dev.fh.read(read_length))
 
             length -= read_length
             offset += read_length
@@ -424,7 +424,7 @@ class RAID10Stream(AlignedStream):
 
             offset_on_disk = device.offset + device_start + (stripe * stripe_size) + offset_in_stripe
             device.fh.seek(offset_on_disk)
-            result.append(device.fh.read(length))
+            result.append(device.fh.read(read_length))
 
             length -= read_length
             offset += read_length
-- 
2.43.0


From 3a06cf4f0d4fe6d268ffc92ad64be4d136f0f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:12 +0000
Subject: [PATCH 02/58] fix: map RAID0 strip zones beyond the first one
 correctly

Members of later zones were looked up by their index in the whole set, the
start of the zone on the members was ignored, and members whose size is not a
multiple of the chunk size produced too many zones.
---
 dissect/volume/raid/stream.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 2216af6..b4ba307 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -98,7 +98,7 @@ class RAID0Stream(AlignedStream):
                 if idx1 == idx2:
                     break
 
-                if rounded_sizes[dev1] == dev2.size:
+                if rounded_sizes[dev1] == rounded_sizes[dev2]:
                     has_same_size = True
                     break
 
@@ -165,8 +165,8 @@ class RAID0Stream(AlignedStream):
             stripe, offset_in_stripe = divmod(read_offset, stripe_size)
             chunk = offset_in_zone // (stripe_size * len(zone.devices))
 
-            offset_in_device = (chunk * stripe_size) + offset_in_stripe
-            device_start, device = zone.devices[stripe % len(zone.devices)]
+            offset_in_device = zone.dev_start + (chunk * stripe_size) + offset_in_stripe
+            device_start, device = list(zone.devices.values())[stripe % len(zone.devices)]
 
             stripe_remaining = stripe_size - offset_in_stripe
             read_length = min(length, stripe_remaining)
-- 
2.43.0


From 554c774efff499c52580b5b7a50bb1fda802503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:12 +0000
Subject: [PATCH 03/58] fix: honour the original multi-zone RAID0 layout

---
 dissect/volume/raid/stream.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index b4ba307..4017dff 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -48,6 +48,9 @@ class Layout(IntEnum):
     PARITY_N_6 = PARITY_N
 
 
+RAID0_ORIG_LAYOUT = 1  # Multi-zone RAID0 layout of Linux < 3.14
+
+
 class LinearStream(MappingStream):
     """Implements a stream on a linear RAID set."""
 
@@ -159,7 +162,11 @@ class RAID0Stream(AlignedStream):
                 break
 
             read_offset = offset_in_zone
-            if len(self.zones) == 1 or len(self.zones[1].devices) == 1:
+            if (
+                len(self.zones) == 1
+                or len(self.zones[1].devices) == 1
+                or self.virtual_disk.layout == RAID0_ORIG_LAYOUT
+            ):
                 read_offset = offset
 
             stripe, offset_in_stripe = divmod(read_offset, stripe_size)
-- 
2.43.0


From 6b96b83a06ceb1aaf18a76febf329c8ca72888b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:12 +0000
Subject: [PATCH 04/58] fix: start reading a RAID1 volume at the data offset of
 the mirror

---
 dissect/volume/raid/raid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/raid/raid.py b/dissect/volume/raid/raid.py
index 55d1c6a..6c5a073 100644
--- a/dissect/volume/raid/raid.py
+++ b/dissect/volume/raid/raid.py
@@ -69,7 +69,9 @@ class VirtualDisk:
             # Don't really care which mirror to read from, so just open the first disk we have.
             # We don't know if we have the first disk or the n-th disk so we select the first
             # available disk using an iterable.
-            _, (_, disk) = next(iter(self.disk_map.items()))
+            _, (data_offset, disk) = next(iter(self.disk_map.items()))
+            if data_offset:
+                return RangeStream(disk.open(), data_offset, disk.size - data_offset)
             return disk.open()
         if self.level in (Level.RAID4, Level.RAID5, Level.RAID6):
             return RAID456Stream(self)
-- 
2.43.0


From b5d5214376473f84106ddf02e04e39d28ef273bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:12 +0000
Subject: [PATCH 05/58] fix: concatenate only the part of each disk that
 belongs to a linear volume

---
 dissect/volume/raid/raid.py   | 3 +++
 dissect/volume/raid/stream.py | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/raid/raid.py b/dissect/volume/raid/raid.py
index 6c5a073..0bda7cf 100644
--- a/dissect/volume/raid/raid.py
+++ b/dissect/volume/raid/raid.py
@@ -49,6 +49,7 @@ class VirtualDisk:
         stripe_size: int,
         num_disks: int,
         disk_map: DiskMap,
+        disk_sizes: dict[int, int] | None = None,
     ):
         self.name = name
         self.uuid = uuid
@@ -58,6 +59,8 @@ class VirtualDisk:
         self.stripe_size = stripe_size
         self.num_disks = num_disks
         self.disk_map = disk_map
+        # How much of each disk belongs to this volume, for disks that are not used up to their end
+        self.disk_sizes = disk_sizes or {}
 
     def open(self) -> BinaryIO:
         """Return a file-like object of the RAID volume in this set."""
diff --git a/dissect/volume/raid/stream.py b/dissect/volume/raid/stream.py
index 4017dff..32def31 100644
--- a/dissect/volume/raid/stream.py
+++ b/dissect/volume/raid/stream.py
@@ -63,9 +63,10 @@ class LinearStream(MappingStream):
             raise RAIDError(f"Missing disks in linear RAID set {virtual_disk.uuid} ({virtual_disk.name})")
 
         offset = 0
-        for disk_offset, disk in self.disk_map.values():
-            self.add(offset, disk.size, disk.open(), disk_offset)
-            offset += disk.size
+        for disk_idx, (disk_offset, disk) in self.disk_map.items():
+            size = virtual_disk.disk_sizes.get(disk_idx, disk.size - disk_offset)
+            self.add(offset, size, disk.open(), disk_offset)
+            offset += size
 
 
 class Zone(NamedTuple):
-- 
2.43.0


From 7d496cfe19c05ff6c71e8af3480915a495fbd189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:36 +0000
Subject: [PATCH 06/58] fix: report the update time of an MD device instead of
 its creation time

---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 6d9ecf4..8d3618e 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -132,7 +132,7 @@ class MDPhysicalDisk(PhysicalDisk):
             self.raid_disk = self.sb.disks[self.dev_number].raid_disk
 
         self.creation_time = _parse_ts(self.sb.ctime)
-        self.update_time = _parse_ts(self.sb.ctime)
+        self.update_time = _parse_ts(self.sb.utime)
         self.level = self.sb.level
         self.layout = self.sb.layout
         self.raid_disks = self.sb.raid_disks
-- 
2.43.0


From 78fca6bbdf180fd2144d4f1b0f30f0eaf59106cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:36 +0000
Subject: [PATCH 07/58] fix: find MD 1.0 superblocks on devices that are not a
 multiple of 4K

---
 dissect/volume/md/md.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 8d3618e..993bd96 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -160,8 +160,8 @@ def find_super_block(fh: BinaryIO) -> tuple[int | None, int | None, int | None]:
         # 0.90.0
         (size & ~(c_md.MD_RESERVED_SECTORS - 1)) - c_md.MD_RESERVED_SECTORS,
         # Major version 1
-        # 0: At least 8K, but less than 12K, from end of device
-        size - 8 * 2,
+        # 0: At least 8K, but less than 12K, from end of device, aligned to 4K
+        (size - 8 * 2) & ~(4 * 2 - 1),
         # 1: At start of device
         0,
         # 2: 4K from start of device.
-- 
2.43.0


From 14bde25e2fae0e20f95b46ec6c5078b11ed65fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:36 +0000
Subject: [PATCH 08/58] fix: treat the MD 0.90 level as signed so linear sets
 are recognised

---
 dissect/volume/md/c_md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/c_md.py b/dissect/volume/md/c_md.py
index a46e868..7924de1 100644
--- a/dissect/volume/md/c_md.py
+++ b/dissect/volume/md/c_md.py
@@ -85,7 +85,7 @@ typedef struct mdp_superblock_s {
     uint32  gvalid_words;                           /*  4 Number of used words in this section */
     char    set_uuid0[4];                           /*  5 Raid set identifier */
     uint32  ctime;                                  /*  6 Creation time */
-    uint32  level;                                  /*  7 Raid personality */
+    int32   level;                                  /*  7 Raid personality */
     uint32  size;                                   /*  8 Apparent size of each individual disk */
     uint32  nr_disks;                               /*  9 total disks in the raid set */
     uint32  raid_disks;                             /* 10 disks in a fully functional raid set */
-- 
2.43.0


From 220621bc9dc0ca8c99a2818665159f25d2200c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:36 +0000
Subject: [PATCH 09/58] fix: compute the size of MD RAID0 sets whose chunk size
 is not a power of two

---
 dissect/volume/md/md.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 993bd96..580e6b2 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -57,7 +57,7 @@ class MDVirtualDisk(VirtualDisk):
         elif reference_disk.level == Level.RAID0:
             size = 0
             for _, disk in disk_map.values():
-                size += disk.size & ~(reference_disk.chunk_size - 1)
+                size += disk.size // reference_disk.chunk_size * reference_disk.chunk_size
         elif reference_disk.level in (Level.RAID1, Level.RAID4, Level.RAID5, Level.RAID6, Level.RAID10):
             size = reference_disk.sb.size * SECTOR_SIZE
         else:
-- 
2.43.0


From 54ee5144790b47a480346fd283bff9997fc28b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:41:36 +0000
Subject: [PATCH 10/58] fix: round members of MD linear sets down to whole
 chunks

---
 dissect/volume/md/md.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 580e6b2..cb2c693 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -52,8 +52,12 @@ class MDVirtualDisk(VirtualDisk):
         reference_disk = sorted(physical_disks, key=operator.attrgetter("events"), reverse=True)[0]
         disk_map = {disk.raid_disk: (0, disk) for disk in physical_disks if disk.raid_disk is not None}
 
+        disk_sizes = {}
         if reference_disk.level == Level.LINEAR:
-            size = sum(disk.size for _, disk in disk_map.values())
+            # Members only contribute whole chunks (the rounding of the set)
+            rounding = reference_disk.chunk_size or 1
+            disk_sizes = {idx: disk.size // rounding * rounding for idx, (_, disk) in disk_map.items()}
+            size = sum(disk_sizes.values())
         elif reference_disk.level == Level.RAID0:
             size = 0
             for _, disk in disk_map.values():
@@ -75,6 +79,7 @@ class MDVirtualDisk(VirtualDisk):
             reference_disk.chunk_size,
             reference_disk.raid_disks,
             disk_map,
+            disk_sizes,
         )
 
 
-- 
2.43.0


From f6d9d152e59ce2ddc8b432c4180772bfd8c2c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:41 +0000
Subject: [PATCH 11/58] fix: accept spare and faulty devices when assembling an
 MD set

---
 dissect/volume/md/md.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index cb2c693..076ced3 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -38,7 +38,8 @@ class MD(RAID):
 
 class MDConfiguration(Configuration):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
-        physical_disks = sorted(physical_disks, key=operator.attrgetter("raid_disk"))
+        # Disks without a role (spare, faulty or journal) go last
+        physical_disks = sorted(physical_disks, key=lambda disk: (disk.raid_disk is None, disk.raid_disk))
 
         if len({disk.set_uuid for disk in physical_disks}) != 1:
             raise ValueError("Multiple MD sets detected, supply only the disks of a single set")
-- 
2.43.0


From c28b6a2d709fe95b4bb122d6a9058e7069e82c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:41 +0000
Subject: [PATCH 12/58] fix: do not use MD journal devices as the first data
 disk

---
 dissect/volume/md/md.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 076ced3..cfb3031 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -117,13 +117,12 @@ class MDPhysicalDisk(PhysicalDisk):
             self.dev_number = self.sb.dev_number
             self.device_uuid = UUID(bytes_le=self.sb.device_uuid)
 
-            role = self.sb.dev_roles[self.sb.dev_number]
-            if role == c_md.MD_DISK_ROLE_JOURNAL:
-                self.raid_disk = 0
-            elif role <= c_md.MD_DISK_ROLE_MAX:
-                self.raid_disk = role
-            else:
-                self.raid_disk = None
+            # Devices beyond the role table are spares
+            role = c_md.MD_DISK_ROLE_SPARE
+            if self.sb.dev_number < self.sb.max_dev:
+                role = self.sb.dev_roles[self.sb.dev_number]
+            # Spare, faulty and journal devices hold no data of the array
+            self.raid_disk = role if role <= c_md.MD_DISK_ROLE_MAX else None
 
         else:
             self.set_uuid = UUID(bytes_le=self.sb.set_uuid0 + self.sb.set_uuid1 + self.sb.set_uuid2 + self.sb.set_uuid3)
-- 
2.43.0


From 764885f9dded22b2acede9dce8cadb281f7e66be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:41 +0000
Subject: [PATCH 13/58] fix: prefer the most recently updated MD member of a
 slot or mirror

---
 dissect/volume/md/md.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index cfb3031..7d57dfb 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -50,8 +50,14 @@ class MDConfiguration(Configuration):
 
 class MDVirtualDisk(VirtualDisk):
     def __init__(self, physical_disks: list[MDPhysicalDisk]):
-        reference_disk = sorted(physical_disks, key=operator.attrgetter("events"), reverse=True)[0]
-        disk_map = {disk.raid_disk: (0, disk) for disk in physical_disks if disk.raid_disk is not None}
+        # Prefer the most recently updated disks
+        physical_disks = sorted(physical_disks, key=operator.attrgetter("events"), reverse=True)
+        reference_disk = physical_disks[0]
+
+        disk_map = {}
+        for disk in physical_disks:
+            if disk.raid_disk is not None:
+                disk_map.setdefault(disk.raid_disk, (0, disk))
 
         disk_sizes = {}
         if reference_disk.level == Level.LINEAR:
-- 
2.43.0


From be5aa67e1a587dd73ca91ebf8febb3d871fdd731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:42:59 +0000
Subject: [PATCH 14/58] fix: do not use spare devices of MD 0.90 sets as
 members

---
 dissect/volume/md/md.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/md/md.py b/dissect/volume/md/md.py
index 7d57dfb..3d7b4cb 100644
--- a/dissect/volume/md/md.py
+++ b/dissect/volume/md/md.py
@@ -140,7 +140,9 @@ class MDPhysicalDisk(PhysicalDisk):
             self.data_size = sb_offset
             self.dev_number = self.sb.this_disk.number
             self.device_uuid = None
-            self.raid_disk = self.sb.disks[self.dev_number].raid_disk
+            # Only disks that are in sync have a role, the others are spare or faulty
+            descriptor = self.sb.disks[self.dev_number]
+            self.raid_disk = descriptor.raid_disk if descriptor.state & (1 << c_md.MD_DISK_SYNC) else None
 
         self.creation_time = _parse_ts(self.sb.ctime)
         self.update_time = _parse_ts(self.sb.utime)
-- 
2.43.0


From 39bc0e9ac95c2ea4c05acb4435a62b423f43bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:20 +0000
Subject: [PATCH 15/58] fix: read DDF configuration records behind unused or
 other records

---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 7dcb0b1..3386256 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -293,12 +293,12 @@ def _read_virtual_disk_configuration_records(
     for _ in range(count):
         fh.seek(offset)
         obj = VirtualDiskConfigurationRecord(fh, num_entries)
+        offset += size
 
         if obj.header.Signature != c_ddf.DDF_VDCR_SIGNATURE:
             continue
 
         result.append(obj)
-        offset += size
 
     return result
 
-- 
2.43.0


From 518eb516c1e063500157e9a1faf1e3dddf513ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:20 +0000
Subject: [PATCH 16/58] fix: test the right flag for UTF-8 names of DDF virtual
 disks

---
 dissect/volume/ddf/ddf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 3386256..3f2709a 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -229,7 +229,7 @@ class VirtualDiskRecord:
         self.state = self.header.VD_State
         self.init_state = self.header.Init_State
         name = self.header.VD_Name.split(b"\x00")[0]
-        self.name = name.decode(encoding="utf-8") if self.type & 0x02 else name.decode(encoding="ascii")
+        self.name = name.decode(encoding="utf-8") if self.type & 0x04 else name.decode(encoding="ascii")
 
     def __repr__(self) -> str:
         return f"<VirtualDiskRecord guid={self.guid} number={self.number} type={self.type:#x} name={self.name!r}>"
-- 
2.43.0


From 5418c07cc07162be5237e3cfc0082a34358061f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:20 +0000
Subject: [PATCH 17/58] fix: skip unused entries between DDF physical and
 virtual disk entries

---
 dissect/volume/ddf/ddf.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 3f2709a..c192777 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -277,13 +277,31 @@ def _read_section_header(
 def _read_physical_disk_records(fh: BinaryIO, offset: int) -> list[PhysicalDiskRecord]:
     fh.seek(offset)
     header = _read_section_header(fh, c_ddf.Physical_Disk_Records, c_ddf.DDF_PDR_SIGNATURE)
-    return [PhysicalDiskRecord(fh) for _ in range(header.Populated_PDEs)]
+    return _read_entries(fh, PhysicalDiskRecord, header.Populated_PDEs, header.Max_PDE_Supported)
 
 
 def _read_virtual_disk_records(fh: BinaryIO, offset: int) -> list[VirtualDiskRecord]:
     fh.seek(offset)
     header = _read_section_header(fh, c_ddf.Virtual_Disk_Records, c_ddf.DDF_VD_RECORD_SIGNATURE)
-    return [VirtualDiskRecord(fh) for _ in range(header.Populated_VDEs)]
+    return _read_entries(fh, VirtualDiskRecord, header.Populated_VDEs, header.Max_VDE_Supported)
+
+
+def _read_entries(
+    fh: BinaryIO, record: type[PhysicalDiskRecord | VirtualDiskRecord], populated: int, maximum: int
+) -> list[PhysicalDiskRecord | VirtualDiskRecord]:
+    result = []
+    for _ in range(maximum):
+        if len(result) == populated:
+            break
+
+        # Unused entries can lie between the populated ones
+        entry = fh.read(64)
+        if entry.startswith(b"\xff" * 24):
+            continue
+
+        result.append(record(io.BytesIO(entry)))
+
+    return result
 
 
 def _read_virtual_disk_configuration_records(
-- 
2.43.0


From ed80ad57a98c42ba488e1e3d18eab0ec8929ab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:20 +0000
Subject: [PATCH 18/58] fix: convert the starting blocks of DDF virtual disks
 to bytes

---
 dissect/volume/ddf/ddf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index c192777..6ea7b23 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -66,7 +66,8 @@ class DDFConfiguration(Configuration):
             i = 0
             for starting_block, pds in zip(vdcr.starting_block, vdcr.physical_disk_sequence, strict=False):
                 if matched_pd := pd_map.get(pds):
-                    vd_pd_map[sec * count + i] = (starting_block, matched_pd)
+                    block_size = vdcr.block_size if vdcr.block_size != 0xFFFF else matched_pd.block_size
+                    vd_pd_map[sec * count + i] = (starting_block * block_size, matched_pd)
 
                 if pds != 0xFFFFFFFF:
                     i += 1
-- 
2.43.0


From af0326bfe0a7a60137c66967e63664aeeb7141fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:47:20 +0000
Subject: [PATCH 19/58] fix: concatenate only the blocks of each disk that
 belong to a DDF virtual disk

---
 dissect/volume/ddf/ddf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 6ea7b23..04b5bf2 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -107,6 +107,7 @@ class DDFVirtualDisk(VirtualDisk):
             (2**self.vdcr.strip_size) * block_size,
             num_disks,
             disks,
+            dict.fromkeys(disks, self.vdcr.header.Block_Count * block_size),
         )
 
     @property
-- 
2.43.0


From 1b0c26a31359b5c0d7ebd29af7fd0600278f2422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:14 +0000
Subject: [PATCH 20/58] fix: use the drive offset of vinum subdisks

---
 dissect/volume/vinum/vinum.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 721021e..41e4767 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -176,7 +176,9 @@ class VinumConfiguration(Configuration):
                         sd.state != SDState.DOWN and sd.state != SDState.DEGRADED and sd.state != SDState.INITIALIZING
                     ):  # sd's in these states are probably not fit to use
                         if sd.drive in disks_by_name:
-                            disk_map[idx] = (0, disks_by_name[sd.drive])
+                            # The driveoffset is relative to the start of the disk
+                            data_offset = sd.driveoffset - c_vinum.GV_DATA_START if sd.driveoffset else 0
+                            disk_map[idx] = (data_offset, disks_by_name[sd.drive])
                         else:
                             log.warning("Physical disk %r for sd %r is missing, ignoring sd", sd.drive, sd.name)
                     else:
-- 
2.43.0


From f2ad3d0a2323710d3d117508078080332acea417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:14 +0000
Subject: [PATCH 21/58] fix: concatenate only the subdisks of a vinum plex
 instead of whole drives

---
 dissect/volume/vinum/vinum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 41e4767..2c26ad4 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -280,6 +280,7 @@ class VinumPlexDisk(VirtualDisk):
             stripe_size,
             len(sds),
             disk_map,
+            {idx: sd.length for idx, sd in enumerate(sorted(sds, key=lambda sd: sd.plexoffset))},
         )
 
 
-- 
2.43.0


From ad5062dda98683fcc0bc325be499ae32d3ed7555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:14 +0000
Subject: [PATCH 22/58] fix: read mirrored vinum volumes from a plex that is
 complete

---
 dissect/volume/vinum/vinum.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 2c26ad4..139c853 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -211,6 +211,13 @@ class VinumConfiguration(Configuration):
                             plex_disk = VinumPlexDisk(volume, plex, sds, disk_map)
                             plex_map[idx] = (0, plex_disk)
 
+                    # Prefer the plexes that have all their sds
+                    plex_map = {
+                        idx: (offset, plex_disk)
+                        for idx, (offset, plex_disk) in plex_map.items()
+                        if len(plex_disk.disk_map) == plex_disk.num_disks
+                    } or plex_map
+
                     if plex_map:
                         virtual_disks.append(VinumMirrorDisk(volume, plexes, plex_map))
 
-- 
2.43.0


From 079d07510996c7ebb5f8d5701ea64aeadef7bc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:33 +0000
Subject: [PATCH 23/58] fix: read LVM2 metadata that wraps around the end of
 its area

---
 dissect/volume/lvm/c_lvm2.py   |  2 ++
 dissect/volume/lvm/physical.py | 17 ++++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/lvm/c_lvm2.py b/dissect/volume/lvm/c_lvm2.py
index 3481010..8f13df4 100644
--- a/dissect/volume/lvm/c_lvm2.py
+++ b/dissect/volume/lvm/c_lvm2.py
@@ -46,6 +46,8 @@ SECTOR_SIZE = 512
 
 LABEL_SCAN_SECTORS = 4
 
+MDA_HEADER_SIZE = 512
+
 STATUS_FLAG_ALLOCATABLE = "ALLOCATABLE"  # pv only
 STATUS_FLAG_RESIZEABLE = "RESIZEABLE"  # vg only
 STATUS_FLAG_READ = "READ"
diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 17ba161..9b3dcee 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -9,7 +9,7 @@ from typing import TYPE_CHECKING, Any, BinaryIO
 from dissect.util.stream import RunlistStream
 
 from dissect.volume.exceptions import LVM2Error
-from dissect.volume.lvm.c_lvm2 import LABEL_SCAN_SECTORS, SECTOR_SIZE, c_lvm
+from dissect.volume.lvm.c_lvm2 import LABEL_SCAN_SECTORS, MDA_HEADER_SIZE, SECTOR_SIZE, c_lvm
 
 if TYPE_CHECKING:
     from collections.abc import Iterator
@@ -70,8 +70,19 @@ class LVM2Device:
         # Unsure when a second area is used
         mda_header, raw_locn = self._metadata_areas[0]
 
-        self.fh.seek(mda_header.start + raw_locn[0].offset)
-        return parse_metadata(self.fh.read(raw_locn[0].size - 1).decode())
+        offset = raw_locn[0].offset
+        size = raw_locn[0].size - 1
+
+        # The metadata area is circular, so the remainder continues right after the header
+        wrapped_size = max(0, offset + size - mda_header.size)
+
+        self.fh.seek(mda_header.start + offset)
+        buf = self.fh.read(size - wrapped_size)
+        if wrapped_size:
+            self.fh.seek(mda_header.start + MDA_HEADER_SIZE)
+            buf += self.fh.read(wrapped_size)
+
+        return parse_metadata(buf.decode())
 
     def read_sectors(self, sector: int, count: int) -> bytes:
         r = []
-- 
2.43.0


From d2f76bdc77fd31916d54b34bc205d8957a9c2fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:34 +0000
Subject: [PATCH 24/58] fix: use the most recent LVM2 metadata of all devices

---
 dissect/volume/lvm/lvm2.py     | 11 ++++++++++-
 dissect/volume/lvm/physical.py |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/lvm2.py b/dissect/volume/lvm/lvm2.py
index f49e428..a5a1563 100644
--- a/dissect/volume/lvm/lvm2.py
+++ b/dissect/volume/lvm/lvm2.py
@@ -28,7 +28,12 @@ class LVM2:
         devices = [LVM2Device(fh) if not isinstance(fh, LVM2Device) else fh for fh in self.fh]
         self.devices = {device.id: device for device in devices}
 
-        self.metadata = devices[0].metadata
+        # Not every device has a (recent) copy of the metadata
+        metadata = [device.metadata for device in devices if device.metadata is not None]
+        if not metadata:
+            raise LVM2Error("No metadata found on any of the devices")
+
+        self.metadata = max(metadata, key=_get_seqno)
         self.contents: str = self.metadata["contents"]
         self.version: int = self.metadata["version"]
         self.description: str | None = self.metadata.get("description")
@@ -49,3 +54,7 @@ class LVM2:
     @property
     def vg(self) -> VolumeGroup:
         return self.volume_group
+
+
+def _get_seqno(metadata: dict) -> int:
+    return max((value.get("seqno", 0) for value in metadata.values() if isinstance(value, dict)), default=0)
diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 9b3dcee..79aff74 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -69,6 +69,8 @@ class LVM2Device:
         # Only support the first metadata area for now
         # Unsure when a second area is used
         mda_header, raw_locn = self._metadata_areas[0]
+        if not raw_locn or not raw_locn[0].size:
+            return None
 
         offset = raw_locn[0].offset
         size = raw_locn[0].size - 1
-- 
2.43.0


From e4deb3dc9109784c180f8e92a4298cbe1626f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:53 +0000
Subject: [PATCH 25/58] fix: do not drop the line after an empty comment in
 LVM2 metadata

---
 dissect/volume/lvm/physical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 79aff74..9b34085 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -126,7 +126,7 @@ def parse_metadata(string: str) -> dict:
     current = root
     parents = {}
 
-    s = re.sub(r"(#[^\"]+?)$", "", string, flags=re.MULTILINE)
+    s = re.sub(r"#[^\"\n]*$", "", string, flags=re.MULTILINE)
 
     it = iter(s.split("\n"))
     for line in it:
-- 
2.43.0


From 466bafdc8b59aab6eb7a9ac4b238f0cb47a44104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:53 +0000
Subject: [PATCH 26/58] fix: allow whitespace and comments in multi-line lists
 of LVM2 metadata

---
 dissect/volume/lvm/physical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 9b34085..78dd32f 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -164,9 +164,9 @@ def _parse_key_value(s: str, it: Iterator[str]) -> tuple[str, Any]:
         lines = [value]
         for line in it:
             lines.append(line)
-            if line[-1] == "]":
+            if line.strip().endswith("]"):
                 break
-        value = "".join(lines)
+        value = "\n".join(lines)
 
     value = ast.literal_eval(value)
 
-- 
2.43.0


From cf10c09630bc7fb5acd3eb1ced370e02cea7985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:53 +0000
Subject: [PATCH 27/58] fix: accept LVM2 RAID segments without optional
 settings

---
 dissect/volume/lvm/metadata.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 700d5f6..6e534ac 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -595,14 +595,13 @@ class VdoPoolSegment(Segment):
 
 @dataclass(init=False)
 class RAIDSegment(Segment):
-    device_count: int
-    stripe_count: int
-    region_size: int
-    stripe_size: int
-    writebehind: int
-    min_recovery_rate: int
-    max_recovery_rate: int
-
+    device_count: int | None
+    stripe_count: int | None
+    region_size: int | None
+    stripe_size: int | None
+    writebehind: int | None
+    min_recovery_rate: int | None
+    max_recovery_rate: int | None
     data_copies: int | None
     data_offset: int | None
     raids: list[str] | None
-- 
2.43.0


From 86ab5c4c966408ff5a8d6db1668e818a2e561e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:53 +0000
Subject: [PATCH 28/58] fix: accept LVM2 VDO pool segments without optional
 flags

---
 dissect/volume/lvm/metadata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index 6e534ac..ab3bd7e 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -572,13 +572,9 @@ class VdoPoolSegment(Segment):
     data: str
     header_size: int
     virtual_extents: int
-    use_compression: bool
-    use_deduplication: bool
-    use_metadata_hints: bool
     minimum_io_size: int
     block_map_cache_size_mb: int
     block_map_era_length: int
-    use_sparse_index: int
     index_memory_size_mb: int
     max_discard: int
     slab_size_mb: int
@@ -590,6 +586,10 @@ class VdoPoolSegment(Segment):
     logical_threads: int
     physical_threads: int
 
+    use_compression: bool | None
+    use_deduplication: bool | None
+    use_metadata_hints: bool | None
+    use_sparse_index: int | None
     write_policy: str | None
 
 
-- 
2.43.0


From 01ced468616e16f1ecb7b6a5695ed4673957090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:00 +0000
Subject: [PATCH 29/58] fix: accept LVM2 volume groups without logical volumes

---
 dissect/volume/lvm/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index ab3bd7e..f4a7a78 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -56,8 +56,8 @@ class VolumeGroup(MetaBase):
     max_lv: int
     max_pv: int
     physical_volumes: dict[str, PhysicalVolume]
-    logical_volumes: dict[str, LogicalVolume]
 
+    logical_volumes: dict[str, LogicalVolume] | None
     system_id: str | None
     allocation_policy: str | None
     profile: str | None
-- 
2.43.0


From 4b41fe234840cf30de9ae078671ea4c699360213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:23 +0000
Subject: [PATCH 30/58] fix: interleave the stripes of striped LVM2 segments

---
 dissect/volume/lvm/metadata.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index f4a7a78..a3d12ce 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -13,6 +13,8 @@ from dissect.volume.dm.thin import ThinPool
 from dissect.volume.exceptions import LVM2Error
 from dissect.volume.lvm.c_lvm2 import SECTOR_SIZE
 from dissect.volume.lvm.physical import LVM2Device  # noqa: TC001
+from dissect.volume.raid.raid import PhysicalDisk, VirtualDisk
+from dissect.volume.raid.stream import Level
 
 if TYPE_CHECKING:
     from dissect.util.stream import RunlistStream
@@ -376,6 +378,24 @@ class StripedSegment(Segment):
         pv = self._logical_volume._volume_group.physical_volumes
         extent_size = self._logical_volume._volume_group.extent_size * SECTOR_SIZE
 
+        if len(self.stripes) > 1:
+            # The data is interleaved over the stripes, so this is basically a RAID0 set
+            size = self.extent_count * extent_size
+            disk_map = {
+                idx: (0, PhysicalDisk(pv[pv_name].open(), extent_offset * extent_size, size // len(self.stripes)))
+                for idx, (pv_name, extent_offset) in enumerate(self.stripes)
+            }
+            return VirtualDisk(
+                self.logical_volume.name,
+                self.logical_volume.id,
+                size,
+                Level.RAID0,
+                0,
+                self.stripe_size * SECTOR_SIZE,
+                len(self.stripes),
+                disk_map,
+            ).open()
+
         opened_pv = {}
 
         offset = 0
-- 
2.43.0


From cdf89b2c9480565d9e956112055c0e8f5c66f725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:23 +0000
Subject: [PATCH 31/58] fix: start reading LVM2 mirror segments at their extent
 of the mirror

---
 dissect/volume/lvm/metadata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dissect/volume/lvm/metadata.py b/dissect/volume/lvm/metadata.py
index a3d12ce..1e10b09 100644
--- a/dissect/volume/lvm/metadata.py
+++ b/dissect/volume/lvm/metadata.py
@@ -7,7 +7,7 @@ from types import UnionType
 from typing import TYPE_CHECKING, BinaryIO, get_args, get_origin, get_type_hints
 
 from dissect.util import ts
-from dissect.util.stream import MappingStream
+from dissect.util.stream import MappingStream, RangeStream
 
 from dissect.volume.dm.thin import ThinPool
 from dissect.volume.exceptions import LVM2Error
@@ -428,10 +428,11 @@ class MirrorSegment(Segment):
 
     def open(self) -> BinaryIO:
         # Just open the first mirror we can
-        for lv_name, _ in self.mirrors:
+        extent_size = self._logical_volume._volume_group.extent_size * SECTOR_SIZE
+        for lv_name, extent_offset in self.mirrors:
             try:
                 lv = self._logical_volume._volume_group.logical_volumes[lv_name]
-                return lv.open()
+                return RangeStream(lv.open(), extent_offset * extent_size, self.extent_count * extent_size)
             except Exception:  # noqa: PERF203
                 pass
         else:
-- 
2.43.0


From b28fcf4641883f47db2e833047746b7bc08b95b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:26:33 +0000
Subject: [PATCH 32/58] fix: keep reading thin devices after unprovisioned
 blocks

---
 dissect/volume/dm/thin.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index fe18550..ca063ae 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -75,23 +75,20 @@ class ThinDevice(AlignedStream):
 
         result = []
         while length > 0:
+            read_size = min(length, self.block_size)
+
             block_info = data_mapping.lookup([self.device_id, block])
             if block_info is None:
-                remaining = length
-                if self.size is None or (remaining := self.size - offset) > 0:
-                    return b"\x00" * min(length, remaining)
-
-                break
+                # Block is not provisioned
+                result.append(b"\x00" * read_size)
+            else:
+                block_time = int.from_bytes(block_info, "little")
+                data_block, _ = _unpack_block_time(block_time)
 
-            block_time = int.from_bytes(block_info, "little")
-            data_block, _ = _unpack_block_time(block_time)
-
-            read_size = min(length, self.block_size)
-            data_fh.seek(data_block * self.block_size)
-            result.append(data_fh.read(read_size))
+                data_fh.seek(data_block * self.block_size)
+                result.append(data_fh.read(read_size))
 
             length -= read_size
-            offset += read_size
             block += 1
 
         return b"".join(result)
-- 
2.43.0


From b42930f9453d27aa4bf567fd975d7ffac385c351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:41 +0000
Subject: [PATCH 33/58] fix: open disks with BSD partitions that have no
 disklabel

---
 dissect/volume/disk/disk.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index 183a508..eb19c72 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -39,7 +39,13 @@ class Disk:
         for partition in main_scheme.partitions:
             # BSD disklabel can also be relative from any other partition
             if partition.type in BSD.TYPES:
-                self.scheme = BSD(partition.open(), sector_size=self.sector_size)
+                try:
+                    self.scheme = BSD(partition.open(), sector_size=self.sector_size)
+                except Exception:
+                    # No valid disklabel, treat it like any other partition
+                    self.partitions.append(partition)
+                    continue
+
                 self.partitions.extend(self.scheme.partitions)
             else:
                 self.partitions.append(partition)
-- 
2.43.0


From a5a2e4941a089e9dfa37bfebeedac899e0ab1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:41 +0000
Subject: [PATCH 34/58] fix: detect protective MBRs without GPT next to BSD
 disklabels

---
 dissect/volume/disk/disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index eb19c72..4847839 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -50,7 +50,7 @@ class Disk:
             else:
                 self.partitions.append(partition)
 
-        if isinstance(self.scheme, MBR) and any(p.type == 0xEE for p in self.partitions):
+        if isinstance(main_scheme, MBR) and any(p.type == 0xEE for p in main_scheme.partitions):
             raise DiskError("Found GPT type partition, but MBR scheme detected. Maybe 4K sector size.")
 
     @property
-- 
2.43.0


From 3764df60b41532d276aebd843ff398e5ae6e306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:37 +0000
Subject: [PATCH 35/58] fix: recognize boot sectors written by mkfs.fat

---
 dissect/volume/disk/schemes/mbr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/disk/schemes/mbr.py b/dissect/volume/disk/schemes/mbr.py
index 7aa56ab..7389a99 100644
--- a/dissect/volume/disk/schemes/mbr.py
+++ b/dissect/volume/disk/schemes/mbr.py
@@ -48,7 +48,10 @@ class MBR:
 
         # This sucks but don't have a better way atm
         sig = self.mbr.bootcode[3:11]
-        if any(v in sig for v in [b"MSDOS", b"MSWIN", b"NTFS", b"FAT", b"EXFAT", b"-FVE-FS-", b"SYSLINUX"]):
+        if any(
+            v in sig
+            for v in [b"MSDOS", b"MSWIN", b"NTFS", b"FAT", b"EXFAT", b"-FVE-FS-", b"SYSLINUX", b"mkfs.fat", b"mkdosfs"]
+        ):
             raise DiskError("Sector is a filesystem VBR, not an MBR")
 
         if self.mbr.bootcode[18:38] == b"Hit Esc for .altboot" or self.mbr.bootcode[168:174] == b"\r\nQNX ":
-- 
2.43.0


From 32db6894e684c7ec3136895f996ed7520a6c9fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:37 +0000
Subject: [PATCH 36/58] fix: stop at loops in the chain of extended boot
 records

---
 dissect/volume/disk/schemes/mbr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dissect/volume/disk/schemes/mbr.py b/dissect/volume/disk/schemes/mbr.py
index 7389a99..e6d95aa 100644
--- a/dissect/volume/disk/schemes/mbr.py
+++ b/dissect/volume/disk/schemes/mbr.py
@@ -57,6 +57,7 @@ class MBR:
         if self.mbr.bootcode[18:38] == b"Hit Esc for .altboot" or self.mbr.bootcode[168:174] == b"\r\nQNX ":
             raise DiskError("Sector is a QNX Boot Sector, not an MBR")
 
+        self._ebr_offsets = {self.offset}
         self.partitions: list[Partition] = list(self._partitions(self.mbr, self.offset))
 
     def _partitions(
@@ -75,6 +76,11 @@ class MBR:
                     # Chained extended MBRs are relative to the first one
                     part_offset = ebr_offset + partition.sector_ofs * self.sector_size
 
+                if part_offset in self._ebr_offsets:
+                    # Prevent loops in the chain
+                    continue
+                self._ebr_offsets.add(part_offset)
+
                 self.fh.seek(part_offset)
                 e_mbr = c_mbr.mbr_s(self.fh)
                 yield from self._partitions(e_mbr, part_offset, num_start + num, ebr_offset=ebr_offset)
-- 
2.43.0


From e70cb17b3565180021bf795b75fe78f720e09d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:14 +0000
Subject: [PATCH 37/58] fix: read the thin-pool superblock from the start of
 the metadata device

---
 dissect/volume/dm/thin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index ca063ae..7d9d0bc 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -35,6 +35,7 @@ class Metadata:
 
     def __init__(self, fh: BinaryIO):
         self.fh = fh
+        self.fh.seek(0)
         self.sb = c_dm.thin_disk_superblock(fh)
         if self.sb.magic != c_dm.THIN_SUPERBLOCK_MAGIC:
             raise DMError("Invalid magic for thin-pool metadata superblock")
-- 
2.43.0


From 6adf31efdef837aa8fc79f096f30d20506863b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:14 +0000
Subject: [PATCH 38/58] fix: end mirrored DDF virtual disks where they end on
 the disk

---
 dissect/volume/raid/raid.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dissect/volume/raid/raid.py b/dissect/volume/raid/raid.py
index 0bda7cf..112a212 100644
--- a/dissect/volume/raid/raid.py
+++ b/dissect/volume/raid/raid.py
@@ -72,10 +72,9 @@ class VirtualDisk:
             # Don't really care which mirror to read from, so just open the first disk we have.
             # We don't know if we have the first disk or the n-th disk so we select the first
             # available disk using an iterable.
-            _, (data_offset, disk) = next(iter(self.disk_map.items()))
-            if data_offset:
-                return RangeStream(disk.open(), data_offset, disk.size - data_offset)
-            return disk.open()
+            idx, (data_offset, disk) = next(iter(self.disk_map.items()))
+            size = self.disk_sizes.get(idx, disk.size - data_offset)
+            return RangeStream(disk.open(), data_offset, size)
         if self.level in (Level.RAID4, Level.RAID5, Level.RAID6):
             return RAID456Stream(self)
         if self.level == Level.RAID10:
-- 
2.43.0


From b58b911d5cacd69cc44394e80087f1f18283ef3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:53:56 +0000
Subject: [PATCH 39/58] fix: skip DDF virtual disks without any available disk

---
 dissect/volume/ddf/ddf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/ddf/ddf.py b/dissect/volume/ddf/ddf.py
index 04b5bf2..42c2eaa 100644
--- a/dissect/volume/ddf/ddf.py
+++ b/dissect/volume/ddf/ddf.py
@@ -72,7 +72,8 @@ class DDFConfiguration(Configuration):
                 if pds != 0xFFFFFFFF:
                     i += 1
 
-        virtual_disks = [DDFVirtualDisk(vdcr_map[guid], vde_map[guid], vd_map[guid]) for guid in vd_map]
+        # Records can describe virtual disks of which none of the disks are available
+        virtual_disks = [DDFVirtualDisk(vdcr_map[guid], vde_map[guid], disks) for guid, disks in vd_map.items() if disks]
         super().__init__(physical_disks, virtual_disks)
 
 
-- 
2.43.0


From 13ced747d240c9254780b524026ff2838019d262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:08 +0000
Subject: [PATCH 40/58] fix: stop at loops and invalid nodes in device-mapper
 B-trees

---
 dissect/volume/dm/btree.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dissect/volume/dm/btree.py b/dissect/volume/dm/btree.py
index 8cf31b3..014682d 100644
--- a/dissect/volume/dm/btree.py
+++ b/dissect/volume/dm/btree.py
@@ -4,6 +4,7 @@ from functools import lru_cache
 from typing import BinaryIO
 
 from dissect.volume.dm.c_dm import SECTOR_SIZE, c_dm
+from dissect.volume.exceptions import DMError
 
 
 class BTree:
@@ -37,7 +38,12 @@ class BTree:
 
     def _lookup(self, root: int, key: int, want_high: bool = False) -> tuple[int | None, bytes | None]:
         block = root
+        visited = set()
         while True:
+            if block in visited:
+                raise DMError(f"Loop in B-tree at block {block}")
+            visited.add(block)
+
             node = self._read_node(block)
 
             low = -1
@@ -64,6 +70,8 @@ class BTree:
                 block = int.from_bytes(node.value(result), "little")
             elif node.is_leaf:
                 return node.key(result), node.value(result)
+            else:
+                raise DMError(f"Invalid B-tree node at block {block}")
 
 
 class Node:
-- 
2.43.0


From 2c7b634e122d5e2df5b943b6a400238d96beed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:08 +0000
Subject: [PATCH 41/58] fix: look for LVM2 descriptors only in the sector of
 their header

---
 dissect/volume/lvm/physical.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index 78dd32f..bf573e2 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import ast
+import io
 import re
 from bisect import bisect_right
 from functools import cached_property
@@ -29,25 +30,29 @@ class LVM2Device:
         else:
             raise LVM2Error("Can't find physical volume label header")
 
-        fh.seek(self.label_offset + self.label.offset)
+        # The header and its descriptors are in the same sector as the label
+        fh.seek(self.label_offset)
+        label_fh = io.BytesIO(fh.read(SECTOR_SIZE))
+        label_fh.seek(self.label.offset)
 
-        self.header = c_lvm.pv_header(fh)
+        self.header = c_lvm.pv_header(label_fh)
         self.id = self.header.pv_uuid.decode()
         self.size = self.header.device_size
 
-        self._data_area_descriptors = _read_descriptors(fh, c_lvm.disk_locn)
+        self._data_area_descriptors = _read_descriptors(label_fh, c_lvm.disk_locn)
 
         if len(self._data_area_descriptors) != 1:
             # According to the LVM2 code, there should only be 1 data area descriptor for each Physical Volume
             raise RuntimeError(f"There should be 1 data area descriptor, found {len(self._data_area_descriptors)}")
 
-        self._metadata_area_descriptors = _read_descriptors(fh, c_lvm.disk_locn)
+        self._metadata_area_descriptors = _read_descriptors(label_fh, c_lvm.disk_locn)
 
         self._metadata_areas = []
         for desc in self._metadata_area_descriptors:
             self.fh.seek(desc.offset)
-            header = c_lvm.mda_header(self.fh)
-            raw_location_descriptors = _read_descriptors(self.fh, c_lvm.raw_locn)
+            mda_fh = io.BytesIO(self.fh.read(MDA_HEADER_SIZE))
+            header = c_lvm.mda_header(mda_fh)
+            raw_location_descriptors = _read_descriptors(mda_fh, c_lvm.raw_locn)
             self._metadata_areas.append((header, raw_location_descriptors))
 
         self._data_area_offsets = []
-- 
2.43.0


From 920f6b52184372d82dadf993d069a20824dbb705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:08 +0000
Subject: [PATCH 42/58] fix: refuse LVM2 metadata that is larger than its
 metadata area

---
 dissect/volume/lvm/physical.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index bf573e2..f3f85e6 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -79,6 +79,8 @@ class LVM2Device:
 
         offset = raw_locn[0].offset
         size = raw_locn[0].size - 1
+        if offset > mda_header.size or size > mda_header.size:
+            raise LVM2Error("LVM2 metadata is outside of its metadata area")
 
         # The metadata area is circular, so the remainder continues right after the header
         wrapped_size = max(0, offset + size - mda_header.size)
-- 
2.43.0


From 0de1252af8aba621ae1df8a4a351383795cef7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:13 +0000
Subject: [PATCH 43/58] fix: refuse GPT partition tables of an impossible size

A damaged entry count or entry size made the disk list up to four billion
partitions.
---
 dissect/volume/disk/schemes/gpt.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dissect/volume/disk/schemes/gpt.py b/dissect/volume/disk/schemes/gpt.py
index b149e1c..d8a64f2 100644
--- a/dissect/volume/disk/schemes/gpt.py
+++ b/dissect/volume/disk/schemes/gpt.py
@@ -52,6 +52,10 @@ struct GPT_PARTITION {
 c_gpt = cstruct().load(gpt_def)
 
 
+# Tables larger than this are not sane, Linux has the same limit
+MAX_PARTITION_TABLE_SIZE = 4 * 1024 * 1024
+
+
 class GPT:
     """GUID Partition Table."""
 
@@ -71,6 +75,13 @@ class GPT:
         if self.gpt.signature != b"EFI PART":
             raise DiskError(f"Invalid GPT signature, expected 'EFI PART', got {self.gpt.signature!r}.")
 
+        entry_size = self.gpt.partition_entry_size
+        if (
+            entry_size < len(c_gpt.GPT_PARTITION)
+            or self.gpt.partition_table_count * entry_size > MAX_PARTITION_TABLE_SIZE
+        ):
+            raise DiskError(f"Invalid GPT table of {self.gpt.partition_table_count} entries of {entry_size} bytes.")
+
         self.partitions: list[Partition] = list(self._partitions())
 
     def _partitions(self) -> Iterator[Partition]:
-- 
2.43.0


From b0e1a3adadacd304aca5fb6e9bf6d9098974924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:13 +0000
Subject: [PATCH 44/58] fix: refuse BSD disklabels with more partitions than
 there is room for

A damaged partition count of a 64 bit disklabel made the disk read up to
four billion entries.
---
 dissect/volume/disk/schemes/bsd.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/volume/disk/schemes/bsd.py b/dissect/volume/disk/schemes/bsd.py
index 65e1fb0..324d498 100644
--- a/dissect/volume/disk/schemes/bsd.py
+++ b/dissect/volume/disk/schemes/bsd.py
@@ -315,6 +315,11 @@ class BSD:
             # disklabel64
             self.disklabel = c_bsd.disklabel64(data)
             self.type = 64
+
+            # The label is in front of the first allocatable byte
+            table_size = self.disklabel.d_npartitions * len(c_bsd.partition64)
+            if sector_size + len(self.disklabel) + table_size > self.disklabel.d_pbase:
+                raise DiskError(f"Invalid number of partitions in BSD disklabel: {self.disklabel.d_npartitions}.")
         else:
             raise DiskError(
                 f"Invalid BSD disklabel magic, expected {c_bsd.BSD_MAGIC:#x} or {c_bsd.DISKMAGIC64:#x}, got {magic:#x}."
-- 
2.43.0


From 6a010367f51d23512b693089373ff22c3a674beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:13 +0000
Subject: [PATCH 45/58] fix: stop at loops in VSS block lists

A block with a link to an earlier block of the same list was read again
and again until memory ran out.
---
 dissect/volume/vss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 9d3cf94..5ac699a 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -653,8 +653,13 @@ def read_block(fh: BinaryIO, offset: int, struct: type[Structure]) -> tuple[Stru
     header, buf = read_block_data(fh, offset, struct)
 
     r = [buf]
+    seen = {offset}
     offset = header.next_offset
     while offset != 0:
+        if offset in seen:
+            raise Error(f"Loop in VSS block list at {offset:#x}")
+        seen.add(offset)
+
         nheader, buf = read_block_data(fh, offset, struct)
         offset = nheader.next_offset
         r.append(buf)
-- 
2.43.0


From b7e6c824d2ef8facf6033b29fb5a3f890f2dc31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:13 +0000
Subject: [PATCH 46/58] fix: read no more vinum configuration than a copy can
 hold

A damaged configuration length made opening a drive read all of the disk.
---
 dissect/volume/vinum/vinum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/vinum/vinum.py b/dissect/volume/vinum/vinum.py
index 139c853..2010e0d 100644
--- a/dissect/volume/vinum/vinum.py
+++ b/dissect/volume/vinum/vinum.py
@@ -352,7 +352,7 @@ class VinumPhysicalDisk(PhysicalDisk):
 
     def _read_config(self, config_offset: int) -> bytes:
         self.fh.seek(config_offset)
-        return self.fh.read(self.header.config_length)
+        return self.fh.read(min(self.header.config_length, c_vinum.GV_CFG_LEN))
 
     @cached_property
     def config(self) -> bytes:
-- 
2.43.0


From 06defb255e42b08da9e2d37677ee10f53e9ff6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:13 +0000
Subject: [PATCH 47/58] fix: refuse thin-pools with an invalid data block size

Reading a single byte of a thin device with a damaged data block size
allocated up to two terabytes of memory.
---
 dissect/volume/dm/thin.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index 7d9d0bc..2514daf 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -9,6 +9,10 @@ from dissect.volume.dm.c_dm import SECTOR_SIZE, c_dm
 from dissect.volume.exceptions import DMError
 
 
+# Largest data block of a thin-pool, in sectors
+MAX_DATA_BLOCK_SIZE = (1024 * 1024 * 1024) // SECTOR_SIZE
+
+
 class ThinPool:
     """Interact with a device-mapper thin-provision pool."""
 
@@ -40,6 +44,9 @@ class Metadata:
         if self.sb.magic != c_dm.THIN_SUPERBLOCK_MAGIC:
             raise DMError("Invalid magic for thin-pool metadata superblock")
 
+        if not 0 < self.sb.data_block_size <= MAX_DATA_BLOCK_SIZE:
+            raise DMError(f"Invalid data block size for thin-pool: {self.sb.data_block_size}")
+
         self.data_block_size = self.sb.data_block_size
         self.metadata_block_size = self.sb.metadata_block_size
 
-- 
2.43.0


From 56de391919fac427612ade70191929c6a3f6236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:46 +0000
Subject: [PATCH 48/58] fix: bound LVM2 metadata by the area in the physical
 volume header too

The metadata area header can be damaged itself, which made opening a device
read all of the disk.
---
 dissect/volume/lvm/physical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/lvm/physical.py b/dissect/volume/lvm/physical.py
index f3f85e6..4111885 100644
--- a/dissect/volume/lvm/physical.py
+++ b/dissect/volume/lvm/physical.py
@@ -79,7 +79,8 @@ class LVM2Device:
 
         offset = raw_locn[0].offset
         size = raw_locn[0].size - 1
-        if offset > mda_header.size or size > mda_header.size:
+        area_size = min(mda_header.size, self._metadata_area_descriptors[0].size)
+        if offset > area_size or size > area_size:
             raise LVM2Error("LVM2 metadata is outside of its metadata area")
 
         # The metadata area is circular, so the remainder continues right after the header
-- 
2.43.0


From b3122325cc5fa141537e4e58fa406626d21e8c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:46 +0000
Subject: [PATCH 49/58] fix: check the signature of every APM entry

A damaged entry count listed whatever follows the partition map as
partitions.
---
 dissect/volume/disk/schemes/apm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dissect/volume/disk/schemes/apm.py b/dissect/volume/disk/schemes/apm.py
index 4645580..8c9067a 100644
--- a/dissect/volume/disk/schemes/apm.py
+++ b/dissect/volume/disk/schemes/apm.py
@@ -60,6 +60,8 @@ class APM:
         self.fh.seek(self._partitions_offset)
         for i in range(self.apm.partition_count):
             p = self.apm if i == 0 else c_apm.partition_entry(self.fh)
+            if p.signature != b"PM":
+                raise DiskError(f"Invalid APM signature, expected 'PM', got {p.signature!r}.")
 
             yield Partition(
                 disk=self,
-- 
2.43.0


From 02e007c3940d68dabca08a9442cfb57eabc8058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:36 +0000
Subject: [PATCH 50/58] fix: read VSS range lists block by block

A range list with a full block (677 entries) raised an EOFError, because a block
holds no whole number of entries and the remainder was taken as an entry.
---
 dissect/volume/vss.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 5ac699a..8cc66ac 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -491,12 +491,16 @@ class RangeList:
 
         buf = memoryview(data)
         self.entries = []
-        for entry_offset in range(0, len(data), STORE_RANGELIST_ENTRY_SIZE):
-            entry_buf = buf[entry_offset : entry_offset + STORE_RANGELIST_ENTRY_SIZE]
-            if entry_buf == b"\x00" * STORE_RANGELIST_ENTRY_SIZE:
-                break
-            entry = c_vss.range_descriptor(entry_buf)
-            self.entries.append(entry)
+        # Entries don't span blocks, the remainder at the end of a block is unused
+        block_size = STORE_BLOCK_SIZE - len(c_vss.store_header)
+        for block_offset in range(0, len(data), block_size):
+            for i in range(block_size // STORE_RANGELIST_ENTRY_SIZE):
+                entry_offset = block_offset + i * STORE_RANGELIST_ENTRY_SIZE
+                entry_buf = buf[entry_offset : entry_offset + STORE_RANGELIST_ENTRY_SIZE]
+                if entry_buf == b"\x00" * STORE_RANGELIST_ENTRY_SIZE:
+                    break
+                entry = c_vss.range_descriptor(entry_buf)
+                self.entries.append(entry)
 
 
 class StoreBitmap:
-- 
2.43.0


From e55c04e745d8460e4f2678591b87c5fb9130fd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:01 +0000
Subject: [PATCH 51/58] fix: allow VSS stores without a previous bitmap

Reading a block without a record from such a store raised an error about an
invalid identifier, because the offset of 0 was taken as that of a bitmap.
---
 dissect/volume/vss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 8cc66ac..1aa7126 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -305,7 +305,9 @@ class Store:
         return StoreBitmap(self, self.desc3.store_bitmap_offset)
 
     @cached_property
-    def previous_bitmap(self) -> StoreBitmap:
+    def previous_bitmap(self) -> StoreBitmap | None:
+        if self.desc3.store_previous_bitmap_offset == 0:
+            return None
         return StoreBitmap(self, self.desc3.store_previous_bitmap_offset)
 
     def read_block(self, block: int, active_store: Store | None = None) -> bytes:
-- 
2.43.0


From bbc63e1153373482aaf33452e1e8cbf983b064a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:29 +0000
Subject: [PATCH 52/58] fix: name BSD partition types by the BSD file system
 type

The type name of partitions of a BSD disklabel was looked up in the table
of MBR types, so that for example a 4.2BSD partition was named NTFS.
---
 dissect/volume/disk/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/disk/partition.py b/dissect/volume/disk/partition.py
index 00935a7..a0c5d41 100644
--- a/dissect/volume/disk/partition.py
+++ b/dissect/volume/disk/partition.py
@@ -219,7 +219,7 @@ class Partition:
         self.flags = flags
         self.guid = guid
         self.type_str = type_str or translate_partition_type(self.type)
-        self.type_name = translate_partition_type(self.type, False)
+        self.type_name = type_str or translate_partition_type(self.type, False)
         self.raw = raw
 
     def __repr__(self) -> str:
-- 
2.43.0


From 43e3087b475e333f057ef524181b1b72c8abf38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:49 +0000
Subject: [PATCH 53/58] fix: do not look for disklabels in BSD partitions by
 MBR type

The file system types of a BSD disklabel on a bare disk were compared with
the MBR partition types for BSD, so that a partition whose file system type
has the same number was replaced by the partitions of the label again.
---
 dissect/volume/disk/disk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/disk/disk.py b/dissect/volume/disk/disk.py
index 4847839..d825255 100644
--- a/dissect/volume/disk/disk.py
+++ b/dissect/volume/disk/disk.py
@@ -38,7 +38,7 @@ class Disk:
         main_scheme = self.scheme
         for partition in main_scheme.partitions:
             # BSD disklabel can also be relative from any other partition
-            if partition.type in BSD.TYPES:
+            if partition.type in BSD.TYPES and not isinstance(main_scheme, BSD):
                 try:
                     self.scheme = BSD(partition.open(), sector_size=self.sector_size)
                 except Exception:
-- 
2.43.0


From 93667daacd336f62beb392fa466cc69c591ce963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:44 +0000
Subject: [PATCH 54/58] fix: refuse 64 bit BSD disklabels with an impossible
 number of partitions

A label with both the partition count and the first allocatable byte damaged
still made the disk read up to four billion entries.
---
 dissect/volume/disk/schemes/bsd.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dissect/volume/disk/schemes/bsd.py b/dissect/volume/disk/schemes/bsd.py
index 324d498..e1cdd51 100644
--- a/dissect/volume/disk/schemes/bsd.py
+++ b/dissect/volume/disk/schemes/bsd.py
@@ -316,9 +316,7 @@ class BSD:
             self.disklabel = c_bsd.disklabel64(data)
             self.type = 64
 
-            # The label is in front of the first allocatable byte
-            table_size = self.disklabel.d_npartitions * len(c_bsd.partition64)
-            if sector_size + len(self.disklabel) + table_size > self.disklabel.d_pbase:
+            if self.disklabel.d_npartitions > c_bsd.RESPARTITIONS64:
                 raise DiskError(f"Invalid number of partitions in BSD disklabel: {self.disklabel.d_npartitions}.")
         else:
             raise DiskError(
-- 
2.43.0


From 644814efcbd54325ca03914457302eb9b4586dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:44 +0000
Subject: [PATCH 55/58] fix: refuse thin-pools with an invalid metadata block
 size

A damaged size in the superblock made every lookup read up to 2 TiB from
the metadata device.
---
 dissect/volume/dm/thin.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dissect/volume/dm/thin.py b/dissect/volume/dm/thin.py
index 2514daf..8c7b886 100644
--- a/dissect/volume/dm/thin.py
+++ b/dissect/volume/dm/thin.py
@@ -11,6 +11,8 @@ from dissect.volume.exceptions import DMError
 
 # Largest data block of a thin-pool, in sectors
 MAX_DATA_BLOCK_SIZE = (1024 * 1024 * 1024) // SECTOR_SIZE
+# Metadata blocks are 4 KiB, allow for some more, in sectors
+MAX_METADATA_BLOCK_SIZE = (1024 * 1024) // SECTOR_SIZE
 
 
 class ThinPool:
@@ -47,6 +49,9 @@ class Metadata:
         if not 0 < self.sb.data_block_size <= MAX_DATA_BLOCK_SIZE:
             raise DMError(f"Invalid data block size for thin-pool: {self.sb.data_block_size}")
 
+        if not 0 < self.sb.metadata_block_size <= MAX_METADATA_BLOCK_SIZE:
+            raise DMError(f"Invalid metadata block size for thin-pool: {self.sb.metadata_block_size}")
+
         self.data_block_size = self.sb.data_block_size
         self.metadata_block_size = self.sb.metadata_block_size
 
-- 
2.43.0


From d14c1924e29eae239aff88ed23617422b7376c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:16 +0000
Subject: [PATCH 56/58] fix: compare VSS block descriptors

Comparing two of them raised a TypeError, the arguments of isinstance()
were the wrong way around.
---
 dissect/volume/vss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 1aa7126..6cd5542 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -633,7 +633,7 @@ class BlockDescriptor:
         self.is_forwarder = bool(self.flags & BLOCK_FLAG.IS_FORWARDER)
 
     def __eq__(self, other: object) -> bool:
-        if not isinstance(BlockDescriptor, other):
+        if not isinstance(other, BlockDescriptor):
             return False
 
         return (
-- 
2.43.0


From 32b0a3f0fa60fbb0b6443d95d3d581b312374626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:43 +0000
Subject: [PATCH 57/58] fix: name the length fields of LDM records correctly

The object id and disk group id referred to length fields that do not
exist, so no component, partition, disk or disk group could be parsed.
---
 dissect/volume/ldm.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dissect/volume/ldm.py b/dissect/volume/ldm.py
index 5aa26ac..eaa06cc 100644
--- a/dissect/volume/ldm.py
+++ b/dissect/volume/ldm.py
@@ -134,7 +134,7 @@ struct VBLK_COMPONENT {
     uint16      record_type;
     uint32      data_length;
     uint8       object_id_len;
-    char        object_id[objectid_len];
+    char        object_id[object_id_len];
     uint8       name_len;
     char        name[name_len];
     uint8       volume_state_len;
@@ -159,7 +159,7 @@ struct VBLK_PARTITION {
     uint16      record_type;
     uint32      data_length;
     uint8       object_id_len;
-    char        object_id[objectid_len];
+    char        object_id[object_id_len];
     uint8       name_len;
     char        name[name_len];
     char        zeroes[4];
@@ -181,7 +181,7 @@ struct VBLK_DISK3 {
     uint16      record_type;
     uint32      data_length;
     uint8       object_id_len;
-    char        object_id[objectid_len];
+    char        object_id[object_id_len];
     uint8       name_len;
     char        name[name_len];
     uint8       disk_id_len;
@@ -197,7 +197,7 @@ struct VBLK_DISK4 {
     uint16      record_type;
     uint32      data_length;
     uint8       object_id_len;
-    char        object_id[objectid_len];
+    char        object_id[object_id_len];
     uint8       name_len;
     char        name[name_len];
     char        disk_id1[16];
@@ -212,11 +212,11 @@ struct VBLK_DISK_GROUP3 {
     uint16      record_type;
     uint32      data_length;
     uint8       object_id_len;
-    char        object_id[objectid_len];
+    char        object_id[object_id_len];
     uint8       name_len;
     char        name[name_len];
     uint8       disk_group_id_len;
-    char        disk_group_id[disk_id_len];
+    char        disk_group_id[disk_group_id_len];
     char        zeroes[4];
     uint64      log_commit_id;
     // 0xffffffff
@@ -228,7 +228,7 @@ struct VBLK_DISK_GROUP4 {
     uint16      record_type;
     uint32      data_length;
     uint8       object_id_len;
-    char        object_id[objectid_len];
+    char        object_id[object_id_len];
     uint8       name_len;
     char        name[name_len];
     char        disk_group_id[16];
-- 
2.43.0


From 12726552d86328205ffed47a2dbd6a4356100d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:26 +0000
Subject: [PATCH 58/58] fix: do not print while reading shadow copies

Reading a forwarded block of a snapshot that has a newer one, or a block
behind the end of the volume, wrote debug output to standard output.
---
 dissect/volume/vss.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dissect/volume/vss.py b/dissect/volume/vss.py
index 6cd5542..44f9f68 100644
--- a/dissect/volume/vss.py
+++ b/dissect/volume/vss.py
@@ -326,7 +326,6 @@ class Store:
         if descriptor:
             if descriptor.is_forwarder:
                 if self.next_store:
-                    print("DEBUG THIS")
                     buf = self.next_store.read_block(descriptor.relative_offset // 0x4000, self)
                 else:
                     self.fh.seek(descriptor.relative_offset)
@@ -355,9 +354,7 @@ class Store:
                     buf = self.fh.read(BLOCK_SIZE)
 
         if not buf:
-            print("booboo")
-            print("Descriptor", descriptor)
-            raise ValueError("Error reading block")
+            raise ValueError(f"Error reading block {block} (descriptor: {descriptor})")
 
         if descriptor and active_store is self and (descriptor.is_overlay or descriptor.overlay):
             # print("overlaying data")
-- 
2.43.0

