"""Constructive RAID layout models.

Every layout is described by writing down the row table (which member holds P,
Q and which data chunk) the way the layout is documented, then looking chunks
up in that table.
"""
from __future__ import annotations

from functools import lru_cache

from vmon.content import ChunkMap, Extents, Model

# layout numbers (Linux MD numbering)
LA, RA, LS, RS, P0, PN, ZR, NR, NC = 0, 1, 2, 3, 4, 5, 8, 9, 10
LA6, RA6, LS6, RS6, P06 = 16, 17, 18, 19, 20
RAID5_LAYOUTS = [LA, RA, LS, RS, P0, PN]
RAID6_LAYOUTS = [LA, RA, LS, RS, P0, PN, ZR, NR, NC, LA6, RA6, LS6, RS6, P06]


@lru_cache(None)
def parity_row(level: int, layout: int, n: int, row: int) -> tuple:
    """Member list of one row: ints are data chunk indexes within the row, 'P'/'Q' parity."""
    if level == 6 and layout in (LA6, RA6, LS6, RS6, P06):
        return parity_row(5, layout - 16, n - 1, row) + ("Q",)
    slots: list = [None] * n
    order = None
    if level == 4:
        p, q, after = n - 1, None, None
    elif level == 5:
        q = None
        # "left": parity starts on the last member and moves left; "right": starts on the first and moves right
        p = {LA: n - 1 - row % n, LS: n - 1 - row % n, RA: row % n, RS: row % n, P0: 0, PN: n - 1}[layout]
        after = p if layout in (LS, RS) else None
    else:
        if layout in (LA, LS):
            p = n - 1 - row % n
            q = (p + 1) % n
        elif layout in (RA, RS, ZR):
            p = row % n
            q = (p + 1) % n
        elif layout == P0:
            p, q = 0, 1
        elif layout == PN:
            p, q = n - 2, n - 1
        elif layout == NR:
            # row 0 is D D .. P Q, moving left
            p = (n - 2 - row) % n
            q = (p + 1) % n
        elif layout == NC:
            # row 0 is D .. Q P, moving left
            p = (n - 1 - row) % n
            q = (p - 1) % n
        after = q if layout in (LS, RS) else p if layout == NC else None
    slots[p] = "P"
    if q is not None:
        slots[q] = "Q"
    # data either restarts at the first member or continues after the parity, wrapping
    order = range(n) if after is None else [(after + 1 + i) % n for i in range(n)]
    k = 0
    for m in order:
        if slots[m] is None:
            slots[m] = k
            k += 1
    return tuple(slots)


@lru_cache(None)
def _inverse(level, layout, n, row):
    r = parity_row(level, layout, n, row)
    return {v: m for m, v in enumerate(r) if v not in ("P", "Q")}


def parity_locate(level: int, layout: int, n: int, chunk_no: int):
    """(member, row) that holds the chunk."""
    data = n - (2 if level == 6 else 1)
    row, k = divmod(chunk_no, data)
    return _inverse(level, layout, n, row % (n * (n - 1)))[k], row


def parity_model(level: int, layout: int, chunk: int, members: list[tuple[Model, int]], size: int) -> ChunkMap:
    """members: per slot (model, byte offset of the data)."""
    n = len(members)

    def locate(no):
        m, row = parity_locate(level, layout, n, no)
        src, start = members[m]
        return src, start + row * chunk

    return ChunkMap(size, chunk, locate)


def parity_data_disks(level: int, n: int) -> int:
    return n - (2 if level == 6 else 1)


def raid0_extents(chunk: int, members: list[tuple[Model, int, int]], orig: bool = False) -> Extents:
    """members: (model, data start, size). Zone by zone: first a stripe over all members for as long as the
    smallest lasts, then over the remaining ones, and so on. Only for small numbers of chunks.

    orig: multi-zone layout of old kernels, where the member within a zone is chosen by the chunk number counted
    from the start of the array instead of from the start of the zone.
    """
    sizes = [s // chunk * chunk for _, _, s in members]
    levels = sorted(set(sizes))
    ext = []
    done = 0
    array_chunk = 0
    for lv in levels:
        alive = [i for i, s in enumerate(sizes) if s > done]
        if not alive or lv == 0:
            done = max(done, lv)
            continue
        for row in range((lv - done) // chunk):
            for j in range(len(alive)):
                pick = (array_chunk % len(alive)) if orig else j
                model, start, _ = members[alive[pick]]
                ext.append((chunk, model, start + done + row * chunk))
                array_chunk += 1
        done = lv
    return Extents(ext)


class Raid0Big(Model):
    """Same as raid0_extents in closed form per zone, for large members."""

    def __init__(self, chunk, members, orig=False):
        self.chunk = chunk
        self.members = members
        sizes = [s // chunk * chunk for _, _, s in members]
        self.zones = []  # (start, end, member start, alive)
        done = pos = 0
        for lv in sorted(set(sizes)):
            alive = [i for i, s in enumerate(sizes) if s > done]
            length = (lv - done) * len(alive)
            if length:
                self.zones.append((pos, pos + length, done, alive))
            pos += length
            done = lv
        self.size = pos
        self.orig = orig

    def read(self, offset, length):
        end = min(self.size, offset + max(0, length))
        out = []
        while offset < end:
            z0, z1, dstart, alive = next(z for z in self.zones if z[0] <= offset < z[1])
            no, skip = divmod(offset - z0, self.chunk)
            row, j = divmod(no, len(alive))
            if self.orig:
                j = (offset // self.chunk) % len(alive)
            model, start, _ = self.members[alive[j]]
            n = min(self.chunk - skip, end - offset)
            d = model.read(start + dstart + row * self.chunk + skip, n)
            assert len(d) == n, ("model source too short", n)
            out.append(d)
            offset += n
        return b"".join(out)


def linear_model(members: list[tuple[Model, int, int]]) -> Extents:
    return Extents([(size, model, start) for model, start, size in members])


def raid10_copies(n: int, near: int, far: int, offset_layout: bool, chunk_no: int, member_chunks: int | None = None):
    """First copy (member, chunk position on the member) of a chunk, by walking the near table.

    Near copies of consecutive chunks are laid out one after another over the members, row by row. With the offset
    layout every such row is followed on disk by far-1 rotated repeats of it; with the far layout the repeats live in
    later sections of the disk, so the first copy's row is the row itself.
    """
    cell = chunk_no * near
    row = cell // n
    member = cell - row * n
    if offset_layout:
        row = row * far
    return member, row


def raid10_all_copies(n, near, far, offset_layout, far_set_size, chunk_no, rows_per_section):
    """All (member, chunk row) copies; used to place copies when building images."""
    out = []
    row0, dev0 = divmod(chunk_no * near, n)
    base_row = row0 * far if offset_layout else row0
    for k in range(near):
        d = dev0 + k
        r = base_row
        if d >= n:
            d -= n
            r += far if offset_layout else 1
        out.append((d, r))
        fd, fr = d, r
        for _ in range(1, far):
            fset = fd // far_set_size
            last = (n // far_set_size - 1) * far_set_size
            fd2 = fd + near
            if n % far_set_size and fd >= last:
                size = far_set_size + n % far_set_size
                fd2 = last + (fd2 - last) % size
            else:
                fd2 = fset * far_set_size + (fd2 - fset * far_set_size) % far_set_size
            fr = fr + 1 if offset_layout else fr + rows_per_section
            fd = fd2
            out.append((fd, fr))
    return out


def raid10_model(chunk: int, members: list[tuple[Model, int]], near: int, far: int, offset_layout: bool, size: int) -> ChunkMap:
    n = len(members)

    def locate(no):
        m, row = raid10_copies(n, near, far, offset_layout, no)
        src, start = members[m]
        return src, start + row * chunk

    return ChunkMap(size, chunk, locate)
