"""Position-addressable content and the independent volume models built on it.

A model is anything with ``size`` and ``read(offset, length)``; reads are
clipped at the end like on a file.
"""
from __future__ import annotations

from bisect import bisect_left, bisect_right, insort
from random import Random

SECTOR = 512
_TABLE = int.from_bytes(Random("vmon-content-table").randbytes(SECTOR), "little")
_REP = sum(1 << (64 * i) for i in range(SECTOR // 8))
_ODD = 0x9E3779B97F4A7C15
_MASK = (1 << 64) - 1


def sector_bytes(disk_id: int, sector: int) -> bytes:
    """512 bytes that occur nowhere else: every 8-byte word depends on disk, sector and word index."""
    word = (((disk_id & 0xFFFF) << 48 | (sector & 0xFFFFFFFFFFFF)) * _ODD + 0x5851F42D4C957F2D) & _MASK
    word = ((word ^ word >> 31) * 0xBF58476D1CE4E5B9) & _MASK
    word ^= word >> 29
    return ((word * _REP) ^ _TABLE).to_bytes(SECTOR, "little")


def blob(disk_id: int, length: int) -> bytes:
    return b"".join(sector_bytes(disk_id, s) for s in range((length + SECTOR - 1) // SECTOR))[:length]


class Model:
    size: int

    def read(self, offset: int, length: int) -> bytes:
        raise NotImplementedError


def fresh_id(rng, n, others=()):
    """A new identifier of n bytes, often one that differs from another one in a single bit."""
    others = list(others)
    while True:
        if others and rng.random() < 0.5:
            raw = bytearray(rng.choice(others))
            raw[rng.randrange(n)] ^= 1 << rng.randrange(8)
            new = bytes(raw)
        else:
            new = rng.randbytes(n)
        if new not in others:
            return new


class SparseDisk(Model):
    """A disk of any size with generated content plus explicitly written bytes."""

    def __init__(self, disk_id: int, size: int, zero: bool = False):
        self.disk_id = disk_id
        self.size = size
        self.zero = zero
        self._over: dict[int, bytearray] = {}
        self._src: list[tuple[int, int, Model, int]] = []  # mapped-in models (start, end, model, model offset)
        self._longest = 0

    def _base(self, sector: int) -> bytes:
        return bytes(SECTOR) if self.zero else sector_bytes(self.disk_id, sector)

    def write(self, offset: int, data: bytes) -> None:
        assert offset >= 0 and offset + len(data) <= self.size, (offset, len(data), self.size)
        pos = 0
        while pos < len(data):
            sector, skip = divmod(offset + pos, SECTOR)
            n = min(SECTOR - skip, len(data) - pos)
            buf = self._over.get(sector)
            if buf is None:
                buf = self._over[sector] = bytearray(self._base(sector))
            buf[skip : skip + n] = data[pos : pos + n]
            pos += n

    def embed(self, offset: int, model: Model, length: int | None = None, model_offset: int = 0) -> None:
        """Make the bytes of ``model`` appear at ``offset`` (beneath explicit writes done later)."""
        length = model.size - model_offset if length is None else length
        assert offset + length <= self.size
        insort(self._src, (offset, offset + length, model, model_offset), key=lambda x: x[0])
        self._longest = max(self._longest, length)

    def read(self, offset: int, length: int) -> bytes:
        if offset >= self.size or length <= 0:
            return b""
        end = min(self.size, offset + length)
        first = offset // SECTOR
        last = (end + SECTOR - 1) // SECTOR
        over = self._over
        if self._src:
            out = bytearray(self._plain(first, last))
            base = first * SECTOR
            src = self._src
            for i in range(bisect_left(src, base - self._longest, key=lambda x: x[0]), len(src)):
                start, stop, model, moff = src[i]
                if start >= last * SECTOR:
                    break
                a, b = max(start, base), min(stop, last * SECTOR)
                if a < b:
                    out[a - base : b - base] = model.read(moff + a - start, b - a)
            for s in (range(first, last) if last - first < len(over) else [s for s in over if first <= s < last]):
                if s in over:
                    out[s * SECTOR - base : (s + 1) * SECTOR - base] = over[s]
            return bytes(out[offset - base : end - base])
        did = self.disk_id
        if self.zero:
            zs = bytes(SECTOR)
            data = b"".join([bytes(over[s]) if s in over else zs for s in range(first, last)])
        else:
            data = b"".join([bytes(over[s]) if s in over else sector_bytes(did, s) for s in range(first, last)])
        return data[offset - first * SECTOR : end - first * SECTOR]

    def _plain(self, first: int, last: int) -> bytes:
        if self.zero:
            return bytes((last - first) * SECTOR)
        return b"".join([sector_bytes(self.disk_id, s) for s in range(first, last)])


class Extents(Model):
    """A model made of extents (length, source model or None for zeros, offset in source)."""

    def __init__(self, extents: list[tuple[int, Model | None, int]], size: int | None = None):
        self._starts = []
        self._ext = []
        pos = 0
        for length, src, off in extents:
            if length <= 0:
                continue
            self._starts.append(pos)
            self._ext.append((length, src, off))
            pos += length
        self.size = pos if size is None else size
        assert self.size <= pos

    def read(self, offset: int, length: int) -> bytes:
        end = min(self.size, offset + max(0, length))
        out = []
        while offset < end:
            i = bisect_right(self._starts, offset) - 1
            elen, src, soff = self._ext[i]
            skip = offset - self._starts[i]
            n = min(elen - skip, end - offset)
            data = bytes(n) if src is None else src.read(soff + skip, n)
            assert len(data) == n, ("model source too short", soff, skip, n, len(data))
            out.append(data)
            offset += n
        return b"".join(out)


class ChunkMap(Model):
    """A model of fixed-size chunks located by a function chunk number -> (source, offset)."""

    def __init__(self, size: int, chunk: int, locate):
        self.size = size
        self.chunk = chunk
        self.locate = locate

    def read(self, offset: int, length: int) -> bytes:
        end = min(self.size, offset + max(0, length))
        out = []
        while offset < end:
            no, skip = divmod(offset, self.chunk)
            n = min(self.chunk - skip, end - offset)
            src, soff = self.locate(no)
            data = bytes(n) if src is None else src.read(soff + skip, n)
            assert len(data) == n, ("model source too short", no, soff, skip, n, len(data))
            out.append(data)
            offset += n
        return b"".join(out)


class Slice(Model):
    def __init__(self, src: Model, offset: int, size: int):
        self.src, self.offset, self.size = src, offset, size

    def read(self, offset: int, length: int) -> bytes:
        n = min(self.size - offset, length)
        return self.src.read(self.offset + offset, n) if n > 0 else b""


class Bytes(Model):
    def __init__(self, data: bytes):
        self.data = data
        self.size = len(data)

    def read(self, offset: int, length: int) -> bytes:
        return bytes(self.data[offset : offset + max(0, length)])
