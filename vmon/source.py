"""Traced file objects handed to the library."""
from __future__ import annotations

import io

from vmon.steps import BudgetExceeded


class TracedSource:
    """A read-only file object over a model that records every operation it receives.

    Forbidden operations are recorded as well as refused, so swallowing the
    exception does not hide them.
    """

    def __init__(self, ctx, model, name: str, with_size: bool = False):
        self._ctx = ctx
        self._model = model
        self._name = name
        self._pos = 0
        self._len = model.size
        if with_size:
            self.size = model.size
        self._most = max(1 << 63, model.size + (1 << 40))  # what a file can address
        self._negative_os = len(ctx.sources) & 1
        self.ops = 0
        self.read_bytes = 0
        self.log: list | None = None
        ctx.sources.append(self)

    def leave_at(self, pos: int) -> None:
        self._pos = pos

    def _op(self):
        self.ops += 1
        ctx = self._ctx
        ctx.source_ops += 1
        if ctx.source_ops > ctx.source_op_budget:
            raise BudgetExceeded(f"more than {ctx.source_op_budget} source operations")

    def read(self, n: int | None = -1) -> bytes:
        self._op()
        if n is None or n < 0:
            n = max(0, self._len - self._pos)
        if n >= self._most:
            raise OverflowError("Python int too large to convert to C ssize_t")
        data_len = max(0, min(n, self._len - self._pos))
        ctx = self._ctx
        ctx.source_bytes += data_len
        self.read_bytes += data_len
        if ctx.source_bytes > ctx.source_byte_budget:
            raise BudgetExceeded(f"more than {ctx.source_byte_budget} bytes read from sources")
        if self.log is not None:
            self.log.append((self._pos, n))
        data = self._model.read(self._pos, data_len)
        self._pos += len(data)
        return data

    def readall(self) -> bytes:
        return self.read(-1)

    read1 = read

    def readinto(self, b) -> int:
        data = self.read(len(b))
        b[: len(data)] = data
        return len(data)

    def peek(self, n: int = 0) -> bytes:
        pos = self._pos
        data = self.read(n)
        self._pos = pos
        return data

    def seek(self, pos: int, whence: int = io.SEEK_SET) -> int:
        self._op()
        if whence == io.SEEK_SET:
            if pos < 0:
                # what files and memory buffers raise
                raise OSError(22, "Invalid argument") if self._negative_os else ValueError(f"negative seek position {pos}")
        elif whence == io.SEEK_CUR:
            pos = max(0, self._pos + pos)
        elif whence == io.SEEK_END:
            pos = self._len + pos
            if pos < 0:
                raise OSError(22, "Invalid argument")
        else:
            raise ValueError(f"invalid whence {whence}")
        if pos >= self._most:
            raise OverflowError("Python int too large to convert to C ssize_t")
        self._pos = pos
        return pos

    def tell(self) -> int:
        return self._pos

    def readable(self) -> bool:
        return True

    def seekable(self) -> bool:
        return True

    def writable(self) -> bool:
        return False

    @property
    def closed(self) -> bool:
        return False

    def flush(self) -> None:
        pass

    def _forbidden(self, what: str):
        self._ctx.forbidden.append(f"{what} on {self._name}")

    def write(self, *a):
        self._forbidden("write")
        raise io.UnsupportedOperation("write")

    def writelines(self, *a):
        self._forbidden("writelines")
        raise io.UnsupportedOperation("writelines")

    def truncate(self, *a):
        self._forbidden("truncate")
        raise io.UnsupportedOperation("truncate")

    def close(self):
        self._forbidden("close")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
