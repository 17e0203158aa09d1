"""
Very large arrays without the memory: a virtual range in which every chunk maps the same
few megabytes, except for chosen chunks that get pages of their own. Used to check the
64-bit addressing of the compiled library on maps with more than 2^31 elements.
"""

import ctypes
import mmap
import os

import numpy as np

_libc = ctypes.PyDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int,
                       ctypes.c_int, ctypes.c_long]
_libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]

PROT_NONE, PROT_RW = 0, 3
MAP_SHARED, MAP_PRIVATE, MAP_FIXED, MAP_ANON, MAP_NORESERVE = 1, 2, 0x10, 0x20, 0x4000
CHUNK = 64 << 20


class Aliased:
    def __init__(self, shape, own_last=2):
        nbytes = int(np.prod([int(s) for s in shape], dtype=object)) * 8
        chunks = -(-nbytes // CHUNK)
        span = chunks * CHUNK
        guard = span + CHUNK  # a wrapped negative index lands in the guard and faults
        self.base = _libc.mmap(None, guard + span + guard, PROT_NONE,
                               MAP_PRIVATE | MAP_ANON | MAP_NORESERVE, -1, 0)
        assert self.base not in (None, ctypes.c_void_p(-1).value)
        self.total = guard + span + guard
        start = self.base + guard
        fd = os.memfd_create("qmmc")
        os.ftruncate(fd, CHUNK)
        for c in range(chunks):
            own = c >= chunks - own_last or c == 0
            flags = MAP_FIXED | (MAP_PRIVATE | MAP_ANON if own else MAP_SHARED)
            got = _libc.mmap(start + c * CHUNK, CHUNK, PROT_RW, flags, -1 if own else fd, 0)
            assert got == start + c * CHUNK
        os.close(fd)
        buf = (ctypes.c_double * (span // 8)).from_address(start)
        self.array = np.frombuffer(buf, dtype=np.double)[:nbytes // 8].reshape(shape)

    def close(self):
        self.array = None
        _libc.munmap(self.base, self.total)


_ = mmap
