"""Arrays whose memory ends (or starts) at an inaccessible page: an access one element outside is a SIGSEGV"""
import ctypes, mmap, weakref
import numpy as np

_libc = ctypes.CDLL(None, use_errno=True)
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
_libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
PAGE = mmap.PAGESIZE
made = [0]


def empty(shape, dtype=float, end=True, fill=None):
    dtype = np.dtype(dtype)
    if np.ndim(shape) == 0:
        shape = (shape,)
    shape = tuple(int(s) for s in shape)
    nbytes = int(np.prod(shape, dtype=np.int64)) * dtype.itemsize
    if dtype.hasobject or nbytes == 0 or nbytes > 1 << 22:
        return None
    data = -(-nbytes // PAGE) * PAGE
    total = data + 2 * PAGE
    base = _libc.mmap(None, total, mmap.PROT_READ | mmap.PROT_WRITE, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS, -1, 0)
    if base in (None, ctypes.c_void_p(-1).value):
        return None
    _libc.mprotect(base, PAGE, 0)
    _libc.mprotect(base + PAGE + data, PAGE, 0)
    start = base + PAGE + (data - nbytes if end else 0)
    buf = (ctypes.c_char * nbytes).from_address(start)
    weakref.finalize(buf, _libc.munmap, base, total)
    made[0] += 1
    a = np.frombuffer(buf, dtype=dtype).reshape(shape)
    if fill is not None:
        np.frombuffer(buf, dtype=np.uint8)[...] = fill
    return a


def copy(a, end=True):
    """the same values, in guarded memory"""
    g = empty(a.shape, a.dtype, end)
    if g is None:
        return a
    g[...] = a
    return g
