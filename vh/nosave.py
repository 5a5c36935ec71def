"""Import first in a process that only loads compiled kernels.

Two processes that compile the same gufunc at once leave a cache in which wrapper and kernel do not match, and loading it
crashes (numba, not cddm). Only vh/prewarm.py, where each kernel belongs to one process, writes the cache; whatever
it did not compile is compiled by every worker for itself.
"""
from numba.core import caching

if hasattr(caching, "Cache") and hasattr(caching.Cache, "save_overload"):
    caching.Cache.save_overload = lambda self, sig, data: None
