"""Compile one share of cddm's explicitly typed numba kernels into the shared on-disk cache.

usage: prewarm.py K I   -- compiles the kernels whose ordinal is I modulo K

The check driver starts K of these at once, so that a cold start (about 35 s of
compilation, since every check runs in a fresh copy with an empty cache) takes about 10 s.
The real source of /repo is what is compiled; a kernel that fails here only means
that the workers compile it themselves.
"""
import sys
K, I = int(sys.argv[1]), int(sys.argv[2])
import numba as nb

_n = [0]


def _share(real):
    def deco(*args, **kw):
        if args and callable(args[0]) and not isinstance(args[0], (list, tuple, str)):
            return real(*args, **kw)
        def wrap(func):
            k = _n[0]
            _n[0] += 1
            if k % K == I:
                try:
                    return real(*args, **kw)(func)
                except Exception as e:
                    print("%s: %s" % (func.__name__, e), file=sys.stderr)
            return func
        return wrap
    return deco


nb.guvectorize = _share(nb.guvectorize)
nb.vectorize = _share(nb.vectorize)
import cddm._core_nb
import cddm._sim_nb
