"""The same call evaluated in another process running the default configuration.

A worker of another configuration starts one of these and sends it the seeds of catalogue cases (vh/ops.py);
it answers with the results of the default configuration.
"""
import os, pickle, struct, subprocess, sys
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))


def quantize(x, to_single):
    """nested arrays rounded to single precision, kept as double unless to_single"""
    from . import ops

    def q(a):
        if a.dtype == np.float64:
            b = a.astype(np.float32)
            return b if to_single else b.astype(np.float64)
        if a.dtype == np.complex128:
            b = a.astype(np.complex64)
            return b if to_single else b.astype(np.complex128)
        return a
    return ops.walk(x, q)


def perturb(x, rng, eps):
    """relative random perturbation of every floating point array"""
    from . import ops

    def q(a):
        if a.dtype.kind in "fc":
            u = rng.uniform(-1, 1, a.shape)
            if a.dtype.kind == "c":
                return (a.real * (1 + eps * u) + 1j * a.imag * (1 + eps * rng.uniform(-1, 1, a.shape))).astype(np.result_type(a.dtype, np.complex128))
            return (a * (1 + eps * u)).astype(np.result_type(a.dtype, np.float64))
        return a
    return ops.walk(x, q)


def evaluate(seed, name, quant, eps):
    """[result, result for perturbed inputs...] or an exception's text; arrays only"""
    from . import ops
    from cddm import sim
    _, fn, args, kw = ops.build(np.random.default_rng(seed), name)
    if quant:
        args, kw = quantize(args, False), quantize(kw, False)
    out = []
    for k in range(3 if eps else 1):
        a, w = args, kw
        if k:
            prng = np.random.default_rng([k] + list(seed))
            a, w = perturb(args, prng, eps), perturb(kw, prng, eps)
        sim.seed(7)
        np.random.seed(7)
        out.append(ops.walk(fn(*a, **w), np.copy))
    return out


def send(fh, obj):
    b = pickle.dumps(obj, protocol=4)
    fh.write(struct.pack("<Q", len(b)) + b)
    fh.flush()


def recv(fh):
    h = fh.read(8)
    if len(h) < 8:
        raise EOFError("peer process ended")
    n = struct.unpack("<Q", h)[0]
    return pickle.loads(fh.read(n))


class Peer:
    def __init__(self):
        sys.path.insert(0, os.path.dirname(HERE))
        from vh.runner import base_env
        tmp = os.path.dirname(os.environ["HOME"])
        env = base_env(tmp, "default")
        self.p = subprocess.Popen([sys.executable, "-m", "vh.peer"], env=env, cwd=env["TMPDIR"], stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def __call__(self, seed, name=None, quant=False, eps=0.0):
        send(self.p.stdin, ([int(v) for v in seed], name, quant, eps))
        try:
            return recv(self.p.stdout)
        except EOFError:
            raise EOFError("the process of the default configuration ended with status %r" % self.p.wait(10)) from None


def main():
    import contextlib, io, warnings
    from . import nosave
    fin, fout = os.fdopen(os.dup(0), "rb"), os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    while True:
        try:
            req = recv(fin)
        except EOFError:
            os._exit(0)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                r = ("ok", evaluate(*req))
            except Exception as e:
                import traceback
                r = ("error", traceback.format_exc()[-1500:])
        send(fout, r)


if __name__ == "__main__":
    main()
