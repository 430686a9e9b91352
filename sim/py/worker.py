"""worker.py runs gotetra's Python readers inside the simulator.

It is started once per orchestrator worker; every request is one simulated
process: the reader modules are executed afresh from the sources of the tree
under test, and the files they open go through a raw layer which fragments,
interrupts, cuts and fails reads as a seeded schedule decides.  One request
and one reply per line of JSON.
"""
import base64
import errno
import io
import json
import os
import resource
import sys
import types

import numpy as np

resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))

M64 = (1 << 64) - 1


class PRNG(object):
    def __init__(self, seed):
        self.s = (seed * 0x9E3779B97F4A7C15 + 0xABCDEF) & M64

    def next(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & M64
        z = self.s
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & M64
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & M64
        return z ^ (z >> 31)

    def below(self, n):
        return self.next() % n

    def chance(self, p):
        return (self.next() >> 11) / float(1 << 53) < p


class Stuck(BaseException):
    pass


class Layer(object):
    """Layer is the simulated system call layer of one process."""

    def __init__(self, seed, faults):
        self.rng = PRNG(seed)
        self.faults = [dict(f, seen=0, done=0) for f in faults]
        self.nops = 0
        self.hash = 0
        self.fired = {}
        self.log = []
        self.open_files = 0
        self.max_open = 0

    def note(self, *what):
        for c in repr(what).encode():
            self.hash = ((self.hash ^ c) * 0x100000001B3 + 1) & M64

    def fault(self, op, path):
        """fault returns the faults which hit this call."""
        self.nops += 1
        if self.nops > 200000:
            raise Stuck("more than 200000 file operations")
        hit = None
        for f in self.faults:
            if f["op"] != op:
                continue
            f["seen"] += 1
            if f.get("prob"):
                if not self.rng.chance(f["prob"]):
                    continue
            else:
                n, c = f.get("nth", 1), f.get("count", 1) or 1
                if f["seen"] < n or c > 0 and f["seen"] >= n + c:
                    continue
            if hit is None:
                hit = f
        if hit is not None:
            k = op + ":" + hit["kind"]
            self.fired[k] = self.fired.get(k, 0) + 1
            if not hit.get("prob"):
                self.log.append(json.dumps({"op": op, "path": path, "kind": hit["kind"], "seq": self.nops}, sort_keys=True))
        self.note(op, path, hit and hit["kind"])
        return hit


class Raw(io.RawIOBase):
    def __init__(self, layer, path):
        self.layer, self.name = layer, path
        f = layer.fault("open", path)
        if f is not None:
            e = getattr(errno, f["kind"])
            raise OSError(e, os.strerror(e), path)
        self.fd = os.open(path, os.O_RDONLY)
        self.ended = False
        layer.open_files += 1
        layer.max_open = max(layer.max_open, layer.open_files)

    def readable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def seek(self, off, whence=0):
        return os.lseek(self.fd, off, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def readinto(self, b):
        n = len(b)
        if self.ended:
            return 0
        f = self.layer.fault("read", self.name)
        if f is not None:
            if f["kind"] == "short":
                n = 1 + self.layer.rng.below(max(1, n if self.layer.rng.chance(0.3) else min(n, 40)))
            elif f["kind"] == "eof":
                self.ended = True
                return 0
            else:
                e = getattr(errno, f["kind"])
                raise OSError(e, os.strerror(e), self.name)
        d = os.read(self.fd, min(n, len(b)))
        b[: len(d)] = d
        self.layer.note(len(d))
        return len(d)

    def close(self):
        if not self.closed:
            if getattr(self, "fd", None) is not None:
                os.close(self.fd)
                self.layer.open_files -= 1
            super(Raw, self).close()


def opener(layer):
    def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
        if "w" in mode or "a" in mode or "+" in mode or "x" in mode:
            raise PermissionError(errno.EROFS, "a reader opens a file for writing", file)
        raw = Raw(layer, file)
        if "b" in mode:
            return raw if buffering == 0 else io.BufferedReader(raw)
        return io.TextIOWrapper(io.BufferedReader(raw), encoding or "utf-8", errors, newline)

    return sim_open


def num(x):
    """num spells a number so that it can be compared bit for bit."""
    x = x.item() if hasattr(x, "item") else x
    if isinstance(x, bool):
        return "true" if x else "false"
    return repr(x)


def arr(a):
    a = np.asarray(a)
    return {
        "Shape": list(a.shape),
        "Bits": base64.b64encode(np.ascontiguousarray(a, dtype=np.float64).tobytes()).decode(),
    }


def fields(obj, names):
    out = {}
    for n in names:
        v = getattr(obj, n)
        if isinstance(v, (np.ndarray, list, tuple)):
            for i, e in enumerate(v):
                out["%s[%d]" % (n, i)] = num(e)
        else:
            out[n] = num(v)
    return out


HEADER = {
    "type": ["endianness_flag", "header_size", "grid_type", "is_vector_grid"],
    "cosmo": ["redshift", "scale_factor", "omega_m", "omega_l", "h0", "rho_mean", "rho_critical", "box_width"],
    "render": ["particles", "total_pixels", "subsample_length", "min_projection_depth", "projection_axis"],
    "loc": ["origin", "span", "pixel_origin", "pixel_span", "pixel_width"],
}
SHEET = ["z", "omega_m", "h100", "count", "count_width", "x_width", "xn_width", "file_idx", "file_cells",
         "x_origin", "x_span", "v_origin", "v_span"]


class Code(object):
    def __init__(self, src):
        self.src = src
        self.code = {}

    def module(self, name, layer, as_main=False):
        if name not in self.code:
            p = os.path.join(self.src, name + ".py")
            with open(p) as f:
                self.code[name] = compile(f.read(), p, "exec")
        m = types.ModuleType("__main__" if as_main else name)
        m.__file__ = os.path.join(self.src, name + ".py")
        m.open = opener(layer)
        exec(self.code[name], m.__dict__)
        return m


def perform(code, mods, layer, op):
    """perform returns the result of one call into the readers."""

    def mod(name):
        if name not in mods:
            mods[name] = code.module(name, layer)
        return mods[name]

    kind, name = op["Op"], op["File"]
    out = {}
    if kind == "header":
        h = mod("gotetra").read_header(name)
        out["Fields"] = fields(h, ["dim", "pw", "axis"])
        for part in HEADER:
            for k, v in fields(getattr(h, part), HEADER[part]).items():
                out["Fields"][part + "." + k] = v
        out["Text"] = str(h)
    elif kind == "grid":
        out["Arrays"] = {"grid": arr(mod("gotetra").read_grid(name))}
    elif kind == "sheet":
        f = mod("gtet").File(name)
        out["Fields"] = fields(f, SHEET)
        out["Arrays"] = {k: arr(getattr(f, k)) for k in ("x", "v", "xn", "vn")}
    elif kind == "main":
        old = sys.argv
        sys.argv = ["gotetra.py", name]
        try:
            code.module("gotetra", layer, True)
        except SystemExit as e:
            if e.code not in (None, 0):
                raise
        finally:
            sys.argv = old
        out["Text"] = sys.stdout.getvalue()
    return out


def run(code, req):
    os.chdir(req["Dir"])
    layer = Layer(req["Seed"], req["Faults"] or [])
    mods, results = {}, []
    stdout, stderr = sys.stdout, sys.stderr
    for op in req["Ops"]:
        if op["Op"] == "put":
            with open(op["From"], "rb") as a:
                data = a.read()
            with open(op["File"] + ".new", "wb") as b:
                b.write(data)
            os.rename(op["File"] + ".new", op["File"])
            results.append({})
            continue
        before = len(layer.log)
        sys.stdin, sys.stdout, sys.stderr = io.StringIO(), io.StringIO(), io.StringIO()
        try:
            res = perform(code, mods, layer, op)
        except Stuck as e:
            res = {"Stuck": str(e)}
        except SystemExit as e:
            res = {"Err": "exit %r: %s" % (e.code, sys.stdout.getvalue()[:200])}
        except MemoryError as e:
            res = {"Err": "MemoryError"}
        except Exception as e:
            res = {"Err": "%s: %s" % (type(e).__name__, str(e)[:300])}
        finally:
            sys.stdout, sys.stderr = stdout, stderr
        res["Hit"] = len(layer.log) > before
        results.append(res)
    os.chdir("/")
    return {"Results": results, "NOps": layer.nops, "Hash": layer.hash, "Fired": layer.fired,
            "Faults": layer.log, "MaxOpen": layer.max_open}


def main():
    sys.dont_write_bytecode = True
    code = Code(sys.argv[1])
    # exit() closes sys.stdin.
    requests = os.fdopen(os.dup(0), "r")
    sys.stdin = io.StringIO()
    for line in requests:
        req = json.loads(line)
        try:
            rep = run(code, req)
        except Exception as e:
            os.chdir("/")
            rep = {"Trouble": "%s: %s" % (type(e).__name__, e)}
        sys.stdout.write(json.dumps(rep) + "\n")
        sys.stdout.flush()


main()
