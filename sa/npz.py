"""Reads the constants file (numpy archive of pickled structures) without numpy:
every global of the pickle stream is replaced by an inert stand-in."""

import io
import pickle
import struct
import zipfile


class Dtype:
    def __init__(self, code, *a):
        self.code, self.state = code, None

    def __setstate__(self, s):
        self.state = s
        self.order = s[1]
        self.names = s[3]
        self.fields = s[4]
        self.size = s[5]


class Array:
    def __setstate__(self, s):
        _, self.shape, self.dtype, self.fortran, self.raw = s
        if isinstance(self.raw, str):
            self.raw = self.raw.encode("latin1")

    def values(self):
        """Flat list of the elements, in C order."""
        d = self.dtype
        if isinstance(self.raw, list):
            return order(self.raw, self.shape, self.fortran)
        code = d.code if isinstance(d.code, str) else d.code.decode()
        end = "<" if d.order in ("<", "|", b"<", b"|") else ">"
        k, n = code[0], int(code[1:])
        if k == "U":
            out = [self.raw[i : i + n * 4].decode("utf-32-le").rstrip("\0") for i in range(0, len(self.raw), n * 4)]
        elif k == "S":
            out = [self.raw[i : i + n].decode().rstrip("\0") for i in range(0, len(self.raw), n)]
        else:
            f = {"f8": "d", "f4": "f", "i8": "q", "i4": "i", "i2": "h", "i1": "b", "u1": "B", "u2": "H", "u4": "I", "u8": "Q", "b1": "?"}[code]
            out = [x[0] for x in struct.iter_unpack(end + f, self.raw)]
        return order(out, self.shape, self.fortran)


def order(flat, shape, fortran):
    if not fortran or len(shape) < 2:
        return flat
    if len(shape) != 2:
        raise ValueError("layout")
    r, c = shape
    return [flat[j * r + i] for i in range(r) for j in range(c)]


class Record(dict):
    def __setstate__(self, s):
        pass


def _reconstruct(*a):
    return Array()


def _scalar(dtype, raw=None):
    a = Array()
    a.shape, a.dtype, a.fortran, a.raw = (), dtype, False, raw
    return a


def _latin(s, enc="utf-8"):
    return s.encode(enc)


class Reader(pickle.Unpickler):
    def find_class(self, module, name):
        if name == "_reconstruct":
            return _reconstruct
        if name == "scalar":
            return _scalar
        if name == "ndarray":
            return Array
        if name == "dtype":
            return Dtype
        if (module, name) == ("_codecs", "encode"):
            return _latin
        if name == "Bunch":
            return Record
        raise pickle.UnpicklingError(f"{module}.{name}")


def plain(x):
    """Nested structure as dicts of (shape, list)."""
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, Array):
        vs = x.values() if x.dtype.names is None else None
        if vs is None:
            if len(x.raw) != 1 or not isinstance(x.raw, list):
                raise ValueError("structured array")
            return {n: plain(v) for n, v in zip(x.dtype.names, x.raw[0])}
        if x.shape in ((), (1,)) and len(vs) == 1 and isinstance(vs[0], (Array, dict)):
            return plain(vs[0])
        return x.shape, [plain(v) if isinstance(v, Array) else v for v in vs]
    return x


def load(path):
    out = {}
    with zipfile.ZipFile(path) as z:
        for n in z.namelist():
            b = z.read(n)
            k = struct.unpack("<H", b[8:10])[0]
            head, body = b[10 : 10 + k], b[10 + k :]
            if b"'|O'" in head:
                out[n[:-4]] = plain(Reader(io.BytesIO(body), encoding="latin1").load())
    return out
