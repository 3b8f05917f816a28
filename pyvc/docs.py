"""Assumed contracts of yaml, json, numpy and torch file access over ghost paths: reading a file gives what the last
completed write put there, in plain form."""
from __future__ import annotations

from . import values
from .core import Unsupported, cur
from .rt import Coll, SymMap, SymSeq, subst
from .stubs import Ghost
from .values import SymBool, SymNum, SymVal, is_sym
from .z3load import z3


class Doc(Ghost):
    """A YAML document of one value."""

    def __init__(self, value):
        self.value = value


class JsonText(Ghost):
    """The text of one value, without line breaks."""

    def __init__(self, value):
        self.value = value

    def __vc_subst__(self, frm, to):
        return JsonText(subst(self.value, frm, to))

    def __add__(self, o):
        return Chunks([self, o])

    def __radd__(self, o):
        return Chunks([o, self])

    def strip(self):
        return self

    rstrip = strip


class Chunks(Ghost):
    def __init__(self, parts):
        self.parts = parts

    def __add__(self, o):
        return Chunks(self.parts + [o])


class Joined(Ghost):
    """The texts of an unbounded sequence, separated by sep."""

    def __init__(self, sep, seq):
        self.sep = sep
        self.seq = seq


def join(sep, seq):
    if is_sym(seq):
        return Joined(sep, seq)
    out = []
    for i, x in enumerate(seq):
        if i:
            out.append(sep)
        out.append(x)
    return Chunks(out)


def plain(x, convert=False):
    """Whether a value is made of plain Python data only; a fresh copy of it in the form in which it is read back."""
    if x is None or type(x) in (bool, int, float, str) or isinstance(x, (SymNum, SymBool, SymVal)) and is_sym(x):
        return True, x
    if is_sym(x) and isinstance(x, SymMap):
        return True, SymMap(x.coll, x.key, lambda i: _must(x.elem(i)), x.guard, inv=x.inv)
    if is_sym(x) and isinstance(x, SymSeq):
        return x.cls in (list, tuple), SymSeq(x.coll, lambda i: _must(x.elem(i)), x.guard)
    if type(x) is dict:
        r = {}
        for k, v in x.items():
            ok, w = plain(v)
            if not ok:
                return False, w
            r[k] = w
        return True, r
    if type(x) in (list, tuple):
        r = []
        for v in x:
            ok, w = plain(v)
            if not ok:
                return False, w
            r.append(w)
        return True, r
    return False, x


def _must(v):
    ok, w = plain(v)
    if not ok:
        raise Unsupported("an element of an unbounded collection that is not plain data")
    return w


class Stream(Ghost):
    def __init__(self, path, mode):
        if mode not in ("r", "w", "rt", "wt", "rb", "wb"):
            raise Unsupported(f"open mode {mode}")
        self.path = path
        self.mode = mode[0]
        if self.mode == "w":
            self.path.fs.put(path, [])
        elif not path.exists():
            raise FileNotFoundError(str(path))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def write(self, x):
        if self.mode != "w":
            raise OSError("not writable")
        self.path.fs.get(self.path).append(x)

    def content(self):
        out = []
        for c in self.path.fs.get(self.path):
            out += c.parts if isinstance(c, Chunks) else [c]
        return [c for c in out if not (type(c) is str and c == "")]

    def lines(self):
        c = self.content()
        if len(c) == 1 and isinstance(c[0], Joined):
            if c[0].sep != "\n":
                raise Unsupported("documents of a sequence that are not separated by line breaks")
            s = c[0].seq
            return SymSeq(s.coll, s.elem, s.guard, ordered=s.ordered)
        out, line = [], []
        for x in c:
            if type(x) is str:
                ps = x.split("\n")
                for q in ps[:-1]:
                    out.append(line + ([q] if q else []))
                    line = []
                if ps[-1]:
                    line = line + [ps[-1]]
            elif isinstance(x, JsonText):
                line = line + [x]
            else:
                raise Unsupported("mixed file contents")
        if line:
            out.append(line)
        return [ln[0] if len(ln) == 1 else Chunks(ln) for ln in out]

    def __iter__(self):
        return iter(self.lines())

    def read(self):
        return Chunks(self.content())

    def readlines(self):
        return self.lines()

    def __vc_iter__(self):
        return self.lines()


class RepresenterError(Exception):
    pass


class yaml:
    class representer:
        RepresenterError = RepresenterError

    @staticmethod
    def safe_dump(data, stream=None, **k):
        if set(k) - {"sort_keys", "default_flow_style", "allow_unicode", "indent", "width"} or stream is None:
            raise Unsupported("yaml.safe_dump with these arguments")
        ok, v = plain(data)
        if not ok:
            raise RepresenterError("cannot represent an object", v)
        stream.write(Doc(v))

    @staticmethod
    def full_load(stream):
        c = stream.content()
        if not c:
            return None
        if len(c) != 1 or not isinstance(c[0], Doc):
            raise ValueError("not one document")
        return plain(c[0].value)[1]

    safe_load = full_load


class json:
    JSONDecodeError = ValueError

    @staticmethod
    def dumps(x, **k):
        if set(k) - {"sort_keys"}:
            raise Unsupported("json.dumps with these arguments")
        ok, v = plain(x)
        if not ok:
            raise TypeError("Object is not JSON serializable")
        return JsonText(v)

    @staticmethod
    def loads(t):
        if isinstance(t, Chunks) and len(t.parts) == 1:
            t = t.parts[0]
        if not isinstance(t, JsonText):
            raise ValueError("not one JSON value")
        return plain(t.value)[1]


class Arr(Ghost):
    """A one-dimensional array of integers of unknown length and dtype name."""

    def __init__(self, seq, dtype):
        self.seq = seq
        self.dtype = dtype

    def tofile(self, path, sep="", format="%s"):
        if sep:
            raise Unsupported("text arrays")
        path.fs.put(path, [("raw", self.seq, self.dtype)])

    def astype(self, dtype):
        return np_shim.array(self.seq, dtype=dtype)

    def copy(self):
        return Arr(self.seq, self.dtype)

    def __vc_seq__(self):
        return self.seq

    def tolist(self):
        return self.seq

    def __vc_iter__(self):
        return self.seq


WIDTH = {"int8": (8, True), "int16": (16, True), "int32": (32, True), "int64": (64, True),
         "uint8": (8, False), "uint16": (16, False), "uint32": (32, False), "uint64": (64, False)}


def bounds(dtype):
    w, s = WIDTH[dtype]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


class _DType:
    def __init__(self, name):
        self.name = name

    def __call__(self, x):
        return x


class np_shim(Ghost):
    ndarray = Arr
    for _n in WIDTH:
        locals()[_n] = _DType(_n)

    @staticmethod
    def _name(dtype):
        n = getattr(dtype, "name", None) or getattr(dtype, "__name__", None) or dtype
        n = {"int": "int64"}.get(n, n)
        if n not in WIDTH:
            raise Unsupported(f"dtype {n}")
        return n

    @staticmethod
    def array(x, dtype=None, **k):
        if not (is_sym(x) and isinstance(x, SymSeq)):
            raise Unsupported("array of these values")
        n = np_shim._name(dtype if dtype is not None else "int64")
        lo, hi = bounds(n)
        p = cur()

        def elem(i):
            v = x.elem(i)
            # out of range: an error or another number
            w = z3.Function(p.name("wrapped"), z3.IntSort(), z3.IntSort())(v.z)
            return SymNum(z3.If(z3.And(v.z >= lo, v.z <= hi), v.z, w), "int")
        return Arr(SymSeq(x.coll, elem, x.guard), n)

    asarray = array

    @staticmethod
    def fromfile(path, dtype=float, **k):
        if k:
            raise Unsupported("np.fromfile with these arguments")
        if not path.exists():
            raise FileNotFoundError(str(path))
        c = path.fs.get(path)
        if len(c) != 1 or c[0][0] != "raw":
            raise ValueError("not an array file")
        n = np_shim._name(dtype)
        _, seq, m = c[0]
        if n == m:
            return Arr(SymSeq(seq.coll, seq.elem, seq.guard), n)
        (a, _), (b, _) = WIDTH[n], WIDTH[m]
        p = cur()
        f = z3.Function(p.name("reinterpreted"), z3.IntSort(), z3.IntSort())
        if a == b:
            lo, hi = bounds(n)

            def elem(i):
                v = seq.elem(i)
                return SymNum(z3.If(z3.And(v.z >= lo, v.z <= hi), v.z, f(v.z)), "int")
            return Arr(SymSeq(seq.coll, elem, seq.guard), n)
        g = z3.Function(p.name("reinterpreted"), z3.IntSort(), z3.IntSort())
        return Arr(SymSeq(Coll("other"), lambda i: SymNum(g(i), "int")), n)

    def __getattr__(self, n):
        raise Unsupported(f"numpy.{n}")


class torch_shim:
    """torch.save / torch.load of tensors."""

    @staticmethod
    def save(x, path):
        path.fs.put(path, [("torch", x)])

    @staticmethod
    def load(path, weights_only=None, **k):
        if not path.exists():
            raise FileNotFoundError(str(path))
        c = path.fs.get(path)
        if len(c) != 1 or c[0][0] != "torch":
            raise ValueError("not a torch file")
        return c[0][1]
