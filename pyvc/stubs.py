"""Ghost models of what lies below the verified code: the stored copy of a shared resource, its version tag, its
lock and the other workers.  Their behaviour is the assumed contract of file system, lock and uuid."""
from __future__ import annotations

from contextlib import contextmanager

from . import values
from .core import Unsupported, cur
from .values import SymVal, Not, Or, And, val
from .z3load import z3

USED = z3.Function("used", values.V, z3.IntSort(), z3.BoolSort())


PROP = [None]     # the property being decided; obligations of the ghosts that belong to another one are not raised


def owns(*props):
    return PROP[0] in props


class LockError(Exception):
    """Lock could not be acquired in time."""


class IOFailure(Exception):
    """Reading or writing the stored data failed."""


class Ghost:
    __vc_ghost__ = True

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        raise Unsupported(f"{n} of an assumed {type(self).__name__}")


class Store(Ghost):
    """One shared resource as stored: version tag (or none) and data, protected by one lock.

    rely: whenever this worker does not hold the lock, other workers may perform any number of writes, each
    storing new data under a fresh tag, create it, or remove it."""

    def __init__(self, vc, name="res", exists=None, may_fail=False, interfere=True, data=None, removable=True):
        p = cur()
        self.vc = vc
        self.name = name
        self.tags = []            # every tag this resource ever had, as far as this worker can know
        self.held = 0
        self.writes = []          # data written by this worker, in order
        self.bumps = 0
        self.reads = 0
        self.acquired = 0
        self.may_fail = may_fail
        self.interfere = interfere
        self.removable = removable
        self.version = None
        self.data = None
        self.mk = data or (lambda: val(name + ".data"))
        if exists is None:
            exists = p.choose(2, name + "-exists") == 1
        if exists:
            self.foreign_write()
        self.loc = val(name + ".loc", str)
        p.state.setdefault("stores", []).append(self)
        p.state.setdefault("ghosts", []).append(self)
        vr = self

        class GVersioner(Ghost):
            def current(self):
                vr.need_lock("version read")
                return vr.version

            def bump(self):
                vr.need_lock("version write")
                vr.version = vr.fresh()
                vr.bumps += 1
                return vr.version

        class GReaderWriter(Ghost):
            def read(self, loc):
                vr.need_lock("data read")
                vr.need_loc(loc)
                if vr.may_fail and cur().choose(2, "read-fails"):
                    raise IOFailure("read")
                vr.reads += 1
                return vr.data

            def write(self, value, loc):
                vr.need_lock("data write")
                vr.need_loc(loc)
                if vr.may_fail and cur().choose(2, "write-fails"):
                    raise IOFailure("write")
                vr.data = value
                vr.writes.append(value)

        class GLocker(Ghost):
            def is_locked(self):
                return values.boolval("is_locked")

            @contextmanager
            def lock(self, *a, **k):
                if owns("C03"):
                    vr.vc.prove(vr.held == 0, f"{vr.name}: lock is not requested while held")
                if vr.may_fail and cur().choose(2, "lock-fails"):
                    raise LockError()
                if vr.interfere:
                    vr.other_workers()
                vr.held += 1
                vr.acquired += 1
                try:
                    yield
                finally:
                    vr.held -= 1

        self.versioner = GVersioner()
        self.rw = GReaderWriter()
        self.locker = GLocker()

    def digest(self):
        return (self.name, self.held, len(self.writes), self.bumps, id(self.version), id(self.data))

    def fresh(self):
        t = val(self.name + ".tag", str)
        for o in self.tags:
            self.vc.assume(t != o)
        self.tags.append(t)
        return t

    def foreign_write(self):
        self.version = self.fresh()
        self.data = self.mk()

    def other_workers(self):
        """What any number of other workers may have done while the lock was free."""
        n = 3 if self.removable else 2
        c = cur().choose(n, self.name + "-others")
        if c == 1:
            self.foreign_write()
        elif c == 2 and self.version is not None:
            self.version = None

    def need_lock(self, what):
        if owns("C03"):
            self.vc.prove(self.held == 1, f"{self.name}: {what} happens under the lock")

    def need_loc(self, loc):
        if owns("C01", "C03"):
            self.vc.prove(loc == self.loc if not loc is self.loc else True, f"{self.name}: own location is accessed")


class Snapshot:
    def __init__(self, s):
        self.version, self.data = s.version, s.data
        self.tags = list(s.tags)
        self.writes = len(s.writes)
        self.bumps = s.bumps
        self.reads = s.reads


class GPath(Ghost):
    """A file system path with assumed file contents semantics: reading gives what was last written."""

    def __init__(self, fs, parts=()):
        self.fs = fs
        self.parts_ = tuple(parts)

    def key(self):
        return self.parts_

    def __truediv__(self, x):
        return GPath(self.fs, self.parts_ + (x,))

    def exists(self):
        return self.fs.exists(self)

    is_file = exists

    def read_text(self, *a, **k):
        c = self.fs.get(self)
        if c is None:
            raise FileNotFoundError(str(self.parts_))
        return c

    def write_text(self, text, *a, **k):
        self.fs.put(self, text)
        return 0

    def open(self, mode="r", *a, **k):
        from .docs import Stream
        return Stream(self, mode)

    def unlink(self, missing_ok=False):
        self.fs.remove(self, missing_ok)

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        self.fs.mkdir(self, parents, exist_ok)

    def touch(self, mode=0o666, exist_ok=True):
        self.fs.touch(self, exist_ok)

    def is_dir(self):
        return self.fs.is_dir(self)

    def iterdir(self):
        return self.fs.iterdir(self)

    def glob(self, pattern, **k):
        if not isinstance(pattern, str) or "/" in pattern or "**" in pattern:
            raise Unsupported("glob with this pattern")
        import fnmatch
        return iter([p for p in self.iterdir() if fnmatch.fnmatchcase(p.name, pattern)])

    def joinpath(self, *xs):
        return GPath(self.fs, self.parts_ + xs)

    def with_name(self, n):
        return GPath(self.fs, self.parts_[:-1] + (n,))

    @property
    def suffix(self):
        return "." + self.name.rsplit(".", 1)[1] if "." in self.name[1:] else ""

    @property
    def stem(self):
        return self.name.rsplit(".", 1)[0] if "." in self.name[1:] else self.name

    def __lt__(self, o):
        return self.parts_ < o.parts_

    def resolve(self, *a, **k):
        return self

    absolute = resolve

    @property
    def parent(self):
        return GPath(self.fs, self.parts_[:-1])

    @property
    def name(self):
        return self.parts_[-1] if self.parts_ else ""

    def __eq__(self, o):
        return isinstance(o, GPath) and o.parts_ == self.parts_

    def __hash__(self):
        return hash(len(self.parts_))

    def __str__(self):
        return "<path>"

    def __vc_str__(self):
        return val("pathtext", str)

    def __fspath__(self):
        raise Unsupported("real file access through a ghost path")


class GFS(Ghost):
    def __init__(self, vc):
        self.vc = vc
        self.files = {}
        self.log = []
        self.default = None

    def exists(self, p):
        return self.files.get(p.key()) is not None

    def get(self, p):
        return self.files.get(p.key())

    def put(self, p, text):
        self.log.append(("write", p.key()))
        self.files[p.key()] = text

    def remove(self, p, missing_ok):
        if self.files.get(p.key()) is None and not missing_ok:
            raise FileNotFoundError
        self.log.append(("remove", p.key()))
        self.files[p.key()] = None

    def path(self, *parts):
        return GPath(self, parts)

    def mkdir(self, p, parents, exist_ok):
        self.log.append(("mkdir", p.parts_))

    def touch(self, p, exist_ok):
        self.log.append(("touch", p.parts_))

    def is_dir(self, p):
        raise Unsupported("is_dir")

    def iterdir(self, p):
        raise Unsupported("iterdir")


class DirFS(GFS):
    """Files and directories; what is not there is not there."""

    def __init__(self, vc):
        super().__init__(vc)
        self.dirs = {()}

    def exists(self, p):
        return self.is_dir(p) or super().exists(p)

    def is_dir(self, p):
        return p.key() in self.dirs

    def put(self, p, text):
        if p.parts_[:-1] not in self.dirs:
            raise FileNotFoundError(str(p.parts_))
        if p.key() in self.dirs:
            raise IsADirectoryError(str(p.parts_))
        super().put(p, text)

    def mkdir(self, p, parents, exist_ok):
        k = p.parts_
        if k in self.dirs:
            if not exist_ok:
                raise FileExistsError(str(k))
            return
        if self.files.get(k) is not None:
            raise FileExistsError(str(k))
        if k[:-1] not in self.dirs:
            if not parents:
                raise FileNotFoundError(str(k))
            self.mkdir(GPath(self, k[:-1]), True, True)
        self.log.append(("mkdir", k))
        self.dirs.add(k)

    def touch(self, p, exist_ok):
        if super().exists(p):
            if not exist_ok:
                raise FileExistsError(str(p.parts_))
            return
        self.put(p, [])

    def iterdir(self, p):
        if p.key() not in self.dirs:
            raise FileNotFoundError(str(p.parts_))
        n = len(p.parts_)
        return iter([GPath(self, k) for k in list(self.dirs) + [f for f, c in self.files.items() if c is not None]
                     if len(k) == n + 1 and k[:n] == p.parts_])

    def rmtree(self, p, ignore_errors=False, onerror=None):
        """shutil.rmtree, on this file system only."""
        if not isinstance(p, GPath):
            raise Unsupported("rmtree of something that is not one of the paths given")
        if p.key() not in self.dirs:
            if ignore_errors:
                return
            raise FileNotFoundError(str(p.parts_))
        n = len(p.parts_)
        self.log.append(("rmtree", p.parts_))
        self.dirs = {d for d in self.dirs if d[:n] != p.parts_}
        for k in list(self.files):
            if k[:n] == p.parts_:
                self.files[k] = None

    def contents(self):
        """What is stored, but for lock files."""
        return {k: c for k, c in self.files.items() if c is not None and "lock" not in str(k[-1])}


class patched:
    """Replace module globals while a contract runs (the assumed contracts of what the module imports)."""

    def __init__(self, module, **names):
        self.m, self.names = module, names

    def __enter__(self):
        self.old = {}
        for k, v in self.names.items():
            if not hasattr(self.m, k):
                raise Unsupported(f"{self.m.__name__} has no {k}")
            self.old[k] = getattr(self.m, k)
            setattr(self.m, k, v)
        return self

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(self.m, k, v)
        return False


class GClock:
    """The module `time` by contract: each clock gives a later-or-equal reading than before; readings are recorded
    with the number of events that had happened."""

    def __init__(self, vc):
        self.vc = vc
        self.readings = {}
        self.events = 0

    def mark(self):
        self.events += 1

    def _read(self, clock):
        t = values.realval(clock)
        rs = self.readings.setdefault(clock, [])
        if rs and clock != "time":
            self.vc.assume(t >= rs[-1][1])
        rs.append((self.events, t))
        return t

    def monotonic(self):
        return self._read("monotonic")

    def perf_counter(self):
        return self._read("perf_counter")

    def time(self):
        return self._read("time")

    def __getattr__(self, n):
        raise Unsupported(f"time.{n}")

    def duration_between(self, d, before, after):
        """d is the difference of a reading taken after event `after` began and one taken before event `before`."""
        alts = []
        for rs in self.readings.values():
            for e0, t0 in rs:
                for e1, t1 in rs:
                    if e0 == before and e1 == after:
                        alts.append(values.same(d, t1 - t0))
        return Or(*alts) if alts else False

    def reading_at(self, t, event, clock="time"):
        return Or(*[values.same(t, x) for e, x in self.readings.get(clock, ()) if e == event])


class GList(list):
    """A list with an arbitrary (also empty) unknown prefix, of which only appending, its length, its truth and its
    last element are used."""
    __vc_ghost__ = True

    def __init__(self, base, elem):
        super().__init__()
        self.n = values.intval(base + ".n")
        cur().assume(self.n.z >= 0)
        self.elem = elem
        self._last = None
        self.new = []

    def append(self, x):
        self.new.append(x)

    def vc_len(self):
        return self.n + len(self.new)

    def __bool__(self):
        return bool(self.vc_len() > 0)

    def last_old(self):
        if self._last is None:
            self._last = self.elem()
        return self._last

    def __getitem__(self, i):
        if i == -1 and not core_sym(i):
            if self.new:
                return self.new[-1]
            if not bool(self.n > 0):
                raise IndexError("list index out of range")
            return self.last_old()
        raise Unsupported("list element")

    def _u(self, *a, **k):
        raise Unsupported("operation on a list of unknown contents")

    __iter__ = __len__ = __contains__ = __eq__ = __add__ = copy = index = pop = sort = _u
    insert = remove = clear = reverse = extend = __setitem__ = __delitem__ = __iadd__ = _u
    __hash__ = None


def core_sym(x):
    return values.is_sym(x)
