"""C02 synchronised reads return the latest stored value."""
# instrument: neps.state.protocols
from pyvc.contract import contract
from pyvc.core import cur
from pyvc.stubs import Snapshot, Store
from pyvc.values import And, Not, same, val

from neps.state.protocols import Synced, VersionedResource

REMOVED = VersionedResource.VersionedResourceRemovedError
MISSING = VersionedResource.VersionedResourceDoesNotExistsError
MISMATCH = VersionedResource.VersionMismatchError


def handle(vc):
    """A local handle that has lived through an arbitrary history: loaded, possibly written or synchronised since."""
    s = Store(vc, exists=True, interfere=False)
    s.held = 1
    how = vc.choose(3, "history")
    r = VersionedResource.load(location=s.loc, versioner=s.versioner, reader_writer=s.rw)
    if how == 1:
        r.put(val("earlier"))
    elif how == 2:
        s.foreign_write()
        r.sync()
    s.other_workers()
    if vc.choose(2, "twice"):
        s.foreign_write()
    return s, r


@contract("C02", "neps.state.protocols.VersionedResource.sync", "neps.state.protocols.VersionedResource.sync_and_get",
          "neps.state.protocols.VersionedResource.current")
def versioned_sync(vc):
    s, r = handle(vc)
    b = Snapshot(s)
    get = vc.choose(2, "get")
    st, v = vc.call(r.sync_and_get if get else r.sync)
    if b.version is None:
        vc.prove(st == "exc" and isinstance(v, REMOVED), "a removed resource is reported as removed")
        vc.cover("removed")
        return
    vc.prove(st == "ok", "synchronising an existing resource succeeds")
    if st != "ok":
        return
    vc.prove(same(r.current(), b.data), "the local copy is the value of the last completed write")
    if get:
        vc.prove(same(v, b.data), "the value returned is the value of the last completed write")
    vc.prove(s.version is b.version and s.data is b.data and not len(s.writes) > b.writes, "reading changes nothing")
    vc.prove(Not(r.is_stale()), "the copy is not stale afterwards")
    st, _ = vc.call(r.put, val("mine"))
    vc.prove(st == "ok", "a following write is accepted")
    vc.prove(same(r.current(), s.data) and Not(r.is_stale()), "after a write the local copy is the stored one")
    vc.cover("synced")


@contract("C02", "neps.state.protocols.VersionedResource.load", "neps.state.protocols.Synced.load")
def load(vc):
    s = Store(vc)
    synced = vc.choose(2, "synced")
    if synced:
        st, r = vc.call(Synced.load, locker=s.locker, location=s.loc, versioner=s.versioner, reader_writer=s.rw)
    else:
        s.held = 1
        st, r = vc.call(VersionedResource.load, location=s.loc, versioner=s.versioner, reader_writer=s.rw)
    if s.version is None:
        vc.prove(st == "exc" and isinstance(r, MISSING), "nothing stored: reported as missing")
        vc.cover("missing")
        return
    vc.prove(st == "ok", "loading what is stored succeeds")
    if st == "ok":
        vc.prove(same(r._unsynced() if synced else r.current(), s.data), "loading gives the stored value")
        vc.cover("loaded")


@contract("C02", "neps.state.protocols.Synced.synced")
def synced_read(vc):
    s = Store(vc, exists=True)
    st, r = vc.call(Synced.load, locker=s.locker, location=s.loc, versioner=s.versioner, reader_writer=s.rw)
    if st == "exc":
        return
    for _ in range(2):
        st, v = vc.call(r.synced)
        # s.version / s.data: what the store held while we held the lock
        if s.version is None:
            vc.prove(st == "exc" and isinstance(v, REMOVED), "a removed resource is reported as removed")
            vc.cover("removed")
            return
        vc.prove(st == "ok" and same(v, s.data), "a synchronised read returns the last completed write")
    s.interfere = False
    st, _ = vc.call(r.put, val("mine"))
    vc.prove(st == "ok" or s.version is None, "a following write is accepted if nobody wrote in between")
    vc.cover("read")


@contract("C02", "neps.state.protocols.Synced.acquire")
def synced_acquire(vc):
    s = Store(vc, exists=True)
    st, r = vc.call(Synced.load, locker=s.locker, location=s.loc, versioner=s.versioner, reader_writer=s.rw)
    if st == "exc":
        return
    seen = []

    def update():
        with r.acquire() as (v, put):
            seen.append((v, s.data))
            put(val("mine"))
    st, e = vc.call(update)
    if st == "ok":
        vc.prove(len(seen) == 1 and same(seen[0][0], seen[0][1]), "acquiring yields the last completed write")
        st, v = vc.call(r.synced)
        if st == "ok":
            vc.prove(same(v, s.data), "a read after the update returns the last completed write")
        vc.cover("acquired")
    else:
        vc.prove(s.version is None and isinstance(e, REMOVED) and not seen, "only a removed resource cannot be acquired")
        vc.cover("removed")


@contract("C02", "neps.state.protocols.VersionedResource.sync", "neps.state.protocols.Synced.synced")
def read_after_failure(vc):
    """A read that fails half way leaves no outdated value behind that later passes as the latest."""
    s = Store(vc, exists=True)
    st, r = vc.call(Synced.load, locker=s.locker, location=s.loc, versioner=s.versioner, reader_writer=s.rw)
    if st == "exc":
        return
    s.may_fail = True
    st, v = vc.call(r.synced)
    s.may_fail = False
    if st == "exc":
        vc.cover("failed once")
    st, v = vc.call(r.synced)
    if s.version is None:
        vc.prove(st == "exc" and isinstance(v, REMOVED), "a removed resource is reported as removed")
        return
    vc.prove(st == "ok" and same(v, s.data), "after a failed attempt a synchronised read returns the last completed write")
    s.interfere = False
    st, e = vc.call(r.synced)
    vc.prove(st == "ok" and same(e, s.data), "and so does the next")
