"""C01 no lost update: VersionedResource and Synced against an arbitrary history of other workers."""
# instrument: neps.state.neps_state neps.state.trial neps.state.optimizer neps.state.err_dump neps.state.protocols neps.state.filebased
from pyvc.contract import contract
from pyvc.stubs import GFS, Snapshot, Store, patched
from pyvc.values import And, Iff, Implies, Not, Or, same, val
from pyvc.core import cur

from neps.state.protocols import Synced, VersionedResource

ALREADY = VersionedResource.VersionedResourceAlreadyExistsError
MISSING = VersionedResource.VersionedResourceDoesNotExistsError
REMOVED = VersionedResource.VersionedResourceRemovedError
MISMATCH = VersionedResource.VersionMismatchError


def resource(vc, **k):
    """A local handle obtained at some earlier moment, and what the store holds now."""
    s = Store(vc, exists=True, interfere=False, **k)
    s.held = 1
    r = VersionedResource.load(location=s.loc, versioner=s.versioner, reader_writer=s.rw)
    loaded = Snapshot(s)
    s.other_workers()
    return s, r, loaded


def untouched(vc, s, b, what):
    vc.prove(s.version is b.version and s.data is b.data and len(s.writes) == b.writes and s.bumps == b.bumps, what)


def stored(vc, s, b, data):
    vc.prove(len(s.writes) == b.writes + 1, "exactly one write of the data")
    vc.prove(s.data is data or same(s.data, data), "the stored data is the given data")
    vc.prove(s.version is not None, "a version tag is stored")
    vc.prove(s.bumps == b.bumps + 1 and And(*[s.version != t for t in b.tags]), "the version tag was never used before")


@contract("C01", "neps.state.protocols.VersionedResource.put")
def versioned_put(vc):
    s, r, loaded = resource(vc)
    b = Snapshot(s)
    data = val("mine")
    st, e = vc.call(r.put, data)
    latest = s_same(b.version, loaded.version)
    if st == "ok":
        vc.prove(latest, "a write succeeds only from the latest version")
        stored(vc, s, b, data)
        # the handle counts as up to date afterwards
        b2 = Snapshot(s)
        st2, _ = vc.call(r.put, val("mine2"))
        vc.prove(st2 == "ok", "after a successful write the copy is current")
        vc.cover("put accepted")
    else:
        vc.prove(Not(latest), "a write from the latest version is accepted")
        vc.prove(isinstance(e, MISMATCH), "rejected with a version mismatch error")
        untouched(vc, s, b, "a rejected write leaves the stored data and version untouched")
        st2, e2 = vc.call(r.put, val("mine2"))
        vc.prove(st2 == "exc" and isinstance(e2, MISMATCH), "a rejected copy stays rejected until it is synchronised")
        vc.cover("put rejected")


def s_same(a, b):
    if a is None or b is None:
        return a is b
    return a == b


@contract("C01", "neps.state.protocols.VersionedResource.new")
def versioned_new(vc):
    s = Store(vc, interfere=False)
    s.held = 1
    b = Snapshot(s)
    data = val("mine")
    st, r = vc.call(VersionedResource.new, data=data, location=s.loc, versioner=s.versioner, reader_writer=s.rw)
    if b.version is not None:
        vc.prove(st == "exc" and isinstance(r, ALREADY), "creating an existing resource is refused")
        untouched(vc, s, b, "a refused creation leaves the stored one untouched")
        vc.cover("exists")
    else:
        vc.prove(st == "ok", "creating a missing resource succeeds")
        stored(vc, s, b, data)
        vc.prove(same(r.current(), data), "the handle holds the given data")
        st2, e2 = vc.call(r.put, val("mine2"))
        vc.prove(st2 == "ok", "the creator's copy is current")
        vc.cover("created")


@contract("C01", "neps.state.protocols.Synced.put", "neps.state.protocols.Synced.load")
def synced_put(vc):
    s = Store(vc, exists=True)
    st, r = vc.call(Synced.load, locker=s.locker, location=s.loc, versioner=s.versioner, reader_writer=s.rw)
    if st == "exc":
        vc.prove(s.version is None and isinstance(r, MISSING), "loading fails only if there is nothing stored")
        return
    loaded = Snapshot(s)
    data = val("mine")
    st, e = vc.call(r.put, data)
    # what the store held when the lock was acquired: loaded state plus what others did meanwhile
    if st == "ok":
        vc.prove(len(s.writes) == 1 and same(s.data, data), "the stored data is the given data")
        vc.prove(len(s.tags) == len(loaded.tags) + 1, "nobody wrote between our load and our write")
        vc.prove(And(*[s.version != t for t in s.tags[:-1]]), "the version tag was never used before")
        vc.cover("accepted")
    else:
        vc.prove(isinstance(e, MISMATCH) and not s.writes and s.bumps == loaded.bumps,
                 "rejected with a mismatch, nothing written")
        vc.prove(s.version is not loaded.version, "a write from the latest version is accepted")
        vc.cover("rejected")


@contract("C01 C17", "neps.state.protocols.Synced.new", "neps.state.protocols.Synced.new_or_load")
def synced_new_or_load(vc):
    s = Store(vc, removable=False)
    data = val("mine")
    or_load = vc.choose(2, "or_load")
    f = Synced.new_or_load if or_load else Synced.new
    st, r = vc.call(f, locker=s.locker, data=data, location=s.loc, versioner=s.versioner, reader_writer=s.rw)
    if s.writes:
        vc.prove(st == "ok" and len(s.writes) == 1 and same(s.writes[0], data), "creates with the given data")
        vc.prove(s.bumps == 1 and len(s.tags) == 1, "creates only what did not exist")
        vc.cover("created")
    else:
        vc.prove(s.bumps == 0, "an existing resource's version is untouched")
        vc.prove(s.version is not None, "creating what does not exist succeeds")
        if or_load:
            vc.prove(st == "ok", "create-or-load of an existing resource succeeds")
            if st == "ok":
                vc.prove(same(r._unsynced(), s.data), "create-or-load returns the stored one")
            vc.cover("loaded")
        else:
            vc.prove(st == "exc" and isinstance(r, ALREADY), "creating an existing resource is refused")
            vc.cover("refused")


@contract("C01", "neps.state.protocols.Synced.acquire", "neps.state.protocols.Synced._put_unsafe")
def synced_acquire_put(vc):
    s = Store(vc, exists=True, removable=False)
    st, r = vc.call(Synced.load, locker=s.locker, location=s.loc, versioner=s.versioner, reader_writer=s.rw)
    data = val("mine")

    def update():
        with r.acquire() as (cur_, put):
            b = Snapshot(s)
            put(data)
            return b
    st, b = vc.call(update)
    vc.prove(st == "ok", "a write inside acquire is always accepted")
    if st == "ok":
        stored(vc, s, b, data)
        vc.cover("acquired")


@contract("C01", "neps.state.filebased.FileVersioner.bump", "neps.state.filebased.FileVersioner.current",
          "neps.state.filebased.make_sha")
def file_versioner(vc):
    import neps.state.filebased as F
    fs = GFS(vc)
    path = fs.path("version")
    made = []

    class U:
        def __init__(self):
            self.hex = val("uuid", str)
            made.append(self.hex)

    old = None
    if vc.choose(2, "exists"):
        old = val("old", str)
        fs.files[path.key()] = old
    with patched(F, uuid4=U):
        v = F.FileVersioner(version_file=path)
        vc.prove(v.current() is old or same(v.current(), old), "the current version is what is stored, or none")
        st, t = vc.call(v.bump)
        vc.prove(st == "ok", "bumping succeeds")
        vc.prove(len(made) >= 1 and Or(*[same(t, m) for m in made]), "the tag is a fresh unique identifier")
        vc.prove(same(fs.get(path), t), "the tag stored is the tag returned")
        vc.prove(same(F.FileVersioner(version_file=path).current(), t), "any reader now sees the new tag")
        st, t2 = vc.call(v.bump)
        vc.prove(len(made) >= 2 and Or(*[same(t2, m) for m in made[1:]]), "every bump makes a tag of its own")
    vc.cover("bumped")


@contract("C01", "neps.state.neps_state.NePSState.report_trial_evaluation")
def report_updates(vc):
    """Budget and error log are updated from the value acquired, so that no other worker's update is lost."""
    from contracts.reporting import report_contract
    report_contract(vc)


@contract("C01", "neps.state.neps_state.NePSState.sample_trial")
def sampling_updates(vc):
    from contracts.sampling import sample_trial_contract
    sample_trial_contract(vc)
