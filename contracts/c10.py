"""C10 sampling continues the run's shared random streams."""
# instrument: neps.state.neps_state neps.state.trial neps.state.optimizer neps.state.seed_snapshot
from pyvc.contract import contract
from pyvc.core import Unsupported, cur
from pyvc.stubs import Ghost, patched
from pyvc.values import And, SymVal, intval, realval, same, val
from contracts.sampling import sample_trial_contract

import neps.state.seed_snapshot as S


@contract("C10", "neps.state.neps_state.NePSState.sample_trial")
def sample_trial(vc):
    sample_trial_contract(vc)


class Arr:
    """An array holding generator state: contents by value, copied by copy()/clone()."""

    def __init__(self, content):
        self.content = content

    def copy(self):
        return Arr(self.content)

    clone = copy


class Gens:
    """The three (four with CUDA) global generators of the process."""

    def __init__(self, vc):
        self.vc = vc
        self.py = (intval("py.version"), val("py.keys"), None if vc.choose(2, "gauss") else realval("py.gauss"))
        self.np = ["MT19937", Arr(val("np.keys")), intval("np.pos"), intval("np.has_gauss"), realval("np.gauss")]
        self.torch = Arr(val("torch.state"))
        self.cuda = [Arr(val("cuda.state"))] if vc.choose(2, "cuda") else None

    def view(self):
        return [*self.py, self.np[0], self.np[1].content, *self.np[2:], self.torch.content] + \
            ([c.content for c in self.cuda] if self.cuda is not None else [])

    def draw(self):
        """Draws change every stream in place."""
        self.py = (self.py[0], val("py.keys"), realval("g"))
        self.np[1].content = val("np.keys")
        self.np[2:] = [intval("np.pos"), intval("np.has_gauss"), realval("np.gauss")]
        self.torch.content = val("torch.state")
        for c in self.cuda or ():
            c.content = val("cuda.state")


def shims(g):
    class random_:
        @staticmethod
        def getstate():
            return g.py

        @staticmethod
        def setstate(s):
            g.py = tuple(s)

    class np_random:
        @staticmethod
        def get_state(legacy=True):
            return (g.np[0], g.np[1], *g.np[2:])       # the array may alias the generator's own

        @staticmethod
        def set_state(s):
            g.np = [s[0], Arr(s[1].content), *s[2:]]

    class np_:
        random = np_random

    class torch_random:
        @staticmethod
        def get_rng_state():
            return g.torch

        @staticmethod
        def set_rng_state(t):
            g.torch = Arr(t.content)

    class cuda_:
        @staticmethod
        def is_available():
            return g.cuda is not None

        @staticmethod
        def get_rng_state_all():
            return g.cuda

        @staticmethod
        def set_rng_state_all(ts):
            g.cuda = [Arr(t.content) for t in ts]

    class torch_:
        random = torch_random
        cuda = cuda_
    return random_, np_, torch_


class fake_torch:
    """`import torch` inside the verified functions yields the shim."""

    def __init__(self, m):
        self.m = m

    def __enter__(self):
        import sys
        self.old = sys.modules.get("torch")
        sys.modules["torch"] = self.m

    def __exit__(self, *a):
        import sys
        if self.old is None:
            del sys.modules["torch"]
        else:
            sys.modules["torch"] = self.old


def eq(a, b):
    return len(a) == len(b) and And(*[same(x, y) for x, y in zip(a, b)])


@contract("C10", "neps.state.seed_snapshot.SeedSnapshot.recapture", "neps.state.seed_snapshot.SeedSnapshot.new_capture",
          "neps.state.seed_snapshot.SeedSnapshot.set_as_global_seed_state")
def snapshot(vc):
    """Capture, arbitrary draws, install: every generator is back where it was captured; installing does not tie the
    snapshot to the generators."""
    g = Gens(vc)
    r_, n_, t_ = shims(g)
    with patched(S, random=r_, np=n_), fake_torch(t_):
        if vc.choose(2, "how"):
            snap = S.SeedSnapshot.new_capture()
        else:
            snap = S.SeedSnapshot.new_capture()
            g.draw()
            snap.recapture()
        at = g.view()
        g.draw()
        st, e = vc.call(snap.set_as_global_seed_state)
        vc.prove(st == "ok", "installing a snapshot succeeds")
        vc.prove(eq(g.view(), at), "installing a snapshot restores every generator to the captured state")
        g.draw()
        vc.call(snap.set_as_global_seed_state)
        vc.prove(eq(g.view(), at), "draws do not change a snapshot")
        g.draw()
        later = g.view()
        vc.call(snap.recapture)
        g.draw()
        vc.call(snap.set_as_global_seed_state)
        vc.prove(eq(g.view(), later), "recapturing takes the state of all generators at that moment")
    vc.cover("captured")
