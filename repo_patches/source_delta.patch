From dd359c625e44bc401001aa91dfe6654f4e8a4e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 01/44] fix: count pending and in-progress trials by their
 state in the status summary

---
 neps/status/status.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index 660c53f..e4e0175 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -58,12 +58,12 @@ def get_summary_dict(
     in_progress = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.EVALUATING
+        if trial.state == Trial.State.EVALUATING
     }
     pending = {
         trial.id: trial.config
         for trial in trials.values()
-        if trial.State == Trial.State.PENDING
+        if trial.state == Trial.State.PENDING
     }
 
     summary: dict[str, Any] = {}
-- 
2.43.0


From 41498e196dfff72828e92cc188b33f9132d8da48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 02/44] fix: BaseOptimizer.get_cost of a Report returns its
 cost, not its loss

---
 neps/optimizers/base_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/optimizers/base_optimizer.py b/neps/optimizers/base_optimizer.py
index 898508c..0f36032 100644
--- a/neps/optimizers/base_optimizer.py
+++ b/neps/optimizers/base_optimizer.py
@@ -149,7 +149,7 @@ class BaseOptimizer:
         # use `Trial` and `Report`, they already take care of this and save having to do
         # this `_get_loss` at every call
         if isinstance(result, Report):
-            return result.loss if result.loss is not None else "error"
+            return result.cost if result.cost is not None else "error"
 
         return _get_cost(
             result,
-- 
2.43.0


From 02e81a78000651fa1aa04a3cbc9c3b196a958c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 03/44] fix: worker survives losing the race for the first
 trial it tries to claim

---
 neps/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/runtime.py b/neps/runtime.py
index 71b72f8..0a09586 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -379,6 +379,7 @@ class DefaultWorker(Generic[Loc]):
         _error_from_evaluation: Exception | None = None
 
         _repeated_fail_get_next_trial_count = 0
+        n_failed_set_trial_state = 0
         while True:
             # NOTE: We rely on this function to do logging and raising errors if it should
             should_stop = self._check_if_should_stop(
-- 
2.43.0


From 2f3e85736d267adbcde876370d1d325a4966b58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:20 +0000
Subject: [PATCH 04/44] fix: stop on worker errors whose exception object is
 falsy

---
 neps/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/runtime.py b/neps/runtime.py
index 0a09586..7899d1b 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -206,7 +206,7 @@ class DefaultWorker(Generic[Loc]):
 
         # First check for stopping criterion for this worker in particular as it's
         # cheaper and doesn't require anything from the state.
-        if error_from_this_worker and self.settings.on_error in (
+        if error_from_this_worker is not None and self.settings.on_error in (
             OnErrorPossibilities.RAISE_WORKER_ERROR,
             OnErrorPossibilities.RAISE_ANY_ERROR,
             OnErrorPossibilities.STOP_WORKER_ERROR,
-- 
2.43.0


From 244fd0f93935bfdedabed3f22b82164f99b38d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:37 +0000
Subject: [PATCH 05/44] fix: clear the trial in progress when its evaluation is
 interrupted

---
 neps/runtime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neps/runtime.py b/neps/runtime.py
index 7899d1b..8839a1f 100644
--- a/neps/runtime.py
+++ b/neps/runtime.py
@@ -110,10 +110,12 @@ def _set_global_trial(trial: Trial) -> Iterator[None]:
             "\n\nThis is most likely a bug and should be reported to NePS!"
         )
     _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = trial
-    yield
-    for _key, callback in _TRIAL_END_CALLBACKS.items():
-        callback(trial)
-    _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
+    try:
+        yield
+        for _key, callback in _TRIAL_END_CALLBACKS.items():
+            callback(trial)
+    finally:
+        _CURRENTLY_RUNNING_TRIAL_IN_PROCESS = None
 
 
 # NOTE: This class is quite stateful and has been split up quite a bit to make testing
-- 
2.43.0


From 6dbd12a0ae650c4ed5872e0f9a202e391f2be4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:03 +0000
Subject: [PATCH 06/44] fix: never hand out a trial that was claimed since it
 was listed as pending

---
 neps/state/neps_state.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/state/neps_state.py b/neps/state/neps_state.py
index 1ed3f67..ac148f0 100644
--- a/neps/state/neps_state.py
+++ b/neps/state/neps_state.py
@@ -207,8 +207,11 @@ class NePSState(Generic[Loc]):
         Returns:
             The next trial or a list of trials if `n` is not `None`.
         """
+        # NOTE: Another worker may have claimed a trial since `pending()` looked at it
         _pending_itr = (
-            shared_trial.synced() for _, shared_trial in self._trials.pending()
+            trial
+            for _, shared_trial in self._trials.pending()
+            if (trial := shared_trial.synced()).state == Trial.State.PENDING
         )
         if n is not None:
             return take(n, _pending_itr)
-- 
2.43.0


From 1a6392750ff0af8234fc55e35dcb29ed59906fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:03 +0000
Subject: [PATCH 07/44] fix: store reports of exceptions that cannot be
 deep-copied

---
 neps/state/filebased.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index cf53c62..2b32f21 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -254,7 +254,8 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
 
         if trial.report is not None:
             report_path = directory / cls.REPORT_FILENAME
-            serialize(asdict(trial.report), report_path)
+            # NOTE: Not `asdict`, it deep-copies and not every exception can be copied
+            serialize(vars(trial.report), report_path)
 
 
 @dataclass
-- 
2.43.0


From 3ffe18b85327f440a0d16db405b14549b75018a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:03 +0000
Subject: [PATCH 08/44] fix: accept NumPy arrays as learning curves

---
 neps/state/_eval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neps/state/_eval.py b/neps/state/_eval.py
index f3153a6..84eb7d7 100644
--- a/neps/state/_eval.py
+++ b/neps/state/_eval.py
@@ -56,7 +56,9 @@ def parse_user_result(
             else:
                 extracted_learning_curve = default_learning_curve
 
-        if extracted_learning_curve == "loss":
+        if isinstance(extracted_learning_curve, str) and (
+            extracted_learning_curve == "loss"
+        ):
             extracted_learning_curve = [extracted_loss]
 
         extra = user_result
-- 
2.43.0


From fe53b16d5c4db758752622df5e9e5ae404cdae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:03 +0000
Subject: [PATCH 09/44] fix: serialize zero-dimensional arrays and tensors

---
 neps/utils/files.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neps/utils/files.py b/neps/utils/files.py
index 95eb4ee..dd9bc19 100644
--- a/neps/utils/files.py
+++ b/neps/utils/files.py
@@ -28,9 +28,6 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
     if isinstance(data, Mapping):
         return {key: serializable_format(val) for key, val in data.items()}
 
-    if not isinstance(data, str) and isinstance(data, Iterable):
-        return [serializable_format(val) for val in data]
-
     if type(data).__module__ in ["numpy", "torch"]:
         data = data.tolist()  # type: ignore
         if type(data).__module__ == "numpy":
@@ -38,6 +35,9 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
 
         return serializable_format(data)
 
+    if not isinstance(data, str) and isinstance(data, Iterable):
+        return [serializable_format(val) for val in data]
+
     return data
 
 
-- 
2.43.0


From 8f637ae73d2c4ec1e9d314a143767fad1329a5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:30 +0000
Subject: [PATCH 10/44] fix: create a run in an existing directory that holds
 none

---
 neps/state/filebased.py | 55 +++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 2b32f21..57302a5 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -572,10 +572,9 @@ def create_or_load_filebased_neps_state(
     !!! warning
 
         We check that the optimizer info in the NePSState on disk matches
-        the one that is passed. However we do not lock this check so it
-        is possible that if two processes try to create a NePSState at the
-        same time, both with different optimizer infos, that one will fail
-        to create the NePSState. This is a limitation of the current design.
+        the one that is passed. If two processes try to create a NePSState at
+        the same time, both with different optimizer infos, one of them will
+        fail to create the NePSState. This is a limitation of the current design.
 
         In principal, we could allow multiple optimizers to be run and share
         the same set of trials.
@@ -591,7 +590,6 @@ def create_or_load_filebased_neps_state(
     Raises:
         NePSError: If the optimizer info on disk does not match the one provided.
     """
-    is_new = not directory.exists()
     directory.mkdir(parents=True, exist_ok=True)
     config_dir = directory / "configs"
     config_dir.mkdir(parents=True, exist_ok=True)
@@ -607,35 +605,32 @@ def create_or_load_filebased_neps_state(
     # We have to do one bit of sanity checking to ensure that the optimzier
     # info on disk manages the one we have recieved, otherwise we are unsure which
     # optimizer is being used.
-    # NOTE: We assume that we do not have to worry about a race condition
-    # here where we have two different NePSState objects with two different optimizer
-    # infos trying to be created at the same time. This avoids the need to lock to
-    # check the optimizer info. If this assumption changes, then we would have
-    # to first lock before we do this check
-    optimizer_info_reader_writer = ReaderWriterOptimizerInfo()
-    if not is_new:
-        existing_info = optimizer_info_reader_writer.read(optimizer_info_dir)
-        if existing_info != optimizer_info:
-            raise NePSError(
-                "The optimizer info on disk does not match the one provided."
-                f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
-                f"\n\nLoaded the one on disk from {optimizer_info_dir}."
-            )
+    # NOTE: Whether there is a run in the directory is decided by whether its optimizer
+    # info is stored, not by whether the directory exists, which another worker may have
+    # just created and the user may have created empty.
+    shared_optimizer_info = Synced.new_or_load(
+        data=optimizer_info,  # type: ignore
+        location=optimizer_info_dir,
+        versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
+        locker=FileLocker(
+            lock_path=optimizer_info_dir / ".lock",
+            poll=OPTIMIZER_INFO_FILELOCK_POLL,
+            timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
+        ),
+        reader_writer=ReaderWriterOptimizerInfo(),
+    )
+    existing_info = shared_optimizer_info.synced()
+    if existing_info != optimizer_info:
+        raise NePSError(
+            "The optimizer info on disk does not match the one provided."
+            f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
+            f"\n\nLoaded the one on disk from {optimizer_info_dir}."
+        )
 
     return NePSState(
         location=str(directory.absolute().resolve()),
         _trials=TrialRepoInDirectory(config_dir),
-        _optimizer_info=Synced.new_or_load(
-            data=optimizer_info,  # type: ignore
-            location=optimizer_info_dir,
-            versioner=FileVersioner(version_file=optimizer_info_dir / ".version"),
-            locker=FileLocker(
-                lock_path=optimizer_info_dir / ".lock",
-                poll=OPTIMIZER_INFO_FILELOCK_POLL,
-                timeout=OPTIMIZER_INFO_FILELOCK_TIMEOUT,
-            ),
-            reader_writer=ReaderWriterOptimizerInfo(),
-        ),
+        _optimizer_info=shared_optimizer_info,
         _seed_state=Synced.new_or_load(
             data=SeedSnapshot.new_capture(),
             location=seed_dir,
-- 
2.43.0


From 39e89ba2414e89cd8773165bc0510a162f70f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 11/44] fix: values lifted from the unit interval stay inside
 the bounds of their domain

---
 neps/search_spaces/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index d7260c0..523fb44 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -279,7 +279,8 @@ class Domain(Generic[V]):
         if self.round:
             x = torch.round(x)
 
-        return x.type(dtype)
+        # Rounding errors may have moved the ends of the domain slightly out of it
+        return x.clip(self.lower, self.upper).type(dtype)
 
     def cast(self, x: Tensor, frm: Domain, *, dtype: torch.dtype | None = None) -> Tensor:
         """Cast a tensor of values frm the domain `frm` to this domain.
-- 
2.43.0


From 175f6af9c570192d422edabfd2f7c67cefd7ba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 12/44] fix: casting from a log domain to its own log scale
 takes the log, not the exponential

---
 neps/search_spaces/domain.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index 523fb44..e218adc 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -319,14 +319,11 @@ class Domain(Generic[V]):
             return self.from_unit(x, dtype=dtype)  # type: ignore
 
         # Shortcut 3. (Log lift)
-        # We can also shortcut out if the only diffrence is that we are coming frm the
-        # log bounds of this domain. We dont care if where we came from was binned or not,
-        # we just lift it up with `np.exp` and round if needed
+        # We can also shortcut out if the only diffrence is that this domain is the log
+        # scale of the one we are coming from. We dont care if where we came from was
+        # binned or not, we just take the log of it.
         if (self.lower, self.upper) == frm.log_bounds and self.cardinality is None:
-            x = torch.exp(x)
-            if self.round:
-                x = torch.round(x)
-            return x.type(dtype)
+            return torch.log(x).clip(self.lower, self.upper).type(dtype)
 
         # Otherwise, through the unit interval we go
         lift = self.from_unit(frm.to_unit(x), dtype=dtype)
-- 
2.43.0


From 34010a57df4c45bbab685e94bd854c3e63c16514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 13/44] fix: a categorical keeps its value when setting it to
 something else is refused

---
 neps/search_spaces/hyperparameters/categorical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/categorical.py b/neps/search_spaces/hyperparameters/categorical.py
index d44499b..3d4ae8c 100644
--- a/neps/search_spaces/hyperparameters/categorical.py
+++ b/neps/search_spaces/hyperparameters/categorical.py
@@ -268,8 +268,9 @@ class CategoricalParameter(
             self.normalized_value = None
             return
 
-        self._value = value
+        # NOTE: Raises if `value` is not one of the choices, before anything is changed
         self._value_index = self.choices.index(value)
+        self._value = value
         self.normalized_value = float(self._value_index)
 
     @override
-- 
2.43.0


From bd57870611a3dac99da0416b2185e7696954424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 14/44] fix: loading an integer checks its bounds and updates
 its normalized value

---
 neps/search_spaces/hyperparameters/integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 73861ad..6780b82 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -112,7 +112,7 @@ class IntegerParameter(NumericalParameter[int]):
 
     @override
     def load_from(self, value: Number) -> None:
-        self._value = int(np.rint(value))
+        self.set_value(int(np.rint(value)))
 
     @override
     def set_default(self, default: int | None) -> None:
-- 
2.43.0


From e93db4e6e184e49db7fbfbad3787d5bdc0007497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 15/44] fix: an integer keeps its default when setting it out
 of bounds is refused

---
 neps/search_spaces/hyperparameters/integer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index 6780b82..e072430 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -122,9 +122,10 @@ class IntegerParameter(NumericalParameter[int]):
             self.float_hp.set_default(None)
         else:
             _default = int(round(default))
+            # NOTE: Raises if `_default` is out of bounds, before anything is changed
+            self.float_hp.set_default(_default)
             self.default = _default
             self.has_prior = True
-            self.float_hp.set_default(_default)
 
     @override
     def set_value(self, value: int | None) -> None:
-- 
2.43.0


From 3dd6f40e1345365963d585ac2afad29edf8d850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 16/44] fix: a grid contains every point once and only legal
 values

---
 neps/search_spaces/search_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index 34e885d..62b0001 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -626,8 +626,8 @@ class SearchSpace(Mapping[str, Any]):
                 _grid = (
                     _grid.astype(np.int64) if isinstance(hp, IntegerParameter) else _grid
                 )
-                _grid = np.unique(grid).tolist()
-                param_ranges.append(grid)
+                _grid = np.unique(_grid).tolist()
+                param_ranges.append(_grid)
                 continue
 
             raise NotImplementedError(f"Unknown Parameter type: {type(hp)}\n{hp}")
-- 
2.43.0


From a997939f6acd91adc5d971c6fb475ee74e8937e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:20 +0000
Subject: [PATCH 17/44] fix: grid search without a seed proposes every point
 exactly once

---
 neps/optimizers/grid_search/optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neps/optimizers/grid_search/optimizer.py b/neps/optimizers/grid_search/optimizer.py
index a5cf48f..a23ee11 100644
--- a/neps/optimizers/grid_search/optimizer.py
+++ b/neps/optimizers/grid_search/optimizer.py
@@ -36,7 +36,9 @@ class GridSearch(BaseOptimizer):
         if _num_previous_configs > len(self.configs_list) - 1:
             raise ValueError("Grid search exhausted!")
 
-        rng = random.Random(self.seed)
+        # NOTE: The same order at every call, also without a seed, as which points are
+        # still to be proposed is derived from the number of previous trials only
+        rng = random.Random(self.seed if self.seed is not None else 0)
         configs = rng.sample(self.configs_list, len(self.configs_list))
 
         config = configs[_num_previous_configs]
-- 
2.43.0


From 404611386d6829ad11242b54b00c62f0b86ca99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:16 +0000
Subject: [PATCH 18/44] fix: brackets of all stopping rates agree on the number
 of rungs

---
 .../multi_fidelity/successive_halving.py       | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index c8c40cf..bf2d57e 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -175,13 +175,8 @@ class SuccessiveHalvingBase(BaseOptimizer):
     def _get_rung_map(self, s: int = 0) -> dict:
         """Maps rungs (0,1,...,k) to a fidelity value based on fidelity bounds, eta, s."""
         assert s <= self.stopping_rate_limit
-        new_min_budget = self.min_budget * (self.eta**s)
-        nrungs = (
-            np.floor(np.log(self.max_budget / new_min_budget) / np.log(self.eta)).astype(
-                int
-            )
-            + 1
-        )
+        # NOTE: Not computed anew from the budgets, where rounding may lead to more rungs
+        nrungs = self.stopping_rate_limit - s + 1
         _max_budget = self.max_budget
         rung_map = {}
         for i in reversed(range(nrungs)):
@@ -196,13 +191,8 @@ class SuccessiveHalvingBase(BaseOptimizer):
     def _get_config_map(self, s: int = 0) -> dict:
         """Maps rungs (0,1,...,k) to the number of configs for each fidelity."""
         assert s <= self.stopping_rate_limit
-        new_min_budget = self.min_budget * (self.eta**s)
-        nrungs = (
-            np.floor(np.log(self.max_budget / new_min_budget) / np.log(self.eta)).astype(
-                int
-            )
-            + 1
-        )
+        # NOTE: Not computed anew from the budgets, where rounding may lead to more rungs
+        nrungs = self.stopping_rate_limit - s + 1
         s_max = self.stopping_rate_limit + 1
         _s = self.stopping_rate_limit - s
         # L2 from Alg 1 in https://arxiv.org/pdf/1603.06560.pdf
-- 
2.43.0


From cab9a2d084f7ddc8e4a21ea84a9244a2127d39b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:16 +0000
Subject: [PATCH 19/44] fix: fidelities of the rungs stay inside the fidelity
 bounds

---
 neps/optimizers/multi_fidelity/successive_halving.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index bf2d57e..b902ee4 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -180,10 +180,12 @@ class SuccessiveHalvingBase(BaseOptimizer):
         _max_budget = self.max_budget
         rung_map = {}
         for i in reversed(range(nrungs)):
+            # Rounding errors may have moved the lowest fidelity slightly out of bounds
+            fidelity = max(_max_budget, self.min_budget)
             rung_map[i + s] = (
-                int(_max_budget)
+                int(fidelity)
                 if isinstance(self.pipeline_space.fidelity, IntegerParameter)
-                else _max_budget
+                else fidelity
             )
             _max_budget /= self.eta
         return rung_map
-- 
2.43.0


From 1e0009e310f4a6c8d0c1d41727fdc7e28a33c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:16 +0000
Subject: [PATCH 20/44] fix: un-normalized floats stay inside their bounds

---
 neps/search_spaces/hyperparameters/float.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/hyperparameters/float.py b/neps/search_spaces/hyperparameters/float.py
index 8badc76..d58669f 100644
--- a/neps/search_spaces/hyperparameters/float.py
+++ b/neps/search_spaces/hyperparameters/float.py
@@ -171,7 +171,8 @@ class FloatParameter(NumericalParameter[float]):
 
         normalized_value = normalized_value * (high - low) + low
         _value = np.exp(normalized_value) if self.log else normalized_value
-        return float(_value)
+        # Rounding errors may have moved the ends of the range slightly out of it
+        return float(min(self.upper, max(self.lower, _value)))
 
     @override
     def _get_non_unique_neighbors(
-- 
2.43.0


From b056b53ee653cb171ad49a03a192ebb20f02583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:16 +0000
Subject: [PATCH 21/44] fix: clones keep the confidence set by
 set_default_confidence_score

---
 neps/search_spaces/parameter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/search_spaces/parameter.py b/neps/search_spaces/parameter.py
index e58014e..a0f1a55 100644
--- a/neps/search_spaces/parameter.py
+++ b/neps/search_spaces/parameter.py
@@ -266,6 +266,7 @@ class ParameterWithPrior(Parameter[ValueT, SerializedT]):
                 f" {list(self.DEFAULT_CONFIDENCE_SCORES.keys())}"
             )
 
+        self.default_confidence_choice = default_confidence
         self.default_confidence_score = self.DEFAULT_CONFIDENCE_SCORES[default_confidence]
 
     def sample(self, *, user_priors: bool = False) -> Self:
-- 
2.43.0


From 1cfdc5754a903447fbd8328e295074f66696b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:41 +0000
Subject: [PATCH 22/44] fix: successive halving and its relatives go on after
 an ignored error

---
 neps/optimizers/multi_fidelity/successive_halving.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index b902ee4..146b474 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -218,6 +218,9 @@ class SuccessiveHalvingBase(BaseOptimizer):
         for config_id, config_val in previous_results.items():
             _config, _rung = self._get_config_id_split(config_id)
             perf = self.get_loss(config_val.result)
+            if perf == "error":
+                # An ignored error ranks behind every evaluation with a loss
+                perf = np.inf
             if int(_config) in self.observed_configs.index:
                 # config already recorded in dataframe
                 rung_recorded = self.observed_configs.at[int(_config), "rung"]
-- 
2.43.0


From a4e9960c9e8c3ce223bcc4578d79f02f0379ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:55 +0000
Subject: [PATCH 23/44] fix: random interleaving draws from the run's random
 stream

---
 neps/optimizers/multi_fidelity/successive_halving.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index 146b474..cff252f 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -415,9 +415,6 @@ class SuccessiveHalvingBase(BaseOptimizer):
             config_id = f"{row.name}_{rung}"
         else:
             rung_id = self.min_rung
-            # using random instead of np.random to be consistent with NePS BO
-            rng = random.Random(None)  # TODO: Seeding
-
             if (
                 self.use_priors
                 and self.sample_default_first
@@ -430,7 +427,7 @@ class SuccessiveHalvingBase(BaseOptimizer):
                 logger.info("Sampling the default configuration...")
                 config = self.pipeline_space.sample_default_configuration()
 
-            elif rng.random() < self.random_interleave_prob:
+            elif random.random() < self.random_interleave_prob:
                 config = self.pipeline_space.sample(
                     patience=self.patience,
                     user_priors=False,  # sample uniformly random
-- 
2.43.0


From 63f54528e587a880b4d91aadb77b9ce55988c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:55 +0000
Subject: [PATCH 24/44] fix: resetting a trial forgets its report

---
 neps/state/trial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neps/state/trial.py b/neps/state/trial.py
index 75ad066..6c3cff2 100644
--- a/neps/state/trial.py
+++ b/neps/state/trial.py
@@ -258,6 +258,7 @@ class Trial:
     def reset(self) -> None:
         """Reset the trial to a pending state."""
         self.state = State.PENDING
+        self.report = None
         self.metadata = MetaData(
             id=self.metadata.id,
             location=self.metadata.location,
-- 
2.43.0


From a8f1dfd0eb02cd56694159296af520ae29f08ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:55 +0000
Subject: [PATCH 25/44] fix: storing a trial without report removes the report
 stored before

---
 neps/state/filebased.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 57302a5..b075563 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -252,10 +252,12 @@ class ReaderWriterTrial(ReaderWriter[Trial, Path]):
             previous_trial_path = directory / cls.PREVIOUS_TRIAL_ID_FILENAME
             previous_trial_path.write_text(trial.metadata.previous_trial_id)
 
+        report_path = directory / cls.REPORT_FILENAME
         if trial.report is not None:
-            report_path = directory / cls.REPORT_FILENAME
             # NOTE: Not `asdict`, it deep-copies and not every exception can be copied
             serialize(vars(trial.report), report_path)
+        else:
+            report_path.unlink(missing_ok=True)
 
 
 @dataclass
-- 
2.43.0


From 73d92b61a8f23af6e944d3740a24591e3580eead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:56 +0000
Subject: [PATCH 26/44] fix: leave the info_dict returned by the user as it is

---
 neps/state/_eval.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/state/_eval.py b/neps/state/_eval.py
index 84eb7d7..cde4a03 100644
--- a/neps/state/_eval.py
+++ b/neps/state/_eval.py
@@ -49,10 +49,13 @@ def parse_user_result(
         if extracted_learning_curve is _notset:
             # HACK: Backwards compat, check if it's in the "info_dict" key
             if "info_dict" in user_result:
-                extracted_learning_curve = user_result["info_dict"].pop(
+                # NOTE: Copied, the dictionary belongs to the user who may reuse it
+                info_dict = dict(user_result["info_dict"])
+                extracted_learning_curve = info_dict.pop(
                     "learning_curve",
                     default_learning_curve,
                 )
+                user_result["info_dict"] = info_dict
             else:
                 extracted_learning_curve = default_learning_curve
 
-- 
2.43.0


From 51e29513c847998e58d52084c3f00791c226cb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:59 +0000
Subject: [PATCH 27/44] fix: list trials whose id contains "config_" under
 their own id

---
 neps/state/filebased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index b075563..827d0fd 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -94,7 +94,7 @@ class TrialRepoInDirectory(TrialRepo[Path]):
     def all_trial_ids(self) -> set[str]:
         """List all the trial ids in this trial Repo."""
         return {
-            config_path.name.replace("config_", "")
+            config_path.name.removeprefix("config_")
             for config_path in self.directory.iterdir()
             if config_path.name.startswith("config_") and config_path.is_dir()
         }
-- 
2.43.0


From 84e2c887fe0991d051ba56fc77854f69a7f6d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:59 +0000
Subject: [PATCH 28/44] fix: resuming with the same optimizer arguments is not
 refused for tuples among them

---
 neps/state/filebased.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index 827d0fd..fe48025 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -52,7 +52,7 @@ from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
 from neps.state.protocols import Locker, ReaderWriter, Synced, TrialRepo, Versioner
 from neps.state.seed_snapshot import SeedSnapshot
 from neps.state.trial import Trial
-from neps.utils.files import deserialize, serialize
+from neps.utils.files import deserialize, serializable_format, serialize
 
 logger = logging.getLogger(__name__)
 K = TypeVar("K")
@@ -622,7 +622,8 @@ def create_or_load_filebased_neps_state(
         reader_writer=ReaderWriterOptimizerInfo(),
     )
     existing_info = shared_optimizer_info.synced()
-    if existing_info != optimizer_info:
+    # NOTE: Compared as they are stored, e.g. a tuple comes back as a list
+    if serializable_format(existing_info) != serializable_format(optimizer_info):
         raise NePSError(
             "The optimizer info on disk does not match the one provided."
             f"\nOn disk: {existing_info}\nProvided: {optimizer_info}"
-- 
2.43.0


From f36b8152db350fcf02d03a289c56c60e63e63f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:06 +0000
Subject: [PATCH 29/44] fix: domain conversions compute in double precision

---
 neps/search_spaces/domain.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index e218adc..fba8211 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -234,6 +234,8 @@ class Domain(Generic[V]):
         if self.is_unit_float and q is None:
             return x.to(dtype)
 
+        # Integers would otherwise be divided in (and floats kept in) single precision
+        x = x.to(torch.float64)
         if self.log_bounds is not None:
             x = torch.log(x)
             lower, upper = self.log_bounds
@@ -262,6 +264,7 @@ class Domain(Generic[V]):
         if self.is_unit_float:
             return x.to(dtype)
 
+        x = x.to(torch.float64)
         q = self.cardinality
         if q is not None:
             quantization_levels = torch.floor(x * q).clip(0, q - 1)
@@ -323,7 +326,8 @@ class Domain(Generic[V]):
         # scale of the one we are coming from. We dont care if where we came from was
         # binned or not, we just take the log of it.
         if (self.lower, self.upper) == frm.log_bounds and self.cardinality is None:
-            return torch.log(x).clip(self.lower, self.upper).type(dtype)
+            x = torch.log(x.to(torch.float64))
+            return x.clip(self.lower, self.upper).type(dtype)
 
         # Otherwise, through the unit interval we go
         lift = self.from_unit(frm.to_unit(x), dtype=dtype)
@@ -405,7 +409,7 @@ class Domain(Generic[V]):
         Returns:
             Value cast to this domain.
         """
-        return self.cast(torch.tensor(x), frm=frm).item()
+        return self.cast(torch.tensor(x, dtype=torch.float64), frm=frm).item()
 
     def to_unit_one(self, x: float | int) -> float:
         """Transform a single value from this domain to the unit interval [0, 1].
@@ -416,7 +420,7 @@ class Domain(Generic[V]):
         Returns:
             Value normalized to the unit interval [0, 1].
         """
-        return self.to_unit(torch.tensor(x)).item()
+        return self.to_unit(torch.tensor(x, dtype=torch.float64)).item()
 
     def as_integer_domain(self) -> Domain:
         """Get the integer version of this domain.
-- 
2.43.0


From 21b93736fdb577232f1502f8ff328376c8d0b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:13 +0000
Subject: [PATCH 30/44] fix: values of a log domain are normalised into the
 unit interval

---
 neps/search_spaces/domain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index fba8211..46de407 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -237,8 +237,9 @@ class Domain(Generic[V]):
         # Integers would otherwise be divided in (and floats kept in) single precision
         x = x.to(torch.float64)
         if self.log_bounds is not None:
-            x = torch.log(x)
             lower, upper = self.log_bounds
+            # Rounding errors may have moved the ends of the domain slightly out of it
+            x = torch.log(x).clip(lower, upper)
         else:
             lower, upper = self.lower, self.upper
 
-- 
2.43.0


From a48f72b3f173f20c981db593016f17c7d50a0fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:25 +0000
Subject: [PATCH 31/44] fix: translating an integer tensor into floating point
 domains keeps the fractions

---
 neps/search_spaces/domain.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neps/search_spaces/domain.py b/neps/search_spaces/domain.py
index 46de407..1cf2b9b 100644
--- a/neps/search_spaces/domain.py
+++ b/neps/search_spaces/domain.py
@@ -394,6 +394,14 @@ class Domain(Generic[V]):
                 f" Expected {ndims} from last dimension of {x.shape=}, got {len(to)}."
             )
 
+        # NOTE: An integer tensor can not hold the values of a floating point domain
+        if (
+            dtype is None
+            and not x.dtype.is_floating_point
+            and any(t.preffered_dtype.is_floating_point for t in to)
+        ):
+            dtype = torch.float64
+
         out = torch.empty_like(x, dtype=dtype)
         for i, (f, t) in enumerate(zip(frm, to, strict=False)):
             out[..., i] = t.cast(x[..., i], frm=f, dtype=dtype)
-- 
2.43.0


From 8128ff734d866f01bebe7d0174cf30c3bf629460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:48 +0000
Subject: [PATCH 32/44] fix: an exception that is also a dataclass or iterable
 is stored as its message

---
 neps/utils/files.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neps/utils/files.py b/neps/utils/files.py
index dd9bc19..020bb67 100644
--- a/neps/utils/files.py
+++ b/neps/utils/files.py
@@ -13,15 +13,16 @@ import yaml
 
 def serializable_format(data: Any) -> Any:  # noqa: PLR0911
     """Format data to be serializable."""
+    # NOTE: First, as an exception may also be, e.g., a dataclass or an iterable
+    if isinstance(data, Exception):
+        return str(data)
+
     if hasattr(data, "serialize"):
         return serializable_format(data.serialize())
 
     if dataclasses.is_dataclass(data) and not isinstance(data, type):
         return serializable_format(dataclasses.asdict(data))  # type: ignore
 
-    if isinstance(data, Exception):
-        return str(data)
-
     if isinstance(data, Enum):
         return data.value
 
-- 
2.43.0


From a130be54db8c123e0f1aa255f3e0c45d5d992a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:48 +0000
Subject: [PATCH 33/44] fix: extended precision numbers and tensor sizes can be
 stored

---
 neps/utils/files.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neps/utils/files.py b/neps/utils/files.py
index 020bb67..8a1a446 100644
--- a/neps/utils/files.py
+++ b/neps/utils/files.py
@@ -8,6 +8,7 @@ from enum import Enum
 from pathlib import Path
 from typing import Any
 
+import numpy as np
 import yaml
 
 
@@ -29,10 +30,11 @@ def serializable_format(data: Any) -> Any:  # noqa: PLR0911
     if isinstance(data, Mapping):
         return {key: serializable_format(val) for key, val in data.items()}
 
-    if type(data).__module__ in ["numpy", "torch"]:
+    if type(data).__module__ in ["numpy", "torch"] and hasattr(data, "tolist"):
         data = data.tolist()  # type: ignore
         if type(data).__module__ == "numpy":
-            data = data.item()
+            # NOTE: Extended precision has no Python type, `.item()` gives it unchanged
+            data = complex(data) if np.iscomplexobj(data) else float(data)
 
         return serializable_format(data)
 
-- 
2.43.0


From da9928766955f847e8f0d4d7fa9ba133fff945c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:48 +0000
Subject: [PATCH 34/44] fix: a stored random state does not keep generators of
 an earlier one

---
 neps/state/filebased.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neps/state/filebased.py b/neps/state/filebased.py
index fe48025..37f2ccc 100644
--- a/neps/state/filebased.py
+++ b/neps/state/filebased.py
@@ -350,11 +350,15 @@ class ReaderWriterSeedSnapshot(ReaderWriter[SeedSnapshot, Path]):
             import torch
 
             torch.save(snapshot.torch_rng, torch_rng_path)
+        else:
+            torch_rng_path.unlink(missing_ok=True)
 
         if snapshot.torch_cuda_rng is not None:
             import torch
 
             torch.save(snapshot.torch_cuda_rng, torch_cuda_rng_path)
+        else:
+            torch_cuda_rng_path.unlink(missing_ok=True)
 
 
 @dataclass
-- 
2.43.0


From 32ac5e4c490a4f44bb179bbb7e1c686c31cbcbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 35/44] fix: a run whose losses are all infinite has a best
 configuration

---
 neps/status/status.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index e4e0175..6dcc982 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -86,7 +86,11 @@ def get_summary_dict(
         if evaluation.result == "error":
             summary["num_error"] += 1
         loss = evaluation.loss
-        if isinstance(loss, float) and loss < summary["best_loss"]:
+        if isinstance(loss, float) and (
+            loss < summary["best_loss"]
+            # an infinite loss is the best one if there is no other
+            or (summary["best_config_id"] is None and loss == summary["best_loss"])
+        ):
             summary["best_loss"] = loss
             summary["best_config"] = evaluation.config
             summary["best_config_id"] = evaluation.id
-- 
2.43.0


From 6277ca9aaaddf1a5b5310547f854014cea02a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:00 +0000
Subject: [PATCH 36/44] fix: the csv summary of a run without any reported loss
 can be written

---
 neps/status/status.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/neps/status/status.py b/neps/status/status.py
index 6dcc982..f03aa1f 100644
--- a/neps/status/status.py
+++ b/neps/status/status.py
@@ -305,6 +305,13 @@ def _save_data_to_csv(
     """
     with locker(poll=2):
         try:
+            # There is no loss to sort by as long as no evaluation has reported one
+            if "result.loss" in config_data_df.columns:
+                config_data_df = config_data_df.sort_values(
+                    by="result.loss",
+                    ascending=True,
+                )
+
             pending_configs = run_data_df.loc["num_pending_configs", "value"]
             pending_configs_with_worker = run_data_df.loc[
                 "num_pending_configs_with_worker",
@@ -312,10 +319,6 @@ def _save_data_to_csv(
             ]
             # Represents the last worker
             if int(pending_configs) == 0 and int(pending_configs_with_worker) == 0:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
                 config_data_df.to_csv(config_data_file_path, index=False, mode="w")
                 run_data_df.to_csv(run_data_file_path, index=True, mode="w")
 
@@ -333,18 +336,10 @@ def _save_data_to_csv(
                 ]
                 # check if the current worker has more evaluated configs than the previous
                 if int(num_evaluated_configs_csv) < num_evaluated_configs_run.iloc[0]:
-                    config_data_df = config_data_df.sort_values(
-                        by="result.loss",
-                        ascending=True,
-                    )
                     config_data_df.to_csv(config_data_file_path, index=False, mode="w")
                     run_data_df.to_csv(run_data_file_path, index=True, mode="w")
             # Represents the first worker to be evaluated
             else:
-                config_data_df = config_data_df.sort_values(
-                    by="result.loss",
-                    ascending=True,
-                )
                 config_data_df.to_csv(config_data_file_path, index=False, mode="w")
                 run_data_df.to_csv(run_data_file_path, index=True, mode="w")
         except Exception as e:
-- 
2.43.0


From d2c6043ce264d0109a1c462cdc6cc0f9cfda9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:32 +0000
Subject: [PATCH 37/44] fix: asynchronous successive halving can be used with
 an early stopping rate

---
 neps/optimizers/multi_fidelity/promotion_policy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neps/optimizers/multi_fidelity/promotion_policy.py b/neps/optimizers/multi_fidelity/promotion_policy.py
index b94cbf0..8efa300 100644
--- a/neps/optimizers/multi_fidelity/promotion_policy.py
+++ b/neps/optimizers/multi_fidelity/promotion_policy.py
@@ -102,6 +102,9 @@ class AsyncPromotionPolicy(PromotionPolicy):
             if rung == self.max_rung:
                 # cease promotions for the highest rung (configs at max budget)
                 continue
+            if rung not in self.rung_members:
+                # with early stopping, there are no rungs below the lowest one
+                continue
             # if less than eta configurations seen, no promotions occur as top_k=0
             top_k = len(self.rung_members_performance[rung]) // self.eta
             _ordered_idx = np.argsort(self.rung_members_performance[rung])
-- 
2.43.0


From a1ead9b79337a70d1aa4a7022cfc724bf5fb2fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:51 +0000
Subject: [PATCH 38/44] fix: successive halving can wait for a first bracket of
 unfinished evaluations

---
 neps/optimizers/multi_fidelity/successive_halving.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neps/optimizers/multi_fidelity/successive_halving.py b/neps/optimizers/multi_fidelity/successive_halving.py
index cff252f..cae8af3 100644
--- a/neps/optimizers/multi_fidelity/successive_halving.py
+++ b/neps/optimizers/multi_fidelity/successive_halving.py
@@ -260,9 +260,12 @@ class SuccessiveHalvingBase(BaseOptimizer):
                     columns=self.observed_configs.columns,
                     index=pd.Series(int(_config)),  # key for config_id
                 )
-                self.observed_configs = pd.concat(
-                    (self.observed_configs, _df)
-                ).sort_index()
+                # NOTE: The columns of an empty dataframe are not numeric
+                self.observed_configs = (
+                    _df
+                    if self.observed_configs.empty
+                    else pd.concat((self.observed_configs, _df)).sort_index()
+                )
             else:
                 self.observed_configs.at[int(_config), "rung"] = int(_rung)
                 self.observed_configs.at[int(_config), "perf"] = np.nan
-- 
2.43.0


From 08013f0a14a67fbb2927daab92f8259c07bfd93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 39/44] fix: an integer's default on a log scale follows its
 default

---
 neps/search_spaces/hyperparameters/integer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neps/search_spaces/hyperparameters/integer.py b/neps/search_spaces/hyperparameters/integer.py
index e072430..17df8f2 100644
--- a/neps/search_spaces/hyperparameters/integer.py
+++ b/neps/search_spaces/hyperparameters/integer.py
@@ -120,11 +120,13 @@ class IntegerParameter(NumericalParameter[int]):
             self.default = None
             self.has_prior = False
             self.float_hp.set_default(None)
+            self.log_default = None
         else:
             _default = int(round(default))
             # NOTE: Raises if `_default` is out of bounds, before anything is changed
             self.float_hp.set_default(_default)
             self.default = _default
+            self.log_default = float(np.log(_default)) if self.log else None
             self.has_prior = True
 
     @override
-- 
2.43.0


From 19959c9c8cbf700fc80b2d3a49a7943d7deecb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:31 +0000
Subject: [PATCH 40/44] fix: a description whose type is no string is refused
 with the documented error

---
 neps/search_spaces/yaml_search_space_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neps/search_spaces/yaml_search_space_utils.py b/neps/search_spaces/yaml_search_space_utils.py
index ff6d72a..30ff7e2 100644
--- a/neps/search_spaces/yaml_search_space_utils.py
+++ b/neps/search_spaces/yaml_search_space_utils.py
@@ -117,7 +117,10 @@ def deduce_type(
     if isinstance(details, dict):
         if "type" in details:
             param_type = details.pop("type")
-            assert isinstance(param_type, str)
+            if not isinstance(param_type, str):
+                raise TypeError(
+                    f"The 'type' of '{name}' must be a string. Got {param_type!r}."
+                )
             return param_type.lower()
 
         return deduce_param_type(name, details)
-- 
2.43.0


From ffa10957cf75d532f74caced47939850c85328b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:31 +0000
Subject: [PATCH 41/44] fix: infinite and huge numbers in descriptions are
 refused with the documented error

---
 neps/search_spaces/search_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index 62b0001..d33f0a6 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -162,7 +162,7 @@ def pipeline_space_from_yaml(  # noqa: C901
                     "For categorical parameter: cat, categorical\n"
                     "Constant parameter was not detect\n"
                 )
-    except (KeyError, TypeError, ValueError, FileNotFoundError) as e:
+    except (KeyError, TypeError, ValueError, OverflowError, FileNotFoundError) as e:
         raise SearchSpaceFromYamlFileError(e) from e
 
     return pipeline_space
-- 
2.43.0


From 9e6ff02c2acbd938b0b03e0d43ce7148972be79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:31 +0000
Subject: [PATCH 42/44] fix: a pipeline_space that is no dictionary is refused
 with the documented error

---
 neps/search_spaces/search_space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neps/search_spaces/search_space.py b/neps/search_spaces/search_space.py
index d33f0a6..67f9c64 100644
--- a/neps/search_spaces/search_space.py
+++ b/neps/search_spaces/search_space.py
@@ -137,6 +137,8 @@ def pipeline_space_from_yaml(  # noqa: C901
 
         if len(config) == 1 and "pipeline_space" in config:
             config = config["pipeline_space"]
+            if not isinstance(config, dict):
+                raise TypeError(f"The 'pipeline_space' must be a dictionary. Got {config!r}.")
         for name, details in config.items():  # type: ignore
             param_type = deduce_type(name, details)
 
-- 
2.43.0


From 22fc378632e10dae62ab543c5515e344972c817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:31 +0000
Subject: [PATCH 43/44] fix: recognise exponent notation with signs and bare
 decimal points

---
 neps/search_spaces/yaml_search_space_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neps/search_spaces/yaml_search_space_utils.py b/neps/search_spaces/yaml_search_space_utils.py
index 30ff7e2..aee2b2b 100644
--- a/neps/search_spaces/yaml_search_space_utils.py
+++ b/neps/search_spaces/yaml_search_space_utils.py
@@ -46,7 +46,7 @@ def convert_scientific_notation(
         ValueError: If the value is a string and does not represent a valid number.
     """
 
-    e_notation_pattern = r"^-?\d+(\.\d+)?[eE]-?\d+$"
+    e_notation_pattern = r"^[+-]?(\d+(\.\d*)?|\.\d+)[eE][+-]?\d+$"
 
     flag = False  # Flag if e notation was detected
 
-- 
2.43.0


From 78f9144dad034428baafc777f7c9e3d88093dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:31 +0000
Subject: [PATCH 44/44] fix: refuse bounds that are infinite or not a number

---
 neps/search_spaces/hyperparameters/numerical.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neps/search_spaces/hyperparameters/numerical.py b/neps/search_spaces/hyperparameters/numerical.py
index 62d5cd6..5e7e1a7 100644
--- a/neps/search_spaces/hyperparameters/numerical.py
+++ b/neps/search_spaces/hyperparameters/numerical.py
@@ -96,6 +96,12 @@ class NumericalParameter(ParameterWithPrior[T, T], MutatableParameter):
         """
         super().__init__(value=None, default=default, is_fidelity=is_fidelity)  # type: ignore
         _cls_name = self.__class__.__name__
+        if not (np.isfinite(lower) and np.isfinite(upper)):
+            raise ValueError(
+                f"{_cls_name} parameter: bounds error (bounds must be finite). Actual"
+                f" values: lower={lower}, upper={upper}"
+            )
+
         if lower >= upper:
             raise ValueError(
                 f"{_cls_name} parameter: bounds error (lower >= upper). Actual values: "
-- 
2.43.0

