"""C06 sampling stores exactly one new, uniquely named pending trial."""
# instrument: neps.state.neps_state neps.state.trial neps.state.optimizer
from pyvc.contract import contract
from contracts.sampling import sample_trial_contract


@contract("C06 C19", "neps.state.neps_state.NePSState.sample_trial", "neps.state.trial.Trial.new",
          "neps.state.optimizer.BudgetInfo.clone")
def sample_trial(vc):
    sample_trial_contract(vc)
