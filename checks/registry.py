"""The obligations of every property."""
from . import plan_hist, plan_inputs, plan_round, plan_rel, plan_signals, plan_sim, plan_values

PLANS = {}
PLANS.update(plan_values.PLANS)
PLANS.update(plan_signals.PLANS)
PLANS.update(plan_sim.PLANS)
PLANS.update(plan_inputs.PLANS)
PLANS.update(plan_rel.PLANS)
PLANS.update(plan_hist.PLANS)
PLANS.update(plan_round.PLANS)

EXPL = ('Symbolic execution of the current /repo source (pandas/numpy operations replaced by symbolic ones over exact real '
        'arithmetic): inputs are symbolic variables, every branch on them forks with z3 deciding which sides are feasible, '
        'and on every path each claim is closed by the polynomial normal form or by an unsat answer of z3 to path condition '
        'and not claim. Counterexamples are replayed on the unpatched code before they are reported.')
ASSUME = ['real arithmetic instead of IEEE doubles; rounding to 4 or more decimals is read as exact',
          'the symbolic pandas/numpy/statsmodels operations agree with the real ones (validated by tools/validate.py and by '
          'the path witnesses replayed on the real code in this run)']
NA = {}
