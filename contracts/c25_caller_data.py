"""C25: the caller's data are left alone. Every contract of the other properties is run again with all data the caller hands
over under a frame condition (no write, relabelling, insertion or removal); only the frame condition is stated here."""
from vf.contract import unit, UNITS
import importlib

# stated about values only, or about library facts: they call nothing the others do not call
SKIP = {"C10.slack_limit_CVaR", "C10.slack_limit_CDaR", "C20.single_factor", "C20.constant_correlation", "C20.constant_variance",
        "C21.spectral_result", "C06.auxiliary_variables_are_exact", "C15.idzorek_monotone"}


def _frame(u):
    def f(V):
        V.own_all = V.muted = True
        u.fn(V)
        V.muted = False
        bad = V.mutated()
        V.ensure("the data of the caller are unchanged", len(bad) == 0)
    f.__name__ = u.prop + "_" + u.name
    f.__module__ = __name__
    unit("C25", funcs=u.funcs, **{k: v for k, v in u.opts.items() if k != "props"})(f)


for _m in ("c02_meanvar c03_sharpe c04_cvar c05_cdar c06_semivariance c08_userparts c09_objectives c10_performance c11_weights "
           "c12_greedy c13_lp c14_posterior c15_inputs c19_risk c20_shrinkage c21_psd c22_corr c23_returns c24_conversion "
           "c27_plotting").split():
    importlib.import_module("contracts." + _m)
for _u in list(UNITS.values()):
    if _u.prop != "C25" and _u.key not in SKIP:
        _frame(_u)
