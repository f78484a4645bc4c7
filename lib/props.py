"""What each property's check runs.  gen: TLC runs on the design (bfs =
exhaustive within the .cfg's constants, sim = random behaviours); each emits
scenarios.  driver: drivers/<driver>.py replays them; trace: the TLA+ module
that decides the recorded traces."""
PROPS = {
    'C01': dict(
        driver='d_linops', trace='LinOpsTrace', timeout=120,
        gen=[dict(module='LinOps', cfg='LinOpsMC.cfg',
                  quick=dict(limit=600),
                  thorough=dict(cfg='LinOpsMCbig.cfg', limit=12000, workers=8)),
             dict(module='LinOps', cfg='LinOpsSim.cfg', mode='sim',
                  quick=dict(num=1600, depth=9, limit=700),
                  thorough=dict(num=16000, depth=9, limit=6000))]),
    'C18': dict(
        driver='d_helpers', trace='HelpersTrace', timeout=60,
        gen=[dict(module='Helpers', cfg='HelpersMC.cfg',
                  quick=dict(limit=2500), thorough=dict(limit=30000)),
             dict(module='Helpers', cfg='HelpersSim.cfg', mode='sim',
                  quick=dict(num=1500, depth=12, limit=1500),
                  thorough=dict(num=20000, depth=12))]),
    'C04': dict(
        driver='d_covar', trace='CovarTrace', timeout=60,
        gen=[dict(module='Covar', cfg='CovarMC.cfg',
                  quick=dict(limit=120), thorough=dict(limit=1500)),
             dict(module='Covar', cfg='CovarSim.cfg', mode='sim',
                  quick=dict(num=110, depth=30), thorough=dict(num=2000, depth=30))]),
    'C05': dict(
        driver='d_lik', trace='CovarTrace', timeout=60,
        gen=[dict(module='Covar', cfg='CovarMC.cfg',
                  quick=dict(limit=100), thorough=dict(limit=1500)),
             dict(module='Covar', cfg='CovarSim.cfg', mode='sim',
                  quick=dict(num=130, depth=30), thorough=dict(num=2000, depth=30)),
             dict(module='Covar', cfg='CovarBig.cfg', mode='sim',
                  quick=dict(num=3, depth=30), thorough=dict(num=30, depth=30))]),
    'C06': dict(
        driver='d_grad', trace='GradTrace', timeout=60,
        gen=[dict(module='Grad', cfg='GradMC.cfg',
                  quick=dict(limit=60), thorough=dict(limit=600)),
             dict(module='Grad', cfg='GradSim.cfg', mode='sim',
                  quick=dict(num=140, depth=30), thorough=dict(num=2000, depth=30))]),
    'C07': dict(
        driver='d_predict', trace='PredictTrace', timeout=90,
        gen=[dict(module='Predict', cfg='PredictMC.cfg',
                  quick=dict(limit=110), thorough=dict(limit=1500)),
             dict(module='Predict', cfg='PredictSim.cfg', mode='sim',
                  quick=dict(num=150, depth=40), thorough=dict(num=2000, depth=40))]),
    'C09': dict(
        driver='d_norm', trace='NormTrace', timeout=90,
        gen=[dict(module='Predict', cfg='NormMC.cfg',
                  quick=dict(limit=40), thorough=dict(limit=400)),
             dict(module='Predict', cfg='NormSim.cfg', mode='sim',
                  quick=dict(num=110, depth=40), thorough=dict(num=2000, depth=40))]),
    'C02': dict(
        driver='d_interp', trace='InterpTrace', timeout=60,
        gen=[dict(module='Interp', cfg='InterpMC.cfg',
                  quick=dict(limit=700), thorough=dict(limit=10000)),
             dict(module='Interp', cfg='InterpSim.cfg', mode='sim',
                  quick=dict(num=800, depth=30, limit=700), thorough=dict(num=12000, depth=30))]),
    'C03': dict(
        driver='d_grid', trace='GridTrace', timeout=60,
        gen=[dict(module='Grid', cfg='GridMC.cfg',
                  quick=dict(limit=600), thorough=dict(limit=6000)),
             dict(module='Grid', cfg='GridSim.cfg', mode='sim',
                  quick=dict(num=300, depth=30), thorough=dict(num=5000, depth=30))]),
    'C08': dict(
        driver='d_life', trace='LifecycleTrace', timeout=120,
        gen=[dict(module='Lifecycle', cfg='LifecycleMC.cfg',
                  quick=dict(limit=60), thorough=dict(limit=2500)),
             dict(module='Lifecycle', cfg='LifecycleSim.cfg', mode='sim',
                  quick=dict(num=60, depth=60, limit=110), thorough=dict(num=1500, depth=60))]),
    'C24': dict(
        driver='d_life', trace='LifecycleTrace', timeout=120,
        gen=[dict(module='Lifecycle', cfg='CopyMC.cfg',
                  quick=dict(limit=60), thorough=dict(limit=2500)),
             dict(module='Lifecycle', cfg='CopySim.cfg', mode='sim',
                  quick=dict(num=60, depth=60, limit=110), thorough=dict(num=1500, depth=60))]),
    'C12': dict(
        driver='d_optim', trace='OptimTrace', timeout=60,
        gen=[dict(module='Optim', cfg='OptimMC.cfg',
                  quick=dict(limit=1200), thorough=dict(limit=12000)),
             dict(module='Optim', cfg='OptimSim.cfg', mode='sim',
                  quick=dict(num=400, depth=320), thorough=dict(num=6000, depth=320))]),
    'C16': dict(
        driver='d_kern', trace='KernTrace', timeout=60,
        gen=[dict(module='Kern', cfg='KernMC.cfg',
                  quick=dict(limit=700), thorough=dict(limit=10000)),
             dict(module='Kern', cfg='KernSim.cfg', mode='sim',
                  quick=dict(num=400, depth=20), thorough=dict(num=6000, depth=20))]),
    'C21': dict(
        driver='d_spectral', trace='SpectralTrace', timeout=60,
        gen=[dict(module='Spectral', cfg='SpectralMC.cfg',
                  quick=dict(limit=900), thorough=dict(limit=12000)),
             dict(module='Spectral', cfg='SpectralSim.cfg', mode='sim',
                  quick=dict(num=1200, depth=10, limit=700), thorough=dict(num=16000, depth=10, limit=8000))]),
    'C22': dict(
        driver='d_mean', trace='MeanTrace', timeout=60,
        gen=[dict(module='Mean', cfg='MeanMC.cfg',
                  quick=dict(limit=1500), thorough=dict(limit=12000)),
             dict(module='Mean', cfg='MeanSim.cfg', mode='sim',
                  quick=dict(num=900, depth=20), thorough=dict(num=12000, depth=20))]),
    'C23': dict(
        driver='d_docs', trace='DocsTrace', timeout=60,
        gen=[dict(module='Docs', cfg='DocsMC.cfg',
                  quick=dict(limit=3000), thorough=dict(limit=40000)),
             dict(module='Docs', cfg='DocsSim.cfg', mode='sim',
                  quick=dict(num=1500, depth=12), thorough=dict(num=20000, depth=12))]),
    'C13': dict(
        driver='d_solve', trace='SolveTrace', timeout=60,
        gen=[dict(module='Solve', cfg='SolveMC.cfg',
                  quick=dict(limit=700), thorough=dict(limit=6000)),
             dict(module='Solve', cfg='SolveSim.cfg', mode='sim',
                  quick=dict(num=1400, depth=4), thorough=dict(num=16000, depth=4))]),
    'C11': dict(
        driver='d_priors', trace='PriorsTrace', timeout=60,
        gen=[dict(module='Priors', cfg='PriorsMC.cfg',
                  quick=dict(limit=900), thorough=dict(limit=9000)),
             dict(module='Priors', cfg='PriorsSim.cfg', mode='sim',
                  quick=dict(num=300, depth=20), thorough=dict(num=5000, depth=20))]),
    'C17': dict(
        driver='d_fkern', trace='FKernTrace', timeout=60,
        gen=[dict(module='FKern', cfg='FKernMC.cfg',
                  quick=dict(limit=300), thorough=dict(limit=5000)),
             dict(module='FKern', cfg='FKernSim.cfg', mode='sim',
                  quick=dict(num=500, depth=40, limit=400), thorough=dict(num=8000, depth=40))]),
    'C20': dict(
        driver='d_gpy', trace='GpyTrace', timeout=60,
        gen=[dict(module='Gpy', cfg='GpyMC.cfg',
                  quick=dict(limit=60), thorough=dict(limit=800)),
             dict(module='Gpy', cfg='GpySim.cfg', mode='sim',
                  quick=dict(num=130, depth=40), thorough=dict(num=2500, depth=40))]),
    'C15': dict(
        driver='d_metrics', trace='MetricsTrace', timeout=60,
        gen=[dict(module='Metrics', cfg='MetricsMC.cfg',
                  quick=dict(limit=60), thorough=dict(limit=1000)),
             dict(module='Metrics', cfg='MetricsSim.cfg', mode='sim',
                  quick=dict(num=90, depth=40), thorough=dict(num=1500, depth=40))]),
    'C10': dict(
        driver='d_valid', trace='ValidTrace', timeout=60,
        gen=[dict(module='Valid', cfg='ValidMC.cfg', strata=('kind',),
                  quick=dict(limit=900), thorough=dict(limit=20000)),
             dict(module='Valid', cfg='ValidMCdeep.cfg',
                  quick=dict(), thorough=dict()),
             dict(module='Valid', cfg='ValidSim.cfg', mode='sim',
                  quick=dict(num=700, depth=9, limit=500), thorough=dict(num=12000, depth=9))]),
    'C19': dict(
        driver='d_own', trace='OwnTrace', timeout=60,
        gen=[dict(module='Own', cfg='OwnMC.cfg',
                  quick=dict(limit=400), thorough=dict()),
             dict(module='Own', cfg='OwnMChist.cfg',
                  quick=dict(limit=250), thorough=dict(limit=5000)),
             dict(module='Own', cfg='OwnSim.cfg', mode='sim',
                  quick=dict(num=350, depth=12), thorough=dict(num=6000, depth=12))]),
    'C14': dict(
        driver='d_par', trace='ParTrace', timeout=120, split=4,
        gen=[dict(module='Par', cfg='ParMC.cfg',
                  quick=dict(limit=250), thorough=dict()),
             dict(module='Par', cfg='ParSim.cfg', mode='sim',
                  quick=dict(num=120, depth=300), thorough=dict(num=800, depth=300)),
             dict(module='Par', cfg='ParModelSim.cfg', mode='sim',
                  quick=dict(num=90, depth=10), thorough=dict(num=300, depth=10))]),
}
