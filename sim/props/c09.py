"""C09  Claesson-Javed load aggregation follows its scheme and loses no energy."""
from .. import agg

ID = 'C09'
RUNS = {'quick': 4000, 'thorough': 80000}
RULE = ('a run is one load history of 2-120 steps (5%: up to 700, thorough: '
        '2000 to 14000) of one scheme with revised, repeated, missing and '
        'fed-back loads, repeated and skipped evaluations, crashes and '
        'restarts from checkpoints, forks; non-trivial: at least one answer '
        'compared with the reference model; distinct by event digest')
REAL = ['pygfunction.load_aggregation', 'pygfunction.utilities', 'numpy']
STUBS = ['the controller (loads, order of calls)',
         'process start (private re-execution of the package per world)',
         'response factors (analytical)']
STATE_MEASURE = ('pairs of successive (number of cells, several sources, '
                 'widths of the coarsest cells)')
ASSUMPTIONS = ['at least one cell per level and waiting periods of at least '
               'one cell', 'time steps within the simulation period']
LISTS = ('steps',)
simplify = agg.simplify


def generate(rng, tier):
    return agg.gen_history(rng, tier, 'ClaessonJaved')


execute = agg.execute
