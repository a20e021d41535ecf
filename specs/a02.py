"""No operation with an undefined result on valid arguments: the conditions the compiler inserts for shifts, signed
overflow, integer division, float to integer conversion, array bounds, and the contract of the containers, never hold."""
from engine import safety
from engine.probe import Prop
EXPLAIN = ('The sources are compiled with the undefined-behaviour conditions of the compiler inserted as traps and with containers that trap outside of their contract; every trap in '
           'the IR reached from the entry points of all other specifications is one obligation: its path condition is unsatisfiable under the preconditions of the entry point. Nothing is executed.')
BASE = 'bounds,shift-exponent,bool,enum,return,unreachable,integer-divide-by-zero'
FULL = BASE + ',signed-integer-overflow,float-cast-overflow'
WHAT = {'V01': BASE, 'V02': 'bounds,shift-exponent,bool,return,unreachable', 'V03': 'bounds,bool,return,unreachable,shift-exponent'}   # operands of the caller
def build():
    p = Prop('A02', [], 'Operations with undefined results')
    def run(scratch, tier):
        jobs = []
        for i in safety.ALL:
            for cfg in (('sse2', 'avx2', 'scalar') if tier == 'quick' else ('sse2', 'sse41', 'avx2', 'neon', 'scalar', 'sse2-O1')):
                if (cfg == 'scalar' or cfg != 'sse2' and tier == 'quick') and i in ('B01', 'B02', 'B03'): continue
                c = lambda w: ['-DMODEL_CHECKED', '-fsanitize=' + w, '-fsanitize-trap=all']
                if i == 'K03':        # the range of the logarithm in the mip count is K03's own subject
                    jobs += [(i, cfg, c(BASE + ',signed-integer-overflow'), lambda o: o.name.startswith('count'), {}), (i, cfg, c(FULL), lambda o: not o.name.startswith('count'), {})]
                else: jobs.append((i, cfg, c(WHAT.get(i, FULL)), None, {}))
        return safety.sweep(scratch, safety.traps, jobs)
    p.extra = [run]
    return p
