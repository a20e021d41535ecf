"""Every memory access of every entry point specified for the other properties stays inside the object it is made on
and assumes no more alignment than the type of that object has."""
import re
from engine import safety
from engine.probe import Prop
EXPLAIN = ('Every load, store and block copy met while interpreting the entry points of all other specifications (optimised and unoptimised IR) is one obligation: its byte range '
           'lies inside the object it addresses, and the alignment the instruction assumes is one the type of the object guarantees at that offset. An access that fails either is reported if its path condition is satisfiable.')
def aligned(o, ob):          # documented preconditions: aligned loads and stores, arrays that stand for arrays of boxes
    return 'ligned' in (o.what or '') + (o.body or '') + o.expr or 'Aabb*)' in (o.body or '') or '(f32x4*)' in (o.body or '') or 'f32x4*)' in (o.body or '')
def build():
    p = Prop('A01', [], 'Memory accesses')
    def run(scratch, tier):
        c = ['-DMODEL_CHECKED']; opt = {'aligned': aligned}
        jobs = [(i, cfg, c, None, opt) for i in safety.ALL for cfg in (('sse2', 'avx2', 'scalar') if tier == 'quick' else ('sse2', 'sse41', 'avx2', 'scalar', 'avx2-O1')) if cfg == 'sse2' or tier != 'quick' and cfg != 'scalar' or i not in ('B01', 'B02', 'B03')]
        # unoptimised: every access as it is written
        jobs += [(i, 'sse2', c + ['-O0'], lambda o: not re.match('const_|sizeany', o.name), opt) for i in safety.ALL if i not in ('B01', 'B02', 'B03', 'G02')]
        return safety.sweep(scratch, safety.accesses, jobs)
    p.extra = [run]
    return p
