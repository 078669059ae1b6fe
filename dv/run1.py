import sys, time
import ir, sym, spec_shr
from sym import *
def run(sp, mod, budget=600, debug=True):
    eng = Engine(mod, sp, budget); eng.debug = debug
    import os; eng.only = os.environ.get('ONLY')
    t=time.time()
    st = sp.setup(eng)
    print('setup feasible', eng.feasible(st))
    out = eng.explore(st)
    for s, rv in out['ret']:
        pend=[s]
        sp.at_end(eng, s, rv)
    obs = eng.sinks[0]
    bad=[o for o in obs if not o.ok]
    print(sp.fn, 'paths', len(out['ret']), 'obl', len(obs), 'failed', len(bad), 'queries', eng.nq, 'solver %.1f'%eng.tq, 'total %.1f'%(time.time()-t))
    seen=set()
    for o in bad:
        k=(o.name,o.line,o.fn)
        if k in seen: continue
        seen.add(k); print('  FAIL', o.tags, o.name, o.fn, o.line, o.why)
    return eng, out
if __name__=='__main__':
    import os
    os.makedirs(spec_shr.WORK, exist_ok=True)
    import specs
    w=sys.argv[1]
    if ':' not in w: w='shr:'+w
    m = ir.Module(ir.compile_ir(specs.source_of(w), specs.INCS, [], spec_shr.WORK))
    sp = specs.make(w)
    run(sp, m)
