import sys
from run1 import *
import os, cProfile, pstats
os.makedirs(spec_shr.WORK, exist_ok=True)
import specs
w=sys.argv[1]
if ':' not in w: w='shr:'+w
m = ir.Module(ir.compile_ir(specs.source_of(w), specs.INCS, [], spec_shr.WORK))
sp = specs.make(w); pat=sys.argv[2]
eng,out=run(sp, m, debug=False)
for o in eng.sinks[0]:
    if not o.ok and pat in o.name:
        print('FAILED', o.name, o.fn, o.line, o.why); print('goal', simp(o.goal))
        print('trace', o.trace)
        for f in o.pc[-int(sys.argv[3]) if len(sys.argv)>3 else -30:]: print('   ', str(f)[:400].replace('\n',' '))
        if o.model is not None:
            print({str(d):o.model[d] for d in o.model.decls() if d.arity()==0 and '!' not in str(d)} )
            print({str(d):o.model[d] for d in o.model.decls() if d.arity()==0 and '!'  in str(d)} )
        break
for k,n,a in eng.invs: print(k,a)
