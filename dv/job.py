"""one verification job: python3-vt job.py SPEC PROPERTY BUDGET OUT -> JSON"""
import sys, os, json, time, traceback
import ir, sym
from sym import *
import specs
def main():
    expr, prop, budget, outp = sys.argv[1], sys.argv[2], float(sys.argv[3]), sys.argv[4]
    src = specs.source_of(expr)
    res = dict(spec=expr, status='ok', obl=[], msg='')
    t = time.time()
    try:
        m = ir.Module(ir.compile_ir(src, specs.INCS, [], os.environ['VERIF_WORK'], keep=True))
        sp = specs.make(expr)
        eng = Engine(m, sp, budget)
        eng.only = None if prop == 'ALL' else prop
        st = sp.setup(eng)
        res['setup_feasible'] = bool(eng.feasible(st))
        out = eng.explore(st)
        for s, rv in out['ret']: sp.at_end(eng, s, rv)
        res['paths'] = len(out['ret'])
        sp.finish(eng)
    except Unsupported as e: res['status'] = 'unsupported'; res['msg'] = str(e)
    except Budget as e: res['status'] = 'budget'; res['msg'] = 'time budget of %gs exceeded' % budget
    except Exception as e: res['status'] = 'unsupported'; res['msg'] = 'engine: ' + traceback.format_exc()[-1500:]
    try:
        res['fns'] = sorted(eng.fnseen); res['queries'] = eng.nq; res['solver_s'] = round(eng.tq, 2); res['skipped'] = eng.nskip
        res['assumed'] = sorted(eng.contracts_used); res['invs'] = len(eng.invs); res['approx'] = sorted(eng.approx)
        for o in eng.sinks[0]:
            d = dict(tags=o.tags, name=o.name, fn=o.fn, line=o.line, ok=bool(o.ok), backend=o.backend, approx=getattr(o, 'approx', False))
            if not o.ok:
                d['why'] = o.why; d['trace'] = [str(x) for x in (o.trace or ())][-30:]; d['goal'] = str(o.goal)[:2000]
                if o.model is not None:
                    d['model'] = {str(k): str(o.model[k]) for k in o.model.decls() if k.arity() == 0}
            res['obl'].append(d)
    except NameError: pass
    res['wall'] = round(time.time() - t, 2)
    json.dump(res, open(outp, 'w'))
main()
