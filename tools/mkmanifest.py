import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/dv')
import plan
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = {'P27': 'liveness (a blocked reader or writer eventually proceeds) depends on the schedulers of two processes and on the kernel delivering datagrams; a function contract states what holds when a call returns, not that it returns. The safety halves are P08, P09, P16, P17.'}
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    jobs = plan.PLAN.get(i)
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
        technique='contract-based deductive verification of the compiled functions (symbolic VC generation over LLVM IR, loop invariants, z3)' + ('; native replay of counterexamples' if plan.NAT.get(i) else '') if jobs else 'bounded native check of the functions (stand-in, not proved)',
        level=plan.LEVEL.get(i, 'proof' if jobs else 'exploration'), level_note=plan.NOTE.get(i, plan.NOTE0 if jobs else plan.NOTE1)))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()]), open(H + '/MANIFEST.json', 'w'), indent=1)
