"""registry of contracts: which source file and which specification"""
import os
import spec_shr
REPO = spec_shr.REPO
INCS = [REPO + '/src', REPO + '/lib']
SRC = {'shr': REPO + '/src/shr.c', 'bw': REPO + '/lib/bw.c', 'ux': REPO + '/lib/ux.c', 'tool': REPO + '/util/shr-tool.c'}
import spec_shr, spec_api, spec_bw, spec_open, spec_ux, spec_tool, spec_cli
SRC['cli'] = SRC['tool']
SRC['api'] = SRC['op'] = SRC['shr']
MODS = {'shr': spec_shr, 'api': spec_api, 'bw': spec_bw, 'op': spec_open, 'ux': spec_ux, 'tool': spec_tool, 'cli': spec_cli}
def source_of(expr): return SRC[expr.split(':')[0]]
def make(expr):
    m, e = expr.split(':', 1)
    return eval('m.' + e, {'m': MODS[m]})
