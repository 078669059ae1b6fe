"""offsets of the control structure, from the debug information of the compiled source (for the native falsifier)"""
import sys, os, ir, specs
def layout(work):
    m = ir.Module(ir.compile_ir(specs.SRC['shr'], specs.INCS, [], work, keep=True))
    M = m.members['shr_ctrl']
    fl = m.members.get('shr', {}).get('flags', (0, 4))
    return ','.join([str(M[x][0]) for x in 'n i u r mm mv_len pad_len app_len gflags w2r r2w d m q'.split()] + [str(fl[0])])
if __name__ == '__main__': print(layout(os.environ['VERIF_WORK']))
