"""offline self-check of the toolchain the checks need"""
import shutil, subprocess, sys
for t in ('clang', 'opt', 'gcc', 'objcopy', 'python3-vt'):
    if not shutil.which(t): print('missing', t); sys.exit(1)
sys.exit(subprocess.call(['python3-vt', '-c', 'import z3']))
