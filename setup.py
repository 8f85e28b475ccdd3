"""Nothing is built ahead of time: every check recompiles what it needs from /repo.  This only checks that the tools are there."""
import shutil, sys, os
need = ['clang', 'gcc', 'z3', 'z3-new', 'cvc5', 'bison', 'flex', 'gawk', 'tclsh', 'objcopy']
miss = [t for t in need if not shutil.which(t)]
if not os.path.exists('/opt/veriftools/pyvenv/bin/python3'): miss.append('python3-vt')
if miss: print('missing tools:', miss); sys.exit(1)
print('tools present')
