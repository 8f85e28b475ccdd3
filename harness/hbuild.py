"""Compiles the program under test (sources of /repo's working tree) into a scratch directory and links
replay harnesses against it.  The unit a harness needs to look inside of is #included by the harness itself."""
import os, sys, subprocess, shutil, tempfile, glob, re
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('VCV_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
UNITS = '''new_bdd error arb_prec file_ops initialize symbol_tbl language.tab lex.yy graph fl typecheck emit lp cache compile expand_cursor io remote_tcl bexpr
 draw_graph debug symbol voss_strings int_ops list_ops system float bv bev fsm sha256 table image plugin plugin_loader plugin_checker plugin_errlog iso pexlif doc serialize'''.split()
LIBS = 'alloc buf generation_hash hash morestr readrc rec strmgr timer uniq_buf'.split()
FLAGS = ['-g', '-DDEBUG', '-O1', '-std=gnu99', '-D__STDC_LIMIT_MACROS', '-D__STDC_FORMAT_MACROS', '-DVERSION_DATE="00/01/01"', '-DDEFAULT_PLUGIN_DIR="/nonexistent"', '-DFL_BINARY=1',
         '-DROOT_DIR="%s"' % REPO, '-w', '-I/usr/include/tcl8.6/tk-generic/generic', '-I/usr/include/tcl8.6']
class BuildError(Exception): pass
def run(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), (p.stdout + p.stderr)[-3000:]))
    return p.stdout
class Build:
    def __init__(self, work, units=None, libs=None, cflags=()):
        self.w = work; self.fl = work + '/fl'; self.cflags = list(cflags)
        os.makedirs(self.fl, exist_ok=True)
        src = REPO + '/src'
        for f in os.listdir(src + '/bin/fl'):
            p = src + '/bin/fl/' + f
            if os.path.isfile(p) and (f.endswith(('.c', '.h', '.y', '.tcl', '.cc')) or f == 'lexer') and f not in ('language.tab.c', 'language.tab.h', 'lex.yy.c', 'prefs.h', 'abi_version.h'):
                shutil.copy(p, self.fl)
        shutil.copytree(src + '/include', work + '/include', dirs_exist_ok=True)
        shutil.copytree(src + '/lib', work + '/lib', dirs_exist_ok=True, ignore=lambda d, fs: [f for f in fs if f.endswith(('.o', '.a'))])
        tk = subprocess.run(['pkg-config', '--cflags', 'tk'], capture_output=True, text=True).stdout.split()
        self.inc = ['-I' + self.fl, '-I' + work + '/include', '-I' + src + '/external/minisat/include'] + tk
        run(['tclsh', 'make_prefs.tcl'], self.fl)
        run(['bison', '-d', 'language.y'], self.fl); run(['flex', '-l', 'lexer'], self.fl)
        open(self.fl + '/abi_version.h', 'w').write('#ifndef FL_ABI_VERSION\n#define FL_ABI_VERSION "x"\n#endif\n')
        shutil.copytree(src + '/bin/fl/scripts', self.fl + '/scripts', dirs_exist_ok=True)
        run(['sh', '-c', 'cat voss_strings.h fsm.h table.h | gawk -f scripts/mk_serialize.awk > scripts/template'], self.fl)
        self.objs = {}
        units = UNITS if units is None else units
        libs = LIBS if libs is None else libs
        jobs = [(u, self.fl + '/%s.c' % u) for u in units] + [('lib_' + l, work + '/lib/%s.c' % l) for l in libs]
        def cc(j):
            o = work + '/%s.o' % j[0]
            run(['gcc'] + FLAGS + (['-O0'] if j[0] == 'arb_prec' else []) + self.cflags + self.inc + ['-c', j[1], '-o', o], self.fl)   # arb_prec is built without optimisation, as in the project's Makefile
            if j[0] == 'initialize': run(['objcopy', '--globalize-symbol=default_vossrc', o])
            return j[0], o
        with ThreadPoolExecutor(8) as ex:
            for n, o in ex.map(cc, jobs): self.objs[n] = o
    def link(self, harness, without=(), out=None, extra=()):
        """harness: C file that #includes the units named in `without`"""
        harness = os.path.abspath(harness); out = out or self.w + '/' + os.path.basename(harness).rsplit('.', 1)[0]
        objs = [o for n, o in self.objs.items() if n not in without]
        run(['gcc'] + FLAGS + self.cflags + list(extra) + self.inc + ['-I' + HERE, harness] + objs +
            ['-o', out, '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy', '-no-pie', '-lm', '-ldl', '-lncurses', '-ledit', '-lX11'], self.fl)
        return out
    def link_fl(self):
        """the whole fl executable with its preamble and libraries, in w/inst/{bin,vosslib}"""
        bin_ = self.w + '/inst/bin'; os.makedirs(bin_, exist_ok=True)
        src = REPO + '/src'
        ofs = []
        for m in ('main', 'minisat_ifc'):
            shutil.copy(src + '/bin/fl/%s.cc' % m, self.fl)
            o = self.w + '/cc_%s.o' % m
            if m == 'minisat_ifc' and not os.path.isdir(src + '/external/minisat/include'): continue
            ofs.append(o)
            run(['g++'] + [f for f in FLAGS if not f.startswith('-std')] + self.cflags + ['-fpermissive'] + self.inc + ['-c', self.fl + '/%s.cc' % m, '-o', o], self.fl)
        lib = src + '/external/minisat/lib/libminisat.a'
        run(['g++', '-g', '-rdynamic'] + self.cflags + ofs + list(self.objs.values()) + ([lib] if os.path.exists(lib) else []) + ['-o', bin_ + '/fl', '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy', '-no-pie', '-lm', '-ldl', '-lncurses', '-ledit', '-lX11'], self.fl)
        for f in ('preamble.fl', 'builtins.fl', 'prefs.tcl', 'utils.tcl', 'front_end.tcl'): shutil.copy(src + '/bin/fl/' + f, bin_)
        shutil.copytree(src + '/vosslib', self.w + '/inst/vosslib', dirs_exist_ok=True)
        return bin_ + '/fl'
if __name__ == '__main__':
    import time
    t = time.time()
    b = Build(sys.argv[1])
    print('built', time.time() - t)
    if 'fl' in sys.argv[2:]: print(b.link_fl())
    for h in [x for x in sys.argv[2:] if x != 'fl']: print(b.link(h, without=re.findall(r'#include "(\w+)\.c"', open(h).read())))
