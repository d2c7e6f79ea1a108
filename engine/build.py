#!/usr/bin/env python3
"""Builds the engine, the repository (instrumented and native) and the harnesses, keyed by content."""
import hashlib, os, subprocess, sys, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LG_REPO', '/repo')
ENG = VERIF + '/engine'
B = VERIF + '/build'
OBJ = B + '/obj'
JOBS = int(os.environ.get('LG_JOBS', '8'))
ICU = ['-DU_USING_ICU_NAMESPACE=0', '-DU_CHARSET_IS_UTF8=1', '-DUNISTR_FROM_CHAR_EXPLICIT=explicit', '-DUNSTR_FROM_STRING_EXPLICIT=explicit']
BASE = ['-std=c++17', '-DHAVE_CONFIG_H', '-include', 'functional', '-include', 'cstdint', '-w', '-Wno-everything'] + ICU
LIBS = ['-licuuc', '-licudata', '-lboost_program_options', '-lboost_system', '-lpthread']

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode:
        raise BuildError('command failed (%d): %s\n%s\n%s' % (r.returncode, ' '.join(cmd), r.stdout.decode(errors='replace')[-3000:], r.stderr.decode(errors='replace')[-6000:]))
    return r.stdout

def rd(p):
    with open(p, 'rb') as f:
        return f.read()

def h(*parts):
    x = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        x.update(len(p).to_bytes(8, 'little')); x.update(p)
    return x.hexdigest()[:32]

def atomically(path, fn):
    """fn(tmp) writes tmp; then it is renamed to path"""
    if os.path.exists(path):
        return path
    tmp = path + '.%d.tmp' % os.getpid() + (path[-2:] if path.endswith('.o') else path[path.rfind('.'):] if '.' in os.path.basename(path) else '')
    fn(tmp)
    os.replace(tmp, path)
    return path

def prune():
    try:
        fs = [(os.path.getatime(OBJ + '/' + f), os.path.getsize(OBJ + '/' + f), OBJ + '/' + f) for f in os.listdir(OBJ)]
    except OSError:
        return
    tot = sum(f[1] for f in fs)
    for _, sz, f in sorted(fs):
        if tot < 3 << 30:
            break
        try:
            os.unlink(f); tot -= sz
        except OSError:
            pass

def engine():
    os.makedirs(OBJ, exist_ok=True)
    def pass_():
        src = rd(ENG + '/SymPass.cpp')
        return atomically(OBJ + '/pass-%s.so' % h(src), lambda t: run(['clang++', '-O1', '-shared', '-fPIC', '-fno-rtti', '-std=c++17', '-w', '-I/usr/lib/llvm-18/include', ENG + '/SymPass.cpp', '-o', t]))
    def rt():
        k = h(rd(ENG + '/runtime.cpp'), rd(ENG + '/sym.h'), rd(ENG + '/strings.h'))
        # its template instances stay its own: the harness is linked with instrumented ones of the same names
        def mk(t):
            run(['g++', '-O2', '-g1', '-std=c++17', '-w', '-include', ENG + '/strings.h', '-c', ENG + '/runtime.cpp', '-o', t + '.1'])
            run(['ld', '-r', '--force-group-allocation', t + '.1', '-o', t + '.2'])
            run(['objcopy', '-w', '-G', '__sym*', '-G', '_sym*', '-G', 'sym_*', '-G', 'main', '-G', '_Zda*', '-G', '_Zdl*', '-G', '_Zna*', '-G', '_Znw*', t + '.2', t])
            os.unlink(t + '.1'); os.unlink(t + '.2')
        return atomically(OBJ + '/runtime-l-%s.o' % k, mk)
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(pass_), ex.submit(rt)
        return a.result(), b.result()

class Tree:
    """One state of the repository's sources."""
    def __init__(self, repo=REPO):
        self.repo = repo
        hs = sorted(glob.glob(repo + '/include/**/*.h', recursive=True) + glob.glob(repo + '/src/**/*.h', recursive=True))
        hs = [x for x in hs if not x.endswith('/lightgrep/encodings.h') and '/java/' not in x]
        self.headers = hs
        self.lib = sorted(glob.glob(repo + '/src/lib/**/*.cpp', recursive=True))
        self.lib = [x for x in self.lib if not x.endswith('/re_grammar.cpp')]
        self.cmd = sorted(x for x in glob.glob(repo + '/src/cmd/*.cpp') if not x.endswith('/main.cpp'))
        self.hk = h(*[p[len(repo):].encode() + b'\0' + rd(p) for p in hs], rd(repo + '/src/enc/encodings.cpp'), rd(ENG + '/config/config.h'))
        self.gen = B + '/gen-' + h(self.hk, rd(repo + '/src/lib/re_grammar.ypp'))
    def generate(self):
        g = self.gen
        if os.path.exists(g + '/ok'):
            return
        os.makedirs(g + '/inc/lightgrep', exist_ok=True)
        shutil.copy(ENG + '/config/config.h', g + '/inc/config.h')
        # parser from the grammar
        run(['bison', '-o', g + '/re_grammar.cpp', self.repo + '/src/lib/re_grammar.ypp'])
        # encodings.h from the generator program
        # the generator includes "util.h" from include/, found before lightgrep/util.h
        run(['g++', '-O0'] + BASE + ['-I' + g + '/inc', '-I' + self.repo + '/include', self.repo + '/src/enc/encodings.cpp', '-o', g + '/enc', '-licuuc', '-licudata'])
        out = run([g + '/enc'])
        with open(g + '/inc/lightgrep/encodings.h.tmp', 'wb') as f:
            f.write(out)
        os.replace(g + '/inc/lightgrep/encodings.h.tmp', g + '/inc/lightgrep/encodings.h')
        # encodings.h includes "util.h" relative to its own directory
        for f in glob.glob(self.repo + '/include/lightgrep/*.h'):
            if not f.endswith('/encodings.h'):
                shutil.copy(f, g + '/inc/lightgrep/')
        open(g + '/ok', 'w').close()
    def incs(self):
        return ['-I' + self.gen + '/inc', '-I' + self.repo + '/include']
    def sources(self, with_cmd):
        s = [(x, rd(x)) for x in self.lib] + [(self.gen + '/re_grammar.cpp', rd(self.gen + '/re_grammar.cpp'))]
        if with_cmd:
            s += [(x, rd(x)) for x in self.cmd]
        return s

NATFLAGS = {'native': ['-O1', '-g1'], 'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,object-size', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']}
BCFLAGS = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-include', ENG + '/strings.h', '-fno-discard-value-names', '-fno-stack-protector', '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0']
MODES = {'plain': [], 'asan': ['asan']}

HEAVY = ['lightgrep_c_api', '/harness/', 'nfaoptimizer', 'optparser', 'options', 'hitwriter', 'searchcontroller', 'lg_app', 'pattern_map', 'encoderfactory', 'parser', 're_grammar', 'vm.cpp', 'lightgrep_c_util', 'icu', 'nfabuilder', 'compiler']
def weight(p):
    for i, x in enumerate(HEAVY):
        if x in p:
            return 100 - i
    return 0

def harness_deps(src, tree):
    # a harness may include sources of the repository, with stand-ins for what they call
    return b''.join(rd(p) for p in tree.cmd + tree.lib if b'#include "src/' in rd(src)) + rd(src) + b''.join(rd(p) for p in sorted(glob.glob(VERIF + '/harness/*.h'))) + rd(ENG + '/sym.h')

def build_sym(tree, harness, with_cmd=False, extra=(), log=None, san=False):
    """-> path of the symbolic executable for harness"""
    with ThreadPoolExecutor(1) as ex0:
        fe = ex0.submit(engine)
        return _build_sym(tree, harness, with_cmd, extra, fe)

def _build_sym(tree, harness, with_cmd, extra, fe):
    tree.generate()
    hsrc = VERIF + '/harness/' + harness + '.cpp'
    incs = tree.incs() + ['-I' + VERIF + '/harness', '-I' + ENG, '-I' + VERIF, '-I' + tree.repo]
    srcs = tree.sources(with_cmd)
    units = []
    for p, txt in srcs:
        rel = p.replace(tree.repo, '').replace(tree.gen, '')
        units.append((p, h('bc', tree.hk, rel, txt, ' '.join(BCFLAGS), rd(ENG + '/strings.h')), tree.incs()))
    units.append((hsrc, h('bch', tree.hk, harness_deps(hsrc, tree), ' '.join(BCFLAGS), rd(ENG + '/strings.h'), ' '.join(extra)), incs))
    mods = VERIF + '/engine/models.c'
    hk = units[-1][1]
    units.sort(key=lambda u: -weight(u[0]))
    def bc(u):
        p, k, inc = u
        out = OBJ + '/' + k + '.bc'
        atomically(out, lambda t: run(['clang++', '-c', '-emit-llvm'] + BCFLAGS + BASE + list(extra if p == hsrc else ()) + inc + [p, '-o', t]))
        d = OBJ + '/' + k + '.defs'
        atomically(d, lambda t: open(t, 'wb').write(run(['llvm-nm-18', '--defined-only', '--extern-only', '--format=just-symbols', out])))
        return out, rd(d), k
    with ThreadPoolExecutor(JOBS) as ex:
        mk = h('model', rd(mods))
        def mbc():
            out = OBJ + '/' + mk + '.bc'
            atomically(out, lambda t: run(['clang', '-c', '-emit-llvm', '-O1', '-fno-builtin', '-w', mods, '-o', t]))
            d = OBJ + '/' + mk + '.defs'
            atomically(d, lambda t: open(t, 'wb').write(run(['llvm-nm-18', '--defined-only', '--extern-only', '--format=just-symbols', out])))
            return out, rd(d), mk
        fm = ex.submit(mbc)
        # longest first
        res = list(ex.map(bc, units)) + [fm.result()]
        alld = sorted(set(b'\n'.join(r[1] for r in res).split(b'\n')) - {b''})
        # the set of instrumented symbols decides which calls are external: it is part of the key
        def ob(r):
            bcf, _, k = r
            known = b'\n'.join(alld)
            und = run(['llvm-nm-18', '--undefined-only', '--format=just-symbols', bcf]).split(b'\n')
            aset = set(alld)
            ext = b'\n'.join(sorted(x for x in und if x and x in aset))
            k2 = h('symobj', k, rd(ENG + '/SymPass.cpp'), ext)
            o = OBJ + '/' + k2 + '.o'
            if os.path.exists(o):
                return o
            df = OBJ + '/' + k2 + '.%d.dl' % os.getpid()
            with open(df, 'wb') as f:
                f.write(known)
            tb = OBJ + '/' + k2 + '.%d.tmp.bc' % os.getpid()
            run(['opt-18', '-load-pass-plugin=' + pas, '-sym-defs=' + df, '-passes=sym,verify', bcf, '-o', tb])
            atomically(o, lambda t: run(['clang++', '-c', '-O1', '-w', '-x', 'ir', tb, '-o', t]))
            os.unlink(tb); os.unlink(df)
            return o
        pas, rt = fe.result()
        objs = list(ex.map(ob, res))
    k = h('symexe', rt, *objs)
    exe = OBJ + '/h-%s-%s' % (harness, k)
    atomically(exe, lambda t: run(['clang++', '-no-pie', rt] + objs + ['-o', t, '-lz3'] + LIBS))
    return exe

def build_native(tree, harness, with_cmd=False, extra=(), flavour='native'):
    engine()
    tree.generate()
    fl = NATFLAGS[flavour]
    nat = atomically(OBJ + '/native-%s.o' % h(rd(ENG + '/native.cpp'), rd(ENG + '/sym.h'), ' '.join(fl)), lambda t: run(['g++', '-g', '-std=c++17', '-w'] + fl + ['-c', ENG + '/native.cpp', '-o', t]))
    hsrc = VERIF + '/harness/' + harness + '.cpp'
    incs = tree.incs() + ['-I' + VERIF + '/harness', '-I' + ENG, '-I' + VERIF, '-I' + tree.repo]
    units = []
    for p, txt in tree.sources(with_cmd):
        rel = p.replace(tree.repo, '').replace(tree.gen, '')
        units.append((p, h('nat', tree.hk, rel, txt, ' '.join(fl)), tree.incs(), ()))
    units.append((hsrc, h('nath', tree.hk, harness_deps(hsrc, tree), ' '.join(fl), ' '.join(extra)), incs, extra))
    def ob(u):
        p, k, inc, ex_ = u
        return atomically(OBJ + '/' + k + '.o', lambda t: run(['g++', '-c'] + BASE + fl + list(ex_) + inc + [p, '-o', t]))
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(ob, units))
    k = h('natexe', nat, *objs)
    exe = OBJ + '/n-%s-%s' % (harness, k)
    atomically(exe, lambda t: run(['g++'] + fl + objs + [nat, '-o', t] + LIBS))
    return exe

if __name__ == '__main__':
    t = Tree()
    if len(sys.argv) > 1:
        print(build_sym(t, sys.argv[1], with_cmd='--cmd' in sys.argv))
        if '--native' in sys.argv:
            print(build_native(t, sys.argv[1], with_cmd='--cmd' in sys.argv))
    else:
        engine(); t.generate()
