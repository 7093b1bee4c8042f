"""Builds what the checks need from /repo's current working tree, outside /repo:
the AST exporter, the exported ASTs, the generated parser sources, objects of the real code and harness binaries.
Objects and ASTs are cached under /verif/build/cache by the hash of everything they are made from."""
import os, sys, hashlib, subprocess, glob, json, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'stl-to-ps')
BUILD = os.path.join(VERIF, 'build')
CACHE = os.path.join(BUILD, 'cache')
SHIM = os.path.join(VERIF, 'shim', 'include')
TUS = ['ast', 'center', 'geo', 'ps', 'stl', 'stl-to-ps', 'stl-to-ps-main', 'parser_support', 'parser', 'parser.tab', 'lexer.yy']
AST_TUS = ['ast', 'center', 'geo', 'ps', 'stl', 'stl-to-ps', 'stl-to-ps-main', 'parser_support', 'parser']
EXTRACTED = ['actions', 'lexacts']      # the actions of the grammar and of the scanner, one function each (grammar.py)
DEFS = ['-DEIGEN_INITIALIZE_MATRICES_BY_ZERO']
CXXFLAGS = ['-std=c++17', '-O1', '-w', '-D_GLIBCXX_ASSERTIONS'] + DEFS

class BuildError(Exception):
    pass

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str): p = p.encode()
        h.update(hashlib.sha256(p).digest())
    return h.hexdigest()[:32]

def _rd(p):
    with open(p, 'rb') as f: return f.read()

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr.decode('utf8', 'replace')[-4000:]))
    return r

_hdr = None
def headers_key():
    global _hdr
    if _hdr is None:
        parts = []
        for p in sorted(glob.glob(SRC + '/*.h') + glob.glob(SRC + '/*.y') + glob.glob(SRC + '/*.l') +
                        glob.glob(SHIM + '/**/*.h', recursive=True)):
            parts += [os.path.basename(p), _rd(p)]
        _hdr = _sha(*parts)
    return _hdr

_gen = None
def gendir():
    """bison/flex output for the current grammar"""
    global _gen
    if _gen: return _gen
    key = _sha('gen', _rd(SRC + '/parser.y'), _rd(SRC + '/lexer.l'))
    d = os.path.join(CACHE, 'gen-' + key)
    if not os.path.exists(d + '/ok'):
        t = tempfile.mkdtemp(dir=CACHE)
        os.makedirs(t + '/stl-to-ps')
        run(['bison', '-o', 'stl-to-ps/parser.tab.cc', '--defines=stl-to-ps/parser.tab.h', SRC + '/parser.y'], cwd=t)
        run(['flex', '--outfile=stl-to-ps/lexer.yy.cc', '--header-file=stl-to-ps/lexer.yy.h', SRC + '/lexer.l'], cwd=t)
        open(t + '/ok', 'w').close()
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t, ignore_errors=True)
    _gen = d
    return d

def incs():
    return ['-I' + SHIM, '-I' + REPO, '-I' + gendir(), '-I/usr/include/eigen3']

def tu_path(n):
    if n in EXTRACTED:
        import grammar
        return grammar.extract(n)
    if n in ('parser.tab', 'lexer.yy'): return gendir() + '/stl-to-ps/%s.cc' % n
    return SRC + '/%s.cc' % n

def obj(n, flags=()):
    src = tu_path(n)
    key = _sha('obj', n, _rd(src), headers_key(), ' '.join(CXXFLAGS + list(flags)))
    out = os.path.join(CACHE, 'o-%s-%s.o' % (n, key))
    if not os.path.exists(out):
        t = out + '.%d.tmp' % os.getpid()
        run(['g++'] + CXXFLAGS + list(flags) + incs() + ['-c', src, '-o', t])
        os.replace(t, out)
    return out

def absl():
    return sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so'))

def prepare():
    os.makedirs(CACHE, exist_ok=True)
    gendir()

def harness(src, tus, flags=(), name=None):
    """Compile /verif/harness/<src> and link it with the objects of the real translation units."""
    prepare(); headers_key()
    hs = os.path.join(VERIF, 'harness', src)
    common = b''.join(_rd(p) for p in sorted(glob.glob(VERIF + '/harness/*.h')))
    key = _sha('h', src, _rd(hs), common, headers_key(), ' '.join(CXXFLAGS + list(flags)),
               *[_rd(SRC + '/%s' % x) for x in sorted(os.listdir(SRC)) if x.endswith('.cc') and ('include_' + x) in str(flags)])
    out = os.path.join(CACHE, 'h-%s-%s.o' % (src.replace('.cc', ''), key))
    def ch():
        if not os.path.exists(out):
            t = out + '.%d.tmp' % os.getpid()
            run(['g++'] + CXXFLAGS + list(flags) + incs() + ['-I' + VERIF + '/harness', '-c', hs, '-o', t])
            os.replace(t, out)
        return out
    with ThreadPoolExecutor(8) as ex:
        fh = ex.submit(ch)
        os_ = list(ex.map(obj, tus))
        ho = fh.result()
    ekey = _sha('e', ho, *os_)
    exe = os.path.join(CACHE, 'x-%s-%s' % (src.replace('.cc', ''), ekey))
    if not os.path.exists(exe):
        t = exe + '.%d.tmp' % os.getpid()
        run(['g++', ho] + os_ + ['-o', t] + absl())
        os.replace(t, exe)
    return exe

def program():
    """the real program"""
    prepare(); headers_key()
    import harnesses
    os_ = [obj(n) for n in harnesses.ALL + ['stl-to-ps-main']]
    exe = os.path.join(CACHE, 'x-program-%s' % _sha('p', *os_))
    if not os.path.exists(exe):
        t = exe + '.%d.tmp' % os.getpid()
        run(['g++'] + os_ + ['-o', t] + absl())
        os.replace(t, exe)
    return exe

def astx():
    exe = BUILD + '/astx-' + _sha(_rd(VERIF + '/tools/astx/astx.cc'))[:16]
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        t = tempfile.mkdtemp(dir=BUILD)
        run(['bash', VERIF + '/tools/astx/build.sh', t])
        os.replace(t + '/astx', exe)
        os.rmdir(t)
    return exe

_resdir = None
def ast(n):
    global _resdir
    if _resdir is None:
        _resdir = run(['clang-18', '-print-resource-dir']).stdout.decode().strip()
    src = tu_path(n)
    key = _sha('ast', n, _rd(src), headers_key(), _rd(VERIF + '/tools/astx/astx.cc'), REPO)
    out = os.path.join(CACHE, 'a-%s-%s.json' % (n, key))
    if not os.path.exists(out):
        r = subprocess.run([astx(), '--root=' + REPO + '/'] + (['--root2=' + gendir() + '/'] if n in EXTRACTED else []) + [src, '--', '-std=c++17', '-resource-dir', _resdir] + DEFS + incs() + ['-w'] + (['-fno-access-control'] if n in EXTRACTED else []),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0: raise BuildError('astx %s: %s' % (n, r.stderr.decode('utf8', 'replace')[-3000:]))
        t = out + '.%d.tmp' % os.getpid()
        with open(t, 'wb') as f: f.write(r.stdout)
        os.replace(t, out)
    return out

def asts(ns=AST_TUS, extra=()):
    prepare(); headers_key(); astx()
    ast(ns[0])
    with ThreadPoolExecutor(8) as ex:
        ns = list(ns) + [x for x in extra if x not in ns]
        return dict(zip(ns, [json.load(open(p)) for p in ex.map(ast, ns)]))

def prune(keep=400):
    fs = sorted(glob.glob(CACHE + '/*'), key=os.path.getmtime)
    for f in fs[:-keep]:
        if os.path.isfile(f):
            try: os.unlink(f)
            except OSError: pass

if __name__ == '__main__':
    if sys.argv[1:] == ['setup']:
        prepare(); astx(); asts()
        for n in EXTRACTED:
            try: ast(n)
            except Exception as e: print("%s: %s" % (n, str(e)[-300:]))      # the check falls back to its oracle
        with ThreadPoolExecutor(8) as ex: list(ex.map(obj, TUS))
        import harnesses
        for h, l in harnesses.LINK.items(): harness(h, l)
        print('setup ok')
