"""Builds the exporter, runs it over the solver's translation units and merges the result."""
import os, sys, json, subprocess, re, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
ASTX = os.path.join(ROOT, 'build', 'astx')

class Broken(Exception):
    """the analysis could not be carried out (missing anchor, source that does not type-check)"""

class Missing(Broken):
    """a routine the rule is anchored at does not exist in the sources (renamed or removed): nothing is decided there"""

def build_tool(out=ASTX):
    src = os.path.join(ROOT, 'frontend', 'astx.cpp')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    cmd = ['clang++-18', '-std=c++17', '-O0', '-fno-rtti', '-fno-exceptions', '-w', '-I/usr/lib/llvm-18/include',
           '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
           src, '-o', tmp, '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18', '/usr/lib/llvm-18/lib/libLLVM-18.so']
    if not shutil.which('clang++-18'): cmd[0] = 'clang++'
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0: raise Broken('cannot build the AST exporter: ' + r.stderr[-2000:])
    os.replace(tmp, out)
    return out

class Program:
    def __init__(self):
        self.fn = {}        # usr -> function with body
        self.byname = {}    # qualified name -> [function]
        self.cls = {}
        self.glob = {}
        self.units = []
        self.failed = []

def makefile_objs():
    try: s = open(os.path.join(REPO, 'Source', 'Makefile')).read()
    except OSError: return None
    return set(re.findall(r'(\w+)\.o\b', s))

def load(cheb=True, contiguous=True, ndebug=False, files=None):
    tool = build_tool()
    src = os.path.join(REPO, 'Source')
    if files is None:
        files = sorted(f for f in os.listdir(src) if f.endswith('.cpp'))
    objs = makefile_objs()
    flags = ['-std=c++11', '-fopenmp', '-I' + os.path.join(ROOT, 'frontend', 'include'),
             '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-I' + src, '-w']
    if cheb: flags.append('-DUSE_CHEB')
    if contiguous: flags.append('-DSHTNS_CONTIGUOUS_LONGITUDES')
    if ndebug: flags.append('-DNDEBUG')
    tmp = tempfile.mkdtemp(prefix='astx')
    def one(f):
        out = os.path.join(tmp, f + '.json')
        r = subprocess.run([tool, REPO, out, os.path.join(src, f), '--'] + flags, capture_output=True, text=True)
        if not os.path.exists(out): return f, None, r.stderr
        with open(out) as h: return f, json.load(h), r.stderr
    try:
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, files))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    p = Program()
    p.config = dict(cheb=cheb, contiguous=contiguous, ndebug=ndebug)
    for f, d, err in res:
        if d is None:
            stem = f[:-4]
            p.failed.append(f)
            if objs is None or stem in objs:
                raise Broken('%s does not type-check: %s' % (f, err[-600:]))
            continue
        p.units.append(f)
        for fn in d['functions']:
            fn['unit'] = f
            if fn.get('internal'): key = fn['usr'] + '@' + f
            old = p.fn.get(fn['usr'])
            if old is None or ('body' in fn and 'body' not in old):
                p.fn[fn['usr']] = fn
        for c in d['classes']: p.cls.setdefault(c['q'], c)
        for g in d['globals']: p.glob.setdefault(g['id'], g)
    for fn in p.fn.values():
        p.byname.setdefault(fn['q'], []).append(fn)
    return p

def find(p, q, nparams=None, types=None):
    L = [f for f in p.byname.get(q, []) if 'body' in f]
    if nparams is not None: L = [f for f in L if len(f['params']) == nparams]
    if types is not None: L = [f for f in L if [x['t'] for x in f['params']] == types]
    if not L: raise Missing('function %s not found in the sources' % q)
    return L[0]
