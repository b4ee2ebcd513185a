"""C26, C27: runtime parameters."""
import random, re
from lab import *
import lab
import arrays as A
import terms as T
from interp import Strv, Opq
from spectral import atom_of

INTS = ['nt', 'nx', 'nl', 'nm', 'nlat', 'nphi', 't_step_save', 'l_ang', 'm_ang']
REALS = dict(dt='dt', cl='compactification_length', Rmax='Rmax', Rmin='Rmin', bh_mass='black_hole_mass', bh_spin='black_hole_spin', km1='km1', k0='k0', k1='k1', k2='k2',
             V2='V2', V3='V3', V4='V4', amp='amp', rl='rl', ru='ru')
STRS = dict(id='initial_data_type', initial_data_direction='initial_data_direction')
FILE = Strv(('paramfile',))
def readers(p):
    """functions that look a key up: string result, takes at least one string"""
    out = []
    for fs in p.byname.values():
        for f in fs:
            if f.get('body') is None or not f.get('file', '').endswith(('params.cpp', 'params.hpp')): continue
            if 'basic_string' not in f['ret']['t'] and f['ret']['t'] != 'std::string': continue
            if any('string' in x['t'] for x in f['params']): out.append(f)
    return out
def keyed(M, f, this, binds):
    vals = [M.read(b) for b in binds]
    keys = [v for v in vals if isinstance(v, Strv) and len(v.p) == 1 and isinstance(v.p[0], str)]
    if len(keys) != 1: return Strv(('param', '?'))
    M.lookups.append((keys[0].p[0], tuple(v.p for v in vals if isinstance(v, Strv) and v is not keys[0])))
    return Strv(('param', keys[0].p[0]))
def build(ndebug=True):
    p = prog(True, True, ndebug)
    M = Machine(p)
    M.lookups = []
    rs = readers(p)
    # innermost readers only: those that do not call another reader
    names = {f['q'] for f in rs}
    inner = [f for f in rs if not calls_any(f, names - {f['q']})]
    for f in inner: M.opaque[f['q']] = binder_of(keyed)
    c = pick(p, 'Params::Params', n=1)
    loc = ('o', 'lab', 'params')
    M.call_fn(c, loc, [M.bindv(c['params'][0], FILE)])
    return p, M, loc, c
def calls_any(node, names):
    if isinstance(node, dict):
        if node.get('k') in ('call', 'mcall') and node.get('fn', {}).get('q') in names: return True
        return any(calls_any(v, names) for v in node.values())
    if isinstance(node, list): return any(calls_any(v, names) for v in node)
    return False
def lookups(R):
    """(key, conversion) pairs the solver needs"""
    p, M, loc, c = build()
    R.used(M)
    out = [(k, 'stoi') for k in INTS] + [(k, 'stod') for k in REALS.values()] + [(k, 'str') for k in STRS.values()]
    want = dict(out)
    for k, _ in M.lookups:
        if k not in want: out.append((k, 'str'))
    found = {k for k, _ in M.lookups}
    return [x for x in out if x[0] in found] if found else out

def c26(R):
    R.rule = ('Params constructor and accessors interpreted with the lookup uninterpreted: each accessor must return the conversion (integer / double / text) of the value of its own key')
    for ndebug in (True, False):
        with R.scope('assertions off' if ndebug else 'assertions on'):
            p, M, loc, c = build(ndebug)
            for k, others in M.lookups:
                R.ob("'%s' is looked up in the given parameter file" % k, 'proved' if FILE.p in others or not others else 'violated', '%s' % (others,), site(c))
            todo = [(a, a, 'int') for a in INTS] + [(a, k, 'real') for a, k in REALS.items()] + [(a, k, 'str') for a, k in STRS.items()]
            for acc, key, kind in todo:
                nm = "accessor %s() returns '%s' as %s" % (acc, key, {'int': 'integer', 'real': 'double', 'str': 'text'}[kind])
                try: f = pick(p, 'Params::' + acc, n=0)
                except Broken as e: R.ob(nm, 'undecided', str(e)); continue
                v = call(M, f, loc)
                st = site(f)
                if kind == 'str':
                    ok = isinstance(v, Strv) and v.p == (('param', key),)
                    R.ob(nm, 'proved' if ok else ('violated' if isinstance(v, Strv) and len(v.p) == 1 and (isinstance(v.p[0], str) or v.p[0][0] == 'param' and v.p[0][1] != '?') or isinstance(v, Strv) and not v.p else 'undecided'), str(v), st); continue
                if kind == 'real' and f['ret']['t'] not in ('double', 'long double'):
                    R.ob(nm, 'violated', 'accessor has type %s' % f['ret']['t'], st); continue
                g, how = conv_of(v)
                if g is None:
                    unk = not isinstance(v, Poly) or bool(tops(v)) or "'?'" in str(v)
                    gap = any(o.kind in ('loop', 'unsupported', 'recursion') and o.status != 'proved' for o in M.obl.values())
                    if not gap and isinstance(v, Poly) and v.single() is not None and v.single().kind == 'top' and str(v.single().args[0]).startswith('uninitialised'): unk = False
                    R.ob(nm, 'undecided' if unk else 'violated', 'value %s' % v, st); continue
                if g == '?': R.ob(nm, 'undecided', str(v), st); continue
                ok = g == key
                if not ok: R.ob(nm, 'violated', "returns the value of '%s'" % g, st); continue
                good = how in ('stoi', 'stol', 'trunc stod', 'trunc stof') if kind == 'int' else how == 'stod'
                bad = (kind == 'real' and how in ('stoi', 'stol', 'stof', 'trunc stod')) or kind == 'int' and how in ('stod', 'stof')
                if good and kind == 'real' and narrowed(p, M, loc, f): good, bad, how = False, True, 'stored in single precision'
                R.ob(nm, 'proved' if good and how != 'trunc stof' else ('violated' if bad else 'undecided'), 'converted by %s' % how, st)
            R.incomplete(M); R.used(M)
def conv_of(v):
    if not isinstance(v, Poly): return None, None
    a = v.single()
    pre = ''
    if a is None: return None, None
    if a.kind == 'fn' and a.args[0] == 'trunc':
        pre = 'trunc '
        v = a.args[1]; a = v.single()
        if a is None: return None, None
    if a.kind != 'conv' or not (v - P(a) is ZERO): return None, None
    t = a.args[1]
    if isinstance(t, tuple) and len(t) == 1 and isinstance(t[0], tuple) and t[0][0] == 'param': return t[0][1], pre + a.args[0]
    return None, None
def narrowed(p, M, loc, f):
    """the accessor returns a field declared float"""
    cl = p.cls.get('Params') or {'fields': []}
    fl = {x['f'] for x in cl['fields'] if x['t'] == 'float'}
    def uses(n):
        if isinstance(n, dict):
            if n.get('k') == 'member' and n.get('f') in fl: return True
            return any(uses(x) for x in n.values())
        return isinstance(n, list) and any(uses(x) for x in n)
    return uses(f.get('body'))

# ------------------------------------------------------------------ C27
class NoEval(Exception): pass
class SEval:
    """meaning of extracted string terms on a given parameter file"""
    def __init__(s, text, key): s.text, s.key = text, key
    def string(s, v):
        if isinstance(v, Strv): return ''.join(s.piece(x) for x in v.p)
        if isinstance(v, str): return v
        if isinstance(v, tuple) and v and v[0] == 'str': return ''.join(s.piece(x) for x in v[1:])
        raise NoEval(v)
    def piece(s, x):
        if isinstance(x, str): return x
        if isinstance(x, Strv): return s.string(x)
        if x == ('key',): return s.key
        if x == ('paramfile',): return 'FILE'
        if x[0] == 'line':
            d = s.num(x[2]); return s.stream(('after', 'line', x[1], x[2]))[3]
        if x[0] == 'tok': return s.stream(('after', 'tok', x[1]))[3]
        if x[0] == 'ite': return s.string(x[2]) if s.cond(x[1]) else s.string(x[3])
        if x[0] == 'str': return s.string(x)
        if x[0] == 'val': return chr(int(s.num(x[1])) % 256)
        if x[0] == 'strop' and x[1] == 'substr':
            t = s.seq(x[2]); a = int(s.num(s.arg(x[3])))
            if a > len(t) or a < 0: raise NoEval('substr')
            n = int(s.num(s.arg(x[4]))) if len(x) > 4 else -1
            return t[a:] if n < 0 or n > 10**9 else t[a:a + n]
        raise NoEval(x)
    def arg(s, x): return x[0] if isinstance(x, tuple) and len(x) == 1 else x
    def seq(s, t): return ''.join(s.piece(x) for x in t) if isinstance(t, tuple) else s.string(t)
    def stream(s, t):
        """(text, position, ok, last extracted)"""
        if isinstance(t, Opq): t = t.tag
        if t and t[0] == 'opq': t = t[1:]
        if t[0] == 'stream' and t[1] == 'file':
            if s.text is None: return '', 0, False, ''
            return s.text, 0, True, ''
        if t[0] == 'stream' and t[1] == 'str': return s.string(t[2]), 0, True, ''
        if t[0] == 'after' and t[1] == 'line':
            tx, pos, ok, _ = s.stream(t[2])
            d = chr(int(s.num(t[3])))
            if not ok: return tx, pos, False, ''
            if pos >= len(tx): return tx, pos, False, ''
            k = tx.find(d, pos)
            if k < 0: return tx, len(tx), True, tx[pos:]
            return tx, k + 1, True, tx[pos:k]
        if t[0] == 'after' and t[1] == 'tok':
            tx, pos, ok, _ = s.stream(t[2])
            if not ok: return tx, pos, False, ''
            m = re.compile(r'\s*(\S+)').match(tx, pos)
            if not m: return tx, len(tx), False, ''
            return tx, m.end(), True, m.group(1)
        raise NoEval(t)
    def num(s, p):
        if isinstance(p, (int, float)): return p
        if isinstance(p, Poly):
            tot = 0
            for mo, c in p.m.items():
                x = c
                for a, e in mo: x *= s.atomv(T.ATOMS[a]) ** e
                tot += x
            return tot
        raise NoEval(p)
    def atomv(s, a):
        if a.kind == 'strlen': return len(s.seq(a.args[0]))
        if a.kind == 'strop':
            m, t = a.args[0], s.seq(a.args[1])
            av = [s.arg(x) for x in a.args[2]]
            st = lambda x: s.seq(x) if isinstance(x, tuple) else (x if isinstance(x, str) else (chr(int(s.num(x))) if isinstance(x, Poly) else s.string(x)))
            if m in ('find', 'find_first_of', 'rfind'):
                w = st(a.args[2][0]) if not isinstance(a.args[2][0], Poly) else chr(int(s.num(a.args[2][0])))
                b = int(s.num(av[1])) if len(av) > 1 else None
                if m == 'find': r = t.find(w, b or 0)
                elif m == 'rfind': r = t.rfind(w) if b is None else (0 if t.startswith(w) else -1) if b == 0 else t.rfind(w, 0, b + len(w))
                else:
                    js = [i for i in range(b or 0, len(t)) if t[i] in w]; r = js[0] if js else -1
                return r if r >= 0 else 2 ** 64 - 1
            if m == 'compare' and len(av) == 3:
                x = t[int(s.num(av[0])):][:int(s.num(av[1]))]; y = st(a.args[2][2]); return 0 if x == y else 1
            raise NoEval(m)
        if a.kind == 'ite': return s.num(a.args[1]) if s.cond(a.args[0]) else s.num(a.args[2])
        if a.kind in ('min', 'max'): return (min if a.kind == 'min' else max)(s.num(a.args[0]), s.num(a.args[1]))
        raise NoEval(a.kind)
    def cond(s, c):
        k = c.k
        if c is TRUE: return True
        if c is FALSE: return False
        if k == 'and': return all(s.cond(x) for x in c.a)
        if k == 'or': return any(s.cond(x) for x in c.a)
        if k == 'not': return not s.cond(c.a[0])
        if k == 'eq': return s.num(c.a[0]) == 0
        if k == 'ge': return s.num(c.a[0]) >= 0
        if k == 'gt': return s.num(c.a[0]) > 0
        if k == 'op':
            nm = c.a[0]
            if nm == 'streq': return s.seq(c.a[1]) == s.seq(c.a[2])
            if nm == 'strempty': return s.seq(c.a[1]) == ''
            if nm == 'stream-ok' and c.a[1] == 'ok': return s.stream(c.a[2])[2]
        raise NoEval(c)

K = 4
def samples(seed, n):
    rnd = random.Random(seed)
    keys = ['nx', 'nl', 'k1', 'km1', 'V2', 'dt', 'rl', 'amp']
    out = []
    for i in range(n):
        key = rnd.choice(keys)
        def line():
            w = rnd.choice([key, key, key + '0', 'x' + key, key[:-1], key.upper(), rnd.choice(keys), key + '_' + key, 'output_dir'])
            v = ' '.join(rnd.choice(['%d' % rnd.randint(0, 99), '%.3f' % rnd.random(), 'abc', key, '1e-05']) for _ in range(rnd.randint(1, 3)))
            return rnd.choice(['%s %s', '%s %s', '%s  %s', '%s %s ']) % (w, v)
        L = [rnd.choice([line, line, line, lambda: ''])() for _ in range(rnd.randint(0, K - 1))]
        t = '\n'.join(L)
        if L and rnd.random() < .7: t += '\n'
        out.append((key, t, L))
    out.append(('nx', None, []))
    return out
def oracle(key, L):
    for l in L:
        if l.split(' ')[0] == key:
            r = l[len(key):].split()
            if r: return r[0]
    return None

def c27(R):
    R.rule = ('the lookup routine is summarised (string value summaries, branches joined) over a parameter file of up to %d lines; the summary - value returned, exits taken and their '
              'status - is evaluated on files with near-miss keys, repeated keys, missing and last-line keys, an unreadable file; every process exit in the parameter code must carry a failure status' % (K - 1))
    R.level = 'other'
    for ndebug in (True, False):
        p = prog(True, True, ndebug)
        with R.scope('assertions off' if ndebug else 'assertions on'):
            rs = readers(p)
            names = {f['q'] for f in rs}
            inner = [f for f in rs if not calls_any(f, names - {f['q']}) and f.get('cls') == 'Params'] or [f for f in rs if not calls_any(f, names - {f['q']})]
            # entry points: readers called from the constructor
            ctor = pick(p, 'Params::Params', n=1)
            entry = [f for f in rs if calls_any(ctor, {f['q']})]
            if not entry: R.ob('lookup routine', 'undecided', 'no routine returning text for a key is called by the constructor', site(ctor))
            for f in entry: lookup(R, p, f)
            statuses(R, p)
def lookup(R, p, f):
    M = Machine(p)
    M.open_iters = K
    st = site(f)
    ss = [x for x in f['params'] if 'string' in x['t']]
    if len(ss) != 2 or len(f['params']) != 2:
        R.ob('lookup routine', 'undecided', 'unexpected parameters', st); return
    # which parameter is the file: the one passed through from the constructor
    order = file_first(p, f)
    vals = [FILE, Strv(('key',))] if order else [Strv(('key',)), FILE]
    exits = []
    M.exits = []
    r = None
    try: r = M.call_fn(f, ('o', 'lab', 'params'), [M.bindv(q, v) for q, v in zip(f['params'], vals)])
    except Dead: r = None
    if isinstance(r, LV) and M.S is not None: r = M.read(r)
    R.used(M); R.incomplete(M)
    if isinstance(r, Opq) or any('unresolved' in x for x in []):
        R.ob('lookup value', 'undecided', str(r), st); return
    n = {'value': 0, 'missing': 0, 'unreadable': 0}; und = {}
    bad = {}
    for key, text, L in samples(R.seed, 400 if R.tier != 'thorough' else 4000):
        want = oracle(key, L) if text is not None else None
        cat = 'unreadable' if text is None else ('missing' if want is None else 'value')
        e = SEval(text, key)
        try:
            hit = None
            for S, why, line in M.exits:
                if all(e.cond(c) for c in S.path): hit = (why, line); break
            if hit is not None:
                code = status_of(hit[0])
                if want is not None: got = 'exits at line %s' % hit[1]; ok = False
                else: ok = code != 0; got = 'exits with status 0 (line %s)' % hit[1]
            else:
                if M.S is None and r is None: raise NoEval('no return')
                got = repr(e.string(r)); ok = want is not None and e.string(r) == want
            n[cat] += 1
            if not ok and cat not in bad: bad[cat] = "key %r, file %r: %s, required %s" % (key, text, got, repr(want) if want is not None else 'exit with a failure status')
        except (NoEval, RecursionError) as x: und[cat] = str(x)[:200]
    for cat, what in (('value', 'returns the first value of the first line with exactly the requested key'), ('missing', 'a missing key ends the process with a failure status'),
                      ('unreadable', 'an unreadable file ends the process with a failure status')):
        if cat in bad: R.ob(what, 'violated', bad[cat], st)
        elif n[cat]: R.ob(what, 'held' if cat not in und else 'undecided', '%d evaluations of the summary' % n[cat], st)
        else: R.ob(what, 'undecided', und.get(cat, ''), st)
def file_first(p, f):
    """is the file name the first of the two string parameters of f?  (decided at the constructor's call sites)"""
    ctor = pick(p, 'Params::Params', n=1)
    res = []
    def go(n):
        if isinstance(n, dict):
            if n.get('k') in ('call', 'mcall') and n.get('fn', {}).get('q') == f['q'] and len(n.get('args', [])) == 2:
                res.append(not has_str(n['args'][0]))
            for v in n.values(): go(v)
        elif isinstance(n, list):
            for v in n: go(v)
    go(ctor)
    return res[0] if res else True
def has_str(n):
    if isinstance(n, dict): return n.get('k') == 'str' or any(has_str(v) for v in n.values())
    return isinstance(n, list) and any(has_str(v) for v in n)
def status_of(why):
    """exit status: 0, nonzero number, or None when unknown"""
    if isinstance(why, str): return 1          # throw
    q, v = why
    b = q.split('::')[-1]
    if b in ('abort', 'terminate', '__assert_fail'): return 1
    if isinstance(v, Poly) and v.const() is not None: return int(v.const()) & 255
    return None
def statuses(R, p):
    """every explicit process exit in the parameter code carries a failure status"""
    for f in {id(x): x for fs in p.byname.values() for x in fs}.values():
        if f.get('body') is None or not f.get('file', '').endswith(('params.cpp', 'params.hpp')): continue
        def go(n):
            if isinstance(n, dict):
                if n.get('k') == 'call' and n.get('fn', {}).get('q', '').split('::')[-1] in ('exit', 'quick_exit', '_Exit', '_exit') and n.get('args'):
                    M = Machine(p)
                    try: v = M.ev(n['args'][0])
                    except Exception: v = None
                    k = v.const() if isinstance(v, Poly) else None
                    R.ob('process exit in %s' % f['q'], 'undecided' if k is None else ('violated' if int(k) & 255 == 0 else 'proved'), 'status %s' % v, '%s:%s %s' % (f.get('file', '?').replace(load.REPO + '/', ''), n.get('l', f.get('l')), f['q']))
                for v in n.values(): go(v)
            elif isinstance(n, list):
                for v in n: go(v)
        go(f['body'])
