"""Fixtures: programs per build configuration and abstract objects of the solver's classes."""
import load
from load import find, Missing
from models import *
_cache = {}
def prog(cheb=True, contiguous=True, ndebug=False):
    k = (cheb, contiguous, ndebug)
    if k not in _cache: _cache[k] = load.load(cheb, contiguous, ndebug)
    return _cache[k]

def V(M, loc, v, t='?'):
    M.S.store[loc] = v
    M.lt[loc] = t
    return LV(loc)
_n = [0]
def nloc(name):
    _n[0] += 1
    return ('v', 'lab%d' % _n[0], name)
def vec(M, name, size, et='real', arr=None, inner=None):
    """a fresh container argument"""
    return V(M, nloc(name), Vec(size, arr if arr is not None else base(name, et, 1 if inner is None else 2), inner))
def scalar(M, v, name='x', t='double'): return V(M, nloc(name), v, t)
def pick(p, q, pred=None, n=None):
    """function by qualified name (and predicate on parameter types)"""
    L = [f for f in p.byname.get(q, []) if f.get('body') is not None]
    if n is not None: L = [f for f in L if len(f['params']) == n]
    if pred is not None: L = [f for f in L if pred([x['t'] for x in f['params']])]
    if not L: raise load.Missing('function %s not found in the sources' % q)
    return L[0]
def construct(M, cls, args, name='obj'):
    """runs the class constructor on abstract arguments; args: values or LVs"""
    f = pick(M.p, cls + '::' + cls.split('::')[-1], n=len(args))
    loc = ('o', 'lab', name)
    binds = [a if isinstance(a, LV) and p.get('ref') else M.bindv(p, a) for p, a in zip(f['params'], args)]
    M.call_fn(f, loc, binds)
    return loc
def call(M, f, this, *args):
    """calls f on LVs (reference parameters) or values; returns the value"""
    binds = [a if isinstance(a, LV) and p.get('ref') else M.bindv(p, a) for p, a in zip(f['params'], args)]
    if len(f['params']) != len(args): raise Missing('%s takes %d parameters' % (f['q'], len(f['params'])))
    try: r = M.call_fn(f, this, binds)
    except Dead: return None
    if isinstance(r, LV) and not f['ret'].get('ref'): r = M.read(r)
    return r
def site(f): return '%s:%s %s' % (f.get('file', '?').replace('/repo/', ''), f.get('l', '?'), f['q'])
def arr_of(M, lv): return M.S.store[lv.loc].arr
def at(M, lv, idx, ctx): return get(M.S.store[lv.loc].arr, idx if isinstance(idx, tuple) else (idx,), ctx)
def J(name, n, ctx):
    """fresh index 0<=J<n and the extended context"""
    j = fresh(name, True)
    return j, ctx.add(ge0(j), ge0(n - 1 - j))
def binder_of(h):
    """opaque-call handler receiving bound parameters: h(M, f, this, binds)"""
    def g(M, obj, args, n):
        f = M.p.fn.get(n['fn']['usr'])
        if f is None: raise Missing('no declaration for %s' % n['fn']['q'])
        binds = [M.bind(p, a) for p, a in zip(f['params'], args)]
        if any(isinstance(b, LV) and b.loc is None for b in binds):
            raise Missing('call of %s on an unknown object' % f['q'])
        rows = []
        for i, b in enumerate(binds):
            # rows of a table are copied in and out
            if isinstance(b, LV) and b.idx is not None and isinstance(M.S.store.get(b.loc), Vec):
                t = M.temp(M.read(b))
                rows.append((b, t, M.S.store[t.loc])); binds[i] = t
        r = h(M, f, obj, binds)
        for b, t, v in rows:
            if M.S is not None and M.S.store[t.loc] is not v: M.write(b, M.S.store[t.loc])
        return r
    return g
def opaque_map(M, f, this, binds, nm, et):
    """out := op(nm, in), both vectors of equal length"""
    i, o = binds
    vi, vo = M.S.store[i.loc], M.S.store[o.loc]
    M.check('bounds', eq0(vi.size - vo.size), 'input and output of %s have the same size' % f['q'])
    X = M.xnorm(vi.arr, vi.size)
    M.access_range(i.loc, ZERO, vi.size, 'r'); M.access_range(o.loc, ZERO, vo.size, 'w')
    M.S.store[o.loc] = Vec(vo.size, op(nm, et, X), vo.inner)
    return VOID
