"""Recognition of transform structure in value summaries."""
from models import *
import arrays as A
import terms as T
from fractions import Fraction as F
import math

def atom_of(p):
    s = p.single()
    if s is None: return None
    return s if isinstance(s, Atom) else T.ATOMS[s]

def collect(x, kind):
    out = {}
    def f(a):
        if a.kind == kind: out[a.id] = a
        return False
    T.walk_atoms(x, f)
    return out

def stencil(x, arr, j):
    """x = sum_s c_s elem(arr, j+s) with rational c_s; returns {s: c} or None"""
    st = {}
    for mon, co in x.m.items():
        if len(mon) != 1 or mon[0][1] != 1: return None
        at = T.ATOMS[mon[0][0]]
        if at.kind != 'elem' or at.args[0] is not arr: return None
        d = at.args[1][0] - j
        if not d.isconst(): return None
        st[int(d.const())] = st.get(int(d.const()), 0) + co
    return st

def symbol_poly(st):
    """Fourier symbol sum c_s cos(s k) as a polynomial in y = sin^2(k/2)"""
    # cos(sk) = T_s(1-2y)
    def pm(a, b):
        r = [F(0)] * (len(a) + len(b) - 1)
        for i, x in enumerate(a):
            for k, z in enumerate(b): r[i + k] += x * z
        return r
    def pa(a, b, cb=1):
        r = [F(0)] * max(len(a), len(b))
        for i, x in enumerate(a): r[i] += x
        for i, x in enumerate(b): r[i] += cb * x
        return r
    Ts = [[F(1)], [F(1), F(-2)]]
    w = max(abs(s) for s in st)
    while len(Ts) <= w: Ts.append(pa([2 * z for z in pm([F(1), F(-2)], Ts[-1])], Ts[-2], -1))
    q = [F(0)]
    for s, c in st.items(): q = pa(q, Ts[abs(s)], c)
    while len(q) > 1 and q[-1] == 0: q.pop()
    return q

def bern_range(q, depth=40):
    """(True if q >= 0 on [0,1], None); exact rational Bernstein subdivision"""
    n = len(q) - 1
    b = [sum(F(math.comb(i, k), math.comb(n, k)) * q[k] for k in range(i + 1)) for i in range(n + 1)]
    todo = [(b, 0)]
    while todo:
        c, d = todo.pop()
        if all(x >= 0 for x in c): continue
        if c[0] < 0 or c[-1] < 0: return False, None
        if d > depth: return False, None
        l, r = [], []
        w = list(c)
        while w:
            l.append(w[0]); r.append(w[-1])
            w = [(w[i] + w[i + 1]) / 2 for i in range(len(w) - 1)]
        todo += [(l, d + 1), (r[::-1], d + 1)]
    return True, None

def dct_split(x, j, ctx=None):
    """x = alpha * elem(REDFT00(X), j); returns (alpha, X)"""
    if not isinstance(x, Poly): return None
    es = [a for a in collect_top(x) if a.kind == 'elem' and a.args[0].k == 'op']
    es = [a for a in es if a.args[1][0] is j or ctx is not None and ctx.prove(eq0(a.args[1][0] - j))]
    if len(es) != 1: return None
    a = es[0]
    c, d = lin(x, a.id)
    if c is None or d is not ZERO: return None
    if a.args[0].a[0] != 'REDFT00': return None
    return c, a.args[0].a[1]

def collect_top(x):
    return [T.ATOMS[i] for i in sorted(x.atoms())]

def op_of_input(val, b):
    """the cosine transform of exactly the input array inside val (or None)"""
    out = []
    seen = set()
    def arr(Ar):
        if Ar in seen: return
        seen.add(Ar)
        if Ar.k == 'op' and Ar.a[0] == 'REDFT00' and is_arr(Ar.a[1], b): out.append(Ar)
        for y in Ar.a: go(y)
    def go(y):
        if isinstance(y, Arr): arr(y)
        elif isinstance(y, (Poly, Cond, Cx)):
            T.walk_atoms(y, lambda a: [go(z) for z in a.args] and False)
        elif isinstance(y, tuple):
            for z in y: go(z)
        elif isinstance(y, Atom): pass
    go(val)
    return out[0] if out else None

def is_arr(X, b):
    """X is (extensionally) the base array b"""
    if X is b: return True
    if X.k == 'lam':
        k, n, body = X.a
        at = atom_of(body) if isinstance(body, Poly) else None
        return at is not None and at.kind == 'elem' and at.args[0] is b and at.args[1][0].single() is not None and occ_id(at.args[1][0]) == bid(k)
    return False
def occ_id(p): return atom_of(p).id
def bid(k): return k if isinstance(k, int) else (k.id if isinstance(k, Atom) else atom_of(k).id)

def unfolded(X, k, ctx):
    """element k of X with recurrences unfolded one step"""
    v = A.get(X, (k,), ctx)
    return unf(v, ctx)
def unf(v, ctx):
    recs = {}
    def f(a):
        if a.kind == 'elem' and a.args[0].k == 'rec': recs[a.id] = a
        return False
    T.walk_atoms(v, f)
    if not recs: return v
    return Subst({i: A.rec_unfold(a.args[0], a.args[1], ctx) for i, a in recs.items()}).any(v)

def top_zero(S, n):
    """substitution S[n-1] = S[n-2] = 0 (data without the two highest modes)"""
    def sub(x, ctx):
        S2 = A.store(A.store(S, (n - 1,), ZERO), (n - 2,), ZERO)
        old = A.CUR[0]; A.CUR[0] = ctx
        try:
            ids = {}
            def f(a):
                if a.kind == 'elem' and a.args[0] is S: ids[a.id] = A.get(S2, a.args[1], ctx)
                return False
            T.walk_atoms(x, f)
            return Subst(ids).any(x) if ids else x
        finally: A.CUR[0] = old
    return sub

def weight(ctx, k, n, end, mid):
    return ite(c_or(eq0(k), eq0(n - 1 - k)), end, mid)

def dct_is(R, name, val, j, k, n, ctx, data, w, st):
    """val == REDFT00-synthesis at j of weights w(j,k)*data(k)"""
    some = False
    for cc, x in A.cases(val, ctx):
        if T.tops(x):
            R.ob(name, 'undecided', str(x)[:200], st); continue
        r = dct_split(x, j, cc)
        if r is None:
            kinds = {a.args[0].a[0] for a in collect_top(x) if a.kind == 'elem' and a.args[0].k == 'op'}
            R.ob(name + ' is a DCT-I', 'violated' if kinds and 'REDFT00' not in kinds else 'undecided', str(x)[:300], st); continue
        al, X = r
        R.eq(name + ' weights', al * A.get(X, (k,), cc), w(cc, j, k) * data(k), cc, st)

# ---------------------------------------------------------------- low-pass factors
def decide_lowpass(R, g, t, st, half=F(999, 1000), tail=(F(15, 16), 1e-4), tag=''):
    """g: term in t only, on [0,1]"""
    ta = atom_of(t)
    def at(x):
        return T.Num(0, {ta.id: x}).poly(g)
    try:
        vals = [(i / 4096, at(i / 4096)) for i in range(0, 4097)]
    except Exception as e:
        return R.ob(tag + 'filter factor', 'undecided', '%s: %r' % (g, e), st)
    how = 'held'
    a = atom_of(g)
    E = None
    if a is not None and a.kind == 'fn' and a.args[0] == 'exp': E = a.args[1]
    if E is not None and set(E.atoms()) <= {ta.id} and all(c <= 0 and len(m) == 1 and m[0][1] > 0 for m, c in E.m.items()): how = 'proved'
    R.ob(tag + 'factor is 1 at k=0', how if abs(vals[0][1] - 1) < 1e-12 else 'violated', str(g), st)
    bad = [x for x in vals if not (-1e-300 <= x[1] <= 1 + 1e-12)]
    R.ob(tag + 'factor in (0,1]', how if not bad else 'violated', '%s %s' % (g, bad[:1]), st)
    bad = [(x, y) for x, y in zip(vals, vals[1:]) if y[1] > x[1] + 1e-12]
    R.ob(tag + 'factor never increases', how if not bad else 'violated', '%s %s' % (g, bad[:1]), st)
    lo = [x for x in vals if x[0] <= 0.5 and x[1] < float(half)]
    R.ob(tag + 'lower half of the spectrum kept', how if not lo else 'violated', '%s %s' % (g, lo[:1]), st)
    if tail:
        hi = [x for x in vals if x[0] >= float(tail[0]) and x[1] > tail[1]]
        R.ob(tag + 'top of the spectrum damped', how if not hi else 'violated', '%s %s' % (g, hi[:1]), st)
