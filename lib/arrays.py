"""Array terms: guarded scatters over symbolic iteration spaces, and reads from them."""
from terms import *
import terms as T
from logic import Ctx, lin, witness
import itertools

CUR = [Ctx()]          # context used for reads triggered by substitution

class Undet(Exception): pass

def base(name, et='real', nd=1): return mkarr('base', et, name, nd=nd)
def uninit(name, et='real', nd=1): return mkarr('uninit', et, name, nd=nd)
def fill(v, et='real', nd=1): return mkarr('fill', et, v, nd=nd)
def op(name, et, *args): return mkarr('op', et, name, *args)

def scat(inner, iters, guard, widx, val):
    return mkarr('scat', inner.et, inner, tuple(iters), guard, tuple(widx), val, nd=inner.nd)
def store(inner, idx, val, guard=TRUE):
    # overwrite an identical trailing plain store
    if guard is TRUE and inner.k == 'scat' and inner.a[1] == () and inner.a[3] == tuple(idx):
        inner = inner.a[0]
    return scat(inner, (), guard, idx, val)
def row(A, pre):
    if A.k == 'fill': return mkarr('fill', A.et, A.a[0], nd=A.nd - len(pre))
    return mkarr('row', A.et, A, tuple(pre), nd=A.nd - len(pre))
def ite_arr(c, A, Bb):
    if c is TRUE or A is Bb: return A
    if c is FALSE: return Bb
    # common base: turn into guarded scatters
    ca, cb = chain(A), chain(Bb)
    if ca[0] is cb[0]:
        ea, eb = ca[1], cb[1]
        n = 0
        while n < len(ea) and n < len(eb) and ea[n] == eb[n]: n += 1
        R = ca[0]
        for e in ea[:n]: R = scat(R, *e)
        nc = c_not(c)
        ra, rb = ea[n:], eb[n:]
        # same targets on both sides: one store of a selected value
        if len(ra) == len(rb) and all(x[0] == () and y[0] == () and x[1] is TRUE and y[1] is TRUE and x[2] == y[2] for x, y in zip(ra, rb)):
            for x, y in zip(ra, rb): R = scat(R, (), TRUE, x[2], ite(c, x[3], y[3]))
            return R
        for it, g, i, v in ra: R = scat(R, it, c_and(c, g), i, v)
        for it, g, i, v in rb: R = scat(R, it, c_and(nc, g), i, v)
        return R
    return mkarr('ite', A.et, c, A, Bb, nd=A.nd)

def chain(A):
    """(base, [(iters, guard, idx, val)...]) oldest first"""
    es = []
    while A.k == 'scat':
        es.append(A.a[1:])
        A = A.a[0]
    es.reverse()
    return A, es

def flat_chain(A):
    """chain(A) where a recurrence at the bottom counts as one more entry"""
    b, es = chain(A)
    while b.k == 'rec':
        A0, kap, N, g, widx, val, me = b.a
        k2 = fresh('k', True)
        s = Subst({kap: k2})
        g, widx = s.any(g), s.any(tuple(widx))
        v = elem(b, widx)
        b, e0 = chain(A0)
        es = e0 + [(((k2.single(), N),), g, widx, v)] + es
    return b, es

_lv = {}
def level(x):
    """highest canonical binder level below x"""
    m = 0
    if isinstance(x, Poly):
        if x in _lv: return _lv[x]
        _lv[x] = 0
        for a in x.atoms(): m = max(m, level(ATOMS[a]))
        _lv[x] = m
        return m
    if isinstance(x, (Cond, Arr)):
        if x in _lv: return _lv[x]
        _lv[x] = 0
        for y in x.a: m = max(m, level(y))
        _lv[x] = m
        return m
    if isinstance(x, Atom):
        if x.lvl is None:
            x.lvl = 0
            if x.kind == 'sym' and isinstance(x.args[0], str) and x.args[0].startswith('$'):
                x.lvl = int(x.args[0][1:])
            else:
                for y in x.args: m = max(m, level(y))
                x.lvl = m
        return x.lvl
    if isinstance(x, Cx): return max(level(x.re), level(x.im))
    if isinstance(x, tuple): return max([level(y) for y in x], default=0)
    return 0

def binder(k): return sym('$%d' % k, True)

def mklam(J, size, body, et='real'):
    """array of the given size whose J-th element is body (J a fresh symbol)"""
    s = body.single() if isinstance(body, Poly) else None
    ja = J.single()
    if s is not None and s.kind == 'elem' and len(s.args[1]) == 1 and s.args[1][0] is J and not occurs(s.args[0], {ja.id}):
        return s.args[0]
    if isinstance(body, Cx):
        r, i = body.re.single(), body.im.single()
        if r is not None and i is not None and r.kind == 're' and i.kind == 'im' and r.args == i.args and r.args[1] == (J,) and not occurs(r.args[0], {ja.id}):
            return r.args[0]
    if not occurs(body, {ja.id}): return mkarr('fill', et, body)
    b = binder(level(body) + 1)
    return mkarr('lam', et, b.single(), size, Subst({ja: b}).any(body))

def mksum(J, N, body):
    ja = J.single()
    if body is ZERO: return ZERO
    if not occurs(body, {ja.id}): return body * N_(N)
    out = ZERO
    for mo, c in body.m.items():
        dep = tuple(x for x in mo if x[0] == ja.id or occurs(ATOMS[x[0]], {ja.id}))
        free = T.mkpoly({tuple(x for x in mo if x not in dep): c})
        if not dep: out = out + free * N; continue
        bd = T.mkpoly({dep: F(1)})
        b = binder(level(bd) + 1)
        out = out + free * P(atom('sum', b.single(), N, Subst({ja: b}).any(bd)))
    return out
def N_(N): return N
def mkmax(J, N, body, init):
    ja = J.single()
    b = binder(level(body) + 1)
    return P(atom('maxof', b.single(), N, Subst({ja: b}).any(body), init))

def mkfold(J, N, body, init, acc):
    """value after N steps acc -> body (J the step, acc the running value: fresh symbols) from init"""
    k = level((body, N, init)) + 1
    b, a = binder(k), sym('acc$%d' % k)
    return P(atom('fold', b.single(), N, Subst({J.single(): b, acc.single(): a}).any(body), init, a.single()))
def open_binder(args):
    """fresh symbol and body for (binder, N, body, ...)"""
    j = fresh('j', True)
    return j, args[1], Subst({args[0]: j}).any(args[2])

def decided(c, ctx):
    """simplify a condition under ctx"""
    if c is TRUE or c is FALSE: return c
    if c.k == 'and':
        out = []
        cc = ctx
        for x in c.a:
            y = decided(x, cc)
            if y is FALSE: return FALSE
            if y is not TRUE:
                out.append(y); cc = cc.add(y)
        return c_and(*out)
    if c.k == 'or':
        out = []
        for x in c.a:
            y = decided(x, ctx)
            if y is TRUE: return TRUE
            if y is not FALSE: out.append(y)
        return c_or(*out)
    if ctx.prove(c): return TRUE
    if ctx.prove(c_not(c)): return FALSE
    return c

def solve(widx, q, iters, ctx):
    """solution {atom id: Poly} of widx == q for the iterators, and a condition"""
    sol, conds = {}, []
    if len(widx) != len(q): raise Undet('rank')
    for w, x in zip(widx, q):
        w = Subst(sol).poly(w) if sol else w
        _solve1(w, x, iters, ctx, sol, conds)
    return sol, c_and(*conds)

def _solve1(p, q, iters, ctx, sol, conds):
    ids = {a.id: n for a, n in iters if a.id not in sol}
    vs = [v for v in p.atoms() if v in ids]
    inner = [a for a in p.atoms() if a not in ids and occurs(ATOMS[a], set(ids))]
    if not vs and not inner:
        conds.append(split_eq(p - q, ctx)); return
    if inner:
        # p = atom + rest with an injective atom over the iterators
        if len(inner) == 1 and not vs and ATOMS[inner[0]].kind in ('LM',):
            at = ATOMS[inner[0]]
            c, d = lin(p, inner[0])
            if c is not None and c.const() == 1:
                r = (q - d)
                s = r.single()
                if s is not None and s.kind == at.kind and s.args[0] is at.args[0]:
                    for x, y in zip(at.args[1:], s.args[1:]):
                        x = Subst(sol).poly(x) if sol else x
                        _solve1(x, y, iters, ctx, sol, conds)
                    return
        raise Undet('index is not linear in the loop counters')
    facts = []
    for a, n in iters:
        if a.id in ids:
            facts += [ge0(P(a)), ge0(n - 1 - P(a))]
    c2 = ctx.add(*facts)
    for c in digit_strides(p, q, ids):
        (W, ew), (Q, eq) = divmono(p, c), divmono(q, c)
        if W is ZERO or W.isconst() or ew is ZERO and eq is ZERO and c.isconst(): continue
        if ctx.prove_ge(c - 1) and ctx.prove_ge(eq) and ctx.prove_ge(c - 1 - eq) and c2.prove_ge(ew) and c2.prove_ge(c - 1 - ew):
            _solve1(W, Q, iters, ctx, sol, conds)
            ew = Subst(sol).poly(ew) if sol else ew
            return _solve1(ew, eq, iters, ctx, sol, conds)
    coef = {}
    rest = p
    for v in vs:
        c, d = lin(rest, v)
        if c is None or any(u in ids for u in c.atoms()):
            return _quad(p, q, iters, ids, ctx, c2, sol, conds)
        coef[v] = c
        rest = d
    r = q - rest
    # orient all coefficients positively
    rev = {}
    for v in list(coef):
        c = coef[v]
        if c2.prove_ge(c - 1): continue
        if c2.prove_ge(-c - 1):
            n = ids[v]
            if any(u in ids for u in n.atoms()) and len(vs) > 1: 
                rev[v] = None
            r = r - c * (n - 1)
            coef[v] = -c
            rev[v] = n
        else: raise Undet('stride of unknown sign')
    todo = list(coef)
    while todo:
        if len(todo) == 1:
            v = todo[0]
        else:
            v = None
            for u in sorted(todo, key=lambda u: -len(coef[u].m)):
                others = ZERO
                for w in todo:
                    if w != u: others = others + coef[w] * P(ATOMS[w])
                if c2.prove_ge(coef[u] - 1 - others): v = u; break
            if v is None: raise Undet('strides are not mixed-radix')
        c = coef[v]
        if c.const() == 1: s = r
        else:
            qe = divmono(r, c) if len(todo) == 1 else None
            if qe is not None and qe[1] is not ZERO and ctx.prove_ge(c - 1 - qe[1]) and ctx.prove_ge(c - 1 + qe[1]):
                # |remainder| < stride: the stride divides it only when it vanishes
                s = qe[0]
                conds.append(split_eq(qe[1], ctx))
            else:
                s = ctx.sdiv(r, c)
                if len(todo) == 1: conds.append(eq0(r - c * s))
        r2 = r - c * s
        n = ids[v]
        if rev.get(v) is not None or v in rev:
            s = n - 1 - s
        sol[v] = s
        for w in list(sol):
            if w != v and occurs(sol[w], {v}): sol[w] = Subst({v: s}).poly(sol[w])
        r = Subst({v: s}).poly(r2)
        todo.remove(v)
        for w in todo:
            ids[w] = Subst({v: s}).poly(ids[w])

def digit_strides(p, q, ids):
    """monomials that could separate p and q into high and low digits, largest first"""
    out = []
    qm = set(q.m)
    for mo in p.m:
        if len(mo) < 2 or any(n != 1 for _, n in mo): continue
        its = [a for a, n in mo if a in ids]
        for a, n in mo:
            if its and a not in ids: continue
            c = T.mkpoly({tuple(x for x in mo if x[0] != a): F(1)})
            if c not in out: out.append(c)
    out.sort(key=lambda c: -len(next(iter(c.m))))
    return out

def divmono(p, c):
    """p = c*q + e for a monomial c with coefficient +-1: (q, e), e free of multiples of c"""
    if len(c.m) != 1: return None
    (mo, k), = c.m.items()
    q, e = {}, {}
    need = dict(mo)
    for m, x in p.m.items():
        d = dict(m)
        if all(d.get(a, 0) >= n for a, n in need.items()) and (need or (F(x) / k).denominator == 1):
            for a, n in need.items(): d[a] -= n
            mm = tuple(sorted((a, n) for a, n in d.items() if n))
            q[mm] = q.get(mm, 0) + F(x) / k
        else: e[m] = x
    return T.mkpoly(q), T.mkpoly(e)
def split_eq(p, ctx):
    """p == 0 split into independent digits when a stride dominates the rest"""
    best = None
    for mo in p.m:
        if len(mo) < 2: continue
        for a, n in mo:
            if ATOMS[a].kind != 'sym': continue
            c = P(ATOMS[a])
            q, e = divmono(p, c)
            if q.isconst() or e is ZERO: continue
            if ctx.prove_ge(c - 1 - e) and ctx.prove_ge(c - 1 + e):
                return c_and(split_eq(q, ctx), split_eq(e, ctx))
    return eq0(p)

def _quad(p, q, iters, ids, ctx, c2, sol, conds):
    """x*x + x + y with |y| <= x (complex spherical-harmonic packing)"""
    for x_id in ids:
        x = P(ATOMS[x_id])
        y = p - x * x - x
        if occurs(y - _lin0(y, x_id), {x_id}) and lin(y, x_id)[0] is None: continue
        if y.atoms() and not lin_all(y): continue
        if not (c2.prove_ge(x - y) and c2.prove_ge(x + y)): continue
        # q in the same form
        for z in q_squares(q):
            w = q - z * z - z
            if ctx.prove_ge(z - w) and ctx.prove_ge(z + w):
                sol[x_id] = z
                y2 = Subst(sol).poly(y)
                return _solve1(y2, w, iters, ctx, sol, conds)
    raise Undet('index is not linear in the loop counters')
def _lin0(y, v):
    c, d = lin(y, v)
    return y if c is None else c * P(ATOMS[v])
def lin_all(y):
    return all(sum(e for _, e in mo) <= 1 for mo in y.m)
def q_squares(q):
    out = []
    for mo, c in q.m.items():
        if c == 1 and len(mo) == 1 and mo[0][1] == 2:
            z = P(ATOMS[mo[0][0]])
            out.append(z)
            # (z+k)^2 + (z+k) expansions
            k = q.m.get(((mo[0][0], 1),), F(0))
            for t in (k - 1,):
                if t != 0 and t.denominator == 1 and int(t) % 2 == 0: out.append(z + int(t) // 2)
    if q.isconst():
        for k in range(0, 12): out.append(P(k))
    return out

_getmemo = {}
def get(A, idx, ctx):
    idx = tuple(idx)
    key = (A, idx, id(ctx))
    r = _getmemo.get(key)
    if r is not None and r[0] is ctx: return r[1]
    v = _get(A, idx, ctx)
    if len(_getmemo) > 400000: _getmemo.clear()
    _getmemo[key] = (ctx, v)
    return v

SPECIAL = {}           # base name -> function(idx) or None
def _get(A, idx, ctx):
    k = A.k
    if k == 'base':
        f = SPECIAL.get(A.a[0]) if isinstance(A.a[0], str) else None
        if f is None and isinstance(A.a[0], tuple): f = SPECIAL.get(A.a[0][0])
        if f is not None:
            r = f(A, idx, ctx)
            if r is not None: return r
        return elem(A, idx)
    if k == 'op': return elem(A, idx)
    if k == 'uninit': return elem_top('uninitialised element of %s' % (A.a[0],), A.et)
    if k == 'fill': return A.a[0]
    if k == 'lam':
        b, n, body = A.a
        return Subst({b: idx[0]}).any(body)
    if k == 'row': return get(A.a[0], A.a[1] + idx, ctx)
    if k == 'ite':
        c = decided(A.a[0], ctx)
        if c is TRUE: return get(A.a[1], idx, ctx)
        if c is FALSE: return get(A.a[2], idx, ctx)
        return ite(c, get(A.a[1], idx, ctx.add(c)), get(A.a[2], idx, ctx.add(c_not(c))))
    if k == 'rec':
        return rec_get(A, idx, ctx)
    if k == 'scat':
        inner, iters, guard, widx, val = A.a
        if len(widx) < len(idx) and isinstance(val, Arr):
            return _get_rowstore(A, idx, ctx)
        try:
            sol, cond = solve(widx, idx, iters, ctx)
        except Undet as e:
            if never(inner, iters, guard, widx, idx, ctx): return get(inner, idx, ctx)
            return elem_top('unresolved read: %s' % e, A.et)
        return _hit(A, sol, cond, idx, ctx, lambda s, c: Subst(s).any(val) if s else val)
    raise AssertionError(k)

def never(inner, iters, guard, widx, idx, ctx):
    """the scatter provably never touches idx"""
    c2 = ctx
    for a, n in iters: c2 = c2.add(ge0(P(a)), ge0(n - 1 - P(a)))
    c2 = c2.add(guard)
    for w, x in zip(widx, idx):
        if c2.prove(c_not(eq0(w - x))): return True
    return False

def _hit(A, sol, cond, idx, ctx, mkval):
    inner, iters, guard, widx, val = A.a
    conds = [cond]
    s = Subst(sol) if sol else None
    free = []
    for a, n in iters:
        n2 = s.poly(n) if s else n
        if a.id in sol:
            conds += [ge0(sol[a.id]), ge0(n2 - 1 - sol[a.id])]
        else:
            free.append((a, n2))
    if free:
        # counters that do not select the element: the last iteration wins
        g2 = s.cond(guard) if s else guard
        fs = {a.id for a, _ in free}
        if occurs(g2, fs): return elem_top('guarded overwrite by an unrelated counter', A.et)
        sol = dict(sol)
        for a, n2 in free:
            if any(occurs(x, fs) for x in (n2,)): return elem_top('nested free counter', A.et)
            conds.append(ge0(n2 - 1))
            sol[a.id] = n2 - 1
        s = Subst(sol)
    conds.append(s.cond(guard) if s else guard)
    c = decided(c_and(*conds), ctx)
    if c is FALSE: return get(inner, idx, ctx)
    ctx2 = ctx.add(c)
    old = CUR[0]; CUR[0] = ctx2
    try: v = mkval(sol, c)
    finally: CUR[0] = old
    if c is TRUE: return v
    return ite(c, v, get(inner, idx, ctx.add(c_not(c))))

def _get_rowstore(A, idx, ctx):
    inner, iters, guard, widx, val = A.a
    n = len(widx)
    try: sol, cond = solve(widx, idx[:n], iters, ctx)
    except Undet as e: return elem_top('unresolved row read', A.et)
    return _hit(A, sol, cond, idx, ctx, lambda s, c: get(Subst(s).array(val) if s else val, idx[n:], CUR[0]))

def elem_top(reason, et):
    if et == 'cplx': return Cx(top(reason), top(reason))
    if et == 'bool': return opaque('top', reason)
    return top(reason)

# recurrences: rec(A0, kappa, N, guard, widx, val, self) -- val reads atoms elem(self, .)
def rec_get(A, idx, ctx):
    A0, kap, N, guard, widx, val, me = A.a
    try: sol, cond = solve(widx, idx, ((kap, N),), ctx)
    except Undet: return elem_top('unresolved recurrence read', A.et)
    if kap.id not in sol: return elem_top('recurrence over one element', A.et)
    k = sol[kap.id]
    c = decided(c_and(cond, ge0(k), ge0(N - 1 - k), Subst(sol).cond(guard)), ctx)
    if c is FALSE: return get(A0, idx, ctx)
    v = elem(A, idx)
    if c is TRUE: return v
    return ite(c, v, get(A0, idx, ctx.add(c_not(c))))
def rec_unfold(A, idx, ctx):
    """one-step definition of element idx, assuming it is produced by the recurrence"""
    A0, kap, N, guard, widx, val, me = A.a
    sol, cond = solve(widx, idx, ((kap, N),), ctx)
    old = CUR[0]; CUR[0] = ctx
    try: return Subst(sol, {me: A}).any(val)
    finally: CUR[0] = old

def rebuild_elem(A, idx):
    return get(A, idx, CUR[0])
T.REBUILD_ELEM = rebuild_elem
T.MKLAM = mklam; T.MKSUM = mksum; T.MKMAX = mkmax; T.MKFOLD = mkfold

def norm(A, size, ctx):
    """extensional normal form of a 1-d array of given size"""
    if A.k in ('base', 'op'): return A
    J = fresh('J', True)
    c2 = ctx.add(ge0(J), ge0(size - 1 - J))
    v = get(A, (J,), c2)
    v = simp(v, c2)
    if T.tops(v): return A
    return mklam(J, size, v, A.et)

class Simp(Subst):
    """resolves ite conditions that the context decides"""
    def __init__(self, ctx):
        Subst.__init__(self, {})
        self.ctx = ctx
    def atom(self, a):
        if a.kind == 'ite':
            q = self.ac.get(a.id)
            if q is None:
                c = decided(self.cond(a.args[0]), self.ctx)
                if c is TRUE: q = self.poly(a.args[1])
                elif c is FALSE: q = self.poly(a.args[2])
                else:
                    q = ite(c, Simp(self.ctx.add(c)).poly(a.args[1]), Simp(self.ctx.add(c_not(c))).poly(a.args[2]))
                self.ac[a.id] = q
            return q
        if a.kind in ('min', 'max'):
            x, y = self.poly(a.args[0]), self.poly(a.args[1])
            if x.isint() and y.isint():
                if self.ctx.prove(ge0(y - x)): return x if a.kind == 'min' else y
                if self.ctx.prove(ge0(x - y)): return y if a.kind == 'min' else x
        if a.kind == 'div':
            return self.ctx.sdiv(self.poly(a.args[0]), self.poly(a.args[1]))
        if a.kind in ('elem', 're', 'im'):
            # simplify indices only
            q = self.ac.get(a.id)
            if q is None:
                idx = tuple(self.poly(x) for x in a.args[1])
                if idx == a.args[1]: q = P(a)
                else:
                    v = get(a.args[0], idx, self.ctx)
                    q = v if not isinstance(v, Cx) else (v.re if a.kind == 're' else v.im)
                self.ac[a.id] = q
            return q
        if a.kind in ('sum', 'maxof', 'fold'):
            q = self.ac.get(a.id)
            if q is None:
                n = self.poly(a.args[1])
                j, _, body = open_binder(a.args)
                if a.kind == 'fold':
                    ac = fresh('acc'); body = Subst({a.args[4]: ac}).any(body)
                body = Simp(self.ctx.add(ge0(j), ge0(n - 1 - j))).any(body)
                q = mkfold(j, n, body, self.any(a.args[3]), ac) if a.kind == 'fold' else mksum(j, n, body) if a.kind == 'sum' else mkmax(j, n, body, self.any(a.args[3]))
                self.ac[a.id] = q
            return q
        return Subst.atom(self, a)
    def array(self, A): return A

_sm = {}
def simp(v, ctx):
    if isinstance(v, (Poly, Cx)):
        if not has_kind(v, ('ite', 'min', 'max', 'div')): return v
        old = CUR[0]; CUR[0] = ctx
        try: return Simp(ctx).any(v)
        finally: CUR[0] = old
    return v

# ---------------------------------------------------------------- case analysis
def first_cond(v):
    """an ite condition inside v whose own text contains no ite"""
    hit = has_kind_shallow(v)
    return hit
def has_kind_shallow(v):
    seen = set()
    def go(x):
        if isinstance(x, Poly):
            if x in seen: return None
            seen.add(x)
            for a in sorted(x.atoms()):
                at = ATOMS[a]
                if at.kind == 'ite':
                    r = go(at.args[0])
                    return r if r is not None else at.args[0]
                if at.kind in ('sum', 'maxof', 'fold'): continue
                if at.kind in ('elem', 're', 'im'):
                    for y in at.args[1]:
                        r = go(y)
                        if r is not None: return r
                    continue
                for y in at.args:
                    r = go(y)
                    if r is not None: return r
        elif isinstance(x, Cond):
            for y in x.a:
                r = go(y)
                if r is not None: return r
        elif isinstance(x, Cx):
            r = go(x.re)
            return r if r is not None else go(x.im)
        elif isinstance(x, tuple):
            for y in x:
                r = go(y)
                if r is not None: return r
        return None
    return go(v)

def first_minmax(v):
    """an integer min or max atom outside binders"""
    seen = set()
    def go(x):
        if isinstance(x, Poly):
            if x in seen: return None
            seen.add(x)
            for a in sorted(x.atoms()):
                at = ATOMS[a]
                if at.kind in ('min', 'max') and at.isint: return at
                ys = at.args[1] if at.kind in ('elem', 're', 'im') else at.args
                if at.kind in ('sum', 'maxof', 'fold'): ys = (at.args[1],)
                for y in ys:
                    r = go(y)
                    if r is not None: return r
        elif isinstance(x, Cx): return go(x.re) or go(x.im)
        elif isinstance(x, (tuple, Cond)):
            for y in (x if isinstance(x, tuple) else x.a):
                r = go(y)
                if r is not None: return r
        return None
    return go(v)

def cases(v, ctx, limit=200):
    """yields (ctx, value) leaves with every top-level ite decided"""
    todo = [(ctx, v)]
    n = 0
    while todo:
        c, x = todo.pop()
        x = simp(x, c)
        k = first_cond(x)
        if k is None:
            yield c, x
            n += 1
            if n > limit: raise Undet('too many cases')
            continue
        if k.k in ('and', 'or'): k = k.a[0]
        for lit in split_lits(k):
            c2 = c.add(lit)
            if c2.infeasible(): continue
            todo.append((c2, x))

def split_lits(k):
    if k.k == 'not' and k.a[0].k == 'eq' and k.a[0].a[0].isint():
        k = k.a[0]
    if k.k == 'eq' and k.a[0].isint():
        p = k.a[0]
        return [k, ge0(p - 1), ge0(-p - 1)]
    if k.k in ('and', 'or'):
        k = k.a[0]
        return split_lits(k)
    return [k, c_not(k)]

def hidden(x, y):
    """conditions over free values that select between parts of one of the two terms, inside binders and arrays too"""
    def collect(v):
        out, seen = [], set()
        def rec(k, bound):
            if k is TRUE or k is FALSE: return
            if k.k in ('and', 'or', 'not'):
                if k.k == 'not' and k.a[0].k == 'eq': k = k.a[0]
                else:
                    for q in k.a: rec(q, bound)
                    return
            if k.k not in ('ge', 'gt', 'eq') or k in out or occurs(k, bound) or tops(k): return
            if has_kind(k.a[0], ('sum', 'maxof', 'fold')): return
            out.append(k)
        def go(x, bound):
            if isinstance(x, (Poly, Arr, Atom)):
                key = x if not isinstance(x, Atom) else ('a', x.id)
                if key in seen: return
                seen.add(key)
            if isinstance(x, Poly):
                for a in sorted(x.atoms()): go(ATOMS[a], bound)
            elif isinstance(x, Atom):
                if x.kind == 'ite': rec(x.args[0], bound)
                if x.kind in ('sum', 'maxof', 'fold'):
                    b = bound | {x.args[0].id} | ({x.args[4].id} if x.kind == 'fold' else set())
                    go(x.args[1], bound)
                    for z in x.args[2:]: go(z, b)
                    return
                for z in x.args: go(z, bound)
            elif isinstance(x, Arr):
                if x.k == 'lam':
                    b = bound | {x.a[0].id if isinstance(x.a[0], Atom) else x.a[0].single().id}
                    for z in x.a[1:]: go(z, b)
                    return
                if x.k == 'scat':
                    b = bound | {(q.id if isinstance(q, Atom) else q.single().id) for q, _ in x.a[1]}
                    go(x.a[0], bound); rec(x.a[2], b); go(x.a[3], b); go(x.a[4], b)
                    return
                if x.k == 'rec': return
                if x.k == 'ite': rec(x.a[0], bound)
                for z in x.a: go(z, bound)
            elif isinstance(x, Cx): go(x.re, bound); go(x.im, bound)
            elif isinstance(x, (tuple, Cond)):
                for z in (x if isinstance(x, tuple) else x.a): go(z, bound)
        go(v, frozenset())
        return out
    a, b = collect(x), collect(y)
    return [k for k in a if k not in b] + [k for k in b if k not in a]

class Assume(Subst):
    """rewrites a term under one more fact, inside binders and arrays too"""
    def __init__(self, ctx, k, val):
        Subst.__init__(self, {}, {})
        self.ctx = ctx; self.k = k; self.v = val; self.nk = c_not(k)
    def touches(self, x): return True
    def cond(self, c):
        if c is self.k: return TRUE if self.v else FALSE
        if c is self.nk: return FALSE if self.v else TRUE
        r = Subst.cond(self, c)
        if r is TRUE or r is FALSE or r.k not in ('ge', 'gt', 'eq', 'not'): return r
        return decided(r, self.ctx)
    def any(self, x):
        old = CUR[0]; CUR[0] = self.ctx
        try: return Subst.any(self, x)
        finally: CUR[0] = old

def eq_subst(ctx):
    """substitution solving the integer equalities recorded in ctx for a symbol"""
    sub = {}
    ges = {f.a[0] for f in ctx.facts if f.k == 'ge' and f.a[0].isint()}
    for f in ctx.facts:
        if f.k == 'eq' and f.a[0].isint() or f.k == 'ge' and f.a[0] in ges and -f.a[0] in ges:
            p = Subst(sub).poly(f.a[0]) if sub else f.a[0]
            for a in sorted(p.atoms(), reverse=True):
                if ATOMS[a].kind != 'sym': continue
                c, d = lin(p, a)
                if c is not None and c.const() in (1, -1):
                    v = scale(d, -1 / c.const())
                    sub = {k: Subst({a: v}).poly(x) for k, x in sub.items()}
                    sub[a] = v
                    break
        elif f.k == 'eq':
            p = Subst(sub).poly(f.a[0]) if sub else f.a[0]
            for a in sorted(p.atoms(), reverse=True):
                if ATOMS[a].kind != 'sym' or ATOMS[a].isint or ATOMS[a].args == ('PI',): continue
                c, d = lin(p, a)
                if c is not None and c.const():
                    v = scale(d, -1 / c.const())
                    sub = {k: Subst({a: v}).poly(x) for k, x in sub.items()}
                    sub[a] = v
                    break
    return sub
