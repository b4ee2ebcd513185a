"""Integer reasoning over polynomial constraints: a bound-elimination prover
(sound, incomplete) and a small-witness search used to confirm refutations."""
import random, math
from terms import *
import terms as T

_ctxs = {}             # contexts by their facts (keeps their memos)
NEST = 0
class Ctx:
    """immutable set of assumed conditions"""
    __slots__ = ('facts', 'ges', 'memo', 'fpset', 'bnd', 'rmemo')
    def __init__(self, facts=()):
        self.facts = tuple(facts)
        self.ges = None
        self.memo = {}
        self.rmemo = {}
        self.fpset = None
        self.bnd = {}
    def add(self, *cs):
        new = []
        for c in cs:
            L = c.a if c.k == 'and' else (c,)
            for x in L:
                if x is TRUE or x in self.facts or x in new: continue
                new.append(x)
        if not new: return self
        k = self.facts + tuple(new)
        r = _ctxs.get(k)
        if r is None:
            if len(_ctxs) > 60000: _ctxs.clear()
            r = _ctxs[k] = Ctx(k)
        return r
    def prep(self):
        if self.ges is not None: return
        g = []
        for c in self.facts:
            if c.k == 'ge':
                for q in split_ge(c.a[0]): g.append(q)
            elif c.k == 'eq' and c.a[0].isint():
                g.append(c.a[0]); g.append(-c.a[0])
        self.ges = g
    def bounds(self, v):
        """([lower],[upper]) polys for sym atom id v"""
        r = self.bnd.get(v)
        if r is not None: return r
        self.prep()
        lo, up = [], []
        at = ATOMS[v]
        if at.kind == 'div':
            x, m = at.args
            # the bounds of a quotient may go through those of other quotients, but not round in circles
            global NEST
            if NEST >= 3: return lo, up
            if self.prove_ge(m - 1, 3):
                NEST += 1
                try:
                    for u in self.upper(x): up.append(self.sdiv(u, m))
                    for l in self.lower(x): lo.append(self.sdiv(l, m))
                finally: NEST -= 1
        if at.kind == 'LM':
            lo.append(ZERO)
        if at.kind == 'nlm':
            lo.append(ONE)
        for f in self.ges:
            c, d = lin(f, v)
            if c is None: continue
            k = c.const()
            if k is None or k == 0: continue
            if k > 0:
                b = scale(d, -1 / k)
                if all(x.denominator == 1 for x in b.m.values()): lo.append(b)
                elif b.const() is not None: lo.append(P(math.ceil(b.const())))
            else:
                b = scale(d, -1 / k)
                if all(x.denominator == 1 for x in b.m.values()): up.append(b)
                elif b.const() is not None: up.append(P(math.floor(b.const())))
        self.bnd[v] = (lo, up)
        return lo, up
    def sdiv(self, p, m):
        r = mkdiv(p, m)
        s = r
        for a in list(r.atoms()):
            at = ATOMS[a]
            if at.kind == 'div' and at.args[1] is m:
                x = at.args[0]
                if self.prove_ge(x, 3) and self.prove_ge(m - 1 - x, 3):
                    s = Subst({a: ZERO}).poly(s)
                elif self.prove_ge(-x - 1, 3) and self.prove_ge(x + m, 3):
                    s = Subst({a: P(-1)}).poly(s)
        return s
    def upper(self, x, depth=3):
        """some upper bound polys of x obtained by eliminating its most local variable(s)"""
        return self._ext(x, 1, depth)
    def lower(self, x, depth=3):
        return self._ext(x, -1, depth)
    def _ext(self, x, sgn, depth):
        out = [x]
        vs = sorted(x.atoms(), reverse=True)
        if not vs or depth == 0: return out
        for v in vs:
            c, d = lin(x, v)
            if c is None or c is ZERO: continue
            lo, up = self.bounds(v) if ATOMS[v].kind in ('sym', 'div', 'LM') else ([], [])
            if not lo and not up: continue
            if self.prove_ge(c, 2): bs = up if sgn > 0 else lo
            elif self.prove_ge(-c, 2): bs = lo if sgn > 0 else up
            else: continue
            for b in bs[:3]:
                y = c * b + d
                if occurs(b, {v}): continue
                out.append(y)
                out += self._ext(y, sgn, depth - 1)[1:]
            if bs: break
        r = []
        for y in out:
            if y not in r: r.append(y)
        return r[:8]
    # ------------------------------------------------------------ prove
    def prove(self, c, depth=6):
        if c is TRUE: return True
        if c is FALSE: return self.infeasible() if depth >= 6 else False
        r = self.memo.get(c)
        if r is not None: return r
        r = self._prove(c, depth)
        if depth >= 6 or r: self.memo[c] = r
        return r
    def _prove(self, c, depth):
        if c in self.facts: return True
        if c.k == 'and': return all(self.prove(x, depth) for x in c.a)
        if c.k == 'or':
            if any(self.prove(x, depth) for x in c.a): return True
            # a or b: prove b assuming not a
            if len(c.a) <= 3:
                for i, x in enumerate(c.a):
                    rest = c_or(*(c.a[:i] + c.a[i + 1:]))
                    n = c_not(x)
                    if n.k != 'or' and self.add(n) is not self and depth > 3 and self.add(n).prove(rest, depth - 2): return True
            return False
        if c.k == 'ge': return self.prove_ge(c.a[0], depth)
        if c.k == 'eq' and c.a[0].isint():
            return self.prove_ge(c.a[0], depth) and self.prove_ge(-c.a[0], depth)
        if c.k == 'not' and c.a[0].k == 'eq' and c.a[0].a[0].isint():
            p = c.a[0].a[0]
            return self.prove_ge(p - 1, depth) or self.prove_ge(-p - 1, depth)
        # real-valued or opaque: by identity of value
        if self.fpset is None:
            self.fpset = {}
            for f in self.facts:
                k = tuple(f.fp())
                if None not in k: self.fpset[(f.k, k)] = f
        k = tuple(c.fp())
        if None not in k and (c.k, k) in self.fpset: return True
        if c.k == 'gt':
            q = c.a[0]
            if nonneg_real(q) == 2: return True
        if c.k == 'not' and c.a[0].k == 'gt':
            if nonneg_real(-c.a[0].a[0]) >= 1: return True
            # x>0 known => not(-x>0)
            if self.add() is self and c_true_gt(self, -c.a[0].a[0]): return True
        if c.k == 'not' and c.a[0].k == 'eq' and not c.a[0].a[0].isint():
            q = c.a[0].a[0]
            if nonneg_real(q) == 2 or nonneg_real(-q) == 2: return True
        return False
    def infeasible(self):
        """try to show the facts contradict each other"""
        self.prep()
        r = self.rmemo.get('inf')
        if r is not None: return r
        r = False
        self.rmemo['inf'] = False
        for i in range(len(self.facts) - 1, -1, -1):
            c = self.facts[i]
            if c is FALSE: r = True; break
            if i < len(self.facts) - 8: break
            rest = Ctx(self.facts[:i] + self.facts[i + 1:])
            n = c_not(c)
            if n is not FALSE and rest.prove(n, 5): r = True; break
        self.rmemo['inf'] = r
        return r
    def prove_ge(self, p, depth=6):
        c = p.const()
        if c is not None: return c >= 0
        key = p
        m = self.rmemo.get(key)
        if m is not None and (m[0] or m[1] >= depth): return m[0]
        self.rmemo[key] = (False, depth)
        r = self._pge(p, depth)
        self.rmemo[key] = (r, depth)
        return r
    def _pge(self, p, depth):
        self.prep()
        for f in self.ges:
            k = (p - f).const()
            if k is not None and k >= 0: return True
        if depth <= 0: return False
        # special atoms
        for a in sorted(p.atoms(), reverse=True):
            at = ATOMS[a]
            if at.kind in ('min', 'max'):
                c, d = lin(p, a)
                if c is None: continue
                x, y = c * at.args[0] + d, c * at.args[1] + d
                up = at.kind == 'min'
                if self.prove_ge(c, depth - 1): s = 1
                elif self.prove_ge(-c, depth - 1): s = -1
                else: s = 0
                if (s > 0) == up or s == 0:
                    return self.prove_ge(x, depth - 1) and self.prove_ge(y, depth - 1)
                if self.prove_ge(x, depth - 1) or self.prove_ge(y, depth - 1): return True
                return False
            if at.kind == 'ite':
                g, x, y = at.args
                sa, sb = Subst({a: x}).poly(p), Subst({a: y}).poly(p)
                return self.add(g).prove_ge(sa, depth - 1) and self.add(c_not(g)).prove_ge(sb, depth - 1)
        if self._nonneg(p): return True
        # remainder pattern: x - m*div(x,m)
        for a in p.atoms():
            at = ATOMS[a]
            if at.kind == 'div':
                x, mdl = at.args
                for j in sorted(x.atoms(), reverse=True):
                    c, d = lin(x, j)
                    if c is None or c.const() not in (1, -1) or ATOMS[j].kind != 'sym': continue
                    if not occurs(p - P(at), {j}): continue
                    if lin(p, j)[0] is None: continue
                    q = P(at)
                    r = pfresh('rem', True)
                    xj = (mdl * q + r - d) * c.const()
                    p2 = _lin_subst(p, j, xj)
                    if p2 is None: continue
                    rid = list(r.atoms())[0]
                    c2 = self.add(ge0(r), ge0(mdl - 1 - r))
                    if c2.prove_ge(p2, depth - 1): return True
                    break
        # eliminate the most local bounded variable
        tried = 0
        for v in sorted(p.atoms(), reverse=True):
            at = ATOMS[v]
            if at.kind not in ('sym', 'div', 'LM', 'nlm'): continue
            lo, up = self.bounds(v)
            if not lo and not up: continue
            c, d = lin(p, v)
            if c is None:
                # quadratic: substitute v = U - s
                if at.kind == 'sym':
                    for u in up[:2]:
                        s = pfresh('s', True)
                        p2 = Subst({v: u - s}).poly(p)
                        sid = list(s.atoms())[0]
                        facts = [ge0(s)] + [ge0(u - s - l) for l in lo[:3]]
                        q = p2
                        while q.m and all(any(a == sid for a, _ in mo) for mo in q.m):
                            q = mul(q, inv(s))
                        if self.add(*facts).prove_ge(q, depth - 2): return True
                    for l in lo[:1]:
                        s = pfresh('s', True)
                        p2 = Subst({v: l + s}).poly(p)
                        if self.add(ge0(s), *[ge0(u - l - s) for u in up[:3]])._nonneg(p2): return True
                continue
            tried += 1
            if tried > 3: break
            if self.prove_ge(c, depth - 2):
                for l in lo[:4]:
                    if occurs(l, {v}): continue
                    if self.prove_ge(c * l + d, depth - 1): return True
            elif self.prove_ge(-c, depth - 2):
                for u in up[:4]:
                    if occurs(u, {v}): continue
                    if self.prove_ge(c * u + d, depth - 1): return True
            else:
                for l in lo[:2]:
                    for u in up[:2]:
                        if occurs(l, {v}) or occurs(u, {v}): continue
                        if self.prove_ge(c * l + d, depth - 2) and self.prove_ge(c * u + d, depth - 2): return True
        # disequalities: P >= 0 from P+1 >= 0 and P+1 != 0
        for f in self.facts:
            if f.k == 'not' and f.a[0].k == 'eq' and f.a[0].a[0].isint():
                q = f.a[0].a[0]
                if q is p + 1 or q is -(p + 1):
                    if self.prove_ge(p + 1, depth - 1): return True
        # disjunctive facts
        if depth >= 5:
            for f in self.facts:
                if f.k == 'or' and len(f.a) <= 3 and (_syms(f) & p.atoms()):
                    base = Ctx(tuple(x for x in self.facts if x is not f))
                    if all(base.add(x).prove_ge(p, depth - 2) for x in f.a): return True
            for f in self.ges:
                if f.atoms() & p.atoms():
                    q = p - f
                    if len(q.m) <= len(p.m) and self.prove_ge(q, depth - 3): return True
        return False
    def _nonneg(self, p):
        """substitute v = L + v' for constant lower bounds; all coefficients >= 0"""
        sub = {}
        for v in p.atoms():
            at = ATOMS[v]
            if at.kind == 'fn' or at.kind == 'elem': return all(c >= 0 for c in p.m.values()) and False
            lo = self.bounds(v)[0] if at.kind in ('sym', 'LM', 'nlm') else []
            best = None
            for l in lo:
                k = l.const()
                if k is not None and (best is None or k > best): best = k
            if best is None: return False
            sub[v] = P(at) + best
        q = Subst(sub).poly(p) if any((sub[v] - P(ATOMS[v])).const() != 0 for v in sub) else p
        return all(c >= 0 for c in q.m.values())

def _syms(c):
    s = set()
    walk_atoms(c, lambda a: s.add(a.id))
    return s

def c_true_gt(ctx, q):
    """q >= 0 from a recorded q > 0"""
    return gt0r(q) in ctx.facts

def lin(p, v):
    """(c, d) with p = c*v + d, or (None, None)"""
    c, d = {}, {}
    for mo, k in p.m.items():
        e = 0
        for a, x in mo:
            if a == v: e = x
        if e == 0: d[mo] = k
        elif e == 1: c[tuple(t for t in mo if t[0] != v)] = k
        else: return None, None
    c, d = mkpoly(c), mkpoly(d)
    if any(_inside(ATOMS[a], v) for q in (c, d) for a in q.atoms()): 
        return (c, d)
    return c, d
def _inside(at, v):
    return False
def _lin_subst(p, v, x):
    c, d = lin(p, v)
    if c is None: return None
    return c * x + d

def split_ge(p):
    """facts implied by p >= 0 after expanding min/max"""
    out = [p]
    for a in p.atoms():
        at = ATOMS[a]
        if at.kind in ('min', 'max'):
            c, d = lin(p, a)
            if c is None: continue
            k = c.const()
            if k is None: continue
            if (k > 0) == (at.kind == 'min'):
                r = []
                for x in at.args: r += split_ge(c * x + d)
                return r
    return out

def nonneg_real(p):
    """2: strictly positive, 1: >= 0, 0: unknown (real-valued polynomials)"""
    if p.const() is not None:
        return 2 if p.const() > 0 else (1 if p.const() == 0 else 0)
    r = 1
    for mo, c in p.m.items():
        s = 2 if c > 0 else 0
        for a, e in mo:
            k = atom_sign(ATOMS[a])
            if e % 2 == 0: k = max(k, 1) if k < 2 else 2
            s = min(s, k)
        if s == 0: return 0
        if s == 2: r = 2
    return r
def atom_sign(at):
    if at.kind == 'sym' and at.pos: return 2
    if at.kind == 'fn' and at.args[0] == 'exp': return 2
    if at.kind in ('sqrt', 'abs'): return 1
    if at.kind == 'inv': return 2 if nonneg_real(at.args[0]) == 2 else 0
    if at.kind == 'ite': return min(nonneg_real(at.args[1]), nonneg_real(at.args[2]))
    return 0

# ---------------------------------------------------------------- integer witnesses
class IEval:
    def __init__(self, asg): self.asg = asg; self.c = {}
    def poly(self, p):
        r = 0
        asg = self.asg
        for mo, c in p.m.items():
            t = c
            for a, e in mo:
                x = asg.get(a)
                if x is None: x = self.atom(ATOMS[a])
                if e == 1: t = t * x
                elif e > 0: t = t * x ** e
                elif x == 0: raise NoValue('div0')
                else: t = t * F(x) ** e
            r += t
        return r
    def atom(self, a):
        if a.id in self.asg: return self.asg[a.id]
        k = a.kind
        if k == 'min': return min(self.poly(x) for x in a.args)
        if k == 'max': return max(self.poly(x) for x in a.args)
        if k == 'div':
            m = self.poly(a.args[1])
            if m == 0: raise NoValue('div0')
            return math.floor(F(self.poly(a.args[0])) / m)
        if k == 'ite': return self.poly(a.args[1] if self.cond(a.args[0]) else a.args[2])
        if k == 'LM':
            lmax, l, m = (self.poly(x) for x in a.args)
            return F(m * (2 * lmax + 1 - m)) / 2 + l
        if k == 'nlm':
            lmax, mmax = (self.poly(x) for x in a.args)
            return (mmax + 1) * (lmax + 1) - F(mmax * (mmax + 1)) / 2
        if k == 'abs': return abs(self.poly(a.args[0]))
        raise NoValue(k)
    def cond(self, c):
        k = c.k
        if k == 'true': return True
        if k == 'false': return False
        if k == 'ge': return self.poly(c.a[0]) >= 0
        if k == 'gt': return self.poly(c.a[0]) > 0
        if k == 'eq': return self.poly(c.a[0]) == 0
        if k == 'not': return not self.cond(c.a[0])
        if k == 'and': return all(self.cond(x) for x in c.a)
        if k == 'or': return any(self.cond(x) for x in c.a)
        raise NoValue('op')

def leaf_syms(cs):
    out, bad = set(), []
    def f(a):
        if a.kind == 'sym': out.add(a.id)
        elif a.kind not in ('min', 'max', 'div', 'ite', 'LM', 'nlm', 'abs'): bad.append(a)
    for c in cs: walk_atoms(c, f)
    return out, bad

def is_int_cond(c):
    s, bad = leaf_syms([c])
    return not bad and all(ATOMS[a].isint for a in s) and not _has_op(c)
def _has_op(c):
    if c.k == 'op': return True
    return any(isinstance(x, Cond) and _has_op(x) for x in c.a)

def sample(ctx, seed=1, maxval=14, tries=300):
    """random assignment {atom id: int} of the integer symbols satisfying the integer facts of ctx"""
    fs = [f for f in ctx.facts if is_int_cond(f)]
    return witness(Ctx(()), fs, tries, seed, maxval, ids=True) if fs else {}

def const_bounds(c, syms):
    """numeric lower and upper bounds of the symbols, by propagation through the linear facts"""
    c.prep()
    rows = []
    for f in c.ges:
        co, c0, ok = {}, 0, True
        for mo, k in f.m.items():
            if not mo: c0 = k
            elif len(mo) == 1 and mo[0][1] == 1 and mo[0][0] in syms: co[mo[0][0]] = k
            else: ok = False; break
        if ok: rows.append((co, c0))
    lo, up = {}, {}
    for _ in range(6):
        chg = False
        for co, c0 in rows:
            for v, k in co.items():
                # k v >= -c0 - (largest value of the rest)
                rest = c0
                for w, q in co.items():
                    if w == v: continue
                    b = (up if q > 0 else lo).get(w)
                    if b is None: rest = None; break
                    rest += q * b
                if rest is None: continue
                x = -rest / k
                if k > 0:
                    x = math.ceil(x)
                    if v not in lo or x > lo[v]: lo[v] = x; chg = True
                else:
                    x = math.floor(x)
                    if v not in up or x < up[v]: up[v] = x; chg = True
        if not chg: break
    return lo, up
def witness(ctx, extra, tries=1500, seed=1, maxval=14, ids=False):
    """integer assignment satisfying the integer facts of ctx and all of extra; None if not found.
    Facts that are not integer-decidable but mention the same symbols make the search give up."""
    facts = [f for f in ctx.facts]
    need = [x for x in extra]
    for x in need:
        if not is_int_cond(x): return None
    syms, _ = leaf_syms(need)
    use, skipped = [], []
    chg = True
    pool = list(facts)
    while chg:
        chg = False
        for f in list(pool):
            s, bad = leaf_syms([f])
            if s & syms or not s:
                pool.remove(f)
                if is_int_cond(f):
                    use.append(f); syms |= s; chg = True
                else: skipped.append(f)
    for f in skipped:
        # an undecidable fact about the same integers: only harmless when it also
        # depends on other (real/opaque) data that is free
        s, bad = leaf_syms([f])
        if not bad and not any(not ATOMS[a].isint for a in s) and not _has_op(f): return None
    rng = random.Random(seed)
    order = sorted(syms)
    c2 = Ctx(tuple(use + need))
    clo, cup = const_bounds(c2, order)
    cap = max([60] + [2 * x for x in clo.values()])
    wide = 0
    for t in range(tries + (240 if order else 0)):
        asg = {}
        ok = True
        if t >= tries:
            # nothing found among small values: large ones
            wide = (80, 400, 2000, 70000)[(t - tries) % 4]; cap = max(cap, 2 * wide)
        for v in order:
            lo, up = c2.bounds(v)
            L, U = None, None
            ev = IEval(asg)
            for b in lo:
                try: x = math.ceil(ev.poly(b))
                except NoValue: continue
                L = x if L is None else max(L, x)
            for b in up:
                try: x = math.floor(ev.poly(b))
                except NoValue: continue
                U = x if U is None else min(U, x)
            if v in clo: L = clo[v] if L is None else max(L, clo[v])
            if v in cup: U = cup[v] if U is None else min(U, cup[v])
            if L is None and U is None: L, U = 0, maxval
            elif L is None: L = U - maxval
            elif U is None: U = L + (wide if wide else maxval if t % 2 or ids and t < 60 else 3)
            if L > U: ok = False; break
            r = rng.random()
            e = (0.3, 0.1, 0.03)[seed % 3 if ids else 0]
            asg[v] = rng.randint(max(L, (L + U) // 2), U) if wide and r > 0.6 else L if r < e else (U if r < 5 * e / 3 else rng.randint(L, min(U, L + cap)))
        if not ok: continue
        ev = IEval(asg)
        try:
            if all(ev.cond(c) for c in use) and all(ev.cond(c) for c in need):
                return asg if ids else {ATOMS[k].args[0]: v for k, v in asg.items()}
        except NoValue:
            return None
    return None
