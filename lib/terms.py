"""Value domain: hash-consed polynomials (rational coefficients, integer
exponents of either sign) over structured atoms, boolean conditions and array
terms.  Equality is decided by evaluating terms in a prime field at several
random valuations of the atoms (randomised global value numbering); real-valued
evaluation at random points is used only to confirm that two terms differ."""
from fractions import Fraction as F
import hashlib, math, random, itertools, struct, time

# prime = -1 modulo 4*2*3*5*...*31: every positive rational built from small
# primes is a quadratic residue, so "residue" behaves like "positive"
PR = 903244148614715249829046559
NS = 10
_HALF = (PR - 1) // 2

def _h(*a):
    d = hashlib.blake2b(repr(a).encode(), digest_size=16).digest()
    return int.from_bytes(d, 'big') % PR

def qr(v):
    return v == 0 or pow(v, _HALF, PR) == 1

_counter = itertools.count(1)
_acounter = itertools.count(10**8)
ATOMS = []

class Top(Exception):
    pass

class Atom:
    __slots__ = ('id', 'kind', 'args', 'isint', 'pos', '_fp', 'key', 'lvl')
    def __repr__(self):
        return astr(self)

_atoms = {}
def _k(a):
    """hash-consing key of an argument"""
    if isinstance(a, (Poly, Cond, Arr)):
        return ('#', a.uid)
    if isinstance(a, Atom):
        return ('@', a.id)
    if isinstance(a, Cx):
        return ('cx', a.re.uid, a.im.uid)
    if isinstance(a, tuple):
        return tuple(_k(x) for x in a)
    return a

def atom(kind, *args, isint=False, pos=False):
    key = (kind, isint, pos) + tuple(_k(a) for a in args)
    r = _atoms.get(key)
    if r is None:
        r = Atom()
        r.id = len(ATOMS); r.kind = kind; r.args = args; r.isint = isint; r.pos = pos
        r._fp = None; r.key = key; r.lvl = None
        ATOMS.append(r)
        _atoms[key] = r
    return r

def fps(x):
    """fingerprint vector of any argument"""
    if isinstance(x, Poly): return x.fp()
    if isinstance(x, Atom): return afp(x)
    if isinstance(x, Cond): return x.fp()
    if isinstance(x, Arr): return x.fp()
    if isinstance(x, Cx):
        a, b = x.re.fp(), x.im.fp()
        return [None if p is None or q is None else _h('cx', p, q) for p, q in zip(a, b)]
    if isinstance(x, tuple):
        L = [fps(y) for y in x]
        return [None if any(l[s] is None for l in L) else _h('t', tuple(l[s] for l in L)) for s in range(NS)]
    v = _h('c', x)
    return [v] * NS

def afp(a):
    if a._fp is not None:
        return a._fp
    k = a.kind
    out = []
    if k == 'sym':
        for s in range(NS):
            v = _h('sym', a.args, s)
            if a.pos: v = v * v % PR
            out.append(v)
    elif k == 'sqrt':
        for v in a.args[0].fp():
            if v is None or not qr(v): out.append(None)
            else: out.append(pow(v, (PR + 1) // 4, PR))
    elif k == 'abs':
        for v in a.args[0].fp():
            out.append(None if v is None else (v if qr(v) else PR - v))
    elif k == 'inv':
        for v in a.args[0].fp():
            out.append(None if v is None or v == 0 else pow(v, -1, PR))
    elif k == 'grp':
        out = list(a.args[0].fp())
    else:
        L = [fps(x) for x in a.args]
        for s in range(NS):
            if any(l[s] is None for l in L): out.append(None)
            else: out.append(_h(k, s if k == 'fresh' else 0, tuple(l[s] for l in L)))
    a._fp = out
    return out

# ---------------------------------------------------------------- polynomials
_polys = {}
_uid = itertools.count(1)

class Poly:
    __slots__ = ('m', 'uid', '_fp', '_key', '_int')
    def __repr__(self): return pstr(self)
    def __hash__(self): return self.uid
    def __eq__(self, o): return self is o
    def fp(self):
        if self._fp is None:
            out = []
            for s in range(NS):
                tot = 0
                for mono, c in self.m.items():
                    v = c.numerator % PR
                    if c.denominator != 1: v = v * pow(c.denominator, -1, PR) % PR
                    for aid, e in mono:
                        f = afp(ATOMS[aid])[s]
                        if f is None or (f == 0 and e < 0): v = None; break
                        v = v * pow(f, e, PR) % PR
                    if v is None: tot = None; break
                    tot = (tot + v) % PR
                out.append(tot)
            self._fp = out
        return self._fp
    def isconst(self):
        return not self.m or (len(self.m) == 1 and () in self.m)
    def const(self):
        if not self.m: return F(0)
        if len(self.m) == 1 and () in self.m: return F(self.m[()])
        return None
    def isint(self):
        """integer valued (all atoms integer, integer coefficients)"""
        if self._int is None:
            self._int = all(c.denominator == 1 and all(e > 0 and ATOMS[a].isint for a, e in mo) for mo, c in self.m.items())
        return self._int
    def atoms(self):
        s = set()
        for mo in self.m:
            for a, _ in mo: s.add(a)
        return s
    def single(self):
        """the atom if this poly is exactly one atom"""
        if len(self.m) == 1:
            (mo, c), = self.m.items()
            if c == 1 and len(mo) == 1 and mo[0][1] == 1:
                return ATOMS[mo[0][0]]
        return None
    def __add__(self, o): return add(self, P(o))
    __radd__ = __add__
    def __neg__(self): return neg(self)
    def __sub__(self, o): return sub(self, o if type(o) is Poly else P(o))
    def __rsub__(self, o): return sub(P(o), self)
    def __mul__(self, o): return mul(self, P(o))
    __rmul__ = __mul__
    def __truediv__(self, o): return mul(self, inv(P(o)))
    def __rtruediv__(self, o): return mul(P(o), inv(self))
    def __pow__(self, n): return power(self, n)

def mkpoly(d):
    # integral coefficients are kept as machine integers
    d = {m: (c if type(c) is int else c.numerator if c.denominator == 1 else c) for m, c in d.items() if c}
    key = frozenset(d.items())
    r = _polys.get(key)
    if r is None:
        r = Poly(); r.m = d; r.uid = next(_uid); r._fp = None; r._key = key; r._int = None
        _polys[key] = r
    return r

def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, Atom): return mkpoly({((x.id, 1),): F(1)})
    if isinstance(x, bool): return mkpoly({(): F(int(x))})
    if isinstance(x, int): return mkpoly({(): F(x)})
    if isinstance(x, F): return mkpoly({(): x})
    if isinstance(x, float): return mkpoly({(): F(repr(x))})
    if isinstance(x, Cond): return ite(x, ONE, ZERO)
    raise TypeError(repr(x))

ZERO = None
ONE = None
MAXMON = 4000

def add(a, b):
    if not a.m: return b
    if not b.m: return a
    d = dict(a.m)
    for m, c in b.m.items():
        d[m] = d.get(m, 0) + c
    return mkpoly(d)

_neg = {}
def neg(a):
    r = _neg.get(a.uid)
    if r is None:
        r = _neg[a.uid] = mkpoly({m: -c for m, c in a.m.items()})
        _neg[r.uid] = a
    return r
def sub(a, b):
    if not b.m: return a
    if not a.m: return neg(b)
    if a is b: return ZERO
    d = dict(a.m)
    for m, c in b.m.items(): d[m] = d.get(m, 0) - c
    return mkpoly(d)
def scale(a, c):
    if c == -1: return neg(a)
    return mkpoly({m: k * c for m, k in a.m.items()})

_mm = {}
def mmul(x, y):
    if not x: return y
    if not y: return x
    k = (x, y)
    r = _mm.get(k)
    if r is None:
        d = dict(x)
        for a, e in y:
            d[a] = d.get(a, 0) + e
        r = tuple(sorted((a, e) for a, e in d.items() if e))
        _mm[k] = r
    return r

def mul(a, b):
    if not a.m or not b.m: return ZERO
    if len(a.m) * len(b.m) > MAXMON:
        if len(a.m) >= len(b.m): a = P(atom('grp', a))
        else: b = P(atom('grp', b))
        return mul(a, b)
    d = {}
    for m1, c1 in a.m.items():
        for m2, c2 in b.m.items():
            m = mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    # sqrt(x)^2 -> x ; abs(x)^2 -> x^2
    r = mkpoly(d)
    return _reduce(r)

def _reduce(p):
    todo = None
    for mo in p.m:
        for a, e in mo:
            at = ATOMS[a]
            if (at.kind == 'sqrt' and abs(e) >= 2) or (at.kind == 'abs' and e >= 2):
                todo = True; break
        if todo: break
    if not todo: return p
    out = ZERO
    for mo, c in p.m.items():
        t = mkpoly({(): c}); rest = []
        for a, e in mo:
            at = ATOMS[a]
            if at.kind == 'sqrt' and abs(e) >= 2:
                q, r = divmod(abs(e), 2)
                s = power(at.args[0], q if e > 0 else -q)
                t = mul(t, s)
                if r: rest.append((a, 1 if e > 0 else -1))
            elif at.kind == 'abs' and e >= 2:
                q, r = divmod(e, 2)
                t = mul(t, power(at.args[0], 2 * q))
                if r: rest.append((a, 1))
            else:
                rest.append((a, e))
        if rest: t = mul(t, mkpoly({tuple(rest): F(1)}))
        out = add(out, t)
    return out

def inv(a):
    if not a.m:
        return P(atom('undef', 'division by zero'))
    if len(a.m) == 1:
        (mo, c), = a.m.items()
        return mkpoly({tuple((x, -e) for x, e in mo): F(1) / c})
    it = a.single()
    # normalise by a leading coefficient
    lead = min(a.m.items(), key=lambda t: t[0])
    c = lead[1]
    return mkpoly({((atom('inv', scale(a, F(1) / c)).id, 1),): F(1) / c})

def power(a, n):
    if n == 0: return ONE
    if n < 0: return power(inv(a), -n)
    r = ONE
    b = a
    while n:
        if n & 1: r = mul(r, b)
        n >>= 1
        if n: b = mul(b, b)
    return r

ZERO = mkpoly({})
ONE = mkpoly({(): F(1)})

def sym(name, isint=False, pos=False):
    return P(atom('sym', name, isint=isint, pos=pos))
def fresh(name, isint=False):
    return P(atom('sym', '%s%%%d' % (name, next(_counter)), isint=isint))
_pcounter = itertools.count(10**9)
def pfresh(name, isint=False):
    """symbol of a proof attempt (attempts are cached: their symbols must not shift the numbering of values)"""
    return P(atom('sym', '%s%%%d' % (name, next(_pcounter)), isint=isint))
def top(reason):
    return P(atom('top', '%s%%%d' % (reason, next(_counter))))
def const(c): return P(F(c))

# ---------------------------------------------------------------- functions
def issquare(q):
    if q < 0: return None
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator: return F(n, d)
    return None

def sqrt(a):
    c = a.const()
    if c is not None:
        r = issquare(c)
        if r is not None: return P(r)
    if len(a.m) == 1:
        (mo, c), = a.m.items()
        if c > 0 and mo and all(e % 2 == 0 for _, e in mo):
            r = issquare(c)
            t = absv(mkpoly({tuple((x, e // 2) for x, e in mo): F(1)}))
            return t * r if r is not None else t * sqrt(P(c))
    return P(atom('sqrt', a))

def absv(a):
    c = a.const()
    if c is not None: return P(abs(c))
    if len(a.m) == 1:
        (mo, c), = a.m.items()
        out = mkpoly({(): abs(c)})
        for x, e in mo:
            at = ATOMS[x]
            if at.kind in ('sqrt', 'abs', 'exp') or at.pos or e % 2 == 0:
                out = mul(out, mkpoly({((x, e),): F(1)}))
            else:
                ab = P(atom('abs', P(at)))
                out = mul(out, power(ab, e) if e > 0 else inv(power(ab, -e)))
        return out
    lead = min(a.m.items(), key=lambda t: t[0])
    if lead[1] < 0: a = -a
    return P(atom('abs', a))

def powr(a, b):
    c = b.const()
    if c is not None:
        if c.denominator == 1 and abs(c) <= 64: return power(a, int(c))
        if c.denominator == 2 and abs(c) <= 16: return power(sqrt(a), int(c * 2))
    if a.const() == 1: return ONE
    return P(atom('pow', a, b))

FOLD0 = {'sin': 0, 'cos': 1, 'tan': 0, 'exp': 1, 'asin': 0, 'atan': 0, 'sinh': 0, 'cosh': 1, 'tanh': 0}
EVEN, ODD = {'cos', 'cosh'}, {'sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'cbrt', 'erf'}

def f32(v):
    try: return struct.unpack('f', struct.pack('f', v))[0]
    except (OverflowError, struct.error): return float('inf')

def fn(name, *args):
    if name == 'sqrt': return sqrt(args[0])
    if name in ('fabs', 'abs'): return absv(args[0])
    if name == 'pow': return powr(*args)
    a = args[0]
    if name == 'f32':
        c, g = a.const(), a.single()
        if c is not None and F(f32(float(c))) == c or a.isint() or g is not None and g.kind == 'fn' and g.args[0] == 'f32': return a
    if name in FOLD0 and a.const() == 0: return P(FOLD0[name])
    if name == 'log' and a.const() == 1: return ZERO
    if (name in EVEN or name in ODD) and a.m:
        lead = min(a.m.items(), key=lambda t: t[0])
        if lead[1] < 0:
            r = P(atom('fn', name, -a))
            return r if name in EVEN else -r
    if name == 'log':
        s = a.single()
        if s is not None and s.kind == 'fn' and s.args[0] == 'exp': return s.args[1]
    return P(atom('fn', name, *args))

# ---------------------------------------------------------------- complex
class Cx:
    __slots__ = ('re', 'im')
    def __init__(s, re, im): s.re = P(re); s.im = P(im)
    def __repr__(s): return '(%s + i*%s)' % (s.re, s.im)
    def __add__(s, o): o = C(o); return Cx(s.re + o.re, s.im + o.im)
    __radd__ = __add__
    def __neg__(s): return Cx(-s.re, -s.im)
    def __sub__(s, o): o = C(o); return Cx(s.re - o.re, s.im - o.im)
    def __rsub__(s, o): return C(o) - s
    def __mul__(s, o):
        o = C(o); return Cx(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)
    __rmul__ = __mul__
    def norm(s): return s.re * s.re + s.im * s.im
    def conj(s): return Cx(s.re, -s.im)
    def __truediv__(s, o):
        if isinstance(o, Cx):
            if o.im is ZERO: return Cx(s.re / o.re, s.im / o.re)
            d = o.norm(); n = s * o.conj(); return Cx(n.re / d, n.im / d)
        return Cx(s.re / o, s.im / o)
    def __rtruediv__(s, o): return C(o) / s
def C(x):
    return x if isinstance(x, Cx) else Cx(P(x), ZERO)

# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ('k', 'a', 'uid', '_fp')
    def __repr__(self): return cstr(self)
    def __hash__(self): return self.uid
    def __eq__(self, o): return self is o
    def fp(self):
        if self._fp is None:
            if self.k in ('and', 'or'):
                L = [fps(x) for x in self.a]
                self._fp = [None if any(l[s] is None for l in L) else _h(self.k, tuple(sorted(l[s] for l in L))) for s in range(NS)]
            else:
                L = [fps(x) for x in self.a]
                self._fp = [None if any(l[s] is None for l in L) else _h(self.k, tuple(l[s] for l in L)) for s in range(NS)]
        return self._fp
_conds = {}
def mkcond(k, *a):
    key = (k,) + tuple(_k(x) for x in a)
    r = _conds.get(key)
    if r is None:
        r = Cond(); r.k = k; r.a = a; r.uid = next(_uid); r._fp = None
        _conds[key] = r
    return r
TRUE = mkcond('true')
FALSE = mkcond('false')
def B(x):
    if isinstance(x, Cond): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, (Poly, int)): return c_not(eq0(P(x)))
    raise TypeError(repr(x))

def ge0(p, integer=None):
    """p >= 0"""
    p = P(p)
    c = p.const()
    if c is not None: return TRUE if c >= 0 else FALSE
    s = p.single()
    if s is not None and s.kind == 'ite' and False: pass
    if p.isint() if integer is None else integer:
        g = 0
        for mo, c in p.m.items():
            if mo: g = math.gcd(g, int(c)) if c.denominator == 1 else 1
        if g > 1:
            k = p.m.get((), F(0))
            p = mkpoly({mo: (F(c) / g if mo else F(math.floor(F(k) / g))) for mo, c in {**p.m, (): k}.items()})
        return mkcond('ge', p)
    # real: not(-p > 0)
    return c_not(gt0r(-p))
def gt0r(p):
    c = p.const()
    if c is not None: return TRUE if c > 0 else FALSE
    # strip positive scale
    lead = max(abs(c) for c in p.m.values())
    return mkcond('gt', scale(p, F(1) / lead))
def gt0(p):
    p = P(p)
    if p.isint(): return ge0(p - 1)
    return gt0r(p)
def eq0(p):
    p = P(p)
    c = p.const()
    if c is not None: return TRUE if c == 0 else FALSE
    lead = min(p.m.items(), key=lambda t: t[0])[1]
    if p.isint():
        g = 0
        for mo, c in p.m.items():
            if mo: g = math.gcd(g, int(c))
        k = p.m.get((), F(0))
        if k % g != 0: return FALSE
        if lead < 0: g = -g
        return mkcond('eq', scale(p, F(1, g)))
    return mkcond('eq', scale(p, F(1) / lead))
def c_not(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.k == 'not': return c.a[0]
    if c.k == 'ge': return ge0(-c.a[0] - 1, True)
    if c.k == 'and': return c_or(*[c_not(x) for x in c.a])
    if c.k == 'or': return c_and(*[c_not(x) for x in c.a])
    return mkcond('not', c)
def _flat(k, cs):
    out = []
    for c in cs:
        if c.k == k: out.extend(c.a)
        else: out.append(c)
    r = []
    for c in out:
        if c not in r: r.append(c)
    return r
def c_and(*cs):
    L = _flat('and', cs)
    L = [c for c in L if c is not TRUE]
    if any(c is FALSE for c in L): return FALSE
    for c in L:
        if c_not_simple(c) in L: return FALSE
    if not L: return TRUE
    if len(L) == 1: return L[0]
    return mkcond('and', *sorted(L, key=lambda c: c.uid))
def c_not_simple(c):
    if c.k == 'not': return c.a[0]
    if c.k == 'ge': return ge0(-c.a[0] - 1, True)
    if c.k in ('and', 'or'): return None
    return mkcond('not', c)
def c_or(*cs):
    L = _flat('or', cs)
    L = [c for c in L if c is not FALSE]
    if any(c is TRUE for c in L): return TRUE
    for c in L:
        if c_not_simple(c) in L: return TRUE
    if not L: return FALSE
    if len(L) == 1: return L[0]
    # (a and b) or (a and not b) -> a
    if len(L) == 2:
        x, y = L
        sx = set(x.a) if x.k == 'and' else {x}
        sy = set(y.a) if y.k == 'and' else {y}
        if sx <= sy: return x
        if sy <= sx: return y
        dx, dy = sx - sy, sy - sx
        if len(dx) == 1 and len(dy) == 1:
            a, = dx; b, = dy
            if c_not(a) is b: return c_and(*(sx & sy))
    return mkcond('or', *sorted(L, key=lambda c: c.uid))
def opaque(name, *args):
    return mkcond('op', name, *args)

# ---------------------------------------------------------------- ite / min / max / div
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = C(a), C(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, Cond) or isinstance(b, Cond):
        a, b = B(a), B(b)
        return c_or(c_and(c, a), c_and(c_not(c), b))
    a, b = P(a), P(b)
    if a is b: return a
    s = a.single()
    if s is not None and s.kind == 'ite':
        if s.args[0] is c: a = s.args[1]
        elif s.args[0] is c_not(c): a = s.args[2]
    s = b.single()
    if s is not None and s.kind == 'ite':
        if s.args[0] is c: b = s.args[2]
        elif s.args[0] is c_not(c): b = s.args[1]
    if a is b: return a
    if c.k == 'not': return ite(c.a[0], b, a)
    if c.k == 'ge' and a.isint() and b.isint():
        k = (c.a[0] - (b - a)).const()
        if k in (0, -1): return pmin(a, b)
        k = (c.a[0] - (a - b)).const()
        if k in (0, -1): return pmax(a, b)
    return P(atom('ite', c, a, b, isint=a.isint() and b.isint()))

def pmin(a, b):
    if a is b: return a
    d = (a - b).const()
    if d is not None: return a if d <= 0 else b
    x, y = sorted((a, b), key=lambda p: p.uid)
    return P(atom('min', x, y, isint=a.isint() and b.isint()))
def pmax(a, b):
    if a is b: return a
    d = (a - b).const()
    if d is not None: return b if d <= 0 else a
    x, y = sorted((a, b), key=lambda p: p.uid)
    return P(atom('max', x, y, isint=a.isint() and b.isint()))

# ---------------------------------------------------------------- arrays
class Arr:
    __slots__ = ('k', 'a', 'uid', '_fp', 'et', 'nd')
    def __repr__(self): return arrstr(self)
    def __hash__(self): return self.uid
    def __eq__(self, o): return self is o
    def fp(self):
        if self._fp is None:
            L = [fps(x) for x in self.a]
            self._fp = [None if any(l[s] is None for l in L) else _h('arr', self.k, tuple(l[s] for l in L)) for s in range(NS)]
        return self._fp
_arrs = {}
def mkarr(k, et, *a, nd=1):
    """et: element type 'real','int','cplx','bool','other'"""
    key = (k, et, nd) + tuple(_k(x) for x in a)
    r = _arrs.get(key)
    if r is None:
        r = Arr(); r.k = k; r.a = a; r.uid = next(_uid); r._fp = None; r.et = et; r.nd = nd
        _arrs[key] = r
    return r

def elem(A, idx):
    """opaque element of an array term"""
    idx = tuple(idx)
    if A.et == 'cplx':
        return Cx(P(atom('re', A, idx)), P(atom('im', A, idx)))
    if A.et == 'bool':
        return opaque('elem', A, idx)
    return P(atom('elem', A, idx, isint=(A.et == 'int')))

# ---------------------------------------------------------------- substitution
class Subst:
    """replaces atoms (by id) with Polys everywhere below"""
    def __init__(self, mp, arrmp=None):
        self.mp = {(k.id if isinstance(k, Atom) else k): P(v) for k, v in mp.items()}
        self.arr = arrmp or {}
        self.pc, self.ac, self.cc, self.rc = {}, {}, {}, {}
    def poly(self, p):
        r = self.pc.get(p)
        if r is not None: return r
        changed = {}
        for a in p.atoms():
            q = self.atom(ATOMS[a])
            if q.single() is not ATOMS[a]: changed[a] = q
        if not changed: r = p
        else:
            r = ZERO
            for mo, c in p.m.items():
                if not any(a in changed for a, _ in mo):
                    r = add(r, mkpoly({mo: c})); continue
                t = mkpoly({(): c}); rest = []
                for a, e in mo:
                    if a in changed: t = mul(t, power(changed[a], e))
                    else: rest.append((a, e))
                if rest: t = mul(t, mkpoly({tuple(rest): F(1)}))
                r = add(r, t)
        self.pc[p] = r
        return r
    def atom(self, a):
        q = self.mp.get(a.id)
        if q is not None: return q
        q = self.ac.get(a.id)
        if q is None:
            if a.kind in ('sum', 'maxof', 'fold'): q = self.binding(a)
            else: q = rebuild(a, [self.any(x) for x in a.args])
            self.ac[a.id] = q
        return q
    def touches(self, x):
        return occurs(x, set(self.mp)) or (bool(self.arr) and occurs_arr(x, self.arr))
    def under(self, b, size, body):
        """(fresh symbol, size', body') with the binder b opened"""
        s2 = self
        if b.id in self.mp:
            s2 = Subst({k: v for k, v in self.mp.items() if k != b.id}, self.arr)
        j = fresh('j', True)
        body = Subst({b: j}).any(body)
        return j, self.any(size), s2.any(body)
    def binding(self, a):
        b, N, body = a.args[:3]
        rest = a.args[3:]
        if not self.touches((N, body, rest)): return P(a)
        if a.kind == 'fold':
            ac = fresh('acc'); body = Subst({rest[1]: ac}).any(body)
            j, N2, body2 = self.under(b, N, body)
            return MKFOLD(j, N2, body2, self.any(rest[0]), ac)
        j, N2, body2 = self.under(b, N, body)
        if a.kind == 'sum': return MKSUM(j, N2, body2)
        return MKMAX(j, N2, body2, self.any(rest[0]))
    def cond(self, c):
        if c in self.cc: return self.cc[c]
        k = c.k
        if k == 'ge': r = ge0(self.poly(c.a[0]), True if self.poly(c.a[0]).isint() else None)
        elif k == 'gt': r = gt0r(self.poly(c.a[0]))
        elif k == 'eq': r = eq0(self.poly(c.a[0]))
        elif k == 'not': r = c_not(self.cond(c.a[0]))
        elif k == 'and': r = c_and(*[self.cond(x) for x in c.a])
        elif k == 'or': r = c_or(*[self.cond(x) for x in c.a])
        elif k == 'op': r = opaque(*[self.any(x) for x in c.a])
        else: r = c
        self.cc[c] = r
        return r
    def array(self, A):
        if A in self.arr: return self.arr[A]
        if A in self.rc: return self.rc[A]
        if A.k == 'lam':
            if not self.touches(A.a[1:]): r = A
            else:
                j, n, body = self.under(*A.a)
                r = MKLAM(j, n, body, A.et)
            self.rc[A] = r
            return r
        if A.k == 'rec' and A.a[1].id in self.mp:
            r = Subst({k: v for k, v in self.mp.items() if k != A.a[1].id}, self.arr).array(A)
            self.rc[A] = r
            return r
        na = [self.any(x) for x in A.a]
        if all(x is y or x == y for x, y in zip(na, A.a)): r = A
        else: r = rebuild_arr(A, na)
        self.rc[A] = r
        return r
    def any(self, x):
        if isinstance(x, Poly): return self.poly(x)
        if isinstance(x, Cond): return self.cond(x)
        if isinstance(x, Arr): return self.array(x)
        if isinstance(x, Cx): return Cx(self.poly(x.re), self.poly(x.im))
        if isinstance(x, tuple): return tuple(self.any(y) for y in x)
        if isinstance(x, Atom):
            r = self.atom(x); s = r.single()
            return s if s is not None else r
        return x

MKLAM = MKSUM = MKMAX = MKFOLD = None
def occurs_arr(x, arrs):
    seen = set()
    def go(x):
        if isinstance(x, Arr) and x in arrs: return True
        if isinstance(x, (Poly, Cond, Arr)):
            if x in seen: return False
            seen.add(x)
            if isinstance(x, Poly): return any(go(ATOMS[a]) for a in x.atoms())
            return any(go(y) for y in x.a)
        if isinstance(x, Atom):
            if ('a', x.id) in seen: return False
            seen.add(('a', x.id))
            return any(go(y) for y in x.args)
        if isinstance(x, Cx): return go(x.re) or go(x.im)
        if isinstance(x, tuple): return any(go(y) for y in x)
        return False
    return go(x)
REBUILD_ELEM = None  # set by arrays.py: re-read an element after substitution
def rebuild(a, args):
    k = a.kind
    if all(x is y for x, y in zip(args, a.args)): return P(a)
    if k == 'sqrt': return sqrt(args[0])
    if k == 'abs': return absv(args[0])
    if k == 'inv': return inv(args[0])
    if k == 'grp': return args[0] if len(args[0].m) <= 60 else P(atom('grp', args[0]))
    if k == 'pow': return powr(*args)
    if k == 'fn': return fn(*args)
    if k == 'ite': return ite(*args)
    if k == 'min': return pmin(*args)
    if k == 'max': return pmax(*args)
    if k == 'div': return mkdiv(*args)
    if k in ('elem', 're', 'im'):
        if REBUILD_ELEM is not None:
            v = REBUILD_ELEM(args[0], args[1])
            if k == 'elem': return P(v) if not isinstance(v, Cx) else v.re
            return C(v).re if k == 're' else C(v).im
    return P(atom(k, *args, isint=a.isint, pos=a.pos))
def rebuild_arr(A, na):
    return mkarr(A.k, A.et, *na, nd=A.nd)

def mkdiv(p, m):
    """floor division of integer polynomials; exact parts are pulled out"""
    if m.const() == 1: return p
    if p.const() is not None and m.const() is not None:
        return P(F(p.const() // m.const()))
    if len(m.m) == 1:
        (mm, mc), = m.m.items()
        q, r = {}, {}
        md = dict(mm)
        for mo, c in p.m.items():
            d = dict(mo)
            if all(d.get(a, 0) >= e for a, e in md.items()) and (F(c) / mc).denominator == 1:
                for a, e in md.items(): d[a] -= e
                q[tuple(sorted((a, e) for a, e in d.items() if e))] = F(c) / mc
            else: r[mo] = c
        if q:
            R = mkpoly(r)
            return mkpoly(q) + (mkdiv(R, m) if R is not ZERO else ZERO)
    return P(atom('div', p, m, isint=True))

def occurs(x, ids, memo=None):
    """does any of the atoms occur in x"""
    if memo is None: memo = {}
    def go(x):
        if isinstance(x, (Poly, Cond, Arr)):
            if x in memo: return memo[x]
            memo[x] = False
            if isinstance(x, Poly):
                r = any(a in ids or go(ATOMS[a]) for a in x.atoms())
            else:
                r = any(go(y) for y in x.a)
            memo[x] = r
            return r
        if isinstance(x, Atom):
            if x.id in ids: return True
            k = ('a', x.id)
            if k not in memo:
                memo[k] = False
                memo[k] = any(go(y) for y in x.args)
            return memo[k]
        if isinstance(x, Cx): return go(x.re) or go(x.im)
        if isinstance(x, tuple): return any(go(y) for y in x)
        return False
    return go(x)

def walk_atoms(x, f, seen=None):
    """calls f(atom) for every atom below x (including inside arrays)"""
    if seen is None: seen = set()
    if isinstance(x, (Poly, Cond, Arr)):
        if ('o', x.uid) in seen: return
        seen.add(('o', x.uid))
        if isinstance(x, Poly):
            for a in x.atoms(): walk_atoms(ATOMS[a], f, seen)
        else:
            for y in x.a: walk_atoms(y, f, seen)
    elif isinstance(x, Atom):
        if ('a', x.id) in seen: return
        seen.add(('a', x.id))
        f(x)
        for y in x.args: walk_atoms(y, f, seen)
    elif isinstance(x, Cx):
        walk_atoms(x.re, f, seen); walk_atoms(x.im, f, seen)
    elif isinstance(x, (tuple, list)):
        for y in x: walk_atoms(y, f, seen)

def has_kind(x, kinds):
    hit = []
    walk_atoms(x, lambda a: hit.append(a) if a.kind in kinds else None)
    return hit

def tops(x):
    return has_kind(x, ('top',))

# ---------------------------------------------------------------- numeric evaluation
class NoValue(Exception): pass

RECFREE = {}
class Num:
    """evaluates terms over the reals at one random point"""
    hp = False
    recs = {}
    over = {}
    last = None
    zoom = None      # factor applied to every real value
    def __init__(self, seed, given=None):
        self.r = seed
        self.m = mpm() if self.hp else math
        self.given = given or {}
        self.c = {}
        self.shared = {}
    def lit(self, c):
        if not self.hp: return float(c)
        return self.m.mpf(c.numerator) / c.denominator
    def rnd(self, v):
        return int(self.m.floor(v * 1000000 + 0.5)) if abs(v) < 1e6 else '%.9e' % float(v)
    def leaf(self, *key, isint=False, pos=False):
        self.last = key
        if key in self.over: return self.over[key]
        h = hashlib.blake2b(repr((self.r,) + key).encode(), digest_size=8).digest()
        u = int.from_bytes(h, 'big') / 2.0**64
        if isint: return float(int(3 + (3 if self.zoom else 40) * u))
        v = 0.3 + 1.5 * u if pos else -1.6 + 3.2 * u
        return v * self.zoom if self.zoom else v
    def poly(self, p):
        v = self.c.get(p)
        if v is None:
            v = 0.0
            for mo, c in p.m.items():
                t = self.lit(c)
                for a, e in mo:
                    x = self.atom(ATOMS[a])
                    if x == 0 and e < 0: raise NoValue('div0')
                    t *= x ** e
                v += t
            if v != v or abs(v) == float('inf') or isinstance(v, complex): raise NoValue('nan')
            self.c[p] = v
        return v
    def msqrt(self, x):
        if x < 0: raise NoValue('sqrt')
        return self.m.sqrt(x)
    def atom(self, a):
        if a.id in self.given: return self.given[a.id]
        k = ('A', a.id)
        if k in self.c: return self.c[k]
        v = self._atom(a)
        self.c[k] = v
        return v
    def _atom(self, a):
        k = a.kind
        if k == 'sym' and a.args == ('PI',): return self.m.pi + 0
        if k == 'sym': return self.leaf('sym', a.args, isint=a.isint, pos=a.pos)
        if k == 'top': raise NoValue('top')
        if k == 'undef': raise NoValue('undef')
        try:
            if k == 'sqrt': return self.msqrt(self.poly(a.args[0]))
            if k == 'abs': return abs(self.poly(a.args[0]))
            if k == 'inv': return 1.0 / self.poly(a.args[0])
            if k == 'grp': return self.poly(a.args[0])
            if k == 'pow': return self.poly(a.args[0]) ** self.poly(a.args[1])
            if k == 'div': return float(self.m.floor(self.poly(a.args[0]) / self.poly(a.args[1])))
            if k == 'min': return min(self.poly(a.args[0]), self.poly(a.args[1]))
            if k == 'max': return max(self.poly(a.args[0]), self.poly(a.args[1]))
            if k == 'ite': return self.poly(a.args[1]) if self.cond(a.args[0]) else self.poly(a.args[2])
            if k == 'fn':
                xs = [self.poly(x) for x in a.args[1:] if isinstance(x, Poly)]
                if a.args[0] == 'f32': return f32(float(xs[0])) if not self.hp else self.m.mpf(f32(float(xs[0])))
                f = getattr(self.m, a.args[0], None)
                if f is not None and len(xs) == len(a.args) - 1:
                    v = f(*xs)
                    if self.hp and getattr(v, 'imag', 0) != 0: raise NoValue('complex')
                    return v
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            raise NoValue(k)
        if k in ('sum', 'maxof', 'fold'):
            b, N, body = a.args[:3]
            n = int(self.m.floor(self.poly(N) + 0.5))
            if n > 400: raise NoValue('long sum')
            vs = []
            if k == 'fold':
                v = self.poly(a.args[3])
                for i in range(max(n, 0)): v = self.sub({b.id: float(i), a.args[4].id: v}).poly(body)
                return v
            for i in range(max(n, 0)):
                ev = self.sub({b.id: float(i)})
                vs.append(ev.poly(body))
            if k == 'sum': return math.fsum(vs) if not self.hp else sum(vs)
            return max(vs + [self.poly(a.args[3])])
        if k == 'LM':
            lmax, l, m = (self.poly(x) for x in a.args)
            return m * (2 * lmax + 1 - m) / 2 + l
        if k == 'nlm':
            lmax, mmax = (self.poly(x) for x in a.args)
            return (mmax + 1) * (lmax + 1) - mmax * (mmax + 1) / 2
        if k in ('elem', 're', 'im') and (a.args[0].k == 'rec' or a.args[0] in self.recs):
            v = self.aget(a.args[0], tuple(self.poly(x) for x in a.args[1]))
            return v if k == 'elem' else v[0] if k == 're' else v[1]
        return self.leaf(k, tuple(self.argkey(x) for x in a.args), isint=a.isint, pos=a.pos)
    def sub(self, extra, recs=None):
        ev = self.__class__(self.r, {**self.given, **extra})
        ev.recs = self.recs if recs is None else {**self.recs, **recs}
        ev.shared = self.shared
        ev.over = self.over; ev.zoom = self.zoom
        return ev
    def val(self, x):
        return (self.poly(x.re), self.poly(x.im)) if isinstance(x, Cx) else self.poly(x)
    def ipos(self, p): return int(self.m.floor(self.poly(p) + 0.5))
    def aget(self, A, idx):
        """element of an array term at a numeric index"""
        k = A.k
        if A in self.recs:
            R, lim = self.recs[A]
            return self.recat(R, idx, lim)
        if k == 'rec': return self.recat(A, idx, self.ipos(A.a[2]))
        if k == 'fill': return self.val(A.a[0])
        if k == 'lam':
            return self.sub({A.a[0].id if isinstance(A.a[0], Atom) else A.a[0].single().id: idx[0]}).val(A.a[2])
        if k == 'ite': return self.aget(A.a[1] if self.cond(A.a[0]) else A.a[2], idx)
        if k == 'row': return self.aget(A.a[0], tuple(self.poly(x) for x in A.a[1]) + tuple(idx))
        if k == 'scat':
            inner, iters, guard, widx, val = A.a
            if len(widx) != len(idx): raise NoValue('row store')
            hit = None
            for g in self.grid(iters):
                ev = self.sub(g)
                if all(abs(ev.poly(w) - x) < 1e-9 for w, x in zip(widx, idx)) and ev.cond(guard): hit = ev
            return hit.val(val) if hit is not None else self.aget(inner, idx)
        if k in ('base', 'op'):
            ii = tuple(int(self.m.floor(x + 0.5)) for x in idx)
            if A.et == 'cplx': return tuple(self.leaf(q, (self.argkey(A), ii)) for q in ('re', 'im'))
            return self.leaf('elem', (self.argkey(A), ii), isint=(A.et == 'int'))
        raise NoValue('array ' + k)
    def grid(self, iters):
        L = [{}]
        for a, n in iters:
            out = []
            for g in L:
                N = self.sub(g).ipos(n)
                if N * len(L) > 4000: raise NoValue('large')
                out += [{**g, a.id: float(i)} for i in range(N)]
            L = out
        return L
    def recat(self, R, idx, lim):
        A0, kap, N, guard, widx, val, me = R.a
        free = RECFREE.get(R.uid)
        if free is None:
            free = set()
            walk_atoms(R, lambda a: free.add(a.id))
            free.discard(kap.id); RECFREE[R.uid] = free
        key = ('R', R.uid, tuple(round(float(x)) for x in idx), lim, tuple(sorted((i, float(x)) for i, x in self.given.items() if i in free)))
        memo = self.shared
        if key in memo: return memo[key]
        if lim > 400: raise NoValue('long recurrence')
        r = None
        for kk in range(lim - 1, -1, -1):
            ev = self.sub({kap.id: float(kk)}, {me: (R, kk)})
            if all(abs(ev.poly(w) - x) < 1e-9 for w, x in zip(widx, idx)) and ev.cond(guard):
                r = ev.val(val); break
        else: r = self.aget(A0, idx)
        memo[key] = r
        return r
    def argkey(self, x):
        if isinstance(x, Poly):
            return self.rnd(self.poly(x)) if not x.isint() else int(self.m.floor(self.poly(x) + 0.5))
        if isinstance(x, tuple): return tuple(self.argkey(y) for y in x)
        if isinstance(x, Cond): return self.cond(x)
        if isinstance(x, Arr):
            if x.k == 'base': return ('base', x.a[0])
            if x in self.c: return self.c[x]
            if x.k == 'fill': r = ('fill', self.argkey(x.a[0]))
            elif x.k == 'op': r = ('op', x.a[0]) + tuple(self.argkey(y) for y in x.a[1:])
            elif x.k == 'lam':
                b, N, body = x.a
                n = int(self.m.floor(self.poly(N) + 0.5))
                ids = sorted(set(i for i in list(range(5)) + [n // 2, n // 3, n - 1, n - 2, n - 3, n - 4] if 0 <= i < n))
                r = ('lam', n) + tuple((i, self.sub({b.id: float(i)}).argval(body)) for i in ids)
                if len(set(v for _, v in r[2:])) == 1: r = ('fill', r[2][1])
            else: raise NoValue('array ' + x.k)
            self.c[x] = r
            return r
        if isinstance(x, Cx): return (self.argkey(x.re), self.argkey(x.im))
        if isinstance(x, Atom): return self.rnd(self.atom(x))
        return x
    def argval(self, x):
        return (self.argkey(x.re), self.argkey(x.im)) if isinstance(x, Cx) else self.argkey(x)
    def cond(self, c):
        k = c.k
        if k == 'true': return True
        if k == 'false': return False
        if k == 'ge': return self.poly(c.a[0]) >= -1e-9
        if k == 'gt': return self.poly(c.a[0]) > 0
        if k == 'eq': return abs(self.poly(c.a[0])) < 1e-9
        if k == 'not': return not self.cond(c.a[0])
        if k == 'and': return all(self.cond(x) for x in c.a)
        if k == 'or': return any(self.cond(x) for x in c.a)
        return self.leaf('c', tuple(self.argkey(x) for x in c.a)) > 0

class NumHP(Num):
    hp = True
def mpm():
    import mpmath
    mpmath.mp.dps = 100
    return mpmath.mp

def directed(cls, seed, given, facts, rounds=6):
    """an evaluator at a point chosen to satisfy facts that a random point misses: leaf values are moved to the
    boundary that a failing fact describes; None when no leaf enters it linearly"""
    import random
    from logic import lin
    rng = random.Random(seed)
    given = given or {}
    over = {}
    for _ in range(rounds):
        ev = cls(seed, given); ev.over = over
        bad = None
        for c in facts:
            if not ev.cond(c): bad = c; break
        if bad is None: return ev
        for _ in range(8):
            if bad.k == 'or': bad = rng.choice(bad.a)
            elif bad.k == 'and': bad = [x for x in bad.a if not ev.cond(x)][0]
            elif bad.k == 'not' and bad.a[0].k in ('and', 'or'):
                q = bad.a[0].a
                bad = c_not([x for x in q if ev.cond(x)][0] if q and bad.a[0].k == 'or' else rng.choice(q))
            else: break
        neg = bad.k == 'not'
        b = bad.a[0] if neg else bad
        if not isinstance(b, Cond) or b.k not in ('ge', 'gt', 'eq'): return None
        p = b.a[0]
        cand = []
        for a in sorted(p.atoms()):
            at = ATOMS[a]
            if at.isint or a in given: continue
            if at.kind in ('sym', 'elem', 're', 'im') and at.args != ('PI',):
                c, d = lin(p, a)
                if c is not None and c is not ZERO: cand.append((at, None, c, d))
            elif at.kind == 'abs':
                c, d = lin(p, a)
                if c is None or c is ZERO: continue
                for i in sorted(at.args[0].atoms()):
                    it = ATOMS[i]
                    if it.isint or i in given or it.kind not in ('sym', 'elem', 're', 'im'): continue
                    if lin(at.args[0], i)[0] is not None: cand.append((it, at, c, d))
        if not cand: return None
        at, ab, c, d = rng.choice(cand)
        k = ev.poly(c)
        if k == 0: return None
        a0 = -ev.poly(d) / k
        dl = rng.choice((1e-3, 0.1, 0.5, 0.9)) * (abs(a0) if abs(a0) > 1e-300 else 1)
        if b.k == 'eq': v = a0 + dl if neg else a0
        else: v = a0 + (dl if (k > 0) != neg else -dl)
        if ab is not None:
            if v < 0: return None
            c2, d2 = lin(ab.args[0], at.id)
            k2 = ev.poly(c2)
            if k2 == 0: return None
            v = ((v if rng.random() < 0.5 else -v) - ev.poly(d2)) / k2
        if at.pos and v <= 0: return None
        ev.last = None
        ev._atom(at)
        if ev.last is None: return None
        over = {**over, ev.last: v}
    return None

def same(a, b):
    """equal in every untainted field valuation (None: all tainted)"""
    fa, fb = fps(a), fps(b)
    n = 0
    for x, y in zip(fa, fb):
        if x is None or y is None: continue
        n += 1
        if x != y: return False
    return True if n else None

def equal(a, b, given=None, assume=(), tries=60, need=10, seed=0):
    """True (identical values), ('num', n) (agreement at n sampled points only),
    (False, witness) or None (undecided)"""
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = C(a), C(b)
        r = equal(a.re, b.re, given, assume, tries, need, seed)
        if r is None or (isinstance(r, tuple) and r[0] is False): return r
        r2 = equal(a.im, b.im, given, assume, tries, need, seed)
        return r if r2 is True else r2
    a, b = P(a), P(b)
    if a is b or same(a, b): return True
    if tops((a, b)): return None
    ok = 0
    stop = time.monotonic() + 8
    for t in range(tries):
        if time.monotonic() > stop and not ok: break
        g = given(t) if callable(given) else given
        ev = Num(seed * 1000 + t, g)
        try:
            if not all(ev.cond(c) for c in assume): continue
            x, y = ev.poly(a), ev.poly(b)
            if abs(x - y) > 1e-9 * max(1e-3, abs(x), abs(y)):
                hp = NumHP(seed * 1000 + t, g)
                if not all(hp.cond(c) for c in assume): continue
                x, y = hp.poly(a), hp.poly(b)
                if abs(x - y) > 1e-12 * max(1e-6, abs(x), abs(y)):
                    names = {str(ATOMS[k].args[0]): int(v) for k, v in (g or {}).items() if ATOMS[k].kind == 'sym'}
                    return (False, 'values %.12g vs %.12g at %s' % (float(x), float(y), names))
        except (NoValue, OverflowError, ZeroDivisionError, ValueError):
            continue
        ok += 1
        if ok >= need: break
    if ok >= need: return ('num', ok)
    # the facts are rarely met by random values: points moved onto them
    if assume and not ok:
        bad = 0
        if any(has_kind(c, ('sum', 'maxof', 'fold')) for c in assume):
            return zoomed(a, b, given, assume, tries, seed)
        stop = time.monotonic() + 10
        for t in range(tries):
            if time.monotonic() > stop and not bad: return None
            g = given(t) if callable(given) else given
            try:
                hp = directed(NumHP, seed * 1000 + t, g, assume)
                if hp is None: continue
                x, y = hp.poly(a), hp.poly(b)
            except (NoValue, OverflowError, ZeroDivisionError, ValueError, TypeError, IndexError): continue
            ok += 1
            if abs(x - y) > 1e-9 * max(1e-3, abs(x), abs(y)):
                bad += 1
                if bad >= 3:
                    names = {str(ATOMS[k].args[0]): int(v) for k, v in (g or {}).items() if ATOMS[k].kind == 'sym'}
                    return (False, 'values %.12g vs %.12g at %s' % (float(x), float(y), names))
            if ok >= need and not bad: return ('num', ok)
    return None

def zoomed(a, b, given, assume, tries, seed):
    """facts about sums: every real value is scaled by the same factor, over few terms"""
    bad = 0
    stop = time.monotonic() + 15
    assume = sorted(assume, key=lambda c: bool(has_kind(c, ('sum', 'maxof', 'fold'))))
    for t in range(4 * tries):
        if time.monotonic() > stop: break
        ev = NumHP(seed * 1000 + t, given(4 * t + 1) if callable(given) else given)
        ev.zoom = NumHP.lit(ev, F(10) ** ((-14, -6, -3, 6, 14)[t % 5]))
        try:
            if not all(ev.cond(c) for c in assume): continue
            x, y = ev.poly(a), ev.poly(b)
        except (NoValue, OverflowError, ZeroDivisionError, ValueError, TypeError, IndexError): continue
        if abs(x - y) > 1e-6 * max(1e-40, abs(x), abs(y)):
            bad += 1
            if bad >= 2: return (False, 'values %.12g vs %.12g at scaled fields' % (float(x), float(y)))
    return None

def reads_of(x, A):
    """index tuples at which x reads array A"""
    out, seen = [], set()
    def go(y):
        if isinstance(y, (Poly, Cond, Arr)):
            if y in seen: return
            seen.add(y)
            if isinstance(y, Poly):
                for a in y.atoms(): go(ATOMS[a])
            else:
                for z in y.a: go(z)
        elif isinstance(y, Atom):
            if ('a', y.id) in seen: return
            seen.add(('a', y.id))
            if y.kind in ('elem', 're', 'im') and y.args[0] is A: out.append(tuple(y.args[1]))
            for z in y.args: go(z)
        elif isinstance(y, Cx): go(y.re); go(y.im)
        elif isinstance(y, tuple):
            for z in y: go(z)
    go(x)
    return out

# ---------------------------------------------------------------- printing
def pstr(p, depth=4):
    if not p.m: return '0'
    out = []
    for mo, c in sorted(p.m.items(), key=lambda t: (len(t[0]), t[0]))[:14]:
        s = '*'.join((astr(ATOMS[a], depth) + ('' if e == 1 else '^%d' % e)) for a, e in mo)
        if not s: s = str(c)
        elif c == -1: s = '-' + s
        elif c != 1: s = '%s*%s' % (c, s)
        out.append(s)
    if len(p.m) > 14: out.append('...(%d terms)' % len(p.m))
    return ' + '.join(out).replace('+ -', '- ')
def xstr(x, depth):
    if isinstance(x, Poly): return pstr(x, depth)
    if isinstance(x, Cond): return cstr(x, depth)
    if isinstance(x, Arr): return arrstr(x, depth)
    if isinstance(x, Atom): return astr(x, depth)
    if isinstance(x, tuple): return '(' + ','.join(xstr(y, depth) for y in x) + ')'
    return str(x)
def astr(a, depth=4):
    if depth <= 0: return '..'
    d = depth - 1
    k = a.kind
    if k == 'sym': return str(a.args[0])
    if k in ('elem', 're', 'im'):
        s = '%s[%s]' % (xstr(a.args[0], d), ','.join(xstr(x, d) for x in a.args[1]))
        return s if k == 'elem' else '%s(%s)' % (k, s)
    if k == 'fn': return '%s(%s)' % (a.args[0], ','.join(xstr(x, d) for x in a.args[1:]))
    if k == 'inv': return '1/(%s)' % xstr(a.args[0], d)
    return '%s(%s)' % (k, ','.join(xstr(x, d) for x in a.args))
def cstr(c, depth=4):
    if depth <= 0: return '..'
    d = depth - 1
    k = c.k
    if k == 'ge': return '(%s >= 0)' % xstr(c.a[0], d)
    if k == 'gt': return '(%s > 0)' % xstr(c.a[0], d)
    if k == 'eq': return '(%s == 0)' % xstr(c.a[0], d)
    if k == 'not': return '!' + xstr(c.a[0], d)
    if k in ('and', 'or'): return '(' + (' %s ' % k).join(xstr(x, d) for x in c.a) + ')'
    if k == 'op': return '%s(%s)' % (c.a[0], ','.join(xstr(x, d) for x in c.a[1:]))
    return k
def arrstr(A, depth=3):
    if depth <= 0: return '..'
    if A.k == 'base': return str(A.a[0])
    d = depth - 1
    if A.k == 'op': return '%s{%s}' % (A.a[0], ','.join(xstr(x, d) for x in A.a[1:]))
    return '%s<%s>' % (A.k, ','.join(xstr(x, d) for x in A.a))
