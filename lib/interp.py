"""Abstract interpreter over the exported AST.  Values are symbolic terms (terms.py), arrays are
guarded scatters (arrays.py); branches are joined, loops are summarised for a symbolic trip count
(induction variables, carried temporaries, sum/max reductions, scatters, recurrences)."""
import re, math
from terms import *
import terms as T
from logic import Ctx, lin, witness, split_ge
import arrays as A
from arrays import (base, uninit, fill, op, scat, row, ite_arr, chain, get, decided, Undet, mksum, mkmax, mklam, elem_top)
from load import Broken

PI = sym('PI', pos=True)
W64 = P(2 ** 64)
MAXUNROLL = 24

# ---------------------------------------------------------------- values
class LV:
    __slots__ = ('loc', 'idx')
    def __init__(s, loc, idx=None): s.loc = loc; s.idx = idx
    def __repr__(s): return 'LV(%s,%s)' % (s.loc, s.idx)
class Ptr:
    """pointer or iterator to element off of the storage at loc; with pre, to an element of that row of a nested container"""
    __slots__ = ('loc', 'off', 'pre')
    def __init__(s, loc, off=None, pre=()): s.loc = loc; s.off = off; s.pre = pre
    def __eq__(s, o): return isinstance(o, Ptr) and s.loc == o.loc and s.off is o.off and s.pre == o.pre
    def to(s, off): return Ptr(s.loc, off, s.pre)
    def __hash__(s): return hash(s.loc)
    def __repr__(s): return 'Ptr(%s,%s)' % (s.loc, s.off)
class Null:
    def __repr__(s): return 'null'
NULL = Null()
class Vec:
    __slots__ = ('size', 'arr', 'inner', 'owned')
    def __init__(s, size, arr, inner=None): s.size = size; s.arr = arr; s.inner = inner
    def __eq__(s, o): return isinstance(o, Vec) and s.size is o.size and s.arr is o.arr and s.inner is o.inner
    def __hash__(s): return s.arr.uid
    def __repr__(s): return 'Vec(%s,%s)' % (s.size, s.arr)
class Lst:
    """short list of non-numeric elements"""
    __slots__ = ('v',)
    def __init__(s, v): s.v = tuple(v)
    def __eq__(s, o): return isinstance(o, Lst) and s.v == o.v
    def __hash__(s): return hash(s.v)
class Strv:
    __slots__ = ('p',)
    def __init__(s, *p):
        out = []
        for x in p:
            if isinstance(x, str) and out and isinstance(out[-1], str): out[-1] += x
            elif x != '': out.append(x)
        s.p = tuple(out)
    def __eq__(s, o): return isinstance(o, Strv) and s.p == o.p
    def __hash__(s): return hash(s.p)
    def __repr__(s): return 'Str%s' % (s.p,)
class Clo:
    __slots__ = ('node', 'env', 'this')
    def __init__(s, node, env, this): s.node = node; s.env = env; s.this = this
class Fn:
    __slots__ = ('fn',)
    def __init__(s, fn): s.fn = fn
    def __eq__(s, o): return isinstance(o, Fn) and s.fn['usr'] == o.fn['usr']
    def __hash__(s): return hash(s.fn['usr'])
class Opq:
    __slots__ = ('tag',)
    def __init__(s, *tag): s.tag = tag
    def __eq__(s, o): return isinstance(o, Opq) and s.tag == o.tag
    def __hash__(s): return hash(s.tag)
    def __repr__(s): return 'Opq%s' % (s.tag,)
VOID = Opq('void')
def isnum(v): return isinstance(v, (Poly, Cx, Cond))

# ---------------------------------------------------------------- types
def is_vec(t): return t.startswith('std::vector<')
def vec_elem(t):
    d = 0
    for i, c in enumerate(t):
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif c == ',' and d == 1: return t[len('std::vector<'):i].strip()
    return t[len('std::vector<'):-1]
INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char'}
NARROW = {'short': (-2**15, 2**16), 'unsigned short': (0, 2**16), 'signed char': (-2**7, 2**8), 'unsigned char': (0, 2**8)}
def is_int(t): return t in INTS
def is_uns(t): return t.startswith('unsigned')
def is_flt(t): return t in ('double', 'float', 'long double')
def is_cplx(t): return t.startswith('std::complex<') or t in ('cplx', '_Complex double')
def is_str(t): return t.startswith('std::basic_string<')
def is_arrt(t): return t.startswith('std::array<') or re.search(r'\[\d+\]$', t) is not None
def et_of(t):
    if is_int(t): return 'int'
    if is_flt(t): return 'real'
    if is_cplx(t): return 'cplx'
    if t == 'bool': return 'bool'
    if is_vec(t): return et_of(vec_elem(t))
    return 'other'
def zero_of(et):
    return {'real': ZERO, 'int': ZERO, 'cplx': Cx(ZERO, ZERO), 'bool': FALSE}.get(et, ZERO)
def strip_t(q):
    out, d = [], 0
    i = 0
    while i < len(q):
        c = q[i]
        if q.startswith('operator', i):
            out.append(q[i:]); break
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
        i += 1
    return ''.join(out)

# ---------------------------------------------------------------- state
def is_smart(t): return t.startswith('std::unique_ptr<') or t.startswith('std::shared_ptr<')
def tail(t): return t.split('<')[0].split('::')[-1]
def plain_t(t): return t[6:] if t.startswith('const ') else t
def template_args(t):
    """arguments of the outermost template in t"""
    i = t.index('<') + 1
    out, d, cur = [], 0, ''
    for ch in t[i:]:
        if ch in '<([': d += 1
        if ch in '>)]':
            if d == 0: break
            d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

class St:
    __slots__ = ('store', 'ctx', 'path', 'ev')
    def __init__(s, store, ctx, path=(), ev=()):
        s.store = store; s.ctx = ctx; s.path = path; s.ev = ev
    def copy(s): return St(dict(s.store), s.ctx, s.path, s.ev)
    def assume(s, c):
        n = s.copy()
        if c is not TRUE:
            n.ctx = n.ctx.add(c); n.path = n.path + (c,)
        return n

class Oblig:
    __slots__ = ('kind', 'file', 'fn', 'line', 'what', 'status', 'wit')
    def __init__(s, kind, file, fn, line, what, status, wit=None):
        s.kind = kind; s.file = file; s.fn = fn; s.line = line; s.what = what; s.status = status; s.wit = wit
    def key(s): return (s.kind, s.file, s.fn, s.line, s.what)
    def __repr__(s): return '%s %s:%s %s %s %s %s' % (s.status, s.file, s.line, s.fn, s.kind, s.what, s.wit or '')

class Access:
    __slots__ = ('loc', 'idx', 'rw', 'iters', 'ctx', 'line', 'fn', 'file', 'size', 'guard', 'ws')

class Interp:
    def __init__(self, prog, opaque=None, ctx=None):
        self.p = prog
        self.opaque = opaque or {}
        self.S = St({}, ctx or Ctx())
        self.env = {}
        self.this = None
        self.fstack = []
        self.rec = True
        self.obl = {}
        self.serial = 0
        self.lt = {}
        self.ret = []; self.brk = []; self.cont = []
        self.shallow = 0         # 1: only which locations change matters, 2: only scalars matter
        self.loops = []          # enclosing summarised loops: (kappa atom, N)
        self.par = []            # active parallel regions
        self.nowrap = None       # list collecting suspect unsigned operands
        self.line = 0
        self.notes = []
        self.stats = dict(functions=set(), accesses=0, loops=0, calls=0)
        self.scopes = []
        self.races = []
        self.keep_cout = False
        self.depth = 0
        self.globals_init()

    def fork(self):
        """independent copy between top-level calls"""
        import copy
        m = copy.copy(self)
        m.S = self.S.copy()
        for k, v in list(m.__dict__.items()):
            if isinstance(v, (list, dict, set)) and k != 'ginit': setattr(m, k, copy.copy(v))
        m.stats = {k: copy.copy(v) for k, v in self.stats.items()}
        return m

    # ------------------------------------------------------------ bookkeeping
    def new(self, kind='t', name=''):
        self.serial += 1
        return (kind, self.serial, name)
    def where(self):
        f = self.fstack[-1] if self.fstack else None
        return (f.get('file', '?') if f else '?', f.get('q', '?') if f else '?')
    def note(self, kind, what):
        if self.rec:
            f, q = self.where()
            self.oblig(kind, what, 'undecided')
    def oblig(self, kind, what, status, wit=None, line=None):
        if not self.rec: return
        f, q = self.where()
        o = Oblig(kind, f.replace('/repo/', ''), q, line or self.line, what, status, wit)
        k = o.key()
        old = self.obl.get(k)
        rank = {'proved': 0, 'undecided': 1, 'violated': 2}
        if old is None or rank[status] > rank[old.status]: self.obl[k] = o
    def check(self, kind, cond, what, line=None):
        """obligation: cond holds in the current context"""
        if not self.rec or self.S is None: return
        if cond is TRUE or self.S.ctx.prove(cond):
            self.oblig(kind, what, 'proved', line=line); return
        n = c_not(cond)
        w = witness(self.S.ctx, [n]) if n is not FALSE else None
        if w is not None and not self.S.ctx.infeasible(): self.oblig(kind, what, 'violated', w, line=line)
        elif self.S.ctx.infeasible(): self.oblig(kind, what, 'proved', line=line)
        else: self.oblig(kind, what, 'undecided', line=line)

    # ------------------------------------------------------------ globals
    def globals_init(self):
        self.ginit = {}
        for gid, g in self.p.glob.items():
            self.ginit[gid] = g
    def global_loc(self, gid):
        loc = ('g', gid)
        if loc not in self.S.store:
            for r in self.par:
                if r.get('shared') is not None: r['shared'].add(loc)
            g = self.ginit.get(gid)
            if g is None: self.S.store[loc] = Opq('global', gid); return loc
            self.lt[loc] = g['t']
            if 'init' in g and g['init'] is not None:
                v = self.ev(g['init'])
                self.S.store[loc] = v
            else:
                self.S.store[loc] = self.default(g['t'], loc, zero=True)
        return loc

    # ------------------------------------------------------------ values in the store
    def read(self, lv):
        if lv.loc is None: return top('unknown location')
        v = self.S.store.get(lv.loc)
        if v is None:
            return Opq('object', lv.loc)
        if lv.idx is None:
            self.access(lv.loc, None, 'r', v)
            return v
        if isinstance(v, Lst):
            c = lv.idx[0].const()
            if c is not None and 0 <= c < len(v.v): return v.v[int(c)]
            return Opq('lst', v, lv.idx[0].uid)
        if isinstance(v, Vec):
            self.access(lv.loc, lv.idx, 'r', v)
            if v.inner is not None and len(lv.idx) == 1:
                return Vec(v.inner, row(v.arr, lv.idx))
            if self.shallow and v.arr.k in ('scat', 'rec', 'ite', 'row'): return A.elem_top('not needed here', v.arr.et)
            return get(v.arr, lv.idx, self.S.ctx)
        return top('element of unknown object')
    def clobber(self):
        """a write to an unknown place: nothing addressable is known any more"""
        self.note('unsupported', 'write to an unknown location')
        for l, v in list(self.S.store.items()):
            if l[-1][:1] == '#' if isinstance(l[-1], str) else False: continue
            if isinstance(v, Vec): self.S.store[l] = Vec(v.size, uninit(('unknown', self.new()), v.arr.et, nd=v.arr.nd), v.inner)
            elif isinstance(v, Cx): self.S.store[l] = Cx(top('unknown write'), top('unknown write'))
            elif isinstance(v, Poly) and not v.isint() and v.const() is None: self.S.store[l] = top('unknown write')
    def write(self, lv, val, conv=True):
        if lv.loc is None:
            self.clobber(); return
        if lv.idx is None:
            t = self.lt.get(lv.loc)
            if t and conv: val = self.coerce(val, t)
            self.access(lv.loc, None, 'w', self.S.store.get(lv.loc))
            self.S.store[lv.loc] = val
            return
        v = self.S.store.get(lv.loc)
        if isinstance(v, Vec):
            self.access(lv.loc, lv.idx, 'w', v)
            if isinstance(val, Vec):
                self.S.store[lv.loc] = Vec(v.size, A.scat(v.arr, (), TRUE, lv.idx, val.arr), v.inner)
                return
            if v.arr.et == 'cplx': val = C(val) if isnum(val) else Cx(top('x'), top('x'))
            elif not isnum(val): val = top('non-numeric element')
            elif v.arr.et == 'bool': val = B(val)
            elif isinstance(val, Cond): val = P(val)
            elif isinstance(val, Cx): val = val.re
            self.S.store[lv.loc] = Vec(v.size, A.store(v.arr, lv.idx, val), v.inner)
        elif isinstance(v, Lst):
            c = lv.idx[0].const()
            if c is not None and 0 <= c < len(v.v):
                L = list(v.v); L[int(c)] = val; self.S.store[lv.loc] = Lst(L)
            else: self.S.store[lv.loc] = Opq('lst', self.new())
    def xnorm(self, arr, size):
        """extensional normal form of an operator's argument"""
        if self.shallow: return base(('shallow', self.new()), arr.et)
        return A.norm(arr, size, self.S.ctx)
    def coerce(self, v, t):
        if is_cplx(t) and isnum(v): return C(v)
        if t == 'bool' and isinstance(v, Poly): return B(v)
        if (is_int(t) or is_flt(t)) and isinstance(v, Cond): return P(v)
        if is_int(t) and isinstance(v, Poly) and not v.isint() and not tops(v):
            v = self.trunc(v)
        if (t == 'float' or t in NARROW) and isinstance(v, Poly): return self.narrow(v, t)
        return v
    def trunc(self, v):
        if v.isint(): return v
        c = v.const()
        if c is not None: return P(int(c))
        return P(atom('fn', 'trunc', v, isint=True))
    def default(self, t, loc, zero=False):
        self.lt[loc] = t
        if is_vec(t):
            e = vec_elem(t)
            if is_vec(e): return Vec(ZERO, fill(zero_of(et_of(e)), et_of(e), nd=2), ZERO)
            if et_of(e) == 'other': return Lst([])
            return Vec(ZERO, uninit(loc, et_of(e)))
        if is_cplx(t): return Cx(ZERO, ZERO)
        if is_int(t) or is_flt(t): return ZERO if zero else top('uninitialised %s' % (loc[-1],))
        if t == 'bool': return FALSE if zero else opaque('top', 'uninitialised %s%d' % (loc[-1], self.serial))
        if is_str(t): return Strv()
        m = re.match(r'^(.*?)\s*\[(\d+)\]\[(\d+)\]$', t)
        if m:
            et = et_of(m.group(1))
            return Vec(P(int(m.group(2))), fill(zero_of(et), et, nd=2) if zero else uninit(loc, et, nd=2), P(int(m.group(3))))
        m = re.match(r'^(.*?)\s*\[(\d+)\]$', t)
        if m:
            et = et_of(m.group(1))
            return Vec(P(int(m.group(2))), fill(zero_of(et), et) if zero else uninit(loc, et))
        m = re.match(r'^std::array<(.*), (\d+)[a-z]*>$', t)
        if m:
            et = et_of(m.group(1))
            return Vec(P(int(m.group(2))), uninit(loc, et))
        if t.endswith('*'): return NULL if zero else Opq('uninit', loc)
        if 'stream<' in t: return Opq('stream', loc)
        return Opq('object', loc)
    def copyval(self, v):
        return v

    # ------------------------------------------------------------ accesses (for race detection)
    def access(self, loc, idx, rw, v):
        self.stats['accesses'] += 1
        if not self.par or not self.rec or self.S is None: return
        reg = self.par[-1]
        for nr, r in enumerate(self.par):
            if loc in r['shared'] and (idx is not None or loc not in r['private']):
                if idx is None and isinstance(v, Vec) and rw == 'r': return   # header read
                a = Access()
                a.loc = loc; a.idx = idx; a.rw = rw; a.iters = tuple(self.loops[r['nloops']:]); a.ctx = self.S.ctx
                a.line = self.line; a.file, a.fn = self.where()
                a.size = v.size if isinstance(v, Vec) else None
                a.ws = any(x.get('kind') in ('for', 'sections') for x in self.par[nr + 1:])
                a.guard = frozenset(g for g in self.guardlvl if g.startswith('critical') or g == 'atomic')
                r['acc'].append(a)

    def bounds(self, v, idx, what):
        if not self.rec: return
        self.check('bounds', c_and(ge0(idx), ge0(v.size - 1 - idx)), what)

    # ------------------------------------------------------------ lvalues
    def lv(self, n):
        k = n['k']
        if k == 'ref':
            if n.get('global'):
                if n['id'] not in self.env and 'cinit' in n:
                    t = self.temp(self.ev(n['cinit']), n['t']); return t
                if n['id'] in self.env: return self.env[n['id']]
                return LV(self.global_loc(n['id']))
            r = self.env.get(n['id'])
            if r is None:
                # reference to a static local or an unmodelled declaration
                loc = ('g', n['id'])
                if loc not in self.S.store: self.S.store[loc] = Opq('unbound', n['id'])
                return LV(loc)
            return r
        if k == 'member':
            b = self.obj_lv(n['base'], n.get('arrow'))
            if b is None: return LV(None)
            if isinstance(b, LV):
                if b.idx is not None: return self.temp(top('member of element'), n['t'])
                return self.field(b.loc, n['f'], n['t'])
            return self.temp(top('member'), n['t'])
        if k == 'sub':
            a, b = n['a'], n['b']
            if a['k'] == 'cast' and a['ck'] == 'ArrayToPointerDecay' and a['e']['k'] == 'sub':
                bl = self.lv(a['e'])
                if bl.loc is not None and bl.idx is not None: return self.index(bl, self.ival(b), n)
            base_v = self.ev(a)
            i = self.ival(b)
            return self.deref_at(base_v, i, n)
        if k == 'opcall':
            f = self.p.fn.get((n.get('fn') or {}).get('usr'))
            if f is not None and f.get('body') is not None:
                v = self.opcall(n, want_lv=True)
                if isinstance(v, LV): return v
                return self.temp(v, n['t'])
            if n['op'] == '[]':
                cl = n['args'][0]
                bl = self.lv(cl)
                i = self.ival(n['args'][1])
                return self.index(bl, i, n)
            if n['op'] == '*' and len(n['args']) == 1:
                v = self.ev(n['args'][0])
                return self.deref_at(v, ZERO, n)
            if n['op'] in ('=', '+=', '-=', '*=', '/=', '++', '--', '<<', '>>', '()'):
                v = self.opcall(n, want_lv=True)
                if isinstance(v, LV): return v
                return self.temp(v, n['t'])
        if k == 'un':
            if n['op'] == '*':
                v = self.ev(n['e'])
                return self.deref_at(v, ZERO, n)
            if n['op'] in ('++', '--') and not n.get('post'):
                l = self.lv(n['e']); self.incdec(n, l); return l
            if n['op'] in ('__extension__', '+') and n['op'] == '__extension__': return self.lv(n['e'])
        if k in ('assign', 'cassign'):
            return self.assign(n)
        if k == 'bin' and n['op'] == ',':
            self.ev(n['a']); return self.lv(n['b'])
        if k == 'cast':
            ck = n['ck']
            if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'LValueBitCast') and not n['t'].endswith('*'):
                if ck in ('ConstructorConversion', 'UserDefinedConversion'): return self.temp(self.ev(n['e']), n['t'])
                return self.lv(n['e'])
        if k == 'this':
            return LV(self.this)
        if k == 'mcall' or k == 'call':
            v = self.callexpr(n, want_lv=True)
            if isinstance(v, LV): return v
            return self.temp(v, n['t'])
        if k == 'cond':
            c = decided(self.cond(n['c']), self.S.ctx)
            if c is TRUE: return self.lv(n['a'])
            if c is FALSE: return self.lv(n['b'])
        if k == 'construct' and not self.is_value_class(n['t']):
            v = self.ev(n)
            if isinstance(v, Ptr): return LV(v.loc)
            return self.temp(v, n['t'])
        return self.temp(self.ev(n), n['t'])
    def is_value_class(self, t):
        return is_vec(t) or is_str(t) or is_cplx(t)
    def temp(self, v, t='?'):
        if isinstance(v, ObjV): return LV(v.loc)
        loc = self.new('t')
        self.lt[loc] = t
        self.S.store[loc] = v
        return LV(loc)
    def obj_lv(self, n, arrow):
        if arrow:
            v = self.ev(n)
            if isinstance(v, Ptr):
                return LV(v.loc) if v.off is None else LV(v.loc, v.pre + (v.off,))
            if isinstance(v, Opq) and v.tag[0] == 'this': return LV(self.this)
            return None
        return self.lv(n)
    def field(self, loc, f, t):
        l = loc + ('.' + f,)
        if l not in self.S.store:
            fl = None
            r = self.S.store.get(l + ('&',))
            if isinstance(r, LV): return r
            if (loc + ('shtns',)) in self.S.store: pass
            if self.is_repo_class(t): return LV(l)
            self.lt.setdefault(l, t)
            self.S.store[l] = self.default(t, l)
        else:
            r = self.S.store[l]
            if isinstance(r, LV): return r
        return LV(l)
    def is_repo_class(self, t): return t in self.p.cls
    def index(self, bl, i, n):
        if bl.loc is None: return LV(None)
        v = self.S.store.get(bl.loc)
        if isinstance(v, Lst):
            return LV(bl.loc, (i,))
        if isinstance(v, Vec):
            if bl.idx is None:
                self.bounds(v, i, 'index %s' % src(n))
                return LV(bl.loc, (i,))
            if v.inner is not None:
                self.check('bounds', c_and(ge0(i), ge0(v.inner - 1 - i)), 'index %s' % src(n))
            return LV(bl.loc, bl.idx + (i,))
        return LV(None)
    def deref_at(self, v, i, n):
        if isinstance(v, Ptr):
            if v.off is None:
                if i is ZERO: return LV(v.loc)
                return LV(None)
            o = v.off + i
            x = self.S.store.get(v.loc)
            if v.pre:
                if isinstance(x, Vec) and x.inner is not None: self.check('bounds', c_and(ge0(o), ge0(x.inner - 1 - o)), 'access %s' % src(n))
                return LV(v.loc, v.pre + (o,))
            if isinstance(x, Vec):
                self.bounds(x, o, 'access %s' % src(n))
                self.check_live(v.loc, n)
                return LV(v.loc, (o,))
            if isinstance(x, Lst): return LV(v.loc, (o,))
            return LV(v.loc)
        if isinstance(v, LV): return v
        return LV(None)
    def check_live(self, loc, n):
        l = self.S.store.get(loc + ('#live',))
        if l is not None:
            self.check('lifetime', l, 'use of freed storage %s' % src(n))

    # ------------------------------------------------------------ scalar helpers
    def ival(self, n):
        v = self.ev(n)
        if isinstance(v, Cond): return P(v)
        if isinstance(v, Poly): return v
        return top('index')
    def num(self, n):
        v = self.ev(n)
        return v
    def cond(self, n):
        v = self.ev(n)
        if isinstance(v, (Ptr, LV)): return TRUE
        if v is NULL: return FALSE
        if isinstance(v, Cond): return v
        if isinstance(v, Poly): return B(v)
        return opaque('top', self.new())
    def unsval(self, v, t):
        """value of an unsigned expression where its sign matters"""
        if not isinstance(v, Poly) or not is_uns(t) or not v.isint(): return v
        c = v.const()
        if c is not None: return v if c >= 0 else v + W64
        if self.nowrap is not None:
            self.nowrap.append(v); return v
        if self.S.ctx.prove_ge(v): return v
        if self.S.ctx.prove_ge(-v - 1): return v + W64
        if self.S.ctx.infeasible(): return v
        w = witness(self.S.ctx, [ge0(-v - 1)])
        if w is None: return v
        return ite(ge0(v), v, v + W64)

    def narrow(self, v, t):
        """value after conversion to a type that cannot hold every value of the wider type"""
        if not isinstance(v, Poly) or tops(v): return v
        if t == 'float': return T.fn('f32', v)
        if t not in NARROW or not v.isint(): return v
        lo, n = NARROW[t]
        c = v.const()
        if c is not None: return P((int(c) - lo) % n + lo)
        ok = B(c_and(ge0(v - lo), ge0(P(lo + n - 1) - v)))
        ctx = self.S.ctx
        if ctx.prove_ge(v - lo) and ctx.prove_ge(P(lo + n - 1) - v): return v
        if ctx.infeasible() or witness(ctx, [ge0(v - lo - n)]) is None and witness(ctx, [ge0(P(lo - 1) - v)]) is None: return v
        return ite(ok, v, v - n * ctx.sdiv(v - lo, P(n)))

    # ------------------------------------------------------------ rvalues
    def ev(self, n):
        if n is None: return VOID
        k = n['k']
        if 'l' in n: self.line = n['l']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return self.unknown(n['t'], 'expression %s' % k)
        return m(n)
    def unknown(self, t, why):
        if is_cplx(t): return Cx(top(why), top(why))
        if t == 'bool': return opaque('top', why, self.new())
        if is_int(t) or is_flt(t): return top(why)
        return Opq('unknown', why, self.new())
    def e_int(self, n): return P(int(n['v']))
    def e_char(self, n): return P(n['v'])
    def e_bool(self, n): return TRUE if n['v'] else FALSE
    def e_str(self, n): return Strv(n['v'])
    def e_null(self, n): return NULL
    def e_zero(self, n):
        if is_cplx(n['t']): return Cx(ZERO, ZERO)
        if n['t'] == 'bool': return FALSE
        if n['t'].endswith('*'): return NULL
        return ZERO
    def e_float(self, n):
        d = n.get('d')
        if d is None: d = float(n['v'])
        for mult in (1, 2, 4):
            if abs(d - mult * math.pi) < 1e-13 * mult: return PI * mult
        for div in (2, 4):
            if abs(d - math.pi / div) < 1e-13: return PI / P(div)
        return P(F(repr(d)))
    def e_this(self, n): return Ptr(self.this)
    def e_ref(self, n):
        if n.get('global') and 'cinit' in n and n['id'] not in self.env and not is_flt(n['t']):
            return self.ev(n['cinit'])
        return self.rd(self.lv(n), n)
    def e_member(self, n): return self.rd(self.lv(n), n)
    def e_sub(self, n): return self.rd(self.lv(n), n)
    def rd(self, lv, n):
        if lv.loc is None: return self.unknown(n['t'], 'unknown location')
        if lv.idx is None and lv.loc not in self.S.store and self.is_repo_class(n['t']):
            return ObjV(lv.loc)
        return self.read(lv)
    def e_fref(self, n): return Fn(n['fn'])
    def e_unknown(self, n): return self.unknown(n['t'], n.get('c', '?'))
    def e_throw(self, n):
        if n.get('e'): self.ev(n['e'])
        self.die('throw')
        return VOID
    def die(self, why):
        if self.S is not None and self.rec:
            self.S.ev = self.S.ev + (('exit', why),)
            self.exits.append((self.S, why, self.line))
        self.S = None
        raise Dead()
    exits = []
    def e_cast(self, n):
        ck = n['ck']
        if ck == 'LValueToRValue':
            lv = self.lv(n['e'])
            return self.rd(lv, n['e'])
        v = self.ev(n['e'])
        if ck in ('NoOp', 'FunctionToPointerDecay', 'BitCast', 'ConstructorConversion', 'UserDefinedConversion',
                  'DerivedToBase', 'UncheckedDerivedToBase', 'BuiltinFnToFnPtr'):
            if is_int(n['t']) and isinstance(v, Cond): return P(v)
            return v
        if ck == 'ArrayToPointerDecay':
            if isinstance(v, Strv): return v
            l = self.lv(n['e'])
            if l.idx is not None:
                return Ptr(l.loc, ZERO, l.idx)      # a row of a two-dimensional array
            return Ptr(l.loc, ZERO)
        if ck == 'NullToPointer': return NULL
        if ck == 'ToVoid': return VOID
        if ck == 'IntegralToFloating':
            return self.unsval(P(v) if isinstance(v, Cond) else v, n['from'])
        if ck == 'FloatingToIntegral':
            if isinstance(v, Poly): return self.trunc(v)
            return v
        if ck in ('IntegralCast', 'FloatingCast'):
            if isinstance(v, Cond): return P(v)
            if ck == 'FloatingCast': return self.narrow(v, n['t']) if n.get('from') != 'float' else v
            if n['t'] in NARROW and n.get('from') not in NARROW and isinstance(v, Poly): return self.narrow(v, n['t'])
            if ck == 'IntegralCast' and isinstance(v, Poly) and is_uns(n['from']) and not is_uns(n['t']):
                return v
            if ck == 'IntegralCast' and isinstance(v, Poly) and v.const() is not None and is_uns(n['t']) and v.const() < 0 and n.get('explicit'):
                return v
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'): return B(v) if isnum(v) and not isinstance(v, Cx) else opaque('top', self.new())
        if ck == 'PointerToBoolean': return FALSE if v is NULL else TRUE
        if ck == 'FloatingRealToComplex': return C(v)
        return v
    def e_un(self, n):
        o = n['op']
        if o in ('++', '--'):
            l = self.lv(n['e'])
            old = self.read(l)
            self.incdec(n, l)
            return old if n.get('post') else self.read(l)
        if o == '&':
            if n['e']['k'] == 'fref': return self.ev(n['e'])
            l = self.lv(n['e'])
            if l.idx is not None: return Ptr(l.loc, l.idx[-1], l.idx[:-1])
            return Ptr(l.loc)
        if o == '*': return self.rd(self.lv(n), n)
        v = self.ev(n['e'])
        if o == '__extension__': return v
        if o == '+': return v
        if o == '-':
            if isinstance(v, Cond): v = P(v)
            return -v if isinstance(v, (Poly, Cx)) else self.unknown(n['t'], 'minus')
        if o == '!':
            if isinstance(v, Ptr): return FALSE
            if v is NULL: return TRUE
            return c_not(B(v)) if isinstance(v, (Cond, Poly)) else opaque('top', self.new())
        if o == '~': return self.unknown(n['t'], '~')
        return self.unknown(n['t'], o)
    def incdec(self, n, l):
        v = self.read(l)
        d = ONE if n['op'] == '++' else -ONE
        if isinstance(v, Ptr) and v.off is not None: self.write(l, v.to(v.off + d))
        elif isinstance(v, Poly): self.write(l, v + d)
        else: self.write(l, self.unknown('int', 'incdec'))
    def e_bin(self, n):
        o = n['op']
        if o == ',':
            self.ev(n['a']); return self.ev(n['b'])
        if o in ('&&', '||'):
            a = self.cond(n['a'])
            a = decided(a, self.S.ctx)
            if o == '&&' and a is FALSE: return FALSE
            if o == '||' and a is TRUE: return TRUE
            S0 = self.S
            self.S = S0.assume(a if o == '&&' else c_not(a))
            before = dict(self.S.store)
            b = self.cond(n['b'])
            changed = any(self.S.store.get(x) is not before.get(x) and self.S.store.get(x) != before.get(x) for x in before)
            if changed:
                S1 = self.S
                S2 = S0.assume(c_not(a) if o == '&&' else a)
                self.S = self.merge([S1, S2])
            else:
                S0.store.update({x: v for x, v in self.S.store.items() if x not in S0.store})
                S0.ev = self.S.ev
                self.S = S0
            return c_and(a, b) if o == '&&' else c_or(a, b)
        a, b = self.ev(n['a']), self.ev(n['b'])
        r = self.binop(o, a, b, n['t'], n['a']['t'], n['b']['t'], n)
        return self.narrow(r, 'float') if n['t'] == 'float' else r
    def binop(self, o, a, b, t, ta, tb, n=None):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or a is NULL or b is NULL:
            return self.ptrop(o, a, b, t)
        if isinstance(a, Cond) and o not in ('==', '!='): a = P(a)
        if isinstance(b, Cond) and o not in ('==', '!='): b = P(b)
        if isinstance(a, Cond) and isinstance(b, Cond):
            same_ = c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
            return same_ if o == '==' else c_not(same_)
        if isinstance(a, Cond): a = P(a)
        if isinstance(b, Cond): b = P(b)
        if not isinstance(a, (Poly, Cx)) or not isinstance(b, (Poly, Cx)):
            if isinstance(a, Opq) and a == b and o in ('==', '!='): return TRUE if o == '==' else FALSE
            return self.unknown(t, 'operands of ' + o)
        if isinstance(a, Cx) or isinstance(b, Cx):
            if o == '+': return C(a) + b
            if o == '-': return C(a) - b
            if o == '*': return C(a) * b
            if o == '/': return C(a) / b
            if o in ('==', '!='):
                e = c_and(eq0(C(a).re - C(b).re), eq0(C(a).im - C(b).im))
                return e if o == '==' else c_not(e)
            return self.unknown(t, o)
        if o == '+': return a + b
        if o == '-': return a - b
        if o == '*': return a * b
        if o == '/':
            if is_int(t):
                a, b = self.unsval(a, ta), self.unsval(b, tb)
                if b is ZERO: self.oblig('arith', 'division by zero', 'violated', {}); return top('div0')
                if self.divlog is not None: self.divlog.append((a, b))
                if self.S.ctx.prove_ge(b - 1) and self.S.ctx.prove_ge(a): return self.S.ctx.sdiv(a, b)
                if a.const() is not None and b.const() is not None:
                    q = abs(a.const()) // abs(b.const())
                    return P(q if (a.const() < 0) == (b.const() < 0) else -q)
                if self.S.ctx.prove_ge(b - 1) and is_uns(ta): return self.S.ctx.sdiv(a, b)
                return top('integer division')
            if b is ZERO: return top('division by zero')
            return a / b
        if o == '%':
            a, b = self.unsval(a, ta), self.unsval(b, tb)
            if a.const() is not None and b.const() is not None and b.const() != 0:
                r = abs(a.const()) % abs(b.const())
                return P(r if a.const() >= 0 else -r)
            if (self.S.ctx.prove_ge(b - 1) or is_uns(tb)) and (self.S.ctx.prove_ge(a) or is_uns(ta)):
                if self.divlog is not None: self.divlog.append((a, b))
                return a - b * self.S.ctx.sdiv(a, b)
            return top('remainder')
        if o in ('<', '>', '<=', '>=', '==', '!='):
            if is_uns(ta) and is_uns(tb):
                if o in ('==', '!='):
                    pass
                else: a, b = self.unsval(a, ta), self.unsval(b, tb)
            if o == '<': return gt0(b - a)
            if o == '>': return gt0(a - b)
            if o == '<=': return ge0(b - a)
            if o == '>=': return ge0(a - b)
            e = eq0(a - b)
            return e if o == '==' else c_not(e)
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None and ca.denominator == 1 and cb.denominator == 1:
            x, y = int(ca), int(cb)
            r = {'<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}.get(o)
            if r: return P(r())
        if o == '<<' and cb is not None: return a * (2 ** int(cb))
        if o == '>>' and cb is not None: return self.S.ctx.sdiv(a, P(2 ** int(cb)))
        if o == '&' and cb == 1: return a - 2 * self.S.ctx.sdiv(a, P(2))
        if o in ('|', '&', '^'):
            return P(atom('fn', 'bit' + o, a, b, isint=True))
        return self.unknown(t, o)
    def ptrop(self, o, a, b, t):
        if o in ('==', '!='):
            if a is NULL and b is NULL: e = TRUE
            elif a is NULL or b is NULL: e = FALSE if isinstance(a, Ptr) or isinstance(b, Ptr) else None
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.loc != b.loc: e = FALSE
                elif a.pre != b.pre: e = None
                elif a.off is None: e = TRUE
                else: e = eq0(a.off - b.off)
            else: e = None
            if e is None:
                e = opaque('ptr', self.new())
                if a is NULL or b is NULL: e = FALSE    # library pointers are assumed non-null
            return e if o == '==' else c_not(e)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.loc == b.loc and a.pre == b.pre and a.off is not None:
                d = a.off - b.off
                if o == '-': return d
                return self.binop(o, a.off, b.off, t, 'long', 'long')
            return self.unknown(t, 'pointer arithmetic')
        if isinstance(b, Ptr): a, b = b, a
        if isinstance(a, Ptr) and isinstance(b, Poly) and a.off is not None:
            if o == '+': return a.to(a.off + b)
            if o == '-': return a.to(a.off - b)
        return self.unknown(t, 'pointer arithmetic')
    def e_assign(self, n): return self.read(self.assign(n))
    def e_cassign(self, n): return self.read(self.assign(n))
    def assign(self, n):
        if n['k'] == 'assign':
            v = self.ev(n['b'])
            l = self.lv(n['a'])
            if is_int(n['a']['t']) and is_flt(n['b']['t']) and isinstance(v, Poly): v = self.trunc(v)
            self.write(l, v)
            return l
        b = self.ev(n['b'])
        l = self.lv(n['a'])
        a = self.read(l)
        ct = n.get('ct') or n['t']
        if is_flt(ct) and is_int(n['a']['t']) and isinstance(a, Poly): a = self.unsval(a, n['a']['t'])
        v = self.binop(n['op'], a, b, ct, n['a']['t'], n['b']['t'], n)
        if is_int(n['a']['t']) and is_flt(ct) and isinstance(v, Poly): v = self.trunc(v)
        if n['a']['t'] in NARROW or n['a']['t'] == 'float': v = self.narrow(v, n['a']['t'])
        self.write(l, v)
        return l
    def e_cond(self, n):
        # assertion?
        af = assert_call(n['b'])
        if af is not None or assert_call(n['a']) is not None:
            # bound symbols of an assertion are numbered apart: the build without assertions numbers the rest alike
            T._counter, T._acounter = T._acounter, T._counter
            try: return self.do_assert(n, af)
            finally: T._counter, T._acounter = T._acounter, T._counter
        c = decided(self.cond(n['c']), self.S.ctx)
        if c is TRUE: return self.ev(n['a'])
        if c is FALSE: return self.ev(n['b'])
        S0 = self.S
        tmp = self.new('t', 'cond')
        outs = []
        for lit, br in ((c, n['a']), (c_not(c), n['b'])):
            self.S = S0.assume(lit)
            try:
                v = self.ev(br)
                self.S.store[tmp] = v
                outs.append(self.S)
            except Dead: pass
        if not outs:
            self.S = None; raise Dead()
        self.S = self.merge(outs)
        v = self.S.store.pop(tmp, None)
        if v is None: return VOID
        return v
    def do_assert(self, n, af):
        before = dict(self.S.store)
        nev = self.S.ev
        c = self.cond(n['c'])
        if af is None: c = c_not(c)
        for x, v in before.items():
            w = self.S.store.get(x)
            if w is not v and not (w == v):
                self.oblig('assert-pure', 'assertion changes program state', 'violated', {'location': str(x)})
        if self.S.ev is not nev: self.oblig('assert-pure', 'assertion performs output or library effects', 'violated', {})
        else: self.oblig('assert-pure', 'assertion is free of side effects', 'proved')
        self.check('assert', c, 'assertion %s' % src(n['c']))
        if c is FALSE:
            self.die('assert')
        self.S = self.S.assume(c) if c is not TRUE else self.S
        return VOID
    def e_initlist(self, n):
        t = n['t']
        if self.is_repo_class(t):
            loc = self.new('o', t)
            self.lt[loc] = t
            if len(n['args']) == 1 and n['args'][0].get('t') == t: return self.ev(n['args'][0])
            self.aggregate(t, loc, n['args'])
            return ObjV(loc)
        vs = [self.ev(a) for a in n['args']]
        if is_cplx(t):
            return Cx(vs[0] if vs else ZERO, vs[1] if len(vs) > 1 else ZERO)
        if len(vs) == 1 and (is_int(t) or is_flt(t) or t == 'bool' or is_str(t) or t.endswith('*')): return vs[0]
        if not vs and (is_int(t) or is_flt(t) or t == 'bool' or t.endswith('*')): return self.e_zero(n)
        m = re.search(r'\[(\d+)\](\[\d+\])*$', t)
        N = n.get('n') or (int(m.group(1)) if m else len(vs))
        et = et_of(re.sub(r'\s*(\[\d+\])+$', '', t)) if m else ('other' if not vs or not isnum(vs[0]) else 'cplx' if isinstance(vs[0], Cx) else 'real')
        if m is None:
            mm = re.match(r'^std::array<(.*), (\d+)[a-z]*>$', t)
            if mm:
                et = et_of(mm.group(1)); N = int(mm.group(2))
                if len(vs) == 1 and isinstance(vs[0], Vec): return vs[0]
        if vs and m and all(isinstance(v, Vec) and v.inner is None and v.size.const() is not None and v.size is vs[0].size for v in vs):
            a = fill(zero_of(et), et, nd=2)
            for i, v in enumerate(vs):
                for j in range(int(v.size.const())): a = A.store(a, (P(i), P(j)), get(v.arr, (P(j),), self.S.ctx))
            return Vec(P(N), a, vs[0].size)
        if vs and not all(isnum(v) for v in vs): return Lst(vs)
        if et == 'other': et = 'real'
        a = fill(zero_of(et), et)
        for i, v in enumerate(vs): a = A.store(a, (P(i),), C(v) if et == 'cplx' else v)
        return Vec(P(N), a)
    def e_new(self, n):
        loc = self.new('h', 'new')
        et = et_of(n['at'])
        if n.get('n') is not None:
            sz = self.ival(n['n'])
            self.S.store[loc] = Vec(sz, fill(zero_of(et), et) if n.get('init') is not None and et != 'other' and n['init'].get('k') in ('zero', 'initlist') else uninit(loc, et))
            self.S.store[loc + ('#live',)] = TRUE
            self.S.store[loc + ('#how',)] = Strv('new[]')
            self.alloc(loc, 'new[]')
            return Ptr(loc, ZERO)
        self.lt[loc] = n['at']
        self.S.store[loc + ('#live',)] = TRUE
        self.S.store[loc + ('#how',)] = Strv('new')
        self.alloc(loc, 'new')
        if self.is_repo_class(n['at']) and n.get('init') is not None:
            self.construct_at(n['init'], loc)
        else:
            self.S.store[loc] = self.ev(n['init']) if n.get('init') is not None else self.default(n['at'], loc)
        return Ptr(loc)
    def alloc(self, loc, how):
        if self.rec: self.allocs.append((loc, how, self.line) + self.where())
    allocs = ()
    def e_delete(self, n):
        v = self.ev(n['e'])
        self.release(v, 'new[]' if n.get('array') else 'new', n)
        return VOID
    def release(self, v, how, n):
        if v is NULL: return
        if not isinstance(v, Ptr):
            self.note('lifetime', 'release of an unknown pointer %s' % src(n)); return
        l = self.S.store.get(v.loc + ('#live',))
        if l is None:
            self.note('lifetime', 'release of a pointer that was not allocated here %s' % src(n)); return
        self.check('lifetime', l, 'released twice: %s' % src(n))
        h = self.S.store.get(v.loc + ('#how',))
        if isinstance(h, Strv) and h != Strv(how):
            self.oblig('lifetime', 'storage from %s released by %s' % (h.p[0], how), 'violated', {})
        self.S.store[v.loc + ('#live',)] = FALSE

    # ------------------------------------------------------------ calls
    def e_call(self, n):
        r = self.callexpr(n)
        return self.read(r) if isinstance(r, LV) else r
    def e_mcall(self, n):
        r = self.callexpr(n)
        return self.read(r) if isinstance(r, LV) else r
    def e_opcall(self, n):
        r = self.opcall(n)
        if isinstance(r, LV): return self.rd(r, n)
        return r
    def e_lambda(self, n):
        env = dict(self.env)
        for c in n['captures']:
            if 'id' in c and not c.get('byref'):
                l = self.new('v', 'cap')
                if c.get('init') is not None: v = self.ev(c['init'])
                elif c['id'] in self.env: v = self.read(self.env[c['id']])
                else: continue
                self.S.store[l] = v
                env[c['id']] = LV(l)
        return Clo(n, env, self.this)
    def call_clo(self, clo, argn=None, vals=None):
        n = clo.node
        params = n['params']
        binds = {}
        for i, p in enumerate(params):
            if argn is not None: binds[p['id']] = self.bind(p, argn[i])
            else: binds[p['id']] = self.bindv(p, vals[i])
        env, this = self.env, self.this
        self.env = dict(clo.env); self.env.update(binds); self.this = clo.this
        try: return self.run_body(n['body'], n['ret'])
        finally: self.env, self.this = env, this
    def run_body(self, body, rt):
        sv = (self.ret, self.brk, self.cont, self.scopes)
        self.ret, self.brk, self.cont, self.scopes = [], [], [], []
        base_path = self.S.path
        try:
            self.ex(body)
            outs = list(self.ret)
            if self.S is not None: outs.append((self.S, VOID))
        finally:
            self.ret, self.brk, self.cont, self.scopes = sv
        if not outs:
            self.S = None; raise Dead()
        if len(outs) == 1:
            self.S, v = outs[0]
            return v
        if any(isinstance(v, LV) for _, v in outs):
            if len({(v.loc, v.idx) for _, v in outs}) > 1: 
                outs = [(s, self.under(s, lambda: self.read(v)) if isinstance(v, LV) else v) for s, v in outs]
            else:
                self.S = self.merge([s for s, _ in outs]); return outs[0][1]
        if all(isinstance(v, ObjV) for _, v in outs):
            # one object, whichever way the body was left
            if len({v.loc for _, v in outs}) > 1:
                res = self.new('o', 'ret')
                keep = self.S
                for s, v in outs:
                    self.S = s; self.copyobj(v.loc, res)
                    if v.loc in self.lt: self.lt[res] = self.lt[v.loc]
                self.S = keep
                outs = [(s, ObjV(res)) for s, v in outs]
            self.S = self.merge([s for s, _ in outs])
            return outs[0][1]
        tmp = self.new('t', 'ret')
        sts = []
        for s, v in outs:
            s = s.copy(); s.store[tmp] = v; sts.append(s)
        self.S = self.merge(sts)
        return self.S.store.pop(tmp, VOID)
    def under(self, s, f):
        old = self.S; self.S = s
        try: return f()
        finally: self.S = old
    def bind(self, p, a):
        """binds parameter p to argument expression a; returns the LV the parameter names"""
        if p.get('ref'):
            if a['k'] in ('lambda',): return self.temp(self.ev(a), p['t'])
            l = self.lv(a)
            return l
        v = self.ev(a)
        return self.bindv(p, v)
    def bindv(self, p, v):
        if isinstance(v, LV):
            if p.get('ref'): return v
            v = self.read(v)
        loc = self.new('v', p.get('name', ''))
        self.lt[loc] = p['t']
        if isinstance(v, ObjV):
            if p.get('ref'): return LV(v.loc)
            self.copyobj(v.loc, loc); return LV(loc)
        self.S.store[loc] = self.coerce(v, p['t'])
        return LV(loc)
    def copyobj(self, src_, dst):
        n = len(src_)
        for k in list(self.S.store):
            if k[:n] == src_ and len(k) > n:
                self.S.store[dst + k[n:]] = self.S.store[k]
                if k in self.lt: self.lt[dst + k[n:]] = self.lt[k]
        if src_ in self.S.store: self.S.store[dst] = self.S.store[src_]
    def call_fn(self, f, this, binds):
        """inlines a repository function; binds: list of LVs"""
        if self.depth > 40 or sum(1 for g in self.fstack if g is f) > 2:
            self.note('recursion', 'recursive call of %s' % f['q'])
            for l in binds: self.havoc_lv(l)
            return self.unknown(f['ret']['t'], 'recursion')
        self.stats['functions'].add(f['q']); self.stats['calls'] += 1
        env, th, line = self.env, self.this, self.line
        self.env = {p['id']: l for p, l in zip(f['params'], binds)}
        self.this = this
        self.fstack.append(f); self.depth += 1
        try:
            if f.get('ctor'): self.ctor_inits(f, this)
            if f.get('body') is None:
                return VOID
            return self.run_body(f['body'], f['ret'])
        finally:
            self.env, self.this, self.line = env, th, line
            self.fstack.pop(); self.depth -= 1
    def havoc_lv(self, l):
        if l.loc is None or l.loc not in self.S.store: return
        v = self.S.store[l.loc]
        if isinstance(v, Vec): self.S.store[l.loc] = Vec(v.size, uninit(self.new('x'), v.arr.et, nd=v.arr.nd), v.inner)
        elif isnum(v): self.S.store[l.loc] = self.unknown(self.lt.get(l.loc, 'double'), 'havoc')
    def ctor_inits(self, f, this):
        cls = f.get('cls')
        ci = self.p.cls.get(cls)
        done = set()
        inits = {i.get('f'): i for i in f.get('inits', []) if i.get('f')}
        for i in f.get('inits', []):
            if i.get('deleg'): self.construct_at(i['e'], this); done.update(x['f'] for x in (ci or {'fields': []})['fields'])
            elif i.get('baseinit'): 
                if i['e'] and i['e'].get('k') == 'construct' and i['e']['fn'].get('repo'): self.construct_at(i['e'], this)
        for fl in (ci['fields'] if ci else []):
            nm = fl['f']
            if nm in done: continue
            loc = this + ('.' + nm,)
            self.lt[loc] = fl['t']
            ini = inits.get(nm)
            e = ini['e'] if ini else fl.get('init')
            if ini: self.line = ini.get('l', self.line)
            if fl.get('ref'):
                self.S.store[loc] = self.lv(e) if e else LV(None); continue
            if e is not None: self.init_loc(loc, fl['t'], e)
            elif not self.is_repo_class(fl['t']): self.S.store[loc] = self.default(fl['t'], loc)
    def init_loc(self, loc, t, e):
        self.lt[loc] = t
        if self.is_repo_class(t):
            self.construct_at(e, loc); return
        v = self.ev(e)
        if isinstance(v, ObjV): self.copyobj(v.loc, loc); return
        if t.startswith('std::pair<') and isinstance(v, Opq) and v.tag[0] == 'object' and isinstance(v.tag[1], tuple): self.copyobj(v.tag[1], loc); return
        if isinstance(v, Opq) and v.tag[0] in ('stream', 'object'):
            self.S.store[loc] = Opq(v.tag[0], loc)
            self.after_init(loc, v)
            return
        if is_int(t) and isinstance(v, Poly) and is_flt(e.get('t', '')): v = self.trunc(v)
        self.S.store[loc] = self.coerce(v, t)
    def after_init(self, loc, v): pass
    def construct_at(self, e, loc):
        """runs constructor expression e on the object at loc"""
        while e['k'] == 'cast': e = e['e']
        if e['k'] == 'initlist' and len(e['args']) == 1: return self.construct_at(e['args'][0], loc)
        if e['k'] == 'construct':
            f = self.p.fn.get(e['fn']['usr'])
            key = e['fn']['q']
            if key in self.opaque:
                self.opaque[key](self, LV(loc), e['args'], e); return
            if (e.get('copy') or e.get('move')) and (f is None or f.get('body') is None):
                s = self.lv(e['args'][0])
                self.copyobj(s.loc, loc)
                self.copies.append((e['t'], self.line) + self.where())
                return
            if f is not None and ('body' in f):
                binds = [self.bind(p, a) for p, a in zip(f['params'], e['args'])]
                self.call_fn(f, loc, binds)
                return
            # implicit default constructor
            ci = self.p.cls.get(e['t'])
            for fl in (ci['fields'] if ci else []):
                l = loc + ('.' + fl['f'],)
                if fl.get('init') is not None: self.init_loc(l, fl['t'], fl['init'])
                elif not self.is_repo_class(fl['t']): self.S.store[l] = self.default(fl['t'], l)
            return
        if e['k'] == 'initlist' and e['t'] in self.p.cls: return self.aggregate(e['t'], loc, e['args'])
        v = self.ev(e)
        if isinstance(v, ObjV): self.copyobj(v.loc, loc)
        elif e['k'] == 'initlist' or isinstance(v, (Vec, Lst)):
            if e['k'] == 'initlist' and e['t'] in self.p.cls: self.aggregate(e['t'], loc, e['args'])
    def aggregate(self, t, loc, args):
        for i, fl in enumerate(self.p.cls[t]['fields']):
            l = loc + ('.' + fl['f'],)
            self.lt[l] = fl['t']
            if i < len(args):
                if fl.get('ref'): self.S.store[l] = self.lv(args[i])
                else: self.init_loc(l, fl['t'], args[i])
            elif fl.get('init') is not None: self.init_loc(l, fl['t'], fl['init'])
            elif not self.is_repo_class(fl['t']): self.S.store[l] = self.default(fl['t'], l, zero=True)
    copies = ()
    def e_construct(self, n):
        t = n['t']
        if self.is_repo_class(t):
            loc = self.new('o', t)
            self.lt[loc] = t
            self.construct_at(n, loc)
            return ObjV(loc)
        if (n.get('copy') or n.get('move') or n.get('elidable')) and len(n['args']) == 1:
            if n.get('move') and is_smart(plain_t(t)): return self.taken(n['args'][0])
            return self.ev(n['args'][0])
        return self.lib_construct(n)
    def taken(self, x):
        """the pointer moved out of the smart pointer x"""
        l = self.lv(x)
        v = self.read(l)
        if l.loc is not None: self.S.store[l.loc] = NULL
        return v
    def callexpr(self, n, want_lv=False):
        fn = n.get('fn')
        line = n.get('l', self.line)
        if fn is None:
            c = self.ev(n['callee'])
            if isinstance(c, Clo): return self.call_clo(c, n['args'])
            if isinstance(c, Fn): fn = c.fn
            else:
                for a in n['args']: self.ev(a)
                return self.unknown(n['t'], 'indirect call')
        q = strip_t(fn['q'])
        obj = None
        if n['k'] == 'mcall':
            o = self.obj_lv(n['obj'], n.get('arrow'))
            obj = o
        self.line = line
        h = self.opaque.get(fn['q']) or self.opaque.get(q)
        if h is not None:
            r = h(self, obj, n['args'], n)
            self.line = line
            return r
        f = self.p.fn.get(fn['usr'])
        if f is not None and f.get('body') is not None:
            binds = [self.bind(p, a) for p, a in zip(f['params'], n['args'])]
            self.line = line
            r = self.call_fn(f, obj.loc if obj is not None else None, binds)
            self.line = line
            if isinstance(r, LV) and not f['ret'].get('ref'): r = self.read(r)
            return r
        return self.libcall(q, fn, obj, n)
    # models live in models.py
    def opcall(self, n, want_lv=False): raise NotImplementedError
    def libcall(self, q, fn, obj, n): raise NotImplementedError
    def lib_construct(self, n): raise NotImplementedError

    # ------------------------------------------------------------ joining states
    def merge(self, states):
        states = [s for s in states if s is not None]
        if not states: return None
        if len(states) == 1: return states[0]
        n = min(len(s.path) for s in states)
        k = 0
        while k < n and all(s.path[k] is states[0].path[k] for s in states): k += 1
        conds = [c_and(*s.path[k:]) for s in states]
        fk = 0
        facts = [s.ctx.facts for s in states]
        m = min(len(f) for f in facts)
        while fk < m and all(f[fk] is facts[0][fk] for f in facts): fk += 1
        common = list(facts[0][:fk])
        for f in facts[0][fk:]:
            if all(f in g for g in facts[1:]): common.append(f)
        out = St({}, Ctx(tuple(common)), states[0].path[:k])
        keys = set(states[0].store)
        for s in states[1:]: keys &= set(s.store)
        st0 = states[0].store
        for key in st0:
            if key not in keys: continue
            vals = [s.store[key] for s in states]
            v = vals[-1]
            if all(x is v for x in vals): out.store[key] = v; continue
            if all(x == v for x in vals): out.store[key] = v; continue
            for c, x in zip(reversed(conds[:-1]), reversed(vals[:-1])):
                v = self.join(c, x, v, key)
            out.store[key] = v
        alt = c_or(*conds)
        if alt is not TRUE:
            out.path = out.path + (alt,)
            out.ctx = out.ctx.add(alt)
        ek = 0
        evs = [s.ev for s in states]
        m = min(len(e) for e in evs)
        while ek < m and all(e[ek] is evs[0][ek] or e[ek] == evs[0][ek] for e in evs): ek += 1
        out.ev = evs[0][:ek]
        tails = [(c, e[ek:]) for c, e in zip(conds, evs)]
        if any(t for _, t in tails): out.ev = out.ev + (('if', tuple(tails)),)
        return out
    def join(self, c, a, b, key):
        if a is b or a == b: return a
        if isnum(a) and isnum(b): return ite(c, a, b)
        if isinstance(a, Vec) and isinstance(b, Vec) and a.inner is b.inner:
            return Vec(ite(c, a.size, b.size), ite_arr(c, a.arr, b.arr), a.inner)
        if isinstance(a, Strv) and isinstance(b, Strv): return Strv(('ite', c, a, b))
        if isinstance(a, LV) and isinstance(b, LV) and a.loc == b.loc: return a
        return Opq('join', self.new())

    # ------------------------------------------------------------ statements
    def ex(self, s):
        if s is None or self.S is None: return
        k = s['k']
        if 'l' in s: self.line = s['l']
        try:
            getattr(self, 's_' + k, self.s_unknown)(s)
        except Dead:
            self.S = None
    def s_unknown(self, s): self.note('unsupported', 'statement %s' % s.get('c', s['k']))
    def s_null(self, s): pass
    def s_expr(self, s): self.ev(s['e'])
    def s_block(self, s):
        self.scopes.append([])
        env = dict(self.env)
        marks = self.marks()
        for x in s['s']:
            self.ex(x)
            if self.S is None: break
        sc = self.scopes.pop()
        self.env = env
        self.leave(sc, marks)
    def marks(self): return len(self.ret), len(self.brk), len(self.cont)
    def leave(self, sc, marks):
        """end of a scope: its locals are destroyed on the way out of it, whichever way that is"""
        own = [l for l in reversed(sc) if self.wants_destroy(self.lt.get(l, ''))]
        if own:
            r, b, c = marks
            keep = self.S
            for i in range(r, len(self.ret)):
                st, v = self.ret[i]
                self.ret[i] = (self.destroyed(st, own, v), v)
            self.ret[r:] = [x for x in self.ret[r:] if x[0] is not None]
            for L, m in ((self.brk, b), (self.cont, c)):
                L[m:] = [x for x in (self.destroyed(st, own) for st in L[m:]) if x is not None]
            self.S = self.destroyed(keep, own)
        if self.S is not None:
            for l in sc: self.drop(l)
    def destroyed(self, st, locs, v=None):
        if st is None: return None
        self.S = st.copy()
        skip = v.loc if isinstance(v, ObjV) else None
        try:
            for l in locs:
                if l != skip: self.destroy(l, self.lt.get(l, ''))
        except Dead: return None
        return self.S
    # ---- destruction of objects
    def dtor(self, t):
        return next((f for f in self.p.byname.get('%s::~%s' % (t, tail(t)), []) if f.get('body') is not None), None)
    def wants_destroy(self, t, d=0):
        """destroying an object of type t runs code: its own destructor, a member's, or a smart pointer's deleter"""
        t = plain_t(t)
        if is_smart(t): return True
        c = self.p.cls.get(t)
        if c is None or d > 8: return False
        if '%s::%s' % (t, tail(t)) in self.opaque: return False
        return self.dtor(t) is not None or any(self.wants_destroy(f['t'], d + 1) for f in c['fields'] if not f.get('ref')) or any(self.wants_destroy(b, d + 1) for b in c['bases'])
    def destroy(self, loc, t):
        t = plain_t(t)
        if is_smart(t):
            v = self.S.store.get(loc)
            if v is not None: self.unpoint(v, t)
            return
        if not self.wants_destroy(t): return
        f = self.dtor(t)
        if f is not None: self.call_fn(f, loc, [])
        c = self.p.cls[t]
        for fl in reversed(c['fields']):
            if not fl.get('ref'): self.destroy(loc + ('.' + fl['f'],), fl['t'])
    def unpoint(self, v, t):
        """a smart pointer of type t gives up v"""
        if v is NULL: return
        if not isinstance(v, Ptr) or not t.startswith('std::unique_ptr'):
            self.note('lifetime', 'a %s gives up an unknown pointer' % t[:40])
            if isinstance(v, Ptr) and (v.loc + ('#live',)) in self.S.store: self.S.store[v.loc + ('#live',)] = opaque('top', 'shared', self.new())
            return
        a = template_args(t)
        arg = [{'k': 'val', 'v': v, 't': 'void *', 'l': self.line}]
        d = a[1] if len(a) > 1 else 'std::default_delete<'
        if d.startswith('std::default_delete<'):
            self.release(v, 'new[]' if a[0].endswith('[]') else 'new', arg[0])
            if not a[0].endswith('[]') and self.is_repo_class(a[0]): self.destroy(v.loc, a[0])
            return
        f = next((f for f in self.p.byname.get(d + '::operator()', []) if f.get('body') is not None and len(f['params']) == 1), None)
        if f is not None: self.call_fn(f, None, [self.bindv(f['params'][0], v)]); return
        d = self.S.store.get(v.loc + ('#del',))
        if isinstance(d, Clo): self.call_clo(d, vals=[v]); return
        if isinstance(d, Fn):
            g = self.p.fn.get(d.fn['usr'])
            if g is not None and g.get('body') is not None: self.call_fn(g, None, [self.bindv(g['params'][0], v)])
            else: self.libcall(strip_t(d.fn['q']), d.fn, None, {'k': 'call', 'args': arg, 't': 'void', 'fn': d.fn, 'l': self.line})
            return
        self.note('lifetime', 'unknown deleter of a %s' % t[:60])
        if (v.loc + ('#live',)) in self.S.store: self.S.store[v.loc + ('#live',)] = opaque('top', 'deleter', self.new())
    def e_val(self, n): return n['v']
    def drop(self, l):
        self.S.store.pop(l, None)
    def s_decl(self, s):
        for v in s['d']:
            self.declare(v)
    def declare(self, v):
        if v.get('staticlocal'):
            loc = ('g', 'static', v['id'])
            self.env[v['id']] = LV(loc)
            if loc not in self.S.store:
                self.lt[loc] = v['t']
                if v.get('init') is not None and v.get('const'): self.init_loc(loc, v['t'], v['init'])
                elif v.get('init') is not None: 
                    self.init_loc(loc, v['t'], v['init'])
                else: self.S.store[loc] = self.default(v['t'], loc, zero=True)
            if not v.get('const') and self.rec: self.statics.append((v['name'], self.line) + self.where())
            if self.par:
                for r in self.par: r['shared'].add(loc)
            return
        if v.get('ref') and v.get('init') is not None:
            self.env[v['id']] = self.lv(v['init'])
            return
        loc = self.new('v', v['name'])
        if self.scopes: self.scopes[-1].append(loc)
        self.lt[loc] = v['t']
        if v.get('init') is not None: self.init_loc(loc, v['t'], v['init'])
        elif not self.is_repo_class(v['t']): self.S.store[loc] = self.default(v['t'], loc)
        self.env[v['id']] = LV(loc)
    statics = ()
    iterlive = {}
    divlog = None            # (dividend, divisor) of integer divisions in a trial pass
    def s_if(self, s):
        if s.get('init'): self.ex(s['init'])
        if s.get('cv'): self.ex(s['cv'])
        c = decided(self.cond(s['c']), self.S.ctx)
        if c is TRUE: self.ex(s['a']); return
        if c is FALSE:
            if s.get('b'): self.ex(s['b'])
            return
        S0 = self.S
        env = self.env
        self.S = S0.assume(c); self.ex(s['a']); S1 = self.S
        self.env = env
        self.S = S0.assume(c_not(c))
        if s.get('b'): self.ex(s['b'])
        S2 = self.S
        self.env = env
        self.S = self.merge([S1, S2])
    def s_return(self, s):
        v = VOID
        if s.get('e') is not None:
            f = self.fstack[-1] if self.fstack else None
            if f is not None and f['ret'].get('ref'): v = self.lv(s['e'])
            else:
                v = self.ev(s['e'])
                if f is not None and isnum(v): 
                    if is_int(f['ret']['t']) and is_flt(s['e'].get('t', '')) and isinstance(v, Poly): v = self.trunc(v)
                    v = self.coerce(v, f['ret']['t'])
        self.ret.append((self.S, v)); self.S = None
    def s_break(self, s): self.brk.append(self.S); self.S = None
    def s_continue(self, s): self.cont.append(self.S); self.S = None
    def s_for(self, s, par=None):
        self.scopes.append([])
        marks = self.marks()
        env = dict(self.env)
        if s.get('init'): self.ex(s['init'])
        if self.S is not None:
            cn = s.get('c')
            body = lambda: self.ex(s['body'])
            if par is not None and par.get('collapse', 1) > 1:
                x = s['body']
                while x['k'] == 'block' and len(x['s']) == 1: x = x['s'][0]
                if x['k'] == 'for':
                    body = lambda: self.s_for(x, dict(par, acc=[], collapse=par['collapse'] - 1))
            self.loop(s, (lambda: self.cond(cn)) if cn else (lambda: TRUE),
                      (lambda: self.ev(s['inc'])) if s.get('inc') else (lambda: None), body, par)
        sc = self.scopes.pop()
        self.env = env
        self.leave(sc, marks)
    def s_while(self, s):
        def c():
            if s.get('cv'): self.ex(s['cv'])
            return self.cond(s['c'])
        self.loop(s, c, lambda: None, lambda: self.ex(s['body']))
    def s_do(self, s):
        sv = (self.brk, self.cont)
        self.brk, self.cont = [], []
        self.ex(s['body'])
        if self.brk:
            self.brk, self.cont = sv
            self.note('loop', 'break out of a do loop'); return
        self.S = self.merge(self.cont + [self.S])
        self.brk, self.cont = sv
        if self.S is None: return
        self.loop(s, lambda: self.cond(s['c']), lambda: None, lambda: self.ex(s['body']))
    def s_rangefor(self, s, par=None):
        l = self.lv(s['range'])
        self.range_loop(s, l, s['var'], lambda: self.ex(s['body']), par)
    def range_loop(self, s, l, var, body, par=None):
        v = self.S.store.get(l.loc) if l.loc is not None else None
        if l.idx is not None and isinstance(v, Vec):
            l = self.temp(self.read(l)); v = self.S.store[l.loc]
        if isinstance(v, Lst):
            v_n = P(len(v.v))
        elif isinstance(v, Vec): v_n = v.size
        else:
            self.note('unsupported', 'range-for over an unknown range'); v_n = top('range')
        il = self.new('v', 'range')
        self.S.store[il] = ZERO; self.lt[il] = 'long'
        env = dict(self.env)
        def b():
            i = self.S.store[il]
            if var.get('ref'): self.env[var['id']] = LV(l.loc, (i,))
            else:
                vl = self.new('v', var['name']); self.lt[vl] = var['t']
                self.S.store[vl] = self.coerce(self.read(LV(l.loc, (i,))), var['t'])
                self.env[var['id']] = LV(vl)
            body()
        def inc(): self.S.store[il] = self.S.store[il] + 1
        self.loop(s, lambda: ge0(v_n - 1 - self.S.store[il]), inc, b, par)
        self.env = env
        if self.S is not None: self.S.store.pop(il, None)
    def s_switch(self, s):
        v = self.ival(s['c'])
        body = s['body']['s'] if s['body']['k'] == 'block' else [s['body']]
        flat = []
        for x in body:
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x); x = x['s']
            flat.append((labels, x))
        cases_ = []
        for i, (labels, x) in enumerate(flat):
            for lab in labels: cases_.append((i, None if lab['k'] == 'default' else self.ival(lab['v'])))
        S0 = self.S
        svb = self.brk; self.brk = []
        outs = []
        nots = []
        default = None
        def run(i, st):
            self.S = st
            for labels, x in flat[i:]:
                if x is not None: self.ex(x)
                if self.S is None: return None
            return self.S
        for i, val in cases_:
            if val is None: default = i; continue
            c = decided(eq0(v - val), S0.ctx)
            if c is FALSE: continue
            outs.append(run(i, S0.assume(c_and(c, *nots))))
            nots.append(c_not(c))
            if c is TRUE: break
        else:
            st = S0.assume(c_and(*nots)) if nots else S0.copy()
            outs.append(run(default, st) if default is not None else st)
        outs += self.brk
        self.brk = svb
        self.S = self.merge(outs)
    def s_case(self, s): self.ex(s['s'])
    s_default = s_case
    def s_try(self, s): self.ex(s['body'])
    def s_omp(self, s):
        d = s['dir']
        if 'for' in d.split() or d in ('for', 'parallel for', 'for simd', 'parallel for simd', 'taskloop'):
            par = d.startswith('parallel') or any(r.get('team') for r in self.par)
            body = s['body']
            while body['k'] == 'block' and len(body['s']) == 1: body = body['s'][0]
            if d.startswith('parallel') or d.startswith('for') or True:
                return self.parallel_for(s, body)
        if d == 'simd':
            return self.ex(s['body'])
        if d in ('parallel sections', 'sections'):
            return self.sections(s)
        if d == 'section': return self.ex(s['body'])
        if d in ('critical', 'atomic', 'single', 'master', 'masked', 'ordered', 'barrier', 'flush'):
            self.guardlvl.append(d + ':' + s['name'] if s.get('name') else d)
            try: self.ex(s['body'])
            finally: self.guardlvl.pop()
            return
        if d == 'parallel':
            # a team executes the body: work-sharing constructs inside split it
            private, red = self.clause_vars(s)
            keep = self.clause_rules(s)
            r = dict(kind='team', shared=set(self.S.store), private=private | set(red), acc=[], nloops=len(self.loops), team=True, sec=None)
            self.par.append(r)
            try: self.ex(s['body'])
            finally: self.par.pop()
            if self.S is not None: self.S.store.update({l: v for l, v in keep.items() if l in self.S.store})
            self.team_check(s, r)
            return
        self.note('unsupported', 'omp %s' % d)
        self.ex(s['body'])
    guardlvl = []
    def clause_vars(self, s):
        private, red = set(), {}
        for c in s.get('clauses', []):
            for v in c.get('vars', []):
                if v.get('k') == 'ref' and v['id'] in self.env:
                    l = self.env[v['id']].loc
                    if c['c'] in ('private', 'firstprivate', 'lastprivate', 'linear'): private.add(l)
                    elif c['c'] == 'reduction': red[l] = c.get('op', '+')
        return private, red
    def clause_rules(self, s):
        """reduction operators fit the updates; private scalars carry nothing from one iteration to the next; returns values to restore"""
        keep = {}
        for c in s.get('clauses', []):
            for v in c.get('vars', []):
                if v.get('k') != 'ref' or v['id'] not in self.env: continue
                l = self.env[v['id']].loc
                if c['c'] == 'reduction':
                    red = c.get('op', '+').replace('operator', '').strip()
                    for o, line in sorted(set(updates(s['body'], v['id'])), key=str):
                        ok = o == red or {o, red} <= {'+', '-'} or {o, red} <= {'*', '/'}
                        self.oblig('race', 'reduction over %s combines with the operator of its updates' % v.get('n'), 'proved' if ok else 'violated',
                                   None if ok else {'reduction': red, 'update': o, 'line': line}, s.get('l'))
                elif c['c'] in ('private', 'firstprivate', 'lastprivate'):
                    old = self.S.store.get(l)
                    if not isinstance(old, (Poly, Cond, Cx)): continue
                    if c['c'] != 'lastprivate': keep[l] = old
                    fi = first_use(s['body'], v['id'])
                    if fi in ('rw',):
                        self.oblig('race', 'private variable %s is set before it is used in every iteration' % v.get('n'), 'violated',
                                   {'clause': c['c'], 'variable': v.get('n')}, s.get('l'))
        for c in s.get('clauses', []):
            if c['c'] == 'lastprivate':
                for v in c.get('vars', []):
                    if v.get('k') == 'ref' and v['id'] in self.env: keep.pop(self.env[v['id']].loc, None)
        return keep
    def parallel_for(self, s, f):
        if self.S is None: return
        keep = self.clause_rules(s)
        self.parallel_for_(s, f)
        if self.S is not None: self.S.store.update({l: v for l, v in keep.items() if l in self.S.store})
    def parallel_for_(self, s, f):
        private, red = self.clause_vars(s)
        for r2 in self.par:
            if r2.get('team'): private = private | r2['private']     # each thread of the team has its own
        r = dict(kind='for', shared=None, private=private | set(red), red=red, acc=[], stmt=s, line=s.get('l'))
        for c in s.get('clauses', []):
            if c['c'] == 'collapse' and c.get('n') is not None:
                k = self.ival(c['n'])
                if k.const() is not None: r['collapse'] = int(k.const())
        if f['k'] == 'for': self.s_for(f, r)
        elif f['k'] == 'rangefor': self.s_rangefor(f, r)
        else: self.ex(f)
    def sections(self, s):
        private, red = self.clause_vars(s)
        body = s['body']
        secs = [x for x in body['s']] if body['k'] == 'block' else [body]
        r = dict(kind='sections', shared=set(self.S.store), private=private | set(red), acc=[], nloops=len(self.loops))
        self.par.append(r)
        groups = []
        try:
            for x in secs:
                r['acc'] = []
                self.ex(x['body'] if x['k'] == 'omp' and x['dir'] == 'section' else x)
                groups.append(r['acc'])
                if self.S is None: break
        finally: self.par.pop()
        if self.rec: self.race_sections(s, groups)

class Dead(Exception): pass
class ObjV:
    __slots__ = ('loc',)
    def __init__(s, loc): s.loc = loc
    def __repr__(s): return 'Obj%s' % (s.loc,)

def is_var(n, i):
    while n is not None and n.get('k') in ('cast', 'paren'): n = n.get('e')
    return n is not None and n.get('k') == 'ref' and n.get('id') == i
def kids(n):
    for k, v in n.items():
        if isinstance(v, dict): yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict): yield x
def updates(n, i):
    """operators by which variable i is updated in the tree: [(operator, line)]"""
    out = []
    k = n.get('k')
    if k == 'cassign' and is_var(n['a'], i): out.append((n['op'], n.get('l')))
    elif k == 'un' and n.get('op') in ('++', '--') and is_var(n['e'], i): out.append((n['op'][0], n.get('l')))
    elif k == 'assign' and is_var(n['a'], i):
        b = n['b']
        while b is not None and b.get('k') in ('cast', 'paren'): b = b.get('e')
        if b is not None and b.get('k') == 'call' and b.get('fn', {}).get('n') in ('max', 'min', 'fmax', 'fmin') and any(is_var(x, i) for x in b['args']): out.append((b['fn']['n'].lstrip('f'), n.get('l')))
        elif b is not None and b.get('k') == 'bin' and b['op'] in ('+', '-', '*') and is_var(b['a'], i): out.append((b['op'], n.get('l')))
    for x in kids(n): out += updates(x, i)
    return out
def mentions(n, i): return n.get('k') == 'ref' and n.get('id') == i or any(mentions(x, i) for x in kids(n))
def first_use(n, i):
    """how a loop body first touches variable i: 'w' set, 'rw' updated from its old value, '?' not clear, None not at all"""
    if not mentions(n, i): return None
    k = n.get('k')
    if k == 'block' or k == 'omp':
        for x in (n['s'] if k == 'block' else [n['body']]):
            r = first_use(x, i)
            if r is not None: return r
        return None
    if k in ('for', 'rangefor'): return first_use(n['body'], i) if not any(mentions(x, i) for f, x in n.items() if f != 'body' and isinstance(x, dict)) else '?'
    if k == 'expr' or k in ('paren', 'cleanups'):
        L = list(kids(n))
        return first_use(L[0], i) if len(L) == 1 else '?'
    if k == 'assign' and is_var(n['a'], i): return 'w' if not mentions(n['b'], i) else '?'
    if k == 'cassign' and is_var(n['a'], i): return 'rw'
    if k == 'un' and n.get('op') in ('++', '--') and is_var(n['e'], i): return 'rw'
    return '?'

def assert_call(n):
    while n is not None and n.get('k') == 'cast': n = n['e']
    if n is not None and n.get('k') == 'call' and n.get('fn', {}).get('q', '') in ('__assert_fail', '__assert'): return n
    return None

def src(n, d=0):
    """short rendering of an expression node for messages"""
    if n is None: return ''
    if d > 6: return '..'
    k = n.get('k')
    if k == 'ref': return n.get('n', '?')
    if k == 'member':
        b = src(n['base'], d + 1)
        return n['f'] if b == 'this' else '%s.%s' % (b, n['f'])
    if k in ('int', 'float', 'bool'): return str(n['v'])
    if k == 'str': return repr(n['v'])
    if k == 'this': return 'this'
    if k == 'cast': return src(n['e'], d)
    if k == 'un': return n['op'] + src(n['e'], d + 1) if not n.get('post') else src(n['e'], d + 1) + n['op']
    if k in ('bin', 'assign'): return '%s%s%s' % (src(n['a'], d + 1), n['op'], src(n['b'], d + 1))
    if k == 'cassign': return '%s%s=%s' % (src(n['a'], d + 1), n['op'], src(n['b'], d + 1))
    if k == 'sub': return '%s[%s]' % (src(n['a'], d + 1), src(n['b'], d + 1))
    if k == 'opcall':
        if n['op'] == '[]': return '%s[%s]' % (src(n['args'][0], d + 1), src(n['args'][1], d + 1))
        return n['op'].join(src(a, d + 1) for a in n['args'])
    if k == 'mcall': return '%s.%s(%s)' % (src(n['obj'], d + 1), n.get('fn', {}).get('n', '?'), ','.join(src(a, d + 1) for a in n['args']))
    if k == 'call': return '%s(%s)' % (n.get('fn', {}).get('n', '?'), ','.join(src(a, d + 1) for a in n['args']))
    if k == 'construct': return '%s(%s)' % (n['t'][:20], ','.join(src(a, d + 1) for a in n['args']))
    if k == 'cond': return '%s?%s:%s' % (src(n['c'], d + 1), src(n['a'], d + 1), src(n['b'], d + 1))
    return k or '?'
