"""Models of the library calls the solver may use (containers, <cmath>, <complex>, FFTW, SHTns, streams)."""
from interp import *
import interp as I
import re
from loops import Loops

EXITS = {'exit', 'quick_exit', '_Exit', '_exit', 'abort', 'terminate', 'std::exit', 'std::quick_exit', 'std::_Exit', 'std::abort', 'std::terminate'}
MATH = {'sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'fabs', 'pow', 'acos', 'asin', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'cbrt',
        'log10', 'log2', 'exp2', 'expm1', 'log1p', 'floor', 'ceil', 'round', 'trunc', 'hypot', 'fma', 'fmin', 'fmax', 'abs', 'copysign', 'fmod', 'isnan', 'isfinite', 'isinf'}

def nlm_of(lmax, mmax): return P(atom('nlm', lmax, mmax, isint=True))
def LM_of(lmax, l, m): return P(atom('LM', lmax, l, m, isint=True))

class Machine(Loops, Interp):
    def __init__(self, prog, opaque=None, ctx=None):
        self.exits = []; self.allocs = []; self.iterlive = {}; self.copies = []; self.statics = []; self.guardlvl = []
        self.libuse = set()
        self.conv = []
        Interp.__init__(self, prog, opaque, ctx)

    # ------------------------------------------------------------ small helpers
    def args(self, n, k=0): return [self.unrow(self.ev(a)) for a in n['args'][k:]]
    views = None
    def unrow(self, p):
        """inside a library call a pointer into a row of a nested container becomes one into a copy of the row (written back after the call)"""
        if not isinstance(p, Ptr) or not p.pre or self.views is None: return p
        for q, t, v in self.views:
            if q.loc == p.loc and q.pre == p.pre: return Ptr(t.loc, p.off)
        x = self.S.store.get(p.loc)
        if not isinstance(x, Vec): return p
        v = self.read(LV(p.loc, p.pre))
        t = self.temp(v)
        self.views.append((p, t, v))
        return Ptr(t.loc, p.off)
    def libcall(self, q, fn, obj, n):
        sv, self.views = self.views, []
        try:
            r = self.libcall_(q, fn, obj, n)
            if self.S is not None:
                for p, t, v in self.views:
                    w = self.S.store.get(t.loc)
                    if w is not v: self.write(LV(p.loc, p.pre), w)
                    if isinstance(r, Ptr) and r.loc == t.loc: r = Ptr(p.loc, r.off, p.pre)
            return r
        finally: self.views = sv
    def event(self, *e):
        self.S.ev = self.S.ev + (e,)
    def vec_at(self, lv):
        """the Vec designated by an lvalue (a row of a nested vector becomes a copy)"""
        v = self.S.store.get(lv.loc) if lv.loc is not None else None
        if lv.idx is None or not isinstance(v, Vec): return v
        if v.inner is not None: return Vec(v.inner, row(v.arr, lv.idx))
        return None
    def set_vec(self, lv, v):
        if lv.loc is None: return
        if lv.idx is None:
            self.access(lv.loc, None, 'w', self.S.store.get(lv.loc))
            self.S.store[lv.loc] = v
        else: self.write(lv, v)
    def assign_val(self, lv, v):
        if isinstance(v, LV): v = self.read(v)
        if isinstance(v, ObjV):
            if lv.loc is not None:
                for k in [k for k in self.S.store if k[:len(lv.loc)] == lv.loc and len(k) > len(lv.loc)]: del self.S.store[k]
                self.copyobj(v.loc, lv.loc)
                self.copies.append((self.lt.get(lv.loc, '?'), self.line) + self.where())
            return
        if isinstance(v, Vec) and lv.loc is not None and lv.idx is not None:
            cur = self.S.store.get(lv.loc)
            if isinstance(cur, Vec) and cur.inner is not None and cur.inner is not v.size:
                if cur.inner is ZERO: self.S.store[lv.loc] = Vec(cur.size, cur.arr, v.size)
                else: self.note('unsupported', 'rows of different lengths')
        if isinstance(v, Vec) and lv.loc is not None and lv.idx is None:
            self.access(lv.loc, None, 'w', self.S.store.get(lv.loc))
            cur = self.S.store.get(lv.loc)
            if isinstance(cur, Vec) and cur.arr.et != v.arr.et and v.arr.k == 'fill':
                v = Vec(v.size, fill(C(v.arr.a[0]) if cur.arr.et == 'cplx' else v.arr.a[0], cur.arr.et), v.inner)
            self.S.store[lv.loc] = v
            return
        self.write(lv, v)

    # ------------------------------------------------------------ operators
    def stream_of(self, n):
        """LV/Opq of a stream expression"""
        e = n
        while e['k'] == 'cast': e = e['e']
        if e['k'] == 'ref' and e.get('global') and e.get('n') in ('cout', 'cerr', 'clog', 'cin', 'wcout'): return Opq('std', e['n'])
        l = self.lv(n)
        v = self.S.store.get(l.loc) if l.loc is not None else None
        if isinstance(v, Opq) and v.tag[0] == 'std': return v
        return l
    def opcall(self, n, want_lv=False):
        op_ = n['op']
        a = n['args']
        fn = n.get('fn') or {}
        t0 = a[0]['t'] if a else ''
        f = self.p.fn.get(fn.get('usr'))
        if f is not None and f.get('body') is not None:
            if n.get('ismethod'):
                o = self.lv(a[0])
                binds = [self.bind(p, x) for p, x in zip(f['params'], a[1:])]
                r = self.call_fn(f, o.loc, binds)
            else:
                binds = [self.bind(p, x) for p, x in zip(f['params'], a)]
                r = self.call_fn(f, None, binds)
            return r
        if op_ == '()':
            c = self.ev(a[0])
            if isinstance(c, Clo): return self.call_clo(c, a[1:])
            for x in a[1:]: self.ev(x)
            return self.unknown(n['t'], 'call of an unknown callable')
        if op_ == '[]' or (op_ == '*' and len(a) == 1):
            return self.lv(n)
        if op_ in ('<<', '>>') and ('stream<' in t0 or 'stream<' in n['t'] or t0.endswith('ostream') ):
            return self.shift(n, op_)
        if op_ == '=':
            if self.is_repo_class(n['t']) :
                o, s = self.lv(a[0]), self.lv(a[1])
                if o.loc is not None and s.loc is not None: self.assign_val(o, ObjV(s.loc))
                return o
            if is_smart(plain_t(n['t'])) and is_smart(plain_t(a[1]['t'])) and n['t'].startswith('std::unique'):
                v = self.taken(a[1])
                o = self.lv(a[0])
                old = self.read(o)
                self.S.store[o.loc] = v
                if old is not v: self.unpoint(old, plain_t(n['t']))
                return o
            v = self.ev(a[1])
            o = self.lv(a[0])
            if is_smart(plain_t(n['t'])): self.unpoint(self.read(o), plain_t(n['t']))
            self.assign_val(o, v)
            return o
        if op_ in ('+=', '-=', '*=', '/='):
            v = self.ev(a[1])
            o = self.lv(a[0])
            cur = self.read(o)
            if isinstance(cur, Strv):
                self.write(o, self.strcat(cur, v)); return o
            if isinstance(cur, Ptr) and isinstance(v, Poly) and cur.off is not None:
                self.write(o, cur.to(cur.off + v if op_ == '+=' else cur.off - v)); return o
            if isnum(cur) and isnum(v):
                self.write(o, self.binop(op_[0], cur, v, n['t'], t0, a[1]['t'])); return o
            self.write(o, self.unknown(n['t'], op_)); return o
        if op_ in ('++', '--'):
            o = self.lv(a[0])
            old = self.read(o)
            self.incdec({'op': op_}, o)
            return old if len(a) > 1 else o
        if op_ == '!' and ('stream<' in t0 or t0.startswith('std::basic_ios') or t0.startswith('std::ios')):
            return self.streammeth('operator!', self.lv(a[0]), dict(n, args=[]))
        vals = [self.ev(x) for x in a]
        if op_ == '->': return vals[0]
        if op_ == '+' and (isinstance(vals[0], Strv) or (len(vals) > 1 and isinstance(vals[1], Strv))):
            return self.strcat(vals[0], vals[1])
        if op_ in ('==', '!=') and len(vals) == 2:
            x, y = vals
            if isinstance(x, Strv) and isinstance(y, Strv):
                c = self.streq(x, y)
                return c if op_ == '==' else c_not(c)
        if op_ == '-' and len(vals) == 1 and isnum(vals[0]): return -vals[0]
        if op_ == '+' and len(vals) == 1: return vals[0]
        if op_ in ('|', '&', '^') and not all(isinstance(v, Poly) for v in vals):
            return Opq('flags', op_) + () if False else Opq('flags', op_, self.new())
        if len(vals) == 2:
            return self.binop(op_, vals[0], vals[1], n['t'], a[0]['t'], a[1]['t'], n)
        return self.unknown(n['t'], 'operator' + op_)
    def strcat(self, a, b):
        pa = a.p if isinstance(a, Strv) else (self.chars(a),)
        pb = b.p if isinstance(b, Strv) else (self.chars(b),)
        return Strv(*pa, *pb)
    def chars(self, v):
        if isinstance(v, Poly) and v.const() is not None: return chr(int(v.const()) % 256)
        return ('val', v)
    def streq(self, x, y):
        if x == y: return TRUE
        if all(isinstance(p, str) for p in x.p + y.p): return FALSE
        return opaque('streq', x.p, y.p)

    # ------------------------------------------------------------ streams
    def shift(self, n, op_):
        a = n['args']
        s = self.stream_of_chain(a[0], op_)
        if op_ == '<<':
            v = self.ev(a[1])
            if isinstance(v, LV): v = self.read(v)
            if isinstance(v, Fn): v = Opq('manip', v.fn['q'])
            if isinstance(s, Opq): self.event('cout', v, self.line) if self.keep_cout else None
            elif s.loc is not None: self.event('out', s.loc, v, self.line, a[1]['t'])
            return s
        l = self.lv(a[1])
        tag = self.S.store.get(s.loc) if isinstance(s, LV) and s.loc is not None else None
        src_ = tag.tag if isinstance(tag, Opq) else ('?',)
        # token extraction: k-th token of the stream contents
        t = a[1]['t']
        tok = ('tok', src_)
        self.event('extract', s.loc if isinstance(s, LV) else None, self.line)
        if isinstance(s, LV) and s.loc is not None: self.S.store[s.loc] = Opq('after', 'tok', src_)
        if is_str(t): self.write(l, Strv(tok))
        elif is_int(t): self.write(l, P(atom('parsed', 'int', tok, isint=True)))
        elif is_flt(t): self.write(l, P(atom('parsed', 'real', tok)))
        else: self.write(l, self.unknown(t, '>>'))
        return s
    def stream_of_chain(self, n, op_):
        e = n
        while e['k'] == 'cast': e = e['e']
        if e['k'] == 'opcall' and e['op'] == op_ and 'stream<' in e['args'][0]['t'] + e['t']:
            return self.shift(e, op_)
        return self.stream_of(n)

    # ------------------------------------------------------------ constructors
    def lib_construct(self, n):
        t = n['t']; a = n['args']
        if is_vec(t):
            e = vec_elem(t); et = et_of(e)
            a = [x for x in a if not x['t'].startswith('std::allocator<')]
            if not a: return self.default(t, self.new('t'))
            if n.get('list') or (len(a) == 1 and 'initializer_list' in a[0]['t']):
                return self.vec_list(t, a)
            v0 = self.ev(a[0])
            if isinstance(v0, Vec): return v0
            if isinstance(v0, Ptr):
                v1 = self.ev(a[1])
                return self.vec_range(v0, v1, et)
            n0 = self.unsval(v0, 'unsigned long') if isinstance(v0, Poly) else top('size')
            if isinstance(n0, Poly) and not n0.isint(): n0 = self.trunc(n0)
            if len(a) == 1:
                return self.vec_n(n0, e, None)
            return self.vec_n(n0, e, self.ev(a[1]))
        if is_str(t):
            a = [x for x in a if 'std::allocator' not in x['t'] or is_str(x['t'])]
            if not a: return Strv()
            vs = [self.ev(x) for x in a]
            if len(vs) == 1: return vs[0] if isinstance(vs[0], Strv) else Strv(('cstr', self.tagof(vs[0])))
            return Strv(('str', self.new()))
        if is_cplx(t):
            vs = [self.ev(x) for x in a]
            if len(vs) == 1 and isinstance(vs[0], Cx): return vs[0]
            vs = [P(v) if isinstance(v, Cond) else v for v in vs]
            if not all(isinstance(v, Poly) for v in vs): return Cx(top('complex'), top('complex'))
            return Cx(vs[0] if vs else ZERO, vs[1] if len(vs) > 1 else ZERO)
        if 'stream<' in t:
            vs = [self.ev(x) for x in a]
            if 'ifstream' in t or 'fstream' in t and 'ofstream' not in t:
                return Opq('stream', 'file', vs[0] if vs else None)
            if 'ofstream' in t:
                l = self.new('s', 'ofstream')
                o = Opq('stream', 'ofile', l)
                if vs: self.event('open', l, vs[0], tuple(self.tagof(v) for v in vs[1:]), self.line)
                self.pending_stream = l
                return o
            if 'istringstream' in t or 'stringstream' in t:
                return Opq('stream', 'str', vs[0] if vs else Strv())
            return Opq('stream', t)
        m = re.match(r'(?:const )?std::(plus|minus|multiplies|divides|negate|less|greater)<', t)
        if m and not a: return Opq('functor', {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/', 'negate': 'neg', 'less': '<', 'greater': '>'}[m.group(1)])
        if t.startswith('std::pair<') and len(a) in (0, 2):
            ts = template_args(t)
            return self.pair(ts, [self.ev(x) for x in a] if a else [None, None])
        if 'unique_ptr' in t or 'shared_ptr' in t:
            if not a: return NULL
            v = self.taken(a[0]) if is_smart(plain_t(a[0]['t'])) else self.ev(a[0])
            if isinstance(v, Ptr) and len(a) > 1: self.S.store[v.loc + ('#del',)] = self.ev(a[1])
            return v
        if '_Setprecision' in t or '_Setw' in t: return self.ev(a[0])
        if t.startswith('std::array<') and a: return self.ev(a[0])
        if t.startswith('std::function<') and a: return self.ev(a[0])
        vs = [self.ev(x) for x in a]
        if 'initializer_list' in t and len(vs) == 1: return vs[0]
        return Opq('lib', t, tuple(self.tagof(v) for v in vs))
    def tagof(self, v):
        if isinstance(v, (Opq, Strv, Poly, Cond, Ptr, LV)): return v
        return self.new()
    def after_init(self, loc, v):
        # stream object: keep the description of its source
        self.S.store[loc] = v
        if v.tag[0] == 'stream' and len(v.tag) > 1 and v.tag[1] == 'ofile':
            self.S.store[loc] = Opq('stream', 'ofile', loc)
            old = v.tag[2]
            self.S.ev = tuple((('open', loc) + e[2:]) if e[0] == 'open' and e[1] == old else e for e in self.S.ev)
    def vec_n(self, n, e, v):
        et = et_of(e)
        if is_vec(e):
            if isinstance(v, Vec): return Vec(n, fill(v.arr.a[0], et, nd=2) if v.arr.k == 'fill' else self.rows_of(v.arr, n), v.size)
            return Vec(n, fill(zero_of(et), et, nd=2), ZERO)
        if et == 'other':
            if n.const() is not None and n.const() <= 64: return Lst([v if v is not None else Strv() if is_str(e) else Opq('object', self.new())] * int(n.const()))
            return Opq('container', self.new())
        if v is None: v = zero_of(et)
        if isinstance(v, Cond) and et != 'bool': v = P(v)
        if et == 'cplx': v = C(v) if isnum(v) else v
        if et == 'bool' and isinstance(v, Poly): v = B(v)
        if not isnum(v): v = top('fill value')
        return Vec(n, fill(v, et))
    def rows_of(self, arr, n):
        k = fresh('r', True); j = fresh('j', True)
        return uninit(self.new(), arr.et, nd=2)
    def vec_list(self, t, a):
        e = vec_elem(t); et = et_of(e)
        x = a[0]
        while x['k'] in ('cast', 'construct') and len(x.get('args', [])) == 1 or x['k'] == 'cast':
            x = x['e'] if x['k'] == 'cast' else x['args'][0]
        if x['k'] == 'initlist': items = [self.ev(y) for y in x['args']]
        else:
            v = self.ev(x)
            if isinstance(v, (Vec, Lst)): return v
            items = [self.ev(y) for y in a]
        if et == 'other' or not all(isnum(i) for i in items):
            if is_vec(e) and items and all(isinstance(i, Vec) for i in items):
                b = fill(zero_of(et), et, nd=2)
                for k, i in enumerate(items): b = A.scat(b, (), TRUE, (P(k),), i.arr)
                return Vec(P(len(items)), b, items[0].size)
            return Lst(items)
        b = fill(zero_of(et), et)
        for k, i in enumerate(items): b = A.store(b, (P(k),), C(i) if et == 'cplx' else P(i) if isinstance(i, Cond) else i)
        return Vec(P(len(items)), b)
    def vec_range(self, p, q, et):
        if isinstance(p, Ptr) and isinstance(q, Ptr) and p.pre and p.loc == q.loc and p.pre == q.pre and p.off is not None and q.off is not None:
            v = self.read(LV(p.loc, p.pre))
            if isinstance(v, Vec): return Vec(q.off - p.off, self.slice(v.arr, p.off, q.off - p.off))
        if isinstance(p, Ptr) and isinstance(q, Ptr) and p.loc == q.loc and p.off is not None and q.off is not None:
            v = self.S.store.get(p.loc)
            if isinstance(v, Vec):
                self.access_range(p.loc, p.off, q.off - p.off, 'r')
                n = q.off - p.off
                return Vec(n, self.slice(v.arr, p.off, n))
        self.note('unsupported', 'container from an unknown range')
        return Vec(top('range size'), uninit(self.new(), et))
    def slice(self, arr, off, n):
        if off is ZERO: return arr
        J = fresh('J', True)
        c = self.S.ctx.add(ge0(J), ge0(n - 1 - J))
        return mklam(J, n, get(arr, (off + J,), c), arr.et)
    def access_range(self, loc, off, n, rw):
        """records an access to loc[off..off+n)"""
        v = self.S.store.get(loc)
        if isinstance(v, Vec) and self.rec:
            c = c_or(ge0(-n), c_and(ge0(off), ge0(v.size - off - n)))
            if not self.S.ctx.prove(ge0(-n)): self.check('bounds', c, 'block of elements %s..' % (loc_label(loc),))
        if self.par and self.rec:
            k = fresh('e', True)
            self.loops.append((k.single(), n))
            try: self.access(loc, (off + k,), rw, v)
            finally: self.loops.pop()
    def scatter_range(self, p, n, body):
        """p[k] = body(k) for 0<=k<n"""
        v = self.S.store.get(p.loc)
        if not isinstance(v, Vec) or p.off is None:
            self.note('unsupported', 'write through an unknown iterator'); return
        self.access_range(p.loc, p.off, n, 'w')
        k = fresh('k', True)
        c = self.S.ctx.add(ge0(k), ge0(n - 1 - k))
        old = A.CUR[0]; A.CUR[0] = c
        try: val = body(k, c)
        finally: A.CUR[0] = old
        if v.arr.et == 'cplx': val = C(val)
        elif isinstance(val, Cond) and v.arr.et != 'bool': val = P(val)
        self.S.store[p.loc] = Vec(v.size, A.scat(v.arr, ((k.single(), n),), TRUE, (p.off + k,), val), v.inner)

    # ------------------------------------------------------------ library calls
    def libcall_(self, q, fn, obj, n):
        self.libuse.add(q)
        a = n['args']
        last = q.rsplit('::', 1)[-1]
        bare = q[5:] if q.startswith('std::') else q
        if fn.get('noret') or q in EXITS or bare in EXITS:
            vs = [self.ev(x) for x in a]
            self.die((q, vs[0] if vs else None))
        if q.startswith('std::vector::') or q.startswith('std::array::') or (obj is not None and q.startswith('std::_Bit')): return self.vecmeth(last, obj, n)
        if q.startswith('std::complex::'):
            c = self.read(obj)
            if last in ('real', 'imag') and isnum(c):
                c = C(c)
                if a:
                    v = self.ev(a[0])
                    self.write(obj, Cx(v, c.im) if last == 'real' else Cx(c.re, v)); return VOID
                return c.re if last == 'real' else c.im
            return self.unknown(n['t'], q)
        if q.startswith('std::basic_string::'): return self.strmeth(last, obj, n)
        if q.startswith('std::basic_') or q.startswith('std::ios'): return self.streammeth(last, obj, n)
        if q.startswith('std::unique_ptr') or q.startswith('std::shared_ptr'):
            if last == 'get': return self.read(obj)
            if last == 'operator bool': return FALSE if self.read(obj) is NULL else TRUE if isinstance(self.read(obj), Ptr) else opaque('top', 'smart', self.new())
            if last == 'release' and q.startswith('std::unique_ptr'):
                v = self.read(obj); self.S.store[obj.loc] = NULL
                return v
            if last in ('reset', '~unique_ptr'):
                v = self.ev(a[0]) if a else NULL
                old = self.read(obj)
                self.S.store[obj.loc] = v
                self.unpoint(old, plain_t(n['obj']['t']))
                return VOID
            if last == 'swap' and len(a) == 1:
                o = self.lv(a[0])
                x, y = self.read(obj), self.read(o)
                self.S.store[obj.loc], self.S.store[o.loc] = y, x
                return VOID
        m = getattr(self, 'f_' + bare.replace('::', '_'), None)
        if m is not None: return m(n)
        if bare[-1:] in 'fl' and bare[:-1] in MATH and bare not in MATH: bare = bare[:-1]
        if bare in MATH:
            r = self.mathcall(bare, n)
            return self.narrow(r, 'float') if n['t'] == 'float' else r
        if bare.startswith('__builtin_') and bare[10:] in MATH: return self.mathcall(bare[10:], n)
        # unknown library function: arguments passed by mutable reference or pointer become unknown
        for x in a:
            try: v = self.ev(x)
            except Dead: raise
            if isinstance(v, Ptr):
                l = LV(v.loc); self.havoc_lv(l)
            elif x['k'] in ('ref', 'member', 'sub') or x['k'] == 'opcall' and x.get('op') in ('[]', '*'):
                self.havoc_lv(self.lv(x))
        self.note('unsupported', 'library function %s' % q)
        return self.unknown(n['t'], 'library function ' + q)
    def mathcall(self, f, n):
        vs = [self.ev(x) for x in n['args']]
        vs = [P(v) if isinstance(v, Cond) else v for v in vs]
        vs = [self.unsval(v, fl_from(x)) for v, x in zip(vs, n['args'])]
        if f in ('isnan', 'isinf'): return FALSE
        if f == 'isfinite': return TRUE
        if vs and isinstance(vs[0], Cx):
            c = vs[0]
            if f == 'abs': return T.sqrt(c.norm())
            if f == 'exp':
                e = T.fn('exp', c.re)
                return Cx(e * T.fn('cos', c.im), e * T.fn('sin', c.im))
            if f == 'pow' and len(vs) == 2 and isinstance(vs[1], Poly) and vs[1].const() is not None and vs[1].const().denominator == 1 and 0 <= vs[1].const() <= 16:
                r = Cx(ONE, ZERO)
                for _ in range(int(vs[1].const())): r = r * c
                return r
            return self.unknown(n['t'], f + ' of complex')
        if not all(isinstance(v, Poly) for v in vs): return self.unknown(n['t'], f)
        if f in ('fmin', 'fmax'): return self.minmax(vs[0], vs[1], f == 'fmin')
        if f == 'hypot': return T.sqrt(vs[0] * vs[0] + vs[1] * vs[1])
        if f == 'fma': return vs[0] * vs[1] + vs[2]
        if f == 'cbrt': return P(atom('fn', 'cbrt', vs[0]))
        if f == 'expm1': return T.fn('exp', vs[0]) - 1
        if f == 'log1p': return T.fn('log', vs[0] + 1)
        if f == 'log10': return T.fn('log', vs[0]) / T.fn('log', P(10))
        if f == 'log2': return T.fn('log', vs[0]) / T.fn('log', P(2))
        if f == 'exp2': return T.powr(P(2), vs[0])
        if f == 'acos':
            c = vs[0].const()
            if c == -1: return PI
            if c == 0: return PI / P(2)
            if c == 1: return ZERO
        if f == 'atan' and vs[0].const() == 1: return PI / P(4)
        if f == 'asin' and vs[0].const() == 1: return PI / P(2)
        if f == 'atan2' and vs[0] is ZERO and vs[1].const() == -1: return PI
        if f in ('cos', 'sin'):
            r = trigpi(f, vs[0])
            if r is not None: return r
            # sin/cos(acos(x))
            s = vs[0].single()
            if s is not None and s.kind == 'fn' and s.args[0] == 'acos':
                x = s.args[1]
                return x if f == 'cos' else T.sqrt(1 - x * x)
        if f in ('floor', 'ceil', 'round', 'trunc') and vs[0].isint(): return vs[0]
        if f == 'floor':
            p = vs[0]
            den = 1
            for c in p.m.values(): den = den * c.denominator // math.gcd(den, c.denominator)
            z = scale(p, F(den))
            if z.isint() and den > 1: return self.S.ctx.sdiv(z, P(den))
        if f in ('abs', 'fabs') and vs[0].isint():
            if self.S.ctx.prove_ge(vs[0]): return vs[0]
            if self.S.ctx.prove_ge(-vs[0]): return -vs[0]
        return T.fn(f, *vs)
    def minmax(self, a, b, mn):
        a, b = P(a), P(b)
        if a.isint() and b.isint():
            if self.S.ctx.prove_ge(b - a): return a if mn else b
            if self.S.ctx.prove_ge(a - b): return b if mn else a
        return pmin(a, b) if mn else pmax(a, b)
    def vecmeth(self, m, obj, n):
        a = n['args']
        v = self.vec_at(obj) if obj is not None else None
        if isinstance(v, Lst):
            if m == 'size': return P(len(v.v))
            if m == 'push_back' or m == 'emplace_back':
                self.write(obj, Lst(v.v + (self.ev(a[0]),))); return VOID
            if m in ('at',): return self.index(obj, self.ival(a[0]), n)
            if m in ('begin', 'cbegin'): return Ptr(obj.loc, ZERO)
            if m in ('end', 'cend'): return Ptr(obj.loc, P(len(v.v)))
            if m == 'back': return LV(obj.loc, (P(len(v.v) - 1),))
            if m == 'front': return LV(obj.loc, (ZERO,))
            if m == 'empty': return B(len(v.v) == 0)
            if m == 'resize' and isinstance(self.ev(a[0]), Poly):
                k = self.ev(a[0]).const()
                if k is not None and k <= 64:
                    self.write(obj, Lst((v.v + (Opq('object', self.new()),) * int(k))[:int(k)])); return VOID
        if not isinstance(v, Vec):
            for x in a: self.ev(x)
            self.note('unsupported', '%s of an unknown container' % m)
            if m in ('size', 'length'): return top('size of unknown container')
            return self.unknown(n['t'], m)
        if m in ('size', 'max_size', 'capacity'):
            if m != 'size': return top(m)
            return v.size
        if m == 'empty': return eq0(v.size)
        if m in ('data', 'begin', 'cbegin'):
            return Ptr(obj.loc, ZERO, obj.idx or ())
        if m in ('end', 'cend'):
            return Ptr(obj.loc, v.size, obj.idx or ())
        if m == 'reserve' or m == 'shrink_to_fit':
            for x in a: self.ev(x)
            return VOID
        if m == 'clear':
            self.set_vec(obj, Vec(ZERO, v.arr, v.inner)); return VOID
        if m == 'resize':
            k = self.unsval(self.ival(a[0]), 'unsigned long')
            if not k.isint(): k = self.trunc(k)
            x = self.ev(a[1]) if len(a) > 1 else None
            self.resize(obj, v, k, x); return VOID
        if m == 'assign':
            x = self.ev(a[0]); y = self.ev(a[1]) if len(a) > 1 else None
            if isinstance(x, Ptr): self.set_vec(obj, self.vec_range(x, y, v.arr.et)); return VOID
            if isinstance(x, Poly): self.set_vec(obj, self.vec_n(x, {'real': 'double', 'cplx': 'std::complex<double>', 'int': 'int', 'bool': 'bool'}.get(v.arr.et, 'double'), y)); return VOID
        if m in ('push_back', 'emplace_back'):
            x = self.ev(a[0])
            if isinstance(x, Vec):
                nv = Vec(v.size + 1, A.scat(v.arr, (), TRUE, (v.size,), x.arr), x.size if v.inner is ZERO else v.inner)
                self.set_vec(obj, nv); return VOID
            if isinstance(x, Cond) and v.arr.et != 'bool': x = P(x)
            if v.arr.et == 'cplx': x = C(x)
            self.set_vec(obj, Vec(v.size + 1, A.store(v.arr, (v.size,), x if isnum(x) else top('element')), v.inner)); return VOID
        if m == 'at':
            i = self.ival(a[0])
            return self.index(obj, i, n)
        if m in ('front', 'back'):
            i = ZERO if m == 'front' else v.size - 1
            return self.index(obj, i, n)
        if m == 'swap':
            o = self.lv(a[0]); w = self.vec_at(o)
            if isinstance(w, Vec):
                self.set_vec(obj, w); self.set_vec(o, v); return VOID
        if m == 'fill':
            x = self.ev(a[0])
            self.set_vec(obj, Vec(v.size, fill(C(x) if v.arr.et == 'cplx' else x, v.arr.et), v.inner)); return VOID
        if m == 'operator=' :
            self.assign_val(obj, self.ev(a[0])); return obj
        if m == 'pop_back':
            self.set_vec(obj, Vec(v.size - 1, v.arr, v.inner)); return VOID
        for x in a: self.ev(x)
        self.havoc_lv(obj)
        self.note('unsupported', 'container operation %s' % m)
        return self.unknown(n['t'], m)
    def resize(self, obj, v, k, x):
        if v.inner is not None:
            if isinstance(x, Vec):
                nr = x.size
                arr = fill(x.arr.a[0], x.arr.et, nd=2) if x.arr.k == 'fill' else uninit(self.new(), x.arr.et, nd=2)
            else: nr, arr = ZERO, fill(zero_of(v.arr.et), v.arr.et, nd=2)
            if v.size is ZERO: self.set_vec(obj, Vec(k, arr, nr)); return
            self.set_vec(obj, Vec(k, v.arr, v.inner)); return
        et = v.arr.et
        if x is None or not isnum(x): x = zero_of(et)
        if et == 'cplx': x = C(x)
        elif isinstance(x, Cond) and et != 'bool': x = P(x)
        if v.size is ZERO: self.set_vec(obj, Vec(k, fill(x, et))); return
        if self.S.ctx.prove_ge(v.size - k): self.set_vec(obj, Vec(k, v.arr)); return
        j = fresh('k', True)
        self.set_vec(obj, Vec(k, A.scat(v.arr, ((j.single(), pmax(ZERO, k - v.size) if not self.S.ctx.prove_ge(k - v.size) else k - v.size),), TRUE, (v.size + j,), x)))
    def strmeth(self, m, obj, n):
        s = self.read(obj)
        vs = [self.ev(x) for x in n['args']]
        if m in ('append', 'operator+=', 'push_back') and isinstance(s, Strv) and len(vs) == 1:
            self.write(obj, self.strcat(s, vs[0])); return obj
        if m in ('c_str', 'data'): return s
        if m == 'operator=' and len(vs) == 1: self.write(obj, vs[0]); return obj
        if m == 'compare' and isinstance(s, Strv) and len(vs) == 1 and isinstance(vs[0], Strv):
            return ite(self.streq(s, vs[0]), ZERO, ONE)
        if m in ('clear',): self.write(obj, Strv()); return VOID
        if m in ('size', 'length'):
            if isinstance(s, Strv) and all(isinstance(x, str) for x in s.p): return P(sum(len(x) for x in s.p))
            return P(atom('strlen', self.tagkey(s), isint=True))
        if m == 'empty':
            if isinstance(s, Strv) and not s.p: return TRUE
            if isinstance(s, Strv) and any(isinstance(x, str) and x for x in s.p): return FALSE
            return opaque('strempty', self.tagkey(s))
        if is_str(n['t']): return Strv(('strop', m, self.tagkey(s)) + tuple(self.tagkey(v) for v in vs))
        if is_int(n['t']): return P(atom('strop', m, self.tagkey(s), tuple(self.tagkey(v) for v in vs), isint=True))
        return self.unknown(n['t'], m)
    def tagkey(self, v):
        if isinstance(v, Strv): return v.p
        if isinstance(v, (Poly, Cond)): return v
        return self.new()
    def streammeth(self, m, obj, n):
        if obj is None or obj.loc is None:
            for x in n['args']: self.ev(x)
            return opaque('stream', self.new()) if n['t'] == 'bool' else self.unknown(n['t'], m)
        vs = [self.ev(x) for x in n['args']]
        st = self.S.store.get(obj.loc)
        if m == 'open':
            if isinstance(st, Opq) and st.tag[:2] == ('stream', 'file') or (isinstance(st, Opq) and 'ifstream' in self.lt.get(obj.loc, '')):
                self.S.store[obj.loc] = Opq('stream', 'file', vs[0])
            else:
                self.event('open', obj.loc, vs[0], tuple(self.tagof(v) for v in vs[1:]), self.line)
            return VOID
        if m == 'close':
            self.event('close', obj.loc); return VOID
        if m in ('is_open', 'good', 'operator bool', 'fail', 'bad', 'eof', 'operator!'):
            tag = st.tag if isinstance(st, Opq) else ('?', obj.loc)
            c = opaque('stream-ok', m if m in ('eof',) else 'ok', self.flat(tag))
            return c_not(c) if m in ('fail', 'bad', 'operator!') else c
        if m == 'str':
            if vs: self.S.store[obj.loc] = Opq('stream', 'str', vs[0]); return VOID
            return Strv(('sstr', obj.loc))
        if m in ('precision', 'width', 'setf', 'flags', 'fill', 'imbue', 'unsetf'):
            self.event('out', obj.loc, Opq('lib', m, tuple(self.tagof(v) for v in vs)), self.line, '')
            return self.unknown(n['t'], m)
        if m == 'flush': return obj
        if m == 'put' or m == 'write':
            self.event('out', obj.loc, vs[0], self.line, 'char'); return obj
        if m == 'get': return self.unknown(n['t'], m)
        if n['t'] == 'bool': return opaque('stream', m, self.flat(st.tag if isinstance(st, Opq) else ()))
        return self.unknown(n['t'], m)
    def flat(self, t):
        if isinstance(t, tuple): return tuple(self.flat(x) for x in t)
        if isinstance(t, Opq): return ('opq',) + self.flat(t.tag)
        if isinstance(t, Strv): return ('str',) + self.flat(t.p)
        if isinstance(t, (Poly, Cond, str, int)) or t is None: return t
        return repr(t)
    def f_getline(self, n):
        a = n['args']
        s = self.stream_of(a[0])
        l = self.lv(a[1])
        d = self.ev(a[2]) if len(a) > 2 else P(10)
        st = self.S.store.get(s.loc) if isinstance(s, LV) and s.loc is not None else Opq('std')
        tag = st.tag if isinstance(st, Opq) else ('?',)
        self.write(l, Strv(('line', self.flat(tag), d)))
        if isinstance(s, LV) and s.loc is not None: self.S.store[s.loc] = Opq('after', 'line', self.flat(tag), d)
        return s
    # --- algorithms
    def f_min(self, n): return self._mm(n, True)
    def f_max(self, n): return self._mm(n, False)
    def _mm(self, n, mn):
        vs = []
        for x in n['args']:
            v = self.ev(x)
            if isinstance(v, LV): v = self.read(v)
            vs.append(v)
        if len(vs) == 1 and isinstance(vs[0], Vec):
            k = vs[0].size.const()
            if k is not None and k <= 16: vs = [get(vs[0].arr, (P(i),), self.S.ctx) for i in range(int(k))]
        vs = [P(v) if isinstance(v, Cond) else v for v in vs]
        if not all(isinstance(v, Poly) for v in vs): return self.unknown(n['t'].rstrip('& '), 'min/max')
        if is_uns(n['t'].replace('const ', '')): vs = [self.unsval(v, 'unsigned long') for v in vs]
        r = vs[0]
        for v in vs[1:]: r = self.minmax(r, v, mn)
        return r
    def f_abs(self, n): return self.mathcall('abs', n)
    def f_swap(self, n):
        x, y = self.lv(n['args'][0]), self.lv(n['args'][1])
        a, b = self.read(x), self.read(y)
        self.assign_val(x, b); self.assign_val(y, a)
        return VOID
    def f_move(self, n): return self.lv(n['args'][0])
    f_forward = f_move
    def pair(self, ts, vs):
        loc = self.new('o', 'pair')
        for nm, t, v in zip(('.first', '.second'), ts, vs):
            self.lt[loc + (nm,)] = t
            if isinstance(v, ObjV): self.copyobj(v.loc, loc + (nm,))
            else: self.S.store[loc + (nm,)] = self.coerce(v, t) if v is not None else self.default(t, loc + (nm,), zero=True)
        return ObjV(loc)
    def f_make_pair(self, n):
        ts = template_args(n['t'])
        return self.pair(ts, [self.ev(x) for x in n['args']])
    def f_make_unique(self, n):
        a = template_args(n['t'])
        et = et_of(a[0][:-2] if a[0].endswith('[]') else a[0])
        loc = self.new('h', 'new')
        arr = a[0].endswith('[]')
        vs = [self.ev(x) for x in n['args']]
        if et == 'other' or (arr and (len(vs) != 1 or not isinstance(vs[0], Poly))): return self.unknown(n['t'], 'make_unique')
        self.S.store[loc] = Vec(vs[0], fill(zero_of(et), et)) if arr else self.coerce(vs[0], a[0]) if vs else zero_of(et)
        self.S.store[loc + ('#live',)] = TRUE
        self.S.store[loc + ('#how',)] = Strv('new[]' if arr else 'new')
        self.alloc(loc, 'new[]' if arr else 'new')
        return Ptr(loc, ZERO) if arr else Ptr(loc)
    def f_real(self, n): return C(self.ev(n['args'][0])).re
    def f_imag(self, n): return C(self.ev(n['args'][0])).im
    def f_norm(self, n): return C(self.ev(n['args'][0])).norm()
    def f_conj(self, n): return C(self.ev(n['args'][0])).conj()
    def f_polar(self, n):
        vs = self.args(n); r = vs[0]; t = vs[1] if len(vs) > 1 else ZERO
        return Cx(r * T.fn('cos', t), r * T.fn('sin', t))
    def fullrange(self, p, q):
        v = self.S.store.get(p.loc) if isinstance(p, Ptr) else None
        return isinstance(v, Vec) and p.off is ZERO and q.off is v.size
    def f_copy(self, n):
        p, q, d = self.args(n)[:3]
        if all(isinstance(x, Ptr) and x.off is not None for x in (p, q, d)) and p.loc == q.loc:
            return self.copyrange(p, q.off - p.off, d)
        self.havoc_args(p, q, d); return self.unknown(n['t'], 'copy')
    def f_copy_n(self, n):
        p, k, d = self.args(n)[:3]
        if isinstance(p, Ptr) and isinstance(d, Ptr) and isinstance(k, Poly): return self.copyrange(p, k, d)
        self.havoc_args(p, d); return self.unknown(n['t'], 'copy')
    def copyrange(self, p, k, d):
        v, w = self.S.store.get(p.loc), self.S.store.get(d.loc)
        if isinstance(v, Vec) and isinstance(w, Vec):
            self.access_range(p.loc, p.off, k, 'r')
            if d.off is ZERO and w.size is k and p.off is ZERO and v.arr.et == w.arr.et:
                self.access_range(d.loc, ZERO, k, 'w')
                self.S.store[d.loc] = Vec(w.size, v.arr, w.inner)
            else:
                arr = v.arr
                self.scatter_range(d, k, lambda i, c: get(arr, (p.off + i,), c))
            return Ptr(d.loc, d.off + k)
        self.havoc_args(d); return d
    def havoc_args(self, *ps):
        self.note('unsupported', 'algorithm over unknown iterators')
        for p in ps:
            if isinstance(p, Ptr): self.havoc_lv(LV(p.loc))
    def f_memcpy(self, n):
        d, s, k = self.args(n)[:3]
        if isinstance(d, Ptr) and isinstance(s, Ptr) and isinstance(k, Poly):
            v = self.S.store.get(s.loc)
            if isinstance(v, Vec):
                sz = {'real': 8, 'cplx': 16, 'int': 4}.get(v.arr.et)
                self.copyrange(s, self.S.ctx.sdiv(k, P(sz)), d); return d
        self.havoc_args(d); return d
    f_memmove = f_memcpy
    def f_fill(self, n):
        p, q, x = self.args(n)[:3]
        if isinstance(p, Ptr) and isinstance(q, Ptr) and p.loc == q.loc and isnum(x):
            v = self.S.store.get(p.loc)
            if self.fullrange(p, q):
                self.access_range(p.loc, ZERO, q.off, 'w')
                self.S.store[p.loc] = Vec(v.size, fill(C(x) if v.arr.et == 'cplx' else P(x) if isinstance(x, Cond) else x, v.arr.et), v.inner); return VOID
            self.scatter_range(p, q.off - p.off, lambda i, c: x); return VOID
        self.havoc_args(p); return VOID
    def f_fill_n(self, n):
        p, k, x = self.args(n)[:3]
        if isinstance(p, Ptr) and isinstance(k, Poly) and isnum(x): self.scatter_range(p, k, lambda i, c: x); return Ptr(p.loc, p.off + k)
        self.havoc_args(p); return p
    def pure_call(self, clo, vals):
        """value of a closure/function on symbolic arguments; None when it has effects"""
        S0 = self.S
        if isinstance(clo, Opq) and clo.tag[0] == 'functor' and all(isnum(v) for v in vals):
            o = clo.tag[1]
            if o == 'neg': return -vals[0]
            if len(vals) == 2: return self.binop(o, vals[0], vals[1], 'double', 'double', 'double')
        self.S = S0.copy()
        try:
            if isinstance(clo, Clo):
                ps = clo.node['params']
                vals = [v for v in vals]
                r = self.call_clo(clo, vals=vals)
            elif isinstance(clo, Fn):
                f = self.p.fn.get(clo.fn['usr'])
                if f is None: return None
                r = self.call_fn(f, None, [self.bindv(p, v) for p, v in zip(f['params'], vals)])
            else: return None
            if isinstance(r, LV): r = self.read(r)
            for k, v in S0.store.items():
                w = self.S.store.get(k)
                if not (w is v or w == v): return None
            return r
        except Dead: return None
        finally: self.S = S0
    def f_transform(self, n):
        vs = self.args(n)
        g = vs[-1]
        if len(vs) == 4: srcs, d = [(vs[0], vs[1])], vs[2]
        else: srcs, d = [(vs[0], vs[1]), (vs[2], None)], vs[3]
        if not all(isinstance(s[0], Ptr) for s in srcs) or not isinstance(d, Ptr) or not isinstance(srcs[0][1], Ptr):
            self.havoc_args(d); return d
        k = srcs[0][1].off - srcs[0][0].off
        arrs = []
        for p, _ in srcs:
            v = self.S.store.get(p.loc)
            if not isinstance(v, Vec): self.havoc_args(d); return d
            self.access_range(p.loc, p.off, k, 'r'); arrs.append((v.arr, p.off))
        bad = []
        def body(i, c):
            S = self.S; self.S = S.copy(); self.S.ctx = c
            try: r = self.pure_call(g, [get(x, (o + i,), c) for x, o in arrs])
            finally: self.S = S
            if r is None or not isnum(r): bad.append(1); return top('transform')
            return r
        self.scatter_range(d, k, body)
        if bad: self.note('unsupported', 'transform with an effectful callable')
        return Ptr(d.loc, d.off + k)
    def f_for_each(self, n):
        p, q, g = self.args(n)[:3]
        if isinstance(p, Ptr) and isinstance(q, Ptr) and isinstance(g, Clo) and p.loc == q.loc:
            il = self.new('v', 'for_each'); self.S.store[il] = p.off; self.lt[il] = 'long'
            prm = g.node['params'][0]
            def body():
                i = self.S.store[il]
                l = LV(p.loc, (i,))
                self.call_clo(g, vals=[l if prm.get('ref') else self.read(l)])
            def inc(): self.S.store[il] = self.S.store[il] + 1
            self.loop(n, lambda: ge0(q.off - 1 - self.S.store[il]), inc, body)
            return g
        self.havoc_args(p); return g
    def f_accumulate(self, n):
        vs = self.args(n)
        p, q, x = vs[:3]
        if isinstance(p, Ptr) and isinstance(q, Ptr) and p.loc == q.loc and isnum(x):
            v = self.S.store.get(p.loc)
            if isinstance(v, Vec):
                il = self.new('v', 'acc'); self.S.store[il] = p.off; self.lt[il] = 'long'
                al = self.new('v', 'sum'); self.S.store[al] = C(x) if v.arr.et == 'cplx' else x; self.lt[al] = n['t'].replace('const ', '').rstrip('& ')
                if is_int(self.lt[al]) and v.arr.et == 'real':
                    self.note('arith', 'accumulate into an integer'); return top('accumulate')
                g = vs[3] if len(vs) > 3 else None
                def body():
                    e = self.read(LV(p.loc, (self.S.store[il],)))
                    cur = self.S.store[al]
                    if g is None: self.S.store[al] = cur + e
                    else:
                        r = self.pure_call(g, [cur, e])
                        self.S.store[al] = r if r is not None and isnum(r) else top('accumulate')
                def inc(): self.S.store[il] = self.S.store[il] + 1
                self.loop(n, lambda: ge0(q.off - 1 - self.S.store[il]), inc, body)
                return self.S.store[al]
        return self.unknown(n['t'], 'accumulate')
    def f_inner_product(self, n):
        vs = self.args(n)
        if len(vs) == 4 and all(isinstance(x, Ptr) for x in vs[:3]):
            p, q, r, x = vs
            v, w = self.S.store.get(p.loc), self.S.store.get(r.loc)
            if isinstance(v, Vec) and isinstance(w, Vec):
                k = q.off - p.off
                J = fresh('J', True); c = self.S.ctx.add(ge0(J), ge0(k - 1 - J))
                return x + mksum(J, k, get(v.arr, (p.off + J,), c) * get(w.arr, (r.off + J,), c))
        return self.unknown(n['t'], 'inner_product')
    def extremum(self, n, mx):
        vs = self.args(n)
        self.note('unsupported', 'min/max_element'); return self.unknown(n['t'], 'extremum')
    def f_max_element(self, n): return self.extremum(n, True)
    def f_min_element(self, n): return self.extremum(n, False)
    def f_distance(self, n):
        p, q = self.args(n)
        if isinstance(p, Ptr) and isinstance(q, Ptr) and p.loc == q.loc: return q.off - p.off
        return self.unknown(n['t'], 'distance')
    def f_begin(self, n):
        l = self.lv(n['args'][0]); return Ptr(l.loc, ZERO, l.idx or ())
    def f_end(self, n):
        l = self.lv(n['args'][0]); v = self.vec_at(l)
        return Ptr(l.loc, v.size, l.idx or ()) if isinstance(v, Vec) else self.unknown(n['t'], 'end')
    f_cbegin = f_begin; f_cend = f_end
    # --- conversions
    def f_stoi(self, n):
        v = self.ev(n['args'][0]); self.conv.append(('stoi', v))
        return P(atom('conv', 'stoi', self.tagkey(v), isint=True))
    def f_stol(self, n): return P(atom('conv', 'stol', self.tagkey(self.ev(n['args'][0])), isint=True))
    f_stoul = f_stol; f_stoull = f_stol; f_stoll = f_stol
    def f_stod(self, n):
        v = self.ev(n['args'][0])
        return P(atom('conv', 'stod', self.tagkey(v)))
    f_atof = f_stod; f_strtod = f_stod
    def f_stof(self, n): return P(atom('conv', 'stof', self.tagkey(self.ev(n['args'][0]))))
    def f_atoi(self, n): return P(atom('conv', 'stoi', self.tagkey(self.ev(n['args'][0])), isint=True))
    def f_to_string(self, n):
        v = self.ev(n['args'][0])
        if isinstance(v, Poly) and v.const() is not None and v.isint(): return Strv(str(int(v.const())))
        return Strv(('num', v if isinstance(v, (Poly, Cond)) else self.new(), 'real' if is_flt(strip_q(n['args'][0]['t'])) else 'int'))
    def f_setprecision(self, n): return Opq('setprecision', self.ev(n['args'][0]))
    def f_setw(self, n): return Opq('setw', self.ev(n['args'][0]))
    def f_setfill(self, n): return Opq('setfill', self.ev(n['args'][0]))
    # --- FFTW
    def heap(self, size, how):
        loc = self.new('h', how)
        self.S.store[loc] = Vec(size, uninit(loc, 'real'))
        self.S.store[loc + ('#live',)] = TRUE
        self.S.store[loc + ('#how',)] = Strv(how)
        self.alloc(loc, how)
        return Ptr(loc, ZERO)
    def f_fftw_malloc(self, n):
        b = self.ival(n['args'][0])
        b = self.unsval(b, 'unsigned long')
        p = self.heap(self.S.ctx.sdiv(b, P(8)) if b.isint() else top('allocation size'), 'fftw_malloc')
        self.S.store[p.loc + ('#bytes',)] = b
        return p
    def f_shtns_malloc(self, n): return self.f_fftw_malloc(n)
    def f_malloc(self, n):
        b = self.unsval(self.ival(n['args'][0]), 'unsigned long')
        p = self.heap(self.S.ctx.sdiv(b, P(8)), 'malloc'); self.S.store[p.loc + ('#bytes',)] = b
        return p
    def f_fftw_alloc_real(self, n):
        return self.heap(self.unsval(self.ival(n['args'][0]), 'unsigned long'), 'fftw_malloc')
    def e_cast(self, n):
        v = Interp.e_cast(self, n)
        if n['ck'] == 'BitCast' and isinstance(v, Ptr) and n['t'].endswith('*') and v.off is not None:
            x = self.S.store.get(v.loc)
            b = self.S.store.get(v.loc + ('#bytes',))
            et = et_of(n['t'][:-1].strip().replace('const ', ''))
            if isinstance(x, Vec) and b is not None and x.arr.k == 'uninit' and et in ('real', 'cplx', 'int'):
                sz = {'real': 8, 'cplx': 16, 'int': 4}[et]
                k = self.trunc_div(b, sz)
                self.S.store[v.loc] = Vec(k, uninit(v.loc, et))
        return v
    def trunc_div(self, b, sz):
        if not b.isint():
            q = scale(b, F(1, sz))
            if q.isint(): return q
            s = q.single()
            return top('allocation size')
        return self.S.ctx.sdiv(b, P(sz))
    def f_fftw_free(self, n):
        self.release(self.ev(n['args'][0]), 'fftw_malloc', n['args'][0]); return VOID
    f_shtns_free = f_fftw_free
    def f_free(self, n):
        self.release(self.ev(n['args'][0]), 'malloc', n['args'][0]); return VOID
    def f_fftw_plan_r2r_1d(self, n):
        k, i, o, kind, flags = self.args(n)
        loc = self.new('h', 'fftw_plan')
        same = isinstance(i, Ptr) and isinstance(o, Ptr) and i.loc == o.loc
        self.S.store[loc] = Opq('plan', k, kind, flags, same)
        self.S.store[loc + ('#live',)] = TRUE
        self.S.store[loc + ('#how',)] = Strv('fftw_plan')
        self.alloc(loc, 'fftw_plan')
        for p in (i, o):
            if isinstance(p, Ptr):
                v = self.S.store.get(p.loc)
                if isinstance(v, Vec):
                    self.check('bounds', ge0(v.size - p.off - k), 'fftw_plan_r2r_1d buffer')
                    # planning may overwrite the buffers
                    self.S.store[p.loc] = Vec(v.size, uninit(('planned', self.new()), 'real'))
        return Ptr(loc)
    def f_fftw_destroy_plan(self, n):
        self.release(self.ev(n['args'][0]), 'fftw_plan', n['args'][0]); return VOID
    def f_fftw_cleanup(self, n):
        self.event('fftw_cleanup', self.line); return VOID
    f_fftw_cleanup_threads = f_fftw_cleanup
    def f_shtns_reset(self, n):
        self.event('fftw_cleanup', self.line); return VOID
    def f_fftw_init_threads(self, n): return ONE
    def f_fftw_plan_with_nthreads(self, n): self.args(n); return VOID
    def f_fftw_set_timelimit(self, n): self.args(n); return VOID
    def f_fftw_execute(self, n):
        pl, = self.args(n)
        self.oblig('plan', 'transform is executed on the arrays of the caller', 'violated' if isinstance(pl, Ptr) and isinstance(self.S.store.get(pl.loc), Opq) else 'undecided',
                   {'call': 'fftw_execute uses the arrays given at planning'})
        return VOID
    def f_fftw_execute_r2r(self, n):
        pl, i, o = self.args(n)
        plan = self.S.store.get(pl.loc) if isinstance(pl, Ptr) else None
        if isinstance(pl, Ptr): self.check_live(pl.loc, n['args'][0])
        if not isinstance(plan, Opq) or plan.tag[0] != 'plan' or not isinstance(i, Ptr) or not isinstance(o, Ptr):
            self.note('unsupported', 'transform with an unknown plan')
            for p in (i, o):
                if isinstance(p, Ptr): self.havoc_lv(LV(p.loc))
            return VOID
        k, kind = plan.tag[1], plan.tag[2]
        if len(plan.tag) > 4:
            ok = (i.loc == o.loc) == plan.tag[4]
            self.oblig('plan', 'transform is executed in place exactly when it was planned in place', 'proved' if ok else 'violated', None if ok else {'planned': 'in place' if plan.tag[4] else 'out of place'})
        v, w = self.S.store.get(i.loc), self.S.store.get(o.loc)
        if not isinstance(v, Vec) or not isinstance(w, Vec):
            self.note('unsupported', 'transform of unknown storage'); return VOID
        self.access_range(i.loc, i.off, k, 'r')
        self.access_range(o.loc, o.off, k, 'w')
        X = self.xnorm(self.slice(v.arr, i.off, k), k)
        fl = plan.tag[3].const() if len(plan.tag) > 3 and isinstance(plan.tag[3], Poly) else None
        if (fl is None or int(fl) & 1) and i.loc != o.loc:   # FFTW_DESTROY_INPUT
            self.S.store[i.loc] = Vec(v.size, uninit(('destroyed', self.new()), v.arr.et), v.inner)
        kk = kind.const() if isinstance(kind, Poly) else None
        name = {3: 'REDFT00'}.get(int(kk) if kk is not None else -1, 'R2R%s' % kk)
        Y = op(name, 'real', X, k)
        if self.S.ctx.prove(eq0(w.size - k)) and o.off is ZERO: self.S.store[o.loc] = Vec(w.size, Y, w.inner)
        else: self.scatter_nocheck(o, k, Y)
        return VOID
    def scatter_nocheck(self, p, k, Y):
        v = self.S.store.get(p.loc)
        j = fresh('k', True)
        self.S.store[p.loc] = Vec(v.size, A.scat(v.arr, ((j.single(), k),), TRUE, (p.off + j,), A.elem(Y, (j,))), v.inner)
    # --- SHTns
    def f_shtns_verbose(self, n): self.args(n); return VOID
    def f_shtns_use_threads(self, n): self.args(n); return ONE
    def f_shtns_print_version(self, n): return VOID
    def f_shtns_create(self, n):
        lmax, mmax, mres, norm = self.args(n)
        loc = self.new('h', 'shtns')
        self.S.store[loc + ('#live',)] = TRUE
        self.S.store[loc + ('#how',)] = Strv('shtns')
        self.alloc(loc, 'shtns')
        self.S.store[loc] = Opq('shtns', loc, norm)
        for f, v in (('lmax', lmax), ('mmax', mmax), ('mres', mres), ('nlm', nlm_of(lmax, mmax)), ('nlm_cplx', (lmax + 1) * (lmax + 1))):
            self.S.store[loc + ('.' + f,)] = v
        self.S.ctx = self.S.ctx.add(ge0(nlm_of(lmax, mmax) - 1))
        return Ptr(loc)
    def f_shtns_set_grid(self, n):
        s, flags, eps, nlat, nphi = self.args(n)
        if not isinstance(s, Ptr): return top('shtns_set_grid')
        self.set_grid(s.loc, flags, nlat, nphi)
        return self.S.store[s.loc + ('.nspat',)]
    def set_grid(self, loc, flags, nlat, nphi):
        st = self.S.store
        st[loc + ('.nlat',)] = nlat; st[loc + ('.nphi',)] = nphi
        st[loc + ('.nspat',)] = nlat * nphi
        st[loc + ('.flags',)] = flags if isinstance(flags, Poly) else ZERO
        for nm in ('ct', 'st'):
            l = loc + ('#' + nm,)
            st[l] = Vec(nlat, base(nm))
            st[loc + ('.' + nm,)] = Ptr(l, ZERO)
    def f_shtns_destroy(self, n):
        self.release(self.ev(n['args'][0]), 'shtns', n['args'][0]); return VOID
    def f_LM(self, n):
        s, l, m = self.args(n)
        return self.LM(s, l, m)
    f_LiM = f_LM
    def LM(self, s, l, m):
        lmax = self.S.store.get(s.loc + ('.lmax',)) if isinstance(s, Ptr) else None
        if lmax is None or not isinstance(l, Poly) or not isinstance(m, Poly): return top('LM')
        mmax = self.S.store[s.loc + ('.mmax',)]
        r = LM_of(lmax, l, m)
        ctx = self.S.ctx
        if ctx.prove_ge(m) and ctx.prove_ge(l - m) and ctx.prove_ge(lmax - l) and ctx.prove_ge(mmax - m):
            self.S.ctx = ctx.add(ge0(nlm_of(lmax, mmax) - 1 - r), ge0(r))
        return r
    def transform(self, n, name, insz, outsz, oet):
        vs = self.args(n)
        s, i, o = vs[:3]
        if not isinstance(s, Ptr) or not isinstance(i, Ptr) or not isinstance(o, Ptr):
            self.note('unsupported', name + ' of unknown storage')
            if isinstance(o, Ptr): self.havoc_lv(LV(o.loc))
            return VOID
        self.check_live(s.loc, n['args'][0]); self.check_live(i.loc, n['args'][1]); self.check_live(o.loc, n['args'][2])
        g = lambda f: self.S.store.get(s.loc + ('.' + f,))
        if g('nspat') is None:
            self.oblig('lifetime', '%s before shtns_set_grid' % name, 'violated', {}); 
            self.havoc_lv(LV(o.loc)); return VOID
        k, r = insz(g), outsz(g)
        v, w = self.S.store.get(i.loc), self.S.store.get(o.loc)
        if not isinstance(v, Vec) or not isinstance(w, Vec):
            self.note('unsupported', name + ' of unknown storage'); return VOID
        self.access_range(i.loc, i.off, k, 'r')
        self.access_range(o.loc, o.off, r, 'w')
        X = self.xnorm(self.slice(v.arr, i.off, k), k)
        Y = op(name, oet, X)
        # the input of an SHTns transform may be overwritten
        if i.loc != o.loc: self.S.store[i.loc] = Vec(v.size, uninit(('destroyed', self.new()), v.arr.et), v.inner)
        if self.S.ctx.prove(eq0(w.size - r)) and o.off is ZERO: self.S.store[o.loc] = Vec(w.size, Y, w.inner)
        else: self.scatter_nocheck(o, r, Y)
        return VOID
    def f_spat_to_SH(self, n): return self.transform(n, 'S2H', lambda g: g('nspat'), lambda g: g('nlm'), 'cplx')
    def f_SH_to_spat(self, n): return self.transform(n, 'H2S', lambda g: g('nlm'), lambda g: g('nspat'), 'real')
    def f_spat_cplx_to_SH(self, n): return self.transform(n, 'CS2H', lambda g: g('nspat'), lambda g: (g('lmax') + 1) * (g('lmax') + 1), 'cplx')
    def f_SH_to_spat_cplx(self, n): return self.transform(n, 'H2CS', lambda g: (g('lmax') + 1) * (g('lmax') + 1), lambda g: g('nspat'), 'cplx')
    def f_omp_get_max_threads(self, n): return ONE
    def f_omp_set_num_threads(self, n): self.args(n); return VOID
    def f_omp_get_wtime(self, n): return fresh('time')
    def f_omp_get_thread_num(self, n): return fresh('tid', True)

def strip_q(t): return t.replace('const ', '').rstrip('& ')
def fl_from(x):
    """integer source type of an argument expression that is implicitly converted"""
    return 'double'
def loc_label(loc): return str(loc[2]) if len(loc) > 2 else str(loc)
def trigpi(f, p):
    """sin/cos of a rational multiple of pi"""
    if p.m and len(p.m) == 1:
        (mo, c), = p.m.items()
        pid = PI.single().id
        if mo == ((pid, 1),):
            q = c % 2
            tab = {F(0): (1, 0), F(1, 2): (0, 1), F(1): (-1, 0), F(3, 2): (0, -1)}
            if q in tab: return P(tab[q][0 if f == 'cos' else 1])
    return None
