"""Loop summarisation and data-race checking."""
from interp import *
import interp as I
from logic import is_int_cond

class GiveUp(Exception): pass

class Loops:
    # ------------------------------------------------------------ helpers
    def quiet(self, S, cond, inc, body):
        """one iteration from state S without recording; returns (cond value, next state, break states, return states)"""
        sv = (self.rec, self.S, self.brk, self.cont, self.ret)
        self.rec = False
        self.S = S; self.brk, self.cont, self.ret = [], [], []
        try:
            return self._iter(cond, inc, body)
        finally:
            self.rec, self.S, self.brk, self.cont, self.ret = sv
    def _iter(self, cond, inc, body):
        try:
            c = cond()
        except Dead:
            return FALSE, None, [], []
        c2 = decided(c, self.S.ctx)
        if c2 is FALSE: return FALSE, None, [], []
        self.S = self.S.assume(c2)
        self.ex_safe(body)
        st = self.merge(self.cont + [self.S])
        self.cont = []
        self.S = st
        if self.S is not None: self.ex_safe(inc)
        return c2, self.S, list(self.brk), list(self.ret)
    def ex_safe(self, f):
        try: f()
        except Dead: self.S = None

    def havoc_val(self, loc, v, tag):
        """unknown value of the same shape; returns (value, key)"""
        if isinstance(v, Poly):
            t = self.lt.get(loc, 'double')
            isint = is_int(t) if t != '?' else v.isint()
            if not is_int(t) and not is_flt(t): isint = v.isint()
            return fresh('pre:%s' % (loc[-1],), isint)
        if isinstance(v, Cx): return Cx(fresh('pre'), fresh('pre'))
        if isinstance(v, Cond): return opaque('pre', self.new())
        if isinstance(v, Vec):
            return Vec(v.size, base(('pre', self.new()), v.arr.et, v.arr.nd), v.inner)
        if isinstance(v, Ptr) and v.off is not None: return v.to(fresh('pre:ptr', True))
        return v

    # ------------------------------------------------------------ trip counts
    def trip(self, c, kap, ctx):
        """number of iterations for which c (a condition on kap) holds from kap=0"""
        if c is TRUE: return None
        if c is FALSE: return ZERO
        ka = kap.single()
        if c.k == 'and':
            Ns = [self.trip(x, kap, ctx) for x in c.a]
            if any(n is None for n in Ns): return None
            N = Ns[0]
            for n in Ns[1:]:
                if ctx.prove(ge0(n - N)): continue
                if ctx.prove(ge0(N - n)): N = n; continue
                N = pmin(N, n)
            return N
        if c.k == 'ge':
            p = c.a[0]
            parts = split_ge(p)
            if len(parts) > 1 and any(occurs(ATOMS[a], {ka.id}) and ATOMS[a] is not ka for a in p.atoms()):
                return self.trip(c_and(*[ge0(x) for x in parts]), kap, ctx)
            k, d = lin(p, ka.id)
            if k is None or occurs(k, {ka.id}) or occurs(d, {ka.id}): return None
            kc = k.const()
            if kc is None:
                if ctx.prove_ge(-k - 1): kk = -k
                else: return None
            elif kc >= 0: return None
            else: kk = -k
            n = ctx.sdiv(d, kk) + 1 if kk.const() != 1 else d + 1
            if ctx.prove_ge(d + 1) or ctx.prove_ge(n): return n
            return pmax(ZERO, n)
        if c.k == 'not' and c.a[0].k == 'eq':
            p = c.a[0].a[0]
            k, d = lin(p, ka.id)
            if k is None or k.const() is None or occurs(d, {ka.id}): return None
            if k.const() in (1, -1):
                n = scale(d, -1 / k.const())
                if ctx.prove_ge(n): return n
            return None
        if c.k == 'not' and c.a[0].k == 'gt':
            # real comparison: not(q > 0) with q affine in kap
            q = c.a[0].a[0]
            return self.trip_real(-q, kap, ctx, False)
        if c.k == 'gt':
            return self.trip_real(c.a[0], kap, ctx, True)
        return None
    def trip_real(self, p, kap, ctx, strict):
        """p > 0 (or >= 0) with p = d - k*kap, rational multiples of integer terms"""
        ka = kap.single()
        k, d = lin(p, ka.id)
        if k is None or occurs(d, {ka.id}): return None
        kc = k.const()
        if kc is None or kc >= 0: return None
        e = scale(d, -1 / kc)          # kap < e  (or <=)
        if e.isint():
            n = e if strict else e + 1
            return n if ctx.prove_ge(n) else pmax(ZERO, n)
        # scale to integers
        den = 1
        for c in e.m.values(): den = den * c.denominator // math.gcd(den, c.denominator)
        z = scale(e, F(den))
        if not z.isint(): return None
        n = ctx.sdiv(z + (den - 1 if strict else 0), P(den)) + (0 if strict else 1)
        return n if ctx.prove_ge(n) else pmax(ZERO, n)

    # ------------------------------------------------------------ the loop
    def loop(self, node, cond, inc, body, par=None):
        S0 = self.S
        line = node.get('l', self.line)
        if par is None and self.few(S0, cond, inc) and self.try_unroll(node, cond, inc, body, S0): return
        # modified locations
        old, self.shallow = self.shallow, 1
        try: M, brk, ret = self.modified(S0, cond, inc, body)
        finally: self.shallow = old
        if M is None:      # condition false on entry for every state
            return
        if self.shallow == 1:
            out = S0.copy()
            for l in M:
                v = self.havoc_val(l, S0.store[l], 's')
                out.store[l] = Opq('unknown', self.new()) if v is S0.store[l] else v
            self.ret += list(ret)
            self.S = out
            return
        if par is not None and 'loopvar' not in par: pass
        # inductions
        pre = {l: self.havoc_val(l, S0.store[l], 'p') for l in M}
        S = S0.copy()
        for l in M: S.store[l] = pre[l]
        old, self.shallow = self.shallow, 2
        try: c, S1, brk, ret = self.quiet(S, cond, inc, body)
        finally: self.shallow = old
        presyms = self.presyms(pre)
        ind = {}
        if S1 is not None:
            for l in M:
                p, v = pre[l], S1.store.get(l)
                if isinstance(p, Poly) and isinstance(v, Poly):
                    d = v - p
                    if self.clean(d, presyms): ind[l] = d
                elif isinstance(p, Ptr) and isinstance(v, Ptr) and v.loc == p.loc and v.pre == p.pre and v.off is not None:
                    d = v.off - p.off
                    if self.clean(d, presyms): ind[l] = d
        kap = fresh('k', True)
        ka = kap.single()
        def start(kk, facts=True):
            S = S0.copy()
            for l in M: S.store[l] = pre[l]
            for l, d in ind.items():
                v0 = S0.store[l]
                S.store[l] = v0.to(v0.off + d * kk) if isinstance(v0, Ptr) else v0 + d * kk
            return S
        # trip count
        N = None
        if S1 is not None or brk or ret:
            S = start(kap)
            S.ctx = S.ctx.add(ge0(kap))
            sv = (self.rec, self.S, self.nowrap)
            self.rec = False; self.S = S; self.nowrap = []
            try: ck = cond(); susp = self.nowrap
            except Dead: ck = None; susp = []
            finally: self.rec, self.S, self.nowrap = sv
            if ck is not None:
                if not self.clean(ck, presyms):
                    # a conjunct may be clean: upper bound unknown
                    N = None
                else:
                    N = self.trip(ck, kap, S.ctx)
                if N is not None and susp:
                    c2 = S0.ctx.add(ge0(kap), ge0(N - kap))
                    for x in susp:
                        if not self.clean(x, presyms) or not c2.prove_ge(x):
                            if c2.prove_ge(N - 1) and S0.ctx.add(ge0(kap), ge0(N - 1 - kap)).prove_ge(x) and self.clean(x, presyms):
                                # wraps only in the final test
                                w = witness(c2.add(eq0(kap - N)), [ge0(-x - 1)])
                                if w is not None:
                                    self.oblig('bounds', 'unsigned loop counter wraps around: the loop does not stop', 'violated', w, line)
                                    N = None; break
                            w = witness(c2, [ge0(-x - 1)]) if self.clean(x, presyms) else None
                            if w is not None:
                                self.oblig('bounds', 'unsigned loop bound wraps around', 'violated', w, line)
                            N = None; break
        if N is not None and N.const() is None and not brk and not ret:
            B = self.digits(start(kap), kap, N, cond, inc, body, ind, S0)
            if B is not None: return self.two_loops(node, inc, body, par, S0, ind, N, B)
        if N is not None and N.const() is not None and N.const() <= MAXUNROLL and (par is None or N.const() <= 1 or True):
            if par is None:
                return self.unroll(node, cond, inc, body, int(N.const()))
        if N is None:
            if par is None and self.try_unroll(node, cond, inc, body, S0): return
            if self.open_iters and par is None:
                self.S = S0
                return self.unroll_open(node, cond, inc, body, self.open_iters)
            return self.giveup(S0, M, node, 'loop with an unresolved trip count', brk, ret)
        if brk or ret:
            if par is None and self.try_unroll(node, cond, inc, body, S0): return
            return self.giveup(S0, M, node, 'loop with an early exit', brk, ret)
        self.stats['loops'] += 1
        # symbolic summary
        rng = (ge0(kap), ge0(N - 1 - kap))
        S = start(kap)
        S.ctx = S.ctx.add(*rng)
        if par is not None: par0, self_loops = None, None
        self.loops.append((ka, N))
        try:
            c, S1, b2, r2 = self.quiet(S, cond, inc, body)
        finally: self.loops.pop()
        if S1 is None:
            return self.giveup(S0, M, node, 'loop body never completes', b2, r2)
        try:
            startv, finalv = self.summarise(S0, M, ind, pre, S1, kap, N)
        except GiveUp as e:
            return self.giveup(S0, M, node, str(e), [], [])
        # recorded pass
        ev_inner = ()
        if self.rec or True:
            S = S0.copy()
            for l in M:
                S.store[l] = startv[l]
            base_ev = S.ev
            S.ev = ()
            S.ctx = S.ctx.add(*rng)
            nown = len(self.loops)
            self.loops.append((ka, N))
            if par is not None:
                par['shared'] = set(S0.store) - self.loopvars(S0, ind, node)
                for r in self.par:
                    # variables of the enclosing team's own block are private to each thread
                    if r.get('team'): par['shared'] &= r['shared']
                par['nloops'] = nown
                par['kap'] = ka; par['N'] = N
                par['acc'] = []
                self.par.append(par)
            sv = (self.brk, self.cont, self.ret)
            self.brk, self.cont, self.ret = [], [], []
            self.S = S
            try:
                nal = len(self.allocs)
                c, S2, b2, r2 = self._iter(cond, inc, body)
                ev_inner = S2.ev if S2 is not None else ()
                if S2 is not None:
                    for x in self.allocs[nal:]:
                        if x[0] + ('#live',) in S2.store: self.iterlive[x[0]] = (S2.store[x[0] + ('#live',)], S2.ctx)
            finally:
                self.brk, self.cont, self.ret = sv
                self.loops.pop()
                if par is not None:
                    self.par.pop()
            if par is not None and self.rec: self.race_for(par, S0, M, ind)
        out = S0.copy()
        for l in M: out.store[l] = finalv[l]
        if ev_inner: out.ev = out.ev + (('loop', ka, N, ev_inner),)
        self.S = out

    def loopvars(self, S0, ind, node):
        """locations declared by the loop statement itself (private by rule)"""
        return set(self.scopes[-1]) if self.scopes else set()

    def modified(self, S0, cond, inc, body):
        M = set()
        brk = ret = ()
        for t in range(8):
            S = S0.copy()
            for l in M: S.store[l] = self.havoc_val(l, S0.store[l], 'm')
            if t: S.ctx = S.ctx
            c, S1, brk, ret = self.quiet(S, cond, inc, body)
            if c is FALSE and t == 0 and S1 is None: return None, [], []
            new = set()
            for st in [S1] + list(brk) + [s for s, _ in ret]:
                if st is None: continue
                for l, v in S0.store.items():
                    if l in M: continue
                    w = st.store.get(l)
                    if w is None: continue
                    o = S.store[l]
                    if w is o or w == o: continue
                    new.add(l)
            if not new: return M, brk, ret
            M |= new
        return M, brk, ret

    def presyms(self, pre):
        ids, arrs = set(), set()
        conds = set()
        for v in pre.values():
            if isinstance(v, Poly): ids |= v.atoms()
            elif isinstance(v, Cx): ids |= v.re.atoms() | v.im.atoms()
            elif isinstance(v, Vec): arrs.add(v.arr)
            elif isinstance(v, Ptr) and v.off is not None: ids |= v.off.atoms()
            elif isinstance(v, Cond): conds.add(v)
        return ids, arrs, conds
    def clean(self, x, ps):
        ids, arrs, conds = ps
        if tops(x): return False
        if occurs(x, ids): return False
        if arrs and T.occurs_arr(x, arrs): return False
        if conds and has_cond(x, conds): return False
        if has_cond_top(x): return False
        return True

    def unroll(self, node, cond, inc, body, n):
        brks = []
        svb, svc = self.brk, self.cont
        for i in range(n):
            if self.S is None: break
            self.brk, self.cont = [], []
            try:
                c = cond()
                c = decided(c, self.S.ctx)
                if c is FALSE: break
                self.S = self.S.assume(c)
                self.ex_safe(body)
                brks += self.brk
                self.S = self.merge(self.cont + [self.S])
                if self.S is not None: self.ex_safe(inc)
            except Dead: self.S = None
            finally: self.brk, self.cont = svb, svc
        self.S = self.merge(brks + [self.S])
    open_iters = 0
    def unroll_open(self, node, cond, inc, body, n):
        """the first n iterations of a loop driven by stream input (the rest of the input is cut off)"""
        outs = []
        svb, svc = self.brk, self.cont
        for i in range(n + 1):
            if self.S is None: break
            self.brk, self.cont = [], []
            try:
                c = decided(cond(), self.S.ctx)
                if c is not TRUE: outs.append(self.S.assume(c_not(c)))
                if c is FALSE or i == n: self.S = None; break
                self.S = self.S.assume(c)
                self.ex_safe(body)
                outs += self.brk
                self.S = self.merge(self.cont + [self.S])
                if self.S is not None: self.ex_safe(inc)
            except Dead: self.S = None
            finally: self.brk, self.cont = svb, svc
        self.S = self.merge(outs)
    def digits(self, S, kap, N, cond, inc, body, ind, S0):
        """divisor B by which the body splits the iteration number: kap/B, kap%B, with N a multiple of B"""
        if not any(d is ONE and S0.store[l] is ZERO for l, d in ind.items() if isinstance(d, Poly)): return None
        sv, old = self.divlog, self.shallow
        self.divlog, self.shallow = [], 2
        try:
            S.ctx = S.ctx.add(ge0(kap), ge0(N - 1 - kap))
            self.quiet(S, cond, inc, body)
            log = self.divlog
        finally: self.divlog, self.shallow = sv, old
        best = None
        for p, m in log:
            if p is not kap or occurs(m, {kap.single().id}): continue
            q = mkdiv(N, m)
            if q * m is not N or not (q - N).atoms() and (q - N).const() == 0: continue
            if m.const() == 1: continue
            if best is None or S0.ctx.prove_ge(m - best): best = m
        return best
    def two_loops(self, node, inc, body, par, S0, ind, N, B):
        """the loop over 0..N-1 as a loop over a < N/B around a loop over b < B, the iteration number being a*B+b"""
        la, lb = self.new('v', 'major'), self.new('v', 'minor')
        self.lt[la] = self.lt[lb] = 'long'
        if self.scopes: self.scopes[-1] += [la, lb]
        self.S = S0
        self.S.store[la] = self.S.store[lb] = ZERO
        A_ = mkdiv(N, B)
        def setup():
            k = self.S.store[la] * B + self.S.store[lb]
            for l, d in ind.items():
                v0 = S0.store[l]
                self.S.store[l] = v0.to(v0.off + d * k) if isinstance(v0, Ptr) else v0 + d * k
            body()
        def binc(): inc(); self.S.store[lb] = self.S.store[lb] + 1
        def outer():
            self.S.store[lb] = ZERO
            self.loop(node, lambda: ge0(B - 1 - self.S.store[lb]), binc, setup, dict(par, acc=[]) if par is not None else None)
        def ainc(): self.S.store[la] = self.S.store[la] + 1
        self.loop(node, lambda: ge0(A_ - 1 - self.S.store[la]), ainc, outer, par)
        if self.S is not None:
            for l, d in ind.items():
                v0 = S0.store[l]
                self.S.store[l] = v0.to(v0.off + d * N) if isinstance(v0, Ptr) else v0 + d * N
            for l in (la, lb): self.S.store.pop(l, None)
    def few(self, S0, cond, inc):
        """the tests alone (the body aside) stop after a handful of steps"""
        sv = (self.rec, self.S, self.nowrap)
        self.rec = False; self.S = S0.copy(); self.nowrap = []
        try:
            for i in range(9):
                c = decided(cond(), self.S.ctx)
                if c is FALSE: return True
                if c is not TRUE: return False
                inc()
            return False
        except Dead: return False
        finally: self.rec, self.S, self.nowrap = sv
    def try_unroll(self, node, cond, inc, body, S0):
        """complete unrolling when every test is decided and there are few iterations"""
        self.S = S0.copy()
        sv = self.rec
        # trial without recording
        self.rec = False
        svb, svc, svr = self.brk, self.cont, self.ret
        self.brk, self.cont, self.ret = [], [], []
        ok = False
        brks = False
        try:
            for i in range(MAXUNROLL + 1):
                if self.S is None: ok = True; break
                c = decided(cond(), self.S.ctx)
                if c is FALSE: ok = True; break
                if c is not TRUE: break
                self.ex_safe(body)
                self.S = self.merge(self.cont + [self.S]); self.cont = []
                if self.S is not None: self.ex_safe(inc)
        except Dead: ok = True
        finally:
            self.rec = sv
            self.brk, self.cont, self.ret = svb, svc, svr
        self.S = S0
        if not ok: return False
        self.unroll(node, cond, inc, body, MAXUNROLL + 1)
        return True
    def giveup(self, S0, M, node, why, brk, ret):
        self.note('loop', why + ' (line %s)' % node.get('l'))
        out = S0.copy()
        for l in M:
            v = S0.store[l]
            if isinstance(v, Vec): out.store[l] = Vec(v.size, uninit(('unknown', self.new()), v.arr.et, nd=v.arr.nd), v.inner)
            elif isinstance(v, Poly): out.store[l] = self.unknown('int' if v.isint() else 'double', why)
            elif isinstance(v, Cx): out.store[l] = Cx(top(why), top(why))
            elif isinstance(v, Cond): out.store[l] = opaque('top', why, self.new())
            else: out.store[l] = Opq('unknown', self.new())
        out.ev = out.ev + (('unknown', why),)
        if ret:
            c = opaque('exit', self.new())
            r = out.assume(c)
            self.ret.append((r, ret[0][1] if all(v is VOID for _, v in ret) else Opq('unknown', self.new())))
            out = out.assume(c_not(c))
        self.S = out

    # ------------------------------------------------------------ summaries
    def summarise(self, S0, M, ind, pre, S1, kap, N):
        """(values at the start of iteration kap, values after the loop)"""
        ka = kap.single()
        startv, finalv = {}, {}
        ctxk = S0.ctx.add(ge0(kap), ge0(N - 1 - kap))
        for l, d in ind.items():
            v0 = S0.store[l]
            if isinstance(v0, Ptr):
                startv[l] = v0.to(v0.off + d * kap); finalv[l] = v0.to(v0.off + d * N)
            else:
                startv[l] = v0 + d * kap; finalv[l] = v0 + d * N
        post = {l: S1.store.get(l, pre[l]) for l in M if l not in ind}
        todo = [l for l in M if l not in ind]
        for l in list(todo):
            if post[l] is pre[l] or post[l] == pre[l]:
                startv[l] = finalv[l] = S0.store[l]; todo.remove(l)
        scal = [l for l in todo if isnum(pre[l]) or isinstance(pre[l], Ptr)]
        arrl = [l for l in todo if isinstance(pre[l], Vec)]
        other = [l for l in todo if l not in scal and l not in arrl]
        for l in other:
            v = post[l]
            startv[l] = finalv[l] = v if not isinstance(v, (Lst, Strv)) or v == S0.store[l] else Opq('loop', self.new())
            if isinstance(v, (Strv, Lst)):
                startv[l] = finalv[l] = Opq('loop', self.new())
        # substitution for everything already known
        sub, asub = {}, {}
        def unresolved():
            ids, arrs, conds = set(), set(), set()
            for l in scal + arrl:
                if l in startv: continue
                a, b, c = self.presyms({l: pre[l]})
                ids |= a; arrs |= b; conds |= c
            return ids, arrs, conds
        def setscal(l, s, f):
            startv[l], finalv[l] = s, f
            p = pre[l]
            if isinstance(p, Poly): sub[list(p.atoms())[0]] = s
            elif isinstance(p, Cx):
                sub[list(p.re.atoms())[0]] = s.re; sub[list(p.im.atoms())[0]] = s.im
        def subst(v):
            s = Subst(sub, asub)
            old = A.CUR[0]; A.CUR[0] = ctxk
            try:
                if isinstance(v, Vec): return Vec(s.any(v.size), s.array(v.arr), v.inner)
                if isinstance(v, Ptr): return Ptr(v.loc, s.any(v.off) if v.off is not None else None, tuple(s.any(x) for x in v.pre))
                return s.any(v) if isnum(v) else v
            finally: A.CUR[0] = old
        def at(v, x):
            s = Subst({ka: x})
            old = A.CUR[0]; A.CUR[0] = S0.ctx
            try:
                if isinstance(v, Vec): return Vec(s.any(v.size), s.array(v.arr), v.inner)
                return s.any(v)
            finally: A.CUR[0] = old
        progress = True
        while progress:
            progress = False
            ps = unresolved()
            # scalars
            for l in scal:
                if l in startv: continue
                v = subst(post[l])
                if isinstance(v, Cond):
                    if isinstance(pre[l], Cond) and self.clean(v, ps) and not has_cond(v, {pre[l]}):
                        s = ite(ge0(kap - 1), at(v, kap - 1), S0.store[l]) if occurs(v, {ka.id}) or True else v
                        startv[l] = s; finalv[l] = ite(decided(ge0(N - 1), S0.ctx), at(v, N - 1), S0.store[l])
                        progress = True
                    continue
                if isinstance(v, Ptr) or not isnum(v): continue
                if isinstance(pre[l], Poly) and not isinstance(v, Poly): continue
                if self.clean(v, ps):
                    nz = decided(ge0(N - 1), S0.ctx)
                    setscal(l, self.step0(kap, at(v, kap - 1), S0.store[l]), ite(nz, at(v, N - 1), S0.store[l]) if nz is not FALSE else S0.store[l])
                    progress = True; continue
                if isinstance(v, Poly):
                    t = v - pre[l]
                    if self.clean(t, ps):
                        setscal(l, S0.store[l] + self.summ(kap, kap, t, S0.ctx), S0.store[l] + self.summ(kap, N, t, S0.ctx))
                        progress = True; continue
                    m = self.maxform(v, pre[l])
                    if m is not None and self.clean(m, ps):
                        i0 = S0.store[l]
                        setscal(l, self.maxx(kap, kap, m, i0), self.maxx(kap, N, m, i0))
                        progress = True; continue
                    g = self.geom(v, pre[l], ps, ka)
                    if g is not None:
                        setscal(l, S0.store[l] * powk(g, kap), S0.store[l] * powk(g, N)); progress = True; continue
                    if not pre[l].isint():
                        ac = fresh('acc')
                        w = Subst({pre[l].single(): ac}).poly(v)
                        if self.clean(w, ps) and not has_cond_top(w):
                            def fold(n):
                                j = fresh('j', True)
                                return A.mkfold(j, n, Subst({ka: j}).poly(w), S0.store[l], ac)
                            setscal(l, fold(kap), fold(N)); progress = True; continue
                elif isinstance(v, Cx):
                    p = pre[l]
                    t = v - p
                    if self.clean(t, ps):
                        i0 = C(S0.store[l])
                        f = lambda n: Cx(i0.re + self.summ(kap, n, t.re, S0.ctx), i0.im + self.summ(kap, n, t.im, S0.ctx))
                        setscal(l, f(kap), f(N)); progress = True; continue
            # arrays
            ps = unresolved()
            for l in arrl:
                if l in startv: continue
                v = subst(post[l])
                if v.size is not pre[l].size:
                    continue
                r = self.array_loop(l, pre, S0, v, kap, N, ps, ctxk, [x for x in arrl if x not in startv], post, subst)
                if r is not None:
                    startv[l], finalv[l] = r
                    asub[pre[l].arr] = startv[l].arr
                    progress = True
        for l in scal:
            if l not in startv:
                v = S0.store[l]
                why = 'loop-carried value %s' % (l[-1],)
                for d in (startv, finalv):
                    d[l] = v.to(top(why)) if isinstance(v, Ptr) else Cx(top(why), top(why)) if isinstance(v, Cx) else opaque('top', why, self.new()) if isinstance(v, Cond) else top(why)
        for l in arrl:
            if l not in startv:
                v = post[l]
                gr = self.growth(l, pre, S0, v, kap, N, sub, ps)
                if gr is not None: startv[l], finalv[l] = gr; continue
                for d in (startv, finalv):
                    sz = pre[l].size if v.size is pre[l].size else top('size')
                    d[l] = Vec(sz, uninit(('loop-carried', self.new()), v.arr.et, nd=v.arr.nd), v.inner)
        return startv, finalv
    def growth(self, l, pre, S0, v, kap, N, sub, ps):
        """vector that grows by one element per iteration (push_back)"""
        return None
    def step0(self, kap, prev, init):
        """value at the start of iteration kap: init for kap=0, prev otherwise"""
        if prev is init: return init
        c = ge0(kap - 1)
        # closed form valid at kap = 0 too?
        return ite(c, prev, init)
    def summ(self, kap, n, t, ctx):
        if t is ZERO: return ZERO
        if not occurs(t, {kap.single().id}): return t * n
        # polynomial sums over an integer counter
        r = faulhaber(t, kap, n)
        if r is not None: return r
        j = fresh('j', True)
        return mksum(j, n, Subst({kap.single(): j}).poly(t))
    def maxx(self, kap, n, t, init):
        j = fresh('j', True)
        return mkmax(j, n, Subst({kap.single(): j}).poly(t), init)
    def maxform(self, v, p):
        """v = max(p, t) in any spelling: returns t"""
        s = v.single()
        if s is None: return None
        if s.kind == 'max':
            for x, y in ((0, 1), (1, 0)):
                if s.args[x] is p: return s.args[y]
        if s.kind == 'ite':
            c, a, b = s.args
            neg = False
            if b is p: t = a
            elif a is p: t = b; neg = True
            else: return None
            # condition must be t > p (or >=)
            cc = c_not(c) if neg else c
            if cc in (gt0(t - p), ge0(t - p)): return t
            # running max of an inner loop: t = max over inner with init p
        if s.kind == 'maxof' and s.args[3] is p:
            b, N, body = s.args[:3]
            return P(atom('maxof', b, N, body, P(atom('sym', '-inf'))))
        return None
    def geom(self, v, p, ps, ka):
        s = list(p.atoms())[0]
        k, d = lin(v, s)
        if k is None or d is not ZERO or not self.clean(k, ps) or occurs(k, {ka.id}): return None
        return k

    def array_loop(self, l, pre, S0, v, kap, N, ps, ctxk, unres, post, subst):
        """(start, final) of an array that each iteration updates"""
        ka = kap.single()
        pa = pre[l].arr
        b, es = A.flat_chain(v.arr)
        init = S0.store[l]
        if b is not pa:
            # overwritten as a whole in every iteration
            if self.clean(v.arr, ps):
                f = Subst({ka: N - 1}); g = Subst({ka: kap - 1})
                old = A.CUR[0]; A.CUR[0] = S0.ctx
                try: fa, ga = f.array(v.arr), g.array(v.arr)
                finally: A.CUR[0] = old
                nz = decided(ge0(N - 1), S0.ctx)
                return (Vec(v.size, ite_arr(ge0(kap - 1), ga, init.arr), v.inner), Vec(v.size, ite_arr(nz, fa, init.arr), v.inner))
            return None
        entries = []
        for it, g, widx, val in es:
            e = self.resolve_entry(l, pre, S0, (it, g, widx, val), es, kap, N, ps, ctxk, unres, post, subst)
            if e is None: return None
            entries.append(e)
        # element reduction: invariant target, val = old + t
        for i, (it, g, widx, val) in enumerate(entries):
            if it == () and g is TRUE and not any(occurs(w, {ka.id}) for w in widx) and len(entries) == 1:
                old = A.elem(pa, widx)
                if T.occurs_arr(val, {pa}) and isinstance(val, (Poly, Cx)):
                    if isinstance(val, Poly):
                        t = val - old
                        if self.clean(t, (ps[0], ps[1] | {pa}, ps[2])):
                            i0 = get(init.arr, widx, S0.ctx)
                            mk = lambda n: Vec(v.size, A.store(init.arr, widx, i0 + self.summ(kap, n, t, S0.ctx)), v.inner)
                            return mk(kap), mk(N)
                    else:
                        t = val - old
                        if self.clean(t, (ps[0], ps[1] | {pa}, ps[2])):
                            i0 = get(init.arr, widx, S0.ctx)
                            mk = lambda n: Vec(v.size, A.store(init.arr, widx, Cx(i0.re + self.summ(kap, n, t.re, S0.ctx), i0.im + self.summ(kap, n, t.im, S0.ctx))), v.inner)
                            return mk(kap), mk(N)
                    return None
        if any(T.occurs_arr((e[1], e[2], e[3]), {pa}) for e in entries):
            # recurrence
            return self.recurrence(l, pre, init, entries, kap, N, S0, ctxk, v)
        if any(not self.clean((e[1], e[2]), ps) for e in entries): return None
        for e in entries:
            for x in (e[3],):
                if isnum(x) and not self.clean(x, ps):
                    return None
        if len(entries) > 1 and not self.orderfree(entries, kap, N, S0.ctx):
            return None
        k2 = fresh('k', True)
        s = Subst({ka: k2})
        old = A.CUR[0]; A.CUR[0] = S0.ctx.add(ge0(k2), ge0(kap - 1 - k2))
        R0 = init.arr
        try:
            for it, g, widx, val in entries:
                it2 = ((k2.single(), kap),) + tuple((a, s.any(n)) for a, n in it)
                R0 = scat(R0, it2, s.any(g), s.any(tuple(widx)), s.any(val))
        finally: A.CUR[0] = old
        R1 = init.arr
        for it, g, widx, val in entries:
            R1 = scat(R1, ((ka, N),) + tuple(it), g, widx, val)
        return Vec(v.size, R0, v.inner), Vec(v.size, R1, v.inner)

    def orderfree(self, entries, kap, N, ctx):
        """a later entry of an earlier iteration is never overwritten by an earlier entry of a later iteration"""
        ka = kap.single()
        for i, e1 in enumerate(entries):
            for e2 in entries[i + 1:]:
                if not self.disjoint_later(e1, e2, kap, N, ctx): return False
        return True
    def disjoint_later(self, e1, e2, kap, N, ctx):
        """no k1 > k2 with e1(k1) hitting the target of e2(k2)"""
        ka = kap.single()
        k2 = fresh('k', True)
        it1, g1, w1, _ = e1
        it2, g2, w2, _ = e2
        ren = {ka: k2}
        facts = [ge0(k2), ge0(N - 1 - k2)]
        for a, n in it2:
            j = fresh('j', True); ren[a] = j
        s = Subst(ren)
        for a, n in it2: facts += [ge0(ren[a]), ge0(s.any(n) - 1 - ren[a])]
        q = s.any(tuple(w2))
        c = ctx.add(*facts).add(s.cond(g2))
        try: sol, cond = A.solve(tuple(w1), q, ((ka, N),) + tuple(it1), c)
        except Undet:
            c3 = c.add(ge0(kap - 1 - k2), ge0(N - 1 - kap))
            for a, n in it1: c3 = c3.add(ge0(P(a)), ge0(n - 1 - P(a)))
            return any(c3.add(g1).prove(c_not(eq0(x - y))) for x, y in zip(w1, q))
        if c.add(cond).infeasible(): return True
        if ka.id in sol:
            k1 = sol[ka.id]
            return c.add(cond).prove(c_or(ge0(k2 - k1), ge0(-k1 - 1), ge0(k1 - N))) or c.add(cond, ge0(k1), ge0(N - 1 - k1)).prove(ge0(k2 - k1))
        # target does not depend on the iteration at all
        return False

    def resolve_entry(self, l, pre, S0, e, es, kap, N, ps, ctxk, unres, post, subst):
        """replaces reads of loop-start arrays that provably see the initial contents"""
        it, g, widx, val = e
        arrs = {pre[x].arr: x for x in unres}
        c = ctxk
        for a, n in it: c = c.add(ge0(P(a)), ge0(n - 1 - P(a)))
        c = c.add(g)
        R = PreReads(self, arrs, pre, S0, kap, N, c, post, subst, l)
        try:
            if isinstance(val, Arr):
                v2 = R.any(val)
            else: v2 = R.any(val)
            return (it, R.any(g), R.any(tuple(widx)), v2)
        except GiveUp:
            return None

    def recurrence(self, l, pre, init, entries, kap, N, S0, ctxk, v):
        """single-entry one-dimensional recurrence a[w(k)] = F(a[...earlier or initial...])"""
        if len(entries) != 1: return None
        it, g, widx, val = entries[0]
        if it != () or len(widx) != 1: return None
        pa = pre[l].arr
        ka = kap.single()
        if T.occurs_arr((g, widx), {pa}): return None
        me = base(('rec', self.new()), v.arr.et)
        k2 = fresh('k', True)
        def mk(n):
            s = Subst({ka: k2}, {pa: me})
            old = A.CUR[0]; A.CUR[0] = Ctx()
            try: return mkarr('rec', v.arr.et, init.arr, k2.single(), n, s.any(g), s.any(tuple(widx)), s.any(val), me)
            finally: A.CUR[0] = old
        if not self.clean((g, tuple(widx)), (set(), set(), set())): return None
        return Vec(v.size, mk(kap), v.inner), Vec(v.size, mk(N), v.inner)

    # ------------------------------------------------------------ races
    def race_for(self, r, S0, M, ind):
        """no two iterations touch the same shared element with one of them writing"""
        ka, N = r['kap'], r['N']
        accs = [a for a in r['acc'] if a.loc not in r['private']]
        byloc = {}
        for a in accs: byloc.setdefault(a.loc, []).append(a)
        npairs = 0
        for loc, L in byloc.items():
            ws = [a for a in L if a.rw == 'w']
            if not ws: continue
            seen = set()
            for w in ws:
                for a in L:
                    key = (w.idx, a.idx, w.line, a.line, a.rw)
                    if key in seen: continue
                    seen.add(key)
                    npairs += 1
                    self.race_pair(r, loc, w, a, S0)
        if not npairs: self.oblig('race', 'no shared writes', 'proved', line=r['line'])
    def race_pair(self, r, loc, w, a, S0, iters=None):
        ka, N = r['kap'], r['N']
        name = loc_name(loc)
        what = '%s written at line %s and %s at line %s by different iterations' % (name, w.line, 'written' if a.rw == 'w' else 'read', a.line)
        if self.guarded(w) & self.guarded(a):
            self.oblig('race', what, 'proved', line=r['line']); return
        if w.idx is None or a.idx is None:
            # whole object: racy as soon as two iterations exist
            wt = witness(S0.ctx, [ge0(N - 2)])
            if wt is not None: self.oblig('race', 'shared variable %s is written by every iteration (line %s)' % (name, w.line), 'violated', wt, r['line'])
            else: self.oblig('race', what, 'undecided', line=r['line'])
            return
        s, facts = self.fresh_iter(a, ka, N, r)
        k2 = s.poly(P(ka))
        q = s.any(tuple(a.idx))
        n = min(len(q), len(w.idx))
        widx, q = tuple(w.idx)[:n], q[:n]
        c = S0.ctx.add(*facts)
        itw = [(x, m) for x, m in w.iters]
        ok = False
        try:
            sol, cond = A.solve(widx, q, itw, c)
            c2 = c.add(cond)
            if c2.infeasible(): ok = True
            elif ka.id in sol:
                d = sol[ka.id] - k2
                rngs = [ge0(sol[x.id]) for x, m in itw if x.id in sol]
                rngs += [ge0(Subst(sol).poly(m) - 1 - sol[x.id]) for x, m in itw if x.id in sol]
                c3 = c2.add(*rngs)
                if d is ZERO or (c3.prove_ge(d) and c3.prove_ge(-d)) or c3.infeasible(): ok = True
        except Undet: pass
        if not ok:
            c4 = c
            for x, m in itw: c4 = c4.add(ge0(P(x)), ge0(m - 1 - P(x)))
            for x, y in zip(widx, q):
                if all(c4.add(z).prove(c_not(eq0(x - y))) for z in (ge0(P(ka) - 1 - k2), ge0(k2 - 1 - P(ka)))): ok = True; break
        if ok:
            self.oblig('race', what, 'proved', line=r['line']); return
        c5 = w.ctx
        facts2 = list(facts)
        for x, m in itw: facts2 += [ge0(P(x)), ge0(m - 1 - P(x))]
        for f in a.ctx.facts:
            if f not in S0.ctx.facts: facts2.append(s.cond(f))
        c5 = c5.add(*facts2)
        wt = witness(c5, [c_not(eq0(P(ka) - k2))] + [eq0(x - y) for x, y in zip(widx, q)], tries=4000, maxval=6)
        if wt is not None: self.oblig('race', what, 'violated', wt, r['line'])
        else: self.oblig('race', what, 'undecided', line=r['line'])
    def guarded(self, a): return getattr(a, 'guard', None) or frozenset()
    def fresh_iter(self, a, ka, N, r):
        ren = {}
        for x, m in a.iters: ren[x] = fresh('q', True)
        if ka not in ren: ren[ka] = fresh('q', True)
        s = Subst(ren)
        facts = []
        for x, m in a.iters: facts += [ge0(ren[x]), ge0(s.any(m) - 1 - ren[x])]
        return s, facts
    def race_sections(self, s, groups):
        n = 0
        for i in range(len(groups)):
            for j in range(i + 1, len(groups)):
                A1, A2 = groups[i], groups[j]
                w1 = {a.loc for a in A1 if a.rw == 'w'}; w2 = {a.loc for a in A2 if a.rw == 'w'}
                l1 = {a.loc for a in A1}; l2 = {a.loc for a in A2}
                for loc in sorted((w1 & l2) | (w2 & l1), key=str):
                    n += 1
                    st = self.sect_conflict([a for a in A1 if a.loc == loc], [a for a in A2 if a.loc == loc])
                    x = [a for a in A1 if a.loc == loc][0]; y = [a for a in A2 if a.loc == loc][0]
                    self.oblig('race', 'sections %d and %d both access %s (lines %s and %s), one writes' % (i + 1, j + 1, loc_name(loc), x.line, y.line),
                               st, {} if st == 'violated' else None, s.get('l'))
        self.oblig('race', 'sections: %d section bodies compared' % len(groups), 'proved', line=s.get('l'))
    def sect_conflict(self, L1, L2):
        """'proved' when all conflicting pairs are disjoint, 'violated' with an overlapping element"""
        res = 'proved'
        for a in L1:
            for b in L2:
                if a.rw != 'w' and b.rw != 'w': continue
                if self.guarded(a) & self.guarded(b): continue
                if a.idx is None or b.idx is None:
                    return 'violated'
                ren = {x: fresh('q', True) for x, m in b.iters}
                s = Subst(ren)
                facts = []
                for x, m in b.iters: facts += [ge0(ren[x]), ge0(s.any(m) - 1 - ren[x])]
                for x, m in a.iters: facts += [ge0(P(x)), ge0(m - 1 - P(x))]
                q = s.any(tuple(b.idx))
                k = min(len(q), len(a.idx))
                c = a.ctx.add(*facts).add(*[s.cond(f) for f in b.ctx.facts if f not in a.ctx.facts])
                if any(c.prove(c_not(eq0(x - y))) for x, y in zip(a.idx, q)): continue
                w = witness(c, [eq0(x - y) for x, y in zip(a.idx[:k], q[:k])], maxval=6)
                if w is not None: return 'violated'
                res = 'undecided'
        return res
    def team_check(self, s, r):
        """statements of a team region outside worksharing constructs are executed by every thread"""
        n = 0
        for a in r['acc']:
            if a.rw != 'w' or a.ws or self.guarded(a) or a.loc in r['private']: continue
            n += 1
            what = '%s written by every thread of a parallel region (line %s)' % (loc_name(a.loc), a.line)
            tid = any(is_tid(x) for x in (a.idx or ())) or any(is_tid(f) for f in a.ctx.facts)
            self.oblig('race', what, 'undecided' if tid or T.tops(a.idx or ()) else 'violated', None if tid else {'threads': 2}, s.get('l'))
        if not n: self.oblig('race', 'no unguarded shared write by a whole team', 'proved', line=s.get('l'))

def is_tid(x):
    hit = []
    T.walk_atoms(x, lambda a: hit.append(a) if a.kind == 'sym' and str(a.args[0]).startswith('tid') else None)
    return bool(hit)

class PreReads(Subst):
    """resolves reads of loop-start arrays"""
    def __init__(self, I, arrs, pre, S0, kap, N, ctx, post, subst, l):
        Subst.__init__(self, {}, {})
        self.I = I; self.arrs = arrs; self.pre = pre; self.S0 = S0; self.kap = kap; self.N = N; self.ctx = ctx
        self.post = post; self.sub_ = subst; self.l = l
        self.arr = {}
    def touches(self, x): return T.occurs_arr(x, set(self.arrs))
    def atom(self, a):
        q = self.ac.get(a.id)
        if q is not None: return q
        if a.kind in ('elem', 're', 'im') and a.args[0] in self.arrs:
            idx = tuple(self.poly(x) for x in a.args[1])
            q = self.resolve(a.kind, a.args[0], idx, a)
        elif a.kind == 'ite' and T.occurs_arr(a, set(self.arrs)):
            c = self.cond(a.args[0])
            old = self.ctx
            sv = (self.pc, self.ac)
            self.pc, self.ac = {}, {}
            self.ctx = old.add(c); x = self.poly(a.args[1])
            self.pc, self.ac = {}, {}
            self.ctx = old.add(c_not(c)); y = self.poly(a.args[2])
            self.ctx = old
            self.pc, self.ac = sv
            q = ite(c, x, y)
        else:
            return Subst.atom(self, a)
        self.ac[a.id] = q
        return q
    def binding(self, a):
        if not self.touches(a.args): return P(a)
        b, N, body = a.args[:3]
        j = fresh('j', True)
        body = Subst({b: j}).any(body)
        if a.kind == 'fold':
            ac = fresh('acc'); body = Subst({a.args[4]: ac}).any(body)
        old = self.ctx
        N2 = self.any(N)
        self.ctx = old.add(ge0(j), ge0(N2 - 1 - j))
        sv = (self.pc, self.ac); self.pc, self.ac = {}, {}
        try: body = self.any(body)
        finally:
            self.ctx = old; self.pc, self.ac = sv
        if a.kind == 'sum': return mksum(j, N2, body)
        if a.kind == 'fold': return A.mkfold(j, N2, body, self.any(a.args[3]), ac)
        return mkmax(j, N2, body, self.any(a.args[3]))
    def array(self, Ar):
        if Ar in self.arrs:
            raise GiveUp('whole-array read of an array updated by the loop')
        if not T.occurs_arr(Ar, set(self.arrs)): return Ar
        if Ar.k == 'lam':
            b, n, body = Ar.a
            j = fresh('j', True)
            body = Subst({b: j}).any(body)
            old = self.ctx
            n2 = self.any(n)
            self.ctx = old.add(ge0(j), ge0(n2 - 1 - j))
            sv = (self.pc, self.ac); self.pc, self.ac = {}, {}
            try: body = self.any(body)
            finally: self.ctx = old; self.pc, self.ac = sv
            return mklam(j, n2, body, Ar.et)
        if Ar.k in ('op', 'fill', 'row'):
            return Subst.array(self, Ar)
        if Ar.k == 'rec': return self.recarr(Ar)
        raise GiveUp('nested update')
    def recarr(self, Ar):
        """recurrence running inside one iteration: its seeds must be loop-start values no earlier iteration wrote"""
        A0, kap, N, g, widx, val, me = Ar.a
        if A0 not in self.arrs or T.occurs_arr((N, g, tuple(widx)), set(self.arrs)): raise GiveUp('nested update')
        l = self.arrs[A0]
        b, es = A.flat_chain(self.sub_(self.post[l]).arr)
        if b is not A0: raise GiveUp('replaced array')
        old = self.ctx
        self.ctx = old.add(ge0(P(kap)), ge0(N - 1 - P(kap)), g)
        try:
            for q in T.reads_of(val, me):
                for e in es:
                    if self.hits(e, q) is not None: raise GiveUp('recurrence seeded by an earlier iteration')
            sv = (self.pc, self.ac); self.pc, self.ac = {}, {}
            try: v2 = self.any(val)
            finally: self.pc, self.ac = sv
        finally: self.ctx = old
        return mkarr('rec', Ar.et, self.S0.store[l].arr, kap, N, g, tuple(widx), v2, me)
    def resolve(self, kind, Ar, idx, a):
        l = self.arrs[Ar]
        vpost = self.sub_(self.post[l])
        b, es = A.flat_chain(vpost.arr)
        if b is not Ar:
            raise GiveUp('replaced array')
        kap, ka = self.kap, self.kap.single()
        hit = []
        for e in es:
            r = self.hits(e, idx)
            if r is not None: hit.append((e, r))
        init = self.S0.store[l].arr
        if not hit:
            v = get(init, idx, self.ctx)
            if isinstance(v, Cx): return v.re if kind == 're' else v.im
            return v if isinstance(v, Poly) else P(v)
        # the element may have been written by an earlier iteration
        if len(hit) == 1:
            e, (sol, cond) = hit[0]
            if sol is not None and not T.occurs_arr((e[1], e[3]), set(self.arrs)):
                c = decided(cond, self.ctx)
                val = Subst(sol).any(e[3])
                i0 = get(init, idx, self.ctx)
                r = ite(c, val, i0)
                if isinstance(r, Cx): return r.re if kind == 're' else r.im
                return r
        if l == self.l and kind == 'elem':
            return P(atom('elem', Ar, idx, isint=a.isint))
        if l == self.l:
            return P(atom(kind, Ar, idx))
        raise GiveUp('value carried through an array')
    def hits(self, e, idx):
        """None when no earlier iteration writes idx, else (solution, condition) or (None, None)"""
        it, g, widx, val = e
        ka, kap = self.kap.single(), self.kap
        k2 = fresh('k', True)
        ren = {ka: k2}
        for a, n in it: ren[a] = fresh('j', True)
        s = Subst(ren)
        old = A.CUR[0]; A.CUR[0] = self.ctx
        try:
            w2 = s.any(tuple(widx)); g2 = s.any(g)
            iters = [(k2.single(), kap)] + [(ren[a].single(), s.any(n)) for a, n in it]
        finally: A.CUR[0] = old
        if len(w2) != len(idx): return (None, None)
        c = self.ctx
        try:
            sol, cond = A.solve(w2, idx, iters, c)
        except Undet:
            c2 = c
            for a, n in iters: c2 = c2.add(ge0(P(a)), ge0(n - 1 - P(a)))
            c2 = c2.add(g2)
            for x, y in zip(w2, idx):
                if c2.prove(c_not(eq0(x - y))): return None
            return (None, None)
        conds = [cond]
        ss = Subst(sol)
        for a, n in iters:
            if a.id in sol: conds += [ge0(sol[a.id]), ge0(ss.poly(n) - 1 - sol[a.id])]
            else: conds += [ge0(ss.poly(n) - 1)]
        if not occurs(g2, {a.id for a, n in iters if a.id not in sol}): conds.append(ss.cond(g2))
        cc = c_and(*conds)
        if decided(cc, c) is FALSE or c.add(cc).infeasible(): return None
        if k2.single().id not in sol or any(a.id not in sol for a, n in iters): return (None, None)
        # map solution back onto the entry's own counters
        back = {ka: sol[k2.single().id]}
        for a, n in it: back[a] = sol[ren[a].single().id]
        return (back, cc)

def loc_name(loc):
    s = ''
    for x in loc[2:]:
        s += str(x)
    return s.lstrip('.') or str(loc)

def has_cond(x, conds):
    seen = set()
    def go(x):
        if isinstance(x, Cond) and x in conds: return True
        if isinstance(x, (Poly, Cond, Arr)):
            if x in seen: return False
            seen.add(x)
            if isinstance(x, Poly): return any(go(ATOMS[a]) for a in x.atoms())
            return any(go(y) for y in x.a)
        if isinstance(x, Atom):
            k = ('a', x.id)
            if k in seen: return False
            seen.add(k)
            return any(go(y) for y in x.args)
        if isinstance(x, Cx): return go(x.re) or go(x.im)
        if isinstance(x, tuple): return any(go(y) for y in x)
        return False
    return go(x)
def has_cond_top(x):
    hit = []
    seen = set()
    def go(x):
        if isinstance(x, Cond):
            if x in seen: return
            seen.add(x)
            if x.k == 'op' and x.a and x.a[0] == 'top': hit.append(x)
            for y in x.a: go(y)
        elif isinstance(x, Poly):
            if x in seen: return
            seen.add(x)
            for a in x.atoms():
                at = ATOMS[a]
                if at.kind == 'ite': go(at.args[0]); go(at.args[1]); go(at.args[2])
        elif isinstance(x, tuple):
            for y in x: go(y)
    go(x)
    return bool(hit)

def powk(g, n):
    c = n.const()
    if c is not None and c.denominator == 1: return power(g, int(c))
    return P(atom('pow', g, n))

def faulhaber(t, kap, n):
    """closed form of sum_{k<n} t(k) for t polynomial of low degree in k with k nowhere else"""
    ka = kap.single().id
    by = {}
    for mo, c in t.m.items():
        e = 0
        for a, x in mo:
            if a == ka: e = x
            elif occurs(ATOMS[a], {ka}): return None
        if e < 0 or e > 2: return None
        by.setdefault(e, {})[tuple(y for y in mo if y[0] != ka)] = c
    out = ZERO
    S = {0: n, 1: scale(n * n - n, F(1, 2)), 2: scale(2 * n * n * n - 3 * n * n + n, F(1, 6))}
    for e, d in by.items(): out = out + T.mkpoly(d) * S[e]
    return out
