"""Collection of obligations, verdicts, evidence files."""
import os, sys, json, time, hashlib, traceback
from interp import *
import interp as I
import arrays as A
from logic import sample
import load
ROOT = load.ROOT

def known():
    """findings recorded for this tree: {(property, key)}"""
    out = {}
    try:
        for ln in open(os.path.join(ROOT, 'known_findings.txt')):
            ln = ln.strip()
            if ln.startswith('finding:'):
                kv = dict(x.split('=', 1) for x in ln[8:].split(' | ')[0].split() if '=' in x)
                out[(kv.get('property'), kv.get('key'))] = ln
    except OSError: pass
    return out

class Rep:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid = pid; self.tier = tier; self.seed = seed
        self.items = []
        self.pre = []
        self.fns = set()
        self.counts = {}
        self.rule = ''
        self.trusted = []
        self.t0 = time.time()
        self.level = 'proof'
        self.site = ''
        self.skipped = []
    def scope(self, s):
        rep = self
        class C_:
            def __enter__(s_): rep.pre.append(s)
            def __exit__(s_, *a): rep.pre.pop()
        return C_()
    def ob(self, name, status, detail='', site=None, how=''):
        """status: proved, held, violated, undecided"""
        nm = ' / '.join(self.pre + [name])
        self.items.append(dict(name=nm, status=status, detail=str(detail)[:1500], site=site or self.site, how=how))
        return status in ('proved', 'held')
    def add(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def used(self, M):
        self.fns |= M.stats['functions']
        for k in ('accesses', 'loops', 'calls'): self.counts[k] = self.counts.get(k, 0) + M.stats[k]

    # ------------------------------------------------------------ deciding equalities
    def leafeq(self, ctx, a, b, need=10):
        sub = A.eq_subst(ctx)
        old = A.CUR[0]; A.CUR[0] = ctx
        try:
            if sub:
                s = Subst(sub); a, b = s.any(a), s.any(b)
        finally: A.CUR[0] = old
        if isinstance(a, (Poly, Cx)) and isinstance(b, (Poly, Cx)):
            memo = {}
            def given(t):
                if t not in memo: memo[t] = sample(ctx, seed=self.seed * 100 + t, maxval=(14, 6, 24, 40)[t % 4])
                return memo[t]
            if given(0) is None:
                if a is b or same(a, b): return True
                if given(1) is None: return None
            return equal(a, b, lambda t: given(t) or {}, ctx.facts, need=need, seed=self.seed)
        if isinstance(a, Cond) and isinstance(b, Cond):
            if a is b or same(a, b): return True
            if ctx.add(a).prove(b) and ctx.add(b).prove(a): return True
            return None
        return True if a == b else None
    def leafsplit(self, d, x, y, depth=4, stop=None):
        """leafeq, with a case split on conditions hidden inside array terms and binders when that alone does not decide"""
        r = self.leafeq(d, x, y)
        if depth == 0 or r is True or isinstance(r, tuple) and r[0] is False or not isinstance(x, (Poly, Cx)) or not isinstance(y, (Poly, Cx)) or tops((x, y)): return r, d
        stop = stop or time.monotonic() + 40
        ks = A.hidden(x, y) if time.monotonic() < stop else None
        if not ks: return r, d
        k = ks[0]
        worst, wd = True, d
        for lit in A.split_lits(k):
            e = d.add(lit)
            if e.infeasible(): continue
            s = A.Assume(e, k, lit is k)
            r2, d2 = self.leafsplit(e, A.simp(s.any(x), e), A.simp(s.any(y), e), depth - 1, stop)
            if isinstance(r2, tuple) and r2[0] is False: return r2, d2
            if r2 is None or r2 is not True and worst is True: worst, wd = r2, d2
        return worst, wd
    def mmsplit(self, d, x, y, depth=4):
        """splits on the order of the operands of integer min / max terms unless the values are identical"""
        if depth == 0 or x is y or not isinstance(x, (Poly, Cx)) or not isinstance(y, (Poly, Cx)) or same(x, y) or tops((x, y)):
            yield d, x, y; return
        a = A.first_minmax((x, y))
        if a is None:
            yield d, x, y; return
        for f in (ge0(a.args[0] - a.args[1]), ge0(a.args[1] - a.args[0] - 1)):
            e = d.add(f)
            if e.infeasible(): continue
            yield from self.mmsplit(e, A.simp(x, e), A.simp(y, e), depth - 1)
    def eqval(self, got, want, ctx):
        """decides got == want under ctx by case analysis; returns (status, detail, nleaves)"""
        worst, det, n = 'proved', '', 0
        try:
            for c, x in A.cases(got, ctx):
              for d0, y0 in A.cases(want, c):
                for d, x2, y in self.mmsplit(d0, x, y0):
                    n += 1
                    r, d = self.leafsplit(d, x2, y)
                    if r is True: continue
                    x = x2
                    if isinstance(r, tuple) and r[0] is False:
                        return 'violated', 'case [%s]: code gives %s, required %s; %s' % (facts_str(d, ctx), clip(x), clip(y), r[1]), n
                    if isinstance(r, tuple):
                        if worst == 'proved': worst, det = 'held', 'agreement at sampled points'
                    else:
                        t = tops((x, y))
                        worst, det = 'undecided', 'case [%s]: %s' % (facts_str(d, ctx), ('; '.join(sorted({str(z.args[0]).split('%')[0] for z in t}))[:300]) if t else 'no decision: %s vs %s' % (clip(x), clip(y)))
        except A.Undet as e:
            return 'undecided', str(e), n
        return worst, det, n
    def eq(self, name, got, want, ctx, site=None):
        if got is None or not isinstance(got, (Poly, Cx, Cond)):
            return self.ob(name, 'undecided', 'value %r is not numeric' % (got,), site)
        st, det, n = self.eqval(got, want, ctx)
        self.add('cases', n)
        return self.ob(name, st, det, site, '%d cases' % n)
    def holds(self, name, cond, ctx, site=None, detail=''):
        """integer/real condition proved under ctx"""
        if ctx.prove(cond): return self.ob(name, 'proved', detail, site)
        n = c_not(cond)
        from logic import witness
        w = witness(ctx, [n]) if n is not FALSE and n is not TRUE else None
        if cond is FALSE and not ctx.infeasible(): w = {}
        if w is not None: return self.ob(name, 'violated', '%s fails for %s' % (cond, w), site)
        return self.ob(name, 'undecided', '%s' % cond, site)
    def from_machine(self, M, kinds, what='', only=None, keep=None):
        """adopts the obligations of the given kinds generated by the interpreter"""
        for o in M.obl.values():
            if o.kind not in kinds: continue
            if keep is not None and not keep(o): continue
            self.ob('%s: %s' % (o.kind, o.what), o.status, str(o.wit) if o.wit is not None else '', '%s:%s %s' % (o.file, o.line, o.fn))
    def incomplete(self, M):
        """things the interpreter could not model (they make later results undecided at most)"""
        for o in M.obl.values():
            if o.kind in ('loop', 'unsupported', 'recursion') and o.status != 'proved':
                self.skipped.append(str(o))

    # ------------------------------------------------------------ output
    def finish(self):
        ks = known()
        viol, kf = [], []
        for it in self.items:
            if it['status'] != 'violated': continue
            it['key'] = hashlib.sha1((it['name'] + '|' + site_fn(it['site'])).encode()).hexdigest()[:12]
            if (self.pid, it['key']) in ks: kf.append(it)
            else: viol.append(it)
        tot = len(self.items)
        by = {}
        for it in self.items: by[it['status']] = by.get(it['status'], 0) + 1
        d = os.environ.get('VERIF_EVID') or os.path.join(ROOT, 'evidence'); os.makedirs(os.path.join(d, 'replay'), exist_ok=True)
        replay = os.path.join('evidence', 'replay', self.pid + '.txt')
        if viol:
            with open(os.path.join(d, 'replay', self.pid + '.txt'), 'w') as f:
                f.write('property %s: rerun with  cd /verif && python3 check.py %s\n\n' % (self.pid, self.pid))
                for it in viol:
                    f.write('VIOLATED %s\n  at %s\n  %s\n  finding key=%s\n\n' % (it['name'], it['site'], it['detail'], it['key']))
        und = [it for it in self.items if it['status'] == 'undecided']
        cov = dict(obligations=tot, discharged=by.get('proved', 0) + by.get('held', 0),
                   discharged_by_identity=by.get('proved', 0), discharged_by_sampled_agreement=by.get('held', 0),
                   undecided=len(und), undecided_list=[(i['name'], i['site'], i['detail'][:300]) for i in und[:60]],
                   not_modelled=self.skipped[:40],
                   violated=[(i['name'], i['site'], i['detail'][:300]) for i in viol + kf],
                   rule=self.rule, functions=sorted(self.fns), counts=self.counts,
                   checker_cmd='cd /verif && python3 check.py %s' % self.pid,
                   trusted_base=['clang 18 front end and the exporter frontend/astx.cpp', 'lib/*.py (abstract interpreter, prover)',
                                 'library models in lib/models.py', 'identity of values is tested in a 90-bit prime field at %d random valuations' % T.NS,
                                 'real-number reading of floating-point arithmetic'] + self.trusted,
                   explanation=self.rule,
                   samples=[dict(name=i['name'], status=i['status'], site=i['site'], how=i['how']) for i in self.items[:: max(1, tot // 12)][:14]])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, wall_s=round(time.time() - self.t0, 3))
        with open(os.path.join(d, self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d proved, %d sampled, %d undecided, %d violated, %.1fs' % (
            self.pid, tot, by.get('proved', 0), by.get('held', 0), len(und), len(viol) + len(kf), time.time() - self.t0))
        if os.environ.get('VERIF_VERBOSE'):
            for i in und: print('  undecided:', i['name'], '|', i['site'], '|', i['detail'][:400])
            for s in self.skipped[:40]: print('  not modelled:', s)
        for it in kf: print('KNOWN-FINDING: property=%s %s at %s' % (self.pid, it['name'], it['site']))
        for it in viol[:20]: print('  violated: %s at %s: %s' % (it['name'], it['site'], it['detail'][:700]))
        if tot == 0:
            print('no obligations were generated'); return 2
        if viol:
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
            return 1
        return 0

def site_fn(s):
    s = s or ''
    import re
    return re.sub(r':\d+', '', s)
def clip(x, n=400):
    s = str(x)
    return s if len(s) <= n else s[:n] + '...'
def facts_str(d, base):
    return ', '.join(str(f) for f in d.facts if f not in base.facts)[:300]
