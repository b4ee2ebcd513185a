"""C35: what the driver makes of its command line and parameter file, and what it reports."""
from output import *
SIZES = {x: sym('par_' + x, True) for x in ('nx', 'nlat', 'nphi')}
ROLES = {'cl': ('compactification_length', False), 'rmin': ('Rmin', False), 'rmax': ('Rmax', False), 'nx': ('nx', True), 'nl': ('nl', True), 'nm': ('nm', True), 'nlat': ('nlat', True), 'nphi': ('nphi', True)}
ARG1, ARG2 = ('arg', 1), ('arg', 2)
def flat_events(R, ev, ctx, st, out=None, cond=()):
    """events in order that happen for certain under ctx; None when some sit under undecided conditions"""
    out = out if out is not None else []
    for e in ev:
        if e[0] == 'if':
            for c, t in e[1]:
                d = decide(ctx, c)
                if d is False: continue
                flat_events(R, t, ctx, st, out, cond if d is True else cond + (c,))
        elif e[0] == 'loop': flat_events(R, e[3], ctx, st, out, cond + ('loop',))
        else: out.append((e, cond))
    return out
def known_str(v): return isinstance(v, I_.Strv) and all(isinstance(x, str) or x in (ARG1, ARG2) for x in v.p)
class Once:
    """one obligation per name, the worst of the places that raise it"""
    def __init__(s): s.d = {}
    def ob(s, nm, status, det, site):
        rank = {'proved': 0, 'held': 0, 'undecided': 1, 'violated': 2}
        if nm not in s.d or rank[status] > rank[s.d[nm][0]]: s.d[nm] = (status, det, site)
    def flush(s, R):
        for nm, (a, b, c) in s.d.items(): R.ob(nm, a, b, c)
def line_of(st, n): return '%s:%s %s' % (st.split(':')[0], n, st.split(' ')[-1]) if n else st
def common(R, O, st, evs, ctx, what):
    """sizes and output directory of the events of one state"""
    N = SIZES['nx'] * SIZES['nlat'] * SIZES['nphi']
    for e, cond in evs:
        if e[0] == 'size':
            nm = 'arrays handed to the %s have nx*nlat*nphi elements' % e[1]
            s_, d, _ = R.eqval(e[2], N, ctx)
            O.ob(nm, s_, d, line_of(st, e[3]))
        if e[0] == 'csv':
            n = e[2]
            if not known_str(n): O.ob('files lie below the output directory', 'undecided', str(n)[:200], line_of(st, e[5])); continue
            ok = len(n.p) >= 2 and n.p[0] == ARG2 and isinstance(n.p[1], str) and n.p[1].startswith('/') and all(isinstance(x, str) for x in n.p[1:]) and '..' not in ''.join(n.p[1:])
            O.ob('files lie below the output directory', 'proved' if ok else 'violated', 'name %s, required <second argument>/<quantity>' % (n,), line_of(st, e[5]))
def startup(R, O, st, M, evs, ctx):
    pr = [e for e, c in evs if e[0] == 'params']
    if not pr: O.ob('parameters come from the file named by the first argument', 'undecided', 'no Params object is constructed', st)
    for e in pr:
        v = e[1][0] if e[1] else None
        if isinstance(v, LV): v = M.read(v)
        if not known_str(v): O.ob('parameters come from the file named by the first argument', 'undecided', str(v)[:200], line_of(st, e[2])); continue
        O.ob('parameters come from the file named by the first argument', 'proved' if v.p == (ARG1,) else 'violated', 'file name %s' % v, line_of(st, e[2]))
    gs = [e for e, c in evs if e[0] == 'ctor' and e[1] == 'Grid::Grid']
    if not gs: O.ob('grid is built from the parameters', 'undecided', 'no Grid is constructed', st)
    for e in gs:
        for nm, v in e[2]:
            r = ROLES.get((nm or '').lower())
            if r is None: O.ob('grid argument %s' % nm, 'undecided', 'unknown role', line_of(st, e[3])); continue
            if not isinstance(v, Poly): O.ob('grid argument %s is the parameter of that name' % nm, 'undecided', str(v)[:200], line_of(st, e[3])); continue
            s_, d, _ = R.eqval(v, sym('par_' + r[0], r[1]), ctx)
            O.ob('grid argument %s is the parameter of that name' % nm, s_, d, line_of(st, e[3]))
        have = {(nm or '').lower() for nm, v in e[2]}
        if not set(ROLES) <= have: O.ob('grid is built from the parameters', 'undecided', 'constructor without %s' % sorted(set(ROLES) - have), line_of(st, e[3]))
def report(R, O, st, M, evs, ctx, what, n, levels, must):
    """standard output of one state: time, residual and total variation"""
    vals, unk = [], False
    for e, cond in evs:
        if e[0] != 'cout': continue
        v = e[1]
        if isinstance(v, LV): v = M.read(v)
        if isinstance(v, Cond): v = ite(v, ONE, ZERO)
        if isinstance(v, Poly): vals.append((v, cond, e[2]))
        elif isinstance(v, I_.Strv): unk = unk or any(not isinstance(x, str) and x not in (ARG1, ARG2) for x in v.p)
        elif isinstance(v, I_.Opq) and is_manip(v) and v.tag[0] in ('manip', 'setw', 'setprecision', 'setfill', 'lib'): pass
        else: unk = True
    gap = unk or any(o.kind in ('unsupported', 'recursion') and o.status != 'proved' for o in M.obl.values())
    fn, fnp1, pn = levels
    DT = k_('dt')
    res, tv = [], []
    for v, cond, line in vals:
        k = M.diag.get(atom_of(v)) if v.single() is not None else None
        if k is None: continue
        (res if k[0] == 'Grid::norm_indep_res' else tv if k[0] == 'Grid::total_variation' else []).append((k[1], cond, line))
    if must:
        for nm, L in (('residual', res), ('total variation', tv)):
            if not L: O.ob('%s: the %s is reported' % (what, nm), 'undecided' if gap else 'violated', 'printed values: %s' % [clip(v, 40) for v, c, l in vals], st)
            elif all(c for a, c, l in L): O.ob('%s: the %s is reported' % (what, nm), 'undecided', 'under condition %s' % clip_(L[0][1]), st)
            else: O.ob('%s: the %s is reported' % (what, nm), 'proved', '', st)
        if not res and not tv: pass
        t = DT * n
        got = [(R.eqval(v, t, ctx)[0], v) for v, c, l in vals[:1]]
        if any(c for v, c, l in vals): O.ob('%s: the time dt*step is reported' % what, 'undecided', 'output under conditions', st)
        elif any(s in ('proved', 'held') for s, v in got): O.ob('%s: the time dt*step is reported' % what, 'proved', '', st)
        else: O.ob('%s: the time dt*step is reported' % what, 'undecided' if gap or any(s == 'undecided' for s, v in got) else 'violated', 'first number printed: %s, required %s' % ([clip(v, 60) for s, v in got], clip(t)), st)
    # what is reported belongs to the newest step, whenever it is reported
    for a, cond, line in res:
        nm = '%s: the residual compares the two levels of that step' % what
        if len(a) != 4: O.ob(nm, 'undecided', '%d arguments' % len(a), line_of(st, line)); continue
        s_, d, _ = R.eqval(a[0], DT, ctx) if isinstance(a[0], Poly) else ('undecided', '', 0)
        O.ob('%s: the residual uses the time step' % what, s_, d, line_of(st, line))
        for x, w, who in zip(a[1:], (fn, fnp1, pn), ('older level of the field', 'newer level of the field', 'momentum of the older level')):
            O.ob(nm, 'proved' if x is w else 'violated' if concrete(x) else 'undecided', '%s: %s, required %s' % (who, clip(x), clip(w)), line_of(st, line))
    for a, cond, line in tv:
        x = a[0] if a else None
        O.ob('%s: the total variation is that of the newest level' % what, 'proved' if x is fnp1 else 'violated' if isinstance(x, A.Arr) and concrete(x) else 'undecided', '%s, required %s' % (clip(x), clip(fnp1)), line_of(st, line))
def c35(R):
    R.rule = ('main interpreted with assertions on and the numerical kernels uninterpreted; constructor arguments, array sizes, file names, loop exit and everything sent to standard output are compared '
              'with the parameters, arguments and levels of the step, by induction over the step number')
    for cheb in (True, False):
        with R.scope('Chebyshev' if cheb else 'finite differences'):
            p, M = driver_machine(cheb, False)
            M.keep_cout = True
            f = pick(p, 'main')
            st = site(f)
            done = []
            O = Once()
            M.hook = lambda *a: done.append(1) or inductive(R, O, st, *a)
            argv = nloc('argv')
            M.S.store[argv] = I_.Lst((I_.Strv('prog'), I_.Strv(ARG1), I_.Strv(ARG2)))
            r = None
            try: r = M.call_fn(f, None, [M.bindv(f['params'][0], P(3)), M.bindv(f['params'][1], I_.Ptr(argv, ZERO))])
            except Dead: O.ob('main returns', 'undecided', '', st)
            else:
                v = M.read(r) if isinstance(r, LV) else r
                c = v.const() if isinstance(v, Poly) else None
                if isinstance(v, Poly): O.ob('main reports success after a complete run', 'proved' if c == 0 else 'violated' if c is not None else 'undecided', 'returns %s' % clip(v), st)
            if not done: R.ob('time-stepping loop', 'undecided', 'no loop calls Scalar_eom::time_step', st)
            for o in M.obl.values():
                if o.kind == 'assert' and o.fn.split('::')[-1] == f['q'].split('::')[-1]: O.ob('assertion in main holds for two arguments: %s' % o.what, o.status, str(o.wit) if o.wit is not None else '', '%s:%s %s' % (o.file, o.line, o.fn))
            O.flush(R)
            R.used(M); R.incomplete(M)
def inductive(R, O, st, M, S0, mod, pre, S1, brk, ret, run, node):
    evs = flat_events(R, S0.ev, S0.ctx, st)
    startup(R, O, st, M, evs, S0.ctx)
    common(R, O, st, evs, S0.ctx, 'start')
    report(R, O, st, M, evs, S0.ctx, 'start', ZERO, (INIT['f'], INIT['f'], INIT['p']), True)
    tse = [e for e in walk(S1.ev) if e[0] == 'ts'] if S1 is not None else []
    if len(tse) != 1 or S1 is None:
        R.ob('one time step per iteration', 'undecided', '%d step calls' % len(tse), st); return
    ind = Induct(R, S0, mod, pre, S1, run)
    for nm, S, qn, must in ind.runs():
        c, Sx, b, rr = run(S)
        if Sx is None: continue
        t = [e for e in walk(Sx.ev) if e[0] == 'ts']
        if len(t) != 1: continue
        _, f1, p1, X, Y, line = t[0]
        evs = flat_events(R, Sx.ev, Sx.ctx, st)
        common(R, O, st, evs, Sx.ctx, nm)
        step = TSS * (ind.q + 1) if must else TSS * ind.q + ind.r + 1
        report(R, O, st, M, evs, Sx.ctx, nm, step, (op('FILT', 'real', X), op('TSf', 'real', X, Y), op('FILT', 'real', Y)), must)
    # number of steps: another one is made after k steps exactly when k+1 < nt
    k = fresh('k', True)
    nm = 'nt-1 steps are made'
    for tag_, facts, want in (('a step is made while fewer than nt-1 are done', (ge0(NT - 2 - k),), True), ('no step is made after nt-1', (eq0(k - (NT - 1)),), False)):
        S = S0.copy(); S.ev = ()
        S.store.update(pre)
        S.ctx = S.ctx.add(ge0(k), *facts)
        for l, d in ind.cnt.items(): S.store[l] = S0.store[l] + P(d) * k
        for l in ind.keep: S.store[l] = fresh('s', True)
        mine = {atom_of(x) for x in (k, NT, TSS)}
        c, Sx, b, rr = run(S)
        if not isinstance(c, Cond): O.ob(tag_, 'undecided', 'loop condition %s' % (c,), st); continue
        d = decide(S.ctx, c)
        if b or rr: O.ob(tag_, 'undecided', 'the loop has other exits', st); continue
        if d is want: O.ob(tag_, 'proved', '', st); continue
        if d is (not want): O.ob(tag_, 'violated', 'loop condition %s' % clip(c), st); continue
        from logic import witness, leaf_syms
        used, odd = leaf_syms([c])
        if odd or any(x not in {m.id for m in mine} for x in used): O.ob(tag_, 'undecided', 'loop condition %s' % clip(c), st); continue
        w = witness(S.ctx, [c_not(c) if want else c])
        O.ob(tag_, 'undecided' if w is None else 'violated', 'loop condition %s; %s' % (clip(c), w), st)
