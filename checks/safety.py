"""C07, C12, C13, C33: memory bounds, resource lifetimes, data races and assertions of the numerical kernels.
One sweep interprets every kernel at symbolic sizes; each property selects the obligations it is about."""
from eom import *
from report import Rep, clip
import idata
import logic
import radial as RD
import sphere as SP
import os, sys, re, pickle, time, tempfile

class Out:
    """what one interpreted routine leaves behind"""
    def __init__(s, label, f, M, ins=(), outs=(), this=None, before=()):
        s.label, s.f, s.M, s.ins, s.outs, s.this, s.before, s.ret = label, f, M, ins, outs, this, before, None
PROBE = [False]
WANT = [None]
def opt(p, q, *a, **k):
    """the routine, or None when the sources no longer have it"""
    try: return pick(p, q, *a, **k)
    except load.Missing: return None
def invoke(label, M, f, this, args, ins=(), outs=()):
    n0 = len(M.allocs)
    before = [M.S.store[x.loc] for x in ins]
    r = None
    if PROBE[0]:
        o = this if isinstance(this, tuple) else ('none',)
        r = dict(kind='probe', shared={l for l in M.S.store if l[:len(o)] == o or l[0] in ('g', 'h')}, private=set(), acc=[], nloops=len(M.loops))
        M.par.append(r)
    ret = None
    if WANT[0] is not None and not WANT[0](f, M): return Out(label, f, M)
    try: ret = call(M, f, this, *args)
    finally:
        if r: M.par.remove(r)
    leaks(M, f, n0)
    out = Out(label, f, M, ins, outs, this, before)
    out.ret = ret
    out.acc = r['acc'] if r else ()
    return out
def leaks(M, f, n0):
    """storage obtained in this call and still live when it returns (or when the loop iteration that obtained it ends)"""
    if M.S is None: return
    for loc, how, line, file, q in M.allocs[n0:]:
        if kept(M, loc): continue
        live, ctx = M.S.store.get(loc + ('#live',)), M.S.ctx
        if live is None: live, ctx = M.iterlive.get(loc, (None, ctx))
        what = 'storage from %s is released on every path' % how
        if live is None: st = 'undecided'
        elif live is FALSE or ctx.prove(c_not(live)): st = 'proved'
        elif tops(live): st = 'undecided'
        else: st = 'violated'
        o = M.fstack
        M.fstack = [dict(file=file, q=q)]
        M.oblig('lifetime', what, st, {'still live when': str(live)[:200]} if st == 'violated' else None, line=line)
        M.fstack = o
def kept(M, loc):
    """the storage is owned by an object or a global"""
    return any(isinstance(v, I_.Ptr) and v.loc == loc for l, v in M.S.store.items() if l[0] in ('o', 'g', 'h'))

# ------------------------------------------------------------------ routines per component
def radial_routines(cheb, nmin, nd):
    cls = 'Cheb' if cheb else 'FD'
    p = prog(True, True, nd)
    _, M0, o, n = RD.radial(cls, nmin, p)
    yield Out(cls + ' constructor', pick(p, '%s::%s' % (cls, cls), n=3), M0, this=o)
    for nm, a in (('der', 2), ('der2', 2), ('to_ch', 2), ('to_po', 2), ('filter', 1)):
        f = opt(p, '%s::%s' % (cls, nm), n=a)
        if f is None: continue
        M = M0.fork()
        v = vec(M, 'v', n); d = vec(M, 'out', n)
        yield invoke('%s::%s' % (cls, nm), M, f, o, [v, d][:a], [v] if a == 2 and nm != 'to_po' else [], [d] if a == 2 else [v])
    f = opt(p, cls + '::pt', n=1)
    if f is not None:
        M = M0.fork()
        j, c = J('i', n, M.S.ctx); M.S.ctx = c
        yield invoke(cls + '::pt', M, f, o, [j])
def sphere_routines(cont, nd):
    p, M0, o, d = SP.sphere(cont, None, nd)
    L, Mm, nlat, nphi = d
    N = nlat * nphi
    yield Out('Sphere constructor', pick(p, 'Sphere::Sphere', n=4), M0, this=o)
    nlm = M0.S.store.get(o + ('._nYlm',))
    cpx = (L + 1) * (L + 1)
    V_ = lambda M, nm, et='real', sz=None: vec(M, nm, sz if sz is not None else N, et)
    for nm in ('laplace_beltrami', 'partial_phi', 'sphereX'):
        f = opt(p, 'Sphere::' + nm, n=2)
        if f is None: continue
        M = M0.fork(); v, w = V_(M, 'v'), V_(M, 'out')
        yield invoke('Sphere::' + nm, M, f, o, [v, w], [v], [w])
    for nm in ('raise', 'lower'):
        f = opt(p, 'Sphere::' + nm, n=2)
        if f is None: continue
        M = M0.fork(); v, w = V_(M, 'v'), V_(M, 'out', 'cplx')
        yield invoke('Sphere::' + nm, M, f, o, [v, w], [v], [w])
    f = opt(p, 'Sphere::filter', n=1)
    if f is not None:
        M = M0.fork(); v = V_(M, 'v')
        yield invoke('Sphere::filter', M, f, o, [v], [], [v])
    f = opt(p, 'Sphere::power_spectrum', n=2)
    if f is not None:
        M = M0.fork(); v, w = V_(M, 'v'), V_(M, 'out', 'real', L)
        yield invoke('Sphere::power_spectrum', M, f, o, [v, w], [v], [w])
    for nm in ('to_Ylm', 'to_Sph'):
        for f in [x for x in p.byname.get('Sphere::' + nm, []) if x.get('body') is not None and len(x['params']) == 2]:
            ci, co = ('complex' in x['t'] for x in f['params'])
            both = ci and co
            M = M0.fork()
            lmsz = cpx if both else M.S.store.get(o + ('._nYlm',))
            if not isinstance(lmsz, Poly): lmsz = nlm_of(L, Mm)
            isz, osz = (N, lmsz) if nm == 'to_Ylm' else (lmsz, N)
            v, w = V_(M, 'v', 'cplx' if ci else 'real', isz), V_(M, 'out', 'cplx' if co else 'real', osz)
            yield invoke('Sphere::%s (%s)' % (nm, 'complex' if both else 'real'), M, f, o, [v, w], [v], [w])
    f = opt(p, 'Sphere::compute_ylm', n=2)
    if f is not None:
        M = M0.fork()
        l, m = sym('arg_l', True), sym('arg_m', True)
        M.S.ctx = M.S.ctx.add(ge0(l), ge0(L - l), ge0(m), ge0(l - m), ge0(Mm - m))
        yield invoke('Sphere::compute_ylm', M, f, o, [l, m])
    for nm, n in (('theta', nlat), ('phi', nphi)):
        f = opt(p, 'Sphere::' + nm, n=1)
        if f is None: continue
        M = M0.fork(); j, c = J('i', n, M.S.ctx); M.S.ctx = c
        yield invoke('Sphere::' + nm, M, f, o, [j])
ROWS = [('row_R', ('it', 'ip'), ('ix',), 3), ('row_th', ('ix', 'ip'), ('it',), 3), ('row_ph', ('ix', 'it'), ('ip',), 3), ('row_n', ('il',), ('ix',), 2),
        ('row_R_th', ('ip',), ('ix', 'it'), 3), ('row_R_ph', ('it',), ('ix', 'ip'), 3), ('row_th_ph', ('ix',), ('it', 'ip'), 3), ('row_l', ('ix',), ('il',), 2)]
def gridctor(cheb, cont, nd, opq):
    g = G_.grid(cheb, cont, nd, opq)
    yield Out('Grid constructor', pick(g.p, 'Grid::Grid', n=8), g.M, this=g.o)
def grid_routines(cheb, cont, nd, opq=True):
    new = lambda: G_.grid(cheb, cont, nd, opq)
    g = new()
    yield from gridctor(cheb, cont, nd, opq)
    for nm in ('set_partial_phi', 'set_spherical_lap', 'set_sphereX', 'set_partial_R', 'set_partial_r', 'set_partial2_r', 'set_angular_power_spectrum', 'set_n_l_coef'):
        f = opt(g.p, 'Grid::' + nm, n=2)
        if f is None: continue
        g = new(); M = g.M
        v = vec(M, 'v', g.N); o = vec(M, 'out', g.nx * g.nl if nm in ('set_angular_power_spectrum', 'set_n_l_coef') else g.N)
        yield invoke('Grid::' + nm, M, f, g.o, [v, o], [v], [o])
    for nm, k in (('filter', 1), ('total_variation', 1), ('norm_indep_res', 4)):
        f = opt(g.p, 'Grid::' + nm, n=k)
        if f is None: continue
        g = new(); M = g.M
        vs = [vec(M, 'v%d' % i, g.N) for i in range(3 if k == 4 else 1)]
        yield invoke('Grid::' + nm, M, f, g.o, ([sym('dt')] if k == 4 else []) + vs, vs if nm != 'filter' else [], vs if nm == 'filter' else [])
    f = opt(g.p, 'Grid::compute_ylm', n=2)
    dims = lambda g: {'ix': g.nx, 'it': g.nlat, 'ip': g.nphi, 'il': g.nl}
    for nm, fixed, free, nd_ in ROWS:
        for pre in ('get_', 'set_'):
            f = opt(g.p, 'Grid::' + pre + nm)
            if f is None: continue
            g = new(); M = g.M; D = dims(g)
            a = []
            for k in fixed:
                s = sym('arg_' + k, True); M.S.ctx = M.S.ctx.add(ge0(s), ge0(D[k] - 1 - s)); a.append(s)
            big = g.N if nd_ == 3 else g.nx * g.nl
            small = ONE
            for k in free: small = small * D[k]
            v = vec(M, 'v', big if pre == 'get_' else small); o = vec(M, 'out', small if pre == 'get_' else big)
            yield invoke('Grid::' + pre + nm, M, f, g.o, a + [v, o], [v], [o])
    for nm, ks in (('R_th_ph', 'ix it ip'), ('x_y_z', 'ix it ip'), ('th_ph', 'it ip'), ('R_l', 'ix il'), ('n_l', 'ix il')):
        for f in [x for x in g.p.byname.get('Grid::' + nm, []) if x.get('body') is not None]:
            g = new(); M = g.M; D = dims(g)
            ks_ = ks.split()
            a = []
            if len(f['params']) == len(ks_):
                for k in ks_:
                    s = sym('arg_' + k, True); M.S.ctx = M.S.ctx.add(ge0(s), ge0(D[k] - 1 - s)); a.append(s)
            elif len(f['params']) == 1:
                n = ONE
                for k in ks_: n = n * D[k]
                s = sym('arg_i', True); M.S.ctx = M.S.ctx.add(ge0(s), ge0(n - 1 - s)); a.append(s)
            else: continue
            yield invoke('Grid::%s/%d' % (nm, len(a)), M, f, g.o, a)
def field_obj(M, p, name, N):
    o = ('o', 'lab', name)
    f = [x for x in p.byname['Field::Field'] if x.get('body') is not None][0]
    M.call_fn(f, o, [M.bindv(f['params'][0], I_.Strv(name)), M.bindv(f['params'][1], N), M.bindv(f['params'][2], ZERO)])
    for lv in ('n', 'l', 'np1', 'k'):
        v = M.S.store.get(o + ('.' + lv,))
        if isinstance(v, Vec): M.S.store[o + ('.' + lv,)] = Vec(v.size, base('%s_%s' % (name, lv)), v.inner)
    return o
def eom_routines(cheb, cont, nd):
    new = lambda: setup(cheb, cont, nd)
    e = new(); g = e.g
    yield Out('Scalar_eom constructor', pick(e.p, 'Scalar_eom::Scalar_eom', n=2), e.M, this=e.o)
    M = e.M.fork()
    fl = field_obj(M, e.p, 'f', g.N)
    f = opt(e.p, 'Field::shift')
    if f is not None: yield invoke('Field::shift', M, f, fl, [], [], [LV(fl + ('.n',))])
    f = opt(e.p, 'Scalar_eom::set_k', n=5)
    if f is not None:
        M = e.M.fork(); vs = [vec(M, n, g.N) for n in ('F', 'Pm', 'fk', 'pk')]
        yield invoke('Scalar_eom::set_k', M, f, e.o, [LV(g.o)] + vs, vs[:2], vs[2:])
    f = opt(e.p, 'Scalar_eom::set_rho', n=4)
    if f is not None:
        M = e.M.fork(); vs = [vec(M, n, g.N) for n in ('F', 'Pm', 'rho')]
        yield invoke('Scalar_eom::set_rho', M, f, e.o, [LV(g.o)] + vs, vs[:2], vs[2:])
    f = opt(e.p, 'Scalar_eom::set_level', n=3)
    if f is not None:
        for lev in (2, 3, 4, 5):
            M = e.M.fork()
            fo, po = field_obj(M, e.p, 'f', g.N), field_obj(M, e.p, 'p', g.N)
            yield invoke('Scalar_eom::set_level(%d)' % lev, M, f, e.o, [P(lev), LV(fo), LV(po)], [], [LV(x + ('.' + lv,)) for x in (fo, po) for lv in ('l', 'np1')])
    f = opt(e.p, 'Scalar_eom::time_step', n=3)
    if f is not None:
        M = e.M.fork()
        fo, po = field_obj(M, e.p, 'f', g.N), field_obj(M, e.p, 'p', g.N)
        def ks(M, ff, this, b):
            v = [M.S.store[x.loc] for x in b[1:5]]
            for x in v: M.check('bounds', eq0(x.size - g.N), 'field level passed to set_k has the size of the grid')
            a, c = (M.xnorm(x.arr, x.size) for x in v[:2])
            for x in b[1:3]: M.access_range(x.loc, ZERO, g.N, 'r')
            for x in b[3:5]: M.access_range(x.loc, ZERO, g.N, 'w')
            M.S.store[b[3].loc] = Vec(g.N, op('rhsf', 'real', a, c), None)
            M.S.store[b[4].loc] = Vec(g.N, op('rhsp', 'real', a, c), None)
            return VOID
        M.opaque['Scalar_eom::set_k'] = binder_of(ks)
        yield invoke('Scalar_eom::time_step', M, f, e.o, [LV(g.o), LV(fo), LV(po)], [], [LV(x + ('.np1',)) for x in (fo, po)])
def id_routines(cheb, cont, nd, direction='ingoing'):
    e = idata.pulse(cheb, cont, direction, nd)
    leaks(e.M, e.f, 0)
    yield Out('ID::compact_pulse', e.f, e.M, [], [e.F, e.P])


# ------------------------------------------------------------------ the sweep
def groups(nd, tier='quick', opq=False):
    L = [('Cheb', lambda: radial_routines(True, 8, nd)), ('FD', lambda: radial_routines(False, 8, nd))]
    for cont in (True, False):
        L.append(('Sphere, %s' % ('theta-contiguous' if cont else 'phi-contiguous'), lambda cont=cont: sphere_routines(cont, nd)))
    for cheb, cont in configs('all') if tier == 'thorough' else configs():
        t = tag(cheb, cont)
        L.append(('Grid, ' + t, lambda a=cheb, b=cont: grid_routines(a, b, nd, opq)))
        L.append(('Equation of motion, ' + t, lambda a=cheb, b=cont: eom_routines(a, b, nd)))
        L.append(('Initial data, ' + t, lambda a=cheb, b=cont: id_routines(a, b, nd)))
    return L
class Sub_(Rep):
    """collector used inside one worker"""
    def __init__(s, R): Rep.__init__(s, R.pid, R.tier, R.seed); s.sc_ = None
def parallel(R, jobs):
    """runs jobs (name, function of a collector) in forked workers and adopts what they report, in order"""
    W = int(os.environ.get('VERIF_WORKERS', '7'))
    res, run, todo = {}, {}, list(enumerate(jobs))
    while todo or run:
        while todo and len(run) < W:
            i, (nm, fn) = todo.pop(0)
            fd, path = tempfile.mkstemp(prefix='vjob'); os.close(fd)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    S = Sub_(R)
                    try:
                        with S.scope(nm): fn(S)
                        out = ('ok', S.items, sorted(S.fns), S.counts, S.skipped)
                    except load.Missing as e: out = ('missing', str(e), S.items, sorted(S.fns))
                    except load.Broken as e: out = ('broken', str(e))
                    except BaseException:
                        import traceback
                        out = ('error', traceback.format_exc()[-1500:], S.items, sorted(S.fns))
                    with open(path, 'wb') as h: pickle.dump(out, h)
                finally: os._exit(0)
            run[pid] = (i, nm, path)
        pid, st = os.wait()
        if pid not in run: continue
        i, nm, path = run.pop(pid)
        try:
            with open(path, 'rb') as h: res[i] = pickle.load(h)
        except Exception: res[i] = ('error', 'worker ended without a result (status %s)' % st, [], [])
        os.unlink(path)
    for i, (nm, fn) in enumerate(jobs):
        r = res[i]
        if r[0] == 'broken': raise load.Broken(r[1])
        items, fns = (r[1], r[2]) if r[0] == 'ok' else (r[2], r[3])
        R.items += items; R.fns |= set(fns)
        if r[0] == 'ok':
            for k, v in r[3].items(): R.add(k, v)
            R.skipped += r[4]
        else: R.ob('%s: analysed' % nm, 'undecided', r[1])
def sweep(kinds, gen, post=None):
    """job: interpret the routines of a group, adopt the obligations of the kinds, apply post to each routine"""
    def job(S):
        seen = {}
        rank = {'proved': 0, 'undecided': 1, 'violated': 2}
        for o in gen():
            for k, x in o.M.obl.items():
                if x.kind in ('loop', 'unsupported', 'recursion') and x.status != 'proved' and k not in seen:
                    seen[k] = None; S.skipped.append(str(x)[:300])
                if x.kind not in kinds: continue
                if k not in seen or rank[x.status] > rank[seen[k].status]: seen[k] = x
            S.used(o.M)
            S.add('routines', 1)
            if post is not None:
                with S.scope(o.label): post(S, o)
        for x in seen.values():
            if x is not None: S.ob('%s: %s' % (x.kind, x.what), x.status, str(x.wit) if x.wit is not None else '', '%s:%s %s' % (x.file, x.line, x.fn))
    return job

# ------------------------------------------------------------------ C07
def c07(R):
    R.rule = ('every subscript, block access of the transform libraries and size agreement in the kernels is an obligation 0 <= index < size over symbolic sizes, discharged by linear and '
              'product-bound entailment in the abstract state at the access (loops summarised with their iteration range); arrays that are read only are compared before and after')
    def preserved(S, o):
        for x, b in zip(o.ins, o.before):
            v = o.M.S.store.get(x.loc) if o.M.S is not None else None
            nm = 'input %s unchanged' % x.loc[-1]
            if v is b or (isinstance(v, Vec) and v.arr is b.arr and v.size is b.size): S.ob(nm, 'proved', '', site(o.f)); continue
            if not isinstance(v, Vec): S.ob(nm, 'undecided', str(v)[:200], site(o.f)); continue
            i, c = J('i', b.size, o.M.S.ctx)
            g = get(v.arr, (i,), c)
            if v.arr.k == 'uninit' or any(a.k == 'uninit' for a in arrs_in(g)) or any("('destroyed'" in str(t.args[0]) for t in tops(g)): S.ob(nm, 'violated', 'the array is overwritten: element i becomes %s' % clip(g), site(o.f))
            else: S.eq(nm, g, get(b.arr, (i,), c), c, site(o.f))
    parallel(R, [(nm, sweep(('bounds',), fn, preserved)) for nm, fn in groups(True, R.tier)])
def arrs_in(x):
    out = []
    T.walk_atoms(x, lambda a: out.extend(y for y in a.args if isinstance(y, A.Arr)))
    return out

# ------------------------------------------------------------------ C33
def c33(R):
    R.rule = ('every assertion of the kernels is an obligation in the abstract state that reaches it, for all sizes a valid call can have; evaluating it must not write or perform effects; '
              'with the assertions removed the two preprocessed programs must be the same syntax tree')
    jobs = [(nm, sweep(('assert', 'assert-pure'), fn)) for nm, fn in groups(False, R.tier)]
    jobs.append(('assertions compiled out', ndebug_equal))
    jobs += differing_jobs(R)
    parallel(R, jobs)
def canon_ast(x, ren):
    """the tree without assertions, positions and numbering"""
    if isinstance(x, list):
        out = [canon_ast(y, ren) for y in x]
        return [y for y in out if y != 'ASSERT']
    if not isinstance(x, dict): return x
    if x.get('k') == 'cond' and (I_.assert_call(x['b']) is not None or I_.assert_call(x['a']) is not None): return 'ASSERT'
    y = x
    while isinstance(y, dict) and y.get('k') == 'cast' and y.get('t') == 'void': y = y['e']
    if y is not x and isinstance(y, dict) and y.get('k') == 'int' and str(y.get('v')) == '0': return 'ASSERT'
    if x.get('k') == 'expr' and isinstance(x.get('e'), dict) and canon_ast(x['e'], {}) == 'ASSERT': return 'ASSERT'
    r = {}
    for k, v in sorted(x.items()):
        if k in ('l', 'unit'): continue
        if k == 'id' and isinstance(v, str):
            m = re.match(r'v(\d+):(.*)$', v)
            if m: v = ren.setdefault(v, '%d:%s' % (len(ren), m.group(2)))
        r[k] = canon_ast(v, ren) if isinstance(v, (dict, list)) else v
    return r
def ast_differs(cheb, cont):
    """functions whose definitions differ between the two builds in more than assertions: {usr: function}"""
    a, b = prog(cheb, cont, False), prog(cheb, cont, True)
    return {u: (a.fn.get(u) or b.fn.get(u)) for u in set(a.fn) | set(b.fn)
            if a.fn.get(u) is None or b.fn.get(u) is None or canon_ast(a.fn[u], {}) != canon_ast(b.fn[u], {})}
def ndebug_equal(S):
    for cheb, cont in configs('all'):
        a, b = prog(cheb, cont, False), prog(cheb, cont, True)
        bad = ast_differs(cheb, cont)
        with S.scope(tag(cheb, cont)):
            for u in sorted(set(a.fn) | set(b.fn)):
                f = a.fn.get(u) or b.fn.get(u)
                nm = '%s is the same with and without assertions' % f['q']
                if u not in bad: S.ob(nm, 'proved', '', site(f))
                else: S.ob(nm, 'undecided', 'the two definitions differ in more than assertions; their values are compared separately', site(f))
def reaches(p, f, bad, memo, opaque):
    """a definition of bad is reachable in the call graph without crossing an operator kept uninterpreted"""
    if f['usr'] in bad: return True
    if f['usr'] in memo: return memo[f['usr']]
    memo[f['usr']] = False
    out = []; walk_calls([f.get('body'), f.get('inits')], out)
    r = any(fn['q'] not in opaque and (fn.get('usr') in bad or (p.fn.get(fn.get('usr')) is not None and reaches(p, p.fn[fn['usr']], bad, memo, opaque))) for fn, l in out)
    memo[f['usr']] = r
    return r
def differing_jobs(R):
    """compares the values computed in the two builds by the routines that reach a differing definition"""
    jobs = []
    names = {f['q'] for cheb, cont in configs('all') for f in ast_differs(cheb, cont).values()}
    if not names: return jobs
    for (nm, ga), (_, gb) in zip(groups(False, R.tier, True), groups(True, R.tier, True)):
        jobs.append(('compiled out, ' + nm, lambda S, ga=ga, gb=gb: differing_values(S, ga, gb, names)))
    return jobs
def differing_values(S, ga, gb, names):
    def want(f, M):
        bad = {u for u, h in M.p.fn.items() if h['q'] in names}
        return reaches(M.p, f, bad, {}, set(M.opaque))
    WANT[0] = want
    # the same numbering of bound symbols in both runs: equal computations give identical summaries
    import itertools
    n0 = next(T._counter); both, last = [], n0
    for g in (ga, gb):
        for memo in (A._getmemo, A._sm, A._lv, logic._ctxs, G_._grids): memo.clear()
        T._counter = itertools.count(n0)
        both.append(list(g())); last = max(last, next(T._counter))
    T._counter = itertools.count(last)
    def same(nm, v, w, c, at_):
        if tops(v) or tops(w): S.ob(nm, 'undecided', 'value unknown', at_)
        elif isinstance(v, Poly) and isinstance(w, Poly): S.eq(nm, v - w, ZERO, c, at_)    # common operator results cancel
        else: S.eq(nm, v, w, c, at_)
    for x, y in zip(*both):
        if x.M.S is None or y.M.S is None: continue
        if not (want(x.f, x.M) or want(y.f, y.M)): continue
        S.used(x.M)
        with S.scope(x.label):
            nm = 'same value with and without assertions'
            for a, b in zip(x.outs, y.outs):
                v, w = x.M.S.store.get(a.loc), y.M.S.store.get(b.loc)
                if not isinstance(v, Vec) or not isinstance(w, Vec): continue
                S.eq('same size with and without assertions', v.size, w.size, x.M.S.ctx, site(x.f))
                i, c = J('i', v.size, x.M.S.ctx)
                same(nm, get(v.arr, (i,), c), get(w.arr, (i,), c), c, site(x.f))
            if isinstance(x.ret, (Poly, T.Cx)) and isinstance(y.ret, (Poly, T.Cx)): same(nm + ' returned', x.ret, y.ret, x.M.S.ctx, site(x.f))
            for l, v in x.M.S.store.items():
                # members of the object under construction or called
                if not isinstance(x.this, tuple) or l[:len(x.this)] != x.this or len(l) == len(x.this): continue
                w = y.M.S.store.get(l)
                if isinstance(v, Vec) and isinstance(w, Vec):
                    if v.arr is w.arr and v.size is w.size: continue
                    S.eq('same size of %s with and without assertions' % l[-1], v.size, w.size, x.M.S.ctx, site(x.f))
                    if v.inner is not None: continue
                    i, c = J('i', v.size, x.M.S.ctx)
                    same(nm + ' in ' + l[-1], get(v.arr, (i,), c), get(w.arr, (i,), c), c, site(x.f))
                elif isinstance(v, (Poly, T.Cx)) and isinstance(w, (Poly, T.Cx)) and v is not w: same(nm + ' in ' + l[-1], v, w, x.M.S.ctx, site(x.f))

# ------------------------------------------------------------------ C12
def flat_events(ev):
    for e in ev:
        if e[0] == 'loop':
            yield from flat_events(e[3])
        else: yield e
def c12(R):
    R.rule = ('every allocator result carries a liveness state through the abstract interpretation: use and release need it live, release needs the matching deallocator, and at the end of the routine '
              '(or of the loop iteration) storage that no object keeps must be released; two objects of each owning class are constructed and destroyed in the abstract state; '
              'copy and move operations of owning classes must be deleted or keep ownership unique')
    def post(S, o):
        for e in flat_events(o.M.S.ev if o.M.S is not None else ()):
            if e[0] == 'fftw_cleanup':
                S.ob('no library-wide cleanup', 'violated', 'line %s releases the plans / configurations of every other object' % e[1], site(o.f))
                return
        S.ob('no library-wide cleanup', 'proved', '', site(o.f))
    jobs = [(nm, sweep(('lifetime',), fn, post)) for nm, fn in groups(True, R.tier)]
    jobs.append(('owners', owners))
    parallel(R, jobs)
def is_handle(t):
    t = t.replace('const ', '').strip()
    return t.endswith('*') or t in ('fftw_plan', 'shtns_cfg')
def wrapped(t): return 'unique_ptr' in t or 'shared_ptr' in t
def held(M, o):
    """allocations kept in the object: {field location: storage}"""
    return {l: v.loc for l, v in M.S.store.items() if l[:len(o)] == o and isinstance(v, I_.Ptr) and (v.loc + ('#live',)) in M.S.store}
def alive(M, loc): return M.S.store.get(loc + ('#live',))
def state(M, loc, want):
    v = alive(M, loc)
    if v is want or M.S.ctx.prove(v if want is TRUE else c_not(v)): return 'proved'
    return 'undecided' if v is None or tops(v) else 'violated'
def owners(S):
    (dd, dctx) = SP.dims()
    n = sym('n', True)
    for cls, args, ctx in (('Cheb', (n, RD.LO, RD.UP), RD.size(n, 8)), ('Sphere', dd, dctx)):
        with S.scope(cls): owner(S, cls, args, ctx)
    # classes that keep raw handles of their own without being examined above
    p = prog(True, True, True)
    for q, c in sorted(p.cls.items()):
        if q in ('Cheb', 'Sphere') or not q: continue
        raw = [f for f in c['fields'] if is_handle(f['t'])]
        if not raw: continue
        rel = [f for f in p.fn.values() if f['q'] == '%s::~%s' % (q, I_.tail(q)) and f.get('body') is not None]
        if not rel: continue
        at_, hid = copysites(p, q)
        if not at_ and hid is None:
            S.ob('no object of the class is copied', 'proved', '%d functions' % len(p.fn), '%s %s' % (c.get('file', ''), q)); continue
        if not at_:
            S.ob('no object of the class is copied', 'undecided', 'kept in %s' % hid, '%s %s' % (c.get('file', ''), q)); continue
        copyrule(S, p, q, c, raw, None)
def owning(p, t):
    """a class that releases a raw handle of its own and whose copies would release it again"""
    c = p.cls.get(I_.plain_t(t))
    if c is None or c['q'] in ('Cheb', 'Sphere', 'FD', 'Grid'): return False
    return any(is_handle(f['t']) for f in c['fields']) and any(f.get('body') is not None for f in p.byname.get('%s::~%s' % (c['q'], I_.tail(c['q'])), [])) and c['copyctor'] in ('implicit', 'default')
def copysites(p, q):
    """places where an object of class q is copied, and a container type that may copy it"""
    at_, hid = [], [None]
    def go(x, f):
        if isinstance(x, list):
            for y in x: go(y, f)
        elif isinstance(x, dict):
            t = x.get('t')
            if isinstance(t, str) and t != q and q in t:
                if re.search(r'(vector|array|map|deque|list|pair|tuple|function|optional)<.*' + re.escape(q), t): hid[0] = t
            if x.get('k') == 'construct' and t == q and (x.get('copy') or x.get('move')) and not x.get('elidable'): at_.append((f['q'], x.get('l')))
            if x.get('k') == 'opcall' and x.get('op') == '=' and x['args'] and x['args'][0].get('t') == q: at_.append((f['q'], x.get('l')))
            for y in x.values():
                if isinstance(y, (dict, list)): go(y, f)
    for f in p.fn.values():
        go([f.get('body'), f.get('inits'), f['params']], f)
    # a class that keeps one by value copies it when it is copied itself
    for c in p.cls.values():
        for fl in c['fields']:
            if fl['t'] == q and not fl.get('ref'): hid[0] = hid[0] or 'a member of %s' % c['q']
    return at_, hid[0]
def fresh_owner(p, cls, args, ctx, names):
    M = Machine(p, ctx=ctx)
    os_ = [construct(M, cls, args, nm) for nm in names]
    return M, os_
def destroy(M, p, cls, o):
    if not M.wants_destroy(cls): return None
    try: M.destroy(o, cls)
    except I_.Dead: M.S = None
    return opt(p, '%s::~%s' % (cls, cls)) or pick(p, '%s::%s' % (cls, cls))
def owner(S, cls, args, ctx):
    p = prog(True, True, True)
    ctor = pick(p, '%s::%s' % (cls, cls), n=len(args))
    M, (a, b) = fresh_owner(p, cls, args, ctx, 'AB')
    S.used(M)
    ha, hb = held(M, a), held(M, b)
    c = p.cls.get(cls)
    raw = [f for f in c['fields'] if is_handle(f['t']) or owning(p, f['t'])] if c else []
    if not ha:
        st = 'undecided' if any(wrapped(f['t']) for f in c['fields']) or c['bases'] else 'proved'
        S.ob('resources kept by the object', st, 'no raw handle found', site(ctor)); return
    leaks(M, ctor, 0)
    for l in ha: S.ob('handle %s is live after construction' % l[-1], state(M, ha[l], TRUE), '', site(ctor))
    com = set(ha.values()) & set(hb.values())
    S.ob('two objects hold different handles', 'violated' if com else 'proved', str(com) if com else '', site(ctor))
    f = destroy(M, p, cls, a)
    if f is None:
        S.ob('the destructor releases what the constructor acquired', 'violated' if raw else 'undecided', 'the class keeps %s and has no destructor' % [x['f'] for x in raw], site(ctor))
    else:
        for l in ha: S.ob('the destructor releases %s' % l[-1], state(M, ha[l], FALSE) if M.S is not None else 'undecided', 'handle %s still live after destruction' % l[-1], site(f))
        for l in hb: S.ob('destroying another object leaves %s alive' % l[-1], state(M, hb[l], TRUE), '', site(f))
        ev = [e for e in flat_events(M.S.ev) if e[0] == 'fftw_cleanup']
        S.ob('no library-wide cleanup on destruction', 'violated' if ev else 'proved', 'line %s' % ev[0][1] if ev else '', site(f))
        v = vec(M, 'v', args[0] if cls == 'Cheb' else args[2] * args[3])
        g = opt(p, cls + '::filter', n=1)
        if g is not None: call(M, g, b, v)
        destroy(M, p, cls, b)
        for l in hb: S.ob('destroying both objects releases %s of each' % l[-1], state(M, hb[l], FALSE), '', site(f))
    lifetime_of(S, M, 'construct A, construct B, destroy A, use B, destroy B')
    copyrule(S, p, cls, c, raw, (cls, args, ctx))
def lifetime_of(S, M, what):
    bad = [x for x in M.obl.values() if x.kind == 'lifetime' and x.status != 'proved']
    n = sum(x.kind == 'lifetime' for x in M.obl.values())
    for x in bad: S.ob('%s: %s' % (what, x.what), x.status, str(x.wit), '%s:%s %s' % (x.file, x.line, x.fn))
    if not bad: S.ob('%s: %d uses and releases of live storage' % (what, n), 'proved')
def copyrule(S, p, cls, c, raw, mk_):
    if c is None or not raw: return
    st = '%s %s' % (c.get('file', ''), cls)
    const_ = any(f.get('const') or f['t'].rstrip().endswith('&') or f['t'].startswith('const ') and not f['t'].endswith('*') for f in c['fields'])
    unc = any(wrapped(f['t']) and 'unique' in f['t'] or 'mutex' in f['t'] or 'atomic' in f['t'] for f in c['fields']) or any(nocopy(p, f['t']) for f in c['fields']) or any(nocopy(p, b) for b in c['bases'])
    private = str(c.get('access_copy')) == '2'
    for op_, ctor in (('copyctor', True), ('copyassign', False), ('movector', True), ('moveassign', False)):
        nm = '%s %s handle' % (op_, 'cannot duplicate the' if op_.startswith('copy') else 'keeps a single owner of the')
        how = c[op_]
        if how == 'deleted': S.ob(nm, 'proved', 'deleted', st); continue
        if how == 'implicit':
            if op_.startswith('move'):
                # not declared when a destructor or a copy operation is user-declared: moves copy
                S.ob(nm, 'proved', 'not declared', st) if c['userdtor'] else S.ob(nm, 'undecided', 'implicit', st)
                continue
            if unc or (not ctor and const_): S.ob(nm, 'proved', 'implicitly deleted by its members', st); continue
            S.ob(nm, 'violated', 'the implicit %s duplicates %s, which the destructor releases' % (op_, ', '.join(f['f'] for f in raw)), st); continue
        if how == 'default':
            if op_.startswith('copy') and (unc or (not ctor and const_)) or (op_ == 'moveassign' and const_): S.ob(nm, 'proved', 'deleted by its members', st); continue
            S.ob(nm, 'violated', 'the defaulted %s duplicates %s, which the destructor releases' % (op_, ', '.join(f['f'] for f in raw)), st); continue
        if private and op_ == 'copyctor': S.ob(nm, 'proved', 'private', st); continue
        usercopy(S, p, cls, op_, nm, mk_, st)
def nocopy(p, t):
    c = p.cls.get(t.replace('const ', '').strip())
    return c is not None and c['copyctor'] == 'deleted'
def usercopy(S, p, cls, op_, nm, mk_, st):
    """a user-provided copy or move: run it and destroy every object"""
    if mk_ is None: S.ob(nm, 'undecided', 'user-provided', st); return
    _, args, ctx = mk_
    cand = [f for f in p.byname.get('%s::%s' % (cls, cls) if op_.endswith('ctor') else '%s::operator=' % cls, []) if f.get('body') is not None and len(f['params']) == 1 and cls in f['params'][0]['t']]
    cand = [f for f in cand if ('&&' in f['params'][0]['t']) == op_.startswith('move')]
    if not cand: S.ob(nm, 'undecided', 'definition not found (declared without a body)', st); return
    f = cand[0]
    try:
        if op_.endswith('ctor'):
            M, (a,) = fresh_owner(p, cls, args, ctx, 'A'); b = ('o', 'lab', 'C')
        else: M, (a, b) = fresh_owner(p, cls, args, ctx, 'AC')
        M.call_fn(f, b, [LV(a)])
        h = set(held(M, a).values()) & set(held(M, b).values())
        h = {x for x in h if alive(M, x) is not FALSE}
        if h: S.ob(nm, 'violated', 'both objects hold %s after the call' % ', '.join(map(str, h)), site(f)); return
        destroy(M, p, cls, b); destroy(M, p, cls, a)
        leaks(M, f, 0)
        lifetime_of(S, M, nm)
    except load.Broken: raise
    except Exception as e: S.ob(nm, 'undecided', str(e)[:200], site(f))

# ------------------------------------------------------------------ C13
UNSAFE = {'fftw_destroy_plan', 'fftw_cleanup', 'fftw_cleanup_threads', 'fftw_execute', 'fftw_forget_wisdom', 'fftw_plan_with_nthreads', 'fftw_set_timelimit', 'shtns_create', 'shtns_create_with_lmax',
          'shtns_set_grid', 'shtns_set_grid_auto', 'shtns_destroy', 'shtns_reset', 'shtns_init', 'shtns_unset_grid', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'srand48', 'strtok',
          'localtime', 'gmtime', 'asctime', 'ctime', 'setlocale', 'lgamma', 'lgammaf', 'gamma', 'strerror', 'getenv', 'setenv', 'putenv', 'tmpnam'}
def unsafe_entry(q):
    n = q.split('::')[-1] if q.startswith('std::') or '::' not in q else None
    if n is None: return False
    return n in UNSAFE or re.match(r'fftwf?l?_(mpi_)?(plan_|import_|export_)', n) is not None
def walk_calls(x, out):
    if isinstance(x, list):
        for y in x: walk_calls(y, out)
    elif isinstance(x, dict):
        fn = x.get('fn')
        if isinstance(fn, dict) and 'q' in fn: out.append((fn, x.get('l')))
        k = x.get('ctor')
        if isinstance(k, dict) and 'q' in k: out.append((k, x.get('l')))
        for k, y in x.items():
            if isinstance(y, (dict, list)) and k != 'fn': walk_calls(y, out)
def parallel_bodies(x, out, guard=False):
    """maximal statements executed by more than one thread"""
    if isinstance(x, list):
        for y in x: parallel_bodies(y, out)
    elif isinstance(x, dict):
        if x.get('k') == 'omp' and x['dir'].split()[0] in ('parallel', 'for', 'sections', 'taskloop', 'task', 'teams'):
            out.append(x); return
        for y in x.values(): parallel_bodies(y, out)
def strip_guarded(x):
    if isinstance(x, list): return [strip_guarded(y) for y in x]
    if isinstance(x, dict):
        if x.get('k') == 'omp' and x['dir'].split()[0] in ('critical', 'single', 'master', 'masked', 'ordered'): return {'k': 'null'}
        return {k: strip_guarded(y) for k, y in x.items()}
    return x
def callgraph(S):
    """library entry points reachable from parallel regions"""
    p = prog(True, True, True)
    seen_region = False
    for cheb, cont in configs('all'):
        p = prog(cheb, cont, True)
        with S.scope(tag(cheb, cont)):
            memo = {}
            def callees(f):
                if f['usr'] not in memo:
                    out = []; walk_calls(strip_guarded([f.get('body'), f.get('inits')]), out); memo[f['usr']] = out
                return memo[f['usr']]
            for f in sorted(p.fn.values(), key=lambda f: (f.get('file', ''), f.get('l', 0))):
                if f.get('body') is None: continue
                regs = []; parallel_bodies(f['body'], regs)
                for r in regs:
                    out = []; walk_calls(strip_guarded(r['body']), out)
                    todo = [(fn, (f['q'],)) for fn, l in out]
                    seen, bad, nlib = set(), [], 0
                    while todo:
                        fn, path = todo.pop()
                        if fn['q'] in seen and fn.get('usr') in seen: continue
                        seen |= {fn['q'], fn.get('usr')}
                        nlib += 1
                        if unsafe_entry(fn['q']): bad.append(path + (fn['q'],)); continue
                        g = p.fn.get(fn.get('usr'))
                        if g is not None: todo += [(x, path + (g['q'],)) for x, l in callees(g)]
                    S.add('regions', 1); S.add('reachable functions', nlib)
                    nm = 'parallel region %s: no thread-unsafe library entry point is reachable' % r['dir']
                    S.ob(nm, 'violated' if bad else 'proved', ' -> '.join(bad[0]) if bad else '%d functions reachable' % nlib, '%s:%s %s' % (f.get('file', '').replace('/repo/', ''), r.get('l'), f['q']))
def effects(cheb, cont, S=None):
    """what the grid operators touch besides their arguments: {operator: [(location, 'r'/'w', where)]}, locations normalised"""
    PROBE[0] = True
    eff = {}
    try:
        for q in list(GRIDOPS) + ['Grid::filter']:
            g = G_.grid(cheb, cont, True, False)
            f = opt(g.p, q)
            if f is None: continue
            M = g.M
            vs = [vec(M, 'v', g.N), vec(M, 'out', g.N)][:len(f['params'])]
            o = invoke(q, M, f, g.o, vs)
            if S is not None: S.used(M)
            e = {}
            for a in o.acc:
                k = (norm_loc(a.loc), a.rw)
                if a.guard and a.rw == 'w': continue
                tid = any(L_.is_tid(x) for x in (a.idx or ())) or any(L_.is_tid(x) for x in a.ctx.facts)
                if k not in e: e[k] = (a, tid)
            eff[q] = e
    finally: PROBE[0] = False
    return eff
import loops as L_
def norm_loc(l): return l if l[0] in ('o', 'g') else ('g', 'kept storage') + tuple(str(x) for x in l)
def replaying(h, q, e, written):
    def g(M, obj, args, n):
        r = h(M, obj, args, n)
        for (loc, rw), (a, tid) in e.items():
            if loc not in written: continue
            if loc not in M.S.store: continue
            fi = M.access
            M.access(loc, None, rw, I_.Strv('effect'))
        return r
    return g
def race_eom(cheb, cont):
    """equation-of-motion routines with the effects of the grid operators on shared storage replayed"""
    def gen(S):
        eff = effects(cheb, cont, S)
        written = {l for e in eff.values() for (l, rw), (a, tid) in e.items() if rw == 'w' and not tid}
        S.ob('writes of the grid operators outside their arguments', 'proved', 'none' if not written else str(sorted(map(str, written)))[:300])
        def wrap(M):
            for l in written: M.S.store.setdefault(l, I_.Opq('effect', l))
            for q, e in eff.items():
                if q in M.opaque: M.opaque[q] = replaying(M.opaque[q], q, e, written)
        old = globals()['setup']
        def setup_(*a):
            e = old(*a); e.M.opaque = dict(e.M.opaque); wrap(e.M); return e
        globals()['setup'] = setup_
        try: yield from eom_routines(cheb, cont, True)
        finally: globals()['setup'] = old
    return gen
def c13(R):
    R.rule = ('for every worksharing loop each write to shared storage is compared with every access of another iteration (the index maps must be injective in the loop index, solved symbolically over the grid sizes); '
              'sections are compared pairwise, including what the operators they call write outside their arguments; a team may write shared storage only inside worksharing or guarded constructs; '
              'library entry points reachable in the call graph from a region must be thread-safe')
    jobs, done = [], set()
    for cheb, cont in configs('all') if R.tier == 'thorough' else configs():
        t = tag(cheb, cont)
        jobs.append(('Grid, ' + t, sweep(('race',), lambda a=cheb, b=cont: grid_routines(a, b, True, False))))
        def ej(S, a=cheb, b=cont): sweep(('race',), lambda: race_eom(a, b)(S))(S)
        jobs.append(('Equation of motion, ' + t, ej))
        jobs.append(('Initial data, ' + t, sweep(('race',), lambda a=cheb, b=cont: id_routines(a, b, True))))
    for nm, fn in groups(True, R.tier):
        if nm in ('Cheb', 'FD') or nm.startswith('Sphere'): jobs.append((nm, sweep(('race',), fn)))
    jobs.append(('call graph', callgraph))
    parallel(R, jobs)
    with R.scope('coverage'):
        p = prog(True, True, True)
        for f in sorted(p.fn.values(), key=lambda f: (f.get('file', ''), f.get('l', 0))):
            if f.get('body') is None or f.get('unit') in p.failed: continue
            regs = []; parallel_bodies(f['body'], regs)
            if regs: R.ob('%d parallel regions analysed' % len(regs), 'proved' if f['q'] in R.fns or site(f) in R.fns else 'undecided', '', site(f))
