"""C24: initial data.  C25: field storage."""
from eom import *
from grid import ang

def c25(R):
    R.rule = ('Field constructor and shift interpreted with symbolic name, size and initial value: every storage level compared with a filled vector at an arbitrary index, shift compared '
              'element-wise with every other member')
    for ndebug in (True, False):
        p = prog(True, True, ndebug)
        M = Machine(p, ctx=Ctx((ge0(sym('N', True) - 1),)))
        N, v0 = sym('N', True), sym('init')
        o = ('o', 'lab', 'field')
        f = [x for x in p.byname['Field::Field'] if x.get('body') is not None][0]
        nm = I_.Strv(('sym', 'fieldname'))
        M.call_fn(f, o, [M.bindv(f['params'][0], nm), M.bindv(f['params'][1], N), M.bindv(f['params'][2], v0)])
        with R.scope('assertions %s' % ('off' if ndebug else 'on')):
            R.ob('name is the requested name', 'proved' if M.S.store.get(o + ('.name',)) == nm else 'violated', str(M.S.store.get(o + ('.name',))), site(f))
            sz = M.S.store.get(o + ('.size',))
            R.eq('size is the requested size', sz, N, M.S.ctx, site(f))
            i, c = J('i', N, M.S.ctx)
            for lv in ('n', 'l', 'np1', 'k'):
                v = M.S.store.get(o + ('.' + lv,))
                if not isinstance(v, Vec): R.ob('level %s is a vector' % lv, 'undecided', str(v), site(f)); continue
                R.eq('level %s has the requested size' % lv, v.size, N, M.S.ctx, site(f))
                R.eq('level %s is filled with the initial value' % lv, get(v.arr, (i,), c), v0, c, site(f))
                M.S.store[o + ('.' + lv,)] = Vec(v.size, base('L_' + lv), None)
            before = {k: v for k, v in M.S.store.items() if k[:len(o)] == o}
            s = pick(p, 'Field::shift')
            call(M, s, o)
            for lv in ('n', 'l', 'np1', 'k'):
                v = M.S.store.get(o + ('.' + lv,))
                R.eq('after shift level %s' % lv, get(v.arr, (i,), c), elem(base('L_' + ('np1' if lv == 'n' else lv)), (i,)), c, site(s))
                R.eq('after shift size of level %s' % lv, v.size, N, c, site(s))
            for k, v in before.items():
                if k[-1] in ('.n', '.l', '.np1', '.k'): continue
                w = M.S.store.get(k)
                R.ob('shift leaves %s' % k[-1], 'proved' if w is v or w == v else 'violated', '%s -> %s' % (v, w), site(s))
        R.incomplete(M); R.used(M)

DIRS = [('ingoing', 1), ('outgoing', -1), ('time_symmetric', 0), ('none_of_these', 0), ('', 0)]
class Pulse: pass
def pulse(cheb, cont, direction, ndebug=True):
    g = G_.grid(cheb, cont, ndebug)
    M = g.M
    e = Pulse()
    e.g, e.M, e.p = g, M, g.p
    par = add_params(M)
    # ru = rl + w, w > 0
    e.rl, e.w = k_('rl'), sym('pulse_width', pos=True)
    s = Subst({atom_of(k_('compactification_length')): g.cl, atom_of(k_('ru')): e.rl + e.w})
    seen = set()
    for l, v in list(M.S.store.items()):
        if l[:len(par)] != par: continue
        if isinstance(v, Poly): M.S.store[l] = s.any(v)
        elif isinstance(v, I_.Strv) and v.p and isinstance(v.p[0], tuple) and v.p[0] == ('param', 'initial_data_direction'):
            M.S.store[l] = I_.Strv(direction); seen.add(l)
    e.dirs = seen
    e.calls = []
    def ylm(M, f, this, b):
        l, m = M.read(b[0]), M.read(b[1])
        e.calls.append((l, m))
        return Vec(g.nlat * g.nphi, base('Y(%s,%s)' % (l, m)))
    M.opaque['Sphere::compute_ylm'] = binder_of(ylm)
    e.f = pick(e.p, 'ID::compact_pulse')
    e.F, e.P = vec(M, 'F', g.N), vec(M, 'P', g.N)
    call(M, e.f, None, LV(par), LV(g.o), e.F, e.P)
    return e
def maxima(x):
    """outermost max reductions inside x"""
    out = []
    def f(a):
        if a.kind in ('maxof', 'fold'):
            if a not in out: out.append(a)
            return False
    T.walk_atoms(x, f)
    return [a for a in out if not any(b is not a and inside(a, b) for b in out)]
def inside(a, b):
    hit = []
    for y in b.args:
        if isinstance(y, Poly): T.walk_atoms(y, lambda z: hit.append(z) if z is a else None)
    return bool(hit)
def c24(R):
    R.rule = ('ID::compact_pulse interpreted on a symbolic grid and symbolic pulse parameters for each direction keyword; the value and momentum at an arbitrary grid point compared with the '
              'documented profile, the normaliser required to be the maximum of the unnormalised profile over all points; Sphere::compute_ylm interpreted in coefficient space')
    for cheb, cont in configs('all') if R.tier == 'thorough' else configs():
        for direction, sg in DIRS:
            with R.scope('%s, direction "%s"' % (tag(cheb, cont), direction)):
                one_pulse(R, cheb, cont, direction, sg)
            if any(i['status'] == 'violated' for i in R.items): return
    ylm_check(R)
def one_pulse(R, cheb, cont, direction, sg):
    mp = T.mpm()
    e = pulse(cheb, cont, direction)
    g, M, st = e.g, e.M, site(e.f)
    if not e.dirs: return R.ob('direction keyword found', 'undecided', '', st)
    ix, it, ip, c = point(g)
    i = flat(g, ix, it, ip)
    F_, P_ = at(M, e.F, i, c), at(M, e.P, i, c)
    from radial import stale
    stale(R, 'field set at every point', F_, base('F'), c, st); stale(R, 'momentum set at every point', P_, base('P'), c, st)
    Rv = elem(G_.PT, (ix,))
    Y = elem(base('Y(par_l_ang,par_m_ang)'), (ang(g, it, ip),))
    amp = k_('amp')
    r = 1 / (1 / Rv - 1 / g.cl)
    x, y = (r - e.rl) / e.w, (e.rl + e.w - r) / e.w
    bump = T.fn('exp', -1 / x) * T.fn('exp', -2 / y)
    prof = x ** 4 * y ** 4 * bump
    dprof = (4 * x ** 3 * y ** 4 - 4 * x ** 4 * y ** 3 + x ** 2 * y ** 4 - 2 * x ** 4 * y ** 2) * bump / e.w
    mx = maxima(F_)
    if len(mx) != 1: return R.ob('one normaliser', 'undecided' if mx or tops(F_) else 'violated', 'the field is divided by %d maxima' % len(mx), st)
    mx = mx[0]
    MX = sym('maximum')
    F_, P_ = Subst({mx: MX}).any(F_), Subst({mx: MX}).any(P_)
    if maxima(P_): return R.ob('one normaliser', 'violated', 'field and momentum are divided by different maxima', st)
    L0 = mp.mpf('37.1')
    rl0, w0 = mp.mpf('1.9'), mp.mpf('2.3')
    def pts(rs, mxs=('0.3',), ws=(w0,), cls=(L0,)):
        return [[(g.cl, L), (Rv, L if rr is None else rr / (1 + rr / L)), (e.rl, rl0), (e.w, w_), (MX, mp.mpf(m_))] for L in cls for w_ in ws for m_ in mxs for rr in rs(w_)]
    INS = lambda w_: [rl0 + w_ * mp.mpf(q) for q in ('0.001', '0.3', '0.5', '0.81', '0.999')]
    OUT = lambda w_: [rl0 * mp.mpf('0.5'), rl0 * mp.mpf('0.999'), (rl0 + w_) * mp.mpf('1.001'), (rl0 + w_) * 3, mp.mpf(1e5), None]
    ins = pts(INS) + pts(INS, ('1e-3', '1e-6', '1e-9', '1e-12', '2')) + pts(INS, ('0.3',), (mp.mpf('1e-6'), mp.mpf('0.01'), mp.mpf(30))) + pts(INS, ('0.3',), (w0,), (mp.mpf('4.21'), mp.mpf(1000)))
    out = pts(OUT) + pts(OUT, ('1e-9',)) + pts(OUT, ('0.3',), (mp.mpf('0.01'), mp.mpf(30)))
    for nm, val, want in (('field', F_, amp * prof * Y / MX), ('momentum', P_, sg * amp * dprof * Y / MX)):
        for reg, ps, w_ in (('inside the pulse', ins, want), ('outside the pulse', out, ZERO)):
            region(R, e, nm + ' ' + reg, val, P(w_), c, ps, st)
    # the normaliser is the maximum of |field * MX / amp|
    normaliser(R, e, mx, ins[0], prof * Y, Rv, ix, it, ip, c, ins + out, st)

def region(R, e, name, val, want, c, pts, st, subst=None):
    """val = want in every case that some point of the region enters"""
    hit, n = set(), 0
    try: L = list(A.cases(val, c))
    except A.Undet as x: return R.ob(name, 'undecided', str(x), st)
    if tops(val): return R.ob(name, 'undecided', str(tops(val))[:300], st)
    for cc, x in L:
        new = [q for q in cc.facts if q not in c.facts]
        new, ss = index_case(cc, new)
        ps = reached(new, e, pts)
        if ps is None: R.ob(name, 'undecided', 'guard not decided: %s' % clip_(new), st); continue
        if not ps:
            rare(R, e, name + ', special case', ss.any(x), ss.any(want), new, pts, st, 1e-9); continue
        n += 1
        hit |= {id(p) for p in ps}
        x, w_ = ss.any(x), ss.any(want)
        if x is w_ or T.same(x, w_): R.ob('%s, case %d' % (name, n), 'proved', '', st); continue
        R.ob('%s, case %d' % (name, n), *numeric(e, x, w_, ps, new), st)
    if len(hit) < len(pts): R.ob(name + ': all sample positions covered', 'undecided', '%d of %d' % (len(hit), len(pts)), st)
def numeric(e, x, want, ps, guards=()):
    """agreement of two extracted terms at sampled valuations"""
    ok = bad = 0
    base_ = ps[::max(1, len(ps) // 8)][:8]
    for p, seeds in [(p, (1, 2, 3, 4)) for p in base_] + ([(p, range(5, 30)) for p in base_] if guards else []):
        for seed in seeds:
            if ok >= 32: break
            try:
                if not holds(hp(e, p, seed), guards): continue
                u, v = hp(e, p, seed).poly(x), hp(e, p, seed).poly(want)
            except (T.NoValue, ArithmeticError, ValueError): continue
            if abs(u - v) > 1e-12 * max(abs(u), abs(v)):
                bad += 1; w = (float(u), float(v), ', '.join('%s=%s' % (clip(k, 40), T.mpm().nstr(q, 12)) for k, q in p))
            else: ok += 1
    if bad >= 3 or bad and not ok: return 'violated', 'extracted value %.10g, required %.10g at %s' % w
    if ok >= 10 and not bad: return 'held', 'agreement at %d sampled valuations' % ok
    return 'undecided', 'no identity found'

def normaliser(R, e, mx, p0, unn, Rv, ix, it, ip, c, pts, st):
    g = e.g
    dims = [(g.nx, ix, 'radial'), (g.nlat, it, 'polar'), (g.nphi, ip, 'azimuthal')]
    sub, left = {}, list(dims)
    a = mx
    body = None
    ok, folds = True, False
    while True:
        b, n, body, init = a.args[:4]
        if a.kind == 'fold': folds = True
        hit = [d for d in left if n is d[0]]
        if hit:
            left.remove(hit[0]); sub[b] = hit[0][1]
        elif n is g.N and len(left) == 3:
            left = []; sub[b] = flat(g, ix, it, ip)
        else:
            near = [d for d in left if (d[0] - n).const() is not None]
            if near and (near[0][0] - n).const() > 0:
                return R.ob('normaliser is the maximum over every point', 'violated', 'the maximum skips %s %s row(s) of the grid' % ((near[0][0] - n).const(), near[0][2]), st)
            ok = False; break
        s = body.single() if isinstance(body, Poly) else None
        if s is not None and s.kind in ('maxof', 'fold'): a = s; continue
        break
    if not ok or left: return R.ob('normaliser is the maximum over every point', 'undecided', 'range %s' % (n,), st)
    A.CUR[0] = c
    v = A.simp(Subst(sub).any(body), c)
    start(R, mx, v, (ix, it, ip), c, st)
    if folds: return running(R, e, 'normaliser is the maximum of the absolute unnormalised field', v, a, absof(unn), [p for p in pts if inside_pt(p)], st)
    region(R, e, 'normaliser is the maximum of the absolute unnormalised field: inside', v, absof(unn), c, [p for p in pts if inside_pt(p)], st)
    region(R, e, 'normaliser is the maximum of the absolute unnormalised field: outside', v, ZERO, c, [p for p in pts if not inside_pt(p)], st)
def start(R, mx, v, ixs, c, st):
    """the running maximum starts from a value no larger than the maximum"""
    name = 'the running maximum starts at or below the data'
    i0 = mx.args[3]
    k = i0.const() if isinstance(i0, Poly) else None
    if k is not None:
        # profiles whose maximum is below 1e-16 are not rescaled
        return R.ob(name, 'proved' if k <= F(1, 10 ** 16) else 'violated', 'starts from %s' % i0, st)
    if str(i0) == '-inf': return R.ob(name, 'proved', '', st)
    s = Subst({atom_of(x).id: ZERO for x in ixs})
    try: same = T.same(A.simp(s.any(v), c), A.simp(i0, c))
    except A.Undet: same = None
    R.ob(name, 'proved' if same else 'undecided', 'starts from %s' % clip_(i0), st)
def running(R, e, name, step, a, want, pts, st):
    """the extracted update of the running normaliser, iterated over sequences of sampled points"""
    if tops(step): return R.ob(name, 'undecided', str(tops(step))[:300], st)
    n = 0
    for k in range(8):
        m, best = T.mpm().mpf(0), T.mpm().mpf(0)
        for t in range(6):
            p = pts[(k * 5 + t * 3) % len(pts)]
            h = hp(e, p, 10 * k + t + 1)
            if a.kind == 'fold': h.given = {**h.given, a.args[4].id: m}
            try: u, w = h.poly(step), h.poly(want)
            except (T.NoValue, ArithmeticError, ValueError) as x: return R.ob(name, 'undecided', 'not evaluated: %s' % x, st)
            m = u if a.kind == 'fold' else max(m, u)
            best = max(best, w)
        n += 1
        if abs(m - best) > 1e-12 * best: return R.ob(name, 'violated', 'the running update %s over 6 sampled points gives %.10g, their maximum is %.10g' % (clip(step), float(m), float(best)), st)
    # the running value is the maximum so far: one more point slightly below or above it
    for k in range(4):
        p = pts[(k * 7) % len(pts)]
        h0 = hp(e, p, 90 + k)
        w = h0.poly(want)
        for d in ('1.0001', '1.003', '1.2', '0.9999', '0.997', '0.8'):
            m = w * T.mpm().mpf(d)
            h = hp(e, p, 90 + k)
            if a.kind == 'fold': h.given = {**h.given, a.args[4].id: m}
            u = h.poly(step) if a.kind == 'fold' else max(m, h.poly(step))
            if abs(u - max(m, w)) > 1e-12 * w: return R.ob(name, 'violated', 'with running value %s a point of absolute value %s gives %s' % tuple(T.mpm().nstr(x, 10) for x in (m, w, u)), st)
    return R.ob(name, 'held', 'agreement over %d sampled sequences' % n, st)
def inside_pt(p):
    (_, L), (_, R_), (_, rl), (_, w), _ = p
    if R_ == L: return False
    r = R_ / (1 - R_ / L)
    return rl < r < rl + w
def absof(p): return T.absv(p)

def ylm_check(R):
    import sphere
    for cont in (True, False):
        p, M, o, d = sphere.sphere(cont)
        f = sphere.method(p, 'compute_ylm', n=2)
        with R.scope('theta-contiguous' if cont else 'phi-contiguous'):
            l0, m0, r0, c = sphere.lm(M, d, M.S.ctx)
            M.S.ctx = c
            v = call(M, f, o, l0, m0)
            i, c = J('i', d[2] * d[3], c)
            if not isinstance(v, Vec): R.ob('compute_ylm returns a field', 'undecided', str(v), site(f)); continue
            R.eq('compute_ylm returns one value per angular point', v.size, d[2] * d[3], c, site(f))
            val = A.simp(get(v.arr, (i,), c), c)
            for cc, x in A.cases(val, c):
                r = sphere.synth(x, i, cc, 'H2S') if not tops(x) else None
                if r is None: R.ob('compute_ylm synthesises one harmonic', 'undecided' if tops(x) or isinstance(x, Poly) and x.atoms() else 'violated', str(x)[:300], site(f)); continue
                l, m, rr, c2 = sphere.lm(M, d, cc)
                got = get(r[1], (rr,), c2)
                want = ite(eq0(rr - r0), ONE, ZERO)
                R.eq('compute_ylm: coefficient of the harmonic', C(got).re * r[0], want, c2, site(f))
                R.eq('compute_ylm: imaginary part', C(got).im * r[0], ZERO, c2, site(f))
        R.incomplete(M); R.used(M)
from report import clip
