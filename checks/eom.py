"""C21-C23: evolution equation, energy density, Runge-Kutta step.  C25: field storage."""
from lab import *
import arrays as A
import terms as T
from spectral import atom_of
import grid as G_
import interp as I_
import params_check as PC
from grid import at, point, flat, tag, configs

def canon(nm, X):
    """grid derivative operators on whole fields; mixed derivatives in one order"""
    o = lambda n, x: op(n, 'real', x)
    if X.k == 'op' and nm == 'dphi' and X.a[0] in ('dr', 'd2r'): return o(X.a[0], canon('dphi', X.a[1]))
    if X.k == 'op' and nm == 'dr' and X.a[0] == 'dr': return o('d2r', X.a[1])
    return o(nm, X)
def fieldop(nm):
    def h(M, f, this, binds):
        i, o_ = binds
        vi, vo = M.S.store[i.loc], M.S.store[o_.loc]
        M.check('bounds', eq0(vi.size - vo.size), 'input and output of %s have the same size' % f['q'])
        M.access_range(i.loc, ZERO, vi.size, 'r'); M.access_range(o_.loc, ZERO, vo.size, 'w')
        M.S.store[o_.loc] = Vec(vo.size, canon(nm, M.xnorm(vi.arr, vi.size)), vo.inner)
        return VOID
    return binder_of(h)
GRIDOPS = {'Grid::set_partial_r': 'dr', 'Grid::set_partial2_r': 'd2r', 'Grid::set_partial_phi': 'dphi', 'Grid::set_sphereX': 'sphX', 'Grid::set_spherical_lap': 'slap', 'Grid::set_partial_R': 'dR'}
def k_(key): return sym('par_' + key)
def add_params(M, loc=('o', 'lab', 'params')):
    """Params object whose members are one symbol per looked-up key"""
    M.lookups = []
    rs = PC.readers(M.p)
    names = {f['q'] for f in rs}
    for f in rs:
        if not PC.calls_any(f, names - {f['q']}): M.opaque[f['q']] = binder_of(PC.keyed)
    c = pick(M.p, 'Params::Params', n=1)
    M.call_fn(c, loc, [M.bindv(c['params'][0], PC.FILE)])
    for l, v in list(M.S.store.items()):
        if isinstance(v, Poly) and l[:len(loc)] == loc:
            g, how = PC.conv_of(v)
            if g not in (None, '?'): M.S.store[l] = sym('par_' + g, how.startswith(('stoi', 'stol', 'trunc')))
    return loc
class E: pass
def setup(cheb, cont, ndebug=True):
    g = G_.grid(cheb, cont, ndebug)
    M = g.M
    e = E(); e.g, e.M, e.p = g, M, g.p
    for q, nm in GRIDOPS.items(): M.opaque[q] = fieldop(nm)
    M.opaque['Grid::filter'] = G_.inplace('gfilter')
    e.par = add_params(M)
    # the solver passes the same compactification length to the grid
    s = Subst({atom_of(k_('compactification_length')): g.cl})
    for l, v in list(M.S.store.items()):
        if l[:len(e.par)] == e.par and isinstance(v, Poly): M.S.store[l] = s.any(v)
    m, a = k_('black_hole_mass'), k_('black_hole_spin')
    M.S.ctx = M.S.ctx.add(gt0r(m), ge0(m - a), ge0(m + a), gt0r(k_('dt')))
    f = pick(g.p, 'Scalar_eom::Scalar_eom', n=2)
    e.o = ('o', 'lab', 'eom')
    e.st = site(f)
    M.call_fn(f, e.o, [LV(g.o), LV(e.par)])
    return e

# ------------------------------------------------------------------ reference formulas
def tabs(g, ix, it):
    return elem(G_.PT, (ix,)), elem(G_.TH, (it,))
def kerr(u, th):
    m, a = k_('black_hole_mass'), k_('black_hole_spin')
    c = T.fn("cos", th)
    s = 1 + u * u * a * a * c * c
    return m, a, s, 1 - 2 * m * u + a * a * u * u
def kfun(f):
    k0, km1, k1, k2 = (k_(x) for x in ('k0', 'km1', 'k1', 'k2'))
    return k0 + km1 / (f + 1) + k1 * f + k2 * f * f / 2, -km1 / ((f + 1) * (f + 1)) + k1 + k2 * f
def vfun(f):
    v2, v3, v4 = (k_(x) for x in ('V2', 'V3', 'V4'))
    return v2 * f ** 2 / 2 + v3 * f ** 3 / 6 + v4 * f ** 4 / 24, v2 * f + v3 * f ** 2 / 2 + v4 * f ** 3 / 6
def terms_at(i, F, Pm):
    e = lambda nm, X: elem(op(nm, 'real', X) if nm else X, (i,))
    return dict(f=e('', F), p=e('', Pm), fr=e('dr', F), pr=e('dr', Pm), frr=e('d2r', F), fph=e('dphi', F), frph=elem(op('dr', 'real', op('dphi', 'real', F)), (i,)), X=e('sphX', F), lap=e('slap', F))
def pdot(u, th, d):
    m, a, s, D = kerr(u, th)
    k, kp = kfun(d['f']); v, vp = vfun(d['f'])
    grad = (-(1 + 2 * m * u / s) * d['p'] ** 2 + 4 * m * u / s * d['p'] * d['fr'] + D / s * d['fr'] ** 2 + 2 * a * u * u / s * d['fr'] * d['fph'] + u * u / s * d['X'])
    box = 2 * m * u * u / s * d['p'] + 2 * (u - m * u * u) / s * d['fr'] + 4 * m * u / s * d['pr'] + D / s * d['frr'] + 2 * a * u * u / s * d['frph'] + u * u / s * d['lap']
    return (box + kp / (2 * k) * grad - vp / k) / (1 + 2 * m * u / s)
def rho(u, th, d):
    m, a, s, D = kerr(u, th)
    k, kp = kfun(d['f']); v, vp = vfun(d['f'])
    return k / 2 * ((1 + 2 * m * u / s) * d['p'] ** 2 - 4 * m * u / s * d['p'] * d['fr'] + ((1 + 2 * m * u + a * a * u * u) / s - 4 * m * u / (2 * m * u + s)) * d['fr'] ** 2
                    + 2 * a * u * u / s * d['fr'] * d['fph'] + u * u / s * d['X']) + v

# ------------------------------------------------------------------ thresholds
def hp(e, given, seed=1):
    return T.NumHP(seed, {atom_of(x).id: v for x, v in given})
def reached(facts, e, pts):
    """the points at which all the guard facts hold; None when some fact cannot be evaluated"""
    out = []
    for p in pts:
        try:
            if any(holds(hp(e, p, s), facts) for s in (1, 2, 3, 4)): out.append(p)
        except (T.NoValue, ArithmeticError, ValueError): return None
    return out
def index_case(cc, new):
    """(remaining facts, substitution): facts about the indices alone need no sampled point, only an index that satisfies them"""
    from logic import is_int_cond, witness
    ints = [q for q in new if is_int_cond(q)]
    if not ints or witness(cc, ints) is None: return new, Subst({})
    return [q for q in new if q not in ints], Subst(A.eq_subst(cc))
def rare(R, e, name, x, want, new, pts, st, floor=1e-3):
    """a case that no sampled point enters: points are moved onto its guard; only a clear difference counts"""
    if tops(x) or not pts: return
    bad = 0
    for seed in range(1, 19):
        given = {atom_of(k).id: v for k, v in pts[(seed * 5) % len(pts)]}
        try:
            h = T.directed(T.NumHP, seed, given, new)
            if h is None: continue
            u, v = h.poly(x), h.poly(want)
        except (T.NoValue, ArithmeticError, ValueError, TypeError, IndexError): continue
        if abs(u - v) > 1e-7 * max(floor, abs(u), abs(v)):
            bad += 1
            if bad >= 3: return R.ob(name, 'violated', 'under %s: value %.10g, required %.10g' % (clip_(new), float(u), float(v)), st)
def holds(n, facts): return all(n.cond(q) for q in facts)
def degenerate(e, Rv):
    """(strata, graded points): strata = (name, substitution, point); graded points approach every degenerate locus down to a relative distance of 1e-8"""
    m, a, cl = k_('black_hole_mass'), k_('black_hole_spin'), e.g.cl
    mp = T.mpm()
    M0, L0, R0, A0 = mp.mpf('1.3'), mp.mpf('37.1'), mp.mpf('2.7'), mp.mpf('0.61')
    pt = lambda av, rv, mv=M0: [(m, mv), (a, av), (cl, L0), (Rv, rv)]
    S, G = [], []
    for n, av, asub in (('', A0, None), ('spin<0', -A0, None), ('spin=0', mp.mpf(0), ZERO), ('spin=mass', M0, m), ('spin=-mass', -M0, -m)):
        for n2, rv, rsub in (('', R0, None), ('R=L', L0, cl)):
            d = {}
            if asub is not None: d[atom_of(a)] = asub
            if rsub is not None: d[atom_of(Rv)] = rsub
            S.append((', '.join(x for x in (n, n2) if x) or 'generic', d, pt(av, rv)))
    for av in (A0, -A0): G.append(pt(av, R0)); G.append(pt(av, mp.mpf('0.9') * L0)); G.append(pt(av, R0, mp.mpf('0.7')))
    for k in range(1, 9):
        d = mp.mpf(10) ** -k
        for s in (1, -1):
            G += [pt(s * d, R0), pt(s * M0 * (1 - d), R0), pt(s * A0, L0 * (1 - d)), pt(s * d, L0 * (1 - d))]
    return S, G
def samevalue(R, e, name, got, want, c, Rv, st):
    """got = want: as an identity in every case entered away from the degenerate loci, and on each degenerate locus"""
    got = A.simp(got, c)
    S, G = degenerate(e, Rv)
    if tops(got): return R.ob(name, 'undecided', '; '.join(sorted({str(z.args[0]) for z in tops(got)}))[:400], st)
    n = 0
    hit = set()
    for cc, x in A.cases(got, c):
        new = [q for q in cc.facts if q not in c.facts]
        new, ss = index_case(cc, new)
        pts = reached(new, e, G)
        n += 1
        if pts is None: R.ob('%s: case %d' % (name, n), 'undecided', 'guard not decided: %s' % clip_(new), st); continue
        if not pts:
            rare(R, e, '%s, special case %d' % (name, n), ss.any(x), ss.any(want), new, G, st); continue
        hit |= {id(p) for p in pts}
        differs(R, e, '%s, regular case %d (%d of %d graded parameter points)' % (name, n, len(pts), len(G)), ss.any(x), ss.any(want), cc, new, pts, st)
    if len(hit) < len(G): R.ob(name + ': graded points covered', 'undecided', '%d of %d' % (len(hit), len(G)), st)
    for nm, sub, p in S:
        if not sub: continue
        s = Subst(sub)
        A.CUR[0] = c
        g2, w2 = s.any(got), s.any(want)
        ok = False
        for cc, x in A.cases(g2, c):
            new = [q for q in cc.facts if q not in c.facts]
            new, ss = index_case(cc, new)
            pts = reached(new, e, [p])
            if not pts: continue
            ok = True
            differs(R, e, '%s, %s' % (name, nm), ss.any(x), ss.any(w2), cc, new, pts, st, 1e-9)
        if not ok: R.ob('%s, %s' % (name, nm), 'undecided', 'no case applies', st)
def clip_(x): return str(x)[:300]
def differs(R, e, name, x, want, cc, new, pts, st, tol=1e-12):
    if tops(x): return R.ob(name, 'undecided', str(tops(x))[:300], st)
    if x is want or T.same(x, want): return R.ob(name, 'proved', '', st)
    for p in pts:
        bad, near, w_ = 0, 0, None
        for seed in range(1, 16):
            if bad >= 3 or near >= 7: break
            try:
                if not holds(hp(e, p, seed), new): continue
                u, v = hp(e, p, seed).poly(x), hp(e, p, seed).poly(want)
            except (T.NoValue, ArithmeticError, ValueError): continue
            w_ = (float(u), float(v)) if abs(u - v) > tol * max(1e-6, abs(u), abs(v)) else w_
            if abs(u - v) > tol * max(1e-6, abs(u), abs(v)): bad += 1
            else: near += 1
        if bad >= 3:
            return R.ob(name, 'violated', 'extracted coefficient formula differs from the documented one: %.10g vs %.10g at mass=%s spin=%s L=%s R=%s' % (w_ + tuple(float(y) for _, y in p)), st)
        if tol > 1e-10 and near >= 5: return R.ob(name, 'held', 'agreement within %g on the degenerate locus' % tol, st)
    return R.ob(name, 'undecided', 'no identity found', st)

def values(e, which):
    """interprets set_k / set_rho on arbitrary fields; returns the value at an arbitrary point"""
    g, M = e.g, e.M
    ix, it, ip, c = point(g)
    i = flat(g, ix, it, ip)
    Rv, th = tabs(g, ix, it)
    d = terms_at(i, base('F'), base('Pm'))
    return i, c, Rv, th, d
def c21(R):
    R.rule = ('Scalar_eom constructor and set_k interpreted on arbitrary fields, symbolic mass, spin, couplings, compactification length and grid (grid derivative operators uninterpreted); '
              'the value stored at an arbitrary point is compared with the documented equation as an identity in all of them; threshold branches are compared on the locus they replace')
    for cheb, cont in configs('all') if R.tier == 'thorough' else configs():
        with R.scope(tag(cheb, cont)):
            e = setup(cheb, cont)
            g, M = e.g, e.M
            f = pick(e.p, 'Scalar_eom::set_k', n=5)
            vs = [vec(M, n, g.N) for n in ('F', 'Pm', 'fk', 'pk')]
            call(M, f, e.o, LV(g.o), *vs)
            i, c, Rv, th, d = values(e, 'k')
            u = 1 / Rv - 1 / g.cl
            for k in (0, 1): R.ob('input %s unchanged' % ('field', 'momentum')[k], 'proved' if arr_of(M, vs[k]) is base(('F', 'Pm')[k]) else 'violated', '', site(f))
            from radial import stale
            fk, pk = at(M, vs[2], i, c), at(M, vs[3], i, c)
            R.eq('d(field)/dt = momentum', fk, d['p'], c, site(f))
            samevalue(R, e, 'd(momentum)/dt', pk, pdot(u, th, d), c, Rv, site(f))
            # the diagnostic evaluated with other data in between must not matter: second call on the same object
            ws = [vec(M, n, g.N) for n in ('F2', 'Pm2', 'fk2', 'pk2')]
            call(M, f, e.o, LV(g.o), *ws)
            d2 = terms_at(i, base('F2'), base('Pm2'))
            samevalue(R, e, 'd(momentum)/dt of a second evaluation', at(M, ws[3], i, c), pdot(u, th, d2), c, Rv, site(f))
            R.incomplete(M); R.used(M)
def c22(R):
    R.rule = ('Scalar_eom constructor and set_rho interpreted on arbitrary fields and symbolic parameters (grid derivative operators uninterpreted); the density stored at an arbitrary point is '
              'compared with the defining formula as an identity; also after a preceding evaluation of the time derivatives')
    for cheb, cont in configs('all') if R.tier == 'thorough' else configs():
        with R.scope(tag(cheb, cont)):
            e = setup(cheb, cont)
            g, M = e.g, e.M
            fk = pick(e.p, 'Scalar_eom::set_k', n=5)
            f = pick(e.p, 'Scalar_eom::set_rho', n=4)
            ws = [vec(M, n, g.N) for n in ('F0', 'P0', 'fk', 'pk')]
            call(M, fk, e.o, LV(g.o), *ws)
            vs = [vec(M, n, g.N) for n in ('F', 'Pm', 'rho')]
            call(M, f, e.o, LV(g.o), *vs)
            i, c, Rv, th, d = values(e, 'rho')
            u = 1 / Rv - 1 / g.cl
            for k in (0, 1): R.ob('input %s unchanged' % ('field', 'momentum')[k], 'proved' if arr_of(M, vs[k]) is base(('F', 'Pm')[k]) else 'violated', '', site(f))
            samevalue(R, e, 'energy density', at(M, vs[2], i, c), rho(u, th, d), c, Rv, site(f))
            R.incomplete(M); R.used(M)

def field(M, p, name, N):
    """a Field object with arbitrary contents of every level"""
    loc = nloc(name)
    o = ('o',) + tuple(loc[1:]) if False else ('o', 'lab', name)
    cl = [x for x in p.byname['Field::Field'] if x.get('body') is not None][0]
    nm = M.bindv(cl['params'][0], PC.FILE)
    M.call_fn(cl, o, [nm, M.bindv(cl['params'][1], N), M.bindv(cl['params'][2], sym(name + '_init'))])
    for lv in ('n', 'l', 'np1', 'k'):
        M.S.store[o + ('.' + lv,)] = Vec(N, base(name + '_' + lv), None)
    return o
def c23(R):
    R.rule = ('Scalar_eom::time_step interpreted on fields with arbitrary contents at every level, with the evaluation of the time derivatives and the grid filter uninterpreted maps; the new level '
              'at an arbitrary point is compared with the classical Runge-Kutta expression over those maps')
    for cheb, cont in configs('all') if R.tier == 'thorough' else configs():
        with R.scope(tag(cheb, cont)):
            e = setup(cheb, cont)
            g, M = e.g, e.M
            def ks(M, f, this, b):
                F_, P_ = (M.xnorm(M.S.store[x.loc].arr, M.S.store[x.loc].size) for x in b[1:3])
                for x in b[1:3]: M.access_range(x.loc, ZERO, g.N, 'r')
                for x, n in ((b[3], 'kf'), (b[4], 'kp')):
                    M.access_range(x.loc, ZERO, g.N, 'w')
                    M.S.store[x.loc] = Vec(M.S.store[x.loc].size, op(n, 'real', F_, P_), None)
                return VOID
            M.opaque['Scalar_eom::set_k'] = binder_of(ks)
            f = pick(e.p, 'Scalar_eom::time_step', n=3)
            fo, po = field(M, e.p, 'f', g.N), field(M, e.p, 'p', g.N)
            call(M, f, e.o, LV(g.o), LV(fo), LV(po))
            ix, it, ip, c = point(g)
            i = flat(g, ix, it, ip)
            dt = k_('dt')
            j = fresh('j', True)
            cj = c.add(ge0(j), ge0(g.N - 1 - j))
            fil = lambda n: op('gfilter', 'real', base(n + '_n'))
            F0, P0 = fil('f'), fil('p')
            lam = lambda Y0, h, K: A.mklam(j, g.N, elem(Y0, (j,)) + h * elem(K, (j,)))
            Fs, Ps = F0, P0
            KF, KP = [], []
            for h in (dt / 2, dt / 2, dt, None):
                kf, kp = op('kf', 'real', Fs, Ps), op('kp', 'real', Fs, Ps)
                KF.append(kf); KP.append(kp)
                if h is not None: Fs, Ps = lam(F0, h, kf), lam(P0, h, kp)
            for nm, o, Y0, K in (('field', fo, F0, KF), ('momentum', po, P0, KP)):
                got = get(M.S.store[o + ('.np1',)].arr, (i,), c)
                k = [elem(x, (i,)) for x in K]
                R.eq('new %s = classical Runge-Kutta step of the filtered level' % nm, got, elem(Y0, (i,)) + dt / 6 * (k[0] + 2 * k[1] + 2 * k[2] + k[3]), c, site(f))
                R.eq('current level of the %s is only filtered' % nm, get(M.S.store[o + ('.n',)].arr, (i,), c), elem(Y0, (i,)), c, site(f))
            R.incomplete(M); R.used(M)
