"""C08-C11: spherical operators."""
from lab import *
import arrays as A
import terms as T
from spectral import *
from radial import stale, decide_lowpass

def dims():
    L, Mm, nlat, nphi = (sym(s, True) for s in ('lmax', 'mmax', 'nlat', 'nphi'))
    return (L, Mm, nlat, nphi), Ctx((ge0(L - 1), ge0(Mm), ge0(L - Mm), ge0(nlat - L - 1), ge0(nphi - 2 * Mm - 1)))

def sphere(cont=True, p=None, ndebug=True):
    p = p or prog(True, cont, ndebug)
    d, ctx = dims()
    M = Machine(p, ctx=ctx)
    o = construct(M, 'Sphere', d, 'sph')
    return p, M, o, d

def method(p, nm, et=None, n=None):
    def pred(ts):
        if et is None: return True
        return all(e in t for e, t in zip(et, ts))
    return pick(p, 'Sphere::' + nm, pred, n)

def synth(x, i, ctx, name):
    """x = alpha*elem(name(Y), i): (alpha, Y)"""
    if isinstance(x, Cx): return None
    es = [a for a in collect_top(x) if a.kind == 'elem' and a.args[0].k == 'op']
    es = [a for a in es if a.args[1][0] is i or ctx.prove(eq0(a.args[1][0] - i))]
    if len(es) != 1: return None
    a = es[0]
    c, d = lin(x, a.id)
    if c is None or d is not ZERO or a.args[0].a[0] != name: return None
    return c, a.args[0].a[1]

def lm(M, d, ctx):
    """a resolved harmonic (l, m >= 0)"""
    L, Mm = d[0], d[1]
    l, ctx = fresh('l', True), ctx
    m = fresh('m', True)
    r = LM_of(L, l, m)
    ctx = ctx.add(ge0(l), ge0(L - l), ge0(m), ge0(l - m), ge0(Mm - m), ge0(r), ge0(nlm_of(L, Mm) - 1 - r))
    return l, m, r, ctx

def run1(nm, cont=True):
    """runs Sphere::nm(in, out) on generic data"""
    p, M, o, d = sphere(cont)
    f = method(p, nm, n=2)
    N = d[2] * d[3]
    v = vec(M, 'v', N)
    out = vec(M, 'out', N, et='cplx' if 'complex' in f['params'][1]['t'] or 'cplx' in f['params'][1]['t'] else 'real')
    call(M, f, o, v, out)
    return p, M, o, d, f, N, v, out

def same_in(R, M, v, f):
    R.ob('%s leaves the input unchanged' % f['name'] if 'name' in f else 'input unchanged', 'proved' if arr_of(M, v) is base('v') else 'violated', str(arr_of(M, v)), site(f))

def eigen(R, nm, factor, cont=True):
    p, M, o, d, f, N, v, out = run1(nm, cont)
    same_in(R, M, v, f)
    i, c = J('i', N, M.S.ctx)
    val = at(M, out, i, c)
    stale(R, 'every output point is written', val, base('out'), c, site(f))
    mult(R, nm, val, i, c, d, f, factor, M)
    R.incomplete(M); R.used(M)

def mult(R, nm, val, i, c, d, f, factor, M, src='v'):
    S = op('S2H', 'cplx', base(src))
    for cc, x in A.cases(val, c):
        r = synth(x, i, cc, 'H2S') if not T.tops(x) else None
        if r is None:
            R.ob('%s is a synthesis of coefficients' % nm, 'undecided', str(x)[:300], site(f)); continue
        al, Y = r
        l, m, q, c2 = lm(M, d, cc)
        got = A.get(Y, (q,), c2)
        R.eq('%s multiplies coefficient (l,m), 0<=l<=lmax, 0<=m<=min(l,mmax)' % nm, C(al) * C(got), C(factor(l, m)) * C(elem(S, (q,))), c2, site(f))

def c08(R):
    R.rule = ('Sphere::laplace_beltrami / partial_phi interpreted for symbolic lmax, mmax, nlat, nphi: the array handed to the synthesis is queried at the packed '
              'index of an arbitrary resolved (l,m) and must be the eigenvalue times the analysed coefficient; both layouts')
    for cont in (True, False):
        with R.scope('theta-contiguous' if cont else 'phi-contiguous'):
            eigen(R, 'laplace_beltrami', lambda l, m: -l * (l + 1), cont)
            eigen(R, 'partial_phi', lambda l, m: Cx(ZERO, m), cont)

def ladder(R, nm, sgn):
    p, M, o, d, f, N, v, out = run1(nm)
    same_in(R, M, v, f)
    i, c = J('i', N, M.S.ctx)
    val = at(M, out, i, c)
    stale(R, '%s writes every output point' % nm, val, base('out'), c, site(f))
    re0 = base('v')
    for cc, x in A.cases(val, c):
        es = collect(x, 're')
        ok = None
        if isinstance(x, Cx) and not T.tops(x):
            a = atom_of(x.re)
            if a is not None and a.kind == 're' and a.args[0].k == 'op' and a.args[0].a[0] == 'H2CS' and cc.prove(eq0(a.args[1][0] - i)):
                b = atom_of(x.im)
                if b is not None and b.kind == 'im' and b.args == a.args: ok = a.args[0].a[1]
        if ok is None:
            R.ob('%s is a synthesis of complex coefficients' % nm, 'undecided', str(x)[:300], site(f)); continue
        Y = ok
        S = next(iter(ops_in(Y, 'CS2H')), None)
        if S is None:
            R.ob('%s uses the analysed input' % nm, 'undecided', '', site(f)); continue
        # the analysed function is the real input
        k, ck = J('k', N, cc)
        R.eq('%s analyses the input field' % nm, C(A.get(S.a[1], (k,), ck)), Cx(elem(re0, (k,)), ZERO), ck, site(f))
        L = d[0]
        l = fresh('l', True); m = fresh('m', True)
        c2 = cc.add(ge0(l), ge0(L - l), ge0(l - m), ge0(l + m), ge0(L * L - l * l))
        at_ = lambda mm: l * (l + 1) + mm
        got = A.get(Y, (at_(m),), c2)
        if sgn > 0:
            want = C(T.sqrt((l - m + 1) * (l + m))) * C(elem(S, (at_(m - 1),)))
            end = eq0(l + m)
        else:
            want = C(T.sqrt((l + m + 1) * (l - m))) * C(elem(S, (at_(m + 1),)))
            end = eq0(l - m)
        R.eq('%s (l,m), 0<=l<=lmax, interior m' % nm, got, want, c2.add(ge0((l + m if sgn > 0 else l - m) - 1)), site(f))
        mm = -l if sgn > 0 else l
        c3 = cc.add(ge0(l), ge0(L - l), ge0(L * L - l * l))
        R.eq('%s empties the end (l,%s), 0<=l<=lmax' % (nm, '-l' if sgn > 0 else 'l'), A.get(Y, (at_(mm),), c3), Cx(ZERO, ZERO), c3, site(f))
    R.incomplete(M); R.used(M)

def ops_in(X, name):
    out = []
    seen = set()
    def go(y):
        if isinstance(y, Arr):
            if y in seen: return
            seen.add(y)
            if y.k == 'op' and y.a[0] == name: out.append(y); return
            for z in y.a: go(z)
        elif isinstance(y, (Poly, Cond)):
            if y in seen: return
            seen.add(y)
            if isinstance(y, Poly):
                for a in y.atoms(): go(T.ATOMS[a])
            else:
                for z in y.a: go(z)
        elif isinstance(y, Atom):
            if ('a', y.id) in seen: return
            seen.add(('a', y.id))
            for z in y.args: go(z)
        elif isinstance(y, Cx): go(y.re); go(y.im)
        elif isinstance(y, tuple):
            for z in y: go(z)
    go(X)
    return out

def opaque_sphere(names):
    """handlers replacing methods by uninterpreted operators on their (extensional) input"""
    def mk(nm, et): return binder_of(lambda M, f, this, binds: opaque_map(M, f, this, binds, nm, et))
    return {('Sphere::' + n): mk(n, et) for n, et in names.items()}

def c09(R):
    R.rule = ('Sphere::raise/lower interpreted for symbolic lmax: coefficient queried at l(l+1)+m for arbitrary 0<=l<=lmax, -l<=m<=l (interior and emptied end); '
              'Sphere::sphereX interpreted with raise/lower/partial_phi as operators of the same input')
    ladder(R, 'raise', 1)
    ladder(R, 'lower', -1)
    p, M, o, d = sphere()
    M.opaque = opaque_sphere({'raise': 'cplx', 'lower': 'cplx', 'partial_phi': 'real'})
    f = method(p, 'sphereX', n=2)
    N = d[2] * d[3]
    v = vec(M, 'v', N); out = vec(M, 'out', N)
    call(M, f, o, v, out)
    same_in(R, M, v, f)
    i, c = J('i', N, M.S.ctx)
    b = base('v')
    up, dn, ph = C(elem(op('raise', 'cplx', b), (i,))), C(elem(op('lower', 'cplx', b), (i,))), elem(op('partial_phi', 'real', b), (i,))
    R.eq('sphereX = Re(-(L+f)(L-f)) + (d_phi f)^2', at(M, out, i, c), -(up * dn).re + ph * ph, c, site(f))
    R.incomplete(M); R.used(M)
    R.trusted.append('complex coefficients of SHTns are stored at l(l+1)+m (mmax=lmax) and spat_cplx_to_SH/SH_to_spat_cplx are mutually inverse')

def c10(R):
    R.rule = ('Sphere::filter interpreted for symbolic sizes: factor of every resolved (l,m) extracted in closed form and decided as a product g(l/lmax)*g(m/lmax) of monotone factors')
    for cont in (True, False):
        p, M, o, d = sphere(cont)
        f = method(p, 'filter', n=1)
        N = d[2] * d[3]
        v = vec(M, 'v', N)
        call(M, f, o, v)
        i, c = J('i', N, M.S.ctx)
        val = at(M, v, i, c)
        S = op('S2H', 'cplx', base('v'))
        with R.scope('theta-contiguous' if cont else 'phi-contiguous'):
            for cc, x in A.cases(val, c):
                r = synth(x, i, cc, 'H2S') if not T.tops(x) else None
                if r is None:
                    R.ob('filter is a synthesis of coefficients', 'undecided', str(x)[:300], site(f)); continue
                al, Y = r
                l, m, q, c2 = lm(M, d, cc)
                got = C(al) * C(A.get(Y, (q,), c2))
                s = C(elem(S, (q,)))
                for c3, y in A.cases(Cx(got.re / s.re, got.im / s.im), c2):
                    if T.equal(y.re, y.im) is not True:
                        R.ob('real factor', 'violated', str(y)[:300], site(f)); continue
                    factor2(R, y.re, l, m, d, c3, site(f))
        R.incomplete(M); R.used(M)

def factor2(R, y, l, m, d, ctx, st):
    L = d[0]
    sub = A.eq_subst(ctx)
    lk = Subst(sub).poly(l) if sub else l
    mk = Subst(sub).poly(m) if sub else m
    if sub: y = Subst(sub).any(y)
    if T.tops(y): return R.ob('factor', 'undecided', str(y), st)
    if lk is not l or mk is not m or len(ctx.facts) > 0 and False:
        pass
    # sample the closed form on every resolved harmonic of several resolutions
    La, Ma = atom_of(L), atom_of(d[1])
    bad = None; cnt = 0
    for Lv in (4, 9, 16, 32):
        for Mv in sorted({0, Lv // 2, Lv - 1, Lv}):
            def ev(lv, mv):
                g = {La.id: float(Lv), Ma.id: float(Mv)}
                if atom_of(l): g[atom_of(l).id] = float(lv)
                if atom_of(m): g[atom_of(m).id] = float(mv)
                n = T.Num(1, g)
                if not all(n.cond(f) for f in ctx.facts if relevant(f, (l, m, L, d[1]))): return None
                return n.poly(y)
            tab = {}
            try:
                for lv in range(Lv + 1):
                    for mv in range(min(lv, Mv) + 1):
                        x = ev(lv, mv)
                        if x is not None: tab[lv, mv] = x; cnt += 1
            except T.NoValue: return R.ob('factor', 'undecided', str(y)[:300], st)
            for (a, b), x in tab.items():
                w = (Lv, Mv, a, b, x)
                if not (0 < x <= 1 + 1e-12): bad = bad or ('not in (0,1]', w)
                if (a, b) == (0, 0) and abs(x - 1) > 1e-12: bad = bad or ('not 1 at l=m=0', w)
                for n2 in ((a + 1, b), (a, b + 1)):
                    if n2 in tab and tab[n2] > x + 1e-12: bad = bad or ('increases towards %s' % (n2,), w)
                if 2 * a <= Lv and 2 * b <= Lv and x < 0.998: bad = bad or ('damps the lower half', w)
                if 16 * max(a, b) >= 15 * Lv and x > 1e-4: bad = bad or ('top of the spectrum not damped', w)
                if a == Lv and x > 1e-15: bad = bad or ('highest l not damped', w)
    if cnt == 0: return
    how = 'held'
    R.ob('factor of every resolved (l,m) is a monotone low-pass', 'violated' if bad else how,
         ('%s: lmax=%d mmax=%d l=%d m=%d factor %g' % ((bad[0],) + bad[1])) if bad else 'factor %s; evaluated at %d (lmax,mmax,l,m)' % (str(y)[:200], cnt), st)

def relevant(f, syms):
    ids = {atom_of(s).id for s in syms}
    ok = True
    for a in f.a[0].atoms() if isinstance(f.a[0], Poly) else ():
        if a not in ids: ok = False
    return ok and isinstance(f.a[0], Poly)

def c11(R):
    R.rule = ('Sphere::power_spectrum interpreted for symbolic sizes: p[l] must be |c(l,0)|^2 + 2 sum_{m=1}^{min(l,mmax)} |c(l,m)|^2 as a symbolic sum; '
              'compute_ylm must synthesise the unit coefficient vector at (l,m)')
    p, M, o, d = sphere()
    f = method(p, 'power_spectrum', n=2)
    N = d[2] * d[3]
    v = vec(M, 'v', N); out = vec(M, 'p', d[0])
    call(M, f, o, v, out)
    same_in(R, M, v, f)
    l, c = J('l', d[0], M.S.ctx)
    val = at(M, out, l, c)
    stale(R, 'every degree is written', val, base('p'), c, site(f))
    S = op('S2H', 'cplx', base('v'))
    n2 = lambda mm: C(elem(S, (LM_of(d[0], l, mm),))).norm()
    for nm, cc, top_ in (('l <= mmax', c.add(ge0(d[1] - l)), l), ('l > mmax', c.add(ge0(l - d[1] - 1)), d[1])):
        mj = fresh('m', True)
        want = n2(ZERO) + 2 * A.mksum(mj, top_, n2(mj + 1))
        R.eq('power of degree l, case %s' % nm, val, want, cc, site(f))
    R.incomplete(M); R.used(M)
    p, M, o, d = sphere()
    f = method(p, 'compute_ylm', n=2)
    l, m, q, c = lm(M, d, M.S.ctx)
    M.S.ctx = c
    r = call(M, f, o, l, m)
    if not isinstance(r, Vec): R.ob('compute_ylm', 'undecided', str(r), site(f)); return
    i, c = J('i', d[2] * d[3], M.S.ctx)
    R.eq('compute_ylm has one value per angular point', r.size, d[2] * d[3], c, site(f))
    for cc, x in A.cases(A.get(r.arr, (i,), c), c):
        sy = synth(x, i, cc, 'H2S')
        if sy is None: R.ob('compute_ylm is a synthesis', 'undecided', str(x)[:300], site(f)); continue
        al, Y = sy
        R.eq('coefficient (l,m) is 1', C(al) * C(A.get(Y, (q,), cc)), C(ONE), cc, site(f))
        z = fresh('z', True)
        cz = cc.add(ge0(z), ge0(nlm_of(d[0], d[1]) - 1 - z))
        R.eq('every other coefficient is 0', C(al) * C(A.get(Y, (z,), cz.add(ge0(z - q - 1)))), C(ZERO), cz.add(ge0(z - q - 1)), site(f))
        R.eq('every other coefficient is 0', C(al) * C(A.get(Y, (z,), cz.add(ge0(q - z - 1)))), C(ZERO), cz.add(ge0(q - z - 1)), site(f))
    R.incomplete(M); R.used(M)
