"""C01-C06: radial operators (finite differences and Chebyshev)."""
from lab import *
from report import Rep
import arrays as A
import terms as T
from spectral import *
LO, UP = sym('lower'), sym('upper')
def size(n, k): return Ctx((ge0(n - k),))

def radial(cls, nmin, p=None):
    """abstract object of the class built by its own constructor for every n >= nmin"""
    p = p or prog(True, True, True)
    n = sym('n', True)
    M = Machine(p, ctx=size(n, nmin))
    o = construct(M, cls, (n, LO, UP), 'rad')
    return p, M, o, n

def poly_lam(n, deg, h):
    """v[j] = sum_d c_d x_j^d with x_j = lower + j h, coefficients symbolic; also returns f, f', f''"""
    cs = [sym('c%d' % d) for d in range(deg + 1)]
    def f(x):
        r = ZERO
        for d in range(deg + 1): r = r + cs[d] * x ** d
        return r
    def f1(x):
        r = ZERO
        for d in range(1, deg + 1): r = r + cs[d] * d * x ** (d - 1)
        return r
    def f2(x):
        r = ZERO
        for d in range(2, deg + 1): r = r + cs[d] * (d * (d - 1)) * x ** (d - 2)
        return r
    j = fresh('j', True)
    return A.mklam(j, n, f(LO + j * h)), f, f1, f2

def c01(R):
    R.rule = ('FD::der / FD::der2 are interpreted on the sampled polynomial sum c_d x_j^d (symbolic coefficients, interval and n >= 8); '
              'in every case of the output index the summary must equal the exact derivative as a rational function')
    for nm, deg, k in (('der', 6, 1), ('der2', 7, 2)):
        p, M, o, n = radial('FD', 8)
        f = pick(p, 'FD::' + nm, n=2)
        h = (UP - LO) / (n - 1)
        arr, g, g1, g2 = poly_lam(n, deg, h)
        v = vec(M, 'v', n, arr=arr); dv = vec(M, 'dv', n)
        call(M, f, o, v, dv)
        j, c = J('J', n, M.S.ctx)
        want = (g1 if k == 1 else g2)(LO + j * h)
        R.eq('%s exact on degree <= %d' % (nm, deg), at(M, dv, j, c), want, c, site(f))
        R.ob('%s leaves the input unchanged' % nm, 'proved' if arr_of(M, v) is arr else 'violated', '', site(f))
        R.eq('%s keeps the output size' % nm, M.S.store[dv.loc].size, n, c, site(f))
        # generic data: every output entry is a function of the input only
        M2 = Machine(p, ctx=size(n, 8)); o2 = construct(M2, 'FD', (n, LO, UP), 'rad')
        v2, d2 = vec(M2, 'v', n), vec(M2, 'dv', n)
        call(M2, f, o2, v2, d2)
        stale(R, '%s overwrites every entry' % nm, at(M2, d2, j, c), base('dv'), c, site(f))
        R.incomplete(M); R.used(M); R.used(M2)

def stale(R, name, val, old, ctx, st):
    """the value must not mention the previous contents of the output array"""
    try:
        for c, x in A.cases(val, ctx):
            if T.occurs_arr(x, {old}):
                return R.ob(name, 'violated', 'case [%s]: %s still depends on the old contents' % (', '.join(map(str, c.facts[-3:])), x), st)
            if tops(x): return R.ob(name, 'undecided', str(x), st)
    except A.Undet as e: return R.ob(name, 'undecided', str(e), st)
    return R.ob(name, 'proved', '', st)

def c02(R):
    R.rule = ('FD::filter on generic data: linear stencil per case of the output index (end cases identity, interior symmetric), exactness on '
              'polynomials of degree <= 7, Fourier symbol as polynomial in sin^2(k/2) bounded in [0,1] by Bernstein subdivision')
    p, M, o, n = radial('FD', 9)
    f = pick(p, 'FD::filter', n=1)
    v = vec(M, 'v', n)
    call(M, f, o, v)
    j, c = J('J', n, M.S.ctx)
    val = at(M, v, j, c)
    b = base('v')
    for nm, cc in (('first four', c.add(ge0(3 - j))), ('last four', c.add(ge0(j - (n - 4))))):
        R.eq('filter keeps the %s points' % nm, val, elem(b, (j,)), cc, site(f))
    ci = c.add(ge0(j - 4), ge0(n - 5 - j))
    nl = 0
    for cc, x in A.cases(val, ci):
        nl += 1
        st = stencil(x, b, j)
        if st is None:
            sampled_stencil(R, x, b, j, n, site(f)); continue
        for s in st: R.holds('stencil offset inside the grid', c_and(ge0(j + s), ge0(n - 1 - j - s)), cc, site(f))
        w = max(abs(s) for s in st)
        sym_ok = all(st.get(s, 0) == st.get(-s, 0) for s in range(w + 1))
        R.ob('stencil symmetric (real Fourier factor)', 'proved' if sym_ok else 'violated', str(st), site(f))
        if sym_ok:
            q = symbol_poly(st)
            R.ob('Fourier factor at the sawtooth is 0', 'proved' if sum(q) == 0 else 'violated', str(q), site(f))
            lo, hi = bern_range(q)
            R.ob('Fourier factor >= 0', 'proved' if lo else 'violated', 'factor %s in y=sin^2(k/2)' % q, site(f))
            lo2, _ = bern_range([1 - q[0]] + [-a for a in q[1:]])
            R.ob('Fourier factor <= 1', 'proved' if lo2 else 'violated', 'factor %s in y=sin^2(k/2)' % q, site(f))
        if nl > 60: break
    h = (UP - LO) / (n - 1)
    p, M, o, n = radial('FD', 9)
    arr, g, g1, g2 = poly_lam(n, 7, h)
    v = vec(M, 'v', n, arr=arr)
    call(M, f, o, v)
    R.eq('reproduces polynomials of degree <= 7', at(M, v, j, c), g(LO + j * h), c, site(f))
    R.incomplete(M); R.used(M)

def sampled_stencil(R, x, b, j, n, st):
    """response of the interior value to unit data, evaluated from the summary for one size"""
    nv = 21; out = {}
    name = 'interior value is a symmetric stencil of unfiltered values'
    try:
        for jv in (9, 10, 11):
            for s in range(-8, 9):
                q = fresh('q', True)
                unit = A.mklam(q, n, ite(eq0(q - (jv + s)), ONE, ZERO))
                A.CUR[0] = Ctx()
                y = Subst({}, {b: unit}).any(x)
                ev = T.Num(1, {atom_of(j).id: float(jv), atom_of(n).id: float(nv)})
                out[jv, s] = round(ev.poly(y), 12)
    except (T.NoValue, A.Undet, KeyError) as e:
        return R.ob(name, 'undecided', 'value %s (%s)' % (clip_(x), e), st)
    bad = [(jv, s) for jv, s in out if abs(out[jv, s] - out[10, s]) > 1e-9 or abs(out[jv, s] - out[jv, -s]) > 1e-9]
    if bad: return R.ob(name, 'violated', 'with n=21 point %d responds by %s to a unit change at offset %d, by %s at offset %d' % (bad[0][0], out[bad[0]], bad[0][1], out[bad[0][0], -bad[0][1]], -bad[0][1]), st)
    R.ob(name, 'held', str({s: out[10, s] for s in range(-8, 9) if out[10, s]}), st)
def clip_(x): return str(x)[:300]

def c03(R):
    R.rule = 'constructor and accessors interpreted for symbolic n >= 2 and interval; pt(i) compared with the advertised point for 0 <= i < n'
    for cls in ('FD', 'Cheb'):
        p, M, o, n = radial(cls, 2)
        for nm, want in (('n', n), ('lower', LO), ('upper', UP)):
            f = pick(p, cls + '::' + nm, n=0)
            R.eq('%s::%s()' % (cls, nm), call(M, f, o), want, M.S.ctx, site(f))
        f = pick(p, cls + '::pt', n=1)
        i, c = J('i', n, M.S.ctx)
        M.S.ctx = c
        got = call(M, f, o, i)
        if cls == 'FD': want = LO + i * (UP - LO) / (n - 1)
        else: want = (UP + LO) / 2 + (UP - LO) / 2 * fn('cos', PI * i / (n - 1))
        R.eq('%s::pt(i)' % cls, got, want, c, site(f))
        a, b = (LO, UP) if cls == 'FD' else (UP, LO)
        R.eq('%s first point is the %s end' % (cls, 'lower' if cls == 'FD' else 'upper'), call(M, f, o, ZERO), a, M.S.ctx, site(f))
        R.eq('%s last point is the other end' % cls, call(M, f, o, n - 1), b, M.S.ctx, site(f))
        R.incomplete(M); R.used(M)

# ---------------------------------------------------------------- Chebyshev
def plans(R, M):
    for x in M.obl.values():
        if x.kind == 'plan': R.ob(x.what, x.status, str(x.wit) if x.wit is not None else '', '%s:%s %s' % (x.file, x.line, x.fn))
def c04(R):
    R.rule = ('Cheb::to_po / to_ch are interpreted for symbolic n >= 3; their output must be alpha*REDFT00(X) with alpha*X_j the DCT-I weights of the '
              'Chebyshev series at the Lobatto nodes (X_0, X_{n-1}: 1, interior 1/2) resp. its inverse (1/(2(n-1)), 1/(n-1))')
    p, M, o, n = radial('Cheb', 3)
    f = pick(p, 'Cheb::to_po', n=2)
    ch = vec(M, 'ch', n); po = vec(M, 'po', n)
    call(M, f, o, ch, po)
    j, c = J('J', n, M.S.ctx); k, c = J('K', n, c)
    dct_is(R, 'to_po', at(M, po, j, c), j, k, n, c, lambda kk: elem(base('ch'), (kk,)),
           lambda ctx, jj, kk: weight(ctx, kk, n, ONE, P(F(1, 2))), site(f))
    plans(R, M)
    p, M, o, n = radial('Cheb', 3)
    f = pick(p, 'Cheb::to_ch', n=2)
    ch = vec(M, 'ch', n); po = vec(M, 'po', n)
    call(M, f, o, po, ch)
    dct_is(R, 'to_ch', at(M, ch, j, c), j, k, n, c, lambda kk: elem(base('po'), (kk,)),
           lambda ctx, jj, kk: weight(ctx, jj, n, 1 / (2 * (n - 1)), 1 / (n - 1)), site(f))
    R.ob('to_ch leaves the point values unchanged', 'proved' if arr_of(M, po) is base('po') else 'violated', str(arr_of(M, po)), site(f))
    plans(R, M)
    R.incomplete(M); R.used(M)
    # going there and back on the same object
    p, M, o, n = radial('Cheb', 3)
    R.trusted.append('DCT-I (REDFT00) applied twice is 2(n-1) times the identity (FFTW manual)')

def coef(n, k, ctx, S):
    """true Chebyshev coefficient k of the data whose REDFT00 is S"""
    return elem(S, (k,)) * ite(c_or(eq0(k), eq0(n - 1 - k)), 1 / (2 * (n - 1)), 1 / (n - 1))

def c05(R):
    R.rule = ('Cheb::der interpreted for symbolic n >= 4: output = alpha*REDFT00(X) and the coefficients e_j = alpha*X_j*(1|2) satisfy '
              'jac*e_j = 2(j+1)a_{j+1} + jac*e_{j+2}, e_0 halved, e_{n-1}=e_{n-2}=0, given a_{n-1}=a_{n-2}=0 (the derivative recurrence has one solution)')
    p, M, o, n = radial('Cheb', 4)
    f = pick(p, 'Cheb::der', n=2)
    v = vec(M, 'v', n); dv = vec(M, 'dv', n)
    call(M, f, o, v, dv)
    R.ob('input unchanged', 'proved' if arr_of(M, v) is base('v') else 'violated', str(arr_of(M, v)), site(f))
    j, c = J('J', n, M.S.ctx)
    val = at(M, dv, j, c)
    stale(R, 'every output entry is overwritten', val, base('dv'), c, site(f))
    jac = (UP - LO) / 2
    S = op_of_input(val, base('v'))
    for cc, x in A.cases(val, c):
        r = dct_split(x, j, cc)
        if r is None:
            R.ob('derivative is a cosine transform', 'undecided', str(x)[:300], site(f)); continue
        al, X = r
        if T.occurs(al, {j.single() if not hasattr(j.single(), 'id') else j.single().id}):
            R.ob('derivative is a uniform cosine transform', 'undecided', str(al), site(f)); continue
        if S is None: R.ob('coefficients of the input are used', 'undecided', '', site(f)); continue
        def e(k, ctx):
            w = ite(c_or(eq0(k), eq0(n - 1 - k)), ONE, P(2))
            z = unfolded(X, k, ctx)
            return al * z * w
        sub = top_zero(S, n)
        def chk(nm, lhs, rhs, ctx):
            R.eq(nm, sub(lhs, ctx), sub(rhs, ctx), ctx, site(f))
        def a(k, ctx): return coef(n, k, ctx, S)
        q = fresh('k', True)
        def E(k, ctx): return A.get(X, (k,), ctx)
        base_c = cc
        w = lambda k: ite(c_or(eq0(k), eq0(n - 1 - k)), ONE, P(2))
        # raw: value of e_k with the element left folded (k+2) or unfolded (k)
        def fold(k, ctx): return al * A.get(X, (k,), ctx) * w(k)
        c0 = base_c
        chk('e_{n-1} = 0', e(n - 1, c0), ZERO, c0)
        chk('e_{n-2} = 2(n-1)a_{n-1}/jac', e(n - 2, c0), 2 * (n - 1) * a(n - 1, c0) / jac, c0)
        c1 = c0.add(ge0(q - 1), ge0(n - 3 - q))
        chk('jac e_k = 2(k+1)a_{k+1} + jac e_{k+2}', e(q, c1), 2 * (q + 1) * a(q + 1, c1) / jac + fold(q + 2, c1), c1)
        chk('2 jac e_0 = 2 a_1 + jac e_2', 2 * e(ZERO, c0), 2 * a(ONE, c0) / jac + fold(P(2), c0), c0)
    R.incomplete(M); R.used(M)
    R.trusted.append('uniqueness of the solution of the Chebyshev derivative recurrence')

def c06(R):
    R.rule = ('Cheb::filter interpreted for symbolic n >= 3: output = transform of g_k a_k; g extracted as a closed form in k and n and decided: '
              'function of t=k/n only, g(0)=1, in (0,1], non-increasing on [0,1], >=0.999 for t<=1/2, <=1e-4 for t>=15/16')
    p, M, o, n = radial('Cheb', 3)
    f = pick(p, 'Cheb::filter', n=1)
    v = vec(M, 'v', n)
    call(M, f, o, v)
    j, c = J('J', n, M.S.ctx)
    val = at(M, v, j, c)
    S = op_of_input(val, base('v'))
    k, c = J('K', n, c)
    got = False
    if S is None and not tops(val) and not T.occurs_arr(val, {base('v')}):
        return R.ob('filtered data depends on the data', 'violated', 'element J becomes %s whatever the input is' % str(val)[:200], site(f))
    for cc, x in A.cases(val, c):
        r = dct_split(x, j, cc)
        if r is None or S is None:
            R.ob('filtered data is a cosine transform of scaled coefficients', 'undecided', str(x)[:300], site(f)); continue
        al, X = r
        g = al * A.get(X, (k,), cc) * ite(c_or(eq0(k), eq0(n - 1 - k)), ONE, P(2)) / coef(n, k, cc, S)
        for c3, y in A.cases(g, cc):
            y = Subst(A.eq_subst(c3)).any(y)
            got = True
            lowpass(R, y, k, n, c3, site(f), lambda t: True)
    R.incomplete(M); R.used(M)

def lowpass(R, y, k, n, ctx, st, _, half=F(999, 1000), tail=(F(15, 16), 1e-4)):
    if tops(y): return R.ob('filter factor', 'undecided', str(y)[:300], st)
    t = sym('t')
    ka = atom_of(k)
    sub = A.eq_subst(ctx)
    kk = Subst(sub).poly(k) if sub else k
    if kk is not k:
        # isolated index (0 or n-1): evaluate there
        y = Subst(sub).any(y)
        return lowpass_at(R, y, kk, n, ctx, st)
    gt = Subst({ka.id: n * t}).any(y)
    na = atom_of(n)
    eqn = True if not T.occurs(gt, {na.id}) else T.same(gt, Subst({na.id: 2 * n + 3}).any(gt))
    R.ob('factor depends on k/n only', 'proved' if eqn else ('undecided' if eqn is None else 'violated'), 'factor %s' % y, st)
    gt = Subst({na.id: P(7)}).any(gt)
    decide_lowpass(R, gt, t, st, half, tail)

def lowpass_at(R, y, kk, n, ctx, st):
    t = kk / n
    from logic import sample
    ok = True; det = ''
    for s in range(40):
        a = sample(ctx, s)
        if not a: continue
        ev = T.Num(s, a)
        try: g = ev.poly(y); tt = ev.poly(t)
        except Exception: return R.ob('factor at index %s' % kk, 'undecided', str(y), st)
        want_lo = 1 if tt == 0 else 0
        if not (g <= 1 + 1e-12) or g < 0 or (tt == 0 and abs(g - 1) > 1e-12) or (tt <= 0.5 and g < 0.999) or (tt >= 15 / 16 and g > 1e-4):
            ok = False; det = 'factor %g at k/n=%g' % (g, tt)
    R.ob('factor at index %s' % kk, 'held' if ok else 'violated', det or str(y), st)
