"""C14-C20: the three-dimensional grid."""
from lab import *
import arrays as A
import terms as T
from radial import stale
from spectral import *

PT, TH, PH = base('Rpt'), base('thpt'), base('phpt')
def gdims():
    nx, nl, nm, nlat, nphi = (sym(s, True) for s in ('nx', 'nl', 'nm', 'nlat', 'nphi'))
    cl, a, b = sym('cl'), sym('Rmin'), sym('Rmax')
    ctx = Ctx((ge0(nx - 8), ge0(nl - 1), ge0(nm), ge0(nl - nm), ge0(nlat - nl - 1), ge0(nphi - 2 * nm - 1)))
    ctx = ctx.add(gt0r(cl), gt0r(b - a))
    return (cl, a, b, nx, nl, nm, nlat, nphi), ctx
class G: pass
def tab1(A_):
    """opaque accessor: index -> table element"""
    def h(M, f, this, binds):
        return elem(A_, (M.read(binds[0]),))
    return binder_of(h)
def inplace(nm):
    def h(M, f, this, binds):
        v = M.S.store[binds[0].loc]
        M.access_range(binds[0].loc, ZERO, v.size, 'w')
        M.S.store[binds[0].loc] = Vec(v.size, op(nm, 'real', M.xnorm(v.arr, v.size)), v.inner)
        return VOID
    return binder_of(h)
def mapop(nm, et='real', samesize=True):
    def h(M, f, this, binds):
        i, o = binds
        vi, vo = M.S.store[i.loc], M.S.store[o.loc]
        if samesize: M.check('bounds', eq0(vi.size - vo.size), 'input and output of %s have the same size' % f['q'])
        X = M.xnorm(vi.arr, vi.size)
        M.access_range(i.loc, ZERO, vi.size, 'r'); M.access_range(o.loc, ZERO, vo.size, 'w')
        M.S.store[o.loc] = Vec(vo.size, op(nm, et, X), vo.inner)
        return VOID
    return binder_of(h)
def opaques():
    d = {'Sphere::theta': tab1(TH), 'Sphere::phi': tab1(PH), 'Cheb::pt': tab1(PT), 'FD::pt': tab1(PT),
         'Sphere::partial_phi': mapop('dphi'), 'Sphere::laplace_beltrami': mapop('lap'), 'Sphere::sphereX': mapop('sphX'),
         'Sphere::power_spectrum': mapop('psl', samesize=False), 'Sphere::filter': inplace('sfilter'),
         'Cheb::der': mapop('der'), 'FD::der': mapop('der'), 'FD::der2': mapop('der2'), 'Cheb::to_ch': mapop('to_ch'), 'Cheb::to_po': mapop('to_po'),
         'Cheb::filter': inplace('rfilter'), 'FD::filter': inplace('rfilter')}
    return d
_grids = {}
def grid(cheb=True, cont=True, ndebug=True, opq=True):
    """a constructed grid with the given configuration (constructed once, each caller gets its own copy of the abstract state)"""
    k = (cheb, cont, ndebug, opq)
    if k not in _grids:
        _grids[k] = grid_(*k)
        M = _grids[k].M.fork()
    else:
        M = _grids[k].M.fork()
        M.stats = dict(functions=set(), accesses=0, loops=0, calls=0)
    g = G()
    g.__dict__.update(_grids[k].__dict__)
    g.M = M
    return g
def grid_(cheb, cont, ndebug, opq):
    p = prog(cheb, cont, ndebug)
    d, ctx = gdims()
    M = Machine(p, ctx=ctx)
    if opq: M.opaque = opaques()
    g = G()
    g.M, g.p = M, p
    g.cl, g.a, g.b, g.nx, g.nl, g.nm, g.nlat, g.nphi = d
    g.o = construct(M, 'Grid', d, 'grid')
    g.N = g.nx * g.nlat * g.nphi
    g.cheb, g.cont = cheb, cont
    return g
def meth(g, nm, n=None): return pick(g.p, 'Grid::' + nm, None, n)
def idx(g, nm, *a):
    r = call(g.M, meth(g, nm, len(a)), g.o, *a)
    if not isinstance(r, Poly): raise Missing('index function %s did not return an index' % nm)
    return r
def configs(which='layout'):
    if which == 'all': return [(c, l) for c in (True, False) for l in (True, False)]
    return [(True, True), (False, False)]
def tag(c, l): return '%s, %s' % ('Chebyshev' if c else 'finite differences', 'theta-contiguous' if l else 'phi-contiguous')
def point(g):
    """an arbitrary grid point"""
    M = g.M
    ix, it, ip = fresh('ix', True), fresh('it', True), fresh('ip', True)
    c = M.S.ctx.add(ge0(ix), ge0(g.nx - 1 - ix), ge0(it), ge0(g.nlat - 1 - it), ge0(ip), ge0(g.nphi - 1 - ip))
    return ix, it, ip, c

def c14(R):
    R.rule = ('index functions interpreted on symbolic multi-indices: range, injectivity (mixed-radix solution), the 3-d index as ix*nang+angular index, and agreement with '
              'the spherical transform layout, in both layouts')
    for cheb, cont in [(True, True), (True, False)]:
        g = grid(cheb, cont)
        M = g.M
        with R.scope(tag(cheb, cont)):
            ix, it, ip, c = point(g)
            M.S.ctx = c
            il = fresh('il', True)
            c = c.add(ge0(il), ge0(g.nl - 1 - il)); M.S.ctx = c
            three = idx(g, 'indx_R_th_ph', ix, it, ip)
            ang = idx(g, 'indx_th_ph', it, ip)
            st = site(meth(g, 'indx_R_th_ph', 3))
            R.eq('3-d index = ix*nlat*nphi + angular index', three, ix * g.nlat * g.nphi + ang, c, st)
            M2 = Machine(g.p, ctx=c)
            so = None
            for k in M.S.store:
                pass
            ro = idx_sphere(g, it, ip)
            if ro is not None: R.eq('angular index = index of the spherical transform', ang, ro, c, site(pick(g.p, 'Sphere::indx')))
            # layout promised to the transform library
            R.eq('angular index follows the transform layout', ang, (g.nlat * ip + it) if layout_theta(g) else (g.nphi * it + ip), c, st)
            for nm, args, dims in (('indx_R_th_ph', (ix, it, ip), (g.nx, g.nlat, g.nphi)), ('indx_th_ph', (it, ip), (g.nlat, g.nphi)),
                                   ('indx_r_th', (ix, it), (g.nx, g.nlat)), ('indx_r_ph', (ix, ip), (g.nx, g.nphi)), ('indx_r_l', (ix, il), (g.nx, g.nl))):
                v = idx(g, nm, *args)
                n = ONE
                for x in dims: n = n * x
                s2 = site(meth(g, nm, len(args)))
                R.holds('%s >= 0' % nm, ge0(v), c, s2)
                R.holds('%s < size' % nm, ge0(n - 1 - v), c, s2)
                inj(R, nm, v, args, dims, c, s2)
        R.incomplete(M); R.used(M)

def layout_theta(g):
    """layout flag passed to shtns_set_grid on this build: True = theta contiguous"""
    for e in walk_ev(g.M.S.ev):
        if e[0] == 'shtns_grid': 
            f = e[1]
            return f
    return g.cont
def walk_ev(ev):
    for e in ev:
        yield e
        if e[0] == 'loop': yield from walk_ev(e[3])
        elif e[0] == 'if':
            for x in e[2:]: 
                if isinstance(x, tuple): yield from walk_ev(x)
def idx_sphere(g, it, ip):
    f = pick(g.p, 'Sphere::indx', n=2)
    sph = [x for x in g.p.cls['Grid']['fields'] if x['t'] == 'Sphere'] if hasattr(g.p, 'cls') else None
    loc = g.o + ('._sphere',)
    r = call(g.M, f, loc, it, ip)
    return r if isinstance(r, Poly) else None

def inj(R, nm, v, args, dims, c, st):
    ren = {}
    facts = []
    for a, n in zip(args, dims):
        z = fresh('z', True)
        ren[atom_of(a)] = z
        facts += [ge0(z), ge0(n - 1 - z)]
    q = Subst(ren).any(v)
    its = [(atom_of(a), n) for a, n in zip(args, dims)]
    c2 = c.add(*facts)
    try:
        sol, cond = A.solve((v,), (q,), its, c2)
        c3 = c2.add(cond)
        if all(atom_of(a).id in sol and eqz(sol[atom_of(a).id] - ren[atom_of(a)], c3) for a in args):
            return R.ob('%s is one-to-one' % nm, 'proved', '', st)
    except A.Undet: pass
    from logic import witness
    for a in args:
        w = witness(c2, [eq0(v - q), c_not(eq0(a - ren[atom_of(a)]))], tries=4000, maxval=5)
        if w is not None: return R.ob('%s is one-to-one' % nm, 'violated', 'two different points share an index: %s' % w, st)
    R.ob('%s is one-to-one' % nm, 'undecided', str(v), st)
def eqz(p, c): return p is ZERO or (c.prove_ge(p) and c.prove_ge(-p))

def c15(R):
    R.rule = ('Grid constructor interpreted with the radial and angular grids as symbolic tables; every table accessor queried at an arbitrary multi-index and flat index; '
              'Sphere::theta / phi interpreted on their own')
    for cheb, cont in configs('all') if R.tier == 'thorough' else configs():
        g = grid(cheb, cont)
        M = g.M
        with R.scope(tag(cheb, cont)):
            ix, it, ip, c = point(g)
            il = fresh('il', True)
            c = c.add(ge0(il), ge0(g.nl - 1 - il)); M.S.ctx = c
            Rv, th, ph = elem(PT, (ix,)), elem(TH, (it,)), elem(PH, (ip,))
            sn, cs = (lambda x: T.fn('sin', x)), (lambda x: T.fn('cos', x))
            spec = [('R_th_ph', (ix, it, ip), 'indx_R_th_ph', (Rv, th, ph)),
                    ('x_y_z', (ix, it, ip), 'indx_R_th_ph', (Rv * sn(th) * cs(ph), Rv * sn(th) * sn(ph), Rv * cs(th))),
                    ('th_ph', (it, ip), 'indx_th_ph', (th, ph)), ('R_l', (ix, il), 'indx_r_l', (Rv, il))]
            if cheb: spec.append(('n_l', (ix, il), 'indx_r_l', (ix, il)))
            for nm, args, ixn, want in spec:
                for how, a in (('multi-index', args), ('flat index', (idx(g, ixn, *args),))):
                    f = meth(g, nm, len(a))
                    r = call(M, f, g.o, *a)
                    if not isinstance(r, Vec): R.ob('%s by %s' % (nm, how), 'undecided', str(r), site(f)); continue
                    R.eq('%s by %s: number of coordinates' % (nm, how), r.size, P(len(want)), c, site(f))
                    for k, w in enumerate(want):
                        R.eq('%s by %s: coordinate %d' % (nm, how, k), get(r.arr, (P(k),), c), w, c, site(f))
        R.incomplete(M); R.used(M)
    import sphere
    p, M, o, d = sphere.sphere()
    f = sphere.method(p, 'theta', n=1)
    i, c = J('i', d[2], M.S.ctx); M.S.ctx = c
    th = call(M, f, o, i)
    R.eq('theta = acos(Gauss node)', th, T.fn('acos', gauss_node(M, i)), c, site(f))
    f = sphere.method(p, 'phi', n=1)
    i, c = J('i', d[3], c); M.S.ctx = c
    R.eq('phi = 2 pi ip / nphi', call(M, f, o, i), 2 * T.PI * i / d[3] if hasattr(T, 'PI') else 2 * pi_() * i / d[3], c, site(f))
    R.incomplete(M); R.used(M)
def gauss_node(M, i):
    for k, v in M.S.store.items():
        if k[-1] == '.ct' and isinstance(v, Ptr): return get(M.S.store[v.loc].arr, (i,), M.S.ctx)
    return top('no node table')
def pi_():
    import models
    return models.PI if hasattr(models, 'PI') else T.sym('pi')

ROWS = [  # suffix, fixed coordinates, free coordinates, big index function, row index function
    ('row_R', ('it', 'ip'), ('ix',), 'indx_R_th_ph', None), ('row_th', ('ix', 'ip'), ('it',), 'indx_R_th_ph', None), ('row_ph', ('ix', 'it'), ('ip',), 'indx_R_th_ph', None),
    ('row_n', ('il',), ('ix',), 'indx_r_l', None), ('row_R_th', ('ip',), ('ix', 'it'), 'indx_R_th_ph', 'indx_r_th'), ('row_R_ph', ('it',), ('ix', 'ip'), 'indx_R_th_ph', 'indx_r_ph'),
    ('row_th_ph', ('ix',), ('it', 'ip'), 'indx_R_th_ph', 'indx_th_ph'), ('row_l', ('ix',), ('il',), 'indx_r_l', None)]
def c16(R):
    R.rule = ('every get_row_*/set_row_* interpreted for a symbolic row; gathered element k must be the grid element of the addressed row, a scattered row must change exactly '
              'the elements of that row (arbitrary element queried through the grid index function), both layouts')
    for cheb, cont in [(True, True), (False, False)]:
        with R.scope(tag(cheb, cont)):
            for nm, fixed, free, big, small in ROWS:
                for pre in ('get_', 'set_'):
                    g = grid(cheb, cont)
                    if not any(f.get('body') is not None for f in g.p.byname.get('Grid::' + pre + nm, [])): 
                        if pre == 'get_' and nm == 'row_l': continue
                    rowcheck(R, g, pre, nm, fixed, free, big, small)

def rowcheck(R, g, pre, nm, fixed, free, big, small):
    M = g.M
    dims = {'ix': g.nx, 'it': g.nlat, 'ip': g.nphi, 'il': g.nl}
    order = ('ix', 'it', 'ip') if big == 'indx_R_th_ph' else ('ix', 'il')
    rows, cols, c = {}, {}, M.S.ctx
    for k in order:
        s = fresh(k, True)
        c = c.add(ge0(s), ge0(dims[k] - 1 - s)); cols[k] = s
    for k in fixed:
        s = fresh('row_' + k, True)
        c = c.add(ge0(s), ge0(dims[k] - 1 - s)); rows[k] = s
    M.S.ctx = c
    N = ONE
    for k in order: N = N * dims[k]
    n = ONE
    for k in free: n = n * dims[k]
    f = pick(g.p, 'Grid::' + pre + nm)
    st = site(f)
    small_i = idx(g, small, *[cols[k] for k in free]) if small else cols[free[0]]
    if pre == 'get_':
        v = vec(M, 'v', N); o = vec(M, 'row', n)
        call(M, f, g.o, *([rows[k] for k in fixed] + [v, o]))
        R.ob('%s%s leaves the grid unchanged' % (pre, nm), 'proved' if arr_of(M, v) is base('v') else 'violated', '', st)
        want = elem(base('v'), (idx(g, big, *[rows.get(k, cols[k]) for k in order]),))
        R.eq('%s%s copies the addressed elements in order' % (pre, nm), at(M, o, small_i, c), want, c, st)
    else:
        v = vec(M, 'row', n); o = vec(M, 'v', N)
        call(M, f, g.o, *([rows[k] for k in fixed] + [v, o]))
        R.ob('%s%s leaves the row unchanged' % (pre, nm), 'proved' if arr_of(M, v) is base('row') else 'violated', '', st)
        bi = idx(g, big, *[cols[k] for k in order])
        got = at(M, o, bi, c)
        on = c_and(*[eq0(cols[k] - rows[k]) for k in fixed])
        want = ite(on, elem(base('row'), (small_i,)), elem(base('v'), (bi,)))
        R.eq('%s%s writes exactly the addressed row' % (pre, nm), got, want, c, st)
        back = idx(g, big, *[rows.get(k, cols[k]) for k in order])
        R.eq('element read back after %s%s' % (pre, nm), at(M, o, back, c), elem(base('row'), (small_i,)), c, st)
    R.incomplete(M); R.used(M)

def shell(g, ix, X, ctx):
    """extensional shell ix of the field array X"""
    n = g.nlat * g.nphi
    j = fresh('J', True)
    return A.mklam(j, n, A.simp(get(X, (ix * n + j,), ctx.add(ge0(j), ge0(n - 1 - j))), ctx))
def line(g, it, ip, X, ctx):
    j = fresh('J', True)
    c = ctx.add(ge0(j), ge0(g.nx - 1 - j))
    return A.mklam(j, g.nx, A.simp(get(X, (j * g.nlat * g.nphi + ang(g, it, ip),), c), c))
def ang(g, it, ip): return g.nlat * ip + it if g.cont else g.nphi * it + ip
def flat(g, ix, it, ip): return ix * g.nlat * g.nphi + ang(g, it, ip)

def run_op(g, nm, osize=None):
    M = g.M
    f = meth(g, nm, 2)
    v = vec(M, 'v', g.N); o = vec(M, 'out', osize or g.N)
    call(M, f, g.o, v, o)
    return f, v, o
def c17(R):
    R.rule = ('each Grid operator interpreted with the line / shell operators uninterpreted: the output at an arbitrary point must be the operator of the extensionally equal line '
              'or shell of the input, at the matching position; all four build configurations')
    for cheb, cont in configs('all'):
        with R.scope(tag(cheb, cont)):
            for nm, o1 in (('set_partial_phi', 'dphi'), ('set_spherical_lap', 'lap'), ('set_sphereX', 'sphX')):
                g = grid(cheb, cont); M = g.M
                f, v, o = run_op(g, nm)
                R.ob(nm + ' leaves its input unchanged', 'proved' if arr_of(M, v) is base('v') else 'violated', '', site(f))
                ix, it, ip, c = point(g)
                want = elem(op(o1, 'real', shell(g, ix, base('v'), c)), (ang(g, it, ip),))
                got = at(M, o, flat(g, ix, it, ip), c)
                stale(R, nm + ' writes every point', got, base('out'), c, site(f))
                R.eq(nm + ' acts shell by shell', got, want, c, site(f))
                R.incomplete(M); R.used(M)
            g = grid(cheb, cont); M = g.M
            f, v, o = run_op(g, 'set_partial_R')
            ix, it, ip, c = point(g)
            got = at(M, o, flat(g, ix, it, ip), c)
            R.ob('set_partial_R leaves its input unchanged', 'proved' if arr_of(M, v) is base('v') else 'violated', '', site(f))
            R.eq('set_partial_R acts line by line', got, elem(op('der', 'real', line(g, it, ip, base('v'), c)), (ix,)), c, site(f))
            R.incomplete(M); R.used(M)
            g = grid(cheb, cont); M = g.M
            f, v, o = run_op(g, 'set_angular_power_spectrum', g.nx * g.nl)
            ix, it, ip, c = point(g)
            il, c = J('il', g.nl, c)
            psl = lambda ix, il: elem(op('psl', 'real', shell(g, ix, base('v'), c)), (il,))
            R.ob('set_angular_power_spectrum leaves its input unchanged', 'proved' if arr_of(M, v) is base('v') else 'violated', '', site(f))
            R.eq('set_angular_power_spectrum: spectrum of each shell', at(M, o, ix * g.nl + il, c), psl(ix, il), c, site(f))
            R.incomplete(M); R.used(M)
            if cheb:
                g = grid(cheb, cont); M = g.M
                f, v, o = run_op(g, 'set_n_l_coef', g.nx * g.nl)
                ix, it, ip, c = point(g)
                il, c = J('il', g.nl, c)
                j, c2 = J('J', g.nx, c)
                psl = lambda ix, il: elem(op('psl', 'real', shell(g, ix, base('v'), c2)), (il,))
                want = elem(op('to_ch', 'real', A.mklam(j, g.nx, T.sqrt(psl(j, il)))), (ix,))
                R.ob('set_n_l_coef leaves its input unchanged', 'proved' if arr_of(M, v) is base('v') else 'violated', '', site(f))
                R.eq('set_n_l_coef: Chebyshev coefficients of the angular amplitude', at(M, o, ix * g.nl + il, c), want, c, site(f))
                R.incomplete(M); R.used(M)

def c18(R):
    R.rule = ('Grid::R_to_r, set_partial_r, set_partial2_r interpreted with symbolic L, radial table and uninterpreted radial derivative; the launcher compactification read '
              'from the Python syntax tree and substituted into R_to_r')
    for cheb, cont in configs('all') if R.tier == 'thorough' else configs():
        with R.scope(tag(cheb, cont)):
            g = grid(cheb, cont); M = g.M
            f, v, o = run_op(g, 'set_partial_r')
            ix, it, ip, c = point(g)
            Rv = elem(PT, (ix,))
            w = 1 - Rv / g.cl
            d = elem(op('der', 'real', line(g, it, ip, base('v'), c)), (ix,))
            R.ob('set_partial_r leaves its input unchanged', 'proved' if arr_of(M, v) is base('v') else 'violated', '', site(f))
            R.eq('d/dr = (1-R/L)^2 d/dR', at(M, o, flat(g, ix, it, ip), c), w * w * d, c, site(f))
            R.incomplete(M); R.used(M)
            g = grid(cheb, cont); M = g.M
            f, v, o = run_op(g, 'set_partial2_r')
            ix, it, ip, c = point(g)
            ln = line(g, it, ip, base('v'), c)
            w = 1 - elem(PT, (ix,)) / g.cl
            d1 = elem(op('der', 'real', ln), (ix,))
            d2 = elem(op('der', 'real', op('der', 'real', ln)), (ix,)) if cheb else elem(op('der2', 'real', ln), (ix,))
            R.ob('set_partial2_r leaves its input unchanged', 'proved' if arr_of(M, v) is base('v') else 'violated', '', site(f))
            R.eq('d2/dr2 = (1-R/L)^4 d2/dR2 - (2/L)(1-R/L)^3 d/dR', at(M, o, flat(g, ix, it, ip), c), w * w * w * w * d2 - 2 / g.cl * w * w * w * d1, c, site(f))
            R.incomplete(M); R.used(M)
    g = grid(); M = g.M
    f = meth(g, 'R_to_r', 1)
    x = sym('R')
    val = call(M, f, g.o, x)
    compact(R, g, f, val, x)
    R.incomplete(M); R.used(M)

def compact(R, g, f, val, x):
    import launcher as pyast
    M, cl = g.M, g.cl
    xa = atom_of(x)
    ctx = M.S.ctx
    # at infinity
    at_inf = Subst({xa: cl}).any(val)
    ok = False
    for c, y in A.cases(at_inf, ctx):
        k = y.const() if isinstance(y, Poly) else None
        R.ob('R=L maps to a huge finite radius', 'proved' if k is not None and 1e9 <= k < 1e300 else ('violated' if k is not None or not tops(y) else 'undecided'), str(y), site(f))
    r = sym('r')
    comp = pyast.compactification(R, r, cl)
    n = 0
    for c, y in A.cases(val, ctx):
        if isinstance(y, Poly) and y.const() is not None:
            # the infinity branch may only be taken within 1e-12 L of L
            for s in range(1, 40):
                ev = T.Num(s, {})
                a_ = T.Num(s, {xa.id: ev.poly(cl) * (1 - 10.0 ** (-(s % 12)))})
                try:
                    if all(a_.cond(q) for q in c.facts if q not in ctx.facts): 
                        R.ob('finite radii are not treated as infinity', 'violated', 'R=L*(1-1e-%d) is mapped to %s' % (s % 12, y), site(f)); break
                except Exception: pass
            continue
        n += 1
        R.eq('R_to_r inverts the compactification', y, x / (1 - x / cl), c, site(f))
        if comp is not None:
            R.eq('launcher compactification is the inverse of R_to_r', Subst({xa: comp}).any(y), r, Ctx(), site(f))
    if n == 0: R.ob('R_to_r inverts the compactification', 'undecided', str(val), site(f))

def c19(R):
    R.rule = ('Grid::filter interpreted with the shell and line filters uninterpreted: the value at an arbitrary interior point must be the line filter of the shell-filtered line, '
              'and at the two radial ends the shell-filtered value')
    for cheb, cont in configs('all'):
        g = grid(cheb, cont); M = g.M
        f = meth(g, 'filter', 1)
        v = vec(M, 'v', g.N)
        call(M, f, g.o, v)
        ix, it, ip, c = point(g)
        with R.scope(tag(cheb, cont)):
            got = at(M, v, flat(g, ix, it, ip), c)
            S = lambda k: elem(op('sfilter', 'real', shell(g, k, base('v'), c.add(ge0(k), ge0(g.nx - 1 - k)))), (ang(g, it, ip),))
            j = fresh('J', True)
            full = elem(op('rfilter', 'real', A.mklam(j, g.nx, S(j))), (ix,))
            want = ite(c_or(eq0(ix), eq0(ix - g.nx + 1)), S(ix), full)
            R.eq('filtered value at every point', got, want, c, site(f))
        R.incomplete(M); R.used(M)

def c20(R):
    R.rule = ('Grid::norm_indep_res and total_variation interpreted over symbolic sizes; the reductions are compared with the defining symbolic sums')
    for cheb, cont in [(True, True), (True, False)]:
        g = grid(cheb, cont); M = g.M
        with R.scope(tag(cheb, cont)):
            f = meth(g, 'norm_indep_res', 4)
            a, b, p_ = (vec(M, s, g.N) for s in ('f_n', 'f_np1', 'p'))
            dt = sym('dt')
            r = call(M, f, g.o, dt, a, b, p_)
            j = fresh('j', True)
            e = lambda s: elem(base(s), (j,))
            d = e('p') - (e('f_np1') - e('f_n')) / dt
            R.eq('norm_indep_res = rms(p-(f_np1-f_n)/dt)', r, T.sqrt(A.mksum(j, g.N, d * d) / g.N), M.S.ctx, site(f))
            f = meth(g, 'total_variation', 1)
            v = vec(M, 'v', g.N)
            r = call(M, f, g.o, v)
            ix, it, ip = fresh('j', True), fresh('j', True), fresh('j', True)
            V_ = lambda x, y, z: elem(base('v'), (flat(g, x, y, z),))
            h = V_(ix, it, ip)
            s = T.sqrt((V_(ix + 1, it, ip) - h) ** 2 + (V_(ix, it + 1, ip) - h) ** 2 + (V_(ix, it, ip + 1) - h) ** 2)
            want = A.mksum(ix, g.nx - 1, A.mksum(it, g.nlat - 1, A.mksum(ip, g.nphi - 1, s))) / g.N
            R.eq('total_variation = sum of cell gradients / points', r, want, M.S.ctx, site(f))
        R.incomplete(M); R.used(M)
