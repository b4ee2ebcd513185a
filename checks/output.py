"""C30: CSV writers.  C31: the driver's main loop."""
from eom import *
from grid import ang
import idata
from terms import opaque
from report import clip

# ------------------------------------------------------------------ what a stream receives
class Unres(Exception): pass
def is_manip(v):
    return isinstance(v, I_.Opq)
def manip(v, prec):
    """effect of a manipulator: (new precision, text) or None when it changes the number format in an unmodelled way"""
    t = v.tag
    if t[0] == 'manip':
        n = t[1].split('::')[-1]
        if n == 'endl': return prec, '\n'
        if n in ('flush', 'unitbuf', 'nounitbuf', 'dec', 'left', 'right', 'internal', 'scientific'): return prec, ''
        if n == 'ends': return prec, '\0'
        if n == 'fixed': return ('fixed',), ''
        return None
    if t[0] == 'setprecision' or t[:2] == ('lib', 'precision'):
        p = t[1] if t[0] == 'setprecision' else (t[2][0] if t[2] else None)
        if isinstance(p, Poly): p = p.const()
        if isinstance(p, (int, F_)): return (int(p) if prec != ('fixed',) else prec), ''
        return None
    if t[0] in ('setw', 'setfill'): return prec, ''
    return None
from fractions import Fraction as F_
def document(ev, ctx, dec, st=None):
    """events -> nested document of ('text', s) ('val', v, precision, type) ('loop', k, N, doc, ctx) ('open', ...) under decided conditions"""
    out = []
    st = st if st is not None else {'prec': {}, 'open': {}}
    def text(s):
        if not s: return
        if out and out[-1][0] == 'text': out[-1] = ('text', out[-1][1] + s)
        else: out.append(('text', s))
    for e in ev:
        k = e[0]
        if k == 'out':
            _, loc, v, line, t = e
            if st['open'].get(loc) is False: out.append(('late', line))
            if isinstance(v, I_.Strv):
                for x in v.p:
                    if isinstance(x, str): text(x)
                    else: out.append(('str', x, line))
            elif isinstance(v, Poly) and t.replace('const ', '').strip() in ('char', 'unsigned char', 'signed char'):
                c = v.const()
                if c is None: raise Unres('character with an unknown value at line %s' % line)
                text(chr(int(c)))
            elif isinstance(v, (Poly, Cond)): out.append(('val', v if isinstance(v, Poly) else ite(v, ONE, ZERO), st['prec'].get(loc, 6), t, line))
            elif isinstance(v, I_.Opq):
                m = manip(v, st['prec'].get(loc, 6))
                if m is None: raise Unres('stream manipulation %s at line %s' % (v.tag[:2], line))
                st['prec'][loc] = m[0]; text(m[1])
            else: raise Unres('unmodelled output at line %s' % line)
        elif k == 'open':
            out.append(e); st['open'][e[1]] = True
        elif k == 'close': st['open'][e[1]] = False
        elif k == 'loop':
            _, ka, N, sub = e
            kp = ka if isinstance(ka, Poly) else P(ka)
            c = ctx.add(ge0(kp), ge0(N - 1 - kp))
            p0 = dict(st['prec'])
            d = document(sub, c, dec, st)
            if st['prec'] != p0:           # later iterations start with the format the body leaves
                st['prec'] = {q: (v if p0.get(q, 6) == v else v) for q, v in st['prec'].items()}
                s2 = {'prec': dict(p0), 'open': st['open']}
                d = document(sub, c, dec, s2)
            if d: out.append(('loop', kp, N, d, c))
        elif k == 'if':
            live = []
            for cond, tail in e[1]:
                r = dec(ctx, cond)
                if r is True: live = [(cond, tail)]; break
                if r is None: live.append((cond, tail))
            if len(live) == 1: sub = document(live[0][1], ctx.add(live[0][0]), dec, st)
            else:
                ds = []
                p0 = dict(st['prec'])
                for cond, tail in live:
                    s2 = {'prec': dict(p0), 'open': st['open']}
                    ds.append((cond, document(tail, ctx.add(cond), dec, s2)))
                if all(d == ds[0][1] for _, d in ds): sub = ds[0][1] if ds else []
                else: sub = [('if', ds)]
            for x in sub:
                if x[0] == 'text': text(x[1])
                else: out.append(x)
        elif k in ('cout', 'extract', 'fftw_cleanup'): pass
        elif k == 'exit': out.append(e)
        elif k == 'unknown': raise Unres(str(e[1]))
        else: raise Unres('event %s' % k)
    return out
def decide(ctx, c):
    if c is TRUE: return True
    if c is FALSE: return False
    if ctx.prove(c): return True
    if ctx.prove(c_not(c)): return False
    return None
def flatten(d):
    """perfect loop nests as one loop: (list of (k, N), body)"""
    L = []
    while d and len(d) == 1 and d[0][0] == 'loop':
        L.append((d[0][1], d[0][2])); d = d[0][3]
    return L, d
def instantiate(d, ctx, dec, sub):
    """document with loop indices substituted and conditions decided again"""
    out = []
    for x in d:
        if x[0] == 'val': out.append(('val', A.simp(sub.any(x[1]), ctx)) + x[2:])
        elif x[0] == 'if':
            live = []
            for c, dd in x[1]:
                c2 = simpc(sub.any(c), ctx)
                r = dec(ctx, c2)
                if r is True: live = [(c2, dd)]; break
                if r is None: live.append((c2, dd))
            if len(live) == 1: out += instantiate(live[0][1], ctx.add(live[0][0]), dec, sub)
            elif live: out.append(('if', [(c, instantiate(dd, ctx.add(c), dec, sub)) for c, dd in live]))
        elif x[0] == 'loop': out.append(('loop', x[1], sub.any(x[2]), x[3], ctx))
        else: out.append(x)
    m = []
    for x in out:
        if x[0] == 'text' and m and m[-1][0] == 'text': m[-1] = ('text', m[-1][1] + x[1])
        else: m.append(x)
    return m
def simpc(c, ctx):
    z = A.simp(ite(c, ONE, ZERO), ctx)
    if z is ONE: return TRUE
    if z is ZERO: return FALSE
    a = z.single() if isinstance(z, Poly) else None
    if a is not None and a.kind == 'ite' and a.args[1] is ONE and a.args[2] is ZERO: return a.args[0]
    if a is not None and a.kind == 'ite' and a.args[1] is ZERO and a.args[2] is ONE: return c_not(a.args[0])
    d = ONE - z if isinstance(z, Poly) else None
    a = d.single() if d is not None else None
    if a is not None and a.kind == 'ite' and a.args[1] is ONE and a.args[2] is ZERO: return c_not(a.args[0])
    return c
def paths(d, ctx):
    """row documents with the ifs that could not be decided enumerated: (facts, flat document)"""
    L = [([], [])]
    for x in d:
        if x[0] == 'if':
            L2 = []
            for f, q in L:
                for c, dd in x[1]:
                    if ctx.add(*f, c).infeasible(): continue
                    for f2, q2 in paths(dd, ctx.add(*f, c)): L2.append((f + [c] + f2, q + q2))
            L = L2
        else: L = [(f, q + [x]) for f, q in L]
    out = []
    for f, q in L:
        m = []
        for x in q:
            if x[0] == 'text' and m and m[-1][0] == 'text': m[-1] = ('text', m[-1][1] + x[1])
            else: m.append(x)
        out.append((f, m))
    return out

# ------------------------------------------------------------------ C30
NAME = ('sym', 'name')
def run_writer(g, q, sc, extra=()):
    M = g.M
    M.opaque['Grid::set_angular_power_spectrum'] = G_.mapop('apsl', samesize=False)
    M.opaque['Grid::set_n_l_coef'] = G_.mapop('nlcoef', samesize=False)
    f = pick(g.p, 'Csv::' + q)
    v = vec(M, 'F', g.N)
    M.S.ev = ()
    gl = {l: x for l, x in M.S.store.items() if l[0] == 'g'}
    itm = sym('itm', True)
    M.S.ctx = M.S.ctx.add(ge0(itm))
    args = []
    for x in f['params']:
        t, n = x['t'], x.get('name')
        if t == 'Grid': args.append(LV(g.o))
        elif is_str_t(t): args.append(I_.Strv(NAME))
        elif t == 'bool': args.append(sc)
        elif 'vector' in t: args.append(v)
        elif t == 'double':
            i = sum(1 for a in args if isinstance(a, Poly) and a in extra)
            args.append(extra[i] if i < len(extra) else ZERO)
        else: args.append(itm)
    call(M, f, None, *args)
    ch = [l for l, x in gl.items() if M.S.store.get(l) is not x]
    return f, v, itm, M.S.ev, ch
def is_str_t(t): return 'basic_string' in t or t == 'std::string'

def c30(R):
    R.rule = ('each CSV writer interpreted on a symbolic grid and field; the sequence of stream operations is summarised to a document (file name, header, loop over rows) whose row at an arbitrary '
              'index is compared with the coordinates and value of that element')
    for cheb, cont in configs('all') if R.tier == 'thorough' else configs():
        with R.scope(tag(cheb, cont)):
            for q, kind in (('write', ''), ('write_R_psl', '_RPsl'), ('write_n_psl', '_NPsl'), ('write_x_y_z', '_XYZ')):
                if q == 'write_n_psl' and not cheb: continue
                with R.scope(q):
                    run = None
                    for save in ((True, False) if q != 'write' else (False,)):
                        with R.scope('with header') if save else R.scope('without header') if q != 'write' else R.scope('plain'):
                            run = writer(R, cheb, cont, q, kind, save, run)
LIM = [sym(x) for x in ('vmin', 'vmax', 'rmin', 'rmax')]
def writer(R, cheb, cont, q, kind, save, run):
    if run is None:
        g = G_.grid(cheb, cont)
        run = (g,) + run_writer(g, q, SC, LIM) + (g.M.S.ctx,)
    writer_(R, q, kind, save, *run)
    return run
SC = opaque('save_coords')
def writer_(R, q, kind, save, g, f, v, itm, ev, ch, ctx0):
    M = g.M
    sc = SC
    M.S.ctx = ctx0
    st = site(f)
    R.ob('writer keeps no state between calls', 'violated' if ch else 'proved', str(ch)[:200], st)
    R.ob('the written array is unchanged', 'proved' if arr_of(M, v) is base('F') else 'violated', '', st)
    ctx = M.S.ctx.add(sc if save else c_not(sc))
    def dec(c, x):
        y = x.a[0] if x.k == 'not' else x
        if y.k == 'op' and y.a[:2] == ('stream-ok', 'ok'): return x.k != 'not'
        return decide(c, x)
    try: d = document(ev, ctx, dec)
    except Unres as x: R.ob('output of the writer', 'undecided', str(x), st); return R.incomplete(M)
    # file
    op_ = [x for x in d if x[0] == 'open']
    if len(op_) != 1 or d[0][0] != 'open':
        gap = any(o.kind in ('loop', 'unsupported', 'recursion') and o.status != 'proved' for o in M.obl.values())
        R.ob('writes one file', 'undecided' if not op_ and gap else 'violated', 'opens %d files' % len(op_), st)
        if not op_: return
    else: R.ob('writes one file', 'proved', '', st)
    nm = op_[0][2]
    want = I_.Strv(NAME, kind + '_', ('num', itm, 'int'), '.csv')
    if not isinstance(nm, I_.Strv): R.ob('file name', 'undecided', str(nm), st)
    else:
        known = all(isinstance(x, str) or x == NAME or isinstance(x, tuple) and x[0] == 'num' for x in nm.p)
        R.ob('file name', 'proved' if nm == want else 'violated' if known else 'undecided', 'file %s, required %s' % (nm, want), st)
    fl = [x for x in op_[0][3]]
    if fl:
        c = fl[0].const() if isinstance(fl[0], Poly) else None
        R.ob('open mode', 'undecided' if c is None else 'violated' if int(c) & 8 and not int(c) & 0x31 else 'proved', str(fl), st)
    body = [x for x in d if x[0] != 'open']
    if any(x[0] == 'late' for x in body) or has(body, 'late'):
        R.ob('output goes to the open file', 'violated', 'output after the file is closed', st)
        return
    if any(x[0] == 'exit' for x in body): R.ob('writer returns', 'violated', str([x for x in body if x[0] == 'exit'][0])[:200], st)
    head = body[0][1] if body and body[0][0] == 'text' else ''
    rest = body[1:] if head else body
    loops = [x for x in rest if x[0] == 'loop']
    if len(loops) != 1 or len(rest) != 1:
        if not has(rest, 'val') or (not loops and all(x[0] in ('text', 'val') for x in rest)): R.ob('one row per element', 'violated', 'the writer outputs no rows over the elements', st)
        elif len(loops) == 1 and all(x[0] in ('loop', 'text') for x in rest): R.ob('nothing follows the rows', 'violated', 'text %r after the rows' % [x for x in rest if x[0] == 'text'][0][1], st)
        else: R.ob('one row per element', 'undecided', 'structure %s' % [x[0] for x in rest], st)
        return
    nest, row = flatten(rest)
    # rows
    if q in ('write', 'write_x_y_z'):
        ix, it, ip, c = point(g)
        c = c.add(sc if save else c_not(sc))
        idx = flat(g, ix, it, ip); total = g.N
    else:
        (a_, c0), = [J('ix', g.nx, ctx)]
        b_, c = J('il', g.nl, c0)
        idx = a_ * g.nl + b_; total = g.nx * g.nl
    N = ONE
    for k, n in nest: N = N * n
    R.eq('one row per element', N, total, ctx, st)
    sub, rem = {}, idx
    for k, n in reversed(nest):
        kk = rem if len(nest) == 1 or k is nest[0][0] else rem - n * c.sdiv(rem, n)
        sub[atom_of(k)] = A.simp(kk, c)
        rem = c.sdiv(rem, n) if k is not nest[0][0] else rem
    S = Subst(sub)
    Rv = elem(G_.PT, (ix,)) if q == 'write_x_y_z' else None
    pts = None
    if q == 'write': cols = [('value', elem(base('F'), (idx,)))]
    elif q == 'write_x_y_z':
        M.S.ctx = c
        th, ph = tabs_ang(g, it, ip)
        cols = [('x', Rv * T.fn('sin', th) * T.fn('cos', ph)), ('y', Rv * T.fn('sin', th) * T.fn('sin', ph)), ('z', Rv * T.fn('cos', th)), ('value', elem(base('F'), (idx,)))]
    else:
        s = elem(op('apsl' if q == 'write_R_psl' else 'nlcoef', 'real', base('F')), (idx,))
        first = elem(G_.PT, (a_,)) if q == 'write_R_psl' else a_
        cols = [('R' if q == 'write_R_psl' else 'n', first), ('l', b_), ('log', s)]
    if q == 'write_x_y_z':
        Fv = cols[3][1]
        want_if = [T.absv(Fv) - LIM[0], LIM[1] - T.absv(Fv)]
        sel_rows(R, g, q, cols, row, S, c, dec, st, save, head, Fv, Rv, LIM)
    else:
        inst = instantiate(row, c, dec, S)
        ps = paths(inst, c)
        for n_, (facts, doc) in enumerate(ps):
            with R.scope('path %d' % n_) if len(ps) > 1 else nullscope(): rowdoc(R, g, doc, cols, c.add(*facts), st, save, head, facts)
    R.incomplete(M); R.used(M)
class nullscope:
    def __enter__(s): return s
    def __exit__(s, *a): return False
def tabs_ang(g, it, ip):
    """polar and azimuthal coordinate of an angular point, from the grid's coordinate table"""
    th, ph = elem(base('thpt'), (it,)), elem(base('phpt'), (ip,))
    return th, ph
def has(d, kind):
    for x in d:
        if x[0] == kind: return True
        if x[0] == 'loop' and has(x[3], kind): return True
        if x[0] == 'if' and any(has(dd, kind) for _, dd in x[1]): return True
    return False
def rowdoc(R, g, doc, cols, c, st, save, head, facts=()):
    """one row: columns separated by commas, ended by a newline"""
    vals = [x for x in doc if x[0] == 'val']
    bad = [x for x in doc if x[0] not in ('val', 'text')]
    if bad: return R.ob('row format', 'undecided', str([x[0] for x in bad]), st)
    fmt = ''.join('\1' if x[0] == 'val' else x[1] for x in doc)
    if len(vals) != len(cols) and not any(tops(x[1]) for x in vals):
        return R.ob('row has %d columns' % len(cols), 'violated', 'the row is %r' % fmt.replace('\1', '<number>'), st)
    want = ','.join(['\1'] * len(cols)) + '\n'
    ok = fmt == want or fmt.replace(' ', '').replace('\t', '') == want
    R.ob('row format', 'proved' if ok else 'violated', 'the row is %r' % fmt.replace('\1', '<number>'), st)
    if save:
        ht = head[:-1] if head.endswith('\n') else None
        if ht is None or '\n' in ht: R.ob('header line', 'violated', 'header %r' % head, st)
        else:
            cells = [x.strip() for x in ht.split(',')]
            R.ob('header has one name per column', 'proved' if len(cells) == len(cols) and all(cells) else 'violated', 'header %r, %d columns' % (head, len(cols)), st)
            known = [n for n, _ in cols if n not in ('value', 'log')]
            for i, n in enumerate(cells):
                if n in ('R', 'n', 'l', 'x', 'y', 'z', 'value') and i < len(cols):
                    w = cols[i][0]
                    R.ob('header names column %d' % i, 'violated' if (n != w and not (n == 'value' and w == 'log')) else 'proved', 'column %r holds %s' % (n, w), st)
    else: R.ob('no header', 'proved' if not head else 'violated', repr(head), st)
    for i, (x, (n, w)) in enumerate(zip(vals, cols)):
        if x[2] == ('fixed',) or isinstance(x[2], int) and x[2] < 10 and not isint_t(x):
            R.ob('column %d keeps the digits of the value' % i, 'violated', 'printed with %s digits' % (x[2],) if x[2] != ('fixed',) else 'printed in fixed notation', st)
        if n != 'log':
            R.eq('column %d is %s' % (i, n), x[1], w, c, st); continue
        mp = T.mpm()
        pw = atom_of(w) if w.single() is not None else None
        if pw is None: R.ob('column %d is the logarithm of the spectrum' % i, 'undecided', clip(w), st); continue
        lo = [[(w, mp.mpf(z))] for z in ('0', '1e-300', '1e-18', '0.99e-16')]
        hi = [[(w, mp.mpf(z))] for z in ('1.01e-16', '1e-15', '1e-12', '1e-8', '0.01', '1', '1e7')]
        if facts:
            lo, hi = reached(facts, g, lo), reached(facts, g, hi)
            if lo is None or hi is None: R.ob('column %d is the logarithm of the spectrum' % i, 'undecided', 'guard not decided', st); continue
        idata.region(R, g, 'column %d above the floor' % i, x[1], P(T.fn('log', w) / T.fn('log', P(10))), c, hi, st)
        idata.region(R, g, 'column %d at the floor' % i, x[1], P(-16), c, lo, st)
def isint_t(x): return x[1].isint() and x[1].const() is not None or x[3] in ('int', 'unsigned long', 'long', 'unsigned int', 'size_t')

def sel_rows(R, g, q, cols, row, S, c, dec, st, save, head, Fv, Rv, lim):
    """rows selected by strict bounds on |value| and radius"""
    mp = T.mpm()
    inst = instantiate(row, c, dec, S)
    ps = paths(inst, c)
    vmin, vmax, rmin, rmax = lim
    th, ph = cols and tabs_ang_of(cols)
    IN, OUT = [], []
    def pt(vv, rr, a='0.1', b='2', c_='0.5', d='3', ang_=('0.7', '2.1')):
        return [(Fv, mp.mpf(vv)), (Rv, mp.mpf(rr)), (vmin, mp.mpf(a)), (vmax, mp.mpf(b)), (rmin, mp.mpf(c_)), (rmax, mp.mpf(d)), (th, mp.mpf(ang_[0])), (ph, mp.mpf(ang_[1]))]
    angs = [('0.7', '2.1'), ('2.9', '5.3'), ('1.3', '4.0')]
    for an in angs:
        for s in ('', '-'):
            for vv in ('0.1000001', '0.5', '1.99999'):
                for rr in ('0.500001', '1.5', '2.99999'): IN.append(pt(s + vv, rr, ang_=an))
            for vv in ('0.05', '0', '0.0999999', '2.000001', '7'): OUT.append(pt(s + vv, '1.5', ang_=an))
            for rr in ('0.1', '0.499999', '3.000001', '9'): OUT.append(pt(s + '0.5', rr, ang_=an))
        IN.append(pt('1e-9', '1.5', a='1e-10', ang_=an)); IN.append(pt('1e9', '900', b='1e10', d='1000', ang_=an))
        IN.append(pt('0.5', '0.001', c_='-1', ang_=an)); IN.append(pt('0.5', '1.5', a='-1', ang_=an)); IN.append(pt('0', '1.5', a='-1', ang_=an))
        IN.append(pt('-0.5', '0.501', ang_=an))
    # bounds exactly met are excluded (strict): with exact decimals and the radius along the axis
    for vv, rr in (('0.5', '1.5'),):
        OUT.append(pt(vv, rr, a='0.5')); OUT.append(pt('-' + vv, rr, b='0.5'))
    hit_in = hit_out = True
    for n_, (facts, doc) in enumerate(ps):
        rin, rout = reached(facts, g, IN), reached(facts, g, OUT)
        if rin is None or rout is None: R.ob('row selection', 'undecided', 'condition not decided %s' % clip_(facts), st); continue
        empty = not doc
        if empty:
            if rin: R.ob('rows inside the bounds are written', 'violated', 'no row for %s' % show(rin[0], lim, Fv, Rv), st); hit_in = False
            continue
        if rout: R.ob('rows outside the bounds are left out', 'violated', 'row written for %s' % show(rout[0], lim, Fv, Rv), st); hit_out = False
        if rin or rout:
            with R.scope('path %d' % n_) if len(ps) > 2 else nullscope(): rowdoc(R, g, doc, cols, c.add(*facts), st, save, head, facts)
    if hit_in: R.ob('rows inside the bounds are written', 'held', '%d sample positions' % len(IN), st)
    if hit_out: R.ob('rows outside the bounds are left out', 'held', '%d sample positions' % len(OUT), st)
def tabs_ang_of(cols):
    at_ = []
    T.walk_atoms(cols[0][1], lambda a: at_.append(a) if a.kind == 'elem' else None)
    th = [P(a) for a in at_ if 'thpt' in str(a)]; ph = [P(a) for a in at_ if 'phpt' in str(a)]
    return th[0], ph[0]
def gt0(p): return T.gt0(p)
def show(p, lim, Fv, Rv):
    n = {id(Fv): 'value', id(Rv): 'radius'}
    for l, k in zip(lim, ('vmin', 'vmax', 'rmin', 'rmax')): n[id(l)] = k
    return ', '.join('%s=%s' % (n[id(x)], T.mpm().nstr(v, 8)) for x, v in p if id(x) in n)

# ------------------------------------------------------------------ C31
def walk(ev):
    for e in ev:
        if e[0] == 'if':
            for _, t in e[1]: yield from walk(t)
        elif e[0] == 'loop': yield from walk(e[3])
        else: yield e
class Driver(Machine):
    """machine that hands the time-stepping loop of main to an inductive analysis"""
    hook = None
    def loop(self, node, cond, inc, body, par=None):
        if self.hook is not None and self.shallow == 0 and par is None:
            S0 = self.S
            mod, brk, ret = self.modified(S0, cond, inc, body)
            if mod is not None:
                pre = {l: self.havoc_val(l, S0.store[l], 'g') for l in mod}
                S = S0.copy(); S.ev = (); S.store.update(pre)
                old, self.shallow = self.shallow, 2
                try: c, S1, brk, ret = self.quiet(S, cond, inc, body)
                finally: self.shallow = old
                ss = [s for s in [S1] + list(brk) + [s for s, _ in ret] if s is not None]
                if any(e[0] == 'ts' for s in ss for e in walk(s.ev)):
                    h, self.hook = self.hook, None
                    h(self, S0, mod, pre, S1, brk, ret, lambda S: self.quiet(S, cond, inc, body), node)
                    return self.giveup(S0, mod, node, 'time-stepping loop', brk, ret)
        return super().loop(node, cond, inc, body, par)
TSS, NT = sym('par_t_step_save', True), sym('par_nt', True)
INIT = {'f': op('IDf', 'real', base('pulse')), 'p': op('IDp', 'real', base('pulse'))}
def driver_machine(cheb=True, ndebug=True):
    p = prog(cheb, True, ndebug)
    M = Driver(p)
    def params(M, obj, args, n):
        M.event('params', [M.ev(a) for a in args], M.line)
        q = M.opaque.pop('Params::Params')
        keep = dict(M.opaque)
        try: add_params(M, obj.loc)
        finally: M.opaque = keep; M.opaque['Params::Params'] = q
        M.S.ctx = M.S.ctx.add(ge0(TSS - 1), *[ge0(sym('par_' + x, True) - 1) for x in ('nx', 'nlat', 'nphi')])
    def ctor(M, obj, args, n):
        f = M.p.fn.get(n['fn']['usr'])
        v = []
        for x, a in zip(f['params'] if f else (), args):
            b = M.bind(x, a)
            v.append((x.get('name'), (M.read(b) if not M.is_repo_class(x['t']) else b.loc) if isinstance(b, LV) else b))
        M.event('ctor', n['fn']['q'], v, M.line)
        return VOID
    def sized(M, what, *ls):
        for l in ls:
            v = M.S.store.get(l.loc)
            if isinstance(v, Vec): M.event('size', what, v.size, M.line)
    def arr(l): return M.xnorm(M.S.store[l.loc].arr, M.S.store[l.loc].size)
    def put(l, a): M.S.store[l.loc] = Vec(M.S.store[l.loc].size, a, None)
    def pulse_(M, f, this, b):
        sized(M, 'initial data', b[2], b[3])
        put(b[2], INIT['f']); put(b[3], INIT['p']); return VOID
    def ts(M, f, this, b):
        fo, po = b[1].loc, b[2].loc
        fn, pn = (arr(LV(o + ('.n',))) for o in (fo, po))
        M.event('ts', fo, po, fn, pn, M.line)
        sized(M, 'time step', *[LV(l) for l in M.S.store if l[:-1] in (fo, po)])
        for o, nm in ((fo, 'TSf'), (po, 'TSp')):
            put(LV(o + ('.np1',)), op(nm, 'real', fn, pn))
            put(LV(o + ('.n',)), op('FILT', 'real', fn if o is fo else pn))
            for lv in ('k', 'l'): put(LV(o + ('.' + lv,)), op(nm + lv, 'real', fn, pn))
        return VOID
    def rho_(M, f, this, b):
        sized(M, 'energy density', b[3])
        put(b[3], op('RHO', 'real', arr(b[1]), arr(b[2]))); return VOID
    def csv(M, f, this, b):
        d = dict(name=None, num=None, arr=None)
        for x, l in zip(f['params'], b):
            t = x['t']
            if is_str_t(t): d['name'] = M.read(l)
            elif 'vector' in t: d['arr'] = arr(l)
            elif t in ('int', 'unsigned long', 'unsigned int', 'long'): d['num'] = M.read(l)
        M.event('csv', f['q'], d['name'], d['num'], d['arr'], M.line)
        sized(M, 'output', *[l for x, l in zip(f['params'], b) if 'vector' in x['t']])
        return VOID
    M.diag = {}
    def num(M, f, this, b):
        a = tuple(arr(l) if 'vector' in x['t'] else M.read(l) for x, l in zip(f['params'], b))
        sized(M, 'diagnostics', *[l for x, l in zip(f['params'], b) if 'vector' in x['t']])
        k = (f['q'], a)
        for v, k2 in M.diag.items():
            if k2 == k: return P(v)
        v = fresh('diag'); M.diag[atom_of(v)] = k
        return v
    M.opaque = {'Params::Params': params, 'Grid::Grid': ctor, 'Scalar_eom::Scalar_eom': ctor, 'ID::compact_pulse': binder_of(pulse_), 'Scalar_eom::time_step': binder_of(ts),
                'Scalar_eom::set_rho': binder_of(rho_), 'Grid::norm_indep_res': binder_of(num), 'Grid::total_variation': binder_of(num), 'Grid::norm_diff': binder_of(num)}
    for q, fs in p.byname.items():
        if q.startswith('Csv::write') and any('vector' in x['t'] for x in fs[0]['params']): M.opaque[q] = binder_of(csv)
    return p, M

def c31(R):
    R.rule = ('main interpreted with the numerical kernels uninterpreted; the time-stepping loop is decided by induction over the step number n = t_step_save*q + r (symbolic q), with the level each '
              'step starts from, the snapshot number and the arrays written as invariants, plus peeled iterations for concrete intervals as witnesses')
    for cheb in (True, False):
        with R.scope('Chebyshev' if cheb else 'finite differences'):
            p, M = driver_machine(cheb)
            f = pick(p, 'main')
            st = site(f)
            done = []
            M.hook = lambda *a: done.append(1) or mainloop(R, st, *a)
            argv = nloc('argv')
            M.S.store[argv] = I_.Lst((I_.Strv('prog'), I_.Strv(('arg', 1)), I_.Strv(('arg', 2))))
            try: M.call_fn(f, None, [M.bindv(f['params'][0], P(3)), M.bindv(f['params'][1], I_.Ptr(argv, ZERO))])
            except Dead: pass
            if not done: R.ob('time-stepping loop', 'undecided', 'no loop calls Scalar_eom::time_step', st)
            R.used(M)
def csvs(S): return [e for e in walk(S.ev) if e[0] == 'csv']
def kind_of(e):
    """which quantity a file is meant to hold, by its name"""
    n = e[2]
    if not isinstance(n, I_.Strv) or not n.p or not isinstance(n.p[-1], str): return None
    b = n.p[-1].split('/')[-1]
    return {'f': 'f', 'rho': 'rho', 'p': 'p'}.get(b)
def under_if(ev, e, ctx):
    """conditions the event sits under"""
    for x in ev:
        if x is e: return []
        if x[0] == 'if':
            for c, t in x[1]:
                r = under_if(t, e, ctx)
                if r is not None: return [c] + r
        if x[0] == 'loop':
            r = under_if(x[3], e, ctx)
            if r is not None: return ['loop'] + r
    return None
def snapshot(R, M, S, num, fa, pa, what, st, must=True):
    """the files of one snapshot: one of the field and one of the density, same number, newest level"""
    ok = True
    got = {}
    for e in csvs(S):
        cs = [c for c in under_if(S.ev, e, S.ctx)]
        if 'loop' in cs or any(decide(S.ctx, c) is not True for c in cs):
            if any(c != 'loop' and decide(S.ctx, c) is False for c in cs): continue
            R.ob('%s: writes' % what, 'undecided', 'write under a condition %s' % clip_(cs), st); return None
        got.setdefault(kind_of(e), []).append(e)
    if not must:
        n = sum(len(v) for v in got.values())
        R.ob('%s: nothing is written' % what, 'violated' if n else 'proved', 'file %s written at line %s' % next((e[2], e[5]) for v in got.values() for e in v) if n else '', st)
        return not n
    if None in got: R.ob('%s: file names' % what, 'undecided', str(got[None][0][2])[:200], st)
    for k, nm in (('f', 'field'), ('rho', 'energy density')):
        L = got.get(k, [])
        if not L:
            R.ob('%s: %s file is written' % (what, nm), 'undecided' if None in got else 'violated', 'files written: %s' % [e[2] for v in got.values() for e in v], st); ok = False; continue
        R.ob('%s: %s file is written' % (what, nm), 'proved', '', st)
        want = fa if k == 'f' else op('RHO', 'real', fa, pa)
        for e in L:
            R.ob('%s: %s file holds the newest level' % (what, nm), 'proved' if e[4] is want else 'violated' if concrete(e[4]) else 'undecided', 'line %s writes %s, required %s' % (e[5], clip(e[4]), clip(want)), st)
            R.eq('%s: number of the %s file' % (what, nm), e[3], P(num), S.ctx, st)
            ok = ok and e[4] is want
    return ok
def concrete(a):
    """array term built from the known operations only"""
    if a is None: return False
    if a.k == 'op': return all(concrete(x) for x in a.a[1:] if isinstance(x, A.Arr))
    return a.k in ('base', 'fill')
class Induct:
    """abstract states at the head of the time-stepping loop, by the number of steps done"""
    def __init__(s, R, S0, mod, pre, S1, run):
        # step counters: locations that change by a constant per iteration
        isnum_ = lambda l: isinstance(pre[l], Poly) and pre[l].isint() and isinstance(S0.store[l], Poly)
        isint_ = lambda l: isnum_(l) and S0.store[l].const() is not None
        step = lambda l: (S1.store[l] - pre[l]).const() if isinstance(S1.store.get(l), Poly) else None
        s.S0, s.pre = S0, pre
        s.cnt = {l: step(l) for l in mod if isnum_(l) and step(l) not in (None, 0)}
        cand = [l for l in mod if l not in s.cnt and isnum_(l) and not isinstance(S1.store.get(l), type(None))]
        s.q = q = fresh('q', True)
        s.r = fresh('r', True)
        # each other integer: number of completed intervals, position inside the interval (up or down), or unknown
        def bad(keep):
            s.keep, out = keep, set()
            for nm, S, qn, must in s.runs():
                c, Sx, b, rr = run(S)
                if Sx is None: continue
                for l, m in keep.items():
                    v = Sx.store.get(l)
                    w = S0.store[l] + (qn if m == 'q' else TSS * qn if m == 't' else P(0) if must else P(m) * (s.r + 1))
                    if not isinstance(v, Poly) or R.eqval(v, w, Sx.ctx)[0] not in ('proved', 'held'): out.add(l)
            return out
        keep = {l: 'q' for l in cand if isint_(l)}
        first = dict(keep)
        while True:
            x = bad(keep)
            if not x: break
            keep = {l: m for l, m in keep.items() if l not in x}
        if len(keep) < len(cand) and len(cand) <= 3:
            import itertools
            for ms in sorted(itertools.product(('q', 't', 1, -1, None), repeat=len(cand)), key=lambda t: t.count(None)):
                if sum(m is not None for m in ms) <= len(keep): break
                k2 = {l: m for l, m in zip(cand, ms) if m is not None}
                if not bad(k2): keep = k2; break
        s.keep = keep
        R.add('invariants', len(s.cnt) + len(s.keep))
    def state(s, k, extra, qv, pos):
        S = s.S0.copy(); S.ev = ()
        S.store.update(s.pre)
        S.ctx = S.ctx.add(ge0(s.q), *extra)
        for l, d in s.cnt.items(): S.store[l] = s.S0.store[l] + P(d) * k
        for l, m in s.keep.items(): S.store[l] = s.S0.store[l] + (qv if m == 'q' else TSS * qv if m == 't' else P(m) * pos)
        return S
    def runs(s):
        q, r = s.q, s.r
        return [('step that completes an interval', s.state(TSS * q + TSS - 1, (), q, TSS - 1), q + 1, True), ('other steps', s.state(TSS * q + r, (ge0(r), ge0(TSS - 2 - r)), q, r), q, False)]
def mainloop(R, st, M, S0, mod, pre, S1, brk, ret, run, node):
    # snapshot 0 and the initial levels
    entry = S0
    snapshot(R, M, S0, 0, INIT['f'], INIT['p'], 'snapshot 0', st)
    if any(e[0] == 'ts' for e in walk(S0.ev)): R.ob('no step before snapshot 0', 'violated' if all(x[0] != 'if' for x in S0.ev) else 'undecided', '', st)
    tse = [e for e in walk(S1.ev) if e[0] == 'ts'] if S1 is not None else []
    if len(tse) != 1 or S1 is None or any(e in [x for y in S1.ev if y[0] in ('if', 'loop') for x in walk((y,))] for e in tse):
        R.ob('one time step per iteration', 'undecided', '%d step calls' % len(tse), st)
        peeled(R, M, S0, mod, run, st, None)
        return
    _, fo, po, X, Y, line = tse[0]
    runs = Induct(R, S0, mod, pre, S1, run).runs
    for nm, S, qn, must in runs():
        c, Sx, b, rr = run(S)
        if Sx is None: R.ob(nm + ': iteration analysed', 'undecided', '', st); continue
        t = [e for e in walk(Sx.ev) if e[0] == 'ts']
        if len(t) != 1: R.ob(nm + ': one time step', 'undecided', '', st); continue
        _, f1, p1, X, Y, line = t[0]
        Fa, Pa = op('TSf', 'real', X, Y), op('TSp', 'real', X, Y)
        for who, o, x, new in (('field', f1, X, Fa), ('momentum', p1, Y, Pa)):
            src = [l for l in mod if isinstance(pre[l], Vec) and S.store[l].arr is x]
            if not src:
                unch = [l for l in S0.store if isinstance(S0.store[l], Vec) and l not in mod and S0.store[l].arr is x]
                R.ob('%s: %s steps from the previous level' % (nm, who), 'violated' if x is INIT['f'] or x is INIT['p'] else 'undecided', 'the step reads %s' % clip(x), st); continue
            l = src[0]
            v = Sx.store.get(l)
            if isinstance(v, Vec): v = Vec(v.size, M.xnorm(v.arr, v.size), None)
            good = isinstance(v, Vec) and v.arr is new
            R.ob('%s: the next step of the %s starts from the level just produced' % (nm, who), 'proved' if good else 'violated' if isinstance(v, Vec) and concrete(v.arr) else 'undecided',
                 'level read by the step (%s) becomes %s, required %s' % (l[-1], clip(v.arr) if isinstance(v, Vec) else v, clip(new)), st)
            want0 = INIT['f' if who == 'field' else 'p']
            v0 = S0.store[l]
            R.ob('%s: the first step of the %s starts from the initial data' % (nm, who), 'proved' if v0.arr is want0 else 'violated' if concrete(v0.arr) else 'undecided', clip(v0.arr), st)
        # writes placed before the step in the body see the previous level: decided by the peeled iterations
        snapshot(R, M, Sx, qn, Fa, Pa, nm, st, must)
    peeled(R, M, S0, mod, run, st, 1)
def peeled(R, M, S0, mod, run, st, _):
    """first iterations for concrete save intervals"""
    ok = True
    bad = []
    for tss in (1, 2, 3):
        sub = Subst({atom_of(TSS): P(tss), atom_of(NT): P(1000)})
        S = S0.copy(); S.ev = ()
        for l, v in list(S.store.items()):
            if isinstance(v, (Poly, Cond)): S.store[l] = sub.any(v)
        S.ctx = M.S.ctx.add(eq0(TSS - tss), eq0(NT - 1000)) if False else S.ctx
        fa, pa = INIT['f'], INIT['p']
        steps = 0
        for it in range(7):
            S.ev = ()
            c, S1, b, rr = run(S)
            if S1 is None or b or rr: ok = False; break
            fresh_ = []
            for e in S1.ev:
                L = [e]
                if e[0] == 'if':
                    live = [t for c_, t in e[1] if decide(S1.ctx, c_) is not False]
                    if len(live) != 1: ok = False; break
                    L = list(walk(live[0]))
                elif e[0] == 'loop': L = list(walk(e[3]))
                for x in L:
                    if x[0] == 'ts':
                        steps += 1
                        if (x[3] is not fa or x[4] is not pa) and concrete(x[3]) and concrete(x[4]): bad.append('interval %d, step %d reads %s, %s instead of the previous level' % (tss, steps, clip(x[3], 60), clip(x[4], 60)))
                        fa, pa = op('TSf', 'real', x[3], x[4]), op('TSp', 'real', x[3], x[4])
                    if x[0] == 'csv':
                        fresh_.append((x, steps))
                        n = x[3].const() if isinstance(x[3], Poly) else None
                        if n is None: ok = False; continue
                        if n * tss != steps: bad.append('interval %d: file %s number %s written at step %d' % (tss, x[2], n, steps))
                        k = kind_of(x)
                        w = {'f': fa, 'p': pa, 'rho': op('RHO', 'real', fa, pa)}.get(k)
                        if w is not None and x[4] is not w and concrete(x[4]): bad.append('interval %d, step %d: %s file holds %s, required %s' % (tss, steps, k, clip(x[4], 80), clip(w, 80)))
            if not ok: break
            if steps % tss == 0 and steps:
                ks = {kind_of(x) for x, s in fresh_ if s == steps}
                if not {'f', 'rho'} <= ks and None not in ks and steps <= 6: bad.append('interval %d, step %d: files written %s' % (tss, steps, sorted(ks)))
            S = S1
    if bad: R.ob('first iterations for intervals 1 to 3', 'violated', bad[0], st)
    else: R.ob('first iterations for intervals 1 to 3', 'proved' if ok else 'undecided', '', st)
