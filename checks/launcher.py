"""C28, C29, C32: launcher and build scripts (Python and Makefile syntax)."""
import os, itertools
from lab import *
import arrays as A
import terms as T
import pyast as Y
from pyast import N, SStr, Unk, Obj, Cls, PyI, Bound, Fn
import minimake
from load import REPO
from spectral import atom_of

def path(f): return os.path.join(REPO, f)
SIMF = 'sim_class.py'
SYMS = dict(black_hole_mass='float', black_hole_spin='float', compactification_length='float', nx='int', nlat='int', nphi='int', nl='int', nm='int',
            cfl='float', rl_0='float', ru_0='float', evolve_time='float', num_saved_times='int')
def symb(k, t): return sym('py_' + k, t == 'int')
def lctx():
    g = lambda k: symb(k, SYMS[k])
    c = Ctx().add(gt0r(g('black_hole_mass')), gt0r(g('compactification_length')), gt0r(g('evolve_time')), gt0r(g('cfl')))
    return c.add(ge0(g('nx') - 8), ge0(g('nlat') - 2), ge0(g('nphi') - 2), ge0(g('num_saved_times') - 1), ge0(g('black_hole_mass') - g('black_hole_spin')), ge0(g('black_hole_mass') + g('black_hole_spin')))
def method_line(m):
    return '%s:%s %s' % (SIMF, m.node.lineno, m.name) if isinstance(m, Fn) else SIMF
def newsim(I, attrs):
    I.files = {'sim_class': path(SIMF)}
    c = Y.sim_class(I, REPO)
    if c is None: raise load.Missing('class Sim not found in sim_class.py')
    o = I.call(c, [], {}, None)
    for k, t in SYMS.items(): o.at[k] = N(symb(k, t), t)
    o.at.update(attrs)
    return o
def derive(attrs):
    """all traces of set_derived_params on symbolic attributes: [(interpreter, object)]"""
    out = []
    def run(ch):
        I = PyI(ch)
        I.o = newsim(I, attrs)
        f = I.o.cls.find('set_derived_params')
        if f is None: raise load.Missing('Sim.set_derived_params not found')
        I.f = f
        I.err = None
        try: I.call(Bound(f, I.o), [], {}, None)
        except Y.Raised as e: I.err = e
        except (Y.Stop, Y.Exit) as e: I.err = e
        return I
    return Y.traces(run)

def compactification(R, r, cl):
    """launcher map r -> R as a term in r, cl; None if not found"""
    I = PyI()
    o = newsim(I, {'compactification_length': N(cl, 'float')})
    f = o.cls.find('compactification')
    if f is None: return None
    v = I.call(Bound(f, o), [N(r, 'float')], {}, None)
    R.trusted.append('Python abstract interpreter lib/pyast.py')
    return Y.num(v) if Y.isnum(v) else None

def facts(I): return [q for q in I.pc if isinstance(q, Cond)]

def c29(R):
    R.rule = ('Sim.set_derived_params interpreted on symbolic attributes (Python syntax tree); every derived attribute compared with its formula on every trace')
    R.trusted.append('Python abstract interpreter lib/pyast.py')
    g = lambda k: symb(k, SYMS[k])
    M_, a = g('black_hole_mass'), g('black_hole_spin')
    hor = M_ + T.sqrt(M_ * M_ - a * a)
    cl = g('compactification_length')
    for cheb in (True, False):
        for I in derive({'use_cheb': cheb}):
            c = lctx()
            for q in facts(I): c = c.add(q)
            if c.infeasible(): continue
            st = method_line(I.f)
            with R.scope('Chebyshev' if cheb else 'finite differences'):
                if I.err is not None:
                    R.ob('parameters are derived', 'violated' if isinstance(I.err, Y.Raised) and not I.notes and not any(isinstance(q, tuple) for q in I.pc) else 'undecided', 'ends with %s %s' % (type(I.err).__name__, getattr(I.err, 'v', '')), st); continue
                R.fns.add(st)
                at = I.o.at
                six = lambda L: 6 * T.power(_mx(L), -2)
                ang = six([g('nlat'), g('nphi')])
                dt = six([g('nx'), g('nlat'), g('nphi')]) if cheb else T.pmin(ang, g('cfl') / (g('nx') - 1))
                nt = T.mkpoly({}) + P(atom('fn', 'trunc', g('evolve_time') * M_ / dt, isint=True))
                got_nt = Y.num(at['nt']) if Y.isnum(at.get('nt')) else nt
                sv = P(atom('fn', 'trunc', got_nt / g('num_saved_times'), isint=True))
                save = ite(ge0(sv - 1), sv, ONE)
                got_dt = Y.num(at['dt']) if Y.isnum(at.get('dt')) else dt
                nt2 = P(atom('fn', 'trunc', g('evolve_time') * M_ / got_dt, isint=True))
                cpos = c.add(ge0(got_nt)) 
                for k, w, cc in (('horizon', hor, c), ('Rmin', hor / (1 + hor / cl), c), ('Rmax', cl, c), ('rl', hor * g('rl_0'), c), ('ru', hor * g('ru_0'), c),
                             ('dt', dt, c), ('nt', nt2, c), ('t_step_save', save, cpos)):
                    v = at.get(k)
                    if v is None and k == 'horizon': continue
                    if v is None:
                        R.ob('%s is set' % k, 'violated', 'attribute %s is never assigned' % k, st); continue
                    if not Y.isnum(v):
                        R.ob('%s has its documented value' % k, 'undecided', repr(v), st); continue
                    numeq(R, '%s has its documented value' % k, Y.num(v), w, cc, st)
                for k in ('nt', 't_step_save'):
                    v = at.get(k)
                    if Y.isnum(v): R.ob('%s is an integer' % k, 'proved' if Y.ty(v) == 'int' else 'undecided', repr(v), st)
                for n in I.notes: R.skipped.append(n)

def _mx(L):
    r = L[0]
    for x in L[1:]: r = T.pmax(r, x)
    return r

def numeq(R, name, got, want, ctx, st):
    """equality of launcher numbers: normal form, otherwise agreement at sampled admissible parameters"""
    if T.same(got, want): return R.ob(name, 'proved', '', st)
    import random, math
    rnd = random.Random(R.seed * 7 + 1)
    n = 0
    ids = {}
    for t in range(600):
        v = {}
        m = rnd.uniform(.3, 3)
        vals = dict(black_hole_mass=m, black_hole_spin=rnd.choice([0.0, m, -m, .999 * m, rnd.uniform(-m, m)]), compactification_length=rnd.uniform(2, 40), nx=rnd.choice([rnd.randint(8, 40), rnd.randint(100, 9000)]),
                    nlat=rnd.choice([rnd.randint(2, 40), rnd.randint(40, 200)]), nphi=rnd.choice([rnd.randint(2, 40), rnd.randint(40, 200)]), nl=rnd.randint(1, 30), nm=rnd.randint(1, 30), cfl=rnd.uniform(.05, 1), rl_0=rnd.uniform(-2, 2), ru_0=rnd.uniform(1, 5),
                    evolve_time=rnd.choice([rnd.uniform(.001, 2), rnd.uniform(1, 900)]), num_saved_times=rnd.choice([rnd.randint(1, 20), rnd.randint(1, 5000)]))
        for k, x in vals.items(): v[atom_of(symb(k, SYMS[k])).id] = x
        e = T.Num(t, v)
        try:
            if not all(e.cond(q) for q in ctx.facts): continue
            x, y = e.poly(got), e.poly(want)
        except (T.NoValue, ZeroDivisionError, OverflowError, KeyError): continue
        if isinstance(x, complex) or isinstance(y, complex): continue
        n += 1
        if abs(x - y) > 1e-7 * max(1e-12, abs(x), abs(y)) and not (abs(x - y) <= 1 and got.isint() and frac_edge(e, want)):
            return R.ob(name, 'violated', 'launcher computes %s, required %s; %s vs %s at %s' % (got, want, x, y, {k: q for k, q in vals.items()}), st)
    return R.ob(name, 'held' if n >= 30 else 'undecided', 'agreement at %d sampled configurations' % n, st)
def frac_edge(e, w):
    """true when the truncated quantity is within rounding of an integer"""
    bad = [False]
    def f(a):
        if a.kind == 'fn' and a.args[0] in ('trunc', 'floor'):
            try: x = e.poly(a.args[1]); bad[0] |= abs(x - round(x)) < 1e-6
            except Exception: pass
    T.walk_atoms(w, f)
    return bad[0]

# ------------------------------------------------------------------ C28
def solver_keys(R):
    """(key, conversion) pairs the solver looks up, from the Params constructor"""
    import params_check
    return params_check.lookups(R)

def norm(s):
    """flattened string parts"""
    return Y.mkstr(Y.parts(s)) if isinstance(s, (str, SStr)) else s
def reps(v): return repr([(x if isinstance(x, str) else (('N', str(x[0].p)) if isinstance(x[0], N) else (x[0] if isinstance(x[0], str) else (id(x[0]), )), x[1])) for x in Y.parts(v)]) if isinstance(v, (str, SStr)) else repr(v)
def join(cwd, p):
    if isinstance(p, str) and p.startswith('/'): return norm(p)
    if isinstance(p, SStr) and (isinstance(p.parts[0], tuple) and p.parts[0][0] == 'CWD' or isinstance(p.parts[0], str) and p.parts[0].startswith('/')): return norm(p)
    q = Y.parts(p)
    while q and isinstance(q[0], str) and q[0].startswith('./'): q = [q[0][2:]] + q[1:]
    if q in ([], ['.'], ['']): return base_of(cwd)
    return norm(Y.mkstr(Y.parts(base_of(cwd)) + ['/'] + q))
def base_of(cwd): 
    if cwd == 'CWD': return SStr([('CWD', '$')])
    if isinstance(cwd, (str, SStr)):
        ps = Y.parts(cwd)
        if isinstance(ps[-1], str) and ps[-1].endswith('/') and len(ps[-1]) > 1: ps = ps[:-1] + [ps[-1][:-1]]
        s = Y.mkstr(ps)
        if isinstance(s, SStr) and isinstance(s.parts[0], str) and not s.parts[0].startswith('/') or isinstance(s, str) and not s.startswith('/'):
            return norm(Y.mkstr([('CWD', '$'), '/'] + Y.parts(s)))
        return s
    return cwd
def words(cmd):
    """splits a command into words (lists of parts)"""
    out, cur = [], []
    for p in Y.parts(cmd):
        if isinstance(p, tuple): cur.append(p); continue
        ws = p.replace('\t', ' ').split(' ')
        for i, w in enumerate(ws):
            if i and cur: out.append(Y.mkstr(cur)); cur = []
            if w: cur.append(w)
    if cur: out.append(Y.mkstr(cur))
    return out
def lines(parts_):
    out, cur = [], []
    for p in parts_:
        if isinstance(p, tuple): cur.append(p); continue
        ls = p.split('\n')
        for i, l in enumerate(ls):
            if i: out.append(Y.mkstr(cur)); cur = []
            if l: cur.append(l)
    if cur: out.append(Y.mkstr(cur))
    return out

def launches(I, binname):
    """solver starts: (event index, command words, cwd)"""
    out, written, opened = [], {}, {}
    for i, e in enumerate(I.ev):
        if e[0] == 'open': opened[e[1]] = (join(e[4], e[2]), e[3]); written[e[1]] = []
        elif e[0] == 'write': written.setdefault(e[1], []).extend(Y.parts(e[2]))
        elif e[0] == 'cmd':
            w = words(e[1])
            here = e[2]
            while len(w) > 3 and w[0] == 'cd' and w[2] in ('&&', ';'): here, w = join(here, w[1]), w[3:]
            if w and w[0] == 'sbatch':
                scr = [x for x in w[1:] if not (isinstance(x, str) and x.startswith('-'))]
                if not scr: continue
                p = join(here, scr[0])
                ks = [k for k, (q, m) in opened.items() if reps(q) == reps(p)]
                if not ks: out.append((i, None, here, 'job script %s is not written by the launcher' % (p,))); continue
                ok = any(x[0] == 'close' and x[1] == ks[-1] for x in I.ev[:i])
                if not ok: out.append((i, None, here, 'job script is submitted before it is closed')); continue
                n = 0
                for l in lines(written[ks[-1]]):
                    ws = words(l)
                    j = starts(ws, binname)
                    if j is not None: out.append((i, ws[j:], here, None)); n += 1
                if n == 0: out.append((i, None, here, 'the job script does not start the solver'))
            else:
                j = starts(w, binname)
                if j is not None: out.append((i, w[j:], here, None))
    return out
def starts(ws, binname):
    for j, w in enumerate(ws):
        if isinstance(w, str) and w.split('/')[-1] == binname:
            if j and any(isinstance(x, str) and x in ('chmod', 'make', 'cp', 'mv', 'ls', 'rm', 'ln', '755', '+x') or (isinstance(x, str) and x.startswith('#')) for x in ws[:j]): return None
            return j
    return None

CONFIGS = [dict(use_cheb=a, computer=b, recompile=c, output_dir=d, time_it=e) for a in (True, False) for b in ('home', 'cluster') for c in (True, False) for d in (None, '/run1') for e in (True, False)]
def template_runs(cfg):
    """traces of the run script with the given configuration flags and symbolic numbers"""
    tp = path('runscript_template.py')
    def hook(k, v): return lambda old: v
    ov = {k: hook(k, v) for k, v in cfg.items()}
    class H(dict):
        def get(s, k, d=None):
            if s.on and k in ov: return ov[k]
            def h(v):
                if isinstance(v, bool): return v
                if isinstance(v, (int, float)): return N(sym('cfg_' + k, isinstance(v, int)), 'int' if isinstance(v, int) else 'float')
                return v
            return h if s.on else d
    def run(ch):
        I = PyI(ch, files={'sim_class': path(SIMF)})
        I.attrhook = H(); I.attrhook.on = True
        real = I.callfn
        def callfn(f, args, kw, n):       # numbers assigned inside the class are computed values: keep them
            old = I.attrhook.on; I.attrhook.on = False
            try: return real(f, args, kw, n)
            finally: I.attrhook.on = old
        I.callfn = callfn
        I.err = None
        try: I.module(tp)
        except Y.Raised as e: I.err = e
        except (Y.Stop, Y.Exit) as e: I.err = e
        I.sim = next((v for v in I.mods.get('__main__', {}).values() if isinstance(v, Obj)), None)
        return I
    return Y.traces(run, 16)

def c28(R):
    R.rule = ('run-script template and Sim interpreted over all configuration flags with symbolic numbers; the text of the parameter file is reconstructed and, for each key '
              'the solver looks up (read from the Params constructor), its line, format, file name, directory and order relative to the start of the solver are checked')
    R.trusted.append('Python abstract interpreter lib/pyast.py')
    keys = solver_keys(R)
    R.add('keys read by the solver', len(keys))
    cfgs = CONFIGS if R.tier == 'thorough' else [c for c in CONFIGS if c['time_it'] or c['computer'] == 'home']
    for cfg in cfgs:
        nm = ', '.join('%s=%s' % kv for kv in sorted(cfg.items(), key=str))
        for I in template_runs(cfg):
            R.add('traces')
            unk = any(isinstance(q, tuple) for q in I.pc)
            with R.scope(nm):
                if I.err is not None:
                    v = str(getattr(I.err, 'v', ''))
                    R.ob('run script completes', 'violated' if not unk and not I.notes and v.startswith(('AttributeError', 'NameError', 'TypeError: missing', 'TypeError: arg')) else 'undecided', '%s %s' % (type(I.err).__name__, v), SIMF); continue
                c28_trace(R, I, keys, unk)
            for n in I.notes:
                if n not in R.skipped: R.skipped.append(n)
def c28_trace(R, I, keys, unk):
    bad = 'undecided' if unk or I.notes else 'violated'
    sim = I.sim
    binname = sim.at.get('bin_name') if sim else None
    L = launches(I, binname)
    f = sim.cls.find('launch_run') if sim else None
    st = method_line(f)
    if not L:
        R.ob('the solver is started', bad, 'no command starts %s' % binname, st); return
    for i, ws, cwd, err in L:
        if err: R.ob('the solver is started', bad, err, st); continue
        R.ob('the solver is started', 'proved', '', st)
        args = []
        for w in ws[1:]:
            if isinstance(w, str) and (w in ('|', '>', '>>', '2>&1', '&', '&&', ';', '<') or w[:1] in '|>&'): break
            if isinstance(w, str) and w[0:2] == '2>': break
            args.append(w)
        if len(args) != 2:
            R.ob('solver gets parameter file and output directory', bad, 'arguments %s' % (args,), st); continue
        pf = join(cwd, args[0]); od = join(cwd, args[1])
        want = sim.at.get('output_dir')
        R.ob('solver gets parameter file and output directory', 'proved', '', st)
        R.ob('the output directory passed is the run directory', 'proved' if reps(od) == reps(base_of(want)) else bad, '%s vs %s' % (od, want), st)
        ks = [(j, e) for j, e in enumerate(I.ev[:i]) if e[0] == 'open' and reps(join(e[4], e[2])) == reps(pf) and isinstance(e[3], str) and e[3][0] in 'wax']
        if not ks:
            late = [e for e in I.ev[i:] if e[0] == 'open' and reps(join(e[4], e[2])) == reps(pf)]
            R.ob('the parameter file is written before the solver starts', bad, 'file %s %s' % (pf, 'is written after the solver was started' if late else 'is never written'), st); continue
        j, e = ks[-1]
        if e[3][0] != 'a': ks = ks[-1:]
        ids = [x[1][1] for x in ks]
        closed = all(any(x[0] == 'close' and x[1] == k for x in I.ev[:i]) for k in ids)
        R.ob('the parameter file is written before the solver starts', 'proved' if closed else bad, '' if closed else 'the file is still open (buffered) when the solver starts', st)
        content = [p for x in I.ev[:i] if x[0] == 'write' and x[1] in ids for p in Y.parts(x[2])]
        ls = lines(content)
        w = I.o_site if hasattr(I, 'o_site') else method_line(sim.cls.find('write_sim_params'))
        for key, conv in keys:
            c28_line(R, key, conv, ls, w, bad)
def c28_line(R, key, conv, ls, st, bad):
    nm = "a line for '%s'" % key
    for l in ls:
        ps = Y.parts(l)
        if isinstance(ps[0], str) and (ps[0] == key or ps[0].startswith(key + ' ')):
            rest = [ps[0][len(key):]] + ps[1:]
            if not rest[0].startswith(' '): 
                return R.ob(nm, bad, 'key and value are not separated by a blank: %r' % (l,), st)
            txt = [rest[0].lstrip()] + rest[1:]
            txt = [x for x in txt if x != '']
            if not txt: return R.ob(nm, bad, 'no value', st)
            if conv == 'str':
                ok = all(isinstance(x, str) and not any(ch.isspace() for ch in x.strip()) for x in txt)
                return R.ob(nm, 'proved' if ok else 'undecided', repr(l), st)
            v = txt[0]
            if isinstance(v, str):
                import re
                num = re.match(r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?(\s|$)' if conv != 'stoi' else r'[-+]?\d+(\s|$|\.)', v)
                return R.ob(nm, 'proved' if num else bad, 'value %r' % v, st)
            x, spec = v
            if not isinstance(x, N): return R.ob(nm, 'undecided', repr(x), st)
            if spec:
                import re
                m = re.fullmatch(r'[<>=^+ -]?\d*\.(\d+)([eg])', spec)
                ok = m and int(m.group(1)) >= 15
                return R.ob(nm, 'proved' if ok else bad, 'value printed with format %r loses precision' % spec, st)
            if conv == 'stoi' and x.ty != 'int': return R.ob(nm, 'undecided', 'integer parameter written from a float', st)
            return R.ob(nm, 'proved', '', st)
    R.ob(nm, bad, "the parameter file has no line for '%s'" % key, st)

# ------------------------------------------------------------------ C32
def use_cheb(flags):
    on = False
    for f in flags:
        if f.startswith('-DUSE_CHEB'):
            v = f[len('-DUSE_CHEB'):]
            on = v in ('', '=1', '=true') or (v.startswith('=') and v[1:].isdigit() and int(v[1:]) != 0)
        if f == '-UUSE_CHEB': on = False
    return on
def judge(R, what, B, expected, st, stale):
    """expected: {executable: cheb?}; all links seen so far"""
    last = {}
    for l in B.links: last[os.path.basename(l[0])] = l
    seq = B.links
    for exe, cheb in expected.items():
        nm = '%s: %s %s' % (what, exe, '(stale objects present)' if stale else '(clean tree)')
        bad = 'undecided' if B.notes else 'violated'
        l = last.get(exe)
        if l is None: R.ob(nm, bad, 'no command links %s; linked: %s' % (exe, [os.path.basename(x[0]) for x in seq]), st); continue
        if os.path.basename(os.path.dirname(l[0])) != 'Bin': R.ob(nm, bad, 'linked as %s' % l[0], st); continue
        msg = []
        for o, r in l[1]:
            if r is None: msg.append('%s does not exist' % os.path.basename(o))
            elif r[0] == 'stale': msg.append('%s left over from an earlier build' % os.path.basename(o))
            elif use_cheb(r[1]) != cheb: msg.append('%s compiled %s -DUSE_CHEB' % (os.path.basename(o), 'without' if cheb else 'with'))
        if not l[1]: msg.append('no objects')
        R.ob(nm, bad if msg else 'proved', '; '.join(msg[:6]), st)

def pycmds(I): return [(e[1], e[2]) for e in I.ev if e[0] == 'cmd']
def simulate(cmds, stale):
    B = minimake.Build(REPO, stale)
    for c, cwd in cmds:
        if isinstance(c, SStr) and len(c.parts) and all(isinstance(x, str) or not isinstance(x[0], Unk) for x in c.parts): c = ''.join(x if isinstance(x, str) else '?' for x in c.parts)
        if not isinstance(c, str): B.note('command %r' % (c,)); continue
        try: B.shell(c, REPO if cwd == 'CWD' or not isinstance(cwd, str) else os.path.normpath(os.path.join(REPO, cwd)))
        except minimake.Unsupported as e:
            if not str(e).startswith('no rule'): raise
    return B
def c32(R):
    R.rule = ('build command sequences of config.py and of the launcher extracted from the Python syntax trees and evaluated against the Makefiles with an abstract file state '
              '(objects absent, or left over with unknown options); every object in the link of each executable must have been compiled with that variant\'s option')
    R.trusted += ['Python abstract interpreter lib/pyast.py', 'Makefile evaluator lib/minimake.py']
    EXE = {'default_cheb.run': True, 'default_fd.run': False}
    for dbg, prof in (('', ''), ('true', ''), ('', 'true')):
        def run(ch):
            I = PyI(ch, files={'sim_class': path(SIMF)})
            I.attrhook = {'debug': lambda o: dbg, 'profile': lambda o: prof}
            I.err = None
            try: I.module(path('config.py'))
            except (Y.Raised, Y.Stop, Y.Exit) as e: I.err = e
            return I
        for I in Y.traces(run, 16):
            for stale in (True, False):
                try: B = simulate(pycmds(I), stale)
                except (minimake.Unsupported, RecursionError) as e:
                    R.ob('config.py debug=%r profile=%r' % (dbg, prof), 'undecided', str(e), 'config.py'); continue
                if I.notes or any(isinstance(q, tuple) for q in I.pc): B.notes += I.notes or ['branch on an unknown value']
                judge(R, 'config.py debug=%r profile=%r' % (dbg, prof), B, EXE, 'config.py', stale)
                R.add('commands', len(pycmds(I)))
                R.skipped += [x for x in B.notes if x not in R.skipped]
    for cheb in (True, False):
        exe = 'default_cheb.run' if cheb else 'default_fd.run'
        for I in template_runs(dict(use_cheb=cheb, computer='home', recompile=True, output_dir=None, time_it=True)):
            cmds = []
            cp = None
            for e in I.ev:
                if e[0] == 'copy': cp = e; break
                if e[0] == 'cmd': cmds.append((e[1], e[2]))
            f = I.sim.cls.find('then_recompile') if I.sim else None
            for stale in (True, False):
                try: B = simulate(cmds, stale)
                except (minimake.Unsupported, RecursionError) as e:
                    R.ob('launcher recompilation of %s' % exe, 'violated' if 'no rule' in str(e) and not I.notes else 'undecided', str(e), method_line(f)); continue
                if I.notes or I.err or any(isinstance(q, tuple) for q in I.pc): B.notes += I.notes or ['run script not followed to the end']
                judge(R, 'launcher recompilation', B, {exe: cheb}, method_line(f), stale)
                R.add('commands', len(cmds))
    # building a single variant by hand from a clean tree
    for cheb in (True, False):
        exe = 'default_cheb.run' if cheb else 'default_fd.run'
        for extra in ('', ' debug=true', ' use_contiguous_longitudes=true'):
            try: B = simulate([('make' + (' use_cheb=true' if cheb else '') + extra, 'CWD')], False)
            except (minimake.Unsupported, RecursionError) as e:
                R.ob('make%s' % extra, 'undecided', str(e), 'Makefile'); continue
            judge(R, 'make%s' % extra, B, {exe: cheb}, 'Source/Makefile', False)

# ------------------------------------------------------------------ C34
def dirjoin(a, b): return norm(Y.mkstr(Y.parts(a) + ['/'] + Y.parts(b)))
def exec_changes(I, i):
    """paths made executable before event i (job script lines included)"""
    out = []
    written, opened = {}, {}
    for k, e in enumerate(I.ev[:i + 1]):
        if e[0] == 'chmod': out.append(join(e[3], e[1]))
        elif e[0] == 'copy' and e[4] != 'shutil.copyfile': out.append(target_of(e))
        elif e[0] == 'open': opened[e[1]] = join(e[4], e[2]); written[e[1]] = []
        elif e[0] == 'write': written.setdefault(e[1], []).extend(Y.parts(e[2]))
        elif e[0] == 'cmd':
            ls = []
            w = words(e[1])
            if w and w[0] == 'sbatch':
                scr = [x for x in w[1:] if not (isinstance(x, str) and x.startswith('-'))]
                for q in [q for q, p in opened.items() if scr and reps(p) == reps(join(e[2], scr[0]))]: ls += [words(l) for l in lines(written[q])]
            else: ls = [w]
            for ws in ls:
                if 'chmod' in [x for x in ws if isinstance(x, str)]:
                    j = ws.index('chmod')
                    mode = ws[j + 1] if len(ws) > j + 1 else None
                    if isinstance(mode, str) and (mode.isdigit() and any(int(c) & 1 for c in mode[-3:]) or '+x' in mode or mode.startswith('+') and 'x' in mode or 'x' in mode.split('=')[-1]):
                        out += [join(e[2], x) for x in ws[j + 2:]]
                    elif not isinstance(mode, str): return None
    return out
def target_of(e):
    d = join(e[3], e[2])
    return d
def c34(R):
    R.rule = ('run script and Sim interpreted over all configuration flags: the program each solver start names must be the copy of Bin/<executable> taken after the last build command, in the directory '
              'where it is started, made executable before, with the requested thread settings in its environment')
    R.trusted.append('Python abstract interpreter lib/pyast.py')
    for cfg in CONFIGS if R.tier == 'thorough' else [c for c in CONFIGS if c['time_it'] or c['computer'] == 'home']:
        nm = ', '.join('%s=%s' % kv for kv in sorted(cfg.items(), key=str))
        for I in template_runs(cfg):
            R.add('traces')
            unk = any(isinstance(q, tuple) and not q[0].startswith('<unknown environ ') for q in I.pc)
            if I.err is not None or I.sim is None: R.ob(nm + ' / run script completes', 'undecided', str(I.err), SIMF); continue
            with R.scope(nm): c34_trace(R, I, cfg, 'undecided' if unk or I.notes else 'violated')
            for n in I.notes:
                if n not in R.skipped: R.skipped.append(n)
def same_text(a, b): return reps(a) == reps(b)
def c34_trace(R, I, cfg, bad):
    sim = I.sim
    exe = sim.at.get('bin_name')
    f = sim.cls.find('launch_run')
    st = method_line(f)
    out = base_of(sim.at.get('output_dir'))
    home = base_of(sim.at.get('home_dir')) if sim.at.get('home_dir') is not None else None
    L = [x for x in launches(I, exe) if x[1] is not None]
    if not L: R.ob('the solver is started', bad, 'no command starts %s' % exe, st); return
    for i, ws, cwd, err in L:
        prog = ws[0]
        here = join(cwd, prog)
        src = None
        built = [(k, e) for k, e in enumerate(I.ev[:i]) if e[0] == 'cmd' and words(e[1])[:1] == ['make'] and not all(isinstance(x, str) and (x.startswith(('clean', '-')) or '=' in x) for x in words(e[1])[1:] or ['all'])]
        bins = [norm(Y.mkstr([('CWD', '$'), '/Bin/' + exe])), norm('Bin/' + exe)]
        if any(same_text(here, b) for b in bins): R.ob('the program started is the configured executable', 'proved', 'run in place', st)
        else:
            cps = [(k, e) for k, e in enumerate(I.ev[:i]) if e[0] == 'copy' and (same_text(target_of(e), here) or e[4] != 'shutil.copyfile' and same_text(dirjoin(target_of(e), exe), here))]
            R.ob('the program started was put in place by the launcher', 'proved' if cps else bad, 'started %s, copied to %s' % (here, [target_of(e) for e in I.ev if e[0] == 'copy']), st)
            if not cps: continue
            k, e = cps[-1]
            src = join(e[3], e[1])
            R.ob('the program started is the configured executable', 'proved' if any(same_text(src, b) for b in bins) else bad, 'copied from %s, required Bin/%s of the home directory' % (src, exe), st)
            late = [b for b in built if b[0] > k]
            R.ob('the executable is taken after it is built', bad if late else 'proved', 'command %r runs after the copy' % (late[0][1][1],) if late else '', st)
            mk = [e2 for e2 in I.ev[:k] if e2[0] == 'mkdir' and same_text(join('CWD', e2[1]), out)]
            R.ob('the run directory exists before the executable is put there', 'proved' if mk or cfg['output_dir'] is not None and False else bad, 'no makedirs of %s' % (out,), st)
            x = exec_changes(I, i)
            if x is None: R.ob('the program is made executable', 'undecided', 'mode not known', st)
            else: R.ob('the program is made executable', 'proved' if any(same_text(y, here) for y in x) or e[4] != 'shutil.copyfile' else bad, 'executable: %s' % (x,), st)
        R.ob('the solver runs in the run directory', 'proved' if same_text(base_of(cwd), out) else bad, '%s vs %s' % (cwd, out), st)
        if I.ev[i][0] == 'cmd' and words(I.ev[i][1])[:1] != ['sbatch']:
            env = I.ev[i][3]
            for var, at in (('OMP_NUM_THREADS', 'num_threads'), ('OMP_MAX_ACTIVE_LEVELS', 'num_omp_levels')):
                v = env.get(var) if isinstance(env, dict) else None
                want = sim.at.get(at)
                ok = v is not None and isinstance(want, N) and len(Y.parts(v)) == 1 and isinstance(Y.parts(v)[0], tuple) and isinstance(Y.parts(v)[0][0], N) and Y.parts(v)[0][0].p is want.p
                R.ob('%s is %s' % (var, at), 'proved' if ok else bad if v is None or isinstance(v, (str, SStr)) else 'undecided', repr(v), st)
        else:
            txt = script_lines(I, i)
            j = next((k for k, l in enumerate(txt) if starts(words(l), exe) is not None), None)
            ex = {}
            for l in txt[:j]:
                w = words(l)
                if w and w[0] == 'export' and len(w) > 1:
                    q = Y.parts(w[1])
                    if isinstance(q[0], str) and '=' in q[0]: ex[q[0].split('=')[0]] = [q[0].split('=', 1)[1]] + q[1:]
                if w and isinstance(w[0], str) and w[0] == '#SBATCH' and len(w) > 1 and isinstance(Y.parts(w[1])[0], str) and Y.parts(w[1])[0].startswith('--cpus-per-task='): ex['cpus'] = ['', *Y.parts(w[1])[1:]]
            for var, at in (('OMP_NUM_THREADS', 'num_threads'), ('OMP_MAX_ACTIVE_LEVELS', 'num_omp_levels')):
                v = [x for x in ex.get(var, []) if x != '']
                if v == ['$SLURM_CPUS_PER_TASK'] or v == ['${SLURM_CPUS_PER_TASK}']: v = [x for x in ex.get('cpus', []) if x != '']
                want = sim.at.get(at)
                ok = len(v) == 1 and isinstance(v[0], tuple) and isinstance(v[0][0], N) and isinstance(want, N) and v[0][0].p is want.p
                R.ob('%s is %s' % (var, at), 'proved' if ok else bad, repr(v), st)
    last = I.cwd
    if '..' in str(last): bad = 'undecided'
    R.ob('the launcher returns to the home directory', 'proved' if last == 'CWD' or home is not None and same_text(base_of(last), home) or same_text(base_of(last), norm(Y.mkstr([('CWD', '$')]))) else bad, '%s' % (last,), st)
def script_lines(I, i):
    """lines of the job script submitted by event i"""
    e = I.ev[i]
    scr = [x for x in words(e[1])[1:] if not (isinstance(x, str) and x.startswith('-'))]
    opened, written = {}, {}
    for x in I.ev[:i]:
        if x[0] == 'open': opened[x[1]] = join(x[4], x[2]); written[x[1]] = []
        elif x[0] == 'write': written.setdefault(x[1], []).extend(Y.parts(x[2]))
    ks = [k for k, p in opened.items() if scr and reps(p) == reps(join(e[2], scr[0]))]
    return lines(written[ks[-1]]) if ks else []
