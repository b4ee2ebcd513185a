"""Abstract interpretation of the launcher's Python syntax trees (trace partitioning on configuration flags).

Numbers may be symbolic (N), strings may have symbolic parts (SStr), file and process operations
are recorded as events.  Nothing of the launcher is imported or executed."""
import ast, builtins, os
from fractions import Fraction as F
import terms as T
from terms import P, Poly, Cond, sym, atom, ite, ge0, gt0, eq0, c_not, c_and, c_or, TRUE, FALSE

class N:
    """symbolic number"""
    def __init__(s, p, ty): s.p, s.ty = p, ty
    def __repr__(s): return '<%s %s>' % (s.ty, s.p)
class SStr:
    """string with symbolic parts: str | (value, spec)"""
    def __init__(s, parts): s.parts = parts
    def __repr__(s): return 'S' + repr(s.parts)
class Unk:
    def __init__(s, why): s.why = why
    def __repr__(s): return '<unknown %s>' % s.why
class Obj:
    def __init__(s, cls): s.cls, s.at = cls, {}
class Cls:
    def __init__(s, name, ns, bases): s.name, s.ns, s.bases = name, ns, bases
    def find(s, k):
        if k in s.ns: return s.ns[k]
        for b in s.bases:
            if isinstance(b, Cls):
                r = b.find(k)
                if r is not None: return r
class Fn:
    def __init__(s, node, env, name): s.node, s.env, s.name, s.defaults = node, env, name, {}
class Bound:
    def __init__(s, f, o): s.f, s.o = f, o
class Mod:
    def __init__(s, name): s.name = name
    def __repr__(s): return s.name
class Meth:
    def __init__(s, o, name): s.o, s.name = o, name
class File:
    def __init__(s, path, mode, k): s.path, s.mode, s.k, s.open = path, mode, k, True
class Ret(Exception):
    def __init__(s, v): s.v = v
class Brk(Exception): pass
class Cnt(Exception): pass
class Raised(Exception):
    def __init__(s, v): s.v = v
class Exit(Exception):
    def __init__(s, code): s.code = code
class Stop(Exception): pass

def num(v):
    """number -> Poly"""
    if isinstance(v, N): return v.p
    if isinstance(v, bool): return P(int(v))
    if isinstance(v, int): return P(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')): raise Stop()
        return P(F(repr(v)))
    return None
def isnum(v): return isinstance(v, (int, float, N)) and not isinstance(v, bool) or isinstance(v, bool)
def ty(v): return v.ty if isinstance(v, N) else ('float' if isinstance(v, float) else 'int')
def mk(p, t):
    k = p.const()
    if k is not None and t == 'int' and k.denominator == 1: return int(k)
    return N(p, t)
def parts(v):
    if isinstance(v, str): return [v]
    if isinstance(v, SStr): return list(v.parts)
    return [(v, '')]
def mkstr(ps):
    out = []
    for p in ps:
        if isinstance(p, tuple):
            v, spec = p
            if isinstance(v, (str, SStr)) and not spec: 
                for q in parts(v):
                    if isinstance(q, str) and out and isinstance(out[-1], str): out[-1] += q
                    else: out.append(q)
                continue
            if isinstance(v, (bool, type(None))) and not spec: p = str(v)
            elif isinstance(v, (int, float)) and not isinstance(v, bool):
                try: p = format(v, spec)
                except Exception: pass
        if p == '': continue
        if isinstance(p, str) and out and isinstance(out[-1], str): out[-1] += p
        else: out.append(p)
    if not out: return ''
    if len(out) == 1 and isinstance(out[0], str): return out[0]
    return SStr(out)

class PyI:
    def __init__(s, choices=(), overrides=None, files=None, home=None):
        s.choices = list(choices); s.taken = []; s.pc = []
        s.ev = []; s.env = {}; s.cwd = 'CWD'; s.nf = 0; s.notes = []; s.attrhook = overrides or {}
        s.files = files or {}; s.steps = 0; s.mods = {}; s.depth = 0
        s.attrs_written = {}
        s.exitcode = None
    def note(s, why, n=None):
        t = '%s (line %s)' % (why, getattr(n, 'lineno', '?'))
        if t not in s.notes: s.notes.append(t)
        return Unk(why)
    # ---------------------------------------------------------------- control
    def choose(s, c, what=''):
        """truth of an undecided condition: next recorded choice"""
        i = len(s.taken)
        v = s.choices[i] if i < len(s.choices) else False
        s.taken.append(v)
        if isinstance(c, Cond): s.pc.append(c if v else c_not(c))
        else: s.pc.append((repr(c), v))
        return v
    def truth(s, v):
        if isinstance(v, Cond):
            if v is TRUE: return True
            if v is FALSE: return False
            for q in s.pc:
                if q is v: return True
                if isinstance(q, Cond) and c_not(q) is v: return False
            return s.choose(v)
        if isinstance(v, N):
            k = v.p.const()
            if k is not None: return k != 0
            return s.truth(c_not(eq0(v.p)))
        if isinstance(v, Unk): return s.choose(v)
        if isinstance(v, SStr): return True
        if isinstance(v, (Obj, Fn, Cls, Mod, Bound, Meth, File)): return True
        return bool(v)
    def module(s, path, name='__main__'):
        tree = ast.parse(open(path).read(), path)
        env = {'__name__': name, '__file__': path, '__parent__': None}
        s.mods[name] = env
        try: s.block(tree.body, env)
        except Exit as e: s.exitcode = e.code
        return env
    def block(s, body, env):
        for n in body: s.stmt(n, env)
    def stmt(s, n, env):
        s.steps += 1
        if s.steps > 200000: raise Stop()
        m = getattr(s, 's_' + type(n).__name__, None)
        if m is None: s.note('statement ' + type(n).__name__, n); return
        m(n, env)
    def s_Expr(s, n, env): s.ev_(n.value, env)
    def s_Pass(s, n, env): pass
    def s_Global(s, n, env): env.setdefault('__globals__', set()).update(n.names)
    s_Nonlocal = s_Global
    def s_Import(s, n, env):
        for a in n.names: env[(a.asname or a.name).split('.')[0] if not a.asname else a.asname] = s.imp(a.name if a.asname else a.name.split('.')[0])
    def imp(s, name):
        f = s.files.get(name)
        if f:
            if name not in s.mods: s.module(f, name)
            m = Mod(name); m.env = s.mods[name]; return m
        return Mod(name)
    def s_ImportFrom(s, n, env):
        m = s.imp(n.module or '')
        for a in n.names:
            if hasattr(m, 'env'):
                if a.name == '*': env.update({k: v for k, v in m.env.items() if not k.startswith('_')})
                else: env[a.asname or a.name] = m.env.get(a.name, Unk(a.name))
            else:
                if a.name == '*': s.star = True
                env[a.asname or a.name] = Mod((n.module or '') + '.' + a.name)
    star = False
    def s_FunctionDef(s, n, env):
        f = Fn(n, env, n.name)
        a = n.args
        for x, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults): f.defaults[x.arg] = s.ev_(d, env)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None: f.defaults[x.arg] = s.ev_(d, env)
        f.deco = [x.id if isinstance(x, ast.Name) else '?' for x in n.decorator_list]
        env[n.name] = f
    def s_ClassDef(s, n, env):
        ns = {'__parent__': env}
        s.block(n.body, ns)
        env[n.name] = Cls(n.name, ns, [s.ev_(b, env) for b in n.bases])
    def s_Return(s, n, env): raise Ret(s.ev_(n.value, env) if n.value else None)
    def s_Break(s, n, env): raise Brk()
    def s_Continue(s, n, env): raise Cnt()
    def s_Assert(s, n, env): pass
    def s_Delete(s, n, env):
        for t in n.targets:
            if isinstance(t, ast.Name): env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = s.ev_(t.value, env)
                if isinstance(o, Obj): o.at.pop(t.attr, None)
    def s_Raise(s, n, env): raise Raised(s.ev_(n.exc, env) if n.exc else None)
    def s_Try(s, n, env):
        try:
            try: s.block(n.body, env)
            except Raised:
                if n.handlers:
                    if n.handlers[0].name: env[n.handlers[0].name] = Unk('exception')
                    s.block(n.handlers[0].body, env)
                else: raise
            else: s.block(n.orelse, env)
        finally: s.block(n.finalbody, env)
    def s_Assign(s, n, env):
        v = s.ev_(n.value, env)
        for t in n.targets: s.assign(t, v, env)
    def s_AnnAssign(s, n, env):
        if n.value is not None: s.assign(n.target, s.ev_(n.value, env), env)
    def s_AugAssign(s, n, env):
        cur = s.ev_(ast.copy_location(ast.fix_missing_locations({ast.Name: lambda t: ast.Name(t.id, ast.Load()), ast.Attribute: lambda t: ast.Attribute(t.value, t.attr, ast.Load()),
                    ast.Subscript: lambda t: ast.Subscript(t.value, t.slice, ast.Load())}[type(n.target)](n.target)), n), env)
        v = s.ev_(n.value, env)
        if isinstance(cur, list) and isinstance(n.op, ast.Add) and isinstance(v, (list, tuple)): cur.extend(v); return
        s.assign(n.target, s.bin(type(n.op).__name__, cur, v, n), env)
    def assign(s, t, v, env):
        if isinstance(t, ast.Name):
            if t.id in env.get('__globals__', ()):
                e = env
                while e.get('__parent__') is not None: e = e['__parent__']
                e[t.id] = v
            else: env[t.id] = v
        elif isinstance(t, ast.Attribute):
            o = s.ev_(t.value, env)
            if isinstance(o, Obj):
                h = s.attrhook.get(t.attr)
                if h is not None: v = h(v)
                o.at[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o, k = s.ev_(t.value, env), s.ev_(t.slice, env)
            if isinstance(o, Mod) and o.name == 'os.environ': s.env[k if isinstance(k, str) else repr(k)] = v; s.ev.append(('env', k, v))
            elif isinstance(o, dict): o[s.key(k)] = v
            elif isinstance(o, list) and isinstance(k, int): o[k] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = s.iter(v, t)
            if vs is None or len(vs) != len(t.elts): vs = [Unk('unpacked')] * len(t.elts)
            for x, y in zip(t.elts, vs): s.assign(x, y, env)
        else: s.note('assignment target', t)
    def key(s, k): return k if isinstance(k, (str, int, float, bool, tuple, type(None))) else repr(k)
    def s_If(s, n, env):
        s.block(n.body if s.truth(s.ev_(n.test, env)) else n.orelse, env)
    def s_While(s, n, env):
        for i in range(2000):
            if not s.truth(s.ev_(n.test, env)): s.block(n.orelse, env); return
            try: s.block(n.body, env)
            except Brk: return
            except Cnt: pass
            if len(s.taken) > 12: raise Stop()
        raise Stop()
    def s_For(s, n, env):
        it = s.iter(s.ev_(n.iter, env), n)
        if it is None:
            s.note('loop over an unknown collection', n); return
        for x in it:
            s.assign(n.target, x, env)
            try: s.block(n.body, env)
            except Brk: return
            except Cnt: continue
        s.block(n.orelse, env)
    def iter(s, v, n=None):
        if isinstance(v, dict): return list(v.keys())
        if isinstance(v, (list, tuple, set)): return list(v)
        if isinstance(v, range): return list(v)
        if isinstance(v, str): return list(v)
        return None
    def s_With(s, n, env):
        cs = []
        for it in n.items:
            c = s.ev_(it.context_expr, env)
            cs.append(c)
            if it.optional_vars is not None: s.assign(it.optional_vars, c, env)
        try: s.block(n.body, env)
        finally:
            for c in reversed(cs):
                if isinstance(c, File): s.close(c)
    def close(s, f):
        if f.open: f.open = False; s.ev.append(('close', f.k, f.path))
    # ---------------------------------------------------------------- expressions
    def ev_(s, n, env):
        m = getattr(s, 'e_' + type(n).__name__, None)
        if m is None: return s.note('expression ' + type(n).__name__, n)
        return m(n, env)
    def e_Constant(s, n, env): return n.value
    def e_Name(s, n, env):
        e = env
        while e is not None:
            if n.id in e and not (e is not env and e.get('__class__')): return e[n.id]
            e = e.get('__parent__')
        if not hasattr(builtins, n.id) and not s.star and n.id not in ('__file__', '__name__', '__doc__', '__annotations__'):
            raise Raised("NameError: name '%s' is not defined" % n.id)
        return Mod('builtins.' + n.id)
    def e_NamedExpr(s, n, env):
        v = s.ev_(n.value, env); s.assign(n.target, v, env); return v
    def e_Starred(s, n, env): return s.ev_(n.value, env)
    def e_Tuple(s, n, env): return tuple(s.elts(n, env))
    def e_List(s, n, env): return s.elts(n, env)
    def e_Set(s, n, env): return s.elts(n, env)
    def elts(s, n, env):
        out = []
        for x in n.elts:
            v = s.ev_(x, env)
            if isinstance(x, ast.Starred): out += s.iter(v) or [Unk('star')]
            else: out.append(v)
        return out
    def e_Dict(s, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                w = s.ev_(v, env)
                if isinstance(w, dict): d.update(w)
            else: d[s.key(s.ev_(k, env))] = s.ev_(v, env)
        return d
    def e_Lambda(s, n, env):
        f = Fn(n, env, '<lambda>'); f.deco = []; return f
    def e_IfExp(s, n, env):
        return s.ev_(n.body if s.truth(s.ev_(n.test, env)) else n.orelse, env)
    def e_BoolOp(s, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for x in n.values:
            v = s.ev_(x, env)
            t = s.truth(v)
            if isand and not t or not isand and t:
                return t if isinstance(v, (Cond, Unk)) else v
        return v if not isinstance(v, (Cond, Unk)) else isand
    def e_UnaryOp(s, n, env):
        v = s.ev_(n.operand, env)
        o = type(n.op).__name__
        if o == 'Not':
            if isinstance(v, Cond): return c_not(v)
            return not s.truth(v)
        if isinstance(v, N): return mk(-v.p, v.ty) if o == 'USub' else v
        if isinstance(v, (int, float)): return -v if o == 'USub' else +v if o == 'UAdd' else ~v
        if isinstance(v, (str, SStr)): raise Raised('TypeError: arg: bad operand of unary %s' % o)
        return Unk('unary')
    def e_BinOp(s, n, env):
        a, b = s.ev_(n.left, env), s.ev_(n.right, env)
        return s.bin(type(n.op).__name__, a, b, n)
    def bin(s, o, a, b, n):
        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            if o == 'Add':
                if isinstance(a, (str, SStr, Unk)) and isinstance(b, (str, SStr, Unk)): return mkstr(parts(a) + parts(b))
                raise Raised('TypeError: str + non-str')
            if o == 'Mod' and isinstance(a, str): return s.percent(a, b, n)
            if o == 'Mult' and isinstance(a, str) and isinstance(b, int): return a * b
            if o == 'Mult' and isinstance(b, str) and isinstance(a, int): return a * b
            if o == 'Div': return Unk('path')
            if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)): raise Raised('TypeError: arg: str %s str' % o)
            return s.note('string operator', n)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and o == 'Add': return type(a)(list(a) + list(b))
        if isinstance(a, (list, tuple)) and isinstance(b, int) and o == 'Mult': return a * b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b, 'FloorDiv': lambda: a // b, 'Mod': lambda: a % b,
                        'Pow': lambda: a ** b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b}[o]()
            except Exception: raise Raised('arithmetic')
        pa, pb = num(a), num(b)
        if pa is None or pb is None: return Unk('operator on ' + repr(a)[:40])
        t = 'float' if 'float' in (ty(a), ty(b)) else 'int'
        if o == 'Add': return mk(pa + pb, t)
        if o == 'Sub': return mk(pa - pb, t)
        if o == 'Mult': return mk(pa * pb, t)
        if o == 'Div': return mk(pa / pb, 'float')
        if o == 'Pow': return s.pow(a, b)
        if o == 'FloorDiv': return mk(s.floor(pa / pb), t)
        if o == 'Mod': return mk(pa - pb * s.floor(pa / pb), t)
        return s.note('operator ' + o, n)
    def floor(s, p): return P(atom('fn', 'floor', p, isint=True)) if p.const() is None else P(p.const().__floor__())
    def trunc(s, v):
        if isinstance(v, N):
            if v.ty == 'int': return v
            k = v.p.const()
            if k is not None: return int(k)
            if v.p.isint(): return mk(v.p, 'int')
            return N(P(atom('fn', 'trunc', v.p, isint=True)), 'int')
        return int(v)
    def pow(s, a, b):
        pa, pb = num(a), num(b)
        k = pb.const()
        if k is not None and k.denominator == 1:
            t = 'int' if ty(a) == 'int' and ty(b) == 'int' and k >= 0 else 'float'
            return mk(T.power(pa, int(k)), t)
        if k == F(1, 2): return mk(T.sqrt(pa), 'float')
        return mk(T.powr(pa, pb), 'float')
    def e_Compare(s, n, env):
        l = s.ev_(n.left, env)
        cs = []
        for o, r_ in zip(n.ops, n.comparators):
            r = s.ev_(r_, env)
            cs.append(s.cmp(type(o).__name__, l, r, n))
            l = r
        if len(cs) == 1: return cs[0]
        if all(isinstance(c, bool) for c in cs): return all(cs)
        for c in cs:
            if not s.truth(c): return False
        return True
    def cmp(s, o, a, b, n):
        if o in ('Is', 'IsNot'):
            if isinstance(a, Unk) or isinstance(b, Unk): return Unk('is')
            r = (a is b) or (isinstance(a, (bool, type(None))) and a is b)
            return r if o == 'Is' else not r
        if o in ('In', 'NotIn'):
            r = None
            if isinstance(b, dict): r = s.key(a) in b
            elif isinstance(b, (list, tuple, set)): r = any(x is a or (not isinstance(x, (N, Unk, SStr)) and not isinstance(a, (N, Unk, SStr)) and x == a) for x in b)
            elif isinstance(a, str) and isinstance(b, str): r = a in b
            if isinstance(b, Mod) and b.name == 'os.environ' and isinstance(a, str): r = True if a in s.env else None
            if r is None: return Unk('environ %s %s' % (o, a) if isinstance(b, Mod) and b.name == 'os.environ' and isinstance(a, str) else 'in')
            return r if o == 'In' else not r
        simple = lambda v: isinstance(v, (int, float, str, bool, type(None), list, tuple, dict))
        if simple(a) and simple(b):
            try: return {'Eq': lambda: a == b, 'NotEq': lambda: a != b, 'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[o]()
            except TypeError: raise Raised('TypeError')
        if isnum(a) and isnum(b):
            d = num(a) - num(b)
            isi = d.isint()
            return {'Eq': lambda: eq0(d), 'NotEq': lambda: c_not(eq0(d)), 'Lt': lambda: ge0(-d - 1) if isi else gt0(-d), 'LtE': lambda: ge0(-d),
                    'Gt': lambda: ge0(d - 1) if isi else gt0(d), 'GtE': lambda: ge0(d)}[o]()
        if isinstance(a, N) and b is None or isinstance(b, N) and a is None: return o == 'NotEq'
        if (isinstance(a, N) and isinstance(b, str)) or (isinstance(b, N) and isinstance(a, str)): return o == 'NotEq'
        return Unk('comparison of %r and %r' % (a, b))
    def e_JoinedStr(s, n, env):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant): out.append(v.value)
            else:
                x = s.ev_(v.value, env)
                spec = ''
                if v.format_spec is not None:
                    spec = s.ev_(v.format_spec, env)
                    if not isinstance(spec, str): spec = '?'
                if v.conversion == 114 and isinstance(x, (str, SStr)): spec = '!r'
                out.append((x, spec))
        return mkstr(out)
    def percent(s, f, b, n):
        import re
        args = list(b) if isinstance(b, tuple) else [b]
        out, i = [], 0
        pos = 0
        for m in re.finditer(r'%(\((\w+)\))?([-+ 0#]*\d*(?:\.\d+)?)([sdrfgeEGi%])', f):
            out.append(f[pos:m.start()]); pos = m.end()
            if m.group(4) == '%': out.append('%'); continue
            if m.group(2): v = b.get(m.group(2), Unk('key')) if isinstance(b, dict) else Unk('key')
            else:
                if i >= len(args): raise Raised('TypeError: format')
                v = args[i]; i += 1
            spec = m.group(3) + m.group(4)
            if spec in ('s', 'r'): spec = ''
            elif spec in ('d', 'i'): v, spec = (s.trunc(v) if isnum(v) else v), ''
            elif m.group(4) in 'feg' and '.' not in spec: spec = m.group(3) + '.6' + m.group(4)
            out.append((v, spec))
        out.append(f[pos:])
        return mkstr(out)
    def fmt(s, f, args, kw):
        import string
        out, auto = [], 0
        for lit, name, spec, conv in string.Formatter().parse(f):
            out.append(lit)
            if name is None: continue
            if name == '': v = args[auto] if auto < len(args) else None; bad = auto >= len(args); auto += 1
            elif name.isdigit(): v = args[int(name)] if int(name) < len(args) else None; bad = int(name) >= len(args)
            else:
                base, *rest = name.replace('[', '.').replace(']', '').split('.')
                bad = False
                if base == '' or base.isdigit():
                    i = int(base) if base else auto
                    if not base: auto += 1
                    v = args[i] if i < len(args) else Unk(name)
                elif base in kw: v = kw[base]
                else: raise Raised('KeyError')
                for r in rest: v = s.getattr(v, r, None)
            if bad: raise Raised('IndexError: format')
            sp = spec or ''
            if sp and sp[-1] in 'feg' and '.' not in sp: sp = sp[:-1] + '.6' + sp[-1]
            if sp in ('d',): v, sp = v, ''
            out.append((v, sp))
        return mkstr(out)
    def e_Attribute(s, n, env): return s.getattr(s.ev_(n.value, env), n.attr, n)
    def getattr(s, o, a, n):
        if isinstance(o, Obj):
            if a in o.at: return o.at[a]
            if a == '__dict__': return o.at
            if a == '__class__': return o.cls
            f = o.cls.find(a)
            if isinstance(f, Fn):
                if 'staticmethod' in f.deco: return f
                if 'property' in f.deco: return s.call(Bound(f, o), [], {}, n)
                if 'classmethod' in f.deco: return Bound(f, o.cls)
                return Bound(f, o)
            if f is not None: return f
            raise Raised('AttributeError: %s' % a)
        if isinstance(o, Cls):
            f = o.find(a)
            return f if f is not None else Unk(a)
        if isinstance(o, Mod):
            if hasattr(o, 'env'): return o.env.get(a, Unk(a))
            if o.name == 'math' and a in ('pi', 'e'): return N(sym(a), 'float')
            if o.name == 'os' and a in ('sep',): return '/'
            if o.name == 'sys' and a == 'argv': return Unk('argv')
            return Mod(o.name + '.' + a)
        return Meth(o, a)
    def e_Subscript(s, n, env):
        o = s.ev_(n.value, env)
        if isinstance(n.slice, ast.Slice):
            g = [s.ev_(x, env) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            if isinstance(o, (str, list, tuple)) and all(x is None or isinstance(x, int) for x in g): return o[slice(*g)]
            return SStr([(Unk('slice'), '')]) if isinstance(o, SStr) else Unk('slice')
        k = s.ev_(n.slice, env)
        if isinstance(o, dict):
            if s.key(k) in o: return o[s.key(k)]
            raise Raised('KeyError %r' % (k,))
        if isinstance(o, (list, tuple, str)) and isinstance(k, int):
            if -len(o) <= k < len(o): return o[k]
            raise Raised('IndexError')
        if isinstance(o, Mod) and o.name == 'os.environ': return s.env.get(k, SStr([(Unk('env'), '')]))
        if isinstance(o, Unk) and o.why == 'strlist': return SStr([(Unk('item'), '')])
        return Unk('item')
    def comp(s, gens, env, f, out):
        if not gens: out(f(env)); return
        g = gens[0]
        it = s.iter(s.ev_(g.iter, env), g)
        if it is None: s.note('comprehension over an unknown collection', g.iter); return
        for x in it:
            e = {'__parent__': env}
            s.assign(g.target, x, e)
            if all(s.truth(s.ev_(c, e)) for c in g.ifs): s.comp(gens[1:], e, f, out)
    def e_ListComp(s, n, env):
        L = []; s.comp(n.generators, env, lambda e: s.ev_(n.elt, e), L.append); return L
    e_GeneratorExp = e_ListComp; e_SetComp = e_ListComp
    def e_DictComp(s, n, env):
        d = {}
        s.comp(n.generators, env, lambda e: (s.key(s.ev_(n.key, e)), s.ev_(n.value, e)), lambda kv: d.__setitem__(*kv)); return d
    def e_Call(s, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            return Unk('super')
        if isinstance(n.func, ast.Name) and n.func.id in ('vars', 'locals') and not n.args:
            return {k: v for k, v in env.items() if not k.startswith('__')}
        f = s.ev_(n.func, env)
        args = []
        for a in n.args:
            v = s.ev_(a, env)
            if isinstance(a, ast.Starred): args += s.iter(v) or [Unk('star')]
            else: args.append(v)
        kw = {}
        for k in n.keywords:
            v = s.ev_(k.value, env)
            if k.arg is None:
                if isinstance(v, dict): kw.update(v)
            else: kw[k.arg] = v
        return s.call(f, args, kw, n)
    def call(s, f, args, kw, n):
        if isinstance(f, Bound): return s.callfn(f.f, [f.o] + args, kw, n)
        if isinstance(f, Fn): return s.callfn(f, args, kw, n)
        if isinstance(f, Cls):
            o = Obj(f)
            i = f.find('__init__')
            if isinstance(i, Fn): s.callfn(i, [o] + args, kw, n)
            return o
        if isinstance(f, Mod): return s.ext(f.name, args, kw, n)
        if isinstance(f, Meth): return s.method(f.o, f.name, args, kw, n)
        return Unk('call of %r' % (f,))
    def callfn(s, f, args, kw, n):
        s.depth += 1
        if s.depth > 60: raise Stop()
        a = f.node.args
        env = {'__parent__': f.env}
        names = [x.arg for x in a.posonlyargs + a.args]
        for k, v in f.defaults.items(): env[k] = v
        for k, v in zip(names, args): env[k] = v
        if a.vararg: env[a.vararg.arg] = tuple(args[len(names):])
        elif len(args) > len(names): raise Raised('TypeError: arguments')
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]: env[k] = v
            else: extra[k] = v
        if a.kwarg: env[a.kwarg.arg] = extra
        for k in names:
            if k not in env: raise Raised('TypeError: missing argument %s' % k)
        try:
            if isinstance(f.node, ast.Lambda): return s.ev_(f.node.body, env)
            try: s.block(f.node.body, env)
            except Ret as r: return r.v
            return None
        finally:
            s.depth -= 1
            for k, v in list(env.items()):
                if isinstance(v, File) and k not in names: s.close(v)
    # ---------------------------------------------------------------- library
    def ustr(s, why): return SStr([(Unk(why), '')])
    def cmdline(s, c):
        if isinstance(c, (list, tuple)):
            ps = []
            for i, x in enumerate(c):
                if i: ps.append(' ')
                ps += parts(x)
            return mkstr(ps)
        return c
    def ext(s, f, args, kw, n):
        f = f[9:] if f.startswith('builtins.') else f
        A = lambda i, d=None: args[i] if len(args) > i else d
        if f in ('subprocess.call', 'subprocess.run', 'subprocess.check_call', 'subprocess.Popen', 'subprocess.check_output', 'os.system', 'os.popen'):
            cmd = s.cmdline(A(0, kw.get('args')))
            cwd = kw.get('cwd') or s.cwd
            env = dict(s.env)
            if isinstance(kw.get('env'), dict): env.update(kw['env'])
            s.ev.append(('cmd', cmd, cwd, env, getattr(n, 'lineno', 0)))
            return Unk('result') if f in ('subprocess.run', 'subprocess.Popen') else (Unk('status'))
        if f == 'os.chdir': s.cwd = A(0); s.ev.append(('chdir', s.cwd)); return None
        if f == 'os.getcwd': return mkstr(parts(s.cwd)) if s.cwd != 'CWD' else SStr([('CWD', '$')])
        if f in ('os.makedirs', 'os.mkdir'): s.ev.append(('mkdir', A(0))); return None
        if f in ('shutil.copyfile', 'shutil.copy', 'shutil.copy2', 'shutil.move', 'os.rename', 'os.symlink', 'os.link'):
            s.ev.append(('copy', A(0, kw.get('src')), A(1, kw.get('dst')), s.cwd, f)); return A(1)
        if f == 'os.chmod': s.ev.append(('chmod', A(0), A(1), s.cwd)); return None
        if f in ('os.stat', 'os.remove', 'os.unlink', 'shutil.rmtree'): s.ev.append((f, A(0), s.cwd)); return Unk(f)
        if f in ('os.environ.update',) and isinstance(A(0), dict): s.env.update(A(0)); return None
        if f in ('os.environ.copy',): return dict(s.env)
        if f == 'os.putenv': s.env[A(0)] = A(1); return None
        if f == 'os.environ.setdefault':
            # a value the process inherited wins
            if A(0) not in s.env: s.env[A(0)] = SStr([(Unk('inherited value of %s' % (A(0),)), '')])
            return s.env[A(0)]
        if f == 'os.environ.get': return s.env.get(A(0), A(1) if len(args) > 1 and False else Unk('env'))
        if f == 'os.path.join':
            ps = []
            for i, x in enumerate(args):
                if i: ps.append('/')
                ps += parts(x)
            return mkstr(ps)
        if f in ('os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'os.path.expanduser') and isinstance(A(0), (str, SStr)):
            ps = parts(A(0))
            if f in ('os.path.abspath', 'os.path.realpath') and not (isinstance(ps[0], tuple) and ps[0][0] == 'CWD' or isinstance(ps[0], str) and ps[0].startswith('/')):
                ps = (parts(s.cwd) if s.cwd != 'CWD' else [('CWD', '$')]) + ['/'] + ps
            if not any(isinstance(x, str) and ('..' in x or '//' in x or '/./' in x or '~' in x) for x in ps): return mkstr(ps)
        if f in ('os.path.basename', 'os.path.dirname') and isinstance(A(0), (str, SStr)):
            ps = parts(A(0))
            if isinstance(ps[-1], str) and '/' in ps[-1]:
                h, t = ps[-1].rsplit('/', 1)
                return t if f == 'os.path.basename' else mkstr(ps[:-1] + [h])
        if f in ('os.path.exists', 'os.path.isdir', 'os.path.isfile', 'os.path.getsize', 'os.path.getmtime', 'os.path.islink', 'os.path.samefile'): return Unk(f)
        if f.startswith('os.path.'): return s.note(f, n)
        if f in ('sys.exit', 'exit', 'quit', 'os._exit'): raise Exit(A(0, 0))
        if f == 'open':
            s.nf += 1
            path = A(0, kw.get('file'))
            fl = File(path, A(1, kw.get('mode', 'r')), s.nf)
            s.ev.append(('open', s.nf, path, fl.mode, s.cwd)); return fl
        if f == 'print':
            fl = kw.get('file')
            if isinstance(fl, File):
                ps = []
                for i, x in enumerate(args):
                    if i: ps += parts(kw.get('sep', ' '))
                    ps += parts(x)
                ps += parts(kw.get('end', '\n'))
                s.ev.append(('write', fl.k, mkstr(ps)))
            return None
        if f == 'vars':
            return A(0).at if isinstance(A(0), Obj) else Unk('vars')
        if f == 'getattr':
            try: return s.getattr(A(0), A(1), n)
            except Raised:
                if len(args) > 2: return A(2)
                raise
        if f == 'setattr':
            if isinstance(A(0), Obj) and isinstance(A(1), str):
                h = s.attrhook.get(A(1)); A(0).at[A(1)] = h(A(2)) if h else A(2)
            else: s.note('setattr', n)
            return None
        if f == 'hasattr':
            if isinstance(A(0), Obj): return A(1) in A(0).at or A(0).cls.find(A(1)) is not None
            return Unk('hasattr')
        if f == 'str':
            v = A(0, '')
            return mkstr(parts(v))
        if f == 'repr': return mkstr([(A(0), '')]) if isnum(A(0)) else mkstr(["'"] + parts(A(0)) + ["'"])
        if f == 'float':
            v = A(0)
            if isinstance(v, N): return N(v.p, 'float')
            if isinstance(v, (int, float)): return float(v)
            return Unk('float')
        if f in ('int', 'math.trunc'):
            v = A(0)
            if isnum(v): return s.trunc(v)
            return N(P(atom('fn', 'pyint%d' % id(n), P(0), isint=True)), 'int') if isinstance(v, Unk) else (int(v) if isinstance(v, str) and v.lstrip('-').isdigit() else Unk('int'))
        if f in ('math.floor', 'math.ceil'):
            v = A(0)
            if isinstance(v, N): 
                if v.p.isint(): return mk(v.p, 'int')
                return mk(s.floor(v.p) if f == 'math.floor' else -s.floor(-v.p), 'int')
            import math
            return getattr(math, f[5:])(v) if isinstance(v, (int, float)) else Unk(f)
        if f == 'round':
            v = A(0)
            if isinstance(v, (int, float)): return round(*args) if all(isinstance(x, (int, float)) for x in args) else Unk('round')
            if isinstance(v, N): return N(P(atom('fn', 'round', v.p, isint=len(args) == 1)), 'int' if len(args) == 1 else 'float')
            return Unk('round')
        if f in ('bool',): return s.truth(A(0))
        if f == 'abs':
            v = A(0)
            return mk(T.absv(v.p), v.ty) if isinstance(v, N) else (abs(v) if isnum(v) else Unk('abs'))
        if f in ('pow', 'math.pow'):
            if isinstance(A(0), (int, float)) and isinstance(A(1), (int, float)): return A(0) ** A(1) if f == 'pow' else float(A(0)) ** A(1)
            return s.pow(A(0), A(1)) if isnum(A(0)) and isnum(A(1)) else Unk('pow')
        if f in ('math.sqrt',):
            v = A(0)
            return mk(T.sqrt(num(v)), 'float') if isnum(v) else Unk('sqrt')
        if f.startswith('math.') and args and all(isnum(x) for x in args):
            if all(isinstance(x, (int, float)) for x in args):
                import math
                try: return getattr(math, f[5:])(*args)
                except Exception: return Unk(f)
            return N(T.fn(f[5:], *[num(x) for x in args]), 'float')
        if f in ('max', 'min'):
            L = s.iter(A(0)) if len(args) == 1 else list(args)
            if L is None or not L or not all(isnum(x) for x in L): return Unk(f)
            r = L[0]
            for x in L[1:]:
                if isinstance(r, (int, float)) and isinstance(x, (int, float)): r = (max if f == 'max' else min)(r, x)
                else: r = N((T.pmax if f == 'max' else T.pmin)(num(r), num(x)), 'float' if 'float' in (ty(r), ty(x)) else 'int')
            return r
        if f == 'sum':
            L = s.iter(A(0))
            r = A(1, 0)
            for x in L or []: r = s.bin('Add', r, x, n)
            return r
        if f == 'len':
            v = A(0)
            return len(v) if isinstance(v, (list, tuple, dict, str)) else Unk('len')
        if f == 'range' and all(isinstance(x, int) for x in args): return list(range(*args))
        if f in ('list', 'sorted', 'tuple', 'set', 'reversed'):
            L = s.iter(A(0)) if args else []
            if L is None: return Unk(f)
            if f == 'sorted':
                try: L = sorted(L)
                except TypeError: pass
            return L[::-1] if f == 'reversed' else (tuple(L) if f == 'tuple' else L)
        if f == 'dict': 
            d = dict(A(0)) if isinstance(A(0), dict) else ({s.key(k): v for k, v in A(0)} if isinstance(A(0), list) else {})
            d.update(kw); return d
        if f == 'enumerate': 
            L = s.iter(A(0)); return [(i + A(1, 0), x) for i, x in enumerate(L)] if L is not None else Unk(f)
        if f == 'zip':
            Ls = [s.iter(x) for x in args]
            return list(zip(*Ls)) if all(x is not None for x in Ls) else Unk(f)
        if f == 'map':
            L = s.iter(A(1)); return [s.call(A(0), [x], {}, n) for x in L] if L is not None else Unk(f)
        if f == 'filter':
            L = s.iter(A(1)); return [x for x in L if s.truth(s.call(A(0), [x], {}, n))] if L is not None else Unk(f)
        if f in ('all', 'any'):
            L = s.iter(A(0))
            if L is None: return Unk(f)
            for x in L:
                t = s.truth(x)
                if f == 'any' and t: return True
                if f == 'all' and not t: return False
            return f == 'all'
        if f == 'type':
            v = A(0)
            if isinstance(v, N): return Mod('builtins.' + v.ty)
            if isinstance(v, SStr): return Mod('builtins.str')
            if isinstance(v, Obj): return v.cls
            if isinstance(v, (int, float, str, bool, list, dict, tuple, type(None))): return TYPES[type(v)]
            return Unk('type')
        if f == 'isinstance':
            v, c = A(0), A(1)
            tn = v.ty if isinstance(v, N) else 'str' if isinstance(v, SStr) else None if isinstance(v, Unk) else type(v).__name__
            if tn is None: return Unk('isinstance')
            cs = [x.name.split('.')[-1] if isinstance(x, Mod) else getattr(x, 'name', '?') for x in (c if isinstance(c, tuple) else (c,))]
            return tn in cs or (tn == 'bool' and 'int' in cs) or (isinstance(v, Obj) and v.cls.name in cs)
        if f in ('time.asctime', 'time.ctime', 'time.strftime', 'datetime.datetime.now', 'datetime.now', 'platform.node', 'socket.gethostname', 'input'): return s.ustr(f)
        if f == 'format': return mkstr([(A(0), A(1, ''))])
        if f.split('.')[-1].endswith(('Error', 'Exception')): return Unk(f)
        if f == 'argparse.ArgumentParser': return Mod('argparse.parser')
        if f == 'argparse.parser.add_argument':
            d = kw.get('dest')
            if d is None:
                ls = [x for x in args if isinstance(x, str)]
                lg = [x for x in ls if x.startswith('--')] or ls
                d = lg[0].lstrip('-').replace('-', '_') if lg else None
            s.args = getattr(s, 'args', {}); s.args[d] = kw.get('default')
            return Unk('argument')
        if f == 'argparse.parser.parse_args':
            o = Obj(Cls('Namespace', {}, []))
            for k, v in getattr(s, 'args', {}).items(): o.at[k] = s.attrhook[k](v) if k in s.attrhook else v
            return o
        return s.note('call of ' + f, n)
    def method(s, o, m, args, kw, n):
        A = lambda i, d=None: args[i] if len(args) > i else d
        if isinstance(o, File):
            if m == 'write': s.ev.append(('write', o.k, A(0) if isinstance(A(0), (str, SStr)) else SStr([(A(0), '')]))); return None
            if m == 'writelines':
                L = s.iter(A(0))
                if L is None: s.note('writelines', n); s.ev.append(('write', o.k, s.ustr('lines')))
                for x in L or []: s.ev.append(('write', o.k, x))
                return None
            if m == 'close': s.close(o); return None
            if m in ('flush', 'fileno'): return None
            return s.ustr('read')
        if isinstance(o, (str, SStr)):
            if m == 'format':
                if isinstance(o, str): return s.fmt(o, args, kw)
                return s.ustr('format')
            if m == 'join':
                L = s.iter(A(0))
                if L is None: s.note('join', n); return s.ustr('join')
                ps = []
                for i, x in enumerate(L):
                    if i: ps += parts(o)
                    ps += parts(x)
                return mkstr(ps)
            if isinstance(o, str) and all(isinstance(x, (str, int, tuple)) for x in args):
                try: return getattr(o, m)(*args)
                except Exception: raise Raised('str.' + m)
            if m == 'replace':
                return SStr([p.replace(A(0), A(1)) if isinstance(p, str) and isinstance(A(0), str) and isinstance(A(1), str) else p for p in o.parts])
            if m in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'encode'): return o
            if m in ('split', 'splitlines'): return Unk('strlist')
            return Unk(m)
        if isinstance(o, dict):
            if m == 'items': return [(k, v) for k, v in o.items()]
            if m == 'keys': return list(o.keys())
            if m == 'values': return list(o.values())
            if m == 'get': return o.get(s.key(A(0)), A(1))
            if m == 'update':
                if isinstance(A(0), dict): o.update(A(0))
                o.update(kw); return None
            if m == 'copy': return dict(o)
            if m == 'pop': return o.pop(s.key(A(0)), A(1))
            if m == 'setdefault': return o.setdefault(s.key(A(0)), A(1))
        if isinstance(o, list):
            if m in ('append', 'extend', 'insert', 'pop', 'copy', 'reverse', 'index', 'remove', 'count'):
                try: return getattr(o, m)(*args)
                except Exception: raise Raised('list.' + m)
            if m == 'sort':
                try: o.sort()
                except TypeError: pass
                return None
        return Unk('method ' + m)

TYPES = {int: Mod('builtins.int'), float: Mod('builtins.float'), str: Mod('builtins.str'), bool: Mod('builtins.bool'), list: Mod('builtins.list'),
         dict: Mod('builtins.dict'), tuple: Mod('builtins.tuple'), type(None): Mod('builtins.NoneType')}
_names = {}
def _eqmod():
    Mod.__eq__ = lambda a, b: isinstance(b, Mod) and a.name == b.name
    Mod.__hash__ = lambda a: hash(a.name)
_eqmod()
_cmp0 = PyI.cmp
def _cmp(s, o, a, b, n):
    if (isinstance(a, Mod) and isinstance(b, (Mod, Cls))) or (isinstance(b, Mod) and isinstance(a, Cls)):
        r = a == b
        return r if o in ('Eq', 'Is') else (not r if o in ('NotEq', 'IsNot') else Unk('cmp'))
    if o in ('In', 'NotIn') and isinstance(a, Mod) and isinstance(b, (list, tuple)):
        r = a in b
        return r if o == 'In' else not r
    return _cmp0(s, o, a, b, n)
PyI.cmp = _cmp

def traces(run, limit=64):
    """all traces of run(choices) -> PyI over undecided conditions"""
    todo, out = [()], []
    while todo and len(out) < limit:
        c = todo.pop()
        I = run(c)
        out.append(I)
        for i in range(len(c), len(I.taken)):
            todo.append(tuple(I.taken[:i]) + (not I.taken[i],))
    return out

def sim_class(I, repo):
    env = I.module(os.path.join(repo, 'sim_class.py'), 'sim_class')
    c = env.get('Sim')
    if not isinstance(c, Cls):
        cs = [v for v in env.values() if isinstance(v, Cls)]
        c = cs[0] if len(cs) == 1 else None
    return c
