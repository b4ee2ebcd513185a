"""A small static evaluator for Makefiles and build command lines.

State: abstract files per directory.  An object file is either ('stale',) - present, up to date with its
sources, compiled with unknown options - or ('built', flags).  No command is executed."""
import os, re, fnmatch, shlex

class Unsupported(Exception): pass

class Build:
    def __init__(s, repo, stale=True):
        s.repo = repo
        s.files = {}       # abspath -> record for generated files
        s.links = []       # (path, [(object, record)], flags)
        s.notes = []
        s.stale = stale
        s.depth = 0
        s.removed = set()
    def note(s, w):
        if w not in s.notes: s.notes.append(w)
    def exists(s, p):
        if p in s.files: return True
        if p in s.removed: return False
        if p.endswith('.o') : return s.stale
        return os.path.exists(p) and not p.endswith('.run')
    def rec(s, p):
        if p in s.files: return s.files[p]
        if p.endswith('.o') and s.stale and p not in s.removed: return ('stale',)
        return None
    # ------------------------------------------------------------ shell
    def shell(s, cmd, cwd, env=None, mk=None):
        """interprets one command line; mk = enclosing Make (for the inherited overrides)"""
        s.depth += 1
        if s.depth > 30: raise Unsupported('recursion')
        try:
            for part in re.split(r'&&|;|\n', cmd):
                part = part.strip()
                if part: cwd = s.simple(part, cwd, mk) or cwd
        finally: s.depth -= 1
        return cwd
    def simple(s, c, cwd, mk):
        c = c.lstrip('@-+').strip()
        c = re.sub(r'[0-9]?>+\s*(&[0-9]|\S+)', '', c).strip()
        c = c.split('|')[0].strip() if '||' not in c else c.split('||')[0].strip()
        try: w = shlex.split(c)
        except ValueError: raise Unsupported(c)
        while w and re.fullmatch(r'\w+=.*', w[0]): w = w[1:]
        if not w: return
        p = os.path.basename(w[0])
        if p == 'cd': return os.path.normpath(os.path.join(cwd, w[1]))
        if p in ('make', 'gmake'): s.make(w[1:], cwd, mk); return
        if p == 'rm':
            for g in w[1:]:
                if g.startswith('-'): continue
                s.remove(os.path.normpath(os.path.join(cwd, g)))
            return
        if p in ('echo', 'mkdir', 'chmod', 'true', 'time', 'ls', ':', 'printf', 'test', '['): 
            if p == 'time': return s.simple(' '.join(w[1:]), cwd, mk)
            return
        if p in ('touch',):
            for g in w[1:]: s.files[os.path.normpath(os.path.join(cwd, g))] = ('built', ())
            return
        if p in ('cp', 'mv', 'ln'):
            a = [x for x in w[1:] if not x.startswith('-')]
            if len(a) == 2:
                src, dst = (os.path.normpath(os.path.join(cwd, x)) for x in a)
                if os.path.isdir(dst): dst = os.path.join(dst, os.path.basename(src))
                for i, l in enumerate(s.links):
                    if l[0] == src: s.links.append((dst,) + l[1:])
                if s.rec(src) is not None: s.files[dst] = s.rec(src)
                if p == 'mv': s.remove(src)
            return
        if re.fullmatch(r'.*(g\+\+|gcc|clang\+\+|clang|c\+\+|cc|icpc|icc)(-[\d.]+)?', p) or p == '$(CC)': return s.compile(w, cwd)
        if p.startswith(('python',)): s.note('runs ' + c); return
        s.note('command ' + c)
    def remove(s, g):
        d = os.path.dirname(g); pat = os.path.basename(g)
        for f in list(s.files):
            if fnmatch.fnmatch(f, g) : del s.files[f]; s.removed.add(f)
        if not any(ch in g for ch in '*?['): s.removed.add(g); return
        # stale objects: those any object name of that directory could match
        s.removed |= {os.path.join(d, x[:-4] + '.o') for x in s.listdir(d) if x.endswith('.cpp') and fnmatch.fnmatch(x[:-4] + '.o', pat)}
        s.patterns = getattr(s, 'patterns', []) + [g]
    def listdir(s, d):
        try: return sorted(os.listdir(d))
        except OSError: return []
    def compile(s, w, cwd):
        out, inputs, flags, i = None, [], [], 1
        while i < len(w):
            x = w[i]
            if x == '-o': out = w[i + 1]; i += 2; continue
            if x.startswith('-o') and len(x) > 2: out = x[2:]
            elif x in ('-I', '-L', '-include', '-MF', '-MT', '-D', '-U'):
                flags.append(x + w[i + 1]); i += 2; continue
            elif x.startswith('-'): flags.append(x)
            else: inputs.append(x)
            i += 1
        ab = lambda q: os.path.normpath(os.path.join(cwd, q))
        if '-c' in flags:
            for q in inputs:
                o = ab(out) if out else ab(re.sub(r'\.\w+$', '.o', os.path.basename(q)))
                s.files[o] = ('built', tuple(flags)); s.removed.discard(o)
            return
        recs = []
        for q in inputs:
            if re.search(r'\.(cpp|cc|cxx|c)$', q): recs.append((ab(q), ('built', tuple(flags))))
            elif re.search(r'\.(o|a)$', q): recs.append((ab(q), s.rec(ab(q))))
        o = ab(out or 'a.out')
        s.links.append((o, recs, tuple(flags)))
        s.files[o] = ('built', tuple(flags))
    def make(s, args, cwd, mk):
        over = dict(mk.over) if mk else {}
        always = mk.always if mk else False
        targets, d, f = [], cwd, None
        i = 0
        while i < len(args):
            a = args[i]
            if a in ('-C', '--directory', '-f', '--file', '--makefile', '-j', '-l', '-I') and a != '-j':
                if a in ('-C', '--directory'): d = os.path.normpath(os.path.join(d, args[i + 1]))
                elif a in ('-f', '--file', '--makefile'): f = args[i + 1]
                i += 2; continue
            if a.startswith('--directory='): d = os.path.normpath(os.path.join(d, a[12:]))
            elif a.startswith('-C') and len(a) > 2: d = os.path.normpath(os.path.join(d, a[2:]))
            elif a in ('-B', '--always-make'): always = True
            elif a == '-j' and i + 1 < len(args) and args[i + 1].isdigit(): i += 1
            elif a.startswith('-'): pass
            elif re.match(r'[\w.]+\s*[:+?]?=', a):
                k, v = re.split(r'\s*[:+?]?=', a, maxsplit=1); over[k] = v
            else: targets.append(a)
            i += 1
        m = Make(s, d, over, always, f)
        m.build(targets)

class Make:
    def __init__(s, b, d, over, always, f=None):
        s.b, s.d, s.over, s.always = b, d, over, always
        s.vars = {'MAKE': 'make', 'RM': 'rm -f', 'CC': 'cc', 'CXX': 'g++', 'CURDIR': d, 'AR': 'ar', 'MAKEFLAGS': ''}
        s.rules, s.pats, s.phony, s.first = {}, [], set(), None
        s.done = {}
        for n in ([f] if f else ['GNUmakefile', 'makefile', 'Makefile']):
            p = os.path.join(d, n)
            if os.path.exists(p): s.parse(p); break
        else: raise Unsupported('no makefile in ' + d)
    def parse(s, path):
        text = open(path).read()
        text = re.sub(r'\\\n[ \t]*', ' ', text)
        stack = []   # (active, seen)
        cur = None
        for raw in text.split('\n'):
            if raw.startswith('\t'):
                if all(a for a, _ in stack) and cur is not None:
                    for r in cur: r['recipe'].append(raw[1:])
                continue
            line = re.sub(r'(?<!\\)#.*', '', raw).strip()
            if not line: continue
            m = re.match(r'(else\s+)?(ifeq|ifneq|ifdef|ifndef)\b(.*)', line)
            act = all(a for a, _ in stack)
            if m:
                if m.group(1):
                    a, seen = stack.pop(); outer = all(x for x, _ in stack)
                    v = not seen and outer and s.cond(m.group(2), m.group(3).strip())
                    stack.append((v, seen or v))
                else:
                    v = act and s.cond(m.group(2), m.group(3).strip())
                    stack.append((v, v))
                continue
            if line == 'else':
                a, seen = stack.pop(); stack.append((not seen, True)); continue
            if line == 'endif': stack.pop(); continue
            if not act: continue
            m = re.match(r'(?:export\s+|override\s+)?([\w.()$%-]+)\s*(\+=|:=|::=|\?=|=)\s*(.*)', line)
            if m and ':' not in m.group(1):
                cur = None
                k, o, v = m.group(1), m.group(2), m.group(3)
                if k in s.over: continue
                if o == '=': s.vars[k] = v
                elif o in (':=', '::='): s.vars[k] = s.exp(v)
                elif o == '?=': s.vars.setdefault(k, v)
                else: s.vars[k] = (s.vars.get(k, '') + ' ' + v)
                continue
            if re.match(r'-?include\b|export\b|unexport\b|vpath\b|\.SUFFIXES', line):
                m = re.match(r'(-?)include\s+(.*)', line)
                if m:
                    for f in s.exp(m.group(2)).split():
                        p = os.path.join(s.d, f)
                        if os.path.exists(p): s.parse(p)
                cur = None; continue
            if line.startswith('define'): raise Unsupported('define')
            m = re.match(r'([^:]+?)\s*::?(?!=)\s*(.*)', line)
            if m:
                tg = s.exp(m.group(1)).split()
                rest, _, inl = m.group(2).partition(';')
                mv = re.match(r'([\w]+)\s*(\+=|:=|=)\s*(.*)', rest)
                if mv:      # target-specific variable
                    for t in tg: s.rules.setdefault(t, dict(pre=[], recipe=[], tv=[]))['tv'].append((mv.group(1), mv.group(2), mv.group(3)))
                    cur = None; continue
                mo = rest.split('|')
                if ':' in mo[0] and '%' in mo[0]:   # static pattern rule
                    tp, pp = mo[0].split(':', 1)
                    cur = []
                    for t in tg:
                        st = match(tp.strip(), t)
                        r = s.rules.setdefault(t, dict(pre=[], recipe=[], tv=[]))
                        r['pre'] += [x.replace('%', st or '') for x in s.exp(pp).split()]
                        r['stem'] = st; cur.append(r)
                    continue
                pre = s.exp(mo[0]).split()
                oo = s.exp(mo[1]).split() if len(mo) > 1 else []
                cur = []
                if tg == ['.PHONY']: s.phony |= set(pre); continue
                for t in tg:
                    if '%' in t:
                        r = dict(pat=t, pre=pre, oo=oo, recipe=[inl] if inl.strip() else [], tv=[]); s.pats.append(r); cur.append(r)
                    else:
                        if s.first is None and not t.startswith('.'): s.first = t
                        r = s.rules.setdefault(t, dict(pre=[], recipe=[], tv=[]))
                        r['pre'] = r['pre'] + pre
                        r.setdefault('oo', []).extend(oo)
                        if inl.strip(): r['recipe'].append(inl.strip())
                        cur.append(r)
                        r['fresh'] = True
                continue
            raise Unsupported(line)
    def cond(s, k, a):
        if k in ('ifdef', 'ifndef'):
            d = bool(s.exp('$(%s)' % s.exp(a)))
            return d == (k == 'ifdef')
        m = re.match(r'\((.*)\)$', a)
        if m:
            x, y = split_args(m.group(1))[:2] if ',' in m.group(1) else (m.group(1), '')
        else:
            m = re.match(r'''(["'])(.*?)\1\s*(["'])(.*?)\3''', a)
            if not m: raise Unsupported(a)
            x, y = m.group(2), m.group(4)
        return (s.exp(x).strip() == s.exp(y).strip()) == (k == 'ifeq')
    def var(s, k, loc):
        if loc and k in loc: return loc[k]
        if k in s.over: return s.exp(s.over[k], loc)
        return s.exp(s.vars.get(k, ''), loc)
    def exp(s, t, loc=None, depth=0):
        if depth > 40: raise Unsupported('recursive variable')
        out, i = '', 0
        while i < len(t):
            if t[i] != '$': out += t[i]; i += 1; continue
            if i + 1 >= len(t): break
            c = t[i + 1]
            if c == '$': out += '$'; i += 2; continue
            if c in '({':
                e = {'(': ')', '{': '}'}[c]; d, j = 1, i + 2
                while j < len(t) and d:
                    if t[j] == c: d += 1
                    elif t[j] == e: d -= 1
                    j += 1
                out += s.ref(t[i + 2:j - 1], loc); i = j
            else: out += s.var(c, loc); i += 2
        return out
    def ref(s, r, loc):
        m = re.match(r'([a-z-]+)[ \t]+(.*)', r, re.S)
        FN = ('patsubst', 'subst', 'wildcard', 'addprefix', 'addsuffix', 'filter', 'filter-out', 'if', 'notdir', 'basename', 'strip', 'sort', 'firstword', 'word', 'words', 'dir', 'shell', 'or', 'and', 'findstring', 'foreach', 'suffix', 'abspath', 'call', 'info', 'warning')
        if m and m.group(1) in FN:
            f = m.group(1)
            raw = split_args(m.group(2))
            if f == 'if':
                return s.exp(raw[1] if s.exp(raw[0], loc).strip() else (raw[2] if len(raw) > 2 else ''), loc)
            if f == 'foreach':
                v = s.exp(raw[0], loc).strip()
                return ' '.join(s.exp(raw[2], dict(loc or {}, **{v: w})) for w in s.exp(raw[1], loc).split())
            a = [s.exp(x, loc) for x in raw]
            if f == 'patsubst': return ' '.join(psub(a[0].strip(), a[1].strip(), w) for w in a[2].split())
            if f == 'subst': return a[2].replace(a[0], a[1])
            if f == 'wildcard':
                o = []
                for g in ','.join(a).split():
                    d = os.path.dirname(os.path.join(s.d, g))
                    o += [os.path.join(os.path.dirname(g), x) for x in s.b.listdir(d) if fnmatch.fnmatch(x, os.path.basename(g))]
                return ' '.join(o)
            if f == 'addprefix': return ' '.join(a[0] + w for w in a[1].split())
            if f == 'addsuffix': return ' '.join(w + a[0] for w in a[1].split())
            if f == 'filter': return ' '.join(w for w in a[1].split() if any(match(p, w) is not None for p in a[0].split()))
            if f == 'filter-out': return ' '.join(w for w in a[1].split() if not any(match(p, w) is not None for p in a[0].split()))
            if f == 'notdir': return ' '.join(os.path.basename(w) for w in a[0].split())
            if f == 'dir': return ' '.join((os.path.dirname(w) or '.') + '/' for w in a[0].split())
            if f == 'basename': return ' '.join(re.sub(r'\.[^./]*$', '', w) for w in a[0].split())
            if f == 'suffix': return ' '.join(os.path.splitext(w)[1] for w in a[0].split())
            if f == 'abspath': return ' '.join(os.path.normpath(os.path.join(s.d, w)) for w in a[0].split())
            if f == 'strip': return ' '.join(a[0].split())
            if f == 'sort': return ' '.join(sorted(set(a[0].split())))
            if f == 'firstword': return (a[0].split() or [''])[0]
            if f == 'word': 
                w = a[1].split(); i = int(a[0]); return w[i - 1] if 0 < i <= len(w) else ''
            if f == 'words': return str(len(a[0].split()))
            if f == 'or': return next((x for x in a if x.strip()), '')
            if f == 'and': return a[-1] if all(x.strip() for x in a) else ''
            if f == 'findstring': return a[0] if a[0] in a[1] else ''
            if f in ('info', 'warning'): return ''
            if f == 'call':
                l = dict(loc or {}); l.update({str(i): x for i, x in enumerate(a)}); return s.exp(s.vars.get(a[0].strip(), ''), l)
            s.b.note('$(%s ...)' % f); return ''
        m = re.match(r'([^:]+):([^=]*)=(.*)$', r)
        if m:
            x, y = m.group(2).strip(), m.group(3).strip()
            if '%' not in x: x, y = '%' + x, '%' + y
            return ' '.join(psub(x, y, w) for w in s.var(s.exp(m.group(1), loc), loc).split())
        return s.var(s.exp(r, loc), loc)
    # ------------------------------------------------------------ building
    def build(s, targets):
        for t in targets or ([s.first] if s.first else []): s.target(t)
    def path(s, t): return os.path.normpath(os.path.join(s.d, t))
    def find(s, t):
        r = s.rules.get(t)
        pre, rec, stem, oo, tv = [], [], None, [], []
        if r: pre, rec, oo, tv, stem = list(r['pre']), r['recipe'], r.get('oo', []), r.get('tv', []), r.get('stem')
        if not rec and t not in s.phony:
            best = None
            for q in s.pats:
                st = match(q['pat'], t)
                if st is None or not q['recipe']: continue
                ps = [x.replace('%', st) for x in q['pre']]
                if all(s.b.exists(s.path(x)) or x in s.rules or x in s.phony or any(match(z['pat'], x) is not None for z in s.pats if z is not q) for x in ps):
                    if best is None or len(st) < len(best[1]): best = (q, st, ps)
            if best:
                q, stem, ps = best
                pre = ps + pre; rec = q['recipe']; oo = oo + q.get('oo', [])
        return pre, rec, stem, oo, tv
    def target(s, t, extra=None):
        """builds t if needed; returns whether it was remade"""
        if t in s.done: return s.done[t]
        s.done[t] = False
        pre, rec, stem, oo, tv = s.find(t)
        extra = dict(extra or {})
        for k, o, v in tv:
            if k in s.over: continue
            base = extra.get(k, s.vars.get(k, ''))
            extra[k] = (s.exp(base) + ' ' + s.exp(v)) if o == '+=' else s.exp(v)
        remade = False
        for p in pre: remade = s.target(p, extra) or remade
        for p in oo: s.target(p, extra)
        if not rec:
            if not pre and t not in s.rules and not s.b.exists(s.path(t)): raise Unsupported('no rule to make %s' % t)
            s.done[t] = remade or t in s.phony or (t in s.rules and not s.b.exists(s.path(t)))
            return s.done[t]
        if t in s.phony or not s.b.exists(s.path(t)) or remade or s.always:
            loc = dict(extra)
            up = list(dict.fromkeys(pre))
            loc.update({'@': t, '<': pre[0] if pre else '', '^': ' '.join(up), '+': ' '.join(pre), '*': stem or '', '?': ' '.join(up),
                        '@D': os.path.dirname(t) or '.', '@F': os.path.basename(t), '<F': os.path.basename(pre[0]) if pre else ''})
            for line in rec:
                s.b.shell(s.exp(line, loc), s.d, mk=s)
            s.done[t] = True
        return s.done[t]

def split_args(t):
    out, d, cur = [], 0, ''
    for ch in t:
        if ch in '({': d += 1
        elif ch in ')}': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    out.append(cur)
    return out
def match(p, w):
    if '%' not in p: return '' if p == w else None
    a, b = p.split('%', 1)
    if w.startswith(a) and w.endswith(b) and len(w) >= len(a) + len(b): return w[len(a):len(w) - len(b)]
    return None
def psub(p, r, w):
    st = match(p, w)
    return w if st is None else (r.replace('%', st) if '%' in p else r)
