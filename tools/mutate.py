#!/usr/bin/env python3
"""development aid: apply textual mutants to a scratch copy of the sources and show what the checks say.
usage: mutate.py FILE   where FILE has blocks:   == checks | file
<<<<
old
====
new
>>>>"""
import sys, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def blocks(t):
    for m in re.finditer(r'^== *(.*?) *\| *(\S+)(.*?)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>', t, re.S | re.M):
        yield m.group(1).split(), m.group(2), m.group(3).strip(), m.group(4), m.group(5)
def run(b):
    checks, f, note, old, new = b
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        r = os.path.join(d, 'repo'); v = os.path.join(d, 'verif')
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git'))
        os.makedirs(v)
        for x in ('lib', 'checks', 'frontend', 'build', 'check.py', 'known_findings.txt'):
            if os.path.exists(os.path.join(HERE, x)): os.symlink(os.path.join(HERE, x), os.path.join(v, x))
        p = os.path.join(r, f); s = open(p).read()
        if s.count(old) < 1: return '?? pattern not found in %s: %r' % (f, old[:60])
        open(p, 'w').write(s.replace(old, new, 1))
        res = []
        for c in checks:
            q = subprocess.run([os.path.join(HERE, 'check.py'), c], env=dict(os.environ, VERIF_REPO=r, VERIF_EVID=d), capture_output=True, text=True)
            o = q.stdout.strip().split('\n')
            det = [x for x in o if 'violated:' in x or 'cannot' in x or 'Error' in x][:1]
            res.append('   %s rc=%d %s | %s' % (c, q.returncode, o[0][:100], det[0][:260] if det else q.stderr[-200:]))
        return '%s: %s -> %s %s\n%s' % (f, old.strip()[:50].replace('\n', ' '), new.strip()[:60].replace('\n', ' '), note, '\n'.join(res))
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    L = list(blocks(open(sys.argv[1]).read()))
    with ThreadPoolExecutor(7) as ex:
        for r in ex.map(run, L): print(r, flush=True)
