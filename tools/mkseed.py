#!/usr/bin/env python3
"""development aid: writes /verif/seeded/<id> from a specification file and confirms it in a scratch copy.
usage: mkseed.py SPEC.py [id ...]     SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo or sh, srcs, flags, stub)]"""
import sys, os, json, shutil, subprocess, tempfile, runpy
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# cwd: the repository. exit 0: behaves as required
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O1 -g -fopenmp %(flags)s -I"$D" -ISource "$D/demo.cpp" %(srcs)s -lfftw3 -lm -o "$T/demo" || exit 0
cd "$T" && %(run)s
'''
def sh(cmd, cwd): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)
def make(s):
    d = os.path.join(HERE, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    if 'sh' in s:
        open(d + '/demo.sh', 'w').write(s['sh'])
        if s.get('stub'):
            for f in ('shtns.h', 'shtns_stub.cpp'): shutil.copy(os.path.join(HERE, 'tools/shtstub', f), d)
    else:
        srcs = ' '.join('Source/%s.cpp' % x for x in s['srcs'].split())
        if s.get('stub'):
            srcs += ' "$D/shtns_stub.cpp"'
            for f in ('shtns.h', 'shtns_stub.cpp'): shutil.copy(os.path.join(HERE, 'tools/shtstub', f), d)
        open(d + '/demo.sh', 'w').write(SH % dict(flags=s.get('flags', ''), srcs=srcs, run=s.get('run', './demo >/dev/null')))
        open(d + '/demo.cpp', 'w').write(s['demo'])
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    t = tempfile.mkdtemp(prefix='seed', dir='/tmp'); r = t + '/repo'
    try:
        sh('git clone -q /repo %s' % r, '/tmp')
        for f, old, new in s['edits']:
            x = open(r + '/' + f).read()
            if x.count(old) != 1: return '%s: pattern occurs %d times in %s' % (s['id'], x.count(old), f)
            open(r + '/' + f, 'w').write(x.replace(old, new))
        p = sh('git diff', r).stdout
        open(d + '/patch.diff', 'w').write(p)
        a = sh('bash %s/demo.sh' % d, '/repo'); b = sh('bash %s/demo.sh' % d, r)
        ok = 'ok' if a.returncode == 0 and b.returncode != 0 else 'BAD'
        return '%s: %s demo base rc=%d, patched rc=%d %s %s' % (s['id'], ok, a.returncode, b.returncode, a.stderr[-300:] if a.returncode else '', b.stderr[-300:])
    finally: shutil.rmtree(t, ignore_errors=True)
if __name__ == '__main__':
    m = runpy.run_path(sys.argv[1])
    for s in m['SEEDS']:
        if len(sys.argv) > 2 and s['id'] not in sys.argv[2:]: continue
        print(make(s), flush=True)
