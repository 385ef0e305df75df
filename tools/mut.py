#!/usr/bin/env python3
"""Try source mutations in a scratch copy of /repo:  mut.py CHECK [--scale S] < file of blocks

Each block:   file.py
              <<<<
              old text
              ====
              new text
              >>>>
"""
import subprocess, sys, os, shutil, re
check, rest = sys.argv[1], sys.argv[2:]
tmp = '/tmp/mut.%d' % os.getpid()
shutil.copytree('/repo', tmp, ignore=shutil.ignore_patterns('.git', '__pycache__'), symlinks=True)
try:
    for m in re.finditer(r'^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$', sys.stdin.read(), re.S | re.M):
        f, old, new = m.groups()
        p = os.path.join(tmp, f)
        s = open(p).read()
        if s.count(old) < 1:
            print('NOT FOUND', f, old[:60]); continue
        open(p, 'w').write(s.replace(old, new, 1))
        r = subprocess.run(['/verif/check', check] + rest, env=dict(os.environ, VERIF_REPO=tmp), capture_output=True, text=True)
        print('%s rc=%d  %s: %r' % ('CAUGHT' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR', r.returncode, f, (old.strip().split('\n')[0] + ' -> ' + new.strip().split('\n')[0])[:110]))
        if r.returncode not in (0, 1) or '-v' in os.environ.get('MUTV', ''):
            print((r.stdout + r.stderr)[-1500:])
        sys.stdout.flush()
        open(p, 'w').write(s)
finally:
    shutil.rmtree(tmp)
