#!/usr/bin/env python3
"""mkseed.py ID PROPERTY < spec : build seeded/ID from edits (file/<<<</old/====/new/>>>>), 'needs:', 'breaks:', 'demo:' sections."""
import sys, re, os, subprocess, json
ID, PROP = sys.argv[1:3]
spec = sys.stdin.read()
orig = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
base = open('/root/.vp/BASE').read().strip() if os.path.exists('/root/.vp/BASE') else None
needs = re.search(r'^needs:(.*?)$', spec, re.M).group(1).strip()
breaks = re.search(r'^breaks:(.*?)$', spec, re.M).group(1).strip()
demo = spec.split('\ndemo:\n', 1)[1]
d = '/verif/seeded/' + ID
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'], text=True).strip(), 'repo dirty'
try:
    for m in re.finditer(r'^(\S+)\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$', spec.split('\ndemo:\n')[0], re.S | re.M):
        f, old, new = m.groups()
        p = '/repo/' + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old[:80])
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True)
    first = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H %s'], text=True).strip().split('\n')
    o = [l.split()[0] for l in first if not l.split(' ', 1)[1].startswith(('fix:', 'hook'))][0]
    f = None
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            f = l[6:]
            of = subprocess.check_output(['git', '-C', '/repo', 'show', o + ':' + f], text=True).split('\n')
        elif l.startswith('-') and l[1:].strip() and l[1:] not in of:
            print('NOT ORIGINAL:', l)
    open(d + '/patch.diff', 'w').write(diff)
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
open(d + '/demo.py', 'w').write('import sys, os\nsys.path.insert(0, os.getcwd())\n' + demo)
open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
json.dump({'property': PROP, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
sys.exit(subprocess.call(['bash', '/verif/tools/seed.sh', ID]))
