"""Helper for writing planted bugs: plant(id, property, needs, breaks, edits, demo)
makes seeded/<id>/ with patch.diff, demo.sh, demo.py and meta.json."""
import json
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
/opt/venv/bin/python -W ignore "$here/demo.py" "$work"
'''


def plant(id, prop, needs, breaks, edits, demo):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='plant')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        for f, old, new in edits:
            path = os.path.join(w, 'r', f)
            s = open(path).read()
            if s.count(old) != 1:
                print('%s: %d matches in %s of %r' % (id, s.count(old), f, old[:60]))
                return
            lines = range(s[:s.index(old)].count('\n') + 1,
                          s[:s.index(old) + len(old)].count('\n') + 2)
            open(path, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
        # Changed lines have to be lines of the original repository.
        for f in {e[0] for e in edits}:
            blame = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', 'HEAD', '--', f],
                                            text=True).split('\n')
            import re
            cur, n = None, 0
            for line in diff.split('\n'):
                m = re.match(r'\+\+\+ b/(.*)', line)
                if m:
                    cur = m.group(1)
                m = re.match(r'@@ -(\d+)', line)
                if m:
                    n = int(m.group(1))
                    continue
                if cur != f:
                    continue
                if line.startswith('-') and not line.startswith('---'):
                    log = blame[n - 1].split(' ')[0].lstrip('^')
                    r = subprocess.run(['git', '-C', '/repo', 'merge-base', '--is-ancestor',
                                        log, 'dbb565d'])
                    if r.returncode != 0:
                        print('%s: changes a line of a fix: %s' % (id, line))
                    n += 1
                elif line.startswith(' '):
                    n += 1
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(w)
