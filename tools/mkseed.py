"""Write /verif/seeded/<id>/ from the definitions in tools/seedspecs/*.py (python3 tools/mkseed.py [id...])."""
import glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = []


def seed(id, prop, file, edits, needs, breaks, demo):
    SEEDS.append((id, prop, file, edits, needs, breaks, demo))


DEMO_SH = '''#!/bin/bash
# runs demo.py on /repo/privcount with Jython; exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
cd "$w" || exit 2
timeout 250 bash /opt/vp/jy.sh "$d/demo.py" "$d" "$w"
rc=$?
rm -rf "$w"
exit $rc
'''
PRELUDE = '''# -*- coding: utf-8 -*-
from __future__ import division
import sys, os, logging
HERE, WORK = sys.argv[1], sys.argv[2]
sys.path.insert(0, HERE)
import stubs_install; stubs_install.install()
logging.disable(logging.CRITICAL)
from copy import deepcopy


def check(cond, what):
    if not cond:
        print('FAILED: ' + what)
        sys.stdout.flush()
        os._exit(1)

'''

if __name__ == '__main__':
    for f in sorted(glob.glob(V + '/tools/seedspecs/*.py')):
        exec(compile(open(f).read(), f, 'exec'), {'seed': seed})
    for id, prop, file, edits, needs, breaks, demo in SEEDS:
        if sys.argv[1:] and id not in sys.argv[1:]:
            continue
        w = tempfile.mkdtemp(prefix='mkseed.')
        try:
            subprocess.check_call(['git', '-C', '/repo', 'worktree', 'list'], stdout=subprocess.DEVNULL)
            os.makedirs(w + '/r/' + os.path.dirname(file))
            subprocess.check_call(['git', 'init', '-q', w + '/r'])
            for fl in [file] if isinstance(file, str) else file:
                shutil.copy('/repo/' + fl, w + '/r/' + fl)
            subprocess.check_call(['git', '-C', w + '/r', 'add', '-A'])
            for e in edits:
                fl = file if isinstance(file, str) else e[0]
                old, new = e[-2:]
                s = open(w + '/r/' + fl, encoding='utf-8').read()
                assert s.count(old) == 1, (id, s.count(old), old)
                open(w + '/r/' + fl, 'w', encoding='utf-8').write(s.replace(old, new))
            d = V + '/seeded/' + id
            os.makedirs(d, exist_ok=True)
            diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
            assert diff
            open(d + '/patch.diff', 'wb').write(diff)
            open(d + '/demo.sh', 'w').write(DEMO_SH)
            open(d + '/demo.py', 'w').write(PRELUDE + demo.strip() + "\nprint('ok')\nsys.stdout.flush()\nos._exit(0)\n")
            shutil.copy(V + '/harness/stubs_install.py', d + '/stubs_install.py')
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
            print('wrote', id)
        finally:
            shutil.rmtree(w)
