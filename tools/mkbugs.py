#!/usr/bin/env python3
"""Makes /verif/seeded/<id> from tools/bugs.py: patch.diff, demo.sh, demo.py, meta.json.

Each bug is confirmed in a scratch copy of /repo: it applies, the sources
build, the 20 stable tests pass, and the demonstration exits 0 without the
change and nonzero with it.    mkbugs.py [ID...]"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

sys.path.insert(0, str(Path(__file__).parent))
from bugs import BUGS  # noqa: E402

SEEDED = Path(__file__).resolve().parents[1] / 'seeded'
REPO = os.environ.get('VF_REPO', '/repo')
PY = '/opt/venv/bin/python'
BASE = json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it does not
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def make(bid):
    b = BUGS[bid]
    w = Path(f'/tmp/bugs/{bid}')
    shutil.rmtree(w, ignore_errors=True)
    w.parent.mkdir(parents=True, exist_ok=True)
    subprocess.run(['git', 'clone', '-q', REPO, str(w)], check=True)
    d = SEEDED / bid
    d.mkdir(parents=True, exist_ok=True)
    (d / 'demo.sh').write_text(DEMO)
    (d / 'demo.sh').chmod(0o755)
    (d / 'demo.py').write_text(b['demo'].lstrip('\n'))
    for f, old, new, *cnt in b['edits']:
        p = w / 'src/sunwhere' / f
        s = p.read_text()
        n = cnt[0] if cnt else 1
        if s.count(old) != n:
            return bid, f'{f}: {s.count(old)} occurrences of {old!r}'
        p.write_text(s.replace(old, new))
    diff = sh(['git', 'diff'], w).stdout
    (d / 'patch.diff').write_text(diff)
    (d / 'meta.json').write_text(json.dumps(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), indent=1) + '\n')
    c = sh(['git', 'apply', '--check', str(d / 'patch.diff')], REPO)
    if c.returncode:
        return bid, 'does not apply ' + c.stdout
    with_ = sh(['bash', str(d / 'demo.sh')], w)
    without = sh(['bash', str(d / 'demo.sh')], REPO)
    env = dict(os.environ, PYTHONPATH=str(w / 'src'), PYTHONDONTWRITEBYTECODE='1')
    t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], w, env=env)
    last = t.stdout.strip().splitlines()[-1]
    mod = sh([PY, '-c', 'import sunwhere; print(sunwhere.__file__)'], w, env=env).stdout.strip()
    bad = []
    if without.returncode:
        bad.append('demo fails without: ' + without.stdout[-800:])
    if not with_.returncode:
        bad.append('demo passes with')
    if not mod.startswith(str(w)):
        bad.append('tests ran elsewhere: ' + mod)
    if t.returncode:
        bad.append('tests: ' + last + t.stdout[-600:])
    if 'Traceback' in with_.stdout and 'AssertionError' not in with_.stdout and not b.get('raises'):
        bad.append('demo crashed: ' + with_.stdout[-600:])
    shutil.rmtree(w)
    return bid, ('ok; ' + last + ' | ' + with_.stdout.strip().splitlines()[-1][:150]) if not bad else 'BAD ' + '; '.join(bad)


ids = sys.argv[1:] or list(BUGS)
with ThreadPoolExecutor(4) as ex:
    for bid, r in ex.map(make, ids):
        print(bid, r, flush=True)
