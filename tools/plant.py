"""plant.py ID PROP file 'needs' 'what' demo.py   (old and new text in /tmp/old.txt and /tmp/new.txt, or several files edited in a copy)
Creates /verif/seeded/ID from the edited copy /tmp/plant/repo after checking: tests pass, demo passes without and fails with the change."""
import sys, os, subprocess, json, shutil
ID, prop, needs, what, demo = sys.argv[1:6]
P = '/tmp/plant'
R = P + '/repo'
d = '/verif/seeded/' + ID
subprocess.check_call(['git', '-C', R, 'add', '-A', '-N'])
diff = subprocess.check_output(['git', '-C', R, 'diff', 'HEAD']).decode()
assert diff, 'no change'
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(diff)
shutil.copy(demo, d + '/demo.py')
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds on the demonstration
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here/stubs" TMPDIR="$tmp" MPLBACKEND=Agg
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
"$py" -W ignore "$here/demo.py"
''')
os.chmod(d + '/demo.sh', 0o755)
if os.path.exists(d + '/stubs'): shutil.rmtree(d + '/stubs')
shutil.copytree('/verif/stubs', d + '/stubs', ignore=shutil.ignore_patterns('__pycache__'))
json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
a = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
b = subprocess.run(['bash', d + '/demo.sh'], cwd=R, capture_output=True, text=True)
print('clean', a.returncode, a.stdout[-300:], a.stderr[-800:]); print('planted', b.returncode, (b.stdout + b.stderr)[-300:])
t = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'fixif/func_aux/test/test_MPFmatrix.py'], cwd=R, capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=R))
print(t.stdout.strip().splitlines()[-1])
ok = a.returncode == 0 and b.returncode != 0 and '8 passed' in t.stdout
print('OK' if ok else 'NOT KEPT')
if not ok: shutil.rmtree(d)
