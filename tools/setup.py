"""Setup: parse every specification once with SANY (nothing is built)"""
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = '/opt/veriftools/tla'
spec = os.path.join(VERIF, 'spec')
os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
failed = False
names = sorted(x for x in os.listdir(spec) if x.endswith('.tla'))
r = subprocess.run(['java', '-cp', TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar', 'tla2sany.SANY'] + names,
                   cwd=spec, capture_output=True, text=True)
if r.returncode or 'rror' in r.stdout:
    print(r.stdout[-3000:], r.stderr[-2000:])
    failed = True
print('{} specifications'.format(len(names)))
sys.exit(1 if failed else 0)
