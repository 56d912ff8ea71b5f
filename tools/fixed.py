"""Writes the 'fixed:' entries of known-findings.txt from the log of /repo.
The property of each commit is given by the first pattern (file or words of the subject) that matches."""
import os
import re
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = []
exec(open(os.path.join(VERIF, 'tools', 'rules.py')).read())

log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h\t%s'], capture_output=True, text=True).stdout
path = os.path.join(VERIF, 'known-findings.txt')
keep = [l for l in open(path, encoding='utf8') if not l.startswith('fixed:')] if os.path.exists(path) else []
lines = []
for line in log.splitlines():
    h, subject = line.split('\t', 1)
    if not subject.startswith('fix: '):
        continue
    files = subprocess.run(['git', '-C', '/repo', 'show', '--format=', '--name-only', h], capture_output=True, text=True).stdout.split()
    pid = None
    for pattern, p in RULES:
        if re.search(pattern, subject) or any(re.search(pattern, f) for f in files):
            pid = p
            break
    if pid is None:
        print('no property', h, subject, files)
        pid = 'X00'
    lines.append('fixed: property={} {} {}\n'.format(pid, h, subject[5:]))
with open(path, 'w', encoding='utf8') as fh:
    fh.writelines(keep + lines)
