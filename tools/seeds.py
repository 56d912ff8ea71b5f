"""Rewrites the table of the planted bugs at the end of DESIGN.md, from seeded/*/meta.json."""
import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '## Planted bugs\n'


def main():
    path = os.path.join(VERIF, 'DESIGN.md')
    text = open(path, encoding='utf8').read().split(HEAD)[0]
    rows = []
    for meta in sorted(glob.glob(os.path.join(VERIF, 'seeded', '*', 'meta.json'))):
        m = json.load(open(meta, encoding='utf8'))
        rows.append('| {} | {} | {} | {} |'.format(os.path.basename(os.path.dirname(meta)), m['property'], m['needs'], m['what_it_breaks']))
    text += HEAD + '\nEach is caught by the quick tier of the check of its property (seed 1).\n\n| id | check | needs | breaks |\n|---|---|---|---|\n'
    text += '\n'.join(rows) + '\n'
    open(path, 'w', encoding='utf8').write(text)


main()
