"""Writes properties.jsonl and MANIFEST.json from the catalogue below, and the list of the fixed defects."""
import json
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENTRIES = []
NOT_APPLICABLE = []
TECHNIQUE = 'TLA+ specification checked with TLC; '


def P(pid, title, statement, over, text, why, files, mechanism, technique, note, level='model_checking', observe=()):
    assert len(title) <= 80, title
    ENTRIES.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                        mechanism=mechanism, technique=technique, note=note, level=level, observe=list(observe)))


exec(open(os.path.join(VERIF, 'tools', 'entries.py'), encoding='utf8').read())


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w', encoding='utf8') as fh:
        for e in ENTRIES:
            fh.write(json.dumps({
                'id': e['pid'], 'title': e['title'], 'statement': e['statement'],
                'quantifier': {'over': e['over'], 'text': e['text']},
                'why_tests_cant': e['why'],
                'anchors': {'files': e['files'],
                            'mechanism': [{'name': n, 'where': w} for n, w in e['mechanism']],
                            'observe_at': e['observe'], 'hook_needed': None},
            }, ensure_ascii=False) + '\n')
    na = {p for p, _ in NOT_APPLICABLE}
    manifest = {
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python tools/setup.py',
        'checks': [{
            'property': e['pid'],
            'quick_cmd': '/opt/venv/bin/python run.py {} quick'.format(e['pid']),
            'thorough_cmd': '/opt/venv/bin/python run.py {} thorough'.format(e['pid']),
            'technique': TECHNIQUE + e['technique'],
            'level': e['level'], 'level_note': e['note'],
            'evidence_file': 'evidence/{}.json'.format(e['pid']),
        } for e in ENTRIES if e['pid'] not in na],
        'not_applicable': [{'property': p, 'reason': r} for p, r in NOT_APPLICABLE],
        'notes': 'Every check imports /repo directly (no build product, no hook); see DESIGN.md.',
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w', encoding='utf8') as fh:
        json.dump(manifest, fh, indent=1, ensure_ascii=False)
        fh.write('\n')


main()
