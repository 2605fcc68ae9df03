#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run this file to rewrite both)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CATALOG = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, forall, why, files, mechanism, technique=None, note=None, observe=None):
    CATALOG.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files,
                        mechanism=mechanism, technique=technique, note=note, observe=observe))


def na(id, reason):
    NOT_APPLICABLE.append((id, reason))


AI = 'path-sensitive abstract interpretation of the typed AST (value numbering, path facts, ordered effects)'
TRUST = ('Trusts the clang AST, the model of the standard library in sa/engine.py and that loops are summarised by one arbitrary iteration; '
         'paths are enumerated with callees interpreted in place, no solver.')

import catalog_data     # noqa: E402,F401


def titles():
    return {p['id']: p['title'] for p in CATALOG}


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in sorted(CATALOG, key=lambda p: p['id']):
            assert len(p['title']) <= 80, p['title']
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
            if p['observe']:
                a['observe_at'] = p['observe']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['forall']},
                                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    nas = dict(NOT_APPLICABLE)
    m = {'version': 1,
         'setup_cmd': 'python3 setup.py',
         'checks': [], 'not_applicable': [{'property': i, 'reason': r} for i, r in NOT_APPLICABLE],
         'notes': 'No hooks: every check reads the source of the current tree. Unfixed genuine defects are in known_findings.json.'}
    for p in sorted(CATALOG, key=lambda p: p['id']):
        if p['id'] in nas:
            continue
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                            'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                            'technique': p['technique'], 'level': 'other', 'level_note': p['note'] or TRUST})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    import catalog
    catalog.main()
