#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and harness/checks.json.
Run: python3 harness/props.py (rewrites the three files)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
P = []


def prop(id, title, statement, over, qtext, why, files, mech, drivers, technique, note, assume, cli=False, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                         why_tests_cant=why, anchors=a),
                  drivers=drivers, technique=technique, note=note, assume=assume, cli=cli))


NA = []
exec(open(os.path.join(HERE, 'props_data.py')).read())

with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
    for e in P:
        f.write(json.dumps(e['p'], ensure_ascii=False) + '\n')
    for e in NA:
        f.write(json.dumps(e['p'], ensure_ascii=False) + '\n')
checks = {e['p']['id']: dict(drivers=e['drivers'], level='exploration', assumptions=e['assume'], cli=e['cli']) for e in P}
json.dump(checks, open(os.path.join(HERE, 'checks.json'), 'w'), indent=1)
man = dict(version=1, setup_cmd='python3 harness/build.py --warm',
           checks=[dict(property=e['p']['id'], quick_cmd='python3 harness/check.py %s --tier quick' % e['p']['id'],
                        thorough_cmd='python3 harness/check.py %s --tier thorough' % e['p']['id'],
                        evidence_file='evidence/%s.json' % e['p']['id'], technique=e['technique'], level='exploration',
                        level_note=e['note']) for e in P],
           not_applicable=[dict(property=e['p']['id'], reason=e['reason']) for e in NA],
           notes='No hooks in /repo. Every check compiles Gyoto (library, standard plug-in, and where needed the command line tool) from /repo\'s working tree into /verif/.build and runs generated cases in forked worker processes; see DESIGN.md.')
json.dump(man, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)

# --- DESIGN.md: everything after the marker is generated ---
MARK = '<!-- generated by harness/props.py below this line -->'
D = os.path.join(VERIF, 'DESIGN.md')
head = open(D).read().split(MARK)[0]
o = [MARK, '', '## Per property', '']
for e in P:
    p = e['p']
    o += ['### %s %s' % (p['id'], p['title']), '', '* Quantified over: ' + p['quantifier']['text'] + '.',
          '* Why the tests cannot settle it: ' + p['why_tests_cant'], '* Decided by ' + e['technique'] + ' (drivers: ' +
          ', '.join('`harness/%s.cpp` [%s]' % (d[0], d[1]) for d in e['drivers']) + ').', '* Oracle and bounds: ' + e['note']]
    o += ['* Scope: ' + a for a in e['assume']]
    o += ['']
cf = os.path.join(VERIF, 'tools', 'caught.txt')
if os.path.exists(cf):
    o += ['## Planted bugs and the checks that catch them', '', 'Validated with `tools/seedval.py` (demo passes/fails, stable tests pass, quick check with seed 1).', '',
          '| planted bug | property | result | what it breaks |', '|---|---|---|---|']
    for l in open(cf):
        if l.strip(): o.append('| ' + ' | '.join(l.rstrip('\n').split('\t')) + ' |')
    o.append('')
open(D, 'w').write(head + '\n'.join(o))
