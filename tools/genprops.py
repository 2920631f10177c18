#!/usr/bin/env python3
'writes properties.jsonl and MANIFEST.json from hsa/props.py'

import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from hsa import props  # noqa: E402

RULE_WORDS = {
    'timer_balance': 'path-sensitive typestate of the timer stack',
    'freeze_discipline': 'declared-before-sealed attribute analysis',
    'determinism': 'effect analysis for sources of non-determinism',
    'argument_mutation': 'interprocedural alias/mutation analysis',
    'captured_arguments': 'escape analysis of arguments and fields',
    'strategy_interface': 'call-site/override conformance query',
    'verdict_writers': 'who-writes query over the call graph',
    'enum_dispatch': 'constant distinctness query',
    'settings_declared': 'declared-attribute query',
    'names_resolve': 'name, attribute, arity and format-string resolution over the syntax tree',
    'none_discipline': 'flow-sensitive checked-before-use analysis',
}
CMP = 'gated value-graph normalisation of each function compared with its reference model'


def line(i, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    return {
        'id': i, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mechanism],
                    'observe_at': list(observe), 'hook_needed': None},
    }


def main():
    rows = []
    checks = []
    na = []
    for p in props.PROPS:
        rows.append(line(p['id'], p['title'], p['statement'], p['over'], p['text'], p['why'], p['files'], p['mechanism'],
                         p['state'], p['observe']))
        tech = p['technique']
        if not tech:
            parts = ([CMP] if p['functions'] else []) + [RULE_WORDS[r] for r in p['rules']]
            tech = 'static: ' + '; '.join(parts)
        note = 'Decides every effect of %d functions%s from source on each run; ' % (
            len(p['functions']), ' and %d whole-program rule(s)' % len(p['rules']) if p['rules'] else '')
        if not p['functions']:
            note = 'Decides %d whole-program rule(s) at every site of the package from source on each run; ' % len(p['rules'])
        note += 'constructs outside the analysed fragment are counted as undetermined and not claimed. Trusts the reviewed ' \
                'reference models, the modelled library semantics and real arithmetic.'
        if p['note']:
            note += ' ' + p['note'][0].upper() + p['note'][1:] + '.'
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py --property %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 check.py --property %s --tier thorough' % p['id'],
            'technique': tech, 'level': 'other', 'level_note': note})
    for n in props.NOT_APPLICABLE:
        i, title, statement, over, text, why, files, mech, reason = n
        rows.append(line(i, title, statement, over.split(), text, why, files.split(), mech))
        na.append({'property': i, 'reason': reason})
    for r in rows:
        assert len(r['title']) <= 80, r['title']
        assert r['statement'].count('. ') <= 2, (r['id'], r['statement'])
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as fh:
        for r in rows:
            fh.write(json.dumps(r) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 -m compileall -q hsa check.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: the checks read the source of /repo and never run it.'}
    tmpl = open(os.path.join(HERE, 'tools', 'DESIGN.tmpl.md'), encoding='utf-8').read()
    tab = ['| id | property | functions compared | rules | remarks |', '|---|---|---|---|---|']
    for p in props.PROPS:
        tab.append('| %s | %s | %d: %s | %s | %s |' % (
            p['id'], p['title'], len(p['functions']), ', '.join(p['functions']), ', '.join(p['rules']) or '-',
            p['note'] or ('assertions included' if p['asserts'] else '')))
    seeded = os.path.join(HERE, 'seeded', 'RESULTS.md')
    res = open(seeded, encoding='utf-8').read() if os.path.exists(seeded) else 'none yet'
    with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf-8') as fh:
        fh.write(tmpl.replace('@@TABLE@@', '\n'.join(tab)).replace('@@SEEDED@@', res))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
