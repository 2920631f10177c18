#!/usr/bin/env python3
'''
Decides one property of /repo by static analysis of its current source.

usage: check.py --property C01 [--tier quick|thorough] [--repo /repo]

exit 0: held on everything analysed; exit 1: VIOLATION line(s) printed; any other exit: no answer
'''

import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from hsa import driver, names, props, rules as rulesmod    # noqa: E402


def load_known(pid):
    'keys listed in known_findings.txt for this property: key -> text'
    out = {}
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        with open(path, encoding='utf-8') as fh:
            for line in fh:
                line = line.strip()
                if line.startswith('finding: property=%s ' % pid) and ' key=' in line:
                    rest = line.split(' key=', 1)[1]
                    key, _, text = rest.partition(' | ')
                    out[key.strip()] = text.strip()
    return out


def closure(sess, quals):
    'functions of the reference model reachable from quals by calls'
    import ast
    seen = list(quals)
    todo = list(quals)
    names = {}
    for q, f in sess.ref.funcs.items():
        names.setdefault(f.name, []).append(q)
    while todo:
        f = sess.ref.funcs.get(todo.pop())
        if f is None:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) \
                    else None
                cands = names.get(nm, []) if nm else []
                if nm in sess.ref.classes:
                    cands = [nm + '.__init__'] if nm + '.__init__' in sess.ref.funcs else []
                if len(cands) <= 2:
                    for q in cands:
                        if q not in seen:
                            seen.append(q)
                            todo.append(q)
    return seen


SKIP_CLOSURE = ('AggDagNode.viz', 'AggDag.viz', 'AggDag.save_viz', 'Timers.')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    p = props.by_id(a.property)
    pid = p['id']
    thorough = a.tier == 'thorough'

    sess = driver.Session(a.repo, budget=120 if thorough else 25)
    if sess.tgt.unparsed:
        for path, why in sess.tgt.unparsed:
            print('cannot parse %s: %s' % (path, why), file=sys.stderr)
        return 2

    quals = list(p['functions'])
    own = set(quals)
    if thorough:
        quals += [q for q in closure(sess, quals) if q not in own and not q.startswith(SKIP_CLOSURE)]

    findings = []       # (key, message, loc)
    undet, decided, effects = [], [], 0
    opts = {}
    for q in quals:
        r = sess.check(q, opts)
        effects += r.effects if isinstance(r.effects, int) else len(r.effects)
        if r.verdict == 'SAME':
            decided.append(q)
        elif r.verdict == 'DIFF':
            decided.append(q)
            for d in r.diffs:
                if d.verdict == 'DIFF':
                    findings.append(('effects:' + q, d.msg, d.loc or r.loc))
        else:
            undet.append((q, r.why or '; '.join(d.msg for d in r.diffs)[:200]))

    rule_report = []
    for name in p['rules']:
        rr = rulesmod.RULES[name](sess, p)
        rule_report.append({'rule': name, 'text': rr.text, 'obligations': rr.obligations, 'undecided': rr.undecided,
                            'samples': rr.samples[:6], 'violated': len(rr.findings)})
        findings += [('%s:%s' % (name, k), m, l) for k, m, l in rr.findings]

    obligations = len(decided) + sum(r['obligations'] for r in rule_report)
    if obligations == 0:
        print('property %s: nothing could be decided (%d functions undetermined)' % (pid, len(undet)), file=sys.stderr)
        for q, why in undet:
            print('   %s: %s' % (q, why), file=sys.stderr)
        return 2

    known = load_known(pid)
    new = []
    shown = set()
    for key, msg, loc in findings:
        if key in known:
            if key not in shown:
                shown.add(key)
                print('KNOWN-FINDING: property=%s %s' % (pid, known[key]))
        else:
            new.append((key, msg, loc))

    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)

    def show_loc(loc):
        if not loc:
            return '?'
        path = os.path.relpath(loc[0], a.repo) if str(loc[0]).startswith(a.repo) else loc[0]
        return '%s:%s (%s)' % (path, loc[1], loc[2] if len(loc) > 2 else '')

    if new:
        rp = os.path.join(evdir, '%s.violation.txt' % pid)
        with open(rp, 'w', encoding='utf-8') as fh:
            fh.write('property %s: %s\n%s\n\n' % (pid, p['title'], p['statement']))
            for key, msg, loc in new:
                fh.write('[%s] at %s\n    %s\n' % (key, show_loc(loc), msg))
            fh.write('\nrepeat with: python3 %s --property %s --tier %s\n' % (os.path.join(HERE, 'check.py'), pid, a.tier))
        for key, msg, loc in new[:12]:
            print('  [%s] at %s: %s' % (key, show_loc(loc), msg[:400]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))

    n_rule = sum(r['obligations'] for r in rule_report)
    expl = ('Source of %s parsed afresh (digest %s). %d functions were evaluated to gated value graphs and compared with their '
            'reference models: %d decided, %d undetermined (no claim is made for those), %d guarded effects (calls, '
            'field updates, raises, returned values) matched or refuted. %s' % (
                a.repo, sess.tgt.digest()[:16], len(quals), len(decided), len(undet), effects,
                ' '.join('Rule %s: %d obligations, %d violated.' % (r['rule'], r['obligations'], r['violated'])
                         for r in rule_report)))
    ev = {
        'property': pid, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': expl,
            'functions_compared': len(quals), 'functions_decided': len(decided),
            'undetermined': [{'function': q, 'reason': w} for q, w in undet],
            'effects_compared': effects,
            'rule_obligations': n_rule, 'rules': rule_report,
            'samples': decided[:8],
            'known_findings_seen': sorted(shown),
            'violations': [{'key': k, 'message': m[:600], 'where': show_loc(l)} for k, m, l in new],
        },
        'assumptions': ['the reference models in ref/ state the intended behaviour (reviewed by hand, see DESIGN.md)',
                        'library calls behave as modelled in hsa/interp.py', 'arithmetic is over the reals'],
        'violations': len(new),
        'wall_s': round(time.time() - t0, 3),
    }
    if not a.no_evidence:
        with open(os.path.join(evdir, pid + '.json'), 'w', encoding='utf-8') as fh:
            json.dump(ev, fh, indent=1)
            fh.write('\n')
    print('property %s: %d functions compared (%d undetermined), %d effects, %d rule obligations, %d new violations' % (
        pid, len(quals), len(undet), effects, n_rule, len(new)))
    return 1 if new else 0


if __name__ == '__main__':
    sys.exit(main())
