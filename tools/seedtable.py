'''run all checks against a scratch copy of /repo with each planted bug of /verif/seeded, write seeded/RESULTS.md

usage: seedtable.py [ids...]  (without ids: all of them). Not part of any check.
'''

import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')


def run_check(args):
    'the exit code of one check'
    prop, repo = args
    res = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), '--property', prop, '--tier', 'quick',
                          '--repo', repo, '--no-evidence'], capture_output=True, text=True, check=False)
    return prop, res.returncode


def main():
    'entry'
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json'), encoding='utf-8'))
    props = [c['property'] for c in man['checks']]
    cache_path = os.path.join(SEEDED, 'results.json')
    cache = json.load(open(cache_path, encoding='utf-8')) if os.path.exists(cache_path) else {}
    ids = sys.argv[1:] or sorted(d for d in os.listdir(SEEDED) if os.path.isdir(os.path.join(SEEDED, d)))

    for bug in ids:
        tmp = tempfile.mkdtemp(prefix='seedtable')
        repo = os.path.join(tmp, 'repo')

        try:
            subprocess.run(['cp', '-a', '/repo', repo], check=True)
            subprocess.run(['git', 'apply', os.path.join(SEEDED, bug, 'patch.diff')], cwd=repo, check=True)

            with concurrent.futures.ThreadPoolExecutor(8) as pool:
                res = dict(pool.map(run_check, [(p, repo) for p in props]))
        finally:
            shutil.rmtree(tmp)

        cache[bug] = {'caught': sorted(p for p, rc in res.items() if rc == 1),
                      'other': sorted(p for p, rc in res.items() if rc not in (0, 1))}
        print(bug, cache[bug], flush=True)

    rows = ['| planted bug | property | caught by its own check | other checks that report it |', '| --- | --- | --- | --- |']
    missed = 0

    for bug in sorted(cache):
        meta_path = os.path.join(SEEDED, bug, 'meta.json')

        if not os.path.exists(meta_path):
            continue

        prop = json.load(open(meta_path, encoding='utf-8'))['property']
        caught = cache[bug]['caught']
        missed += prop not in caught
        rows.append('| {} | {} | {} | {} |'.format(bug, prop, 'yes' if prop in caught else '**no**',
                                                 ' '.join(p for p in caught if p != prop) or '-'))

    rows.append('')
    rows.append(f'{len(rows) - 3} planted bugs, {missed} missed by the check of their own property.')
    cache = {k: v for k, v in cache.items() if os.path.exists(os.path.join(SEEDED, k, 'meta.json'))}

    with open(cache_path, 'w', encoding='utf-8') as fh:
        json.dump(cache, fh, indent=1, sort_keys=True)
        fh.write('\n')

    with open(os.path.join(SEEDED, 'RESULTS.md'), 'w', encoding='utf-8') as fh:
        fh.write('\n'.join(rows) + '\n')


if __name__ == '__main__':
    main()
