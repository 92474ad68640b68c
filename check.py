#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Decides one property of /repo's current source statically. Exit 0: holds on
everything analysed. Exit 1: a VIOLATION line names the property and a replay file
with the construct at fault."""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import json
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)
import judge  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    repo = os.environ.get('VP_REPO', '/repo')
    t0 = time.time()
    try:
        res = judge.decide(pid, tier, repo)
    except Exception as x:
        # nothing was decided: fail closed
        res = {'violations': [{'key': 'no decision: %s' % type(x).__name__, 'detail': traceback.format_exc()[-3000:]}],
               'coverage': {'explanation': 'the analysis did not complete: %s' % x}, 'assumptions': []}
    known, fixed = judge.known_findings()
    new = []
    for v in res['violations']:
        if (pid, v['key']) in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, v['key']))
        else:
            new.append(v)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    replay = os.path.join(HERE, 'evidence', pid + '.violation.txt')
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': res['coverage'], 'assumptions': res['assumptions'], 'wall_s': round(time.time() - t0, 2),
          'violations': len(new)}
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    if new:
        with open(replay, 'w') as f:
            for v in new:
                f.write('%s\n    %s\n\n' % (v['key'], str(v.get('detail', '')).replace('\n', '\n    ')))
        for v in new[:int(os.environ.get('VP_PRINT', '20'))]:
            print('%s: %s' % (pid, v['key']))
            print('    ' + str(v.get('detail', ''))[:1500].replace('\n', '\n    '))
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        sys.exit(1)
    if os.path.exists(replay):
        os.unlink(replay)
    print('%s: %s' % (pid, res['coverage'].get('explanation', 'ok')[:300]))
    sys.exit(0)


if __name__ == '__main__':
    main()
