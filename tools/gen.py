#!/usr/bin/env python3
"""Regenerates the committed reference from the current tree (run by hand, after
review, never by a check): tables/*.json, properties.jsonl, MANIFEST.json.

  gen.py known     tables/functions.json from the current tree
  gen.py tables [ID...]   contract tables of the properties
  gen.py docs      properties.jsonl and MANIFEST.json
"""
import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import json
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.path.insert(0, VERIF)
from multiprocessing import Pool
import facts
import ir
import judge
import sem


def known():
    P = ir.Program(facts.get(os.environ.get('VP_REPO', '/repo')))
    d = {}
    for f in P.fns:
        if f.kind in ('fn', 'method') and not f.d.get('derived'):
            body = f
            for b in f.blocks:
                for x in b[0]:
                    if len(x) > 1 and isinstance(x[1], list) and x[1][:2] == ['agg', 'coroutine']:
                        body = P.resolve(x[1][2], f.crate) or f
            d[f.uid] = [1 if sem.trivial(f) and sem.trivial(body) else 0, judge.sig(f)]
    with open(os.path.join(VERIF, 'tables', 'functions.json'), 'w') as o:
        o.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(d[k])) for k in sorted(d)) + '\n}\n')
    print(len(d), 'functions')


def select(P, pats):
    """functions named by the patterns of a property: 'Type::name', 'file:src/x.rs'
    (all functions of a file), '-Type::name' (exclude), '+Type::name' (thorough only)"""
    uids = {}
    minus = set()
    for p in pats:
        opts = {}
        if isinstance(p, tuple):
            p, opts = p
        th = False
        if p.startswith('+'):
            th = True
            p = p[1:]
        neg = p.startswith('-')
        if neg:
            p = p[1:]
        if p.startswith('file:'):
            fs = [f for f in P.fns if f.file == p[5:] and f.kind in ('fn', 'method') and not f.d.get('derived') and (not f.bin or f.bin == 'bin-acorn')]
        elif p.startswith('re:'):
            import re
            fs = [f for f in P.fns if re.search(p[3:], f.uid) and f.kind in ('fn', 'method') and not f.d.get('derived') and (not f.bin or f.bin == 'bin-acorn')]
        elif p.startswith('mod:'):
            fs = [f for f in P.fns if f.full.startswith(p[4:] + '::') and f.kind in ('fn', 'method') and not f.d.get('derived')]
        else:
            fs = [f for f in (P.find(p) or [f for f in P.fns if f.uid.endswith(p)]) if f.kind in ('fn', 'method') and (not f.bin or f.bin == 'bin-acorn')]
        if not fs:
            print('no function matches %r' % p)
            continue
        for f in fs:
            if neg:
                minus.add(f.uid)
            else:
                uids[f.uid] = (opts, th)
    return {u: o for u, o in uids.items() if u not in minus}


def tables(ids):
    props = judge.spec()
    prog, al = judge.load(os.environ.get('VP_REPO', '/repo'))
    if al:
        print('aliases', {u: f.path for u, f in al.items()})
    jobs = []
    sel = {}
    owner = {}
    shared = 0
    for pid, sp in sorted(props.items()):
        s = select(prog, sp.get('fns', []))
        sel[pid] = s
        for u in s:
            if u in owner:
                shared += 1
            owner[u] = pid
    print('shared', shared)
    want = sorted(set((u, json.dumps(o)) for pid in props if not ids or pid in ids for u, (o, th) in sel[pid].items()))
    with Pool(8) as p:
        res = p.map(judge.derive_one, [(u, json.loads(o)) for u, o in want], chunksize=4)
    rows = {(u, o): (r, e) for (u, o), (_, r, e) in zip(want, res)}
    for pid in sorted(props):
        if ids and pid not in ids:
            continue
        t = {}
        n = 0
        for u, (o, th) in sorted(sel[pid].items()):
            r, e = rows[(u, json.dumps(o))]
            if e:
                print('SKIP', pid, u, e)
                continue
            if not r:
                continue
            t[u] = {'rows': r}
            n += len(r)
            if o:
                t[u]['opts'] = o
            if th:
                t[u]['thorough'] = True
        with open(os.path.join(VERIF, 'tables', pid + '.json'), 'w') as f:
            f.write('{\n')
            for i, u in enumerate(sorted(t)):
                x = t[u]
                f.write((',\n' if i else '') + json.dumps(u) + ': {')
                for k in ('opts', 'thorough'):
                    if k in x:
                        f.write('"%s": %s, ' % (k, json.dumps(x[k])))
                f.write('"rows": [\n ' + ',\n '.join(json.dumps(r, sort_keys=True) for r in x['rows']) + '\n]}')
            f.write('\n}\n')
        print(pid, len(t), 'functions', n, 'rows')
    have = set(props)
    for fn in os.listdir(os.path.join(VERIF, 'tables')):
        if fn.endswith('.json') and fn != 'functions.json' and fn[:-5] not in have:
            os.unlink(os.path.join(VERIF, 'tables', fn))


def docs():
    import spec.props as S
    props = judge.spec()
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for pid, sp in sorted(list(props.items()) + list(S.NOT_APPLICABLE.items())):
            d = {'id': pid, 'title': sp['title'], 'statement': sp['statement'],
                 'quantifier': {'over': sp['over'], 'text': sp['quant']}, 'why_tests_cant': sp['why'],
                 'anchors': {'files': sp['files'], 'mechanism': sp['mechanism'], 'state': sp.get('state', []),
                             'observe_at': sp.get('observe', []), 'hook_needed': None}}
            f.write(json.dumps(d) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 engine/facts.py',
           'checks': [], 'not_applicable': [{'property': k, 'reason': v['na']} for k, v in sorted(S.NOT_APPLICABLE.items())]}
    for pid, sp in sorted(props.items()):
        man['checks'].append({'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid,
                              'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
                              'technique': sp.get('technique', S.TECHNIQUE), 'level': 'other', 'level_note': sp.get('note', S.NOTE)})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    if sys.argv[1] == 'docs':
        import atexit, subprocess
        atexit.register(lambda: subprocess.call([sys.executable, os.path.join(VERIF, 'tools', 'design.py')]))
    {'known': lambda a: known(), 'tables': tables, 'docs': lambda a: docs()}[sys.argv[1]](sys.argv[2:])
