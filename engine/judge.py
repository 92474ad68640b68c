"""Decide one property: its contract tables and its explicit rules."""
import importlib
import json
import os
import time
from multiprocessing import Pool

import facts
import ir
import sem
import table

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
TABLES = os.path.join(VERIF, 'tables')

BUDGET = {'quick': 400000, 'thorough': 2000000}
_P = None
_KNOWN = None
_TIER = 'quick'


def spec():
    import sys
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module('spec.props').PROPS


def known_findings():
    known, fixed = set(), []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            if line.startswith('finding: property='):
                a, b = line[len('finding: property='):].split(' ', 1)
                known.add((a, b))
            elif line.startswith('fixed:'):
                fixed.append(line)
    return known, fixed


def sig(fn):
    return ','.join(fn.lty(i) for i in range(0, fn.nargs + 1))


def modpath(full):
    return full.rsplit('::', 1)[0]


def aliases(prog, base):
    """Functions of the reference tree that are gone, matched to functions of this
    tree that the reference does not have (renamed or moved ones): uid -> Fn"""
    uids = {f.uid: f for f in prog.fns}
    missing = [u for u in base if u not in uids]
    if not missing:
        return {}
    fresh = [f for f in prog.fns if f.uid not in base and f.kind in ('fn', 'method')]
    out = {}
    taken = set()
    for u in missing:
        b = base[u]
        full = u.split('|')[0]
        bin_, full = full.split('!', 1) if '!' in full else ('', full)
        last = full.rsplit('::', 1)[-1]
        # moved: same last name; renamed: same module or type
        for test in (lambda f: f.full.rsplit('::', 1)[-1] == last and sig(f) == b['sig'],
                     lambda f: modpath(f.full) == modpath(full) and sig(f) == b['sig'] and b['sig'],
                     lambda f: f.full.rsplit('::', 1)[-1] == last and f.full.rsplit('::', 2)[-2:-1] == full.rsplit('::', 2)[-2:-1]):
            c = [f for f in fresh if f.uid not in taken and f.bin == bin_ and test(f)]
            if len(c) == 1:
                out[u] = c[0]
                taken.add(c[0].uid)
                break
    return out


def apply_aliases(prog, al):
    """Give renamed functions their reference names everywhere."""
    for u, f in al.items():
        full = u.split('|')[0]
        full = full.split('!', 1)[1] if '!' in full else full
        f.uid = u
        old = f.name
        f.full = full
        f.name = '::'.join(full.split('::')[-2:])
        prog.by_name.setdefault(f.name, []).append(f)


def reference():
    b = json.load(open(os.path.join(TABLES, 'functions.json')))
    return {u: {'trivial': bool(v[0]), 'sig': v[1]} for u, v in b.items()}


def load(repo):
    global _P, _KNOWN
    d = facts.get(repo)
    _P = ir.Program(d)
    ref = reference()
    al = aliases(_P, ref)
    apply_aliases(_P, al)
    _KNOWN = {u: v['trivial'] for u, v in ref.items()}
    return _P, al


def cfg_of(opts):
    return table.Cfg(budget=BUDGET[_TIER], K=96, **opts)


def judge_one(job):
    uid, opts, rows = job
    fn = [f for f in _P.fns if f.uid == uid]
    if len(fn) != 1:
        return uid, [{'key': '%s: anchored function not found' % uid, 'detail': 'the contract of this function can no longer be decided'}], 0, 0
    fn = fn[0]
    try:
        occ, e = table.analyze(_P, fn, cfg_of(opts), _KNOWN)
    except sem.Budget:
        return uid, [{'key': '%s: not decided' % uid, 'detail': 'analysis budget exceeded'}], 0, 0
    R = table.dec_rows(rows)
    out = []
    seen = set()
    for o, miss, md in table.check(occ, R):
        key = '%s: %s' % (uid, table.key_text(o.key)[:400])
        if key in seen:
            continue
        seen.add(key)
        if isinstance(miss, str):
            det = '%s:%s: %s' % (fn.file, o.line, miss)
        else:
            det = '%s:%s: happens without\n' % (fn.file, o.line)
            for t, v in miss[:6]:
                have = o.facts.get(t)
                det += '  %s = %s%s\n' % (t[:300], json.dumps(table.enc_vals(v))[:300], '' if have is None else ' (here: %s)' % json.dumps(table.enc_vals(have))[:200])
            for x in md[:4]:
                det += '  having done %s\n' % table.key_text(x)[:300]
        out.append({'key': key, 'detail': det})
    for k in table.gone(occ, R):
        out.append({'key': '%s: never: %s' % (uid, table.key_text(k)[:400]), 'detail': '%s: this effect or outcome is never reached any more' % fn.file})
    return uid, out, len(occ), len(R)


def decide(pid, tier, repo):
    global _TIER
    _TIER = tier
    sp = spec()[pid]
    prog, al = load(repo)
    viol = []
    cov = {}
    nocc = nrow = 0
    tab = table_of(pid)
    jobs = [(u, t.get('opts', {}), t['rows']) for u, t in sorted(tab.items()) if tier == 'thorough' or not t.get('thorough')]
    if jobs:
        with Pool(min(8, len(jobs))) as p:
            res = p.map(judge_one, jobs, chunksize=1)
    else:
        res = []
    fl = {}
    for u, v, no, nr in res:
        viol += v
        nocc += no
        nrow += nr
        fl[u] = {'occurrences': no, 'contract_rows': nr}
    rules = []
    for r in sp.get('rules', []):
        t0 = time.time()
        name, v, info = r(prog, tier)
        rules.append({'rule': name, 'obligations': info.get('obligations', 0), 'sites': info.get('sites', [])[:40]})
        if not info.get('obligations'):
            viol.append({'key': 'rule %s: nothing to check' % name, 'detail': 'the construct this rule judges was not found'})
        viol += [{'key': 'rule %s: %s' % (name, x['key']), 'detail': x.get('detail', '')} for x in v]
    ob = nrow + sum(r['obligations'] for r in rules)
    cov = {
        'explanation': '%d functions decided against %d contract rows (%d abstract occurrences of effects and outcomes), %d explicit rules with %d obligations; %d functions of the crate indexed' % (
            len(jobs), nrow, nocc, len(rules), sum(r['obligations'] for r in rules), len(prog.fns)),
        'functions': fl, 'rules': rules, 'obligations': ob, 'discharged': ob - len(viol) if ob >= len(viol) else 0,
        'renamed_or_moved': {u: f.path for u, f in al.items()},
    }
    return {'violations': viol, 'coverage': cov, 'assumptions': [
        'rustc nightly MIR of the lib and bins, dev profile, default features',
        'calls to functions outside the crate behave as their documented contracts modelled in engine/sem.py',
    ] + sp.get('assumptions', [])}


def table_of(pid):
    p = os.path.join(TABLES, pid + '.json')
    if not os.path.exists(p):
        return {}
    return json.load(open(p))


# --- generation of the reference (tools/gen.py) -------------------------------------

def derive_one(job):
    uid, opts = job
    fn = [f for f in _P.fns if f.uid == uid][0]
    try:
        occ, e = table.analyze(_P, fn, cfg_of(opts), _KNOWN)
    except sem.Budget:
        return uid, None, 'budget'
    rows = table.enc_rows(table.build(occ, e))
    bad = table.check(occ, table.dec_rows(rows))
    return uid, rows, ('self-mismatch %d' % len(bad)) if bad else None
