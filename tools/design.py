"""Fill the generated sections of DESIGN.md."""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import spec.props as S


def put(s, name, text):
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    s = re.sub(re.escape(a) + r'.*?' + re.escape(b), lambda m: a, s, flags=re.S)
    return s.replace(a, a + '\n' + text.rstrip() + '\n' + b)


def main():
    p = os.path.join(V, 'DESIGN.md')
    s = open(p).read()
    rows = ['| id | property | functions | rows | rules |', '|---|---|---|---|---|']
    used = {}
    for pid, sp in sorted(S.PROPS.items()):
        t = json.load(open(os.path.join(V, 'tables', pid + '.json')))
        names = [r.__name__ for r in sp['rules']]
        for n, r in zip(names, sp['rules']):
            used.setdefault(n, (r, []))[1].append(pid)
        rows.append('| %s | %s | %d | %d | %s |' % (pid, sp['title'], len(t), sum(len(x['rows']) for x in t.values()), ' '.join(names)))
    s = put(s, 'properties', '\n'.join(rows))
    s = put(s, 'rules', '\n'.join('* `%s` (%s): %s' % (n, ', '.join(p), ' '.join((r.__doc__ or '').split())) for n, (r, p) in sorted(used.items())))
    s = put(s, 'na', '\n'.join('* **%s** %s — %s' % (k, v['title'], v['na']) for k, v in sorted(S.NOT_APPLICABLE.items())))
    sd = ['| seed | property | what it breaks | caught by |', '|---|---|---|---|']
    for m in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        d = json.load(open(m))
        sd.append('| %s | %s | %s | %s |' % (m.split('/')[-2], d['property'], d['what_it_breaks'], d.get('caught_by', d['property'])))
    s = put(s, 'seeds', '\n'.join(sd))
    fx = [l.strip() for l in open(os.path.join(V, 'known_findings.txt')) if l.startswith(('fixed', 'finding'))]
    s = put(s, 'fixed', '\n'.join('* ' + x for x in fx))
    open(p, 'w').write(s)


main()
