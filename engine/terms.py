"""Hash-consed symbolic terms."""

class T(float):
    """A float only for the sake of a fast, run-independent hash and order
    (creation number + .5); terms are unique, so value equality is identity."""
    __slots__ = ('k', 'a', '_s', '_sub', '_mr', 'n')

    def __bool__(self):
        return True

    def __repr__(self):
        return show(self)

_tab = {}
_cnt = [0]

def mk(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        _cnt[0] += 1
        t = T(_cnt[0] + 0.5)
        t.k = k
        t.a = a
        t._s = None
        t._sub = None
        t._mr = None
        t.n = _cnt[0]
        _tab[key] = t
    return t


_base = [None]


def reset():
    """forget every term created since the modules were loaded, so that one
    analysis does not influence the term order of the next"""
    if _base[0] is None:
        _base[0] = (_cnt[0], dict(_tab))
        return
    _cnt[0] = _base[0][0]
    _tab.clear()
    _tab.update(_base[0][1])


def kids(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z
        elif isinstance(x, frozenset):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z


def subterms(t):
    """frozenset of ids of all subterms (incl. itself)."""
    if t._sub is None:
        s = {t}
        for x in kids(t):
            s |= subterms(x)
        t._sub = frozenset(s)
    return t._sub


def mrefs(t):
    if t._mr is None:
        t._mr = frozenset(x for x in subterms(t) if x.k == 'mref')
    return t._mr


def contains(t, sub):
    return sub in subterms(t)


def show(t):
    if t._s is None:
        t._s = _show(t)
    return t._s


def show_with(t, sub):
    """text of t with the texts of its direct parts given by `sub`"""
    saved = [(x, x._s) for x in sub]
    for x, s in sub.items():
        x._s = s
    try:
        return _show(t)
    finally:
        for x, s in saved:
            x._s = s


def _args(xs):
    return ', '.join(show(x) if isinstance(x, T) else str(x) for x in xs)


def _show(t):
    k, a = t.k, t.a
    if k == 'arg':
        return 'a%s' % a[0]
    if k == 'f':
        return '%s.%s' % (show(a[0]), a[1])
    if k == 'v':
        return '%s@%s' % (show(a[0]), a[1])
    if k == 'okp':
        return 'ok(%s)' % show(a[0])
    if k == 'errp':
        return 'err(%s)' % show(a[0])
    if k == 'k':
        return str(a[0])
    if k == 's':
        return repr(a[0])
    if k == 'call':
        return '%s(%s)' % (a[0], _args(a[1])) + ('#%d' % a[2] if len(a) > 2 and a[2] else '')
    if k == 'agg':
        # kind,name,variant,fields(tuple of (name,term))
        nm = a[1].split('::')[-1] if a[1] else a[0]
        if a[2]:
            nm = nm + '::' + a[2] if nm not in ('Option', 'Result', 'ControlFlow') else a[2]
        fs = a[3]
        if not fs:
            return nm
        if a[2] in ('Some', 'Ok') and len(fs) == 1 and fs[0][1].k == 'okp' and a[0] == 'adt':
            return show(fs[0][1].a[0])
        if fs[0][0].isdigit():
            return '%s(%s)' % (nm, _args([f[1] for f in fs]))
        return '%s{%s}' % (nm, ', '.join('%s: %s' % (n, show(v)) for n, v in sorted(fs, key=lambda x: x[0])))
    if k == 'bin':
        return '%s(%s)' % (a[0], _args(a[1:]))
    if k == 'un':
        return '%s(%s)' % (a[0], _args(a[1:]))
    if k == 'disc':
        return 'disc(%s)' % show(a[0])
    if k in ('elem', 'idx', 'done', 'forall', 'conv', 'index', 'key'):
        return '%s(%s)' % (k, _args(a))
    if k == 'did':
        return 'did %s(%s)' % (a[0], _args(a[1]))
    if k == 'bag':
        return 'bag{%s}' % ', '.join(sorted(show(x) for x in a[0]))
    if k == 'accv':
        return '\u21bb'
    if k == 'acc':
        return 'acc(%s; %s)' % (' | '.join(sorted(show(x) for x in a[0])), ' | '.join(sorted(show(x) for x in a[1])))
    if k == 'op':
        return 'op %s(%s)' % (a[0], _args(a[1]))
    if k == 'obj':
        b = a[0]
        if b.k == 'bag':
            return '~[]'
        if b.k == 'agg':
            return '~' + (b.a[1].split('::')[-1] or b.a[0])
        if b.k in ('phi', 'default', 'with', 'upd', 's'):
            return '~'
        return '~' + show(b)
    if k == 'phi':
        return 'phi{%s}' % ' | '.join(sorted(show(x) for x in a[0]))
    if k == 'clo':
        return 'closure'
    if k == 'getopt':
        return 'get(%s, %s)' % (show(a[0]), show(a[1]))
    if k == 'last':
        return 'last'
    if k == 'lam':
        rows = []
        for v, fs in a[0]:
            c = ' & '.join(sorted('%s=%s' % (show(x), '/'.join(sorted(w))) for x, w in fs))
            rows.append((c + ' -> ' if c else '') + show(v))
        return 'fn{%s}' % '; '.join(sorted(rows))
    if k == 'unk':
        return '%s%s' % (a[0], a[1])
    if k == 'mref':
        return 'mref'
    if k == 'it':
        return '%s(%s)' % (a[0], _args(a[1:]))
    if k == 'with':
        return '%s{%s:=%s}' % (show(a[0]), a[1], show(a[2]))
    return '%s(%s)' % (k, _args(a))
