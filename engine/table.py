"""Decision tables: for one function, the conditions under which each observable
effect (a call that mutates state reachable from the arguments, a field write)
happens and under which each outcome is returned."""
import json
import re
import terms
from terms import T, mk, show, subterms
import sem
from sem import Co, Engine, Opts, Budget, vs_union

NOEFFECT = re.compile(r'^(HashMap::get_mut|slice::iter_mut|Vec::iter_mut|IndexMut::index_mut|slice::get_mut|Vec::get_mut|Option::as_mut|slice::last_mut|slice::first_mut|HashMap::entry|HashMap::values_mut|Entry::or_|Iterator::next|Peekable::peek|Vec::reserve|Instant::|Formatter::|BTreeMap::get_mut|BTreeMap::entry|im::HashMap::get_mut|Vector::get_mut|Write::write_fmt|Write::flush|String::with_capacity)')


# calls whose effect lies outside their arguments: files, channels, locks, atomics, processes
OUTWARD = re.compile(r'^((std::)?fs::(write|rename|remove_file|remove_dir|remove_dir_all|create_dir|create_dir_all|copy|hard_link|set_permissions)'
                 r'|(fs::)?File::(create|create_new|sync_all|sync_data|set_len)|OpenOptions::open'
                 r'|DashMap::(insert|remove|clear|retain|alter|alter_all|get|get_mut)|RwLock::(read|write)|Mutex::lock|Condvar::wait\w*'
                 r'|\w*(Sender|SyncSender)::(send|try_send|blocking_send)|RefCell::(replace|set|swap)|Cell::(set|replace|swap)'
                 r'|Atomic\w*::(store|swap|fetch_\w+|compare_exchange\w*)|AtomicBool::store'
                 r'|process::(exit|abort)|CancellationToken::cancel|Condvar::notify_\w+|JoinHandle::abort'
                 r'|Command::(spawn|status|output)|OnceLock::(set|get_or_init)|env::set_(var|current_dir))$')
HANDLE = re.compile(r'^((fs::)?File::(create|create_new|open)|OpenOptions::open|io::(stdout|stderr))$')


ACTS = re.compile(r'^((std::)?fs::(write|rename|remove_file|remove_dir|remove_dir_all|create_dir|create_dir_all|copy)'
                  r'|(fs::)?File::(create|create_new)|OpenOptions::open|DashMap::(insert|remove|clear|retain)'
                  r'|\w*(Sender|SyncSender)::(send|try_send|blocking_send)|process::(exit|abort)|CancellationToken::cancel'
                  r'|RwLock::write|Command::(spawn|status|output))$')


def acting(prog):
    """functions that, themselves or through what they call, act on something
    other than their arguments (files, channels, shared state)"""
    if prog._acting is None:
        prog._acting = reaching(prog, ACTS)
    return prog._acting


def looking(prog):
    """functions whose answer depends on files, clocks of other threads, ..."""
    if prog._looking is None:
        prog._looking = reaching(prog, sem.LOOK)
    return prog._looking


def reaching(prog, pat):
    users = {}
    work = []
    for f in prog.fns:
        hit = False
        for b in f.blocks:
            t = b[1]
            if t[0] == 'call' and t[1] and t[1][0] == 'f':
                fj = t[1][1]
                if pat.match(sem.cname(fj['f'])):
                    hit = True
                g = prog.resolve(fj['r'] or fj['f'], f.crate)
                if g is not None:
                    users.setdefault(g.uid, []).append(f)
            for x in b[0]:
                if len(x) > 1 and isinstance(x[1], list) and x[1][0] == 'agg' and x[1][1] in ('closure', 'coroutine'):
                    g = prog.resolve(x[1][2], f.crate)
                    if g is not None:
                        users.setdefault(g.uid, []).append(f)
        if hit:
            work.append(f)
    r = set()
    while work:
        f = work.pop()
        if f.uid in r:
            continue
        r.add(f.uid)
        work += users.get(f.uid, [])
    return r


def acts(e, name, args):
    """does this effect reach beyond the arguments, or happen under a lock?"""
    return bool(OUTWARD.match(name) or name == 'release' or name in e.actnames
                or any(y.k == 'call' and (y.a[0] in sem.ACQUIRE or HANDLE.match(y.a[0])) for x in args for y in subterms(x)))


def obj_of(args):
    t = args[0] if args else None
    while t is not None and t.k in ('with', 'upd'):
        t = t.a[0]
    return t if t is not None and t.k in ('f', 'arg', 'okp') and root_of(t).k == 'arg' else None


def root_of(t):
    n = 0
    while n < 60:
        n += 1
        if t.k in ('f', 'v', 'okp', 'errp', 'conv', 'elem', 'index', 'with', 'upd'):
            t = t.a[0]
        elif t.k == 'call' and t.a[1] and (t.a[0] in ('index', 'OptionX') or re.search(r'(::get_mut|::iter_mut|::last_mut|::first_mut|::entry|::or_default|::or_insert\w*|::values_mut|::get|::project|::as_mut|_mut|RwLock::write|Mutex::lock|Condvar::wait|BufWriter::new|LineWriter::new)$', t.a[0])):
            t = t.a[1][0]
        else:
            return t
    return t


def auto_sink(engine, name, vals, mut):
    if NOEFFECT.match(name):
        return False
    for i in mut:
        r = root_of(vals[i])
        if r.k in ('arg', 'unk') or (r.k == 'call' and HANDLE.match(r.a[0])):
            return True
    return False


def fact_text(t, v):
    return show(t), v


class Occ:
    """one abstract occurrence of an effect or outcome"""
    __slots__ = ('key', 'facts', 'did', 'line', 'fn')

    def __init__(self, key, facts, did, line, fn):
        self.key = key
        self.facts = facts
        self.did = did
        self.line = line
        self.fn = fn


_NOISE = {}


def is_noise(t):
    r = _NOISE.get(t)
    if r is None:
        r = _NOISE[t] = any((s.k == 'k' and s.a[0] == 'fmt')
                            or (s.k == 'call' and (s.a[0].startswith('Instant::') or s.a[0].startswith('Duration::')))
                            or s.k in ('undef', 'uninit') for s in subterms(t))
    return r


def relevant(terms_):
    """elements of the local collections that terms_ contain"""
    out = set()
    for t in terms_:
        for x in subterms(t):
            if x.k == 'bag':
                out |= x.a[0]
            elif x.k == 'obj':
                out |= x.a[1]
            elif x.k == 'agg' and x.a[0] == 'array':
                out |= frozenset(y for _, y in x.a[3])
    return out


def decided_by(facts):
    """operations on the local objects that decided the way here"""
    out = set()
    for t in facts:
        if t.k in ('did', 'done', 'forall', 'unr'):
            continue
        if t.k == 'over':
            out |= t.a[0]
            continue
        for x in subterms(t):
            if x.k == 'obj':
                out |= x.a[1]
    return out


def conv_classes(classes, extra_drop, rel, order, depth=2):
    """what holds for the elements of a collection, one class per way round the loop"""
    cls = set()
    for c in classes:
        f = {}
        for t2, v2 in c:
            if t2.k in ('done', 'unr', 'over') or is_noise(t2):
                continue
            if t2.k == 'forall':
                x = show(t2)
                v2 = conv_classes(v2, extra_drop, rel, order, depth - 1) if depth and simple(x) else None
                if v2 is None:
                    continue
                v2 = ('forall', v2)
            elif t2.k == 'did':
                if t2.a[0] == 'add' and t2.a[1][0] not in rel:
                    continue
                if t2.a[0] != 'add' and not order:
                    continue
                x = 'did %s(%s)' % (t2.a[0], ', '.join(flat(t2.a[1])))
            else:
                x = show(t2)
                if not simple(x):
                    continue
            if extra_drop(x):
                continue
            f[x] = v2
        cls.add(frozenset(f.items()))
    if all(all(IDXFACT.match(k) for k, _ in c) for c in cls):
        return None
    return minimize_classes(cls)


def conv_facts(facts, extra_drop, rel=frozenset(), order=True):
    out = {}
    did = set()
    for t, v in facts.items():
        if t.k == 'did':
            if t.a[0] == 'add' and t.a[1][0] not in rel:
                continue
            if not extra_drop(show(t)):
                did.add(('did', t.a[0], flat(t.a[1])))
            continue
        if t.k in ('done', 'unr', 'over'):
            continue
        if t.k == 'forall':
            cls = conv_classes(v, extra_drop, rel, order)
            x = show(t)
            if cls is not None and not extra_drop(x) and simple(x):
                out[x] = ('forall', cls)
            continue
        if t.k == 'idx' or is_noise(t):
            continue
        x = fact_key(t)
        if x is None or extra_drop(x):
            continue
        if x in out and ('~' in x or VARY in x):
            v = vs_union(out[x], v)
        out[x] = v
    return {x: v for x, v in out.items() if not (isinstance(v, Co) and not v)}, did


IDXFACT = re.compile(r'^idx\([^()]*\)$')


def fact_key(t):
    x = show(t)
    if simple(x):
        return x
    if len(x) > 2000:
        return None
    x = holed1(t, 8)
    return x if HOLE not in x and len(x) <= 600 else None


def valkey(v):
    """a text for a value set that does not depend on hashing"""
    return json.dumps(enc_vals(v), sort_keys=True)


def minimize_classes(cls):
    """None when the classes together say nothing"""
    if not all(cls):
        return None
    rows = sorted((dict(c) for c in cls), key=lambda r: sorted((t, valkey(v)) for t, v in r.items()))
    if covered({}, rows):
        return None
    if len(rows) <= 60:
        rows = minimize(rows, {})
    if not all(rows):
        return None
    return frozenset(frozenset(r.items()) for r in rows)


def subset(a, b):
    """value set a is contained in b"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)):
            return False
        # every class of a must fall under the classes of b
        rows = [dict(r) for r in b[1]]
        for c in a[1]:
            cd = dict(c)
            if not any(entails(cd, r) for r in rows) and not covered(cd, rows):
                return False
        return True
    ca, cb = isinstance(a, Co), isinstance(b, Co)
    if not ca and not cb:
        return a <= b
    if not ca and cb:
        return not (frozenset(a) & frozenset(b))
    if ca and cb:
        return frozenset(b) <= frozenset(a)
    return False


def entails(f, row):
    for t, v in row.items():
        w = f.get(t)
        if w is None or not subset(w, v):
            return False
    return True


def minimize(rows, universe):
    """prime expansion of a list of fact rows (a disjunction)"""
    rows = sorted((dict(r) for r in rows), key=lambda r: (len(r), sorted((t, valkey(v)) for t, v in r.items())))
    # vocabulary of values per term, to complement value sets
    vals = {}
    for r in rows:
        for t, v in r.items():
            if isinstance(v, tuple) or isinstance(v, Co):
                continue
            vals.setdefault(t, set()).update(v)
    def comp(t, v):
        if isinstance(v, tuple):
            return None
        if isinstance(v, Co):
            return frozenset(v)
        u = universe.get(t)
        if u is None:
            if v <= frozenset(['0', '1']):
                u = ('0', '1')
            elif v <= frozenset(['ok', 'err']):
                u = ('ok', 'err')
        if u is None:
            return Co(v)
        return frozenset(u) - frozenset(v)
    changed = True
    n = 0
    while changed and n < 30:
        n += 1
        changed = False
        # subsumption
        out = []
        for i, r in enumerate(rows):
            sub = False
            for j, q in enumerate(rows):
                if i != j and len(q) <= len(r) and entails(r, q) and (len(q) < len(r) or j < i or not entails(q, r)):
                    sub = True
                    break
            if not sub:
                out.append(r)
        if len(out) != len(rows):
            rows = out
            changed = True
        if len(rows) > 150:
            break
        for r in rows:
            for t in sorted(r):
                c = comp(t, r[t])
                if c is None:
                    continue
                flipped = dict(r)
                flipped[t] = c
                if not isinstance(c, Co) and not c:
                    del r[t]
                    changed = True
                    break
                if any(q is not r and entails(flipped, q) for q in rows):
                    del r[t]
                    changed = True
                    break
                # union of value sets
            else:
                continue
            break
    return rows


SIMPLE = re.compile(r"(phi\{|bag\{|(?<![\w:'.])(ind|top|out|upd|loopv|default|uninit|undef|unk|next)\(|(?<![\w:'.])(closure|mref)(?![\w:'])|:=)")


_SIMPLE = {}


def simple(s, lim=600):
    if len(s) > lim:
        return False
    r = _SIMPLE.get(s)
    if r is None:
        r = _SIMPLE[s] = not SIMPLE.search(s)
    return r


HOLE = '\u25a1'     # a part that has no canonical text
VARY = '\u21bb'     # a part that changes from one iteration to the next
HOLEK = {'phi', 'bag', 'top', 'out', 'upd', 'default', 'clo', 'next', 'uninit', 'undef', 'unk', 'mref', 'ind'}


def holed1(t, lim):
    s = show(t)
    if len(s) < 400 and simple(s):
        return s
    k = t.k
    if k in ('loopv', 'accv'):
        return VARY
    if k == 'phi' and len(t.a[0]) <= 3:
        return '\u27e8' + ' \u2995 '.join(sorted(holed1(x, lim - 1) if lim else HOLE for x in t.a[0])) + '\u27e9'
    if k in HOLEK or lim == 0:
        return HOLE
    if k == 'k' or k == 's':
        return s if len(s) < 300 else HOLE
    o = over(t) if k in ('with', 'agg') else None
    if o is not None:
        b, ov = o
        r = holed1(b, lim - 1)
        if not ov:
            return r
        return '%s{%s}' % (r, ', '.join('%s: %s' % (n, holed1(ov[n], lim - 1)) for n in sorted(ov)))
    sub = {}
    for x in terms.kids(t):
        sub[x] = holed1(x, lim - 1)
    if not sub:
        return HOLE
    r = terms.show_with(t, sub)
    if SIMPLE.search(r):
        return HOLE
    return r


def holed(t):
    """text of a term, parts without a canonical text shown as holes"""
    for lim in (8, 5, 4, 3, 2):
        r = holed1(t, lim)
        if len(r) <= 900:
            return r
    return HOLE


def argtext(v):
    s = holed(v)
    return '_' if s == HOLE else s


def over(v):
    """(base, overrides) of a structure value that is another one with some fields changed"""
    if v.k == 'with':
        ov = {}
        while v.k == 'with':
            ov.setdefault(v.a[1], v.a[2])
            v = v.a[0]
        for n in [n for n, x in ov.items() if x.k == 'f' and x.a[0] is v and x.a[1] == n]:
            del ov[n]
        return v, ov
    if v.k == 'agg' and v.a[0] == 'adt' and not v.a[2]:
        bases = {}
        for n, x in v.a[3]:
            if x.k == 'f' and x.a[1] == n and not n.isdigit():
                bases[x.a[0]] = bases.get(x.a[0], 0) + 1
        if bases:
            b = max(sorted(bases, key=show), key=lambda y: bases[y])
            if bases[b] * 2 > len(v.a[3]) or bases[b] > 2:
                return b, {n: x for n, x in v.a[3] if not (x.k == 'f' and x.a[0] is b and x.a[1] == n)}
    return None


def flat(vs):
    return tuple(argtext(v) for v in vs)


def ret_key(v, kind):
    """(outcome class, payload texts)"""
    if v.k == 'agg' and v.a[0] == 'adt' and sem.OKS.get(v.a[2]) == 'err' and v.a[1] in ('Result', 'Option'):
        return ('Err', ())
    if v.k == 'agg' and v.a[0] == 'adt' and v.a[2] and kind and UNITOK.match(kind):
        return ('Ok', ('()',))
    if v.k == 'agg' and v.a[0] == 'adt' and v.a[2]:
        return (OUT.get(v.a[2], v.a[2]), flat([x for _, x in v.a[3]]))
    if v is sem.TRUE or v is sem.FALSE:
        return (show(v), ())
    return ('value', flat([v]))


UNITOK = re.compile(r'^std::(result::Result<\(\),|option::Option<\(\)>)')
OUT = {'Some': 'Ok', 'None': 'Err'}


def wild(a, b):
    if a == b or a == '_' or b == '_':
        return True
    k = (a, b)
    r = _WILD.get(k)
    if r is None:
        r = _WILD[k] = bool(_SPECIAL.search(a) or _SPECIAL.search(b)) and seqs(parse(a), parse(b))
    return r


ALT_OPEN, ALT_SEP, ALT_CLOSE = '\u27e8', '\u2995', '\u27e9'
_SPECIAL = re.compile('[\u25a1\u21bb\u27e9]')
_TOK = re.compile(r"'(?:[^'\\\\]|\\\\.)*'|\"(?:[^\"\\\\]|\\\\.)*\"|[A-Za-z0-9_]+|::|.", re.S)
_CLOSE = {'(': ')', '[': ']', '{': '}', ALT_OPEN: ALT_CLOSE}
_PARSED = {}
_GROUPS = {}
_SEQ = {}
_WILD = {}


class Group:
    """a bracketed part of a text, or a choice between parts"""
    __slots__ = ('open', 'seq', 'plain')

    def __init__(self, o, seq):
        self.open = o
        self.seq = seq
        self.plain = o != ALT_OPEN and not any(x in (HOLE, VARY) if isinstance(x, str) else not x.plain for x in seq)


def group(o, seq):
    k = (o, seq)
    r = _GROUPS.get(k)
    if r is None:
        r = _GROUPS[k] = Group(o, seq)
    return r


def parse(text):
    """the tokens of a text, bracketed parts grouped"""
    r = _PARSED.get(text)
    if r is None:
        stack = [(None, [])]
        for t in _TOK.findall(text):
            if t in _CLOSE:
                stack.append((t, []))
            elif len(stack) > 1 and t == _CLOSE[stack[-1][0]]:
                o, xs = stack.pop()
                if o == ALT_OPEN:
                    parts, cur = [], []
                    for x in xs + [ALT_SEP]:
                        if x == ALT_SEP:
                            while cur and cur[0] == ' ':
                                cur.pop(0)
                            while cur and cur[-1] == ' ':
                                cur.pop()
                            parts.append(tuple(cur))
                            cur = []
                        else:
                            cur.append(x)
                    xs = parts
                stack[-1][1].append(group(o, tuple(xs)))
            else:
                stack[-1][1].append(t)
        while len(stack) > 1:
            o, xs = stack.pop()
            stack[-1][1].append(o)
            stack[-1][1].extend(xs)
        r = _PARSED[text] = tuple(stack[0][1])
    return r


def choices(seq):
    """the sequences a sequence with choices stands for"""
    out = [()]
    for x in seq:
        if isinstance(x, Group) and x.open == ALT_OPEN:
            alts = [c for a in x.seq for c in choices(a)] if len(out) <= 8 else [(HOLE,)]
        else:
            alts = [(x,)]
        out = [o + a for o in out for a in alts]
    return out


def seqs(a, b):
    if a == b:
        return True
    k = (a, b)
    r = _SEQ.get(k)
    if r is None:
        _SEQ[k] = False
        r = _SEQ[k] = any(tmatch(x, y) for x in choices(a) for y in choices(b))
    return r


def node(x, y):
    if x is y or x == y:
        return True
    if isinstance(x, str) or isinstance(y, str) or x.open != y.open or (x.plain and y.plain):
        return False
    return seqs(x.seq, y.seq)


def const(t):
    return len(t) == 1 and isinstance(t[0], str) and (t[0].isdigit() or t[0][0] in '\'"')


def tmatch(x, y):
    """a hole stands for any one balanced part, a varying part for anything but a constant"""
    holes = (HOLE, VARY)
    i, n, m = 0, len(x), len(y)
    while i < n and i < m and x[i] not in holes and y[i] not in holes:
        if not node(x[i], y[i]):
            return False
        i += 1
    while n > i and m > i and x[n - 1] not in holes and y[m - 1] not in holes:
        if not node(x[n - 1], y[m - 1]):
            return False
        n -= 1
        m -= 1
    x, y = x[i:n], y[i:m]
    if not x and not y:
        return True
    memo = {}

    def ends(t, j):
        for k in range(j, len(t)):
            if t[k] == ',':
                return
            yield k + 1

    def go(i, j):
        r = memo.get((i, j))
        if r is not None:
            return r
        memo[(i, j)] = False
        if i == len(x) or j == len(y):
            r = i == len(x) and j == len(y)
        else:
            r = node(x[i], y[j]) and go(i + 1, j + 1)
            if not r and x[i] in holes:
                r = any(go(i + 1, k) for k in ends(y, j) if not (x[i] == VARY and const(y[j:k])))
            if not r and y[j] in holes:
                r = any(go(k, j + 1) for k in ends(x, i) if not (y[j] == VARY and const(x[i:k])))
        memo[(i, j)] = r
        return r
    return go(0, 0)


def key_match(k, r):
    if k[0] != r[0] or k[1] != r[1]:
        return False
    return wmatch(k[2], r[2])


def wmatch(a, b):
    if len(a) == len(b):
        return all(wild(x, y) for x, y in zip(a, b))
    return a == ('_',) or b == ('_',)


def did_match(have, want):
    return all(any(key_match(h, w) for h in have) for w in want)


class Cfg:
    def __init__(self, inline=(), drop=None, K=96, rets=True, effects=True, sinks=(), opaque=(), args=True, budget=120000, only=None, retval=True):
        self.inline = set(inline)
        self.drop = re.compile(drop) if drop else None
        self.K = K
        self.rets = rets
        self.effects = effects
        self.sinks = set(sinks)
        self.opaque = set(opaque)
        self.args = args
        self.budget = budget
        self.only = re.compile(only) if only else None
        self.retval = retval


def key_text(k):
    return '%s %s(%s)' % (k[0], k[1], ', '.join(k[2]))


def analyze(prog, fn, cfg, known):
    """-> (occurrences, engine). `known`: functions of the reference tree (uid ->
    expanded in place there?); functions outside it are always expanded."""
    def inline(f):
        if f.name in cfg.opaque:
            return False
        if f.name in cfg.inline or f.full in cfg.inline:
            return True
        if f.kind not in ('fn', 'method'):
            return False
        k = known.get(f.uid)
        return True if k is None else k
    terms.reset()
    _NOISE.clear()
    o = Opts(inline=inline, K=cfg.K, auto=auto_sink if cfg.effects else None,
             sink=lambda n: n in cfg.sinks or bool(OUTWARD.match(n)), track=lambda n: n in cfg.sinks or bool(OUTWARD.match(n)), budget=cfg.budget, trivial=False)
    o.acts = acting(prog)
    o.looks = looking(prog)
    e = Engine(prog, o)
    rets = e.run(fn)
    drop = (lambda x: bool(cfg.drop.search(x))) if cfg.drop else (lambda x: False)
    occs = []
    observed = set()
    seen = set()
    for h in e.hits:
        if h.name != 'add':
            observed |= relevant(h.args) | decided_by(h.facts)
            for x in h.args:
                seen |= subterms(x)
    for h in rets:
        observed |= relevant((h.ret,)) | decided_by(h.facts)
        seen |= subterms(h.ret)
    for h in e.hits:
        if h.name == 'add':
            if h.args[0] not in observed:
                x = h.args[0]
                if not (x.k == 'op' and x.a[0] == 'set'):
                    continue
                r = sem.local_root(x.a[1][0])
                if r.k not in ('bag', 'obj', 'agg', 'phi') and r not in seen:
                    continue
            key = ('elem', '', flat(h.args))
            rel = h.ctx or frozenset()
        else:
            key = ('effect', h.name, flat(h.args) if cfg.args else ())
            rel = relevant(h.args) | decided_by(h.facts)
        if drop(key_text(key)):
            continue
        f, did = conv_facts(h.facts, drop, rel, order=False)
        if cfg.only and not cfg.only.search(key_text(key)):
            continue
        if h.name != 'add':
            # what has to happen first: earlier effects outside the arguments,
            # and earlier effects on the same object
            w = acts(e, h.name, h.args)
            ob = obj_of(h.args)
            did = set()
            for t in h.facts:
                if t.k == 'did' and t.a[0] != 'add' and not (t.a[0] == h.name and t.a[1] == h.args) and (w and acts(e, t.a[0], t.a[1]) or (ob is not None and obj_of(t.a[1]) is ob)):
                    if not drop(show(t)):
                        did.add(('did', t.a[0], flat(t.a[1])))
        elif not rel:
            did = ()
        occs.append(Occ(key, f, frozenset(did), h.line, h.fn.full if h.fn else ''))
    if cfg.rets:
        for h in rets:
            # symbolic results are split into their possible outcomes
            vs = [(h.ret, h.facts)]
            rt = fn.lty(0)
            ret = h.ret
            if rt == '()':
                ret = sem.UNIT
                vs = [(ret, h.facts)]
            if rt == 'bool' and ret.k == 'k' and ret.a[0] in '01':
                ret = sem.TRUE if ret.a[0] == '1' else sem.FALSE
                vs = [(ret, h.facts)]
            if rt == 'bool' and ret.k not in ('k',):
                vs = []
                st = sem.State()
                st.facts = dict(h.facts)
                for b, s in e.branch_bool(st, ret):
                    vs.append((sem.TRUE if b else sem.FALSE, s.facts))
            elif (rt.startswith('std::option::Option') or rt.startswith('std::result::Result')) and ret.k != 'agg':
                vs = []
                st = sem.State()
                st.facts = dict(h.facts)
                for v, p, s in e.branch_opt(st, ret):
                    vs.append((mk('agg', 'adt', 'Result', 'Ok' if v == 'ok' else 'Err', (('0', p),)), s.facts))
            for v, facts in vs:
                f, did = conv_facts(facts, drop, relevant((v,)) | decided_by(facts))
                oc, pay = ret_key(v, rt)
                key = ('return', oc, pay if cfg.retval else ())
                if cfg.only and not cfg.only.search(key_text(key)):
                    continue
                occs.append(Occ(key, f, frozenset(did), fn.d['lo'], fn.full))
    return occs, e


def build(occs, e):
    """rows: list of {key, did: [...], facts: {...}}"""
    uni = {}
    for t, u in e.universe.items():
        uni[show(t)] = u
    groups = {}
    for o in occs:
        groups.setdefault((o.key, o.did), []).append(o.facts)
    rows = []
    for (key, did), fs in groups.items():
        for r in minimize(fs, uni):
            rows.append((key, did, r))
    return rows


def enc_vals(v):
    if isinstance(v, tuple):
        return {'forall': [ {t: enc_vals(w) for t, w in sorted(c, key=lambda x: x[0])} for c in sorted(v[1], key=lambda c: sorted((t, valkey(w)) for t, w in c))]}
    if isinstance(v, Co):
        return '!' + '/'.join(sorted(v))
    return '/'.join(sorted(v))


def dec_vals(v):
    if isinstance(v, dict):
        return ('forall', frozenset(frozenset((t, dec_vals(w)) for t, w in c.items()) for c in v['forall']))
    if v.startswith('!'):
        return Co(v[1:].split('/'))
    return frozenset(v.split('/'))


def enc_key(k):
    return [k[0], k[1]] + list(k[2])


def dec_key(k):
    return (k[0], k[1], tuple(k[2:]))


def enc_rows(rows):
    out = []
    for key, did, r in rows:
        out.append({'key': enc_key(key), 'did': sorted(enc_key(d)[1:] for d in did), 'if': {t: enc_vals(v) for t, v in sorted(r.items())}})
    out.sort(key=lambda x: (x['key'], str(x['if']), str(x['did'])))
    return out


def dec_rows(rows):
    return [(dec_key(r['key']), frozenset(('did', d[0], tuple(d[1:])) for d in r['did']), {t: dec_vals(v) for t, v in r['if'].items()}) for r in rows]


def holds(f, row):
    """facts f establish every fact of row (vacuous loops included)"""
    for t, v in row.items():
        w = f.get(t)
        if w is not None and subset(w, v):
            continue
        if t.startswith('forall(') and f.get('len(%s)' % t[7:-1]) == frozenset(['0']):
            continue
        return False
    return True


terms.reset()
BOOL = frozenset(['0', '1'])
OPT = frozenset(['ok', 'err'])


def covered(facts, rows, depth=7):
    """every case described by `facts` falls under some row"""
    live = []
    for r in rows:
        ok = True
        for t, v in r.items():
            w = facts.get(t)
            if w is None or isinstance(w, tuple) or isinstance(v, tuple):
                if isinstance(v, tuple) and not holds(facts, {t: v}):
                    ok = False
                    break
                continue
            x = sem.vs_inter(w, v)
            if not isinstance(x, Co) and not x:
                ok = False
                break
        if not ok:
            continue
        if holds(facts, r):
            return True
        live.append(r)
    if not live or depth == 0:
        return False
    # split on a fact some compatible row still needs
    cnt = {}
    for r in live:
        miss = [t for t, v in r.items() if not isinstance(v, tuple) and not (t in facts and subset(facts[t], v))]
        for t in miss:
            cnt[t] = cnt.get(t, 0) + 1.0 / len(miss)
    if len(live) < 2:
        return False
    for t in sorted(cnt, key=lambda t: (-cnt[t], t))[:2]:
        parts = []
        vs = [r[t] for r in live if t in r]
        v = vs[0]
        base = v if not isinstance(v, Co) else frozenset(v)
        if base <= BOOL:
            parts = [frozenset(['0']), frozenset(['1'])]
        elif base <= OPT:
            parts = [frozenset(['ok']), frozenset(['err'])]
        else:
            named = set()
            for x in vs:
                named |= set(x)
            w = facts.get(t)
            if w is not None and not isinstance(w, Co):
                parts = [frozenset([x]) for x in w]
                if len(parts) > 40:
                    return False
            else:
                parts = [frozenset([x]) for x in sorted(named)] + [Co(named)]
                if len(parts) > 40:
                    return False
        good = True
        for pt in parts:
            w = facts.get(t)
            x = pt if w is None else sem.vs_inter(w, pt)
            if not isinstance(x, Co) and not x:
                continue
            f = dict(facts)
            f[t] = x
            if not covered(f, live, depth - 1):
                good = False
                break
        if good:
            return True
    return False


def check(occs, rows):
    """occurrences not licensed by any row -> list of (occ, missing facts, missing effects)"""
    byname = {}
    for k, d, r in rows:
        byname.setdefault((k[0], k[1]), []).append((k, d, r))
    bad = []
    for o in occs:
        cand = byname.get((o.key[0], o.key[1]))
        if not cand:
            bad.append((o, 'no licensed occurrence', []))
            continue
        c2 = [c for c in cand if key_match(o.key, c[0])]
        if not c2:
            bad.append((o, 'no licensed occurrence with these arguments', []))
            continue
        c3 = [r for k, d, r in c2 if did_match(o.did, d)]
        if any(holds(o.facts, r) for r in c3) or covered(o.facts, c3):
            continue
        best = None
        for k, d, r in c2:
            miss = [(t, v) for t, v in r.items() if t not in o.facts or not subset(o.facts[t], v)]
            md = [x for x in d if not any(key_match(h, x) for h in o.did)]
            sc = len(miss) + len(md)
            if best is None or sc < best[0]:
                best = (sc, miss, md)
        bad.append((o, best[1], best[2]))
    return bad


def gone(occs, rows):
    """effects of the reference that happen under no condition any more"""
    have = {}
    for o in occs:
        have.setdefault((o.key[0], o.key[1]), []).append(o.key)
    out = []
    seen = set()
    for k, d, r in rows:
        if k in seen:
            continue
        seen.add(k)
        if not any(key_match(h, k) for h in have.get((k[0], k[1]), ())):
            out.append(k)
    return out
