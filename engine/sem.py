"""Path-sensitive must-fact dataflow over MIR.

The analysis walks the control-flow graph of one root function, expanding
closures handed to standard combinators and every function the caller of the
analysis asks to expand.  A state is a map from locals to symbolic terms plus
a map from terms to the set of values the term may have on every path that
reaches the state (branch facts).  States that meet at a join are kept apart up
to a bound and then joined (facts: union of value sets, absent = unknown).
No path is executed and no solver is asked: it is an abstract interpretation
whose domain is the product of finite value sets per term.
"""
import ast
import re
import sys
from terms import T, mk, kids, subterms, mrefs, contains, show
from ir import cname, Fn

sys.setrecursionlimit(20000)

TRUE = mk('k', 'true')
FALSE = mk('k', 'false')
UNIT = mk('k', '()')
ZERO = mk('k', '0')
DID = frozenset(['1'])
REV = frozenset(['rev'])

OKS = {'Some': 'ok', 'Ok': 'ok', 'Continue': 'ok', 'None': 'err', 'Err': 'err', 'Break': 'err'}
STD_DISC = {
    'std::option::Option': {'0': 'err', '1': 'ok'},
    'std::result::Result': {'0': 'ok', '1': 'err'},
    'std::ops::ControlFlow': {'0': 'ok', '1': 'err'},
    'std::task::Poll': {'0': 'Ready', '1': 'Pending'},
    'std::borrow::Cow': {'0': 'Borrowed', '1': 'Owned'},
    'std::collections::hash_map::Entry': {'0': 'Occupied', '1': 'Vacant'},
    'std::collections::btree_map::Entry': {'0': 'Vacant', '1': 'Occupied'},
    'std::cmp::Ordering': {'-1': 'Less', '255': 'Less', '0': 'Equal', '1': 'Greater'},
}

# calls that return (a view of) their first argument
TRANSPARENT = set('''
Clone::clone Deref::deref DerefMut::deref_mut AsRef::as_ref AsMut::as_mut Borrow::borrow BorrowMut::borrow_mut
ToOwned::to_owned ToString::to_string Into::into From::from Try::branch IntoIterator::into_iter
slice::iter slice::iter_mut Vec::iter Vec::as_slice Vec::as_mut_slice slice::to_vec Vec::into_boxed_slice
Option::as_ref Option::as_mut Option::as_deref Option::as_deref_mut Option::cloned Option::copied Option::take Option::iter
Result::as_ref Result::as_mut Result::cloned Result::copied Result::as_deref
Iterator::cloned Iterator::copied Iterator::by_ref Iterator::peekable Iterator::fuse
Box::new Arc::new Rc::new Arc::clone Rc::clone Pin::new Pin::new_unchecked Pin::as_mut IntoFuture::into_future Cow::into_owned Cow::to_mut
String::as_str String::into_bytes str::as_bytes str::to_owned str::to_string String::from String::as_bytes str::as_ref
Path::to_path_buf PathBuf::from PathBuf::as_path Path::new PathBuf::into_os_string
HashMap::iter HashSet::iter BTreeMap::iter BTreeSet::iter HashMap::into_iter VecDeque::iter Vector::iter BTreeSet::into_iter
TermRef::to_owned Term::as_ref Term::to_owned hint::must_use 
identity mem::take LazyLock::force convert::identity Vec::leak Arc::as_ref Box::pin
Vec::into_iter Vec::drain Option::into_iter RefCell::borrow Wrapping::from Result::into_iter TryFrom::try_from_never
Box::as_ref Box::as_mut Borrow::borrow slice::as_ref array::iter array::as_slice Iterator::into_iter hint::black_box
Vec::iter_mut HashMap::iter_mut HashMap::drain HashSet::drain str::trim_never Arc::make_mut Arc::unwrap_or_clone
'''.split())

# names whose value is formatting / logging only
NOISE = re.compile(r'^(Arguments::|fmt::|Argument::|tracing|__macro_support|callsite|Metadata::|Formatter::|rt::|DocBuilder|DocAllocator|io::_print|io::_eprint|Interest|LevelFilter|FieldSet|ValueSet|Event::dispatch|Level::)')

ITER_ADAPT = {
    'Iterator::map': 'map', 'Iterator::filter': 'filter', 'Iterator::filter_map': 'filter_map',
    'Iterator::enumerate': 'enumerate', 'Iterator::zip': 'zip', 'Iterator::chain': 'chain',
    'Iterator::flat_map': 'flat_map', 'Iterator::flatten': 'flatten', 'Iterator::inspect': 'inspect',
    'Iterator::take_while': 'take_while', 'Iterator::map_while': 'map_while',
    'Iterator::skip_while': 'skip_while', 'Iterator::rev': 'rev',
}
PUSHERS = {'HashMap::insert': 2, 'BTreeMap::insert': 2, 'Vec::push': 1, 'VecDeque::push_back': 1, 'VecDeque::push_front': 1, 'HashSet::insert': 1,
           'BTreeSet::insert': 1, 'Vector::push_back': 1, 'Vec::insert': 2, 'BinaryHeap::push': 1}
EXTENDERS = {'Extend::extend', 'Vec::extend_from_slice', 'Vec::append', 'Vec::extend', 'HashSet::extend', 'String::push_str'}
SETINS = re.compile(r'^(im::)?(HashSet|BTreeSet|OrdSet)::insert$')
BAGNEW = {'HashMap::new', 'BTreeMap::new', 'HashMap::with_capacity', 'HashSet::with_capacity', 'BinaryHeap::new', 'VecDeque::with_capacity', 'Vec::new', 'Vec::with_capacity', 'HashSet::new', 'BTreeSet::new', 'VecDeque::new', 'Vector::new'}
BAGKEEP = {'slice::sort': 'sort', 'slice::sort_by': 'sort', 'slice::sort_by_key': 'sort', 'slice::sort_unstable': 'sort', 'slice::reverse': 'reverse', 'Vec::reserve': None,
           'slice::sort_unstable_by': 'sort', 'slice::sort_unstable_by_key': 'sort', 'slice::sort_by_cached_key': 'sort', 'Vec::dedup': 'dedup', 'Vec::shrink_to_fit': None, 'HashSet::reserve': None}
ORDERED = re.compile(r'^(Vec|VecDeque|Vector)::')
QUIET = re.compile(r'(::next|::next_back|::by_ref|::peek|::pop|::pop_front|::pop_back|::pop_first|::pop_last|_mut|::entry|::project|::reserve|::with_capacity|::flush|::write_fmt|::fmt|::shrink_to_fit)$|^(Entry|Formatter|Instant|Option|Result|Pin|io|std::io)::')
POPPERS = {'Vec::pop', 'VecDeque::pop_front', 'VecDeque::pop_back', 'BinaryHeap::pop', 'Iterator::next', 'Vec::swap_remove', 'DoubleEndedIterator::next_back'}

VECTY = re.compile(r'^&mut (std|alloc)::vec::Vec<')
ACCNOT = re.compile(r'Vec<|HashMap|HashSet|BTree|Iter|Guard|closure|::Vector<|VecDeque|IndexMap')
INT = re.compile(r'^[iu](8|16|32|64|128|size)$')
OPP = {'ok': 'err', 'err': 'ok'}


def elems(bag):
    """the elements put into a local collection (not the other operations on it)"""
    return [x for x in bag.a[0] if x.k != 'op']


def local_root(t):
    n = 0
    while n < 60 and t.k in ('f', 'v', 'okp', 'errp', 'conv', 'index', 'with', 'upd', 'obj', 'elem'):
        n += 1
        if t.k == 'elem':
            break
        t = t.a[0]
    return t


class Co(frozenset):
    """complement of a finite set"""
    __slots__ = ()

    def __eq__(self, o):
        return isinstance(o, Co) and frozenset.__eq__(self, o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('co', frozenset.__hash__(self)))


def vs_union(a, b):
    ca, cb = isinstance(a, Co), isinstance(b, Co)
    if not ca and not cb:
        return a | b
    if ca and cb:
        return Co(frozenset(a) & frozenset(b))
    if ca:
        return Co(frozenset(a) - b)
    return Co(frozenset(b) - a)


def vs_inter(a, b):
    ca, cb = isinstance(a, Co), isinstance(b, Co)
    if not ca and not cb:
        return a & b
    if ca and cb:
        return Co(frozenset(a) | frozenset(b))
    if ca:
        return frozenset(x for x in b if x not in a)
    return frozenset(x for x in a if x not in b)


class State:
    __slots__ = ('env', 'facts', 'stale', 'heap', 'loops', 'occ')

    def __init__(self):
        self.env = {}
        self.facts = {}
        self.stale = frozenset()
        self.heap = {}
        self.loops = {}   # loop id -> (frozenset classes, iter flag, elem marker or None, base facts)
        self.occ = {}

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.stale = self.stale
        s.heap = dict(self.heap)
        s.loops = dict(self.loops)
        s.occ = dict(self.occ)
        return s

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.facts.items()), self.stale,
                frozenset(self.heap.items()), frozenset((k, v[0], v[1], v[2]) for k, v in self.loops.items()))


class Hit:
    __slots__ = ('name', 'args', 'facts', 'fn', 'line', 'ctx', 'ret')

    def __init__(self, name, args, facts, fn, line, ctx, ret=None):
        self.name = name
        self.args = args
        self.facts = facts
        self.fn = fn
        self.line = line
        self.ctx = ctx
        self.ret = ret


def ok_agg(t):
    return mk('agg', 'adt', 'Option', 'Some', (('0', t),))

ERR_NONE = mk('agg', 'adt', 'Option', 'None', ())


class Info:
    """CFG facts of one body: successors, loops, liveness, order."""

    def __init__(self, fn):
        bl = fn.blocks
        n = len(bl)
        self.succ = [self._succ(b[1]) for b in bl]
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(self.succ):
            for s in ss:
                pred[s].append(i)
        # RPO
        seen = [False] * n
        order = []
        stack = [(0, iter(self.succ[0]))] if n else []
        if n:
            seen[0] = True
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(self.succ[s])))
                    adv = True
                    break
            if not adv:
                order.append(b)
                stack.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.rpo[x] > self.rpo[y]:
                            x = idom[x]
                        while self.rpo[y] > self.rpo[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    changed = True
        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.loops = {}
        for u in order:
            for h in self.succ[u]:
                if h in idom and dom(h, u):
                    body = self.loops.setdefault(h, {h})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in pred[x] if p in self.rpo)
        self.assigned = {}
        for h, body in self.loops.items():
            a = set()
            for b in body:
                for s in bl[b][0]:
                    a.add(s[0] if isinstance(s[0], int) else s[0][0])
                t = bl[b][1]
                if t[0] == 'call':
                    a.add(t[3] if isinstance(t[3], int) else t[3][0])
            self.assigned[h] = a
        # locals a pass of the loop gives a new value before anything else: not carried around
        self._live(fn)
        self.fresh = {h: set(x for x in a if x not in self.live[h]) for h, a in self.assigned.items()}
        self.ind = {}
        self.ctr = {}
        self.driven = set()
        for h, body in self.loops.items():
            at = self._induction(fn, body)
            self.ind[h] = set(at)
            lat = [p for p in pred[h] if p in body and p in self.rpo]
            inner = set()
            for h2, b2 in self.loops.items():
                if h2 != h and h2 in body:
                    inner |= b2
            if any(b not in inner and bl[b][1][0] == 'call' and bl[b][1][1][0] == 'f' and cname(bl[b][1][1][1]['f']) == 'Iterator::next' and all(dom(b, x) for x in lat) for b in body):
                self.driven.add(h)
            self.ctr[h] = set(i for i, b in at.items() if b not in inner and all(dom(b, x) for x in lat))
        self.acc = {h: self._accumulators(fn, h, body) for h, body in self.loops.items()}

    def _accumulators(self, fn, header, body):
        """locals that the loop only combines into themselves: every assignment uses the
        value so far, and the value so far is used for nothing else"""
        defs = {}
        uses = {}
        out = set()
        for b in body:
            stmts, t, _ = fn.blocks[b]
            for pl, rv, _ in stmts:
                u = set()
                k = rv[0]
                bad = False
                if k in ('use', 'cast'):
                    self._op(rv[1], u)
                elif k == 'bin':
                    self._op(rv[2], u)
                    self._op(rv[3], u)
                elif k == 'ref':
                    self._pl(rv[2], u)
                    bad = bool(rv[1])
                elif k == 'rep':
                    self._op(rv[1], u)
                elif k in ('raw', 'disc'):
                    self._pl(rv[1], u)
                    bad = True
                elif k == 'un':
                    self._op(rv[2], u)
                elif k == 'agg':
                    for o in rv[5]:
                        self._op(o, u)
                    bad = True
                if bad:
                    out |= u
                d = pl if isinstance(pl, int) else pl[0]
                if not isinstance(pl, int):
                    out.add(d)
                    self._pl(pl, u)
                defs.setdefault(d, []).append(u)
                for x in u:
                    uses.setdefault(x, set()).add(d)
            u = set()
            if t[0] == 'switch':
                self._op(t[1], u)
                out |= u
            elif t[0] == 'yield':
                self._op(t[2], u)
                out |= u
            elif t[0] == 'call':
                self._op(t[1], u)
                out |= u
                u = set()
                for o in t[2]:
                    self._op(o, u)
                d = t[3] if isinstance(t[3], int) else t[3][0]
                if not isinstance(t[3], int):
                    out.add(d)
                defs.setdefault(d, []).append(u)
                for x in u:
                    uses.setdefault(x, set()).add(d)
        after = set()
        for b in body:
            for x in self.succ[b]:
                if x not in body:
                    after |= self.live[x]
        res = set()
        for l, ds in defs.items():
            ty = fn.lty(l)
            if l not in self.live[header] or ty == 'bool' or ty.startswith('&') or ty in ('String', 'std::string::String') or ACCNOT.search(ty):
                continue
            # everything the value so far flows into
            t = {l}
            work = [l]
            while work:
                for d in uses.get(work.pop(), ()):
                    if d not in t:
                        t.add(d)
                        work.append(d)
            if len(t) < 2 or len(t) > 12 or t & out or any(x in after and x != l for x in t):
                continue
            if not all(u & t for u in ds) or any(l2 != l and l2 in self.live[header] for l2 in t):
                continue
            res.add(l)
        return res

    def _induction(self, fn, body):
        """locals whose only assignment in the loop is `i = i + 1`"""
        cnt = {}
        src = {}
        tmp = {}
        at = {}
        for b in body:
            for pl, rv, _ in fn.blocks[b][0]:
                if isinstance(pl, int):
                    cnt[pl] = cnt.get(pl, 0) + 1
                    at[pl] = b
                    if rv[0] == 'bin' and rv[1] in ('AddWithOverflow', 'Add') and rv[3][0] == 'k' and rv[3][1] == '1' and rv[2][0] in ('c', 'm') and isinstance(rv[2][1], int):
                        tmp[pl] = rv[2][1]
                    if rv[0] == 'use' and rv[1][0] in ('c', 'm') and not isinstance(rv[1][1], int) and rv[1][1][1:] == ['.0']:
                        src[pl] = rv[1][1][0]
                    if rv[0] == 'ref' and rv[1] and isinstance(rv[2], int):
                        cnt[rv[2]] = 99
                else:
                    cnt[pl[0]] = cnt.get(pl[0], 0) + 1
            t = fn.blocks[b][1]
            if t[0] == 'call':
                d = t[3] if isinstance(t[3], int) else t[3][0]
                cnt[d] = cnt.get(d, 0) + 1
        r = set(i for i, t in src.items() if cnt.get(i) == 1 and tmp.get(t) == i) | set(i for i, t in tmp.items() if t == i and cnt.get(i) == 1)
        return {i: at[i] for i in r}

    @staticmethod
    def _succ(t):
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            r = [b for _, b in t[2]]
            if t[3] is not None:
                r.append(t[3])
            return r
        if k == 'drop':
            return [t[2]]
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'assert':
            return [t[3]]
        if k == 'yield':
            return [t[1]]
        return []

    @staticmethod
    def _pl(p, acc):
        if isinstance(p, int):
            acc.add(p)
        else:
            acc.add(p[0])
            for x in p[1:]:
                if isinstance(x, str) and x.startswith('['):
                    acc.add(int(x[1:].strip('_]')))

    def _op(self, o, acc):
        if o[0] in ('c', 'm'):
            self._pl(o[1], acc)

    def _live(self, fn):
        bl = fn.blocks
        n = len(bl)
        use = []
        deff = []
        for b in bl:
            u = set()
            d = set()
            for s in b[0]:
                su = set()
                r = s[1]
                k = r[0]
                if k in ('use', 'rep', 'cast'):
                    self._op(r[1], su)
                elif k in ('ref',):
                    self._pl(r[2], su)
                elif k in ('raw', 'disc'):
                    self._pl(r[1], su)
                elif k == 'bin':
                    self._op(r[2], su)
                    self._op(r[3], su)
                elif k == 'un':
                    self._op(r[2], su)
                elif k == 'agg':
                    for o in r[5]:
                        self._op(o, su)
                if not isinstance(s[0], int):
                    self._pl(s[0], su)
                u |= (su - d)
                if isinstance(s[0], int):
                    d.add(s[0])
            t = b[1]
            su = set()
            if t[0] == 'switch':
                self._op(t[1], su)
            elif t[0] == 'call':
                self._op(t[1], su)
                for o in t[2]:
                    self._op(o, su)
                if not isinstance(t[3], int):
                    self._pl(t[3], su)
            elif t[0] == 'yield':
                self._op(t[2], su)
            elif t[0] == 'ret':
                su.add(0)
            elif t[0] == 'drop' and isinstance(t[1], int) and guard_local(fn, t[1]):
                su.add(t[1])
            u |= (su - d)
            if t[0] == 'call' and isinstance(t[3], int):
                d.add(t[3])
            use.append(u)
            deff.append(d)
        live = [set() for _ in range(n)]
        changed = True
        order = sorted(self.rpo, key=lambda b: -self.rpo[b])
        while changed:
            changed = False
            for b in order:
                o = set()
                for s in self.succ[b]:
                    o |= live[s]
                l = use[b] | (o - deff[b])
                if l != live[b]:
                    live[b] = l
                    changed = True
        self.live = live


def info(fn):
    if fn._info is None:
        fn._info = Info(fn)
    return fn._info


def trivial(fn):
    """straight-line accessor or wrapper: always expanded"""
    t = getattr(fn, '_triv', None)
    if t is None:
        bl = fn.blocks
        t = 0 < len(bl) <= 7 and all(b[1][0] in ('goto', 'drop', 'ret', 'call', 'assert') for b in bl)
        if t:
            calls = sum(1 for b in bl if b[1][0] == 'call')
            t = calls <= 2
        if t:
            # not loops
            t = not info(fn).loops
        fn._triv = t
    return t


GUARDS = ('RwLock::write', 'Mutex::lock', 'RefCell::borrow_mut')
ACQUIRE = GUARDS[:2] + ('RwLock::read', 'DashMap::get', 'DashMap::get_mut', 'RwLock::try_read', 'RwLock::try_write', 'Mutex::try_lock')
LOOK = re.compile(r'^(Path::(exists|try_exists|is_file|is_dir|metadata)|(std::)?fs::(read|read_to_string|read_dir|metadata|exists))$')
FSACT = re.compile(r'^(std::)?(fs|File)::')
VOLATILE = re.compile(r'^(Atomic\w*::load|CancellationToken::is_cancelled|%s)$' % '|'.join(ACQUIRE))
GUARDTY = re.compile(r'^[\w:]*(Guard|mapref::one::Ref|mapref::one::RefMut)<')


def guard_of(v, names):
    """is v a lock guard (or the success of an attempt to get one)?"""
    x = v
    while x is not None and x.k == 'okp':
        x = x.a[0]
    return x is not None and x.k == 'call' and x.a[0] in names


def guard_local(fn, i):
    g = fn._guards
    if g is None:
        g = fn._guards = {}
    r = g.get(i)
    if r is None:
        r = g[i] = bool(GUARDTY.search(fn.lty(i))) or re.sub('<.*', '', fn.lty(i)) in holders(fn.prog)
    return r


def holders(prog):
    """types with a lock guard among their fields"""
    if prog._holders is None:
        prog._holders = frozenset(a['path'] for c in prog.crates for a in c['adts'] for v in a['variants'] for x in v['fields'] if GUARDTY.search(c['types'][x[1]]))
    return prog._holders


class Opts:
    def __init__(self, inline=None, keep=None, track=None, sink=None, K=40, depth=9, opaque=None, auto=None, budget=600000, trivial=True):
        self.inline = inline or (lambda fn: False)
        self.keep = keep or (lambda t: True)
        self.track = track or (lambda name: False)
        self.sink = sink or (lambda name: False)
        self.opaque = opaque or (lambda fn: False)
        self.K = K
        self.depth = depth
        self.auto = auto
        self.trivial = trivial
        self.acts = ()
        self.looks = ()
        self.budget = budget


NEVER = mk('never')
QUOTES = ('"', "'")


def const_val(t):
    """value of an integer or text constant"""
    if t.k == 's':
        return repr(t.a[0]).replace('/', '\u2044')
    if t.k == 'k' and re.match(r'^-?\d+$', t.a[0]):
        return t.a[0]
    return None


class Engine:
    def __init__(self, prog, opts):
        self.prog = prog
        self.o = opts
        self.hits = []
        self.hitkeys = set()
        self.actnames = set()
        self.universe = {}
        self.stats = {'blocks': 0, 'calls': 0, 'lossy': 0, 'fns': set(), 'inlined': set()}
        self.budget = opts.budget
        self.keepc = {}
        self.constc = {}
        self.addfacts = {}
        self.clodepth = 0

    # ---------------------------------------------------------------- entry
    def run(self, fn, args=None):
        st = State()
        if args is None:
            args = [mk('arg', i) for i in range(fn.nargs)]
            if fn.kind in ('closure', 'coroutine'):
                args[0] = mk('clo', fn.path, ())
        self.root = fn
        outs = self.exec_fn(fn, args, st, 'R', 0)
        res = []
        for v, s in outs:
            v2 = self.value(s, v) if v.k == 'mref' else v
            if v2.k == 'clo':
                c = self.prog.resolve(v2.a[0], fn.crate)
                if c is not None and c.kind == 'coroutine':
                    # an async function: what the future does
                    for r, s2 in self.apply_coroutine(s, v2, 'R/async', 0):
                        res.append(Hit('return', (r,), s2.facts, fn, 0, 'R', self.value(s2, r)))
                    continue
            res.append(Hit('return', (v,), s.facts, fn, 0, 'R', v))
        return res

    # ---------------------------------------------------------------- facts
    def kept(self, t):
        r = self.keepc.get(t)
        if r is None:
            r = self.keepc[t] = bool(self.o.keep(t))
        return r

    def assume(self, st, t, vals):
        """refine term t to value set; returns False when infeasible."""
        if t.k == 'un' and t.a[0] == 'Not':
            flip = {'0': '1', '1': '0'}
            if isinstance(vals, Co):
                vals = frozenset(['0', '1']) - frozenset(vals)
            return self.assume(st, t.a[1], frozenset(flip[v] for v in vals))
        old = st.facts.get(t)
        if old is not None and t not in st.stale:
            new = vs_inter(old, vals)
            if not isinstance(new, Co) and not new:
                return False
        else:
            new = vals
            if t in st.stale:
                st.stale = st.stale - {t}
        u = self.universe.get(t)
        if isinstance(new, Co) and u:
            new = frozenset(u) - frozenset(new)
        if self.kept(t) or True:
            st.facts[t] = new
        return True

    def known(self, st, t):
        if t in st.stale:
            return None
        return st.facts.get(t)

    def did(self, st, name, args):
        t = mk('did', name, tuple(args))
        st.facts[t] = DID

    def added(self, st, v, fn, line, prior=frozenset()):
        """v becomes an element of a local collection in state st, after `prior`"""
        if self.o.auto is None:
            return
        self.sinkhit(st, 'add', (v,), fn, line, prior, True)
        self.did(st, 'add', (v,))
        if v.k == 'op':
            return
        own = set(x for x in subterms(v) if x.k in ('elem', 'idx'))
        if not own:
            return
        fs = {t: w for t, w in st.facts.items() if t.k not in ('did', 'done', 'forall', 'unr', 'order') and t not in st.stale and any(x in own for x in subterms(t))}
        old = self.addfacts.get(v)
        if old is not None:
            fs = {t: vs_union(old[t], w) for t, w in fs.items() if t in old}
        self.addfacts[v] = fs

    def carry(self, st, v, bag):
        """what held of v when it was put into the collection"""
        ops = [x for x in bag.a[0] if x.k == 'op']
        if ops:
            st.facts[mk('over', frozenset(ops))] = DID
        for t, w in self.addfacts.get(v, {}).items():
            u = self.universe.get(t)
            if (isinstance(w, Co) and not w) or (u and not isinstance(w, Co) and set(u) <= set(w)):
                continue
            if not self.assume(st, t, w):
                return None
        return st

    def local_op(self, st, ref, name, others, fn, line):
        """an operation on a local object, recorded in its value"""
        cur = self.value(st, ref)
        strish = cur.k == 's' or (cur.k == 'k' and cur.a[0] == 'String') or (cur.k == 'obj' and cur.a[0].k == 's')
        if name in ('String::push', 'String::push_str') or (strish and name in ('AddAssign::add_assign', 'String::insert_str')):
            name = 'String::push' if name != 'String::insert_str' else name
            if others and others[0].k == 'k' and str(others[0].a[0]).isdigit():
                others = (mk('s', chr(int(others[0].a[0]))),) + tuple(others[1:])
            if cur.k == 's' and cur.a[0]:
                op = mk('op', 'String::push', (cur,))
                self.added(st, op, fn, line)
                cur = mk('obj', mk('s', ''), frozenset([op]))
        elif cur.k in ('k', 's', 'bin', 'top', 'out', 'loopv', 'accv', 'acc', 'ind', 'idx', 'elem', 'mref', 'clo', 'undef', 'uninit', 'unk', 'arg'):
            return False
        base, ops = (cur.a[0], cur.a[1]) if cur.k == 'obj' else (cur, frozenset())
        if local_root(base).k in ('arg', 'unk', 'elem', 'idx'):
            return False
        if QUIET.search(name):
            # moves a cursor: nothing is recorded
            return base.k == 'bag' or cur.k == 'obj'
        op = mk('op', name, tuple(self.bare(x) for x in others))
        self.added(st, op, fn, line, cur.a[0] if cur.k == 'bag' else ops)
        if cur.k == 'bag' and (name.split('::')[0] in ('Vec', 'VecDeque', 'HashSet', 'slice', 'BTreeSet') or '::' not in name):
            nv = mk('bag', cur.a[0] | {op})
        else:
            ops = ops | {op}
            if len(ops) > 24:
                return False
            nv = mk('obj', base, ops)
        self.store(st, ('loc',) + ref.a, nv)
        return True

    def local_set(self, st, t, val, fn, line):
        """a part of a local object is overwritten"""
        if local_root(t).k in ('arg', 'unk', 'elem', 'idx', 'uninit'):
            return
        self.added(st, mk('op', 'set', (self.bare(t), self.bare(self.value(st, val)))), fn, line)

    def bare(self, t):
        """t as an operand of a recorded operation"""
        if t.k == 'obj':
            return mk('obj', t.a[0], frozenset())
        if any(x.k == 'obj' and x.a[1] for x in subterms(t)):
            return mk('top')
        return t

    def mutate(self, st, root):
        """something reachable from term root was mutated by an opaque call."""
        add = [t for t in st.facts if t.k != 'did' and t not in st.stale and contains(t, root)]
        if add:
            st.stale = st.stale | frozenset(add)
        if st.heap:
            for k in [k for k in st.heap if contains(k, root)]:
                del st.heap[k]

    # ---------------------------------------------------------------- terms
    def field(self, st, t, name):
        k = t.k
        if k == 'agg':
            for n, v in t.a[3]:
                if n == name:
                    return v
        if k == 'with':
            if t.a[1] == name:
                return t.a[2]
            return self.field(st, t.a[0], name)
        if k == 'clo':
            for n, v in t.a[1]:
                if n == name:
                    return v
        if k == 'v':
            b, var = t.a
            if var == 'ok' and name == '0':
                return self.okp(b)
            if var == 'err' and name == '0':
                return self.errp(b)
        if k == 'phi':
            alts = set(self.field(st, x, name) for x in t.a[0])
            return self.phi(alts)
        if k == 'ovf' and name == '0':
            return t.a[0]
        r = mk('f', t, name)
        h = st.heap.get(r)
        return h if h is not None else r

    def downcast(self, t, var):
        v = OKS.get(var, var)
        if t.k == 'agg' and t.a[2]:
            return t
        if t.k == 'phi':
            alts = [x for x in t.a[0] if not (x.k == 'agg' and OKS.get(x.a[2], x.a[2]) != v)]
            if len(alts) == 1:
                return self.downcast(alts[0], var)
        return mk('v', t, v)

    def okp(self, t):
        if t.k == 'agg' and t.a[3] and OKS.get(t.a[2]) == 'ok':
            return t.a[3][0][1]
        if t.k == 'conv':
            return self.okp(t.a[0])
        if t.k == 'getopt':
            return self.index(None, t.a[0], t.a[1])
        if t.k == 'phi':
            alts = [x for x in t.a[0] if not (x.k == 'agg' and OKS.get(x.a[2]) == 'err')]
            if alts:
                return self.phi(set(self.okp(x) for x in alts))
        return mk('okp', t)

    def errp(self, t):
        if t.k == 'agg' and t.a[3] and OKS.get(t.a[2]) == 'err':
            return t.a[3][0][1]
        if t.k == 'conv':
            return mk('errp', t.a[0])
        return mk('errp', t)

    def phi(self, alts):
        flat = set()
        for x in alts:
            if x.k == 'phi':
                flat |= x.a[0]
            else:
                flat.add(x)
        if len(flat) == 1:
            return next(iter(flat))
        bags = [x for x in flat if x.k == 'bag']
        if bags and len(bags) == len(flat):
            s = frozenset()
            for b in bags:
                s |= b.a[0]
            return mk('bag', s)
        if len(flat) > 6:
            return mk('top')
        return mk('phi', frozenset(flat))

    def disc_of(self, t):
        """(term, None) or (None, variant) for the discriminant of t."""
        while t.k in ('conv', 'with'):
            t = t.a[0]
        if t.k == 'agg' and t.a[0] == 'adt':
            return None, OKS.get(t.a[2], t.a[2])
        if t.k == 'getopt':
            return mk('bool', self.inrange(t.a[0], t.a[1])), None
        return mk('disc', t), None

    def inrange(self, v, i):
        n = mk('call', 'len', (v,))
        if i.k == 'last':
            return self.neg(self.cmp('eq', n, ZERO))
        if i.k == 'idx' and i.a[0] is v:
            return TRUE
        return self.cmp('lt', i, n)

    # ------------------------------------------------------------ bool ops
    def cmp(self, op, a, b):
        if op in ('Ne', 'ne'):
            return self.neg(self.cmp('eq', a, b))
        if op in ('Eq', 'eq'):
            if a is b and a.k in ('k', 's'):
                return TRUE
            for x, y in ((a, b), (b, a)):
                if y.k == 'agg' and y.a[0] == 'adt' and not y.a[3]:
                    v = OKS.get(y.a[2], y.a[2])
                    d, known = self.disc_of(x)
                    if known is not None:
                        return TRUE if known == v else FALSE
                    if d.k == 'bool':
                        return d.a[0] if v == 'ok' else self.neg(d.a[0])
                    return mk('isv', d, v)
                if y is TRUE:
                    return x
                if y is FALSE:
                    return self.neg(x)
            if a.k in ('k', 's') and b.k in ('k', 's') and a.k == b.k:
                return TRUE if a is b else FALSE
            for x, y in ((a, b), (b, a)):
                if const_val(y) is not None and const_val(x) is None and x.k != 'agg':
                    return mk('isv', x, const_val(y))
            if show(b) < show(a):
                a, b = b, a
            return mk('bin', 'eq', a, b)
        if op in ('Lt', 'lt'):
            # len > 0
            if a is ZERO and b.k == 'call' and b.a[0] == 'len':
                return self.neg(self.cmp('eq', b, ZERO))
            if b.k == 'k' and b.a[0] == '1' and a.k == 'call' and a.a[0] == 'len':
                return self.cmp('eq', a, ZERO)
            if a.k == 'k' and re.match(r'^\d+$', a.a[0]) and b.k != 'k':
                return self.neg(self.cmp('lt', b, mk('k', str(int(a.a[0]) + 1))))
            if a.k == 'k' and b.k == 'k' and re.match(r'^\d+$', a.a[0]) and re.match(r'^\d+$', b.a[0]):
                return TRUE if int(a.a[0]) < int(b.a[0]) else FALSE
            if a.k == 'call' and a.a[0] == 'len' and b.k == 'k' and re.match(r'^[1-5]$', b.a[0]):
                return mk('isv', a, '/'.join(str(i) for i in range(int(b.a[0]))))
            return mk('bin', 'lt', a, b)
        if op in ('Gt', 'gt'):
            return self.cmp('lt', b, a)
        if op in ('Ge', 'ge'):
            return self.neg(self.cmp('lt', a, b))
        if op in ('Le', 'le'):
            return self.neg(self.cmp('lt', b, a))
        return mk('bin', op, a, b)

    def cmp_unsigned(self, op, a, b):
        """a comparison with a small constant, as the set of values it allows"""
        if op in ('Gt', 'gt'):
            return self.cmp_unsigned('Lt', b, a)
        if op in ('Ge', 'ge'):
            return self.neg(self.cmp_unsigned('Lt', a, b))
        if op in ('Le', 'le'):
            return self.neg(self.cmp_unsigned('Lt', b, a))
        if a.k == 'k' and b.k != 'k' and re.match(r'^[0-4]$', a.a[0]):
            return self.neg(mk('isv', b, '/'.join(str(i) for i in range(int(a.a[0]) + 1))))
        if b.k == 'k' and a.k != 'k' and re.match(r'^[1-5]$', b.a[0]):
            return mk('isv', a, '/'.join(str(i) for i in range(int(b.a[0]))))
        return self.cmp('Lt', a, b)

    def junction(self, op, x, y):
        """conjunction or disjunction of booleans, in one order"""
        parts = []
        work = [x, y]
        while work:
            z = work.pop()
            if z.k == 'bin' and z.a[0] == op:
                work += [z.a[1], z.a[2]]
            elif z not in parts:
                parts.append(z)
        if len(parts) > 5:
            return None
        parts.sort(key=show)
        r = parts[-1]
        for z in parts[-2::-1]:
            r = mk('bin', op, z, r)
        return r

    def neg(self, t):
        if t is TRUE:
            return FALSE
        if t is FALSE:
            return TRUE
        if t.k == 'bin' and t.a[0] in ('BitAnd', 'BitOr'):
            r = self.junction('BitOr' if t.a[0] == 'BitAnd' else 'BitAnd', self.neg(t.a[1]), self.neg(t.a[2]))
            if r is not None:
                return r
        if t.k == 'un' and t.a[0] == 'Not':
            return t.a[1]
        return mk('un', 'Not', t)

    def branch_bool(self, st, t):
        """fork the state on boolean term t -> [(bool, state)]"""
        if t is TRUE or (t.k == 'k' and t.a[0] == '1'):
            return [(True, st)]
        if t is FALSE or (t.k == 'k' and t.a[0] == '0'):
            return [(False, st)]
        if t.k == 'un' and t.a[0] == 'Not':
            return [(not b, s) for b, s in self.branch_bool(st, t.a[1])]
        if t.k == 'bin' and t.a[0] == 'lt' and t.a[1].k == 'ind' and t.a[2].k == 'call' and t.a[2].a[0] == 'len':
            c = t.a[2].a[1][0]
            s1 = st.copy()
            for k, v in list(s1.env.items()):
                if v is t.a[1]:
                    s1.env[k] = mk('idx', c)
            s0 = st.copy()
            for b in self.base_of(c):
                s0.facts[mk('done', b)] = DID
            return [(True, s1), (False, s0)]
        if t.k == 'isv':
            out = []
            d, v = t.a
            vs = frozenset([v]) if v[:1] in QUOTES else frozenset(v.split('/'))
            s1 = st.copy()
            if self.assume(s1, d, vs):
                out.append((True, s1))
            s2 = st.copy()
            if v in OPP and self._optlike(d):
                neg = frozenset([OPP[v]])
            else:
                neg = Co(vs)
            if self.assume(s2, d, neg):
                out.append((False, s2))
            return out
        if t.k == 'bin' and t.a[0] == 'eq' and all(x.k == 'call' and x.a[0] == 'len' and x not in st.stale for x in t.a[1:]):
            # both lengths compared with zero before
            w, v = (st.facts.get(x) for x in t.a[1:])
            if w and v and not isinstance(w, Co) and not isinstance(v, Co) and w == v and len(w) == 1:
                return [(True, st)]
            if w and v and not vs_inter(w, v):
                return [(False, st)]
        if t.k == 'bin' and t.a[0] == 'eq':
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if x.k == 'agg' and x.a[0] == 'adt' and x.a[2] in OKS and len(x.a[3]) == 1:
                    want = OKS[x.a[2]]
                    out = []
                    for v, p, s in self.branch_opt(st, y):
                        if v != want:
                            out.append((False, s))
                        else:
                            out.extend(self.branch_bool(s, self.cmp('eq', x.a[3][0][1], p)))
                    return out
        if t.k == 'phi':
            # boolean phi of constants: undecided
            out = []
            for v in (True, False):
                out.append((v, st.copy()))
            return out
        if t.k == 'bin' and t.a[0] in ('BitAnd', 'BitOr'):
            out = []
            stop = t.a[0] == 'BitOr'
            for b1, s1 in self.branch_bool(st, t.a[1]):
                if b1 == stop:
                    out.append((b1, s1))
                    continue
                for b2, s2 in self.branch_bool(s1, t.a[2]):
                    out.append(((b1 and b2) if t.a[0] == 'BitAnd' else (b1 or b2), s2))
            return out
        out = []
        for v, c in ((True, '1'), (False, '0')):
            s = st.copy()
            self.universe.setdefault(t, ('0', '1'))
            if self.assume(s, t, frozenset([c])):
                out.append((v, s))
        return out

    def _optlike(self, d):
        return True

    def branch_opt(self, st, t):
        """fork on Option/Result-like term -> [('ok'|'err', payload, state)]"""
        d, v = self.disc_of(t)
        if v is not None:
            return [(v, self.okp(t) if v == 'ok' else self.errp(t), st)]
        out = []
        if d.k == 'bool':
            return [('ok' if b else 'err', self.okp(t) if b else mk('k', 'fmt'), s) for b, s in self.branch_bool(st, d.a[0])]
        self.universe.setdefault(d, ('ok', 'err'))
        if t.k == 'phi':
            known = st.facts.get(d) if d not in st.stale else None
            for x in sorted(t.a[0], key=lambda z: z.n):
                out.extend(self.branch_opt(st.copy(), x))
            if known is not None:
                out = [o for o in out if o[0] in known]
            return out
        for v in ('ok', 'err'):
            s = st.copy()
            if self.assume(s, d, frozenset([v])):
                out.append((v, self.okp(t) if v == 'ok' else self.errp(t), s))
        return out

    # ---------------------------------------------------------------- places
    def resolve_place(self, st, frame, place):
        """-> ('loc', frame, local, projlist) or ('term', T)"""
        if isinstance(place, int):
            return ('loc', frame, place, ())
        local = place[0]
        cur = ('loc', frame, local, ())
        for p in place[1:]:
            if p == '*':
                v = self.load(st, cur)
                if v.k == 'mref':
                    cur = ('loc', v.a[0], v.a[1], v.a[2])
                elif v.k == 'uninit' and cur[0] == 'loc' and not cur[3]:
                    pass   # first write into a fresh box: the box is its content
                else:
                    cur = ('term', v)
                continue
            if p[0] == '[':
                idx = self.load(st, ('loc', frame, int(p[1:].strip('_]')), ()))
                p = ('[', idx)
            elif p[0] in '#%':
                p = ('#', p)
            if cur[0] == 'loc':
                cur = ('loc', cur[1], cur[2], cur[3] + (p,))
            else:
                cur = ('term', self.proj(st, cur[1], p))
        return cur

    def proj(self, st, v, p):
        if isinstance(p, tuple):
            if p[0] == '[':
                return self.index(st, v, p[1])
            m = re.match(r'^#(\d+)', p[1])
            if m:
                return self.index(st, v, mk('k', m.group(1)))
            if p[1].startswith('%1') and not p[1][2:3].isdigit():
                return self.index(st, v, mk('last'))
            return mk('index', v, mk('k', p[1]))
        if p[0] == '.':
            name = p[1:]
            if name[0] == '^':
                name = name.split(':')[0]
            if v.k == 'mref':
                v = self.load(st, ('loc', v.a[0], v.a[1], v.a[2]))
            return self.field(st, v, name)
        if p[0] == '@':
            if v.k == 'mref':
                v = self.load(st, ('loc', v.a[0], v.a[1], v.a[2]))
            return self.downcast(v, p[1:])
        return v

    def index(self, st, v, i):
        if i.k == 'idx':
            if i.a[0] is v:
                return self.elem(v)
        if i.k == 'bin' and i.a[0] == 'Sub' and i.a[2].k == 'k' and i.a[2].a[0] == '1' and i.a[1].k == 'call' and i.a[1].a[0] == 'len' and i.a[1].a[1][0] is v:
            return mk('index', v, mk('last'))
        if v.k == 'agg' and v.a[0] == 'array' and i.k == 'k':
            for n, x in v.a[3]:
                if n == i.a[0]:
                    return x
        if i.k == 'f' and i.a[1] == '0' and i.a[0].k == 'elem' and i.a[0].a[0] is v:
            return mk('f', i.a[0], '1')
        return mk('index', v, i)

    def load(self, st, loc):
        if loc[0] == 'term':
            return loc[1]
        v = st.env.get((loc[1], loc[2]))
        if v is None:
            v = mk('undef')
        for p in loc[3]:
            v = self.proj(st, v, p)
        return v

    def value(self, st, v):
        """strip mrefs for display as an opaque call argument"""
        n = 0
        while v.k == 'mref' and n < 10:
            v = self.load(st, ('loc', v.a[0], v.a[1], v.a[2]))
            n += 1
        if mrefs(v):
            v = self.subst_mref(st, v, 0)
        return v

    def subst_mref(self, st, v, d):
        if not mrefs(v) or d > 6:
            return v
        if v.k == 'mref':
            return self.subst_mref(st, self.load(st, ('loc', v.a[0], v.a[1], v.a[2])), d + 1)
        if v.k == 'clo':
            return v
        if v.k == 'agg':
            return mk('agg', v.a[0], v.a[1], v.a[2], tuple((n, self.subst_mref(st, x, d + 1)) for n, x in v.a[3]))
        if v.k == 'it':
            return mk('it', *[self.subst_mref(st, x, d + 1) if isinstance(x, T) else x for x in v.a])
        if v.k in ('conv', 'okp', 'f'):
            return mk(v.k, self.subst_mref(st, v.a[0], d + 1), *v.a[1:])
        return v

    def store(self, st, loc, val, fn=None, line=0):
        if loc[0] == 'loc':
            key = (loc[1], loc[2])
            if not loc[3]:
                st.env[key] = val
                return
            base = st.env.get(key) or mk('undef')
            ps = loc[3]
            if base.k == 'uninit':
                st.env[key] = val
                return
            if fn is not None and any(isinstance(q, tuple) for q in ps):
                self.local_set(st, self.load(st, loc), val, fn, line)
            st.env[key] = self.update(st, base, ps, val)
        else:
            t = loc[1]
            if val is t and t not in st.heap and t not in st.stale:
                return
            for k in [k for k in st.heap if k is not t and contains(k, t)]:
                del st.heap[k]
            if t.k == 'uninit' or (t.k == 'f' and t.a[1] == 'value' and contains(t, t) and any(x.k == 'uninit' for x in subterms(t))):
                return
            add = [x for x in st.facts if x.k != 'did' and x not in st.stale and contains(x, t)]
            if add:
                st.stale = st.stale | frozenset(add)
            st.heap[t] = val
            auto = self.o.auto and self.o.auto(self, 'write', (t,), [0])
            if not auto and fn is not None and self.o.auto:
                self.local_set(st, t, val, fn, line)
            if self.o.track('write') or auto:
                self.did(st, 'write', (t, self.value(st, val)))
            self.sinkhit(st, 'write', (t, self.value(st, val)), fn, line, None, bool(auto))

    def update(self, st, base, ps, val):
        p = ps[0]
        if isinstance(p, tuple) or p[0] == '@':
            if len(ps) == 1:
                return base if base.k == 'upd' else mk('upd', base)
            inner = self.proj(st, base, p)
            if p[0] == '@' and base.k == 'agg':
                return self.update(st, base, ps[1:], val)
            return mk('upd', base)
        name = p[1:]
        if len(ps) > 1:
            val = self.update(st, self.field(st, base, name), ps[1:], val)
        if base.k == 'agg' and any(n == name for n, _ in base.a[3]):
            return mk('agg', base.a[0], base.a[1], base.a[2], tuple((n, val if n == name else v) for n, v in base.a[3]))
        b = base
        if b.k == 'with' and b.a[1] == name:
            b = b.a[0]
        n = 0
        return mk('with', b, name, val)

    # -------------------------------------------------------------- operands
    def release(self, st, v, fn, line):
        while v.k in ('with', 'upd', 'okp'):
            v = v.a[0]
        self.sinkhit(st, 'release', (v,), fn, line, None, True)
        self.did(st, 'release', (v,))

    def operand(self, st, frame, o, fn=None):
        k = o[0]
        if k == 'm' and fn is not None:
            b = o[1] if isinstance(o[1], int) else o[1][0]
            if isinstance(b, int) and guard_local(fn, b):
                v = self.load(st, self.resolve_place(st, frame, o[1]))
                if v.k != 'undef':
                    st.env.pop((frame, b), None)
                return v
        if k in ('c', 'm'):
            return self.load(st, self.resolve_place(st, frame, o[1]))
        if k == 'k':
            return mk('k', o[1])
        if k == 's':
            return mk('s', o[1])
        if k == 'n':
            return self.const(o[1])
        if k == 'f':
            return mk('fn', (o[1]['r'] or o[1]['f']), o[1]['f'])
        return mk('top')

    def const(self, path):
        c = self.constc.get(path)
        if c is not None:
            return c
        c = mk('k', path.split('::')[-1])
        f = self.prog.resolve(path, self.root.crate)
        if f is not None and f.kind in ('const', 'static') and len(f.blocks) == 1:
            stm = f.blocks[0][0]
            for pl, rv, _ in reversed(stm):
                if pl == 0 and rv[0] in ('use', 'cast', 'ref') and rv[0] != 'ref' and rv[1][0] in ('k', 's'):
                    c = mk('k' if rv[1][0] == 'k' else 's', rv[1][1])
        self.constc[path] = c
        return c

    def rvalue(self, st, fn, frame, r, bb, line):
        k = r[0]
        if k == 'use':
            return self.operand(st, frame, r[1], fn)
        if k == 'ref':
            loc = self.resolve_place(st, frame, r[2])
            if r[1]:
                if loc[0] == 'loc':
                    v = self.load(st, loc)
                    if v.k == 'mref':
                        return v
                    return mk('mref', loc[1], loc[2], loc[3])
                return loc[1]
            return self.load(st, loc)
        if k == 'raw':
            loc = self.resolve_place(st, frame, r[1])
            if loc[0] == 'loc':
                return mk('mref', loc[1], loc[2], loc[3])
            return loc[1]
        if k == 'cast':
            return self.operand(st, frame, r[1], fn)
        if k == 'bin':
            a = self.value(st, self.operand(st, frame, r[2], fn))
            b = self.value(st, self.operand(st, frame, r[3], fn))
            op = r[1]
            if op.endswith('WithOverflow'):
                return mk('ovf', self.arith(op[:-12], a, b))
            if op in ('Eq', 'Ne', 'Lt', 'Gt', 'Le', 'Ge'):
                if len(r) > 4 and r[4] is True and op not in ('Eq', 'Ne'):
                    return self.cmp_unsigned(op, a, b)
                return self.cmp(op, a, b)
            return self.arith(op, a, b)
        if k == 'un':
            a = self.value(st, self.operand(st, frame, r[2], fn))
            if r[1] == 'Not':
                return self.neg(a)
            if r[1] == 'PtrMetadata':
                return mk('call', 'len', (a,))
            return mk('un', r[1], a)
        if k == 'disc':
            loc = self.resolve_place(st, frame, r[1])
            return mk('discv', self.value(st, self.load(st, loc)), r[2])
        if k == 'agg':
            kind, name, variant, fields, ops = r[1:6]
            vals = [self.operand(st, frame, o, fn) for o in ops]
            if kind in ('closure', 'coroutine'):
                return mk('clo', name, tuple(('^%d' % i, v) for i, v in enumerate(vals)))
            if kind == 'adt':
                nm = name
                if variant and self.prog_kind(nm) == 'struct':
                    variant = ''
                if OKS.get(variant) and nm in ('std::option::Option', 'std::result::Result', 'std::ops::ControlFlow'):
                    nm = nm.split('::')[-1]
                return mk('agg', 'adt', nm, variant, tuple(zip(fields, vals)))
            if kind == 'tuple' and not vals:
                return UNIT
            return mk('agg', kind, '', '', tuple((str(i), v) for i, v in enumerate(vals)))
        return mk('top')

    def prog_kind(self, nm):
        a = self.prog.adts.get(nm)
        if a is None and nm.startswith('acorn::'):
            a = self.prog.adts.get(nm[7:])
        if a is not None:
            return a['kind']
        if nm in STD_DISC:
            return 'enum'
        return None

    def intish(self, fj, fn):
        tys = [fn.crate['types'][i] for i in fj['a']] if fj['a'] else []
        return bool(tys) and bool(INT.match(tys[0]))

    def arith(self, op, a, b):
        if op in ('BitAnd', 'BitOr'):
            for x, y in ((a, b), (b, a)):
                if x is TRUE:
                    return y if op == 'BitAnd' else TRUE
                if x is FALSE:
                    return FALSE if op == 'BitAnd' else y
            if a is b:
                return a
        if op in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor') and show(b) < show(a):
            a, b = b, a
        if a.k == 'k' and b.k == 'k':
            try:
                x, y = int(a.a[0]), int(b.a[0])
                if op == 'Add':
                    return mk('k', str(x + y))
                if op == 'Sub' and x >= y:
                    return mk('k', str(x - y))
            except ValueError:
                pass
        return mk('bin', op, a, b)

    def variant_name(self, adt, val):
        m = STD_DISC.get(adt)
        if m:
            return m.get(val, val), tuple(sorted(set(m.values())))
        a = self.prog.adts.get(adt)
        if a is None and adt.startswith('acorn::'):
            a = self.prog.adts.get(adt[7:])
        if a:
            names = tuple(OKS.get(v['name'], v['name']) for v in a['variants'])
            for v in a['variants']:
                if v['disc'] == val:
                    return OKS.get(v['name'], v['name']), names
        return val, None

    # ------------------------------------------------------------- iteration
    def range_of(self, c):
        """collection v when c is the range 0..v.len()"""
        if c.k == 'agg' and c.a[1].endswith('Range') and c.a[3]:
            f = dict(c.a[3])
            e = f.get('end')
            if f.get('start') is ZERO and e is not None and e.k == 'call' and e.a[0] == 'len':
                return e.a[1][0]
        return None

    def elem(self, c):
        r = self.range_of(c)
        if r is not None:
            return mk('idx', r)
        if c.k == 'bag':
            es = elems(c)
            if len(es) == 1:
                return next(iter(es))
            if es:
                return self.phi(set(es))
        if c.k == 'agg' and c.a[0] == 'array' and c.a[3]:
            return self.phi(set(v for _, v in c.a[3]))
        return mk('elem', c)

    def base_of(self, it):
        """done-marker collections for an iterator term"""
        if it.k == 'it':
            kind = it.a[0]
            if kind in ('keys', 'values'):
                return self.base_of(it.a[1])
            if kind == 'zip':
                return self.base_of(it.a[1])
            if kind == 'chain':
                return self.base_of(it.a[1]) + self.base_of(it.a[2])
            if kind in ('map', 'filter', 'filter_map', 'enumerate', 'inspect', 'flat_map', 'flatten', 'rev') or (kind in ('take', 'skip', 'step_by') and it.a[1].k == 'it'):
                return self.base_of(it.a[1])
            return [it]
        r = self.range_of(it)
        if r is not None:
            return [r]
        if it.k == 'bag' and elems(it):
            out = []
            for e in elems(it):
                for s in subterms(e):
                    if s.k in ('elem', 'idx'):
                        out.append(s.a[0])
            return sorted(set(out), key=lambda x: x.n) or [it]
        return [it]

    def pull(self, st, it, ctx, depth):
        """one element of iterator `it` -> [(elem term or None (skipped), state)]"""
        if it.k == 'mref':
            it = self.value(st, it)
        if it.k == 'it':
            kind = it.a[0]
            out = []
            if kind in ('keys', 'values'):
                return [((None if e is None else self.field(s, e, '0' if kind == 'keys' else '1')), s) for e, s in self.pull(st, it.a[1], ctx, depth)]
            if kind == 'rev' or (kind in ('take', 'skip', 'step_by') and it.a[1].k == 'it'):
                for e, s in self.pull(st, it.a[1], ctx, depth):
                    s = s.copy()
                    if kind == 'rev':
                        for b in self.base_of(it):
                            s.facts[mk('order', b)] = REV
                    elif e is not None:
                        s.facts[mk('call', kind, tuple(self.base_of(it)) + it.a[2:])] = DID
                    out.append((e, s))
                return out
            if kind == 'zip' and it.a[2].k not in ('it', 'bag', 'agg'):
                bs = self.base_of(it.a[1])
                for e1, s1 in self.pull(st, it.a[1], ctx, depth):
                    if e1 is None:
                        out.append((None, s1))
                    else:
                        out.append((mk('agg', 'tuple', '', '', (('0', e1), ('1', self.index(s1, it.a[2], mk('idx', bs[0]))))), s1))
                return out
            if kind == 'zip':
                for e1, s1 in self.pull(st, it.a[1], ctx, depth):
                    if e1 is None:
                        out.append((None, s1))
                        continue
                    for e2, s2 in self.pull(s1, it.a[2], ctx, depth):
                        if e2 is None:
                            out.append((None, s2))
                        else:
                            out.append((mk('agg', 'tuple', '', '', (('0', e1), ('1', e2))), s2))
                return out
            if kind == 'chain':
                return self.pull(st.copy(), it.a[1], ctx, depth) + self.pull(st.copy(), it.a[2], ctx, depth)
            if kind == 'enumerate':
                bs = self.base_of(it.a[1])
                for e, s in self.pull(st, it.a[1], ctx, depth):
                    out.append((None if e is None else mk('agg', 'tuple', '', '', (('0', mk('idx', bs[0])), ('1', e))), s))
                return out
            if kind in ('map', 'filter', 'filter_map', 'inspect', 'flat_map', 'take_while', 'map_while', 'skip_while'):
                f = it.a[2]
                for e, s in self.pull(st, it.a[1], ctx, depth):
                    if e is None:
                        out.append((None, s))
                        continue
                    for r, s2 in self.apply(s, f, (e,), ctx + '/' + kind, depth):
                        if kind == 'map':
                            out.append((r, s2))
                        elif kind == 'inspect':
                            out.append((e, s2))
                        elif kind in ('filter', 'take_while', 'skip_while'):
                            for b, s3 in self.branch_bool(s2, r):
                                if kind == 'skip_while':
                                    out.append((e, s3))
                                else:
                                    out.append((e if b else None, s3))
                        elif kind in ('filter_map', 'map_while'):
                            for v, p, s3 in self.branch_opt(s2, r):
                                out.append((p if v == 'ok' else None, s3))
                        else:
                            out.extend(self.pull(s2, self.value(s2, r), ctx + '/fm', depth))
                return out
            if kind == 'flatten':
                for e, s in self.pull(st, it.a[1], ctx, depth):
                    if e is None:
                        out.append((None, s))
                    else:
                        out.append((self.elem(self.value(s, e)), s))
                return out
            return [(mk('elem', it), st)]
        if it.k == 'agg' and it.a[0] == 'array' and it.a[3]:
            return [(v, st.copy()) for _, v in it.a[3]]
        if it.k == 'bag':
            es = elems(it)
            if not es:
                return []
            out = []
            for v in sorted(es, key=lambda x: x.n):
                s = self.carry(st.copy(), v, it)
                if s is not None:
                    out.append((v, s))
            return out
        return [(self.elem(it), st)]

    @staticmethod
    def varying(t, mark):
        """does fact term t depend on the current element of a loop?"""
        for s in subterms(t):
            if s.k in ('elem', 'idx') and (mark is None or s.a[0] in mark):
                return True
            if s.k == 'loopv':
                return True
            if s.k == 'call' and s.a[0] in POPPERS:
                return True
        return False

    def classes_of(self, facts, base, mark):
        # effects of this round count even when they do not mention the element
        return frozenset((t, v) for t, v in facts.items() if base.get(t) != v and (t.k == 'did' or self.varying(t, mark)))

    def finish_loop(self, st, it_bases, classes, zero=False):
        """facts after every element has been processed."""
        common = None
        for c in classes:
            d = dict(c)
            if common is None:
                common = d
            else:
                common = {t: vs_union(v, d[t]) for t, v in common.items() if t in d}
        if common:
            for t, v in common.items():
                if zero and t.k == 'did' and not self.varying(t, None):
                    continue
                u = self.universe.get(t)
                if u and not isinstance(v, Co) and set(u) <= set(v):
                    continue
                st.facts[t] = v
        for b in it_bases:
            k = mk('forall', b)
            old = st.facts.get(k)
            st.facts[k] = (old | classes) if old is not None else frozenset(classes)
        return st

    def mini_loop(self, st, it, body, ctx, depth):
        """Run `body(elem, state) -> [(tag, value, state)]` as a loop over `it`.
        Returns (exits, classes, bases, values): exits are states with tag 'exit';
        states tagged 'next' become iteration classes."""
        it = self.value(st, it)
        bases = self.base_of(it)
        mark = None
        base = dict(st.facts)
        classes = set()
        exits = []
        nexts = []
        vals = set()
        if it.k == 'agg' and it.a[0] == 'array' and len(it.a[3]) <= 4:
            cur = [st.copy()]
            for _, e in it.a[3]:
                nxt = []
                for s in cur:
                    for tag, v, s2 in body(e, s.copy()):
                        if tag == 'next':
                            nxt.append(s2)
                            if v is not None:
                                vals.add(v)
                        else:
                            exits.append((v, s2))
                cur = nxt[:24]
            if cur:
                return exits, (cur[0] if len(cur) == 1 else self.join(cur)), vals
            d = st.copy()
            d.facts[NEVER] = DID
            return exits, d, vals
        for e, s in self.pull(st.copy(), it, ctx, depth):
            if e is None:
                classes.add(self.classes_of(s.facts, base, mark))
                nexts.append(s)
                continue
            for tag, v, s2 in body(e, s):
                if tag == 'next':
                    classes.add(self.classes_of(s2.facts, base, mark))
                    nexts.append(s2)
                    if v is not None:
                        vals.add(v)
                else:
                    exits.append((v, s2))
        # state after completion: env joined over zero iterations and every class
        done = st.copy()
        if nexts:
            j = self.join([st.copy()] + nexts, keepfacts=True)
            done.env = j.env
            done.heap = j.heap
            done.stale = j.stale
            # non-varying facts established on every iteration do not hold for zero iterations
        done = self.finish_loop(done, bases, frozenset(classes))
        return exits, done, vals

    # ------------------------------------------------------------- closures
    def apply(self, st, f, args, ctx, depth):
        """call a function value -> [(ret, state)]"""
        f = self.value(st, f) if f.k == 'mref' else f
        if f.k == 'clo':
            fn = self.prog.resolve(f.a[0], self.root.crate)
            if fn is not None and depth < self.o.depth:
                n = fn.nargs - 1
                a = list(args)
                if len(a) != n:
                    if len(a) == 1 and n > 1 and a[0].k == 'agg':
                        a = [x for _, x in a[0].a[3]]
                    else:
                        a = (a + [mk('top')] * n)[:n]
                return self.exec_fn(fn, [f] + a, st, ctx + '/' + cname(f.a[0])[-24:], depth + 1)
            return [(mk('call', 'closure', tuple(self.value(st, x) for x in args)), st)]
        if f.k == 'fn':
            path = f.a[0]
            name = cname(f.a[1])
            # tuple-variant constructor?
            segs = f.a[1].split('::')
            last = segs[-1]
            if last in OKS and segs[-2:-1] != [] and ('Option' in f.a[1] or 'Result' in f.a[1]):
                return [(mk('agg', 'adt', 'Option' if 'Option' in f.a[1] else 'Result', last, (('0', args[0]),)), st)]
            if last[:1].isupper():
                parent = '::'.join(segs[:-1])
                a = self.prog.adts.get(parent) or self.prog.adts.get(f.a[1])
                if a is not None:
                    return [(mk('agg', 'adt', a['path'], last if a['kind'] == 'enum' else '', tuple((str(i), x) for i, x in enumerate(args))), st)]
            muts = []
            outs = self.call_named(st, {'f': f.a[1], 'r': path, 'a': [], 'l': 0}, list(args), muts, self.root, 'R', ctx + '/fn', 0, depth, [None] * len(args))
            return [o for o in outs if NEVER not in o[1].facts]
        v = (f,) + tuple(self.value(st, x) for x in args)
        if self.o.auto is not None and local_root(f).k == 'arg':
            st = st.copy()
            self.sinkhit(st, 'call', v, fn_of(self), 0, None, True)
            self.did(st, 'call', v)
        return [(mk('call', 'apply', v), st)]

    # ---------------------------------------------------------------- calls
    def sinkhit(self, st, name, vals, fn, line, ctx, force=False):
        if not force and not self.o.sink(name):
            return
        key = (name, vals, frozenset(st.facts.items()), line, ctx if name == 'add' else None)
        if key in self.hitkeys:
            return
        self.hitkeys.add(key)
        self.hits.append(Hit(name, vals, dict(st.facts), fn, line, ctx))

    def opt_map(self, st, x, ctx, depth, okf=None, errf=None):
        """generic Option/Result combinator. okf/errf: (payload, state)->[(val, state)]"""
        out = []
        for v, p, s in self.branch_opt(st, x):
            if v == 'ok':
                out.extend(okf(p, s) if okf else [(x, s)])
            else:
                out.extend(errf(p, s) if errf else [(x, s)])
        return out

    def call_named(self, st, fj, args, mutargs, fn, frame, ctx, line, depth, argtys):
        """-> [(ret, state)]"""
        name = cname(fj['f'])
        short = name.split('::')[-1]
        V = lambda x: self.value(st, x)
        self.stats['calls'] += 1

        if name == 'Argument::new_display' and len(args) == 1:
            return [(V(args[0]), st)]
        if name == 'Argument::new_debug' and len(args) == 1:
            return [(mk('call', 'debug', (V(args[0]),)), st)]
        if name == 'Arguments::new' and len(args) == 2:
            return [(self.template(V(args[0]), V(args[1])), st)]
        if name in ('Arguments::from_str', 'Arguments::from_str_nonconst', 'fmt::format') and len(args) == 1:
            return [(V(args[0]), st)]
        if NOISE.match(name):
            return [(mk('k', 'fmt'), st)]

        # user functions -----------------------------------------------------
        target = None
        path = fj['r'] or fj['f']
        if path:
            target = self.prog.resolve(path, fn.crate)
            if target is not None and target.kind not in ('fn', 'method'):
                target = None
        if target is not None and target.d.get('derived'):
            target = None
        if target is not None:
            name = target.name
            if target.d.get('trait'):
                name = cname(fj['f'])
            vals = None
            if self.o.sink(name) or self.o.sink(target.full):
                vals = tuple(V(x) for x in args)
                self.sinkhit(st, name, vals, fn, line, ctx)
            if not self.o.opaque(target) and (self.o.inline(target) or (self.o.trivial and trivial(target) and depth < 7)) and depth < self.o.depth and target.name not in ctx.split('/'):
                self.stats['inlined'].add(target.full)
                if self.o.track(name):
                    self.did(st, name, tuple(V(x) for x in args))
                return self.exec_fn(target, args, st, ctx + '/' + target.name, depth + 1)
            if name in TRANSPARENT and args:
                return [(args[0], st)]
            return self.opaque(st, name, args, mutargs, argtys, target, line, fn)

        if name in ('PartialEq::eq', 'PartialEq::ne') and len(args) == 2:
            r = self.cmp('eq', V(args[0]), V(args[1]))
            return [(r if short == 'eq' else self.neg(r), st)]
        if name in ('cmp::max', 'cmp::min', 'Ord::max', 'Ord::min') and len(args) == 2 and (self.intish(fj, fn)):
            return [(mk('call', 'cmp::' + short, tuple(sorted((V(args[0]), V(args[1])), key=show))), st)]
        if name in ('PartialOrd::lt', 'PartialOrd::gt', 'PartialOrd::le', 'PartialOrd::ge'):
            return [(self.cmp(short, V(args[0]), V(args[1])), st)]
        if name.endswith('box_assume_init_into_vec_unsafe'):
            v = V(args[0])
            if v.k == 'agg' and v.a[0] == 'array' and v.a[3]:
                st = st.copy()
                for _, x in v.a[3]:
                    self.added(st, x, fn, line)
            return [(v, st)]
        if name in TRANSPARENT and args:
            a0 = args[0]
            if name in ('Option::take', 'mem::take'):
                v = V(a0)
                if a0.k == 'mref':
                    st = st.copy()
                    self.store(st, ('loc', a0.a[0], a0.a[1], a0.a[2]), ERR_NONE if name == 'Option::take' else mk('bag', frozenset()))
                else:
                    st = st.copy()
                    if self.o.track('write'):
                        self.did(st, 'write', (v, ERR_NONE))
                    self.mutate(st, v)
                return [(v, st)]
            return [(a0 if a0.k == 'mref' and name in ('IntoIterator::into_iter', 'DerefMut::deref_mut', 'AsMut::as_mut', 'Option::as_mut', 'Iterator::by_ref', 'slice::iter_mut', 'BorrowMut::borrow_mut', 'Pin::new_unchecked', 'Pin::new', 'Pin::as_mut') else V(a0), st)]
        if name == 'Box::new_uninit':
            return [(mk('uninit'), st)]
        if name == 'Not::not':
            return [(self.neg(V(args[0])), st)]
        if short in ('len', 'count_ones') and short == 'len' and len(args) == 1:
            c = V(args[0])
            if c.k == 'agg' and c.a[0] == 'array':
                return [(mk('k', str(len(c.a[3]))), st)]
            return [(mk('call', 'len', (c,)), st)]
        if short == 'is_empty' and len(args) == 1:
            return [(self.cmp('eq', mk('call', 'len', (V(args[0]),)), ZERO), st)]
        if name in ('slice::get', 'Vector::get', 'Vec::get', 'slice::first', 'slice::last', 'VecDeque::get', 'slice::get_mut', 'slice::last_mut', 'slice::first_mut', 'VecDeque::front', 'VecDeque::back', 'Vector::last', 'Vector::front', 'Vector::back', 'VecDeque::back_mut'):
            v = V(args[0])
            if short in ('get', 'get_mut'):
                i = V(args[1])
            elif short in ('first', 'first_mut', 'front'):
                i = ZERO
            else:
                i = mk('last')
            if not (i.k == 'agg'):
                return [(mk('getopt', v, i), st)]
        if name in ('slice::split_last', 'slice::split_first') and args:
            v = V(args[0])
            n = mk('call', 'len', (v,))
            if short == 'split_last':
                i = mk('last')
                rest = mk('agg', 'adt', 'std::ops::RangeTo', 'RangeTo', (('end', mk('bin', 'Sub', n, mk('k', '1'))),))
            else:
                i = ZERO
                rest = mk('agg', 'adt', 'std::ops::RangeFrom', 'RangeFrom', (('start', mk('k', '1')),))
            out = []
            for w, p, s in self.branch_opt(st, mk('getopt', v, i)):
                if w == 'ok':
                    out.append((ok_agg(mk('agg', 'tuple', '', '', (('0', p), ('1', mk('index', v, rest))))), s))
                else:
                    out.append((mk('agg', 'adt', 'Option', 'None', ()), s))
            return out
        if name in ('slice::contains', 'Vec::contains', 'VecDeque::contains', 'Vector::contains') and len(args) == 2:
            it = V(args[0])
            x = V(args[1])
            def cbody(e, s):
                return [('exit', TRUE, s3) if b else ('next', None, s3) for b, s3 in self.branch_bool(s, self.cmp('eq', e, x))]
            if it.k == 'agg' and it.a[0] == 'array':
                out = []
                cur = [st]
                for _, e in it.a[3]:
                    nxt = []
                    for s in cur:
                        for b, s3 in self.branch_bool(s, self.cmp('eq', e, x)):
                            if b:
                                out.append((TRUE, s3))
                            else:
                                nxt.append(s3)
                    cur = nxt
                return out + [(FALSE, s) for s in cur]
            exits, done, _ = self.mini_loop(st, it, cbody, ctx + '/contains', depth)
            return [(v, s) for v, s in exits] + [(FALSE, done)]
        if name in ('HashMap::keys', 'BTreeMap::keys', 'HashMap::values', 'BTreeMap::values', 'HashMap::into_values', 'HashMap::into_keys', 'BTreeMap::into_values', 'HashMap::values_mut', 'BTreeMap::into_keys'):
            return [(mk('it', 'keys' if 'keys' in short else 'values', V(args[0])), st)]
        if name == 'Vec::retain' and args[0].k == 'mref':
            def rbody(e, s):
                s = s.copy()
                self.added(s, self.value(s, e), fn, line)
                return [('next', e, s)]
            exits, done, vals = self.mini_loop(st, mk('it', 'filter', V(args[0]), args[1]), rbody, ctx + '/retain', depth)
            done = done.copy()
            self.store(done, ('loc',) + args[0].a, mk('bag', frozenset(self.value(done, v) for v in vals)))
            return [(UNIT, done)]
        if name in ('Index::index', 'IndexMut::index_mut'):
            if 'RangeFull' in show(V(args[1])):
                return [(args[0], st)]
            return [(self.index(st, V(args[0]), V(args[1])), st)]
        if name in ('Option::is_some', 'Result::is_ok', 'Option::is_none', 'Result::is_err', 'ControlFlow::is_break', 'ControlFlow::is_continue'):
            d, v = self.disc_of(V(args[0]))
            pos = short in ('is_some', 'is_ok', 'is_continue')
            if v is not None:
                return [(TRUE if (v == 'ok') == pos else FALSE, st)]
            x = V(args[0])
            if x.k == 'phi':
                return [(TRUE if (v == 'ok') == pos else FALSE, s) for v, p, s in self.branch_opt(st, x)]
            if d.k == 'bool':
                return [(d.a[0] if pos else self.neg(d.a[0]), st)]
            r = mk('isv', d, 'ok')
            self.universe.setdefault(d, ('ok', 'err'))
            return [(r if pos else self.neg(r), st)]
        if name in ('HashMap::contains_key', 'BTreeMap::contains_key', 'im::HashMap::contains_key'):
            d = mk('disc', mk('call', name.split('::')[0] + '::get', (V(args[0]), V(args[1]))))
            self.universe.setdefault(d, ('ok', 'err'))
            return [(mk('isv', d, 'ok'), st)]
        if name in ('HashMap::entry', 'BTreeMap::entry', 'im::HashMap::entry', 'OrdMap::entry') and len(args) == 2:
            return [(mk('entry', name.rsplit('::', 1)[0], args[0], V(args[1])), st)]
        if name in ('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default', 'Entry::or_insert_with_key') and args and args[0].k == 'entry':
            kind, m, k = args[0].a
            g = mk('call', kind + '::get', (V(m), k))
            out = []
            for v, p, s in self.branch_opt(st, g):
                if v == 'ok':
                    out.append((p, s))
                    continue
                if short == 'or_default':
                    vals = [(mk('default'), s)]
                elif short == 'or_insert':
                    vals = [(args[1], s)]
                else:
                    vals = self.apply(s, args[1], (), ctx + '/ent', depth)
                for x, s2 in vals:
                    for _, s3 in self.opaque(s2, kind + '::insert', [m, k, x], mutargs, ['&mut ', '', ''], None, line, fn):
                        out.append((mk('okp', g), s3))
            return out
        if name == 'FromResidual::from_residual':
            x = V(args[0])
            return [(mk('agg', 'adt', 'Result', 'Err', (('0', x),)), st)]
        if name in ('Option::ok_or', 'Option::ok_or_else', 'Result::map_err', 'Result::ok', 'Option::ok', 'Context::context', 'Context::with_context', 'Option::transpose_never'):
            x = V(args[0])
            if x.k == 'agg' and OKS.get(x.a[2]) == 'ok':
                return [(x, st)]
            if x.k == 'agg' and OKS.get(x.a[2]) == 'err':
                return [(mk('agg', 'adt', 'Result', 'Err', (('0', mk('k', 'fmt')),)), st)]
            if x.k == 'phi':
                return [((mk('agg', 'adt', 'Result', 'Ok', (('0', p),)) if v == 'ok' else mk('agg', 'adt', 'Result', 'Err', (('0', mk('k', 'fmt')),))), s) for v, p, s in self.branch_opt(st, x)]
            if name == 'Result::map_err' and len(args) > 1:
                # run the closure for its effects on the error path
                return [(mk('conv', x), st)]
            return [(mk('conv', x), st)]
        if name == 'Result::err':
            out = []
            for v, p, s in self.branch_opt(st, V(args[0])):
                out.append((ERR_NONE if v == 'ok' else ok_agg(p), s))
            return out
        if name in ('Option::unwrap', 'Result::unwrap', 'Option::expect', 'Result::expect', 'Option::unwrap_unchecked'):
            out = []
            for v, p, s in self.branch_opt(st, V(args[0])):
                if v == 'ok':
                    out.append((p, s))
            return out
        if name in ('Result::unwrap_err', 'Result::expect_err'):
            return [(p, s) for v, p, s in self.branch_opt(st, V(args[0])) if v == 'err']
        if name in ('Option::unwrap_or', 'Result::unwrap_or', 'Option::unwrap_or_default', 'Result::unwrap_or_default', 'Option::unwrap_or_else', 'Result::unwrap_or_else'):
            x = V(args[0])
            if x.k == 'call' and x.a[0] == 'max' and (short == 'unwrap_or_default' or (short == 'unwrap_or' and V(args[1]) is ZERO)):
                # the largest of the elements, or zero
                me = mk('accv', ctx, short, 0)
                ys = [mk('call', 'cmp::max', tuple(sorted((me, y), key=show))) for y in x.a[1]]
                st = st.copy()
                for y in ys:
                    self.added(st, y, fn, line)
                return [(mk('acc', frozenset([ZERO]), frozenset(ys)), st)]
            def errf(p, s):
                if short == 'unwrap_or':
                    return [(args[1], s)]
                if short == 'unwrap_or_default':
                    return [(mk('default'), s)]
                return self.apply(s, args[1], (p,) if name.startswith('Result') else (), ctx + '/uoe', depth)
            return self.opt_map(st, x, ctx, depth, lambda p, s: [(p, s)], errf)
        if name in ('Option::map', 'Result::map'):
            x = V(args[0])
            return self.opt_map(st, x, ctx, depth,
                                lambda p, s: [(mk('agg', 'adt', name.split('::')[0], 'Some' if name[0] == 'O' else 'Ok', (('0', r),)), s2) for r, s2 in self.apply(s, args[1], (p,), ctx + '/map', depth)],
                                lambda p, s: [(ERR_NONE if name[0] == 'O' else mk('agg', 'adt', 'Result', 'Err', (('0', p),)), s)])
        if name in ('Option::and_then', 'Result::and_then', 'Option::is_some_and', 'Result::is_ok_and', 'Option::map_or', 'Result::map_or', 'Option::map_or_else', 'Result::map_or_else', 'Option::is_none_or', 'Option::filter', 'Option::or_else', 'Result::or_else', 'Option::or', 'Option::inspect', 'Option::and', 'Option::xor_never'):
            x = V(args[0])
            A = lambda s, f, a: self.apply(s, f, a, ctx + '/' + short, depth)
            NONE = lambda p, s: [(ERR_NONE if name[0] == 'O' else mk('agg', 'adt', 'Result', 'Err', (('0', p),)), s)]
            if short == 'and_then':
                return self.opt_map(st, x, ctx, depth, lambda p, s: A(s, args[1], (p,)), NONE)
            if short in ('is_some_and', 'is_ok_and'):
                return self.opt_map(st, x, ctx, depth, lambda p, s: A(s, args[1], (p,)), lambda p, s: [(FALSE, s)])
            if short == 'is_none_or':
                return self.opt_map(st, x, ctx, depth, lambda p, s: A(s, args[1], (p,)), lambda p, s: [(TRUE, s)])
            if short == 'map_or':
                return self.opt_map(st, x, ctx, depth, lambda p, s: A(s, args[2], (p,)), lambda p, s: [(args[1], s)])
            if short == 'map_or_else':
                return self.opt_map(st, x, ctx, depth, lambda p, s: A(s, args[2], (p,)), lambda p, s: A(s, args[1], (p,) if name[0] == 'R' else ()))
            if short == 'filter':
                def okf(p, s):
                    out = []
                    for r, s2 in A(s, args[1], (p,)):
                        for b, s3 in self.branch_bool(s2, r):
                            out.append((ok_agg(p) if b else ERR_NONE, s3))
                    return out
                return self.opt_map(st, x, ctx, depth, okf, NONE)
            if short == 'or_else':
                return self.opt_map(st, x, ctx, depth, lambda p, s: [(mk('agg', 'adt', 'Option' if name[0] == 'O' else 'Result', 'Some' if name[0] == 'O' else 'Ok', (('0', p),)), s)], lambda p, s: A(s, args[1], (p,) if name[0] == 'R' else ()))
            if short == 'or':
                return self.opt_map(st, x, ctx, depth, lambda p, s: [(ok_agg(p), s)], lambda p, s: [(V(args[1]), s)])
            if short == 'and':
                return self.opt_map(st, x, ctx, depth, lambda p, s: [(V(args[1]), s)], NONE)
            if short == 'inspect':
                return self.opt_map(st, x, ctx, depth, lambda p, s: [(ok_agg(p), s2) for _, s2 in A(s, args[1], (p,))], NONE)
        if name in ('bool::then', 'bool::then_some'):
            out = []
            for b, s in self.branch_bool(st, V(args[0])):
                if not b:
                    out.append((ERR_NONE, s))
                elif short == 'then_some':
                    out.append((ok_agg(args[1]), s))
                else:
                    out.extend((ok_agg(r), s2) for r, s2 in self.apply(s, args[1], (), ctx + '/then', depth))
            return out
        # iterators ------------------------------------------------------------
        if name in ITER_ADAPT:
            a = [x if x.k == 'clo' or x.k == 'fn' else V(x) for x in args]
            if short == 'rev' and a[0].k == 'agg' and a[0].a[0] == 'array':
                xs = [v for _, v in a[0].a[3]][::-1]
                return [(mk('agg', 'array', a[0].a[1], a[0].a[2], tuple((str(i), v) for i, v in enumerate(xs))), st)]
            if short == 'rev' and a[0].k == 'it' and a[0].a[0] == 'rev':
                return [(a[0].a[1], st)]
            return [(mk('it', ITER_ADAPT[name], *a), st)]
        if name in ('Iterator::skip', 'Iterator::take', 'Iterator::step_by', 'Iterator::scan', 'slice::windows', 'slice::chunks', 'Vec::split_off', 'slice::split_at'):
            return [(mk('it', short, *[V(x) for x in args if x.k != 'clo']), st)]
        if name in ('Iterator::all', 'Iterator::any', 'Iterator::find', 'Iterator::position', 'Iterator::find_map', 'Iterator::for_each', 'Iterator::try_for_each') and len(args) == 2:
            it = V(args[0])
            f = args[1]
            def body(e, s):
                out = []
                for r, s2 in self.apply(s, f, (e,), ctx + '/' + short, depth):
                    if short == 'for_each':
                        out.append(('next', None, s2))
                    elif short == 'try_for_each':
                        for v, p, s3 in self.branch_opt(s2, r):
                            out.append(('next', None, s3) if v == 'ok' else ('exit', mk('agg', 'adt', 'Result', 'Err', (('0', p),)), s3))
                    elif short == 'find_map':
                        for v, p, s3 in self.branch_opt(s2, r):
                            out.append(('next', None, s3) if v == 'err' else ('exit', ok_agg(p), s3))
                    else:
                        for b, s3 in self.branch_bool(s2, r):
                            if short == 'all':
                                out.append(('next', None, s3) if b else ('exit', FALSE, s3))
                            elif short == 'any':
                                out.append(('exit', TRUE, s3) if b else ('next', None, s3))
                            elif short == 'find':
                                out.append(('exit', ok_agg(e), s3) if b else ('next', None, s3))
                            elif short == 'position':
                                out.append(('exit', ok_agg(mk('idx', self.base_of(it)[0])), s3) if b else ('next', None, s3))
                return out
            exits, done, _ = self.mini_loop(st, it, body, ctx + '/' + short, depth)
            dv = {'all': TRUE, 'any': FALSE, 'find': ERR_NONE, 'position': ERR_NONE, 'find_map': ERR_NONE, 'for_each': UNIT,
                  'try_for_each': mk('agg', 'adt', 'Result', 'Ok', (('0', UNIT),))}[short]
            return [(v, s) for v, s in exits] + [(dv, done)]
        if name == 'Iterator::collect':
            it = V(args[0])
            tys = [fn.crate['types'][i] for i in fj['a']] if fj['a'] else []
            rt = tys[-1] if tys else ''
            isres = rt.startswith('std::result::Result') or rt.startswith('std::option::Option')
            if it.k != 'it' and not isres:
                return [(it, st)]
            def body(e, s):
                if not isres:
                    s = s.copy()
                    self.added(s, self.value(s, e), fn, line)
                    return [('next', e, s)]
                out = []
                for v, p, s2 in self.branch_opt(s, e):
                    if v == 'ok':
                        self.added(s2, self.value(s2, p), fn, line)
                    out.append(('next', p, s2) if v == 'ok' else ('exit', mk('agg', 'adt', 'Result', 'Err', (('0', p),)), s2))
                return out
            exits, done, vals = self.mini_loop(st, it, body, ctx + '/collect', depth)
            bag = mk('bag', frozenset(self.value(done, v) for v in vals))
            if isres:
                bag = mk('agg', 'adt', 'Result', 'Ok', (('0', bag),))
            return [(v, s) for v, s in exits] + [(bag, done)]
        if name in ('Iterator::unzip', 'Iterator::partition'):
            it = V(args[0])
            def body(e, s):
                if short == 'partition':
                    out = []
                    for r, s2 in self.apply(s, args[1], (e,), ctx + '/partition', depth):
                        for b, s3 in self.branch_bool(s2, r):
                            s3 = s3.copy()
                            self.added(s3, self.value(s3, e), fn, line)
                            out.append(('next', (b, self.value(s3, e)), s3))
                    return out
                s = s.copy()
                e = self.value(s, e)
                two = tuple(self.field(s, e, n) for n in '01')
                for x in two:
                    self.added(s, x, fn, line)
                return [('next', two, s)]
            exits, done, vals = self.mini_loop(st, it, body, ctx + '/' + short, depth)
            if short == 'partition':
                two = tuple(mk('bag', frozenset(v for b, v in vals if b is w)) for w in (True, False))
            else:
                two = tuple(mk('bag', frozenset(v[n] for v in vals)) for n in (0, 1))
            return [(mk('agg', 'tuple', '', '', (('0', two[0]), ('1', two[1]))), done)]
        if name in ('Iterator::sum', 'Iterator::fold', 'Iterator::product'):
            it = V(args[0])
            me = mk('accv', ctx, short, 0)
            def body(e, s):
                if short == 'fold':
                    outs = self.apply(s, args[2], (me, e), ctx + '/fold', depth)
                else:
                    outs = [(self.arith('Add' if short == 'sum' else 'Mul', me, self.value(s, e)), s)]
                res = []
                for r, s2 in outs:
                    r = self.value(s2, r)
                    if r is not me:
                        s2 = s2.copy()
                        self.added(s2, r, fn, line)
                        res.append(('next', self.backward(s2, st.facts, r), s2))
                    else:
                        res.append(('next', None, s2))
                return res
            init = V(args[1]) if short == 'fold' else ZERO if short == 'sum' else mk('k', '1')
            exits, done, vals = self.mini_loop(st, it, body, ctx + '/' + short, depth)
            if not vals:
                return [(init, done)]
            return [(mk('acc', frozenset([init]), frozenset(self.value(done, v) for v in vals)), done)]
        if name == 'Iterator::count' and V(args[0]).k == 'it':
            it = V(args[0])
            me = self.arith('Add', mk('accv', ctx, short, 0), mk('k', '1'))
            def body(e, s):
                s = s.copy()
                self.added(s, me, fn, line)
                return [('next', me, s)]
            exits, done, vals = self.mini_loop(st, it, body, ctx + '/' + short, depth)
            return [(mk('acc', frozenset([ZERO]), frozenset(vals)), done)]
        if name in ('Iterator::count', 'Iterator::max', 'Iterator::min', 'Iterator::last', 'Iterator::max_by_key', 'Iterator::min_by_key', 'Iterator::max_by', 'Iterator::min_by', 'Iterator::reduce'):
            it = V(args[0])
            def body(e, s):
                return [('next', e, s)]
            exits, done, vals = self.mini_loop(st, it, body, ctx + '/' + short, depth)
            return [(mk('call', short, tuple(sorted((self.value(done, v) for v in vals), key=show))), done)]
        # collections -----------------------------------------------------------
        if name in BAGNEW:
            return [(mk('bag', frozenset()), st)]
        if name == 'Default::default':
            return [(mk('default'), st)]
        if name in ('String::new', 'String::with_capacity'):
            return [(mk('s', ''), st)]
        if args and name in PUSHERS or (name in EXTENDERS and args):
            a0 = args[0]
            cur = V(a0)
            if a0.k == 'mref' and cur.k in ('okp', 'call') and name != 'String::push_str' and argtys and argtys[0] and VECTY.match(argtys[0]):
                # a fresh collection that some call returned: its elements
                e = mk('elem', cur)
                st = st.copy()
                self.added(st, e, fn, line)
                cur = mk('bag', frozenset([e]))
            if (cur.k in ('bag', 'default') or (cur.k == 'agg' and cur.a[0] == 'array')) and a0.k == 'mref':
                base = cur.a[0] if cur.k == 'bag' else frozenset(x for _, x in cur.a[3]) if cur.k == 'agg' else frozenset()
                st = st.copy()
                if name in PUSHERS:
                    v = V(args[PUSHERS[name]])
                    if name in ('HashMap::insert', 'BTreeMap::insert'):
                        v = mk('agg', 'tuple', '', '', (('0', V(args[1])), ('1', V(args[2]))))
                    self.added(st, v, fn, line, base if ORDERED.match(name) else frozenset())
                    nb = mk('bag', base | {v})
                    self.store(st, ('loc', a0.a[0], a0.a[1], a0.a[2]), nb)
                    if short == 'insert':
                        return [(mk('call', name, (cur, v)), st)]
                    return [(UNIT, st)]
                it = V(args[1])
                src = args[1]
                def body(e, s):
                    s = s.copy()
                    self.added(s, self.value(s, e), fn, line, base if ordered else frozenset())
                    return [('next', e, s)]
                ordered = bool(argtys and re.search(r'(Vec|VecDeque|Vector|String)<?', (argtys[0] or '').split('<')[0]))
                exits, done, vals = self.mini_loop(st, it, body, ctx + '/extend', depth)
                nb = mk('bag', base | frozenset(self.value(done, v) for v in vals))
                if len(nb.a[0]) > 12:
                    nb = mk('top')
                self.store(done, ('loc', a0.a[0], a0.a[1], a0.a[2]), nb)
                return [(UNIT, done)]
        if name in EXTENDERS and len(args) == 2 and name != 'String::push_str' and V(args[0]).k not in ('bag', 'default', 'k', 'out', 'top', 'phi'):
            tys = [fn.crate['types'][i] for i in fj['a']] if fj['a'] else []
            recv = (argtys[0] or '') if argtys else ''
            m = re.search(r'(?:^|[ :&<])(HashMap|BTreeMap|HashSet|BTreeSet|Vec|VecDeque|Vector|BinaryHeap|PathBuf|String)<?', recv.split('<')[0] + '<')
            coll = m.group(1) if m else None
            if coll and coll != 'String':
                it = V(args[1])
                def xbody(e, s):
                    e = self.value(s, e)
                    if coll in ('HashMap', 'BTreeMap'):
                        a = [args[0], self.field(s, e, '0'), self.field(s, e, '1')]
                        nm = coll + '::insert'
                    else:
                        a = [args[0], e]
                        nm = coll + ('::insert' if coll.endswith('Set') else '::push_back' if coll in ('VecDeque', 'Vector') else '::push')
                    return [('next', None, s3) for _, s3 in self.opaque(s, nm, a, mutargs, ['&mut ', '', ''], None, line, fn)]
                exits, done, vals = self.mini_loop(st, it, xbody, ctx + '/extend', depth)
                return [(UNIT, done)]
        if name == 'Vec::resize' and len(args) == 3 and V(args[0]).k not in ('bag', 'default', 'k', 'out', 'top', 'phi'):
            n = V(args[1])
            ln = mk('call', 'len', (V(args[0]),))
            k = None
            if n.k == 'bin' and n.a[0] == 'Add':
                k = n.a[2] if n.a[1] is ln else n.a[1] if n.a[2] is ln else None
            if k is not None:
                # grows by k copies
                rng = mk('agg', 'adt', 'std::ops::Range', 'Range', (('start', ZERO), ('end', k)))
                def gbody(e, s):
                    return [('next', None, s3) for _, s3 in self.opaque(s, 'Vec::push', [args[0], args[2]], mutargs, ['&mut ', ''], None, line, fn)]
                exits, done, vals = self.mini_loop(st, rng, gbody, ctx + '/resize', depth)
                return [(UNIT, done)]
        if name in ('HashMap::get_mut', 'BTreeMap::get_mut', 'im::HashMap::get_mut'):
            return [(mk('call', name[:-4], (V(args[0]), V(args[1]))), st)]
        if name in BAGKEEP and args and args[0].k == 'mref':
            op = BAGKEEP[name]
            if op:
                st = st.copy()
                self.local_op(st, args[0], op, tuple(self.clo_summary(st, x, 0) for x in args[1:] if x.k == 'clo'), fn, line)
            return [(UNIT, st)]
        if name == 'Iterator::next' and args and args[0].k == 'mref' and not self.user_iter(fj, fn):
            it = self.value(st, args[0])
            if it.k == 'agg' and it.a[0] == 'array':
                s = st.copy()
                if not it.a[3]:
                    return [(ERR_NONE, s)]
                self.store(s, ('loc',) + args[0].a, mk('agg', 'array', it.a[1], it.a[2], tuple(it.a[3][1:])))
                return [(ok_agg(it.a[3][0][1]), s)]
            if it.k == 'it' and it.a[0] in ('map', 'filter', 'filter_map'):
                exits, done, _ = self.mini_loop(st, it, lambda e, s: [('exit', ok_agg(e), s)], ctx + '/next', depth)
                out = [(v, s.copy()) for v, s in exits]
                for _, s in out:
                    self.store(s, ('loc',) + args[0].a, mk('it', 'skip', it, mk('k', '1')))
                return out + [(ERR_NONE, done)]
            s = st.copy()
            self.store(s, ('loc',) + args[0].a, mk('it', 'skip', it, mk('k', '1')))
            ty = fn.crate['types'][fj['a'][0]] if fj['a'] else ''
            if it.k != 'it' and re.match(r'std::(slice::Iter|vec::IntoIter|vec::Drain)', ty):
                return [(mk('getopt', it, ZERO), s)]
            return [(mk('call', 'Iterator::next', (it,)), s)]
        if name in ('Fn::call', 'FnMut::call_mut', 'FnOnce::call_once'):
            tup = V(args[1])
            a = [x for _, x in tup.a[3]] if tup.k == 'agg' else []
            return self.apply(st, args[0], tuple(a), ctx + '/call', depth)
        if name == 'mem::drop' and args and self.o.auto and argtys[0] and (GUARDTY.search(argtys[0]) or re.sub('<.*', '', argtys[0]) in holders(self.prog)):
            st = st.copy()
            self.release(st, args[0] if args[0].k != 'mref' else V(args[0]), fn, line)
            return [(UNIT, st)]
        if name == 'Future::poll':
            x = V(args[0])
            if x.k == 'clo':
                out = []
                for r, s in self.apply_coroutine(st, x, ctx, depth):
                    out.append((mk('agg', 'adt', 'std::task::Poll', 'Ready', (('0', r),)), s))
                return out
            return [(mk('agg', 'adt', 'std::task::Poll', 'Ready', (('0', x),)), st)]
        if name == 'mem::swap' and all(x.k == 'mref' for x in args):
            x, y = V(args[0]), V(args[1])
            st = st.copy()
            self.store(st, ('loc',) + args[0].a, y)
            self.store(st, ('loc',) + args[1].a, x)
            return [(UNIT, st)]
        if name in ('mem::replace',):
            old = V(args[0])
            st = st.copy()
            if args[0].k == 'mref':
                self.store(st, ('loc',) + args[0].a, V(args[1]))
            else:
                self.store(st, ('term', old), V(args[1]), fn, line)
            return [(old, st)]
        return self.opaque(st, name, args, mutargs, argtys, None, line, fn)

    def backward(self, st, base, v):
        """v, marked when this loop visits its elements last to first"""
        if any(t.k == 'order' and base.get(t) != w for t, w in st.facts.items()):
            return mk('call', 'rev', (v,))
        return v

    def captured(self, st, outs, fn, line):
        """what a closure that unknown code may call any number of times leaves in the
        locals it captured"""
        alts = {}
        for _, s in outs:
            for k, v in s.env.items():
                old = st.env.get(k)
                if old is not None and v is not old:
                    v = self.value(s, v)
                    if v is not old:
                        alts.setdefault(k, []).append(v)
                        if v.k not in ('bag', 'obj', 'mref', 'clo', 'phi', 'top'):
                            self.added(s, v, fn, line)
        if not alts:
            return st
        st = st.copy()
        for k, vs in alts.items():
            old = self.value(st, st.env[k])
            obs = [v for v in vs if v.k == 'obj']
            if obs and len(obs) == len(vs):
                ops = old.a[1] if old.k == 'obj' else frozenset()
                for v in obs:
                    ops |= v.a[1]
                st.env[k] = mk('obj', obs[0].a[0], ops)
            else:
                st.env[k] = self.phi([old] + vs)
        return st

    def clo_summary(self, st, clo, na):
        """a closure handed to opaque code, described by what it returns"""
        cf = self.prog.resolve(clo.a[0], self.root.crate)
        if cf is None or cf.kind != 'closure' or len(cf.blocks) > 60:
            return mk('clo', '', ())
        if self.clodepth > 1:
            return mk('clo', '', ())
        self.clodepth += 1
        try:
            base = dict(st.facts)
            outs = self.apply(st.copy(), clo, tuple(mk('unk', 'p', j) for j in range(cf.nargs - 1)), 'L', self.o.depth - 3)
        finally:
            self.clodepth -= 1
        rows = []
        for v, s in outs:
            fs = frozenset((t, w) for t, w in s.facts.items() if base.get(t) != w and t.k not in ('did', 'done', 'forall'))
            rows.append((self.value(s, v), fs))
        if len(rows) > 4:
            return mk('clo', '', ())
        return mk('lam', frozenset(rows))

    def apply_coroutine(self, st, clo, ctx, depth):
        fn = self.prog.resolve(clo.a[0], self.root.crate)
        if fn is None or depth >= self.o.depth:
            return [(mk('call', 'await', (clo,)), st)]
        args = [clo] + [mk('top')] * (fn.nargs - 1)
        return self.exec_fn(fn, args, st, ctx + '/' + cname(clo.a[0])[-24:], depth + 1)

    def opaque(self, st, name, args, mutargs, argtys, target, line, fn):
        vals = tuple(self.value(st, x) for x in args)
        short = name
        if target is None:
            self.sinkhit(st, name, vals, fn, line, None)
        # closures passed to unknown code: run them once for the hits they contain
        ran = set()
        for i, x in enumerate(args):
            if x.k == 'mref':
                x = vals[i]
            if x.k == 'clo':
                cf = self.prog.resolve(x.a[0], self.root.crate)
                if cf is not None and cf.kind == 'closure':
                    na = cf.nargs - 1
                    outs = self.apply(st.copy(), x, tuple(mk('unk', name, j) for j in range(na)), 'U/' + name, self.o.depth - 2)
                    if outs:
                        st = self.captured(st, outs, fn, line)
                        ran.add(x)
                elif cf is not None and cf.kind == 'coroutine' and target is None:
                    # a spawned task
                    self.apply_coroutine(st.copy(), x, 'U/' + name, self.o.depth - 4)
        vals_d = tuple(self.clo_summary(st, v, depth_of_clo(self, v)) if v.k == 'clo' else v for v in vals)
        if self.o.auto is None:
            pass
        mut = [i for i, ty in enumerate(argtys) if ty and (ty.startswith('&mut ') or ty.startswith('&\'a mut') or ty.startswith('std::pin::Pin<&mut'))]
        tracked = self.o.track(name)
        if target is not None and target.uid in self.o.acts:
            self.actnames.add(name)
        if target is not None and not mut and target.uid in self.o.acts:
            tracked = True
            self.sinkhit(st, name, vals_d, fn, line, None, True)
        if mut and self.o.auto and self.o.auto(self, name, vals_d, mut):
            tracked = True
            self.sinkhit(st, name, vals_d, fn, line, None, True)
        occ = 0
        if mut or tracked:
            st = st.copy()
        vol = target is None and VOLATILE.match(name)
        if not vol and not mut and (LOOK.match(name) if target is None else target.uid in self.o.looks):
            # a look at the file system after something was done to it
            vol = 2 if any(t.k == 'did' and FSACT.match(t.a[0]) for t in st.facts) else 0
        if vol:
            st = st.copy()
        if mut or vol:
            key = (name, vals_d)
            occ = st.occ.get(key, 1 if vol == 2 else 0)
            st.occ[key] = min(occ + 1, 2)
        ret = mk('call', short, vals_d, occ) if occ else mk('call', short, vals_d)
        if tracked:
            self.did(st, name, vals_d)
        for i in mut:
            a = args[i]
            v = vals[i]
            self.mutate(st, v)
            if a.k == 'mref':
                if not self.local_op(st, a, name, vals_d[:i] + vals_d[i + 1:], fn, line) and v.k in ('k', 'agg', 'bag', 'phi', 'default', 'with', 's', 'bin', 'out'):
                    self.store(st, ('loc',) + a.a, mk('out', name, i))
        # mutable references captured inside closures are havocked
        for x in args:
            if x.k == 'clo' and x not in ran:
                for m in mrefs(x):
                    v = self.load(st, ('loc',) + m.a)
                    if v.k in ('k', 'agg', 'phi', 'default', 'bin'):
                        self.store(st, ('loc',) + m.a, mk('out', name, 'clo'))
        return [(ret, st)]

    # ------------------------------------------------------------ functions
    def exec_fn(self, fn, args, st, ctx, depth):
        inf = info(fn)
        self.stats['fns'].add(fn.full)
        frame = ctx
        st = st.copy()
        # forget an earlier activation of the same frame
        for k in [k for k in st.env if k[0] == frame or (isinstance(k[0], str) and k[0].startswith(frame + '/'))]:
            del st.env[k]
        for i, a in enumerate(args):
            st.env[(frame, i + 1)] = a
        rets = []
        if not fn.blocks:
            return []
        exits, latches = self.region(fn, inf, frame, ctx, depth, set(inf.rpo), 0, [st], None, rets)
        # merge return states
        out = {}
        res = []
        for v, s in rets:
            v = self.value(s, v) if frame != 'R' and any(m.a[0] == frame for m in mrefs(v)) else v
            for k in [k for k in s.env if k[0] == frame]:
                del s.env[k]
            k = (v, s.key())
            if k not in out:
                out[k] = True
                res.append((v, s))
        K = self.o.K
        if len(res) > K:
            groups = {}
            for v, s in res:
                sig = (v if (v.k in ('k',) or (v.k == 'agg' and not v.a[3])) else ('agg', v.a[2]) if v.k == 'agg' else v, self.sig_did(s))
                groups.setdefault(sig, []).append((v, s))
            if len(groups) > K:
                g2 = {}
                for (a, b), xs in groups.items():
                    g2.setdefault(a, []).extend(xs)
                groups = g2
            res = []
            self.stats['lossy'] += 1
            for sig, xs in groups.items():
                res.append((self.phi(set(v for v, _ in xs)), self.join([s for _, s in xs])))
        return res

    def sig_did(self, s):
        return frozenset(t for t in s.facts if t.k == 'did' and t.a[0] != 'add')

    def join(self, states, keepfacts=False):
        if len(states) == 1:
            return states[0]
        out = states[0].copy()
        env = {}
        keys = set(states[0].env)
        for s in states[1:]:
            keys &= set(s.env)
        for k in keys:
            vs = set(s.env[k] for s in states)
            env[k] = next(iter(vs)) if len(vs) == 1 else self.phi(vs)
        out.env = env
        facts = {}
        for t, v in states[0].facts.items():
            ok = True
            for s in states[1:]:
                w = s.facts.get(t)
                if w is None:
                    ok = False
                    break
                if w != v:
                    v = vs_union(v, w)
            if not ok or (isinstance(v, Co) and not v):
                continue
            u = self.universe.get(t)
            if u and not isinstance(v, Co) and t.k != 'forall' and set(u) <= set(v):
                continue
            facts[t] = v
        out.facts = facts
        st = frozenset()
        for s in states:
            st |= s.stale
        out.stale = st
        out.heap = {k: v for k, v in states[0].heap.items() if all(s.heap.get(k) is v for s in states[1:])}
        loops = {}
        for k, v in states[0].loops.items():
            if all(k in s.loops for s in states[1:]):
                cl = v[0]
                it = v[1]
                for s in states[1:]:
                    cl = cl | s.loops[k][0]
                    it = max(it, s.loops[k][1])
                loops[k] = (cl, it, v[2], v[3])
        out.loops = loops
        occ = {}
        for s in states:
            for k, v in s.occ.items():
                occ[k] = max(v, occ.get(k, 0))
        out.occ = occ
        return out

    def prune(self, fn, inf, frame, bb, st):
        live = inf.live[bb]
        keep = set()
        work = []
        for k, v in st.env.items():
            if k[0] != frame or k[1] in live:
                keep.add(k)
                if mrefs(v):
                    work.append(v)
        while work:
            v = work.pop()
            for m in mrefs(v):
                k = (m.a[0], m.a[1])
                if k not in keep and k in st.env:
                    keep.add(k)
                    if mrefs(st.env[k]):
                        work.append(st.env[k])
        if len(keep) != len(st.env):
            st.env = {k: v for k, v in st.env.items() if k in keep}
        f = st.facts
        drop = [t for t in f if t.k != 'forall' and not self.kept(t)]
        for t in drop:
            # keep facts on undecided locals only while they can still prune
            del f[t]
        return st

    def merge(self, fn, inf, frame, bb, states):
        seen = {}
        res = []
        for s in states:
            self.prune(fn, inf, frame, bb, s)
            k = s.key()
            if k not in seen:
                seen[k] = s
                res.append(s)
        if 1 < len(res) <= 24:
            res = self.fuse(fn, frame, res)
        K = self.o.K
        if len(res) <= K:
            return res
        self.stats['lossy'] += 1
        # 1: same env and same recorded effects
        for sigf in (lambda s: (frozenset(s.env.items()), self.sig_did(s)),
                     lambda s: (frozenset((k, v) for k, v in s.env.items() if v.k == 'k' or (v.k == 'agg' and v.a[2])), self.sig_did(s)),
                     lambda s: (frozenset((k, v if v.k == 'k' else v.a[2]) for k, v in s.env.items() if v.k == 'k' or (v.k == 'agg' and v.a[2])),),
                     lambda s: frozenset((k, v) for k, v in s.env.items() if v.k == 'k'),
                     lambda s: 0):
            groups = {}
            for s in res:
                groups.setdefault(sigf(s), []).append(s)
            res = [self.join(g) for g in groups.values()]
            if len(res) <= K:
                break
        return res

    def fuse(self, fn, frame, states):
        """two states that differ only in a boolean local and in the one fact
        that decides it are one state in which the local is that condition"""
        out = []
        for s in states:
            for i, o in enumerate(out):
                m = self.fuse2(fn, frame, o, s)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        return out

    def fuse2(self, fn, frame, a, b):
        if a.env.keys() != b.env.keys() or a.facts.keys() != b.facts.keys() or a.stale != b.stale or a.heap != b.heap or a.loops != b.loops:
            return None
        d = [k for k in a.env if a.env[k] is not b.env[k]]
        if len(d) != 1:
            return None
        x, y = a.env[d[0]], b.env[d[0]]
        isb = isinstance(d[0][1], int) and d[0][0] == frame and fn.lty(d[0][1]) == 'bool'
        if not isb and not {x, y} <= {TRUE, FALSE}:
            return None
        cx, cy = (z.a[0] if z.k == 'k' and z.a[0] in ('0', '1') else '1' if z is TRUE else '0' if z is FALSE else None for z in (x, y))
        if cx is None and cy is None or any(z.k in ('phi', 'top', 'undef', 'uninit', 'out') for z in (x, y)):
            return None
        f = [t for t in a.facts if a.facts[t] != b.facts[t]]
        if len(f) != 1 or f[0].k in ('did', 'forall', 'order', 'over') or f[0] in a.stale:
            return None
        t = f[0]
        va, vb = a.facts[t], b.facts[t]
        if vs_inter(va, vb):
            return None
        u = self.universe.get(t)
        if any(v[:1] in QUOTES and len(vs) > 1 for vs in (va, vb) for v in vs):
            return None
        if u and set(u) == {'0', '1'}:
            val = t if va == frozenset('1') else self.neg(t)
        elif not isinstance(va, Co) and (isinstance(vb, Co) or len(va) < len(vb) or 'ok' in va or (len(va) == len(vb) and 'err' not in va)):
            val = mk('isv', t, '/'.join(sorted(va)))
        elif not isinstance(vb, Co):
            val = self.neg(mk('isv', t, '/'.join(sorted(vb))))
        else:
            return None
        if cx is not None and cy is not None:
            if cx == cy:
                return None
            if cx == '0':
                val = self.neg(val)
        elif cx is not None:
            val = self.junction('BitOr', val, y) if cx == '1' else self.junction('BitAnd', self.neg(val), y)
        else:
            val = self.junction('BitOr', self.neg(val), x) if cy == '1' else self.junction('BitAnd', val, x)
        if val is None:
            return None
        m = a.copy()
        m.env[d[0]] = val
        w = vs_union(va, vb)
        if (isinstance(w, Co) and not w) or (u and not isinstance(w, Co) and set(u) <= set(w)):
            del m.facts[t]
        else:
            m.facts[t] = w
        return m

    def region(self, fn, inf, frame, ctx, depth, blocks, header, entry, loop, rets):
        """abstractly run one loop body (or the whole function when loop is None).
        returns (exits: [(target, state)], latches: [state])"""
        pending = {header: list(entry)}
        exits = []
        latches = []
        first = True
        done = set()
        # order: RPO index, but a loop's exits wait for the loop
        inner = {h: b for h, b in inf.loops.items() if h in blocks and h != header}
        # only the outermost inner loops
        tops = {}
        for h, b in inner.items():
            if not any(h2 != h and h in b2 for h2, b2 in inner.items()):
                tops[h] = b
        rep = {}
        for h, b in tops.items():
            for x in b:
                rep[x] = h
        # topological order of the collapsed region
        nodes = {}
        def succs(n):
            out = []
            src = tops.get(n, (n,))
            for x in src:
                for s in inf.succ[x]:
                    if s in blocks and s != header:
                        r = rep.get(s, s)
                        if r != n:
                            out.append(r)
            return out
        order = []
        seen = set()
        start = rep.get(header, header)
        stack = [(start, iter(succs(start)))]
        seen.add(start)
        while stack:
            n, it = stack[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succs(s))))
                    adv = True
                    break
            if not adv:
                order.append(n)
                stack.pop()
        order.reverse()
        for b in order:
            sts = pending.pop(b, None)
            if not sts:
                continue
            sts = self.merge(fn, inf, frame, b, sts)
            if b in tops:
                outs = self.run_loop(fn, inf, frame, ctx, depth, tops[b], b, sts, rets)
            else:
                outs = []
                for s in sts:
                    outs.extend(self.step(fn, inf, frame, ctx, depth, b, s, rets, header if loop is not None else None, blocks))
            for tgt, s in outs:
                if loop is not None and tgt == header:
                    latches.append(s)
                elif tgt not in blocks:
                    exits.append((tgt, s))
                else:
                    pending.setdefault(tgt, []).append(s)
        return exits, latches

    def run_loop(self, fn, inf, frame, ctx, depth, blocks, header, entry, rets):
        lid = (frame, header)
        all_exits = []
        states = []
        inits = {}
        updates = {}
        for s in entry:
            s = s.copy()
            s.loops[lid] = (frozenset(), 0, None, frozenset(s.facts.items()))
            for i in inf.acc[header]:
                v = s.env.get((frame, i))
                if v is not None and not (i in inf.ctr[header] and header in inf.driven) and not (i in inf.ind[header] and v is ZERO and header not in inf.driven):
                    inits.setdefault(i, set()).add(self.value(s, v))
                    updates.setdefault(i, set())
                    s.env[(frame, i)] = mk('accv', frame, header, i)
            for i in inf.ind[header]:
                if i in inits:
                    continue
                v = s.env.get((frame, i))
                if v is ZERO:
                    s.env[(frame, i)] = mk('ind', header, i)
                elif v is not None and i in inf.ctr[header] and header in inf.driven:
                    s.env[(frame, i)] = mk('ind', header, i, v)
            states.append(s)
        seen = set()
        nrets = len(rets)
        for rnd in range(4):
            states = self.merge(fn, inf, frame, header, states)
            fresh = []
            for s in states:
                k = s.key()
                if k not in seen:
                    seen.add(k)
                    fresh.append(s)
            if not fresh:
                break
            ex, lat = self.region(fn, inf, frame, ctx, depth, blocks, header, fresh, header, rets)
            all_exits.extend(ex)
            nxt = []
            for i in inits:
                me = mk('accv', frame, header, i)
                for s in [s for _, s in ex] + lat:
                    v = s.env.get((frame, i))
                    if v is None or v is me:
                        continue
                    if v.k != 'acc':
                        v = self.value(s, v)
                        self.added(s, v, fn, 0)
                        updates[i].add(self.backward(s, dict(s.loops[lid][3]) if lid in s.loops else {}, v))
                    elif me in v.a[0]:
                        # accumulated further in a loop inside this one
                        updates[i] |= v.a[1]
                    s.env[(frame, i)] = me
            for s in lat:
                cl, it, mark, base = s.loops[lid]
                unr = mk('unr', frame, header)
                if unr in s.facts:
                    # one more element of a literal list: straight-line code
                    s = s.copy()
                    del s.facts[unr]
                    s.loops[lid] = (cl, it, mark, frozenset(s.facts.items()))
                    nxt.append(s)
                    continue
                bd = dict(base)
                varf = self.classes_of(s.facts, bd, None)
                vt = set(t for t, _ in varf) | set(t for t in s.facts if t.k == 'forall' and bd.get(t) != s.facts[t])
                s = s.copy()
                s.facts = {t: v for t, v in s.facts.items() if t not in vt}
                # facts that existed at entry and were overwritten by a varying update keep the entry value
                for t, v in bd.items():
                    if t in vt:
                        s.facts[t] = v
                s.loops[lid] = (cl | {varf}, min(it + 1, 1), mark, base)
                ent = states[0]
                for i in inf.ind[header]:
                    e = ent.env.get((frame, i))
                    v = s.env.get((frame, i))
                    if v is not None and e is not None and e.k == 'ind':
                        s.env[(frame, i)] = e
                for k, v in list(s.env.items()):
                    if k[0] == frame and v.k == 'k' and k[1] in inf.assigned[header] and INT.match(fn.lty(k[1])):
                        e = ent.env.get(k)
                        if e is not None and (e.k == 'loopv' or (e.k == 'k' and e is not v)):
                            s.env[k] = mk('loopv', fn.lty(k[1]))
                if rnd >= 1:
                    for k, v in list(s.env.items()):
                        if k[0] == frame and k[1] in inf.assigned[header]:
                            e = ent.env.get(k)
                            if v.k not in ('k', 'bag', 'mref', 'clo') and e is not None and e is not v and self.grows(v):
                                s.env[k] = mk('loopv', fn.lty(k[1]))
                nxt.append(s)
            if rnd >= 2 and nxt and not any(v.k == 'agg' and v.a[0] == 'array' and len(v.a[3]) < 3 for s in nxt for kk, v in s.env.items() if kk[0] == frame):
                nxt = [self.join(nxt)]
            # group by env + nonvarying facts, uniting the iteration classes
            groups = {}
            for s in nxt:
                self.prune(fn, inf, frame, header, s)
                k = (frozenset(s.env.items()), frozenset(s.facts.items()), s.stale, frozenset(s.heap.items()))
                g = groups.get(k)
                if g is None:
                    groups[k] = s
                else:
                    c0 = g.loops[lid]
                    c1 = s.loops[lid]
                    g.loops[lid] = (c0[0] | c1[0], max(c0[1], c1[1]), c0[2], c0[3])
            states = list(groups.values())
        # exits: attach forall facts
        for i in inits:
            if updates[i]:
                v = mk('acc', frozenset(inits[i]), frozenset(updates[i]))
            else:
                v = self.phi(inits[i])
            me = mk('accv', frame, header, i)
            for _, s in all_exits:
                if s.env.get((frame, i)) is me:
                    s.env[(frame, i)] = v
        fin = []
        allcls = frozenset()
        donecls = []
        for tgt, s in all_exits:
            cl = s.loops.get(lid)
            dn = [t for t in s.facts if t.k == 'done']
            if cl and dn:
                donecls.append((s, cl))
        if len(all_exits) <= 64:
            all_exits = self.subsumed_exits(fn, inf, frame, lid, all_exits)
        for tgt, s in all_exits:
            cl = s.loops.pop(lid, None)
            dn = [t for t in s.facts if t.k == 'done']
            if cl and dn:
                s = s.copy()
                classes, it, mark, base = cl
                for d in dn:
                    del s.facts[d]
                bases = [d.a[0] for d in dn]
                if it == 0:
                    # zero iterations: anything about the elements holds vacuously
                    ck = self.constkey(s)
                    match = [c for s2, c in donecls if c[1] > 0 and self.constkey(s2) == ck] or [c for s2, c in donecls if c[1] > 0]
                    zc = frozenset()
                    for c in match:
                        zc |= c[0]
                    self.finish_loop(s, bases, zc, zero=True)
                else:
                    self.finish_loop(s, bases, classes)
            fin.append((tgt, s))
        return fin

    def subsumed_exits(self, fn, inf, frame, lid, exits):
        """drop completed-loop states that a more general one already describes:
        fewer rounds seen, fewer elements collected, otherwise the same"""
        cand = []
        for n, (tgt, s) in enumerate(exits):
            cl = s.loops.get(lid)
            if cl and any(t.k == 'done' for t in s.facts):
                p = self.prune(fn, inf, frame, tgt, s.copy())
                cand.append((n, tgt, p, cl))
        drop = set()
        for n, tgt, s, cl in cand:
            for m, tgt2, s2, cl2 in cand:
                if m == n or m in drop or tgt2 != tgt or not cl2[1] or not cl[0] <= cl2[0]:
                    continue
                if s.env.keys() != s2.env.keys() or s.heap != s2.heap or not s2.stale <= s.stale:
                    continue
                if not all(v is s2.env[k] or (v.k == 'bag' and s2.env[k].k == 'bag' and v.a[0] <= s2.env[k].a[0]) for k, v in s.env.items()):
                    continue
                f, f2 = s.facts, s2.facts
                if not all(t in f and (f[t] == v or (t.k != 'forall' and (isinstance(v, Co) or not isinstance(f[t], Co)) and vs_inter(f[t], v) == f[t])) for t, v in f2.items()):
                    continue
                drop.add(n)
                break
        return [x for n, x in enumerate(exits) if n not in drop]

    def grows(self, v):
        return v.k in ('bin', 'ovf', 'call', 'f', 'okp', 'v', 'agg', 'phi', 'index', 'loopv', 'with', 'upd')

    def constkey(self, s):
        return frozenset((k, v) for k, v in s.env.items() if v.k == 'k')

    # ----------------------------------------------------------------- step
    def step(self, fn, inf, frame, ctx, depth, bb, st, rets, loop, region_blocks, skip=0):
        self.stats['blocks'] += 1
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        st = st.copy()
        stmts, term, tline = fn.blocks[bb]
        for n, (place, rv, line) in enumerate(stmts):
            if n < skip:
                continue
            v = self.rvalue(st, fn, frame, rv, bb, line)
            loc = self.resolve_place(st, frame, place)
            if loc[0] != 'loc' and v.k == 'bin' and v.a[0] in ('BitAnd', 'BitOr') and rv[0] == 'bin' and self.is_bool(fn, rv):
                # x &= b on shared state: writes only where b decides it
                cur = self.load(st, loc)
                for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
                    if x is cur:
                        out = []
                        for b, s in self.branch_bool(st, y):
                            if b == (v.a[0] == 'BitOr'):
                                self.store(s, loc, mk('k', '1' if b else '0'), fn, line)
                            out.extend(self.step(fn, inf, frame, ctx, depth, bb, s, rets, loop, region_blocks, n + 1))
                        return out
            if loc[0] == 'loc' and not loc[3] and not isinstance(place, int):
                old = st.env.get((loc[1], loc[2]))
                if old is not None and guard_of(old, GUARDS):
                    # what a lock guard guards is replaced
                    loc = ('term', old)
            self.store(st, loc, v, fn, line)
        k = term[0]
        if k == 'goto':
            return [(term[1], st)]
        if k == 'drop':
            if isinstance(term[1], int) and guard_local(fn, term[1]) and self.o.auto:
                v = self.load(st, ('loc', frame, term[1], ()))
                if v.k in ('call', 'okp', 'op', 'upd', 'with'):
                    self.release(st, v, fn, tline)
            return [(term[2], st)]
        if k == 'assert':
            return [(term[3], st)]
        if k == 'yield':
            return [(term[1], st)]
        if k == 'ret':
            v = self.load(st, ('loc', frame, 0, ()))
            rets.append((v if v.k != 'undef' else UNIT, st))
            return []
        if k == 'switch':
            return self.switch(fn, st, frame, term)
        if k == 'call':
            return self.do_call(fn, inf, frame, ctx, depth, bb, st, term, tline, loop)
        return []

    @staticmethod
    def is_bool(fn, rv):
        for o in rv[2:4]:
            if isinstance(o, list) and o[0] in ('c', 'm') and isinstance(o[1], int) and fn.lty(o[1]) == 'bool':
                return True
        return False

    def switch(self, fn, st, frame, term):
        op, arms, other, ty = term[1:5]
        v = self.value(st, self.operand(st, frame, op))
        out = []
        if v.k == 'discv':
            x, adt = v.a
            x0 = x
            while x.k in ('conv', 'with'):
                x = x.a[0]
            if x.k == 'next':
                return self.switch_next(st, x, arms, other)
            names = [self.variant_name(adt, a[0]) for a in arms]
            allv = names[0][1] if names and names[0][1] else None
            if x.k == 'agg' and x.a[0] == 'adt':
                var = OKS.get(x.a[2], x.a[2])
                for (n, _), (_, b) in zip(names, arms):
                    if n == var:
                        return [(b, st)]
                return [(other, st)] if other is not None else []
            if x.k == 'phi':
                # split on the alternatives
                for alt in sorted(x.a[0], key=lambda z: z.n):
                    s = st.copy()
                    y = alt
                    while y.k in ('conv', 'with'):
                        y = y.a[0]
                    self.replace_env(s, x, alt)
                    if y.k == 'agg' and y.a[0] == 'adt':
                        var = OKS.get(y.a[2], y.a[2])
                        hit = False
                        for (n, _), (_, b) in zip(names, arms):
                            if n == var:
                                out.append((b, s))
                                hit = True
                        if not hit and other is not None:
                            out.append((other, s))
                    else:
                        d = mk('disc', y)
                        if allv:
                            self.universe.setdefault(d, allv)
                        taken = set()
                        for (n, _), (_, b) in zip(names, arms):
                            taken.add(n)
                            s2 = s.copy()
                            if self.assume(s2, d, frozenset([n])):
                                out.append((b, s2))
                        if other is not None:
                            s2 = s.copy()
                            rest = frozenset(set(allv) - taken) if allv else Co(taken)
                            if (isinstance(rest, Co) or rest) and self.assume(s2, d, rest):
                                out.append((other, s2))
                return out
            if x.k == 'getopt':
                tgt = dict((n[0], b) for n, (_, b) in zip(names, arms))
                for b, s in self.branch_bool(st, self.inrange(x.a[0], x.a[1])):
                    t = tgt.get('ok' if b else 'err', other)
                    if t is not None:
                        out.append((t, s))
                return out
            d = mk('disc', x)
            if allv:
                self.universe.setdefault(d, allv)
            taken = set()
            byb = {}
            for (n, _), (_, b) in zip(names, arms):
                taken.add(n)
                byb.setdefault(b, set()).add(n)
            for b, ns in byb.items():
                s = st.copy()
                if self.assume(s, d, frozenset(ns)):
                    out.append((b, s))
            if other is not None:
                s = st.copy()
                rest = frozenset(set(allv) - taken) if allv else Co(taken)
                if isinstance(rest, Co) or rest:
                    if self.assume(s, d, rest):
                        out.append((other, s))
            return out
        # booleans: arms [["0", bb]] otherwise
        tyname = ty if isinstance(ty, str) else fn.crate['types'][ty]
        if tyname == 'bool':
            tgt = {}
            for a, b in arms:
                tgt[a] = b
            for b, s in self.branch_bool(st, v):
                t = tgt.get('1' if b else '0', other)
                if t is not None:
                    out.append((t, s))
            return out
        # integers
        if v.k == 'k':
            for a, b in arms:
                if a == v.a[0]:
                    return [(b, st)]
            if re.match(r'^-?\d+$', v.a[0]):
                return [(other, st)] if other is not None else []
        taken = set()
        for a, b in arms:
            taken.add(a)
            s = st.copy()
            if self.assume(s, v, frozenset([a])):
                out.append((b, s))
        if other is not None:
            s = st.copy()
            if self.assume(s, v, Co(taken)):
                out.append((other, s))
        return out

    def replace_env(self, st, old, new):
        for k, v in list(st.env.items()):
            if v is old:
                st.env[k] = new
            elif v.k == 'conv' and v.a[0] is old:
                st.env[k] = mk('conv', new)

    def switch_next(self, st, nxt, arms, other):
        """Iterator::next result, already forked by do_call: unreachable unless used late."""
        out = []
        for a, b in arms:
            out.append((b, st.copy()))
        return out

    def do_call(self, fn, inf, frame, ctx, depth, bb, st, term, line, loop):
        func, args, dest, target = term[1], term[2], term[3], term[4]
        avals = [self.operand(st, frame, a, fn) for a in args]
        argtys = []
        for a in args:
            if a[0] in ('c', 'm') and isinstance(a[1], int):
                argtys.append(fn.lty(a[1]))
            else:
                argtys.append(None)
        ctx2 = ctx + '.%d' % bb
        if func[0] == 'f':
            fj = func[1]
            name = cname(fj['f'])
            if name == 'Iterator::next' and loop is not None and avals and avals[0].k == 'mref' and not self.user_iter(fj, fn) and not (avals[0].a[0] == frame and avals[0].a[1] in inf.fresh[loop]):
                m = avals[0]
                return self.loop_next(fn, inf, frame, ctx2, depth, st, m, dest, target, loop)
            if SETINS.match(name) and len(avals) == 2 and isinstance(dest, int) and target is not None and dest in inf.live[target]:
                outs = self.set_insert(st, fj, avals, fn, frame, ctx2, line, depth, argtys, fn.lty(dest))
            else:
                outs = self.call_named(st, fj, avals, None, fn, frame, ctx2, line, depth, argtys)
            outs = [o for o in outs if NEVER not in o[1].facts]
        else:
            f = self.operand(st, frame, func)
            outs = self.apply(st, f, tuple(avals), ctx2, depth)
        if target is None:
            return []
        res = []
        for v, s in outs:
            if s is st:
                s = st.copy()
            loc = self.resolve_place(s, frame, dest)
            self.store(s, loc, v, fn, line)
            res.append((target, s))
        return res

    def set_insert(self, st, fj, avals, fn, frame, ctx, line, depth, argtys, rty):
        """inserting what a set already has changes nothing; the result says which case it was"""
        has = {k: (v[:-len('insert')] + 'contains' if isinstance(v, str) and v.endswith('insert') else v) for k, v in fj.items()}
        opt = rty.startswith('std::option::Option')
        out = []
        look = [self.value(st, v) for v in avals]
        for c, s in self.call_named(st, has, look, None, fn, frame, ctx + '/has', line, depth, ['&', '&']):
            for b, s2 in self.branch_bool(s, c):
                if b:
                    out.append((ok_agg(avals[1]) if opt else FALSE, s2.copy()))
                else:
                    for _, s3 in self.call_named(s2, fj, avals, None, fn, frame, ctx, line, depth, argtys):
                        out.append((ERR_NONE if opt else TRUE, s3.copy()))
        return out

    def user_iter(self, fj, fn):
        t = self.prog.resolve(fj['r'], fn.crate) if fj['r'] else None
        return t is not None

    def count(self, st, cnts, it, what):
        """counters stepped once per element: the number of elements seen so far"""
        if not cnts:
            return
        x = it
        while x.k == 'it' and x.a[0] in ('keys', 'values', 'map', 'enumerate', 'inspect', 'rev', 'zip'):
            x = x.a[1]
        bs = self.base_of(it)
        if x.k in ('it', 'bag') or len(bs) != 1:
            return
        n = mk('idx', bs[0]) if what == 'idx' else mk('call', 'len', (bs[0],))
        for k, v in cnts:
            st.env[k] = n if len(v.a) == 2 else self.arith('Add', v.a[2], n)

    def template(self, t, xs):
        """the text format!() builds, as a sequence of literals and displayed values"""
        vals = [v for _, v in xs.a[3]] if xs.k == 'agg' and xs.a[0] == 'array' else None
        out = []
        try:
            bs = ast.literal_eval(t.a[0])
            i = n = 0
            while i < len(bs) and bs[i]:
                c = bs[i]
                i += 1
                if c < 0x80:
                    out.append(mk('s', bs[i:i + c].decode()))
                    i += c
                elif c == 0x80:
                    m = bs[i] + 256 * bs[i + 1]
                    out.append(mk('s', bs[i + 2:i + 2 + m].decode()))
                    i += 2 + m
                else:
                    opt = b''
                    for bit, w in ((1, 4), (2, 2), (4, 2)):
                        if c & bit:
                            opt += bs[i:i + w]
                            i += w
                    if c & 8:
                        n = bs[i] + 256 * bs[i + 1]
                        i += 2
                    v = vals[n]
                    n += 1
                    out.append(mk('call', 'opt ' + opt.hex(), (v,)) if opt else v)
        except (ValueError, SyntaxError, IndexError, TypeError, UnicodeDecodeError):
            return mk('call', 'fmt!', (t, xs))
        flat = []
        for v in out:
            for y in (v.a[1] if v.k == 'call' and v.a[0] == 'fmt!' else (v,)):
                if y.k == 's' and flat and flat[-1].k == 's':
                    flat[-1] = mk('s', flat[-1].a[0] + y.a[0])
                else:
                    flat.append(y)
        if len(flat) == 1:
            return flat[0]
        return mk('call', 'fmt!', tuple(flat))

    def loop_next(self, fn, inf, frame, ctx, depth, st, m, dest, target, loop):
        it = self.value(st, m)
        res = []
        cnts = [(frame, i) for i in inf.ctr[loop]]
        cnts = [(k, st.env[k]) for k in cnts if k in st.env and st.env[k].k == 'ind' and st.env[k].a[:2] == (loop, k[1])]
        if it.k == 'agg' and it.a[0] == 'array' and len(it.a[3]) <= 3:
            s = st.copy()
            for k, v in cnts:
                s.env[k] = v.a[2] if len(v.a) > 2 else ZERO
            loc = self.resolve_place(s, frame, dest)
            if not it.a[3]:
                self.store(s, loc, ERR_NONE)
            else:
                (_, e), rest = it.a[3][0], it.a[3][1:]
                self.store(s, loc, ok_agg(e))
                self.store(s, ('loc', m.a[0], m.a[1], m.a[2]), mk('agg', 'array', it.a[1], it.a[2], tuple(rest)))
                s.facts[mk('unr', frame, loop)] = DID
            return [(target, s)]
        # exhausted
        s0 = st.copy()
        for b in self.base_of(it):
            s0.facts[mk('done', b)] = DID
        # elements skipped by filters form their own iteration class
        lid = (frame, loop)
        skipped = set()
        outs = self.pull(st.copy(), it, ctx + '/next', depth)
        base = dict(st.loops[lid][3]) if lid in st.loops else {}
        for e, s in outs:
            if e is None:
                skipped.add(self.classes_of(s.facts, base, None))
                continue
            s = s.copy()
            self.count(s, cnts, it, 'idx')
            loc = self.resolve_place(s, frame, dest)
            self.store(s, loc, ok_agg(e))
            res.append((target, s))
        self.count(s0, cnts, it, 'len')
        if lid in s0.loops and skipped:
            cl, itn, mark, bs = s0.loops[lid]
            s0.loops[lid] = (cl | skipped, max(itn, 1), mark, bs)
        loc = self.resolve_place(s0, frame, dest)
        self.store(s0, loc, ERR_NONE)
        res.append((target, s0))
        return res


def depth_of_clo(e, v):
    return 0


def fn_of(e):
    return e.root


class Budget(Exception):
    pass
