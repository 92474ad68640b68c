"""Loading and indexing of the MIR facts written by /verif/driver."""
import json, re, os

def strip_generics(p):
    """Remove every ::<...> and <...> generic argument list from a def path."""
    out = []
    i = 0
    n = len(p)
    # handle leading "<X as T>::m" : keep as T::m handled by caller
    depth = 0
    while i < n:
        c = p[i]
        if c == '<':
            depth += 1
        elif c == '>':
            if i > 0 and p[i-1] == '-':
                if depth == 0:
                    out.append(c)
            else:
                depth -= 1
                i += 1
                continue
        elif depth == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.strip(':')

_AS = re.compile(r'^<(.*) as ([^<>]*(?:<.*>)?)>::(.*)$')

_cn = {}
def cname(path):
    """Short canonical name: the last two path segments without generics."""
    r = _cn.get(path)
    if r is not None:
        return r
    p = path
    m = _AS.match(p)
    if m:
        tr = strip_generics(m.group(2)).split('::')[-1]
        rest = m.group(3)
        p = tr + '::' + rest
    m2 = re.search(r'<impl ([^<>]*(?:<[^<>]*>)?) for ', p)
    if m2:
        # std::cmp::impls::<impl PartialEq<&B> for &A>::eq
        tr = strip_generics(m2.group(1)).split('::')[-1]
        p = tr + '::' + p.rsplit('::', 1)[1]
    s = strip_generics(p)
    segs = s.split('::')
    # closures: keep enclosing fn
    k = len(segs)
    j = k
    while j > 0 and segs[j-1].startswith('{'):
        j -= 1
    base = segs[max(0, j-2):j]
    r = '::'.join(base + segs[j:])
    _cn[path] = r
    return r

def fullname(path):
    """Whole path without generics; `<X as T>::m` becomes `X as T::m`."""
    m = _AS.match(path)
    if m:
        return strip_generics(m.group(1).lstrip('&')) + ' as ' + strip_generics(m.group(2)) + '::' + strip_generics(m.group(3))
    m = re.search(r'^(.*)<impl (.*?)>::(.*)$', path)
    if m and ' for ' not in m.group(2):
        return strip_generics(m.group(1)) + '::' + strip_generics(m.group(2)) + '::' + strip_generics(m.group(3))
    return strip_generics(path)


class Fn:
    __slots__ = ('d', 'path', 'name', 'full', 'blocks', 'nargs', 'crate', '_info', 'locals', 'prog', 'kind', 'file', 'bin', '_triv', '_guards', 'uid')

    def __init__(self, d, crate, prog, bin_):
        self.d = d
        self.path = d['path']
        self.name = cname(d['path'])
        self.full = fullname(d['path'])
        self.blocks = d['blocks']
        self.nargs = d['args']
        self.crate = crate
        self.kind = d['kind']
        self.file = d['file']
        self.locals = d['locals']
        self.prog = prog
        self.bin = bin_
        self._info = None
        self._triv = None
        self._guards = None

    def lty(self, i):
        return self.crate['types'][self.locals[i][0]]

    def lname(self, i):
        l = self.locals[i]
        return l[1] if len(l) > 1 else None

    def __repr__(self):
        return 'Fn(%s)' % self.full


class Program:
    def __init__(self, facts_dir):
        self.fns = []
        self._holders = self._acting = self._looking = None
        self.by_path = {}
        self.by_name = {}
        self.adts = {}
        self.crates = []
        files = sorted(os.listdir(facts_dir))
        files.sort(key=lambda f: (not f.startswith('lib-'), f))
        for f in files:
            if not f.endswith('.json'):
                continue
            txt = open(os.path.join(facts_dir, f)).read()
            txt = txt.replace(os.path.join(os.path.dirname(os.path.abspath(facts_dir)), 'ana'), '<crate>')
            c = json.loads(txt)
            isbin = f.startswith('bin-')
            tag = f[:-5]
            c['tag'] = tag
            self.crates.append(c)
            for d in c['fns']:
                fn = Fn(d, c, self, tag if isbin else '')
                self.fns.append(fn)
                if isbin:
                    self.by_path[tag + '!' + fn.path] = fn
                    self.by_path.setdefault(fn.path, fn)
                else:
                    self.by_path[fn.path] = fn
                self.by_name.setdefault(fn.name, []).append(fn)
            for a in c['adts']:
                self.adts.setdefault(a['path'], a)
        dup = {}
        for fn in self.fns:
            dup.setdefault((fn.bin, fn.full), []).append(fn)
        for (b, full), l in dup.items():
            for fn in l:
                fn.uid = (b + '!' if b else '') + full
                if len(l) > 1:
                    # several impls of one trait for one type: told apart by signature
                    fn.uid += '|' + ','.join(fn.lty(i) for i in range(0, fn.nargs + 1))
        seen = {}
        for fn in self.fns:
            k = seen[fn.uid] = seen.get(fn.uid, 0) + 1
            if k > 1:
                fn.uid += '~%d' % k
        # lib paths as seen from the bins start with "acorn::"
        self.file_fns = {}
        for fn in self.fns:
            self.file_fns.setdefault(fn.file, []).append(fn)

    def resolve(self, path, from_crate=None):
        if from_crate is not None and from_crate.get('bin'):
            t = self.by_path.get(from_crate['tag'] + '!' + path)
            if t:
                return t
            if path.startswith('acorn::'):
                return self.by_path.get(path[len('acorn::'):])
        t = self.by_path.get(path)
        if t is None and 'acorn::' in path:
            t = self.by_path.get(path.replace('acorn::', ''))
        return t

    def find(self, name):
        """All functions whose path ends with the given `Type::method` name."""
        c = [f for f in self.by_name.get(name.split('::')[-2] + '::' + name.split('::')[-1] if '::' in name and not name.count('{') else name, [])]
        if not c and '::' not in name:
            c = [f for f in self.fns if f.full.split('::')[-1] == name and f.kind in ('fn', 'method')]
        if name.count('::') > 1:
            c = [f for f in c if f.full.endswith(name)] or [f for f in self.fns if f.full.endswith(name)]
        return c

    def one(self, name):
        c = self.find(name)
        c = [f for f in c if f.kind in ('fn', 'method', 'closure', 'coroutine')]
        if len(c) > 1:
            nb = [f for f in c if not f.bin]
            if len(nb) == 1:
                return nb[0]
        if len(c) != 1:
            raise AnchorError('anchor %s matches %d functions' % (name, len(c)))
        return c[0]

    def adt(self, name):
        c = [a for p, a in self.adts.items() if p == name or p.endswith('::' + name)]
        if len(c) != 1:
            raise AnchorError('anchor type %s matches %d types' % (name, len(c)))
        return c[0]


class AnchorError(Exception):
    pass
