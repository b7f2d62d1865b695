"""Names for analysis results that do not depend on type, function, frame or loop numbering (for comparing two builds)."""
import ast
import hashlib
import re
from lin import Lin, Atom
from values import T

SUB = [(r'alloc::rc::Rc\b|alloc::rcs::rc::Rc\b|std::rc::Rc\b|alloc::sync::Arc\b|std::sync::Arc\b|alloc::rcs::sync::Arc\b|alloc::rcs::arc::Arc\b', 'SHARED'),
       (r'core::cell::RefCell\b|std::cell::RefCell\b|std::sync::Mutex\b|std::sync::poison::mutex::Mutex\b|std::sync::poison::Mutex\b|std::sync::(?:poison::)?(?:rwlock::)?RwLock\b', 'CELL'),
       (r'\{impl#\d+\}', '{impl}')]


def tyname(s):
    for a, b in SUB:
        s = re.sub(a, b, s)
    return s


class Canon:
    def __init__(self, E):
        self.E = E
        self.memo = {}
        self.loop = {}
        for i, r in enumerate(E.loopfinal):
            self.loop.setdefault(r.id, i)
        self.fk = {v: k for k, v in E.framekeys.items()}
        self.chains = {}
        self.opaque = {}

    def h(self, *xs):
        m = hashlib.blake2b(digest_size=12)
        for x in xs:
            m.update(x if isinstance(x, bytes) else str(x).encode())
            m.update(b'\x00')
        return m.digest()

    def frame(self, fid):
        r = self.chains.get(fid)
        if r is None:
            k = self.fk.get(fid)
            r = self.chains[fid] = self.h('fr', self.frkey(k)) if k is not None else 'frame'
        return r

    def frkey(self, k):
        return (self.fname(k[0]),) + tuple((self.fname(f), sp[1:]) for f, sp in k[1:])

    def fname(self, i):
        return self.E.p.fns[i].npath if i >= 0 else 'adaptor %d' % i

    def leaf(self, k):
        # ('L', frame, local), ('A', ...), ('H', n), ('C', term, ty)
        if k[0] == 'L':
            return self.h('L', self.frame(k[1]), k[2])
        if k[0] == 'C':
            return self.h('C', self.c(k[1]))
        if k[0] == 'A':
            return self.h('A', *[self.fname(x) if i == 1 and isinstance(x, int) else x for i, x in enumerate(k)])
        return self.h(*k)

    def c(self, x):
        if isinstance(x, (T, Lin, Atom)):
            r = self.memo.get(x)
            if r is None:
                self.memo[x] = b'cyc'
                r = self.memo[x] = self._c(x)
            return r
        if isinstance(x, tuple):
            if len(x) and x[0] in ('L', 'A', 'H', 'C') and len(x) >= 2:
                return self.leaf(x)
            return self.h('t', *[self.c(y) for y in x])
        return self.h(type(x).__name__, x)

    def _c(self, x):
        E = self.E
        if isinstance(x, Lin):
            return self.h('lin', x.c, *sorted(self.h(self.c(a), k) for a, k in x.t))
        if isinstance(x, Atom):
            k = x.key
            if k[0] == 'lk':
                return self.h('lk', self.loop.get(k[1], '?'))
            if k[0] == 'lv':
                return self.h('lv', self.loop.get(k[1], '?'), *[self.c(y) for y in k[2:]])
            return self.h('atom', *[self.c(y) if not isinstance(y, (int, str)) else y for y in k])
        t, a = x.tag, x.a
        if t == 'adt':
            return self.h('adt', tyname(E.tys[a[0]]['s']), a[1], *[self.c(y) for y in a[2]])
        if t == 'sym':
            return self.h('sym', self.c(a[0]), tyname(E.tys[a[1]]['s']))
        if t == 'buf':
            return self.h('buf', self.c(a[0]), tyname(E.tys[a[1]]['s']) if isinstance(a[1], int) else '')
        if t in ('R', 'F', 'rarg', 'arg') and a and isinstance(a[0], int) and t != 'arg':
            return self.h(t, E.p.fns[a[0]].npath, *[self.c(y) for y in a[1:]])
        if t in ('lvs', 'lseg'):
            return self.h(t, self.loop.get(a[0], '?'), *[self.c(y) for y in a[1:]])
        if t == 'list':
            return self.h('list', self.c(a[0]), tyname(E.tys[a[1]]['s']) if isinstance(a[1], int) else '')
        if t == 'leaf':
            try:
                r = ast.literal_eval(a[0])
            except (ValueError, SyntaxError):
                r = None
            return self.h('leaf', self.leaf(r) if isinstance(r, tuple) and r[0] in 'LAH' else '?', *a[1:])
        if t == 'U':
            return self.h('U', a[0])
        return self.h(t, *[self.c(y) for y in a])

    def state(self, s):
        """facts about the input (path condition) of a state"""
        out = set()
        for k, d in s.st.con.items():
            # con keys are normalised linear forms; sign normalisation may differ, so hash both with the domain
            out.add(self.h('con', self.lk(k, d)))
        for t, vs in s.var.items():
            out.add(self.h('var', self.c(t), sorted(vs)))
        for t, b in s.pred.items():
            out.add(self.h('pred', self.c(t), b))
        return out

    def lk(self, k, d):
        ks = [(self.c(a), c) for a, c in k]
        pos = self.h(*sorted(self.h(a, c) for a, c in ks), d)
        neg = self.h(*sorted(self.h(a, -c) for a, c in ks), tuple((-y, -x) for x, y in reversed(d)))
        return min(pos, neg)
