"""Finite automata over text bytes: symbols 0..127 are themselves, 128 stands for every byte of a character beyond ASCII.
A set of symbols is a bit mask."""

ALLSYM = (1 << 129) - 1
HIGHBIT = 1 << 128


def mask(xs):
    r = 0
    for x in xs:
        r |= 1 << (ord(x) if isinstance(x, str) else min(x, 128))
    return r


def neg(m):
    return ALLSYM & ~m


class Nfa:
    """built by combinators on expressions: ('s', mask), ('cat', ...), ('alt', ...), ('rep', e, lo, hi or None), ('auto', ...)"""

    def __init__(self, expr):
        self.eps = []
        self.tr = []
        self.start = self.node()
        self.final = self.node()
        self.masks = set()
        self.build(expr, self.start, self.final)
        self.memo = {}
        self.closures = {}

    def node(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, e, a, b):
        k = e[0]
        if k == 's':
            if e[1]:
                self.tr[a].append((e[1], b))
                self.masks.add(e[1])
        elif k == 'cat':
            cur = a
            for x in e[1:]:
                n = self.node()
                self.build(x, cur, n)
                cur = n
            self.eps[cur].append(b)
        elif k == 'alt':
            for x in e[1:]:
                self.build(x, a if x[0] in ('s', 'cat', 'alt') else a, b) if x[0] == 's' else self.wrapped(x, a, b)
        elif k == 'rep':
            _, x, lo, hi = e
            cur = a
            for _ in range(lo):
                n = self.node()
                self.wrapped(x, cur, n)
                cur = n
            if hi is None:
                n = self.node()
                self.eps[cur].append(n)
                m = self.node()
                self.wrapped(x, n, m)
                self.eps[m].append(n)
                self.eps[n].append(b)
            else:
                self.eps[cur].append(b)
                for _ in range(hi - lo):
                    n = self.node()
                    self.wrapped(x, cur, n)
                    cur = n
                    self.eps[cur].append(b)
        elif k == 'notlit':
            # every text except the given one
            cur = a
            c = self.node()
            self.eps[a].append(c)
            cur = c
            sink = self.node()
            self.tr[sink].append((ALLSYM, sink))
            self.masks.add(ALLSYM)
            self.eps[sink].append(b)
            for ch in e[1]:
                self.eps[cur].append(b)
                m = mask([ch])
                self.masks.add(m)
                if neg(m):
                    self.tr[cur].append((neg(m), sink))
                n = self.node()
                self.tr[cur].append((m, n))
                cur = n
            self.tr[cur].append((ALLSYM, sink))
        elif k == 'dfa':
            d = e[1]
            ns = [self.node() for _ in d.tr]
            self.eps[a].append(ns[0])
            for i, row in enumerate(d.tr):
                if d.final[i]:
                    self.eps[ns[i]].append(b)
                for m, j in row:
                    self.tr[ns[i]].append((m, ns[j]))
                    self.masks.add(m)
        elif k == 'and':
            self.build(simplify(e), a, b)
        elif k == 'auto':
            # explicit automaton: (number of states, starts, finals, [(i, expr, j)])
            _, n, starts, finals, edges = e
            ns = [self.node() for _ in range(n)]
            for i in starts:
                self.eps[a].append(ns[i])
            for i in finals:
                self.eps[ns[i]].append(b)
            for i, x, j in edges:
                self.wrapped(x, ns[i], ns[j])
        else:
            raise ValueError(k)

    def wrapped(self, x, a, b):
        s, t = self.node(), self.node()
        self.eps[a].append(s)
        self.eps[t].append(b)
        self.build(x, s, t)

    # ------------------------------------------------------------ subset construction
    def closure(self, xs):
        seen = set(xs)
        work = list(xs)
        while work:
            for y in self.eps[work.pop()]:
                if y not in seen:
                    seen.add(y)
                    work.append(y)
        return frozenset(x for x in seen if self.tr[x] or x == self.final)

    def init(self):
        return self.closure([self.start])

    def step(self, S, sym):
        r = self.memo.get((S, sym))
        if r is None:
            b = 1 << sym
            r = self.closure([d for x in S for m, d in self.tr[x] if m & b])
            self.memo[(S, sym)] = r
        return r

    def accepts(self, S):
        return self.final in S

    def member(self, text):
        S = self.init()
        for ch in text:
            S = self.step(S, min(ord(ch), 128))
        return self.accepts(S)


ANY = ('rep', ('s', ALLSYM), 0, None)
EPS = ('cat',)


def lit(text):
    return ('cat',) + tuple(('s', mask([c])) for c in text)


def partition(masks):
    """one symbol of every class of symbols no mask separates"""
    ms = sorted(masks)
    seen = {}
    for x in range(129):
        k = tuple((m >> x) & 1 for m in ms)
        if k not in seen or (x in PRETTY and seen[k] not in PRETTY):
            seen[k] = x
    return sorted(seen.values(), key=lambda x: (x not in PRETTY, x))


PRETTY = frozenset(range(97, 123))


class TooBig(Exception):
    pass


def minimise(tr, init):
    """blocks of equivalent states of a complete automaton (Hopcroft); init: the classes that must be kept apart"""
    n, k = len(tr), len(tr[0])
    inv = [{} for _ in range(k)]
    for i, row in enumerate(tr):
        for c, j in enumerate(row):
            inv[c].setdefault(j, []).append(i)
    blocks = {}
    for i, x in enumerate(init):
        blocks.setdefault(x, set()).add(i)
    blocks = list(blocks.values())
    of = [0] * n
    for b, xs in enumerate(blocks):
        for i in xs:
            of[i] = b
    work = set(range(len(blocks)))
    while work:
        a = work.pop()
        members = list(blocks[a])
        for c in range(k):
            ic = inv[c]
            hit = {}
            for j in members:
                for i in ic.get(j, ()):
                    hit.setdefault(of[i], []).append(i)
            for b, xs in hit.items():
                if len(xs) == len(blocks[b]):
                    continue
                new = set(xs)
                old = blocks[b]
                old -= new
                nb = len(blocks)
                if b in work or len(new) <= len(old):
                    blocks.append(new)
                    work.add(nb)
                else:
                    blocks.append(new)
                    work.add(nb if len(new) < len(old) else b)
                for i in new:
                    of[i] = nb
    return of


class Dfa:
    """minimal deterministic automaton without dead states; state 0 is the start; tr[i] = [(mask, j)]"""

    def __init__(self, nfas, limit):
        masks = set().union(*[n.masks for n in nfas])
        reps = partition(masks)
        ms = sorted(masks)
        cls = {}
        for x in range(129):
            cls.setdefault(tuple((m >> x) & 1 for m in ms), []).append(x)
        rm = [mask(next(xs for xs in cls.values() if r in xs)) for r in reps]
        ids = {}
        tr = []
        fin = []
        work = []

        def get(k):
            i = ids.get(k)
            if i is None:
                i = ids[k] = len(ids)
                if i > limit:
                    raise TooBig()
                tr.append(None)
                fin.append(all(n.accepts(S) for n, S in zip(nfas, k)))
                work.append((i, k))
            return i
        empty = frozenset()
        dead = tuple(empty for _ in nfas)
        get(dead)
        start = get(tuple(n.init() for n in nfas))
        while work:
            i, k = work.pop()
            row = []
            for x in reps:
                k2 = []
                for n, S in zip(nfas, k):
                    S2 = n.step(S, x)
                    if not S2:
                        k2 = dead
                        break
                    k2.append(S2)
                row.append(get(tuple(k2)))
            tr[i] = row
        n = len(tr)
        cur = minimise(tr, fin)
        rep = {}
        for i in range(n):
            rep.setdefault(cur[i], i)
        # live blocks
        back = {}
        for b, i in rep.items():
            for j in tr[i]:
                back.setdefault(cur[j], set()).add(b)
        live = {b for b, i in rep.items() if fin[i]}
        work = list(live)
        while work:
            for b in back.get(work.pop(), ()):
                if b not in live:
                    live.add(b)
                    work.append(b)
        order = [cur[start]]
        num = {cur[start]: 0}
        self.tr, self.final = [], []
        while len(self.tr) < len(order):
            i = rep[order[len(self.tr)]]
            row = {}
            for c, j in enumerate(tr[i]):
                b = cur[j]
                if b in live:
                    if b not in num:
                        num[b] = len(order)
                        order.append(b)
                    row[num[b]] = row.get(num[b], 0) | rm[c]
            self.tr.append([(m, j) for j, m in row.items()])
            self.final.append(fin[i])


SIMPLE = {}


def simplify(e, limit=6000):
    """('dfa', minimal automaton) of the expression"""
    if e[0] == 'dfa':
        return e
    r = SIMPLE.get(e)
    if r is None:
        parts = e[1:] if e[0] == 'and' else (e,)
        r = SIMPLE[e] = ('dfa', Dfa([Nfa(x) for x in parts], limit))
    return r


class SigDfa:
    """the product of several languages as one deterministic automaton; a state's signature says which languages contain the text"""

    def __init__(self, exprs):
        nfas = [Nfa(e) for e in exprs]
        self.masks = set().union(*[n.masks for n in nfas])
        reps = partition(self.masks)
        ms = sorted(self.masks)
        bykey = {tuple((m >> x) & 1 for m in ms): i for i, x in enumerate(reps)}
        self.cls = [bykey[tuple((m >> x) & 1 for m in ms)] for x in range(129)]
        ids = {}
        self.tr = []
        sig = []
        work = []

        def get(k):
            i = ids.get(k)
            if i is None:
                i = ids[k] = len(ids)
                sig.append(tuple(n.accepts(S) for n, S in zip(nfas, k)))
                self.tr.append(None)
                work.append((i, k))
            return i
        get(tuple(n.init() for n in nfas))
        while work:
            i, k = work.pop()
            self.tr[i] = [get(tuple(n.step(S, x) for n, S in zip(nfas, k))) for x in reps]
            if len(ids) > 60000:
                raise TooBig()
        cur = minimise(self.tr, sig)
        n = max(cur) + 1
        tr = [None] * n
        self.sig = [None] * n
        for i, b in enumerate(cur):
            if tr[b] is None:
                tr[b] = [cur[j] for j in self.tr[i]]
                self.sig[b] = sig[i]
        self.tr = tr
        self.start = cur[0]

    def run(self, text):
        q = self.start
        for ch in text:
            q = self.tr[q][self.cls[min(ord(ch), 128)]]
        return self.sig[q]


def signatures(dfa, nfas, limit=400000, budget=40000000):
    """{signature: shortest text} of the texts in the intersection of all the automata"""
    work = 0
    masks = set(dfa.masks)
    for n in nfas:
        masks |= n.masks
    reps = partition(masks)
    first = (dfa.start,) + tuple(n.init() for n in nfas)
    seen = {first: None}
    out = {}
    level = [first]
    while level:
        nxt = []
        for k in level:
            if all(n.accepts(S) for n, S in zip(nfas, k[1:])):
                s = dfa.sig[k[0]]
                if s not in out:
                    out[s] = k
            for x in reps:
                k2 = []
                for n, S in zip(nfas, k[1:]):
                    S2 = n.step(S, x)
                    if not S2:
                        break
                    k2.append(S2)
                    work += len(S2)
                else:
                    k2 = (dfa.tr[k[0]][dfa.cls[x]],) + tuple(k2)
                    if k2 not in seen:
                        seen[k2] = (k, x)
                        nxt.append(k2)
        if len(seen) > limit or work > budget:
            raise TooBig()
        level = nxt
    words = {}
    for s, k in out.items():
        w = []
        while seen[k] is not None:
            k, x = seen[k]
            w.append(x)
        words[s] = ''.join(chr(x) if x < 128 else '\u00e9' for x in reversed(w))
    return words
