"""Linear integer terms over hash-consed atoms, and the interval/linear-inequality store.

Everything here is exact integer arithmetic over abstract values: a Lin is a linear form
c + sum(k_i * atom_i); atoms are symbolic quantities (an input byte at a position, the length
of a slice, a loop counter, ...).  A Store maps normalised linear forms to interval sets.
No solver is involved: entailment is interval evaluation plus elimination of at most three
recorded inequalities.
"""
from math import gcd

INF = float('inf')
BIG = 1 << 61       # recorded bounds beyond this carry no information worth searching


class Atom:
    __slots__ = ('key', 'id', 'lo', 'hi', 'dom', 'loops')
    table = {}
    n = 0

    def __repr__(self):
        return show(self)


def _loops_in(x, acc):
    if isinstance(x, Atom):
        acc |= x.loops
    elif isinstance(x, Lin):
        acc |= x.loops()
    elif isinstance(x, tuple):
        for y in x:
            _loops_in(y, acc)
    elif hasattr(x, 'loops_in'):
        acc |= x.loops_in()


def atom(key, lo, hi, dom=None):
    a = Atom.table.get(key)
    if a is None:
        a = Atom()
        a.key = key
        a.lo = lo
        a.hi = hi
        a.dom = dom or ((lo, hi),)
        a.id = Atom.n
        Atom.n += 1
        acc = set()
        if key[0] in ('lk', 'lv'):
            acc.add(key[1])
        _loops_in(key, acc)
        a.loops = frozenset(acc)
        Atom.table[key] = a
    return a


class Lin:
    __slots__ = ('t', 'c', 'h')
    table = {}

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)

    def isconst(self):
        return not self.t

    def loops(self):
        s = frozenset()
        for a, _ in self.t:
            s |= a.loops
        return s

    def __add__(self, o):
        if isinstance(o, int):
            return mk(self.t, self.c + o)
        if not o.t:
            return mk(self.t, self.c + o.c)
        if not self.t:
            return mk(o.t, self.c + o.c)
        d = dict(self.t)
        for a, k in o.t:
            d[a] = d.get(a, 0) + k
        return mk(tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].id)), self.c + o.c)

    def scale(self, k):
        if k == 0:
            return const(0)
        if k == 1:
            return self
        return mk(tuple((a, c * k) for a, c in self.t), self.c * k)

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        if isinstance(o, int):
            return mk(self.t, self.c - o)
        return self + o.scale(-1)


def mk(t, c):
    key = (t, c)
    r = Lin.table.get(key)
    if r is None:
        r = Lin()
        r.t = t
        r.c = c
        r.h = hash(key)
        Lin.table[key] = r
    return r


def const(c):
    return mk((), c)


def var(a):
    return mk(((a, 1),), 0)


def norm(lin):
    """lin = g*key + c with key sign/gcd-normalised -> (keyterms, g, c); g may be negative."""
    g = 0
    for _, k in lin.t:
        g = gcd(g, abs(k))
    if lin.t[0][1] < 0:
        g = -g
    if g == 1:
        return lin.t, 1, lin.c
    return tuple((a, k // g) for a, k in lin.t), g, lin.c


# interval sets: tuple of (lo,hi) sorted disjoint, integers (INF allowed at the ends)
def iv_meet(a, b):
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            r.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(r)


def iv_join(a, b):
    xs = sorted(a + b)
    r = []
    for lo, hi in xs:
        if r and lo <= r[-1][1] + 1:
            if hi > r[-1][1]:
                r[-1] = (r[-1][0], hi)
        else:
            r.append((lo, hi))
    return tuple(r)


def iv_not(a):
    r = []
    lo = -INF
    for x, y in a:
        if lo < x:
            r.append((lo, x - 1))
        lo = y + 1
    if lo < INF:
        r.append((lo, INF))
    return tuple(r)


def iv_sub(a, b):
    return all(iv_meet((x,), b) == (x,) or _covered(x, b) for x in a)


def _covered(x, b):
    m = iv_meet((x,), b)
    return iv_join(m, ()) == (x,)


def ceil_div(a, b):
    if a in (INF, -INF):
        return a if b > 0 else -a
    return -((-a) // b)


def floor_div(a, b):
    if a in (INF, -INF):
        return a if b > 0 else -a
    return a // b


FULL = ((-INF, INF),)


def word(a):
    """(x, mask) if the atom is x & mask"""
    k = a.key
    if k[0] == 'and':
        return (k[1], k[2]) if isinstance(k[2], int) else None
    if k[0] == 'mod' and isinstance(k[2], int) and k[2] & (k[2] - 1) == 0:
        return k[1], k[2] - 1
    return None


class Store:
    """con: key(tuple of (atom,coef)) -> interval set of the linear form."""
    __slots__ = ('con', 'idx')

    def __init__(self):
        self.con = {}
        self.idx = None

    def copy(self):
        s = Store()
        s.con = dict(self.con)
        return s

    def dom1(self, a):
        k = ((a, 1),)
        d = self.con.get(k)
        return d if d is not None else a.dom

    def interval(self, lin):
        """sound (lo,hi) from per-atom domains and a direct record of the same form."""
        if not lin.t:
            return lin.c, lin.c
        con = self.con
        lo = hi = lin.c
        for a, k in lin.t:
            d = con.get(((a, 1),))
            if d is None:
                l, h = a.lo, a.hi
            else:
                l, h = d[0][0], d[-1][1]
            if k > 0:
                lo += k * l
                hi += k * h
            else:
                lo += k * h
                hi += k * l
        if len(lin.t) > 1:
            key, g, c = norm(lin)
            d = con.get(key)
            if d is not None:
                l, h = d[0][0], d[-1][1]
                if g > 0:
                    l2, h2 = g * l + c, g * h + c
                else:
                    l2, h2 = g * h + c, g * l + c
                lo = max(lo, l2)
                hi = min(hi, h2)
        return lo, hi

    def ivset(self, lin):
        """interval set of possible values of lin (exact for recorded forms)."""
        if not lin.t:
            return ((lin.c, lin.c),)
        key, g, c = norm(lin)
        if len(lin.t) == 1:
            d = self.dom1(lin.t[0][0])
        else:
            d = self.con.get(key, FULL)
        if g == 1:
            r = tuple((lo + c, hi + c) for lo, hi in d)
        elif g == -1:
            r = tuple((c - hi, c - lo) for lo, hi in reversed(d))
        else:
            xs = [(g * lo + c, g * hi + c) if g > 0 else (g * hi + c, g * lo + c) for lo, hi in d]
            xs.sort()
            r = tuple(xs)
        lo, hi = self.interval(lin)
        return iv_meet(r, ((lo, hi),)) or r

    def _index(self):
        """atom -> list of (lin>=0) inequalities with at least two atoms."""
        if self.idx is None:
            idx = {}
            for key, d in self.con.items():
                if len(key) < 2:
                    continue
                lo, hi = d[0][0], d[-1][1]
                if lo > -BIG:
                    l = mk(key, -lo)
                    for a, _ in key:
                        idx.setdefault(a, []).append(l)
                if hi < BIG:
                    l = mk(tuple((a, -k) for a, k in key), hi)
                    for a, _ in key:
                        idx.setdefault(a, []).append(l)
            self.idx = idx
        return self.idx

    def ge0(self, lin, depth=3, used=()):
        """True if lin >= 0 is entailed."""
        lo, hi = self.interval(lin)
        if lo >= 0:
            return True
        if depth == 0 or not lin.t:
            return False
        if hi < 0:
            return False
        if depth == 3 and len(lin.t) == 1:
            w = word(lin.t[0][0])
            if w is not None:
                d = self.bits_of(*w)
                if d is not None:
                    k = lin.t[0][1]
                    return k * (d[0] if k > 0 else d[1]) + lin.c >= 0
        idx = self._index()
        seen = set()
        terms = lin.t
        if len(terms) > 1:
            # an atom whose own bounds are useless has to be eliminated through a fact: branch on it alone
            best = None
            con = self.con
            for a, k in terms:
                d = con.get(((a, 1),))
                l, h = (a.lo, a.hi) if d is None else (d[0][0], d[-1][1])
                w = -k * l if k > 0 else -k * h
                if w >= 4294967296:         # a quotient occurs in little else than its definition: first
                    w = (a.key[0] == 'div', w)
                    if best is None or w > best[0]:
                        best = (w, (a, k))
            if best is not None:
                terms = (best[1],)
            elif depth > 1:
                depth = 1
        for a, k in terms:
            for f in idx.get(a, ()):
                if f in seen or f in used:
                    continue
                fk = 0
                for b, q in f.t:
                    if b is a:
                        fk = q
                if fk * k <= 0:
                    continue
                # eliminate a: lin - (k/fk) * f  ;  scale to integers
                if k % fk == 0:
                    rest = lin - f.scale(k // fk)
                else:
                    # integers: lin >= 0 iff q*lin + (q-1) >= 0
                    rest = lin.scale(abs(fk)) - f.scale(abs(k)) + (abs(fk) - 1)
                seen.add(f)
                if len(rest.t) > len(lin.t) + 6:
                    continue
                if self.ge0(rest, depth - 1, used + (f,)):
                    return True
        return False

    def eq0(self, lin):
        if lin.isconst():
            return lin.c == 0
        return self.ge0(lin) and self.ge0(-lin)

    def decide(self, rel, lin):
        """rel in 'ge' (lin>=0), 'eq' (lin==0), 'ne'. Returns True/False/None."""
        if rel == 'ge':
            lo, hi = self.interval(lin)
            if lo >= 0:
                return True
            if hi < 0:
                return False
            if self.ge0(lin):
                return True
            if self.ge0(-lin - 1):
                return False
            return None
        r = self._dec_eq(lin)
        if rel == 'ne' and r is not None:
            return not r
        return r

    def _dec_eq(self, lin):
        if not lin.t:
            return lin.c == 0
        s = self.ivset(lin)
        if not iv_meet(s, ((0, 0),)):
            return False
        if s == ((0, 0),):
            return True
        key, g, c = norm(lin)
        if c % g != 0:
            return False
        lo, hi = self.interval(lin)
        if lo > 0 or hi < 0:
            return False
        if len(lin.t) == 1 and word(lin.t[0][0]) is not None:
            d = self.bits_of(*word(lin.t[0][0]))
            if d is not None:
                k = lin.t[0][1]
                lo, hi = sorted((k * d[0] + lin.c, k * d[1] + lin.c))
                if lo > 0 or hi < 0:
                    return False
                if lo == hi == 0:
                    return True
        if len(lin.t) > 1:
            if self.ge0(lin - 1) or self.ge0(-lin - 1):
                return False
            if self.ge0(lin) and self.ge0(-lin):
                return True
        return None

    def assume(self, rel, lin):
        """Adds the fact; returns False if contradictory."""
        if not lin.t:
            return lin.c >= 0 if rel == 'ge' else (lin.c == 0) == (rel == 'eq')
        key, g, c = norm(lin)
        if rel == 'ge':
            # g*x + c >= 0
            iv = ((ceil_div(-c, g), INF),) if g > 0 else ((-INF, floor_div(-c, g)),)
        else:
            if c % g != 0:
                return rel == 'ne'
            v = -c // g
            iv = ((v, v),) if rel == 'eq' else ((-INF, v - 1), (v + 1, INF))
        old = self.con.get(key)
        if old is None:
            if len(key) == 1:
                old = key[0][0].dom
            else:
                lo, hi = self.interval(mk(key, 0))
                old = ((lo, hi),)
        new = iv_meet(old, iv)
        if not new:
            return False
        if new != self.con.get(key):
            self.con[key] = new
            self.idx = None
            if len(key) == 1 and word(key[0][0]) is not None and not self._bits(key[0][0]):
                return False
            if rel == 'eq' and len(key) > 1 and all(k > 0 for _, k in key):
                if not self._propagate(key, new):
                    return False
        return True

    def strict(self, rel, lin):
        """assume, refuting with derived facts too"""
        return self.decide(rel, lin) is not False and self.assume(rel, lin)

    def _masks(self, x):
        """[(mask, values)] of the recorded facts about bits of x"""
        r = []
        for key, d in self.con.items():
            if len(key) == 1 and key[0][1] == 1:
                w = word(key[0][0])
                if w is not None and w[0] == x:
                    r.append((w[1], d))
        return r

    def known_bits(self, x):
        """(mask, value) of the bits of x the recorded facts determine; None if they contradict each other"""
        ms = self._masks(x)
        K = V = 0
        again = True
        while again:
            again = False
            for m, d in ms:
                if d[0][0] == d[-1][1]:
                    v = d[0][0]
                    if v & ~m or (V ^ v) & (K & m):
                        return None
                    if m & ~K:
                        K, V, again = K | m, V | v, True
                    continue
                free = m & ~K
                base = V & m
                if free & (free - 1) == 0:
                    poss = [b for b in {base, base | free} if any(lo <= b <= hi for lo, hi in d)]
                    if not poss:
                        return None
                    if free and len(poss) == 1:
                        K, V, again = K | free, V | poss[0] & free, True
        return K, V

    def bits_of(self, x, mask):
        """bounds of x & mask from the facts about other bits of x"""
        r = self.known_bits(x)
        if r is None or not r[0] & mask:
            return None
        v = r[1] & mask
        return v, v | (mask & ~r[0])

    def _bits(self, a):
        """the facts about the bits of a word agree"""
        return self.known_bits(word(a)[0]) is not None

    def _propagate(self, key, dom):
        """byte composition: sum k_i*b_i == v with b_i in [0,255] radix 256 pins every byte."""
        v = dom[0][0]
        if dom != ((v, v),):
            return True
        ks = sorted((k for _, k in key), reverse=True)
        if any(a.lo != 0 or a.hi != 255 for a, _ in key):
            return True
        for a, k in sorted(key, key=lambda x: -x[1]):
            rest = sum(q for _, q in key if q < k) * 255
            if rest >= k:
                return True
        for a, k in sorted(key, key=lambda x: -x[1]):
            q = v // k
            v -= q * k
            d = iv_meet(self.dom1(a), ((q, q),))
            if not d:
                return False
            self.con[((a, 1),)] = d
        self.idx = None
        return v == 0


def show(x, depth=0):
    if depth > 12:
        return '…'
    if isinstance(x, Lin):
        if not x.t:
            return str(x.c)
        w = _words(x)
        parts = []
        for k, s in w:
            parts.append(s if k == 1 else ('-' + s if k == -1 else f'{k}*{s}'))
        r = '+'.join(parts).replace('+-', '-')
        if x.c:
            r += f'{x.c:+d}'
        return r
    if isinstance(x, Atom):
        k = x.key
        if k[0] == 'b':
            return f'{show(k[1], depth + 1)}[{show(k[2], depth + 1)}]'
        if k[0] == 'len':
            return f'len({show(k[1], depth + 1)})'
        return f'{k[0]}({",".join(show(y, depth + 1) for y in k[1:])})'
    if isinstance(x, tuple):
        return '(' + ','.join(show(y, depth + 1) for y in x) + ')'
    return str(x)


def _words(x):
    """pretty-print byte compositions as BEn."""
    out = []
    byts = {}
    rest = []
    for a, k in x.t:
        if a.key[0] == 'b':
            byts[(a.key[1], a.key[2])] = (a, k)
        else:
            rest.append((k, show(a, 1)))
    used = set()
    for (buf, pos), (a, k) in sorted(byts.items(), key=lambda z: -abs(z[1][1])):
        if a in used:
            continue
        n = 1
        kk = k
        while kk % 256 == 0 and (buf, pos + n) in byts and byts[(buf, pos + n)][1] == kk // 256:
            used.add(byts[(buf, pos + n)][0])
            kk //= 256
            n += 1
        used.add(a)
        out.append((kk, f'BE{n}@{show(buf, 2)}[{show(pos, 2)}]' if n > 1 else show(a, 1)))
    return out + rest
