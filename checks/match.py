"""Matching of analysis results against a declarative description of the class-file format.

A format description (checks/jvms.py) is a sequence of nodes that read bytes, state conditions and build the value the
format assigns to the bytes read.  The matcher walks it along every abstract path of the analysis:

 * sound mode ('ok'), for every path that ends in success: each item must have been read at the position the format puts it,
   every condition of the format must follow from the path's facts, and the value produced must be the one described;
 * complete mode ('err'), for every place where a parse error is created: the facts known at that place must contradict
   the format (assuming all of its conditions must be infeasible), otherwise a well-formed input can be rejected.

Tables are matched with the loops that read them (by the position where they start and where every iteration ends), recursive
structures with the recursive functions that read them.
"""
from lin import Lin, Atom, atom, mk, const, var, INF, iv_meet
from values import T, mkT, subst, subterms, els_of
from interp import mkcmp, neg, Infeasible, AnalysisError, Split, npath_
import models


class Frame:
    """a position of the walk: names bound so far, position in the input, path state, trail entries available (from base on,
    minus used), origin of the slice being read, end of the walk reached"""
    __slots__ = ('env', 'cur', 'st', 'base', 'used', 'rel', 'stop', 'lim')

    def __init__(self, env, cur, st, base, used=frozenset(), rel=const(0), stop=False, lim=None):
        self.env, self.cur, self.st, self.base, self.used, self.rel, self.stop, self.lim = env, cur, st, base, used, rel, stop, lim

    def w(self, **kw):
        f = Frame(self.env, self.cur, self.st, self.base, self.used, self.rel, self.stop, self.lim)
        for k, v in kw.items():
            setattr(f, k, v)
        return f

    def bind(self, name, v, cur=None):
        e = dict(self.env)
        e[name] = v
        return Frame(e, self.cur if cur is None else cur, self.st, self.base, self.used, self.rel, self.stop, self.lim)

    def end(self, m):
        """the end of the innermost structure of known length"""
        return m.len if self.lim is None else self.lim

    def room(self, m, n):
        """assume that n more bytes exist"""
        st = self.st.st
        return st.strict('ge', m.len - self.cur - n) and (self.lim is None or st.strict('ge', self.lim - self.cur - n))

    def trail(self):
        for i in range(self.base, len(self.st.trail)):
            if i not in self.used:
                yield i, self.st.trail[i]


# ------------------------------------------------------------------------------------------------ nodes
class Node:
    pass


class U(Node):
    """unsigned big-endian integer of n bytes"""

    def __init__(self, name, n, what=None):
        self.name, self.n, self.what = name, n, what or name

    def run(self, m, f):
        x = m.be(f.cur, self.n)
        lim = m.len - f.cur - self.n
        if m.mode == 'ok':
            m.need(f, Lc('ge', lim), 'int', f'{self.what}: the {self.n} bytes read here are known to exist')
        elif not f.room(m, const(self.n)):
            return
        yield f.bind(self.name, x, f.cur + self.n)


class Blob(Node):
    """len raw bytes"""

    def __init__(self, name, ln):
        self.name, self.ln = name, ln

    def run(self, m, f):
        n = self.ln(m, f)
        lim = m.len - f.cur - n
        if m.mode == 'ok':
            m.need(f, Lc('ge', lim), 'int', f'{self.name}: bytes exist')
        elif not f.room(m, n):
            return
        yield f.bind(self.name, ('blob', f.cur, n), f.cur + n)


class Let(Node):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def run(self, m, f):
        yield f.bind(self.name, self.fn(m, f))


class Req(Node):
    """conditions: fn(m, f) -> list of conditions; all must hold"""

    def __init__(self, fn, tag, what):
        self.fn, self.tag, self.what = fn, tag, what

    def run(self, m, f):
        for c in self.fn(m, f):
            if m.mode == 'ok':
                m.need(f, c, self.tag, self.what)
            elif not c.assume(m, f.st):
                return
        yield f


class Alt(Node):
    """selection on an integer; cases: [(values or (lo, hi), nodes, value)]; any other value is not allowed"""

    def __init__(self, name, sel, cases, tag, what):
        self.name, self.sel, self.tag, self.what = name, sel, tag, what
        self.cases = cases

    def run(self, m, f):
        x = self.sel(m, f)
        dom = f.st.st.ivset(x)
        rest = dom
        for vals, nodes, val in self.cases:
            ivs = ((vals[0], vals[1]),) if isinstance(vals, tuple) else tuple((v, v) for v in sorted(vals))
            d = iv_meet(rest, ivs)
            if not d:
                continue
            rest = iv_minus(rest, ivs)
            groups = [d] if d == dom else [((lo, hi),) for lo, hi in d]
            for g in groups:
                g_ = f
                if g != dom:
                    s = f.st.copy()
                    if not m.restrict(s, x, g):
                        continue
                    g_ = f.w(st=s)
                for r in m.seq(nodes, g_):
                    yield r if r.stop else r.bind(self.name, (val, r.env) if val is not None else None)
        rest = [iv for iv in rest if m.feasible_iv(f.st, x, iv)]
        if rest and m.mode == 'ok':
            m.fail(f, self.tag, f'{self.what}: value(s) {show_iv(rest)} are accepted but not defined')


class StrAlt(Node):
    """selection on a string; default taken for any other string"""

    def __init__(self, name, sterm, cases, default, what):
        self.name, self.sterm, self.cases, self.default, self.what = name, sterm, cases, default, what

    def run(self, m, f):
        t = self.sterm(m, f)
        known = f.st.var.get(mkT('strval', t))
        left = []
        for lit, nodes, val in self.cases:
            r = m.E.decide_term(f.st, mkT('streq', t, lit))
            if known is not None:
                r = lit in known
            if r is False:
                continue
            left.append((lit, nodes, val))
        for lit, nodes, val in left:
            s = f.st.copy()
            if not m.E.assume(s, mkT('ptm', mkT('streq', t, lit)), True):
                continue
            g = f.w(st=s)
            g.env = dict(f.env)
            g.env['lit'] = lit
            for r in m.seq(nodes, g):
                yield r if r.stop else r.bind(self.name, (val, r.env))
        if known is None or any(k not in [c[0] for c in self.cases] for k in known):
            s = f.st.copy()
            if all(m.E.assume(s, mkT('ptm', mkT('streq', t, lit)), False) for lit, _, _ in self.cases):
                for r in m.seq(self.default[0], f.w(st=s)):
                    yield r if r.stop else r.bind(self.name, (self.default[1], r.env))


class StLocal(Node):
    """the nodes, restricted to inner scope of names (their bindings stay visible)"""

    def __init__(self, nodes):
        self.nodes = nodes

    def run(self, m, f):
        yield from m.seq(self.nodes, f)


class Within(Node):
    """nodes that must occupy exactly ln bytes"""

    def __init__(self, ln, nodes, what):
        self.ln, self.nodes, self.what = ln, nodes, what

    def run(self, m, f):
        end = f.cur + self.ln(m, f)
        if m.mode == 'err' and not f.room(m, end - f.cur):
            return
        outer = f.lim
        for r in m.seq(self.nodes, f.w(lim=end)):
            r = r.w(lim=outer)
            if r.stop:
                # everything read later must still fit
                if m.mode == 'err' and not r.st.st.strict('ge', end - r.cur):
                    continue
                yield r
                continue
            if m.mode == 'ok':
                m.need(r, Lc('eq', end - r.cur), 'end', f'{self.what}: the contents occupy exactly the declared length')
            elif not r.st.st.strict('eq', end - r.cur):
                continue
            yield r


class Tab(Node):
    """count items; or, with until, items up to a position"""

    def __init__(self, name, count, item, value, until=None, minsize=0, what=None, elems=1):
        self.name, self.count, self.item, self.value, self.until = name, count, item, value, until
        self.minsize, self.what, self.elems = minsize, what or name, elems

    def run(self, m, f):
        E = m.E
        cnt = self.count(m, f) if self.count else None
        end = self.until(m, f) if self.until else None
        for i, e in f.trail():
            if e[0] == 'loop':
                rec = E.loops[e[1]]
                for leaf in m.cursor_leaves(rec, f.cur - f.rel):
                    kx = e[2]
                    r = m.bind_loop(self, rec, leaf, f)
                    if r is None:
                        continue
                    cur = subst(rec.gvals[leaf], {rec.k: kx}) + f.rel
                    g = f.bind(self.name, ('tab', self, rec, r, leaf, kx), cur)
                    g.used = f.used | {i}
                    if cnt is not None:
                        c = Lc('eq', kx - cnt)
                    else:
                        c = Lc('eq', cur - end)
                    c = AfterLoop(c, rec, kx)
                    if m.mode == 'ok':
                        m.need(g, c, 'count', f'{self.what}: the number of items read is the number given by the file')
                        yield g
                        return
                    if c.holds(m, g.st):
                        yield g
                        return
                    done = g.w(st=g.st.copy())
                    if c.assume(m, done.st):
                        yield done
                    # left in the middle of an iteration
                    h = f.w(cur=cur, base=i + 1, used=frozenset())
                    if h.st.st.strict('ge', cnt - kx - 1) if cnt is not None else h.st.st.strict('ge', end - cur - 1):
                        h.env = dict(h.env)
                        h.env['iter'] = ('iter', self, rec, leaf)
                        for q in m.seq(self.item, h):
                            yield q.w(stop=True)
                    return
            elif e[0] == 'in':
                rec = E.loops[e[1]]
                if rec.backs is None:
                    continue
                for leaf in m.cursor_leaves(rec, f.cur - f.rel):
                    r = m.bind_loop(self, rec, leaf, f)
                    if r is None:
                        continue
                    g = f.w(cur=rec.gvals[leaf] + f.rel, base=i + 1, used=frozenset())
                    if cnt is not None:
                        if not g.st.st.strict('ge', cnt - var(rec.k) - 1):
                            return
                    elif not g.st.st.strict('ge', end - g.cur - 1):
                        return
                    g.env = dict(g.env)
                    g.env['iter'] = ('iter', self, rec, leaf)
                    for q in m.seq(self.item, g):
                        q.stop = True
                        yield q
                    return
        # no loop reads this table on this path
        if m.mode == 'ok':
            # possible only if there is nothing to read
            c = Lc('eq', cnt) if cnt is not None else Lc('eq', f.cur - end)
            if c.holds(m, f.st):
                yield f.bind(self.name, ('tab', self, None, None, None, const(0)))
                return
            m.fail(f, 'table', f'{self.what}: no loop of this path reads the table that starts here')
            return
        if cnt is not None:
            if not f.room(m, cnt.scale(self.minsize)):
                return
        yield f.w(stop=True)


class OptionIs(Node):
    """the table is read exactly if bytecode parsing is on"""

    def __init__(self, name):
        self.name = name

    def run(self, m, f):
        if m.mode == 'ok':
            m.count['option'] = m.count.get('option', 0) + 1
            on = m.option(f.st)
            if f.env[self.name] is None and on is not False:
                m.fail(f, 'option', 'code is accepted without decoded bytecode although bytecode parsing may be on')
            elif f.env[self.name] is not None and on is not True:
                m.fail(f, 'option', 'code is decoded although bytecode parsing may be off')
        yield f


class Slice(Node):
    """the ln bytes from position off on, read as a table of items from position 0 of a slice of their own; with optional,
    the table may also not be read at all"""

    def __init__(self, name, off, ln, item, value, what, optional=False):
        self.name, self.off, self.ln = name, off, ln
        self.tab = Tab(name, None, item, value, until=lambda m, f: off(m, f) + ln(m, f), what=what)
        self.optional = optional

    def run(self, m, f):
        g = f.w(cur=self.off(m, f), rel=self.off(m, f))
        if m.mode == 'ok' and self.optional and not any(True for i, e in g.trail() if e[0] == 'loop' and m.cursor_leaves(m.E.loops[e[1]], const(0))
                                                        and m.bind_loop(self.tab, m.E.loops[e[1]], m.cursor_leaves(m.E.loops[e[1]], const(0))[0], g)):
            yield f.bind(self.name, None)
            return
        if m.mode == 'err':
            e = g.cur + self.ln(m, f)
            if not g.room(m, e - g.cur):
                return
            g.lim = e
            if not any(m.bind_loop(self.tab, m.E.loops[x[1]], leaf, g) for _, x in g.trail() if x[0] in ('loop', 'in')
                       for leaf in m.cursor_leaves(m.E.loops[x[1]], const(0))):
                # not (yet) read on this path
                yield f.bind(self.name, None)
                return
        for r in self.tab.run(m, g):
            yield r if r.stop else r.w(cur=f.cur, rel=f.rel, lim=f.lim)


class Call(Node):
    """a recursive structure (non-terminal)"""

    def __init__(self, name, nt):
        self.name, self.nt = name, nt

    def run(self, m, f):
        for i, e in f.trail():
            if e[0] == 'rec':
                t = e[1]
                cs = [d for d in t.a[1] if isinstance(d, T) and d.tag == 'cur']
                if len(cs) == 1 and same(f.st, cs[0].a[0], f.cur):
                    if not m.bind_rec(self.nt, t, f):
                        continue
                    cur = var(atom(('rc', t, 0), 0, m.E.lenmax()))
                    g = f.bind(self.name, ('rec', self.nt, t), cur)
                    g.used = f.used | {i}
                    yield g
                    return
        # not a call on this path: read in place
        nodes, value = m.nts[self.nt]
        for r in m.seq(nodes, f):
            yield r if r.stop else r.w(env={**f.env, self.name: (value, r.env)})


# ------------------------------------------------------------------------------------------------ conditions
class Cond:
    def terms(self, m):
        """terms whose facts the condition depends on"""
        return ()


class Lc(Cond):
    """linear condition: lin >= 0 / == 0 / != 0"""

    def __init__(self, rel, lin):
        self.rel, self.lin = rel, lin

    def holds(self, m, st):
        if self.lin.isconst():
            c = self.lin.c
            return c >= 0 if self.rel == 'ge' else (c == 0) == (self.rel == 'eq')
        return st.st.decide(self.rel, self.lin) is True

    def assume(self, m, st):
        if self.lin.isconst():
            return self.holds(m, st)
        return st.st.strict(self.rel, self.lin)

    def __repr__(self):
        return f'{self.lin} {self.rel} 0'


class InSet(Cond):
    def __init__(self, lin, ivs):
        self.lin, self.ivs = lin, ivs

    def holds(self, m, st):
        d = st.st.ivset(self.lin)
        return iv_meet(d, self.ivs) == d

    def assume(self, m, st):
        return m.restrict(st, self.lin, self.ivs)

    def __repr__(self):
        return f'{self.lin} in {show_iv(self.ivs)}'


class Kind(Cond):
    """pool entry idx exists and is one of the kinds"""

    def __init__(self, idx, kinds):
        self.idx, self.kinds = idx, kinds

    def holds(self, m, st):
        return m.in_pool(st, self.idx) and m.kinds(st, self.idx) <= frozenset(self.kinds)

    def assume(self, m, st):
        s = st.st
        if not (s.strict('ge', self.idx - 1) and s.strict('ge', m.poolcount - 1 - self.idx)):
            return False
        t = m.entry(self.idx)
        try:
            m.E.touch(st, t)
            if not m.E.assume_var(st, t, frozenset(v for k in self.kinds for v in m.shape[k]['variants'])):
                return False
        except Infeasible:
            return False
        # the same entry under another name of its index
        mine = st.var.get(t)
        if mine is not None:
            for x in m.pool_terms(st):
                o = st.var.get(mkT('dr', x))
                if o is not None and not o & mine and same(st, x.a[1], self.idx):
                    return False
        return True

    def terms(self, m):
        return (m.entry(self.idx),)

    def __repr__(self):
        return f'pool entry {self.idx} is a {"/".join(self.kinds)}'


class Lang(Cond):
    """string sterm belongs to one of the languages"""

    def __init__(self, sterm, langs):
        self.s, self.langs = sterm, frozenset(langs)

    def holds(self, m, st):
        pos = None
        no = set()
        for l, b in m.spec.facts(m, st, self.s):
            if b:
                pos = l if pos is None else pos & l
            else:
                no |= l
        return pos is not None and pos - no <= self.langs

    def assume(self, m, st):
        ok = set(self.langs)
        for l, b in m.spec.facts(m, st, self.s):
            ok = ok & l if b else ok - l
        if not ok:
            return False
        st.pred[mkT('lang', self.s, tuple(sorted(self.langs)))] = True
        return True

    def terms(self, m):
        return (self.s,)

    def __repr__(self):
        return f'{m_show(self.s)} in {sorted(self.langs)}'


class Pred(Cond):
    def __init__(self, term, val=True):
        self.t, self.v = term, val

    def holds(self, m, st):
        return m.E.decide_term(st, self.t) == self.v

    def assume(self, m, st):
        return m.E.assume(st, mkT('ptm', self.t), self.v)

    def __repr__(self):
        return f'{m_show(self.t)} is {self.v}'


class AnyOf(Cond):
    """disjunction of conjunctions; guard-like: [(conds...), ...]"""

    def __init__(self, *alts):
        self.alts = alts

    def holds(self, m, st):
        return any(all(c.holds(m, st) for c in a) for a in self.alts)

    def assume(self, m, st):
        feas = []
        for a in self.alts:
            s = st.copy()
            if all(c.assume(m, s) for c in a):
                feas.append(a)
        if not feas:
            return False
        if len(feas) == 1:
            return all(c.assume(m, st) for c in feas[0])
        return True

    def __repr__(self):
        return ' or '.join('(' + ' and '.join(map(repr, a)) + ')' for a in self.alts)


class AfterLoop(Cond):
    """condition that holds after the loop, both when it ran no iteration and when it ran some"""

    def __init__(self, cond, rec, kx):
        self.cond, self.rec, self.kx = cond, rec, kx

    def holds(self, m, st):
        if self.cond.holds(m, st):
            return True
        s = st.copy()
        if s.st.strict('eq', self.kx) and m.at_entry(s, self.rec, self.kx) and not self.cond.holds(m, s):
            return False
        s = st.copy()
        if not s.st.strict('ge', self.kx - 1):
            return True
        for c in self.rec.post:
            if not s.st.strict('ge', subst(c, {self.rec.k: self.kx})):
                return True
        return self.cond.holds(m, s)

    def assume(self, m, st):
        return self.cond.assume(m, st)

    def __repr__(self):
        return repr(self.cond)


class Implies(Cond):
    """conds must hold wherever guard (list of conds with negation neg) holds"""

    def __init__(self, guard, conds):
        self.guard, self.conds = guard, conds

    def holds(self, m, st):
        s = st.copy()
        if not all(g.assume(m, s) for g in self.guard):
            return True
        return all(c.holds(m, s) for c in self.conds)

    def assume(self, m, st):
        if all(g.holds(m, st) for g in self.guard):
            return all(c.assume(m, st) for c in self.conds)
        return True

    def terms(self, m):
        return tuple(t for c in self.guard + self.conds if not isinstance(c, ParsedIs) for t in c.terms(m))

    def __repr__(self):
        return f'{self.guard} implies {self.conds}'


_marks = {}


def marks(x):
    """the pool-element and string-function subterms of x"""
    r = _marks.get(x)
    if r is None:
        acc = set()
        subterms(x, acc)
        r = _marks[x] = tuple(sorted((t for t in acc if t.tag in ('el', 'F')), key=lambda t: t.n))
    return r


def m_show(t):
    return str(t)[:160]


def same(st, a, b):
    return a is b or (isinstance(a, Lin) and isinstance(b, Lin) and ((a - b).isconst() and (a - b).c == 0 or st.st.eq0(a - b)))


def iv_minus(a, b):
    out = []
    for lo, hi in a:
        cur = lo
        for x, y in sorted(b):
            if y < cur or x > hi:
                continue
            if x > cur:
                out.append((cur, x - 1))
            cur = max(cur, y + 1)
            if cur > hi:
                break
        if cur <= hi:
            out.append((cur, hi))
    return tuple(out)


def show_iv(ivs):
    return ', '.join(str(a) if a == b else f'{a}..{b}' for a, b in ivs)


# ------------------------------------------------------------------------------------------------ the constant pool
class PoolTab(Node):
    """the constant pool: spec = {tag: (kind, [(field, width)], condition or None)}; two-slot kinds in wide"""

    def __init__(self, count, spec, wide):
        self.count, self.spec, self.wide = count, spec, wide
        self.what = 'constant pool'
        self.value = None

        def known(m, f):
            return [InSet(f.env['tag'], tuple((t, t) for t in sorted(self.spec)))]

        self.item = [U('tag', 1), Alt('entry', lambda m, f: f.env['tag'], [((t, t), nodes, kind) for t, (kind, nodes) in sorted(spec.items())],
                                      'pool', 'tag of a constant pool entry')]

    def run(self, m, f):
        E = m.E
        cnt = self.count(m, f)
        for i, e in f.trail():
            if e[0] not in ('loop', 'in'):
                continue
            rec = E.loops[e[1]]
            for leaf in m.cursor_leaves(rec, f.cur):
                if m.mode == 'ok' and m.shape is None:
                    r = m.bind_loop(self, rec, leaf, f)
                    if r is None:
                        continue
                    m.pool_shape(self, rec, r, f)
                elif m.poolloop != (rec.id, leaf):
                    continue
                if m.shape is None:
                    continue
                m.poolloop = (rec.id, leaf)
                if e[0] == 'loop':
                    kx = e[2]
                    g = f.bind('pool', rec, subst(rec.gvals[leaf], {rec.k: kx}))
                    g.used = f.used | {i}
                    m.pool = subst(m.poollist, {rec.k: kx})
                    m.poolcount = E.list_len(m.pool)
                    c = AfterLoop(Implies([Lc('ge', cnt - 1)], [Lc('eq', m.poolcount - cnt)]), rec, kx)
                    if m.mode == 'ok':
                        m.need(g, c, 'pool', 'the constant pool has one entry per index below the declared count')
                        yield g
                        return
                    pl, pc = m.pool, m.poolcount
                    if not g.st.st.strict('ge', cnt - 1):
                        return
                    if c.holds(m, g.st):
                        yield g
                        return
                    done = g.w(st=g.st.copy())
                    if c.assume(m, done.st):
                        yield done
                        m.pool, m.poolcount = pl, pc
                    yield from self.partial(m, f.w(cur=g.cur, base=i + 1, used=frozenset()), cnt)
                    return
                g = f.w(cur=rec.gvals[leaf], base=i + 1, used=frozenset())
                m.pool = m.poollist
                m.poolcount = E.list_len(m.pool)
                yield from self.partial(m, g, cnt)
                return
        if m.mode == 'ok':
            m.fail(f, 'pool', 'no loop of this path reads the constant pool')
            return
        yield f.w(stop=True)

    def partial(self, m, g, cnt):
        if not g.st.st.strict('ge', cnt - m.poolcount - 1):
            return
        for q in m.seq(self.item, g):
            k = q.env.get('entry')
            if k is not None and k[0] in self.wide and not q.st.st.strict('ge', cnt - m.poolcount - 2):
                continue
            yield q.w(stop=True)


class ForAllPool(Node):
    """conditions on every constant pool entry of a kind: {kind: fn(m, f, idx) -> [(cond, tag, what)]}"""

    def __init__(self, rules):
        self.rules = rules

    def run(self, m, f):
        if m.mode == 'ok':
            m.ctx.append('constant pool entries')
            for kind in sorted(self.rules):
                if kind not in m.shape:
                    continue
                s = f.st.copy()
                g = var(atom(('generic', kind), 1, 65535))
                if not s.st.strict('ge', m.poolcount - 1 - g):
                    continue
                fr = f.w(st=s)
                try:
                    if not Kind(g, (kind,)).assume(m, s):
                        continue
                except Infeasible:
                    continue
                for fr2, conds in self.rules[kind](m, fr, g):
                    for c, tag, what in conds:
                        m.need(fr2, c, tag, f'{kind} entry: {what}')
            m.ctx.pop()
            yield f
            return
        # every entry the facts speak about
        done = set()
        frames = [f]
        for _ in range(6):
            todo = []
            for t in m.pool_terms(f.st):
                if t not in done:
                    todo.append(t)
            if not todo:
                break
            for t in todo:
                done.add(t)
                nxt = []
                for fr in frames:
                    if not m.in_pool(fr.st, t.a[1]):
                        nxt.append(fr)
                        continue
                    ks = m.kinds(fr.st, t.a[1])
                    ok = [fr]
                    if len(ks) == 1:
                        k = next(iter(ks))
                        if k in self.rules:
                            ok = []
                            for fr2, conds in self.rules[k](m, fr, t.a[1]):
                                if all(c.assume(m, fr2.st) for c, _, _ in conds):
                                    ok.append(fr2)
                    elif not ks:
                        ok = []
                    nxt.extend(ok)
                frames = nxt
            if not frames:
                return
        yield from frames


class KAlt(Node):
    """selection on the kind of a pool entry: cases [(kinds, nodes, value)]"""

    def __init__(self, name, idx, cases, what):
        self.name, self.idx, self.cases, self.what = name, idx, cases, what

    def run(self, m, f):
        i = self.idx(m, f)
        allk = [k for ks, _, _ in self.cases for k in ks]
        if m.mode == 'ok':
            if not m.need(f, Kind(i, allk), 'ref', f'{self.what}: the entry named exists and has a permitted kind'):
                return
        elif not Kind(i, allk).assume(m, f.st):
            return
        have = m.kinds(f.st, i)
        for ks, nodes, val in self.cases:
            if not have & frozenset(ks):
                continue
            for k in ks:
                if k not in have:
                    continue
                g = f
                if len(have) > 1:
                    s = f.st.copy()
                    if not Kind(i, (k,)).assume(m, s):
                        continue
                    g = f.w(st=s)
                if m.mode == 'err':
                    g = g.bind('kind chosen', (self.what, k))
                for r in m.seq(nodes, g):
                    yield r if r.stop else r.bind(self.name, (val, r.env))


class OptRef(Node):
    """optional reference: index zero stands for nothing"""

    def __init__(self, name, idx, nodes, value, what):
        self.name, self.idx, self.nodes, self.value, self.what = name, idx, nodes, value, what

    def run(self, m, f):
        i = self.idx(m, f)
        z = f.st.copy()
        if z.st.strict('eq', i) and (m.mode == 'ok' or m.poolcount is None or z.st.strict('ge', m.poolcount - 1 - i)):
            if m.live(z, i):
                yield f.w(st=z).bind(self.name, (NoneP(), f.env))
        n = f.st.copy()
        if n.st.strict('ge', i - 1) and m.live(n, i):
            for r in m.seq(self.nodes, f.w(st=n)):
                yield r if r.stop else r.bind(self.name, (SomeP(self.value), r.env))


class Unique(Cond):
    """the combination of values (patterns) has not occurred in an earlier item of the table"""

    def __init__(self, pats, f):
        self.pats, self.f = pats, f

    def find(self, m, st):
        for t, b in st.pred.items():
            if t.tag == 'setnew':
                k = t.a[1]
                xs = list(k.a[0]) if k.tag == 'tup' else [k]
                if len(xs) == len(self.pats) and m.matches([(p, x) for p, x in zip(self.pats, xs)], self.f.w(st=st)):
                    yield t, b

    def holds(self, m, st):
        it = self.f.env.get('iter')
        for t, b in self.find(m, st):
            if b is not True or it is None:
                continue
            if m.set_is_history(it[2], t.a[0]):
                return True
        return False

    def assume(self, m, st):
        for t, b in self.find(m, st):
            if b is not True:
                return False
        return True

    def __repr__(self):
        return 'not a duplicate'


class ParsedIs(Cond):
    """a fact about the parsed form of a descriptor: the return type is (not) void / there are no parameters"""

    def __init__(self, text, kind, what):
        self.s, self.kind, self.what = text, kind, what

    def terms(self, m, st):
        seen = set()
        for d in (st.var, st.pred):
            for t in d:
                for x in marks(t):
                    if x.tag == 'F' and x.a[1] and x.a[1][0] is self.s and x not in seen:
                        seen.add(x)
                        if m.parsed_kind(x) == self.kind:
                            yield x

    def value(self, m, st):
        for x in self.terms(m, st):
            r = m.spec.parsed_fact(m, st, x, self.what)
            if r is not None:
                return r
        return None

    def holds(self, m, st):
        return self.value(m, st) is True

    def assume(self, m, st):
        return self.value(m, st) is not False

    def __repr__(self):
        return f'{self.what} descriptor'


# ------------------------------------------------------------------------------------------------ values
class Pat:
    tag = 'value'

    def bad(self, m, f, v, what, exp):
        m.fail(f, self.tag, f'{what}: the value is not {exp} (found {m.show(v)})')
        return False


class I(Pat):
    """unsigned integer: name bound by the walk, or function"""
    tag = 'intvalue'

    def __init__(self, x):
        self.x = x

    def lin(self, m, f):
        return self.x(m, f) if callable(self.x) else f.env[self.x]

    def cmp(self, m, f, v, what):
        e = self.lin(m, f)
        if not isinstance(e, Lin):
            e = const(e)
        v = m.unint(v)
        if not (isinstance(v, Lin) and same(f.st, v, e)):
            self.bad(m, f, v, what, f'{self.x if isinstance(self.x, str) else str(e)[:120]} as read')


class Sg(I):
    """signed integer of the given number of bits"""

    def __init__(self, x, bits):
        self.x, self.bits = x, bits

    def cmp(self, m, f, v, what):
        e = self.lin(m, f)
        v = m.unint(v)
        lo, hi = f.st.st.interval(e)
        half = 1 << (self.bits - 1)
        if isinstance(v, Lin):
            w = var(atom(('wrap', self.bits, True, e), -half, half - 1))
            if same(f.st, v, w):
                return
            if hi < half or f.st.st.ge0(-e + (half - 1)):
                if same(f.st, v, e):
                    return
            elif f.st.st.ge0(e - half) and same(f.st, v, e - 2 * half):
                return
        self.bad(m, f, v, what, f'the signed {self.bits}-bit integer {self.x if isinstance(self.x, str) else ""} as read')


class Fl(I):
    def __init__(self, x, bits):
        self.x, self.bits = x, bits

    def cmp(self, m, f, v, what):
        e = self.lin(m, f)
        if not (isinstance(v, T) and v.tag == 'fbits' and v.a[0] == self.bits and same(f.st, v.a[1], e)):
            self.bad(m, f, v, what, f'the {self.bits}-bit floating point value with the bits read')


class PoolVal(Pat):
    """contents of a field of a pool entry"""
    tag = 'refvalue'

    def __init__(self, idx, kind, field):
        self.idx, self.kind, self.field = idx, kind, field

    def cmp(self, m, f, v, what):
        i = self.idx(m, f)
        want = m.ptm(i, self.kind, self.field)
        if not m.isterm(f.st, v, want):
            self.bad(m, f, v, what, f'the {self.field} of the {self.kind} entry named')


def Txt(idx):
    return PoolVal(idx, 'Utf8', 'text')


class Flags(I):
    """flag word restricted to the mask"""
    tag = 'flag'

    def __init__(self, x, mask):
        self.x, self.mask = x, mask

    def cmp(self, m, f, v, what):
        e = self.lin(m, f)
        v = m.unint(v)
        if not isinstance(v, Lin):
            return self.bad(m, f, v, what, 'a flag word')
        w = m.bitand(f.st, e, self.mask)
        if same(f.st, v, w):
            return
        if m.masked(f.st, v, e, self.mask):
            return
        self.bad(m, f, v, what, f'{self.x} restricted to the bits 0x{self.mask:04x}')


class S(Pat):
    """struct"""

    def __init__(self, ty, **fields):
        self.ty, self.fields = ty, fields

    def cmp(self, m, f, v, what):
        v = m.adt(f.st, v)
        if not (isinstance(v, T) and v.tag == 'adt' and m.tyname(v.a[0]) == self.ty):
            return self.bad(m, f, v, what, f'a {self.ty}')
        m.cmp_fields(self.fields, f, v, f'{what}.', v.a[1])


class V(Pat):
    """enum variant; positional patterns in args"""

    def __init__(self, variant, *args, **fields):
        self.variant, self.fields = variant, fields
        for i, a in enumerate(args):
            self.fields[str(i)] = a

    def cmp(self, m, f, v, what):
        v = m.adt(f.st, v)
        n = m.vname(v) if isinstance(v, T) and v.tag == 'adt' else None
        if n != self.variant:
            return self.bad(m, f, v, what, f'{self.variant}')
        m.cmp_fields(self.fields, f, v, f'{what}::{self.variant}.', v.a[1])


class NoneP(Pat):
    tag = 'refvalue'

    def cmp(self, m, f, v, what):
        v = m.adt(f.st, v)
        if not (isinstance(v, T) and v.tag == 'adt' and m.vname(v) == 'None'):
            self.bad(m, f, v, what, 'absent')


class SomeP(Pat):
    def __init__(self, p):
        self.p = p

    def cmp(self, m, f, v, what):
        v = m.adt(f.st, v)
        if not (isinstance(v, T) and v.tag == 'adt' and m.vname(v) == 'Some'):
            return self.bad(m, f, v, what, 'present')
        self.p.cmp(m, f, v.a[2][0], what)


class Tup(Pat):
    def __init__(self, *ps):
        self.ps = ps

    def cmp(self, m, f, v, what):
        if not (isinstance(v, T) and v.tag == 'tup' and len(v.a[0]) == len(self.ps)):
            return self.bad(m, f, v, what, 'a tuple')
        for i, (p, x) in enumerate(zip(self.ps, v.a[0])):
            p.cmp(m, f, x, f'{what}.{i}')


class AV(Pat):
    """the value of the alternative that applied"""

    def __init__(self, name):
        self.name = name

    def cmp(self, m, f, v, what):
        b = f.env.get(self.name)
        if b is None:
            return
        p, env = b
        if p is None:
            return
        if isinstance(p, tuple) or not hasattr(p, 'cmp'):
            return m.fail(f, 'value', f'{what}: no value described')
        p.cmp(m, f.w(env=env), v, what)


class ListOf(Pat):
    """the items of a table, in order, each with the table's value pattern; or conv(item pattern)"""

    def __init__(self, name):
        self.name = name

    def cmp(self, m, f, v, what):
        b = f.env[self.name]
        if isinstance(b, tuple) and b and b[0] == 'tab':
            _, tab, rec, res, leaf, kx = b
            m.cmp_list(f, v, tab, rec, res, kx, what)
            return
        m.fail(f, 'value', f'{what}: not a table')


class CallV(Pat):
    """the value of a recursive structure"""

    def __init__(self, name):
        self.name = name

    def cmp(self, m, f, v, what):
        b = f.env[self.name]
        if b[0] == 'rec':
            t = b[2]
            if isinstance(v, T) and v.tag == 'sym' and v.a[0] is t:
                return
            if isinstance(v, T) and v.tag == 'list' and len(v.a[0]) == 1 and v.a[0][0].tag == 'symseg' and v.a[0][0].a[0] is t:
                return
            r = m.rebuilt(v)
            if r is t:
                return
            return self.bad(m, f, v, what, f'the {b[1]} read here')
        p, env = b
        p.cmp(m, f.w(env=env), v, what)


class Raw(Pat):
    """the raw bytes of a blob, borrowed from the input"""
    tag = 'rawvalue'

    def __init__(self, name):
        self.name = name

    def cmp(self, m, f, v, what):
        _, off, n = f.env[self.name]
        while isinstance(v, T) and v.tag == 'rv':
            v = v.a[0]
        if not (isinstance(v, T) and v.tag == 'sl' and v.a[0] is m.base and same(f.st, v.a[1], off) and same(f.st, v.a[2], n)):
            self.bad(m, f, v, what, 'exactly these bytes of the input')


class Cesu(Pat):
    """the text a blob of modified UTF-8 denotes"""
    tag = 'textvalue'

    def __init__(self, name):
        self.name = name

    def cmp(self, m, f, v, what):
        _, off, n = f.env[self.name]
        if not m.iscesu(f.st, v, off, n):
            self.bad(m, f, v, what, 'the text of exactly these bytes')


class Parsed(Pat):
    """the parsed form of the text of a pool entry"""
    tag = 'descvalue'

    def __init__(self, kind, idx):
        self.kind, self.idx = kind, idx

    def cmp(self, m, f, v, what):
        t = m.ptm(self.idx(m, f), 'Utf8', 'text')
        cand = [x for x in marks(v) if x.tag == 'F'] if isinstance(v, (T, Lin)) else []
        if not cand:
            cand = [x for d in (f.st.var, f.st.pred) for y in d for x in marks(y) if x.tag == 'F']
        for x in dict.fromkeys(cand):
            if x.a[1] and m.eqterm(f.st, x.a[1][0], t) and m.parsed_kind(x) == self.kind:
                r = mkT('pj', x, 0, 0)
                if m.copyof(f.st, v, r) or self.kind == 'array' and m.copyof(f.st, v, mkT('pj', r, 1, 0)):
                    return
        self.bad(m, f, v, what, f'the parsed {self.kind} of the entry named')


class Any(Pat):
    def cmp(self, m, f, v, what):
        pass


class FnP(Pat):
    """pattern computed from the frame"""

    def __init__(self, fn):
        self.fn = fn

    def cmp(self, m, f, v, what):
        self.fn(m, f).cmp(m, f, v, what)


def m_sub(x, d):
    return subst(x, d)


# ------------------------------------------------------------------------------------------------ matcher
class Matcher:
    def __init__(self, A, spec):
        self.A, self.E, self.P = A, A.E, A.P
        self.spec = spec
        self.nts = spec.NTS
        self.mode = 'ok'
        self.fails = []          # (tags, msg, where)
        self.failset = set()
        self.count = {}          # tag -> conditions checked
        self.loopbind = {}       # (lid, id(Tab)) -> per-back frames or None
        self.recbind = {}        # fid -> nt
        self.rectodo = []
        self.shape = None
        self.pool = None
        self.poolcount = None
        self.curfn = None
        self.ctx = []
        self.nomatch = None
        a0 = A.args[0]
        self.base, self.len = a0.a[0], a0.a[2]
        self.langmemo = {}
        self.poolloop = self.poollist = self.poolleaf = self.vkind = None
        self.listdone = set()
        self.optterm, self.opton = A.option()

    # ---------------------------------------------------------- helpers
    def option(self, st):
        """is bytecode parsing on?  None if the path does not say"""
        t = self.optterm
        if t is None:
            return None
        try:
            b = self.E.decide_term(st, t)
        except Infeasible:
            return None
        return b if b is None or self.opton else not b

    def be(self, cur, n):
        r = const(0)
        for i in range(n):
            r = r.scale(256) + var(atom(('b', self.base, cur + i), 0, 255))
        return r

    def where(self, f=None):
        return ' > '.join(self.ctx)

    def fail(self, f, tag, msg):
        opt = self.option(f.st) if f is not None else None
        key = (tag, msg, tuple(self.ctx[-2:]), opt)
        if self.mode == 'probe':
            self.probe.append((tag, msg))
            return
        if key in self.failset:
            return
        self.failset.add(key)
        self.fails.append((tag, msg, self.where(f), self.curfn, opt))

    def need(self, f, cond, tag, what):
        self.count[tag] = self.count.get(tag, 0) + 1
        try:
            ok = cond.holds(self, f.st)
        except Infeasible:
            ok = True
        if not ok:
            ok = self.by_cases(f.st, cond)
        if not ok:
            self.fail(f, tag, f'{what} [not established: {str(cond)[:300]}]')
        return ok

    def by_cases(self, st, cond, depth=4, budget=None):
        """the condition holds in each of the cases the facts about the pool entries involved leave open"""
        if budget is None:
            budget = [80]
        seen = set()
        todo = [e for t in cond.terms(self) for e in els_of(t)]
        for e in sorted(todo, key=lambda t: t.n):
            if e in seen:
                continue
            seen.add(e)
            try:
                inst = list(self.E.instances(st, e))
            except Infeasible:
                return True
            for sc, dis in inst:
                if len(dis) < 2 or len(dis) > 24:
                    continue
                if depth == 0 or budget[0] <= 0:
                    return False
                new = False
                cases = []
                for d in dis:
                    s = st.copy()
                    try:
                        if not self.add_case(s, e, d):
                            new = True
                            continue
                    except Infeasible:
                        new = True
                        continue
                    if s.var != st.var or s.pred != st.pred or s.st.con != st.st.con:
                        new = True
                    cases.append(s)
                if not new:
                    continue
                budget[0] -= len(cases)
                return all(self.case_holds(s, cond) or self.by_cases(s, cond, depth - 1, budget) for s in cases)
        return False

    def case_holds(self, s, cond):
        try:
            return cond.holds(self, s)
        except Infeasible:
            return True

    def add_case(self, s, e, d):
        E = self.E
        for t, vs in d.var.items():
            o = s.var.get(t)
            n = vs if o is None else o & vs
            if not n:
                return False
            s.var[t] = n
        for t, b in d.pred.items():
            o = E.decide_term(s, t)
            if o is not None and o != b:
                return False
            s.pred[t] = b
        for l, iv in d.con.items():
            if iv[0][0] != -INF and not s.st.strict('ge', l - iv[0][0]):
                return False
            if iv[-1][1] != INF and not s.st.strict('ge', -l + iv[-1][1]):
                return False
        for t in list(d.var) + list(d.pred):
            if not E.propagate(s, t):
                return False
        return True

    def seq(self, nodes, f):
        if not nodes:
            yield f
            return
        for r in nodes[0].run(self, f):
            if r.stop:
                yield r
            else:
                yield from self.seq(nodes[1:], r)

    def restrict(self, st, x, ivs):
        if x.isconst():
            return bool(iv_meet(((x.c, x.c),), tuple(ivs)))
        d = iv_meet(st.st.ivset(x), tuple(ivs))
        if not d:
            return False
        lo, hi = d[0][0], d[-1][1]
        if lo != -INF and not st.st.strict('ge', x - lo):
            return False
        if hi != INF and not st.st.strict('ge', -x + hi):
            return False
        for (a, b), (c, e) in zip(d, d[1:]):
            for v in range(b + 1, min(c, b + 300)):
                if not st.st.strict('ne', x - v):
                    return False
        return True

    def feasible_iv(self, st, x, iv):
        s = st.copy()
        return self.restrict(s, x, (iv,))

    # ---------------------------------------------------------- pool
    def entry(self, idx):
        return mkT('dr', mkT('el', self.pool, idx))

    def in_pool(self, st, idx):
        return st.st.ge0(idx - 1) and st.st.ge0(self.poolcount - 1 - idx)

    def kinds(self, st, idx):
        t = self.entry(idx)
        try:
            self.E.touch(st, t)
        except Infeasible:
            return frozenset()
        vs = st.var.get(t)
        if vs is None:
            return frozenset(('?',))
        ks = set()
        for v in vs:
            ks.add(self.vkind.get(v, '?%d' % v))
        return frozenset(ks)

    def pe(self, idx, kind, field):
        """integer stored in a field of a pool entry (given its kind)"""
        path = self.shape[kind]['fields'].get(field)
        if path is None:            # reported where the entries are read
            return self.E.fresh_int(0, 65535)
        return var(atom(('sy', self.path(mkT('el', self.pool, idx), path)), 0, (1 << (8 * self.shape[kind]['w'][field])) - 1))

    def path(self, t, path):
        for p in path:
            if p[0] == 'pj':
                t = mkT('pj', t, p[1], p[2])
            else:
                t = mkT(p[0], t)
        return t

    def ptm(self, idx, kind, field):
        path = self.shape[kind]['fields'].get(field)
        if path is None:
            return self.E.fresh('unknown item')
        return self.path(mkT('el', self.pool, idx), path)

    def text(self, idx):
        return self.ptm(idx, 'Utf8', 'text')

    # ---------------------------------------------------------- loops and recursive functions
    def cursor_leaves(self, rec, cur):
        out = []
        if rec.backs is None:
            return out
        for leaf, kind in rec.gen.items():
            if kind[0] not in ('lin', 'gen'):
                continue
            g = rec.gvals[leaf]
            if not isinstance(g, Lin):
                continue
            try:
                ev = self.E.get_path_v(rec.entry, leaf)
            except (KeyError, AnalysisError, Split, Infeasible):
                continue
            if isinstance(ev, Lin) and same(rec.entry, ev, cur):
                out.append(leaf)
        return out

    def bind_loop(self, tab, rec, leaf, f):
        """match every iteration of the loop with the table's item; memoised; None if it is not this table"""
        key = (rec.id, id(tab), leaf)
        if key in self.loopbind:
            return self.loopbind[key]
        mode, fails, fs, cnt = self.mode, self.fails, self.failset, dict(self.count)
        self.mode = 'ok'
        self.fails, self.failset = [], set()
        self.ctx.append(f'{tab.what}[] in {rec.fn.npath.split("::", 1)[-1]}')
        sf = self.curfn
        self.curfn = (rec.fn, rec.header)
        res = []
        # a loop whose iterations do not end where the items end is another loop (unless nothing matches)
        good = 0
        self.loopbind[key] = None
        for b in rec.backs:
            g = Frame(dict(f.env), rec.gvals[leaf] + f.rel, b.state.copy(), len(rec.entry.trail) + 1, rel=f.rel)
            g.env['iter'] = ('iter', tab, rec, leaf)
            fr = []
            for r in self.seq(tab.item, g):
                nx = b.next[leaf]
                if same(r.st, nx, r.cur - f.rel):
                    good += 1
                else:
                    self.fail(r, 'pos', f'{tab.what}: an item does not end where the format says (next position {str(nx)[-120:]}, expected {str(r.cur)[-120:]})')
                fr.append(r)
            res.append((b, fr))
        self.ctx.pop()
        self.curfn = sf
        mine, self.fails, self.failset = self.fails, fails, fs
        self.mode = mode
        if good == 0 and any(x[0] == 'pos' for x in mine):
            self.count = cnt
            del self.loopbind[key]
            return None
        for x in mine:
            k = (x[0], x[1], x[2], x[4])
            if k not in self.failset:
                self.failset.add(k)
                self.fails.append(x)
        self.loopbind[key] = res
        return res

    def bind_rec(self, nt, t, f):
        fid = t.a[0]
        have = self.recbind.get(fid)
        if have is not None:
            return have == nt
        g = self.E.recres.get(fid)
        if g is None:
            return False
        if self.mode == 'err':
            return False
        self.recbind[fid] = nt
        self.rectodo.append((fid, nt))
        return True

    def run_recs(self):
        while self.rectodo:
            fid, nt = self.rectodo.pop()
            self.match_rec(fid, nt)

    def at_entry(self, s, rec, kx):
        """no iteration has run: everything the loop changes still has its first value"""
        for leaf, g in rec.gvals.items():
            if isinstance(g, Lin):
                ev = self.E.get_path_v(rec.entry, leaf)
                if isinstance(ev, Lin) and not s.st.strict('eq', subst(g, {rec.k: kx}) - ev):
                    return False
            elif isinstance(g, T) and g.tag == 'list':
                ev = self.E.get_path_v(rec.entry, leaf)
                if isinstance(ev, T) and ev.tag == 'list' and not s.st.strict('eq', self.E.list_len(subst(g, {rec.k: kx})) - self.E.list_len(ev)):
                    return False
        return True

    def match_rec(self, fid, nt):
        g = self.E.recres[fid]
        fn = self.P.fns[fid]
        nodes, value = self.nts[nt]
        self.ctx = [nt]
        self.curfn = (fn, 0)
        for st, v in g.outs:
            if self.E.is_err(v):
                continue
            ok = v.a[2][0] if isinstance(v, T) and v.tag == 'adt' and self.E.tname(v.a[0]).endswith('Result') else v
            f = Frame({}, g.cur, st.copy(), len(g.entry.trail))
            n = 0
            for r in self.seq(nodes, f):
                n += 1
                end = st.mem[g.curroot]
                self.need(r, Lc('eq', end - r.cur), 'pos', f'{nt}: reading ends where the format says')
                self.cmp(value, r, ok, nt)

    # ---------------------------------------------------------- values
    def cmp(self, pat, f, v, what):
        """report every difference between the described value and the actual one"""
        self.count['value'] = self.count.get('value', 0) + 1
        pat.cmp(self, f, v, what)

    def strip(self, st, v):
        while isinstance(v, T) and v.tag in ('rv',):
            v = v.a[0]
        if isinstance(v, T) and v.tag == 'sym' and st.var.get(v.a[0]) is not None and len(st.var[v.a[0]]) == 1:
            pass
        return v


    # ---------------------------------------------------------- pool shape
    def pool_terms(self, st):
        out = set()
        for d in (st.var, st.pred):
            for t in d:
                for x in marks(t):
                    if x.tag == 'el' and x.a[0] is self.pool:
                        out.add(x)
        for x in st.touched:
            if x.a[0] is self.pool:
                out.add(x)
        return sorted(out, key=lambda t: t.n)

    def pool_shape(self, tab, rec, res, f):
        """how the entries of each kind are represented: from the values pushed by the iterations that read them"""
        E = self.E
        leafs = [lf for lf in (res[0][0].pushes if res else {}) if all(lf in b.pushes for b, _ in res)]
        if not leafs:
            return
        leaf = leafs[0]
        shape, vkind = {}, {}
        self.ctx.append('constant pool')
        for b, frames in res:
            vals = b.pushes[leaf]
            for r in frames:
                kind = r.env['entry'][0]
                env = r.env['entry'][1]
                want = 2 if kind in tab.wide else 1
                if len(vals) != want:
                    self.fail(r, 'pool', f'an entry of kind {kind} occupies {len(vals)} indices instead of {want}')
                    continue
                spec = tab.fields[kind]
                v, path = self.unbox(vals[0])
                vi = v.a[1]
                k2 = kind
                sub = {}
                pred = None
                if kind == 'Utf8':
                    k2 = self.utf8_kind(r, v, env)
                    if k2 is None:
                        continue
                    spec = [('text', None)] if k2 == 'Utf8' else [('raw', None)]
                if vkind.setdefault(vi, k2) != k2:
                    self.fail(r, 'pool', f'entries of kind {k2} and of kind {vkind[vi]} are represented alike')
                    continue
                sh = shape.setdefault(k2, {'variants': set(), 'fields': {}, 'w': {}, 'ty': v.a[0]})
                sh['variants'].add(vi)
                for fld, exp in spec:
                    if k2 in ('Utf8', 'Utf8Raw'):
                        p = ((('pj', vi, 0),))
                        ps = [(p, None)]
                    else:
                        ps = [(p, x) for p, x in self.leaves(v, vi) if exp.same(self, r.w(env=env), x)]
                    if k2 not in ('Utf8', 'Utf8Raw'):
                        have = sh['fields'].get(fld)
                        if have is not None:
                            ps = [(p, x) for p, x in ps if path + p == have]
                    if not ps:
                        self.fail(r, 'poolvalue' if fld == 'value' else 'poolref', f'{kind} entry: no part of the entry holds the item {fld} as the format defines it (found {self.show(v)})')
                        continue
                    # two items with the same expected value cannot occur (they are read from different bytes)
                    sh['fields'][fld] = path + ps[0][0]
                    sh['w'][fld] = exp.w if exp is not None else None
                if want == 2:
                    u, _ = self.unbox(vals[1])
                    if u.a[2] or vkind.setdefault(u.a[1], 'Unused') != 'Unused':
                        self.fail(r, 'pool', f'the second index of a {kind} is not unusable')
        self.ctx.pop()
        # what precedes the loop: entry 0
        head = self.poolhead(rec, leaf)
        if head is None:
            self.fail(f, 'pool', 'the list of constant pool entries is not built by the loop that reads them')
            return
        self.poollist = head
        segs = head.a[0]
        if not (len(segs) == 2 and segs[0].tag == 'items' and len(segs[0].a[0]) == 1):
            self.fail(f, 'pool', 'the first constant pool entry read does not have index 1')
            return
        z, zp = self.unbox(segs[0].a[0][0])
        if z.a[2] or vkind.get(z.a[1]):
            self.fail(f, 'pool', 'index 0 of the constant pool is indistinguishable from an entry')
            return
        vkind[z.a[1]] = 'Zero'
        shape['Zero'] = {'variants': {z.a[1]}, 'fields': {}, 'w': {}, 'ty': z.a[0]}
        for kk in set(vkind.values()) - set(shape):
            shape[kk] = {'variants': {v for v, q in vkind.items() if q == kk}, 'fields': {}, 'w': {}, 'ty': z.a[0]}
        self.poolty = z.a[0]
        self.poolleaf = leaf
        self.shape, self.vkind = shape, vkind
        for k in [k for k, _ in tab.spec.values()]:
            if k not in shape:
                self.fail(f, 'pool', f'no iteration reads entries of kind {k}')
                shape[k] = {'variants': set(), 'fields': {}, 'w': {}, 'ty': z.a[0]}

    def poolhead(self, rec, leaf):
        """the list value at the loop head"""
        for lf, kind in rec.gen.items():
            g = rec.gvals.get(lf)
            if isinstance(g, T) and g.tag == 'list':
                for sg in g.a[0]:
                    if sg.tag == 'lseg' and sg.a[0] == rec.id and sg.a[1] is leaf:
                        return g
        return None

    def unbox(self, v):
        """strip one-field wrappers (shared pointers) around an entry"""
        path = ()
        while isinstance(v, T) and v.tag == 'adt' and len(v.a[2]) == 1 and self.E.nvariants(v.a[0]) == 1:
            v = v.a[2][0]
            path = path + (('dr',),)
        return v, path

    def leaves(self, v, vi, pre=()):
        """(path, leaf value) of the fields of a variant"""
        for i, x in enumerate(v.a[2]):
            yield from self.leaf1(x, pre + (('pj', vi, i),))

    def leaf1(self, x, path):
        yield path, x
        if isinstance(x, T) and x.tag == 'adt':
            n = self.E.tname(x.a[0])
            if n.endswith('RefCell') or n.endswith('Mutex') or n.endswith('Cell') or n.endswith('RwLock'):
                for y in x.a[2]:
                    yield from self.leaf1(y, path + (('cc',),))
            else:
                for i, y in enumerate(x.a[2]):
                    yield from self.leaf1(y, path + (('pj', x.a[1], i),))

    def utf8_kind(self, r, v, env):
        _, off, n = env['text']
        if len(v.a[2]) != 1:
            self.fail(r, 'pool', f'Utf8 entry: unexpected form {self.show(v)}')
            return None
        x = v.a[2][0]
        good = self.iscesu(r.st, x, off, n)
        raw = isinstance(x, T) and x.tag == 'sl'
        ok = self.cesu_known(r.st, off, n)
        if good:
            return 'Utf8'
        if raw:
            if not (x.a[0] is self.base and same(r.st, x.a[1], off) and same(r.st, x.a[2], n)):
                self.fail(r, 'rawvalue', 'Utf8 entry: the raw bytes kept are not exactly the bytes of the entry')
            if ok is not False:
                self.fail(r, 'rawvalue', 'Utf8 entry: kept as raw bytes although it may decode as modified UTF-8')
            return 'Utf8Raw'
        self.fail(r, 'textvalue', f'Utf8 entry: neither its decoded text nor its raw bytes are kept (found {self.show(x)})')
        return None

    def iscesu(self, st, v, off, n):
        while isinstance(v, T) and v.tag in ('rv', 'sym'):
            v = v.a[0]
        if not (isinstance(v, T) and v.tag == 'cesu' and v.a[0] == 'cesu8::from_java_cesu8'):
            return False
        b = v.a[1]
        return isinstance(b, T) and b.tag == 'bytes' and b.a[0] is self.base and same(st, b.a[1], off) and same(st, b.a[2], n)

    def cesu_known(self, st, off, n):
        for t, b in st.pred.items():
            if t.tag == 'cesu_ok':
                x = t.a[-1]
                if isinstance(x, T) and x.tag == 'bytes' and x.a[0] is self.base and same(st, x.a[1], off) and same(st, x.a[2], n):
                    return b
        return None

    # ---------------------------------------------------------- values
    def show(self, v):
        s = str(v)
        return s if len(s) <= 220 else s[:150] + ' ... ' + s[-60:]

    def unint(self, v):
        """strip wrappers around an integer"""
        while isinstance(v, T):
            if v.tag == 'rv':
                v = v.a[0]
            elif v.tag == 'adt' and len(v.a[2]) == 1 and self.E.nvariants(v.a[0]) == 1:
                v = v.a[2][0]
            else:
                break
        return v

    def adt(self, st, v):
        while isinstance(v, T) and v.tag == 'rv':
            v = v.a[0]
        if isinstance(v, T) and v.tag == 'sym':
            vs = st.var.get(v.a[0])
            ty = v.a[1]
            if self.P.tys[ty]['k'] == 'adt' and self.E.nvariants(ty) == 1:
                vs = frozenset((0,))
            if vs is not None and len(vs) == 1:
                return self.E.expand(v, next(iter(vs)))
        return v

    def tyname(self, ty):
        n = self.E.tname(ty)
        return n.split('::')[-1] if n else None

    def vname(self, v):
        vs = self.P.tys[v.a[0]].get('vs')
        return vs[v.a[1]][0] if vs else None

    def cmp_fields(self, fields, f, v, what, variant):
        vs = self.P.tys[v.a[0]]['vs'][variant]
        names = [x[0] for x in vs[2]]
        for n, p in fields.items():
            if n not in names:
                self.fail(f, 'value', f'{what}{n}: no such field')
                continue
            p.cmp(self, f, v.a[2][names.index(n)], what + n)

    def isterm(self, st, v, want):
        while isinstance(v, T) and v.tag in ('rv',):
            v = v.a[0]
        if isinstance(v, Lin):
            if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
                k = v.t[0][0].key
                if k[0] == 'sy' and k[1] is want:
                    return True
                return k[0] == 'sy' and self.eqterm(st, k[1], want)
            return False
        if isinstance(v, T) and v.tag in ('sym', 'str'):
            v = v.a[0]
        if isinstance(v, T) and v.tag == 'sl' and v.a[0].tag == 'buf' and same(st, v.a[1], const(0)) and same(st, v.a[2], self.E.lenof(v.a[0].a[0])):
            v = v.a[0].a[0]
        return v is want or self.eqterm(st, v, want)

    def eqterm(self, st, a, b):
        """same term up to equal integers"""
        if a is b:
            return True
        if isinstance(a, Lin) and isinstance(b, Lin):
            return same(st, a, b)
        if isinstance(a, T) and isinstance(b, T) and a.tag == b.tag and len(a.a) == len(b.a):
            return all(self.eqterm(st, x, y) for x, y in zip(a.a, b.a))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(self.eqterm(st, x, y) for x, y in zip(a, b))
        return False if isinstance(a, (T, Lin, tuple)) else a == b

    def bitand(self, st, lin, mask):
        ty = [i for i, t in enumerate(self.P.tys) if t['k'] == 'uint' and t['bits'] == 16][0]
        return self.E.bitand(st, lin, mask, ty)

    def masked(self, st, v, e, mask):
        """v is e, and no bit outside the mask is set in it"""
        if not same(st, v, e):
            return False
        x = self.bitand(st, e, 0xffff & ~mask)
        return x.c == 0 if x.isconst() else st.st.eq0(x)

    def copyof(self, st, v, t):
        """v is the value of the term t, possibly taken apart and rebuilt field by field"""
        while isinstance(v, T) and v.tag == 'rv':
            v = v.a[0]
        if isinstance(v, T) and v.tag in ('sym', 'str'):
            return self.eqterm(st, v.a[0], t)
        if isinstance(v, Lin):
            return self.isterm(st, v, t)
        if isinstance(v, T) and v.tag == 'list':
            return len(v.a[0]) == 1 and v.a[0][0].tag == 'symseg' and self.eqterm(st, v.a[0][0].a[0], t) and same(st, v.a[0][0].a[1], self.E.lenof(t))
        if isinstance(v, T) and v.tag == 'adt':
            if self.E.nvariants(v.a[0]) > 1 and st.var.get(t) != frozenset((v.a[1],)):
                return False
            return all(self.copyof(st, x, mkT('pj', t, v.a[1], i)) for i, x in enumerate(v.a[2]))
        return False

    def rebuilt(self, v):
        """the term a value is a field-by-field copy of, if any"""
        while isinstance(v, T) and v.tag == 'rv':
            v = v.a[0]
        if isinstance(v, T) and v.tag in ('sym', 'str'):
            return v.a[0]
        if isinstance(v, Lin):
            if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1 and v.t[0][0].key[0] == 'sy':
                return v.t[0][0].key[1]
            return None
        if isinstance(v, T) and v.tag == 'list':
            if len(v.a[0]) == 1 and v.a[0][0].tag == 'symseg':
                sg = v.a[0][0]
                if sg.a[1] == self.E.lenof(sg.a[0]):
                    return sg.a[0]
            return None
        if isinstance(v, T) and v.tag == 'adt' and v.a[2]:
            base = None
            for i, x in enumerate(v.a[2]):
                r = self.rebuilt(x)
                if not (isinstance(r, T) and r.tag == 'pj' and r.a[1] == v.a[1] and r.a[2] == i):
                    return None
                if base is not None and base is not r.a[0]:
                    return None
                base = r.a[0]
            return base
        return None

    def matches(self, pairs, f):
        mode = self.mode
        pr = getattr(self, 'probe', None)
        self.mode, self.probe = 'probe', []
        try:
            for p, x in pairs:
                p.cmp(self, f, x, '')
            return not self.probe
        finally:
            self.mode, self.probe = mode, pr

    def cmp_list(self, f, v, tab, rec, res, kx, what):
        E = self.E
        self.count['value'] = self.count.get('value', 0) + 1
        if not (isinstance(v, T) and v.tag == 'list'):
            return self.fail(f, 'value', f'{what}: not the list of the items read (found {self.show(v)})')
        if rec is None:
            if v.a[0] and not f.st.st.eq0(E.list_len(v)):
                self.fail(f, 'value', f'{what}: the list is not empty although the table is')
            return
        segs = v.a[0]
        if len(segs) != 1 or segs[0].tag != 'lseg' or segs[0].a[0] != rec.id or not same(f.st, segs[0].a[2], kx):
            if f.st.st.decide('eq', kx) is True and f.st.st.decide('eq', E.list_len(v)) is True:
                return
            return self.fail(f, 'value', f'{what}: not exactly the items read, in order (found {self.show(v)})')
        leaf = segs[0].a[1]
        key = (rec.id, leaf, id(tab))
        if key in self.listdone:
            return
        self.listdone.add(key)
        self.ctx.append(f'{tab.what}[] in {rec.fn.npath.split("::", 1)[-1]}')
        sf = self.curfn
        self.curfn = (rec.fn, rec.header)
        for b, frames in res:
            ps = b.pushes.get(leaf)
            if ps is None or len(ps) != tab.elems:
                for r in frames[:1]:
                    self.fail(r, 'value', f'{what}: an iteration adds {0 if ps is None else len(ps)} elements for the item read')
                continue
            for r in frames:
                r2 = r
                tab.value.cmp(self, r2, ps[0], f'{what}[]')
        self.ctx.pop()
        self.curfn = sf

    def set_is_history(self, rec, base):
        """base is the set at the head of the loop rec, empty at first, to which every iteration adds exactly one key"""
        for lf, kind in rec.gen.items():
            g = rec.gvals.get(lf)
            if isinstance(g, T) and g.tag == 'set' and g.a[0] is base:
                try:
                    ev = self.E.get_path_v(rec.entry, lf)
                except Exception:
                    return False
                if not (ev.tag == 'set' and ev.a[0].tag == 'empty'):
                    return False
                for b in rec.backs:
                    n = b.next.get(lf)
                    if n is None:
                        n = self.E.get_path_v(b.state, lf)
                    if not (isinstance(n, T) and n.tag == 'set' and n.a[0].tag == 'ins' and n.a[0].a[0] is base):
                        return False
                return True
        return False

    def parsed_kind(self, t):
        return self.spec.parsed_kind(self, t)

    def live(self, st, i):
        """re-evaluate the facts about pool entry i; False if they are contradictory"""
        t = self.entry(i)
        try:
            self.E.touch(st, t)
            return self.E.propagate(st, t) is not False
        except Infeasible:
            return False

    def enumty(self, name):
        for i, t in enumerate(self.P.tys):
            if t['k'] == 'adt' and t.get('enum') and self.tyname(i) == name:
                return i
        raise AnalysisError('no enum ' + name)

    def flag(self, f, name, mask):
        return self.bitand(f.st, f.env[name], mask)

    def bits_clear(self, st, lin, mask):
        return None

    def signed(self, st, x, bits):
        half = 1 << (bits - 1)
        if st.st.ge0(-x + (half - 1)):
            return x
        if st.st.ge0(x - half):
            return x - 2 * half
        return var(atom(('wrap', bits, True, x), -half, half - 1))

    def mods(self, st, x, n):
        """(state, residue of x modulo n), one pair per possible residue"""
        try:
            opts = [lambda s: True]
            self.E.mod(st, x, n)
        except Split as e:
            opts = e.options
        for o in opts:
            s = st.copy()
            if not o(s):
                continue
            yield s, self.E.mod(s, x, n)
