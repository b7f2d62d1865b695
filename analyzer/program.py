"""Loads the MIR dump and derives per-body control-flow facts (natural loops, liveness)."""
import json
import re


class Body:
    pass


class Fn:
    __slots__ = ('id', 'path', 'npath', 'name', 'local', 'shim', 'span', 'targs', 'body', 'closure_like', 'trait')


def npath(p):
    return re.sub(r'\{impl#\d+\}', '{impl}', p) if p else p


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.tys = d['tys']
        self.roots = d['roots']
        self.files = d['files']
        self.fns = []
        for i, f in enumerate(d['fns']):
            fn = Fn()
            fn.id = i
            fn.path = f['path']
            fn.npath = npath(f['path'])
            fn.name = f['name']
            fn.local = f['local']
            fn.shim = f.get('shim')
            fn.trait = f.get('trait')
            fn.span = f.get('span')
            fn.targs = f.get('targs') or []
            fn.body = mkbody(f['body']) if f.get('body') else None
            fn.closure_like = '{closure' in f['path']
            self.fns.append(fn)
        self._sccs = None
        self.alias_names()

    def alias_names(self):
        self.by_s = {}
        for i, t in enumerate(self.tys):
            self.by_s.setdefault(t['s'], i)

    def file(self, span):
        if not span:
            return '?'
        return '%s:%d' % (self.files[span[0]], span[1])

    # ---- types
    def tname(self, ty):
        t = self.tys[ty]
        return t.get('name') if t['k'] == 'adt' else t['k']

    def callees(self, fn):
        """resolved callee instances mentioned anywhere in the body (calls and fn constants)."""
        out = []
        if not fn.body:
            return out
        for bb in fn.body.blocks:
            _fnrefs(bb, out)
            for st in bb[0]:
                if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'clo':
                    k = self.tys[st[2][1][1]].get('inst')
                    if isinstance(k, int):
                        out.append(k)
        return out

    def sccs(self):
        if self._sccs is not None:
            return self._sccs
        n = len(self.fns)
        succ = [sorted(set(self.callees(f))) for f in self.fns]
        index = {}
        low = {}
        onst = set()
        st = []
        comps = {}
        cnt = [0]
        for s in range(n):
            if s in index:
                continue
            work = [(s, 0)]
            while work:
                v, i = work.pop()
                if i == 0:
                    index[v] = low[v] = cnt[0]
                    cnt[0] += 1
                    st.append(v)
                    onst.add(v)
                rec = False
                for j in range(i, len(succ[v])):
                    w = succ[v][j]
                    if w not in index:
                        work.append((v, j + 1))
                        work.append((w, 0))
                        rec = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if rec:
                    continue
                if low[v] == index[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in succ[v]:
                        fs = frozenset(comp)
                        for w in comp:
                            comps[w] = fs
                if work:
                    p = work[-1][0]
                    low[p] = min(low[p], low[v])
        self._sccs = comps
        return comps


def _fnrefs(x, out):
    if isinstance(x, dict):
        for k in ('inst', 'closure'):
            if isinstance(x.get(k), int) and x[k] >= 0:
                out.append(x[k])
        if isinstance(x.get('next'), int):
            out.append(x['next'])
        if isinstance(x.get('fnitem'), dict):
            _fnrefs(x['fnitem'], out)
    elif isinstance(x, list):
        if len(x) == 2 and x[0] == 'fnptr' and isinstance(x[1], int):
            out.append(x[1])
        for y in x:
            if isinstance(y, (list, dict)):
                _fnrefs(y, out)


def succs(term):
    k = term[0]
    if k == 'goto':
        return [term[1]]
    if k == 'switch':
        return [t for _, t in term[2]] + ([term[3]] if term[3] is not None and term[3] >= 0 else [])
    if k == 'drop':
        return [term[2]]
    if k == 'call':
        return [term[4]] if term[4] >= 0 else []
    if k == 'assert':
        return [term[4]]
    return []


def mkbody(b):
    r = Body()
    r.argc = b['argc']
    r.locals = b['locals']
    r.blocks = b['blocks']
    r.dbg = b.get('dbg') or []
    r.spread = b.get('spread')
    n = len(r.blocks)
    r.succ = [succs(bb[1]) for bb in r.blocks]
    # reachable from 0 in reverse postorder
    order = []
    seen = {0}
    st = [(0, iter(r.succ[0]))]
    while st:
        v, it = st[-1]
        for w in it:
            if w not in seen:
                seen.add(w)
                st.append((w, iter(r.succ[w])))
                break
        else:
            order.append(v)
            st.pop()
    order.reverse()
    r.rpo = order
    pos = {b: i for i, b in enumerate(order)}
    pred = {b: [] for b in order}
    for b in order:
        for s in r.succ[b]:
            pred[s].append(b)
    r.pred = pred
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while pos[x] > pos[y]:
                                x = idom[x]
                            while pos[y] > pos[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dominates(a, b):
        while pos[b] > pos[a]:
            b = idom[b]
        return a == b
    loops = {}
    for b in order:
        for s in r.succ[b]:
            if pos[s] <= pos[b] and dominates(s, b):
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work.extend(pred[x])
    r.loops = loops
    _liveness(r)
    return r


def _place_uses(p, out, write=False):
    """locals read when accessing place p."""
    if len(p) > 1 or not write:
        out.add(p[0])
    for e in p[1:]:
        if isinstance(e, list) and e[0] == 'i':
            out.add(e[1])


def _op_uses(o, out):
    if o[0] in ('c', 'm'):
        _place_uses(o[1], out)


def _rv_uses(rv, out, taken):
    k = rv[0]
    if k in ('use', 'rep'):
        _op_uses(rv[1], out)
    elif k in ('ref', 'addr'):
        p = rv[-1]
        _place_uses(p, out)
        if '*' not in p[1:]:
            taken.add(p[0])
    elif k in ('discr', 'len'):
        _place_uses(rv[1], out)
    elif k in ('bin', 'cbin'):
        _op_uses(rv[2], out)
        _op_uses(rv[3], out)
    elif k in ('un', 'cast'):
        _op_uses(rv[2], out)
    elif k == 'agg':
        for o in rv[2]:
            _op_uses(o, out)


def _liveness(r):
    n = len(r.blocks)
    gen = {}
    kill = {}
    taken = set()
    for b in r.rpo:
        stmts, term = r.blocks[b][0], r.blocks[b][1]
        g, k = set(), set()

        def use(xs):
            for x in xs:
                if x not in k:
                    g.add(x)
        for s in stmts:
            u = set()
            if s[0] == '=':
                _rv_uses(s[2], u, taken)
                _place_uses(s[1], u, True)
                use(u)
                if len(s[1]) == 1:
                    k.add(s[1][0])
            elif s[0] == 'setd':
                _place_uses(s[1], u)
                use(u)
            elif s[0] == 'assume':
                _op_uses(s[1], u)
                use(u)
        u = set()
        t = term
        if t[0] == 'switch':
            _op_uses(t[1], u)
        elif t[0] == 'ret':
            u.add(0)
        elif t[0] == 'drop':
            _place_uses(t[1], u)
        elif t[0] == 'call':
            if t[1][0] in ('c', 'm'):
                _op_uses(t[1], u)
            for o in t[2]:
                _op_uses(o, u)
            _place_uses(t[3], u, True)
            use(u)
            u = set()
            if len(t[3]) == 1:
                k.add(t[3][0])
        elif t[0] == 'assert':
            _op_uses(t[1], u)
            for x in t[3][1:]:
                if isinstance(x, list):
                    _op_uses(x, u)
        use(u)
        gen[b], kill[b] = g, k
    live = {b: set() for b in r.rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(r.rpo):
            out = set()
            for s in r.succ[b]:
                out |= live[s]
            inn = gen[b] | (out - kill[b])
            if inn != live[b]:
                live[b] = inn
                ch = True
    r.live = live
    r.taken = taken
