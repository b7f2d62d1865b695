"""Trace-partitioned abstract interpreter over rustc MIR.

Domain: linear terms over symbolic quantities + interval/inequality store + variant sets +
string/element predicates.  Loops are summarised by generalisation (linear induction variables,
candidate-invariant filtering), element facts of lists built or traversed by loops become
universally quantified schemas.  Calls are inlined except (a) recursive strongly-connected
components, cut by a checked contract, (b) functions over strings only, kept as uninterpreted
terms and analysed separately, (c) library functions, modelled in models.py.
"""
import sys
from lin import Lin, Atom, Store, word, atom, mk, const, var, norm, INF, iv_join, iv_meet, iv_sub
from values import *
import models

sys.setrecursionlimit(20000)

ERR_OK = 'core::result::Result'


class Split(Exception):
    """the current statement must be re-executed once per option (a state refinement)."""

    def __init__(self, options):
        self.options = options


class Infeasible(Exception):
    pass


class AnalysisError(Exception):
    pass


class State:
    __slots__ = ('mem', 'st', 'var', 'pred', 'forall', 'guards', 'touched', 'ghost', 'wr', 'trail')

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.st = self.st.copy()
        s.var = dict(self.var)
        s.pred = dict(self.pred)
        s.forall = dict(self.forall)
        s.guards = self.guards
        s.touched = self.touched
        s.ghost = self.ghost
        s.wr = self.wr
        s.trail = self.trail
        return s


def new_state():
    s = State()
    s.mem = {}
    s.st = Store()
    s.var = {}
    s.pred = {}
    s.forall = {}
    s.guards = ()
    s.touched = frozenset()
    s.ghost = ()
    s.wr = frozenset()
    s.trail = ()
    return s


class Schema:
    """for all lo <= i < hi: OR_d facts_d(el(list,i))   -- facts use the loop counter atom k; i = k + off"""
    __slots__ = ('lst', 'k', 'off', 'lo', 'hi', 'dis', 'cache')

    def __init__(self, lst, k, off, lo, hi, dis):
        self.lst, self.k, self.off, self.lo, self.hi, self.dis = lst, k, off, lo, hi, dis
        self.cache = {}


class Dis:
    __slots__ = ('var', 'pred', 'con', 'cells', 'guard')

    def __init__(self, var=None, pred=None, con=None, cells=None):
        self.var = var or {}
        self.pred = pred or {}
        self.con = con or {}
        self.cells = cells or {}
        self.guard = {}


class LoopRec:
    pass


class Fr:
    __slots__ = ('id', 'fn', 'body')

    def __init__(self, id, fn):
        self.id = id
        self.fn = fn
        self.body = fn.body


def neg(p):
    if isinstance(p, bool):
        return not p
    if p.tag == 'cmp':
        rel, l = p.a
        if rel == 'ge':
            return mkcmp('ge', -l - 1)
        return mkcmp('ne' if rel == 'eq' else 'eq', l)
    if p.tag == 'ptm':
        return mkT('npt', p.a[0])
    if p.tag == 'npt':
        return mkT('ptm', p.a[0])
    raise AnalysisError('neg ' + str(p))


def mkcmp(rel, lin):
    if lin.isconst():
        return lin.c >= 0 if rel == 'ge' else (lin.c == 0) == (rel == 'eq')
    if rel != 'ge' and len(lin.t) > 1:
        lin = unmask(lin)
        if lin.isconst():
            return rel == 'eq'
    return mkT('cmp', rel, lin)


def unmask(lin):
    """x & mask == x says the same as x & ~mask == 0"""
    for a, k in lin.t:
        w = word(a)
        if w is not None and abs(k) == 1 and (lin - w[0].scale(-k)).t == ((a, k),) and (lin - w[0].scale(-k)).c == 0:
            lo, hi = sum((b.lo if q > 0 else b.hi) * q for b, q in w[0].t) + w[0].c, sum((b.hi if q > 0 else b.lo) * q for b, q in w[0].t) + w[0].c
            if 0 <= lo and hi < 1 << 64:
                rest = ((1 << int(hi).bit_length()) - 1) & ~w[1]
                return var(atom(('and', w[0], rest), 0, rest, ((0, 0), (rest, rest)) if rest & (rest - 1) == 0 else None)) if rest else const(0)
    return lin


class Engine:
    def __init__(self, prog, ptr=64, strmode=False, errty=None):
        self.p = prog
        self.ptr = ptr
        self.strmode = strmode
        self.tys = prog.tys
        self.frame = 0
        self.heap = 0
        self.lid = 0
        self.gid = 0
        self.stack = []          # (fn, span) call chain
        self.obl = []            # (site key, ok, chain, detail)
        self.errlog = []         # every creation of a parse error: ErrRec
        self.loops = {}
        self.loopfinal = []
        self.seglen = {}
        self.cmplog = {}         # loop id -> set of Lin
        self.active = []         # active loop ids
        self.hooks = {}          # function id -> stand-in, used to relate two functions by the calls they make
        self.writing = {}        # list -> loop id in which its cells are written
        self.unknown = {}        # unmodelled library functions
        self.cuts = {}           # string function cuts: (fn, argpattern) -> count
        self.reccalls = {}       # scc head calls
        self.sccs = prog.sccs()
        self.errty = errty
        self.rec_scc = None
        self.inrec = []
        self.recres = {}
        self.steps = 0
        self.fnseen = {}
        self.allocs = []
        self.locks = []
        self.notes = []
        self.rec_roots = {}
        self.max_steps = 4_000_000
        self._synth = {}
        self._shapes = {}
        self.frames = {}
        self.framekeys = {}
        self.warm = {}
        self.passes = []
        self.copies = []
        self.setkeys = []
        self.loops_k = {}

    # ------------------------------------------------------------ types
    def T(self, ty):
        return self.tys[ty]

    def bounds(self, ty):
        t = self.tys[ty]
        k = t['k']
        if k == 'uint':
            b = self.ptr if t['s'] == 'usize' else t['bits']
            return 0, (1 << b) - 1
        if k == 'int':
            b = self.ptr if t['s'] == 'isize' else t['bits']
            return -(1 << (b - 1)), (1 << (b - 1)) - 1
        if k == 'char':
            return 0, 0x10FFFF
        if k == 'bool':
            return 0, 1
        return None

    def bits(self, ty):
        t = self.tys[ty]
        b = self.ptr if t['s'] in ('usize', 'isize') else t['bits']
        return b, t['k'] == 'int'

    def isint(self, ty):
        return ty is not None and self.tys[ty]['k'] in ('int', 'uint', 'char')

    def tname(self, ty):
        t = self.tys[ty]
        return t.get('name') if t['k'] == 'adt' else t['k']

    def vfields(self, ty, variant):
        t = self.tys[ty]
        return [f[1] for f in t['vs'][variant][2]] if t.get('vs') else []

    def nvariants(self, ty):
        return len(self.tys[ty].get('vs') or [0])

    def lenmax(self):
        return (1 << (self.ptr - 1)) - 1

    def symint(self, term, ty):
        lo, hi = self.bounds(ty)
        dom = None
        if self.tys[ty]['k'] == 'char':
            dom = ((0, 0xD7FF), (0xE000, 0x10FFFF))
        return var(atom(('sy', term), lo, hi, dom))

    def symval(self, term, ty):
        t = self.tys[ty]
        k = t['k']
        if k in ('int', 'uint', 'char'):
            return self.symint(term, ty)
        if k == 'bool':
            return mkT('ptm', term)
        if k == 'ref':
            e = self.tys[t['e']]
            if e['k'] == 'str':
                return mkT('str', term)
            if e['k'] == 'slice':
                return mkT('sl', mkT('buf', term, e['e']), const(0), self.lenof(term))
            return rv(self.symval(mkT('dr', term), t['e']))
        if k == 'str':
            return mkT('str', term)
        if k == 'tuple':
            return mkT('tup', tuple(self.symval(mkT('pj', term, 0, i), f) for i, f in enumerate(t['fs'])))
        if k == 'adt':
            if t['name'] == 'alloc::vec::Vec':
                return mkT('list', (mkT('symseg', term, self.lenof(term)),), t['targs'][0])
        return mkT('sym', term, ty)

    def lenof(self, term):
        return var(atom(('len', term), 0, self.lenmax()))

    def fresh(self, tag='fr'):
        self.heap += 1
        return mkT(tag, self.heap)

    # ------------------------------------------------------------ predicates
    def decide(self, s, p):
        if isinstance(p, bool):
            return p
        if p.tag == 'cmp':
            rel, l = p.a
            lp = l.loops()
            if lp:
                for i in lp:
                    if i in self.cmplog:
                        self.cmplog[i].add((rel, l))
            return s.st.decide(rel, l)
        if p.tag == 'npt':
            r = self.decide_term(s, p.a[0])
            return None if r is None else not r
        return self.decide_term(s, p.a[0])

    def decide_term(self, s, t):
        r = s.pred.get(t)
        if r is not None:
            return r
        if t.tag == 'streq':
            known = s.var.get(mkT('strval', t.a[0]))
            if known is not None:
                return t.a[1] in known
        return None

    def assume(self, s, p, val=True):
        if not val:
            p = neg(p)
        if isinstance(p, bool):
            return p
        if p.tag == 'cmp':
            return s.st.assume(p.a[0], p.a[1])
        v = p.tag == 'ptm'
        t = p.a[0]
        r = self.decide_term(s, t)
        if r is not None:
            return r == v
        s.pred[t] = v
        if t.tag == 'streq' and v:
            s.var[mkT('strval', t.a[0])] = frozenset((t.a[1],))
        return True

    def truth(self, s, p):
        """decide or Split."""
        r = self.decide(s, p)
        if r is None:
            raise Split([lambda st: self.assume(st, p, True), lambda st: self.assume(st, p, False)])
        return r

    # ------------------------------------------------------------ variants & schemas
    def variants(self, s, v):
        """possible variant indices of an enum value"""
        if v.tag == 'adt':
            return frozenset((v.a[1],))
        if v.tag != 'sym':
            return None
        term, ty = v.a
        self.touch(s, term)
        r = s.var.get(term)
        if r is None:
            r = frozenset(range(self.nvariants(ty)))
        return r

    def assume_var(self, s, term, vs):
        old = s.var.get(term)
        new = vs if old is None else old & vs
        if not new:
            return False
        if new != old:
            s.var[term] = new
            return self.propagate(s, term)
        return True

    def touch(self, s, term):
        for e in els_of(term):
            if e not in s.touched:
                s.touched = s.touched | {e}
                if not self.inst(s, e):
                    raise Infeasible()

    def propagate(self, s, term):
        for e in els_of(term):
            if not self.inst(s, e):
                return False
        return True

    def schemas_for(self, s, lst):
        b = self.base_schema(lst)
        r = s.forall.get(lst, ())
        return ((b,) + r) if b is not None else r

    def instances(self, s, e):
        """(schema, [consistent disjuncts]), one after the other (what is learnt from one may bring the index into the range of the next)"""
        lst, idx = e.a[0], e.a[1]
        for sc in self.schemas_for(s, lst):
            inr = True
            if sc.lo is not None:
                inr = s.st.ge0(idx - sc.lo) and s.st.ge0(sc.hi - idx - 1)
            if not inr:
                continue
            dis = sc.cache.get(idx)
            if dis is None:
                if isinstance(sc.k, T):
                    m = {sc.k: e, elphix(lst): idx}
                elif sc.k is not None:
                    m = {sc.k: idx - sc.off}
                else:
                    m = {}
                dis = []
                memo = {}
                for d in sc.dis:
                    nd = Dis()
                    nd.var = {subst(t, m, memo): vs for t, vs in d.var.items()}
                    nd.pred = {subst(t, m, memo): b for t, b in d.pred.items()}
                    nd.con = d.con if isinstance(sc.k, T) and not d.con else \
                        {subst(l, m, memo): iv for l, iv in d.con.items()}
                    nd.cells = {subst(t, m, memo): subst(v, m, memo) for t, v in d.cells.items()}
                    dis.append(nd)
                sc.cache[idx] = dis
            ok = [d for d in dis if self.consistent(s, d)]
            yield sc, ok

    def consistent(self, s, d):
        for t, vs in d.var.items():
            o = s.var.get(t)
            if o is not None and not (o & vs):
                return False
        for t, b in d.pred.items():
            o = self.decide_term(s, t)
            if o is not None and o != b:
                return False
        for l, iv in d.con.items():
            if not iv_meet(s.st.ivset(l), iv):
                return False
        return True

    def inst(self, s, e):
        for sc, dis in self.instances(s, e):
            if not dis:
                return False
            first = dis[0]
            for t, vs in first.var.items():
                u = set(vs)
                for d in dis[1:]:
                    if t not in d.var:
                        u = None
                        break
                    u |= d.var[t]
                if u is not None:
                    o = s.var.get(t)
                    n = frozenset(u) if o is None else o & u
                    if not n:
                        return False
                    if n != o:
                        s.var[t] = n
                        for e2 in els_of(t):
                            if e2 is not e or True:
                                if e2 is e:
                                    continue
                                s.touched = s.touched | {e2}
                                if not self.inst(s, e2):
                                    return False
            for t, b in first.pred.items():
                if all(d.pred.get(t) == b for d in dis[1:]):
                    o = self.decide_term(s, t)
                    if o is not None and o != b:
                        return False
                    s.pred[t] = b
            for l, iv in first.con.items():
                if all(d.con.get(l) == iv for d in dis[1:]):
                    if iv[0][0] != -INF and not s.st.assume('ge', l - iv[0][0]):
                        return False
                    if iv[-1][1] != INF and not s.st.assume('ge', -l + iv[-1][1]):
                        return False
        return True

    def base_schema(self, lst):
        r = getattr(self, '_bs', None)
        if r is None:
            r = self._bs = {}
        if lst in r:
            return r[lst]
        r[lst] = None
        if lst.tag != 'list':
            return None
        dis = []
        pos = 0
        ph = mkT('elph', lst)
        okk = True
        exact = True
        for seg in lst.a[0]:
            if seg.tag == 'items':
                for v in seg.a[0]:
                    d = Dis()
                    if exact:
                        d.con = {var(elphix(lst)): ((pos, pos),)}
                    self.walkfacts(v, ph, d)
                    dis.append(d)
                    pos += 1
            elif seg.tag == 'lseg':
                rec = self.loops.get(seg.a[0])
                if rec is None or rec.backs is None:
                    okk = False
                    break
                for b in rec.backs:
                    for v in b.pushes.get(seg.a[1], ()):
                        d = Dis()
                        if exact and pos:
                            d.con = {var(elphix(lst)): ((pos, INF),)}
                        self.walkfacts(v, ph, d, b)
                        dis.append(d)
                exact = False
            else:
                okk = False
                break
        if not okk or not dis:
            return None
        sc = Schema(lst, ph, None, None, None, dis)
        sc = BaseSchema(lst, ph, dis)
        r[lst] = sc
        return sc

    def walkfacts(self, v, term, d, b=None):
        if not isinstance(v, T):
            return
        if v.tag == 'adt':
            ty, variant, fs = v.a
            nm = self.tname(ty)
            if nm in models.RC:
                self.walkfacts(fs[0], mkT('dr', term), d, b)
                return
            if nm in models.CELL:
                c = fs[0]
                self.walkfacts(c, mkT('cc', term), d, b)
                return
            if self.tys[ty].get('enum'):
                d.var[term] = frozenset((variant,))
            for i, f in enumerate(fs):
                self.walkfacts(f, mkT('pj', term, variant, i), d, b)
        elif v.tag == 'tup':
            for i, f in enumerate(v.a[0]):
                self.walkfacts(f, mkT('pj', term, 0, i), d, b)
        elif v.tag == 'sym' and b is not None:
            vs = b.state.var.get(v.a[0])
            if vs is not None:
                d.var[term] = vs
        elif v.tag == 'rv':
            self.walkfacts(v.a[0], mkT('dr', term), d, b)

    def cell_content(self, s, cellterm, cty):
        """abstract content of a RefCell/Mutex that lives inside a list element."""
        inner = self.T(cty)['targs'][0]
        default = self.symval(mkT('cc', cellterm), inner)
        for e in els_of(cellterm):
            lst = e.a[0]
            w = self.writing.get(lst)
            if w is not None and w[0] in self.active:
                k, off = self.loops_k[w[0]], w[1]
                if off is None or e.a[1] is not k + off and not s.st.ge0(e.a[1] - k - off):
                    return self.symval(self.fresh('cw'), inner)
                continue
            self.touch(s, e)
            for sc, dis in reversed(list(self.instances(s, e))):
                if isinstance(sc, BaseSchema) or not dis:
                    continue
                cs = {d.cells.get(cellterm) for d in dis}
                if cs == {None}:
                    continue
                if len(cs) == 1:
                    return cs.pop()
                # several possibilities: split on the disjuncts

                def mkopt(d):
                    def f(st):
                        for t, vs in d.var.items():
                            if not self.assume_var(st, t, vs):
                                return False
                        for t, b in d.pred.items():
                            if not self.assume(st, mkT('ptm', t), b):
                                return False
                        return True
                    return f
                if any(d.var or d.pred for d in dis):
                    key = ('cellsplit', cellterm)
                    if key not in s.ghost:
                        opts = []
                        for d in dis:
                            f = mkopt(d)

                            def g(st, f=f):
                                st.ghost = st.ghost + (key,)
                                return f(st)
                            opts.append(g)
                        raise Split(opts)
                return self.symval(self.fresh('cw'), inner)
        return default

    # ------------------------------------------------------------ memory
    def getroot(self, s, root):
        v = s.mem.get(root)
        if v is None:
            if root[0] == 'C':
                v = self.cell_content(s, root[1], root[2])
                s.mem[root] = v
                return v
            if root[0] == 'U':
                return TOP
        return v

    def get_path(self, s, root, path):
        v = self.getroot(s, root)
        for p in path:
            v = self.step(s, v, p)
        return v

    def step(self, s, v, p):
        if p[0] == 'f':
            return self.field(v, p[1], p[2], p[3])
        if p[0] == 'i':
            return self.index(s, v, p[1])
        raise AnalysisError('step')

    def field(self, v, variant, i, ty):
        if v is None:
            return TOP
        t = v.tag if isinstance(v, T) else None
        if t == 'adt':
            if i < len(v.a[2]):
                return v.a[2][i]
            return TOP
        if t in ('tup', 'arr'):
            return v.a[0][i]
        if t == 'clo':
            return v.a[1][i]
        if t == 'sym':
            return self.symval(mkT('pj', v.a[0], variant, i), ty)
        if t == 'list' or t == 'set':
            return TOP
        if t == 'top' or t is None:
            return TOP
        if t in ('str', 'strv'):
            return TOP
        raise AnalysisError('field of %s' % (v,))

    def index(self, s, v, i):
        """element of array/slice/list at Lin i (bounds already checked)"""
        if v.tag == 'arr':
            if i.isconst():
                return v.a[0][i.c]
            return self.list_index(s, mkT('list', (mkT('items', v.a[0]),), None), i)
        if v.tag == 'sl':
            base, off, n = v.a
            j = off + i
            if base.tag == 'buf':
                ety = base.a[1]
                tt = self.tys[ety]
                if tt['k'] == 'uint' and tt['bits'] == 8:
                    return var(atom(('b', base, j), 0, 255))
                return self.symval(mkT('el', base, j), ety)
            return self.list_index(s, base, j)
        if v.tag == 'list':
            return self.list_index(s, v, i)
        if v.tag == 'top':
            return TOP
        raise AnalysisError('index of %s' % (v,))

    def list_index(self, s, lst, i):
        segs, ety = lst.a
        pos = 0
        if i.isconst():
            for seg in segs:
                if seg.tag == 'items':
                    if i.c < pos + len(seg.a[0]):
                        return seg.a[0][i.c - pos]
                    pos += len(seg.a[0])
                else:
                    break
        if len(segs) == 1 and segs[0].tag == 'items' and segs[0].a[0]:
            vs = segs[0].a[0]
            if all(x is vs[0] for x in vs):
                return vs[0]
            lo, hi = s.st.interval(i)
            if lo == hi and 0 <= lo < len(vs):
                return vs[lo]
            if len(vs) <= 64:
                opts = []
                for q in range(len(vs)):
                    opts.append(lambda st, q=q: st.st.assume('eq', i - q))
                raise Split(opts)
        if len(segs) > 1:
            off = const(0)
            for seg in segs:
                if seg.tag == 'items':
                    d = i - off
                    if d.isconst() and 0 <= d.c < len(seg.a[0]):
                        return seg.a[0][d.c]
                off = off + self.list_len(mkT('list', (seg,), None))
        if ety is None:
            return TOP
        return self.symval(mkT('el', lst, i), ety)

    def list_len(self, lst):
        n = const(0)
        for seg in lst.a[0]:
            if seg.tag == 'items':
                n = n + len(seg.a[0])
            elif seg.tag == 'symseg':
                n = n + seg.a[1]
            elif seg.tag == 'lseg':
                c = self.seglen.get((seg.a[0], seg.a[1]))
                if c is not None:
                    n = n + seg.a[2].scale(c)
                else:
                    n = n + var(atom(('len', seg), 0, self.lenmax()))
            else:
                n = n + var(atom(('len', seg), 0, self.lenmax()))
        return n

    def walk(self, s, fr, place):
        """-> (loc or None, value).  loc=(root,path)"""
        root = ('L', fr.id, place[0])
        path = ()
        loc = (root, path)
        v = s.mem.get(root)
        variant = 0
        for e in place[1:]:
            if e == '*':
                if v is None:
                    raise AnalysisError('deref of uninit %s in %s' % (place, fr.fn.path))
                if v.tag == 'ref':
                    loc = (v.a[0], v.a[1])
                    v = self.get_path(s, *loc)
                elif v.tag == 'rv':
                    v = v.a[0]
                    loc = None
                elif v.tag in ('sl', 'str'):
                    loc = None
                elif v.tag == 'adt' and self.tname(v.a[0]) in models.BOX:
                    if loc is not None:
                        loc = (loc[0], loc[1] + (('f', 0, 0, None),))
                    v = v.a[2][0]
                elif v.tag == 'sym':
                    t = self.tys[v.a[1]]
                    loc = None
                    if t['k'] in ('ref', 'ptr'):
                        v = self.symval(mkT('dr', v.a[0]), t['e'])
                    elif t['k'] == 'adt' and t['name'] in models.BOX:
                        v = self.symval(mkT('dr', v.a[0]), t['targs'][0])
                    else:
                        v = TOP
                else:
                    v = TOP
                    loc = None
                variant = 0
            elif e[0] == 'v':
                variant = e[1]
            elif e[0] == 'f':
                v = self.field(v, variant, e[1], e[2])
                if loc is not None:
                    loc = (loc[0], loc[1] + (('f', variant, e[1], e[2]),))
                variant = 0
            elif e[0] == 'i':
                i = s.mem[('L', fr.id, e[1])]
                if not isinstance(i, Lin):
                    i = self.fresh_int(0, self.lenmax())
                v = self.index(s, v, i)
                if loc is not None:
                    loc = (loc[0], loc[1] + (('i', i),))
            elif e[0] == 'ci':
                off, _, fromend = e[1], e[2], e[3]
                if fromend:
                    i = self.seqlen(v) - off
                else:
                    i = const(off)
                v = self.index(s, v, i)
                if loc is not None:
                    loc = (loc[0], loc[1] + (('i', i),))
            elif e[0] == 'ss':
                fr_, to, fromend = e[1], e[2], e[3]
                n = self.seqlen(v)
                hi = n - to if fromend else const(to)
                if v.tag == 'arr':
                    v = mkT('arr', v.a[0][fr_:hi.c])
                else:
                    v = mkT('sl', v.a[0], v.a[1] + fr_, hi - fr_)
                loc = None
            elif e[0] == 'oc':
                pass
            else:
                raise AnalysisError('proj %s' % (e,))
        return loc, v

    def seqlen(self, v):
        if v.tag == 'arr':
            return const(len(v.a[0]))
        if v.tag == 'sl':
            return v.a[2]
        if v.tag == 'list':
            return self.list_len(v)
        return self.fresh_int(0, self.lenmax())

    def fresh_int(self, lo, hi):
        return var(atom(('fi', self.fresh('fi')), lo, hi))

    def write_loc(self, s, root, path, v):
        if root[0] == 'C':
            s.wr = s.wr | {root}
        if not path:
            s.mem[root] = v
            return
        old = self.getroot(s, root)
        s.mem[root] = self.setpath(s, old, path, v)

    def setpath(self, s, old, path, v):
        if not path:
            return v
        p = path[0]
        if p[0] == 'f':
            if old is None:
                return TOP
            if old.tag == 'sym':
                old = self.expand(old, p[1])
            if old.tag == 'adt':
                fs = list(old.a[2])
                fs[p[2]] = self.setpath(s, fs[p[2]], path[1:], v)
                return mkT('adt', old.a[0], old.a[1], tuple(fs))
            if old.tag == 'tup':
                fs = list(old.a[0])
                fs[p[2]] = self.setpath(s, fs[p[2]], path[1:], v)
                return mkT('tup', tuple(fs))
            if old.tag == 'clo':
                fs = list(old.a[1])
                fs[p[2]] = self.setpath(s, fs[p[2]], path[1:], v)
                return mkT('clo', old.a[0], tuple(fs))
            if old.tag == 'top':
                return TOP
            raise AnalysisError('setpath field %s' % (old,))
        if p[0] == 'i':
            if old.tag == 'arr' and p[1].isconst():
                fs = list(old.a[0])
                fs[p[1].c] = self.setpath(s, fs[p[1].c], path[1:], v)
                return mkT('arr', tuple(fs))
            if old.tag == 'arr':
                return mkT('arr', tuple(self.joinval([x, v]) for x in old.a[0]))
            if old.tag == 'list':
                return mkT('list', (mkT('symseg', self.fresh('upd'), self.list_len(old)),), old.a[1])
            return TOP
        raise AnalysisError('setpath')

    def expand(self, v, variant):
        term, ty = v.a
        fs = self.vfields(ty, variant)
        return mkT('adt', ty, variant, tuple(self.symval(mkT('pj', term, variant, i), f) for i, f in enumerate(fs)))

    def joinval(self, vs):
        f = vs[0]
        if all(x is f for x in vs):
            return f
        if any(x is None for x in vs):
            return TOP
        if all(isinstance(x, Lin) for x in vs):
            return self.fresh_int(-INF, INF)
        if any(isinstance(x, Lin) for x in vs):
            return TOP
        if all(isinstance(x, bool) or x.tag in ('cmp', 'ptm', 'npt') for x in vs):
            return mkT('ptm', self.fresh('jb'))
        if any(isinstance(x, bool) for x in vs):
            return TOP
        if all(x.tag == 'adt' and x.a[1] == f.a[1] and len(x.a[2]) == len(f.a[2]) for x in vs):
            return mkT('adt', f.a[0], f.a[1], tuple(self.joinval([x.a[2][i] for x in vs]) for i in range(len(f.a[2]))))
        if all(x.tag in ('adt', 'sym') for x in vs):
            ty = f.a[0] if f.tag == 'adt' else f.a[1]
            return mkT('sym', self.fresh('jv'), ty)
        if all(x.tag == 'tup' for x in vs):
            return mkT('tup', tuple(self.joinval([x.a[0][i] for x in vs]) for i in range(len(f.a[0]))))
        if all(x.tag == 'list' for x in vs):
            t = self.fresh('jl')
            return mkT('list', (mkT('symseg', t, self.lenof(t)),), f.a[1])
        if all(x.tag == 'set' for x in vs):
            return mkT('set', self.fresh('js'))
        return TOP

    # ------------------------------------------------------------ operands / rvalues
    def constval(self, c, ty):
        k = c[0]
        if k == 'i':
            v = int(c[1])
            t = self.tys[ty] if ty is not None else None
            return const(v)
        if k == 'b':
            return bool(c[1])
        if k == 'str':
            return mkT('str', mkT('lit', c[1]))
        if k == 'ref':
            inner = self.tys[ty].get('e') if ty is not None and self.tys[ty]['k'] == 'ref' else None
            v = self.constval(c[1], inner)
            if isinstance(v, T) and v.tag == 'str':
                if inner is not None and self.tys[inner]['k'] == 'ref':
                    return rv(v)
                return v
            return rv(v)
        if k == 'slice':
            v = self.constval(c[1], None)
            if isinstance(v, T) and v.tag == 'arr':
                ety = None
                if ty is not None and self.tys[ty]['k'] == 'ref' and self.tys[self.tys[ty]['e']]['k'] == 'slice':
                    ety = self.tys[self.tys[ty]['e']]['e']
                return mkT('sl', mkT('list', (mkT('items', v.a[0]),), ety), const(0), const(len(v.a[0])))
            return v
        if k == 'bytes':
            return mkT('arr', tuple(const(x) for x in c[1]))
        if k == 'arr':
            ety = self.tys[ty].get('e') if ty is not None else None
            return mkT('arr', tuple(self.constval(x, ety) for x in c[1:]))
        if k == 'tup':
            fs = self.tys[ty].get('fs', []) if ty is not None and self.tys[ty]['k'] == 'tuple' else []
            return mkT('tup', tuple(self.constval(x, fs[i] if i < len(fs) else None) for i, x in enumerate(c[1:])))
        if k == 'adt':
            fs = self.vfields(ty, c[1]) if ty is not None else []
            return mkT('adt', ty, c[1], tuple(self.constval(x, fs[i] if i < len(fs) else None) for i, x in enumerate(c[2:])))
        if k == 'fl':
            return mkT('fl', str(c[1]))
        if k in ('fn',):
            self.fnreg(c[1])
            return mkT('fn', self.fnkey(c[1]))
        if k == 'fnptr':
            return mkT('fnptr', c[1])
        if k == 'zst':
            t = self.tys[ty] if ty is not None else {'k': '?'}
            if t['k'] == 'adt' and t.get('vs'):
                return mkT('adt', ty, 0, tuple(self.constval(['zst'], f) for f in self.vfields(ty, 0)))
            if t['k'] == 'closure':
                return mkT('clo', ty, ())
            return UNIT
        return TOP

    def fnkey(self, c):
        import json
        k = json.dumps(c, sort_keys=True)
        self.__dict__.setdefault('_fnk', {})[k] = c
        return k

    def fnreg(self, c):
        pass

    def op(self, s, fr, o):
        if o[0] in ('c', 'm'):
            p = o[1]
            if len(p) == 1:
                v = s.mem.get(('L', fr.id, p[0]))
                if v is None:
                    return TOP
                return v
            v = self.walk(s, fr, p)[1]
            return TOP if v is None else v
        if o[0] == 'k':
            return self.constval(o[2], o[1])
        if o[0] == 'rc':
            return True
        return TOP

    def opty(self, fr, o):
        if o[0] == 'k':
            return o[1]
        if o[0] in ('c', 'm'):
            return self.placety(fr, o[1])
        return None

    def placety(self, fr, p):
        ty = fr.body.locals[p[0]]
        for e in p[1:]:
            if e == '*':
                t = self.tys[ty]
                if t['k'] in ('ref', 'ptr'):
                    ty = t['e']
                elif t['k'] == 'adt':
                    ty = t['targs'][0]
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'ci'):
                ty = self.tys[ty].get('e')
            elif e[0] == 'oc':
                ty = e[1]
        return ty

    def aslin(self, v, ty):
        if isinstance(v, Lin):
            return v
        if isinstance(v, bool):
            return const(int(v))
        b = self.bounds(ty) if ty is not None else None
        if b is None:
            b = (-INF, INF)
        return self.fresh_int(*b)

    def fits(self, s, lin, ty):
        lo, hi = self.bounds(ty)
        l, h = s.st.interval(lin)
        if l >= lo and h <= hi:
            return True
        return s.st.ge0(lin - lo) and s.st.ge0(-lin + hi)

    def wrap(self, s, lin, ty):
        if self.fits(s, lin, ty):
            return lin
        b, sg = self.bits(ty) if self.tys[ty]['k'] != 'char' else (32, False)
        if lin.isconst():
            return const(wrapc(lin.c, b, sg))
        if len(lin.t) == 1 and lin.t[0][1] == 1 and lin.c == 0:
            k = lin.t[0][0].key
            if k[0] == 'wrap' and k[1] >= b:
                inner = k[3]
                if self.fits(s, inner, ty):
                    return inner
                lin = inner
        lo, hi = self.bounds(ty)
        return var(atom(('wrap', b, sg, lin), lo, hi))

    def binop(self, s, op, a, b, ta, tb, checked=False):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(s, op, a, b, ta)
        if op == 'Cmp':
            return self.cmp3(s, a, b)
        isb = isinstance(a, bool) or (isinstance(a, T) and a.tag in ('ptm', 'npt', 'cmp'))
        if isb and op in ('BitAnd', 'BitOr', 'BitXor'):
            if op == 'BitAnd':
                if a is False or b is False:
                    return False
                if a is True:
                    return b
                if b is True:
                    return a
            if op == 'BitOr':
                if a is True or b is True:
                    return True
                if a is False:
                    return b
                if b is False:
                    return a
            x = self.truth(s, a)
            y = self.truth(s, b)
            return {'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[op]
        a = self.aslin(a, ta)
        b = self.aslin(b, tb)
        if op in ('Add', 'AddUnchecked'):
            return a + b
        if op in ('Sub', 'SubUnchecked'):
            return a - b
        if op in ('Mul', 'MulUnchecked'):
            if b.isconst():
                return a.scale(b.c)
            if a.isconst():
                return b.scale(a.c)
            l1, h1 = s.st.interval(a)
            l2, h2 = s.st.interval(b)
            if INF in (h1, h2) or -INF in (l1, l2):
                lo, hi = -INF, INF
            else:
                xs = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
                lo, hi = min(xs), max(xs)
            x, y = sorted((a, b), key=lambda z: (z.t[0][0].id, z.c))
            return var(atom(('mul', x, y), lo, hi))
        if op in ('Shl', 'ShlUnchecked'):
            if b.isconst() and ta is not None:
                return self.wrap(s, a.scale(1 << b.c), ta)
        if op in ('Shr', 'ShrUnchecked') and b.isconst():
            return self.div(s, a, 1 << b.c)
        if op == 'Div' and b.isconst() and b.c > 0:
            if s.st.interval(a)[0] >= 0:
                return self.div(s, a, b.c)
        if op == 'Rem' and b.isconst() and b.c > 0:
            if s.st.interval(a)[0] >= 0:
                return self.mod(s, a, b.c)
        if op == 'BitAnd':
            if a.isconst() and b.isconst():
                bits, sg = self.bits(ta)
                return const(wrapc(a.c & b.c, bits, sg))
            if a.isconst():
                a, b = b, a
            if b.isconst() and s.st.interval(a)[0] >= 0:
                return self.bitand(s, a, b.c, ta)
        if op == 'BitOr':
            r = self.bitor(s, a, b)
            if r is not None:
                return r
        if op == 'BitXor' and a.isconst() and b.isconst():
            return const(a.c ^ b.c)
        lo, hi = self.bounds(ta) if ta is not None and self.bounds(ta) else (-INF, INF)
        if op in ('BitAnd', 'BitOr') and a.isconst() and b.isconst():
            return const(a.c & b.c if op == 'BitAnd' else a.c | b.c)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = sorted((a, b), key=lambda z: (z.t[0][0].id if z.t else -1, z.c))
            if op == 'BitAnd':
                hi2 = min(s.st.interval(a)[1], s.st.interval(b)[1])
                if s.st.interval(a)[0] >= 0 and s.st.interval(b)[0] >= 0:
                    lo, hi = 0, min(hi, hi2)
            return var(atom((op, x, y), lo, hi))
        return var(atom(('op', op, a, b), lo, hi))

    def div(self, s, a, c):
        if a.isconst():
            return const(a.c // c)
        if c == 1:
            return a
        if a.c % c == 0 and all(k % c == 0 for _, k in a.t):
            return mk(tuple((x, k // c) for x, k in a.t), a.c // c)
        # byte composition: drop low-order bytes exactly
        whole = [(x, k) for x, k in a.t if k % c == 0]
        rest = mk(tuple((x, k) for x, k in a.t if k % c), a.c)
        if whole:
            lo, hi = s.st.interval(rest)
            if 0 <= lo and hi < c:
                return mk(tuple((x, k // c) for x, k in whole), 0)
        lo, hi = s.st.interval(a)
        q = var(atom(('div', a, c), lo // c if lo != -INF else lo, hi // c if hi != INF else hi))
        s.st.assume('ge', a - q.scale(c))
        s.st.assume('ge', q.scale(c) + (c - 1) - a)
        return q

    def mod(self, s, a, m):
        if m == 1:
            return const(0)
        a = mk(tuple((x, k % m) for x, k in a.t if k % m), a.c % m)
        if a.isconst():
            return const(a.c % m)
        lo, hi = s.st.interval(a)
        if lo >= 0 and hi < m:
            return a
        if m <= 8:
            # residue partition: the class of the variable part is a single symbolic residue
            key = mk(a.t, 0)
            r = atom(('mod', key, m), 0, m - 1)
            d = s.st.dom1(r)
            if d[0][0] == d[-1][1]:
                return const((d[0][0] + a.c) % m)
            if a.c % m == 0:
                return var(r)
            raise Split([lambda st, v=v: st.st.assume('eq', var(r) - v) for v in range(m)])
        return var(atom(('mod', a, m), 0, m - 1))

    def bitand(self, s, a, mask, ty):
        if mask == 0:
            return const(0)
        if len(a.t) == 1 and a.t[0][1] == 1 and a.c == 0 and a.t[0][0].key[0] == 'and':
            k = a.t[0][0].key
            return self.bitand(s, k[1], k[2] & mask, ty)
        lo, hi = s.st.interval(a)
        full = mask + 1
        if full & mask == 0:
            if 0 <= lo and hi <= mask:
                return a
            return self.mod(s, a, full)
        b, sg = self.bits(ty)
        inv = (~mask) & ((1 << b) - 1)
        if (inv + 1) & inv == 0 and inv < 8:
            return a - self.mod(s, a, inv + 1)
        # mask covers all possible bits
        if 0 <= lo and hi != INF:
            hb = (1 << int(hi).bit_length()) - 1
            if mask & hb == hb:
                return a
            mask &= hb
            if mask == 0:
                return const(0)
        dom = None
        if mask & (mask - 1) == 0:
            dom = ((0, 0), (mask, mask))
        return var(atom(('and', a, mask), 0, mask, dom))

    def bitor(self, s, a, b):
        for x, y in ((a, b), (b, a)):
            # x multiple of 2^n and y < 2^n
            g = x.c & -x.c if x.c else 0
            for _, k in x.t:
                kk = k & -k
                g = kk if g == 0 else min(g, kk)
            if g == 0:
                return y
            lo, hi = s.st.interval(y)
            if lo >= 0 and hi < g and s.st.interval(x)[0] >= 0:
                return x + y
        if a.isconst() and b.isconst():
            return const(a.c | b.c)
        return None

    def compare(self, s, op, a, b, ty):
        ib = lambda v: isinstance(v, bool) or (isinstance(v, T) and v.tag in ('ptm', 'npt', 'cmp'))
        if ib(a) and ib(b):
            if op in ('Eq', 'Ne'):
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, bool):
                        return y if x == (op == 'Eq') else neg(y)
                x = self.truth(s, a)
                return b if x == (op == 'Eq') else neg(b)
            x, y = int(self.truth(s, a)), int(self.truth(s, b))
            a, b = const(x), const(y)
        da = isinstance(a, T) and a.tag == 'discr'
        db = isinstance(b, T) and b.tag == 'discr'
        if da or db:
            a = self.discr_lin(s, a) if da else a
            b = self.discr_lin(s, b) if db else b
        if not isinstance(a, Lin) or not isinstance(b, Lin):
            if ty is not None and self.isint(ty):
                a, b = self.aslin(a, ty), self.aslin(b, ty)
            else:
                return mkT('ptm', self.fresh('cmp'))
        d = a - b
        if op == 'Eq':
            return mkcmp('eq', d)
        if op == 'Ne':
            return mkcmp('ne', d)
        if op == 'Ge':
            return mkcmp('ge', d)
        if op == 'Gt':
            return mkcmp('ge', d - 1)
        if op == 'Le':
            return mkcmp('ge', -d)
        return mkcmp('ge', -d - 1)

    def cmp3(self, s, a, b):
        d = a - b
        ty = self.p.by_s.get('std::cmp::Ordering')
        if self.truth(s, mkcmp('eq', d)):
            return mkT('adt', ty, 1, ())
        if self.truth(s, mkcmp('ge', d)):
            return mkT('adt', ty, 2, ())
        return mkT('adt', ty, 0, ())

    def discr_lin(self, s, d):
        term, ty = d.a
        vs = self.variants(s, mkT('sym', term, ty))
        if len(vs) == 1:
            return const(int(self.tys[ty]['vs'][next(iter(vs))][1]))
        raise Split([lambda st, v=v: self.assume_var(st, term, frozenset((v,))) for v in sorted(vs)])

    def discriminant(self, s, v, ty):
        if not isinstance(v, T):
            return TOP
        if v.tag == 'adt':
            t = self.tys[v.a[0]]
            if t.get('vs'):
                return const(int(t['vs'][v.a[1]][1]))
            return const(v.a[1])
        if v.tag == 'sym':
            vs = self.variants(s, v)
            if len(vs) == 1:
                return const(int(self.tys[v.a[1]]['vs'][next(iter(vs))][1]))
            return mkT('discr', v.a[0], v.a[1])
        if ty is not None and self.tys[ty].get('enum'):
            return mkT('discr', self.fresh('dt'), ty)
        return self.fresh_int(0, 1000)

    def rvalue(self, s, fr, r, dst):
        k = r[0]
        if k == 'use':
            return self.op(s, fr, r[1])
        if k == 'ref':
            return self.mkref(s, fr, r[2], r[1])
        if k == 'addr':
            return self.mkref(s, fr, r[1], False)
        if k == 'discr':
            v = self.walk(s, fr, r[1])[1]
            return self.discriminant(s, v, self.placety(fr, r[1]))
        if k == 'len':
            return self.seqlen(self.walk(s, fr, r[1])[1])
        if k == 'bin':
            a, b = self.op(s, fr, r[2]), self.op(s, fr, r[3])
            ta, tb = self.opty(fr, r[2]), self.opty(fr, r[3])
            v = self.binop(s, r[1], a, b, ta, tb)
            if isinstance(v, Lin) and r[1] in ('Add', 'Sub', 'Mul') and ta is not None and self.isint(ta):
                v = self.wrap(s, v, ta)
            return v
        if k == 'cbin':
            a, b = self.op(s, fr, r[2]), self.op(s, fr, r[3])
            ta = self.opty(fr, r[2])
            v = self.binop(s, r[1], a, b, ta, self.opty(fr, r[3]))
            return tup(v, mkT('ovf', v, ta))
        if k == 'un':
            v = self.op(s, fr, r[2])
            if r[1] == 'Not':
                if isinstance(v, bool) or (isinstance(v, T) and v.tag in ('cmp', 'ptm', 'npt')):
                    return neg(v)
                ty = self.opty(fr, r[2])
                if self.tys[ty]['k'] == 'bool':
                    return mkT('ptm', self.fresh('nb'))
                v = self.aslin(v, ty)
                lo, hi = self.bounds(ty)
                return (-v) + hi if lo == 0 else (-v) - 1
            if r[1] == 'Neg':
                return -self.aslin(v, self.opty(fr, r[2]))
            if r[1] == 'PtrMetadata':
                if v.tag == 'sl':
                    return v.a[2]
                if v.tag == 'str':
                    return self.strlen(s, v.a[0])
                if v.tag in ('ref', 'rv'):
                    x = self.deref(s, v)
                    return self.seqlen(x)
                return self.fresh_int(0, self.lenmax())
            return TOP
        if k == 'cast':
            return self.cast(s, fr, r)
        if k == 'agg':
            kk = r[1]
            vs = tuple(self.op(s, fr, o) for o in r[2])
            if kk[0] == 'adt':
                if self.tys[kk[1]].get('name') == 'core::fmt::Arguments':
                    return TOP
                if kk[1] == self.errty and not self.strmode:
                    self.log_err(s, fr, None, None)
                return mkT('adt', kk[1], kk[2], vs)
            if kk[0] == 'tup':
                return mkT('tup', vs)
            if kk[0] == 'arr':
                return mkT('arr', vs)
            if kk[0] == 'clo':
                return mkT('clo', kk[1], vs)
            return TOP
        if k == 'rep':
            v = self.op(s, fr, r[1])
            n = r[2]
            if n <= 256:
                return mkT('arr', (v,) * n)
            return TOP
        return TOP

    def strlen(self, s, term):
        if term.tag == 'lit':
            return const(len(term.a[0].encode()))
        if term.tag == 'sub':
            return term.a[2] - term.a[1]
        return var(atom(('slen', term), 0, self.lenmax()))

    def mkref(self, s, fr, place, mut):
        loc, v = self.walk(s, fr, place)
        if isinstance(v, T) and v.tag in ('sl', 'str') and place[-1] == '*':
            return v
        if isinstance(v, T) and v.tag == 'sl' and isinstance(place[-1], list) and place[-1][0] == 'ss':
            return v
        if isinstance(v, T) and v.tag == 'str' and loc is None and self.tys[self.placety(fr, place)]['k'] == 'str':
            return v
        if loc is not None:
            return mkT('ref', loc[0], loc[1])
        if mut:
            self.heap += 1
            root = ('H', self.heap)
            s.mem[root] = v
            return mkT('ref', root, ())
        return rv(v)

    def deref(self, s, v):
        if v.tag == 'ref':
            return self.get_path(s, v.a[0], v.a[1])
        if v.tag == 'rv':
            return v.a[0]
        if v.tag == 'guard':
            return self.deref(s, v.a[0])
        if v.tag in ('sl', 'str'):
            return v
        if v.tag == 'sym':
            t = self.tys[v.a[1]]
            if t['k'] in ('ref', 'ptr'):
                return self.symval(mkT('dr', v.a[0]), t['e'])
        return TOP

    def strip(self, s, v):
        """dereference through any number of references"""
        n = 0
        while isinstance(v, T) and v.tag in ('ref', 'rv') and n < 8:
            v = self.deref(s, v)
            n += 1
        return v

    def cast(self, s, fr, r):
        kind, o, ty = r[1], r[2], r[3]
        v = self.op(s, fr, o)
        if kind == 'IntToInt':
            if isinstance(v, T) and v.tag == 'discr':
                v = self.discr_lin(s, v)
            if isinstance(v, bool) or (isinstance(v, T) and v.tag in ('cmp', 'ptm', 'npt')):
                return const(int(self.truth(s, v)))
            if isinstance(v, T) and v.tag in ('adt', 'sym'):
                d = self.discriminant(s, v, None)
                v = self.discr_lin(s, d) if isinstance(d, T) and d.tag == 'discr' else d
            v = self.aslin(v, self.opty(fr, o))
            return self.wrap(s, v, ty)
        if kind.startswith('PointerCoercion(Unsize'):
            t = self.tys[ty]
            if t['k'] in ('ref', 'ptr') and self.tys[t['e']]['k'] == 'slice':
                x = self.strip(s, v)
                if isinstance(x, T) and x.tag == 'arr':
                    if t['k'] == 'ref' and t['mut']:
                        l = models.innermost_loc(self, s, v)
                        if models.loc(l):
                            return mkT('slm', l.a[0], l.a[1])
                    return mkT('sl', mkT('list', (mkT('items', x.a[0]),), self.tys[t['e']]['e']), const(0), const(len(x.a[0])))
                if isinstance(x, T) and x.tag == 'sym':
                    n = self.tys[x.a[1]].get('n', 0)
                    return mkT('sl', mkT('buf', x.a[0], self.tys[t['e']]['e']), const(0), const(n))
            return v
        if kind.startswith('PointerCoercion'):
            return v
        if kind == 'Transmute' or kind == 'PtrToPtr':
            return v
        return TOP

    # ------------------------------------------------------------ helpers for the library models
    def resolve_variant(self, s, v):
        """the enum value with a single known variant (splits the state when undecided)"""
        if v.tag == 'adt':
            return v
        vs = self.variants(s, v)
        if len(vs) == 1:
            return self.expand(v, next(iter(vs)))
        term = v.a[0]
        raise Split([lambda st, q=q: self.assume_var(st, term, frozenset((q,))) for q in sorted(vs)])

    def arr_slice(self, v, dty):
        t = self.tys[dty]
        ety = None
        if t['k'] == 'ref' and self.tys[t['e']]['k'] == 'slice':
            ety = self.tys[t['e']]['e']
        return mkT('sl', mkT('list', (mkT('items', v.a[0]),), ety), const(0), const(len(v.a[0])))

    def stringish_val(self, v):
        if not isinstance(v, T):
            return False
        if v.tag in ('str', 'strv'):
            return True
        if v.tag == 'adt':
            return self.stringish_adt(self.tys[v.a[0]])
        if v.tag == 'sym':
            return self.stringish(v.a[1])
        return False

    def owned_str(self, term, dty):
        return mkT('strv', term)

    def st_lo(self, s, lin):
        return s.st.interval(lin)[0]

    def bitsof(self, ty):
        return self.tys[ty]['bits']

    def str_eq(self, cx, a, b):
        if a is b:
            return True
        if a.tag == 'lit' and b.tag == 'lit':
            return a.a[0] == b.a[0]
        if a.tag == 'lit':
            a, b = b, a
        if b.tag == 'lit':
            return mkT('ptm', mkT('streq', a, b.a[0]))
        x, y = sorted((a, b), key=lambda z: z.n)
        return mkT('ptm', mkT('streq2', x, y))

    def str_empty(self, cx, t, n):
        if t.tag == 'lit':
            return len(t.a[0]) == 0
        return mkT('ptm', mkT('streq', t, ''))

    def str_bytes(self, s, t, dty):
        if t.tag == 'lit':
            bs = t.a[0].encode()
            return mkT('sl', mkT('list', (mkT('items', tuple(const(x) for x in bs)),), None), const(0), const(len(bs)))
        u8 = self.p.by_s.get('u8')
        return mkT('sl', mkT('buf', mkT('strbytes', t), u8), const(0), self.strlen(s, t))

    def str_slice(self, cx, t, r):
        n = self.strlen(cx.s, t)
        from models import range_of
        rr = range_of(self, cx, r, n)
        if rr is not None and rr[0] is const(0) and rr[1] is n:
            return [(cx.s, mkT('str', t))]
        self.fail_site(cx.fr, cx.span, 'str-slice', 'string slicing in a function that is not analysed over strings')
        return [(cx.s, mkT('str', self.fresh('substr')))]

    def str_misc(self, cx, name):
        t = self.strterm(cx.s, cx.args[0])
        others = []
        for a in cx.args[1:]:
            a = self.strip(cx.s, a)
            others.append(a if isinstance(a, (T, Lin)) else mkT('pat', str(a)))
        return [(cx.s, self.symval(mkT('strop', name, t, tuple(others)), cx.dty))]

    def chars_new(self, s, term, kind):
        return None

    def fmt_arg(self, cx):
        return [(cx.s, TOP)]

    def inttype(self):
        for n in ('isize', 'usize', 'i32', 'u32', 'i64', 'u16', 'u8'):
            if n in self.p.by_s:
                return self.p.by_s[n]
        return next(i for i, t in enumerate(self.tys) if t['k'] in ('int', 'uint'))

    def synth_iter(self, cx, name):
        """Iterator::all/any/fold/... expanded into the loop over `next` that defines them."""
        from program import mkbody, Fn
        c = cx.c
        if not isinstance(c.get('next'), int) or c.get('nextret') is None or cx.argtys is None or cx.argtys[0] is None:
            return None
        key = (name, c['next'], tuple(cx.argtys), cx.dty)
        fn = self._synth.get(key)
        if fn is None:
            fn = self._synth[key] = self._mksynth(cx, name) or False
        if not fn:
            return None
        entry = cx.s.copy()
        outs = self.run_fn(fn, list(cx.args), cx.s)
        return self.merge_err(outs, entry, fn)

    def _mksynth(self, cx, name):
        from program import mkbody, Fn
        c, tys = cx.c, self.tys
        byref = tys[cx.argtys[0]]['k'] == 'ref' and name in ('all', 'any', 'position', 'find', 'find_map', 'try_for_each', 'try_fold')
        fidx = {'fold': 3}.get(name, 2)
        hasf = name in ('all', 'any', 'fold', 'for_each', 'position', 'find', 'find_map')
        opt = tys[c['nextret']]
        if not opt.get('vs') or len(opt['vs'][1][2]) != 1:
            return None
        item = opt['vs'][1][2][0][1]
        nargs = len(cx.args)
        locs = [cx.dty] + list(cx.argtys)
        it = self.inttype()

        def new(ty):
            locs.append(ty)
            return len(locs) - 1
        r_it, o_next, l_d, l_item = new(cx.argtys[0]), new(c['nextret']), new(it), new(item)
        fcallee = fret = None
        if hasf:
            ft = tys[cx.argtys[fidx - 1]]
            byv = True
            while ft['k'] == 'ref':
                ft = tys[ft['e']]
            if ft['k'] == 'closure' and isinstance(ft.get('inst'), int) and self.p.fns[ft['inst']].body:
                fcallee = {'path': 'core::ops::function::FnMut::call_mut', 'closure': ft['inst'], 'targs': [], 'kind': 'item'}
                fret = self.p.fns[ft['inst']].body.locals[0]
            elif ft['k'] == 'fndef':
                fcallee = {'path': 'core::ops::function::FnMut::call_mut', 'fnitem': ft['callee'], 'targs': [], 'kind': 'item'}
                fi = ft['callee'].get('inst', -1)
                if fi < 0 or not self.p.fns[fi].body:
                    if name not in ('all', 'any', 'for_each'):
                        return None
                    fret = self.p.by_s.get('bool') if name != 'for_each' else self.p.by_s.get('()')
                else:
                    fret = self.p.fns[fi].body.locals[0]
            else:
                return None
            if fret is None:
                return None
        sp = cx.span
        blocks = []
        U = ['unreachable']

        def mv(l):
            return ['m', [l]]

        def cp(l):
            return ['c', [l]]

        def cst(ty, cv):
            return ['k', ty, cv]
        nx = self.p.fns[c['next']]
        ncallee = {'path': 'core::iter::traits::iterator::Iterator::next', 'rpath': c.get('nextpath'), 'inst': c['next'], 'targs': nx.targs, 'kind': 'item'}
        HEAD, TEST, BODY, END = 1, 2, 3, 4
        setit = ['=', [r_it], ['use', cp(1)], sp] if byref else ['=', [r_it], ['ref', True, [1]], sp]
        init = []
        bodyx = []
        blk = {0: None}
        if name == 'fold':
            acc = new(cx.dty)
            init = [['=', [acc], ['use', mv(2)], sp]]
        if name == 'position':
            us = cx.dty and tys[cx.dty]['vs'][1][2][0][1]
            cnt = new(us)
            init = [['=', [cnt], ['use', cst(us, ['i', '0'])], sp]]
        if name in ('count', 'sum'):
            cnt = new(cx.dty)
            init = [['=', [cnt], ['use', cst(cx.dty, ['i', '0'])], sp]]
        vecty = resty = None
        if name == 'collect':
            d = tys[cx.dty]
            if d['k'] == 'adt' and d['name'] == 'alloc::vec::Vec':
                vecty = cx.dty
            elif d['k'] == 'adt' and d['name'] in ('core::result::Result', 'core::option::Option'):
                okv = 0 if d['name'].endswith('Result') else 1
                vecty = d['vs'][okv][2][0][1]
                if not (tys[vecty]['k'] == 'adt' and tys[vecty]['name'] == 'alloc::vec::Vec'):
                    return None
                resty = d['name']
            else:
                return None
            vec = new(vecty)
            unit = new(self.p.by_s.get('()', it))
            vref = new(vecty)
        if name == 'last':
            lastl = new(cx.dty)
            init = [['=', [lastl], ['agg', ['adt', cx.dty, 0], []], sp]]
        if hasf:
            fref, ftup, fres = new(cx.argtys[fidx - 1]), new(it), new(fret)
        B = []

        def add(stmts, term):
            B.append([stmts, term, sp])
            return len(B) - 1
        # 0: init
        if name == 'collect':
            vn = {'path': 'alloc::vec::{impl}::new', 'kind': 'item', 'targs': []}
            add(init, ['call', cst(None, ['fn', vn]), [], [vec], 1])
        else:
            add(init, ['goto', 1])
        add([setit], ['call', cst(None, ['fn', ncallee]), [cp(r_it)], [o_next], 2])
        END = 4
        add([['=', [l_d], ['discr', [o_next]], sp]], ['switch', cp(l_d), [['0', END], ['1', 3]], 5])
        getitem = ['=', [l_item], ['use', ['m', [o_next, ['v', 1], ['f', 0, item]]]], sp]

        def fcall(argops, tgt):
            st = [['=', [fref], ['ref', True, [fidx]], sp], ['=', [ftup], ['agg', ['tup'], argops], sp]]
            return st, ['call', cst(None, ['fn', fcallee]), [cp(fref), mv(ftup)], [fres], tgt]
        bty = cx.dty

        def retb(b):
            return [['=', [0], ['use', cst(cx.dty, ['b', b])], sp]], ['ret']
        if name in ('all', 'any'):
            st, tm = fcall([mv(l_item)], 6)
            add([getitem] + st, tm)                                    # 3
            add(*retb(name == 'all'))                                  # 4
            add([], U)                                                 # 5
            if name == 'all':
                add([], ['switch', cp(fres), [['0', 7]], 1])           # 6
                add(*retb(False))
            else:
                add([], ['switch', cp(fres), [['0', 1]], 7])
                add(*retb(True))
        elif name == 'for_each':
            st, tm = fcall([mv(l_item)], 1)
            add([getitem] + st, tm)
            add([['=', [0], ['agg', ['tup'], []], sp]], ['ret'])
            add([], U)
        elif name == 'fold':
            st, tm = fcall([mv(acc), mv(l_item)], 6)
            add([getitem] + st, tm)
            add([['=', [0], ['use', mv(acc)], sp]], ['ret'])
            add([], U)
            add([['=', [acc], ['use', mv(fres)], sp]], ['goto', 1])
        elif name == 'position':
            st, tm = fcall([mv(l_item)], 6)
            add([getitem] + st, tm)
            add([['=', [0], ['agg', ['adt', cx.dty, 0], []], sp]], ['ret'])
            add([], U)
            add([], ['switch', cp(fres), [['0', 8]], 7])
            add([['=', [0], ['agg', ['adt', cx.dty, 1], [cp(cnt)]], sp]], ['ret'])
            add([['=', [cnt], ['bin', 'AddUnchecked', cp(cnt), cst(us, ['i', '1'])], sp]], ['goto', 1])
        elif name == 'find':
            pr = new(item)
            st, tm = fcall([cp(pr)], 6)
            add([getitem, ['=', [pr], ['ref', False, [l_item]], sp]] + st, tm)
            add([['=', [0], ['agg', ['adt', cx.dty, 0], []], sp]], ['ret'])
            add([], U)
            add([], ['switch', cp(fres), [['0', 1]], 7])
            add([['=', [0], ['agg', ['adt', cx.dty, 1], [mv(l_item)]], sp]], ['ret'])
        elif name == 'find_map':
            st, tm = fcall([mv(l_item)], 6)
            add([getitem] + st, tm)
            add([['=', [0], ['agg', ['adt', cx.dty, 0], []], sp]], ['ret'])
            add([], U)
            add([['=', [l_d], ['discr', [fres]], sp]], ['switch', cp(l_d), [['0', 1]], 7])
            add([['=', [0], ['use', mv(fres)], sp]], ['ret'])
        elif name == 'count':
            add([['=', [cnt], ['bin', 'AddUnchecked', cp(cnt), cst(cx.dty, ['i', '1'])], sp]], ['goto', 1])
            add([['=', [0], ['use', cp(cnt)], sp]], ['ret'])
            add([], U)
        elif name == 'last':
            add([getitem, ['=', [lastl], ['agg', ['adt', cx.dty, 1], [mv(l_item)]], sp]], ['goto', 1])
            add([['=', [0], ['use', mv(lastl)], sp]], ['ret'])
            add([], U)
        elif name == 'collect':
            pu = {'path': 'alloc::vec::{impl}::push', 'kind': 'item', 'targs': []}
            push = ['call', cst(None, ['fn', pu]), [cp(vref), mv(l_item)], [unit], 1]
            mkref = ['=', [vref], ['ref', True, [vec]], sp]
            if resty is None:
                add([getitem, mkref], push)
                add([['=', [0], ['use', mv(vec)], sp]], ['ret'])
                add([], U)
            else:
                okv = 0 if resty.endswith('Result') else 1
                inner = tys[item]
                if not inner.get('vs'):
                    return None
                okty = inner['vs'][okv][2][0][1]
                x = new(okty)
                add([getitem, ['=', [l_d], ['discr', [l_item]], sp]], ['switch', cp(l_d), [[str(okv), 6]], 7])
                add([['=', [0], ['agg', ['adt', cx.dty, okv], [mv(vec)]], sp]], ['ret'])
                add([], U)
                push[2][1] = mv(x)
                add([['=', [x], ['use', ['m', [l_item, ['v', okv], ['f', 0, okty]]]], sp], mkref], push)
                if okv == 0:
                    ety = inner['vs'][1][2][0][1]
                    add([['=', [0], ['agg', ['adt', cx.dty, 1], [['m', [l_item, ['v', 1], ['f', 0, ety]]]]], sp]], ['ret'])
                else:
                    add([['=', [0], ['agg', ['adt', cx.dty, 0], []], sp]], ['ret'])
        else:
            return None
        fn = Fn()
        fn.id = -1000 - len(self._synth)
        fn.path = fn.npath = 'iterator loop ' + name
        fn.name = name
        fn.local = False
        fn.shim = None
        fn.span = sp
        fn.targs = []
        fn.trait = None
        fn.closure_like = True
        fn.body = mkbody({'argc': nargs, 'locals': locs, 'blocks': B, 'dbg': [], 'spread': None})
        return fn

    # ------------------------------------------------------------ obligations
    def chain(self):
        return tuple((f.path, sp) for f, sp in self.stack)

    def oblige(self, s, fr, span, kind, p, detail=''):
        r = self.decide(s, p)
        self.obl.append(((fr.fn.id, tuple(span or ()), kind), r is True, self.chain() if r is not True else None,
                         detail if r is not True else None))
        return r

    def fail_site(self, fr, span, kind, detail=''):
        self.obl.append(((fr.fn.id, tuple(span or ()), kind), False, self.chain(), detail))

    # ------------------------------------------------------------ execution
    def run_fn(self, fn, args, s):
        """-> list of (state, value)"""
        fkey = (fn.id,) + tuple((f.id, tuple(sp)) for f, sp in self.stack)
        fid = self.framekeys.get(fkey)
        if fid is None:
            self.frame += 1
            fid = self.framekeys[fkey] = self.frame
        if ('L', fid, 1) in s.mem or ('L', fid, 0) in s.mem:
            self.frame += 1
            fid = self.frame
        fr = Fr(fid, fn)
        self.frames[fid] = fn
        self.fnseen[fn.id] = self.fnseen.get(fn.id, 0) + 1
        for i, a in enumerate(args):
            s.mem[('L', fr.id, i + 1)] = a
        outs = self.region(fr, 0, s, None, None)
        res = []
        for o in outs:
            if o[0] != 'ret':
                raise AnalysisError('exit from function?')
            st, v = o[1], o[2]
            fid = fr.id
            for k in [k for k in st.mem if k[0] == 'L' and k[1] == fid]:
                del st.mem[k]
            res.append((st, v))
        return res

    def region(self, fr, start, s, blocks, header):
        body = fr.body
        results = []
        work = [(start, 0, s, True)]
        loops = body.loops
        while work:
            bb, si, s, first = work.pop()
            if si == 0:
                if blocks is not None:
                    if bb == header and not first:
                        results.append(('back', s))
                        continue
                    if bb not in blocks:
                        results.append(('exit', s, bb))
                        continue
                if bb in loops and bb != header or (bb in loops and blocks is None):
                    exits = self.unroll(fr, bb, s)
                    if exits is None:
                        exits = self.loop(fr, bb, s)
                    for st, tgt in reversed(exits):
                        work.append((tgt, 0, st, False))
                    continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise AnalysisError('step budget exhausted')
            if si < 0:
                si = 0
            blk = body.blocks[bb]
            stmts = blk[0]
            n = len(stmts)
            try:
                while si < n:
                    st = stmts[si]
                    if st[0] == '=':
                        rr = st[2]
                        v = self.rvalue(s, fr, rr, st[1])
                        if len(st[1]) == 1:
                            s.mem[('L', fr.id, st[1][0])] = v
                        else:
                            self.assign(s, fr, st[1], v)
                    elif st[0] == 'setd':
                        loc, ov = self.walk(s, fr, st[1])
                        if ov is not None and ov.tag == 'adt':
                            self.assign(s, fr, st[1], mkT('adt', ov.a[0], st[2], ov.a[2]))
                    si += 1
                term = blk[1]
                self.terminator(fr, bb, blk, term, s, work, results, blocks, header)
            except Split as sp:
                for opt in reversed(sp.options):
                    s2 = s.copy()
                    try:
                        if opt(s2):
                            # si = -1: resume at the first statement without re-entering a loop head
                            work.append((bb, si if si else -1, s2, True))
                    except Infeasible:
                        pass
            except Infeasible:
                pass
        return results

    def assign(self, s, fr, place, v):
        loc, _ = self.walk_loc(s, fr, place)
        if loc is None:
            return
        self.write_loc(s, loc[0], loc[1], v)

    def walk_loc(self, s, fr, place):
        if len(place) == 1:
            return (('L', fr.id, place[0]), ()), None
        # walk everything but compute only the location
        root = ('L', fr.id, place[0])
        loc = (root, ())
        variant = 0
        i = 1
        v = None
        while i < len(place):
            e = place[i]
            if e == '*':
                cur = self.get_path(s, *loc) if loc else v
                if cur is None:
                    raise AnalysisError('deref uninit')
                if cur.tag == 'ref':
                    loc = (cur.a[0], cur.a[1])
                elif cur.tag == 'adt' and self.tname(cur.a[0]) in models.BOX:
                    loc = (loc[0], loc[1] + (('f', 0, 0, None),))
                else:
                    self.notes.append(('write through unknown reference', fr.fn.path))
                    return None, None
                variant = 0
            elif e[0] == 'v':
                variant = e[1]
            elif e[0] == 'f':
                if loc[1] == () and s.mem.get(loc[0]) is None and loc[0][0] == 'L' and loc[0][1] == fr.id:
                    ty = fr.body.locals[loc[0][2]]
                    t = self.tys[ty]
                    if t['k'] == 'tuple':
                        s.mem[loc[0]] = mkT('tup', (TOP,) * len(t['fs']))
                    elif t['k'] == 'adt' and t.get('vs'):
                        s.mem[loc[0]] = mkT('adt', ty, variant, (TOP,) * len(t['vs'][variant][2]))
                loc = (loc[0], loc[1] + (('f', variant, e[1], e[2]),))
                variant = 0
            elif e[0] == 'i':
                loc = (loc[0], loc[1] + (('i', s.mem[('L', fr.id, e[1])]),))
            elif e[0] == 'ci':
                loc = (loc[0], loc[1] + (('i', const(e[1])),))
            elif e[0] == 'oc':
                pass
            else:
                return None, None
            i += 1
        return loc, None

    def terminator(self, fr, bb, blk, t, s, work, results, blocks, header):
        k = t[0]
        if k == 'goto':
            work.append((t[1], 0, s, False))
        elif k == 'ret':
            v = s.mem.get(('L', fr.id, 0))
            results.append(('ret', s, UNIT if v is None else v))
        elif k == 'switch':
            self.switch(fr, t, s, work)
        elif k == 'drop':
            self.drop(s, fr, t[1], t[3] if len(t) > 3 else None, work, t[2])
        elif k == 'assert':
            self.do_assert(fr, blk, t, s, work)
        elif k == 'call':
            outs = self.do_call(fr, blk, t, s)
            for st, v in reversed(outs):
                if t[4] >= 0:
                    if len(t[3]) == 1:
                        st.mem[('L', fr.id, t[3][0])] = v
                    else:
                        self.assign(st, fr, t[3], v)
                    work.append((t[4], 0, st, False))
        elif k in ('unreachable', 'resume', 'abort'):
            pass
        else:
            raise AnalysisError('terminator ' + k)

    def sum_bounded(self, s, lin, hi):
        return False

    def do_assert(self, fr, blk, t, s, work):
        cond, expected, msg, target = t[1], t[2], t[3], t[4]
        v = self.op(s, fr, cond)
        if isinstance(v, T) and v.tag == 'ovf':
            lin, ty = v.a
            lo, hi = self.bounds(ty)
            p1, p2 = mkcmp('ge', lin - lo), mkcmp('ge', -lin + hi)
            ok = (self.decide(s, p1) is True) and (self.decide(s, p2) is True or self.sum_bounded(s, lin, hi))
            self.obl.append(((fr.fn.id, tuple(blk[2] or ()), 'overflow:' + str(msg[1])), ok,
                             None if ok else self.chain(), None if ok else f'{lin} in [{lo},{hi}]'))
            if self.assume(s, p1) and self.assume(s, p2):
                work.append((target, 0, s, False))
            return
        if not isinstance(v, bool) and v.tag not in ('cmp', 'ptm', 'npt'):
            v = mkT('ptm', self.fresh('as'))
        if not expected:
            v = neg(v)
        self.oblige(s, fr, blk[2], msg[0] if msg[0] != 'overflow' else 'overflow:' + str(msg[1]), v, str(v))
        if self.assume(s, v):
            work.append((target, 0, s, False))

    def switch(self, fr, t, s, work):
        v = self.op(s, fr, t[1])
        arms, other = t[2], t[3]
        if isinstance(v, bool) or (isinstance(v, T) and v.tag in ('cmp', 'ptm', 'npt', 'ovf')):
            if isinstance(v, T) and v.tag == 'ovf':
                v = mkT('ptm', v)
            f = other
            tr = other
            for val, b in arms:
                if val == '0':
                    f = b
                else:
                    tr = b
            r = self.decide(s, v)
            if r is not None:
                work.append((tr if r else f, 0, s, False))
                return
            s2 = s.copy()
            if self.assume(s2, v, False):
                work.append((f, 0, s2, False))
            if self.assume(s, v, True):
                work.append((tr, 0, s, False))
            return
        if isinstance(v, T) and v.tag == 'discr':
            term, ty = v.a
            vs = self.variants(s, mkT('sym', term, ty))
            by = {}
            tv = self.tys[ty]['vs']
            rest = set(vs)
            for val, b in arms:
                for i in vs:
                    if tv[i][1] == val:
                        by.setdefault(b, set()).add(i)
                        rest.discard(i)
            if rest and other is not None and other >= 0:
                by.setdefault(other, set()).update(rest)
            for b, vv in sorted(by.items(), key=lambda x: -min(x[1])):
                s2 = s.copy()
                try:
                    if self.assume_var(s2, term, frozenset(vv)):
                        work.append((b, 0, s2, False))
                except Infeasible:
                    pass
            return
        ty = self.opty(fr, t[1])
        v = self.aslin(v, ty)
        if v.isconst():
            for val, b in arms:
                if int(val) == v.c:
                    work.append((b, 0, s, False))
                    return
            work.append((other, 0, s, False))
            return
        rest = s
        alive = True
        nxt = []
        for val, b in arms:
            d = v - int(val)
            r = rest.st.decide('eq', d)
            if r is False:
                continue
            s2 = rest.copy()
            if s2.st.assume('eq', d):
                nxt.append((b, 0, s2, False))
            if r is True:
                alive = False
                break
            if not rest.st.assume('ne', d):
                alive = False
                break
        if alive and other is not None and other >= 0:
            nxt.append((other, 0, rest, False))
        work.extend(reversed(nxt))

    def drop(self, s, fr, place, ty, work, target):
        v = None
        try:
            v = self.walk(s, fr, place)[1]
        except AnalysisError:
            pass
        if s.guards and v is not None:
            acc = set()
            subterms(v, acc)
            gs = {x.a[1] for x in acc if x.tag == 'guard'}
            if gs:
                s.guards = tuple(g for g in s.guards if g[0] not in gs)
        work.append((target, 0, s, False))

    # ------------------------------------------------------------ calls
    def do_call(self, fr, blk, t, s):
        f, argops, dest = t[1], t[2], t[3]
        span = blk[2]
        args = [self.op(s, fr, a) for a in argops]
        dty = self.placety(fr, dest)
        if f[0] == 'k':
            c = f[2]
            if c[0] == 'fn':
                callee = c[1]
            elif c[0] == 'fnptr':
                return self.call_inst(fr, span, c[1], args, s, dty)
            else:
                return self.unknown_call(fr, span, '?', args, s, dty, [])
        else:
            v = self.op(s, fr, f)
            return self.call_value(fr, span, v, args, s, dty)
        argtys = [self.opty(fr, a) for a in argops]
        self.stack.append((fr.fn, span))
        try:
            return self.call(fr, span, callee, args, s, dty, argtys)
        finally:
            self.stack.pop()

    def call_inst(self, fr, span, inst, args, s, dty):
        fn = self.p.fns[inst]
        return self.call(fr, span, {'path': fn.path, 'inst': inst, 'targs': fn.targs, 'kind': 'item'}, args, s, dty, [None] * len(args))

    def call_value(self, fr, span, v, args, s, dty):
        v = self.strip(s, v) if isinstance(v, T) else v
        if isinstance(v, T) and v.tag == 'fnptr':
            return self.call_inst(fr, span, v.a[0], args, s, dty)
        if isinstance(v, T) and v.tag == 'fn':
            return self.call(fr, span, self._fnk[v.a[0]], args, s, dty, [None] * len(args))
        return self.unknown_call(fr, span, 'indirect call', args, s, dty, [])

    def call(self, fr, span, c, args, s, dty, argtys):
        path = npath_(c['path'])
        rpath = npath_(c.get('rpath') or c['path'])
        inst = c.get('inst', -1)
        fn = self.p.fns[inst] if isinstance(inst, int) and inst >= 0 else None
        m = models.find(path, rpath)
        if m is not None:
            r = m(self, models.Ctx(fr, span, c, args, s, dty, argtys))
            if r is not None:
                return r
        if c.get('closure') is not None and path.startswith('core::ops::function::'):
            return self.call_closure(fr, span, c['closure'], args, s, dty)
        if c.get('fnitem') is not None and path.startswith('core::ops::function::'):
            a = args[1]
            fs = list(a.a[0]) if isinstance(a, T) and a.tag == 'tup' else [a]
            return self.call(fr, span, c['fnitem'], fs, s, dty, [None] * len(fs))
        if path.startswith('core::ops::function::') and fn is None:
            a = args[1]
            fs = list(a.a[0]) if isinstance(a, T) and a.tag == 'tup' else [a]
            return self.call_value(fr, span, args[0], fs, s, dty)
        if fn is None or fn.body is None:
            return self.unknown_call(fr, span, rpath, args, s, dty, argtys)
        if len(self.stack) > 120:
            raise AnalysisError('call depth: ' + ' > '.join(f.path for f, _ in self.stack[-8:]))
        if fn.local:
            if not self.strmode and self.cut_string(fn):
                return self.cut_call(fr, fn, args, s, dty)
            if self.is_errfn(fn):
                self.log_err(s, fr, fn, span)
                return [(s, mkT('sym', mkT('err', fn.path), dty))]
        if fn.id in self.sccs:
            scc = self.sccs[fn.id]
            if self.rec_scc is not scc or any(f is fn for f in self.inrec):
                return self.rec_call(fr, span, fn, args, s, dty)
            self.inrec.append(fn)
            try:
                return self.call_body(fn, args, s)
            finally:
                self.inrec.pop()
        return self.call_body(fn, args, s)

    def call_body(self, fn, args, s):
        if fn.body.spread:
            pass
        nargs = fn.body.argc
        if len(args) != nargs:
            # rust-call ABI: closure-like tuple spreading
            if len(args) == 2 and isinstance(args[1], T) and args[1].tag == 'tup':
                args = [args[0]] + list(args[1].a[0])
        if fn.id in self.hooks:
            return self.hooks[fn.id](s, args)
        entry = s.copy()
        outs = self.run_fn(fn, args, s)
        return self.merge_err(outs, entry, fn)

    def call_closure(self, fr, span, inst, args, s, dty):
        fn = self.p.fns[inst]
        if fn.body is None:
            return self.unknown_call(fr, span, fn.path, args, s, dty, [])
        selfv = args[0]
        rest = list(args[1].a[0]) if len(args) > 1 and isinstance(args[1], T) and args[1].tag == 'tup' else list(args[1:])
        want_ref = self.tys[fn.body.locals[1]]['k'] == 'ref' if fn.body.argc >= 1 else False
        # strip nested references (&mut &mut F)
        cur = selfv
        while isinstance(cur, T) and cur.tag in ('ref', 'rv'):
            inner = self.deref(s, cur)
            if isinstance(inner, T) and inner.tag in ('ref', 'rv'):
                cur = inner
            else:
                break
        if want_ref:
            if not (isinstance(cur, T) and cur.tag in ('ref', 'rv')):
                self.heap += 1
                root = ('H', self.heap)
                s.mem[root] = cur
                cur = mkT('ref', root, ())
        else:
            if isinstance(cur, T) and cur.tag in ('ref', 'rv'):
                cur = self.deref(s, cur)
        entry = s.copy()
        outs = self.run_fn(fn, [cur] + rest, s)
        return self.merge_err(outs, entry, fn)

    def is_err(self, v):
        return isinstance(v, T) and v.tag == 'adt' and self.tname(v.a[0]) == ERR_OK and v.a[1] == 1

    def is_errfn(self, fn):
        if self.errty is None:
            return False
        return fn.body.locals[0] == self.errty

    def log_err(self, s, fr, fn, span):
        """a parse error is created here (functions that take an error only add context to an existing one)"""
        if fn is not None and any(fn.body.locals[i] == self.errty for i in range(1, fn.body.argc + 1)):
            return
        r = LoopRec()
        r.fn, r.span, r.chain, r.active = fr.fn, tuple(span or ()), self.chain(), tuple(self.active)
        r.rec = self.inrec[0].id if self.inrec else None
        r.state = s.copy()
        self.errlog.append(r)
        s.trail = s.trail + (('err', fr.fn.npath),)

    def merge_err(self, outs, entry, fn):
        errs = [o for o in outs if self.is_err(o[1]) and self.parse_err(o[1])]
        if len(errs) <= 1:
            return outs
        oks = [o for o in outs if not (self.is_err(o[1]) and self.parse_err(o[1]))]
        s = self.join_states([e[0] for e in errs], entry)
        ty = errs[0][1].a[0]
        return oks + [(s, mkT('adt', ty, 1, (mkT('sym', mkT('err', fn.path), self.errty),)))]

    def parse_err(self, v):
        return self.errty is not None and self.tys[v.a[0]]['vs'][1][2][0][1] == self.errty

    def join_states(self, ss, entry):
        s = entry.copy()
        for root, v in entry.mem.items():
            vs = [x.mem.get(root, v) for x in ss]
            if any(x is not v for x in vs):
                s.mem[root] = self.joinval([v] + vs)
        for x in ss:
            for root in x.mem:
                if root[0] == 'C' and root not in entry.mem:
                    inner = self.T(root[2])['targs'][0]
                    s.mem[root] = self.symval(self.fresh('cw'), inner)
        s.guards = tuple(g for g in entry.guards if all(g in x.guards for x in ss))
        s.trail = entry.trail + (('err', 'merged'),)
        return s

    STRTY = ('alloc::string::String',)

    def stringish(self, ty):
        t = self.tys[ty]
        if t['k'] == 'ref':
            e = self.tys[t['e']]
            return e['k'] == 'str' or self.stringish_adt(e)
        return self.stringish_adt(t)

    def stringish_adt(self, t):
        if t['k'] != 'adt':
            return False
        if t['name'] == 'alloc::string::String':
            return True
        if t['name'] == 'alloc::borrow::Cow':
            return any(self.tys[x]['k'] == 'str' for x in t['targs'])
        return False

    def scalar(self, ty):
        t = self.tys[ty]
        return t['k'] in ('int', 'uint', 'char', 'bool')

    def cut_string(self, fn):
        r = self._shapes.get(fn.id)
        if r is None:
            r = False
            b = fn.body
            if not fn.closure_like and b.argc >= 1 and len(b.blocks) > 1:      # constructors and the like are looked into
                at = [b.locals[i] for i in range(1, b.argc + 1)]
                r = any(self.stringish(a) for a in at) and all(self.stringish(a) or self.scalar(a) for a in at) \
                    and not self.is_errfn(fn)
            self._shapes[fn.id] = r
        return r

    def strterm(self, s, v):
        v = self.strip(s, v) if isinstance(v, T) else v
        if not isinstance(v, T):
            return self.fresh('str')
        if v.tag == 'str':
            return v.a[0]
        if v.tag == 'adt' and self.tname(v.a[0]) == 'alloc::borrow::Cow':
            return self.strterm(s, v.a[2][0])
        if v.tag == 'sym':
            return v.a[0]
        if v.tag == 'strv':
            return v.a[0]
        return self.fresh('str')

    def cut_call(self, fr, fn, args, s, dty):
        b = fn.body
        at = [b.locals[i] for i in range(1, b.argc + 1)]
        ks = []
        pat = []
        for a, ty in zip(args, at):
            if self.stringish(ty):
                ks.append(self.strterm(s, a))
                pat.append('s')
            else:
                if isinstance(a, T) and a.tag in ('cmp', 'ptm', 'npt'):
                    a = self.truth(s, a)
                if isinstance(a, Lin):
                    ks.append(a)
                    pat.append(a.c if a.isconst() else '?')
                else:
                    ks.append(a)
                    pat.append(a)
        key = (fn.id, tuple(pat))
        self.cuts[key] = self.cuts.get(key, 0) + 1
        term = mkT('F', fn.id, tuple(ks))
        return [(s, self.symval(term, dty))]

    def rec_call(self, fr, span, fn, args, s, dty):
        """cut at a recursive function: checked contract (see rec_root)."""
        b = fn.body
        desc = []
        mids = []
        for i, a in enumerate(args):
            ty = b.locals[i + 1]
            desc.append(self.absarg(s, a, ty))
        self.reccalls.setdefault(fn.id, []).append((tuple(desc), self.chain(), s.copy(), tuple(args)))
        # contract precondition: every cursor within its buffer
        bufs = [d for d in desc if d[0] == 'bytes']
        curs = [d for d in desc if d[0] == 'cursor']
        for c in curs:
            for bf in bufs:
                self.oblige(s, fr, span, 'contract-pre:cursor<=len', mkcmp('ge', bf[3] - c[2]), f'{c[2]} <= {bf[3]}')
        term = mkT('R', fn.id, tuple(d[1] for d in desc))
        ok = s.copy()
        for j, c in enumerate(curs):
            nc = var(atom(('rc', term, j), 0, self.lenmax()))
            self.write_loc(ok, c[3], c[4], nc)
            ok.st.assume('ge', nc - c[2])
            for bf in bufs:
                ok.st.assume('ge', bf[3] - nc)
        ok.trail = ok.trail + (('rec', term),)
        er = s
        er.trail = er.trail + (('err', fn.npath),)
        for j, c in enumerate(curs):
            nc = var(atom(('rce', term, j), 0, self.lenmax()))
            self.write_loc(er, c[3], c[4], nc)
        t = self.tys[dty]
        if t['k'] == 'adt' and t['name'] == ERR_OK:
            okty = t['vs'][0][2][0][1]
            rvl = self.symval(term, okty)
            if isinstance(rvl, T) and rvl.tag == 'list':
                n = self.list_len(rvl)
                if isinstance(n, Lin):
                    ok.st.assume('ge', const(65535) - n)
            return [(ok, mkT('adt', dty, 0, (rvl,))),
                    (er, mkT('adt', dty, 1, (mkT('sym', mkT('err', fn.path), self.errty),)))]
        return [(ok, self.symval(term, dty))]

    def run_roots(self):
        """analyse every recursive function that was cut, from generalised arguments, until no new ones appear."""
        done = {}
        rounds = 0
        while True:
            todo = [f for f in self.reccalls if done.get(f) != len(self.reccalls[f])]
            if not todo:
                return
            rounds += 1
            if rounds > 12:
                raise AnalysisError('recursive contracts do not stabilise')
            for fid in todo:
                calls = self.reccalls[fid]
                prev = self.recres.get(fid)
                g = self.generalise(self.p.fns[fid], calls, prev)
                done[fid] = len(calls)
                if prev is not None and prev.key == g.key:
                    continue
                if prev is not None:
                    dead = {id(o) for o in prev.obls}
                    self.obl = [o for o in self.obl if id(o) not in dead]
                    # the calls recorded by the superseded run are dropped as well
                    for f2 in list(self.reccalls):
                        self.reccalls[f2] = [c for c in self.reccalls[f2] if id(c) not in prev.callids]
                        if f2 in done:
                            done[f2] = min(done[f2], len(self.reccalls[f2]))
                self.recres[fid] = g
                self.rec_root(self.p.fns[fid], g)
                done[fid] = -1 if len(self.reccalls[fid]) != done[fid] else done[fid]

    def generalise(self, fn, calls, prev):
        g = LoopRec()
        b = fn.body
        vals = []
        key = []
        for i in range(b.argc):
            ds = [c[0][i] for c in calls]
            kind = ds[0][0]
            same = all(d[0] == kind and d[1] is ds[0][1] and d[2] is ds[0][2] for d in ds)
            if kind == 'cursor':
                vals.append(('cursor',))
            elif same and kind != 'int' and self.closed(ds[0][2]):
                vals.append(('same', calls[0][3][i], ds[0][2]))
            else:
                vals.append(('gen',))
            key.append((vals[-1][0], vals[-1][2] if vals[-1][0] == 'same' else None))
        g.vals = vals
        base = calls[0][2]
        s = new_state()
        for v in vals:
            if v[0] == 'same':
                self.copyroots(base, v[1], s)
        sts = [c[2] for c in calls]
        for lst in base.forall:
            scs = []
            for sc in base.forall[lst]:
                if all(any(self.schema_eq(sc, sc2) for sc2 in x.forall.get(lst, ())) for x in sts[1:]):
                    scs.append(sc)
            if scs:
                s.forall[lst] = tuple(scs)
        keep = set()
        for v in vals:
            if v[0] == 'same':
                keep |= atoms_of(v[2])
        for l in s.forall:
            keep |= atoms_of(l)
        for kk, d in base.st.con.items():
            if all(a in keep for a, _ in kk):
                dd = d
                for x in sts[1:]:
                    d2 = x.st.con.get(kk)
                    dd = None if d2 is None else iv_join(dd, d2)
                    if dd is None:
                        break
                if dd:
                    s.st.con[kk] = dd
        g.state = s
        g.key = (tuple(key), tuple((l, len(v)) for l, v in s.forall.items()), tuple(s.st.con.items()))
        return g

    def closed(self, v):
        """value not depending on any loop that is still being iterated at the call"""
        if isinstance(v, (T, Lin)):
            for t in atoms_of(v):
                if t.key[0] in ('lv', 'rc', 'rce'):
                    return False
        return True

    def copyroots(self, src, v, dst):
        if isinstance(v, T):
            if v.tag == 'ref':
                if v.a[0] in src.mem and v.a[0] not in dst.mem:
                    dst.mem[v.a[0]] = src.mem[v.a[0]]
                    self.copyroots(src, src.mem[v.a[0]], dst)
            for x in v.a:
                if isinstance(x, T):
                    self.copyroots(src, x, dst)
                elif isinstance(x, tuple):
                    for y in x:
                        self.copyroots(src, y, dst)

    def schema_eq(self, a, b):
        if a is b:
            return True
        return type(a) is type(b) and a.lst is b.lst and a.k is b.k and a.off is b.off and a.lo is b.lo and a.hi is b.hi and \
            len(a.dis) == len(b.dis) and all(x.var == y.var and x.pred == y.pred and x.con == y.con and x.cells == y.cells
                                             for x, y in zip(a.dis, b.dis))

    def rec_root(self, fn, g):
        b = fn.body
        s = g.state.copy()
        args = []
        cur = None
        buf = None
        for i in range(b.argc):
            ty = b.locals[i + 1]
            v = g.vals[i]
            term = mkT('rarg', fn.id, i)
            if v[0] == 'cursor':
                root = ('A', fn.id, i)
                cur = var(atom(('sy', term), 0, self.lenmax()))
                s.mem[root] = cur
                args.append(mkT('ref', root, ()))
                g.cur = cur
                g.curroot = root
            elif v[0] == 'same':
                args.append(v[1])
                if isinstance(v[1], T) and v[1].tag == 'sl' and self.absarg(s, v[1], ty)[0] == 'bytes':
                    buf = v[1].a[2]
            else:
                a = self.symval(term, ty)
                args.append(a)
                if isinstance(a, T) and a.tag == 'sl' and self.absarg(s, a, ty)[0] == 'bytes':
                    buf = a.a[2]
        if cur is not None and buf is not None:
            s.st.assume('ge', buf - cur)
        g.args = args
        g.entry = s.copy()
        saved = (self.rec_scc, self.inrec, self.stack)
        self.rec_scc = self.sccs[fn.id]
        self.inrec = [fn]
        self.stack = []
        n0 = len(self.obl)
        e0 = len(self.errlog)
        before = {id(c) for v in self.reccalls.values() for c in v}
        try:
            outs = self.run_fn(fn, args, s)
        finally:
            self.rec_scc, self.inrec, self.stack = saved
        g.outs = outs
        fr = Fr(-1, fn)
        self.stack = []
        for st, v in outs:
            if self.is_err(v):
                continue
            ok = v
            if isinstance(v, T) and v.tag == 'adt' and self.tname(v.a[0]) == ERR_OK:
                ok = v.a[2][0]
            if cur is not None:
                nc = st.mem[g.curroot]
                if buf is not None:
                    self.oblige(st, fr, None, 'contract-post:cursor<=len', mkcmp('ge', buf - nc), str(nc))
                self.oblige(st, fr, None, 'contract-post:cursor-monotone', mkcmp('ge', nc - cur), str(nc))
            if isinstance(ok, T) and ok.tag == 'list':
                n = self.list_len(ok)
                self.oblige(st, fr, None, 'contract-post:count<=65535', mkcmp('ge', const(65535) - n), str(n))
        g.obls = self.obl[n0:]
        g.errs = self.errlog[e0:]
        del self.errlog[e0:]
        g.callids = {id(c) for v in self.reccalls.values() for c in v} - before

    def absarg(self, s, a, ty):
        t = self.tys[ty]
        if t['k'] == 'ref':
            e = self.tys[t['e']]
            if e['k'] == 'slice':
                if isinstance(a, T) and a.tag == 'sl':
                    et = self.tys[e['e']]
                    if et['k'] == 'uint':
                        return ('bytes', mkT('bytes', a.a[0], a.a[1]), a, a.a[2])
                    return ('list', mkT('lst', a.a[0] if a.a[0].tag == 'list' else a.a[0]), a)
                return ('?', TOP, a)
            if t['mut'] and e['k'] == 'uint' and isinstance(a, T) and a.tag == 'ref':
                v = self.get_path(s, a.a[0], a.a[1])
                return ('cursor', mkT('cur', v), v, a.a[0], a.a[1])
            if e['k'] in ('adt',):
                v = self.strip(s, a)
                return ('val', v if isinstance(v, T) else TOP, v)
        if isinstance(a, Lin):
            return ('int', mkT('int', a), a)
        if isinstance(a, (bool,)):
            return ('bool', mkT('bool', a), a)
        return ('val', a, a)

    def unknown_call(self, fr, span, path, args, s, dty, argtys):
        self.unknown[path] = self.unknown.get(path, 0) + 1
        if path in models.PANICKING or models.is_panic(path):
            self.fail_site(fr, span, 'panic:' + path.split('::')[-1], path)
            return []
        # havoc everything reachable through mutable references
        for a, ty in zip(args, argtys or [None] * len(args)):
            if isinstance(a, T) and a.tag == 'ref' and (ty is None or (self.tys[ty]['k'] == 'ref' and self.tys[ty]['mut'])):
                old = self.get_path(s, a.a[0], a.a[1])
                if isinstance(old, Lin):
                    self.write_loc(s, a.a[0], a.a[1], self.fresh_int(-INF, INF))
                elif isinstance(old, T) and old.tag in ('adt', 'sym'):
                    ty2 = old.a[0] if old.tag == 'adt' else old.a[1]
                    self.write_loc(s, a.a[0], a.a[1], mkT('sym', self.fresh('hv'), ty2))
                else:
                    self.write_loc(s, a.a[0], a.a[1], TOP)
        if self.tys[dty]['k'] == 'never':
            self.fail_site(fr, span, 'panic:' + path.split('::')[-1], path)
            return []
        key = []
        for a in args:
            if isinstance(a, T):
                x = self.strip(s, a)
                key.append(x if isinstance(x, (T, Lin)) else TOP)
            elif isinstance(a, Lin):
                key.append(a)
            else:
                key.append(TOP)
        return [(s, self.symval(mkT('U', path, self.fresh('u')), dty))]

    # ------------------------------------------------------------ loops
    def few(self, v, d=0):
        """the value contains an iterator with a small known number of items left"""
        if not isinstance(v, T) or d > 6:
            return False
        if v.tag in ('siter', 'viter'):
            n = v.a[2] - v.a[1]
            return n.isconst() and n.c <= 16
        if v.tag == 'adt':
            if self.tname(v.a[0]) == models.RANGE and all(isinstance(x, Lin) for x in v.a[2]):
                n = v.a[2][1] - v.a[2][0]
                return n.isconst() and n.c <= 16
            return any(self.few(x, d + 1) for x in v.a[2])
        return False

    def unroll(self, fr, header, S0):
        """execute a loop with a small number of iterations iteration by iteration: loops over short sequences, and loops
        without calls that end after a few iterations on every path.  None if this is not such a loop."""
        body = fr.body
        blocks = body.loops[header]
        term = body.blocks[header][1]
        if term[0] == 'call':
            kn = None
            for st in body.blocks[header][0]:
                if st[0] == '=' and kn is None:
                    if st[2][0] == 'ref':
                        kn = st[2][2][0]
                    elif st[2][0] == 'use' and fr.fn.id < -999 and st[2][1][0] in ('c', 'm') and len(st[2][1][1]) == 1:
                        kn = st[2][1][1][0]          # an iterator that is passed by reference
            v = S0.mem.get(('L', fr.id, kn))
            for _ in range(4):
                if isinstance(v, T) and v.tag == 'ref':
                    v = self.get_path(S0, v.a[0], v.a[1])
            if not self.few(v):
                return None
            cap, width = 18, 64
        else:
            if any(body.blocks[b][1][0] == 'call' for b in blocks) or any(h != header and h in blocks for h in body.loops):
                return None
            cap, width = 10, 48
        no, ne, nl, na = len(self.obl), len(self.errlog), len(self.loopfinal), len(self.allocs)
        exits = []
        work = [S0.copy()]
        for n in range(cap):
            nxt = []
            for s in work:
                for r in self.region(fr, header, s, blocks, header):
                    if r[0] == 'back':
                        nxt.append(r[1])
                    elif r[0] == 'exit':
                        exits.append((r[1], r[2]))
                    else:
                        raise AnalysisError('return inside loop')
            work = nxt
            if not work:
                return exits
            if len(work) + len(exits) > width:
                break
        del self.obl[no:], self.errlog[ne:], self.loopfinal[nl:], self.allocs[na:]
        return None

    def loop(self, fr, header, S0):
        body = fr.body
        blocks = body.loops[header]
        live = body.live[header]
        S = S0
        for k in [k for k in S.mem if k[0] == 'L' and k[1] == fr.id and k[2] not in live and k[2] not in body.taken]:
            del S.mem[k]
        self.lid += 1
        lid = self.lid
        katom = atom(('lk', lid), 0, self.lenmax())
        k = var(katom)
        self.loops_k[lid] = k
        gen = {}
        gvals = {}
        cands = []
        entrybad = []
        dropped = set()
        badc = []
        nobl = len(self.obl)
        nerr = len(self.errlog)
        nall = len(self.allocs)
        ncut = len(self.loopfinal)
        lens = set()
        for v in S.mem.values():
            _lens(v, lens)
        for key in S.st.con:
            for a, _ in key:
                if a.key[0] in ('len', 'slen'):
                    lens.add(var(a))
        lens = {l for l in lens if not l.isconst()}
        writes = {}     # list -> offset from k of the elements whose cells an iteration writes; None: any
        rec = LoopRec()
        rec.id = lid
        rec.fn = fr.fn
        rec.header = header
        rec.k = katom
        rec.backs = None
        rec.entry = S
        rec.chain = self.chain()
        self.loops[lid] = rec
        pn = 0
        wkey = (fr.id, header)
        hint = self.warm.get(wkey)
        bkey = tuple(self.passes)
        bad_hint = set()
        if hint is not None:
            leaves = self.lin_leaves(S)
            for leaf, kind in hint['gen']:
                try:
                    ev = self.get_path_v(S, leaf)
                except (KeyError, AnalysisError, Split, Infeasible):
                    continue
                if kind[0] == 'lin' and isinstance(ev, Lin):
                    gen[leaf] = kind
                    gvals[leaf] = ev + k.scale(kind[1])
                elif kind[0] == 'list' and isinstance(ev, T) and ev.tag == 'list':
                    gen[leaf] = kind
                    gvals[leaf] = mkT('list', ev.a[0] + (mkT('lseg', lid, leafkey(leaf), k),), ev.a[1])
                    if leafkey(leaf) in hint['seg']:
                        self.seglen[(lid, leafkey(leaf))] = hint['seg'][leafkey(leaf)]
                elif kind[0] == 'gen' and isinstance(ev, (Lin, T, bool)):
                    gen[leaf] = kind
                    gvals[leaf] = self.genval(lid, leaf, S, ev)
            m0 = {katom: const(0)}
            for leaf, g in gvals.items():
                if isinstance(g, Lin) and gen[leaf][0] == 'gen':
                    m0[g.t[0][0]] = self.get_path_v(S, leaf)
            for tm in hint['cands']:
                c = self.untemplate(tm, lid, S)
                if c is None or c in cands or c.isconst():
                    continue
                if S.st.ge0(subst(c, m0)):
                    cands.append(c)
            if hint['bkey'] == bkey:
                for tm in hint['bad']:
                    c = self.untemplate(tm, lid, S)
                    if c is not None:
                        bad_hint.add(c)
        else:
            leaves = None
        while True:
            pn += 1
            if pn > 24:
                raise AnalysisError('loop does not stabilise in ' + fr.fn.path)
            H = S.copy()
            H.trail = S.trail + (('in', lid),)
            H.st.assume('ge', k)
            for leaf in sorted(gen, key=lambda l: len(l[1])):
                kind = gen[leaf]
                H.mem[leaf[0]] = self.setleaf(H, H.mem[leaf[0]], leaf[1], gvals[leaf])
            for c in cands:
                if c not in dropped:
                    if not H.st.assume('ge', c):
                        pass
            for w, off in writes.items():
                self.writing[w] = (lid, off)
            self.active.append(lid)
            self.cmplog[lid] = set()
            Hs = H.copy()
            self.passes.append((lid, pn))
            res = self.region(fr, header, H, blocks, header)
            self.passes.pop()
            log = self.cmplog.pop(lid)
            self.active.pop()
            for w in writes:
                if self.writing.get(w, (None,))[0] == lid:
                    del self.writing[w]
            backs = [r[1] for r in res if r[0] == 'back']
            exits = [(r[1], r[2]) for r in res if r[0] == 'exit']
            if any(r[0] == 'ret' for r in res):
                raise AnalysisError('return inside loop')
            changed = False
            pushes = []
            if not backs:
                for st, _ in exits:
                    st.trail = S.trail + st.trail[len(S.trail) + 1:]
                break       # executes at most once: no generalisation needed
            deltas = {}
            wnew = []
            for bi, B in enumerate(backs):
                push = {}
                for root, hv in Hs.mem.items():
                    bv = B.mem.get(root)
                    if bv is hv or bv is None:
                        continue
                    if root[0] == 'C':
                        continue
                    for path, h, b in self.diff(hv, bv, ()):
                        deltas.setdefault((root, path), {})[bi] = (h, b)
                for root in B.mem:
                    if root[0] == 'C' and (root not in Hs.mem or Hs.mem[root] is not B.mem[root]):
                        if root not in S.mem:
                            init = None
                        for e in els_of(root[1]):
                            if self.cell_written(B, Hs, root):
                                off = e.a[1] - k
                                if lid in off.loops():
                                    off = None
                                wnew.append((e.a[0], off))
            # drop deltas below an existing coarser leaf
            for leaf, byb in deltas.items():
                root, path = leaf
                if leaf in gen:
                    kind = gen[leaf]
                    if kind[0] == 'lin':
                        for bi, B in enumerate(backs):
                            h, b = byb.get(bi, (None, None))
                            d = kind[1]
                            if h is None or not isinstance(b, Lin) or not (b - h is const(d) or B.st.eq0(b - h - d)):
                                gen[leaf] = ('gen',)
                                gvals[leaf] = self.genval(lid, leaf, S, gvals[leaf])
                                changed = True
                                break
                    elif kind[0] == 'list':
                        for bi, (h, b) in byb.items():
                            p = self.pushed(h, b)
                            if p is None:
                                gen[leaf] = ('gen',)
                                gvals[leaf] = self.genval(lid, leaf, S, h, b)
                                changed = True
                                break
                    continue
                # new leaf
                changed = True
                hs = [byb[bi][0] for bi in byb]
                bs = [byb[bi][1] for bi in byb]
                h = hs[0]
                for l in [l for l in gen if l[0] == root and l[1][:len(path)] == path]:
                    del gen[l]
                    del gvals[l]
                if isinstance(h, Lin) and all(isinstance(b, Lin) for b in bs):
                    ds = {(b - h) for b in bs}
                    if len(ds) == 1 and len(byb) == len(backs) and next(iter(ds)).isconst():
                        d = next(iter(ds)).c
                        gen[leaf] = ('lin', d)
                        gvals[leaf] = self.get_path_v(S, leaf) + k.scale(d)
                    else:
                        gen[leaf] = ('gen',)
                        gvals[leaf] = self.genval(lid, leaf, S, h)
                elif isinstance(h, T) and h.tag == 'list' and all(self.pushed(h, b) is not None for b in bs):
                    gen[leaf] = ('list',)
                    ev = self.get_path_v(S, leaf)
                    gvals[leaf] = mkT('list', ev.a[0] + (mkT('lseg', lid, leafkey(leaf), k),), ev.a[1])
                else:
                    gen[leaf] = ('gen',)
                    gvals[leaf] = self.genval(lid, leaf, S, h, *bs)
            # linear leaves that did not change on some back edge
            for leaf, kind in list(gen.items()):
                if kind[0] == 'lin' and kind[1] != 0 and not changed:
                    byb = deltas.get(leaf, {})
                    if len(byb) != len(backs):
                        gen[leaf] = ('gen',)
                        gvals[leaf] = self.genval(lid, leaf, S, gvals[leaf])
                        changed = True
            # list segment lengths
            for leaf, kind in gen.items():
                if kind[0] == 'list':
                    ns = set()
                    byb = deltas.get(leaf, {})
                    for bi in range(len(backs)):
                        if bi in byb:
                            p = self.pushed(*byb[bi])
                            ns.add(sum(len(q.a[0]) if q.tag == 'items' else -1000 for q in p) if p else 0)
                        else:
                            ns.add(0)
                    key = (lid, leafkey(leaf))
                    n = next(iter(ns)) if len(ns) == 1 and min(ns) >= 0 else None
                    if self.seglen.get(key, 'x') != n and leaf in gvals:
                        if key in self.seglen and self.seglen[key] is not None:
                            n = None
                        if self.seglen.get(key, 'x') != n:
                            self.seglen[key] = n
                            changed = True
            # (an offset found before all leaves are generalised may not be the final one)
            final = not changed
            for w, off in wnew:
                if final and writes.get(w, 0) not in (off, None):
                    writes[w] = off if w not in writes else None
                    changed = True
            if changed:
                del self.obl[nobl:]
                del self.errlog[nerr:]
                del self.loopfinal[ncut:]
                del self.allocs[nall:]
                continue
            # candidate invariants: keep the largest inductive subset
            m0 = {katom: const(0)}
            for leaf, g in gvals.items():
                if isinstance(g, Lin) and gen[leaf][0] == 'gen':
                    m0[g.t[0][0]] = self.get_path_v(S, leaf)
            # lists that grow by a varying number of elements: their length is tracked like an integer
            vlens = {}
            for leaf, g in gvals.items():
                if gen[leaf][0] == 'list' and self.seglen.get((lid, leafkey(leaf)), 0) is None:
                    ln = self.list_len(g)
                    for a, q in ln.t:
                        if q == 1 and lid in a.loops:
                            vlens[leaf] = (ln, a)
                            m0[a] = const(0)
            newc = self.candidates(lid, k, gen, gvals, S, lens, log, deltas, len(backs), {a for _, a in vlens.values()})
            if vlens:
                for leaf, g in gvals.items():
                    if isinstance(g, Lin) and gen[leaf][0] == 'gen':
                        e = self.get_path_v(S, leaf)
                        for ln, a in vlens.values():
                            newc += [g - e - var(a), var(a) - g + e]
            new = []
            for c in newc:
                if c in cands or c in dropped or c in bad_hint:
                    continue
                if S.st.ge0(subst(c, m0)):
                    new.append(c)
                else:
                    dropped.add(c)
                    entrybad.append(c)
            ms = []
            for B in backs:
                m = {katom: k + 1}
                for leaf, g in gvals.items():
                    if isinstance(g, Lin) and gen[leaf][0] == 'gen':
                        nv = self.get_path_v(B, leaf)
                        if not isinstance(nv, Lin):
                            m = None
                            break
                        m[g.t[0][0]] = nv
                for leaf, (ln, a) in vlens.items():
                    nv = self.get_path_v(B, leaf)
                    if m is not None and isinstance(nv, T) and nv.tag == 'list':
                        m[a] = var(a) + self.list_len(nv) - ln
                    elif m is not None:
                        m = None
                ms.append(m)
            cur = [c for c in cands if c not in dropped]
            kept = self.inductive(cur, backs, ms, [])
            bad = len(kept) < len(cur)
            for c in cur:
                if c not in kept:
                    dropped.add(c)
            if new:
                add = self.inductive(new, backs, ms, new)
                for c in new:
                    if c not in add:
                        dropped.add(c)
                        badc.append(c)
                if add:
                    cands += add
                    bad = True
            if bad:
                del self.obl[nobl:]
                del self.errlog[nerr:]
                del self.loopfinal[ncut:]
                del self.allocs[nall:]
                continue
            break
        rec.head = Hs
        rec.gen = gen
        rec.gvals = gvals
        rec.cands = [c for c in cands if c not in dropped]
        # facts that hold after every iteration (not necessarily before the first)
        rec.post = self.inductive(list(dict.fromkeys(entrybad)), backs, ms, []) if backs else []
        rec.log = log
        rec.pn = pn
        if backs:
            if leaves is None:
                leaves = self.lin_leaves(S)
            old = self.warm.get(wkey)
            h = {'gen': [(l, g) for l, g in gen.items() if l[0][0] in ('L', 'A')],
                 'seg': {leafkey(l): self.seglen.get((lid, leafkey(l))) for l in gen if gen[l][0] == 'list'},
                 'cands': [self.template(c, lid, leaves) for c in rec.cands],
                 'bad': [self.template(c, lid, leaves) for c in badc], 'bkey': bkey}
            if old is not None:
                have = set(h['cands'])
                h['cands'] += [t for t in old['cands'] if t not in have and t not in h['bad']][:40]
                if old['bkey'] == bkey:
                    have = set(h['bad'])
                    h['bad'] += [t for t in old['bad'] if t not in have]
            self.warm[wkey] = h
        rec.exitstates = [(st, t) for st, t in exits]
        rec.backs = []
        rec.blocks = blocks
        for bi, B in enumerate(backs):
            b = LoopRec()
            b.state = B
            b.pushes = {}
            b.next = {}
            for leaf in gen:
                nv = self.get_path_v(B, leaf)
                b.next[leaf] = nv
                if gen[leaf][0] == 'list':
                    p = self.pushed(gvals[leaf], nv)
                    vs = []
                    for q in p:
                        if q.tag == 'items':
                            vs.extend(q.a[0])
                        else:
                            vs.append(q)
                    b.pushes[leafkey(leaf)] = vs
            rec.backs.append(b)
        self.loopfinal.append(rec)
        schemas = self.loop_schemas(rec, Hs, k) if backs else []
        out = []
        for st, tgt in exits:
            if backs:
                st.trail = S0.trail + (('loop', lid, k),) + st.trail[len(S0.trail) + 1:]
                for lst, sc in schemas:
                    st.forall[lst] = st.forall.get(lst, ()) + (sc,)
                if schemas:
                    st.touched = frozenset(e for e in st.touched if e.a[0] not in {l for l, _ in schemas})
                    # cells cached before the loop are stale if the loop writes them
                    for r in [r for r in st.mem if r[0] == 'C' and any(e.a[0] in writes for e in els_of(r[1]))]:
                        del st.mem[r]
                st = self.solve_k(st, katom, rec, schemas)
                if st is None:
                    continue
            out.append((st, tgt))
        return out

    def inductive(self, cs, backs, ms, assumed):
        """the candidates in cs that hold at every back edge (assuming `assumed` at the head); shrinks to a fixpoint."""
        cs = list(cs)
        while True:
            if not cs:
                return cs
            sts = []
            for B in backs:
                if assumed:
                    st = B.st.copy()
                    ok = True
                    for c in cs:
                        if not st.assume('ge', c):
                            ok = False
                            break
                    sts.append(st if ok else None)
                else:
                    sts.append(B.st)
            n = []
            for c in cs:
                good = True
                for st, m in zip(sts, ms):
                    if st is None:
                        continue
                    if m is None or not st.ge0(subst(c, m)):
                        good = False
                        break
                if good:
                    n.append(c)
            if len(n) == len(cs) or not assumed:
                return n
            cs = n

    def lin_leaves(self, S):
        out = []
        for root, v in S.mem.items():
            if root[0] in ('L', 'A'):
                self._lin_leaves(v, root, (), out, 0)
        out.sort(key=lambda x: (-len(x[1].t), str(x[0])))
        return out

    def _lin_leaves(self, v, root, path, out, d):
        if isinstance(v, Lin):
            if v.t:
                out.append(((root, path), v))
        elif isinstance(v, T) and d < 3:
            if v.tag == 'adt':
                fts = self.vfields(v.a[0], v.a[1])
                for i, x in enumerate(v.a[2]):
                    self._lin_leaves(x, root, path + (('f', v.a[1], i, fts[i] if i < len(fts) else None),), out, d + 1)
            elif v.tag == 'tup':
                for i, x in enumerate(v.a[0]):
                    self._lin_leaves(x, root, path + (('f', 0, i, None),), out, d + 1)
            elif v.tag == 'str' and self.strmode:
                b, lo, hi = self.span_of(None, v.a[0])
                for n, x in (('lo', lo), ('hi', hi)):
                    self._lin_leaves(x, root, path + (('it', n),), out, d + 1)
            elif v.tag in ('siter', 'sl'):
                for i, x in enumerate(v.a):
                    if isinstance(x, Lin):
                        self._lin_leaves(x, root, path + (('it', i),), out, d + 1)

    def template(self, c, lid, leaves):
        ls = []
        for leaf, v in leaves:
            cd = dict(c.t)
            a, q = v.t[0]
            if a in cd and cd[a] % q == 0 and lid not in a.loops:
                r = cd[a] // q
                if all(cd.get(x) == y * r for x, y in v.t):
                    c = c - v.scale(r)
                    ls.append((leaf, r))
                    if not c.t:
                        break
        return (tuple(ls), relid(c, lid, 0))

    def untemplate(self, tm, lid, S):
        c = relid(tm[1], 0, lid)
        for leaf, r in tm[0]:
            try:
                v = self.get_path_v(S, leaf)
            except (KeyError, AnalysisError, Split, Infeasible):
                return None
            if not isinstance(v, Lin):
                return None
            c = c + v.scale(r)
        return c

    def cell_written(self, B, Hs, root):
        return root in B.wr and root not in Hs.wr

    def solve_k(self, st, katom, rec, schemas):
        k = var(katom)
        sol = None
        for key, d in st.st.con.items():
            if d[0][0] == d[-1][1]:
                for a, c in key:
                    if a is katom and c in (1, -1) and len(key) >= 1:
                        rest = mk(tuple((x, q) for x, q in key if x is not a), -d[0][0])
                        r = rest.scale(-c)
                        if katom.key[1] not in r.loops():
                            if sol is None or len(r.t) < len(sol.t):
                                sol = r
        if sol is None:
            return st
        return self.subst_state(st, {katom: sol})

    def subst_state(self, st, m):
        n = new_state()
        memo = {}
        n.mem = {}
        for r, v in st.mem.items():
            if r[0] == 'C':
                r = ('C', subst(r[1], m, memo), r[2])
            n.mem[r] = subst(v, m, memo)
        n.st = Store()
        for key, d in st.st.con.items():
            l = subst(mk(key, 0), m, memo)
            if l.isconst():
                if not iv_meet(((l.c, l.c),), d):
                    return None
                continue
            kk, g, c = norm(l)
            if g == 1:
                nd = tuple((lo - c, hi - c) for lo, hi in d)
            else:
                lo, hi = d[0][0], d[-1][1]
                if g > 0:
                    nd = ((-((-(lo - c)) // g) if lo != -INF else lo, (hi - c) // g if hi != INF else hi),)
                else:
                    a = (hi - c)
                    b = (lo - c)
                    lo2 = -((a) // (-g)) if hi != INF else -INF
                    hi2 = -(-((-b) // (-g))) if lo != -INF else INF
                    lo2 = -(a // -g) if hi != INF else -INF
                    hi2 = ((-b) // (-g)) if lo != -INF else INF
                    nd = ((lo2, hi2),)
                    if lo2 > hi2:
                        continue
            old = n.st.con.get(kk)
            nd2 = nd if old is None else iv_meet(old, nd)
            if not nd2:
                return None
            n.st.con[kk] = nd2
        n.var = {}
        for t, v in st.var.items():
            t2 = subst(t, m, memo)
            o = n.var.get(t2)
            n.var[t2] = v if o is None else o & v
        n.pred = {subst(t, m, memo): v for t, v in st.pred.items()}
        n.forall = {}
        for l, scs in st.forall.items():
            l2 = subst(l, m, memo)
            ns = []
            for sc in scs:
                if sc.lo is not None:
                    ns.append(Schema(l2, sc.k, sc.off, subst(sc.lo, m, memo), subst(sc.hi, m, memo), sc.dis if l2 is l else
                                     [self.subst_dis(d, m, memo) for d in sc.dis]))
                else:
                    ns.append(sc)
            n.forall[l2] = n.forall.get(l2, ()) + tuple(ns)
        n.guards = st.guards
        n.touched = frozenset(subst(e, m, memo) for e in st.touched)
        n.ghost = st.ghost
        n.wr = st.wr
        n.trail = subst(st.trail, m, memo)
        return n

    def subst_dis(self, d, m, memo):
        nd = Dis()
        nd.var = {subst(t, m, memo): vs for t, vs in d.var.items()}
        nd.pred = {subst(t, m, memo): b for t, b in d.pred.items()}
        nd.con = {subst(l, m, memo): iv for l, iv in d.con.items()}
        nd.cells = {subst(t, m, memo): subst(v, m, memo) for t, v in d.cells.items()}
        return nd

    def loop_schemas(self, rec, Hs, k):
        """facts about list elements visited by every completed iteration."""
        lid = rec.id
        lists = {}
        deltas = []
        for b in rec.backs:
            B = b.state
            d = Dis()
            okloops = lambda t: all(x <= lid for x in (t.lp if isinstance(t, T) else t.loops()))
            for t, vs in B.var.items():
                if Hs.var.get(t) != vs and okloops(t):
                    d.var[t] = vs
            for t, v in B.pred.items():
                if t not in Hs.pred and okloops(t):
                    d.pred[t] = v
            for r, v in B.mem.items():
                if r in B.wr and r not in Hs.wr and okloops(r[1]) and isinstance(v, T) and okloops(v) and not (v.tag == 'sym' and v.a[0].tag == 'cw'):
                    d.cells[r[1]] = v
            for key, iv in B.st.con.items():
                if Hs.st.con.get(key) != iv:
                    l = mk(key, 0)
                    if okloops(l) and any(a.key[0] == 'sy' and isinstance(a.key[1], T) and els_of(a.key[1]) for a, _ in key) \
                            and all(a.key[0] in ('sy', 'len', 'wrap', 'and', 'b') for a, _ in key):
                        d.con[l] = iv
                    elif all(a.key[0] in ('and', 'b') and all(x < lid for x in a.loops) for a, _ in key):
                        d.guard[l] = iv     # a fact about something fixed during the loop, which selected this iteration's path
            deltas.append(d)
            for t in list(d.var) + list(d.pred) + list(d.cells):
                for e in els_of(t):
                    idx = e.a[1]
                    off = idx - k
                    if lid not in off.loops() and e.a[0].tag == 'list' and lid not in e.a[0].lp:
                        lists.setdefault(e.a[0], set()).add(off)
        out = []
        for lst, offs in lists.items():
            for off in offs:
                dis = []
                for d in deltas:
                    nd = Dis()

                    def rel(t):
                        return any(e.a[0] is lst and e.a[1] is (k + off) for e in els_of(t))
                    nd.var = {t: v for t, v in d.var.items() if rel(t)}
                    nd.pred = {t: v for t, v in d.pred.items() if rel(t)}
                    nd.cells = {t: v for t, v in d.cells.items() if rel(t)}
                    nd.con = dict(d.guard) if nd.var or nd.pred or nd.cells else {}
                    nd.con |= {l: v for l, v in d.con.items() if any(rel(a.key[1]) for a, _ in l.t if a.key[0] == 'sy' and isinstance(a.key[1], T))}
                    dis.append(nd)
                out.append((lst, Schema(lst, rec.k, off, off, off + k, dis)))
        return out

    def diff(self, h, b, path):
        """leaf differences between two values"""
        if h is b:
            return []
        if isinstance(h, T) and isinstance(b, T):
            if h.tag == 'adt' and b.tag == 'adt' and h.a[1] == b.a[1] and len(h.a[2]) == len(b.a[2]) and h.a[2]:
                r = []
                fts = self.vfields(h.a[0], h.a[1])
                for i, (x, y) in enumerate(zip(h.a[2], b.a[2])):
                    r += self.diff(x, y, path + (('f', h.a[1], i, fts[i] if i < len(fts) else None),))
                return r
            if h.tag == 'tup' and b.tag == 'tup' and len(h.a[0]) == len(b.a[0]):
                r = []
                for i, (x, y) in enumerate(zip(h.a[0], b.a[0])):
                    r += self.diff(x, y, path + (('f', 0, i, None),))
                return r
            if h.tag == 'clo' and b.tag == 'clo' and len(h.a[1]) == len(b.a[1]):
                r = []
                for i, (x, y) in enumerate(zip(h.a[1], b.a[1])):
                    r += self.diff(x, y, path + (('f', 0, i, None),))
                return r
            if h.tag == b.tag == 'str' and self.strmode:
                (x, l0, h0), (y, l1, h1) = self.span_of(None, h.a[0]), self.span_of(None, b.a[0])
                if x is y:
                    return [(path + (('it', n),), u, w) for n, u, w in (('lo', l0, l1), ('hi', h0, h1)) if u is not w]
            if h.tag == b.tag and h.tag in ('siter', 'chars', 'sspl', 'sl') and h.a[0] is b.a[0]:
                r = []
                for i in range(1, len(h.a)):
                    if h.a[i] is not b.a[i]:
                        r.append((path + (('it', i),), h.a[i], b.a[i]))
                return r
        return [(path, h, b)]

    def get_path_v(self, s, leaf):
        v = s.mem[leaf[0]]
        for p in leaf[1]:
            if p[0] == 'it' and isinstance(p[1], str):
                v = self.span_of(s, v.a[0])[1 if p[1] == 'lo' else 2] if isinstance(v, T) and v.tag == 'str' else TOP
            elif p[0] == 'it':
                v = v.a[p[1]] if isinstance(v, T) and len(v.a) > p[1] else TOP
            else:
                v = self.step(s, v, p)
        return v

    def setleaf(self, s, old, path, v):
        if not path:
            return v
        p = path[0]
        if p[0] == 'it' and isinstance(p[1], str):
            b, lo, hi = self.span_of(s, old.a[0])
            lo, hi = (v, hi) if p[1] == 'lo' else (lo, v)
            return mkT('str', self.sub(b, lo, hi, self.blen(b)))
        if p[0] == 'it':
            a = list(old.a)
            a[p[1]] = v
            return mkT(old.tag, *a)
        if p[0] == 'f' and old.tag in ('adt', 'tup', 'clo', 'sym'):
            if old.tag == 'sym':
                old = self.expand(old, p[1])
            fs = list(old.a[2] if old.tag == 'adt' else old.a[0] if old.tag == 'tup' else old.a[1])
            fs[p[2]] = self.setleaf(s, fs[p[2]], path[1:], v)
            if old.tag == 'adt':
                return mkT('adt', old.a[0], old.a[1], tuple(fs))
            if old.tag == 'tup':
                return mkT('tup', tuple(fs))
            return mkT('clo', old.a[0], tuple(fs))
        raise AnalysisError('setleaf')

    def genval(self, lid, leaf, S, h, *others):
        term = mkT('lvs', lid, leafkey(leaf))
        if isinstance(h, Lin):
            ty = self.leafty(leaf)
            b = self.bounds(ty) if ty is not None else None
            if b is None:
                b = (0, (1 << 64) - 1) if all(isinstance(x, Lin) for x in others) else (-INF, INF)
            return var(atom(('lv', lid, term), b[0], b[1]))
        if isinstance(h, bool):
            return mkT('ptm', term)
        if h.tag in ('cmp', 'ptm', 'npt'):
            return mkT('ptm', term)
        if h.tag == 'adt':
            return self.symval(term, h.a[0]) if self.tname(h.a[0]) != 'alloc::vec::Vec' else TOP
        if h.tag == 'sym':
            return self.symval(term, h.a[1])
        if h.tag == 'list':
            return mkT('list', (mkT('symseg', term, self.lenof(term)),), h.a[1])
        if h.tag == 'set':
            return mkT('set', term)
        if h.tag == 'str':
            return mkT('str', term)
        if h.tag == 'tup':
            return mkT('tup', tuple(self.genval(lid, (leaf[0], leaf[1] + (('f', 0, i, None),)), S, x) for i, x in enumerate(h.a[0])))
        if h.tag == 'sl':
            return mkT('sl', mkT('buf', term, h.a[0].a[1] if h.a[0].tag == 'buf' else h.a[0].a[1]), const(0), self.lenof(term))
        if h.tag == 'rv':
            return rv(self.genval(lid, (leaf[0], leaf[1] + (('dr',),)), S, h.a[0]))
        return TOP

    def leafty(self, leaf):
        if leaf[1]:
            p = leaf[1][-1]
            if p[0] == 'f':
                return p[3]
            if p[0] == 'it':
                return self.p.by_s.get('usize')
            return None
        r = leaf[0]
        if r[0] == 'L':
            return self.frames[r[1]].body.locals[r[2]]
        return None

    def pushed(self, h, b):
        """segments appended to list h to obtain b, or None"""
        if not (isinstance(b, T) and b.tag == 'list' and isinstance(h, T) and h.tag == 'list'):
            return None
        hs, bs = h.a[0], b.a[0]
        if len(bs) < len(hs):
            return None
        if not hs:
            return bs
        for i in range(len(hs) - 1):
            if hs[i] is not bs[i]:
                return None
        x, y = hs[-1], bs[len(hs) - 1]
        rest = bs[len(hs):]
        if x is y:
            return rest
        if x.tag == 'items' and y.tag == 'items' and y.a[0][:len(x.a[0])] == x.a[0]:
            return (mkT('items', y.a[0][len(x.a[0]):]),) + rest
        return None

    def candidates(self, lid, k, gen, gvals, S, lens, log, deltas, nb, also=()):
        out = []
        for leaf, g in gvals.items():
            if isinstance(g, Lin) and gen[leaf][0] == 'gen':
                e = self.get_path_v(S, leaf)
                byb = deltas.get(leaf, {})
                ds = [b - h if isinstance(b, Lin) and isinstance(h, Lin) else None for h, b in byb.values()]
                if isinstance(e, Lin) and ds and all(d is not None and d.isconst() for d in ds):
                    cs = [d.c for d in ds] + ([0] if len(byb) < nb else [])
                    if max(map(abs, cs)) < 1 << 32:
                        out.append(e + k.scale(max(cs)) - g)
                        out.append(g - e - k.scale(min(cs)))
        ok = {k.t[0][0], *also}
        ints = []
        for leaf, g in gvals.items():
            if isinstance(g, Lin) and gen[leaf][0] in ('gen', 'lin'):
                e = self.get_path_v(S, leaf)
                if isinstance(e, Lin):
                    ints.append((g, e, gen[leaf][0]))
                    if gen[leaf][0] == 'gen':
                        ok.add(g.t[0][0])
        for g, e, kind in ints:
            if kind == 'gen':
                out.append(g - e)
                out.append(e - g)
            for l in lens:
                out.append(l - g)
            if not e.isconst():
                for a, _ in e.t:
                    for f in S.st._index().get(a, ()):
                        # replace the entry value by the current one
                        for b, c in f.t:
                            if b is a:
                                out.append(f - e.scale(c) + g.scale(c)) if len(e.t) == 1 and e.t[0][1] == 1 else None
        for rel, l in log:
            good = False
            for a, _ in l.t:
                if a in ok:
                    good = True
            if not good:
                continue
            for a, _ in l.t:
                if a in ok:
                    continue
                if lid in a.loops or any(x > lid for x in a.loops):
                    good = False
                    break
            if good:
                for x in (l, l + 1, -l, -l + 1) + ((l - l.c, -l + l.c) if 1 < abs(l.c) <= 16 else ()):
                    out.append(x)
                # what was compared in the previous iteration
                q = next((q for a, q in l.t if a is k.t[0][0]), 0)
                if 1 < abs(q) <= 16:
                    out += [l - q, -l + q]
        seen = set()
        r = []
        for c in out:
            if c is not None and c not in seen and not c.isconst():
                seen.add(c)
                r.append(c)
        return r


_relid = {}


def relid(x, old, new):
    key = (x, old, new)
    r = _relid.get(key)
    if r is None:
        r = _relid[key] = _relid_(x, old, new)
    return r


def _relid_(x, old, new):
    if isinstance(x, Lin):
        if old not in x.loops():
            return x
        r = const(x.c)
        for a, q in x.t:
            r = r + (var(relid(a, old, new)) if old in a.loops else var(a)).scale(q)
        return r
    if isinstance(x, Atom):
        if old not in x.loops:
            return x
        key = x.key
        if key[0] in ('lk', 'lv') and key[1] == old:
            nk = (key[0], new) + tuple(relid(y, old, new) if isinstance(y, (T, Lin)) else y for y in key[2:])
        else:
            nk = tuple(relid(y, old, new) if isinstance(y, (T, Lin, tuple)) else y for y in key)
        return atom(nk, x.lo, x.hi, x.dom)
    if isinstance(x, T):
        if old not in x.lp:
            return x
        if x.tag in ('lvs', 'lseg') and x.a[0] == old:
            return mkT(x.tag, new, *[relid(y, old, new) if isinstance(y, (T, Lin, tuple)) else y for y in x.a[1:]])
        return mkT(x.tag, *[relid(y, old, new) if isinstance(y, (T, Lin, tuple)) else y for y in x.a])
    if isinstance(x, tuple):
        return tuple(relid(y, old, new) if isinstance(y, (T, Lin, tuple)) else y for y in x)
    return x


_ats = {}


def atoms_of(x):
    r = _ats.get(x)
    if r is None:
        acc = set()
        seen = set()
        _atoms(x, acc, seen)
        r = _ats[x] = frozenset(acc)
    return r


def _atoms(x, acc, seen):
    if isinstance(x, Lin):
        for a, _ in x.t:
            if a not in acc:
                acc.add(a)
                for y in a.key:
                    _atoms(y, acc, seen)
    elif isinstance(x, T):
        if x in seen:
            return
        seen.add(x)
        for y in x.a:
            _atoms(y, acc, seen)
    elif isinstance(x, tuple):
        for y in x:
            _atoms(y, acc, seen)


def S_loops(eng):
    return set(eng.active)


def elphix(lst):
    """placeholder atom for the index of the element a base schema talks about"""
    return atom(('sy', mkT('elphix', lst)), 0, INF)


class BaseSchema(Schema):
    __slots__ = ()

    def __init__(self, lst, ph, dis):
        Schema.__init__(self, lst, ph, None, None, None, dis)


def leafkey(leaf):
    return mkT('leaf', *(('%s' % (leaf[0],)),) + tuple(str(p[:3]) for p in leaf[1]))


def npath_(p):
    import re
    r = _np.get(p)
    if r is None:
        r = _np[p] = re.sub(r'\{impl#\d+\}', '{impl}', p)
    return r


_np = {}


def _lens(v, acc, d=0):
    if isinstance(v, T) and d < 4:
        if v.tag == 'sl':
            acc.add(v.a[1] + v.a[2])
            if v.a[0].tag == 'list':
                return
        for x in v.a:
            if isinstance(x, T):
                _lens(x, acc, d + 1)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        _lens(y, acc, d + 1)
