"""Analysis of functions over text: texts are slices [lo, hi) of a base text whose bytes are symbolic.

Byte p of the text B is the atom ('b', strbytes(B), p); a character at p is its byte when that is ASCII, otherwise it occupies
('cw', B, p) bytes (2 to 4) and has the value ('cv', B, p).  ('nb', B, p) is 0 when p is a character boundary.
Facts about whole stretches: pred scan(B, p, q, set): no byte of [p, q) is in the set; pred streq(sub(B, p, q), literal)."""
from lin import Lin, atom, const, var
from values import T, mkT, subst, els_of
from interp import Engine, Split, mkcmp, AnalysisError
import interp
import models

HIGH = 128          # stands for every byte >= 128 in sets of bytes


class StrEngine(Engine):
    def __init__(self, prog, ptr=64, errty=None):
        super().__init__(prog, ptr=ptr, strmode=True)
        self.errval = errty
        self.bases = set()
        self.accs = {}
        self.u8 = prog.by_s.get('u8')
        self.badstr = []        # constructs over text that are not modelled

    def is_errfn(self, fn):
        return self.errval is not None and fn.body.locals[0] == self.errval

    def log_err(self, s, fr, fn, span):
        pass

    # ------------------------------------------------------------ texts
    def span_of(self, s, t):
        """(base, lo, hi) of a text term"""
        if t.tag == 'sub':
            return t.a
        return t, const(0), self.strlen(s, t)

    def sub(self, b, lo, hi, n=None):
        if lo is const(0) and n is not None and hi is n:
            return b
        return mkT('sub', b, lo, hi)

    def blen(self, b):
        return self.strlen(None, b)

    def byte(self, b, p):
        if b.tag == 'lit' and p.isconst():
            bs = b.a[0].encode()
            return const(bs[p.c]) if 0 <= p.c < len(bs) else var(atom(('b', mkT('buf', mkT('strbytes', b), self.u8), p), 0, 255))
        return var(atom(('b', mkT('buf', mkT('strbytes', b), self.u8), p), 0, 255))

    def nb(self, b, p):
        return var(atom(('nb', b, p), 0, 1))

    def is_boundary(self, s, b, p):
        st = s.st
        if p.isconst() and p.c == 0 or st.eq0(p) or st.eq0(self.blen(b) - p):
            return True
        if st.interval(self.nb(b, p))[1] <= 0:
            return True
        for q in (p, p - 1):
            if st.interval(self.byte(b, q))[1] <= 127:
                return True
        # another expression of the same position
        for key in list(st.con):
            for a, _ in key:
                k = a.key
                if k[0] == 'nb' and k[1] is b and len(key) == 1 and st.interval(var(a))[1] <= 0 and st.eq0(k[2] - p):
                    return True
                if k[0] == 'b' and k[1].a[0].tag == 'strbytes' and k[1].a[0].a[0] is b and st.interval(var(a))[1] <= 127 \
                        and (st.eq0(k[2] - p) or st.eq0(k[2] + 1 - p)):
                    return True
        return False

    def need_boundary(self, cx, b, p):
        ok = self.is_boundary(cx.s, b, p)
        self.obl.append(((cx.fr.fn.id, tuple(cx.span or ()), 'char-boundary'), ok, None if ok else self.chain(), None if ok else f'{p} may be inside a character'))

    def unmodelled(self, cx, what):
        self.badstr.append((cx.fr.fn.id, tuple(cx.span or ()), what, self.chain()))
        return None

    # ------------------------------------------------------------ characters
    def chars_new(self, s, term, kind):
        b, lo, hi = self.span_of(s, term)
        return mkT('chars', b, lo, hi, kind, lo)

    def char_at(self, s, b, p, end):
        """(value, width) of the character at p < end"""
        x = self.byte(b, p)
        if self.truth(s, mkcmp('ge', const(127) - x)):
            return x, const(1)
        w = var(atom(('cw', b, p), 2, 4))
        s.st.assume('ge', end - p - w)
        s.st.assume('ge', x - 0xc2)
        s.st.assume('ge', const(0xf4) - x)
        return var(atom(('cv', b, p), 0x80, 0x10ffff)), w

    def chars_next(self, cx, l, v, back=False):
        s = cx.s
        if back:
            return self.unmodelled(cx, 'characters from the end')
        b, p, end, kind, org = v.a
        if self.truth(s, mkcmp('ge', p - end)):
            return models.ret(cx, models.none(cx))
        if kind == 'b':
            item, w = self.byte(b, p), const(1)
        else:
            c, w = self.char_at(s, b, p, end)
            s.st.assume('eq', self.nb(b, p))
            s.st.assume('eq', self.nb(b, p + w))
            item = mkT('tup', (p - org, c)) if kind == 'ci' else c
        self.write_loc(s, l.a[0], l.a[1], mkT('chars', b, p + w, end, kind, org))
        return models.ret(cx, models.some(cx, item))

    def chars_rest(self, cx, v):
        """text that remains of a character iterator"""
        b, p, end = v.a[:3]
        return mkT('str', self.sub(b, p, end, self.blen(b)))

    # ------------------------------------------------------------ patterns
    def patset(self, cx, v):
        """set of bytes a character pattern matches (HIGH for all characters beyond ASCII), or a literal text, or None"""
        s = cx.s
        v = self.strip(s, v)
        for _ in range(4):
            if isinstance(v, T) and v.tag == 'ref':
                v = self.strip(s, self.get_path(s, v.a[0], v.a[1]))
        if isinstance(v, Lin):
            return frozenset((v.c,)) if v.isconst() and v.c < 128 else None
        if not isinstance(v, T):
            return None
        if v.tag == 'str' and v.a[0].tag == 'lit':
            x = v.a[0].a[0]
            return frozenset((ord(x),)) if len(x) == 1 and ord(x) < 128 else x
        if v.tag in ('arr', 'sl'):
            xs = v.a[0] if v.tag == 'arr' else None
            if v.tag == 'sl' and v.a[0].tag == 'list' and len(v.a[0].a[0]) == 1 and v.a[0].a[0][0].tag == 'items':
                xs = v.a[0].a[0][0].a[0]
            if xs is None or not all(isinstance(x, Lin) and x.isconst() and x.c < 128 for x in xs):
                return None
            return frozenset(x.c for x in xs)
        if v.tag in ('clo', 'fn', 'fnptr'):
            return self.clo_set(cx, v)
        return None

    def clo_set(self, cx, v):
        out = set()
        for c in range(129):
            x = const(c) if c < 128 else var(atom(('cv', mkT('any'), const(0)), 0x80, 0x10ffff))
            s = cx.s.copy()
            no = len(self.obl), len(self.loopfinal)
            try:
                if v.tag == 'clo':
                    r = self.clo_call(cx.fr, cx.span, v, [x], s)
                else:
                    r = self.call_value(cx.fr, cx.span, v, [x], s, self.p.by_s.get('bool'))
            except (Split, AnalysisError, AttributeError, TypeError):
                return None
            del self.obl[no[0]:], self.loopfinal[no[1]:]
            vals = set()
            for st, b in r:
                b = b if isinstance(b, bool) else self.decide(st, b) if isinstance(b, T) else None
                vals.add(b)
            if len(vals) != 1 or None in vals:
                return None
            if vals == {True}:
                out.add(c)
        return frozenset(out)

    def clo_call(self, fr, span, v, args, s):
        inst = self.tys[v.a[0]].get('inst')
        if not isinstance(inst, int):
            raise AnalysisError('closure')
        return self.call_closure(fr, span, inst, [v, mkT('tup', tuple(args))], s, self.p.by_s.get('bool'))

    def in_set(self, s, x, cs):
        """is the byte x in the set (splits)"""
        lo = None
        ivs = ranges(cs)
        for a, b in ivs:
            if self.truth(s, mkcmp('ge', x - a)):
                if self.truth(s, mkcmp('ge', const(b) - x)):
                    return True
            else:
                return False
        return False

    def scan(self, cx, b, lo, hi, cs, tag='scan'):
        """position of the first character of [lo, hi) in the set, or hi; records what is known about it.  (position, found)"""
        s = cx.s
        end = hi
        q = var(atom((tag, b, lo, hi, cs), 0, self.lenmax()))
        s.st.assume('ge', q - lo)
        s.st.assume('ge', end - q)
        found = self.truth(s, mkcmp('ge', end - q - 1))
        s.pred[mkT('scan', b, lo, q, cs)] = True
        if not found:
            return end, False
        x = self.byte(b, q)
        if not self.in_set(s, x, cs):
            raise interp.Infeasible()
        s.st.assume('eq', self.nb(b, q))
        if HIGH not in cs:
            s.st.assume('eq', self.nb(b, q + 1))
        return q, True

    # ------------------------------------------------------------ operations
    def str_bytes(self, s, t, dty):
        if t.tag == 'lit':
            return super().str_bytes(s, t, dty)
        b, lo, hi = self.span_of(s, t)
        return mkT('sl', mkT('buf', mkT('strbytes', b), self.u8), lo, hi - lo)

    def str_slice(self, cx, t, r, checked=False):
        b, lo, hi = self.span_of(cx.s, t)
        rr = models.range_of(self, cx, r, hi - lo)
        if rr is None:
            self.unmodelled(cx, 'slice of a text')
            return [(cx.s, mkT('str', self.fresh('substr')))]
        a, e = rr
        for c in (mkcmp('ge', e - a), mkcmp('ge', hi - lo - e)):
            self.oblige(cx.s, cx.fr, cx.span, 'str-slice', c, str(c))
            if not self.assume(cx.s, c):
                return []
        for p in (lo + a, lo + e):
            if p is not lo and p is not hi:
                self.need_boundary(cx, b, p)
                cx.s.st.assume('eq', self.nb(b, p))
        return [(cx.s, mkT('str', self.sub(b, lo + a, lo + e, self.blen(b))))]

    def str_eq(self, cx, a, b):
        s = cx.s
        if a is b:
            return True
        if a.tag == 'lit' and b.tag == 'lit':
            return a.a[0] == b.a[0]
        if a.tag == 'lit':
            a, b = b, a
        if b.tag != 'lit':
            (x, xl, xh), (y, yl, yh) = self.span_of(s, a), self.span_of(s, b)
            if x is y and s.st.eq0(xl - yl) and s.st.eq0(xh - yh):
                return True
            return mkT('ptm', mkT('streq2', a, b))
        x, lo, hi = self.span_of(s, a)
        lit = b.a[0]
        n = len(lit.encode())
        t = mkT('streq', mkT('sub', x, lo, hi), lit)
        k = s.pred.get(t)
        if k is not None:
            return k
        if not s.st.feasible('eq', hi - lo - n) if hasattr(s.st, 'feasible') else False:
            return False

        def yes(st):
            st.pred[t] = True
            if not st.st.assume('eq', hi - lo - n):
                return False
            for i, c in enumerate(lit.encode()):
                if not st.st.assume('eq', self.byte(x, lo + i) - c):
                    return False
            return True

        def no(st):
            st.pred[t] = False
            if n == 0:
                return st.st.assume('ge', hi - lo - 1)
            return True
        raise Split([yes, no])

    def str_empty(self, cx, t, n):
        return mkcmp('eq', n)

    def split_new(self, cx, t, pat):
        cs = self.patset(cx, pat)
        if not isinstance(cs, frozenset):
            self.unmodelled(cx, 'split by this pattern')
            return None
        b, lo, hi = self.span_of(cx.s, t)
        return mkT('sspl', b, lo, const(0), hi, cs)

    def split_next(self, cx, l, v):
        s = cx.s
        b, p, done, hi, cs = v.a
        if self.truth(s, mkcmp('ge', done - 1)):
            return models.ret(cx, models.none(cx))
        q, found = self.scan(cx, b, p, hi, cs)
        item = mkT('str', self.sub(b, p, q, self.blen(b)))
        self.write_loc(s, l.a[0], l.a[1], mkT('sspl', b, q + 1 if found else hi, const(0) if found else const(1), hi, cs))
        return models.ret(cx, models.some(cx, item))

    def opt(self, cx, v):
        return models.ret(cx, models.none(cx) if v is None else models.some(cx, v))

    def str_misc(self, cx, name):
        s = cx.s
        t = self.strterm(s, cx.args[0])
        if name == 'contains' and t.tag == 'lit' and t.a[0].isascii():
            c = self.strip(s, cx.args[1])
            if isinstance(c, Lin) and not c.isconst():
                return models.ret(cx, any(self.truth(s, mkcmp('eq', c - ord(x))) for x in sorted(set(t.a[0]))))
        b, lo, hi = self.span_of(s, t)
        n = self.blen(b)
        mk = lambda x, y: mkT('str', self.sub(b, x, y, n))
        if name == 'is_char_boundary':
            return [(s, mkcmp('eq', self.nb(b, lo + cx.args[1])))] if isinstance(cx.args[1], Lin) else self.unmodelled(cx, name)
        if name in ('get', 'split_at'):
            if name == 'get':
                return self.str_get(cx, t, b, lo, hi)
            m = cx.args[1]
            self.oblige(s, cx.fr, cx.span, 'str-slice', mkcmp('ge', hi - lo - m), str(m))
            self.need_boundary(cx, b, lo + m)
            return models.ret(cx, mkT('tup', (mk(lo, lo + m), mk(lo + m, hi))))
        if len(cx.args) < 2:
            return self.fallback(cx, name)
        cs = self.patset(cx, cx.args[1])
        if cs is None:
            return self.fallback(cx, name)
        if name in ('starts_with', 'strip_prefix'):
            if isinstance(cs, str):
                ok, w = True, len(cs.encode())
                for i, c in enumerate(cs.encode()):
                    if not self.truth(s, mkcmp('ge', hi - lo - i - 1)) or not self.in_set(s, self.byte(b, lo + i), frozenset((c,))):
                        ok = False
                        break
                w = const(w)
            else:
                ok = self.truth(s, mkcmp('ge', hi - lo - 1)) and self.in_set(s, self.byte(b, lo), cs)
                w = const(1)
                if ok and HIGH in cs:
                    w = self.char_at(s, b, lo, hi)[1]
            if name == 'starts_with':
                return models.ret(cx, ok)
            if ok:
                s.st.assume('eq', self.nb(b, lo + w))
            return self.opt(cx, mk(lo + w, hi) if ok else None)
        if name in ('ends_with', 'strip_suffix'):
            lit = cs.encode() if isinstance(cs, str) else None
            if lit is None and HIGH in cs:
                return self.fallback(cx, name)
            if lit is not None:
                ok, w = True, len(lit)
                for i, c in enumerate(reversed(lit)):
                    if not self.truth(s, mkcmp('ge', hi - lo - i - 1)) or not self.in_set(s, self.byte(b, hi - i - 1), frozenset((c,))):
                        ok = False
                        break
            else:
                w = 1
                ok = self.truth(s, mkcmp('ge', hi - lo - 1)) and self.in_set(s, self.byte(b, hi - 1), cs)
            if name == 'ends_with':
                return models.ret(cx, ok)
            if ok:
                s.st.assume('eq', self.nb(b, hi - w))
            return self.opt(cx, mk(lo, hi - w) if ok else None)
        if isinstance(cs, str):
            return self.fallback(cx, name)
        if name == 'contains':
            return models.ret(cx, self.scan(cx, b, lo, hi, cs)[1])
        if name == 'find':
            q, f = self.scan(cx, b, lo, hi, cs)
            return self.opt(cx, q - lo if f else None)
        if name == 'split_once' and HIGH not in cs:
            q, f = self.scan(cx, b, lo, hi, cs)
            return self.opt(cx, mkT('tup', (mk(lo, q), mk(q + 1, hi))) if f else None)
        return self.fallback(cx, name)

    def str_get(self, cx, t, b, lo, hi):
        s = cx.s
        rr = models.range_of(self, cx, cx.args[1], hi - lo)
        if rr is None:
            return self.fallback(cx, 'get')
        a, e = rr
        for c in (mkcmp('ge', e - a), mkcmp('ge', hi - lo - e)):
            if not self.truth(s, c):
                return self.opt(cx, None)
        for p in (lo + a, lo + e):
            if p is not lo and p is not hi and not self.is_boundary(s, b, p):
                if not self.truth(s, mkcmp('eq', self.nb(b, p))):
                    return self.opt(cx, None)
        return self.opt(cx, mkT('str', self.sub(b, lo + a, lo + e, self.blen(b))))

    def fallback(self, cx, name):
        self.unmodelled(cx, name)
        return super().str_misc(cx, name)

    # ------------------------------------------------------------ loops
    def candidates(self, lid, k, gen, gvals, S, lens, log, deltas, nb, also=()):
        out = super().candidates(lid, k, gen, gvals, S, lens, log, deltas, nb, also)
        bases = set()
        for key in S.st.con:
            for a, _ in key:
                if a.key[0] == 'slen':
                    bases.add(a.key[1])
        for b in self.bases:
            bases.add(b)
        seen = set(out)
        for leaf, g in gvals.items():
            if isinstance(g, Lin) and gen[leaf][0] in ('gen', 'lin'):
                e0 = self.get_path_v(S, leaf)
                for b in sorted(bases, key=lambda x: x.n):
                    c = -self.nb(b, g)
                    if isinstance(e0, Lin):
                        self.settle(S, b, e0)
                    for c in (c, self.blen(b) - g):
                        if c not in seen:
                            seen.add(c)
                            out.append(c)
        # accumulators that run over a list built by an earlier loop: the sum may be the distance that loop has covered
        ka = k.t[0][0]
        for leaf, g in gvals.items():
            if not (isinstance(g, Lin) and gen[leaf][0] == 'gen'):
                continue
            e0 = self.get_path_v(S, leaf)
            if not isinstance(e0, Lin):
                continue
            for h, b in deltas.get(leaf, {}).values():
                if not (isinstance(b, Lin) and isinstance(h, Lin)):
                    continue
                for el in els_of(b - h):
                    segs = el.a[0].a[0] if el.a[0].tag == 'list' else ()
                    if len(segs) != 1 or segs[0].tag != 'lseg' or not isinstance(el.a[1], Lin) or el.a[1] is not k:
                        continue
                    r1 = self.loops.get(segs[0].a[0])
                    if r1 is None or not r1.backs:
                        continue
                    for l1, g1 in r1.gvals.items():
                        if not isinstance(g1, Lin):
                            continue
                        x0 = self.get_path_v(r1.entry, l1)
                        pv = lambda q, r1=r1, l1=l1: var(atom(('pv', r1.id, mkT('lvs', r1.id, interp.leafkey(l1)), q), 0, self.lenmax()))
                        S.st.assume('eq', pv(const(0)) - x0)
                        xn = g1 if r1.gen[l1][0] == 'gen' else subst(g1, {r1.k: segs[0].a[2]})
                        self.accs.setdefault(lid, {})[(leaf, l1)] = (el, r1, l1, pv, xn, segs[0].a[2], g)
                        for c in (g - e0 - pv(k) + x0, e0 - x0 + pv(k) - g, xn - pv(k)):
                            if c not in seen:
                                out.append(c)
        return out

    def acc_facts(self, lid, backs):
        """what one iteration adds, where it equals what the loop that built the list added for the same element"""
        for (leaf, l1), (el, r1, _, pv, xn, n, g) in self.accs.get(lid, {}).items():
            kx = el.a[1]
            for B in backs:
                nv = self.get_path_v(B, leaf)
                if not isinstance(nv, Lin):
                    continue
                d = nv - g
                if not self.same_step(B, d, el, r1, l1):
                    continue
                B.st.assume('eq', pv(kx + 1) - pv(kx) - d)
                if B.st.ge0(n - kx - 1):
                    B.st.assume('ge', xn - pv(kx + 1))

    def same_step(self, B, d, el, r1, l1):
        """the amount d, added for the element el, is what the loop r1 that built the list added to l1 for it"""
        g1 = r1.gvals[l1]
        hit = False
        for b1 in r1.backs:
            push = b1.pushes.get(el.a[0].a[0][0].a[1])
            if not push or len(push) != 1:
                return False
            if not self.compatible(B, el, push[0]):
                continue
            hit = True
            d1 = self.on_element(b1.state, d, el, push[0])
            x1 = b1.next.get(l1)
            if d1 is None or not isinstance(x1, Lin) or not b1.state.st.eq0(x1 - g1 - d1) or not b1.state.st.ge0(x1 - g1):
                return False
        return hit

    def sum_bounded(self, s, lin, hi):
        """a sum over a list that stays below the distance the loop that built the list has covered"""
        ins = [t[1] for t in s.trail if t[0] == 'in']
        for lid in ins:
            for (leaf, l1), (el, r1, _, pv, xn, n, g) in self.accs.get(lid, {}).items():
                kx = el.a[1]
                q = lin - g
                base = g - pv(kx)
                if s.st.ge0(n - kx - 1) and self.same_step(s, q, el, r1, l1):
                    z = s.st.copy()
                    z.assume('ge', xn - pv(kx + 1))
                    z.assume('eq', pv(kx + 1) - pv(kx) - q)
                    if z.ge0(const(hi) - lin):
                        return True
        return False

    def resolve(self, t, el, v):
        if t is el:
            return v
        if t.tag == 'pj':
            x = self.resolve(t.a[0], el, v)
            if isinstance(x, T) and x.tag == 'adt' and x.a[1] == t.a[1] and t.a[2] < len(x.a[2]):
                return x.a[2][t.a[2]]
            if isinstance(x, T) and x.tag == 'sym':
                return None
        if t.tag in ('dr', 'rv'):
            x = self.resolve(t.a[0], el, v)
            if isinstance(x, T) and x.tag == 'rv':
                return x.a[0]
            return x
        return None

    def compatible(self, B, el, v):
        for t, vs in B.var.items():
            x = self.resolve(t, el, v)
            if isinstance(x, T) and x.tag == 'adt' and x.a[1] not in vs:
                return False
        return True

    def on_element(self, s1, d, el, v):
        """the amount d (in terms of the element) for the element value v"""
        r = const(d.c)
        for a, q in d.t:
            if a.key[0] in ('sy', 'slen') and isinstance(a.key[1], T):
                x = self.resolve(a.key[1], el, v)
                if a.key[0] == 'slen' and isinstance(x, T):
                    try:
                        x = self.strlen(s1, self.strterm(s1, x))
                    except AnalysisError:
                        x = None
                if not isinstance(x, Lin):
                    return None
                r = r + x.scale(q)
            elif any(True for _ in els_of(var(a))):
                return None
            else:
                r = r + var(a).scale(q)
        return r

    def loop(self, fr, header, S0):
        lid = None
        before = set(self.loops)
        out = super().loop(fr, header, S0)
        for lid in list(self.accs):
            if lid in before:
                continue
            for o in out:
                st = o[0] if isinstance(o, tuple) and hasattr(o[0], 'st') else o[1] if isinstance(o, tuple) else o
                for t in st.trail:
                    if t[0] != 'loop' or t[1] != lid:
                        continue
                    for el, r1, l1, pv, xn, n, g in self.accs[lid].values():
                        if isinstance(t[2], Lin) and st.st.eq0(t[2] - n):
                            st.st.assume('eq', pv(t[2]) - xn)
                            st.st.assume('eq', pv(self.loops_k[lid]) - xn)
        return out

    def settle(self, s, b, p):
        """record that p is a boundary if that follows"""
        if s.st.interval(self.nb(b, p))[1] > 0 and self.is_boundary(s, b, p):
            s.st.assume('eq', self.nb(b, p))

    def inductive(self, cands, backs, ms, new):
        for c in cands:
            if len(c.t) == 1 and c.t[0][0].key[0] == 'nb':
                _, b, p = c.t[0][0].key
                for B, m in zip(backs, ms):
                    if m is not None:
                        self.settle(B, b, subst(p, m))
        for B in backs:
            ls = [t[1] for t in B.trail if t[0] == 'in']
            if ls:
                self.acc_facts(ls[-1], backs)
            break
        return super().inductive(cands, backs, ms, new)


def ranges(cs):
    """maximal intervals of byte values of a set (HIGH stands for 128..255)"""
    xs = sorted(cs)
    out = []
    for x in xs:
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return [(a, 255 if b == HIGH else b) for a, b in out]
