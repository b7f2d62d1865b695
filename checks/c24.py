"""C24: the display of an error is its message, then every context from the innermost to the outermost, joined by ' for ' and ' of '.

The Display implementation is interpreted with the formatter as a list of written pieces; loops over the contexts are checked for
an arbitrary iteration.  Every function that makes an error is interpreted too: constructors start with no context, and every
function that turns an error into an error keeps the message and all contexts in order and adds at the end only."""
from interp import *
from values import *
from lin import *
import values

FOR, OF = ' for ', ' of '


class Walk:
    """the pieces of a display against: message, then (joiner, context) for every context in order"""

    def __init__(self, cx, E, msg, ctxs, fn):
        self.cx, self.E, self.msg, self.ctxs, self.fn = cx, E, msg, ctxs, fn
        self.obl = 0

    def bad(self, key, what):
        self.cx.fail(key, what, '', self.fn.path)
        self.dead = True

    def piece(self, st, p, lit, c, began):
        """-> (pending literal, number of contexts written, message written)"""
        E = self.E
        kind, t = p.a[0], p.a[1]
        if kind == 'char' and isinstance(t, Lin) and t.isconst():
            return lit + chr(t.c), c, began
        if kind == 'char' and isinstance(t, T) and t.tag == 'lit':
            return lit + str(t.a[0]), c, began
        if kind != 'str':
            self.bad('piece', f'something else than the message and the contexts is written ({p})')
            return '', c, began
        if t.tag == 'lit':
            return lit + t.a[0], c, began
        self.obl += 1
        if not began:
            if t is not self.msg or lit:
                self.bad('message', f'the text does not start with the message (found {lit!r}, {t})')
            return '', c, True
        if t.tag == 'el' and t.a[0] is self.ctxs:
            i = t.a[1]
            if not (i is c or st.st.eq0(i - c)):
                self.bad('order', f'the contexts are not written one after the other in order (position {i} where {c} is due)')
            first = st.st.eq0(c)
            later = st.st.ge0(c - 1)
            if not (first and lit == FOR or later and lit == OF):
                self.bad('joiner', f'a context is joined by {lit!r}' + (' although it is the first' if first else ' although it is not the first' if later else ''))
            return '', c + 1, True
        self.bad('context', f'something else than the message and the contexts is written ({t})')
        return '', c, True

    def walk(self, st, segs, lit, c, began):
        self.dead = False
        for seg in segs:
            if self.dead:
                return None
            if seg.tag == 'items':
                for p in seg.a[0]:
                    lit, c, began = self.piece(st, p, lit, c, began)
                    if self.dead:
                        return None
            elif seg.tag == 'lseg':
                r = self.loop(st, seg, lit, c, began)
                if r is None:
                    return None
                lit, c, began = r
            else:
                self.bad('piece', 'the text is not a sequence of known pieces')
                return None
        return lit, c, began

    def loop(self, st, seg, lit, c, began):
        E = self.E
        lid, leaf, n = seg.a[0], seg.a[1], seg.a[2]
        rec = E.loops[lid]
        k = var(rec.k)
        if lit or not began:
            self.bad('shape', 'a literal is pending before the loop over the contexts')
            return None
        g = {v.a[0]: l for l, v in rec.gvals.items() if isinstance(v, T) and v.tag == 'str'}
        flags = {v.a[0]: l for l, v in rec.gvals.items() if isinstance(v, T) and v.tag == 'ptm'}
        for b in rec.backs:
            s = b.state
            for first in (True, False):
                z = s.copy()
                if not (z.st.assume('ge', -k) if first else z.st.assume('ge', k - 1)):
                    continue
                # a flag that is carried along rules out iterations
                if any(t in s.pred and s.pred[t] not in ({E.get_path_v(rec.entry, l)} if first else {o.next.get(l, rec.gvals[l]) for o in rec.backs})
                       for t, l in flags.items()):
                    continue
                # what is known about the strings carried from one iteration to the next
                alts = {}
                for term, l in g.items():
                    if first:
                        alts[term] = {E.get_path_v(rec.entry, l)}
                    else:
                        alts[term] = {o.next.get(l, rec.gvals[l]) for o in rec.backs}
                used = [t for p in b.pushes.get(leaf, ()) for t in p.a[1:] if t in alts]
                combos = [{}]
                for t in dict.fromkeys(used):
                    combos = [{**m, t: v} for m in combos for v in alts[t]]
                for m in combos:
                    q = [mkT('piece', p.a[0], self.lit(m.get(p.a[1], p.a[1]))) for p in b.pushes.get(leaf, ())]
                    # contexts written before this iteration: c + k (every iteration writes exactly one)
                    self.dead = False
                    w = ('', c + k, True)
                    for p in q:
                        w = self.piece(z, p, *w)
                        if self.dead:
                            return None
                    if w[0] or w[1] - (c + k) is not const(1):
                        self.bad('shape', 'an iteration does not write exactly one context')
                        return None
        return '', c + n, True

    def lit(self, v):
        return v.a[0] if isinstance(v, T) and v.tag == 'str' else v


def run(cx):
    A = cx.analysis()
    E, P = A.E, A.P
    et = A.errty
    E.is_errfn = lambda fn: False
    try:
        _run(cx, A, E, P, et)
    finally:
        del E.is_errfn


def _run(cx, A, E, P, et):
    disp = [f for f in P.fns if f.trait == 'std::fmt::Display' and f.local and f.body and P.tys[f.body.locals[1]].get('e') == et]
    if not cx.check(len(disp) == 1, 'display', 'no Display implementation of the error type found'):
        return
    fn = disp[0]
    vs = P.tys[et]['vs'][0][2]
    strs = [i for i, f in enumerate(vs) if P.tys[f[1]].get('name') == 'alloc::string::String']
    vecs = [i for i, f in enumerate(vs) if P.tys[f[1]].get('name') == 'alloc::vec::Vec']
    if not cx.check(len(strs) == 1 and len(vecs) == 1, 'representation', 'the error type is not a message and a list of contexts'):
        return
    mi, ci = strs[0], vecs[0]

    def parts(v, term):
        """(message term, contexts list) of an error value"""
        v = E.expand(v) if hasattr(E, 'expand') and isinstance(v, T) and v.tag == 'sym' else v
        if not (isinstance(v, T) and v.tag == 'adt'):
            return None
        return v.a[2][mi], v.a[2][ci]

    # Display
    s = new_state()
    s.mem[('A', 'f')] = mkT('list', (), 'fmt')
    s.mem[('A', 'e')] = E.symval(mkT('arg', 'e'), et)
    outs = E.run_fn(fn, [mkT('ref', ('A', 'e'), ()), mkT('ref', ('A', 'f'), ())], s)
    msg = mkT('pj', mkT('arg', 'e'), 0, mi)
    ct = mkT('pj', mkT('arg', 'e'), 0, ci)
    nctx = E.lenof(ct)
    ctxs = mkT('list', (mkT('symseg', ct, nctx),))
    n = 0
    for st, v in outs:
        ctxs = next((t for t in lists_of(st.mem[('A', 'f')], E) if t.a[0] and t.a[0][0].tag == 'symseg' and t.a[0][0].a[0] is ct), ctxs)
        if isinstance(v, T) and v.tag == 'adt' and v.a[1] == 1:
            cx.fail('display:err', 'displaying an error fails although the sink accepts everything', '', fn.path)
            continue
        w = Walk(cx, E, msg, ctxs, fn)
        r = w.walk(st, st.mem[('A', 'f')].a[0], '', const(0), False)
        n += w.obl
        if r is None:
            continue
        lit, c, began = r
        cx.check(began and not lit, 'display:rest', 'the message is missing or something is written after the last context', repr(lit), fn.path)
        cx.check(c is nctx or st.st.eq0(nctx - c), 'display:all', 'not all contexts are written', f'written: {c}, of {nctx}', fn.path)
    cx.check(len(outs) > 0, 'display:none', 'displaying an error never returns', '', fn.path)
    cx.cov['display_outcomes'] = len(outs)

    # functions that make errors
    makers = [f for f in P.fns if f.body and f.path.startswith('cafebabe') and f.body.locals[0] == et and f.trait != 'std::clone::Clone']
    adders = 0
    for f in makers:
        errs = [i for i in range(1, f.body.argc + 1) if f.body.locals[i] == et]
        s = new_state()
        args = [E.symval(mkT('arg', i), f.body.locals[i]) for i in range(1, f.body.argc + 1)]
        for st, v in E.run_fn(f, args, s):
            p = parts(v, None)
            if errs and isinstance(v, T) and v.tag == 'sym' and v.a[0] is mkT('arg', errs[0]):
                cx.ok(1)
                continue
            if not cx.check(p is not None, f'maker:{f.path}', 'the error that is returned is not known', str(v)[:200], f.path):
                continue
            m, l = p
            mt = E.strterm(st, m)
            if not isinstance(l, T) or l.tag != 'list':
                cx.fail(f'maker:{f.path}', 'the contexts of the error are not known', str(l)[:200], f.path)
                continue
            segs = list(l.a[0])
            if errs:
                adders += 1
                b = mkT('arg', errs[0])
                cx.check(mt is mkT('pj', b, 0, mi), f'message:{f.path}', 'adding a context changes the message', str(mt)[:200], f.path)
                cx.check(bool(segs) and segs[0].tag == 'symseg' and segs[0].a[0] is mkT('pj', b, 0, ci), f'contexts:{f.path}',
                         'adding a context loses or reorders the earlier contexts', str(l)[:300], f.path)
                extra = [x for g in segs[1:] for x in (g.a[0] if g.tag == 'items' else [None])]
                cx.check(all(x is not None for x in extra) and len(extra) >= 1, f'added:{f.path}', 'the context is not added at the end', str(l)[:300], f.path)
            else:
                cx.check(all(g.tag == 'items' for g in segs), f'contexts:{f.path}', 'a new error does not start with a known list of contexts', str(l)[:300], f.path)
    # the two building blocks: what is passed in is what is stored
    for f in makers:
        errs = [i for i in range(1, f.body.argc + 1) if f.body.locals[i] == et]
        texts = [i for i in range(1, f.body.argc + 1) if P.tys[f.body.locals[i]].get('name') == 'alloc::string::String' or
                 P.tys[f.body.locals[i]]['k'] == 'ref' and P.tys[P.tys[f.body.locals[i]]['e']]['k'] == 'str']
        if len(texts) != 1 or f.body.argc != len(errs) + 1:
            continue
        s = new_state()
        args = [E.symval(mkT('arg', i), f.body.locals[i]) for i in range(1, f.body.argc + 1)]
        t = E.strterm(s, args[texts[0] - 1])
        for st, v in E.run_fn(f, args, s):
            p = parts(v, None)
            if p is None:
                continue
            m, l = p
            if errs:
                segs = l.a[0]
                last = segs[-1].a[0] if segs and segs[-1].tag == 'items' else ()
                cx.check(len(last) == 1 and len(segs) == 2 and E.strterm(st, last[0]) is t, f'context:{f.path}', 'the context that is added is not the one given', str(l)[:300], f.path)
            else:
                cx.check(E.strterm(st, m) is t and not l.a[0], f'new:{f.path}', 'a new error does not have the given message and no context', str(v)[:300], f.path)
    # nobody else takes errors apart
    mk = {f.id for f in makers}
    for f in P.fns:
        if f.body is None or not f.path.startswith('cafebabe') or f.id in mk or f.trait in ('std::clone::Clone',):
            continue
        for b in f.body.blocks:
            for x in b[0]:
                if x[0] == '=' and x[2][0] == 'agg' and x[2][1][0] == 'adt' and x[2][1][1] == et:
                    cx.fail(f'elsewhere:{f.path}', 'an error is put together outside the functions that make errors', '', f.path)
        for i, ty in enumerate(f.body.locals):
            t = P.tys[ty]
            if i and i <= f.body.argc and t['k'] == 'ref' and t['mut'] and t['e'] == et:
                cx.fail(f'mutates:{f.path}', 'a function can change an error in place', '', f.path)
    cx.check(adders >= 20, 'floor', f'only {adders} functions that add context were found')
    cx.cov['functions_making_errors'] = len(makers)
    cx.cov['functions_adding_context'] = adders
    cx.assumptions.append('the sink an error is displayed to does not fail')


def lists_of(v, E):
    """all lists that the pieces written come from, loops included"""
    seen = set()
    work = [v]
    done = set()
    while work:
        x = work.pop()
        acc = set()
        subterms(x, acc)
        for t in acc:
            if t.tag == 'list':
                seen.add(t)
            if t.tag == 'lseg' and t.a[0] not in done:
                done.add(t.a[0])
                for b in E.loops[t.a[0]].backs:
                    for ps in b.pushes.values():
                        work += list(ps)
    return seen
