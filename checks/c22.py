"""C22: one step of the constant-pool iterator, from every reachable state of the iterator of every accepted class.

The abstract `next` position p of an iterator state is one of its integer fields, plus 0 or 1 (found by trying).  Decided:
  - the first state has p <= 1;
  - a step that returns an item returns the contents of entry j, described in the format's terms, for j = p(after) - 1; every entry
    in [p(before), j) is of a kind that is not yielded;
  - a step that returns nothing has met no entry to be yielded from p(before) to the end of the pool."""
from lin import Lin, var, const
from values import T, mkT
from interp import Infeasible, subst
from analysis import int_leaves, get_leaf
from checks import fmt, jvms, match, rank
from checks.match import Frame, KAlt, AV, V, S, PoolVal, Kind, Txt
from checks.jvms import PF, classtext, nt, memberref, literal_cases, mh_nodes

ITEM = {'Fieldref': 'FieldRef', 'Methodref': 'MethodRef', 'InterfaceMethodref': 'InterfaceMethodRef'}


def item_cases(idx):
    cs = literal_cases(idx, 'item', lambda p: V('LiteralConstant', p))
    cs += [(('Class',), [], V('ClassInfo', classtext(idx)))]
    cs += [((k,), [], V(ITEM[k], memberref(idx, k))) for k in ITEM]
    cs += [(('NameAndType',), [], V('NameAndType', nt(idx))),
           (('MethodHandle',), mh_nodes('mh', idx, 'item'), V('MethodHandle', AV('mh'))),
           (('MethodType',), [], V('MethodType', Txt(PF(idx, 'MethodType', 'desc'))))]
    for k in ('Dynamic', 'InvokeDynamic'):
        cs.append(((k,), [], V(k, S(k, attr_index=PoolVal(idx, k, 'bsm'), name_and_type=nt(PF(idx, k, 'nt'))))))
    cs += [(('Module',), [], V('ModuleInfo', Txt(PF(idx, 'Module', 'name')))),
           (('Package',), [], V('PackageInfo', Txt(PF(idx, 'Package', 'name'))))]
    return cs


VISIBLE = frozenset(k for ks, _, _ in item_cases(None) for k in ks)


class Step:
    """the analysis of one step with p = leaf + off; failures are collected"""

    def __init__(self, m, A, leaf, off):
        self.m, self.A, self.leaf, self.off = m, A, leaf, off
        self.fails = {}
        self.n = 0

    def fail(self, key, title, detail=''):
        self.fails.setdefault(key, (title, detail))

    def need(self, ok, key, title, detail=''):
        self.n += 1
        if not ok:
            self.fail(key, title, detail)
        return ok

    def pos(self, v):
        x = get_leaf(v, self.leaf)
        return x + self.off if isinstance(x, Lin) else None

    def skipped(self, st, i):
        """entry i is of a kind that is not yielded"""
        if self.m.poolcount is not None and st.st.ge0(i - self.m.poolcount):
            return True
        ks = self.m.kinds(st, i)
        return bool(ks) and '?' not in ks and not ks & VISIBLE

    def range_skipped(self, st, lo, hi, span=3):
        """every entry of [lo, hi) that exists is of a kind that is not yielded, for hi - lo at most span"""
        d = hi - lo
        for n in range(span + 1):
            if st.st.ge0(const(n) - d):
                return all(self.skipped(st, lo + i) for i in range(n))
        return False

    def covered(self, pre, st, lo, hi, what, leq=False):
        """every entry of [lo, hi) is skipped, given the loops passed between pre and st"""
        if self.range_skipped(st, lo, hi):
            return True
        loops = [t for t in st.trail[len(pre.trail):] if t[0] == 'loop']
        cur = lo
        for t in loops:
            r = self.loop(t[1], cur, st, t[2])
            if r is not None:
                cur = r
        return cur is not lo and self.range_skipped(st, cur, hi)

    def loop(self, lid, cur, st, k):
        """position up to which entries have been skipped after the loop with k iterations, if it starts at or before cur"""
        rec = self.A.E.loops.get(lid)
        if rec is None:
            return None
        ka = rec.k
        for l in rec.gvals:
            g = rec.gvals[l]
            for path, x in int_leaves(self.A.E, g, ()):
                for off in (0, 1):
                    q = x + off
                    q0 = subst(q, {ka: const(0)})
                    if not st.st.ge0(cur - q0):
                        continue
                    good = True
                    for b in rec.backs:
                        nx = b.next.get(l)
                        try:
                            nq = get_leaf(nx, path) + off
                        except Exception:
                            good = False
                            break
                        if b.state.st.ge0(q - nq):
                            continue
                        if not (b.state.st.ge0(q + 1 - nq) and self.skipped(b.state, q)):
                            good = False
                            break
                    if good and rec.backs:
                        return subst(q, {ka: k if isinstance(k, Lin) else const(k)})
        return None

    def run(self, pre, g, posts, curfn):
        m = self.m
        p = self.pos(g)
        got = set()
        for st, r, v in posts:
            opt = r
            if not (isinstance(opt, T) and opt.tag == 'adt'):
                self.fail('result', 'the result of a step is not determined', str(opt)[:200])
                continue
            name = m.vname(opt)
            q = self.pos(v)
            if q is None:
                self.fail('pos', 'the position after a step is not determined')
                continue
            if name == 'None':
                n = m.poolcount
                self.need(self.covered(pre, st, p, n, 'none'), 'none', 'the iteration can end although entries to be yielded remain')
                continue
            j = q - 1
            idx = lambda m, f: j
            ks = m.kinds(st, j)
            lab = '/'.join(sorted(ks)) if len(ks) < 4 else 'several kinds'
            self.need(st.st.ge0(j - p), 'order', 'an item is yielded again or out of order', lab)
            self.need(st.st.ge0(m.poolcount - 1 - j), 'range', 'an entry past the end of the pool is yielded', lab)
            if not self.need(bool(ks) and ks <= VISIBLE, 'kind:' + lab, 'the item yielded is not that of the entry at the position reached, or of an entry that is not to be yielded', lab):
                continue
            self.need(self.covered(pre, st, p, j, 'some'), 'skip:' + lab, 'an entry that is to be yielded can be skipped', lab)
            old, m.fails, m.failset, m.ctx, m.mode = (m.fails, m.failset, m.ctx, m.mode), [], set(), ['constant pool iteration'], 'ok'
            n = 0
            try:
                for fr in m.seq([KAlt('item', idx, item_cases(idx), 'item')], Frame({}, const(0), st.copy(), len(st.trail))):
                    n += 1
                    got |= m.kinds(fr.st, j)
                    m.curfn = curfn
                    m.cmp(AV('item'), fr, opt.a[2][0], 'item of a ' + '/'.join(sorted(m.kinds(fr.st, j))))
                fs = list(m.fails)
            finally:
                m.fails, m.failset, m.ctx, m.mode = old
            self.need(n > 0, 'item:' + lab, 'the item does not correspond to the entry', lab)
            for tag, msg, ctx, fn, o in fs:
                self.fail('item:' + lab + ':' + msg.split(' (found ')[0].split(' [not est')[0][:80], 'the item differs from the entry it stands for', msg)
            self.n += max(1, n)
        return got


def run(cx):
    r = fmt.results(cx)
    A, m = r.A, r.m
    if m.pool is None or m.poolcount is None:
        cx.fail('pool', 'the constant pool was not recognised')
        return
    inits = A.iter_states()
    runs = A.run_iter()
    cx.check(len(runs) >= 1 and len(runs) == len(inits), 'floor:states', 'no iterator state found')
    total = 0
    kinds = set()
    for (s0, v0), (pre, g, posts) in zip(inits, runs):
        best = None
        for path, _ in int_leaves(A.E, v0, ()):
            for off in (0, 1):
                x = Step(m, A, path, off)
                p0 = x.pos(v0)
                if p0 is None or not s0.st.ge0(const(1) - p0) or not s0.st.ge0(p0):
                    continue
                x.got = x.run(pre, g, posts, A.next_fn(v0.a[0] if v0.tag == 'adt' else v0.a[1]))
                if best is None or (-len(x.got), len(x.fails)) < (-len(best.got), len(best.fails)):
                    best = x
        if best is None:
            cx.fail('start', 'the iteration does not start at the first entry')
            continue
        total += best.n
        kinds |= best.got
        cx.ok(best.n - len(best.fails))
        fn = A.next_fn(v0.a[0] if v0.tag == 'adt' else v0.a[1])
        w = rank.where(A.P, fn, None) if fn is not None else ''
        for k, (title, detail) in best.fails.items():
            cx.fail(k, title, detail, w)
    miss = VISIBLE - kinds
    cx.check(not miss, 'kinds:' + '/'.join(sorted(miss)), 'entries of some kind are never yielded', ', '.join(sorted(miss)))
    # the step terminates and does not fail
    for x in A.E.obl:
        f = A.P.fns[x[0][0]] if x[0][0] >= 0 else None
        if f is not None and not x[1]:
            cx.fail(f'panic:{f.npath}:{x[0][2]}', 'iteration may stop the program', str(x[3])[:200], rank.where(A.P, f, x[0][1]))
    cx.cov['iterator_states'] = len(runs)
    cx.cov['step_outcomes'] = sum(len(p) for _, _, p in runs)
    cx.cov['kinds_yielded'] = sorted(kinds)
    cx.cov['invariants'] = A.iter_inv
    cx.check(total >= 150, 'floor:conditions', f'only {total} conditions were met')
