"""Obligations of the functions of a text (analysed on their own, see analyzer/texts.py): no panic, termination."""
from checks import languages as L, rank


def textfns(A):
    keys = set(A.E.cuts)
    for f in A.P.fns:
        if f.local and f.body is not None and f.body.argc == 1 and f.npath.endswith('::try_from') and text_type(A.P, f.body.locals[1]):
            keys.add((f.id, ('s',)))
    return [A.textfn(k, L.DFA) for k in sorted(keys, key=str)]


def text_type(P, ty):
    t = P.tys[ty]
    if t['k'] == 'ref':
        return text_type(P, t['e'])
    return t['k'] == 'str' or t['k'] == 'adt' and (t['name'].endswith('String') or t['name'].endswith('Cow') and any(P.tys[x]['k'] == 'str' for x in t.get('targs', ())))


def termination(cx, A):
    P = A.P
    n = 0
    for tf in textfns(A):
        f = P.fns[tf.fid]
        cx.check(tf.problem is None or 'language' in tf.problem, f'undecided:text:{f.npath}', 'function of a text that cannot be analysed', str(tf.problem), rank.where(P, f))
        for e in tf.engines:
            for rec in e.loopfinal:
                if not rec.backs:
                    continue
                n += 1
                u, left = rank.ranking(e, rec)
                w = rank.where(P, rec.fn, rec.fn.body.blocks[rec.header][2])
                if cx.check(u is not None, f'loop:{rec.fn.npath}:{[l for l in left]}', 'loop without a ranking function (termination not guaranteed)',
                            f'in {f.path} of a text; back edges {left} decrease nothing; invariants: {[str(c)[:80] for c in rec.cands][:6]}', w) and n <= 4:
                    cx.sample({'loop': w, 'ranking': [str(x)[:160] for x in u]})
            recursion(cx, P, e)
    cx.cov['loop_instances_of_text_functions'] = n
    cx.check(n >= 10, 'floor:text loops', f'only {n} loops of text functions analysed (at least 10 expected)')


def recursion(cx, P, e):
    for grp, fids, best, inner, outer in rank.recursion(e):
        cx.check(best is not None, 'recursion:' + ','.join(sorted(P.fns[x].npath for x in fids)), 'recursion whose depth is not bounded by a constant',
                 '', rank.where(P, P.fns[min(fids)]))
    covered = set()
    for fid in e.reccalls:
        covered |= set(e.sccs.get(fid, ()))
    seen = set(e.fnseen)
    for fid in P.sccs():
        f = P.fns[fid]
        if f.local and fid in seen and fid not in covered:
            cx.fail('recursion:' + f.npath, 'recursive function outside every analysed recursion group', '', rank.where(P, f))


def panics(cx, A):
    """(fn, span, kind, ok, chain, detail) of every obligation"""
    out = []
    P = A.P
    for tf in textfns(A):
        f = P.fns[tf.fid]
        cx.check(tf.problem is None or 'language' in tf.problem, f'undecided:text:{f.npath}', 'function of a text that cannot be analysed', str(tf.problem), rank.where(P, f))
        for e in tf.engines:
            out.append(e)
    return out
