"""C16: a failure detected anywhere makes the whole parse fail.

Error flow: the analysis marks a path where a parse error is created (or a text-checking function returned one).  No path that
ends in success - of the parse, of a recursive structure - and no iteration that goes on may carry such a mark.
Order: every condition of the format (checks/fmt.py) must follow from the facts of every successful path.
"""
from checks import fmt, rank
from values import T


def run(cx):
    cx.cov['explanation'] = __doc__.strip()
    r = fmt.report(cx, 'C16')
    A, E, P = r.A, r.A.E, r.A.P
    n = 0
    results = {}
    for fn in P.fns:
        if fn.body:
            rt = P.tys[fn.body.locals[0]]
            if rt.get('name', '').endswith('Result') and rt.get('vs') and rt['vs'][1][2][0][1] == A.errty:
                results[fn.id] = fn

    def look(st, what, where):
        nonlocal n
        n += 1
        marks = [t[1] for t in st.trail if t[0] == 'err']
        for t, b in st.var.items():
            if t.tag == 'F' and t.a[0] in results and isinstance(b, frozenset) and b == frozenset((1,)):
                marks.append(results[t.a[0]].npath)
        if marks:
            src = next((x for x in marks if x != 'merged'), 'merged')
            cx.fail(f'dropped:{what}:{src}', 'a path on which an error was detected ends in success', f'error created in {src}', where)
        else:
            cx.ok()
    for st, v in A.oks:
        look(st, A.fn_parse.npath, rank.where(P, A.fn_parse))
    for fid, g in E.recres.items():
        for st, v in g.outs:
            if not E.is_err(v):
                look(st, P.fns[fid].npath, rank.where(P, P.fns[fid]))
    for rec in E.loops.values():
        for b in rec.backs or ():
            look(b.state, 'loop of ' + rec.fn.npath, rank.where(P, rec.fn))
    cx.cov['success_paths_and_iterations'] = n
    cx.check(n >= 200, 'floor:paths', f'only {n} paths and iterations examined')
