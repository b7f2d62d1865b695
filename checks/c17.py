"""C17: the option decides nothing but the bytecode field.  Format conformance with the option on and off (checks/fmt.py:
failures that depend on the option), what the setter and the default do, and what parse_class passes on."""
from checks import fmt
from interp import *
from values import *
import interp
from lin import *


def resolve(cx, A, fn, args, others):
    """run fn with the functions in others replaced by stand-ins: [(state, result, calls)]"""
    E = A.E
    P = A.P
    calls = []

    def hook(g):
        def h(s, a):
            seen = tuple(E.deref(s, x) if isinstance(x, T) and x.tag in ('ref', 'rv') else x for x in a)
            n = len(calls)
            calls.append((g, seen))
            return [(s, E.symval(mkT('hookres', n), g.body.locals[0]))]
        return h
    E.hooks = {g.id: hook(g) for g in others}
    n0 = len(E.obl)
    try:
        s = new_state()
        outs = E.run_fn(fn, args, s)
    finally:
        E.hooks = {}
        del E.obl[n0:]
    return outs, calls


def forwards(E, outs, calls):
    """every outcome is the unmodified result of the single call"""
    if len(calls) != 1:
        return False
    t = mkT('hookres', 0)
    for st, v in outs:
        x = v.a[0] if isinstance(v, T) and v.tag == 'sym' else None
        if x is t:
            continue
        if not isinstance(v, T) or v.tag != 'adt':
            return False
        k = v.a[1]
        if st.var.get(t) not in (None, frozenset({k})):
            return False
        if k == 0:
            f = v.a[2][0]
            if not (isinstance(f, T) and f.tag == 'sym' and f.a[0] is mkT('pj', t, 0, 0)):
                return False
        elif st.var.get(t) != frozenset({1}):
            return False
    return True


def run(cx):
    r = fmt.report(cx, 'C17')
    A = r.A
    E, P = A.E, A.P
    term, on = A.option()
    if not cx.check(term is not None, 'setter', 'ParseOptions::parse_bytecode does not store its argument in the option',
                    'setting true and false must leave the option on and off, whatever it was before'):
        return
    field = term.a[2]
    setter = A.find('cafebabe::{impl}::parse_bytecode')
    ty = P.tys[setter.body.locals[1]]['e']
    # the default
    defs = [f for f in P.fns if f.body and f.body.argc == 0 and f.body.locals[0] == ty and f.npath.startswith('cafebabe::')]
    cx.check(len(defs) >= 1, 'default', 'no function that creates default options was found')
    dflt = None
    for f in defs:
        for st, v in E.run_fn(f, [], new_state()):
            x = v.a[2][field] if isinstance(v, T) and v.tag == 'adt' else None
            cx.check(x is on, f'default:{f.npath}', 'the default options do not turn bytecode parsing on', f'{f.path} returns {v}', f.path)
            dflt = v
    # parse_class
    pc = A.find('cafebabe::parse_class')
    if not cx.check(pc is not None, 'parse_class', 'parse_class not found'):
        return
    ret = A.fn_parse.body.locals[0]

    def sig(f):
        t = P.tys[f.body.locals[0]]
        return (t.get('name'), str(t.get('targs')))
    want = P.tys[ret].get('name'), [P.tys[x].get('name') for x in P.tys[ret]['targs']]
    cand = []
    for f in P.fns:
        if f.body is None or not f.npath.startswith('cafebabe::'):
            continue
        t = P.tys[f.body.locals[0]]
        if t.get('name') == want[0] and [P.tys[x].get('name') for x in t.get('targs', [])] == want[1]:
            cand.append(f)
    arg = E.symval(mkT('arg', 1), pc.body.locals[1])
    outs, calls = resolve(cx, A, pc, [arg], [f for f in cand if f is not pc])
    if not cx.check(forwards(E, outs, calls), 'parse_class:result', 'parse_class does not return the result of one parse unchanged', '', pc.path):
        return
    g, a = calls[0]
    if g is A.fn_parse:
        b = tuple(A.args)
    else:
        outs2, calls2 = resolve(cx, A, A.fn_parse, list(A.args), [f for f in cand if f is not A.fn_parse])
        if not cx.check(forwards(E, outs2, calls2) and calls2[0][0] is g, 'parse_class:worker',
                        'parse_class and parse_class_with_options do not parse with the same function', '', pc.path):
            return
        b = calls2[0][1]

    def same(x, y, depth=0):
        """x (in parse_class) is y (in parse_class_with_options) with the option on"""
        while isinstance(y, T) and y.tag == 'rv':
            y = y.a[0]
        y1 = y.a[0] if isinstance(y, T) and y.tag == 'sym' else y
        if isinstance(y1, T) and y1.tag in ('dr', 'arg', 'pj') and P_isopts(y, y1):
            return isinstance(x, T) and x.tag == 'adt' and x.a[2][field] is on
        if isinstance(y1, T) and y1 is term or y is mkT('ptm', term):
            return x is on
        if x is y:
            return True
        return False

    def P_isopts(y, y1):
        # the options themselves, by value or behind a reference
        return y1 is mkT('arg', 2) or y1 is mkT('dr', mkT('arg', 2))
    cx.check(len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)), 'parse_class:args',
             'parse_class does not parse the given bytes with the default options (bytecode parsing on)',
             f'parse_class passes {str(a)[:300]}, parse_class_with_options parses {str(b)[:300]}', pc.path)
    cx.cov['parse_class_calls'] = g.path
