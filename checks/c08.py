"""C08: names and descriptors are accepted exactly when well-formed.

Every function from a text to a verdict or a parsed form is analysed with the text as an abstract string; the texts that
lead to each of its outcomes are extracted as a regular language from the relations between positions, characters and
loops on the path, and classified exactly against the languages of JVMS 4.2/4.3 by automata.  With these facts, the
conformance of the parser to the format (checks/fmt.py) is decided in both directions for every place where a name or
descriptor occurs: on success the text belongs to the language of the place; nothing else is rejected.
The public conversion of a text to a class name is judged on its own, since it is also called directly.
"""
from checks import fmt, jvms, languages as L, rank


def run(cx):
    cx.cov['explanation'] = __doc__.strip()
    r = fmt.report(cx, 'C08')
    A = r.A
    P = A.P
    n = 0
    for f in P.fns:
        if f.local and f.body is not None and f.body.argc == 1 and f.npath.endswith('::try_from') and jvms.parsed_kind(r.m, jvms.mkT('F', f.id)) == 'class':
            n += 1
            tf = A.textfn((f.id, ('s',)), L.DFA)
            where = rank.where(P, f)
            if not cx.check(tf.problem is None, f'undecided:text:{f.npath}', 'function of a text that cannot be analysed', str(tf.problem), where):
                continue
            ok, err = set(), set()
            ex = {}
            for o in tf.outs:
                for b, acc in ((0, ok), (1, err)):
                    if jvms.agrees(o, (), frozenset((b,))):
                        for k, w in o.sigs.items():
                            acc.add(L.SIG[k])
                            ex.setdefault((b, L.SIG[k]), w)
            lang = L.LANG['binary name']
            bad = [ex[0, c] for c in ok - lang]
            cx.check(not bad, f'class name:accepts:{f.npath}', 'a text that is not a binary name is converted to a class name', f'for example {bad[:3]!r}', where)
            bad = [ex[1, c] for c in err & lang]
            cx.check(not bad, f'class name:rejects:{f.npath}', 'a binary name is not converted to a class name', f'for example {bad[:3]!r}', where)
    cx.check(n >= 1, 'floor:public', 'the public conversion to a class name was not found')
    tfs = [t for t in A.textfns.values() if t is not None]
    for t in tfs:
        f = P.fns[t.fid]
        cx.check(t.problem is None, f'undecided:text:{f.npath}', 'function of a text that cannot be analysed', str(t.problem), rank.where(P, f))
        if t.problem is None and len(cx.samples) < 20:
            cx.sample({'function': f.path, 'arguments': [str(x) for x in t.pat],
                       'outcomes': [[str(o.value)[:60], len(o.sigs), [repr(w) for w in list(o.sigs.values())[:3]]] for o in t.outs[:6]]})
    cx.cov['text_functions'] = len(tfs)
    cx.cov['text_classes_distinguished'] = len(L.ALL)
    cx.check(len(tfs) >= 8, 'floor:text', f'only {len(tfs)} functions of texts were analysed (at least 8 expected)')
