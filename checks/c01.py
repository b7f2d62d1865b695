"""C01: nothing can panic.

Every operation of the compiler's MIR (built with overflow checks) that can panic is an obligation in every context in
which the abstract interpretation of parse_class_with_options reaches it: arithmetic overflow, division, shifts, index
and slice bounds, character boundaries, unwrap/expect, conflicting borrows of a shared cell (or locking it twice), and
every explicitly called panic.  The same for one step of the constant-pool iterator from each of its reachable states,
for the lookup of an instruction by offset, and for the functions of texts, analysed for an arbitrary text.
Both builds (shared cells by RefCell and by Mutex) are analysed.
"""
from collections import Counter
from checks import rank, strcheck


def run(cx):
    cx.cov['explanation'] = __doc__.strip()
    for feat in ('', 'threadsafe'):
        one(cx, feat)
    cx.assumptions.append('functions of the standard library without MIR in the sysroot do not panic unless listed as panicking (see analyzer/models.py); allocation succeeds')


def one(cx, feat):
    tag = feat or 'default'
    A = cx.analysis(feat)
    P = A.P
    A.run_iter()
    fns = [f for f in P.fns if f.body and f.local and f.npath.endswith('::get_opcode_index')]
    if cx.check(len(fns) == 1, 'lookup:missing', f'{len(fns)} functions named get_opcode_index'):
        A.run_symbolic(fns[0])
    kinds = Counter()
    for E in [A.E] + strcheck.panics(cx, A):
        sites = {}
        for (fid, span, kind), ok, chain, det in E.obl:
            s = sites.setdefault((fid, str(span), kind), [True, None, span])
            if not ok and s[0]:
                s[0], s[1] = False, (chain, det)
        for (fid, _, kind), (ok, bad, span) in sites.items():
            f = P.fns[fid]
            kinds[kind.split(':')[0]] += 1
            if not cx.check(ok, f'panic:{f.npath}:{kind}', f'this can panic ({kind})' if not kind.startswith('contract') else f'an inductive contract fails ({kind})',
                            '' if ok else detail(P, bad), rank.where(P, f, span)):
                continue
        for p, n in E.unknown.items():
            k = P.find_local(p) if hasattr(P, 'find_local') else None
            if k is not None:
                cx.fail(f'undecided:call:{p}', 'function of the crate without a body', p)
        unk = sorted(E.unknown)
        if unk:
            cx.cov.setdefault('calls_assumed_not_to_panic', [])
            cx.cov['calls_assumed_not_to_panic'] = sorted(set(cx.cov['calls_assumed_not_to_panic']) | set(unk))[:60]
    cx.cov['sites_by_kind_' + tag] = dict(sorted(kinds.items()))
    cx.cov['obligations_in_context_' + tag] = len(A.E.obl)
    cx.cov['functions_' + tag] = len(A.E.fnseen)
    for kind, least in (('overflow', 60), ('bounds', 20)):
        cx.check(kinds[kind] >= least, f'floor:{kind}:{tag}', f'only {kinds[kind]} sites of kind {kind} were met (at least {least} expected)')
    cx.check(len(A.E.obl) >= 2000, f'floor:{tag}', f'only {len(A.E.obl)} obligations in context')
    for (fid, span, kind), ok, chain, det in A.E.obl[:400:40]:
        cx.sample({'site': rank.where(P, P.fns[fid], span), 'kind': kind, 'detail': str(det)[:160]})


def detail(P, bad):
    chain, det = bad
    return f'{str(det)[:400]}; context: ' + ' <- '.join(P.fns[f].path if isinstance(f, int) else str(f) for f, _ in reversed(chain[-5:])) if chain else str(det)[:400]
