"""C28: values compare, order, hash and clone by their parts.

Every implementation of PartialEq, Eq, PartialOrd, Ord, Hash and Clone for a type of the crate is looked up in the compiler's
impl tables, in both builds; derived ones are structural, hand-written ones are decided by checks/equality.py."""
from checks import equality


def run(cx):
    cx.cov['explanation'] = __doc__.strip() + ' ' + equality.__doc__.strip()
    n = 0
    hand = []
    for feats in ('', 'threadsafe'):
        P = cx.program(feats)
        for key, ok, title, detail, where in equality.run(cx, P):
            n += 1
            cx.check(ok, key, title, detail, where)
            if detail:
                hand.append(detail)
        # the sets that find duplicate members rely on it
        have = {(r['self'].split('<')[0], r['trait']) for r in P.raw['roots'] if r.get('trait') and r.get('self')}
        for t in ('descriptors::FieldDescriptor', 'descriptors::MethodDescriptor', 'descriptors::ClassName'):
            for tr in ('std::cmp::PartialEq', 'std::hash::Hash', 'std::clone::Clone'):
                cx.check((t, tr) in have, f'floor:{t}:{tr}', f'no implementation of {tr} for {t} was found')
    cx.check(n >= 120, 'floor', f'only {n} implementations found')
    cx.cov['implementations'] = n
    cx.cov['hand_written'] = hand
    cx.assumptions.append('comparison, hashing and cloning of standard-library types (strings, vectors, options, integers) is structural')
