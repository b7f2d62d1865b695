"""C20: the threadsafe build is shareable, deadlock-free and equivalent to the default build.

 * Shareable: a type-level witness crate asserts Send + Sync for every public type; it must compile against the
   threadsafe build, and its twin without the feature must fail (so the witness can tell the difference).
 * Deadlock-free: from the abstract execution of parsing and of constant-pool iteration, every lock acquisition with
   the locks held at that moment; no lock is acquired while the same one may be held, and the order relation between
   lock classes (pool entry variant and field) is acyclic; no non-blocking acquisition makes results timing-dependent.
 * No partially resolved entry: iteration (the only concurrent access) writes no shared cell.
 * No panics in the threadsafe build (a poisoned lock would make later calls panic): all panic obligations hold.
 * Equivalent: both builds are abstractly executed; results, accept conditions, loops and recursive summaries must be
   identical up to the names of the shared-pointer and cell types.
"""
import os
from checks import rank, reach

def run(cx):
    cx.cov['explanation'] = __doc__.strip()
    witness(cx)
    A1 = cx.analysis('')
    A2 = cx.analysis('threadsafe')
    P2 = cx.program('threadsafe')
    locks(cx, A2, P2)
    obligations(cx, A2, P2)
    parity(cx, A1, A2)


def witness(cx):
    d = os.path.join(cx.tmpdir(), 'wit')
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)

    def build(feats, body, tag):
        open(os.path.join(d, 'Cargo.toml'), 'w').write(
            '[package]\nname = "wit"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\ncafebabe = { path = "%s"%s }\n'
            % (cx.repo, ', features = ["threadsafe"]' if feats else ''))
        open(os.path.join(d, 'src', 'lib.rs'), 'w').write(body)
        lock = os.path.join(cx.repo, 'Cargo.lock')
        r = cx.sh(['cargo', '+nightly', 'check', '--offline', '--quiet'], cwd=d, env={'CARGO_TARGET_DIR': os.path.join(cx.tmpdir(), 'wit-' + tag), 'RUSTFLAGS': '--cap-lints=allow'})
        return r.returncode == 0, r.stdout
    pub = public_types(cx)
    lines = ['#![allow(dead_code)]', 'fn share<T: Send + Sync>() {}']
    for t, life in pub:
        lines.append('fn t_%s<\'a>() { share::<cafebabe::%s%s>() }' % (t.replace('::', '_').lower(), t, "<'a>" if life == 1 else '<' + ', '.join(["'a"] * life) + '>' if life else ''))
    cx.check(len(pub) >= 50, 'floor:types', f'only {len(pub)} public types found for the witness')
    ok, out = build(True, '\n'.join(lines), 'ts')
    cx.check(ok, 'witness:send-sync', 'a public type of the threadsafe build is not Send + Sync',
             '\n'.join(l for l in out.splitlines() if l.startswith('error') or 'within' in l or 'required' in l)[:1200] or out[-800:])
    ok, out = build(False, '\n'.join(lines), 'plain')
    bad = (not ok) and 'E0277' in out
    cx.check(bad or ok, 'witness:twin', 'the witness does not compile against the default build for another reason', out[-600:])
    cx.cov['witness_types'] = [t for t, _ in pub]
    cx.cov['default_build_shareable'] = ok


def public_types(cx):
    """public types of the crate, by the path under which a user can name them"""
    out = []
    for t in cx.program('threadsafe').raw['pubtypes']:
        if t['types'] or '{' in t['path'] or '_::' in t['path']:
            continue
        out.append((t['path'] if t['open'] else t['path'].rsplit('::', 1)[-1], t['lifetimes']))
    return out


def locks(cx, A, P):
    E = A.E
    it = A.run_iter()
    order = {}
    where = {}
    for held, cls, chain in E.locks:
        for h in held:
            order.setdefault(h, set()).add(cls)
            where[(h, cls)] = chain
    cx.check(len(E.locks) >= 10, 'floor:locks', f'only {len(E.locks)} lock acquisitions recognised in the threadsafe build')
    cyc = rank.cyclic(order)
    det = ''
    if cyc:
        ch = where.get((cyc[-1], cyc[0])) or where.get((cyc[0], cyc[0])) or ()
        det = 'acquired in ' + ' <- '.join(P.fns[f].path for f, _ in reversed(ch[-6:]) if isinstance(f, int))
    cx.check(cyc is None, 'lock-order', 'locks of pool entries can be acquired in conflicting orders', f'cycle of (variant, field) classes: {cyc}; {det}')
    cx.cov['lock_acquisitions'] = len(E.locks)
    cx.cov['nested_pairs'] = sum(len(v) for v in order.values())
    cx.sample({'lock order': {str(k): sorted(map(str, v)) for k, v in order.items()}})
    for x in E.obl:
        if x[0][2] in ('relock', 'borrow'):
            cx.check(x[1], 'relock:' + P.fns[x[0][0]].npath, 'a lock may be acquired while it is already held', str(x[3])[:400], rank.where(P, P.fns[x[0][0]], x[0][1]))
    for i in sorted(reach.reachable(P, reach.parse_roots(P))):
        f = P.fns[i]
        if not f.body or not f.local:
            continue
        for c, span in reach.ext_calls(f):
            p = (c.get('rpath') or c['path']) if c else ''
            cx.check(not p.endswith(('::try_lock', '::try_read', '::try_write')), 'trylock:' + f.npath, 'the result depends on whether another thread holds a lock', p,
                     rank.where(P, f, span))
    k = 0
    for pre, g, posts in it:
        for st, r, v in posts:
            k += 1
            wr = [r for r in st.wr if r[0] == 'C' and r not in pre.wr]
            cx.check(not wr, 'iter-write', 'concurrent iteration writes shared pool data', str(wr)[:300])
    cx.check(k >= 20, 'floor:iter', 'the constant-pool iterator was not analysed')


def obligations(cx, A, P):
    for x in A.E.obl:
        f = P.fns[x[0][0]]
        cx.check(x[1], f'panic:{f.npath}:{x[0][2]}', 'possible panic in the threadsafe build (poisons locks)', str(x[3])[:300], rank.where(P, f, x[0][1]))


def summary(A):
    import canon
    E = A.E
    it = A.run_iter()
    C = canon.Canon(E)
    P = A.P
    res = {'loops': tuple(r.fn.npath for r in E.loopfinal)}
    res['outcomes'] = (len(A.outs), len(A.oks))
    for i, (s, v) in enumerate(A.oks):
        res['accepted class #%d of parse_class_with_options' % i] = (C.c(v), frozenset(C.state(s)))
    for fid, g in E.recres.items():
        for j, (s, v) in enumerate(g.outs):
            res['outcome #%d of %s' % (j, P.fns[fid].npath)] = (C.c(v), frozenset(C.state(s)))
    for j, (pre, g, posts) in enumerate(it):
        for k, (s, v, w) in enumerate(posts):
            res['iterator step %d.%d' % (j, k)] = (C.c(v), C.c(w), frozenset(C.state(s)))
    for i, r in enumerate(E.loopfinal):
        if not r.backs:
            continue
        for j, b in enumerate(r.backs):
            res['iteration path #%d of loop %d in %s' % (j, i, r.fn.npath)] = (
                frozenset(C.state(b.state)), tuple(tuple(C.c(x) for x in v) for v in b.pushes.values()),
                tuple(C.c(b.next[l]) for l in r.gvals if r.gen[l][0] == 'gen'),
                frozenset((C.leaf(q), C.c(b.state.mem[q])) for q in b.state.wr if q[0] == 'C' and q in b.state.mem))
    return res


def parity(cx, A1, A2):
    a, b = summary(A1), summary(A2)
    for k in sorted(set(a) | set(b)):
        cx.check(a.get(k) == b.get(k), 'parity:' + k, 'default and threadsafe builds differ', f'{k}: ' + ('only in one build' if (k in a) != (k in b) else 'values or conditions differ'))
    cx.cov['compared_summaries'] = len(set(a) | set(b))
    cx.check(len(a) >= 300, 'floor:parity', f'only {len(a)} summaries compared')
