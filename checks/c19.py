"""C19: parsing is a pure function of bytes and option.

Effect analysis over every body reachable from the public functions (call graph of the compiler's MIR, dependencies
included where their bodies are available):
 * the crate declares no static with interior mutability, no mutable static and no thread-local;
 * no reachable call belongs to an ambient family (time, environment, files, network, processes, threads, randomness,
   atomics, global one-time cells, I/O, addresses, allocator queries);
 * hashed collections are only used through operations whose result does not depend on hash order;
 * no pointer is turned into an integer and no address is formatted or compared by order;
 * unknown external functions outside core/alloc are reported.
Path-sensitive part: iterating a parsed class's constant pool writes no shared cell (so a class is not changed by
being read), and option/argument values are the only symbolic inputs of the parse result.
"""
import re
from checks import rank, reach

AMBIENT = [
    ('clock', r'(^|::)time::|Instant|SystemTime'),
    ('environment', r'^std::env::|^core::env'),
    ('files or processes', r'^std::(fs|process|os|path)::'),
    ('network', r'^std::net::'),
    ('threads', r'^std::thread::|::thread_local|LocalKey|ThreadId'),
    ('randomness', r'RandomState::new|rand::|getrandom|DefaultHasher::new'),
    ('atomics', r'sync::atomic::'),
    ('global one-time state', r'OnceLock|OnceCell|LazyLock|LazyCell|sync::once|cell::once|cell::lazy|lazy_static|sync::lazy'),
    ('input/output', r'^std::io::(?!error|cursor)|_print$|_eprint$'),
    ('addresses', r'::addr$|::align_offset$|::is_aligned(_to)?$|::align_to(_mut)?$|::as_simd|expose_provenance|::addr_of|ptr::hash|fmt::Pointer|pointer_fmt|new_pointer'),
    ('allocator or backtrace state', r'^std::alloc::|^std::backtrace::|^std::panic::catch'),
    ('capacity of a collection', r'::capacity$'),
    ('channels or condition variables', r'sync::(mpsc|mpmc|barrier|condvar|poison::condvar)'),
    ('reference counts', r'::(strong_count|weak_count)$'),
    ('non-blocking lock', r'::try_(lock|read|write)$'),
]
HASHOK = {'new', 'with_capacity', 'insert', 'contains', 'contains_key', 'get', 'get_mut', 'get_key_value', 'remove', 'len', 'is_empty', 'entry', 'reserve', 'default',
          'or_insert', 'or_insert_with', 'or_default', 'clear', 'replace', 'take', 'index', 'key', 'and_modify', 'insert_entry', 'into_mut', 'with_hasher',
          'with_capacity_and_hasher', 'from', 'extend', 'from_iter', 'is_subset', 'is_disjoint', 'is_superset', 'eq', 'clone'}
PUREMODS = ('core::', 'alloc::', 'cafebabe::', 'bitflags::', 'cesu8::')
STDOK = ('std::collections::hash::', 'std::sync::poison::', 'std::sync::mutex::', 'std::error::', 'std::panicking::', 'std::panic::', 'std::hash::random::{impl}::default',
         'std::f32', 'std::f64')


def run(cx):
    cx.cov['explanation'] = __doc__.strip()
    ncalls = nfn = 0
    for feats in ('', 'threadsafe'):
        P = cx.program(feats)
        for s in P.raw['statics']:
            cx.check(s['freeze'] and not s['mutable'], 'static:' + s['path'], 'static with mutable state', s['path'], s['span'])
        # library roots: everything public, including derived impls and trait impls
        roots = [r['inst'] for r in P.roots if r.get('inst') is not None]
        ids = reach.reachable(P, roots)
        for i in sorted(ids):
            f = P.fns[i]
            if not f.body or not (f.local or f.npath.startswith(PUREMODS[2:])):
                continue
            nfn += 1
            for c, span in reach.ext_calls(f):
                ncalls += 1
                if c is None:
                    continue
                p = re.sub(r'\{impl#\d+\}', '{impl}', c.get('rpath') or c['path'])
                p0 = re.sub(r'\{impl#\d+\}', '{impl}', c['path'])
                w = rank.where(P, f, span)
                bad = None
                for what, rx in AMBIENT:
                    if re.search(rx, p) or re.search(rx, p0):
                        bad = what
                        break
                tail = p.rsplit('::', 1)[-1]
                if not bad and 'collections::hash' in p and tail not in HASHOK:
                    bad = 'hash order'
                if not bad and hash_arg(P, c, p) and tail not in HASHOK and tail not in ('fmt', 'drop', 'drop_in_place', 'deref', 'borrow', 'as_ref', 'unwrap', 'branch', 'from_residual'):
                    bad = 'hash order'
                if not bad and not p.startswith(PUREMODS) and not p.startswith(STDOK):
                    bad = 'an external function outside the reviewed list'
                if 'capacity' in (bad or '') and not f.local:
                    bad = None
                cx.check(bad is None, f'ambient:{f.npath}:{p}', f'the result may depend on {bad}', f'call of {p}', w)
            for st, span in casts(f):
                cx.fail(f'address:{f.npath}', 'a pointer is turned into an integer', str(st)[:200], rank.where(P, f, span))
            if f.local:
                for st, span in ptrcmp(P, f):
                    cx.fail(f'address:{f.npath}', 'the order of two addresses is used', str(st)[:200], rank.where(P, f, span))
    cx.cov['functions'] = nfn
    cx.cov['calls'] = ncalls
    cx.check(nfn >= 200 and ncalls >= 2000, 'floor:calls', f'only {nfn} functions / {ncalls} calls inspected')
    A = cx.analysis()
    res = A.run_iter()
    k = 0
    for pre, g, posts in res:
        for st, r, v in posts:
            k += 1
            wr = [r for r in st.wr if r[0] == 'C' and r not in pre.wr]
            cx.check(not wr, 'iter-write', 'iterating the constant pool changes shared pool data', str(wr)[:300])
    cx.cov['iterator_outcomes'] = k
    cx.check(k >= 20, 'floor:iter', 'the constant-pool iterator was not analysed')
    cx.sample({'statics': P.raw['statics'], 'ambient families': [a for a, _ in AMBIENT]})
    cx.assumptions += ['std and alloc functions outside the ambient families are deterministic in their arguments',
                       'HashSet::new seeds a random hasher; only order-independent operations are called on it']


def hash_arg(P, c, p):
    """a trait call (into_iter, next, ...) on a hashed collection or one of its iterators"""
    for t in c.get('targs') or []:
        s = P.tys[t]['s'] if isinstance(t, int) else ''
        if re.search(r'hash::(set|map)::\w*(Iter|Drain|IntoIter|Keys|Values|Union|Intersection|Difference)', s):
            return True
        if re.match(r'^(&(\'\w+ )?(mut )?)?std::collections::hash::(set::HashSet|map::HashMap)|^(&(\'\w+ )?(mut )?)?(std::collections::)?Hash(Set|Map)<', s):
            return True
    return False


def ptrcmp(P, f):
    """two addresses compared by order"""
    for bb in f.body.blocks:
        for st in bb[0]:
            if st[0] == '=' and st[2][0] == 'bin' and st[2][1] in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
                for o in st[2][2:4]:
                    if o[0] in ('m', 'c') and len(o[1]) == 1 and P.tys[f.body.locals[o[1][0]]]['s'].startswith('*'):
                        yield st, bb[2]
                        break


def casts(f):
    for bb in f.body.blocks:
        for st in bb[0]:
            if st[0] == '=' and st[2][0] == 'cast' and 'PointerExpose' in str(st[2][1]):
                yield st, bb[2]
