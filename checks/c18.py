"""C18: strings and raw bytes of the result are borrowed from the input.

 * Types: no type reachable from the result of a parse holds owned text or owned bytes, other than the owned form of a Cow.
 * Copies: in every body reachable from the public functions, each call that produces owned text or bytes (or appends to such)
   lies in a region entered only through the owned case of a Cow, or makes text that flows into a parse error and nowhere else,
   or is the decoder of stored strings.
 * Values: on every successful path the raw bytes and texts returned are exactly the slices (decoded strings) that the format
   describes (checks/fmt.py).
"""
from checks import fmt, rank, reach

COW = 'alloc::borrow::Cow'
DECODERS = ('cesu8::from_java_cesu8',)


def owned_text(P, ty, depth=0):
    """does a value of this type own text or bytes directly (not through a Cow)?"""
    if ty is None:
        return None
    t = P.tys[ty]
    nm = t.get('name')
    if nm == 'alloc::string::String':
        return 'String'
    if nm == 'alloc::vec::Vec' and t.get('targs'):
        e = P.tys[t['targs'][0]]
        if e['k'] in ('uint', 'int', 'char') and e.get('s') in ('u8', 'i8', 'char', None) and str(e.get('bits', 8)) in ('8', '32') and is_byte(P, t['targs'][0]):
            return 'Vec<u8>'
    if nm in ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc') and t.get('targs'):
        e = P.tys[t['targs'][0]]
        if e['k'] == 'str' or e['k'] == 'slice' and is_byte(P, e['e']):
            return nm
    return None


def is_byte(P, ty):
    return P.tys[ty].get('s') in ('u8', 'i8', 'char') or P.by_s.get('u8') == ty or P.by_s.get('char') == ty


def cow_text(P, ty):
    t = P.tys[ty]
    if t.get('name') != COW or not t.get('targs'):
        return False
    e = P.tys[t['targs'][0]]
    return e['k'] == 'str' or e['k'] == 'slice' and is_byte(P, e['e'])


def result_types(P, ty):
    """(type, path) of every type held by a value of type ty"""
    seen = set()
    todo = [(ty, '')]
    while todo:
        t, p = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        x = P.tys[t]
        yield t, p
        nm = x.get('name')
        if cow_text(P, t):
            continue
        if nm in ('alloc::vec::Vec', 'alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc', 'core::option::Option', 'core::cell::RefCell', 'std::sync::poison::mutex::Mutex'):
            todo += [(a, p) for a in x.get('targs', [])[:1]]
            continue
        for v in x.get('vs') or []:
            for f in v[2]:
                todo.append((f[1], p + '.' + str(f[0])))
        if x['k'] in ('ref', 'ptr', 'slice', 'array', 'arr') and 'e' in x:
            todo.append((x['e'], p))
        if x['k'] == 'tuple':
            todo += [(a, p) for a in x.get('fs', [])]


def dominated_by_owned(P, fn):
    """blocks that are only reached through the owned case of a switch on a Cow of text"""
    B = fn.body.blocks
    edges = []
    for i, b in enumerate(B):
        t = b[1]
        if t[0] != 'switch':
            continue
        op = t[1]
        if op[0] not in ('m', 'c'):
            continue
        loc = op[1]
        src = None
        for x in b[0]:
            if x[0] == '=' and x[1] == loc and x[2][0] == 'discr':
                src = x[2][1]
        if src is None:
            continue
        ty = place_ty(P, fn, src)
        if ty is None or not cow_text(P, ty):
            continue
        for val, tgt in t[2]:
            if int(val) == 1:
                edges.append((i, tgt))
        vals = {int(v) for v, _ in t[2]}
        if vals == {0} and t[3] is not None:
            edges.append((i, t[3]))
    if not edges:
        return set()
    # blocks unreachable once the owned edges are cut
    seen = set()
    todo = [0]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        for j in fn.body.succ[i]:
            if (i, j) not in edges:
                todo.append(j)
    return set(range(len(B))) - seen


def place_ty(P, fn, pl):
    ty = fn.body.locals[pl[0]]
    for e in pl[1:]:
        if e == '*':
            t = P.tys[ty]
            if t['k'] in ('ref', 'ptr'):
                ty = t['e']
            elif t.get('name') == 'alloc::boxed::Box':
                ty = t['targs'][0]
            else:
                return None
        elif e[0] == 'f':
            ty = e[2]
        elif e[0] == 'v':
            pass
        else:
            return None
    return ty


def used(x, acc):
    """locals read by an operand or rvalue"""
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ('m', 'c') and isinstance(x[1], list):
            acc.add(x[1][0])
            return
        if x and x[0] in ('ref', 'addr') and isinstance(x[-1], list) and x[-1] and isinstance(x[-1][0], int):
            acc.add(x[-1][0])
            return
        for y in x:
            used(y, acc)


def only_errors(P, fn, dest, et):
    """every use of the value in dest ends in a call that makes a parse error: None, or what else happens"""
    taint = {dest}
    grow = True
    while grow:
        grow = False
        for b in fn.body.blocks:
            for x in b[0]:
                if x[0] != '=':
                    continue
                acc = set()
                used(x[2], acc)
                if acc & taint and x[1][0] not in taint:
                    taint.add(x[1][0])
                    grow = True
            t = b[1]
            if t[0] == 'call':
                acc = set()
                used(t[2], acc)
                if acc & taint:
                    c = t[1][2][1] if t[1][0] == 'k' and t[1][2][0] == 'fn' else None
                    d = t[3][0]
                    if fn.body.locals[d] == et:
                        continue
                    if d not in taint:
                        taint.add(d)
                        grow = True
    if 0 in taint:
        return 'it can be returned'
    for b in fn.body.blocks:
        for x in b[0]:
            if x[0] == '=' and '*' in x[1][1:]:
                acc = set()
                used(x[2], acc)
                if acc & taint:
                    return 'it is stored'
        t = b[1]
        if t[0] == 'call':
            acc = set()
            used(t[2], acc)
            if acc & taint and t[1][0] == 'k' and t[1][2][0] == 'fn':
                c = t[1][2][1]
                inst = c.get('inst', -1)
                callee = P.fns[inst] if isinstance(inst, int) and inst >= 0 else None
                if fn.body.locals[t[3][0]] == et:
                    continue
                if c['path'].startswith(('core::', 'alloc::fmt')) and not takes_mut(P, fn, t, taint):
                    continue
                return f'it is passed to {c["path"]}'
    return None


def takes_mut(P, fn, t, taint):
    for a in t[2]:
        if a[0] in ('m', 'c') and a[1][0] not in taint:
            ty = place_ty(P, fn, a[1])
            if ty is not None and P.tys[ty]['k'] == 'ref' and P.tys[ty]['mut']:
                return True
    return False


def run(cx):
    cx.cov['explanation'] = __doc__.strip()
    r = fmt.report(cx, 'C18')
    ncalls = nfn = nsrc = 0
    for feats in ('', 'threadsafe'):
        P = cx.program(feats)
        parse = [f for f in P.fns if f.npath == 'cafebabe::parse_class_with_options' and f.body]
        if not cx.check(len(parse) == 1, 'entry', 'parse_class_with_options not found'):
            return
        rt = P.tys[parse[0].body.locals[0]]
        et = rt['vs'][1][2][0][1]
        nty = 0
        for ty, path in result_types(P, rt['vs'][0][2][0][1]):
            nty += 1
            o = owned_text(P, ty)
            cx.check(o is None, f'type:{path}', f'the result of a parse holds owned text or bytes ({o})', f'at {path or "ClassFile"}: {P.tys[ty].get("s")}')
        cx.check(nty >= 100, 'floor:types', f'only {nty} types are reachable from the result')
        ids = reach.reachable(P, reach.parse_roots(P))
        for i in sorted(ids):
            f = P.fns[i]
            if not f.body or not f.local and not f.path.startswith(('alloc::borrow', 'core::')):
                continue
            if f.body.locals[0] == et or f.trait in ('std::fmt::Display', 'std::fmt::Debug'):
                continue
            nfn += 1
            own = None
            for bi, b in enumerate(f.body.blocks):
                t = b[1]
                if t[0] != 'call' or t[1][0] != 'k' or t[1][2][0] != 'fn':
                    continue
                ncalls += 1
                c = t[1][2][1]
                path = c.get('rpath') or c['path']
                inst = c.get('inst', -1)
                g = P.fns[inst] if isinstance(inst, int) and inst >= 0 else None
                if g is not None and g.body is not None:
                    continue            # looked at itself
                if path.startswith('core::') and not c['path'].startswith('alloc::'):
                    continue            # core does not allocate
                dty = f.body.locals[t[3][0]] if len(t[3]) == 1 else place_ty(P, f, t[3])
                o = owned_text(P, dty) or ('Cow' if dty is not None and cow_text(P, dty) else None)
                mut = None
                for a in t[2]:
                    ty = place_ty(P, f, a[1]) if a[0] in ('m', 'c') else None
                    if ty is not None and P.tys[ty]['k'] == 'ref' and P.tys[ty]['mut'] and owned_text(P, P.tys[ty]['e']):
                        mut = a[1][0]
                if o is None and mut is None:
                    continue
                if path in DECODERS:
                    continue
                if o == 'Cow' and t[2] and t[2][0][0] in ('m', 'c'):
                    ty = place_ty(P, f, t[2][0][1])
                    if ty is not None and (P.tys[ty]['k'] == 'ref' or cow_text(P, ty)) and path.startswith('alloc::borrow') and not path.endswith('from_iter'):
                        continue        # a reference is wrapped, or an owned text handed on
                nsrc += 1
                if own is None:
                    own = dominated_by_owned(P, f)
                if bi in own:
                    cx.ok()
                    continue
                why = only_errors(P, f, mut if o is None else t[3][0], et)
                cx.check(why is None, f'copy:{f.npath}:{path.rsplit("::", 1)[-1]}', 'text or bytes are copied (and not only for an error)',
                         f'{f.path} calls {path} for text or bytes; {why}', rank.where(P, f, b[2]))
    cx.cov['functions_scanned'] = nfn
    cx.cov['calls_scanned'] = ncalls
    cx.cov['owned_text_sources'] = nsrc
    cx.check(nsrc >= 100, 'floor:sources', f'only {nsrc} calls that make owned text were seen')
    cx.assumptions.append('cesu8::from_java_cesu8 borrows whenever the stored bytes are standard UTF-8 (its documented contract)')
