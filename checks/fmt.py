"""Conformance of the parser to the class-file format (checks/jvms.py), shared by the checks of C04-C18, C23 and C25.

Sound direction: on every abstract path that ends in success, every item has been read where the format puts it, every
condition of the format follows from the path's facts, and the value returned is the one the format describes.
Complete direction: at every place where a parse error is created, assuming all conditions of the format contradicts the
path's facts (otherwise a well-formed class file can be rejected there).

Failures are attributed to properties by what failed (tag) and by the part of the format being read (region).
"""
from collections import Counter
from checks import formatcheck, jvms, match, rank

REGIONS = {'C06': 'constant pool', 'C10': 'instructions', 'C13': 'attributes and annotations', 'C14': 'class structure'}


def region(ctx, msg=''):
    if 'constant pool' in ctx:
        return 'C06'
    if 'instructions[]' in ctx:
        return 'C10'
    parts = ctx.split(' > ')
    if parts[0] == 'class' and not any('attributes[]' in p or 'annotation' in p for p in parts):
        return 'C14'
    return 'C13'


# tag -> properties (R stands for the property of the region)
TAGS = {
    'int': 'C05 R', 'pos': 'C05 C04 R', 'end': 'C04 C16', 'count': 'R C04', 'table': 'R C04 C05', 'value': 'R', 'intvalue': 'C05 R', 'refvalue': 'C07 R',
    'rawvalue': 'R C18 C25', 'textvalue': 'C25 C18 R', 'descvalue': 'C09 R', 'flag': 'C23 R C16', 'ref': 'C07 C16', 'name': 'C08 C16', 'handlename': 'C08', 'poolvalue': 'C05 C06 C16 C22', 'poolref': 'C06 C07 C16 C22',
    'pool': 'C06 C16', 'class': 'C14 C16', 'attr': 'C13 C16', 'opcode': 'C10 C16', 'zero': 'C10 C16', 'text': 'C25 C16 R', 'jump': 'C11 C16',
    'bootstrap': 'C15', 'option': 'C17',
}
# conditions every property's check must have seen (guards against vacuous success)
FLOORS = {'int': 500, 'ref': 150, 'name': 100, 'class': 40, 'count': 40, 'end': 20, 'value': 40, 'pool': 10, 'jump': 8, 'flag': 8, 'pos': 8, 'opcode': 2,
          'bootstrap': 1, 'zero': 1, 'option': 2, 'text': 1}


class Result:
    pass


def results(cx, features=''):
    key = ('fmt', features)
    if key in cx._eng:
        return cx._eng[key]
    A = cx.analysis(features)
    r = Result()
    r.A = A
    r.m = m = match.Matcher(A, jvms)
    formatcheck.ok_mode(A, m)
    r.fails = list(m.fails)
    r.counts = dict(m.count)
    r.errs = formatcheck.err_mode(A, m)
    r.nerr = m.errs
    cx._eng[key] = r
    return r


def sound(r):
    """(property set, key, title, detail, where) of every failure of the sound direction"""
    opts = {}
    for tag, msg, ctx, fn, opt in r.fails:
        opts.setdefault((tag, msg, ctx), set()).add(opt)
    for tag, msg, ctx, fn, opt in r.fails:
        reg = region(ctx, msg)
        ps = {reg if p == 'R' else p for p in TAGS.get(tag, 'R').split()}
        if opt is not None and None not in opts[(tag, msg, ctx)] and (not opt) not in opts[(tag, msg, ctx)]:
            ps.add('C17')
        title = msg.split(' [not established')[0].split(' (found ')[0]
        f = fn[0] if fn else None
        w = rank.where(r.A.P, f, f.span if f is not None and hasattr(f, 'span') else None) if f is not None else ''
        yield ps, f'{tag}:{ctx}:{title}', title, f'in {ctx}\n{msg}', w or (f.path if f is not None else '')


def complete(r):
    """the same for the complete direction"""
    P = r.A.P
    for rec, frames in r.errs:
        where = rank.where(P, rec.fn, rec.span)
        chain = [(P.fns[c[0]] if isinstance(c[0], int) else None, c) for c in rec.chain]
        names = ' <- '.join(reversed([str(c[0]).split('::', 1)[-1] for c in rec.chain[-6:]]))
        site = site_of(r, rec)
        if frames is None:
            yield {'C06', 'C10', 'C13', 'C14'}, f'reject:{site[0]}', 'an error is created in a structure that was not recognised', names, site[1]
            continue
        for fr in frames:
            ps = {err_region(r, rec, fr)}
            st = rec.state
            if any(t.tag == 'F' and (b is False or isinstance(b, frozenset) and 0 not in b) or t.tag == 'streq' and t.a[1] in ('<init>', '<clinit>')
                   for d in (st.pred, st.var) for t, b in d.items()):
                ps.add('C08')
            if r.m.option(st) is False:
                ps.add('C17')
            # rejected because of a flag word: the last fact that was learnt is about its bits
            if any(a.key[0] in ('and', 'bit') for k in list(st.st.con)[-2:] for a, _ in k):
                ps.add('C23')
            k = fr.env.get('kind chosen')
            key = f'reject:{k[0]}:{k[1]}' if k else f'reject:{site[0]}'
            if 'attrs' in fr.env and not fr.stop and rec.rec is None:
                ps.add('C15')
                if any('bootstrap' in str(c[0]).rsplit('::', 1)[-1] for c in rec.chain):
                    ps.discard('C14')
            yield ps, key, f'a well-formed class file can be rejected here' + (f' ({k[0]}: {k[1]})' if k else ''), \
                f'context: {names}', site[1]


def site_of(r, rec):
    """the outermost site of the crate that is not in the error module: (stable name, location)"""
    P = r.A.P
    return rec.fn.npath, rank.where(P, rec.fn, rec.span)


def err_region(r, rec, fr):
    env = fr.env
    fns = [str(c[0]) for c in rec.chain]
    it = env.get('iter')
    tab = it[1] if it else None
    what = getattr(tab, 'what', '')
    if what == 'constant pool' or ('pool' not in env and rec.rec is None and 'cp_count' in env):
        return 'C06'
    if what == 'instructions' or 'insns' in env and env.get('insns') is not None:
        return 'C10'
    if rec.rec is not None:
        return 'C13'
    return 'C14'


def report(cx, prop, features=''):
    """record the obligations of prop and their failures"""
    r = results(cx, features)
    mine = {t for t, ps in TAGS.items() if prop in ps.split() or 'R' in ps.split() and prop in REGIONS}
    n = sum(v for t, v in r.counts.items() if t in mine)
    bad = 0
    for ps, key, title, detail, where in sound(r):
        if prop in ps:
            bad += 1
            cx.fail(key, title, detail, where)
    if prop in ('C06', 'C08', 'C10', 'C13', 'C14', 'C15', 'C17', 'C23'):
        for ps, key, title, detail, where in complete(r):
            if prop in ps:
                bad += 1
                cx.fail(key, title, detail, where)
        n += r.nerr
    if prop in ('C05', 'C07'):
        # a read or an entry lookup that is not preceded by a sufficient length test
        for (fid, span, kind), ok, chain, det in r.A.E.obl:
            f = r.A.P.fns[fid]
            buf = 'len(arg(' in str(det) or 'len(rarg' in str(det)
            if not ok and (kind.startswith(('bounds', 'slice', 'contract')) and buf if prop == 'C05' else kind == 'bounds' and not buf):
                bad += 1
                cx.fail(f'unchecked:{f.npath}:{kind}', 'a read of the input is not preceded by a sufficient length test' if prop == 'C05' else
                        'an index is used without a sufficient range test', str(det)[:300], rank.where(r.A.P, f, span))
        n += len({x[0] for x in r.A.E.obl})
    cx.ok(max(0, n - bad))
    cx.cov['conditions_by_kind'] = {t: v for t, v in sorted(r.counts.items()) if t in mine}
    cx.cov['error_sites_in_context'] = r.nerr
    cx.cov['success_outcomes'] = len(r.A.oks)
    cx.cov['functions_analysed'] = len(r.A.E.fnseen)
    cx.cov['loops_matched'] = len([1 for v in r.m.loopbind.values() if v])
    cx.cov['recursive_structures'] = sorted(r.m.recbind.values())
    for t in sorted(mine):
        f = FLOORS.get(t, 0)
        cx.check(r.counts.get(t, 0) >= f or bad, f'floor:{t}', f'only {r.counts.get(t, 0)} conditions of kind {t} were met (at least {f} expected)')
    cx.check(len(r.A.oks) >= 1, 'floor:ok', 'no successful outcome of the parse was found')
    cx.check(r.nerr >= 400, 'floor:err', f'only {r.nerr} error sites were met')
    return r
