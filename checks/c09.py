"""C09: parsed descriptors denote what their text says.

Parsing: every successful outcome of every function that parses a descriptor, for an arbitrary text.  The text is cut at the
positions that the parsed form implies, and each part, extracted as a regular language (analyzer/texts.py), must be included in
the language of what the form says: exactly `dimensions` opening brackets, the letter of the base type or L name ; with that very
name, '(' the parameters one after the other ')' and the return type.  Parameters are checked for an arbitrary iteration of the
loop that collects them.  In the parser, every descriptor of the result must be the parsed form of the text of its place (fmt).
Formatting: every Display implementation is interpreted with the formatter as a list of written pieces, which must spell the
descriptor of an arbitrary value."""
import automata
import strings
import texts
from automata import Nfa, mask, lit, EPS
from interp import new_state
from lin import Lin, const, var
from values import T, mkT
from checks import fmt, jvms, rank, strcheck

CH = {'Byte': 'B', 'Char': 'C', 'Double': 'D', 'Float': 'F', 'Integer': 'I', 'Long': 'J', 'Short': 'S', 'Boolean': 'Z'}
OPEN = ('rep', ('s', mask('[')), 0, None)


def unrv(v):
    while isinstance(v, T) and v.tag == 'rv':
        v = v.a[0]
    return v


class Types:
    """the public descriptor types and the positions of their public fields"""

    def __init__(self, P):
        self.P = P
        self.ids = {}
        for i, t in enumerate(P.tys):
            if t['k'] == 'adt' and t['name'].startswith('cafebabe::') and t.get('vs'):
                self.ids.setdefault(t['name'].split('::')[-1], []).append(i)

    def field(self, ty, variant, name):
        return [q[0] for q in self.P.tys[ty]['vs'][variant][2]].index(name)

    def variant(self, v):
        return self.P.tys[v.a[0]]['vs'][v.a[1]][0]

    def name(self, ty):
        t = self.P.tys[ty]
        return t['name'].split('::')[-1] if t['k'] == 'adt' else None


def leaves(v):
    """texts inside the value of a class name"""
    v = unrv(v)
    if isinstance(v, T):
        if v.tag in ('str', 'strv'):
            yield v.a[0]
        elif v.tag == 'adt':
            for x in v.a[2]:
                yield from leaves(x)


_dfas = {}


def included(e, target):
    if e is None:
        return False
    d = _dfas.get(target)
    if d is None:
        d = _dfas[target] = automata.SigDfa([target])
    return all(k[0] for k in automata.signatures(d, [Nfa(e)]))


class Bad(Exception):
    pass


class Parse:
    """one successful outcome of a function that parses a descriptor"""

    def __init__(self, cx, ty, E, S):
        self.cx, self.ty, self.E, self.S = cx, ty, E, S
        self.X = texts.Extract(E, S)
        self.n = 0

    def part(self, st, a, b, target, what):
        self.n += 1
        if not included(self.X.stretch(st, a, b), target):
            raise Bad(what)

    def same(self, st, x):
        return st.st.eq0(x) or texts.View(st.st).eq0(x)

    def classname(self, v):
        ts = list(leaves(v))
        if len(ts) != 1:
            raise Bad('the text of a class name is not known')
        return ts[0]

    def field_end(self, v, p):
        v = unrv(v)
        if not (isinstance(v, T) and v.tag == 'adt' and self.ty.name(v.a[0]) == 'FieldDescriptor'):
            raise Bad('the parsed field descriptor is not known')
        dims = v.a[2][self.ty.field(v.a[0], 0, 'dimensions')]
        ft = unrv(v.a[2][self.ty.field(v.a[0], 0, 'field_type')])
        if not isinstance(dims, Lin) or not (isinstance(ft, T) and ft.tag == 'adt'):
            raise Bad('the dimensions or the type of a field descriptor are not known')
        k = self.ty.variant(ft)
        if k in CH:
            return dims, k, None, p + dims + 1
        if k != 'Object':
            raise Bad(f'unexpected type {k}')
        t = self.classname(ft.a[2][0])
        if not (t.tag == 'sub' and t.a[0] is self.S):
            raise Bad('the class name is not a part of the text')
        return dims, k, t, t.a[2] + 1

    def field(self, st, v, p, q=None):
        """the parsed form v denotes the text from p to q; -> q"""
        dims, k, t, end = self.field_end(v, p)
        if q is not None and not self.same(st, q - end):
            # not at this end: the language decides
            pass
        q = end if q is None else q
        self.part(st, p, p + dims, OPEN, 'the number of dimensions is not the number of opening brackets')
        if t is None:
            self.part(st, p + dims, q, lit(CH[k]), f'the text denoted by {k} is not {CH[k]}')
        else:
            a, b = t.a[1], t.a[2]
            if not self.same(st, a - (p + dims + 1)):
                raise Bad('the class name does not start after the L')
            self.part(st, p + dims, a, lit('L'), 'the text of a class type does not start with L')
            self.part(st, b, q, lit(';'), 'the class name does not extend to the semicolon')
        return q

    def lins(self, v):
        v = unrv(v)
        if isinstance(v, Lin):
            yield (), v
        elif isinstance(v, T) and v.tag in ('str', 'strv') and v.a[0].tag == 'sub' and v.a[0].a[0] is self.S:
            yield ('from',), v.a[0].a[1]
        elif isinstance(v, T) and v.tag == 'chars':
            yield ('at',), v.a[1]

    def method(self, st, v, n):
        v = unrv(v)
        if not (isinstance(v, T) and v.tag == 'adt' and self.ty.name(v.a[0]) == 'MethodDescriptor'):
            raise Bad('the parsed method descriptor is not known')
        ps = unrv(v.a[2][self.ty.field(v.a[0], 0, 'parameters')])
        rt = unrv(v.a[2][self.ty.field(v.a[0], 0, 'return_type')])
        if not (isinstance(ps, T) and ps.tag == 'list') or not (isinstance(rt, T) and rt.tag == 'adt'):
            raise Bad('the parameters or the return type are not known')
        self.part(st, const(0), const(1), lit('('), 'the text does not start with (')
        pos = const(1)
        for seg in ps.a[0]:
            if seg.tag == 'items':
                for x in seg.a[0]:
                    pos = self.field(st, x, pos)
            elif seg.tag == 'lseg':
                pos = self.loop(st, seg, pos)
            else:
                raise Bad('the parameters are not known')
        self.part(st, pos, pos + 1, lit(')'), 'the last parameter is not followed by )')
        k = self.ty.variant(rt)
        if k == 'Void':
            self.part(st, pos + 1, n, lit('V'), 'the return type is void but the text is not V')
        elif k == 'Return':
            self.field(st, rt.a[2][0], pos + 1, n)
        else:
            raise Bad(f'unexpected return type {k}')

    def loop(self, st, seg, pos):
        E = self.E
        rec = E.loops[seg.a[0]]
        why = 'no position of the loop over the parameters is known'
        for leaf, g in rec.gvals.items():
            for kind, at in self.lins(g):
                e0 = dict(self.lins(E.get_path_v(rec.entry, leaf))).get(kind)
                if e0 is None or not (self.same(st, e0 - pos) or self.same(rec.entry, e0 - pos)):
                    continue
                try:
                    for b in rec.backs:
                        xs = b.pushes.get(seg.a[1], ())
                        if len(xs) != 1:
                            raise Bad('an iteration does not collect exactly one parameter')
                        nx = dict(self.lins(b.next.get(leaf, g))).get(kind)
                        if nx is None:
                            raise Bad('the position after a parameter is not known')
                        end = self.field(b.state, xs[0], at)
                        if not self.same(b.state, nx - end):
                            raise Bad('a parameter does not start where the previous one ends')
                    return at
                except Bad as ex:
                    why = str(ex)
        raise Bad(why)


def parsing(cx, A, m):
    P = A.P
    ty = Types(P)
    S = mkT('S', 'text')
    kinds = {}
    n = 0
    for tf in strcheck.textfns(A):
        f = P.fns[tf.fid]
        kind = jvms.parsed_kind(m, mkT('F', tf.fid))
        if kind is None:
            continue
        where = rank.where(P, f)
        if not cx.check(tf.problem is None, f'undecided:text:{f.npath}', 'function of a text that cannot be analysed', str(tf.problem), where):
            continue
        for o in tf.outs:
            v = unrv(o.value)
            if not o.sigs:
                continue
            if not (isinstance(v, T) and v.tag == 'adt'):
                cx.fail(f'parse:{f.npath}', 'an outcome of the parser of descriptors is not known', str(v)[:200], where)
                continue
            if v.a[1] != 0:
                continue
            x = Parse(cx, ty, o.engine, S)
            N = o.engine.blen(S)
            v = unrv(v.a[2][0])
            try:
                if kind == 'array':
                    if not (isinstance(v, T) and v.tag == 'adt'):
                        raise Bad('the parsed array type is not known')
                    if not v.a[2]:
                        if any(w[:1] == '[' for w in o.sigs.values()) or not included(('and', o.exprs, ('cat', lit('['), automata.ANY)), ('alt',)):
                            raise Bad('an array type is not parsed as one')
                    else:
                        x.field(o.st, v.a[2][0], const(0), N)
                elif kind == 'field':
                    x.field(o.st, v, const(0), N)
                elif kind == 'method':
                    x.method(o.st, v, N)
                else:
                    t = x.classname(v)
                    if not (t is S or t.tag == 'sub' and t.a[0] is S and x.same(o.st, t.a[1]) and x.same(o.st, N - t.a[2])):
                        raise Bad('the class name is not the text')
                    x.n += 1
                cx.ok(x.n)
                n += x.n
                kinds[kind] = kinds.get(kind, 0) + 1
                if len(cx.samples) < 12 and kind != 'class':
                    cx.sample({'function': f.path, 'value': str(v)[:200], 'texts': [repr(w) for w in list(o.sigs.values())[:3]]})
            except Bad as ex:
                cx.fail(f'parse:{f.npath}:{ex}', str(ex), f'value {str(v)[:300]}; texts such as {[w for w in list(o.sigs.values())[:3]]!r}', where)
    for k, least in (('field', 9), ('method', 9), ('class', 1)):
        cx.check(kinds.get(k, 0) >= least, f'floor:{k}', f'only {kinds.get(k, 0)} successful outcomes of parsers of kind {k} (at least {least} expected)')
    cx.cov['parsed_outcomes'] = kinds
    return ty


class Show:
    """the pieces written for an arbitrary value"""

    def __init__(self, ty, E):
        self.ty, self.E, self.n = ty, E, 0

    # ---- what should be written: tokens ('lit', text) ('rep', Lin) ('name', term) ('list', term)
    def want(self, st, ty, x):
        """tokens for the value described by the term x of type ty in the state"""
        nm = self.ty.name(ty)
        P = self.ty.P
        if nm == 'ClassName':
            return [('name', x)]
        if nm == 'FieldType':
            k = self.variant(st, ty, x)
            if k in CH:
                return [('lit', CH[k])]
            i = [v[0] for v in P.tys[ty]['vs']].index(k)
            return [('lit', 'L'), ('name', mkT('pj', x, i, 0)), ('lit', ';')]
        if nm == 'FieldDescriptor':
            di, fi = self.ty.field(ty, 0, 'dimensions'), self.ty.field(ty, 0, 'field_type')
            d = self.E.symval(mkT('pj', x, 0, di), P.tys[ty]['vs'][0][2][di][1])
            return [('rep', d)] + self.want(st, P.tys[ty]['vs'][0][2][fi][1], mkT('pj', x, 0, fi))
        if nm == 'ReturnDescriptor':
            k = self.variant(st, ty, x)
            if k == 'Void':
                return [('lit', 'V')]
            i = [v[0] for v in P.tys[ty]['vs']].index(k)
            return self.want(st, P.tys[ty]['vs'][i][2][0][1], mkT('pj', x, i, 0))
        if nm == 'MethodDescriptor':
            pi, ri = self.ty.field(ty, 0, 'parameters'), self.ty.field(ty, 0, 'return_type')
            fs = P.tys[ty]['vs'][0][2]
            return [('lit', '('), ('list', mkT('pj', x, 0, pi), P.tys[fs[pi][1]]['targs'][0]), ('lit', ')')] + self.want(st, fs[ri][1], mkT('pj', x, 0, ri))
        raise Bad('unexpected type')

    def variant(self, st, ty, x):
        vs = st.var.get(x)
        if vs is None or len(vs) != 1:
            raise Bad(f'what is written does not depend on which {self.ty.name(ty)} it is')
        return self.ty.P.tys[ty]['vs'][next(iter(vs))][0]

    # ---- what is written
    def tokens(self, st, segs):
        out = []
        for seg in segs:
            if seg.tag == 'items':
                for p in seg.a[0]:
                    out += self.piece(st, p)
            elif seg.tag == 'lseg':
                out += self.lseg(st, seg)
            else:
                raise Bad('what is written is not a sequence of known pieces')
        return out

    def piece(self, st, p):
        kind, t = p.a[0], p.a[1]
        if kind == 'char' and isinstance(t, Lin) and t.isconst():
            return [('lit', chr(t.c))]
        if kind == 'char' and isinstance(t, T) and t.tag == 'lit':
            return [('lit', str(t.a[0]))]
        if kind == 'str':
            return self.text(t)
        raise Bad('something unknown is written')

    def text(self, t):
        if t.tag == 'lit':
            return [('lit', t.a[0])]
        if t.tag == 'rep' and t.a[0].tag == 'lit' and t.a[0].a[0] == '[' and isinstance(t.a[1], Lin):
            return [('rep', t.a[1])]
        return [('name', t)]

    def lseg(self, st, seg):
        E = self.E
        rec = E.loops[seg.a[0]]
        ts = []
        for b in rec.backs:
            w = []
            for p in b.pushes.get(seg.a[1], ()):
                w += self.piece(b.state, p) if p.tag == 'piece' else self.tokens(b.state, [p])
            ts.append((b.state, join(w)))
        if ts and all(w == [('lit', '[')] for _, w in ts):
            return [('rep', seg.a[2])]
        return [('loop', rec, ts, seg.a[2])]

    # ---- comparison
    def compare(self, st, got, want):
        got, want = join(got), join(want)
        g, w = list(got), list(want)
        while g or w:
            # repetitions of no characters
            if g and g[0][0] == 'rep' and not (w and w[0][0] == 'rep') and st.st.eq0(g[0][1]):
                g.pop(0)
                g = join(g)
                continue
            if w and w[0][0] == 'rep' and not (g and g[0][0] == 'rep') and st.st.eq0(w[0][1]):
                w.pop(0)
                w = join(w)
                continue
            if not g or not w:
                raise Bad(f'{"less" if w else "more"} is written than the descriptor')
            a, b = g.pop(0), w.pop(0)
            self.n += 1
            if b[0] == 'lit':
                if a[0] != 'lit' or a[1] != b[1]:
                    raise Bad(f'{show(a)} is written where {b[1]!r} is due')
            elif b[0] == 'rep':
                if a[0] != 'rep' or not (a[1] is b[1] or st.st.eq0(a[1] - b[1])):
                    raise Bad(f'{show(a)} is written where one opening bracket per dimension is due')
            elif b[0] == 'name':
                t = a[1] if a[0] == 'name' else None
                while isinstance(t, T) and t is not b[1] and t.tag in ('pj', 'dr'):
                    t = t.a[0]
                if t is not b[1]:
                    raise Bad(f'{show(a)} is written where the class name is due')
            else:
                if a[0] != 'loop':
                    raise Bad(f'{show(a)} is written where the parameters are due')
                _, rec, ts, n = a
                ln = self.E.lenof(b[1])
                if not (n is ln or st.st.eq0(n - ln)):
                    raise Bad('not all parameters are written')
                for s, tok in ts:
                    x = self.element(rec, s, b[1])
                    self.compare(s, tok, self.want(s, b[2], x))

    def element(self, rec, s, lst):
        k = var(rec.k)
        seen = [t for t in s.var if has_el(t, lst)] + [t for t in s.touched if isinstance(t, T) and has_el(t, lst)]
        for t in seen:
            e = el_of(t, lst)
            if e is not None and (e.a[1] is k or s.st.eq0(e.a[1] - k)):
                return e
        raise Bad('the parameters are not written one after the other in order')


def el_of(t, lst):
    while isinstance(t, T) and t.tag in ('pj', 'dr'):
        t = t.a[0]
    if isinstance(t, T) and t.tag == 'el':
        l = t.a[0]
        if l is lst or l.tag == 'list' and len(l.a[0]) == 1 and l.a[0][0].tag == 'symseg' and l.a[0][0].a[0] is lst:
            return t
    return None


def has_el(t, lst):
    return el_of(t, lst) is not None


def show(a):
    return repr(a[1]) if a[0] == 'lit' else {'rep': f'a number of brackets ({a[1]})', 'name': f'a text ({a[1]})', 'loop': 'a list'}[a[0]]


def join(ts):
    out = []
    for t in ts:
        if t[0] == 'lit':
            if not t[1]:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + t[1])
                continue
        out.append(t)
    return out


def display(cx, A, ty):
    P = A.P
    found = set()
    n = 0
    for f in P.fns:
        if f.trait != 'std::fmt::Display' or not f.local or f.body is None:
            continue
        self_ty = P.tys[f.body.locals[1]].get('e')
        nm = ty.name(self_ty) if self_ty is not None else None
        if nm not in ('ClassName', 'FieldType', 'FieldDescriptor', 'ReturnDescriptor', 'MethodDescriptor'):
            continue
        found.add(nm)
        where = rank.where(P, f)
        E = strings.StrEngine(P, ptr=A.ptr, errty=A.errty)
        s = new_state()
        s.mem[('A', 'f')] = mkT('list', (), 'fmt')
        s.mem[('A', 'e')] = E.symval(mkT('arg', 'e'), self_ty)
        outs = E.run_fn(f, [mkT('ref', ('A', 'e'), ()), mkT('ref', ('A', 'f'), ())], s)
        cx.check(len(outs) > 0, f'display:{nm}:none', f'displaying a {nm} never returns', '', where)
        for st, v in outs:
            if isinstance(v, T) and v.tag == 'adt' and v.a[1] == 1:
                cx.fail(f'display:{nm}:err', f'displaying a {nm} fails although the sink accepts everything', '', where)
                continue
            sh = Show(ty, E)
            try:
                got = sh.tokens(st, st.mem[('A', 'f')].a[0])
                sh.compare(st, got, sh.want(st, self_ty, mkT('arg', 'e')))
                cx.ok(sh.n)
                n += sh.n
            except Bad as ex:
                cx.fail(f'display:{nm}:{ex}', f'{nm}: {ex}', str(st.mem[("A", "f")])[:300], where)
    for nm in ('ClassName', 'FieldType', 'FieldDescriptor', 'ReturnDescriptor', 'MethodDescriptor'):
        cx.check(nm in found, f'display:{nm}', f'no Display implementation of {nm} found')
    cx.cov['written_pieces_compared'] = n
    cx.check(n >= 40, 'floor:display', f'only {n} pieces compared (at least 40 expected)')


def run(cx):
    cx.cov['explanation'] = __doc__.strip()
    r = fmt.report(cx, 'C09')
    ty = parsing(cx, r.A, r.m)
    display(cx, r.A, ty)
