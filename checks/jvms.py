"""The class-file format (JVMS 4, Java 21) as cafebabe exposes it, for checks/match.py."""
from lin import Lin, const, var, atom
from values import T, mkT, subterms
from checks.match import *
from checks import languages as L
from checks.jumps import Jumps
from checks.bootstrap import Bootstrap

ALLKINDS = ['Utf8', 'Utf8Raw', 'Integer', 'Float', 'Long', 'Double', 'Class', 'String', 'Fieldref', 'Methodref', 'InterfaceMethodref',
            'NameAndType', 'MethodHandle', 'MethodType', 'Dynamic', 'InvokeDynamic', 'Module', 'Package']


# ------------------------------------------------------------------------------------------------ small combinators
def R(name):
    return lambda m, f: f.env[name]


def PF(idx, kind, field):
    return lambda m, f: m.pe(idx(m, f), kind, field)


def ref(name, kinds, what=None):
    if isinstance(kinds, str):
        kinds = (kinds,)
    return [U(name, 2, what), Req(lambda m, f: [Kind(f.env[name], kinds)], 'ref',
                                  f'{what or name}: the entry named exists and is a {"/".join(kinds)}')]


def oref(name, kind, value, what=None):
    w = what or name
    return [U(name, 2, what), OptRef(name + '?', R(name), [Req(lambda m, f: [Kind(f.env[name], (kind,))], 'ref', f'{w}: the entry named exists and is a {kind}')],
                                     value, w)]


def lang(idx, langs, what, tag='name'):
    ls = frozenset().union(*[L.LANG[x] for x in langs])
    return Req(lambda m, f: [Lang(m.text(idx(m, f)), ls)], tag, f'{what} is a {" or ".join(langs)}')


def classtext(idx):
    return Txt(PF(idx, 'Class', 'name'))


def nt(idx):
    """NameAndType at idx"""
    return S('NameAndType', name=Txt(PF(idx, 'NameAndType', 'name')), descriptor=Txt(PF(idx, 'NameAndType', 'desc')))


def memberref(idx, kind):
    return S('MemberRef', class_name=classtext(PF(idx, kind, 'class')), name_and_type=nt(PF(idx, kind, 'nt')))


def string_alt(name, idx, what):
    """contents of a String entry"""
    return KAlt(name, PF(idx, 'String', 'string'), [
        (('Utf8',), [], V('String', Txt(PF(idx, 'String', 'string')))),
        (('Utf8Raw',), [], V('StringBytes', PoolVal(PF(idx, 'String', 'string'), 'Utf8Raw', 'raw')))], what)


def literal_cases(idx, what, wrap=lambda p: p):
    out = [((k,), [], wrap(V(k, PoolVal(idx, k, 'value')))) for k in ('Integer', 'Float', 'Long', 'Double')]
    out.append((('String',), [string_alt('str', idx, what)], wrap(AV('str'))))
    return out


MEMBER = {'Fieldref': 'Field', 'Methodref': 'Method', 'InterfaceMethodref': 'InterfaceMethod'}


def mh_nodes(name, idx, what):
    """MethodHandle entry at idx; bound to name"""
    mi = PF(idx, 'MethodHandle', 'ref')
    return [KAlt(name, mi, [((k,), [], S('MethodHandle', kind=PoolVal(idx, 'MethodHandle', 'kind'),
                                         class_name=classtext(PF(mi, k, 'class')), member_kind=V(MEMBER[k]),
                                         member_ref=nt(PF(mi, k, 'nt')))) for k in MEMBER], what)]


def loadable_alt(name, idx, what, dynamic=True):
    w = lambda p: V('LiteralConstant', p)
    cases = literal_cases(idx, what, w) + [
        (('Class',), [], V('ClassInfo', classtext(idx))),
        (('MethodHandle',), mh_nodes('mh', idx, what), V('MethodHandle', AV('mh'))),
        (('MethodType',), [], V('MethodType', Txt(PF(idx, 'MethodType', 'desc')))),
        (('Dynamic',), [], V('Dynamic', S('Dynamic', attr_index=PoolVal(idx, 'Dynamic', 'bsm'), name_and_type=nt(PF(idx, 'Dynamic', 'nt')))))]
    return KAlt(name, idx, cases, what)


class MaskOk(Cond):
    def __init__(self, lin, mask):
        self.lin, self.mask = lin, mask

    def x(self, m, st):
        return m.bitand(st, self.lin, 0xffff & ~self.mask)

    def holds(self, m, st):
        x = self.x(m, st)
        return (x.c == 0) if x.isconst() else st.st.eq0(x) or m.bits_clear(st, self.lin, 0xffff & ~self.mask)

    def assume(self, m, st):
        if m.bits_clear(st, self.lin, 0xffff & ~self.mask) is False:
            return False
        x = self.x(m, st)
        return (x.c == 0) if x.isconst() else st.st.strict('eq', x)

    def __repr__(self):
        return f'no undefined bits outside 0x{self.mask:04x}'


def strict_flags(name, mask, what):
    return [U(name, 2, what), Req(lambda m, f: [MaskOk(f.env[name], mask)], 'flag', f'{what}: undefined flag bits are rejected')]


class Assume(Node):
    """restricts what must be accepted (complete mode only)"""

    def __init__(self, fn):
        self.fn = fn

    def run(self, m, f):
        if m.mode == 'err' and not all(c.assume(m, f.st) for c in self.fn(m, f)):
            return
        yield f


# ------------------------------------------------------------------------------------------------ constant pool
class IntF:
    def __init__(self, name, w, bits=None, fl=False):
        self.name, self.w, self.bits, self.fl = name, w, bits, fl

    def same(self, m, f, x):
        p = Fl(self.name, self.bits) if self.fl else Sg(self.name, self.bits) if self.bits else I(self.name)
        return m.matches([(p, x)], f) and not (isinstance(x, T) and x.tag == 'adt')


class EnumF:
    w = None

    def __init__(self, name, names):
        self.name, self.names = name, names

    def same(self, m, f, x):
        n = f.env[self.name]
        lo, hi = f.st.st.interval(n)
        return lo == hi and isinstance(x, T) and x.tag == 'adt' and m.vname(x) == self.names.get(lo)


REFKINDS = {1: 'GetField', 2: 'GetStatic', 3: 'PutField', 4: 'PutStatic', 5: 'InvokeVirtual', 6: 'InvokeStatic', 7: 'InvokeSpecial',
            8: 'NewInvokeSpecial', 9: 'InvokeInterface'}


def since(v, what):
    return Req(lambda m, f: [Lc('ge', f.env['major'] - v)], 'pool', f'{what} entries are allowed since version {v} only')


def two(a, b):
    return [U(a, 2), U(b, 2)]


POOL = {
    1: ('Utf8', [U('len', 2), Blob('text', R('len'))]),
    3: ('Integer', [U('value', 4)]),
    4: ('Float', [U('value', 4)]),
    5: ('Long', [U('value', 8)]),
    6: ('Double', [U('value', 8)]),
    7: ('Class', [U('name', 2)]),
    8: ('String', [U('string', 2)]),
    9: ('Fieldref', two('class', 'nt')),
    10: ('Methodref', two('class', 'nt')),
    11: ('InterfaceMethodref', two('class', 'nt')),
    12: ('NameAndType', two('name', 'desc')),
    15: ('MethodHandle', [since(51, 'MethodHandle'), U('kind', 1), Req(lambda m, f: [InSet(f.env['kind'], ((1, 9),))], 'pool', 'method handle kind'),
                          U('ref', 2)]),
    16: ('MethodType', [since(51, 'MethodType'), U('desc', 2)]),
    17: ('Dynamic', [since(55, 'Dynamic')] + two('bsm', 'nt')),
    18: ('InvokeDynamic', [since(51, 'InvokeDynamic')] + two('bsm', 'nt')),
    19: ('Module', [since(53, 'Module'), U('name', 2)]),
    20: ('Package', [since(53, 'Package'), U('name', 2)]),
}


def _f(*ns):
    return [(n, IntF(n, 2)) for n in ns]


POOLFIELDS = {
    'Utf8': [('text', None)],
    'Integer': [('value', IntF('value', 4, 32))],
    'Float': [('value', IntF('value', 4, 32, True))],
    'Long': [('value', IntF('value', 8, 64))],
    'Double': [('value', IntF('value', 8, 64, True))],
    'Class': _f('name'), 'String': _f('string'), 'Fieldref': _f('class', 'nt'), 'Methodref': _f('class', 'nt'),
    'InterfaceMethodref': _f('class', 'nt'), 'NameAndType': _f('name', 'desc'),
    'MethodHandle': [('kind', EnumF('kind', REFKINDS))] + _f('ref'),
    'MethodType': _f('desc'), 'Dynamic': _f('bsm', 'nt'), 'InvokeDynamic': _f('bsm', 'nt'), 'Module': _f('name'), 'Package': _f('name'),
}


def _lang(m, i, langs):
    return Lang(m.text(i), frozenset().union(*[L.LANG[x] for x in langs]))


def one(conds):
    def fn(m, f, i):
        yield f, conds(m, f, i)
    return fn


def r_class(m, f, i):
    n = m.pe(i, 'Class', 'name')
    return [(Kind(n, ('Utf8',)), 'ref', 'the name is a Utf8 entry'),
            (_lang(m, n, ('binary name', 'array descriptor')), 'name', 'the name is a class name or an array descriptor')]


def r_string(m, f, i):
    return [(Kind(m.pe(i, 'String', 'string'), ('Utf8', 'Utf8Raw')), 'ref', 'the string is a Utf8 entry')]


def r_member(kind, langs, nlangs):
    def fn(m, f, i):
        n = m.pe(i, kind, 'nt')
        return [(Kind(m.pe(i, kind, 'class'), ('Class',)), 'ref', 'the class is a Class entry'),
                (Kind(n, ('NameAndType',)), 'ref', 'the name and type is a NameAndType entry'),
                (Kind(m.pe(n, 'NameAndType', 'desc'), ('Utf8',)), 'ref', 'the descriptor is a Utf8 entry'),
                (_lang(m, m.pe(n, 'NameAndType', 'desc'), langs), 'name', f'the descriptor is a {"/".join(langs)}'),
                (Kind(m.pe(n, 'NameAndType', 'name'), ('Utf8',)), 'ref', 'the name is a Utf8 entry')] + \
               [(_lang(m, m.pe(n, 'NameAndType', 'name'), nlangs), 'name', f'the name is a {"/".join(nlangs)}')] + \
               [(Implies([_lang(m, m.pe(n, 'NameAndType', 'name'), ('<init>',))], [_lang(m, m.pe(n, 'NameAndType', 'desc'), ('void method descriptor',))]),
                 'name', 'an <init> method returns nothing')] * (kind != 'Fieldref')
    return fn


def r_nt(m, f, i):
    n, d = m.pe(i, 'NameAndType', 'name'), m.pe(i, 'NameAndType', 'desc')
    return [(Kind(n, ('Utf8',)), 'ref', 'the name is a Utf8 entry'),
            (_lang(m, n, ('unqualified', '<init>')), 'name', 'the name is an unqualified name or <init>'),
            (Kind(d, ('Utf8',)), 'ref', 'the descriptor is a Utf8 entry')]


def r_indy(kind, langs):
    def fn(m, f, i):
        n = m.pe(i, kind, 'nt')
        return [(Kind(n, ('NameAndType',)), 'ref', 'the name and type is a NameAndType entry'),
                (Kind(m.pe(n, 'NameAndType', 'desc'), ('Utf8',)), 'ref', 'the descriptor is a Utf8 entry'),
                (_lang(m, m.pe(n, 'NameAndType', 'desc'), langs), 'name', f'the descriptor is a {"/".join(langs)}')]
    return fn


def r_mtype(m, f, i):
    d = m.pe(i, 'MethodType', 'desc')
    return [(Kind(d, ('Utf8',)), 'ref', 'the descriptor is a Utf8 entry'),
            (_lang(m, d, ('method descriptor',)), 'name', 'the descriptor is a method descriptor')]


def r_module(m, f, i):
    n = m.pe(i, 'Module', 'name')
    return [(Kind(n, ('Utf8',)), 'ref', 'the name is a Utf8 entry'), (_lang(m, n, ('module name',)), 'name', 'the name is a module name')]


def r_package(m, f, i):
    n = m.pe(i, 'Package', 'name')
    return [(Kind(n, ('Utf8',)), 'ref', 'the name is a Utf8 entry'), (_lang(m, n, ('binary name',)), 'name', 'the name is a package name')]


def r_mh(m, f, i):
    """method handles: what the reference may name depends on the kind and, for two kinds, on the version"""
    k = m.ptm(i, 'MethodHandle', 'kind')
    r = m.pe(i, 'MethodHandle', 'ref')
    ty = m.enumty('ReferenceKind')
    vs = [x[0] for x in m.P.tys[ty]['vs']]
    any_ = False
    for n, name in REFKINDS.items():
        s = f.st.copy()
        try:
            if name not in vs or not m.E.assume_var(s, k, frozenset((vs.index(name),))):
                continue
        except Infeasible:
            continue
        for new in ((False, True) if n in (6, 7) else (None,)):
            s2 = s.copy()
            if new is not None and not s2.st.strict('ge', f.env['major'] - 52 if new else -f.env['major'] + 51):
                continue
            kinds = ('Fieldref',) if n <= 4 else ('Methodref',) if n in (5, 8) else ('InterfaceMethodref',) if n == 9 \
                else ('Methodref', 'InterfaceMethodref') if new else ('Methodref',)
            conds = [(Kind(r, kinds), 'ref', f'the entry a {name} handle names is a {"/".join(kinds)}' +
                      ('' if new is None else ' since version 52' if new else ' before version 52'))]
            if n >= 5:
                # JVMS 4.4.8: instance initialization methods are for one kind of handle, and it for nothing else
                langs = L.LANG['<init>'] if n == 8 else L.ALL - L.LANG['<init>'] - L.LANG['<clinit>']
                what = f'the method a {name} handle names is {"" if n == 8 else "not "}<init>'
                conds += [(Implies([Kind(r, (k,))], [Lang(m.text(m.pe(m.pe(r, k, 'nt'), 'NameAndType', 'name')), langs)]), 'handlename', what) for k in kinds]
            yield f.w(st=s2), conds


POOLRULES = {
    'Class': one(r_class), 'String': one(r_string),
    'Fieldref': one(r_member('Fieldref', ('field descriptor',), ('unqualified', '<init>'))),
    'Methodref': one(r_member('Methodref', ('method descriptor',), ('method name', '<init>'))),
    'InterfaceMethodref': one(r_member('InterfaceMethodref', ('method descriptor',), ('method name', '<init>'))),
    'NameAndType': one(r_nt), 'MethodHandle': r_mh, 'MethodType': one(r_mtype),
    'Dynamic': one(r_indy('Dynamic', ('field descriptor',))), 'InvokeDynamic': one(r_indy('InvokeDynamic', ('method descriptor',))),
    'Module': one(r_module), 'Package': one(r_package),
}

pool_node = PoolTab(R('cp_count'), POOL, ('Long', 'Double'))
pool_node.fields = POOLFIELDS


# ------------------------------------------------------------------------------------------------ bytecode
def camel(mn):
    p = mn.split('_')
    return ''.join(x[:1].upper() + x[1:] for x in p)


NULLARY = {
    0: 'nop aconst_null iconst_m1 iconst_0 iconst_1 iconst_2 iconst_3 iconst_4 iconst_5 lconst_0 lconst_1 fconst_0 fconst_1 fconst_2 dconst_0 dconst_1',
    0x2e: 'iaload laload faload daload aaload baload caload saload',
    0x4f: 'iastore lastore fastore dastore aastore bastore castore sastore pop pop2 dup dup_x1 dup_x2 dup2 dup2_x1 dup2_x2 swap '
          'iadd ladd fadd dadd isub lsub fsub dsub imul lmul fmul dmul idiv ldiv fdiv ddiv irem lrem frem drem ineg lneg fneg dneg '
          'ishl lshl ishr lshr iushr lushr iand land ior lor ixor lxor',
    0x85: 'i2l i2f i2d l2i l2f l2d f2i f2l f2d d2i d2l d2f i2b i2c i2s lcmp fcmpl fcmpg dcmpl dcmpg',
    0xac: 'ireturn lreturn freturn dreturn areturn return',
    0xbe: 'arraylength athrow', 0xc2: 'monitorenter monitorexit', 0xca: 'breakpoint', 0xfe: 'impdep1 impdep2',
}
JUMPS = {0x99: 'ifeq ifne iflt ifge ifgt ifle if_icmpeq if_icmpne if_icmplt if_icmpge if_icmpgt if_icmple if_acmpeq if_acmpne goto jsr',
         0xc6: 'ifnull ifnonnull'}
LOCALS = {0x15: 'iload lload fload dload aload', 0x36: 'istore lstore fstore dstore astore', 0xa9: 'ret'}
SHORT = {0x1a: 'iload lload fload dload aload', 0x3b: 'istore lstore fstore dstore astore'}
NEWARRAY = {4: 'Boolean', 5: 'Char', 6: 'Float', 7: 'Double', 8: 'Byte', 9: 'Short', 10: 'Int', 11: 'Long'}
FIELDOPS = {0xb2: 'Getstatic', 0xb3: 'Putstatic', 0xb4: 'Getfield', 0xb5: 'Putfield'}
METHODOPS = {0xb6: ('Invokevirtual', ('Methodref',)), 0xb7: ('Invokespecial', ('Methodref', 'InterfaceMethodref')),
             0xb8: ('Invokestatic', ('Methodref', 'InterfaceMethodref'))}


def memref(name, kinds):
    return [U(name, 2), KAlt(name + '!', R(name), [((k,), [], memberref(R(name), k)) for k in kinds], name)]


class LAlt(Node):
    """selection by the language a text belongs to"""

    def __init__(self, name, text, cases, what):
        self.name, self.text, self.cases, self.what = name, text, cases, what

    def run(self, m, f):
        t = self.text(m, f)
        hit = False
        for ls, nodes, val in self.cases:
            c = Lang(t, ls)
            s = f.st.copy()
            if not c.assume(m, s):
                continue
            hit = True
            if m.mode == 'ok' and not (c.holds(m, s) or m.by_cases(s, c)):
                m.fail(f, 'name', f'{self.what}: it is not determined which form the text has')
            for r in m.seq(nodes, f.w(st=s)):
                yield r if r.stop else r.bind(self.name, (val, r.env))
        if not hit and m.mode == 'ok':
            m.fail(f, 'name', f'{self.what}: the text has no form the format defines')


def objtype(name):
    t = lambda m, f: m.text(m.pe(f.env[name], 'Class', 'name'))
    return ref(name, 'Class') + [LAlt(name + '!', t, [
        (L.LANG['array descriptor'], [], V('ArrayType', Parsed('array', PF(R(name), 'Class', 'name')))),
        (L.LANG['binary name'], [], V('BinaryName', classtext(R(name))))], name)]


class Pad(Node):
    def run(self, m, f):
        """bytes up to the next multiple of four, counted from the start of the code"""
        for st, r in m.mods(f.st, f.cur - f.rel + 3, 4):
            yield f.w(cur=f.cur + 3 - r, st=st)


def sgn(name, bits=32):
    return lambda m, f: m.signed(f.st, f.env[name], bits)


def opcodes():
    cases = []
    ops = {}

    def add(op, nodes, val):
        assert op not in ops
        ops[op] = 1
        cases.append(((op, op), nodes, val))
    for base, s in NULLARY.items():
        for i, n in enumerate(s.split()):
            add(base + i, [], V(camel(n)))
    for base, s in JUMPS.items():
        for i, n in enumerate(s.split()):
            add(base + i, [U('off', 2)], V(camel(n), Jump(Sg('off', 16))))
    add(0xc8, [U('off', 4)], V('Goto', Jump(Sg('off', 32))))
    add(0xc9, [U('off', 4)], V('Jsr', Jump(Sg('off', 32))))
    wide = []
    for base, s in LOCALS.items():
        for i, n in enumerate(s.split()):
            add(base + i, [U('index', 1)], V(camel(n), I('index')))
            wide.append(((base + i, base + i), [U('index', 2)], V(camel(n), I('index'))))
    for base, s in SHORT.items():
        for i, n in enumerate(s.split()):
            for k in range(4):
                add(base + 4 * i + k, [], V(camel(n), I(lambda m, f, k=k: const(k))))
    add(0x10, [U('value', 1)], V('Bipush', Sg('value', 8)))
    add(0x11, [U('value', 2)], V('Sipush', Sg('value', 16)))
    for op, n, w in ((0x12, 'Ldc', 1), (0x13, 'LdcW', 2), (0x14, 'Ldc2W', 2)):
        add(op, [U('const', w), loadable_alt('const!', R('const'), n)], V(n, AV('const!')))
    add(0x84, [U('index', 1), U('value', 1)], V('Iinc', I('index'), Sg('value', 8)))
    wide.append(((0x84, 0x84), [U('index', 2), U('value', 2)], V('Iinc', I('index'), Sg('value', 16))))
    for op, n in FIELDOPS.items():
        add(op, memref('member', ('Fieldref',)), V(n, AV('member!')))
    for op, (n, ks) in METHODOPS.items():
        add(op, memref('member', ks), V(n, AV('member!')))
    add(0xb9, memref('member', ('InterfaceMethodref',)) + [U('count', 1), U('zero', 1),
        Req(lambda m, f: [Lc('eq', f.env['zero'])], 'zero', 'the fourth operand byte of invokeinterface is zero')],
        V('Invokeinterface', AV('member!'), I('count')))
    add(0xba, ref('indy', 'InvokeDynamic') + [U('zero', 2),
        Req(lambda m, f: [Lc('eq', f.env['zero'])], 'zero', 'the last two operand bytes of invokedynamic are zero')],
        V('Invokedynamic', S('InvokeDynamic', attr_index=PoolVal(R('indy'), 'InvokeDynamic', 'bsm'), name_and_type=nt(PF(R('indy'), 'InvokeDynamic', 'nt')))))
    add(0xbb, ref('class', 'Class'), V('New', classtext(R('class'))))
    add(0xbc, [U('atype', 1), Alt('atype!', R('atype'), [((k, k), [], V(n)) for k, n in NEWARRAY.items()], 'opcode', 'array type of newarray')],
        V('Newarray', AV('atype!')))
    for op, n in ((0xbd, 'Anewarray'), (0xc0, 'Checkcast'), (0xc1, 'Instanceof')):
        add(op, objtype('class'), V(n, AV('class!')))
    add(0xc5, objtype('class') + [U('dims', 1)], V('Multianewarray', AV('class!'), I('dims')))
    add(0xc4, [U('wideop', 1), Alt('wide!', R('wideop'), wide, 'opcode', 'opcode after wide')], AV('wide!'))
    add(0xaa, [Pad(), U('default', 4), U('low', 4), U('high', 4),
               Req(lambda m, f: [Lc('ge', sgn('high')(m, f) - sgn('low')(m, f))], 'opcode', 'tableswitch: low is not greater than high'),
               Tab('jumps', lambda m, f: sgn('high')(m, f) - sgn('low')(m, f) + 1, [U('off', 4)], Jump(Sg('off', 32)), minsize=4, what='tableswitch jumps')],
        V('Tableswitch', S('RangeTable', default=Jump(Sg('default', 32)), low=Sg('low', 32), high=Sg('high', 32), jumps=ListOf('jumps'))))
    add(0xab, [Pad(), U('default', 4), U('npairs', 4),
               Req(lambda m, f: [Lc('ge', sgn('npairs')(m, f))], 'opcode', 'lookupswitch: the number of pairs is not negative'),
               Tab('pairs', lambda m, f: sgn('npairs')(m, f), [U('match', 4), U('off', 4)], Tup(Sg('match', 32), Jump(Sg('off', 32))), minsize=8,
                   what='lookupswitch pairs')],
        V('Lookupswitch', S('LookupTable', default=Jump(Sg('default', 32)), match_offsets=ListOf('pairs'))))
    return cases


class Jump(Pat):
    """a jump offset"""

    def __init__(self, p):
        self.p = p

    def cmp(self, m, f, v, what):
        self.p.cmp(m, f, v, what)


OPCASES = opcodes()
insn = [Let('pc', lambda m, f: f.cur - f.rel), U('opcode', 1), Alt('op', R('opcode'), OPCASES, 'opcode', 'opcode byte')]
insn_value = Tup(I('pc'), AV('op'))

# ------------------------------------------------------------------------------------------------ attributes
A_INNER = 0x0001 | 0x0002 | 0x0004 | 0x0008 | 0x0010 | 0x0200 | 0x0400 | 0x1000 | 0x2000 | 0x4000
A_FIELD = 0x0001 | 0x0002 | 0x0004 | 0x0008 | 0x0010 | 0x0040 | 0x0080 | 0x1000 | 0x4000
A_METHOD = 0x0001 | 0x0002 | 0x0004 | 0x0008 | 0x0010 | 0x0020 | 0x0040 | 0x0080 | 0x0100 | 0x0400 | 0x0800 | 0x1000
A_CLASS = 0x0001 | 0x0010 | 0x0020 | 0x0200 | 0x0400 | 0x1000 | 0x2000 | 0x4000 | 0x8000
A_PARAM = 0x0010 | 0x1000 | 0x8000
A_MODULE = 0x0020 | 0x1000 | 0x8000
A_REQUIRES = 0x0020 | 0x0040 | 0x1000 | 0x8000
A_EXPORTS = 0x1000 | 0x8000
A_OPENS = 0x1000 | 0x8000


def tab(name, item, value, width=2, minsize=2, what=None):
    return [U('n_' + name, width, f'number of {what or name}'), Tab(name, R('n_' + name), item, value, minsize=minsize, what=what or name)]


def vti():
    return [U('vtag', 1), Alt('vt', R('vtag'), [
        ((0, 0), [], V('Top')), ((1, 1), [], V('Integer')), ((2, 2), [], V('Float')), ((3, 3), [], V('Double')), ((4, 4), [], V('Long')),
        ((5, 5), [], V('Null')), ((6, 6), [], V('UninitializedThis')),
        ((7, 7), ref('vclass', 'Class'), V('Object', class_name=classtext(R('vclass')))),
        ((8, 8), [U('voff', 2)], V('Uninitialized', code_offset=I('voff')))], 'attr', 'verification type tag')]


def frame():
    od = [U('delta', 2)]
    off = lambda k: I(lambda m, f: f.env['ftype'] - k)
    return [U('ftype', 1), Alt('frame', R('ftype'), [
        ((0, 63), [], V('Same', offset_delta=off(0))),
        ((64, 127), vti(), V('SameLocals1StackItem', offset_delta=off(64), stack=AV('vt'))),
        ((247, 247), od + vti(), V('SameLocals1StackItem', offset_delta=I('delta'), stack=AV('vt'))),
        ((248, 250), od, V('Chop', offset_delta=I('delta'), chop_count=I(lambda m, f: -f.env['ftype'] + 251))),
        ((251, 251), od, V('Same', offset_delta=I('delta'))),
        ((252, 254), od + [Tab('locals', lambda m, f: f.env['ftype'] - 251, vti(), AV('vt'), minsize=1, what='append frame locals')],
         V('Append', offset_delta=I('delta'), locals=ListOf('locals'))),
        ((255, 255), od + tab('locals', vti(), AV('vt'), minsize=1, what='full frame locals') + tab('stack', vti(), AV('vt'), minsize=1, what='full frame stack'),
         V('FullFrame', offset_delta=I('delta'), locals=ListOf('locals'), stack=ListOf('stack')))], 'attr', 'stack map frame type')]


def parsed_ref(name, kind, what):
    ls = {'field': 'field descriptor', 'method': 'method descriptor'}[kind]
    return ref(name, 'Utf8', what) + [lang(R(name), [ls], what)]


def name_ref(name, langs, what):
    return ref(name, 'Utf8', what) + [lang(R(name), langs, what)]


def locvar(last, val):
    return [U('start', 2), U('len', 2)] + name_ref('name', ['unqualified'], 'local variable name') + last + [U('index', 2)]


TARGETS = [
    ((0x00, 0x01), [U('a', 1)], V('TypeParameter', index=I('a'))),
    ((0x10, 0x10), [U('a', 2)], V('Supertype', index=I('a'))),
    ((0x11, 0x12), [U('a', 1), U('b', 1)], V('TypeParameterBound', type_parameter_index=I('a'), bound_index=I('b'))),
    ((0x13, 0x15), [], V('Empty')),
    ((0x16, 0x16), [U('a', 1)], V('FormalParameter', index=I('a'))),
    ((0x17, 0x17), [U('a', 2)], V('Throws', index=I('a'))),
    ((0x40, 0x41), tab('lv', [U('a', 2), U('b', 2), U('c', 2)], S('TypeAnnotationLocalVarTargetEntry', start_pc=I('a'), length=I('b'), index=I('c')),
                       minsize=6, what='local variable targets'), V('LocalVar', ListOf('lv'))),
    ((0x42, 0x42), [U('a', 2)], V('Catch', exception_table_index=I('a'))),
    ((0x43, 0x46), [U('a', 2)], V('Offset', offset=I('a'))),
    ((0x47, 0x4b), [U('a', 2), U('b', 1)], V('TypeArgument', offset=I('a'), type_argument_index=I('b'))),
]
PATHKINDS = [((0, 0), [], V('DeeperArray')), ((1, 1), [], V('DeeperNested')), ((2, 2), [], V('WildcardTypeArgument')), ((3, 3), [], V('TypeArgument'))]


def annotations(name, what):
    return tab(name, [Call('annotation', 'annotation')], CallV('annotation'), minsize=4, what=what)


def type_annotation():
    return [U('ttype', 1), Alt('target', R('ttype'), TARGETS, 'attr', 'type annotation target type')] + \
        tab('path', [U('pkind', 1), Alt('pk', R('pkind'), PATHKINDS, 'attr', 'type path kind'), U('parg', 1)],
            S('TypeAnnotationTargetPathEntry', path_kind=AV('pk'), argument_index=I('parg')), width=1, minsize=2, what='type path') + \
        [Call('annotation', 'annotation')]


type_annotation_value = S('TypeAnnotation', target_type=AV('target'), target_path=ListOf('path'), annotation=CallV('annotation'))


def classes(name, what):
    return tab(name, ref('class', 'Class', what), classtext(R('class')), what=what)


def code_attr():
    return [U('max_stack', 2), U('max_locals', 2), U('code_length', 4), Assume(lambda m, f: [Lc('ge', f.env['code_length'] - 1), Lc('ge', -f.env['code_length'] + 65535)]),
            Blob('code', R('code_length'))] + \
        tab('exceptions', [U('start', 2), U('end', 2), U('handler', 2)] + oref('catch', 'Class', classtext(R('catch')), 'catch type'),
            S('ExceptionTableEntry', start_pc=I('start'), end_pc=I('end'), handler_pc=I('handler'), catch_type=AV('catch?')), minsize=8, what='exception table') + \
        [Call('attrs', 'attributes'),
         Slice('insns', lambda m, f: f.env['code'][1], lambda m, f: f.env['code'][2], insn, insn_value, 'instructions', optional=True),
         OptionIs('insns'), Jumps('insns', OPCASES, R('code_length'))]


code_value = S('CodeData', max_stack=I('max_stack'), max_locals=I('max_locals'), code=Raw('code'),
               bytecode=FnP(lambda m, f: NoneP() if f.env['insns'] is None else SomeP(S('ByteCode', opcodes=ListOf('insns')))),
               exception_table=ListOf('exceptions'), attributes=CallV('attrs'))


def module_attr():
    to = lambda n: tab(n, ref('module', 'Module', n), Txt(PF(R('module'), 'Module', 'name')), what=n)
    nodes = ref('name', 'Module', 'module name') + strict_flags('flags', A_MODULE, 'module flags') + oref('version', 'Utf8', Txt(R('version')), 'module version')
    nodes += tab('requires', ref('rname', 'Module', 'required module') + strict_flags('rflags', A_REQUIRES, 'requires flags')
                 + oref('rversion', 'Utf8', Txt(R('rversion')), 'required version'),
                 S('ModuleRequireEntry', name=Txt(PF(R('rname'), 'Module', 'name')), flags=Flags('rflags', A_REQUIRES), version=AV('rversion?')), minsize=6)
    nodes += tab('exports', ref('package', 'Package', 'exported package') + strict_flags('eflags', A_EXPORTS, 'exports flags') + to('exports_to'),
                 S('ModuleExportsEntry', package_name=Txt(PF(R('package'), 'Package', 'name')), flags=Flags('eflags', A_EXPORTS), exports_to=ListOf('exports_to')), minsize=6)
    nodes += tab('opens', ref('package', 'Package', 'opened package') + strict_flags('oflags', A_OPENS, 'opens flags') + to('opens_to'),
                 S('ModuleOpensEntry', package_name=Txt(PF(R('package'), 'Package', 'name')), flags=Flags('oflags', A_OPENS), opens_to=ListOf('opens_to')), minsize=6)
    nodes += classes('uses', 'used service')
    nodes += tab('provides', ref('service', 'Class', 'provided service') + classes('with', 'service implementation'),
                 S('ModuleProvidesEntry', service_interface_name=classtext(R('service')), provides_with=ListOf('with')), minsize=4)
    return nodes


module_value = S('ModuleData', name=Txt(PF(R('name'), 'Module', 'name')), access_flags=Flags('flags', A_MODULE), version=AV('version?'), requires=ListOf('requires'),
                 exports=ListOf('exports'), opens=ListOf('opens'), uses=ListOf('uses'), provides=ListOf('provides'))

cesu_ok = Req(lambda m, f: [CesuOk(f.env['debug'])], 'text', 'SourceDebugExtension decodes as modified UTF-8')


class CesuOk(Cond):
    def __init__(self, blob):
        self.b = blob

    def holds(self, m, st):
        return m.cesu_known(st, self.b[1], self.b[2]) is True

    def assume(self, m, st):
        return m.cesu_known(st, self.b[1], self.b[2]) is not False

    def __repr__(self):
        return 'the bytes decode as modified UTF-8'


ATTRS = [
    ('ConstantValue', ref('value', ('Integer', 'Float', 'Long', 'Double', 'String'), 'constant value') +
     [KAlt('const', R('value'), literal_cases(R('value'), 'constant value'), 'constant value')], V('ConstantValue', AV('const'))),
    ('Code', code_attr(), V('Code', code_value)),
    ('StackMapTable', tab('frames', frame(), AV('frame'), minsize=1, what='stack map frames'), V('StackMapTable', ListOf('frames'))),
    ('Exceptions', classes('exc', 'exceptions'), V('Exceptions', ListOf('exc'))),
    ('InnerClasses', tab('inner', ref('inner', 'Class', 'inner class') + oref('outer', 'Class', classtext(R('outer')), 'outer class')
                         + oref('iname', 'Utf8', Txt(R('iname')), 'inner name') + [U('iflags', 2)],
                         S('InnerClassEntry', inner_class_info=classtext(R('inner')), outer_class_info=AV('outer?'), inner_name=AV('iname?'),
                           access_flags=Flags('iflags', A_INNER)), minsize=8, what='inner classes'), V('InnerClasses', ListOf('inner'))),
    ('EnclosingMethod', ref('class', 'Class', 'enclosing class') + oref('method', 'NameAndType', nt(R('method')), 'enclosing method'),
     V('EnclosingMethod', class_name=classtext(R('class')), method=AV('method?'))),
    ('Synthetic', [], V('Synthetic')),
    ('Signature', ref('sig', 'Utf8', 'signature'), V('Signature', Txt(R('sig')))),
    ('SourceFile', ref('file', 'Utf8', 'source file'), V('SourceFile', Txt(R('file')))),
    ('SourceDebugExtension', [Blob('debug', R('length')), cesu_ok], V('SourceDebugExtension', Cesu('debug'))),
    ('LineNumberTable', tab('lines', [U('start', 2), U('line', 2)], S('LineNumberEntry', start_pc=I('start'), line_number=I('line')), minsize=4,
                            what='line numbers'), V('LineNumberTable', ListOf('lines'))),
    ('LocalVariableTable', tab('vars', locvar(parsed_ref('desc', 'field', 'local variable descriptor'), None),
                               S('LocalVariableEntry', start_pc=I('start'), length=I('len'), name=Txt(R('name')), descriptor=Parsed('field', R('desc')), index=I('index')),
                               minsize=10, what='local variables'), V('LocalVariableTable', ListOf('vars'))),
    ('LocalVariableTypeTable', tab('vars', locvar(ref('sig', 'Utf8', 'signature'), None),
                                   S('LocalVariableTypeEntry', start_pc=I('start'), length=I('len'), name=Txt(R('name')), signature=Txt(R('sig')), index=I('index')),
                                   minsize=10, what='local variable types'), V('LocalVariableTypeTable', ListOf('vars'))),
    ('Deprecated', [], V('Deprecated')),
    ('RuntimeVisibleAnnotations', annotations('anns', 'annotations'), V('RuntimeVisibleAnnotations', ListOf('anns'))),
    ('RuntimeInvisibleAnnotations', annotations('anns', 'annotations'), V('RuntimeInvisibleAnnotations', ListOf('anns'))),
]
for _n in ('RuntimeVisibleParameterAnnotations', 'RuntimeInvisibleParameterAnnotations'):
    ATTRS.append((_n, tab('params', annotations('anns', 'parameter annotations'), S('ParameterAnnotation', annotations=ListOf('anns')), width=1,
                          what='annotated parameters'), V(_n, ListOf('params'))))
for _n in ('RuntimeVisibleTypeAnnotations', 'RuntimeInvisibleTypeAnnotations'):
    ATTRS.append((_n, tab('tanns', type_annotation(), type_annotation_value, minsize=6, what='type annotations'), V(_n, ListOf('tanns'))))
ATTRS += [
    ('AnnotationDefault', [Call('value', 'element_value')], V('AnnotationDefault', CallV('value'))),
    ('BootstrapMethods', tab('bsms', ref('mh', 'MethodHandle', 'bootstrap method') + mh_nodes('mh!', R('mh'), 'bootstrap method')
                             + tab('args', [U('arg', 2), loadable_alt('arg!', R('arg'), 'bootstrap argument')], AV('arg!'), what='bootstrap arguments'),
                             S('BootstrapMethodEntry', method=AV('mh!'), arguments=ListOf('args')), minsize=4, what='bootstrap methods'),
     V('BootstrapMethods', ListOf('bsms'))),
    ('MethodParameters', tab('mparams', [U('pname', 2), OptRef('pname?', R('pname'), [
        Req(lambda m, f: [Kind(f.env['pname'], ('Utf8',))], 'ref', 'parameter name: the entry named exists and is a Utf8'),
        lang(R('pname'), ['unqualified'], 'parameter name')], Txt(R('pname')), 'parameter name')] + strict_flags('pflags', A_PARAM, 'parameter flags'),
        S('MethodParameterEntry', name=AV('pname?'), access_flags=Flags('pflags', A_PARAM)), width=1, minsize=4, what='method parameters'),
     V('MethodParameters', ListOf('mparams'))),
    ('Module', module_attr(), V('Module', module_value)),
    ('ModulePackages', tab('packages', ref('package', 'Package', 'package'), Txt(PF(R('package'), 'Package', 'name'))), V('ModulePackages', ListOf('packages'))),
    ('ModuleMainClass', ref('class', 'Class', 'main class'), V('ModuleMainClass', classtext(R('class')))),
    ('NestHost', ref('class', 'Class', 'nest host'), V('NestHost', classtext(R('class')))),
    ('NestMembers', classes('members', 'nest members'), V('NestMembers', ListOf('members'))),
    ('PermittedSubclasses', classes('subs', 'permitted subclasses'), V('PermittedSubclasses', ListOf('subs'))),
    ('Record', tab('components', name_ref('name', ['unqualified'], 'component name') + parsed_ref('desc', 'field', 'component descriptor') + [Call('attrs', 'attributes')],
                   S('RecordComponentEntry', name=Txt(R('name')), descriptor=Parsed('field', R('desc')), attributes=CallV('attrs')), minsize=6,
                   what='record components'), V('Record', ListOf('components'))),
]

attribute = ref('aname', 'Utf8', 'attribute name') + [
    U('length', 4, 'attribute length'),
    Within(R('length'), [StrAlt('attr', lambda m, f: m.text(f.env['aname']), ATTRS,
                                ([Blob('info', R('length'))], V('Other', Raw('info'))), 'attribute name')], 'attribute')]
attribute_value = S('AttributeInfo', name=Txt(R('aname')), data=AV('attr'))

# ------------------------------------------------------------------------------------------------ annotations
EV = [((ord(c), ord(c)), ref('const', k, f'annotation value {n}'), V(n, PoolVal(R('const'), k, 'value'))) for c, k, n in (
    ('B', 'Integer', 'ByteConstant'), ('C', 'Integer', 'CharConstant'), ('D', 'Double', 'DoubleConstant'), ('F', 'Float', 'FloatConstant'),
    ('I', 'Integer', 'IntConstant'), ('J', 'Long', 'LongConstant'), ('S', 'Integer', 'ShortConstant'), ('Z', 'Integer', 'BooleanConstant'))]
EV += [
    ((ord('s'), ord('s')), ref('const', 'Utf8', 'string value'), V('StringConstant', Txt(R('const')))),
    ((ord('e'), ord('e')), parsed_ref('etype', 'field', 'enum type') + ref('ename', 'Utf8', 'enum constant name'),
     V('EnumConstant', type_name=Parsed('field', R('etype')), const_name=Txt(R('ename')))),
    ((ord('c'), ord('c')), name_ref('cls', ['return descriptor'], 'class literal'), V('ClassLiteral', class_name=Txt(R('cls')))),
    ((ord('@'), ord('@')), [Call('annotation', 'annotation')], V('AnnotationValue', CallV('annotation'))),
    ((ord('['), ord('[')), tab('values', [Call('value', 'element_value')], CallV('value'), minsize=3, what='array values'), V('ArrayValue', ListOf('values'))),
]
element_value = [U('evtag', 1), Alt('ev', R('evtag'), EV, 'attr', 'annotation element value tag')]
annotation = parsed_ref('type', 'field', 'annotation type') + tab('elements', ref('ename', 'Utf8', 'element name') + [Call('value', 'element_value')],
                                                                 S('AnnotationElement', name=Txt(R('ename')), value=CallV('value')), minsize=5,
                                                                 what='annotation elements')
annotation_value = S('Annotation', type_descriptor=Parsed('field', R('type')), elements=ListOf('elements'))

# ------------------------------------------------------------------------------------------------ the class
field = [U('flags', 2)] + name_ref('name', ['unqualified'], 'field name') + parsed_ref('desc', 'field', 'field descriptor') + [
    Req(lambda m, f: [Unique([Txt(R('name')), Parsed('field', R('desc'))], f)], 'class', 'no field has the name and descriptor of an earlier one'),
    Call('attrs', 'attributes')]
field_value = S('FieldInfo', access_flags=Flags('flags', A_FIELD), name=Txt(R('name')), descriptor=Parsed('field', R('desc')), attributes=CallV('attrs'))


def streq(m, f, s):
    return Lang(m.text(f.env['name']), L.LANG[s])


def special(m, f):
    t = m.text(f.env['desc'])
    iface = m.flag(f, 'class_flags', 0x0200)
    return [
        Implies([streq(m, f, '<init>')], [NotIface(iface), ParsedIs(t, 'method', 'void')]),
        Implies([streq(m, f, '<clinit>')], [ParsedIs(t, 'method', 'void')]),
        Implies([streq(m, f, '<clinit>'), Lc('ge', f.env['major'] - 51)], [ParsedIs(t, 'method', 'nullary')])]


class NotIface(Cond):
    def __init__(self, x):
        self.x = x

    def holds(self, m, st):
        return st.st.eq0(self.x) or (self.x.isconst() and self.x.c == 0)

    def assume(self, m, st):
        return self.x.c == 0 if self.x.isconst() else st.st.strict('eq', self.x)

    def __repr__(self):
        return 'not an interface'


METHODNAMES = ['method name', '<init>', '<clinit>']
method = [U('flags', 2)] + name_ref('name', METHODNAMES, 'method name') + parsed_ref('desc', 'method', 'method descriptor') + [
    Req(special, 'name', 'special method names are used only where and with the descriptors the format allows'),
    Req(lambda m, f: [Unique([Txt(R('name')), Parsed('method', R('desc'))], f)], 'class', 'no method has the name and descriptor of an earlier one'),
    Call('attrs', 'attributes')]
method_value = S('MethodInfo', access_flags=Flags('flags', A_METHOD), name=Txt(R('name')), descriptor=Parsed('method', R('desc')), attributes=CallV('attrs'))


def module_rules(m, f):
    """conditions known once the flags are read"""
    fl = m.bitand(f.st, f.env['class_flags'], A_CLASS)
    return [AnyOf((Lc('eq', m.flag(f, 'class_flags', 0x8000)),), (Lc('ge', f.env['major'] - 53), Lc('eq', fl - 0x8000)))]


def module_none(what):
    """in a module the item is absent"""
    def fn(m, f):
        return [AnyOf((Lc('eq', m.flag(f, 'class_flags', 0x8000)),), (Lc('eq', f.env[what]),))]
    return Req(fn, 'class', f'a module has no {what}')


def cname(idx):
    return Parsed('class', PF(idx, 'Class', 'name'))


def cname_lang(name, what):
    return lang(PF(R(name), 'Class', 'name'), ['binary name'], what)


CLASS = [
    U('magic', 4), Req(lambda m, f: [Lc('eq', f.env['magic'] - 0xCAFEBABE)], 'class', 'the magic number is 0xCAFEBABE'),
    U('minor', 2), U('major', 2), U('cp_count', 2), pool_node,
    ForAllPool(POOLRULES),
    U('class_flags', 2), Req(module_rules, 'class', 'the module flag appears only alone and since version 53'),
] + ref('this', 'Class', 'this class') + [cname_lang('this', 'name of this class'),
    U('super', 2, 'super class'), OptRef('super?', R('super'), [Req(lambda m, f: [Kind(f.env['super'], ('Class',))], 'ref', 'super class: the entry named exists and is a Class'),
                                                                cname_lang('super', 'name of the super class')], cname(R('super')), 'super class'),
    module_none('super')] + \
    tab('interfaces', ref('iface', 'Class', 'interface') + [cname_lang('iface', 'name of an interface')], cname(R('iface'))) + [module_none('n_interfaces')] + \
    tab('fields', field, field_value, minsize=8) + [module_none('n_fields')] + \
    tab('methods', method, method_value, minsize=8) + [module_none('n_methods')] + \
    [Call('attrs', 'attributes'),
     Req(lambda m, f: [Lc('eq', m.len - f.cur)], 'end', 'the class ends at the end of the input'),
     Bootstrap('attrs')]
CLASS_VALUE = S('ClassFile', major_version=I('major'), minor_version=I('minor'), access_flags=Flags('class_flags', A_CLASS), this_class=cname(R('this')),
                super_class=AV('super?'), interfaces=ListOf('interfaces'), fields=ListOf('fields'), methods=ListOf('methods'), attributes=CallV('attrs'))

ATTRLIST = tab('attributes', attribute, attribute_value, minsize=6)


class ListP(Pat):
    def __init__(self, name):
        self.name = name

    def cmp(self, m, f, v, what):
        ListOf(self.name).cmp(m, f, v, what)


NTS = {
    'class': (CLASS, CLASS_VALUE),
    'attributes': (ATTRLIST, ListP('attributes')),
    'annotation': (annotation, annotation_value),
    'element_value': (element_value, AV('ev')),
}

# nesting that must be supported: below the documented limits of the implementation
LIMITS = {'attributes': 4, 'annotation': 60, 'element_value': 60}


# ------------------------------------------------------------------------------------------------ facts about texts
def root_path(t):
    """(function application, path of projections) of a term, or None"""
    path = []
    while isinstance(t, T):
        if t.tag == 'F':
            return t, tuple(reversed(path))
        if t.tag == 'pj':
            path.append((t.a[1], t.a[2]))
            t = t.a[0]
        elif t.tag in ('dr', 'rv'):
            t = t.a[0]
        else:
            return None
    return None


def fkey(t):
    return (t.a[0], tuple(x.c if isinstance(x, Lin) and x.isconst() else x if isinstance(x, bool) else 's' for x in t.a[1]))


def agrees(o, path, b):
    """can the outcome o of a function of a text have, at the path, one of the variants (or the truth value) b?"""
    v = o.value
    for var, fld in path:
        while isinstance(v, T) and v.tag == 'rv':
            v = v.a[0]
        if not isinstance(v, T) or v.tag != 'adt':
            return True
        if v.a[1] != var or fld >= len(v.a[2]):
            return False
        v = v.a[2][fld]
    while isinstance(v, T) and v.tag == 'rv':
        v = v.a[0]
    if isinstance(b, bool):
        return v == b if isinstance(v, bool) else True
    if isinstance(v, bool):
        return (1 if v else 0) in b
    if isinstance(v, T) and v.tag == 'adt':
        return v.a[1] in b
    return True


AFFIX = {'starts_with': 'starts_with', 'strip_prefix': 'starts_with', 'ends_with': 'ends_with', 'strip_suffix': 'ends_with', 'contains': 'contains', 'find': 'contains',
         'rfind': 'contains', 'split_once': 'contains', 'rsplit_once': 'contains'}


def literal(p):
    """the text or set of bytes that a pattern stands for, or None"""
    if isinstance(p, Lin):
        return frozenset((p.c,)) if p.isconst() and p.c < 128 else None
    while isinstance(p, T) and p.tag == 'rv':
        p = p.a[0]
    if isinstance(p, T) and p.tag == 'str' and p.a[0].tag == 'lit':
        return p.a[0].a[0]
    if isinstance(p, T) and p.tag == 'arr' and all(isinstance(x, Lin) and x.isconst() and x.c < 128 for x in p.a[0]):
        return frozenset(x.c for x in p.a[0])
    return None


def facts(m, st, s):
    """(set of string classes, bool) facts known about the text s"""
    fns = {}
    for d in (st.pred, st.var):
        for t, b in d.items():
            if t.tag == 'lang' and t.a[0] is s:
                yield frozenset(t.a[1]), True
            elif t.tag == 'strop' and t.a[1] is s and t.a[0] in AFFIX and len(t.a[2]) == 1:
                p, yes = literal(t.a[2][0]), b is True or b == frozenset((1,))
                if p is not None and (b is True or b is False or isinstance(b, frozenset) and len(b) == 1):
                    yield L.affix(AFFIX[t.a[0]], p, yes), True
            elif t.tag == 'streq' and t.a[0] is s:
                x = L.LANG.get(t.a[1])
                if x is not None:
                    yield x, b is True
                elif b is True:
                    yield langs_of(t.a[1]), True
            else:
                rp = root_path(t) if t.tag in ('F', 'pj') else None
                if rp is not None and rp[0].a[1] and rp[0].a[1][0] is s and isinstance(b, (bool, frozenset)):
                    fns.setdefault(rp[0], []).append((rp[1], b))
    for f, cs in fns.items():
        tf = m.A.textfn(fkey(f), L.DFA)
        if tf is None or tf.problem:
            continue
        out = frozenset()
        for o in tf.outs:
            if all(agrees(o, path, b) for path, b in cs):
                out |= frozenset(L.SIG[k] for k in o.sigs)
        yield out, True
    k = st.var.get(mkT('strval', s))
    if k is not None:
        if len(k) == 1:
            yield langs_of(next(iter(k))), True


def langs_of(lit):
    """classes of strings a literal belongs to"""
    return frozenset((L.class_of(lit),))


def parsed_kind(m, t):
    """what the function application t parses: field/method descriptor, array type, class name"""
    def name(ty):
        t = m.P.tys[ty]
        return t['name'].split('::')[-1] if t['k'] == 'adt' else None
    ty = m.P.fns[t.a[0]].body.locals[0]
    if name(ty) != 'Result':
        return None
    ok = m.P.tys[ty]['vs'][0][2][0][1]
    n = name(ok)
    if n == 'Option':
        x = [v[2][0][1] for v in m.P.tys[ok]['vs'] if v[2]][0]
        return 'array' if name(x) == 'FieldDescriptor' else None
    return {'FieldDescriptor': 'field', 'MethodDescriptor': 'method', 'ClassName': 'class'}.get(n)


def parsed_fact(m, st, x, what):
    """is the parsed method descriptor x void / nullary?  None if unknown"""
    p = mkT('pj', x, 0, 0)
    fn = m.P.fns[x.a[0]]
    rt = m.P.tys[fn.body.locals[0]]
    md = m.P.tys[rt['vs'][0][2][0][1]]
    names = [q[0] for q in md['vs'][0][2]]
    if what == 'void':
        i = names.index('return_type')
        vs = [q[0] for q in m.P.tys[md['vs'][0][2][i][1]]['vs']]
        k = st.var.get(mkT('pj', p, 0, i))
        if k is None:
            return None
        v = vs.index('Void')
        return True if k == frozenset((v,)) else False if v not in k else None
    i = names.index('parameters')
    n = m.E.lenof(mkT('pj', p, 0, i))
    if st.st.eq0(n):
        return True
    if st.st.ge0(n - 1):
        return False
    return None
