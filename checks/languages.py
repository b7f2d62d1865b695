"""The languages of names and descriptors of the class-file format (JVMS 4.2, 4.3), as regular expressions over the bytes of a text.

A set of texts is represented by the classes of texts that the languages distinguish; a class by its shortest member."""
import automata
from automata import mask, neg, lit, ANY, EPS

UQ = ('rep', ('s', neg(mask('.;[/'))), 1, None)
MNAME = ('rep', ('s', neg(mask('.;[/<>'))), 1, None)
BNAME = ('cat', UQ, ('rep', ('cat', lit('/'), UQ), 0, None))
BASE = ('s', mask('BCDFIJSZ'))


def fdesc(lo):
    return ('cat', ('rep', ('s', mask('[')), lo, 255), ('alt', BASE, ('cat', lit('L'), BNAME, lit(';'))))


FDESC = fdesc(0)
RDESC = ('alt', lit('V'), FDESC)
PARAMS = ('rep', FDESC, 0, None)


def mdesc(params, ret):
    return ('cat', lit('('), params, lit(')'), ret)


MODNAME = ('rep', ('alt', ('s', neg(mask(list(range(32)) + [ord(c) for c in '\\:@']))), ('cat', lit('\\'), ('s', mask('\\:@')))), 0, None)

EXPRS = {
    'unqualified': UQ,
    'method name': MNAME,
    'binary name': BNAME,
    'field descriptor': FDESC,
    'array descriptor': fdesc(1),
    'return descriptor': RDESC,
    'method descriptor': mdesc(PARAMS, RDESC),
    'void method descriptor': mdesc(PARAMS, lit('V')),
    'nullary method descriptor': mdesc(EPS, RDESC),
    'module name': MODNAME,
    '<init>': lit('<init>'),
    '<clinit>': lit('<clinit>'),
    'array-like': ('cat', lit('['), ANY),
}

NAMES = list(EXPRS)
DFA = automata.SigDfa([EXPRS[n] for n in NAMES])
SIG = automata.signatures(DFA, [automata.Nfa(ANY)])
ALL = frozenset(SIG.values())
LANG = {n: frozenset(s for k, s in SIG.items() if k[i]) for i, n in enumerate(NAMES)}


def class_of(text):
    return SIG[DFA.run(text)]


class Not:
    """the complement of an automaton"""

    def __init__(self, nfa):
        self.nfa = nfa
        self.masks = nfa.masks

    def init(self):
        return (self.nfa.init(),)

    def step(self, S, sym):
        return (self.nfa.step(S[0], sym),)

    def accepts(self, S):
        return not self.nfa.accepts(S[0])


MEMO = {}


def affix(op, pat, yes):
    """classes of the texts that (do not) start with, end with or contain the pattern (a text, or a set of bytes), or None"""
    k = (op, pat, yes)
    if k not in MEMO:
        p = lit(pat) if isinstance(pat, str) else ('s', mask(sorted(pat)))
        e = {'starts_with': ('cat', p, ANY), 'ends_with': ('cat', ANY, p), 'contains': ('cat', ANY, p, ANY)}[op]
        n = automata.Nfa(e)
        try:
            MEMO[k] = frozenset(SIG[x] for x in automata.signatures(DFA, [n if yes else Not(n)]))
        except automata.TooBig:
            MEMO[k] = ALL
    return MEMO[k]
