"""C23: flag words keep exactly the defined bits at their defined values.

What is kept of a stored word, and what is rejected, comes from the format matcher (checks/fmt.py, tag `flags`).  Here
the other half: the named constants of every public flag type, as the compiler evaluates them, have the values of the
class-file format, so that asking a flag item for a name asks for the right bit.
"""
from checks import fmt

VALUES = {'PUBLIC': 0x1, 'PRIVATE': 0x2, 'PROTECTED': 0x4, 'STATIC': 0x8, 'FINAL': 0x10, 'SUPER': 0x20, 'SYNCHRONIZED': 0x20, 'OPEN': 0x20,
          'TRANSITIVE': 0x20, 'VOLATILE': 0x40, 'BRIDGE': 0x40, 'STATIC_PHASE': 0x40, 'TRANSIENT': 0x80, 'VARARGS': 0x80, 'NATIVE': 0x100,
          'INTERFACE': 0x200, 'ABSTRACT': 0x400, 'STRICT': 0x800, 'SYNTHETIC': 0x1000, 'ANNOTATION': 0x2000, 'ENUM': 0x4000, 'MODULE': 0x8000,
          'MANDATED': 0x8000}


def run(cx):
    fmt.report(cx, 'C23')
    n = 0
    for feats in ('', 'threadsafe'):
        types = set()
        for c in cx.program(feats).raw['consts']:
            if not c['own'] or not c['reachable'] or not c['type'].endswith('Flags'):
                continue
            types.add(c['type'])
            if c['name'] in VALUES:
                n += 1
                cx.check(int(c['value']) == VALUES[c['name']], f"flagvalue:{c['type']}:{c['name']}", 'a flag constant does not have the value of the format',
                         f"{int(c['value']):#x} instead of {VALUES[c['name']]:#x}", c['span'])
        cx.cov['flag_types' + ('_' + feats if feats else '')] = len(types)
    cx.cov['flag_constants'] = n
    cx.check(n >= 100, 'floor:flagconsts', f'only {n} flag constants found')
