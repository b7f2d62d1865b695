"""Generates MANIFEST.json: claimed checks, and every other property with its reason."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the compiler\'s MIR (trace-partitioned, linear invariants)'
TRUST = ('Trusts rustc\'s MIR (nightly, dev profile with overflow checks), the models of the standard-library functions used, and the analyser itself. '
         'Every run rebuilds the dump from /repo and fails closed on anything it cannot decide.')
FMT = 'matching of the summaries of ' + AI + ' against a declarative class-file format, in both directions'
FMTN = 'For all inputs and both option settings. The format description (checks/jvms.py) is transcribed from the JVMS by hand. '
CLAIMED = {
    'C01': ('panic obligations at every operation that can panic, proved by ' + AI, 'proof',
            'All contexts of both builds, the iterator step, the lookup and all functions of texts, for all inputs. Standard-library functions without a body in the sysroot dump are assumed not to panic unless listed. ' + TRUST),
    'C09': ('positions and languages of the parts of every parsed text, and symbolic evaluation of the Display implementations, by ' + AI, 'proof',
            'All accepted texts, of any length. Trusts core\'s formatting of strings and numbers. ' + TRUST),
    'C08': ('exact extraction of the accepted texts of every text function as automata; ' + FMT, 'proof',
            'All texts in all places. ' + FMTN + TRUST),
    'C02': ('ranking functions, recursion measures and link-acyclicity over ' + AI, 'proof',
            'All loops and recursion groups of all analysed bodies, for all inputs. ' + TRUST),
    'C03': ('capacity bounds at every reservation site by ' + AI, 'proof', 'All reservation sites in all calling contexts, for all inputs. ' + TRUST),
    'C19': ('effect analysis over the call graph; write analysis of iteration by ' + AI, 'other',
            'Whole call graph of both builds. Trusts that standard-library functions outside the listed ambient families are deterministic. ' + TRUST),
    'C20': ('type-level Send/Sync witness; lock-order analysis; summary equality of both builds by ' + AI, 'other',
            'All lock acquisitions on all analysed paths; equality of accept conditions and results of both builds. Error texts are not compared. ' + TRUST),
    **{i: (FMT, 'proof', n + ' ' + FMTN + TRUST) for i, n in {
        'C04': 'The end of the input, of every attribute and of every code array is compared with the position reached on every successful path.',
        'C05': 'Every integer of every structure is compared with the big-endian term of the bytes at its position.',
        'C06': 'Every successful path through the pool loop is matched against the entry formats; every error site of the pool is shown to reject malformed input only.',
        'C07': 'Every reference must be proved in range and of a permitted kind, and its value must be the contents of the entry named.',
        'C10': 'Every path through the opcode loop is matched against the table of all instructions, in both directions.',
        'C11': 'For every instruction with targets the jump check must be proved, by matching the loops that collect the starts and compare the targets.',
        'C13': 'Every path through the attribute loop is matched against the attribute formats, in both directions.',
        'C14': 'All successful outcomes and all error sites outside attributes.',
        'C15': 'The flags or searches that relate dynamic entries to the bootstrap table are proved by inductive loop invariants.',
        'C23': 'Every flag word is evaluated bit by bit over the constants of the compiled program.',
        'C25': 'Texts and literals of the result are compared with the decoding of the stored bytes. The decoder itself (cesu8) is trusted.',
        'C16': 'All successful outcomes of every function and loop are shown free of unhandled errors, and the conditions of the format follow from each.',
    }.items()},
    'C12': ('loop invariants and symbolic evaluation of the lookup by ' + AI, 'proof',
            'The instruction list is strictly increasing from 0 by the invariant of the loop that builds it; the lookup is evaluated over an arbitrary such list. ' + TRUST),
    'C17': (FMT + '; setter, default and parse_class by relating the calls they make', 'proof',
            'Failures of format conformance that depend on the option, and what the entry points pass on. ' + FMTN + TRUST),
    'C18': ('type walk of the result; provenance of every owned text in the compiled bodies; values by ' + FMT, 'proof',
            'All calls of both builds that make or extend owned text. Trusts cesu8 to borrow what is standard UTF-8. ' + TRUST),
    'C24': (AI + ' of the display and of every function that makes an error', 'proof',
            'All messages and context lists of any length; assumes a sink that does not fail and default formatting. ' + TRUST),
    'C22': (AI + ' of one step of the iterator from every reachable state; the item by ' + FMT, 'proof',
            'All pools of accepted classes, every position (induction over steps). ' + TRUST),
    'C28': ('query over the compiler\'s trait-implementation tables; hand-written implementations are decided by ' + AI + ' over two arbitrary values', 'proof',
            'Derived implementations are taken to be structural. A hand-written comparison must have all parts equal on every path that says equal and a differing part on every path that says different; a hand-written hash may only hash parts of the value. Comparison of standard-library types is trusted. ' + TRUST),
    'C21': ('compiler lint forced over the crate; compile-fail witness per module', 'proof', 'All modules, both builds. Trusts rustc\'s unsafe_code lint and the dependencies.'),
}
PENDING = 'no check is registered yet'
NA = {
    'C26': 'A bound on running time needs a cost model of amortised allocation and hashing; only termination (C02) and reserved capacity (C03) are in reach of a sound static argument here.',
    'C27': 'Agreement with the JVM or javap quantifies over the behaviour of another program that is not part of this source tree.',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CLAIMED:
            t, l, n = CLAIMED[i]
            checks.append({'property': i, 'quick_cmd': f'python3 run.py {i}', 'thorough_cmd': f'python3 run.py {i} --tier thorough',
                           'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': l, 'level_note': n})
        else:
            na.append({'property': i, 'reason': NA.get(i, PENDING)})
    m = {'version': 1, 'setup_cmd': 'cd driver && cargo +nightly build --release --offline --quiet', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo. known-findings.txt lists the defects found; DESIGN.md describes each check.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'claimed', len(na), 'not')


main()
