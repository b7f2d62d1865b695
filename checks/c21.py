"""C21: no unsafe code, and the crate itself refuses any.

Rule 1 (type-checked program): the crate compiles with `-F unsafe_code` forced from the command line, for both
feature settings.  The lint runs in the compiler on the expanded HIR of every item of the crate.
Rule 2 (compile-fail witness): a copy of the crate in which one function with an unsafe block is appended to every
module file must fail to build with the unsafe_code error once per file, with no flag from us -- i.e. the crate's
own attributes reject it everywhere; the same with an attribute that allows unsafe_code on the function must fail too
(forbidden, not just denied); a twin with the same functions without the unsafe block must build.
Rule 3: the crate declares no mutable static.
"""
import json
import os
import re

BAD = '\n#[allow(dead_code, missing_docs)]\npub fn __verif_unsafe_witness() -> u8 { let x = 1u8; let p = &x as *const u8; unsafe { *p } }\n'
GOOD = '\n#[allow(dead_code, missing_docs)]\npub fn __verif_unsafe_witness() -> u8 { let x = 1u8; let p = &x as *const u8; let _ = p; x }\n'


def cargo(cx, cwd, feats, flags, tag):
    cmd = ['cargo', '+nightly', 'check', '--offline', '--lib', '--message-format=json', '--quiet']
    if feats:
        cmd += ['--features', feats]
    r = cx.sh(cmd, cwd=cwd, env={'CARGO_TARGET_DIR': os.path.join(cx.tmpdir(), 'c21-' + tag), 'RUSTFLAGS': flags})
    msgs = []
    for line in r.stdout.splitlines():
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j.get('reason') == 'compiler-message' and j['message'].get('level') == 'error':
            m = j['message']
            code = (m.get('code') or {}).get('code')
            sp = [s for s in m.get('spans', []) if s.get('is_primary')]
            msgs.append((code, m.get('message', ''), sp[0]['file_name'] if sp else '', sp[0]['line_start'] if sp else 0))
    return r.returncode, msgs, r.stdout


def run(cx):
    cx.cov['explanation'] = ('compiler lint unsafe_code forced over the whole crate for both feature settings; compile-fail '
                             'witness per module file; no mutable statics')
    files = set()
    for feats in ('', 'threadsafe'):
        P = cx.program(feats)
        rc, msgs, out = cargo(cx, cx.repo, feats, '-Funsafe_code', 'f' + feats)
        if rc != 0:
            hits = [m for m in msgs if m[0] in ('unsafe_code', 'E0453') or 'unsafe' in m[1]]
            for m in hits:
                cx.fail(f'unsafe:{m[2]}:{m[0]}', 'unsafe code (or an attempt to re-allow it) in the crate', m[1], f'{m[2]}:{m[3]}')
            if not hits:
                cx.fail('unsafe:build', 'crate does not build with -F unsafe_code', out[-800:])
        else:
            cx.ok()
        n = sum(1 for f in P.fns if f.local and f.body)
        cx.cov['local_bodies_' + (feats or 'default')] = n
        cx.check(n >= 100, 'floor:bodies', f'only {n} local bodies compiled (at least 100 expected)')
        for s in P.raw['statics']:
            cx.check(not s['mutable'], 'static-mut:' + s['path'], 'mutable static', s['span'])
    # witness
    src = cx.source_copy('c21src')
    mods = []
    for root, _, fs in os.walk(os.path.join(src, 'src')):
        for f in sorted(fs):
            if f.endswith('.rs') and not root.endswith('/bin') and f != 'main.rs':
                mods.append(os.path.join(root, f))
    used = {os.path.join(src, 'src', os.path.relpath(p, os.path.join(cx.repo, 'src'))) for p in local_files(cx)}
    mods = [m for m in mods if m in used]
    cx.check(len(mods) >= 7, 'floor:modules', f'only {len(mods)} module files found (7 expected)', str(mods))
    orig = {m: open(m).read() for m in mods}
    for m in mods:
        open(m, 'w').write(orig[m] + GOOD)
    rc, msgs, out = cargo(cx, src, '', '', 'twin')
    twin_ok = rc == 0
    cx.check(twin_ok, 'witness-twin', 'the witness twin without unsafe must build', out[-800:])
    for m in mods:
        open(m, 'w').write(orig[m] + BAD)
    for feats in ('', 'threadsafe'):
        rc, msgs, out = cargo(cx, src, feats, '', 'wit' + feats)
        flagged = {os.path.basename(x[2]) for x in msgs if x[0] == 'unsafe_code'}
        for m in mods:
            cx.check(rc != 0 and os.path.basename(m) in flagged, 'witness:' + os.path.basename(m) + ':' + feats,
                     'unsafe code added to this module is accepted by the compiler (the crate does not forbid it)',
                     '', os.path.relpath(m, src))
    # forbid, not merely deny: an attribute beside the code cannot allow it again
    for m in mods:
        open(m, 'w').write(orig[m] + BAD.replace('allow(', 'allow(unsafe_code, '))
    rc, msgs, out = cargo(cx, src, '', '', 'reallow')
    flagged = {os.path.basename(x[2]) for x in msgs if x[0] in ('unsafe_code', 'E0453')}
    for m in mods:
        cx.check(rc != 0 and os.path.basename(m) in flagged, 'reallow:' + os.path.basename(m),
                 'code of this module can allow unsafe code again (the crate does not forbid it)', '', os.path.relpath(m, src))
    cx.sample({'modules': [os.path.relpath(m, src) for m in mods], 'witness': BAD.strip()})
    cx.assumptions += ['dependencies (bitflags, cesu8) and the standard library are trusted not to be unsound']


def local_files(cx):
    return [os.path.join(cx.repo, f) if not f.startswith('/') else f for f in cx.program('').raw['files'] if f.startswith('src/') or f.startswith(cx.repo)]
