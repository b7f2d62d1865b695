"""Shared machinery of the checks: building and dumping /repo, running the analysis, reporting."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, 'evidence')
KNOWN = os.path.join(HERE, 'known-findings.txt')


class BuildFailed(Exception):
    pass


class Cx:
    def __init__(self, prop, tier, repo):
        self.prop, self.tier, self.repo = prop, tier, repo
        self.t0 = time.time()
        self.tmp = None
        self.fails = []          # (key, title, detail)
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.obligations = 0
        self.discharged = 0
        self._prog = {}
        self._eng = {}
        self.level = 'other'

    # -------------------------------------------------------- scratch and build
    def tmpdir(self):
        if self.tmp is None:
            base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
            try:
                self.tmp = tempfile.mkdtemp(prefix='verif-', dir=base)
            except OSError:
                self.tmp = tempfile.mkdtemp(prefix='verif-')
        return self.tmp

    def cleanup(self):
        if self.tmp and os.path.isdir(self.tmp):
            shutil.rmtree(self.tmp, ignore_errors=True)

    def sh(self, cmd, cwd=None, env=None, timeout=600):
        e = dict(os.environ)
        e.update(env or {})
        return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

    def driver(self):
        d = os.path.join(HERE, 'driver')
        exe = os.path.join(d, 'target', 'release', 'mirdump')
        src = [os.path.join(d, 'src', 'main.rs'), os.path.join(d, 'Cargo.toml')]
        if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in src):
            r = self.sh(['cargo', '+nightly', 'build', '--release', '--offline', '--quiet'], cwd=d)
            if r.returncode or not os.path.exists(exe):
                raise RuntimeError('cannot build the MIR dump driver: ' + r.stdout[-2000:])
            os.utime(exe)
        return exe

    def sysroot(self):
        return self.sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()

    def source_copy(self, name='src'):
        """copy of the crate's build inputs (never built in place)"""
        d = os.path.join(self.tmpdir(), name)
        if not os.path.isdir(d):
            shutil.copytree(self.repo, d, ignore=shutil.ignore_patterns('target', '.git', 'tests'))
            # [[test]]/[[example]] targets keep existing; tests/ is not part of the library
        return d

    def dump(self, features=''):
        out = os.path.join(self.tmpdir(), 'dump-%s.json' % (features or 'default'))
        exe = self.driver()
        env = {
            'LD_LIBRARY_PATH': self.sysroot() + '/lib',
            'RUSTC_WORKSPACE_WRAPPER': exe,
            'MIRDUMP_OUT': out,
            'CARGO_TARGET_DIR': os.path.join(self.tmpdir(), 'tgt-' + (features or 'default')),
            'RUSTFLAGS': '--cap-lints=allow -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=on -Zalways-encode-mir',
        }
        cmd = ['cargo', '+nightly', 'check', '--offline', '--lib', '--quiet']
        if features:
            cmd += ['--features', features]
        r = self.sh(cmd, cwd=self.repo, env=env)
        if r.returncode:
            raise BuildFailed(r.stdout)
        if not os.path.exists(out):
            raise RuntimeError('the dump driver wrote nothing: ' + r.stdout[-1000:])
        return out

    def program(self, features=''):
        if features not in self._prog:
            import program
            self._prog[features] = program.Program(self.dump(features))
        return self._prog[features]

    def analysis(self, features='', ptr=64):
        k = (features, ptr)
        if k not in self._eng:
            import analysis
            self._eng[k] = analysis.Analysis(self.program(features), ptr)
        return self._eng[k]

    # -------------------------------------------------------- reporting
    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def fail(self, key, title, detail='', where=''):
        """a violated obligation; key must not contain line numbers"""
        self.obligations += 1
        self.fails.append((key, title, detail, where))

    def check(self, cond, key, title, detail='', where=''):
        if cond:
            self.ok()
        else:
            self.fail(key, title, detail() if callable(detail) else detail, where)
        return cond

    def sample(self, x):
        if len(self.samples) < 40:
            self.samples.append(x if isinstance(x, (str, dict)) else str(x))

    def known(self):
        """exact keys of recorded findings of this property"""
        ks = {}
        try:
            for line in open(KNOWN):
                line = line.strip()
                if line.startswith('known: '):
                    body = line[len('known: '):]
                    p, _, rest = body.partition(' ')
                    if p == 'property=' + self.prop:
                        k, _, what = rest.partition(' :: ')
                        if k.startswith('key='):
                            ks[k[4:].strip()] = what.strip()
        except FileNotFoundError:
            pass
        return ks

    def finish(self):
        known = self.known()
        new = []
        seen = set()
        for f in self.fails:
            if f[0] in known:
                if f[0] not in seen:
                    print(f'KNOWN-FINDING: property={self.prop} {known[f[0]]}')
            elif f[0] not in seen:
                new.append(f)
            seen.add(f[0])
        os.makedirs(EVID, exist_ok=True)
        cov = {
            'explanation': self.cov.pop('explanation', 'static analysis of the compiler\'s MIR of the current source'),
            'obligations': self.obligations,
            'discharged': self.discharged,
            'samples': self.samples,
        }
        cov.update(self.cov)
        ev = {
            'property': self.prop, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': self.level, 'coverage': cov,
            'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new),
        }
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if not new:
            print(f'OK property={self.prop} obligations={self.obligations} discharged={self.discharged} wall={ev["wall_s"]}s')
            return 0
        rp = os.path.join(EVID, self.prop + '.violations.txt')
        with open(rp, 'w') as f:
            for key, title, detail, where in new[:200]:
                f.write(f'[{key}] {title}\n  where: {where}\n  {detail}\n\n')
        for key, title, detail, where in new[:20]:
            print(f'  {where or "-"}: {title} [{key}]')
            if detail:
                print('      ' + str(detail).replace('\n', '\n      ')[:1500])
        print(f'VIOLATION property={self.prop} replay={rp}')
        return 1
