"""Building the real code, driving it, and asking TLC whether the specification allows what it did."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO') or '/repo'     # the variable is for trying changes of the code in a copy
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = max(2, min(8, os.cpu_count() or 2))

ENV = dict(os.environ)
ENV.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOSUMDB='off')
ENV['PATH'] = '/opt/veriftools/go1.27.3/bin:' + ENV.get('PATH', '')
ENV.setdefault('HOME', '/root')


class CheckError(Exception):
    """The check could not decide: neither a pass nor a violation."""


def log(*a):
    print(*a, flush=True)


class Enough(Exception):
    """Violations have been found; the quick tier explores no further."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        os.chmod(self.scratch, 0o755)
        self.violations = []          # (text, detail)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.parts = []
        self.bins = {}

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def path(self, name):
        return os.path.join(self.scratch, name)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def sample(self, text):
        if len(self.cov['samples']) < 12:
            self.cov['samples'].append(str(text)[:600])

    def violation(self, text, detail=''):
        self.violations.append((text, detail))
        log('  found: ' + text[:2000])

    # ---------------------------------------------------------------- building
    def run(self, cmd, cwd=None, env=None, timeout=900, ok=(0,)):
        e = dict(ENV)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, errors='replace')
        except subprocess.TimeoutExpired:
            raise CheckError('timeout: ' + ' '.join(cmd)[:300])
        if ok is not None and p.returncode not in ok:
            raise CheckError('exit %d: %s\n%s' % (p.returncode, ' '.join(cmd)[:300], p.stdout[-4000:]))
        return p

    def vdrive(self):
        if 'vdrive' not in self.bins:
            out = self.path('vdrive')
            self.run(['go', 'build', '-o', out, '.'], cwd=os.path.join(HARNESS, 'vdrive'))
            self.bins['vdrive'] = out
        return self.bins['vdrive']

    def overlay(self, extra, instrument=None):
        """An overlay that adds files to the module of /repo, and replaces packages by instrumented copies."""
        repl = {os.path.join(REPO, k): os.path.join(HARNESS, v) for k, v in extra.items()}
        if instrument:
            d = self.path('instr-%d' % len(os.listdir(self.scratch)))
            os.makedirs(d)
            p = self.run([self.vdrive(), '-driver', 'instr', '-out', '/dev/null', '-mode', instrument, '-scratch', d, '-in', REPO])
            repl.update(json.load(open(os.path.join(d, 'replace.json'))))
        f = self.path('overlay-%d.json' % len(os.listdir(self.scratch)))
        json.dump({'Replace': repl}, open(f, 'w'))
        return f

    def vsrv(self, instrument=None):
        key = 'vsrv:%s' % instrument
        if key not in self.bins:
            ov = self.overlay({'cmd/zzvsrv/main.go': 'overlay/zzvsrv/main.go'}, instrument)
            out = self.path('vsrv%d' % len(self.bins))
            self.run(['go', 'build', '-overlay', ov, '-o', out, './cmd/zzvsrv'], cwd=REPO)
            self.bins[key] = out
        return self.bins[key]

    def tool(self, name, instrument=None):
        """A program of harness/overlay/<name>/main.go built inside the module of /repo."""
        where = 'cmd/client/zzclient' if name == 'zzclient' else 'cmd/' + name
        key = '%s:%s' % (name, instrument)
        if key not in self.bins:
            ov = self.overlay({where + '/main.go': 'overlay/%s/main.go' % name}, instrument)
            out = self.path('%s-%d' % (name, len(self.bins)))
            self.run(['go', 'build', '-overlay', ov, '-o', out, './' + where], cwd=REPO)
            self.bins[key] = out
        return self.bins[key]

    def prim(self, driver, n, virtual, inp='', seed=None, inject=('pkg/concurrency', 'pkg/network', 'pkg/types', 'pkg/log'), race=False):
        """Uses primitives of the repository in bubbles of virtual time, see harness/overlay/zzprim."""
        key = 'prim-race' if race else 'prim'
        if key not in self.bins:
            d = os.path.join(HARNESS, 'overlay', 'zzprim')
            ov = self.overlay({'pkg/zzprim/' + f: 'overlay/zzprim/' + f for f in os.listdir(d)}, 'virtual:' + ','.join(inject))
            self.bins[key] = self.path(key)
            self.run(['go', 'test', '-vet=off', '-c', *(['-race'] if race else []), '-overlay', ov, '-o', self.bins[key], './pkg/zzprim'],
                     cwd=REPO, env={'CGO_ENABLED': '1'} if race else None)
        out = self.path('prim-%s-%d.ndjson' % (driver, len(os.listdir(self.scratch))))
        env = {'PRIM_OUT': out, 'PRIM_DRIVER': driver, 'PRIM_N': str(n), 'PRIM_IN': inp,
               'PRIM_SEED': str(self.seed if seed is None else seed), 'VSCHED': 'virtual' if virtual else 'off',
               'PRIM_BUDGET': str(self.n(120, 1200)), 'GORACE': 'halt_on_error=1'}
        t = time.time()
        p = self.run([self.bins[key], '-test.timeout', '0'], env=env, timeout=self.n(600, 3400), ok=None, cwd=self.scratch)
        n_histories = self.outcome('prim ' + driver, p)
        log('  primitives %s%s%s: %s histories in %.1fs' % (driver, ' perturbed' if virtual else '', ' race' if race else '', n_histories, time.time() - t))
        return out

    def program(self, name):
        """The program of the repository itself."""
        out = self.path('program-' + name)
        self.run(['go', 'build', '-o', out, './cmd/' + name], cwd=REPO)
        return out

    # ----------------------------------------------------------------- driving
    def record(self, name, args, instrument=None, env=None, seed=None):
        """Runs such a program, which writes histories to -out."""
        out = self.path('%s-%d.ndjson' % (name, len(os.listdir(self.scratch))))
        cmd = [self.tool(name, instrument), '-out', out, '-seed', str(self.seed if seed is None else seed), *map(str, args)]
        t = time.time()
        p = self.run(cmd, env=env, timeout=self.n(600, 3400), ok=None, cwd=self.scratch)
        self.outcome(name, p)
        log('  %s %s: in %.1fs' % (name, ' '.join(map(str, args))[:100], time.time() - t))
        return out

    def outcome(self, driver, p):
        m = re.search(r'^HISTORIES (\d+)$', p.stdout, re.M)
        crash = re.search(r'^(panic: |fatal error: |WARNING: DATA RACE).*', p.stdout, re.M)
        if not m and crash and 'FATAL harness' not in p.stdout and re.search(r'vertex/pkg/(?!zz)', p.stdout[crash.start():]):
            self.violation('%s: the code crashes: %s' % (driver, p.stdout[crash.start():][:1500]), p.stdout[-6000:])
            return '0'
        if p.returncode not in (0, 1) or not m:
            raise CheckError('driver %s: exit %d\n%s' % (driver, p.returncode, p.stdout[-4000:]))
        for v in re.findall(r'^VIOLATION (.*)$', p.stdout, re.M):
            text = json.loads(v) if v.startswith('"') and _isjson(v) else v
            self.violation('%s: %s' % (driver, text), p.stdout[-3000:])
        return m.group(1)

    def drive(self, driver, n, scale=100, mode='', inp='', instrument=None, budget=None, env=None, workers=None, seed=None):
        out = self.path('%s-%d.ndjson' % (driver, len(os.listdir(self.scratch))))
        cmd = [self.vdrive(), '-driver', driver, '-srv', self.vsrv(instrument), '-scratch', self.scratch,
               '-out', out, '-seed', str(self.seed if seed is None else seed), '-n', str(n), '-scale', str(scale), '-mode', mode,
               '-in', inp, '-workers', str(workers or CPUS), '-budget', str(budget or self.n(150, 1500))]
        t = time.time()
        p = self.run(cmd, env=env, timeout=self.n(600, 3400), ok=None)
        n_histories = self.outcome(driver, p)
        log('  drove %s n=%s mode=%s: %s histories in %.1fs' % (driver, n, mode, n_histories, time.time() - t))
        return out

    # --------------------------------------------------------------------- TLC
    def tlc(self, spec, cfg, env=None, workers=1, timeout=None, xmx='3g', dfs=False, args=()):
        meta = tempfile.mkdtemp(prefix='tlc', dir=self.scratch)
        cmd = ['java', '-Djava.io.tmpdir=' + meta, '-Xss64m', '-Xmx' + xmx, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2']
        if dfs:
            cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
        cmd += ['-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
                '-config', cfg, *args, os.path.join(SPEC, spec + '.tla')]
        p = self.run(cmd, cwd=self.scratch, env=env, timeout=timeout or self.n(700, 3400), ok=None)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', p.stdout, re.M)
        st = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return p, st

    def cfg(self, text):
        f = self.path('c%d.cfg' % len(os.listdir(self.scratch)))
        open(f, 'w').write(text)
        return f

    def model(self, spec, cfgtext, what, workers=None, timeout=None, xmx='6g', out=None):
        """Check a small model exhaustively. A failure is a defect of the specification, not of the code."""
        t = time.time()
        p, st = self.tlc(spec, self.cfg(cfgtext), workers=workers or CPUS, timeout=timeout, xmx=xmx)
        if 'Model checking completed. No error has been found.' not in p.stdout:
            raise CheckError('the model %s (%s) fails:\n%s' % (spec, what, _errors(p.stdout)))
        self.cov['states'] += st[1]
        self.cov['transitions'] += st[0]
        self.parts.append('model %s (%s): %d distinct states, %d transitions, exhaustive' % (spec, what, st[1], st[0]))
        log('  model %s (%s): %d states, %d transitions in %.1fs' % (spec, what, st[1], st[0], time.time() - t))
        if out:
            open(out, 'w').write(p.stdout)
        return p

    def scripts(self, spec, steps, calm, checks, cap, consts='', acts=()):
        """Checks a model of the uses of a primitive in all schedules, and keeps steps that lead through its transitions."""
        p = self.model(spec, '''CONSTANTS MaxSteps = %d
  Emit = TRUE
  Calm = %s
%sSPECIFICATION Spec
VIEW View
ACTION_CONSTRAINT EmitScript
CHECK_DEADLOCK FALSE
%s''' % (steps, 'TRUE' if calm else 'FALSE', consts, checks), '%d steps%s' % (steps, ', calm' if calm else ''), timeout=self.n(600, 3000))
        if not cap:
            return None
        found = {tuple(re.findall(r'\\?"([^"\\]*)\\?"', l)) for l in re.findall(r'^"?SCRIPT (.*)$', p.stdout, re.M)}
        starts = {s[:k] for s in found for k in range(len(s))}
        whole = sorted(found - starts)
        if acts:    # those in which enough happens
            whole = [s for s in whole if sum(x.split(':')[0] in acts for x in s) >= 2 and any(x[:2] in ('do', 'go') for x in s)]
        n = len(whole)
        rng = random.Random(self.seed)
        if len(whole) > cap:
            whole = rng.sample(whole, cap)
        else:
            rng.shuffle(whole)
        out = self.path('scripts-%d.txt' % len(os.listdir(self.scratch)))
        open(out, 'w').write(''.join(' '.join(s) + '\n' for s in whole))
        self.parts.append('%s: %d of %d sequences of steps are replayed' % (spec, len(whole), n))
        log('  %s: %d of %d scripts' % (spec, len(whole), n))
        return out

    def validate(self, trace, spec='StoreTrace', consts='', what='', jvms=None, dfs=True, extra_cfg='', describe=None, env=None):
        """Ask TLC which of the recorded histories are behaviours of the specification."""
        lines = [l for l in open(trace, errors='replace') if l.strip()]
        if not lines:
            if self.violations:
                return
            raise CheckError('no history in ' + trace)
        jvms = min(jvms or CPUS, len(lines))
        # the largest first, round robin
        order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
        chunks = [[] for _ in range(jvms)]
        sizes = [0] * jvms
        for i in order:
            k = sizes.index(min(sizes))
            chunks[k].append(i)
            sizes[k] += len(lines[i]) + 2000
        cfg = self.cfg('SPECIFICATION TSpec\nCONSTRAINT Mark\nPOSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n' +
                       (('CONSTANTS\n' + consts) if consts else '') + extra_cfg)
        t = time.time()

        def one(chunk):
            f = tempfile.mktemp(prefix='chunk', suffix='.ndjson', dir=self.scratch)
            with open(f, 'w') as o:
                for i in chunk:
                    o.write(lines[i])
            e = {'TRACE': f, 'DEADLINE': str(self.n(200, 1500))}
            e.update(env or {})
            p, st = self.tlc(spec, cfg, env=e, dfs=dfs)
            if 'Model checking completed. No error has been found.' not in p.stdout:
                raise CheckError('TLC fails on %s:\n%s' % (spec, _errors(p.stdout)))
            rej = [(chunk[int(a) - 1], int(b)) for a, b in re.findall(r'^<<"REJECTED", (\d+), (\d+)>>', p.stdout, re.M)]
            os.unlink(f)
            undecided.extend(chunk[int(a) - 1] for a in re.findall(r'^<<"UNDECIDED", (\d+), ', p.stdout, re.M))
            return st, rej

        rejected = []
        undecided = []
        with cf.ThreadPoolExecutor(jvms) as ex:
            for st, rej in ex.map(one, chunks):
                self.cov['states'] += st[1]
                self.cov['transitions'] += st[0]
                rejected += rej
        self.cov['traces_validated_against_impl'] += len(lines) - len(rejected) - len(undecided)
        events = 0
        for i, l in enumerate(lines):
            h = json.loads(l)
            events += len(h['ev'])
            if i < 2:
                self.sample('%s history %s: %s' % (spec, h.get('label', ''), json.dumps(h['ev'][:4])))
        self.parts.append('%s%s: %d recorded histories, %d events' % (spec, ' ' + what if what else '', len(lines), events))
        log('  %s %s: %d histories, %d events, %d rejected in %.1fs' % (spec, what, len(lines), events, len(rejected), time.time() - t))
        if undecided:
            self.parts.append('%d histories have too many states and stay undecided' % len(undecided))
            log('  %d undecided' % len(undecided))
        for i, at in sorted(rejected)[:3]:
            h = json.loads(lines[i])
            ev = h['ev']
            j = max(0, at - 1)
            text = 'the specification %s does not allow event %d of history %s: %s' % (
                spec, at, h.get('label', ''), json.dumps(ev[j] if j < len(ev) else None)[:700])
            if describe:
                text += ' ' + describe(h, j)
            self.violation(text, json.dumps({'history': h, 'event': at}))
        if len(rejected) > 3:
            log('  and %d more rejected' % (len(rejected) - 3))
        known = known_findings(self.prop)
        if self.quick and any(not any(f in v[0] for f in known) for v in self.violations):
            raise Enough

    # ---------------------------------------------------------------- evidence
    def finish(self, level, rule):
        cov = dict(self.cov)
        cov['parts'] = self.parts
        cov['rule'] = rule
        if level == 'exploration':
            cov['evaluations'] = cov['traces_validated_against_impl']
            cov['distinct_nontrivial'] = cov['traces_validated_against_impl']
        if not cov['samples']:
            cov['samples'] = ['none']
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.violations)}
        if self.violations:
            ev['coverage']['violation_texts'] = [v[0][:2000] for v in self.violations]
        os.makedirs(EVIDENCE, exist_ok=True)
        json.dump(ev, open(os.path.join(EVIDENCE, self.prop + '.json'), 'w'), indent=1)

    def report(self):
        known = known_findings(self.prop)
        rc = 0
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for k, (text, detail) in enumerate(self.violations):
            hit = [f for f in known if f in text]
            if hit:
                log('KNOWN-FINDING: property=%s %s' % (self.prop, hit[0]))
                continue
            f = os.path.join(VERIF, 'replays', '%s-%s-%d-%d.txt' % (self.prop, self.tier, self.seed, k))
            with open(f, 'w') as o:
                o.write('property %s tier %s seed %d\n%s\n\n%s\n' % (self.prop, self.tier, self.seed, text, detail))
            log('VIOLATION property=%s replay=%s' % (self.prop, f))
            rc = 1
        return rc


def _errors(out):
    """What TLC says without its preamble."""
    lines = [l for l in out.splitlines() if not re.match(r'Parsing file|Semantic processing|TLC2 Version|Running |Starting', l)]
    return '\n'.join(lines)[-2500:]


def _isjson(s):
    try:
        json.loads(s)
        return True
    except ValueError:
        return False


def known_findings(prop):
    """Lines "known: property=<id> <what fails>" of known_findings.txt."""
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    except FileNotFoundError:
        pass
    return out
