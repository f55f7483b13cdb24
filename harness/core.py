"""Shared machinery of the checks: scratch space, building the code under test,
running the driver, running TLC, evidence and verdicts."""
import atexit
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import schema as sc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PBV_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
NCPU = 8

ENV = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           LC_ALL='C.UTF-8', LANG='C.UTF-8')
for _k in ('CFLAGS', 'MAKEFLAGS', 'JAVA_TOOL_OPTIONS', 'VERIF_SEED_'):
    ENV.pop(_k, None)

_scratch = None


DEEP = 2.5      # how much larger the samples of quick are than the first version's


def quick():
    return TIER != 'thorough'


def sample(a, b):
    """The size of a sample: a in quick, more of the large ones; b in thorough."""
    if not quick():
        return b
    return min(b, int(a * DEEP)) if isinstance(a, int) and a >= 40 and isinstance(b, int) and b > a else a


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='pbv-')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def subdir(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


class Machinery(Exception):
    """The machinery itself failed (never a verdict)."""


def pool(n=NCPU):
    return cf.ThreadPoolExecutor(max_workers=n)


def pmap(fn, items, n=NCPU):
    with pool(n) as ex:
        return list(ex.map(fn, items))


def run(cmd, cwd=None, env=None, timeout=600, inp=None):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout, input=inp,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE)


# ---------------------------------------------------------------- building

def generate(proto_dir, names, out_dir, extra=(), import_paths=(), env=None):
    """Run the command line generator; returns the CompletedProcess."""
    os.makedirs(out_dir, exist_ok=True)
    cmd = [PY, '-m', 'pbtools', 'generate_c_source', '-o', out_dir]
    for p in import_paths:
        cmd += ['-I', p]
    cmd += list(extra) + [os.path.join(proto_dir, n) for n in names]
    return run(cmd, cwd=proto_dir, env=env)


class BuildError(Exception):
    """The code under test does not generate or compile for a valid schema."""


ASAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,nonnull-attribute,pointer-overflow',
        '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-O1', '-g']


class Driver:
    """The generated code for some schemas, linked with the generic driver."""

    def __init__(self, name, files, cc='gcc', flags=tuple(ASAN), wrap=(), env=None):
        self.dir = subdir(name)
        self.files = files
        for f in files:
            with open(os.path.join(self.dir, f.name + '.proto'), 'w') as fo:
                fo.write(f.text())
        gen = os.path.join(self.dir, 'gen')
        p = generate(self.dir, [f.name + '.proto' for f in files], gen, import_paths=[self.dir])
        if p.returncode != 0:
            raise BuildError('generation fails: ' + p.stderr.decode()[-400:])
        tables, self.msgs = sc.tables(files)
        with open(os.path.join(gen, 'tables.h'), 'w') as fo:
            fo.write(sc.TABLES_H)
        with open(os.path.join(gen, 'tables.c'), 'w') as fo:
            fo.write(tables)
        srcs = [os.path.join(gen, f.name + '.c') for f in files]
        srcs += [os.path.join(gen, 'tables.c'), os.path.join(VERIF, 'harness', 'driver.c'),
                 os.path.join(REPO, 'lib/src/pbtools.c')]

        def comp(s):
            o = os.path.join(self.dir, os.path.basename(s) + '.o')
            return o, run([cc, '-std=gnu11', '-c', '-w', '-I', gen,
                           '-I', os.path.join(REPO, 'lib/include'), *flags, s, '-o', o])
        objs = []
        for o, p in pmap(comp, srcs):
            if p.returncode != 0:
                raise BuildError('compilation fails: ' + p.stderr.decode()[:600])
            objs.append(o)
        self.exe = os.path.join(self.dir, 'driver')
        p = run([cc, *flags, *objs, '-o', self.exe, '-lpthread'])
        if p.returncode != 0:
            raise BuildError('linking fails: ' + p.stderr.decode()[:600])
        self.env = dict(ENV, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:'
                        'detect_stack_use_after_return=1:allocator_may_return_null=1',
                        UBSAN_OPTIONS='print_stacktrace=1:exitcode=77',
                        MSAN_OPTIONS='exitcode=77:allocator_may_return_null=1',
                        TSAN_OPTIONS='exitcode=78:halt_on_error=1', **(env or {}))
        self.wrap = list(wrap)
        p = run(self.wrap + [self.exe, 'info'], env=self.env)
        if p.returncode != 0:
            raise Machinery('driver info: ' + p.stderr.decode()[-400:])
        self.info = json.loads(p.stdout)
        self.spec = dict(msgs=sc.spec_json(self.msgs, self.info), heap=self.info['heap'])
        self.schema_path = os.path.join(self.dir, 'schema.json')
        with open(self.schema_path, 'w') as fo:
            json.dump(self.spec, fo)
        self.index = {id(m): i for i, m in enumerate(self.msgs)}

    def idx(self, m):
        return self.index[id(m)]

    def _run1(self, cases, tag):
        """cases: list of (id, [lines]).  Returns the list of events; a crash
        becomes a fault event of its case, after which the next case runs."""
        events = []
        todo = list(cases)
        part = 0
        faults = 0
        while todo:
            part += 1
            script = os.path.join(self.dir, f's-{tag}-{part}')
            out = os.path.join(self.dir, f'o-{tag}-{part}')
            with open(script, 'w') as fo:
                for cid, lines in todo:
                    fo.write(f'case {cid}\n' + '\n'.join(lines) + '\n')
            p = run(self.wrap + [self.exe, script, out], env=self.env, timeout=900)
            with open(out, 'rb') as fi:
                raw = fi.read().decode('latin-1').split('\n')
            os.remove(script)
            os.remove(out)
            cur = None
            last_bad = None
            for ln in raw:
                if not ln:
                    continue
                try:
                    e = json.loads(ln)
                except ValueError:
                    last_bad = ln[:300]
                    continue
                if e['op'] == 'case':
                    cur = e['c']
                e['c'] = cur
                events.append(e)
            if p.returncode == 0:
                break
            err = p.stderr.decode('latin-1')
            if p.returncode == 3 or 'bad script' in err:
                raise Machinery(err[-500:])
            if cur is None:
                raise Machinery(f'driver exit {p.returncode}: ' + err[-500:])
            m = re.search(r'(ERROR: \w+Sanitizer: [\w-]+|runtime error: [^\n]*|TIMEOUT|'
                          r'WARNING: ThreadSanitizer[^\n]*)', err)
            what = m.group(1) if m else f'exit {p.returncode}'
            where = re.findall(r'#\d+ \S+ in (\w+)', err)
            events.append(dict(op='fault', c=cur, kind=what, at=where[:4], line=last_bad or ''))
            faults += 1
            pos = next(i for i, (cid, _) in enumerate(todo) if cid == cur)
            todo = todo[pos + 1:]
            if faults >= 20:
                break
        return events

    def run_threads(self, per):
        """per: list of case lists, one per thread of a single process."""
        args = []
        for i, cases in enumerate(per):
            script = os.path.join(self.dir, f'ts-{i}')
            with open(script, 'w') as fo:
                for cid, lines in cases:
                    fo.write(f'case {cid}\n' + '\n'.join(lines) + '\n')
            args += [script, os.path.join(self.dir, f'to-{i}')]
        p = run(self.wrap + [self.exe] + args, env=self.env, timeout=900)
        events = []
        for i, cases in enumerate(per):
            with open(args[2 * i + 1], 'rb') as fi:
                raw = fi.read().decode('latin-1').split('\n')
            cur = None
            for ln in raw:
                try:
                    e = json.loads(ln)
                except ValueError:
                    continue
                if e['op'] == 'case':
                    cur = e['c']
                e['c'] = cur
                events.append(e)
            os.remove(args[2 * i])
            os.remove(args[2 * i + 1])
        if p.returncode != 0:
            err = p.stderr.decode('latin-1')
            m = re.search(r'(ERROR: \w+Sanitizer: [\w-]+|runtime error: [^\n]*|TIMEOUT|'
                          r'WARNING: ThreadSanitizer[^\n]*)', err)
            if p.returncode == 3 or 'unexpected memory mapping' in err:
                raise Machinery(err[-500:])
            cid = per[0][0][0]
            events.append(dict(op='case', c=cid))
            events.append(dict(op='fault', c=cid, kind=m.group(1) if m else f'exit {p.returncode}',
                               at=re.findall(r'#\d+ (?:0x\S+ in )?(\w+)', err)[:6]))
        return events

    def run(self, cases, n=NCPU):
        """Run all cases (id, lines) split over n processes, keeping case order."""
        k = max(1, min(n, len(cases)))
        w = [sum(len(x) for x in ls) + 200 for _, ls in cases]
        tot, acc, parts = sum(w), 0, [[] for _ in range(k)]
        for c, x in zip(cases, w):
            parts[min(k - 1, acc * k // tot)].append(c)
            acc += x
        res = pmap(lambda a: self._run1(a[1], a[0]), list(enumerate(parts)), k)
        return [e for r in res for e in r]


# ---------------------------------------------------------------- TLC

def tlc(module, cfg=None, env=None, workers=1, timeout=850, heap='3g', args=(), cwd=None,
        stack='64m'):
    """Runs TLC on SPEC/module.tla; returns (returncode, stdout)."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=scratch())
    cmd = ['java', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC', f'-Xmx{heap}',
           f'-Xss{stack}', f'-Djava.io.tmpdir={meta}', '-Dtlc2.tool.impl.Tool.cdot=true', '-cp',
           f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar', 'tlc2.TLC',
           '-config', os.path.join(SPEC, (cfg or module) + '.cfg'), '-metadir', meta,
           '-workers', str(workers), '-noTE', *args, os.path.join(SPEC, module + '.tla')]
    e = dict(ENV)
    e.update(env or {})
    try:
        p = run(cmd, cwd=cwd or meta, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Machinery(f'TLC timed out on {module}')
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def tlc_stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    d = re.findall(r'depth of the complete state graph search is (\d+)', out)
    return (int(m[-1][0]), int(m[-1][1]), int(d[-1]) if d else 0) if m else (0, 0, 0)


BROKEN = re.compile(r'<<"BROKEN", (-?\d+), (\d+), "(\w+)", \{([^}]*)\}>>')


class Broken:
    def __init__(self, case, op, clauses, event):
        self.case, self.op, self.clauses, self.event = case, op, clauses, event

    def __repr__(self):
        return f'case {self.case} {self.op}: {sorted(self.clauses)}'


def combine(drivers):
    """One schema for all drivers; returns (schema, offset of each driver)."""
    msgs, offs = [], {}
    for d in drivers:
        off = len(msgs)
        offs[d] = off
        for m in d.spec['msgs']:
            m = json.loads(json.dumps(m))
            for f in m['fields'] + [f for o in m['oneofs'] for f in o]:
                if f['ref']:
                    f['ref'] += off
            msgs.append(m)
    return dict(msgs=msgs, heap=drivers[0].spec['heap']), offs


def split(cases, n):
    """cases: list of event lists; n lists of events of about the same cost."""
    w = []
    for evs in cases:
        w.append(sum(4 * len(e.get('in', ())) + len(e.get('out', ())) + e.get('_w', 0) + 40 for e in evs))
    tot, acc, parts = sum(w) or 1, 0, [[] for _ in range(n)]
    for evs, x in zip(cases, w):
        parts[min(n - 1, acc * n // tot)] += evs
        acc += x
    return [p for p in parts if p]


def validate(runs, n=NCPU, module='PbTrace'):
    """Trace validation of [(driver, events)] with n parallel TLC runs.
    Returns (broken, stats)."""
    drivers = list(dict.fromkeys(d for d, _ in runs))
    schema, offs = combine(drivers)
    spath = os.path.join(scratch(), f'schema-{module}-{len(os.listdir(scratch()))}.json')
    with open(spath, 'w') as fo:
        json.dump(schema, fo)
    cases = []
    for d, events in runs:
        for e in events:
            if e['op'] == 'case':
                cases.append([])
            if e['op'] == 'new':
                e = dict(e, m=e['m'] + offs[d])
            for k in ('size', 'res', 'n'):
                if not -2**31 < e.get(k, 0) < 2**31:
                    e[k] = max(-2**31 + 1, min(2**31 - 1, e[k]))
            if not -2**30 < e.get('off', 0) < 2**30:
                e['off'] = max(-2**30, min(2**30, e['off']))
            if any(not -2**30 < x < 2**30 for r in e.get('regs', ()) for x in r):
                e['regs'] = [[max(-2**30, min(2**30, x)) for x in r] for r in e['regs']]
            e['_w'] = len(str(e.get('val', '')))
            cases[-1].append(e)
    random.Random(1).shuffle(cases)
    parts = split(cases, n)

    def one(a):
        i, evs = a
        path = f'{spath}-{i}.ndjson'
        with open(path, 'w') as fo:
            for e in evs:
                fo.write(json.dumps({k: v for k, v in e.items() if k != '_w'}) + '\n')
        rc, out = tlc(module, env=dict(PB_TRACE=path, PB_SCHEMA=spath), stack='900m')
        os.remove(path)
        if rc != 0 or 'No error has been found' not in out:
            if os.environ.get('PBV_DEBUG'):
                open(os.path.join(tempfile.gettempdir(), 'pbv-tlc-error.txt'), 'w').write(out)
            raise Machinery(f'TLC did not consume a trace (rc {rc}):\n' + out[-1500:])
        br = []
        flat = re.sub(r'\s+', ' ', out)
        for m in BROKEN.finditer(flat):
            ev = evs[int(m.group(2)) - 1]
            cl = set(re.findall(r'"([^"]+)"', m.group(4)))
            br.append(Broken(int(m.group(1)), m.group(3), cl, ev))
        return br, tlc_stats(out)
    res = pmap(one, list(enumerate(parts)))
    broken = [b for r, _ in res for b in r]
    return broken, dict(states=sum(s[1] for _, s in res), transitions=sum(s[0] for _, s in res),
                        chunks=len(parts),
                        events=sum(len(p) for p in parts))


# ---------------------------------------------------------------- verdicts

def known_findings(pid):
    """{key: text} of the recorded findings of a property."""
    out = {}
    with open(os.path.join(VERIF, 'known_findings.txt')) as fi:
        for ln in fi:
            m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', ln)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    """Collects what one run of a check did and ends it."""

    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.violations = []
        self.known = []
        self.notes = {}
        self.rng = random.Random(SEED * 1000003 + int(pid[1:]))

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, replay):
        """replay: dict or text written to replay/<pid>/<n>.json"""
        self.violations.append((what, replay))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def known_finding(self, what):
        self.known.append(what)

    def finish(self):
        rc = 0
        for k in self.known:
            print(f'KNOWN-FINDING: property={self.pid} {k}')
        rdir = os.path.join(VERIF, 'replay', self.pid)
        shutil.rmtree(rdir, ignore_errors=True)
        if self.violations:
            os.makedirs(rdir, exist_ok=True)
            for i, (what, replay) in enumerate(self.violations[:10]):
                path = os.path.join(rdir, f'{i}.json')
                with open(path, 'w') as fo:
                    json.dump(dict(property=self.pid, what=what, seed=SEED, tier=TIER,
                                   rerun=f'VERIF_SEED={SEED} VERIF_TIER={TIER} {VERIF}/check {self.pid}',
                                   replay=replay), fo, indent=1, default=str)
                print(f'{what}')
                print(f'VIOLATION property={self.pid} replay={path}')
            rc = 1
        cov = dict(self.cov)
        cov['samples'] = self.samples
        cov.update(self.notes)
        ev = dict(property=self.pid, tier='thorough' if TIER == 'thorough' else 'quick', seed=SEED,
                  level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as fo:
            json.dump(ev, fo, indent=1, default=str)
        print(f'{self.pid}: {"VIOLATED" if rc else "held"}; '
              + ', '.join(f'{k}={v}' for k, v in cov.items() if isinstance(v, (int, bool)))
              + f'; {ev["wall_s"]} s')
        return rc
