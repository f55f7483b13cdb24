"""Runs the real parser and command line tool on many small file systems and
has TLC judge the results against the specification (spec/ProtoTool)."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess

from . import core


def case(text, cwd='', files=(), main='m.proto', arg=None, paths=(), search=None, raw=None):
    """One use of the parser.  files: (path, text) of the other files; arg: the
    file argument as given (relative to cwd; "@" is the root); paths: the import
    path as given; search: the directories these mean, relative to the root."""
    fs = [dict(path=main, text=text)] + [dict(path=p, text=t) for p, t in files]
    if raw is not None:
        fs[0]['raw'] = raw
    if search is None:
        search = [p for p in paths] + [cwd]
    return dict(fs=fs, main=main, arg=arg or main, cwd=cwd, paths=list(paths), search=list(search))


def run_worker(worker, cases, n=core.NCPU, env=None):
    """Results of a worker for the cases; {dead: ...} where the interpreter died."""
    n = max(1, min(n, len(cases) // 8 + 1))
    _runs[0] += 1
    tag = _runs[0]

    def one(k):
        part = cases[k::n]
        root = core.subdir(f'w-{tag}-{k}')
        out = []
        while len(out) < len(part):
            inp = '\n'.join(json.dumps(c) for c in part[len(out):]) + '\n'
            try:
                p = core.run([core.PY, os.path.join(core.VERIF, 'harness', worker), root],
                             inp=inp.encode(), timeout=600, env=env)
            except subprocess.TimeoutExpired:
                raise core.Machinery('the tool did not end')
            got = [json.loads(x) for x in p.stdout.decode().split('\n') if x]
            out += got
            if p.returncode != 0 and 'No module named' in p.stderr.decode():
                raise core.Machinery(p.stderr.decode()[-500:])
            if len(out) < len(part):
                out.append(dict(dead=p.stderr.decode()[-400:]))
        return out[:len(part)]
    res = core.pmap(one, list(range(n)), n)
    out = [None] * len(cases)
    for k in range(n):
        out[k::n] = res[k]
    return out


_runs = [0]


def run_parser(cases, n=core.NCPU):
    return run_worker('parse_worker.py', cases, n)


def sha(text):
    return hashlib.sha1(text.encode()).hexdigest()[:16]


class History:
    """A file system and what is done to it."""

    def __init__(self):
        self.steps = []

    def write(self, path, text):
        self.steps.append(dict(op='write', path=path, text=text))
        return self

    def remove(self, path):
        self.steps.append(dict(op='remove', path=path))
        return self

    def mkdir(self, path):
        self.steps.append(dict(op='mkdir', path=path))
        return self

    def run(self, ins, out='out', search=(), cwd='', upper=False, infiles=None, outarg=None, paths=None,
            lang='c'):
        """ins: inputs relative to the root; infiles, outarg, paths: as given on the
        command line ("@" is the root), by default relative to the root (cwd '')."""
        argv = [f'generate_{lang}_source'] + (['--enums-upper-case'] if upper else [])
        for p in (paths if paths is not None else search):
            argv += ['-I', p or '.']
        argv += ['-o', outarg or out] + list(infiles or ins)
        made = [out]
        while '/' in made[-1]:
            made.append(made[-1].rsplit('/', 1)[0])
        self.steps.append(dict(op='run', argv=argv, cwd=cwd, ins=list(ins), out=out, upper=upper, lang=lang,
                               search=list(search) + [cwd], made=made))
        return self


ASCII = dict(LC_ALL='C', LANG='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')


def run_histories(hists, n=core.NCPU, seeds=('0',)):
    """Every history, once per hash seed, as one list of events for the
    specification; the file system starts over for each seed.  With every
    other seed all runs of a history are made in one process, and the locale
    is one without UTF-8."""
    res = [run_worker('cli_worker.py', [dict(steps=h.steps, one=bool(k % 2)) for h in hists], n,
                      env=dict(core.ENV, PYTHONHASHSEED=s, **(ASCII if k % 2 else {}))) for k, s in enumerate(seeds)]
    out = []
    for i, h in enumerate(hists):
        evs = []
        for k, seed in enumerate(seeds):
            r = res[k][i]
            evs.append(dict(op='case', keep=k > 0))
            if isinstance(r, dict):
                evs.append(dict(op='fault', _msg=r['dead']))
                continue
            for s, e in zip(h.steps, r):
                if s['op'] == 'run':
                    evs.append(dict(e, upper=s['upper'], lang=s['lang'], out=s['out'], search=s['search'], made=s['made'],
                                    ins=[dict(path=p, base=list(os.path.splitext(os.path.basename(p))[0]))
                                         for p in s['ins']], _argv=s['argv']))
                    evs[-1]['_msg'] = evs[-1].pop('msg')
                elif s['op'] == 'remove':
                    evs.append(dict(op='remove', path=s['path'], tree=e['tree']))
                else:
                    t = s.get('text', '')
                    evs.append(dict(op='write', path=s['path'], proto=s['path'].endswith('.proto'), id=sha(t),
                                    text=list(t) if s['path'].endswith('.proto') else [], tree=e['tree']))
        out.append(evs)
    return out


def validate(groups, n=core.NCPU, module='ProtoTrace'):
    """TLC judges the events.  groups: lists of events that belong together.
    Returns ([(event, clauses)], stats)."""
    groups = list(groups)
    random.Random(1).shuffle(groups)

    def weight(g):
        return sum(sum(len(f['text']) for f in e.get('fs', ())) + 60 + (1500 * len(e['ins']) if 'ins' in e else 0)
                   for e in g)
    weights = [weight(g) for g in groups]
    tot, acc, parts = sum(weights) or 1, 0, [[] for _ in range(n)]
    for g, w in zip(groups, weights):
        parts[min(n - 1, acc * n // tot)] += g
        acc += w
    parts = [p for p in parts if p]
    _runs[0] += 1
    tag = _runs[0]

    def one(a):
        k, part = a
        path = os.path.join(core.scratch(), f'lang-{tag}-{k}.ndjson')
        with open(path, 'w') as fo:
            for e in part:
                d = {x: y for x, y in e.items() if x[0] != '_'}
                if 'fs' in e:
                    d['fs'] = [dict(path=f['path'], text=list(f['text'])) for f in e['fs']]
                fo.write(json.dumps(d) + '\n')
        rc, out = core.tlc(module, env=dict(PB_TRACE=path), stack='900m')
        os.remove(path)
        if rc != 0 or 'No error has been found' not in out:
            if os.environ.get('PBV_DEBUG'):
                open('/tmp/pbv-tlc-error.txt', 'w').write(out)
            raise core.Machinery(f'TLC did not consume a trace (rc {rc}):\n' + out[-1500:])
        br = []
        for m in core.BROKEN.finditer(re.sub(r'\s+', ' ', out)):
            br.append((part[int(m.group(2)) - 1], set(re.findall(r'"([^"]+)"', m.group(4)))))
        return br, core.tlc_stats(out)
    res = core.pmap(one, list(enumerate(parts)))
    return ([b for r, _ in res for b in r],
            dict(states=sum(s[1] for _, s in res), transitions=sum(s[0] for _, s in res), chunks=len(parts)))


class Lang:
    """Collects uses of the parser and histories of the tool; TLC judges them."""

    def __init__(self, check):
        self.check = check
        self.cases = []
        self.groups = []

    def add(self, suite, cases):
        cases = list(cases)
        for c in cases:
            self.cases.append((suite, c))
        self.check.count('cases_' + suite, len(cases))

    def histories(self, suite, hists, seeds=('0',)):
        """Runs histories of the command line tool; returns their events."""
        hists = list(hists)
        evs = run_histories(hists, seeds=seeds)
        for h, g in zip(hists, evs):
            for e in g:
                e.update(_suite=suite, _case=dict(steps=h.steps))
                if e['op'] == 'run':
                    self.check.count('runs')
        self.groups += evs
        self.check.count('histories_' + suite, len(hists))
        return evs

    def run(self):
        res = run_parser([c for _, c in self.cases])
        for (suite, c), r in zip(self.cases, res):
            e = dict(op='parse', fs=c['fs'], main=c['main'], search=c['search'], _suite=suite, _case=c)
            if 'dead' in r:
                e = dict(op='fault', _suite=suite, _case=c, _msg=r['dead'])
            else:
                e['_msg'] = r.pop('msg')
                e.update(r)
            self.groups.append([e])
        self.cases = []

    def judge(self, clauses):
        if self.cases:
            self.run()
        for i, g in enumerate(self.groups):
            for e in g:
                e['c'] = i
        broken, st = validate(self.groups)
        c = self.check
        events = [e for g in self.groups for e in g]
        c.count('cases', len(self.groups))
        c.count('events', len(events))
        c.count('accepted', sum(bool(e.get('ok') or e.get('rc') == 0) for e in events))
        c.count('states', st['states'])
        c.count('transitions', st['transitions'])
        c.count('traces_validated_against_impl', len(self.groups))
        for e in events[::max(1, len(events) // 5)]:
            c.sample(dict(suite=e['_suite'], text=(e.get('fs') or [{}])[0].get('text', '')[:300], op=e['op'],
                          argv=e.get('_argv'), outcome=e.get('_msg') or 'fine'))
        c.notes['guarantees_judged'] = sorted(set(clauses) | {'fault'})
        seen, other = {}, {}
        for e, cl in broken:
            mine = {x for x in cl if x == 'fault' or x in clauses or x.split('.')[0] + '.*' in clauses}
            for x in cl - mine:
                other[x] = other.get(x, 0) + 1
            if not mine:
                continue
            key = (e['_suite'], tuple(sorted(mine)))
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= 2:
                c.violation(f'{c.pid}: {", ".join(sorted(mine))} broken in suite {e["_suite"]}'
                            f' ({e.get("_argv", "")} {e.get("_msg") or "fine"})',
                            dict(guarantees=sorted(mine), case=e['_case'], event={
                                k: v for k, v in e.items() if k[0] != '_' and k not in ('fs', 'tree')}))
        if other:
            c.notes['other_guarantees_broken'] = other
        self.groups = []
        return broken


# ---------------------------------------------------------------- generated C

def interfaces(jobs, n=core.NCPU):
    """The interface of every job (fs, main, search, upper), from the
    specification, and the name of the header: None if the file is not valid."""
    n = max(1, min(n, len(jobs)))
    _runs[0] += 1
    tag = _runs[0]

    def one(k):
        part = jobs[k::n]
        path = os.path.join(core.scratch(), f'if-{tag}-{k}.ndjson')
        with open(path, 'w') as fo:
            for j in part:
                fo.write(json.dumps(dict(main=j['main'], base=list(os.path.splitext(os.path.basename(j['main']))[0]), search=j['search'], upper=j.get('upper', False),
                                         fs=[dict(path=f['path'], text=list(f['text'])) for f in j['fs']])) + '\n')
        rc, out = core.tlc('ProtoIface', env=dict(PB_TRACE=path, PB_OUT=path + '.out'), stack='900m')
        if rc != 0 or not os.path.exists(path + '.out'):
            raise core.Machinery(f'TLC did not write the interfaces (rc {rc}):\n' + out[-1500:])
        with open(path + '.out') as fi:
            got = [json.loads(x) for x in fi if x.strip()]
        os.remove(path)
        os.remove(path + '.out')
        if len(got) != len(part):
            raise core.Machinery('interfaces are missing')
        return [(g['name'], g['iface']) if g['ok'] else None for g in got], core.tlc_stats(out)
    res = core.pmap(one, list(range(n)))
    out = [None] * len(jobs)
    for k in range(n):
        out[k::n] = res[k][0]
    return out, dict(states=sum(s[1] for _, s in res), transitions=sum(s[0] for _, s in res))


def number(n):
    x = sum(b << (16 * i) for i, b in enumerate(n['limbs']))
    return -x if n['neg'] else x


def assertions(iface):
    """A C text that compiles if and only if the header declares the interface."""
    out = []
    for i, d in enumerate(iface):
        if d['d'] == 'const':
            v = number(d['num'])
            if not -2**31 <= v < 2**31:
                continue
            out.append(f'_Static_assert({d["name"]} == ({v} + 0LL), "value of {d["name"]}");')
            if d.get('type'):
                out.append(f'{d["type"]} c{i}_ = {d["name"]};')
        elif d['d'] == 'member':
            out.append(f'_Static_assert(__builtin_types_compatible_p(__typeof__((({d["st"]} *)0)->{d["name"]}), '
                       f'{d["type"]}), "type of {d["st"]}.{d["name"]}");')
        else:
            out.append(f'_Static_assert(__builtin_types_compatible_p(__typeof__({d["name"]}), {d["type"]}), '
                       f'"type of {d["name"]}"); void *a{i}_ = (void *)&{d["name"]};')
    return '\n'.join(out) + '\n'


WARN = ['-Wall', '-Wextra', '-Werror']


class Batch:
    """Many small file systems; the C of all inputs is generated by one run of
    the tool each, compiled, and compared with the interface."""

    def __init__(self, check, clauses):
        self.check, self.clauses, self.jobs = check, clauses, []

    def add(self, suite, cases):
        for c in cases:
            self.jobs.append(dict(c, suite=suite, upper=c.get('upper', False)))
            self.check.count('cases_' + suite)

    def judge(self, iface=True, cxx=True, link=0, wflags=()):
        c = self.check
        jobs = self.jobs
        ifs, names = [None] * len(jobs), [None] * len(jobs)
        if iface:
            got, st = interfaces(jobs)
            names, ifs = zip(*[g or (None, None) for g in got])
            c.count('states', st['states'])
            c.count('transitions', st['transitions'])
            valid = [k for k in range(len(jobs)) if ifs[k] is not None]
            c.count('interface_entries', sum(len(ifs[k]) for k in valid))
        else:
            valid = list(range(len(jobs)))
        hists = []
        for k in valid:
            j = jobs[k]
            h = History()
            for f in j['fs']:
                h.write(f['path'], f['text'])
            h.run([f['path'] for f in j['fs']], search=[d for d in j['search'] if d] + [''], paths=[d or '.' for d in j['search']],
                  upper=j['upper'])
            hists.append(h)
        keep = [core.subdir(f'gen-{_runs[0]}-{i}') for i in range(len(hists))]
        for h, d in zip(hists, keep):
            h.dest = d
        res = run_worker('cli_worker.py', [dict(steps=h.steps, dest=h.dest) for h in hists])
        seen = {}

        def bad(k, clause, what):
            j = jobs[k]
            key = (j['suite'], clause)
            seen[key] = seen.get(key, 0) + 1
            if clause in self.clauses and seen[key] <= 2:
                c.violation(f'{c.pid}: {clause} broken in suite {j["suite"]}: {what}'[:500],
                            dict(guarantees=[clause], case={x: j[x] for x in ('fs', 'main', 'search', 'upper')}, what=what))
            elif clause not in self.clauses:
                o = c.notes.setdefault('other_guarantees_broken', {})
                o[clause] = o.get(clause, 0) + 1

        def one(a):
            n, k = a
            j, d, r = jobs[k], keep[n], res[n]
            if isinstance(r, dict):
                return [(k, 'generates', r['dead'][-300:])]
            last = r[-1]
            if last['rc'] != 0:
                return [(k, 'generates', last['msg'])]
            out = []
            inc = ['-I', os.path.join(d, 'out'), '-I', os.path.join(core.REPO, 'lib/include')]
            srcs = sorted(x for x in os.listdir(os.path.join(d, 'out')) if x.endswith('.c'))
            for s in srcs:
                p = core.run(['gcc', '-std=c99', *WARN, *wflags, '-fsyntax-only', *inc, os.path.join(d, 'out', s)])
                if p.returncode != 0:
                    out.append((k, 'compiles', f'{s}: ' + p.stderr.decode()[:300].replace(d, '')))
            if ifs[k] is not None:
                t = os.path.join(d, 'iface.c')
                with open(t, 'w') as fo:
                    fo.write(f'#include "{names[k]}.h"\n' + assertions(ifs[k]))
                p = core.run(['gcc', '-std=gnu11', '-w', '-fsyntax-only', *inc, t])
                if p.returncode != 0:
                    out.append((k, 'interface', p.stderr.decode()[:300].replace(d, '')))
            return out
        for r in core.pmap(one, list(enumerate(valid))):
            for x in r:
                bad(*x)
        if cxx:
            def cpp(part):
                out = []
                for n, k in part:
                    d = keep[n]
                    if isinstance(res[n], dict) or res[n][-1]['rc'] != 0:
                        continue
                    t = os.path.join(d, 'x.cpp')
                    with open(t, 'w') as fo:
                        fo.write(''.join(f'#include "{x}"\n' for x in sorted(os.listdir(d + '/out')) if x.endswith('.h')))
                    p = core.run(['g++', '-std=c++11', *WARN, '-fsyntax-only', '-I', d + '/out', '-I',
                                  os.path.join(core.REPO, 'lib/include'), t])
                    if p.returncode != 0:
                        out.append((k, 'compiles', 'as C++: ' + p.stderr.decode()[:300].replace(d, '')))
                return out
            some = list(enumerate(valid))
            if cxx is not True:
                some = some[::max(1, len(some) // cxx)]
            for r in core.pmap(cpp, [some[i::core.NCPU] for i in range(core.NCPU)]):
                for x in r:
                    bad(*x)
        if link:
            def ln(a):
                n, k = a
                d = keep[n]
                if ifs[k] is None or isinstance(res[n], dict) or res[n][-1]['rc'] != 0:
                    return []
                srcs = [os.path.join(d, 'out', x) for x in os.listdir(d + '/out') if x.endswith('.c')]
                with open(d + '/main.c', 'w') as fo:
                    fo.write('int main(void) { return 0; }\n')
                p = core.run(['gcc', '-std=gnu11', '-w', '-O0', '-I', d + '/out', '-I',
                              os.path.join(core.REPO, 'lib/include'), *srcs, d + '/iface.c', d + '/main.c',
                              os.path.join(core.REPO, 'lib/src/pbtools.c'), '-o', d + '/prog'])
                if p.returncode != 0:
                    return [(k, 'links', p.stderr.decode()[:300].replace(d, ''))]
                os.remove(d + '/prog')
                return []
            some = list(enumerate(valid))
            some = some[::max(1, len(some) // link)]
            c.count('linked', len(some))
            for r in core.pmap(ln, some):
                for x in r:
                    bad(*x)
        c.count('cases', len(jobs))
        c.count('generated', len(valid))
        c.count('traces_validated_against_impl', len(valid))
        for k in valid[::max(1, len(valid) // 4)]:
            c.sample(dict(suite=jobs[k]['suite'], text=jobs[k]['fs'][0]['text'][:400], interface=(ifs[k] or [])[:3]))
        for d in keep:
            shutil.rmtree(d, ignore_errors=True)
        self.jobs = []
        return seen
