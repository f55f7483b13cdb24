"""Runs driver scripts against the real runtime and has TLC judge the recorded
traces against the specification."""
import itertools
import json
import os

from . import core, schema as sc


class Runtime:
    def __init__(self, check):
        self.check = check
        self.ids = itertools.count(1)
        self.scripts = {}       # case id -> (driver, suite, lines)
        self.runs = []          # (driver, events)
        self.drivers = {}
        self.nfault = 0

    def driver(self, name, files, **kw):
        d = core.Driver(name, files, **kw)
        self.drivers[name] = d
        return d

    def add(self, drv, suite, scripts, n=core.NCPU):
        """scripts: list of line lists, one per case."""
        cases = []
        for lines in scripts:
            i = next(self.ids)
            self.scripts[i] = (drv, suite, lines)
            cases.append((i, lines))
        if not cases:
            return []
        ev = drv.run(cases, n)
        self.runs.append((drv, ev))
        self.check.count('cases', len(cases))
        self.check.count('cases_' + suite, len(cases))
        return ev

    def add_threads(self, drv, suite, scripts, nthreads):
        """scripts: list of cases per thread, run concurrently in one process."""
        per = []
        for th in scripts:
            cases = []
            for lines in th:
                i = next(self.ids)
                self.scripts[i] = (drv, suite, lines)
                cases.append((i, lines))
            per.append(cases)
            self.check.count('cases', len(cases))
            self.check.count('cases_' + suite, len(cases))
        ev = drv.run_threads(per)
        self.runs.append((drv, ev))

    def judge(self, clauses, known=()):
        """Have TLC judge everything recorded.  clauses: the names of the
        guarantees that belong to this property ('fault' always does).
        known: {clause: text} of recorded findings."""
        known = dict(known)
        if not self.runs:
            return
        broken, st = core.validate(self.runs)
        c = self.check
        c.count('events', st['events'])
        c.count('states', st['states'])
        c.count('transitions', st['transitions'])
        c.count('traces_validated_against_impl', sum(e['op'] == 'case' for _, evs in self.runs for e in evs))
        for drv, suite, lines in list(self.scripts.values())[::max(1, len(self.scripts) // 5)]:
            c.sample(dict(suite=suite, script=[x[:160] for x in lines[:12]]))
        ops = {}
        for _, evs in self.runs:
            for e in evs:
                ops[e['op']] = ops.get(e['op'], 0) + 1
        c.notes['events_by_operation'] = ops
        c.notes['guarantees_judged'] = sorted(set(clauses) | {'fault'})
        seen = {}
        other = {}
        hit = set()
        for b in broken:
            mine = {x for x in b.clauses if x == 'fault' or x in clauses}
            rest = b.clauses - mine
            for x in sorted(mine & set(known)):
                hit.add(x)
                c.count('known_finding_hits')
            mine -= set(known)
            for x in rest:
                other[x] = other.get(x, 0) + 1
            if not mine:
                continue
            drv, suite, lines = self.scripts.get(b.case, (None, '?', []))
            key = (suite, b.op, tuple(sorted(mine)))
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= 2:
                ev = {k: v for k, v in b.event.items() if k not in ('regs', '_w')}
                txt = f'{c.pid}: {", ".join(sorted(mine))} broken by "{b.op}" in suite {suite}'
                if b.op == 'fault':
                    txt += f' ({ev.get("kind")} in {ev.get("at")})'
                c.violation(txt, dict(guarantees=sorted(mine), script=lines, event=ev,
                                      schemas={f.name: f.text() for f in drv.files} if drv else {}))
        for x, text in sorted(known.items()):
            if x in hit:
                c.known_finding(text)
        if other:
            c.notes['other_guarantees_broken'] = other
        self.runs = []


# ------------------------------------------------------------ script helpers

def nums(v):
    if isinstance(v, list):
        return 1 + sum(nums(x) for x in v)
    return 1


def room(v):
    """A workspace size that certainly holds a value."""
    return 4096 + 96 * nums(v)


def build_lines(drv, s, m, v, mis=0, fill=2, size=None):
    return [f'ws {s} {size or room(v)} {mis} {fill}', f'new {s} {drv.idx(m)}',
            f'build {s} {sc.vtext(v)}']


def fresh_lines(drv, s, m, size, mis=0, fill=1):
    return [f'ws {s} {size} {mis} {fill}', f'new {s} {drv.idx(m)}']


def enc_room(v):
    return 64 + 16 * nums(v)


def roundtrip(drv, m, v, mis=0, fill=2, encs=()):
    return (build_lines(drv, 0, m, v, mis, fill) + [f'enc 0 {enc_room(v)}']
            + [f'enc 0 {n}' for n in encs]
            + fresh_lines(drv, 1, m, room(v) * 2, (mis * 7 + 3) % 16, 1) + ['redec 1 0'])


def decode(drv, m, data, size=None, mis=0, fill=1, s=0):
    return fresh_lines(drv, s, m, 65536 if size is None else size, mis, fill) \
        + [f'dec {s} {sc.hexs(data)}']
