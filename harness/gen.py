"""Behaviours generated from the specification by TLC, replayed on the real code.

PbModel enumerates histories of calls (one per transition of the model), PbWires
inputs of decode.  TLC checks the properties of the design on the way; a failure
there is a defect of the specification, never a verdict on the code."""
import json
import os
import random

from . import core, schemas, schema as sc
from .runtime import fresh_lines

FULL = ['set', 'alloc', 'sel', 'enc', 'dec']


def _mini(rt):
    if 'mini' not in rt.drivers:
        files, ns = schemas.mini()
        d = rt.driver('mini', files)
        rt.mini = d, ns
    return rt.mini


def explore(rt, c, module, confs):
    """Runs TLC once per configuration; the lists of what it printed."""
    d, ns = _mini(rt)

    def one(a):
        i, cf = a
        cf = dict(dict(nses=1, ops=FULL, tight=0, print=1, slack=[4000]), **cf)
        cf['types'] = [d.idx(ns[k]) + 1 for k in cf['types']]
        path = os.path.join(core.scratch(), f'{module}-{i}.json')
        with open(path, 'w') as fo:
            json.dump(cf, fo)
        rc, out = core.tlc(module, env=dict(PB_SCHEMA=d.schema_path, PB_MODEL=path), stack='200m')
        if rc != 0:
            raise core.Machinery(f'{module}: the specification breaks its own properties:\n' + out[-3000:])
        return [json.loads(json.loads(ln)) for ln in out.split('\n') if ln.startswith('"[')], core.tlc_stats(out)
    res = core.pmap(one, list(enumerate(confs)))
    name = {'PbModel': 'model', 'PbWires': 'inputs'}[module]
    c.count(name + '_states', sum(s[1] for _, s in res))
    c.count(name + '_transitions', sum(s[0] for _, s in res))
    return [x for x, _ in res]


def script(h, d, rng, fill=None, mis=0):
    """A history printed by PbModel as a driver script."""
    ls = []
    path = lambda p: '/'.join(f'{a}:{b}' for a, b in p) or '-'
    for e in h:
        op, a = e[0], e[1:]
        if op == 'ws':
            for i, size in enumerate(a[0]):
                ls.append(f'ws {i} {size} {mis} {rng.choice([1, 2, 4]) if fill is None else fill}')
        elif op == 'new':
            ls.append(f'new {a[0]} {a[1] - 1}')
        elif op == 'enc':
            ls.append(f'enc {a[0]} {a[1]}')
        elif op == 'dec':
            ls.append(f'dec {a[0]} {sc.hexs(a[1])}')
        else:
            ls.append(' '.join([op, str(a[0]), path(a[1])] + [sc.vtext(x) for x in a[2:]]))
    return ls


def sample(rng, xs, n):
    return xs if n is None or len(xs) <= n else rng.sample(xs, n)


def q(a, b):
    return a if core.quick() else b


MODES = {
    # mode: (configurations quick, further ones thorough, histories replayed quick)
    'tight': ([dict(types=['ma'], slack=[0, 40], depth=3, ops=['alloc', 'sel', 'odd', 'dec'], tight=1),
               dict(types=['mb'], slack=[17], depth=3, ops=['alloc', 'sel', 'odd', 'dec'], tight=1),
               dict(types=['mr'], slack=[40, 100], depth=3, ops=['alloc', 'odd', 'dec'], tight=1),
               dict(types=['mc', 'leaf'], slack=[24], depth=3, ops=['alloc', 'new', 'dec'], tight=1)],
              [dict(types=['ma'], slack=[0, 24, 40, 64], depth=5, ops=['alloc', 'sel', 'odd', 'dec'], tight=1),
               dict(types=['mb'], slack=[1, 17, 33, 60], depth=5, ops=['alloc', 'sel', 'odd', 'dec'], tight=1),
               dict(types=['mr'], slack=[40, 56, 100], depth=4, ops=['alloc', 'odd', 'dec'], tight=1),
               dict(types=['mo', 'leaf'], slack=[0, 20, 60], depth=4, ops=['alloc', 'sel', 'new', 'dec'], tight=1)]),
    'dirty': ([dict(types=['ma', 'leaf'], depth=3, ops=['new', 'alloc', 'sel', 'dec']),
               dict(types=['mb', 'mo'], depth=3, ops=['new', 'alloc', 'sel', 'dec', 'set']),
               dict(types=['mc', 'mp'], depth=3, ops=['new', 'alloc', 'set', 'dec'])],
              [dict(types=['ma', 'leaf'], depth=5, ops=['new', 'alloc', 'sel', 'dec']),
               dict(types=['mb', 'mo'], depth=4, ops=['new', 'alloc', 'sel', 'dec', 'set']),
               dict(types=['mr', 'mp'], depth=4, ops=['new', 'alloc', 'set', 'dec'])]),
    'oneof': ([dict(types=['mo'], depth=4, ops=['sel', 'set', 'dec']),
               dict(types=['ma'], depth=3, ops=['sel', 'set', 'enc', 'dec'])],
              [dict(types=['mo'], depth=5, ops=['sel', 'set', 'dec', 'enc']),
               dict(types=['ma'], depth=5, ops=['sel', 'set', 'enc', 'dec'])]),
    'optional': ([dict(types=['mp'], depth=3, ops=['set', 'dec', 'enc']),
                  dict(types=['mc'], depth=3, ops=['set', 'dec', 'enc', 'alloc'])],
                 [dict(types=['mp'], depth=4, ops=['set', 'dec', 'enc']),
                  dict(types=['mc'], depth=5, ops=['set', 'dec', 'enc', 'alloc']),
                  dict(types=['mb'], depth=4, ops=['set', 'dec', 'alloc'])]),
    'pair': ([dict(types=['leaf'], nses=2, depth=5, ops=['set', 'enc', 'dec']),
              dict(types=['mc'], nses=2, depth=3, ops=['alloc', 'enc', 'dec'])],
             [dict(types=['leaf'], nses=2, depth=6, ops=['set', 'enc', 'dec', 'new']),
              dict(types=['ma'], nses=2, depth=4, ops=['alloc', 'sel', 'dec']),
              dict(types=['mr'], nses=2, depth=4, ops=['alloc', 'dec', 'set'])]),
    'all': ([dict(types=['ma'], depth=3), dict(types=['mb'], depth=3), dict(types=['mr'], depth=3)],
            [dict(types=['ma'], depth=5), dict(types=['mb'], depth=4), dict(types=['mr'], depth=4),
             dict(types=['mc'], depth=5), dict(types=['mo'], depth=5), dict(types=['mp'], depth=4)]),
    'values': ([dict(types=[k], depth=n, ops=['set', 'alloc', 'sel'])
                for k, n in (('ma', 4), ('mb', 4), ('mc', 4), ('mo', 3), ('mr', 3))],
               [dict(types=[k], depth=n, ops=['set', 'alloc', 'sel'])
                for k, n in (('ma', 6), ('mb', 5), ('mc', 6), ('mo', 5), ('mr', 5), ('mp', 5))]),
}


def histories(rt, c, mode, limit=900):
    d, ns = _mini(rt)
    rng = random.Random(f'{core.SEED}-{mode}')
    quick, deep = MODES[mode]
    tight = any(cf.get('tight') for cf in quick)
    scripts = []
    for hs in explore(rt, c, 'PbModel', q(quick, quick + deep)):
        for h in sample(rng, hs, q(limit // len(quick), None)):
            ls = script(h, d, rng, mis=0 if tight else rng.choice([0, 0, 3, 8]))
            if mode == 'pair':
                ls += [f'{op} {s}{x}' for s in (0, 1) for op, x in (('dump', ''), ('enc', ' 900'))]
            elif not tight:
                m = next(e[2] for e in reversed(h) if e[0] == 'new') - 1 if len(h) > 1 else None
                ls += ['dump 0', 'enc 0 900']
                if m is not None:
                    ls += ['ws 1 9000 1 2', f'new 1 {m}', 'redec 1 0']
            else:
                ls += ['dump 0']
            scripts.append(ls)
    rt.add(d, 'model-' + mode, scripts)


def model_values(rt, c, mode):
    """Every value the model reaches, through the real encoder and back."""
    histories(rt, c, 'values', 1200)


WIRE_TYPES = ('ma', 'mb', 'mc', 'mo', 'mp', 'mr')


def wires(rt, c, valid, tight=False):
    """valid: inputs all of whose pieces are valid; otherwise those that end
    with a malformed one.  tight: all, in workspaces around what they need."""
    d, ns = _mini(rt)
    rng = random.Random(f'{core.SEED}-wires-{valid}-{tight}')
    confs = [dict(types=[k], depth=2) for k in WIRE_TYPES] if core.quick() else \
        [dict(types=[k], depth=3) for k in ('ma', 'mb', 'mc', 'mr')] + [dict(types=[k], depth=2) for k in ('mo', 'mp')]
    scripts = []
    for ws in explore(rt, c, 'PbWires', confs):
        if tight:
            for m, w, ok, e, need in sample(rng, ws, q(110, 3000)):
                msg = d.msgs[m - 1]
                # (need is what an implementation without waste uses; PbTrace judges by bounds)
                top = max(need, 0) if need >= 0 else 200
                scripts.append([x for dx in (-9, -1, 0, 1, 8, 64)
                                for x in fresh_lines(d, 0, msg, max(0, top + dx), 0, rng.choice([1, 2])) + [f'dec 0 {sc.hexs(w)}']])
        else:
            pick = [x for x in ws if (x[2] == 1) == valid]
            for m, w, ok, e, need in sample(rng, pick, q(260, 12000)):
                scripts.append(fresh_lines(d, 0, d.msgs[m - 1], 4000, rng.choice([0, 3, 8]), rng.choice([1, 2, 4]))
                               + [f'dec 0 {sc.hexs(w)}'] + (['enc 0 900'] if valid else []))
    rt.add(d, 'generated-inputs', scripts)
