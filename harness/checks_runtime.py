"""The checks of the C runtime and the generated message code (C01-C13)."""
import random

from . import core, schemas, suites, schema as sc, gen
from .core import Check, quick
from .runtime import (Runtime, room, enc_room, build_lines, fresh_lines, roundtrip, decode, nums)
from .schema import rand_msg, rand_wire, default_msg, hexs, tag, varint

MEM = {'mem.bounds', 'mem.align', 'mem.overlap', 'mem.external', 'mem.size'}

ASSUME = ['TLC and the TLA+ specification in spec/ are the oracle; the driver only records',
          'x86-64 Linux, gcc, ASan and UBSan as the observer of memory faults',
          'schemas are limited to what the harness can describe (spec/PbSchema.tla)']


def setup(pid):
    c = Check(pid)
    c.assumptions += ASSUME
    return c, Runtime(c)


# how the code is compiled: (field kinds, Driver arguments)
VARIANTS = [
    (None, {}),
    (None, dict(cc='clang', flags=tuple(core.ASAN[:1]) + ('-fno-sanitize=alignment,nonnull-attribute,pointer-overflow,function',
                                                         '-fno-sanitize-recover=undefined', '-O2', '-g', '-funsigned-char'))),
    ([k for k in schemas.KINDS if k not in ('float', 'double')], dict(flags=tuple(core.ASAN) + ('-DPBTOOLS_CONFIG_FLOAT=0',))),
    (None, dict(flags=('-O3', '-g', '-fstack-protector-all', '-D_FORTIFY_SOURCE=3'))),
    (None, dict(cc='clang', flags=('-fsanitize=memory', '-fno-omit-frame-pointer', '-O1', '-g'))),
]


def corpus(rt, nrandom=None):
    """[(driver, [messages that can be top level], all named)]."""
    files, ns = schemas.core()
    d = rt.driver('core', files)
    out = [(d, list(ns.values()), ns)]
    n = nrandom if nrandom is not None else (5 if quick() else 15)

    def one(i):
        rng = random.Random(f'{core.SEED}-{rt.check.pid}-{i}')
        kinds, kw = VARIANTS[(i + int(rt.check.pid[1:])) % len(VARIANTS)]
        fs, ms = schemas.random_files(rng, rng.choice([3, 5, 8]), name=f'rnd{i}', kinds=kinds)
        return rt.driver(f'rnd{i}', fs, **kw), ms, {}
    out += core.pmap(one, list(range(n)))
    rt.check.count('schemas', len(out))
    return out


def q(a, b):
    """How many: a in quick, of which the larger samples can grow (DEEP), b in thorough."""
    return core.sample(a, b)


# sizes that do not fit in an int, some of which look small if truncated
HUGE = [2**31 - 1, 2**31, 2**31 + 7, 2**31 + 4096, 2**32 - 1, 2**32, 2**32 + 3, 2**32 + 30, 2**32 + 200, 2**33]


def huge_buffers(rng, d, ns, n):
    """Encoding into buffers larger than an int can count."""
    out = []
    for k in rng.sample(['sing', 'rep', 'opt', 'one', 'maps', 'nest', 'mixed', 'empty'], n):
        v = suites.some_msg(ns[k])
        out += [build_lines(d, 0, ns[k], v) + [f'enc 0 {size}'] for size in rng.sample(HUGE, n)]
    return out


def huge_fields(rng, d, ns, n):
    """Encoding strings and bytes that no int can count into small buffers."""
    out = []
    for k, label in (('sing', 's'), ('opt', 'o'), ('rep', 'r')):
        m = ns[k]
        for i, f in enumerate(m.fields):
            if f.kind not in ('string', 'bytes') or f.label != label:
                continue
            for size in rng.sample([2**31, 2**31 + 5, 2**31 + 2**20, 2**32 - 1, 2**32, 2**32 + 5, 2**32 + 100], n):
                ls = fresh_lines(d, 0, m, 5000)
                if label == 'r':
                    v = default_msg(m)
                    v[i] = [[], []]
                    ls = build_lines(d, 0, m, v)
                out.append(ls + [f'encover 0 - {i + 1} {size} {rng.choice([0, 3, 11, 12, 300])}'])
    return out


def huge_inputs(rng, d, ns, n):
    out = []
    for k in rng.sample(['sing', 'rep', 'opt', 'one', 'maps', 'nest', 'mixed', 'empty'], n):
        w = rand_wire(rng, ns[k], 1, 0, 0)[:100]
        out += [fresh_lines(d, 0, ns[k], 60000) + [f'dechuge 0 {size} {hexs(w)}'] for size in [2**31] + rng.sample(HUGE, n)]
    return out


def huge_workspaces(rng, d, ns, n):
    out = []
    for k in rng.sample(['sing', 'rep', 'opt', 'one', 'maps', 'nest', 'mixed', 'empty', 'imp'], n):
        m = ns[k]
        for size in rng.sample(HUGE, n) + [2**27 - 1, 2**27 + 1]:
            ls = fresh_lines(d, 0, m, size, 0, 0)
            for i, f in enumerate(m.fields):
                if f.label in 'rm' and rng.random() < 0.5:
                    isz = d.info['msgs'][d.idx(m)]['isz'][i]
                    for x in (2**31 - 1, 2**30 + 5):
                        if isz * x > size * 1.6:
                            ls.append(f'alloc 0 - {i + 1} {x}')
                    ls.append(f'alloc 0 - {i + 1} {rng.choice([1, 2, 5])}')
                elif f.label == 's' and f.kind == 'message':
                    ls.append(f'alloc 0 - {i + 1} -9')
            w = rand_wire(rng, m, 2, 0, 0)
            out.append(ls + ['enc 0 5000', 'dec 0 ' + hexs(w if len(w) < 300 else [])])
    return out


# ------------------------------------------------------------------ C01, C02

def encodable(rt, rng, per_random):
    """(driver, message, value) covering the value space."""
    out = []
    for d, ms, ns in corpus(rt):
        if ns:
            for k in ('sing', 'rep', 'opt', 'one', 'two', 'maps', 'tags', 'wide', 'mixed', 'imp', 'lib', 'empty', 'bare'):
                out += [(d, ns[k], v) for v in suites.matrix_values(ns[k])]
            out += [(d, m, v) for m, v in suites.big_values(ns, quick())]
            add_runs(rt, rt.check, d, ns)
        tops = [m for m in ms if m.parent is None]
        out += [(d, m, v) for m, v in suites.rand_values(rng, tops, per_random if ns else per_random // 3)]
    return out


def add_runs(rt, c, d, ns, n=None, lists=False):
    """Fields with runs of bytes and elements too long for explicit values."""
    rt.add(d, 'runs', suites.long_runs(c.rng, d, ns, n or q(36, 250), q(1, 6), lists))


def by_driver(items):
    out = {}
    for d, x in items:
        out.setdefault(d, []).append(x)
    return out.items()


def c01():
    c, rt = setup('C01')
    items = encodable(rt, c.rng, q(160, 4000))
    for d, xs in by_driver([(d, roundtrip(d, m, v, mis=c.rng.choice([0, 0, 1, 3, 5, 8])))
                            for d, m, v in items]):
        rt.add(d, 'roundtrip', xs)
    gen.model_values(rt, c, 'roundtrip')
    rt.judge({'rt.value', 'build.value', 'alloc.fails', 'dec.rejects', 'dec.memory', 'dec.length',
              'dec.value', 'enc.fails', 'new.fails'})
    return c.finish()


def c02():
    c, rt = setup('C02')
    items = encodable(rt, c.rng, q(200, 4000))
    scripts = []
    for i, (d, m, v) in enumerate(items):
        ls = build_lines(d, 0, m, v, fill=i % 3) + [f'enc 0 {enc_room(v)}']
        if i % 3 == 0:
            # the same value in another workspace and a tighter buffer: same bytes
            ls += build_lines(d, 1, m, v, mis=5, fill=1) + [f'enc 1 {enc_room(v) + 77}']
        scripts.append((d, ls))
    for d, xs in by_driver(scripts):
        rt.add(d, 'encode', xs)
    gen.model_values(rt, c, 'encode')
    rt.judge({'enc.bytes', 'enc.length', 'enc.fails'})
    return c.finish()


# ------------------------------------------------------------------ C03, C04

def c03():
    c, rt = setup('C03')
    rng = c.rng
    for d, ms, ns in corpus(rt):
        scripts = []
        for i in range(q(420 if ns else 120, 6000 if ns else 1500)):
            m = rng.choice([m for m in ms if m.parent is None])
            w = rand_wire(rng, m, depth=rng.choice([1, 2, 3]), noise=0.2,
                          dup=rng.choice([0.1, 0.5]), pad=rng.choice([0, 0.2, 0.6]))
            if len(w) > q(700, 3000):
                continue
            scripts.append(decode(d, m, w, mis=rng.choice([0, 0, 1, 4])))
        rt.add(d, 'valid', scripts)
        if ns:
            rt.add(d, 'last-wins', [decode(d, m, w) for m, w in last_wins(rng, ns, q(120, 1200))])
            rt.add(d, 'repeated-forms', [decode(d, m, w) for m, w in repeated_forms(rng, ns, q(150, 1500))])
            rt.add(d, 'long', [decode(d, m, w, n) for m, w, n in suites.long_wires(ns, quick())])
            add_runs(rt, c, d, ns)
            rt.add(d, 'varint-bits', [decode(d, m, w) for m, w in varint_bits(rng, ns, q(3, 1))])
    gen.wires(rt, c, valid=True)
    rt.judge({'dec.value', 'dec.rejects', 'dec.length', 'dec.memory', 'dec.code'})
    return c.finish()


def last_wins(rng, ns, n):
    """Singular fields that occur several times, the last time with any value
    including the default."""
    out = []
    for i in range(n):
        m = ns[rng.choice(['sing', 'opt', 'one', 'two', 'nest', 'mixed', 'rec'])]
        f = rng.choice([f for f in m.allfields() if f.label in 'sou'])
        w = []
        for _ in range(rng.choice([2, 2, 3])):
            if f.kind == 'message':
                b = rand_wire(rng, f.ref, 1, 0, 0)
                b = rng.choice([b, [], b])
                w += tag(f.num, 2) + varint(len(b)) + b
            elif sc.wire_type(f.kind) == 2:
                b = rng.choice([[], [65], [66, 67], [0x21] * 130])
                w += tag(f.num, 2) + varint(len(b)) + b
            else:
                x = rng.choice([[0] * sc.ssize(f.kind)] + sc.interesting(f.kind))
                w += tag(f.num, sc.wire_type(f.kind)) + sc.payload(rng, f, x)
            if rng.random() < 0.3:
                w += sc.noise_field(rng, {g.num for g in m.allfields()})
        out.append((m, w))
    return out


def repeated_forms(rng, ns, n):
    """Repeated scalars as any mix of packed and unpacked pieces, possibly
    empty, interleaved with other fields."""
    out = []
    m = ns['rep']
    sf = [f for f in m.fields if sc.wire_type(f.kind) != 2]
    for i in range(n):
        f = sf[i % len(sf)]
        g = rng.choice(m.fields)
        w = []
        for _ in range(rng.randrange(1, 6)):
            r = rng.random()
            if r < 0.4:
                w += tag(f.num, sc.wire_type(f.kind)) + sc.payload(rng, f, sc.rand_value(rng, f))
            elif r < 0.8:
                b = [x for _ in range(rng.choice([0, 0, 1, 2, 3, 20]))
                     for x in sc.payload(rng, f, sc.rand_value(rng, f), rng.choice([0, 0, 1]))]
                w += tag(f.num, 2) + varint(len(b)) + b
            elif r < 0.9:
                w += sc.noise_field(rng, {x.num for x in m.fields})
            elif sc.wire_type(g.kind) == 2:
                b = [] if g.kind == 'message' else [65] * rng.randrange(3)
                w += tag(g.num, 2) + varint(len(b)) + b
            else:
                w += tag(g.num, sc.wire_type(g.kind)) + sc.payload(rng, g, sc.rand_value(rng, g))
        out.append((m, w))
    return out


def varint_bits(rng, ns, step):
    """Every single bit of a varint and all-ones patterns, for every varint
    kind and label: what the upper bits mean differs per kind."""
    out = []
    for k in ('sing', 'rep', 'opt', 'one'):
        m = ns[k]
        for f in m.allfields():
            if sc.wire_type(f.kind) != 0:
                continue
            for b in range(rng.randrange(step), 64, step):
                for x in ((1 << b), (1 << 64) - (1 << b), (1 << b) - 1):
                    v = varint(x, rng.choice([0, 0, 1]))
                    if f.label == 'r' and b % 2:
                        out.append((m, tag(f.num, 2) + varint(len(v)) + v))
                    else:
                        out.append((m, tag(f.num, 0) + v))
    # many small inputs: join them where the label allows
    joined, by = [], {}
    for m, w in out:
        by.setdefault(id(m), (m, []))[1].append(w)
    for m, ws in by.values():
        if m is ns['one']:
            joined += [(m, w) for w in ws]
        elif m is ns['rep']:
            joined += [(m, [x for w in ws[i:i + 12] for x in w]) for i in range(0, len(ws), 12)]
        else:
            # one value per field per input
            per = {}
            for w in ws:
                per.setdefault(w[0] if w[0] < 128 else (w[0], w[1]), []).append(w)
            n = max(len(x) for x in per.values())
            joined += [(m, [b for x in per.values() for b in x[i % len(x)]]) for i in range(n)]
    return joined


ERRORS = {0: 'Ok', 1: 'Bad wire type', 2: 'Out of data', 3: 'Out of memory', 4: 'Encode buffer full',
          5: 'Bad field number', 6: 'Varint overflow', 7: 'Seek overflow', 8: 'Length delimited overflow'}


def error_texts(c, d):
    """Every code, with either sign, has its text (the table is part of the
    specification's error codes, PbBytes)."""
    for i in range(-10, 11):
        got = d.info['errors'][i + 10]
        want = ERRORS.get(abs(i))
        c.count('error_texts')
        if (want is None and got in ERRORS.values()) or (want is not None and got.lower() != want.lower()):
            c.violation(f'C04: text of error code {i} is "{got}"', dict(code=i, text=got))


def c04():
    c, rt = setup('C04')
    rng = c.rng
    for d, ms, ns in corpus(rt, q(1, 8)):
        if ns:
            error_texts(c, d)
            scripts = []
            for k in ('sing', 'rep', 'opt', 'one', 'maps', 'imp', 'rec', 'nest', 'tags'):
                for w in suites.malformed_inputs(rng, ns[k], q(7 if k != 'rep' else 14, None)):
                    scripts.append(decode(d, ns[k], w))
            rt.add(d, 'malformed', scripts)
        tops = [m for m in ms if m.parent is None]
        scripts = []
        for i in range(q(12 if ns else 4, 150)):
            # every prefix of a valid input
            m = rng.choice(tops)
            w = rand_wire(rng, m, 2, 0.2, 0.2, 0.1, 2)[:q(60, 120)]
            scripts += [decode(d, m, w[:j]) for j in range(len(w))]
        rt.add(d, 'prefixes', scripts)
        scripts = []
        for i in range(q(350 if ns else 120, 5000)):
            m = rng.choice(tops)
            w = suites.mutate(rng, rand_wire(rng, m, 2, 0.2, 0.2, 0.1, 2)[:q(200, 600)])
            scripts.append(decode(d, m, w))
        rt.add(d, 'mutated', scripts)
        if ns:
            rt.add(d, 'huge', huge_inputs(rng, d, ns, q(3, 8)))
    gen.wires(rt, c, valid=False)
    rt.judge({'dec.accepts', 'dec.code', 'dec.rejects'})
    return c.finish()


# ------------------------------------------------------------------ C05

def hostile(rng, m):
    r = rng.random()
    if r < 0.3:
        return [rng.randrange(256) for _ in range(rng.randrange(0, 40))]
    if r < 0.6:
        return suites.mutate(rng, rand_wire(rng, m, 2, 0.2, 0.3, 0.1, 3)[:200])
    if r < 0.7:
        return rand_wire(rng, m, 2, 0.2, 0.3, 0.1, 3)[:200]
    ins = suites.malformed_payloads(rng.choice(m.allfields())) if m.allfields() else [(0, [])]
    out = []
    for _ in range(rng.choice([1, 2, 3])):
        if m.allfields():
            f = rng.choice(m.allfields())
            wt, p = rng.choice(ins)
            if rng.random() < 0.5:
                wt = rng.choice([sc.wire_type(f.kind), 2])
            out += tag(f.num, wt) + p
    return out


def c05():
    c, rt = setup('C05')
    rng = c.rng
    for d, ms, ns in corpus(rt, q(2, 10)):
        tops = [m for m in ms if m.parent is None]
        scripts = []
        for i in range(q(600 if ns else 200, 9000)):
            m = rng.choice(tops)
            w = hostile(rng, m)
            msz = d.info['msgs'][d.idx(m)]['size'] + d.info['heap']
            size = rng.choice([65536, msz + rng.randrange(0, 40), msz + rng.randrange(0, 400), msz + 8 * rng.randrange(0, 60),
                               rng.randrange(0, msz + 20)])
            scripts.append(decode(d, m, w, size, rng.randrange(0, 16), rng.choice([1, 2, 4])))
        rt.add(d, 'hostile', scripts)
        if ns:
            rt.add(d, 'huge', huge_inputs(rng, d, ns, q(2, 8)))
        # huge lengths together with items that were already counted
        scripts = []
        for m in tops:
            for f in m.allfields():
                if f.label not in 'rm':
                    continue
                wt = sc.wire_type('message' if f.label == 'm' else f.kind)
                one = tag(f.num, wt) + ([0] if wt in (0, 2) else [7] * (8 if wt == 1 else 4))
                for n in rng.sample([2**31 - 2, 2**31 - 4, 2**31 - 8, 2**30, 2**29, 2**28, 2**31 - 1, 2**31, 2**32,
                                     2**62, 2**63, 2**64 - 4], q(3, 12)):
                    for pre in ([], one, one + one):
                        w = pre + tag(f.num, 2) + varint(n) + [1] * rng.choice([0, 4, 8, 9])
                        scripts.append(decode(d, m, w, rng.choice([4096, 65536])))
        rng.shuffle(scripts)
        rt.add(d, 'huge-lengths', scripts[:q(400 if ns else 60, 3000)])
        # short repeated pieces, mostly malformed, in workspaces that end right
        # behind the array
        scripts = []
        for i in range(q(90 if ns else 25, 1200)):
            m = rng.choice([m for m in tops if any(f.label in 'rm' for f in m.fields)] or tops)
            fs = [f for f in m.fields if f.label in 'rm'] or m.allfields()
            if not fs:
                continue
            f = rng.choice(fs)
            wt = sc.wire_type('message' if f.label == 'm' else f.kind)
            w = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                if rng.random() < 0.4:
                    w += tag(f.num, wt) + ([0] if wt in (0, 2) else [7] * (8 if wt == 1 else 4))
                else:
                    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17])
                    w += tag(f.num, 2) + varint(n) + [rng.choice([1, 1, 2, 0x80]) for _ in range(n)]
            msz = d.info['msgs'][d.idx(m)]['size'] + d.info['heap']
            ls = []
            for size in range(msz + rng.randrange(4), msz + 72, 4):
                ls += decode(d, m, w, size, 0, 1)
            scripts.append(ls)
        rt.add(d, 'tight-arrays', scripts)
        # every workspace size around what the input needs
        scripts = []
        for i in range(q(8 if ns else 3, 60)):
            m = rng.choice(tops)
            w = rand_wire(rng, m, 2, 0.1, 0.2, 0.05, 3)[:120]
            msz = d.info['msgs'][d.idx(m)]['size'] + d.info['heap']
            mis = rng.randrange(0, 16)
            top = min(msz + 400, 900)
            for size in range(max(0, msz - 3), top, q(7, 1)):
                scripts.append(decode(d, m, w, size + rng.randrange(q(7, 1)), mis, 1))
        rt.add(d, 'workspace-sweep', scripts)
    gen.wires(rt, c, valid=False, tight=True)
    rt.judge(MEM | {'dec.input'})
    return c.finish()


# ------------------------------------------------------------------ C06

def c06():
    c, rt = setup('C06')
    rng = c.rng
    for d, ms, ns in corpus(rt):
        tops = [m for m in ms if m.parent is None]
        scripts = []
        vals = []
        if ns:
            # the shortest possible and boundary contents of each construct
            for k in ('sing', 'rep', 'opt', 'one', 'two', 'maps', 'imp', 'empty', 'rec', 'tags', 'nest', 'mixed'):
                m = ns[k]
                for j, f in enumerate(m.allfields()):
                    v = default_msg(m)
                    if j < len(m.fields):
                        x = suites.some_msg(m)[j] if f.label != 'r' else suites.some_msg(m)[j] * 2
                        v[j] = x
                    else:
                        for o, (_, fs) in enumerate(m.oneofs):
                            if f in fs:
                                v[len(m.fields) + o] = [fs.index(f) + 1, default_msg(f.ref) if f.kind == 'message'
                                                        else sc.interesting(f.kind)[rng.choice([0, 1])]]
                    vals.append((m, v))
            vals = rng.sample(vals, q(90, len(vals)))
            vals += [(ns['empty'], [])]
        for _ in range(q(60 if ns else 25, 700)):
            m = rng.choice(tops)
            vals.append((m, rand_msg(rng, m, 2, 0.0, 2, rng.choice([0.15, 0.3, 0.6]))))
        for m, v in vals:
            if nums(v) > 260:
                continue
            scripts.append(build_lines(d, 0, m, v, rng.randrange(0, 16)) + [f'encall 0 {enc_room(v)}'])
        scripts = [s for s in scripts if len(s[2]) < q(330, 1200)]
        rt.add(d, 'all-sizes', scripts)
        if ns:
            scripts = []
            for m, v in suites.big_values(ns, quick()):
                ls = build_lines(d, 0, m, v) + [f'enc 0 {enc_room(v)}']
                ls += [f'enc 0 {rng.randrange(0, nums(v) + 20)}' for _ in range(3)]
                scripts.append(ls)
            rt.add(d, 'big', scripts)
            rt.add(d, 'huge', huge_buffers(rng, d, ns, q(3, 8)) + huge_fields(rng, d, ns, q(3, 7)))
            add_runs(rt, c, d, ns)
    rt.judge({'enc.fails', 'enc.overfull', 'enc.code', 'enc.length', 'enc.bytes'})
    return c.finish()


# ------------------------------------------------------------------ C07, C08

def alloc_script(rng, d, m, size, mis, hostile_len=0.25, nops=6):
    """Allocations of all kinds until the workspace is full."""
    h = suites.Hist(rng, d, m)
    ls = fresh_lines(d, 0, m, size, mis, rng.choice([0, 1, 2, 4]))
    for _ in range(nops):
        p, mm, v = h.pick()
        opts = [i for i, f in enumerate(mm.fields) if f.label in 'rm' or f.kind == 'message']
        if mm.oneofs and rng.random() < 0.25:
            h.edit()
            continue
        if not opts:
            h.edit()
            continue
        i = rng.choice(opts)
        f = mm.fields[i]
        if f.label == 's':
            h.cmd(f'alloc 0 {p} {i + 1} -9')
            v[i] = [default_msg(f.ref)]
        else:
            if rng.random() < hostile_len:
                n = rng.choice([-1, -2, -1000, -2**31, 2**31 - 1, 2**30, 2**29, 2**28, 2**27 + 1, 2**31 - 8,
                                1 << 26, 178956971, 134217728, 89478486, 76695845, 67108864, 53687092])
                h.cmd(f'alloc 0 {p} {i + 1} {n}')
            else:
                n = rng.choice([0, 1, 1, 2, 3, 5, 9])
                h.cmd(f'alloc 0 {p} {i + 1} {n}')
                # it may not fit: descend into elements only if it surely does
                v[i] = []
                if size > 60000 and (f.kind == 'message' or f.label == 'm'):
                    v[i] = [default_msg(f.entry or f.ref) for _ in range(n)]
        if rng.random() < 0.25:
            h.edit()
    return ls + h.lines


def c07():
    c, rt = setup('C07')
    rng = c.rng
    known = core.known_findings('C07')
    for d, ms, ns in corpus(rt):
        tops = [m for m in ms if m.parent is None]
        scripts = []
        for i in range(q(450 if ns else 120, 6000)):
            m = rng.choice(tops)
            msz = d.info['msgs'][d.idx(m)]['size'] + d.info['heap']
            size = rng.choice([100000, msz + rng.randrange(0, 64), msz + rng.randrange(0, 500)])
            scripts.append(alloc_script(rng, d, m, size, rng.randrange(0, 32)))
        rt.add(d, 'allocations', scripts)
        scripts = []
        # message creation at every size around the exact fit and every base
        for m in (tops if not quick() else rng.sample(tops, min(6, len(tops)))):
            msz = d.info['msgs'][d.idx(m)]['size'] + d.info['heap']
            for mis in range(0, 17):
                scripts.append([x for size in [0, 1, 7, 8, 15, 16, 17] + list(range(max(0, msz - 9), msz + 18, q(2, 1)))
                                for x in fresh_lines(d, 0, m, size, mis, 2)])
        rt.add(d, 'new', scripts)
        scripts = []
        # decoding that just fits or just does not
        for i in range(q(12 if ns else 4, 80)):
            m = rng.choice(tops)
            w = rand_wire(rng, m, 2, 0.1, 0.2, 0.05, 3)[:150]
            msz = d.info['msgs'][d.idx(m)]['size'] + d.info['heap']
            for size in range(msz, msz + 700, q(23, 4)):
                scripts.append(decode(d, m, w, size + rng.randrange(q(23, 4)), rng.randrange(0, 16), 1))
        rt.add(d, 'decode-fit', scripts)
        if ns:
            rt.add(d, 'huge', huge_workspaces(rng, d, ns, q(4, 9)))
    gen.histories(rt, c, 'tight')
    rt.judge(MEM | {'alloc.fails', 'alloc.toosmall', 'alloc.code', 'alloc.damage', 'new.fails', 'new.toosmall',
                    'dec.nospace', 'dec.memory', 'sel.damage', 'sel.wild'}, known)
    return c.finish()


def c08():
    c, rt = setup('C08')
    rng = c.rng
    for d, ms, ns in corpus(rt):
        tops = [m for m in ms if m.parent is None]
        scripts = []
        for m in tops:
            for fill in (1, 2, 4):
                # new, encode the untouched message, allocate everything
                size = 60000
                ls = fresh_lines(d, 0, m, size, rng.randrange(0, 9), fill) + ['enc 0 100']
                for i, f in enumerate(m.fields):
                    if f.label in 'rm':
                        ls.append(f'alloc 0 - {i + 1} {rng.choice([1, 2, 3])}')
                    elif f.kind == 'message':
                        ls.append(f'alloc 0 - {i + 1} -9')
                for o, (_, fs) in enumerate(m.oneofs):
                    for j in rng.sample(range(len(fs)), min(len(fs), 3)):
                        ls.append(f'sel 0 - {o + 1} {j + 1}')
                ls.append('enc 0 5000')
                scripts.append(ls)
        for i in range(q(160 if ns else 60, 2500)):
            # a workspace that held another message before
            m, m2 = rng.choice(tops), rng.choice(tops)
            v = rand_msg(rng, m, 2, 0.01, 3, 0.8)
            size = room(v) + 20000
            ls = build_lines(d, 0, m, v, fill=rng.choice([1, 2]), size=size) + [f'enc 0 {enc_room(v)}']
            if rng.random() < 0.5:
                ls.append('dec 0 ' + hexs(rand_wire(rng, m, 2, 0.1, 0.2)[:150]))
            ls += [f'new 0 {d.idx(m2)}', 'enc 0 50']
            w = rand_wire(rng, m2, 2, 0.1, 0.2)[:150]
            if rng.random() < 0.6:
                ls.append('dec 0 ' + hexs(w))
            else:
                h = suites.Hist(rng, d, m2)
                for _ in range(6):
                    h.edit()
                ls += h.lines + ['enc 0 5000']
            scripts.append(ls)
        for i in range(q(160 if ns else 60, 2500)):
            # decode into dirty memory: sub-messages and elements start at defaults too
            m = rng.choice(tops)
            w = rand_wire(rng, m, 3, 0.1, 0.2)[:250]
            scripts.append(decode(d, m, w, 60000, rng.randrange(0, 9), rng.choice([1, 2, 4])))
        if ns:
            # long lists of elements that are all at their defaults
            add_runs(rt, c, d, ns, lists=True)
            for m in tops:
                for i, f in enumerate(m.fields):
                    if f.label in 'rm' and rng.random() < 0.5:
                        n = rng.choice([5, 7, 9, 17, 31, 33, 65, 100, 129])
                        scripts.append(fresh_lines(d, 0, m, 60000, rng.randrange(0, 9), 2) + [f'alloc 0 - {i + 1} {n}'])
        rt.add(d, 'dirty', scripts)
    gen.histories(rt, c, 'dirty')
    rt.judge({'new.default', 'alloc.value', 'sel.value', 'dec.value', 'build.value', 'enc.bytes', 'enc.length'})
    return c.finish()


# ------------------------------------------------------------------ C09, C10

HIST = {'set.value', 'alloc.value', 'sel.value', 'dump.value', 'build.value', 'new.default', 'enc.bytes',
        'enc.length', 'enc.fails', 'enc.pure', 'dec.value', 'dec.rejects', 'dec.length', 'dec.memory', 'rt.value',
        'alloc.fails', 'alloc.damage'}


def member_chunk(rng, f, zero=False):
    if f.kind == 'message':
        b = [] if zero else rand_wire(rng, f.ref, 1, 0.1, 0.1)
        return tag(f.num, 2) + varint(len(b)) + b
    if sc.wire_type(f.kind) == 2:
        b = [] if zero else [65 + rng.randrange(20) for _ in range(rng.randrange(4))]
        return tag(f.num, 2) + varint(len(b)) + b
    x = [0] * sc.ssize(f.kind) if zero else rng.choice(sc.interesting(f.kind))
    return tag(f.num, sc.wire_type(f.kind)) + sc.payload(rng, f, x)


def c09():
    c, rt = setup('C09')
    rng = c.rng
    for d, ms, ns in corpus(rt, q(3, 12)):
        tops = [m for m in ms if m.parent is None and m.oneofs]
        if not tops:
            continue
        scripts = []
        for m in tops:
            # every member, at its default and other values, in and out
            for o, (_, fs) in enumerate(m.oneofs):
                for j, f in enumerate(fs):
                    scripts.append(fresh_lines(d, 0, m, 8000, 0, 2) + [f'sel 0 - {o + 1} {j + 1}', 'enc 0 300',
                                   *fresh_lines(d, 1, m, 8000, 1, 1), 'redec 1 0', 'enc 1 300'])
                    for zero in (True, False):
                        scripts.append(decode(d, m, member_chunk(rng, f, zero), 8000) + ['enc 0 600'])
                # every ordered pair of members on the wire and by selection
                pairs = [(a, b) for a in range(len(fs)) for b in range(len(fs))]
                for a, b in rng.sample(pairs, min(len(pairs), q(40, 400))):
                    w = member_chunk(rng, fs[a]) + member_chunk(rng, fs[b], rng.random() < 0.3)
                    scripts.append(decode(d, m, w, 8000) + ['enc 0 600', f'sel 0 - {o + 1} {a + 1}', 'enc 0 600'])
                    scripts.append(fresh_lines(d, 0, m, 8000) + [f'sel 0 - {o + 1} {a + 1}', f'sel 0 - {o + 1} {b + 1}',
                                   'enc 0 300'])
        for i in range(q(250 if ns else 60, 3000)):
            m = rng.choice(tops)
            ls = fresh_lines(d, 0, m, 30000, rng.randrange(8), 2)
            h = suites.Hist(rng, d, m)
            for _ in range(rng.randrange(2, 7)):
                r = rng.random()
                if r < 0.6:
                    h.edit(2)
                elif r < 0.8:
                    fs = [f for _, x in m.oneofs for f in x]
                    w = []
                    for _ in range(rng.randrange(1, 5)):
                        w += member_chunk(rng, rng.choice(fs), rng.random() < 0.3)
                    h.decode(w)
                else:
                    h.cmd('enc 0 3000')
            scripts.append(ls + h.lines + ['enc 0 3000'] + fresh_lines(d, 1, m, 30000) + ['redec 1 0'])
        rt.add(d, 'oneof', scripts)
    gen.histories(rt, c, 'oneof')
    rt.judge(HIST)
    return c.finish()


def c10():
    c, rt = setup('C10')
    rng = c.rng
    for d, ms, ns in corpus(rt, q(3, 12)):
        tops = [m for m in ms if m.parent is None and any(f.label == 'o' for f in m.fields)]
        if not tops:
            continue
        scripts = []
        for m in tops:
            opts = [i for i, f in enumerate(m.fields) if f.label == 'o']
            base = default_msg(m)

            def zero(i):
                f = m.fields[i]
                return [] if sc.wire_type(f.kind) == 2 else [0] * sc.ssize(f.kind)
            # one present (default value and others), all but one present
            for i in opts:
                xs = [zero(i)] + rng.sample(sc.interesting(m.fields[i].kind), q(2, 2) if m.fields[i].kind == 'bool' else q(2, 5))
                for x in xs:
                    v = list(base)
                    v[i] = [x]
                    scripts.append(roundtrip(d, m, v) + ['enc 1 2000'])
                v = list(base)
                for j in opts:
                    if j != i:
                        v[j] = [zero(j)]
                scripts.append(roundtrip(d, m, v))
                f = m.fields[i]
                w = member_chunk(rng, f, True)
                scripts.append(decode(d, m, w, 20000, 0, 4) + ['enc 0 100', f'set 0 - {i + 1} []', 'enc 0 100'])
        for i in range(q(220 if ns else 60, 2500)):
            m = rng.choice(tops)
            v = rand_msg(rng, m, 2, 0, 2, 0.4)
            for j, f in enumerate(m.fields):
                if f.label == 'o':
                    v[j] = [] if rng.random() < 0.5 else \
                        [([] if sc.wire_type(f.kind) == 2 else [0] * sc.ssize(f.kind))] if rng.random() < 0.5 else \
                        [sc.rand_value(rng, f)]
            ls = roundtrip(d, m, v)
            if rng.random() < 0.5:
                h = suites.Hist(rng, d, m, 1)
                for _ in range(4):
                    h.edit(1)
                h.decode(rand_wire(rng, m, 1, 0.1, 0.1, 0, 1)[:150])
                ls = fresh_lines(d, 1, m, 30000, 0, 4) + h.lines + ['enc 1 4000']
            scripts.append(ls)
        rt.add(d, 'optional', scripts)
    gen.histories(rt, c, 'optional')
    rt.judge(HIST)
    return c.finish()


# ------------------------------------------------------------------ C11

def evolved(rng, fs):
    """Another version of a file: each message loses fields, gains fields and
    reorders; shared numbers keep their shape."""
    from .schema import F, Msg, File
    src = fs[0]
    by = {}
    out = []

    def ref(r):
        if r is None or not isinstance(r, sc.Msg):
            return enums.get(id(r), r)
        return by[id(r)]
    enums = {}
    new_enums = []
    for e in src.enums:
        x = sc.Enum(e.name, list(e.values))
        enums[id(e)] = x
        new_enums.append(x)

    def conv(m):
        x = Msg(m.name)
        by[id(m)] = x
        for e in m.enums:
            y = sc.Enum(e.name, list(e.values))
            enums[id(e)] = y
            x.enums.append(y)
        x.msgs = [conv(n) for n in m.msgs]

        def cf(f):
            return F(f.name, f.num, f.kind, f.label, ref(f.ref), f.key)
        x.fields = [cf(f) for f in m.fields if rng.random() < 0.65]
        x.oneofs = []
        for n, ms in m.oneofs:
            keep = [cf(f) for f in ms if rng.random() < 0.75]
            if keep:
                x.oneofs.append((n, keep))
        used = {f.num for f in m.allfields()}
        for i in range(rng.randrange(0, 5)):
            n = rng.choice([1, 3, 14, 15, 16, 17, 31, 2047, 2048, 300000, 2**29 - 1, rng.randrange(1, 40)])
            if n in used:
                continue
            used.add(n)
            k = rng.choice(sc.SCALARS)
            x.fields.append(F(f'new{i}', n, k, rng.choice('sor')))
        rng.shuffle(x.fields)
        return x
    msgs = [conv(m) for m in src.msgs]
    return File(src.name + 'b', src.package + '.vb', msgs, new_enums), list(zip(src.msgs, msgs))


def c11():
    c, rt = setup('C11')
    rng = c.rng
    jobs = []
    for i in range(q(4, 20)):
        r = random.Random(f'{core.SEED}-evo-{i}')
        fs, ms = schemas.random_files(r, r.choice([3, 5]), name=f'evo{i}', maxfields=10)
        nf, pairs = evolved(r, fs)
        jobs.append((fs + [nf], pairs, f'evo{i}'))
    drivers = core.pmap(lambda j: rt.driver(j[2], j[0]), jobs)
    c.count('schema_pairs', sum(len(j[1]) for j in jobs))
    for d, (_, pairs, _) in zip(drivers, jobs):
        scripts = []
        for i in range(q(90, 900)):
            a, b = rng.choice(pairs)
            if rng.random() < 0.5:
                a, b = b, a
            v = rand_msg(rng, a, 2, 0.01, 3, rng.choice([0.5, 0.9]))
            scripts.append(build_lines(d, 0, a, v) + [f'enc 0 {enc_room(v)}']
                           + fresh_lines(d, 1, b, 2 * room(v) + 9000, 0, 2) + ['redec 1 0', f'enc 1 {2 * enc_room(v)}',
                           *fresh_lines(d, 2, a, 2 * room(v) + 9000), 'redec 2 1'])
        rt.add(d, 'versions', scripts)
    files, ns = schemas.core()
    d = rt.driver('core', files)
    scripts = []
    # unknown fields of every wire type, number and position
    for k in ('sing', 'rep', 'opt', 'one', 'two', 'nest', 'mixed', 'empty', 'rec', 'maps'):
        m = ns[k]
        used = {f.num for f in m.allfields()}
        for n in schemas.BOUNDARY_NUMBERS + [60, 61, 100]:
            if n in used:
                continue
            for wt in (0, 1, 2, 5):
                if quick() and rng.random() < 0.6:
                    continue
                body = {0: varint(rng.getrandbits(rng.randrange(1, 64)), rng.choice([0, 1])), 1: [255] * 8, 5: [8] * 4,
                        2: (lambda b: varint(len(b), rng.choice([0, 1])) + b)([rng.randrange(256) for _ in range(rng.choice([0, 1, 127, 128]))])}[wt]
                u = tag(n, wt, rng.choice([0, 0, 1])) + body
                w = rand_wire(rng, m, 1, 0, 0, 0, 2)[:80] if False else rand_wire(rng, m, 1, 0, 0.1, 0, 2)
                if len(w) > 150:
                    w = []
                scripts.append(decode(d, m, rng.choice([u + w, w + u, u + w + u]), 60000))
    rt.add(d, 'unknown', scripts)
    rt.add(d, 'long', [decode(d, m, w, n) for m, w, n in suites.long_wires(ns, quick())])
    add_runs(rt, c, d, ns)
    rt.judge({'evolve.value', 'dec.value', 'dec.rejects', 'dec.length', 'dec.memory', 'dec.code', 'rt.value'})
    return c.finish()


# ------------------------------------------------------------------ C12

TSAN = ['-fsanitize=thread', '-O1', '-g', '-fno-omit-frame-pointer']


def indep_script(rng, d, tops, sessions):
    """Calls on several sessions, interleaved at random."""
    hs = []
    for s in range(sessions):
        m = rng.choice(tops)
        h = suites.Hist(rng, d, m, s)
        pre = fresh_lines(d, s, m, 30000, rng.randrange(8), rng.choice([0, 1, 2]))
        for _ in range(rng.randrange(3, 8)):
            r = rng.random()
            if r < 0.55:
                h.edit(2)
            elif r < 0.7:
                h.decode(rand_wire(rng, m, 2, 0.1, 0.1)[:120])
            elif r < 0.8:
                h.decode(suites.mutate(rng, rand_wire(rng, m, 2, 0.1, 0.1)[:80]))
            else:
                h.cmd(f'enc {s} {rng.choice([4000, 4000, 10])}')
        hs.append([pre] + [[x] for x in h.lines] + [[f'enc {s} 4000'], [f'dump {s}']])
    out = []
    while any(hs):
        h = rng.choice([h for h in hs if h])
        out += h.pop(0)
    return out


def c12():
    c, rt = setup('C12')
    rng = c.rng
    cps = corpus(rt, q(1, 5))
    for d, ms, ns in cps:
        tops = [m for m in ms if m.parent is None]
        rt.add(d, 'interleaved', [indep_script(rng, d, tops, rng.choice([2, 3, 3]))
                                  for _ in range(q(170 if ns else 50, 2500))])
    # the same with real threads, watched by the thread sanitizer
    d0, ms, ns = cps[0]
    files, ns = schemas.core()
    wrap = ['setarch', 'x86_64', '-R']
    d = None
    try:
        d = rt.driver('tsan', files, flags=tuple(TSAN), wrap=())
    except core.Machinery:
        try:
            d = rt.driver('tsan', files, flags=tuple(TSAN), wrap=wrap)
        except core.Machinery:
            c.notes['thread_sanitizer'] = 'not usable here; plain threads instead'
    if d is None:
        d = rt.driver('threads', files, flags=('-O2', '-g'))
    tops = [m for m in ns.values() if m.parent is None]
    for rnd in range(q(2, 12)):
        per = [[indep_script(rng, d, tops, 2) for _ in range(q(14, 60))] for _ in range(8)]
        rt.add_threads(d, 'threads', per, 8)
    # encode/decode-heavy threads on the same types: the library's own tables
    same = [[roundtrip(d, ns['mixed'], rand_msg(rng, ns['mixed'], 2, 0, 3, 0.8)) for _ in range(q(10, 60))]
            for _ in range(8)]
    rt.add_threads(d, 'threads', same, 8)
    gen.histories(rt, c, 'pair')
    rt.judge(HIST | MEM | {'dec.accepts', 'dec.code', 'enc.overfull', 'enc.code', 'dec.nospace', 'dec.input'})
    return c.finish()


# ------------------------------------------------------------------ C13

def c13():
    c, rt = setup('C13')
    rng = c.rng
    for d, ms, ns in corpus(rt, q(3, 12)):
        tops = [m for m in ms if m.parent is None]
        scripts = []
        for i in range(q(260 if ns else 70, 4000)):
            m = rng.choice(tops)
            h = suites.Hist(rng, d, m)
            ls = fresh_lines(d, 0, m, 60000, rng.randrange(8), rng.choice([0, 1, 2]))
            for _ in range(rng.randrange(3, 12)):
                r = rng.random()
                if r < 0.55:
                    h.edit(3)
                elif r < 0.8:
                    # mentions a few fields only
                    part = sc.Msg('P', [f for f in m.fields if rng.random() < 0.4],
                                  [(n, fs) for n, fs in m.oneofs if rng.random() < 0.4])
                    h.decode(rand_wire(rng, part, 2, 0, 0.1)[:200] if part.allfields() else [])
                else:
                    h.cmd(f'enc 0 {rng.choice([5000, 5000, 7, 0])}')
            scripts.append(ls + h.lines + ['enc 0 8000', 'enc 0 8000', 'dump 0'])
        rt.add(d, 'history', scripts)
        scripts = []
        for i in range(q(90 if ns else 30, 1500)):
            # decode twice: the second input mentions only some fields
            m = rng.choice(tops)
            v = rand_msg(rng, m, 2, 0, 3, 0.9)
            part = sc.Msg('P', [f for f in m.fields if rng.random() < 0.3],
                          [(n, fs) for n, fs in m.oneofs if rng.random() < 0.3])
            w = rand_wire(rng, part, 2, 0, 0.1) if part.allfields() else []
            scripts.append(build_lines(d, 0, m, v, size=room(v) + 40000)
                           + [f'enc 0 {enc_room(v)}', f'enc 0 {enc_room(v) + 1}', 'dec 0 ' + hexs(w[:300] if not w[300:] else w),
                              'enc 0 20000', 'dec 0 -', 'enc 0 20000', 'dump 0'])
        rt.add(d, 'update', scripts)
    gen.histories(rt, c, 'all')
    rt.judge(HIST)
    return c.finish()
