"""Inputs for the runtime checks.  Each function returns scripts for the driver;
what they must do is decided by the specification alone."""
import random

from . import core, schemas, schema as sc
from .schema import F, Msg, File, rand_msg, rand_wire, default_msg, interesting, varint, tag, hexs, \
    wire_type, le, payload
from .runtime import room, enc_room, build_lines, fresh_lines, roundtrip, decode, nums


# ------------------------------------------------------------------ values

def one_value(f, x):
    return x


def some_msg(m, depth=1):
    """A small non-default value of a message."""
    v = []
    for f in m.fields:
        if f.kind == 'message' or f.label == 'm':
            if depth > 0:
                x = some_msg(f.entry or f.ref, depth - 1)
                v.append([x])
            else:
                v.append([])
        elif f.label == 's':
            v.append(interesting(f.kind)[1])
        else:
            v.append([interesting(f.kind)[1]])
    return v + [[0, []] for _ in m.oneofs]


def matrix_values(m):
    """Values that take every field through its interesting values, for a
    message whose fields are scalars (sub-messages get small values)."""
    def vals(f):
        if f.kind == 'message' or f.label == 'm':
            r = f.entry or f.ref
            return [default_msg(r), some_msg(r), some_msg(r, 0)]
        return interesting(f.kind)
    cols = [vals(f) for f in m.allfields()]
    depth = max([len(c) for c in cols] + [1])
    out = []
    nf = len(m.fields)
    for i in range(depth + 1):
        v = []
        for f, c in zip(m.fields, cols):
            x = c[i % len(c)]
            if f.label in 'rm':
                n = i % 4
                v.append([c[(i + j) % len(c)] for j in range(n)])
            elif f.label == 'o' or f.kind == 'message':
                v.append([x] if i < len(c) or i % 2 else [])
            else:
                v.append(x)
        v += [[0, []] for _ in m.oneofs]
        out.append(v)
    # all interesting values of the repeated fields in one message
    if any(f.label in 'rm' for f in m.fields):
        out.append([list(c) if f.label in 'rm' else d
                    for f, c, d in zip(m.fields, cols, default_msg(m))]
                   + [[0, []] for _ in m.oneofs])
    # every value of every oneof member
    pos = nf
    for o, (_, fs) in enumerate(m.oneofs):
        for j, f in enumerate(fs):
            zero = [] if sc.wire_type(f.kind) == 2 and f.kind != 'message' else \
                default_msg(f.ref) if f.kind == 'message' else [0] * sc.ssize(f.kind)
            for x in [zero] + cols[pos]:
                v = default_msg(m)
                v[nf + o] = [j + 1, x]
                out.append(v)
            pos += 1
    return out


def big_values(ns, tier_quick=True):
    """Lengths around the varint and packing boundaries."""
    out = []
    si, rep, one, nest, leaf, opt = (ns[k] for k in ('sing', 'rep', 'one', 'nest', 'leaf', 'opt'))
    lens = [126, 127, 128, 129, 255, 256, 2047, 2048] + ([65536] if tier_quick else
                                                        [16382, 16383, 16384, 20000, 65535, 65536, 70000, 140000])
    if tier_quick:
        lens += [16383, 16384]
    kinds = [f.kind for f in si.fields]
    for n in lens:
        v = default_msg(si)
        v[kinds.index('string')] = [97 + i % 26 for i in range(n)]
        out.append((si, v))
        v = default_msg(si)
        v[kinds.index('bytes')] = [i % 256 for i in range(n)]
        out.append((si, v))
        if n < 3000:
            # a sub-message of about n bytes
            v = default_msg(si)
            for d in range(-6, 3):
                if n + d < 0:
                    continue
                w = default_msg(si)
                lv = default_msg(leaf)
                lv[1] = [120] * (n + d)
                w[kinds.index('message')] = [lv]
                if d in (-6, -4, -3, -2, -1, 0):
                    out.append((si, w))
    for k, n in [('bool', 127), ('bool', 128), ('bool', 300), ('int32', 128), ('uint64', 40),
                 ('fixed32', 31), ('fixed32', 32), ('fixed64', 16), ('double', 129), ('string', 130),
                 ('bytes', 130), ('message', 130), ('enum', 129), ('sint64', 64), ('float', 33),
                 ('string', 257), ('bytes', 300), ('message', 260), ('enum', 256), ('uint32', 257), ('bool', 1025)]:
        f = next(f for f in rep.fields if f.kind == k)
        v = default_msg(rep)
        if k == 'message':
            items = [[le(i, 4), [], []] for i in range(n)]
        else:
            c = interesting(k)
            items = [c[i % len(c)] if len(c[i % len(c)]) < 20 else [1] for i in range(n)]
        v[rep.fields.index(f)] = items
        out.append((rep, v))
    # deep nesting
    rec = ns['rec']
    for depth in (1, 2, 5, 12, 30, 65, 101, 118):
        v = default_msg(rec)
        v[0] = le(7, 4)
        for i in range(depth):
            w = default_msg(rec)
            slot = i % 3
            if slot == 0:
                w[1] = [v]
            elif slot == 1:
                w[2] = [v, default_msg(rec)]
            else:
                w[4] = [1, v]
            w[0] = le(i, 4)
            v = w
        out.append((rec, v))
    return out


def long_wires(ns, tier_quick=True):
    """Lengths and counts around the limits of 16 bits, on the wire: (message,
    bytes, workspace)."""
    out = []
    si, rep, one, opt, rec, mixed = (ns[k] for k in ('sing', 'rep', 'one', 'opt', 'rec', 'mixed'))
    num = lambda m, k: next(f.num for f in m.allfields() if f.kind == k)
    known = tag(num(si, 'int32'), 0) + [5]
    ld = lambda n, body: tag(n, 2) + varint(len(body)) + body
    fill = lambda n: [33 + i % 90 for i in range(n)]
    for n in (32768, 65535, 65536, 65537, 70001) + (() if tier_quick else (32767, 131071, 131072, 200000)):
        out.append((si, known + ld(300, fill(n)) + tag(num(si, 'uint64'), 0) + [7], 60000))
        out.append((rec, ld(1, ld(99, fill(n)) + tag(3, 0) + [4]) + tag(3, 0) + [6], 60000))
        out.append((rep, ld(num(rep, 'int32'), [1]) + ld(300, fill(n)) + tag(num(rep, 'int32'), 0) + [2], 60000))
    for n in (65536, 70001) if tier_quick else (32768, 65535, 65536, 65537, 70001, 131072):
        for m in (si, one, opt):
            for k in ('string', 'bytes'):
                out.append((m, ld(num(m, k), fill(n)), n + 9000))
        out.append((rep, ld(num(rep, 'string'), fill(n)) + ld(num(rep, 'string'), fill(3)) + ld(num(rep, 'bytes'), fill(n)), 2 * n + 9000))
        out.append((rec, ld(1, ld(2, ld(4, fill(n)) + tag(3, 0) + [1])) + ld(2, tag(3, 0) + [2]), 2 * n + 90000))
        out.append((mixed, ld(2, ld(2, fill(n))) + ld(2, ld(1, [1])[:0]), 2 * n + 90000))
    # many elements, one by one
    for k, n in [('message', 300), ('string', 300), ('bytes', 257), ('enum', 300), ('int32', 300), ('fixed64', 257)]:
        one_item = ld(num(rep, k), []) if wire_type(k) == 2 else tag(num(rep, k), wire_type(k)) + [1] + \
            ([0] * 7 if k == 'fixed64' else [])
        out.append((rep, one_item * n, 300 * n + 9000))
    # deep nesting
    for depth in (33, 64, 65, 100, 101, 118):
        body = tag(3, 0) + [9]
        for i in range(depth):
            body = ld(1 + i % 2 if depth % 2 else 1, body)
        out.append((rec, body, 1000 * depth + 9000))
    for k, n in [('fixed32', 16384), ('fixed64', 8193), ('bool', 66000), ('uint32', 65537), ('double', 9000)]:
        body = [i % 2 if k == 'bool' else (i * 7) % 120 for i in range(n * (1 if k in ('bool', 'uint32') else sc.ssize(k)))]
        out.append((rep, ld(num(rep, k), body) + tag(num(rep, k), wire_type(k)) + [1] * (1 if k in ('bool', 'uint32') else sc.ssize(k)),
                    9 * (n + 5000)))
    return out


LONG = [65535, 65536, 2**17, 2**21 - 1, 2**21, 2**21 + 1, 2**22, 2**24 - 1, 2**24]
LONGER = [2**28 - 1, 2**28, 2**28 + 5]


def long_runs(rng, drv, ns, n, longer, lists=False):
    """Scripts that give a field of a message, or of a sub-message, a run of so
    many bytes or default elements that no explicit value could hold them."""
    spots = []
    for k in ('sing', 'rep', 'opt', 'maps', 'nest', 'mixed', 'rec', 'wide', 'imp'):
        m = ns[k]
        spots += [(m, '-', m, i) for i, f in enumerate(m.fields) if f.label in 'rm' or f.kind in ('string', 'bytes')]
        inner = []
        for j, g in enumerate(m.fields):
            if g.kind == 'message' and g.label in 'sr':
                inner += [(m, f'{j + 1}:{int(g.label == "r")}', g.ref, i) for i, f in enumerate(g.ref.fields)
                          if f.label in 'rm' or f.kind in ('string', 'bytes')]
        spots += inner * 2
    if lists:
        spots = [(m, path, mm, i) for m, path, mm, i in spots if mm.fields[i].label in 'rm']
        spots += [x for x in spots if wire_type(x[2].fields[x[3]].kind) == 2] * 2
    out = []
    picked = [rng.choice(spots) for _ in range(n)]
    for i, (m, path, mm, fi) in enumerate(picked):
        f = mm.fields[fi]
        v = default_msg(m) if rng.random() < 0.3 else some_msg(m)
        if path != '-':
            j = int(path.split(':')[0]) - 1
            v[j] = [default_msg(mm) if rng.random() < 0.5 else some_msg(mm, 0)]
            if path.endswith(':1') and rng.random() < 0.5:
                v[j].append(default_msg(mm))
        if nums(v) > 60:
            v = default_msg(m)
            if path != '-':
                v[j] = [default_msg(mm)]
        size = rng.choice(LONG)
        isz = 0
        if f.label in 'rm':
            isz = drv.info['msgs'][drv.idx(mm)]['isz'][fi]
            unit = sc.ssize(f.kind) if wire_type(f.kind) != 2 else 1
            if f.kind == 'message' or f.label == 'm' or wire_type(f.kind) == 2:
                size = rng.choice([65535, 65536, 70001] if not lists else [257, 1023, 1025, 3000, 4097, 8200, 40000, 65537])
            elif unit > 1 and rng.random() < 0.5:
                size = rng.choice([65535 // 8, 8192, 2**21 // unit - 1, 2**21 // unit, 2**21 // unit + 1])
        elif i < longer:
            size = rng.choice(LONGER)
        else:
            # around a border with the sub-message, too
            size += rng.choice([0, 0, 0, -3, -4, -5, -6, -7, -9])
        other = m if rng.random() < 0.7 or path != '-' else ns['empty']
        lots = size * (isz + 9) if isz else size
        out.append([f'ws 0 {200000 + 96 * nums(v) + (lots if isz else 0)} 0 {rng.choice([1, 2, 4]) if isz else 0}', f'new 0 {drv.idx(m)}', f'build 0 {sc.vtext(v)}',
                    f'ws 1 {200000 + 2 * 96 * nums(v) + lots + (isz != 0) * 2 * size} {rng.choice([0, 1, 4])} 1', f'new 1 {drv.idx(other)}',
                    f'long 0 {path} {fi + 1} {size} 1 {20 * nums(v) + 4000 + (14 * size if isz else size)}'])
    return out


def rand_values(rng, msgs, n, **kw):
    out = []
    for i in range(n):
        m = msgs[i % len(msgs)]
        out.append((m, rand_msg(rng, m, depth=rng.choice([1, 2, 3]), fullness=rng.choice([0.2, 0.5, 0.8, 1.0]), **kw)))
    return out


# ------------------------------------------------------------------ wires

def field_chunks(rng, f, n=3):
    """Some occurrences of field f on the wire (list of byte lists)."""
    out = []
    for _ in range(n):
        m = Msg('T', [F('x', f.num, f.kind, 'r' if f.label in 'rm' else 's', f.ref)])
        m.fields[0].entry = f.entry
        m.fields[0].label = f.label if f.label in 'rm' else 's'
        w = rand_wire(rng, m, depth=2, noise=0, dup=0, maxrep=2)
        out.append(w)
    return out


def malformed_payloads(f):
    """(wire type, payload) pairs to put after the tag of field f; most of
    them are not valid for it."""
    ov = [0x80] * 10 + [1]
    over = [
        [], [0x80], [0x80] * 9, [0x80] * 9 + [0], [0xff] * 9 + [1], [0xff] * 9 + [0x7f], ov,
        [0xff] * 10, [0xff] * 10 + [0], [5], [0x80, 0x80, 0], [0xff, 0xff, 0xff, 0xff, 0x0f]]
    lens = [0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 100, 2**31 - 9, 2**31 - 3, 2**31 - 2, 2**31 - 1, 2**31, 2**31 + 1,
            2**32 - 1, 2**32, 2**32 + 4, 2**63, 2**64 - 1]
    out = [(0, p) for p in over]
    out += [(2, p) for p in over]
    for n in lens:
        for have in (0, 1, 4, 8, 9):
            if have <= n or n > 20:
                out.append((2, varint(n) + [8 * (i % 2) + i % 3 for i in range(min(have, n))]))
        if n <= 16:
            out.append((2, varint(n) + [0] * n))
            out.append((2, varint(n) + [0x80] * n))
            out.append((2, varint(n) + ([0x0a] + varint(n))[:n] + [0] * max(0, n - 2)))
    for n in range(0, 10):
        out.append((1, [1] * n))
        out.append((5, [1] * n))
    for wt in (3, 4, 6, 7):
        out.append((wt, []))
        out.append((wt, [0] * 8))
    return out


BAD_TAGS = [[0], [1], [2], [5], [7], [0x80], [0x80, 0], [0x82, 0x80, 0x80, 0x80, 0x00],
            [0x80] * 9 + [0], [0x80] * 10, [0xff] * 10, [0xff] * 9 + [1], [0xff] * 9 + [2],
            [0x88] + [0x80] * 8 + [0], [0x80, 0x80, 0x80, 0x80, 0x10], [0x88, 0x80, 0x80, 0x80, 0x10],
            [0xf8, 0xff, 0xff, 0xff, 0x0f], [0xfa, 0xff, 0xff, 0xff, 0x0f], [0xfd, 0xff, 0xff, 0xff, 0x7f],
            [0x80, 0x80, 0x80, 0x80, 0x01, 0], [0x82, 0x80, 0x80, 0x80, 0x80, 0x01]]


def malformed_inputs(rng, m, per_field):
    out = []
    for f in m.allfields():
        ps = malformed_payloads(f)
        if per_field is not None:
            ps = rng.sample(ps, min(per_field, len(ps)))
        for wt, p in ps:
            pre = rng.choice([[], [], rand_wire(rng, m, 1, 0.1, 0.1)])
            post = rng.choice([[], [], [0x08, 1], rand_wire(rng, m, 1, 0.1, 0.1)])
            if len(pre) > 60 or len(post) > 60:
                pre = post = []
            out.append(pre + tag(f.num, wt, rng.choice([0, 0, 0, 1])) + p + post)
    for t in BAD_TAGS:
        out.append(t)
        out.append([0x08, 1] + t + [1, 2])
    return out


def mutate(rng, bs):
    bs = list(bs)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        i = rng.randrange(len(bs) + 1)
        if r < 0.35 and bs:
            bs[i % len(bs)] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
        elif r < 0.5 and bs:
            bs[i % len(bs)] ^= 1 << rng.randrange(8)
        elif r < 0.65:
            bs.insert(i, rng.choice([0, 0x80, 0xff, 0x0a, rng.randrange(256)]))
        elif r < 0.8 and bs:
            del bs[i % len(bs)]
        elif r < 0.9:
            j = rng.randrange(len(bs) + 1)
            bs[i:i] = bs[min(i, j):max(i, j)]
        else:
            bs = bs[:i]
    return bs[:400]


# ------------------------------------------------------------------ histories

class Hist:
    """A random sequence of API calls on one session; tracks just enough of the
    state to only issue meaningful calls (never judges)."""

    def __init__(self, rng, drv, m, s=0):
        self.rng, self.drv, self.m, self.s = rng, drv, m, s
        self.val = default_msg(m)
        self.lines = []

    def pick(self):
        """A random message inside the tree: (path text, Msg, value)."""
        path, m, v = [], self.m, self.val
        while self.rng.random() < 0.6:
            opts = []
            for i, f in enumerate(m.fields):
                if f.kind == 'message' or f.label == 'm':
                    for j in range(len(v[i])):
                        opts.append((i, 0 if f.label == 's' else j + 1, f.entry or f.ref, v[i][j]))
            for o, (_, fs) in enumerate(m.oneofs):
                c, x = v[len(m.fields) + o]
                if c > 0 and fs[c - 1].kind == 'message':
                    opts.append((len(m.fields) + o, 0, fs[c - 1].ref, x))
            if not opts:
                break
            i, j, m, v = self.rng.choice(opts)
            path.append(f'{i + 1}:{j}')
        return '/'.join(path) or '-', m, v

    def cmd(self, text):
        self.lines.append(text)

    def edit(self, maxrep=3):
        rng = self.rng
        p, m, v = self.pick()
        kinds = ['f'] * len(m.fields) + ['o'] * len(m.oneofs) * 3
        if not kinds:
            return
        if rng.choice(kinds) == 'f':
            i = rng.randrange(len(m.fields))
            f = m.fields[i]
            msg = f.kind == 'message' or f.label == 'm'
            r = f.entry or f.ref
            if f.label in 'rm':
                if v[i] and rng.random() < 0.6 and not msg:
                    j = rng.randrange(len(v[i]))
                    x = sc.rand_value(rng, f)
                    v[i][j] = x
                    self.cmd(f'seti {self.s} {p} {i + 1} {j + 1} {sc.vtext(x)}')
                else:
                    n = rng.randrange(0, maxrep + 1)
                    v[i] = [default_msg(r) if msg else
                            ([] if f.kind in ('string', 'bytes') else [0] * sc.ssize(f.kind))
                            for _ in range(n)]
                    self.cmd(f'alloc {self.s} {p} {i + 1} {n}')
            elif msg:
                if v[i] and rng.random() < 0.3:
                    v[i] = []
                    self.cmd(f'set {self.s} {p} {i + 1} []')
                else:
                    v[i] = [default_msg(r)]
                    self.cmd(f'alloc {self.s} {p} {i + 1} -9')
            elif f.label == 'o':
                x = [sc.rand_value(rng, f)] if rng.random() < 0.7 else []
                v[i] = x
                self.cmd(f'set {self.s} {p} {i + 1} {sc.vtext(x)}')
            else:
                x = sc.rand_value(rng, f)
                v[i] = x
                self.cmd(f'set {self.s} {p} {i + 1} {sc.vtext(x)}')
        else:
            o = rng.randrange(len(m.oneofs))
            fs = m.oneofs[o][1]
            slot = len(m.fields) + o
            c = v[slot][0]
            if c > 0 and fs[c - 1].kind != 'message' and rng.random() < 0.4:
                x = sc.rand_value(rng, fs[c - 1])
                v[slot] = [c, x]
                self.cmd(f'setu {self.s} {p} {o + 1} {sc.vtext(x)}')
            else:
                j = rng.randrange(len(fs))
                f = fs[j]
                v[slot] = [j + 1, default_msg(f.ref) if f.kind == 'message' else
                           [] if f.kind in ('string', 'bytes') else [0] * sc.ssize(f.kind)]
                self.cmd(f'sel {self.s} {p} {o + 1} {j + 1}')

    def decode(self, data):
        self.cmd(f'dec {self.s} {hexs(data)}')
        # what the message holds now is only needed roughly: stop editing the
        # parts the input may have replaced
        self.val = default_msg(self.m)
