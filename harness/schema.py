"""The harness's own description of proto3 schemas (independent of the code
under test): renders .proto text, the tables of the C driver and the JSON form
the TLA+ specification reads."""
import random

KINDS = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32',
         'fixed64', 'sfixed32', 'sfixed64', 'float', 'double', 'bool', 'string',
         'bytes', 'enum', 'message']
SCALARS = KINDS[:15]
MAP_KEYS = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32',
            'fixed64', 'sfixed32', 'sfixed64', 'bool', 'string']


def ssize(kind):
    if kind in ('int64', 'uint64', 'sint64', 'fixed64', 'sfixed64', 'double'):
        return 8
    return 1 if kind == 'bool' else 4


class F:
    """label: s(ingular) o(ptional) r(epeated) u (oneof member) m(ap)."""

    def __init__(self, name, num, kind, label='s', ref=None, key=None):
        self.name, self.num, self.kind, self.label = name, num, kind, label
        self.ref, self.key = ref, key       # ref: Msg or Enum
        self.entry = None                   # synthetic message of a map field


class Enum:
    def __init__(self, name, values):
        self.name, self.values = name, values
        self.parent = self.file = None


class Msg:
    def __init__(self, name, fields=(), oneofs=(), msgs=(), enums=()):
        self.name = name
        self.fields = list(fields)
        self.oneofs = [(n, list(fs)) for n, fs in oneofs]
        self.msgs = list(msgs)
        self.enums = list(enums)
        self.parent = self.file = None

    def allfields(self):
        return self.fields + [f for _, fs in self.oneofs for f in fs]


class File:
    def __init__(self, name, package, msgs, enums=(), imports=()):
        self.name, self.package = name, package
        self.msgs, self.enums, self.imports = list(msgs), list(enums), list(imports)
        for e in self.enums:
            e.file, e.parent = self, None
        for m in self.msgs:
            self._own(m, None)

    def _own(self, m, parent):
        m.file, m.parent = self, parent
        for e in m.enums:
            e.file, e.parent = self, m
        for x in m.msgs:
            self._own(x, m)
        for f in m.fields:
            if f.label == 'm':
                # the entry message as the generator names it
                v = F('value', 2, f.kind, 's', f.ref)
                f.entry = Msg('PbtoolsMap' + f.name.title(), [F('key', 1, f.key), v])
                f.entry.map_of = f
                f.entry.file, f.entry.parent = self, m

    def all_msgs(self):
        out = []

        def walk(m):
            out.append(m)
            for x in m.msgs:
                walk(x)
            for f in m.fields:
                if f.entry:
                    out.append(f.entry)
        for m in self.msgs:
            walk(m)
        return out

    # -- .proto text --

    def type_name(self, f, scope):
        if f.kind not in ('message', 'enum'):
            return f.kind
        t = f.ref
        if (t.file is self or t.file.package == self.package) and t.name not in SCALARS:
            return t.name
        return t.file.package + '.' + t.name

    def field_text(self, f, m):
        t = self.type_name(f, m)
        if f.label == 'm':
            return f'map<{f.key}, {t}> {f.name} = {f.num};'
        lab = {'s': '', 'o': 'optional ', 'r': 'repeated ', 'u': ''}[f.label]
        return f'{lab}{t} {f.name} = {f.num};'

    def msg_text(self, m, ind):
        p = '  ' * ind
        out = [f'{p}message {m.name} {{']
        for e in m.enums:
            out += self.enum_text(e, ind + 1)
        for x in m.msgs:
            out += self.msg_text(x, ind + 1)
        for f in m.fields:
            out.append(f'{p}  {self.field_text(f, m)}')
        for n, fs in m.oneofs:
            out.append(f'{p}  oneof {n} {{')
            out += [f'{p}    {self.field_text(f, m)}' for f in fs]
            out.append(f'{p}  }}')
        return out + [f'{p}}}']

    def enum_text(self, e, ind):
        p = '  ' * ind
        return [f'{p}enum {e.name} {{'] + [f'{p}  {n} = {v};' for n, v in e.values] + [f'{p}}}']

    def text(self):
        out = ['syntax = "proto3";', '']
        for i in self.imports:
            out.append(f'import "{i.name}.proto";')
        if self.package:
            out.append(f'package {self.package};')
        for e in self.enums:
            out += self.enum_text(e, 0)
        for m in self.msgs:
            out += self.msg_text(m, 0)
        return '\n'.join(out) + '\n'


# -- C names of the restricted identifiers used here ([A-Z]?[a-z0-9_]*, one capital) --

def snake(s):
    return s.replace('.', '_').lower()


def full(t):
    if hasattr(t, 'map_of'):
        f = t.map_of
        return full(t.parent) + '_pbtools_map_' + snake(f.name)
    base = full(t.parent) if t.parent else (snake(t.file.package) if t.file.package else '')
    return (base + '_' if base else '') + snake(t.name)


def member(f):
    """C member holding the value of a singular field or oneof member."""
    return f.name + ('_p' if f.kind in ('string', 'message') else '')


def tables(files):
    """(tables.c text, list of Msg in index order)."""
    msgs = [m for fl in files for m in fl.all_msgs()]
    index = {id(m): i for i, m in enumerate(msgs)}
    w = ['#include <stddef.h>', '#include "tables.h"']
    w += [f'#include "{fl.name}.h"' for fl in files]
    body = []
    for i, m in enumerate(msgs):
        c = full(m)
        st = f'struct {c}_t'

        def one(f, union=None):
            ref = f.entry or f.ref
            r = index[id(ref)] if (f.kind == 'message' or f.label == 'm') else 0
            kind = 'message' if f.label == 'm' else f.kind
            label = 'r' if f.label == 'm' else f.label
            d = dict(name='"%s"' % f.name, num=f.num, kind='K_' + kind, label="'%s'" % label, ref=r)
            if label == 'r':
                items = 'items_pp' if kind == 'string' else 'items_p'
                d['off'] = f'offsetof({st}, {f.name}.length)'
                d['items_off'] = f'offsetof({st}, {f.name}.{items})'
                d['isz'] = f'sizeof(*(({st} *)0)->{f.name}.{items})'
                d['ialign'] = f'__alignof__(*(({st} *)0)->{f.name}.{items})'
                body.append(f'static int an_{i}_{f.num}(void *p, int n)'
                            f' {{ return {c}_{f.name}_alloc(p, n); }}')
                d['allocn'] = f'an_{i}_{f.num}'
            elif label == 'o':
                mem = 'value_p' if kind in ('string', 'message') else 'value'
                d['off'] = f'offsetof({st}, {f.name}.{mem})'
                d['pres_off'] = f'offsetof({st}, {f.name}.is_present)'
            else:
                d['off'] = f'offsetof({st}, {member(f)})'
                if kind == 'message':
                    body.append(f'static int a1_{i}_{f.num}(void *p)'
                                f' {{ return {c}_{f.name}_alloc(p); }}')
                    d['alloc1'] = f'a1_{i}_{f.num}'
                elif union:
                    body.append(f'static void in_{i}_{f.num}(void *p) {{ {c}_{f.name}_init(p); }}')
                    d['init'] = f'in_{i}_{f.num}'
                if union:
                    d['cval'] = f'{c}_{snake(union)}_{f.name}_e'
            return '    { ' + ', '.join(f'.{k} = {v}' for k, v in d.items()) + ' },'

        rows = [one(f) for f in m.fields]
        ones = []
        for n, fs in m.oneofs:
            mem = [one(f, n) for f in fs]
            body.append(f'static const fld_t m_{i}_{n}[] = {{\n' + '\n'.join(mem) + '\n};')
            ones.append(f'    {{ .name = "{n}", .off = offsetof({st}, {n}), .n = {len(fs)},'
                        f' .mem = m_{i}_{n}, .none = {c}_{snake(n)}_none_e }},')
        body.append(f'static const fld_t f_{i}[] = {{\n' + '\n'.join(rows or ['    {0}']) + '\n};')
        body.append(f'static const one_t o_{i}[] = {{\n' + '\n'.join(ones or ['    {0}']) + '\n};')
        if m.parent is None:
            body.append(f'static void *n_{i}(void *w, size_t n) {{ return {c}_new(w, n); }}\n'
                        f'static int e_{i}(void *p, uint8_t *b, size_t n)'
                        f' {{ return {c}_encode(p, b, n); }}\n'
                        f'static int d_{i}(void *p, const uint8_t *b, size_t n)'
                        f' {{ return {c}_decode(p, b, n); }}')
    w += body
    w.append('const msg_t msgs[] = {')
    for i, m in enumerate(msgs):
        c = full(m)
        fn = f', .newf = n_{i}, .enc = e_{i}, .dec = d_{i}' if m.parent is None else ''
        w.append(f'    {{ .name = "{c}", .size = sizeof(struct {c}_t),'
                 f' .align = __alignof__(struct {c}_t), .nf = {len(m.fields)}, .flds = f_{i},'
                 f' .no = {len(m.oneofs)}, .ones = o_{i}{fn} }},')
    w.append('};')
    w.append(f'const int nmsgs = {len(msgs)};')
    return '\n'.join(w) + '\n', msgs


TABLES_H = '''#ifndef TABLES_H
#define TABLES_H
#include "pbtools.h"
enum { %s };
typedef struct {
    const char *name; int num; int kind; char label; int ref;
    size_t off, items_off, pres_off, isz, ialign;
    int (*alloc1)(void *); int (*allocn)(void *, int); void (*init)(void *);
    int cval;
} fld_t;
typedef struct { const char *name; size_t off; int n; const fld_t *mem; int none; } one_t;
typedef struct {
    const char *name; size_t size, align; int nf; const fld_t *flds; int no; const one_t *ones;
    void *(*newf)(void *, size_t);
    int (*enc)(void *, uint8_t *, size_t);
    int (*dec)(void *, const uint8_t *, size_t);
} msg_t;
extern const msg_t msgs[];
extern const int nmsgs;
#endif
''' % ', '.join('K_' + k for k in KINDS)


def spec_json(msgs, info):
    """The schema as PbSchema.tla reads it, with the struct sizes of the C build."""
    index = {id(m): i for i, m in enumerate(msgs)}

    def fj(f, isz):
        ref = f.entry or f.ref
        msg = f.kind == 'message' or f.label == 'm'
        return dict(num=f.num, kind='message' if msg else f.kind,
                    label='r' if f.label == 'm' else f.label,
                    ref=index[id(ref)] + 1 if msg else 0, isz=isz)
    out = []
    for i, m in enumerate(msgs):
        inf = info['msgs'][i]
        out.append(dict(name=full(m), size=inf['size'], align=inf['align'],
                        fields=[fj(f, inf['isz'][j]) for j, f in enumerate(m.fields)],
                        oneofs=[[fj(f, 0) for f in fs] for _, fs in m.oneofs]))
    return out


# -- values --

INTERESTING32 = [0, 1, 2, 127, 128, 255, 256, 16383, 16384, 2**21 - 1, 2**21, 2**28 - 1, 2**28,
                 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32 - 2, 0x80808080, 0x01020304]
INTERESTING64 = INTERESTING32 + [2**32, 2**32 + 5, 2**35 - 1, 2**35, 2**42, 2**49, 2**56, 2**63 - 1,
                                 2**63, 2**64 - 1, 2**64 - 2**31, 2**64 - 2**31 - 1, 2**63 + 1,
                                 0x0102030405060708]
FLOATS = [0, 0x80000000, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7fa00001, 1,
          0x7f7fffff, 0x00800000, 0xbf800000, 0x00000100, 0x01000000]
DOUBLES = [0, 1 << 63, 0x3ff0000000000000, 0x7ff0000000000000, 0xfff0000000000000,
           0x7ff8000000000000, 0x7ff4000000000001, 1, 0x7fefffffffffffff, 0x0010000000000000,
           1 << 40, 1 << 56, 0x00000000ffffffff]


def le(v, n):
    return list((v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little'))


def interesting(kind):
    n = ssize(kind)
    if kind == 'bool':
        return [[0], [1]]
    if kind == 'float':
        return [le(v, 4) for v in FLOATS]
    if kind == 'double':
        return [le(v, 8) for v in DOUBLES]
    if kind in ('string', 'bytes'):
        out = [[], [65], [0x7f], [0x80], [0xff], [65] * 127, [66] * 128, [67] * 129,
               list(b'h\xc3\xa5llo'), [255, 254, 1]]
        if kind == 'bytes':
            out += [[0], [0, 0, 1], [1, 0]]
        return out
    return [le(v, n) for v in (INTERESTING32 if n == 4 else INTERESTING64)]


def rand_value(rng, f, depth=3, big=0.02, maxrep=4):
    """A random value for one element of field f."""
    k = f.kind
    if k == 'message' or f.label == 'm':
        return rand_msg(rng, f.entry or f.ref, depth - 1, big, maxrep)
    r = rng.random()
    if k in ('string', 'bytes'):
        if r < 0.6:
            n = rng.randrange(0, 6)
        elif r < 1 - big:
            return rng.choice(interesting(k))
        else:
            n = rng.choice([127, 128, 200, 255, 256, 300])
        return [rng.randrange(1 if k == 'string' else 0, 256) for _ in range(n)]
    if r < 0.5:
        return rng.choice(interesting(k))
    if k == 'bool':
        return [rng.randrange(2)]
    n = ssize(k)
    bits = rng.randrange(0, 8 * n + 1)
    v = rng.getrandbits(bits) if bits else 0
    if rng.random() < 0.3:
        v = -v
    return le(v, n)


def rand_msg(rng, m, depth=3, big=0.02, maxrep=4, fullness=0.7):
    val = []
    for f in m.fields:
        msg = f.kind == 'message' or f.label == 'm'
        if f.label == 's' and not msg:
            val.append(rand_value(rng, f) if rng.random() < fullness
                       else ([] if f.kind in ('string', 'bytes') else [0] * ssize(f.kind)))
        elif f.label in 'so':
            val.append([rand_value(rng, f, depth, big, maxrep)]
                       if rng.random() < fullness and (not msg or depth > 0) else [])
        else:
            n = rng.randrange(0, maxrep + 1) if rng.random() < fullness else 0
            if msg and depth <= 0:
                n = 0
            val.append([rand_value(rng, f, depth, big, maxrep) for _ in range(n)])
    for _, fs in m.oneofs:
        ok = [j for j, f in enumerate(fs) if f.kind != 'message' or depth > 0]
        if not ok or rng.random() > fullness:
            val.append([0, []])
        else:
            j = rng.choice(ok)
            val.append([j + 1, rand_value(rng, fs[j], depth, big, maxrep)])
    return val


def default_msg(m):
    val = []
    for f in m.fields:
        if f.label == 's' and f.kind not in ('string', 'bytes', 'message'):
            val.append([0] * ssize(f.kind))
        else:
            val.append([])
    return val + [[0, []] for _ in m.oneofs]


def vtext(v):
    return str(v).replace(' ', '')


# -- wire helpers used to make inputs (never as an oracle) --

def varint(v, pad=0):
    out = []
    v &= (1 << 64) - 1
    while v > 127:
        out.append(v & 127 | 128)
        v >>= 7
    out.append(v)
    for _ in range(pad):
        out[-1] |= 128
        out.append(0)
    return out[:10]


def tag(num, wt, pad=0):
    return varint(num << 3 | wt, pad)


def wire_type(kind):
    if kind in ('fixed32', 'sfixed32', 'float'):
        return 5
    if kind in ('fixed64', 'sfixed64', 'double'):
        return 1
    return 2 if kind in ('string', 'bytes', 'message') else 0


def payload(rng, f, v, pad=0):
    k = f.kind
    if wire_type(k) in (1, 5):
        return list(v)
    n = int.from_bytes(bytes(v), 'little')
    if k in ('int32', 'enum') and n >= 2**31:
        n |= 0xffffffff << 32
    if k in ('sint32', 'sint64'):
        bits = 8 * len(v)
        s = n - (1 << bits) if n >> (bits - 1) else n
        n = (s << 1) ^ (s >> 63)
    return varint(n, pad)


def noise_field(rng, used):
    """An unknown field of a random wire type."""
    while True:
        num = rng.choice([1, 2, 3, 15, 16, 17, 99, 2047, 2048, 30000, 262143, 262144, 2**29 - 1,
                          rng.randrange(1, 2**29)])
        if num not in used:
            break
    wt = rng.choice([0, 1, 2, 5])
    t = tag(num, wt, rng.choice([0, 0, 0, 1]))
    if wt == 0:
        return t + varint(rng.getrandbits(rng.randrange(1, 65)))
    if wt == 1:
        return t + [rng.randrange(256) for _ in range(8)]
    if wt == 5:
        return t + [rng.randrange(256) for _ in range(4)]
    n = rng.choice([0, 1, 2, 5, 130])
    return t + varint(n) + [rng.randrange(256) for _ in range(n)]


def rand_wire(rng, m, depth=3, noise=0.15, dup=0.3, pad=0.1, maxrep=4, order=True):
    """A random valid serialization for message m (not canonical)."""
    chunks = []
    used = {f.num for f in m.allfields()}

    def p():
        return rng.choice([0, 0, 0, 1, 2]) if rng.random() < pad else 0

    def emit(f, v=None):
        msg = f.kind == 'message' or f.label == 'm'
        if msg:
            if depth <= 0:
                return None
            body = rand_wire(rng, f.entry or f.ref, depth - 1, noise, dup, pad, maxrep)
            return tag(f.num, 2, p()) + varint(len(body), p()) + body
        v = rand_value(rng, f)
        if f.kind in ('string', 'bytes'):
            return tag(f.num, 2, p()) + varint(len(v), p()) + list(v)
        return tag(f.num, wire_type(f.kind), p()) + payload(rng, f, v, p())

    for f in m.allfields():
        n = 1
        if f.label in 'rm':
            n = rng.randrange(0, maxrep + 1)
        elif rng.random() < dup:
            n = rng.choice([0, 2, 2, 3])
        for _ in range(n):
            if f.label == 'r' and wire_type(f.kind) != 2 and rng.random() < 0.6:
                items = [payload(rng, f, rand_value(rng, f), p())
                         for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
                body = [b for it in items for b in it]
                chunks.append(tag(f.num, 2, p()) + varint(len(body), p()) + body)
            else:
                c = emit(f)
                if c is not None:
                    chunks.append(c)
    while rng.random() < noise:
        chunks.append(noise_field(rng, used))
    if order:
        rng.shuffle(chunks)
    return [b for c in chunks for b in c]


def hexs(bs):
    return bytes(bs).hex() or '-'
