"""Random derivations of the proto3 grammar, layouts and mutations.  Nothing
here knows what is valid: the specification decides."""

KEYWORDS = ['syntax', 'package', 'message', 'repeated', 'enum', 'service', 'rpc', 'returns', 'stream',
            'import', 'oneof', 'option', 'true', 'false', 'map', 'reserved', 'max', 'to', 'weak',
            'public', 'optional']
SCALARS = ['int32', 'int64', 'sint32', 'sint64', 'uint32', 'uint64', 'fixed32', 'fixed64',
           'sfixed32', 'sfixed64', 'float', 'double', 'bool', 'string', 'bytes']
PLAIN = ['a', 'b', 'foo', 'Bar', 'fooBar', 'x1', 'A_b', 'HTTPServer', 'v2Beta', 'e_', 'Msg', 'Z9z', 'under__score',
         'inner', 'Outer', 'status', 'key', 'value', 'UPPER', 'cLick', 'proto3', 'inf', 'nan']

# the files that may be imported
SUPPORT = [('i1.proto', 'syntax = "proto3";\npackage {pkg};\nmessage Shared {{ int32 a = 1; }}\nenum Sort {{ S0 = 0; }}\n'),
           ('sub/i2.proto', 'syntax = "proto3"; package q.r; // other\nenum Kind { K0 = 0; }\n'
                            'message Thing { message Inner {} }\n'),
           ('i3.proto', 'syntax = "proto3";\n/* no package */ message Bare {}\nenum Flat { F0 = 0; }\n')]


class Gen:
    def __init__(self, rng, size=3, odd=0.25, wild=0.04):
        self.rng, self.size, self.odd, self.wild = rng, size, odd, wild
        self.imports = []

    def name(self, used, tag=lambda s: s):
        for _ in range(60):
            n = self.rng.choice(KEYWORDS) if self.rng.random() < self.odd else self.rng.choice(PLAIN)
            if self.rng.random() < 0.05:
                n = self.rng.choice(SCALARS)
            if self.rng.random() < 0.25:
                n += str(self.rng.randrange(100))
            if tag(n) not in used:
                break
        else:
            n = f'n{len(used)}x{self.rng.randrange(10**6)}'
        used.add(tag(n))
        return n

    def integer(self, neg=False):
        r = self.rng
        x = r.choice([0, 1, 2, 7, 8, 15, 16, 127, 128, 2047, 2048, 18999, 65535, 65536, (1 << 29) - 1,
                      (1 << 31) - 1, 1 << 31, (1 << 64) - 1, r.randrange(1 << 20)])
        s = r.choice(['%d', '%d', '%d', '0x%x', '0X%X', '0%o', '0x0%x']) % x
        return ('-' if neg and r.random() < 0.5 else '') + s

    def number(self):
        r = self.rng
        return str(r.randrange(1, 40)) if r.random() < 0.7 else self.integer()

    def string(self):
        r = self.rng
        return '"' + ''.join(r.choice(['a', 'Z', ' ', '/', '*', '//', '/*', '*/', '\\"', '\\\\', '\\n', "'", '-', '.',
                                       ';', '{', '}', 'é', '日', '😀']) for _ in range(r.randrange(6))) + '"'

    def full(self):
        r = self.rng
        out = [self.name(set())]
        while r.random() < 0.3:
            out += ['.', self.name(set())]
        return out

    def constant(self):
        k = self.rng.randrange(4)
        if k == 0:
            return [self.rng.choice(['true', 'false'])]
        if k == 1:
            f = self.full()
            return f if f[0] not in ('true', 'false') else ['x']
        return [self.string()] if k == 2 else [self.integer(True)]

    def option_name(self):
        r = self.rng
        out = ['('] + self.full() + [')'] if r.random() < 0.4 else [self.name(set())]
        while r.random() < 0.25:
            out += ['.', self.name(set())]
        return out

    def option(self):
        return ['option'] + self.option_name() + ['='] + self.constant() + [';']

    def brackets(self):
        r = self.rng
        if r.random() < 0.8:
            return []
        out = ['[']
        for i in range(r.choice([1, 1, 2, 3])):
            out += ([','] if i else []) + self.option_name() + ['='] + self.constant()
        return out + [']']

    # -- declarations first (names), then bodies --

    def tree(self, depth):
        r = self.rng
        used = set()
        msgs = [self.name(used) for _ in range(r.choice([0, 1, 1, 2]) if depth < 3 else 0)]
        enums = [self.name(used) for _ in range(r.choice([0, 0, 1]))]
        return dict(msgs=[(n, self.tree(depth + 1)) for n in msgs], enums=enums, used=used)

    def type(self, scopes):
        r = self.rng
        if r.random() < 0.5:
            return [r.choice(SCALARS)]
        if r.random() < self.wild:
            return (['.'] if r.random() < 0.3 else []) + self.full()
        names = [n for s in scopes for n in [m for m, _ in s['msgs']] + s['enums']]
        names += [n for n in self.reach]
        if not names:
            return ['int32']
        n = r.choice(names)
        top = [m for m, _ in self.root['msgs']] + self.root['enums']
        if n in top and self.pkg and r.random() < 0.3:
            return (['.'] if r.random() < 0.3 else []) + '.'.join(self.pkg).replace('.', ' . ').split() + ['.', n]
        if n in top and not self.pkg and r.random() < 0.2:
            return ['.', n]
        if n in ('Kind', 'Thing') and n in self.reach:
            return (['.'] if r.random() < 0.3 else []) + ['q', '.', 'r', '.', n]
        return [n]

    def field(self, used, scopes, label=True):
        r = self.rng
        t = self.type(scopes)
        lab = r.choice([[], [], ['repeated'], ['optional']]) if label else []
        if not lab and t[0] in ('option', 'optional', 'repeated') and r.random() < 0.95:
            lab = ['repeated'] if label else []
            if not label:
                t = ['int32']
        return lab + t + [self.name(used), '=', self.number()] + self.brackets() + [';']

    def reserved(self):
        r = self.rng
        out = ['reserved']
        if r.random() < 0.5:
            for i in range(r.choice([1, 2, 3])):
                out += ([','] if i else []) + [self.integer()]
                if r.random() < 0.4:
                    out += ['to', r.choice(['max', self.integer()])]
        else:
            for i in range(r.choice([1, 2])):
                out += ([','] if i else []) + [self.string()]
        return out + [';']

    def enum(self, n):
        r = self.rng
        out, used = ['enum', n, '{'], set()
        for _ in range(r.randrange(4)):
            k = r.random()
            if k < 0.75:
                out += [self.name(used), '=', self.integer(True)] + self.brackets() + [';']
            elif k < 0.88:
                out += self.option()
            else:
                out += [';']
        return out + ['}']

    def oneof(self, used, scopes):
        r = self.rng
        out = ['oneof', self.name(used), '{']
        for _ in range(r.randrange(4)):
            k = r.random()
            if k < 0.8:
                out += self.field(used, scopes, False)
            elif k < 0.9:
                out += self.option()
            else:
                out += [';']
        return out + ['}']

    def message(self, n, t, scopes):
        r = self.rng
        sc = scopes + [t]
        used = set()
        maps = set()
        parts = [self.message(m, s, sc) for m, s in t['msgs']] + [self.enum(e) for e in t['enums']]
        for _ in range(r.randrange(self.size + 2)):
            k = r.random()
            if k < 0.55:
                parts.append(self.field(used, sc))
            elif k < 0.68:
                parts.append(self.oneof(used, sc))
            elif k < 0.8:
                f = ['map', '<', r.choice(['int32', 'string', 'bool', 'uint64']), ','] + self.type(sc) + ['>']
                parts.append(f + [self.name(maps, str.title), '=', self.number()] + self.brackets() + [';'])
            elif k < 0.88:
                parts.append(self.reserved())
            elif k < 0.95:
                parts.append(self.option())
            else:
                parts.append([';'])
        r.shuffle(parts)
        return ['message', n, '{'] + [x for p in parts for x in p] + ['}']

    def service(self, n):
        r = self.rng
        out, used = ['service', n, '{'], set()
        for _ in range(r.randrange(4)):
            k = r.random()
            if k < 0.7:
                out += ['rpc', self.name(used)]
                for w in ('', 'returns'):
                    out += [w] if w else []
                    st = r.random() < 0.3
                    t = self.full()
                    if not st and t[0] == 'stream':
                        t = ['x']
                    out += ['('] + (['stream'] if st else []) + (['.'] if r.random() < 0.2 else []) + t + [')']
                if r.random() < 0.5:
                    out += [';']
                else:
                    out += ['{'] + [x for _ in range(r.choice([0, 0, 1, 2])) for x in self.option()] + ['}']
            elif k < 0.85:
                out += self.option()
            else:
                out += [';']
        return out + ['}']

    def file(self):
        """The tokens of a file."""
        r = self.rng
        self.pkg = [self.name(set()) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        self.root = dict(msgs=[], enums=[], used=set())
        self.reach = []
        self.imports = []
        parts = []
        for i, (p, _) in enumerate(SUPPORT):
            if r.random() < 0.3:
                parts.append(['import'] + r.choice([[], [], ['weak'], ['public']]) + [f'"{p}"', ';'])
                self.imports.append(i)
                self.reach += [['Shared', 'Sort'], ['Kind', 'Thing'], ['Bare', 'Flat']][i]
        used = set(self.reach)
        self.root['msgs'] = [(self.name(used), self.tree(1)) for _ in range(r.randrange(1, self.size + 1))]
        self.root['enums'] = [self.name(used) for _ in range(r.randrange(3))]
        if self.pkg:
            parts.append(['package'] + ' . '.join(self.pkg).split() + [';'])
        parts += [self.message(m, t, [self.root]) for m, t in self.root['msgs']]
        parts += [self.enum(e) for e in self.root['enums']]
        su = set()
        parts += [self.service(self.name(su)) for _ in range(r.choice([0, 0, 1, 2]))]
        parts += [self.option() for _ in range(r.choice([0, 1, 1, 3]))]
        parts += [[';'] for _ in range(r.choice([0, 0, 1]))]
        r.shuffle(parts)
        return ['syntax', '=', '"proto3"', ';'] + [x for p in parts for x in p]

    def support(self):
        pkg = '.'.join(self.pkg)
        out = []
        for i in self.imports:
            p, t = SUPPORT[i]
            if i == 0:
                t = t.format(pkg=pkg) if pkg else t.replace('package {pkg};', '').replace('{{', '{').replace('}}', '}')
            out.append((p, t))
        return out


def wordy(t):
    return t[0].isalnum() or t[0] == '_' or t[0] == '-'


def tight(tokens):
    """As little space as possible."""
    out = ''
    for t in tokens:
        if out and wordy(t) and (out[-1].isalnum() or out[-1] == '_'):
            out += ' '
        out += t
    return out


def plain(rng, tokens):
    """One space or newline between tokens."""
    out = []
    for t in tokens:
        out += [t, '\n' if t in ';{}' and rng.random() < 0.7 else ' ']
    return ''.join(out)


BLANKS = [' ', '\n', '\t', '  ', ' \n ', '\n\n\t']


def comment(rng):
    inner = ''.join(rng.choice(['a', ' ', '"', '//', '*', '/ ', ';', '{', '}', 'message X { }', "'", '\\', '\\"',
                                '= 1;', '**', 'é', '日', '😀', '#']) for _ in range(rng.randrange(6)))
    if rng.random() < 0.5:
        return '//' + inner + rng.choice(['', '/*', '*/', '/**/']) + '\n'
    body = inner + rng.choice(['', '\n', '\n\n x', '//', ' // "', '*', ' *'])
    # "*/" would end it, "/*" would be a comment in a comment
    body = body.replace('*/', '* /').replace('/*', '/ *')
    if body.startswith('/'):
        body = ' ' + body
    if body.endswith('/'):
        body += ' '
    return '/*' + body + '*/'


def layout(rng, tokens, p=0.3):
    """Random blanks and comments between the tokens."""
    out = ''
    for t in tokens:
        gap = ''
        while rng.random() < p:
            gap += rng.choice(BLANKS) if rng.random() < 0.5 else comment(rng)
        if not gap and out and wordy(t) and (out[-1].isalnum() or out[-1] == '_'):
            gap = ' '
        out += gap + t
    if rng.random() < 0.3:
        out += rng.choice(['// end', '/* end */', '//', '/**/', '\n', ' \t'])
    return out


VOCAB = KEYWORDS + ['a', 'Foo', '1', '0', '-1', '0x1F', '017', '08', '""', '"x"', '"proto3"', '.', ',', '=', ';', '{', '}',
                    '(', ')', '[', ']', '<', '>', 'int32', 'string']


def mutate(rng, tokens):
    """One small change of a token sequence."""
    t = list(tokens)
    i = rng.randrange(len(t))
    k = rng.randrange(6)
    if k == 0:
        del t[i]
    elif k == 1:
        t.insert(i, t[i])
    elif k == 2:
        t[i] = rng.choice(VOCAB)
    elif k == 3:
        t.insert(i, rng.choice(VOCAB))
    elif k == 4:
        j = min(i + 1, len(t) - 1)
        t[i], t[j] = t[j], t[i]
    else:
        del t[i:]
    return t


def mutate_text(rng, s):
    """One small change of a text."""
    i = rng.randrange(len(s))
    c = rng.choice(list('"/*\\;={}<>()[].,- \n_a1A0x@#\'$%&+~^|?!:') + ['//', '/*', '*/'])
    k = rng.randrange(3)
    if k == 0:
        return s[:i] + s[i + 1:]
    if k == 1:
        return s[:i] + c + s[i:]
    return s[:i] + c + s[i + 1:]


# ---------------------------------------------------------------- for the C compiler

class CGen:
    """Random files of the whole language whose names do not clash in C: every
    name is new, except fields of different messages and types in different
    messages, which share names."""

    STYLES = ['foo', 'Foo', 'fooBar', 'FooBar', 'foo_bar', 'HTTP', 'HTTPReq', 'x', 'X', 'fOO', 'FOO_BAR', 'Foo_Bar', 'v2Beta']

    def __init__(self, rng, size=None):
        self.rng, self.n = rng, 0
        self.size = size or rng.choice([1, 2, 3, 4])
        self.files = []
        self.pool = [self.new() for _ in range(6)]
        self.tpool = [self.new() for _ in range(4)]
        # the scalar types that have given their name to a message or enum
        self.named = set()

    def top(self):
        """The name of a top level type."""
        n = self.rng.choice(SCALARS)
        # struct int32_t is no C++
        if n in self.named or self.rng.random() > .15 or not self.pkg and n in ('int32', 'int64', 'uint32', 'uint64'):
            return self.new()
        self.named.add(n)
        return n

    def new(self):
        self.n += 1
        return self.rng.choice(self.STYLES) + self.rng.choice('qwQ') + str(self.n)

    def pick(self, pool, used):
        for _ in range(4):
            n = self.rng.choice(pool) if self.rng.random() < .4 else self.new()
            if n not in used:
                break
        else:
            n = self.new()
        used.add(n)
        return n

    def num(self):
        self.k += 1
        return self.k

    def tree(self, path, depth):
        r = self.rng
        used = set()
        t = dict(path=path, msgs=[], enums=[])
        if depth < 4:
            for _ in range(r.choice([0, 0, 1, 2] if depth else [1, 2, 3, 4][:self.size])):
                n = self.pick(self.tpool, used) if depth else self.top()
                t['msgs'].append((n, self.tree(path + [n], depth + 1)))
        for _ in range(r.choice([0, 0, 1])):
            t['enums'].append(self.pick(self.tpool, used) if depth else self.top())
        return t

    def ref(self, scopes):
        """A visible type name, or a scalar: (name, is it a message)."""
        r = self.rng
        if r.random() < .45:
            return r.choice(SCALARS), False
        seen, out = set(), []
        for s in reversed(scopes):
            for n, m in [(n, True) for n, _ in s['msgs']] + [(n, False) for n in s['enums']]:
                if n not in seen:
                    seen.add(n)
                    out.append((n, m, s is scopes[0]))
        out += [x for x in self.visible if x[0] not in seen]
        if not out:
            return 'int32', False
        n, m, top = r.choice(out)
        if top is True and (n in SCALARS or r.random() < .3):
            n = '.'.join(([''] if r.random() < .5 or not self.pkg else []) + ([self.pkg] if self.pkg else []) + [n])
        return n, m

    def enum(self, n):
        r = self.rng
        vs = [0] + [r.choice([1, 2, 5, -1, 100, 2147483647, -2147483648, 77]) for _ in range(r.randrange(3))]
        body = ''.join(f'{self.new()} = {v}{r.choice(["", "", " [deprecated = true]"])}; ' for v in vs)
        return f'enum {n} {{ {r.choice(["", "", "option allow_alias = true; "])}{body}}} '

    def field(self, used, scopes, label=True):
        r = self.rng
        t, m = self.ref(scopes)
        n = self.pick(self.pool, used)
        opt = r.choice(['', '', '', ' [deprecated = true]', ' [packed = false, (a.b).c = "x"]'])
        lab = r.choice(['', 'repeated '] + ([] if m else ['optional '])) if label else ''
        return f'{lab}{t} {n} = {self.num()}{opt}; '

    def message(self, n, t, scopes):
        r = self.rng
        sc = scopes + [t]
        used, keep = set(), self.__dict__.get('k')
        parts = [self.message(a, b, sc) for a, b in t['msgs']] + [self.enum(e) for e in t['enums']]
        self.k = 0
        for _ in range(r.randrange(2 + 2 * self.size)):
            k = r.random()
            if k < .6:
                parts.append(self.field(used, sc))
            elif k < .78:
                fs = ''.join(self.field(used, sc, False) for _ in range(r.choice([1, 1, 2, 4])))
                parts.append(f'oneof {self.new()} {{ {fs}}} ')
            elif k < .9:
                parts.append(f'map<{r.choice(["int32", "string", "bool", "fixed64"])}, {self.ref(sc)[0]}> {self.new()} = {self.num()}; ')
            else:
                parts.append(r.choice(['reserved 900, 901 to 905; ', 'reserved "gone"; ', 'option deprecated = true; ', '; ']))
        r.shuffle(parts)
        self.k = keep
        return f'message {n} {{ ' + ''.join(parts) + '} '

    def one(self, pkg, visible, imports):
        """A file; also the types others see in it."""
        r = self.rng
        self.pkg, self.visible = pkg, visible
        root = self.tree([], 0)
        parts = [self.message(n, t, [root]) for n, t in root['msgs']] + [self.enum(e) for e in root['enums']]
        parts += [f'import {r.choice(["", "", "public ", "weak "])}"{i}"; ' for i in imports]
        if pkg:
            parts.append(f'package {pkg}; ')
        if r.random() < .3:
            parts.append(f'service {self.new()} {{ rpc {self.new()} (A.b) returns (stream C) {{ option x = 1; }} }} ')
        if r.random() < .3:
            parts.append('option java_package = "a.b"; ')
        r.shuffle(parts)
        text = 'syntax = "proto3"; ' + ''.join(parts)
        return text, [(n, True) for n, _ in root['msgs']] + [(n, False) for n in root['enums']]

    def file(self):
        r = self.rng
        pkg = r.choice(['', 'pk', 'pk.sub', 'Pkg_X'])
        visible, imports = [], []
        self.files = []
        for i, path in enumerate(r.sample(['imp_a.proto', 'sub/imp_b.proto', 'FooBar.proto', 'x/y/HTTPz.proto'],
                                          r.choice([0, 0, 1, 1, 2, 3]))):
            p = r.choice([pkg, '', 'other', 'pk.sub', f'far{i}'])
            text, types = self.one(p, [], [])
            self.files.append((path, text))
            imports.append(path)
            for n, m in types:
                if (p == pkg or not p) and n not in SCALARS:
                    visible.append((n, m, False))
                if not p:
                    visible.append((f'.{n}', m, False))
                if p:
                    visible.append((f'{p}.{n}', m, False))
                    visible.append((f'.{p}.{n}', m, False))
        # a name of two imports would mean the first of them
        once = {}
        for v in visible:
            once.setdefault(v[0], v)
        text, _ = self.one(pkg, list(once.values()), imports)
        return text
