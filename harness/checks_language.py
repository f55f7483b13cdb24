"""The checks of the schema language and the command line tool (C14..C21)."""
import itertools
import os
import re

from . import core, gram as G, langgen
from .language import Batch, History, Lang, case

MODEL = {'rejects', 'model.*', 'fault'}
S3 = 'syntax = "proto3";\n'


def scaled(q, t):
    return core.sample(q, t)


# ------------------------------------------------------------------ C16

FRAG = ['//', '/*', '*/', '"', '\n', ' ', ';', 'message D {}', '/', '*', '\\']
TEMPLATES = [('top', S3 + '%smessage E {}\n'),
             ('string', S3 + 'option o = "%s"; message E {}\n'),
             ('body', S3 + 'message M { int32%s x = 1; string y = 2; }'),
             ('start', '%ssyntax="proto3";'),
             ('end', S3 + 'message M { }%s')]
BAD_CHARS = ['$', '@', '#', "'", '?', '!', '%', '&', '+', '~', '^', '|', ':', '`', '_x', '\f', '\v', 'é', '\x00',
             '\u2028', '/', '*', '\\', '-', '- 1', '"', '"abc\n', '"\\"', '0x', '1.5', '.5e3', '-x', '*/']


def fragments(rng, exhaustive, sampled, longest):
    out = []
    for n in range(exhaustive + 1):
        out += [''.join(x) for x in itertools.product(FRAG, repeat=n)]
    for _ in range(sampled):
        out.append(''.join(rng.choice(FRAG) for _ in range(rng.randrange(exhaustive + 1, longest + 1))))
    return list(dict.fromkeys(out))


def frag_cases(rng, exhaustive, sampled, longest, templates=TEMPLATES):
    return {name: [case(t % f) for f in fragments(rng, exhaustive, sampled, longest)] for name, t in templates}


def broken_layout(rng, g, tk):
    """A valid text with something that is no token, or a bad comment, in a gap."""
    i = rng.randrange(len(tk) + 1)
    bad = rng.choice(BAD_CHARS + ['/*', '/* open', '/* a /* b */', '/* a /* b */ */', '/*/', '/**', '/* " /* " */',
                                  '/* // /* */', '/* // \n /* */', '/*\n\n/*\n*/'])
    sp = rng.choice(['', ' ', '\n'])
    return G.layout(rng, tk[:i], .15) + sp + bad + sp + G.layout(rng, tk[i:], .15)


def c16():
    c = core.Check('C16')
    rng = c.rng
    lang = Lang(c)
    for name, cs in frag_cases(rng, scaled(2, 3), scaled(1200, 12000), 8).items():
        lang.add('fragments_' + name, cs)
    if not core.quick():
        lang.add('fragments_top', [case(TEMPLATES[0][1] % ''.join(x)) for x in itertools.product(FRAG, repeat=4)])
        lang.add('fragments_string', [case(TEMPLATES[1][1] % ''.join(x)) for x in itertools.product(FRAG, repeat=4)])
    for t, fs in large_files(rng):
        k = rng.choice([i for i, x in enumerate(t) if x in ' ;{}'][5:])
        lang.add('large', [case(t, files=fs), case(t[:k] + rng.choice(['$', '/*', '"', ' } ']) + t[k:], files=fs),
                           case('\n' * 300 + t.replace('; ', ';\n' + ' ' * rng.randrange(400)) + '\n?', files=fs)])
    made = langgen.texts(rng, c, scaled(900, 20000))
    for name, t in TEMPLATES[:3]:
        lang.add('generated_' + name, [case(t % x) for x in langgen.pick(rng, made, scaled(700, 20000))])
    for _ in range(scaled(150, 2500)):
        g = G.Gen(rng, size=rng.choice([1, 1, 2, 3]))
        tk = g.file()
        lang.add('layout', [case(G.layout(rng, tk, p), files=g.support()) for p in (.1, .5)])
        lang.add('tight', [case(G.tight(tk), files=g.support())])
        t = G.layout(rng, tk, .2)
        lang.add('crlf', [case(t, raw=t.replace('\n', rng.choice(['\r\n', '\r\n', '\r'])), files=g.support())])
        lang.add('broken', [case(broken_layout(rng, g, tk), files=g.support()) for _ in range(3)])
        # errors in an imported file
        if g.imports:
            sup = g.support()
            k = rng.randrange(len(sup))
            sup[k] = (sup[k][0], G.mutate_text(rng, sup[k][1]))
            lang.add('import', [case(G.plain(rng, tk), files=sup)])
    lang.judge({'rejects', 'model.*', 'accepts.comment', 'accepts.token', 'accepts.syntax', 'error.position'})
    c.notes['bounds'] = ('every sequence of at most %d of %d symbols in %d places of a file, random longer ones; '
                         'random derivations of the grammar in random layouts' %
                         (scaled(2, 3), len(FRAG), len(TEMPLATES)))
    return c.finish()


# ------------------------------------------------------------------ C21

def large_files(rng):
    """Valid files that are large in one way each: (text, other files)."""
    out = []
    word = lambda n: rng.choice('abcdefgxyz') + ''.join(rng.choice('abcdefgxyz_') for _ in range(n - 2)) + 'q'
    cap = lambda n: (lambda w: w[0].upper() + w[1:])(word(n))
    lab = lambda: rng.choice(['', '', 'repeated ', 'optional '])
    n = rng.choice([70, 129, 150])
    out.append((f'message Many {{ {" ".join(f"{lab()}{rng.choice(G.SCALARS)} f{i} = {i * 7 + 1};" for i in range(n))} }}', []))
    for kind in ('repeated', 'optional', 'map<string, X>', ''):
        t = lambda: rng.choice(G.SCALARS + (['X'] if kind != 'optional' else []))
        out.append((f'message X {{ }} message Alike {{ {" ".join(f"{kind} {t() if kind[:3] != "map" else ""} f{i} = {i + 3};" for i in range(n))} }}',
                    []))
    out.append((f'enum Large {{ {" ".join(f"V{i} = {i * 31 - 900 * (i > 0)};" for i in range(n))} }} message U {{ Large x = 1; }}', []))
    out.append((' '.join(f'message M{i} {{ {lab()[:0]}M{rng.randrange(40)} a = {i + 1}; repeated M{rng.randrange(40)} b = {i + 2}; }}'
                         for i in range(40)), []))
    depth = 12
    text = f'E{rng.randrange(depth)} last = 3; '
    for i in reversed(range(depth)):
        text = f'enum E{i} {{ Z = {i}; }} message L{i} {{ E{rng.randrange(i + 1)} a = 1; {text} }} L{i} b = 2; '
    out.append((f'message Top {{ {text} }}', []))
    w = [word(rng.choice([40, 64, 65, 90])) for _ in range(8)]
    c1, c2, c3 = cap(70), cap(66), cap(45)
    out.append((f'package {w[0]}.{w[1]}; message {c1} {{ enum {c2} {{ {w[2]} = 0; }} {c2} {w[3]} = 1; oneof {w[4]} {{ {c1} {w[5]} = 2; '
                f'int32 {w[6]} = 3; }} repeated {c3} {w[7]} = 4; }} message {c3} {{ }}', []))
    out.append((f'message Choice {{ oneof o {{ {" ".join(f"{rng.choice(G.SCALARS + ["Choice"])} m{i} = {i + 1};" for i in range(n))} }} }}', []))
    out.append((f'message Choices {{ {" ".join(f"oneof o{i} {{ int32 a{i} = {2 * i + 1}; Choices b{i} = {2 * i + 2}; }}" for i in range(20))} }}', []))
    out.append((f'message Maps {{ {" ".join(f"map<{rng.choice(["int32", "string", "bool"])}, {rng.choice(["bytes", "Maps", "sint64"])}> m{i} = {i + 1};" for i in range(30))} }}', []))
    k = 24
    out.append((' '.join(f'import "lib{i}.proto";' for i in range(k)) + f' package big; message U {{ {" ".join(f"lib{i % 3}.T{i} x{i} = {i + 1};" for i in range(k))} }}',
                [(f'lib{i}.proto', S3 + f'package lib{i % 3}; message T{i} {{ int32 a = 1; }}') for i in range(k)]))
    out.append((f'package {".".join(f"p{i}" for i in range(14))}; message A {{ A a = 1; {".".join(f"p{i}" for i in range(14))}.A b = 2; }}', []))
    out.append((f'option long = "{"x / * y " * 150}"; /* {"y // * " * 300} */ message A {{ int32 /* {" " * 1500} */ a = 1; }} // {"z" * 900}', []))
    out.append((f'service S {{ {" ".join(f"rpc R{i} ({rng.choice(["", "stream "])}A) returns ({rng.choice(["", "stream "])}A);" for i in range(40))} }} message A {{ '
                f'reserved {", ".join(str(i) for i in range(2, 100, 3))}; }}', []))
    return [(S3 + t, fs) for t, fs in out]


def roles(word, p=None):
    """A file in which a word has each of the roles an identifier can have."""
    other = 'Kk' if word != 'Kk' else 'Jj'
    return [
        S3 + f'package {word};',
        S3 + f'package a.{word}.b;',
        S3 + f'message {word} {{ int32 x = 1; message {word} {{ {word} {word} = 3; }} }}',
        S3 + f'message A {{ message {word} {{}} repeated {word} x = 1; }}',
        S3 + f'enum {word} {{ A = 0; }} message M {{ {word} a = 1; optional {word} b = 2; repeated {word} c = 3; }}',
        S3 + f'enum E {{ {word} = 0; {other} = 1; }}',
        S3 + f'message M {{ int32 {word} = 1; }}',
        S3 + f'message M {{ repeated int32 {word} = 1; optional int32 {other} = 2; }}',
        S3 + f'message M {{ oneof {word} {{ int32 {word} = 1; string {other} = 2; }} }}',
        S3 + f'message M {{ message {word} {{}} oneof o {{ {word} x = 1; int32 y = 2; }} }}',
        S3 + f'message M {{ map<int32, string> {word} = 1; }}',
        S3 + f'message M {{ enum {word} {{ A = 0; }} map<int32, {word}> x = 1; }}',
        S3 + f'message M {{ map<{word}, int32> x = 1; }}',
        S3 + f'service {word} {{ rpc {word} ({word}) returns ({word}); }}',
        S3 + f'service S {{ rpc A (stream {word}) returns (stream a.{word}) {{ option {word} = {word}; }} }}',
        S3 + f'option {word} = 1; option ({word}) = "x"; option a.{word} = true; option (a.{word}).{word} = b.{word};',
        S3 + f'option o = {word};',
        S3 + f'message M {{ int32 x = 1 [{word} = 1, ({word}) = {word}]; }}',
        S3 + f'package p; message {word} {{ p.{word} a = 1; .p.{word} b = 2; }}',
        S3 + f'message {word} {{ .{word} a = 1; oneof o {{ .{word} b = 2; }} map<bool, .{word}> c = 3; }}',
    ]


NUMBERS = ['0', '1', '-1', '-0', '00', '01', '07', '010', '-010', '0777', '08', '09', '0x0', '0x10', '-0x10', '0X1f', '0xAbC',
           '0xffffffff', '0x7fffffff', '-0x80000000', '2147483647', '-2147483648', '4294967295', '4294967296',
           '18446744073709551615', '18446744073709551616', '01777777777777777777777', '0xFFFFFFFFFFFFFFFFFF',
           '123456789', '000', '0x', '0xg', '1a', '0b1', '1e5', '1.0', '- 1', '--1', '+1', '65536', '65535', '99999',
           '536870911', '0x1fffffff', '03777777777']


def number_cases():
    out = []
    for n in NUMBERS:
        out += [S3 + f'enum E {{ A = {n}; B = 1; }}', S3 + f'message M {{ int32 a = {n}; int32 b = 2; }}',
                S3 + f'option o = {n};', S3 + f'message M {{ oneof o {{ int32 a = {n}; }} }}',
                S3 + f'message M {{ map<int32, int32> a = {n}; }}',
                S3 + f'message M {{ reserved {n}; reserved {n} to max, 5 to {n}; int32 b = 2; }}',
                S3 + f'message M {{ int32 a = 1 [x = {n}]; }}',
                S3 + f'message M {{ enum E {{ A = 0 [x = {n}]; B = {n}; }} repeated E e = {n}; }}']
    return out


CONTAINERS = ['message M {{ message In {{ }} enum En {{ Z = 0; }} {} }}',
              'message O {{ message In {{ }} message M {{ message X {{ {} }} enum En {{ Z = 0; }} }} }}',
              'message In {{ }} enum En {{ Z = 0; }} message M {{ oneof a {{ int32 q = 9; }} {} }}']


def field_forms():
    out = []
    for t in G.SCALARS + ['In', 'En', 'Nope', 'int33', '.int32', 'a.int32', 'Int32', 'map', 'group']:
        fs = [f'{lab} {t} f = 7{o};' for lab in ('', 'repeated', 'optional', 'required', 'repeated optional')
              for o in ('', ' [packed = true]', ' [ ]')]
        fs += [f'oneof o {{ {t} f = 7; {t} g = 8; }}', f'oneof o {{ repeated {t} f = 7; }}',
               f'oneof o {{ optional {t} f = 7; }}', f'oneof o {{ map<int32, {t}> f = 7; }}',
               f'map<int32, {t}> f = 7;', f'map<{t}, int32> f = 7;', f'repeated map<int32, {t}> f = 7;',
               f'map<int32, repeated {t}> f = 7;', f'map<.int32, {t}> f = 7;', f'map<a.{t}, {t}> f = 7;']
        for body in fs:
            for k in CONTAINERS:
                out.append(S3 + k.format(body))
    return out


STATEMENTS = [';', 'package a.b;', 'option x = 1;', 'message A {}', 'enum B { Z = 0; }', 'service C {}',
              'import "i1.proto";', 'import weak "sub/i2.proto";', 'import public "none.proto";', 'syntax = "proto3";',
              'reserved 1;', 'int32 x = 1;', 'extend A {}', 'rpc R (A) returns (A);', 'oneof o {}', 'message D { A a = 1; }']


def c21():
    c = core.Check('C21')
    rng = c.rng
    lang = Lang(c)
    words = G.KEYWORDS + ['a', 'Foo', 'x_1', 'proto3', 'string', 'int32', 'group', 'extend', 'none', 'required', 'bytes']
    lang.add('roles', [case(t) for w in words for t in roles(w)])
    lang.add('numbers', [case(t) for t in number_cases()])
    forms = field_forms()
    lang.add('fields', [case(t) for t in (rng.sample(forms, 600) if core.quick() else forms)])
    files = [('i1.proto', S3 + 'message A {} enum B { K = 0; }'), ('sub/i2.proto', S3 + 'package a.b; message A {}'),
             ('none.proto', S3)]
    for n in (1, 2):
        lang.add('statements', [case(S3 + ' '.join(x), files=files) for x in itertools.product(STATEMENTS, repeat=n)])
    for _ in range(scaled(100, 3000)):
        lang.add('statements', [case(S3 + '\n'.join(rng.choice(STATEMENTS) for _ in range(rng.choice([3, 4, 6]))),
                                     files=files)])
    lang.add('derivations', langgen.derivations(rng, c, scaled(220, 8000)))
    for _ in range(scaled(1, 6)):
        lang.add('large', [case(t, files=fs) for t, fs in large_files(rng)])
    for _ in range(scaled(500, 8000)):
        g = G.Gen(rng, size=rng.choice([1, 2, 3, 4]), wild=rng.choice([0, .03]))
        tk = g.file()
        lang.add('random', [case(G.plain(rng, tk), files=g.support())])
    lang.judge({'rejects', 'model.*'})
    c.notes['bounds'] = ('every keyword in every role of an identifier; every number form in every place of a number; every '
                         'field type and label in every container; every pair of statements; random derivations')
    return c.finish()


# ------------------------------------------------------------------ C14

LEVELS = 6      # Outer.Mid, Outer, file, import of the same package, of another package, without a package


def placement(kinds, pkg, ref, loc, form, imports=(0, 1, 2)):
    """A file whose type X is declared where kinds says (0 no, 1 enum, 2 message)."""
    def decl(k, n='X'):
        return ['', f'enum {n} {{ V{n} = 0; }} ', f'message {n} {{ int32 v = 1; }} '][k]
    fld = {'one': f'{ref} f = 1;', 'rep': f'repeated {ref} f = 1;', 'oneof': f'oneof o {{ int32 g = 2; {ref} f = 1; }}',
           'map': f'map<int32, {ref}> f = 1;', 'opt': f'optional {ref} f = 1;'}[form]
    at = [fld if loc == i else '' for i in range(3)]
    files = [('s.proto', S3 + (f'package {pkg}; ' if pkg else '') + decl(kinds[3]) + 'message Same { message X {} }'),
             ('q.proto', S3 + 'package q; ' + decl(kinds[4]) + 'message Outer { enum X { Q = 0; } }'),
             ('n.proto', S3 + decl(kinds[5]) + 'enum Flat { X = 0; }')]
    text = (S3 + ''.join(f'import "{files[i][0]}"; ' for i in imports) + (f'package {pkg}; ' if pkg else '')
            + f'message Outer {{ message Mid {{ {at[0]} {decl(kinds[0])}}} {at[1]} {decl(kinds[1])}}} '
            + f'message Third {{ message Own {{ {at[2]} }} }} message Side {{ message X {{}} }} {decl(kinds[2])}')
    return case(text, files=[f for i, f in enumerate(files) if i in imports])


def c14():
    c = core.Check('C14')
    rng = c.rng
    lang = Lang(c)
    refs = {'': ['X', '.X', 'q.X', '.q.X', 'Outer.X', 'Outer.Mid.X', 'Mid.X', '.Outer.X', 'q.Outer.X'],
            'p': ['X', '.X', 'p.X', '.p.X', 'q.X', 'Outer.X', 'p.Outer.X'],
            'p.q': ['X', '.X', 'p.q.X', '.p.q.X', 'q.X', '.q.X', 'p.X']}
    every = [(k, pkg, ref, loc) for k in itertools.product(range(3), repeat=LEVELS) for pkg in refs
             for ref in refs[pkg] for loc in range(3)]
    if core.quick():
        # all the placements that one step of the search can tell apart
        few = [(k, pkg, ref, loc) for k, pkg, ref, loc in every
               if ref == 'X' and sum(x != 0 for x in k) == 2 and pkg != 'p.q' and (loc == 0 or rng.random() < .25)]
        every = few + rng.sample(every, 1700)
    for k, pkg, ref, loc in every:
        lang.add('placements', [placement(k, pkg, ref, loc, rng.choice(['one', 'rep', 'oneof', 'map', 'opt']))])
    right, wrong = langgen.scopes(rng, c, scaled(420, None))
    lang.add('generated', right)
    lang.add('generated_undefined', langgen.pick(rng, wrong, scaled(500, 20000)))
    # the order and the selection of imports
    for _ in range(scaled(250, 4000)):
        pkg = rng.choice(list(refs))
        imports = rng.sample(range(3), rng.randrange(4))
        lang.add('imports', [placement([rng.randrange(3) for _ in range(LEVELS)], pkg, rng.choice(refs[pkg]),
                                       rng.randrange(3), rng.choice(['one', 'map']), imports)])
    for _ in range(scaled(150, 4000)):
        g = G.Gen(rng, size=rng.choice([2, 3, 4]), wild=rng.choice([0, .1]), odd=.05)
        lang.add('random', [case(G.plain(rng, g.file()), files=g.support())])
    lang.judge({'model.types', 'accepts.type', 'rejects'})
    c.notes['bounds'] = (f'{3 ** LEVELS} placements of a name over {LEVELS} levels x packages x forms of reference x '
                         'places of the field' + (' (sampled)' if core.quick() else ''))
    return c.finish()


# ------------------------------------------------------------------ C18

NOWHERE = ['nowhere.proto', 'google/protobuf/any.proto', 'google/protobuf/timestamp.proto', 'd/nowhere.proto',
           'google/protobuf/descriptor.proto', 'f0', 'F0.proto', 'f0.proto2', 'f 0.proto', 'pbtools/a.proto',
           'google/protobuf/empty.proto', 'f0.h', '~/f0.proto', '$HOME/f0.proto', '%2e', 'https://x/f0.proto', '*.proto',
           'f?.proto', '-', '', '.', '..', 'd', 'd/', '/']


def copy_of(i, name, pkg):
    """The text of a copy of a file: what it declares tells where it is."""
    k = ['enum', 'message', 'enum', 'message', 'message'][i]
    body = '{ Z = 0; }' if k == 'enum' else '{ }'
    return S3 + pkg[i] + f'{k} X {body} message In{i} {{}}'


def c18():
    c = core.Check('C18')
    rng = c.rng
    lang = Lang(c)
    dirs = ['d1', 'd2', 'd1/s', '', 'w']
    every = []
    for present in itertools.product((0, 1), repeat=5):
        for n in range(4):
            for order in itertools.permutations(range(4), n):
                every.append((present, order))
    made = langgen.searches(c)
    if len(made) != 2 ** len(dirs) or any(x not in dirs for ds in made for x in ds):
        raise core.Machinery('ProtoSearch explored other directories')
    if core.quick():
        every = rng.sample(every, 900)
    for present, order in every:
        name = rng.choice(['x.proto', 'x.proto', 's/x.proto'])
        cwd = rng.choice(['', 'w'])
        pkg = [rng.choice(['package p; ', 'package p; ', '', 'package q; ']) for _ in range(5)]
        at = [f'{d}/{name}'.lstrip('/') for d in dirs]
        files = {at[i]: copy_of(i, name, pkg) for i in range(5) if present[i]}
        if rng.random() < .3:
            # a directory of that name is not the file
            files.update({f'{at[i]}/zz': '' for i in range(5) if not present[i] and rng.random() < .5})
        main = rng.choice(['w/m.proto', 'm.proto', 'd1/m.proto'])
        up = '../' if cwd else ''
        paths = []
        for i in order:
            k = rng.random()
            d = dirs[i]
            # (the empty path is the working directory)
            paths.append(('@/' + d if k < .3 else (up + d) or rng.choice(['.', ''])) + ('/' if k > .8 and (up + d) else ''))
        use = rng.choice(['X x = 1;', 'q.X x = 1;', '.X x = 1;', 'p.X x = 1;', 'In0 x = 1;', ''])
        written = name
        if rng.random() < .3:
            # a path that is spelled in another way; the directories it goes through exist
            files.update({f'{d}/s/t/zz'.lstrip('/'): '' for d in dirs})
            written = rng.choice(['./' + name, 's/../' + name, name.replace('/', '//'), './/' + name, 's/./../' + name,
                                  's/t/../../' + name, name.replace('/', '/./'), './s/../' + name])
        text = S3 + f'package p; import "{written}"; message M {{ {use} }}'
        arg = rng.choice(['@/' + main, up + main])
        if rng.random() < .4:
            # other files of the name of the main file: the import path is not for it
            for d in dirs:
                x = os.path.normpath(os.path.join('/', d, up + main)).lstrip('/')
                if x != main:
                    files.setdefault(x, S3 + 'message Decoy { }')
        lang.add('search', [case(text, cwd=cwd, files=list(files.items()), main=main, arg=arg, paths=paths,
                                 search=[dirs[i] for i in order] + [cwd])])
    # several imports: order, packages, repetitions, the file itself, imports of imports, files that are not imported
    pk = ['', 'package p; ', 'package q; ', 'package p.r; ']
    for _ in range(scaled(900, 9000)):
        n = rng.choice([1, 2, 2, 3, 4])
        names = [f'f{i}.proto' for i in range(n)]
        files = []
        for i, f in enumerate(names):
            dep = rng.choice([x for x in names + ['other.proto'] if x != f])
            d = rng.choice(['enum X { Z = 0; }', 'message X { }', 'message Y { message X {} }', ''])
            text = rng.choice(pk) + (f'import "{dep}"; ' if rng.random() < .3 else '') + d
            if rng.random() < .04:
                text = text.replace('}', '', 1)
            files.append((f, S3 + text))
        files.append(('other.proto', S3 + rng.choice(pk) + 'message X { } message O { }'))
        use = names + rng.choice([[], [], ['other.proto'], [names[0]], ['m.proto'], [rng.choice(NOWHERE)], [rng.choice(NOWHERE)], ['d/f0.proto']])
        rng.shuffle(use)
        pkg = rng.choice(pk)
        dot = rng.choice(['', '', '', './', 'd/../', './/'])
        files.append(('d/zz', ''))
        imps = [f'import {rng.choice(["", "", "weak ", "public "])}"{dot}{f}"; ' for f in use[:rng.choice([len(use), 2])]]
        ref = rng.choice(['X', '.X', 'p.X', 'q.X', '.p.r.X', 'O', 'Y'])
        mid = [pkg] + imps
        rng.shuffle(mid)
        text = S3 + ''.join(mid) + f'message M {{ {ref} x = 1; }} ' + rng.choice(['', 'message X { }'])
        lang.add('several', [case(text, files=files)])
    lang.judge({'rejects', 'model.imports', 'model.file', 'model.types', 'model.package', 'accepts.import', 'accepts.type',
                'error.text'})
    c.notes['bounds'] = ('presence of a file in 5 directories x lists of at most 3 import paths (relative, absolute, from '
                         'two working directories)' + (' (sampled)' if core.quick() else '') + '; random sets of imports')
    return c.finish()


# ------------------------------------------------------------------ C20

def undefined(rng):
    """A valid file with one reference to something that is not declared."""
    place = rng.randrange(8)
    ref = rng.choice(['Nope', 'a.Nope', '.Nope', 'p.Nope', '.p.Nope', 'M.Nope', 'M.In', 'In2', 'int', 'e', 'm', 'T', 'Fo',
                      'Deep', 'In.Deep', 'PbtoolsMap', 'q.Kind', 'Kind', 'q.r.Nope', 'S', 'f', 'double2', 'int32.int32'])
    at = ['' for _ in range(8)]
    at[place] = ['%s x = 90;', 'repeated %s x = 90;', 'optional %s x = 90;', 'oneof w { int32 y = 91; %s x = 90; }',
                 'map<int32, %s> x = 90;'][rng.randrange(5)] % ref
    text = (S3 + 'package p; import "sub/i2.proto"; message Fo { %s } message M { %s enum E { Z = 0; } message In { %s '
            'message Deep { %s } } %s oneof o { In a = 1; } In f = 2; map<string, E> g = 3; } service S { rpc R (Zip) '
            'returns (Zap); } message T { message In2 { %s } %s Fo f = 1; } %s')
    at[7] = '' if not at[7] else 'message Z { %s }' % at[7]
    return case(text % tuple(at), files=G.SUPPORT[1:2])


REJECTED = [
    'syntax = "proto2";', "syntax = 'proto3';", 'syntax = "proto3"', '', ' ', '// only', 'message A {}', 'syntax "proto3";',
    'syntax = proto3;', S3 + 'message {}', S3 + 'message A', S3 + 'message A {', S3 + 'message A { int32 x = 1; ',
    S3 + 'message A }', S3 + 'message A { } }', S3 + 'message A { { } }', S3 + 'message A { int32 x 1; }',
    S3 + 'message A { int32 = 1; }', S3 + 'message A { int32 x = ; }', S3 + 'message A { int32 x = 1 }',
    S3 + 'message A { int32 x = "1"; }', S3 + 'message A { int32 x = a; }', S3 + 'message A { x = 1; }',
    S3 + 'message A { required int32 x = 1; }', S3 + 'message A { group G = 1 { } }', S3 + 'message A { extensions 1 to 2; }',
    S3 + 'extend A { int32 x = 1; }', S3 + 'message A { extend B { } }', S3 + 'enum A { X; }', S3 + 'enum A { X = a; }',
    S3 + 'enum A { X = 1 }', S3 + 'enum { X = 1; }', S3 + 'enum A { reserved 1; }', S3 + 'enum A { reserved "a"; X = 0; }',
    S3 + 'enum A { X = 0, Y = 1; }', S3 + 'message A { oneof { int32 x = 1; } }', S3 + 'message A { oneof o { oneof p { } } }',
    S3 + 'message A { oneof o { repeated int32 x = 1; } }', S3 + 'message A { oneof o { message B { } } }',
    S3 + 'message A { map<int32> x = 1; }', S3 + 'message A { map<int32, map<int32, int32>> x = 1; }',
    S3 + 'message A { map int32 x = 1; }', S3 + 'message A { map<int32, int32 x = 1; }', S3 + 'oneof o { }',
    S3 + 'int32 x = 1;', S3 + 'reserved 1;', S3 + 'message A { reserved; }', S3 + 'message A { reserved 1, "a"; }',
    S3 + 'message A { reserved 1 to; }', S3 + 'message A { reserved max; }', S3 + 'message A { reserved a; }',
    S3 + 'message A { reserved 1 }', S3 + 'import a;', S3 + 'import "a.proto"', S3 + 'import;', S3 + 'import weak public "a";',
    S3 + 'import "proto3";', S3 + 'package;', S3 + 'package "a";', S3 + 'package a', S3 + 'package a.;', S3 + 'package .a;',
    S3 + 'package a..b;', S3 + 'option;', S3 + 'option a;', S3 + 'option a = ;', S3 + 'option a = 1', S3 + 'option a = { };',
    S3 + 'option a = 1.5;', S3 + "option a = 'x';", S3 + 'option a = "x" "y";', S3 + 'option (a = 1;', S3 + 'option a) = 1;',
    S3 + 'option [a] = 1;', S3 + 'option a = [1];', S3 + 'option = 1;', S3 + 'service { }', S3 + 'service S { rpc; }',
    S3 + 'service S { rpc R (A); }', S3 + 'service S { rpc R (A) returns A; }', S3 + 'service S { rpc R () returns (A); }',
    S3 + 'service S { rpc R (A) returns (A) }', S3 + 'service S { int32 x = 1; }', S3 + 'service S { message A { } }',
    S3 + 'service S { rpc R (stream A) returns (stream stream A); }', S3 + 'rpc R (A) returns (A);', S3 + '}', S3 + '{ }',
    S3 + 'message A { int32 x = 1 [deprecated = true; }', S3 + 'message A { int32 x = 1 []; }',
    S3 + 'message A { int32 x = 1 [a]; }', S3 + 'message A { int32 x = 1 [a = 1,]; }', S3 + 'message A { int32 x = 1 [a = {}]; }',
    S3 + 'message A { int32 x = 1, int32 y = 2; }', S3 + 'message A { int32 x, y = 1; }', S3 + 'message A { int32 x.y = 1; }',
    S3 + 'message A.B { }', S3 + 'enum A.B { X = 0; }', S3 + 'message A { a. b x = 1; }', S3 + 'message A { .. x = 1; }',
    S3 + 'message A { a..b x = 1; }', S3 + 'syntax = "proto3";', S3 + 'message A { syntax = "proto3"; }',
    S3 + 'message A { package a; }', S3 + 'message A { import "b"; }', S3 + 'message A { service S { } }', S3 + 'edition = "2023";',
    S3 + 'message A { optional repeated int32 x = 1; }', S3 + 'message A { optional map<int32, int32> x = 1; }',
    S3 + 'message A { optional oneof o { int32 x = 1; } }', S3 + 'message 1A { }', S3 + 'message _A { }', S3 + 'message A-B { }',
    S3 + 'export message A { }', S3 + 'message A { int32 x = 08; }', S3 + 'message A { int32 x = 0xg; }',
    S3 + 'message A { int32 x = 1;; } ;; };', S3 + 'weak "a";', S3 + 'message A { } message', S3 + 'enum E { A = 0; } enum',
    S3 + 'package', S3 + 'import', S3 + 'option', S3 + 'service', S3 + 'message A { oneof', S3 + 'message A { map', 'syntax',
    'syntax =', '"proto3"', ';' + S3, 'package a; ' + S3]


def invalid_project(rng):
    """A history: several inputs of which one is invalid in some way; what was
    generated before must stay as it is."""
    n = rng.choice([1, 2, 3])
    h = History()
    names = rng.sample(['a.proto', 'Bee.proto', 'd/cc.proto', 'x_y.proto'], n)
    good = {}
    for i, f in enumerate(names):
        g = G.Gen(rng, size=1, odd=.02)
        good[f] = G.plain(rng, g.file())
        for p, t in g.support():
            h.write(p, t)
        h.write(f, good[f])
    if rng.random() < .7:
        h.run(names, upper=rng.random() < .5)
    k = rng.randrange(n)
    w = rng.randrange(6)
    if w == 0:
        h.write(names[k], rng.choice(REJECTED))
    elif w == 1:
        h.write(names[k], G.mutate_text(rng, good[names[k]]))
    elif w == 2:
        h.write(names[k], good[names[k]] + ' message Zz { Undefd x = 1; }')
    elif w == 3:
        h.write(names[k], good[names[k]] + ' message Zz { message In { } optional In x = 1; }')
    elif w == 4:
        h.write(names[k], good[names[k]] + ' import "not/there.proto";')
    else:
        h.remove(names[k])
    if rng.random() < .3:
        h.run(names, out='fresh/new')
    if rng.random() < .4:
        h.mkdir('out').run(names, lang=rng.choice(['rust', 'mys']))
    h.run(names)
    if rng.random() < .3:
        h.write(names[k], good[names[k]]).run(names)
    return h


def c20():
    c = core.Check('C20')
    rng = c.rng
    lang = Lang(c)
    lang.add('listed', [case(t) for t in REJECTED])
    for t in REJECTED:
        lang.add('listed', [case(S3 + 'import "i.proto"; message M { }', files=[('i.proto', t)])])
    lang.add('undefined', [undefined(rng) for _ in range(scaled(500, 6000))])
    lang.add('damaged', langgen.derivations(rng, c, scaled(300, 9000), damage=True))
    for _ in range(scaled(350, 7000)):
        g = G.Gen(rng, size=rng.choice([1, 1, 2]))
        tk = g.file()
        sup = g.support()
        lang.add('tokens', [case(G.plain(rng, G.mutate(rng, tk)), files=sup) for _ in range(4)])
        lang.add('text', [case(G.mutate_text(rng, G.plain(rng, tk)), files=sup) for _ in range(2)])
        t = G.plain(rng, tk)
        lang.add('truncated', [case(t[:rng.randrange(len(t))], files=sup), case(G.plain(rng, tk[:rng.randrange(len(tk))]), files=sup)])
    if not core.quick():
        # every truncation and every deletion, repetition and exchange of a token
        for _ in range(60):
            g = G.Gen(rng, size=1)
            tk = g.file()
            sup = g.support()
            lang.add('truncated', [case(' '.join(tk[:i]), files=sup) for i in range(len(tk))])
            lang.add('tokens', [case(' '.join(tk[:i] + tk[i + 1:]), files=sup) for i in range(len(tk))])
            lang.add('tokens', [case(' '.join(tk[:i] + tk[i:i + 1] + tk[i:]), files=sup) for i in range(len(tk))])
            lang.add('tokens', [case(' '.join(tk[:i] + [v] + tk[i + 1:]), files=sup) for i in range(len(tk))
                                for v in rng.sample(G.VOCAB, 3)])
    hs = [invalid_project(rng) for _ in range(scaled(120, 2500))]
    for t in (rng.sample(REJECTED, 40) if core.quick() else REJECTED):
        hs.append(History().write('good.proto', S3 + 'message A { int32 x = 1; }').write('bad.proto', t)
                  .run(['good.proto', 'bad.proto', 'good.proto']))
    lang.histories('runs', hs)
    lang.judge({'accepts.*', 'error.text', 'error.position', 'run.exit', 'run.error', 'run.message', 'run.touched',
                'run.missing'})
    c.notes['bounds'] = ('%d listed files that are not valid, each also as an import; undefined names; token and text '
                         'mutations and truncations of random derivations; runs of the tool over several inputs of which '
                         'one is not valid' % len(REJECTED))
    return c.finish()


# ------------------------------------------------------------------ C19

def project(rng):
    """A few files that import each other: {path: text}."""
    n = rng.choice([2, 3, 3, 4])
    names = rng.sample(['a.proto', 'FooBar.proto', 'sub/c.proto', 'sub/deep/dD.proto', 'e-f.v1.proto', 'HTTP2x.proto'], n)
    files = {}
    for i, f in enumerate(names):
        pkg = rng.choice(['p', 'p.q', 'r', ''])
        deps = [x for x in names[:i] if rng.random() < .6]
        body = []
        for x in deps:
            j = names.index(x)
            body.append(f'import "{x}";')
        if pkg:
            body.append(f'package {pkg};')
        types = []
        for x in deps:
            xp = re.search(r'package ([\w.]+);', files[x])
            types.append((xp.group(1) + '.' if xp else '.') + f'M{names.index(x)}')
        fs = []
        for k in range(rng.choice([1, 2, 4])):
            t = rng.choice(types + ['int32', 'string', f'M{i}', f'E{i}', 'bytes', 'bool'])
            fs.append(rng.choice([f'{t} f{k} = {k + 1};', f'repeated {t} f{k} = {k + 1};',
                                  f'oneof o{k} {{ {t} f{k} = {k + 1}; int32 g{k} = {k + 30}; }}',
                                  f'map<int32, {t}> f{k} = {k + 1};']))
        more = ''.join(f'message N{i}_{k} {{ {rng.choice(["int32 x = 1;", f"M{i} x = 1;", f"repeated N{i}_0 x = 1;"])} }} '
                       for k in range(rng.randrange(4)))
        body += [f'message M{i} {{ {" ".join(fs)} }}', f'enum E{i} {{ A{i} = 0; B{i} = {rng.randrange(5)}; }}', more]
        files[f] = S3 + rng.choice(['', '', '// naïve 日本 😀\n']) + '\n'.join(body) + '\n'
    return files


def spelled(rng, cwd, path):
    """A path relative to the root, as given in a command run in cwd."""
    k = rng.random()
    if k < .3:
        return '@/' + path if path else '@'
    rel = os.path.relpath('/' + path, '/' + cwd)
    if k < .45:
        return './' + rel
    return rel


def det_history(rng):
    files = project(rng)
    names = list(files)
    h = History()
    for f in names:
        h.write(f, files[f])
    h.write('out/keep.txt', 'mine').write('other.txt', 'x')
    h.mkdir('work/here')

    def run(ins, out=None, upper=False):
        cwd = rng.choice(['', '', 'work', 'work/here', 'sub2'])
        if cwd == 'sub2':
            h.mkdir('sub2')
        out = out if out is not None else rng.choice(['out', 'out', 'out2', 'x/y', ''])
        # (the other generators write into a directory that is there)
        lang = rng.choice(['c', 'c', 'rust', 'mys']) if out in ('', 'out') and not upper else 'c'
        h.run(ins, out=out, search=[''] if cwd or rng.random() < .5 else [], cwd=cwd, upper=upper,
              infiles=[spelled(rng, cwd, p) for p in ins], outarg=spelled(rng, cwd, out),
              paths=[spelled(rng, cwd, '')] if cwd else ([rng.choice(['.', '@'])] if h.steps and False else None))
        s = h.steps[-1]
        if s['search'][:-1] == [''] and not cwd:
            s['argv'][s['argv'].index('-I') + 1] = rng.choice(['.', '@', './'])
    for f in names:
        run([f], out='alone')
    for _ in range(rng.choice([2, 3, 4])):
        k = rng.random()
        if k < .2:
            # stale files where output will be
            f = rng.choice(names)
            name = rng.choice(['foo_bar', 'a', 'c', 'd_d', 'e_f_v1', 'http2x'])
            h.write('out/' + name + rng.choice(['.h', '.c']), rng.choice(['', 'stale ' * 5000]))
        elif k < .5:
            # an edit, and maybe back
            f = rng.choice(names)
            g = files[f].replace('int32', 'int64') if rng.random() < .5 else files[f] + 'message Extra { int32 z = 1; }\n'
            h.write(f, g)
            run(rng.sample(names, rng.randrange(1, len(names) + 1)))
            h.write(f, files[f])
        elif k < .6:
            f = rng.choice(names)
            h.remove(f)
            run(names)
            h.write(f, files[f])
        run(rng.sample(names, rng.randrange(1, len(names) + 1)), upper=rng.random() < .25)
    run(names)
    run(list(reversed(names)), out='out')
    return h


def c19():
    c = core.Check('C19')
    rng = c.rng
    lang = Lang(c)
    lang.histories('projects', [det_history(rng) for _ in range(scaled(60, 700))], seeds=('0', '1', str(rng.randrange(2, 10**6))))
    lang.histories('generated', langgen.histories(rng, c, scaled(110, 4000)), seeds=('0', '5'))
    # whole-language inputs: alone, together, in both orders, under several hash seeds
    hs = []
    for _ in range(scaled(60, 700)):
        h = History()
        names = []
        for i in range(rng.choice([2, 3])):
            g = G.Gen(rng, size=rng.choice([1, 2, 3]), odd=.05)
            t = G.plain(rng, g.file())
            f = f'f{i}.proto'
            h.write(f'f{i}/' + f, t)
            for p, x in g.support():
                h.write(f'f{i}/' + p, x)
            names.append((f'f{i}', f))
        # every input has its own import path, so it is run alone in its directory; together only without imports
        for d, f in names:
            h.run([f'{d}/{f}'], out=f'{d}/out', cwd=d, infiles=[f], outarg='out', search=[], paths=[])
            h.run([f'{d}/{f}'], out='o2', search=[d], paths=['@/' + d], infiles=[f'@/{d}/{f}'])
        free = [f'{d}/{f}' for d, f in names if 'import' not in next(s['text'] for s in h.steps if s.get('path') == f'{d}/{f}')]
        if free:
            h.run(free, out='o3').run(free[::-1], out='o3').run(free[::-1], out='o4')
            h.mkdir('o5').run(free, out='o5', lang='rust').run(free[::-1], out='o5', lang='rust')
            h.run(free, out='o5', lang='mys').run(free[::-1], out='o5', lang='mys')
        hs.append(h)
    lang.histories('language', hs, seeds=('0', '7', str(rng.randrange(8, 10**6))))
    lang.judge({'run.exit', 'run.content', 'run.touched', 'run.missing'})
    c.notes['bounds'] = 'random histories of runs, edits and stale files, each under 3 hash seeds and in different directories'
    return c.finish()


# ------------------------------------------------------------------ C17

def named_file(n):
    """A file in which the identifier n has every role that has a C name."""
    return (S3 + f'package pk.{n}; enum En{n} {{ Ka{n} = 0; {n}Kb = 5; Kc{n}z = -3; }}\n'
            f'message A{n} {{ enum En{n} {{ Kd{n} = 1; }} message {n}In {{ uint32 {n} = 1; En{n} e{n} = 2; }}\n'
            f'  int32 {n} = 1; string s{n} = 2; repeated bytes by{n} = 3; optional sint64 op{n} = 4; repeated string rs{n} = 5;\n'
            f'  {n}In in{n} = 6; repeated {n}In ri{n} = 7; repeated En{n} re{n} = 8; optional En{n} oe{n} = 9;\n'
            f'  oneof {n}of {{ bool ob{n} = 10; {n}In oi{n} = 11; En{n} on{n} = 12; string os{n} = 13; bytes oy{n} = 14; }}\n'
            f'  map<string, {n}In> mm{n} = 15; optional string t{n} = 16; optional bytes u{n} = 17;\n'
            f'  message Deep{n} {{ enum {n}X {{ V{n} = 7; }} oneof q{n} {{ fixed64 w{n} = 1; float fl{n} = 2; }} }} }}\n')


def c17():
    c = core.Check('C17')
    rng = c.rng
    b = Batch(c, {'interface', 'generates', 'links'})
    made = langgen.identifiers(rng, c)
    ids = [n for n in made if len(n) <= scaled(4, 5)]
    if not core.quick():
        ids += rng.sample([n for n in made if len(n) > 5], 1500)
    more = ['HTTPServer', 'getHTTPResponseCode', 'fooBAR', 'FOO', 'Foo_Bar', 'foo__bar', 'x2Y', 'X2y', 'aBcDeF', 'ABc', 'Ab1C', 'a1b2',
            'A1B2', 'utf8String', 'UTF8', 'v1beta1', 'V1Beta1', 'Foo_', 'f__', 'A_B_C', 'A__Bc', 'aB_Cd', 'Z', 'zZ9', 'PbtoolsMap']
    ids += [x for x in more if x not in ids]
    # longer names
    ids += list(dict.fromkeys(''.join([rng.choice('abXY')] + [rng.choice('abXYZ019_') for _ in range(rng.randrange(5, 14))])
                              for _ in range(scaled(60, 1200))))
    b.add('identifiers', [dict(case(named_file(n), main='nm.proto'), upper=(i + core.SEED) % 3 == 0) for i, n in enumerate(ids)])
    b.add('large', [dict(case(t, main='mn.proto', files=fs, search=['']), upper=rng.random() < .5) for t, fs in large_files(rng)])
    for _ in range(scaled(60, 900)):
        b.add('random', [dict(t, upper=rng.random() < .4) for t in [random_valid(rng)]])
    b.judge(iface=True, cxx=False, link=scaled(12, 60))
    c.notes['bounds'] = (f'every identifier of at most {scaled(4, 5)} characters over a, B, 1, _ in every role; longer ones; '
                         'random files; both spellings of the constants')
    return c.finish()


FILE_NAMES = ['3d-x.proto', 'FooBar.proto', 'e-f.v1.proto', 'HTTP2x.proto', '2.proto', 'sub/9a.proto', 'x y.proto', 'A.proto',
              'no_extension', 'a.b.c.proto', 'sub/deep/Foo2Bar.proto', '_x.proto', 'x_.proto', 'PROTO.PROTO', '0x10.proto',
              'class.proto', 'void.proto', 'x+y.proto', 'u8.proto', '1_2.proto']


def named_files(rng, main, imported):
    """Two files with names of which one imports the other."""
    if re.sub(r'\W', '', os.path.basename(main)).lower() == re.sub(r'\W', '', os.path.basename(imported)).lower():
        imported = 'other.proto'
    return case(S3 + f'import "{imported}"; package p; message A {{ q.B b = 1; repeated q.B c = 2; q.E e = 3; oneof o {{ q.B d = 4; '
                'int32 f = 5; } }', main=main, files=[(imported, S3 + 'package q; message B { B b = 1; } enum E { Z = 0; }')],
                search=[''])


def random_valid(rng):
    """A random file whose names do not clash in C."""
    g = G.CGen(rng)
    return case(g.file(), main='mn.proto', files=g.files, search=[''])


# ------------------------------------------------------------------ C15

KINDS = ['%s %s = %d; ', 'repeated %s %s = %d; ', 'oneof o%s { int32 z%s = 9%d; %s %s = %d; } ', 'map<int32, %s> %s = %d; ']


def graph(parents, order, edges, pkg='g', enums=False):
    """Messages T0..Tn-1, message i inside parents[i] (or at the top), written
    in the given order; edges: (i, j, kind)."""
    n = len(parents)

    def fields(i):
        out = ''
        for k, (a, b, kind) in enumerate(edges):
            if a != i:
                continue
            if kind == 2:
                out += f'oneof o{k} {{ int32 z{k} = {50 + k}; T{b} f{k} = {k + 1}; }} '
            else:
                out += KINDS[kind] % (f'T{b}', f'f{k}', k + 1)
        if enums:
            out += f'E{i} e{i} = 30; repeated E{i} r{i} = 31; enum E{i} {{ K{i} = 0; }} '
        return out

    def msg(i):
        sub = ''.join(msg(j) for j in order if parents[j] == i)
        # fields before and after the nested messages
        return f'message T{i} {{ {fields(i)}{sub}}} ' if (i + len(edges)) % 2 else f'message T{i} {{ {sub}{fields(i)}}} '
    return S3 + (f'package {pkg}; ' if pkg else '') + ''.join(msg(i) for i in order if parents[i] is None)


def forests(n):
    for p in itertools.product([None] + list(range(n)), repeat=n):
        ok = True
        for i in range(n):
            seen, j = set(), i
            while j is not None and j not in seen:
                seen.add(j)
                j = p[j]
            ok = ok and j is None
        if ok:
            yield p


def visible(parents, i, j):
    """May message i name message j by its plain name?"""
    scope = i
    while True:
        if parents[j] == scope:
            return True
        if scope is None:
            return False
        scope = parents[scope]


def graphs(n, longest):
    for p in forests(n):
        pairs = [(i, j, k) for i in range(n) for j in range(n) for k in range(4) if visible(p, i, j)]
        for order in itertools.permutations(range(n)):
            for m in range(longest + 1):
                for e in itertools.combinations(pairs, m):
                    yield p, order, e


NAMED = ['Int32', 'String', 'Bool', 'Bytes', 'Float', 'Double', 'Uint64', 'Sint32', 'Fixed64', 'Sfixed32', 'INT32', 'sTring', 'Value',
         'Message', 'Enum', 'Optional', 'Repeated', 'Heap', 'Encoder', 'Decoder', 'Pbtools', 'Self', 'Length', 'Items']


def c15():
    c = core.Check('C15')
    rng = c.rng
    b = Batch(c, {'generates', 'compiles', 'links'})
    every = list(graphs(3, 2))
    if core.quick():
        small = [g for g in every if len(g[2]) <= 1]
        every = rng.sample(small, 160) + rng.sample(every, 480)
    else:
        every = rng.sample(every, min(len(every), 12000))
    b.add('graphs', [case(graph(p, o, e, enums=rng.random() < .3, pkg=rng.choice(['g', 'g', 'a.B.c', '']))) for p, o, e in every])
    big = []
    for _ in range(scaled(120, 2500)):
        n = rng.choice([3, 4, 5])
        p = [None] * n
        for i in range(1, n):
            p[i] = rng.choice([None, None] + list(range(i)))
        order = list(range(n))
        rng.shuffle(order)
        pairs = [(i, j, k) for i in range(n) for j in range(n) for k in range(4) if visible(p, i, j)]
        e = rng.sample(pairs, min(len(pairs), rng.randrange(2, 9)))
        big.append(case(graph(p, order, e, enums=rng.random() < .5)))
    b.add('large_graphs', big)
    b.add('large', [case(t, main='mn.proto', files=fs, search=['']) for t, fs in large_files(rng)])
    b.add('files', [named_files(rng, x, rng.choice(FILE_NAMES)) for x in FILE_NAMES])
    b.add('files', [named_files(rng, rng.choice(FILE_NAMES), x) for x in FILE_NAMES])
    # messages and enums named like something of C, the language or the library
    for n in NAMED:
        # without a package these would have the C names int32_t, uint64_t and pbtools_...
        for pkg in ('', 'package p; ') if n.lower() not in ('int32', 'uint64', 'pbtools') else ('package p; ',):
            b.add('names', [case(S3 + pkg + f'message {n} {{ int32 a = 1; }} message U {{ {n} x = 1; repeated {n} y = 2; oneof o {{ '
                                 f'{n} z = 3; int32 w = 4; }} map<string, {n}> m = 5; }}'),
                            case(S3 + pkg + f'enum {n} {{ A = 0; }} message U {{ {n} x = 1; repeated {n} y = 2; optional {n} v = 6; '
                                 f'oneof o {{ {n} z = 3; int32 w = 4; }} map<string, {n}> m = 5; }}'),
                            # (U.Repeated would have the C name of the repeated U)
                            case(S3 + pkg + f'message U {{ message {n}{"x" * (n == "Repeated")} {{ }} int32 x = 1; }}')])
    # messages and enums named like the scalar types; the plain name still means the scalar type
    for n in G.SCALARS:
        for pkg, p in (('p', 'p.'), ('p.q', '.p.q.'), ('', '.')):
            if not pkg and n in ('int32', 'int64', 'uint32', 'uint64'):
                continue
            own = f'package {pkg}; ' if pkg else ''
            uses = (f'{p}{n} a = 1; repeated {p}{n} b = 2; oneof o {{ {p}{n} c = 3; {n} d = 4; }} map<int32, {p}{n}> e = 5; '
                    f'{n} f = 6; repeated {n} g = 7; optional {n} h = 8; map<int32, {n}> i = 9; ')
            decl = rng.choice([f'message {n} {{ {n} x = 1; }} ', f'message {n} {{ {p}{n} x = 1; enum E {{ K = 0; }} E y = 2; }} '])
            en = f'enum {n} {{ Z{n} = 0; }} '
            for t, more in ((decl, ''), (en, f'optional {p}{n} j = 10; ')):
                parts = [t, f'message U {{ {uses}{more}}} ']
                rng.shuffle(parts)
                b.add('scalar_names', [case(S3 + own + ''.join(parts)),
                                       case(S3 + rng.choice([own, 'package z; ']) + f'import "x.proto"; message U {{ {uses}{more}}}',
                                            files=[('x.proto', S3 + own + t)])])
    # every kind of member alone, and any two of them
    kinds = [f'{lab}{t} {{}} = {{}}; ' for t in G.SCALARS for lab in ('', 'repeated ', 'optional ')]
    kinds += [f'oneof o{{}} {{{{ {t} {{}} = {{}}; }}}} ' for t in G.SCALARS] + [f'map<int32, {t}> {{}} = {{}}; ' for t in G.SCALARS]

    def member(i, k):
        return kinds[k].format(i, f'f{i}', i + 1) if 'oneof' in kinds[k] else kinds[k].format(f'f{i}', i + 1)
    for k in range(len(kinds)):
        b.add('members', [case(S3 + f'message M {{ {member(0, k)}}}')])
    for _ in range(scaled(60, 1500)):
        ks = [rng.randrange(len(kinds)) for _ in range(rng.choice([2, 2, 3, 5]))]
        b.add('members', [case(S3 + 'package z; message M { ' + ''.join(member(i, k) for i, k in enumerate(ks)) + '}')])
    for t in ['', 'message A { }', 'message A { message B { message C { } } }', 'enum E { Z = 0; }', 'package only;',
              'service S { }', 'import "x.proto";', 'import "sub/x.proto"; message A { .X x = 1; }', 'message A { A a = 1; }',
              'message A { repeated A a = 1; }', 'message A { oneof o { A a = 1; } }', 'message A { map<int32, A> a = 1; }']:
        b.add('small', [case(S3 + t, files=[('x.proto', S3 + 'message X { }'), ('sub/x.proto', S3 + 'message X { int32 y = 1; }')][
            (1 if 'sub/' in t else 0):][:1])])
    for _ in range(scaled(120, 2000)):
        b.add('random', [dict(random_valid(rng), upper=rng.random() < .3)])
    b.judge(iface=True, cxx=scaled(200, 1500), link=scaled(60, 600))
    if not core.quick():
        for _ in range(600):
            b.add('optimised', [random_valid(rng)])
        b.judge(iface=True, cxx=0, wflags=('-O2', '-Wshadow'))
    c.notes['bounds'] = ('3 messages in every nesting and order with at most 2 references of 4 kinds (sampled), larger random '
                         'graphs, every kind of member, random files of the whole language')
    return c.finish()
