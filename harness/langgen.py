"""Inputs and histories of the schema language generated from the specification by
TLC (ProtoGrammar, ProtoLayout, ProtoScopes, ProtoSearch, ProtoIdents, ProtoSystem).
TLC checks the lemmas of these modules on the way; a failure there is a defect of
the specification, never a verdict on the code."""
import json
import os

from . import core
from .language import History, case

S3 = 'syntax = "proto3";\n'
_n = [0]


def q(a, b):
    return a if core.quick() else b


def explore(c, module, confs):
    """Runs TLC once per configuration; the lists of what it printed."""
    _n[0] += 1
    tag = _n[0]

    def one(a):
        i, cf = a
        path = os.path.join(core.scratch(), f'{module}-{tag}-{i}.json')
        with open(path, 'w') as fo:
            json.dump(dict(cf, print=1), fo)
        rc, out = core.tlc(module, env=dict(PB_MODEL=path), stack='200m')
        if rc != 0 or 'No error has been found' not in out:
            raise core.Machinery(f'{module}: the specification breaks its own properties:\n' + out[-3000:])
        return [json.loads(json.loads(ln)) for ln in out.split('\n') if ln.startswith('"[')], core.tlc_stats(out)
    res = core.pmap(one, list(enumerate(confs)))
    c.count('model_states', sum(s[1] for _, s in res))
    c.count('model_transitions', sum(s[0] for _, s in res))
    c.notes.setdefault('models', []).append(f'{module}: {sum(s[1] for _, s in res)} states, lemmas hold')
    return [x for x, _ in res]


def pick(rng, xs, n):
    return xs if n is None or len(xs) <= n else rng.sample(xs, n)


# ------------------------------------------------------------------ grammar

WORDS = ['message', 'enum', 'service', 'import', 'weak', 'public', 'option', 'package', 'true', 'oneof', 'map', 'repeated',
         'optional', 'reserved', 'to', 'max', 'rpc', 'returns', 'stream', 'int32', 'syntax', 'proto3']


def grammar_conf(**k):
    c = dict(root=['$File'], length=8, damage=0, dotted=0, strict=1, ids=['A', 'b'], types=['int32', 'A'], nums=['1'],
             strs=['x.proto'], alphabet=[])
    c.update(k)
    if any(x in WORDS and x != 'int32' for x in c['ids'] + c['types']):
        c['strict'] = 0     # keywords as names: the productions are ambiguous, the choices are ordered
    c['chars'] = {w: list(w) for w in WORDS + c['ids'] + c['types'] + c['nums'] + c['strs'] + c['alphabet'] if w[0].isalnum() or w[0] == '-'}
    return c


def inside(sym, before=(), after=()):
    return ['#m', 'message', 'A', '{', *before, sym, *after, '}']


ALPHABET = [';', '}', '{', '=', 'A', '1', ',', '.', 'repeated', 'message', 'x.proto', '<', '(', ')', '[', ']', 'stream', 'option']


def grammars(damage):
    one = dict(ids=['A'], types=['A'])
    if damage:
        return [grammar_conf(root=r, length=n, damage=1, alphabet=ALPHABET, **one) for r, n in (
            (inside('$Member'), q(12, 15)), (['$Service'], q(12, 15)), (['$Enum'], q(9, 12)), (['$Decl'], q(7, 8)), (['$Message'], q(8, 10)))]
    kw = ['option', 'message', 'map', 'repeated', 'reserved', 'oneof', 'optional', 'A']
    return ([grammar_conf(length=q(8, 10)), grammar_conf(root=inside('$Member'), length=q(15, 17), dotted=1, **one),
             grammar_conf(root=inside('$Body'), length=q(12, 15), **one), grammar_conf(root=['$Service'], length=q(15, 18), **one),
             grammar_conf(root=['$Enum'], length=q(12, 16), ids=['A'], nums=['1', '-2', '0x1F']),
             grammar_conf(root=inside('$Member'), length=q(10, 12), ids=kw, types=kw),
             grammar_conf(root=['$Decl'], length=q(7, 9), ids=['option', 'enum', 'stream', 'A'], types=['A', 'stream'])])


def render(toks):
    return ' '.join(f'"{t}"' if t in ('x.proto', 'proto3') else t for t in toks)


XPROTO = [('x.proto', S3 + 'message X { }')]


def derivations(rng, c, limit, damage=False):
    """Cases: complete files derived by TLC, or files with one damage."""
    out = []
    for got in explore(c, 'ProtoGrammar', grammars(damage)):
        seen = sorted({render(t) for t, hurt in got if hurt == (1 if damage else 0)})
        for t in pick(rng, seen, limit):
            out.append(case(S3 + t, files=XPROTO if 'import' in t else ()))
    return out


# ------------------------------------------------------------------ layout

LAYOUTS = [dict(frags=[list(x) for x in ('//', '/*', '*/', '"', '\n', ' ', ';', 'a', '/', '*', '\\')], length=3),
           dict(frags=[list(x) for x in ('//', '/*', '*/', '"', '\n', 'a', '\\')], length=4)]
DEEP_LAYOUTS = [dict(frags=[list(x) for x in ('//', '/*', '*/', '"', '\n', ' ', ';', 'a', '/', '*', '\\')], length=4),
                dict(frags=[list(x) for x in ('//', '/*', '*/', '"', '\n', 'a')], length=6)]


def texts(rng, c, limit):
    """Texts of fragments; "a" stands for a declaration."""
    out = []
    for got in explore(c, 'ProtoLayout', q(LAYOUTS, DEEP_LAYOUTS)):
        out += pick(rng, sorted({t[0].replace('a', 'message D {}') for t in got}), limit)
    return list(dict.fromkeys(out))


# ------------------------------------------------------------------ scopes

FORMS = ['{} f{} = {};', 'repeated {} f{} = {};', 'oneof o{1} {{ {0} f{1} = {2}; }}', 'map<int32, {}> f{} = {};']


def placement(rng, pkg, placed, refs):
    """The skeleton of ProtoScopes with the declarations placed and the given
    references (place, name)."""
    at = {}
    for s, x, k in placed:
        at[s] = at.get(s, '') + (f'enum {x} {{ V{x} = 0; }} ' if k == 'enum' else f'message {x} {{ int32 v = 1; }} ')
    use = {}
    for i, (loc, name) in enumerate(refs):
        use[loc] = use.get(loc, '') + rng.choice(FORMS).format(name, i, i + 1) + ' '
    d, u = (lambda s: at.get(s, '')), (lambda s: use.get(s, ''))
    pk = f'package {".".join(pkg)}; ' if pkg else ''

    def order(*parts):
        parts = list(parts)
        rng.shuffle(parts)
        return ''.join(parts)
    # the imports stay in the order of the specification
    main = (S3 + pk + 'import "same.proto"; import "other.proto"; import "flat.proto"; '
            + order(d('main'), 'message Outer { ' + order(u('Outer'), d('Outer'), 'message Mid { ' + order(u('Mid'), d('Mid')) + '} ') + '} ',
                    'message Third { ' + order(u('Third'), d('Third'), 'message Own { ' + order(u('Own'), d('Own')) + '} ') + '} '))
    return case(main, files=[('same.proto', S3 + pk + 'import "hidden.proto"; ' + d('same')), ('other.proto', S3 + 'package q; ' + d('other')),
                             ('flat.proto', S3 + d('flat')), ('hidden.proto', S3 + pk + d('hidden'))])


def used(pkg, x):
    p = '.'.join(pkg)
    pre = p + '.' if p else ''
    return [x, '.' + x, f'q.{x}', f'.q.{x}', pre + x, '.' + pre + x, f'Outer.{x}', f'Mid.{x}', f'Outer.Mid.{x}', f'{pre}Outer.{x}',
            f'.{pre}Outer.{x}', f'p.{x}', f'q.p.{x}']


def scopes(rng, c, limit):
    """Every placement with all the names that mean something in it; and names
    that mean nothing, one each."""
    out, wrong = [], []
    confs = [dict(names=['X'], pkg=p, length=n) for p, n in ((['p'], q(4, 9)), ([], q(3, 5)), (['q'], q(3, 4)), (['p', 'q'], q(3, 4)))]
    confs.append(dict(names=['X', 'Y'], pkg=['p'], length=q(2, 3)))
    # declarations named like scalar types
    confs += [dict(names=[x], pkg=p, length=q(2, 3)) for x, p in (('bytes', ['p']), ('string', []), ('bool', ['q']))]
    for cf, got in zip(confs, explore(c, 'ProtoScopes', confs)):
        every = {}
        for placed, meant in got:
            every[tuple(sorted(map(tuple, placed)))] = sorted(map(tuple, meant))
        for placed, meant in pick(rng, sorted(every.items()), limit):
            out.append(placement(rng, cf['pkg'], placed, meant))
            nothing = [(loc, u) for loc in ('Mid', 'Outer', 'Own', 'Third') for u in used(cf['pkg'], cf['names'][0]) if (loc, u) not in set(meant)]
            for r in pick(rng, nothing, q(1, 4)):
                wrong.append(placement(rng, cf['pkg'], placed, [r]))
    return out, wrong


# ------------------------------------------------------------------ identifiers

def identifiers(rng, c):
    confs = q([dict(letters=['a', 'B', '1', '_'], length=4)],
              [dict(letters=['a', 'B', '1', '_'], length=6), dict(letters=['a', 'b', 'B', 'C', '1', '_'], length=5)])
    names = {}
    for got in explore(c, 'ProtoIdents', confs):
        for n, s in got:
            names[n] = s
    return names


# ------------------------------------------------------------------ search

def search_confs():
    return [dict(dirs=['d1', 'd2', 'd1/s', '', 'w'], cwds=['', 'w'], most=3, name='x.proto')]


def searches(c):
    """Every set of directories that hold the file."""
    return sorted({tuple(sorted(x[0])) for got in explore(c, 'ProtoSearch', search_confs()) for x in got} | {()})


# ------------------------------------------------------------------ histories of the tool

PROJECTS = [
    {'a.proto': ['import "b.proto"; message A { .B b = 1; }', 'message A { int32 x = 1; }', 'message A { Z z = 1; }'],
     'b.proto': ['message B { }', 'enum B { Q = 0; }', 'message B {'],
     'sub/CcD.proto': ['import "b.proto"; package p; message C { repeated int32 r = 1; }', 'import "a.proto"; enum E { K = 1; }']},
    {'FooBar.proto': ['package f; message M { string s = 1; }', 'package f; message M { bytes s = 1; }', '/* open'],
     'x1.proto': ['import "FooBar.proto"; package f; message N { M m = 1; repeated M n = 2; oneof o { M p = 3; int32 i = 4; } }',
                  'import "gone.proto"; message N { }', 'message N { message In { } optional In x = 1; }'],
     'y-2.proto': ['service S { rpc R (A) returns (B); }', 'import "x1.proto"; package g; enum F { A = 0; B = 7; }', '$']},
]


def system_conf(i, **k):
    files = [dict(path=p, base=list(os.path.splitext(os.path.basename(p))[0]),
                  texts=[dict(id=f'{p} {n}', text=list(S3 + t)) for n, t in enumerate(ts)]) for p, ts in PROJECTS[i].items()]
    return dict(dict(files=files, most=2, depth=3, cmds=q(["c", "upper", "rust"], ["c", "upper", "rust", "mys"]), flaw=0), **k)


def histories(rng, c, limit):
    confs = [(0, dict()), (1, dict())] + q([], [(0, dict(depth=4, cmds=["c"])), (1, dict(most=3, cmds=["c"]))])
    out = []
    for (i, _), got in zip(confs, explore(c, 'ProtoSystem', [system_conf(i, **k) for i, k in confs])):
        names = list(PROJECTS[i])
        for hist in pick(rng, got, limit):
            h = History()
            h.write('out/keep.txt', 'mine')
            for f in names:
                h.write(f, S3 + PROJECTS[i][f][0])
            for e in hist:
                if e[0] == 'write':
                    h.write(names[e[1] - 1], S3 + PROJECTS[i][names[e[1] - 1]][e[2] - 1])
                elif e[0] == 'remove':
                    h.remove(names[e[1] - 1])
                else:
                    h.run([names[f - 1] for f in e[1]], upper=e[2] == 'upper', lang=e[2] if e[2] in ('rust', 'mys') else 'c')
            out.append(h)
    return out
