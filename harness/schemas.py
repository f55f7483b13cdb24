"""Schemas the runtime checks use: a fixed set that covers every construct and
random ones."""
import random

from .schema import (F, Msg, Enum, File, SCALARS, MAP_KEYS, KINDS)

BOUNDARY_NUMBERS = [1, 2, 15, 16, 17, 127, 128, 255, 256, 2047, 2048, 18999, 20000, 262143, 262144,
                    33554431, 33554432, 268435455, 268435456, 536870911]


def core():
    """Returns ([File], namespace of messages)."""
    ns = {}
    lib_enum = Enum('Lv', [('LV_A', 0), ('LV_B', 9)])
    lib_msg = Msg('Lm', [F('p', 1, 'sint32'), F('q', 2, 'string'), F('r', 3, 'bytes', 'r')])
    lib = File('lib', 'other.lib', [lib_msg], [lib_enum])

    en = Enum('Co', [('CO_A', 0), ('CO_B', 1), ('CO_C', -1), ('CO_D', 2147483647),
                     ('CO_E', -2147483648), ('CO_F', 150)])
    leaf = Msg('Le', [F('v', 1, 'int32'), F('s', 2, 'string'), F('n', 3, 'uint32', 'r')])
    empty = Msg('Em')
    ns['leaf'], ns['empty'] = leaf, empty

    def kinds_fields(label, start=1, prefix='f'):
        out = []
        for i, k in enumerate(KINDS):
            if k == 'message' and label == 'o':
                continue
            ref = en if k == 'enum' else leaf if k == 'message' else None
            out.append(F(f'{prefix}{i}', start + i, k, label, ref))
        return out
    ns['sing'] = Msg('Si', kinds_fields('s'))
    ns['rep'] = Msg('Re', kinds_fields('r'))
    ns['opt'] = Msg('Op', kinds_fields('o'))
    ns['one'] = Msg('On', [F('before', 30, 'int32')], [('choice', kinds_fields('u'))])
    ns['two'] = Msg('Tw', [F('a', 5, 'int32'), F('z', 1, 'string', 'o')],
                    [('left', [F('l1', 2, 'int32', 'u'), F('l2', 9, 'string', 'u'),
                               F('l3', 3, 'message', 'u', leaf), F('l4', 12, 'bytes', 'u')]),
                     ('right', [F('r1', 4, 'bool', 'u'), F('r2', 8, 'bytes', 'u'),
                                F('r3', 7, 'enum', 'u', en), F('r4', 11, 'double', 'u')]),
                     ('solo', [F('only', 6, 'message', 'u', empty)])])
    maps = []
    for i, k in enumerate(MAP_KEYS):
        maps.append(F(f'k{i}', 1 + i, 'int32', 'm', None, k))
    for i, k in enumerate(KINDS):
        ref = en if k == 'enum' else leaf if k == 'message' else None
        maps.append(F(f'v{i}', 20 + i, k, 'm', ref, 'int32' if i % 2 else 'string'))
    ns['maps'] = Msg('Ma', maps)
    kinds = ['int32', 'string', 'fixed32', 'bool', 'double', 'bytes', 'sint64']
    ns['tags'] = Msg('Ta', [F(f't{i}', n, kinds[i % 7], 'sor'[i % 3])
                            for i, n in enumerate(BOUNDARY_NUMBERS)])
    # declaration order differs from number order
    rec = Msg('Rc')
    rec.fields = [F('x', 3, 'int32'), F('next', 1, 'message', 's', rec),
                  F('kids', 2, 'message', 'r', rec), F('t', 4, 'string')]
    rec.oneofs = [('alt', [F('sub', 5, 'message', 'u', rec), F('num', 6, 'uint64', 'u')])]
    ns['rec'] = rec
    inner_e = Enum('Ie', [('IE_A', 0), ('IE_B', 3)])
    deep = Msg('Dp', [F('d', 1, 'enum', 'r', inner_e), F('o', 2, 'enum', 'o', inner_e)])
    mid = Msg('Md', [F('p', 1, 'message', 's', deep), F('q', 2, 'message', 'r', deep),
                     F('e', 3, 'enum', 's', inner_e)], [], [deep], [inner_e])
    ns['nest'] = Msg('Ne', [F('a', 1, 'message', 's', mid), F('b', 2, 'message', 'r', mid),
                            F('c', 3, 'sfixed64', 's')], [], [mid])
    ns['mixed'] = Msg('Mx', [F('i', 1, 'int32', 's'), F('rm', 2, 'message', 'r', leaf),
                             F('ri', 3, 'sint32', 'r'), F('os', 4, 'string', 'o'),
                             F('m', 5, 'message', 's', leaf), F('rf', 6, 'fixed32', 'r'),
                             F('rs', 7, 'string', 'r'), F('rb', 8, 'bytes', 'r'),
                             F('g', 9, 'fixed64', 'r'), F('mp', 10, 'string', 'm', None, 'uint32')],
                       [('ch', [F('ca', 11, 'int64', 'u'), F('cb', 12, 'message', 'u', leaf)])])
    # big structs: many members
    ns['wide'] = Msg('Wi', [F(f'w{i}', i + 1, KINDS[i % 15], 's' if i % 4 else 'o')
                            for i in range(60)])
    order = ['leaf', 'empty', 'sing', 'rep', 'opt', 'one', 'two', 'maps', 'tags', 'rec', 'nest',
             'mixed', 'wide']
    main = File('core', 'p.q', [ns[k] for k in order], [en])
    ns['imp'] = Msg('Im', [F('a', 1, 'message', 's', lib_msg), F('b', 2, 'message', 'r', lib_msg),
                           F('c', 3, 'enum', 's', lib_enum), F('d', 4, 'enum', 'r', lib_enum)],
                    [('w', [F('u', 5, 'message', 'u', lib_msg), F('v', 6, 'enum', 'u', lib_enum)])])
    user = File('user', 'us', [ns['imp']], [], [lib])
    ns['lib'] = lib_msg
    ns['bare'] = Msg('Ba', [F('x', 1, 'sint64', 'r'), F('y', 2, 'message', 's', None)])
    bare2 = Msg('Bb', [F('z', 1, 'bool')])
    ns['bare'].fields[1].ref = bare2
    bare = File('bare', None, [bare2, ns['bare']])
    return [lib, main, user, bare], ns


def mini():
    """Small messages for exhaustive exploration."""
    leaf = Msg('Le', [F('v', 1, 'int32'), F('s', 2, 'string')])
    ns = {}
    ns['ma'] = Msg('Xa', [F('a', 1, 'uint32'), F('b', 2, 'message', 'r', leaf),
                          F('c', 3, 'sint32', 'r')],
                   [('ch', [F('d', 4, 'bool', 'u'), F('e', 5, 'message', 'u', leaf)])])
    ns['mb'] = Msg('Xb', [F('a', 1, 'fixed32', 'r'), F('b', 2, 'bytes', 'o'),
                          F('c', 3, 'message', 's', leaf), F('d', 4, 'string', 'r')])
    ns['mc'] = Msg('Xc', [F('a', 1, 'fixed64', 'o'), F('b', 2, 'bool', 'r'),
                          F('c', 3, 'uint64', 'm', None, 'bool')])
    # two oneofs, a oneof member with a large number
    ns['mo'] = Msg('Xo', [F('p', 1, 'sint64')],
                   [('ca', [F('x', 2, 'int32', 'u'), F('y', 3, 'string', 'u'), F('z', 4, 'message', 'u', leaf)]),
                    ('cb', [F('u', 2048, 'bytes', 'u'), F('w', 16, 'double', 'u')])])
    ns['mp'] = Msg('Xp', [F('a', 1, 'bool', 'o'), F('b', 2, 'string', 'o'), F('c', 3, 'sint32', 'o'),
                          F('d', 16, 'float', 'o'), F('e', 2047, 'int64', 'o')])
    xr = ns['mr'] = Msg('Xr', [F('v', 3, 'int64')])
    xr.fields += [F('n', 1, 'message', 's', xr), F('k', 2, 'message', 'r', xr)]
    ns['leaf'] = leaf
    return [File('mini', 'x', [leaf] + [ns[k] for k in ('ma', 'mb', 'mc', 'mo', 'mp', 'mr')])], ns


def random_files(rng, nmsgs=6, name='rnd', pkg=None, maxfields=8, kinds=None):
    """A random valid schema: messages refer to earlier messages and themselves,
    and some also to later ones (so that recursion goes through several)."""
    kinds = kinds or KINDS
    pkg = pkg or rng.choice(['r', 'r.s', 'rr.ss.tt'])
    enums = [Enum(f'E{i}', [(f'E{i}_Z', 0), (f'E{i}_A', rng.choice([1, 7, 150, 2**31 - 1])),
                            (f'E{i}_B', rng.choice([-1, 2, -2**31, 3000]))])
             for i in range(rng.randrange(1, 3))]
    msgs = []
    for i in range(nmsgs):
        msgs.append(random_msg(rng, f'M{chr(97 + i)}', msgs, enums, maxfields, kinds=kinds))
    # some are named like a scalar type
    for t in msgs + enums:
        if rng.random() < .2:
            t.name = rng.choice([x for x in SCALARS if x not in [y.name for y in msgs + enums]])
    for i, m in enumerate(msgs[:-1]):
        if rng.random() < 0.4:
            n = max([f.num for f in m.allfields()]) + 1
            if n < 2**29 and not 19000 <= n <= 19999:
                m.fields.insert(rng.randrange(len(m.fields) + 1),
                                F('later', n, 'message', rng.choice('ssr'), rng.choice(msgs[i + 1:])))
    return [File(name, pkg, msgs, enums)], msgs


def random_msg(rng, name, earlier, enums, maxfields=8, nested=True, kinds=None):
    m = Msg(name)
    mine = list(earlier)
    ens = list(enums)
    if nested and rng.random() < 0.3:
        e = Enum(f'{name}e', [(f'{name.upper()}E_A', 0), (f'{name.upper()}E_B', 4)])
        m.enums.append(e)
        ens.append(e)
    if nested and rng.random() < 0.35:
        x = random_msg(rng, f'{name}n', earlier, ens, 4, False, kinds)
        m.msgs.append(x)
        mine.append(x)
    nums = set()

    def num():
        while True:
            r = rng.random()
            n = (rng.randrange(1, 32) if r < 0.7 else rng.choice(BOUNDARY_NUMBERS) if r < 0.9
                 else rng.randrange(1, 2**29))
            if n not in nums and not 19000 <= n <= 19999:
                nums.add(n)
                return n

    def field(fname, label):
        k = rng.choice(kinds or KINDS)
        if k == 'message' and (label == 'o' or not mine):
            k = 'string'
        ref = rng.choice(ens) if k == 'enum' else rng.choice(mine) if k == 'message' else None
        if label == 'm':
            return F(fname, num(), k, 'm', ref, rng.choice(MAP_KEYS))
        if k == 'message' and rng.random() < 0.1 and label in 'su' and m.name[0] == 'M':
            ref = m
        return F(fname, num(), k, label, ref)
    for i in range(rng.randrange(1, maxfields)):
        m.fields.append(field(f'f{i}', rng.choice('sssssrrrrooom' if nested else 'ssrro')))
    for o in range(rng.choice([0, 0, 1, 1, 2])):
        m.oneofs.append((f'ch{o}', [field(f'u{o}_{j}', 'u') for j in range(rng.randrange(1, 4))]))
    return m
