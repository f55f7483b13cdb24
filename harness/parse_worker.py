"""Runs in the interpreter of the code under test: for every job on stdin
(one JSON object per line) parses a file and prints what came out.
usage: parse_worker.py ROOT"""
import json
import os
import re
import shutil
import signal
import sys

from pbtools.parser import parse_file


def num(x):
    neg, x, limbs = x < 0, abs(x), []
    while x:
        limbs.append(x & 0xffff)
        x >>= 16
    return dict(neg=neg, limbs=limbs)


def field(f):
    label = ''
    if getattr(f, 'repeated', False):
        label += 'repeated'
    if getattr(f, 'optional', False):
        label += 'optional'
    kind = {'scalar-value-type': 'scalar'}.get(f.type_kind, f.type_kind)
    return dict(name=f.name, num=num(f.field_number), label=label, kind=kind, type=f.full_type)


def enum(e):
    return dict(name=e.name, values=[dict(name=v.name, num=num(v.field_number)) for v in e.fields])


def message(m):
    return dict(name=m.name, fields=[field(f) for f in m.fields],
                oneofs=[dict(name=o.name, fields=[field(f) for f in o.fields]) for o in m.oneofs],
                enums=[enum(e) for e in m.enums], messages=[message(x) for x in m.messages])


def option(o):
    zero = num(0)
    if o.kind == 'integer':
        return dict(name=o.name, kind=o.kind, s='', num=num(o.value))
    s = {True: 'true', False: 'false'}[o.value] if o.kind == 'bool' else o.value
    return dict(name=o.name, kind=o.kind, s=s, num=zero)


def service(s):
    return dict(name=s.name, rpcs=[dict(name=r.name, req=r.request_type, reqstream=bool(r.request_stream),
                                        res=r.response_type, resstream=bool(r.response_stream))
                                   for r in s.rpcs])


def model(p):
    return dict(package=p.package or '', options=[option(o) for o in p.options],
                services=[service(s) for s in p.services], enums=[enum(e) for e in p.enums],
                messages=[message(m) for m in p.messages])


def clean(x):
    """What the specification can read: no null, no sets, no floats."""
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    return x if isinstance(x, (str, bool, int)) else f'<{x!r}>'


EMPTY = dict(package='', options=[], services=[], enums=[], messages=[])


def job(root, j):
    top = os.path.join(root, 'w')
    shutil.rmtree(top, ignore_errors=True)
    for f in j['fs']:
        path = os.path.join(top, f['path'])
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w', encoding='utf-8', newline='') as fo:
            fo.write(f['raw'] if 'raw' in f else f['text'])
    cwd = os.path.join(top, j['cwd'])
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    sub = lambda s: s.replace('@', top)
    res = dict(ok=True, line=0, col=0, words=[], msg='', model=EMPTY, imports=[], abspath='')
    try:
        p = parse_file(sub(j['arg']), [sub(x) for x in j['paths']])
        res['model'] = clean(model(p))
        res['abspath'] = os.path.relpath(p.abspath, top)
        res['imports'] = [dict(path=str(i.path), found=os.path.relpath(i.abspath, top), package=clean(i.package or ''))
                          for i in p.imports]
    except Exception as e:
        msg = str(e)
        res.update(ok=False, msg=f'{type(e).__name__}: {msg}'[:300], words=re.findall(r'[\w./-]+', msg) + re.findall(r"'(.*)'", msg))
        mo = re.search(r'line (\d+), column (\d+)', msg)
        if mo:
            res.update(line=int(mo.group(1)), col=int(mo.group(2)))
    os.chdir(root)
    return res


def main():
    root = sys.argv[1]
    for ln in sys.stdin:
        signal.alarm(60)
        print(json.dumps(job(root, json.loads(ln))), flush=True)
        signal.alarm(0)


main()
