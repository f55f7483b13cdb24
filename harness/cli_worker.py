"""Runs in the interpreter of the code under test: for every history on stdin
(one JSON object per line) makes a file system, changes it and runs the command
line tool in it, and prints what was seen.
usage: cli_worker.py ROOT"""
import hashlib
import json
import os
import re
import shutil
import signal
import sys
import zlib

import pbtools


def snapshot(top):
    out = []
    for d, ds, fs in os.walk(top):
        for n in sorted(ds + fs):
            p = os.path.join(d, n)
            st = os.lstat(p)
            if n in fs:
                with open(p, 'rb') as fi:
                    dig = hashlib.sha1(fi.read()).hexdigest()
                stamp = f'{st.st_mode:o} {st.st_mtime_ns}'
            else:
                dig, stamp = 'dir', f'{st.st_mode:o}'
            out.append(dict(path=os.path.relpath(p, top), digest=dig, stamp=stamp))
    return out


def call(top, step):
    """Runs the tool in this process; returns its exit status."""
    sys.argv = ['pbtools'] + [a.replace('@', top) for a in step['argv']]
    try:
        pbtools._main()
        return 0
    except SystemExit as e:
        if e.code is None or isinstance(e.code, int):
            return e.code or 0
        print(e.code, file=sys.stderr)
    except BaseException as e:
        print('Traceback', repr(e), file=sys.stderr)
    return 1


def run(top, step, fork):
    log = top + '.log'
    cwd = os.path.join(top, step['cwd'])
    sys.stdout.flush()
    if fork:
        pid = os.fork()
        if pid == 0:
            rc = 9
            signal.alarm(60)
            try:
                os.chdir(cwd)
                fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
                os.environ['HOME'] = os.environ['TMPDIR'] = top
                rc = call(top, step)
                sys.stdout.flush()
                sys.stderr.flush()
            finally:
                os._exit(rc)
        _, st = os.waitpid(pid, 0)
        rc = os.waitstatus_to_exitcode(st)
    else:
        # as a program does that uses the package: all runs in one process
        here, env, fds = os.getcwd(), dict(os.environ), (os.dup(1), os.dup(2))
        fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        try:
            os.chdir(cwd)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            os.environ['HOME'] = os.environ['TMPDIR'] = top
            rc = call(top, step)
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            for n, saved in enumerate(fds, 1):
                os.dup2(saved, n)
                os.close(saved)
            os.close(fd)
            os.chdir(here)
            os.environ.clear()
            os.environ.update(env)
    with open(log, errors='replace') as fi:
        text = fi.read()
    os.remove(log)
    msg = text.replace(top + '/', '').replace(top, '')
    return dict(op='run', rc=rc, prefix=text[:7], msg=msg[:400],
                words=re.findall(r'[\w./-]+', msg) + re.findall(r"'(.*?)'", msg))


def isolated(top, h):
    """The history in a process of its own, which makes all its runs itself."""
    rd, wr = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        signal.alarm(200)
        try:
            os.close(rd)
            with os.fdopen(wr, 'w') as fo:
                fo.write(json.dumps(history(top, h, False)))
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as fi:
        text = fi.read()
    os.waitpid(pid, 0)
    return json.loads(text)


def history(top, h, fork=True):
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    out = []
    for s in h['steps']:
        if s['op'] == 'run':
            e = run(top, s, fork)
        else:
            p = os.path.join(top, s['path'])
            if s['op'] == 'write':
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w', encoding='utf-8', newline='') as fo:
                    fo.write(s['text'])
                # the time of a file says nothing about its content
                when = zlib.crc32(f'{s["path"]} {len(out)} {len(h["steps"])}'.encode()) % 4
                if when:
                    os.utime(p, [(1e9, 1e9), (1e9 + 7 * len(out), 1e9), (4e9, 4e9)][when - 1])
            elif s['op'] == 'mkdir':
                os.makedirs(p, exist_ok=True)
            else:
                os.remove(p)
            e = {}
        e['tree'] = snapshot(top)
        out.append(e)
    if h.get('dest'):
        # the caller wants to see the output
        src = os.path.join(top, 'out')
        if os.path.isdir(src):
            shutil.copytree(src, os.path.join(h['dest'], 'out'))
        for e in out:
            e.pop('tree')
    return out


def main():
    top = os.path.join(sys.argv[1], 'w')
    for ln in sys.stdin:
        h = json.loads(ln)
        print(json.dumps((isolated if h.get('one') else history)(top, h)), flush=True)
    shutil.rmtree(top, ignore_errors=True)


main()
