#!/usr/bin/python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed checks."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = ('TLA+ specification of the generated API (spec/PbSession, PbEncode, PbDecode), model checked with TLC '
      '(PbModel, PbWires); the behaviours TLC enumerates and many more are run on the compiled code and TLC '
      'validates every recorded trace against the specification (PbTrace)')
LANG = ('TLA+ specification of the schema language and the tool (spec/ProtoTool, ProtoRuns, ...), model checked '
        'with TLC (%s); the behaviours TLC enumerates and many more are run on the real parser, generator and '
        'command line tool and TLC judges every recorded result (%s)')
MODELS = {'C14': 'ProtoScopes', 'C15': 'ProtoNames via ProtoIdents', 'C16': 'ProtoLayout', 'C17': 'ProtoIdents', 'C18': 'ProtoSearch',
          'C19': 'ProtoSystem', 'C20': 'ProtoGrammar with damage, ProtoSystem', 'C21': 'ProtoGrammar'}
TRACE = {'C15': 'ProtoIface', 'C17': 'ProtoIface'}
NOTE = {}
NOTE_RT = ('Each recorded call of the generated code is one step of the specification, judged by TLC. Exhaustive '
           'only within the enumerated bounds; trusts TLC, the recording driver, gcc and the sanitizers.')
NOTE_LANG = ('Behaviours enumerated by TLC from the specification are replayed on the real tool and compared. '
             'Exhaustive only within the enumerated bounds; trusts TLC, CPython, gcc and the recording harness.')
NA = {'C22': 'the Rust runtime in crate/ is a stub (its reader returns constants) and the Mys compiler is not installed, '
             'so there is no behaviour to bind a specification to; what the tool writes for them is covered by C19 and C20'}
CLAIMED = os.environ.get('CLAIMED', '').split() or None


def main():
    import sys
    sys.path.insert(0, V)
    from harness import checks_runtime
    try:
        from harness import checks_language
    except ImportError:
        checks_language = None
    checks, na = [], []
    for ln in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(ln)
        pid = p['id']
        rt = hasattr(checks_runtime, pid.lower())
        lg = checks_language is not None and hasattr(checks_language, pid.lower())
        if rt or lg:
            checks.append(dict(property=pid, quick_cmd=f'./check {pid}', thorough_cmd=f'./check {pid}',
                               technique=RT if rt else LANG % (MODELS[pid], TRACE.get(pid, 'ProtoTrace')), level='model_checking',
                               level_note=NOTE.get(pid, NOTE_RT if rt else NOTE_LANG)))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, 'no check yet')))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='No hooks in /repo: everything is observed through public interfaces. '
                   'known_findings.txt lists recorded and repaired defects.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fo:
        json.dump(m, fo, indent=1)
        fo.write('\n')


main()
