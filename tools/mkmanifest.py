#!/usr/bin/env python3
"""writes MANIFEST.json from the tables below"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, 'check.py')).read()
claimed = sorted(set(re.findall(r"'(C\d\d)': '", src)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {
 'C07': ('static effect analysis: no nondeterministic source (clock, randomness, environment, hash order, addresses, hidden state) is called by any function', 'sound over the resolved calls of every function compiled from the crate; trusts that the other library functions are deterministic'),
 'C08': ('static effect and type analysis: Send/Sync/no interior mutability of the public types, who-may-call rule for files, streams, processes and global state', 'decided from the type-checked program; trusts dependencies'),
 'C10': ('path analysis of the (derived) serde code in MIR: every field written once on every path and read back from the same key and position', 'necessary and sufficient for struct-shaped serde implementations; trusts serde for the leaf types'),
 'C15': ('call-graph cycle detection over resolved instances, plus recursive-type detection', 'every function compiled from the crate; indirect calls are over-approximated; trusts library functions not to recurse'),
 'C19': ('syntax-tree lint: no user-written unsafe block, function, impl, foreign item or mutable static', 'the language then guarantees memory safety, trusting the standard library and dependencies'),
}
DEFAULT = ('abstract interpretation of MIR with path rules', 'see DESIGN.md')
try:
    exec(open(os.path.join(V, 'tools', 'techniques.py')).read())
except FileNotFoundError:
    pass
NA = {
 'C22': 'end-to-end optimality for every graph is a numerical statement about all runs of two cooperating algorithms; static rules cover its ingredients (C02, C03, C04, C05, C06, C11) but not the theorem that combines them',
 'C23': 'a statement about the amount of work on realistic inputs, which no static rule over the source can bound',
 'C24': 'a statement about the number of shortcuts and run time on realistic inputs, which no static rule over the source can bound',
 'C27': 'whether a lookup or index succeeds depends on invariants over the contents of all lists (which entries exist, which ids occur in them), which the rules here establish only as far as C04, C05, C06 and C18 need them; they do not bound every index',
}
checks = []
na = []
for p in props:
    i = p['id']
    if i in claimed:
        t, n = TECH.get(i, DEFAULT)
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i, 'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'other', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check for it has been built yet')})
json.dump({'version': 1, 'setup_cmd': 'bash tools/build.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed: the checks read the compiler\'s own intermediate representation of the unmodified tree.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
