#!/usr/bin/env python3
"""check.py <property id> : decides one property by static analysis of /repo's current source."""
import importlib
import json
import os
import sys
import threading
import time
import traceback

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'engine'))
sys.setrecursionlimit(50000)
threading.stack_size(1 << 30)

import base  # noqa: E402

CHECKS = {
    'C28': 'rules_reject:c28', 'C25': 'rules_mem:c25', 'C26': 'rules_copy:c26',
    'C01': 'rules_reuse:c01', 'C02': 'rules_query:c02', 'C04': 'rules_prep:c04', 'C05': 'rules_prep:c05', 'C06': 'rules_route:c06', 'C03': 'rules_query:c03',
    'C20': 'rules_term:c20',
    'C18': 'rules_order:c18',
    'C09': 'rules_conv:c09',
    'C16': 'rules_data:c16',
    'C17': 'rules_text:c17',
    'C11': 'rules_data:c11',
    'C14': 'rules_data:c14',
    'C12': 'rules_api:c12', 'C13': 'rules_api:c13', 'C21': 'rules_api:c21',
    'C07': 'rules_scan:c07', 'C08': 'rules_scan:c08', 'C10': 'rules_serde:c10', 'C15': 'rules_scan:c15', 'C19': 'rules_scan:c19',
}


def known_findings(pid):
    p = os.path.join(V, 'known-findings.json')
    if not os.path.exists(p):
        return {}
    return {e['key']: e for e in json.load(open(p)) if e.get('status') == 'known' and e['property'] == pid}


def main():
    pid = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in args:
        tier = 'thorough'
    t0 = time.time()
    jf = args[args.index('--json') + 1] if '--json' in args else None
    chk = None
    try:
        if jf is None:
            jf = os.path.join(V, '.build', 'dump-%d.json' % os.getpid())
            os.makedirs(os.path.dirname(jf), exist_ok=True)
            base.dump(jf, pid == 'C28')
            D = json.load(open(jf))
            os.remove(jf)
        else:
            D = json.load(open(jf))
        prog = base.Prog(D)
        chk = base.Check(pid, prog, tier)
        mod, fn = CHECKS[pid].split(':')
        getattr(importlib.import_module(mod), fn)(chk)
    except base.Fail as e:
        chk = chk or base.Check(pid, None, tier)
        chk.ob(False, 'analysis', 'analysis', str(e))
    except Exception as e:  # fail closed
        chk = chk or base.Check(pid, None, tier)
        tb = traceback.extract_tb(e.__traceback__)
        chk.ob(False, 'analysis', 'analysis', 'the analysis cannot interpret this tree: %s: %s at %s' % (type(e).__name__, e, ' < '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-6:])))
        if '--debug' in args:
            traceback.print_exc()
    kf = known_findings(pid)
    new = []
    for v in chk.violations:
        k = '%s|%s' % (v['rule'], v.get('key') or v['where'])
        v['key'] = k
        if k in kf:
            print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]['what']))
        else:
            new.append(v)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the compiler\'s MIR of the current tree; every obligation is a rule instance at a concrete construct.',
            'obligations': chk.obs, 'discharged': chk.done,
            'rules': {k: {'instances': v[0], 'holding': v[1]} for k, v in sorted(chk.rules.items())},
            'analysed': sorted(chk.units), 'samples': chk.samples[:40] or [{'none': True}],
        },
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    if chk.notes:
        ev['coverage']['notes'] = chk.notes
    if '--json' not in args or '--evidence' in args:
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    if new:
        rp = os.path.join(V, 'replays', pid + '.json')
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump({'property': pid, 'rerun': 'cd /verif && python3 check.py %s' % pid, 'violations': new}, open(rp, 'w'), indent=1, default=str)
        for v in new[:12]:
            print('  [%s] %s: %s' % (v['rule'], v['where'], v['what']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s obligations=%d rules=%d %.1fs' % (pid, chk.obs, len(chk.rules), time.time() - t0))
    return 0


rc = [1]


def go():
    rc[0] = main()


t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
