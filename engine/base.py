"""Shared machinery of the checks: obtaining the program, reporting, call graph, graph queries."""
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FP_REPO', '/repo')


class Fail(Exception):
    pass


def build_tools():
    srcs = [os.path.join(V, 'driver/src/main.rs'), os.path.join(V, 'driver/Cargo.toml'), os.path.join(V, 'stdmodel/src/lib.rs')]
    outs = [os.path.join(V, 'driver/target/release/fpdriver'), os.path.join(V, 'stdmodel/target/libstdmodel.rlib')]
    if all(os.path.exists(o) for o in outs) and min(os.path.getmtime(o) for o in outs) >= max(os.path.getmtime(s) for s in srcs):
        return
    r = subprocess.run(['bash', os.path.join(V, 'tools/build.sh')], capture_output=True, text=True)
    if r.returncode or not all(os.path.exists(o) for o in outs):
        raise Fail('the analysis driver cannot be built: ' + r.stderr[-500:])


def dump(out, debug=False):
    """runs the driver over the current working tree of the repository (debug: with debug assertions)"""
    build_tools()
    tgt = os.path.join(V, '.build', 'target')
    os.makedirs(tgt, exist_ok=True)
    # cargo must not consider the crate fresh: remove what it knows about it
    for root, ds, fs in os.walk(tgt, topdown=False):
        for x in ds + fs:
            if 'fast_paths' in x:
                p = os.path.join(root, x)
                if os.path.isdir(p):
                    shutil.rmtree(p, ignore_errors=True)
                elif os.path.exists(p):
                    os.remove(p)
    if os.path.exists(out):
        os.remove(out)
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()
    env = dict(os.environ, FPD_CRATE='fast_paths', FPD_OUT=out, FPD_MODEL=os.path.join(V, 'stdmodel/target/libstdmodel.rlib'),
               LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=os.path.join(V, 'driver/target/release/fpdriver'),
               CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    if debug:
        env['CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS'] = 'true'
    lock = os.path.join(REPO, 'Cargo.lock')
    locked = ['--locked'] if os.path.exists(lock) else []
    r = subprocess.run(['cargo', '+nightly', 'check', '--release', '--lib', '--offline', '-q'] + locked, cwd=REPO, env=env, capture_output=True, text=True)
    if not os.path.exists(out):
        raise Fail('the crate could not be analysed (does it compile?): ' + r.stderr[-800:])


class Prog:
    def __init__(self, D):
        self.D = D
        self.tys = D['tys']
        self.bodies = {int(k): v for k, v in D['bodies'].items()}
        self._runs = {}
        self._cg = None
        self.roots = {}
        for r in D['roots']:
            self.roots.setdefault(r['path'], r)

    def root(self, path):
        """root record of a function given by its full path"""
        r = self.roots.get(path)
        if r is None:
            raise Fail('function %s not found' % path)
        return r

    def public(self, generic=False):
        return [r for r in self.D['roots'] if r['reachable'] and (generic or not r['generic'])]

    def run(self, path, maxnodes=60000):
        import interp
        if path in self._runs:
            return self._runs[path]
        it = interp.Interp(self.D)
        it.maxnodes = maxnodes
        try:
            it.run(self.root(path)['inst'])
        except interp.Stop as e:
            raise Fail('analysis of %s gave up: %s' % (path, e))
        self._runs[path] = it
        return it

    # ---- call graph over all dumped bodies
    def callgraph(self):
        if self._cg is None:
            cg = {}
            for i, b in self.bodies.items():
                out = {}
                for bl in b['blocks']:
                    if bl['cleanup']:
                        continue
                    for s in bl['s']:
                        for x in refs(s):
                            out.setdefault(x, s.get('sp'))
                    for x in refs(bl['t']):
                        out.setdefault(x, bl['t'].get('fsp'))
                cg[i] = out
            self._cg = cg
        return self._cg

    def reach(self, insts):
        cg = self.callgraph()
        seen = {}
        work = [(i, None) for i in insts]
        while work:
            i, p = work.pop()
            if i in seen:
                continue
            seen[i] = p
            for j in cg.get(i, {}):
                if j not in seen:
                    work.append((j, i))
        return seen

    def ext_calls(self, i):
        """calls of body i to functions that were not dumped: [(fn record, orig record, site)]"""
        out = []
        for bl in self.bodies[i]['blocks']:
            if bl['cleanup']:
                continue
            t = bl['t']
            for c in callees(t):
                if 'inst' not in c:
                    out.append((c['fn'], c['orig'], t.get('fsp') or self.bodies[i]['sp']))
            for s in bl['s']:
                for c in callees(s):
                    if 'inst' not in c:
                        out.append((c['fn'], c['orig'], s.get('sp') or self.bodies[i]['sp']))
        return out

    def path_to(self, seen, i):
        p = []
        while i is not None:
            p.append(self.bodies[i]['fn']['path'])
            i = seen[i]
        return ' -> '.join(reversed(p))

    def tname(self, t):
        return self.tys[t]['s']


def refs(j):
    """body ids mentioned in a piece of MIR json"""
    if isinstance(j, dict):
        for k, v in j.items():
            if k in ('inst', 'closure_inst') and isinstance(v, int) and v >= 0:
                yield v
            elif isinstance(v, (dict, list)):
                yield from refs(v)
    elif isinstance(j, list):
        for v in j:
            if isinstance(v, (dict, list)):
                yield from refs(v)


def callees(j):
    if isinstance(j, dict):
        for k, v in j.items():
            if k == 'callee':
                yield v
            elif isinstance(v, (dict, list)):
                yield from callees(v)
    elif isinstance(j, list):
        for v in j:
            if isinstance(v, (dict, list)):
                yield from callees(v)


class Check:
    """collects obligations and violations of one property"""

    def __init__(self, pid, prog, tier):
        self.pid, self.prog, self.tier = pid, prog, tier
        self.obs = 0
        self.done = 0
        self.violations = []
        self.rules = {}
        self.samples = []
        self.units = set()
        self.notes = []

    def ob(self, ok, rule, where, msg='', detail=None):
        """one obligation: rule instance at a construct"""
        self.obs += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.done += 1
            r[1] += 1
            if len([s for s in self.samples if s['rule'] == rule]) < 3:
                self.samples.append({'rule': rule, 'where': where, 'what': msg, 'ok': True})
        else:
            self.violations.append({'rule': rule, 'where': where, 'what': msg, 'detail': detail})
        return ok

    def floor(self, rule, n, what):
        """at least n instances of a rule must have been seen"""
        c = self.rules.get(rule, [0, 0])[0]
        if c < n:
            self.ob(False, 'floor', rule, 'expected at least %d instance(s) of rule "%s" (%s), found %d' % (n, rule, what, c))


def fnshort(p):
    return re.sub(r'<[^<>]*>', '', p)
