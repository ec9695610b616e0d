"""Case analysis of loop-free code: its paths as (conditions, result), evaluated over all order types of the inputs."""
import interp
from base import Fail
from terms import *


def paths(it, limit=4000):
    """all paths from the entry to a return: (facts, resolve function, return event)"""
    out = []
    work = [(it.entry, {}, {}, frozenset())]
    rets = {}
    for n in range(len(it.nodes)):
        if it.instate[n] is None:
            continue
        for e in it.events[n]:
            if e.kind == 'return':
                rets[n] = e
    while work:
        n, facts, env, seen = work.pop()
        if n in seen:
            raise Fail('loop in code expected to be loop-free')
        if len(out) > limit:
            raise Fail('too many paths')
        if n in rets:
            out.append((facts, env, rets[n], seen | {n}))
            continue
        for i, (t, _) in enumerate(it.succs[n]):
            st = it.incoming[t].get((n, i))
            if st is None:
                continue
            f2 = dict(facts)
            bad = False
            for c, tr in st.facts.items():
                if f2.get(c, tr) != tr:
                    bad = True
                    break
                f2[c] = tr
            if bad:
                continue
            e2 = env
            for ph, ops in it.phiops.items():
                if ph.a[0] == t and (n, i) in ops:
                    if e2 is env:
                        e2 = dict(env)
                    e2[ph] = ops[(n, i)]
            work.append((t, f2, e2, seen | {n}))
    return out


class Unknown(Exception):
    pass


def ev(t, env, res):
    """value of a term; res: phi -> operand on this path; env: atoms -> value"""
    if t in env:
        return env[t]
    op = t.op
    if op == 'phi' and t in res:
        return ev(res[t], env, res)
    if op == 'i' or op == 'b':
        return t.a[0]
    if op == 'lin':
        return (sum(ev(k, env, res) * v for k, v in t.a[1]) + t.a[2]) % (1 << t.a[0])
    if op == 'sadd':
        return min(M64, sum(ev(k, env, res) for k in t.a))
    if op == 'max':
        return max(ev(k, env, res) for k in t.a)
    if op == 'min':
        return min(ev(k, env, res) for k in t.a)
    if op == 'lt':
        return ev(t.a[0], env, res) < ev(t.a[1], env, res)
    if op == 'eq':
        return ev(t.a[0], env, res) == ev(t.a[1], env, res)
    if op == 'not':
        return not ev(t.a[0], env, res)
    if op == 'and':
        return ev(t.a[0], env, res) and ev(t.a[1], env, res)
    if op == 'or':
        return ev(t.a[0], env, res) or ev(t.a[1], env, res)
    if op == 'ovf' and t.a[0] == 'Add':
        return ev(t.a[1], env, res) + ev(t.a[2], env, res) > M64
    if op == 'b2i':
        return int(ev(t.a[0], env, res))
    if op == 'agg':
        if t.a[2] and t.a[1] is None:
            return tuple(ev(x, env, res) for _, x in t.a[2])
        return (t.a[1],) + tuple(ev(x, env, res) for _, x in t.a[2]) if t.a[2] else t.a[1]
    if op == 'proj':
        b = t.a[0]
        while b in res:
            b = res[b]
        if b.op == 'agg':
            for n, x in b.a[2]:
                if n == t.a[1]:
                    return ev(x, env, res)
        if b.op == 'init':
            return ev(mk('init', b.a[0] + '.' + t.a[1], None), env, res)
    if op == 'ite':
        return ev(t.a[1], env, res) if ev(t.a[0], env, res) else ev(t.a[2], env, res)
    raise Unknown(t)


def holds(facts, env, res):
    return all(ev(c, env, res) == tr for c, tr in facts.items())


def closure_body(p, clty):
    y = p.tys[clty]
    for _ in range(3):
        if y['k'] in ('ref', 'ptr'):
            y = p.tys[y['t']]
    if y['k'] not in ('closure', 'fndef'):
        raise Fail('not a closure: %s' % y['s'])
    fn = y.get('fn') or {}
    for i, b in p.bodies.items():
        if b['fn']['path'] == y.get('def') or (fn and b['fn']['path'] == fn['path'] and b['fn']['args'] == fn['args']):
            return i
    raise Fail('body of %s not found' % y['s'])


def table(p, inst, params, domain):
    """the function computed by a loop-free body.
    params: list of prefixes of its parameters ('a1', ...), each a struct; returns f(env) -> value where env maps init-term names to ints"""
    it = interp.Interp(p.D)
    it.run(inst)
    if it.unknown:
        raise Fail('unknown calls in %s: %s' % (p.bodies[inst]['fn']['path'], list(it.unknown)))
    ps = paths(it)

    def f(env):
        for facts, res, e, _ in ps:
            m = Env(env)
            if holds(facts, m, res):
                return ev(e.val, m, res)
        raise Fail('no path for %s' % env)
    return it, f


class Env(dict):
    """looks up init terms (and first loads through arguments) by name"""

    def __init__(self, names):
        self.names = names

    def key(self, t):
        if t.op == 'init' and isinstance(t.a[0], str) and t.a[0] in self.names:
            return t.a[0]
        return None

    def __contains__(self, t):
        return self.key(t) is not None

    def __getitem__(self, t):
        return self.names[self.key(t)]
