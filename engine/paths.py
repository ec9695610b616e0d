"""Acyclic paths through a part of the node graph, with the values chosen at joins filled in."""
from terms import *
from norm import norm, remake
from base import Fail
from graph import preds
from joins import idoms


def phisat(it):
    c = it.__dict__.get('_phisat')
    if c is None:
        c = it._phisat = {}
        for p in it.phiops:
            c.setdefault(p.a[0], []).append(p)
    return c


def natural(it, head):
    """nodes of the loop(s) with this head, None if it is not a loop head"""
    c = it.__dict__.setdefault('_natural', {})
    if head in c:
        return c[head]
    if '_preds' not in it.__dict__:
        it._preds = preds(it)
    # the nodes that reach head again without another way into the loop: all of them are dominated by head
    if '_idom' not in it.__dict__:
        it._idom = idoms(it)[0]
    idom = it._idom

    def dominated(n):
        while n in idom:
            if n == head:
                return True
            if idom[n] == n:
                return False
            n = idom[n]
        return False
    back = [p for p in it._preds.get(head, ()) if dominated(p)]
    r = None
    if back:
        r, work = {head}, back
        while work:
            n = work.pop()
            if n not in r:
                r.add(n)
                work.extend(it._preds.get(n, ()))
    c[head] = r
    return r


def leaving(it, body):
    """edges that leave a set of nodes"""
    return [(n, i) for n in sorted(body) for i, (t, _) in enumerate(it.succs[n]) if t not in body and it.instate[t] is not None]


class Path:
    def __init__(self, events, facts, env, edge, why):
        self.events, self.facts, self.env, self.edge, self.why = events, facts, env, edge, why

    def val(self, N, t):
        return fill(N, t, self.env)


def fill(N, t, env):
    """the normal form of t with the values of env for the phis"""
    t = N.nf(t)
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            if x in env:
                r = env[x]
            elif not x.a or x.op == 'phi':
                r = x
            else:
                a = go(x.a)
                r = x if all(p is q for p, q in zip(a, x.a)) else remake(x, a)
            memo[x] = r
        return r
    return go(t)


def consistent(e, st):
    f = st.facts
    if len(f) < len(e.facts):
        return all(e.facts.get(c, v) is v for c, v in f.items())
    return all(f.get(c, v) is v for c, v in e.facts.items())


def paths(it, head, body=None, skip=(), limit=4000):
    """all ways through `body` from the beginning of head until head is reached again (why 'round') or the body is left
    (why 'exit'). Loops whose heads are in skip are passed as a whole and leave an entry ('loop', head) in the events."""
    N = norm(it)
    P = phisat(it)
    out = []
    sk = {h: natural(it, h) for h in skip}

    def newfacts(n, i, t, since=None):
        st = it.incoming[t].get((n, i))
        if st is None:
            return None
        o = it.instate[n if since is None else since].facts
        return {c: v for c, v in st.facts.items() if o.get(c) is not v}

    def go(n, events, facts, env, seen):
        if len(out) > limit:
            raise Fail('too many paths')
        if n in sk and n != head:
            b = sk[n]
            ev = events + [('loop', n)]
            es = leaving(it, b)
            seen = seen | b
            # nothing that is decided inside of the loop is known
            env = {p: v for p, v in env.items() if p.a[0] not in b}
            for (m, i) in es:
                step(m, i, ev, facts, env, seen, False, n)
            return
        for i in range(len(it.succs[n])):
            step(n, i, events, facts, env, seen, True)

    def step(n, i, events, facts, env, seen, withevents, since=None):
        t = it.succs[n][i][0]
        if it.instate[t] is None:
            return
        nf = newfacts(n, i, t, since)
        if nf is None:
            return
        st = it.incoming[t][(n, i)]
        ev = events
        if withevents:
            ev = events + [(e, env) for e in it.events[n] if consistent(e, st)]
        g = dict(facts)
        for c, v in nf.items():
            c = fill(N, c, env)
            while c.op == 'not':
                c, v = c.a[0], not v
            if c.op == 'b':
                if c.a[0] is not v:
                    return
                continue
            if c in g and g[c] is not v:
                return
            g[c] = v
        ne = dict(env)
        for p in P.get(t, ()):
            o = it.phiops[p].get((n, i))
            if o is not None:
                ne[p] = fill(N, o, env)
        if t == head:
            out.append(Path(ev, g, ne, (n, i), 'round'))
            return
        if body is not None and t not in body:
            out.append(Path(ev, g, ne, (n, i), 'exit'))
            return
        if t in seen:
            raise Fail('a loop inside of the loop at node %d' % head)
        go(t, ev, g, ne, seen | {t})

    go(head, [], {}, {}, {head})
    return out
