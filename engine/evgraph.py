"""Reachability between events (positions inside nodes)."""
from terms import *


def pos(it):
    """event -> (node, index in node)"""
    c = it.__dict__.get('_pos')
    if c is None:
        c = it._pos = {}
        for n in range(len(it.nodes)):
            if it.instate[n] is None:
                continue
            for i, e in enumerate(it.events[n]):
                c[id(e)] = (n, i)
    return c


def walk(it, starts, cut, goals, edgecut=None):
    """goals (events) that can be reached from the given start positions without passing an event of `cut`.
    starts: events (from just after them) or ('node', n) (from the beginning of node n) or ('edge', n, i).
    A goal that is also in cut counts as reached when it is met. Returns (list of goals, set of fully traversed nodes)"""
    P = pos(it)
    cuts, gl = {}, {}
    for e in cut:
        n, i = P[id(e)]
        cuts.setdefault(n, []).append(i)
    for e in goals:
        n, i = P[id(e)]
        gl.setdefault(n, []).append((i, e))
    found = []
    fs = set()
    entered = set()
    passed = set()
    work = []

    def consistent(e, st):
        """control can take an edge with state st after event e (a node may handle several outcomes of a call)"""
        f = st.facts
        if len(f) < len(e.facts):
            return all(e.facts.get(c, v) is v for c, v in f.items())
        return all(f.get(c, v) is v for c, v in e.facts.items())

    def scan(n, i0, e0=None):
        """traverse node n from event index i0 (after event e0)"""
        ev = it.events[n]
        stops = [i for i in cuts.get(n, ()) if i >= i0]
        for i, e in gl.get(n, ()):
            if i >= i0 and id(e) not in fs:
                if e0 is not None and not consistent(e0, e):
                    continue
                if any(j < i and consistent(ev[j], e) for j in stops):
                    continue
                fs.add(id(e))
                found.append(e)
        thru = False
        for i, (t, _) in enumerate(it.succs[n]):
            if it.instate[t] is None:
                continue
            st = it.incoming[t].get((n, i))
            if st is not None:
                if e0 is not None and not consistent(e0, st):
                    continue
                if any(consistent(ev[j], st) for j in stops):
                    continue
            thru = True
            passed_e.add((n, i))
            if edgecut is not None and edgecut(n, i, t):
                continue
            if t not in entered:
                entered.add(t)
                work.append(t)
        if thru or (not it.succs[n] and not stops):
            passed.add(n)
    passed_e = set()
    for s in starts:
        if isinstance(s, tuple):
            if s[0] == 'node':
                if s[1] not in entered:
                    entered.add(s[1])
                    work.append(s[1])
            else:
                t = it.succs[s[1]][s[2]][0]
                if it.instate[t] is not None and t not in entered:
                    entered.add(t)
                    work.append(t)
        else:
            n, i = P[id(s)]
            scan(n, i + 1, s)
    while work:
        scan(work.pop(), 0)
    return found, passed, passed_e


def hits(it, starts, cut, goals, edgecut=None):
    return walk(it, starts, cut, goals, edgecut)[0]


def passes(it, starts, cut, edgecut=None):
    """nodes that can be traversed to their end"""
    return walk(it, starts, cut, (), edgecut)[1]


def passedges(it, starts, cut, edgecut=None):
    """edges that can be taken"""
    return walk(it, starts, cut, (), edgecut)[2]


class Rounds:
    """the iterations of the loop in which a counter phi takes the values 0, 1, 2, ..."""

    def __init__(self, it, phi):
        from norm import norm
        N = norm(it)
        self.it, self.phi, self.node = it, phi, phi.a[0]
        self.inits, self.steps = [], []
        self.bad = None
        for e, v in it.phiops[phi].items():
            v = N.nf(v)
            d = constdiff(v, phi)
            if d is None:
                self.inits.append((e, v))
            elif d == 1:
                self.steps.append(e)
            else:
                self.bad = 'the counter changes by %s' % d
        if not self.steps:
            self.bad = 'not a counter'

    def stepnodes(self):
        return {e[0] for e in self.steps}

    def exactly_once(self, evs, twice=False):
        """every round that is followed by another one contains exactly one event of evs, and no round contains two"""
        it = self.it
        # from the beginning of a round, around without meeting an event
        p = passedges(it, [('node', self.node)], evs)
        for e in self.steps:
            if e in p:
                return 'a round can pass without it'
        # twice in one round
        def back(n, i, t):
            return t == self.node
        for e in () if twice else evs:
            if hits(it, [e], (), evs, back):
                return 'it can happen twice in one round'
        # outside of the loop
        r = hits(it, [('node', it.entry)], (), evs, back)
        if r:
            return 'it can happen outside of the loop'
        return None
