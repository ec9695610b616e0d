"""Queries over the node graph of an analysed root."""
from terms import *


def live(it):
    return [n for n in range(len(it.nodes)) if it.instate[n] is not None]


def evs(it, *kinds):
    for n in range(len(it.nodes)):
        if it.instate[n] is None:
            continue
        for e in it.events[n]:
            if e.kind in kinds:
                yield e


def succ(it, n):
    return [t for t, _ in it.succs[n]]


def reach(it, starts, cut=(), edgecut=None):
    """nodes reachable from starts without entering nodes in cut"""
    seen = set()
    work = [s for s in starts if s not in cut]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        for i, (t, _) in enumerate(it.succs[n]):
            if t in cut or t in seen:
                continue
            if edgecut is not None and edgecut(n, i, t):
                continue
            work.append(t)
    return seen


def preds(it):
    p = {}
    for n in live(it):
        for t, _ in it.succs[n]:
            p.setdefault(t, set()).add(n)
    return p


def expand(it, t, limit=5000):
    """the non-phi terms a phi may stand for"""
    out, seen, work = [], set(), [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if len(seen) > limit:
            raise RuntimeError('phi expansion too large')
        if x.op == 'phi' and x in it.phiops:
            work.extend(it.phiops[x].values())
        elif x.op == 'proj' and x.a[0].op == 'phi' and x.a[0] in it.phiops:
            for o in it.phiops[x.a[0]].values():
                work.append(it.proj(o, x.a[1]))
        elif x.op == 'infeasible':
            pass
        else:
            out.append(x)
    return out


def fnof(it, n):
    return it.body(it.ctxs[it.nodes[n][0]][2]).path


def where(it, e):
    """function and source position of an event"""
    return '%s (%s)' % (it.body(e.bid).path, e.sp)


def dominates(it, cutnodes, goal):
    """every path from the entry to goal passes through cutnodes"""
    if it.entry in cutnodes or goal in cutnodes:
        return True
    return goal not in reach(it, [it.entry], cutnodes)


def uncut(it, pred, starts=None):
    """nodes reachable from the entry along edges on which pred(facts) does not hold yet"""
    seen = set()
    work = [it.entry] if starts is None else list(starts)
    memo = {}

    def p(f):
        k = id(f)
        if k not in memo:
            memo[k] = (bool(pred(f)), f)
        return memo[k][0]
    while work:
        n = work.pop()
        if n in seen or it.instate[n] is None:
            continue
        seen.add(n)
        for i, (t, _) in enumerate(it.succs[n]):
            if t in seen:
                continue
            st = it.incoming[t].get((n, i))
            if st is not None and p(st.facts):
                continue
            work.append(t)
    return seen


WRITES = ('store', 'storec', 'setp', 'push', 'vpop', 'vclear', 'vtrunc', 'vremove', 'vinsert', 'vfill', 'vresize', 'vreverse', 'vextend', 'bulk', 'hpush', 'hpop', 'hclear', 'qpush', 'qpop', 'qchange', 'sinsert', 'unkwrite')


def rootobj(t):
    """the container a handle belongs to"""
    while t.op == 'inner':
        t = t.a[0]
    return t


def touches(e, name):
    """the event changes state reachable through argument `name` (a0, a1, ...)"""
    if e.kind == 'setp':
        return e.root[1] == name
    for k in ('obj', 'h'):
        o = e.d.get(k)
        if isinstance(o, T):
            o = rootobj(o)
            if o.op == 'init' and (o.a[0] == name or o.a[0].startswith(name + '.')):
                return True
    return False
