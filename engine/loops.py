"""Counting loops in the node graph: which indices has a loop visited."""
from terms import *
import interp


def base_off(t):
    """t as (phi, offset) if it is a phi plus a constant"""
    if t.op == 'phi':
        return t, 0
    if t.op == 'lin' and t.a[0] == 64 and len(t.a[1]) == 1 and t.a[1][0][1] == 1 and t.a[1][0][0].op == 'phi':
        return t.a[1][0][0], t.a[2]
    return None, None


class Ind:
    """a set of mutually dependent phis that only change by +1 / -1: init values and step edges"""

    def __init__(self, scc, inits, steps):
        self.scc, self.inits, self.steps = scc, inits, steps


def induction(it, phi):
    c = it.__dict__.setdefault('_ind', {})
    if phi in c:
        return c[phi]
    # phis reachable from phi and reaching it
    fw = {}
    work = [phi]
    while work:
        x = work.pop()
        if x in fw:
            continue
        fw[x] = []
        for e, v in it.phiops.get(x, {}).items():
            b, o = base_off(v)
            if b is not None and b in it.phiops:
                fw[x].append(b)
                work.append(b)
        if len(fw) > 400:
            break
    rev = {}
    for x, bs in fw.items():
        for b in bs:
            rev.setdefault(b, []).append(x)
    # x depends on b. scc = those x reachable (depends) from phi that also depend on phi
    dep = set()
    work = [phi]
    while work:
        x = work.pop()
        for y in rev.get(x, ()):
            if y not in dep:
                dep.add(y)
                work.append(y)
    scc = {x for x in fw if x in dep} | {phi}
    inits, steps = [], []
    for x in scc:
        for e, v in it.phiops.get(x, {}).items():
            b, o = base_off(v)
            if b in scc:
                if o:
                    steps.append((x.a[0], e, b, o))
            else:
                inits.append((x.a[0], e, v))
    r = Ind(scc, inits, steps) if steps else None
    for x in scc:
        c[x] = r
    return r


def edge_state(it, n, e):
    return it.incoming[n].get(e)


def exhausted(it, facts, length):
    """inductions known to have visited every index below `length`: yields (Ind, +1) or (Ind, -1)"""
    for c, tr in facts.items():
        if c.op == 'lt' and not tr and c.a[1] is length:
            b, o = base_off(c.a[0])
            if b is not None and o == 0:
                d = induction(it, b)
                if d and all(v is I(0) for _, _, v in d.inits) and all(s[3] == 1 for s in d.steps):
                    yield d, 1
        elif c.op == 'eq' and tr:
            for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                b, o = base_off(x)
                if b is None or o:
                    continue
                d = induction(it, b)
                if not d:
                    continue
                if y is length and all(v is I(0) for _, _, v in d.inits) and all(s[3] == 1 for s in d.steps):
                    yield d, 1
                if y is I(0) and all(v is length for _, _, v in d.inits) and all(s[3] == -1 for s in d.steps):
                    yield d, -1
            if length is I(1):
                pass
        if length is I(1) and c.op == 'eq' and not tr and I(0) in c.a:
            x = c.a[0] if c.a[1] is I(0) else c.a[1]
            b, o = base_off(x)
            if b is not None and o == 0:
                d = induction(it, b)
                if d and all(v is I(0) for _, _, v in d.inits) and all(s[3] == 1 for s in d.steps):
                    yield d, 1


def visited(d, step, direction):
    """index visited by a step (n, e, base, delta)"""
    return step[2] if direction == 1 else sub(step[2], I(1))


def forall(it, facts, length, pred):
    """facts imply that a loop visited all indices below `length` and pred(state facts, index) held on every step"""
    for d, k in exhausted(it, facts, length):
        ok = True
        for s in d.steps:
            st = edge_state(it, s[0], s[1])
            if st is None:
                continue
            if not pred(st.facts, visited(d, s, k)):
                ok = False
                break
        if ok:
            return d
    return None


def coeq(it, a, b, hyp=frozenset(), depth=60):
    """two values are equal in every iteration (coinduction over phis of the same nodes)"""
    if a is b:
        return True
    d = constdiff(a, b)
    if d is not None:
        return d == 0
    pa, oa = base_off(a)
    pb, ob = base_off(b)
    if pa is None or pb is None or depth == 0:
        return False
    if pa.a[0] != pb.a[0]:
        # a phi whose operands all equal the other value
        for x, ox, y in ((pa, oa, sub(b, I(oa))), (pb, ob, sub(a, I(ob)))):
            k = (x, y)
            if k in hyp:
                return True
            ops = it.phiops.get(x)
            if ops and all(coeq(it, o, y, hyp | {k}, depth - 1) for o in ops.values()):
                return True
        return False
    k = (pa, pb, oa - ob)
    if k in hyp:
        return True
    x, y = it.phiops.get(pa), it.phiops.get(pb)
    if not x or not y or set(x) != set(y):
        return False
    return all(coeq(it, add(x[e], I(oa)), add(y[e], I(ob)), hyp | {k}, depth - 1) for e in x)


def alts(it, v, facts, limit=3000):
    """the values a term may stand for, each with what is known when it has that value"""
    out = []
    seen = set()
    work = [(v, facts)]
    while work:
        x, f = work.pop()
        if x.op == 'phi' and x in it.phiops:
            if x in seen:
                continue
            seen.add(x)
            for e, o in it.phiops[x].items():
                st = it.incoming[x.a[0]].get(e)
                if st is None:
                    continue
                g = dict(f)
                g.update(st.facts)
                work.append((o, g))
        elif x.op == 'proj' and x.a[0].op == 'phi' and x.a[0] in it.phiops:
            for e, o in it.phiops[x.a[0]].items():
                st = it.incoming[x.a[0].a[0]].get(e)
                if st is None or o is x.a[0]:
                    continue
                g = dict(f)
                g.update(st.facts)
                work.append((it.proj(o, x.a[1]), g))
        elif x.op != 'infeasible':
            out.append((x, f))
        if len(out) > limit:
            raise RuntimeError('too many alternatives')
    return out
