"""Normal forms: phis that can only have one value are replaced by it."""
from terms import *
import terms


TOP = mk('top')


class Norm:
    """optimistic congruence over the phis: a phi whose incoming values all denote one value is that value,
    two phis of a node whose incoming values agree edge by edge are one"""

    def __init__(self, it):
        self.it = it
        self.res = {}
        self.memo = {}
        self.solve()
        self.memo = {}

    def order(self):
        it = self.it
        post, seen = [], set()
        work = [(it.entry, iter([t for t, _ in it.succs[it.entry]]))]
        seen.add(it.entry)
        while work:
            n, i = work[-1]
            for t in i:
                if t not in seen and it.instate[t] is not None:
                    seen.add(t)
                    work.append((t, iter([q for q, _ in it.succs[t]])))
                    break
            else:
                post.append(n)
                work.pop()
        return {n: k for k, n in enumerate(reversed(post))}

    def solve(self):
        it = self.it
        rpo = self.order()
        phis = [p for p in it.phiops if it.phiops[p]]
        phis.sort(key=lambda p: (rpo.get(p.a[0], 1 << 30), p.id))
        val = {p: TOP for p in phis}
        self.res = val
        for rnd in range(60):
            self.memo = {}
            table = {}
            changed = False
            for p in phis:
                if rnd > 20 and val[p] is p:
                    continue
                ops = []
                one = None
                same = True
                for e, o in it.phiops[p].items():
                    v = self.nf(o)
                    if o is p:
                        v = TOP if val[p] is TOP or val[p] is not p else p
                    ops.append((e, v))
                    if v is TOP or v is p:
                        continue
                    if one is None:
                        one = v
                    elif one is not v:
                        same = False
                if one is None:
                    new = TOP
                elif same and not contains(one, p):
                    new = one
                else:
                    k = (p.a[0], frozenset(ops))
                    new = table.setdefault(k, p)
                if new is not val[p]:
                    val[p] = new
                    changed = True
            if not changed:
                break
        else:
            raise RuntimeError('phi congruence does not stabilise')
        self.res = {p: v for p, v in val.items() if v is not p and v is not TOP}
        self.refine([p for p in phis if p not in self.res and val[p] is p])
        self.shift([p for p in phis if p not in self.res and val[p] is p])
        self.memo = {}

    def shift(self, phis):
        """counters that run along with a counter from zero are that counter plus their start value"""
        import loops
        it = self.it
        self.memo = {}
        done = {}
        for p in phis:
            if p in done or p.a[1][0] == 'm':
                continue
            # the phis that only differ by constants from p, and the value they start with
            scc, work, start = {}, [p], None
            ok = True
            stepped = False
            while work and ok:
                x = work.pop()
                if x.a[0] in scc:
                    ok = scc[x.a[0]][0] is x
                    continue
                ops = {e: self.nf(o) for e, o in it.phiops[x].items()}
                scc[x.a[0]] = (x, ops)
                for e, o in ops.items():
                    b, k = loops.base_off(o)
                    if b is not None and b in it.phiops and (b.a[0] in scc and scc[b.a[0]][0] is b or self.cyclic(b, x)):
                        stepped = stepped or k != 0
                        work.append(b)
                    elif start is None or start[1] is o:
                        start = (e, o)
                    else:
                        ok = False
            for x, _ in scc.values():
                done.setdefault(x, None)
            if ok and stepped and start is not None:
                done[p] = (scc, start[1])
        byn = {}
        for p, r in done.items():
            if r is not None:
                byn.setdefault(frozenset(r[0]), []).append(r)
        for rs in byn.values():
            zero = [r for r in rs if r[1].op == 'i' and r[1].a[0] == 0]
            if not zero:
                continue
            z = zero[0]
            for r in rs:
                if r is z or any(x in self.res for x, _ in r[0].values()):
                    continue
                d = r[1]
                if any(x.op == 'phi' and x.a[0] in r[0] for x in subterms(d)):
                    continue
                good = True
                for n, (x, ops) in r[0].items():
                    y, zops = z[0][n]
                    if set(ops) != set(zops):
                        good = False
                        break
                    for e, o in ops.items():
                        b, k = loops.base_off(o)
                        c, l = loops.base_off(zops[e])
                        mine = b is not None and b.a[0] in r[0] and r[0][b.a[0]][0] is b
                        his = c is not None and c.a[0] in z[0] and z[0][c.a[0]][0] is c
                        if mine != his or mine and (b.a[0] != c.a[0] or k != l):
                            good = False
                if good:
                    for n, (x, _) in r[0].items():
                        self.res[x] = terms.add(z[0][n][0], d)

    def cyclic(self, b, x):
        """b depends on x"""
        import loops
        seen, work = set(), [b]
        while work:
            y = work.pop()
            if y is x:
                return True
            if y in seen or len(seen) > 60:
                continue
            seen.add(y)
            for o in self.it.phiops.get(y, {}).values():
                c, _ = loops.base_off(self.nf(o))
                if c is not None:
                    work.append(c)
        return False

    def refine(self, phis):
        """phis of one node that always take the same values, also around loops: the coarsest partition that agrees with the incoming values"""
        it = self.it
        base = self.res
        cls = {}
        for p in phis:
            self.memo = {}
            k = tuple((e, (o.op, o.a[0]) if o.op == 'phi' else o.op) for e, o in sorted(it.phiops[p].items()))
            cls.setdefault((p.a[0], 'm' in p.a[1], k), []).append(p)
        groups = [g for g in cls.values() if len(g) > 1]
        while groups:
            self.res = dict(base)
            for g in groups:
                for p in g[1:]:
                    self.res[p] = g[0]
            self.memo = {}
            new = []
            split = False
            for g in groups:
                d = {}
                for p in g:
                    d.setdefault(tuple(self.nf(o) for _, o in sorted(it.phiops[p].items())), []).append(p)
                if len(d) > 1:
                    split = True
                new.extend(x for x in d.values() if len(x) > 1)
            groups = new
            if not split:
                return
        self.res = base

    def nf(self, t):
        m = self.memo
        if t in m:
            return m[t]
        # iterative post-order
        work = [(t, False)]
        while work:
            x, done = work.pop()
            if x in m:
                continue
            if x.op == 'phi':
                r = self.res.get(x)
                if r is None or r is x:
                    m[x] = x
                elif done:
                    m[x] = m.get(r, r)
                else:
                    m[x] = x  # cycle guard
                    del m[x]
                    work.append((x, True))
                    work.append((r, False))
                continue
            if x is TOP or x.op in ('i', 'b', 's', 'init', 'obj', 'm0', 'ev') or not x.a:
                m[x] = x
                continue
            kids = []
            collect(x.a, kids)
            if not kids:
                m[x] = x
                continue
            if not done:
                work.append((x, True))
                for k in kids:
                    if k not in m:
                        work.append((k, False))
                continue
            if any(m.get(k) is TOP for k in kids):
                m[x] = TOP
            elif all(m.get(k, k) is k for k in kids):
                m[x] = x
            else:
                m[x] = rebuild(x, m)
        return m[t]

    def facts(self, f):
        return {c2: v2 for c2, v2 in (self.fact(c, v) for c, v in f.items())}

    def fact(self, c, v):
        c = self.nf(c)
        if c.op == 'not':
            return c.a[0], not v
        return c, v


def contains(t, p):
    return t is not p and t.op not in ('i', 'b', 's', 'init') and p in subterms(t)


def collect(a, out):
    for x in a:
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            collect(x, out)


def sub_(a, m):
    return tuple(m.get(x, x) if isinstance(x, T) else sub_(x, m) if isinstance(x, tuple) else x for x in a)


def rebuild(x, m):
    return remake(x, sub_(x.a, m))


def remake(x, a):
    """the term x with other arguments"""
    op = x.op
    if op == 'lin':
        r = I(a[2])
        for k, c in a[1]:
            for _ in range(c if 0 < c < 4 else 0):
                r = add(r, k, a[0])
            if not 0 < c < 4:
                d, e = terms._lin(k, a[0])
                r = add(r, terms.mklin({q: w * c for q, w in d.items()}, e * c, a[0]), a[0])
        return r
    if op == 'sadd':
        return sadd(*a)
    if op == 'max':
        return tmax(*a)
    if op == 'min':
        return tmin(*a)
    if op == 'not':
        return tnot(a[0])
    if op == 'eq':
        return eq(*a)
    if op == 'lt':
        return lt(*a)
    if op == 'and':
        return tand(*a)
    if op == 'or':
        return tor(*a)
    if op == 'proj':
        if a[0].op == 'agg':
            for n, v in a[0].a[2]:
                if n == a[1]:
                    return v
    if op == 'ld' and a[0].op == 'st' and a[0].a[1] == a[1]:
        return a[0].a[2]
    if op == 'ld' and a[0].op == 'fill':
        return a[0].a[0]
    return mk(op, *a)


def norm(it):
    n = it.__dict__.get('_norm')
    if n is None:
        n = it._norm = Norm(it)
    return n

