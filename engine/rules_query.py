"""C01, C02, C03: the bidirectional query."""
from terms import *
from graph import *
from evgraph import *
from norm import norm, remake
from base import Fail
import loops
from rules_term import Term, memname
from types import SimpleNamespace

MULTI = 'path_calculator::PathCalculator::calc_path_multiple_sources_and_targets'
SINGLE = 'path_calculator::PathCalculator::calc_path'


def leaves(t, path=()):
    """scalar parts of a value: path -> term"""
    if t.op == 'agg':
        for nm, v in t.a[2]:
            yield from leaves(v, path + (nm,))
    else:
        yield path, t


def rename(t, m):
    """replace the names of arguments: m maps 'a0' to a new name or to a term"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if x.op == 'init':
            nm = x.a[0]
            h, dot, tl = nm.partition('.')
            r = x
            if h in m:
                if isinstance(m[h], T):
                    if not dot:
                        r = m[h]
                else:
                    r = mk('init', m[h] + dot + tl, *x.a[1:])
        elif not x.a:
            r = x
        else:
            a = go(x.a)
            r = x if all(p is q for p, q in zip(a, x.a)) else remake(x, a)
        memo[x] = r
        return r
    return go(t)


class Side:
    pass


def retval(prog, path):
    it = prog.run(path)
    r = [norm(it).nf(e.val) for e in evs(it, 'return')]
    if len(r) != 1:
        raise Fail('%s does not have a single result' % path)
    return r[0]


class Csr:
    """the adjacency arrays of the prepared graph as its public accessors define them"""

    def __init__(self, prog):
        FG = 'fast_graph::FastGraph::'
        self.t = {}
        for d in ('out', 'in'):
            self.t[d] = (retval(prog, FG + 'begin_%s_edges' % d), retval(prog, FG + 'end_%s_edges' % d))
            n = retval(prog, FG + 'get_num_%s_edges' % d)
            if n.op != 'ld' or n.a[0].op != 'm0' or n.a[0].a[1] != ('#len',):
                raise Fail('get_num_%s_edges is not the length of a list' % d)
            self.t[d] += (n.a[0].a[0].a[0].split('.', 1)[1],)

    def begin(self, d, node, graph='a1'):
        return rename(self.t[d][0], {'a0': graph, 'a1': node})

    def end(self, d, node, graph='a1'):
        return rename(self.t[d][1], {'a0': graph, 'a1': node})

    def edges(self, d):
        return self.t[d][2]


REV = {'out': 'in', 'in': 'out'}


class Query:
    def __init__(self, chk, root):
        self.chk = chk
        self.root = root
        self.it = it = chk.prog.run(root)
        self.N = N = norm(it)
        self.csr = Csr(chk.prog)
        self.single = root == SINGLE
        self.term = Term(it)
        self.store = [e for e in evs(it, 'store')]
        self.skey = {id(e): (rootobj(N.nf(e.obj)), e.leaf) for e in self.store}
        self._fact = {}
        self.sides = []
        self.roles()
        self.result()

    # ------------------------------------------------------------ roles
    def idx(self, e):
        return tuple(self.N.nf(i) for i in e.idx)

    def roles(self):
        it, N = self.it, self.N
        heaps = {}
        for e in evs(it, 'hpush', 'hpop'):
            o = rootobj(N.nf(e.obj))
            heaps.setdefault(o, ([], []))[0 if e.kind == 'hpush' else 1].append(e)
        if len(heaps) != 2:
            raise Fail('%s: expected two priority queues, found %d' % (self.root, len(heaps)))
        for o, (pushes, pops) in heaps.items():
            s = Side()
            s.heap, s.pushes, s.pops = o, pushes, pops
            cand = None
            for p in pushes:
                lv = dict(leaves(N.nf(p.item)))
                c = set()
                for st in self.store:
                    i = self.idx(st)
                    if len(i) != 1 or st.val.op == 'b':
                        continue
                    v = N.nf(st.val)
                    for fw, w in lv.items():
                        if v is not w:
                            continue
                        for fn, n in lv.items():
                            if fn != fw and i[0] is n:
                                c.add((fw, fn) + self.skey[id(st)])
                cand = c if cand is None else cand & c
            if not cand or len(cand) != 1 or not pops:
                raise Fail('%s: the labels that belong to the queue %s cannot be identified' % (self.root, show(o)))
            s.fw, s.fn, obj, leaf = cand.pop()
            s.wk = (obj, leaf)
            s.labels = [st for st in self.store if self.skey[id(st)] == s.wk]
            s.items = {}
            for p in pops:
                lv = dict(leaves(N.nf(p.item)))
                s.items[id(p)] = (lv.get(s.fw), lv.get(s.fn))
            s.tops = {t for t in s.items.values()}
            self.sides.append(s)
        for s in self.sides:
            s.other = self.sides[1 - self.sides.index(s)]
        # which side starts from the sources
        for s in self.sides:
            ds = set()
            for st in s.labels:
                r = self.listpair(N.nf(st.val), self.idx(st)[0])
                if r:
                    ds.add(r[0])
            if len(ds) != 1:
                raise Fail('%s: cannot tell which end the queue %s starts from' % (self.root, show(s.heap)))
            s.dir = 'out' if ds.pop() == 'a2' else 'in'
            s.name = 'forward' if s.dir == 'out' else 'backward'
        if {s.dir for s in self.sides} != {'out', 'in'}:
            raise Fail('%s: both queues start from the same end' % self.root)
        # other per-node state
        for s in self.sides:
            s.keys = {}
            s.flag = s.settled = s.parent = s.inc = None
            by = {}
            for st in self.store:
                k = self.skey[id(st)]
                if k != s.wk and k[1] and any(self.idx(st) == self.idx(l) for l in s.labels):
                    by.setdefault(k, []).append(st)
            allst = {}
            for st in self.store:
                allst.setdefault(self.skey[id(st)], []).append(st)
            owned = set()
            for l in s.labels:
                for k, sts in by.items():
                    if any(self.same_round(l, st) for st in sts):
                        owned.add(k)
            for k in owned:
                vals = {N.nf(st.val) for st in allst[k]}
                mine = {N.nf(st.val) for st in by[k] if any(self.same_round(l, st) for l in s.labels)}
                if all(v.op == 'b' for v in vals):
                    s.settled = k
                elif len(mine) == 1 and all(v in mine or v.op == 'i' for v in vals):
                    v, = mine
                    if not any(x.op == 'ld' for x in subterms(v)) and v.op != 'i':
                        s.flag, s.gen = k, v
                        continue
                    vals = mine
                    s.inc = k
                else:
                    tops = {n for w, n in s.tops}
                    if vals & tops:
                        s.parent = k
                    else:
                        s.inc = k
            if s.flag is None:
                raise Fail('%s: no validity marks for the %s labels' % (self.root, s.name))
            s.leafkeys = {k for k in (s.wk, s.settled, s.parent, s.inc) if k}

    def same_round(self, a, b):
        """b is stored for the same node, right before or after a"""
        if self.idx(a) != self.idx(b):
            return False
        it = self.it
        stops = [e for s in self.sides for e in s.pops]
        return bool(hits(it, [a], [a] + stops, [b]) or hits(it, [b], [b] + stops, [a]))

    def listpair(self, v, n):
        """(list, index) when v and n are offset and node of one entry of the source or target list"""
        N = self.N
        if n.op == 'ld' and v.op == 'ld' and n.a[1] == v.a[1] and len(n.a[1]) == 1:
            i = n.a[1][0]
            a, b = memname(n.a[0]), memname(v.a[0])
            if n.a[0].op == 'm0' and v.a[0].op == 'm0':
                if a[0] is b[0] and a[0].op == 'init' and a[1] == ('[]', '0') and b[1] == ('[]', '1') and not self.single:
                    return (a[0].a[0], i)
            # a list with one entry made from the argument
            x, y = onlyentry(n.a[0]), onlyentry(v.a[0])
            if self.single and x is not None and y is I(0) and x.op == 'init':
                return (x.a[0], i)
        if self.single and v is I(0) and n.op == 'init':
            return (n.a[0], None)
        return None

    # ------------------------------------------------------------ facts
    def facts(self, f):
        k = id(f)
        r = self._fact.get(k)
        if r is None:
            r = self._fact[k] = (self.N.facts(f), f)
        return r[0]

    def edgefacts(self, n, i):
        t = self.it.succs[n][i][0]
        st = self.it.incoming[t].get((n, i))
        return None if st is None else st.facts

    def newfacts(self, n, i):
        f = self.edgefacts(n, i)
        if f is None:
            return {}
        o = self.it.instate[n].facts
        return self.N.facts({c: v for c, v in f.items() if o.get(c) is not v})

    def flagged(self, s, n, f):
        """what the facts say about the validity of node n: True, False or None"""
        for c, v in f.items():
            if c.op != 'eq':
                continue
            for x, y in (c.a, c.a[::-1]):
                if x is s.gen and y.op == 'ld' and y.a[1] == (n,):
                    m = memname(y.a[0])
                    if m and (rootobj(self.N.nf(m[0])), m[1]) == s.flag:
                        return v
        return None

    def rawlabel(self, t, key=None):
        """(side, node) if t reads a stored label"""
        if t.op != 'ld' or len(t.a[1]) != 1:
            return None
        m = memname(t.a[0])
        if m is None:
            return None
        k = (rootobj(self.N.nf(m[0])), m[1])
        for s in self.sides:
            if k == (s.wk if key is None else key(s)):
                return s, t.a[1][0]
        return None

    def label(self, t, f, s, n, anymax=False):
        """t is the current label of n on side s (the largest weight if it has none)"""
        N = self.N
        for x, g in loops.alts(self.it, t, f):
            x = N.nf(x)
            r = self.rawlabel(x)
            if r and r[0] is s and r[1] is n:
                continue
            if x is MAX and (anymax or self.flagged(s, n, self.N.facts(g)) is False):
                continue
            return False
        return True

    def label_of(self, w, s, n, f):
        """one part of the sum w is the label of n on side s"""
        return w.op == 'sadd' and any(self.label(x, f, s, n) for x in w.a)

    def topof(self, s, x, f):
        """the popped node whose weight is x"""
        r = [nd for w, nd in s.tops if w is x]
        if not r:
            r = [nd for w, nd in s.tops if self.label(x, f, s, nd)]
        return r

    def edge(self, t):
        """(edge list, field, index) if t reads a field of an edge of the prepared graph"""
        if t.op == 'ld' and len(t.a[1]) == 1 and t.a[0].op == 'm0':
            o, leaf = t.a[0].a
            if o.op == 'init' and o.a[0].startswith('a1.') and len(leaf) == 2 and leaf[0] == '[]':
                return o.a[0][3:], leaf[1], t.a[1][0]
        return None

    def edgeloop(self, k, d, node):
        """the loop that runs the edge index k over the edges of a node in direction d: (Ind, phi, end term)"""
        b, o = loops.base_off(k)
        beg, end = self.csr.begin(d, node), self.csr.end(d, node)
        if b is None:
            # start + position
            d0, c = terms_lin(k)
            for x in d0:
                if x.op == 'phi' and loops.induction(self.it, x):
                    rest = sub(k, x)
                    if rest is beg:
                        ind = loops.induction(self.it, x)
                        if all(self.N.nf(v) is I(0) for _, _, v in ind.inits) and all(s[3] == 1 for s in ind.steps):
                            return ind, x, sub(end, beg), k, end
            return None
        ind = loops.induction(self.it, b)
        if ind is None or o != 0:
            return None
        if all(self.N.nf(v) is beg for _, _, v in ind.inits) and all(s[3] == 1 for s in ind.steps):
            return ind, b, end
        if all(self.N.nf(v) is end for _, _, v in ind.inits) and all(s[3] == -1 for s in ind.steps):
            return ind, b, beg
        return None

    def onward(self, k, d, node, seen=frozenset()):
        """the index k is not before the first edge of the node"""
        b, o = loops.base_off(k)
        if self.N.nf(k) is self.csr.begin(d, node):
            return True
        if b is None or o < 0 or b in seen:
            return False
        ind = loops.induction(self.it, b)
        inits = list(self.it.phiops.get(b, {}).values()) if ind is None else [v for _, _, v in ind.inits]
        return bool(inits) and (ind is None or all(s[3] > 0 for s in ind.steps)) and all(self.onward(v, d, node, seen | {b}) for v in inits)

    def inrange(self, lp, f):
        if f.get(lt(lp[1], lp[2])) is True or f.get(lt(lp[-2], lp[-1])) is True:
            return True
        # the bound was checked whenever the index was set
        x = lp[1]
        return x in self.it.phiops and all(self.facts(st.facts).get(lt(self.N.nf(v), lp[2])) is True for e, v in self.it.phiops[x].items() for st in [self.it.incoming[x.a[0]].get(e)] if st is not None)

    def exhausted(self, lp, f):
        return any(f.get(lt(x, y)) is False or f.get(eq(x, y)) is True for x, y in (lp[1:3], lp[-2:]))

    # ------------------------------------------------------------ the result
    def result(self):
        """best weight and meeting node"""
        it, N = self.it, self.N
        self.some, self.none = [], []
        for e in evs(it, 'return'):
            v = N.nf(e.val)
            if v.op == 'agg' and v.a[1] == 'None':
                self.none.append(e)
            elif v.op == 'agg' and v.a[1] == 'Some':
                self.some.append(e)
            else:
                raise Fail('%s: a result that is neither a path nor none' % self.root)
        if len(self.some) < 1:
            raise Fail('%s: never returns a path' % self.root)
        g = retval(self.chk.prog, 'shortest_path::ShortestPath::get_weight')
        if g.op != 'init' and g.op != 'ld':
            raise Fail('ShortestPath::get_weight is not a field')
        fld = g.a[0].split('.')[-1]
        self.best = []
        for e in self.some:
            sp = dict(leaves1(N.nf(e.val).a[2][0][1]))
            if fld not in sp:
                raise Fail('%s: the weight of the returned path is not known' % self.root)
            self.best.append(sp[fld])
        self.bfam = set()
        for b in self.best:
            work = [b]
            while work:
                x = work.pop()
                if x in self.bfam or x.op != 'phi':
                    continue
                self.bfam.add(x)
                work.extend(N.nf(o) for o in it.phiops.get(x, {}).values())

    def meeting(self):
        """start values of the walks along the parents"""
        it, N = self.it, self.N
        ms = set()
        for n in live(it):
            for ph in self.term.byphi.get(n, ()):
                if ph in N.res:
                    continue
                ops = [N.nf(o) for o in it.phiops[ph].values()]
                w = [o for o in ops if o.op == 'ld' and o.a[1] == (ph,) and self.rawlabel(o, lambda s: s.parent)]
                if w:
                    for o in ops:
                        if o not in w:
                            ms.add((self.rawlabel(w[0], lambda s: s.parent)[0], o))
        return ms

    def others(self, s):
        return s.other


def onlyentry(m):
    """value of a memory with exactly one written element"""
    if m.op == 'st' and m.a[1] == (I(0),):
        return m.a[2]
    return None


def leaves1(t):
    return list(t.a[2]) if t.op == 'agg' else []


def terms_lin(t):
    import terms
    return terms._lin(t, 64)


# ---------------------------------------------------------------- shared obligations
def routevalue(q, s, v, n, f):
    """v is the weight of a route from an end of side s to node n: an offset, or the popped weight plus an edge"""
    r = q.listpair(v, n)
    if r:
        return None if (r[0] == 'a2') == (s.dir == 'out') else 'the offset belongs to the other end'
    if v.op != 'sadd' or len(v.a) != 2:
        return 'the weight is neither an offset nor a label plus an edge weight'
    for x, y in (v.a, v.a[::-1]):
        e = q.edge(y)
        if e is None:
            continue
        top = q.topof(s, x, f)
        if not top:
            return 'the weight does not extend the entry taken from the %s queue' % s.name
        if e[0] != q.csr.edges(s.dir) or e[1] != 'weight':
            return 'the weight is not taken from an edge that can be travelled in this direction'
        a = q.edge(n)
        if a is None or a[0] != e[0] or a[1] != 'adj_node' or a[2] is not e[2]:
            return 'the labelled node is not the far end of the edge'
        lp = q.edgeloop(e[2], s.dir, top[0])
        if lp is None or not q.inrange(lp, f):
            return 'the edge is not one of the edges of the node taken from the queue'
        return None
    return 'no edge weight is added'


def naturalloop(it, head, steps):
    """nodes of the loop with the given back edges"""
    pr = it.__dict__.get('_preds')
    if pr is None:
        pr = it._preds = preds(it)
    body = {head}
    work = [e[0] for e in steps]
    while work:
        n = work.pop()
        if n in body:
            continue
        body.add(n)
        work.extend(pr.get(n, ()))
    return body


def indbody(it, ind):
    body = set()
    for p in ind.scc:
        steps = [s[1] for s in ind.steps if s[0] == p.a[0]]
        back = [e for e, o in it.phiops.get(p, {}).items() if loops.base_off(o)[0] in ind.scc]
        if back:
            body |= naturalloop(it, p.a[0], back)
    return body


def goals(q):
    return [e for s in q.sides for e in s.pops] + list(evs(q.it, 'return'))


def roundsdone(q, ind, cut, okedge, doneedge, rule, where, what):
    """every round passes a cut event or an edge that is excused, and the loop is only left when it is exhausted"""
    it = q.it
    heads = {p.a[0] for p in ind.scc}
    body = indbody(it, ind)
    stepe = {s[1] for s in ind.steps}
    bad = None

    def ec(n, i, t):
        return (n, i) in stepe or okedge(n, i) or doneedge(n, i) or t not in body
    p = passedges(it, [('node', s[0]) for s in ind.steps], cut, ec)
    for e in sorted(stepe):
        if e in p and not okedge(*e):
            bad = 'a round can pass without it'
    leave = []
    for n in sorted(body):
        for i, (t, _) in enumerate(it.succs[n]):
            if t not in body and it.instate[t] is not None and not doneedge(n, i):
                f = q.edgefacts(n, i)
                if f is None:
                    continue
                if hits(it, [('edge', n, i)], (), goals(q)):
                    bad = bad or 'the loop can be left before all of them were looked at'
    q.chk.ob(bad is None, rule, where, bad or what)
    return bad is None


# ---------------------------------------------------------------- C02
def c02(chk):
    for root in (MULTI, SINGLE):
        q = Query(chk, root)
        chk.units.add(root)
        c02root(chk, q)
    chk.floor('labels are weights of routes', 8, 'two starts and two relaxations for both entry points')
    chk.floor('the best weight joins two labels of one node', 6, 'updates of the best weight')


def c02root(chk, q):
    it, N = q.it, q.N
    for s in q.sides:
        for st in s.labels:
            n = q.idx(st)
            m = routevalue(q, s, N.nf(st.val), n[0], q.facts(st.facts)) if len(n) == 1 else 'not a label of one node'
            chk.ob(m is None, 'labels are weights of routes', where(it, st), m or 'an offset, or the popped weight plus the weight of one of its edges')
        for p in s.pushes:
            lv = dict(leaves(N.nf(p.item)))
            m = routevalue(q, s, lv[s.fw], lv[s.fn], q.facts(p.facts))
            chk.ob(m is None, 'queue entries are weights of routes', where(it, p), m or 'the entry carries the label of its node')
    ms = q.meeting()
    mset = {m for _, m in ms}
    ok = len(mset) == 1 and {s for s, _ in ms} == set(q.sides)
    chk.ob(ok, 'one meeting node', q.root, 'both halves of the route start at one node' if ok else 'the two halves of the route do not start at one node')
    if not ok:
        return
    M = mset.pop()
    for e, W in zip(q.some, q.best):
        f = q.facts(e.facts)
        found = f.get(eq(W, MAX)) is False or f.get(lt(W, MAX)) is True
        chk.ob(f.get(eq(M, MAX)) is False or found, 'a path is only returned when the searches met', where(it, e), 'the meeting node is known to exist')
        def good(w, m, f):
            return w is MAX and (m is MAX or found) or sumok(q, w, m, q.N.facts(f)) is None
        for w, m, g, at in joint(q, e, W, M, good):
            if w is MAX and (m is MAX or found):
                chk.ob(True, 'the best weight joins two labels of one node', at, 'nothing found yet')
                continue
            r = sumok(q, w, m, q.N.facts(g))
            chk.ob(r is None, 'the best weight joins two labels of one node', at, r or 'the sum of the two labels of the meeting node')


def joint(q, E, W, M, good):
    """the values that two variables take together at event E: (w, m, facts, place). `good` tells if a combination needs no refinement"""
    it, N = q.it, q.N
    out = {}
    seen = {}
    work = [(W, M, {}, q.root, 0, E.nid)]
    while work:
        w, m, f, at, depth, end = work.pop()
        old = seen.get((w, m))
        if old is not None:
            f = {c: v for c, v in f.items() if old.get(c) is v}
            if len(f) == len(old):
                continue
        out.pop((w, m), None)
        ps = [x for x in (w, m) if x.op == 'phi' and x in it.phiops]
        if not ps:
            if depth < 8 and not good(w, m, f):
                # values chosen at joins inside of the terms
                ps = [x for t in (w, m) for x in subterms(t) if x.op == 'phi' and x.a[1][0] != 'm' and x in it.phiops and not selfdep(it, x)]
            if not ps:
                seen[w, m] = f
                out[w, m] = (w, m, f, at)
                continue
            depth += 1
        else:
            # joins that were executed after the outermost one
            ps += [x for t in (w, m) for x in subterms(t) if x not in ps and x.op == 'phi' and x.a[1][0] != 'm' and x in it.phiops and not selfdep(it, x)
                   and any(x.a[0] != p.a[0] and later(it, p.a[0], x.a[0]) == x.a[0] for p in ps)]
        seen[w, m] = f
        # take the join that was executed last: a phi of the later node
        n = ps[0].a[0]
        for x in ps[1:]:
            if x.a[0] != n:
                n = later(it, n, x.a[0])
        es = {e for x in ps if x.a[0] == n for e in it.phiops[x]}
        mid = between(it, n, end)
        f = {c: v for c, v in f.items() if not any(x.op in ('phi', 'ev') and x.a[0] in mid for x in subterms(c))}
        for e in sorted(es):
            st = it.incoming[n].get(e)
            if st is None or any(x.a[0] == n and e not in it.phiops[x] for x in (w, m) if x.op == 'phi' and x in it.phiops):
                continue  # (the value does not exist on this edge: another variant of an enum)
            memo = {}
            w2, m2 = N.nf(subst(it, w, n, e, memo)), N.nf(subst(it, m, n, e, memo))
            # what is known about the joined values holds for the chosen ones
            f2 = dict(st.facts)
            for c, v in f.items():
                c, v = N.fact(subst(it, c, n, e, memo), v)
                if c.op == 'b' and c.a[0] is not v or f2.get(c, v) is not v:
                    break
                f2[c] = v
            else:
                fn = fnof(it, e[0]) if e[0] >= 0 else q.root
                work.append((w2, m2, f2, 'the value set in %s' % fn, depth, e[0]))
    return list(out.values())


def between(it, n, end):
    """nodes that may be executed after the last execution of n and before end"""
    c = it.__dict__.setdefault('_between', {})
    if (n, end) not in c:
        f, work = set(), [n]
        while work:
            for t, _ in it.succs[work.pop()]:
                if t != n and t not in f and it.instate[t] is not None:
                    f.add(t)
                    work.append(t)
        b, work = {end}, [end] if end != n else []
        while work:
            for p, _ in it.incoming[work.pop()]:
                if p != n and p not in b and p >= 0:
                    b.add(p)
                    work.append(p)
        c[n, end] = f & b
    return c[n, end]


def selfdep(it, phi):
    """the value of the phi depends on its own previous value"""
    c = it.__dict__.setdefault('_selfdep', {})
    if phi in c:
        return c[phi]
    seen = set()
    work = [phi]
    r = False
    while work and not r:
        x = work.pop()
        for o in it.phiops.get(x, {}).values():
            for y in subterms(o):
                if y is phi and o is not phi:
                    r = True
                if y.op == 'phi' and y.a[1][0] != 'm' and y in it.phiops and y not in seen:
                    seen.add(y)
                    work.append(y)
    c[phi] = r
    return r


def subst(it, t, n, e, memo=None):
    """replace the values chosen at node n by those that come in over edge e"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            if x.op == 'phi':
                r = it.phiops[x].get(e, x) if x.a[0] == n and x in it.phiops else x
            elif not x.a:
                r = x
            else:
                a = go(x.a)
                r = x if all(p is q for p, q in zip(a, x.a)) else remake(x, a)
            memo[x] = r
        return r
    return go(t)


def later(it, a, b):
    """of two joins the one that cannot be passed by after the other without being passed again"""
    d = it.__dict__.setdefault('_dom', {})
    if (a, b) not in d:
        # a dominates b: b is the later one
        d[(a, b)] = b if dominates(it, {a}, b) else a
    return d[(a, b)]


def sumok(q, w, m, f):
    """w is the weight of a connection through m"""
    N = q.N
    if w.op != 'sadd' or len(w.a) != 2:
        return 'the best weight is not a sum of two labels'
    got = []
    for x in w.a:
        r = None
        for s in q.sides:
            if (x, m) in s.tops:
                r = s
        if r is None:
            for s in q.sides:
                if q.label(x, f, s, m):
                    r = s
        got.append(r)
    if None not in got and got[0] is not got[1]:
        return None
    # a node that is source and target
    for c, v in f.items():
        if c.op == 'eq' and v is True and (m is c.a[0] or m is c.a[1]):
            for x, y in (w.a, w.a[::-1]):
                p, r = q.listpair(x, c.a[0]), q.listpair(y, c.a[1])
                if p and r and {p[0], r[0]} == {'a2', 'a3'}:
                    return None
    if q.single and w is I(0):
        return None if f.get(eq(mkarg(q, 'a2'), mkarg(q, 'a3'))) is True else 'weight zero for different ends'
    return 'the parts of the best weight are not the two labels of the meeting node'


def mkarg(q, nm):
    for a in q.it.rootargs:
        if a.op == 'init' and a.a[0] == nm:
            return a
    return None


# ---------------------------------------------------------------- C03
def c03(chk):
    for root in (MULTI, SINGLE):
        q = Query(chk, root)
        chk.units.add(root)
        c03root(chk, q)
    chk.floor('every entry taken from a queue is used, or nothing can be gained from it', 2, 'one removal per queue')
    chk.floor('each node reached from both ends is considered as meeting node', 2, 'one removal per queue')
    chk.floor('all edges of a node are followed', 2, 'one loop per direction')
    chk.floor('the search only ends when both queues are empty', 4, 'two queues for both entry points')


def isbest(q, t):
    return t in q.bfam or t is MAX


def excused(q, s, p, f):
    """nothing can be gained from the popped entry"""
    w, n = s.items[id(p)]
    for c, v in f.items():
        if c.op == 'ld' and v is True:
            r = q.rawlabel(c, lambda s: s.settled)
            if r and r[0] is s and r[1] is n:
                return 'settled'
        if c.op == 'lt':
            x, y = c.a
            # a < b known, or b <= a known
            less = (x, y) if v else (y, x)
            lo, hi = less
            if hi is w:
                if isbest(q, lo):
                    return 'too expensive'
                if v and q.label(lo, f, s, n):
                    return 'outdated'
                if stall(q, s, n, lo, f):
                    return 'stalled'
    return None


def holdsflag(q, p, w0, f, at, test):
    """test holds for the facts f at node `at`, or wherever a variable known there (a flag, or one compared with w0) was set since p"""
    it = q.it
    if test(q.facts(f)):
        return True

    def since(c, lit, at, seen):
        # the variable was set after p was executed; lit is what is known about its value
        if at != c.a[0] and at in reach(it, [p.nid], {c.a[0]}):
            return False
        seen.add(c)
        for e, x in it.phiops[c].items():
            st = it.incoming[c.a[0]].get(e)
            if st is None or x in seen:
                continue
            for z, w in cases(lit(x)):
                z = next((y for y in (z, strip(z)) if y in it.phiops and q.N.nf(lit(y)[0]) is z and lit(y)[1] == w), z)
                k = lit(z) if z in it.phiops else (z, w)
                if z in seen:
                    continue
                if q.facts(st.facts).get(k[0]) is (not w):
                    continue
                g = SimpleNamespace(facts=dict(st.facts), env={})
                if not it.assume(g, k[0], w) or test(q.facts(g.facts)):
                    continue
                if z in it.phiops and since(z, lit, e[0], seen):
                    continue
                return False
        return True

    def strip(c):
        """x in x < w0"""
        return c.a[0] if c.op == 'lt' and c.a[1] is w0 else c

    def cases(l):
        """what may make l hold"""
        c, v = l
        c = q.N.nf(c)
        while c.op == 'not':
            c, v = c.a[0], not v
        if (c.op == 'or' and v) or (c.op == 'and' and not v):
            return [r for x in c.a for r in cases((x, v))]
        if c.op == 'lt' and c.a[1] is w0 and v:
            if c.a[0] is MAX:
                return []
            if c.a[0].op == 'min':
                return [r for x in c.a[0].a for r in cases((lt(x, w0), v))]
        return [(c, v)]

    for c, v in list(f.items()):
        if not isinstance(v, bool):
            continue
        if c.op == 'phi' and c in it.phiops and since(c, lambda x: (x, v), at, set()):
            return True
        if c.op == 'lt':
            x, y = c.a
            if x.op == 'phi' and x in it.phiops and y is w0 and since(x, lambda z: (lt(z, w0), v), at, set()):
                return True
    return False


def stall(q, s, n, x, f):
    """x is the weight with which n can be reached through a higher neighbour"""
    if x.op != 'sadd' or len(x.a) != 2:
        return False
    d = REV[s.dir]
    for a, b in (x.a, x.a[::-1]):
        e = q.edge(b)
        if e is None or e[0] != q.csr.edges(d) or e[1] != 'weight':
            continue
        adj = mk('ld', mk('m0', b.a[0].a[0], ('[]', 'adj_node')), (e[2],))
        if not q.label(a, f, s, adj, anymax=True):
            continue
        lp = q.edgeloop(e[2], d, n)
        if lp is not None and q.inrange(lp, f):
            return True
        if q.onward(e[2], d, n) and f.get(lt(e[2], q.csr.end(d, n))) is True:
            return True
    return False


def notbetter(q, s, v, n, f):
    """the facts say that v does not improve the label of n"""
    for c, tr in f.items():
        if c.op != 'lt':
            continue
        lo, hi = c.a if tr else c.a[::-1]
        # lo < hi, or lo <= hi
        if hi is v and (isbest(q, lo) or q.label(lo, f, s, n)):
            return True
    return f.get(eq(v, MAX)) is True


def c03root(chk, q):
    it, N = q.it, q.N
    G = goals(q)
    R1 = 'every entry taken from a queue is used, or nothing can be gained from it'
    R2 = 'all edges of a node are followed'
    R3 = 'each node reached from both ends is considered as meeting node'
    R4 = 'a label is queued when it is set'
    R5 = 'the search only ends when both queues are empty'
    R6 = 'the search starts from all sources and targets'
    R7 = 'labels only ever improve'
    R8 = 'no path is reported only if the searches did not meet'
    memo = {}
    for s in q.sides:
        relax = []
        starts = []
        for st in s.labels:
            n = q.idx(st)[0]
            v = N.nf(st.val)
            r = q.listpair(v, n)
            if r:
                starts.append((st, v, n, r))
                continue
            if v.op == 'sadd':
                for x, y in (v.a, v.a[::-1]):
                    e = q.edge(y)
                    top = q.topof(s, x, q.facts(st.facts))
                    if e and top:
                        lp = q.edgeloop(e[2], s.dir, top[0])
                        if lp and e[0] == q.csr.edges(s.dir) and e[1] == 'weight':
                            relax.append((st, v, n, x, top[0], lp, e))
        for p in s.pops:
            w, n = s.items[id(p)]
            mine = [r for r in relax if r[4] is n]
            if not chk.ob(bool(mine), R1, where(it, p), 'the edges of the popped node are followed' if mine else 'no loop over the edges of the popped node labels their far ends'):
                continue
            entry = {e for r in mine for _, e, _ in r[5][0].inits}
            ex = {}

            def exc(nn, i):
                k = (nn, i)
                if k not in ex:
                    f = q.edgefacts(nn, i)
                    ex[k] = False if f is None else holdsflag(q, p, w, f, nn, lambda g: excused(q, s, p, g))
                return ex[k]

            def ec(nn, i, t):
                return (nn, i) in entry or exc(nn, i)
            h = hits(it, [p], (), G, ec)
            chk.ob(not h, R1, where(it, p), ('control can go on to %s without' % where(it, h[0])) if h else 'settled, too expensive, stalled, or its edges are followed')
            # the loop over the edges
            for r in mine:
                st, v, adj, _, _, lp, e = r
                m1 = {}

                def okedge(nn, i, v=v, adj=adj):
                    k = (nn, i)
                    if k not in m1:
                        f = q.edgefacts(nn, i)
                        m1[k] = f is None or notbetter(q, s, v, adj, q.facts(f))
                    return m1[k]

                def done(nn, i, lp=lp):
                    f = q.edgefacts(nn, i)
                    return f is not None and q.exhausted(lp, q.facts(f))
                roundsdone(q, lp[0], [x[0] for x in mine if x[5][1] is lp[1]], okedge, done, R2, where(it, st), 'each edge either improves the label of its far end or cannot')
            # meeting
            o = s.other
            m2 = {}
            opsums = {}
            for b in q.bfam:
                for e, x in it.phiops.get(b, {}).items():
                    x = N.nf(x)
                    f = it.incoming[b.a[0]].get(e)
                    if x.op == 'sadd' and len(x.a) == 2 and f is not None:
                        for y, rest in (x.a, x.a[::-1]):
                            if w not in {N.nf(z) for z in expand(it, y)} and not q.label(y, f.facts, s, n):
                                continue
                            if q.label(rest, f.facts, o, n):
                                opsums[e] = x
                            for z in expand(it, rest):
                                r = q.rawlabel(N.nf(z))
                                if r and r[0] is o and n in {N.nf(u) for u in expand(it, r[1])}:
                                    opsums[e] = x

            def met(nn, i):
                k = (nn, i)
                if k in m2:
                    return m2[k]
                r = False
                f = q.edgefacts(nn, i)
                if f is not None:
                    f = q.facts(f)
                    if q.flagged(o, n, f) is False:
                        r = True
                    for c, tr in f.items():
                        if c.op == 'eq' and tr is True and MAX in c.a:
                            lo, hi = MAX, c.a[0] if c.a[1] is MAX else c.a[1]
                        elif c.op == 'lt':
                            lo, hi = c.a if tr else c.a[::-1]
                        else:
                            continue
                        if isbest(q, lo) and hi.op == 'sadd' and len(hi.a) == 2:
                            for y, z in (hi.a, hi.a[::-1]):
                                if (y is w or q.label(y, f, s, n)) and q.label(z, f, o, n):
                                    r = True
                    if k in opsums:
                        r = True
                m2[k] = r
                return r

            def ec2(nn, i, t):
                return exc(nn, i) or met(nn, i)
            h = hits(it, [p], (), G, ec2)
            chk.ob(not h, R3, where(it, p), ('control can go on to %s without comparing the sum of both labels with the best weight' % where(it, h[0])) if h else 'the sum of both labels is compared with the best weight')
        # labels are queued
        for st in s.labels:
            n, v = q.idx(st)[0], N.nf(st.val)
            ps = []
            for p in s.pushes:
                lv = dict(leaves(N.nf(p.item)))
                if lv[s.fw] is v and lv[s.fn] is n:
                    ps.append(p)
            h = hits(it, [st], ps, G + [st])
            bef = hits(it, [('node', it.entry)] + [e for e in G if e.kind == 'hpop'] + [st], ps, [st])
            good = not h or not bef
            chk.ob(good, R4, where(it, st), 'an entry with this node and weight is added to the queue' if good else 'the label can be set without adding the node to the queue with this weight')
            d = q.term.decreasing(st, q.term.looping())
            chk.ob(d, R7, where(it, st), 'stored only if smaller than the current label' if d else 'a label can be replaced by one that is not smaller')
        # ends only when empty
        def empty(nn, i, t, s=s):
            for c, v in q.newfacts(nn, i).items():
                if c.op == 'eq' and v is True and I(0) in c.a:
                    x = c.a[0] if c.a[1] is I(0) else c.a[1]
                    m = lenof(x)
                    if m and rootobj(N.nf(m)) is s.heap:
                        return True
            return False
        h = hits(it, s.pushes, (), list(evs(it, 'return')), empty)
        chk.ob(not h, R5, q.root + ' (%s queue)' % s.name, ('a result is returned at %s while the queue may hold entries' % where(it, h[0])) if h else 'the queue is known to be empty at the end')
        # start
        chk.ob(bool(starts), R6, q.root + ' (%s)' % s.name, 'offsets become labels')
        direct = [x[0] for x in starts if x[3][1] is None]
        if direct:
            h = hits(it, [('node', it.entry)], direct, G)
            chk.ob(not h, R6, where(it, direct[0]), 'the node is labelled before the search begins')
        dones = []
        for st, v, n, r in starts:
            nm, i = r
            if i is None:
                continue
            b, o = loops.base_off(i)
            ind = loops.induction(it, b) if b is not None and o == 0 else None
            ln = I(1) if q.single else mk('ld', mk('m0', mkarg(q, nm), ('#len',)), ())
            if ind is None:
                chk.ob(False, R6, where(it, st), 'the list is not visited entry by entry')
                continue
            m1 = {}

            def okedge(nn, ii, v=v, n=n):
                k = (nn, ii)
                if k not in m1:
                    f = q.edgefacts(nn, ii)
                    m1[k] = f is None or notbetter(q, s, v, n, q.facts(f))
                return m1[k]

            def done(nn, ii, ind=ind, ln=ln):
                f = q.edgefacts(nn, ii)
                return f is not None and any(d is ind for d, _ in loops.exhausted(it, q.facts(f), ln))
            dones.append(done)
            roundsdone(q, ind, [x[0] for x in starts if x[3] == r], okedge, done, R6, where(it, st), 'each entry of the list becomes a label unless it has a better one')
        if dones:
            h = hits(it, [('node', it.entry)], (), G, lambda nn, ii, t: any(d(nn, ii) for d in dones))
            chk.ob(not h, R6, where(it, starts[0][0]), 'the whole list is visited before the search begins' if not h else 'the search can begin before the whole list was visited')
    ms = {m for _, m in q.meeting()}
    upd = set()
    for b in q.bfam:
        for e, x in it.phiops.get(b, {}).items():
            if N.nf(x).op == 'sadd' and e[0] >= 0:
                upd.add(('edge',) + e)
    late = hits(it, sorted(upd), (), q.none)
    for e in q.none:
        f = q.facts(e.facts)
        good = e not in late or any(f.get(eq(m, MAX)) is True for m in ms) or any(f.get(eq(b, MAX)) is True or f.get(lt(b, MAX)) is False for b in q.best)
        chk.ob(good, R8, where(it, e), 'no meeting node was found' if good else 'none can be returned although the searches met')


def lenof(x):
    """object whose length the term is"""
    if x.op == 'phi' and x.a[1][0] == 'm' and x.a[1][2] == ('#len',):
        return x.a[1][1]
    if x.op == 'ld':
        m = memname(x.a[0])
        if m and m[1] == ('#len',):
            return m[0]
    if x.op == 'lin':
        for k, c in x.a[1]:
            r = lenof(k)
            if r is not None:
                return r
    return None
