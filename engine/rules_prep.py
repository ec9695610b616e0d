"""C04, C05 and the linking part of C06: the preparation."""
from terms import *
from graph import *
from evgraph import *
from norm import norm
from base import Fail
import loops
from rules_query import leaves, Csr, retval
from rules_term import memname
from rules_order import okval, returns, BP, BO

ROOTS = (BP, BO)


def gmatch(pat, t, fields, node, N):
    """t is what the accessor term pat means for the graph under construction: fields maps field name -> list object"""
    if pat.op == 'init' and pat.a[0] == 'a1':
        return t is node
    if pat.op == 'ld' and t.op == 'ld':
        if pat.a[0].op != 'm0' or len(pat.a[1]) != len(t.a[1]):
            return False
        o, leaf = pat.a[0].a
        m = memname(t.a[0])
        if m is None or o.op != 'init' or fields.get(o.a[0].split('.', 1)[1]) is not rootobj(N.nf(m[0])) or m[1] != leaf:
            return False
        return all(gmatch(p, x, fields, node, N) for p, x in zip(pat.a[1], t.a[1]))
    if pat.op == 'lin':
        d, c = terms_lin(pat)
        e, f = terms_lin(t)
        if c != f or len(d) != 1 or len(e) != 1:
            return False
        (p, k), = d.items()
        (x, l), = e.items()
        return k == l and gmatch(p, x, fields, node, N)
    return pat is t and pat.op == 'i'


def terms_lin(t):
    import terms
    return terms._lin(t, 64)


def choices(it, N, v, facts):
    """the values a term may stand for, each with what is known then; loop counters are not taken apart"""
    out, seen, work = [], set(), [(N.nf(v), facts)]
    while work:
        x, f = work.pop()
        if x.op == 'phi' and x in it.phiops and loops.induction(it, x) is None:
            if x in seen:
                continue
            seen.add(x)
            for e, o in it.phiops[x].items():
                st = it.incoming[x.a[0]].get(e)
                if st is not None:
                    g = dict(f)
                    g.update(st.facts)
                    work.append((N.nf(o), g))
        elif x.op != 'infeasible':
            out.append((x, f))
        if len(out) > 500:
            raise Fail('too many alternatives')
    return out


def plain(it, N, t):
    """a counter plus a fixed term, as a counter that starts there if the loop has one"""
    dd, c = terms_lin(t)
    for q in dd:
        if q.op != 'phi' or dd[q] != 1 or q not in it.phiops or len(dd) == 1 and not c:
            continue
        rest = sub(t, q)
        for p in it.phiops:
            if p.a[0] == q.a[0] and p is not q and p not in N.res and set(it.phiops[p]) == set(it.phiops[q]):
                # p = q + rest at the beginning, and both take the same steps
                ok = True
                for e, o in it.phiops[p].items():
                    x, y = N.nf(o), N.nf(it.phiops[q][e])
                    if x is not add(y, rest) and not (constdiff(x, p) is not None and constdiff(x, p) == constdiff(y, q)):
                        ok = False
                if ok:
                    return p
    return t


class Prep:
    def __init__(self, chk, root):
        self.chk, self.root = chk, root
        self.it = it = chk.prog.run(root)
        self.N = N = norm(it)
        self.csr = Csr(chk.prog)
        self._fact, self._ef = {}, {}
        self._views = None
        chk.units.add(root)
        self.rets = []
        graph = None
        for e, v in returns(it, N):
            for a, f in loops.alts(it, v, e.facts):
                w = okval(N.nf(a))
                if w is None:
                    continue
                if w.op != 'agg':
                    raise Fail('%s: the returned graph is not known' % root)
                self.rets.append(e)
                g = {n: x for n, x in w.a[2]}
                ls = {n: x for n, x in g.items() if x.op == 'obj'}
                if graph is None:
                    graph = ls
                elif graph != ls:
                    raise Fail('%s: returns different graphs' % root)
        if not graph:
            raise Fail('%s never returns a graph' % root)
        self.fields = graph
        self.E = {d: graph.get(self.csr.edges(d)) for d in ('out', 'in')}
        if None in self.E.values() or self.E['out'] is self.E['in']:
            raise Fail('%s: the edge lists of the returned graph are not known' % root)
        self.first, self.ranks = {}, None
        for d in ('out', 'in'):
            self.offsets(d)
        self.lists()
        self.rounds()

    def offsets(self, d):
        """begin and end are entries of one list at the rank of the node and behind it"""
        b, e, _ = self.csr.t[d]

        def fld(t):
            if t.op == 'ld' and t.a[0].op == 'm0' and t.a[0].a[0].op == 'init' and t.a[0].a[1] == ('[]',) and len(t.a[1]) == 1:
                return t.a[0].a[0].a[0].split('.', 1)[1]
        nm = fld(b)
        rk = fld(b.a[1][0]) if nm else None
        ok = nm is not None and rk is not None and b.a[1][0].a[1][0] is mk('init', *[x for x in b.a[1][0].a[1][0].a]) and b.a[1][0].a[1][0].op == 'init' and b.a[1][0].a[1][0].a[0] == 'a1' and fld(e) == nm and e.a[1][0] is add(b.a[1][0], I(1))
        if not ok or (self.ranks is not None and self.ranks is not self.fields.get(rk)):
            raise Fail('the edges of a node are not found through its rank')
        self.ranks = self.fields.get(rk)
        self.first[d] = self.fields.get(nm)
        if self.ranks is None or self.first[d] is None:
            raise Fail('%s: the ranks or offsets of the returned graph are not known' % self.root)

    # ------------------------------------------------------------ basics
    def facts(self, f):
        r = self._fact.get(id(f))
        if r is None:
            r = self._fact[id(f)] = (self.N.facts(f), f)
        return r[0]

    def edgefacts(self, n, i):
        t = self.it.succs[n][i][0]
        st = self.it.incoming[t].get((n, i))
        return None if st is None else self.facts(st.facts)

    def idx(self, e):
        return tuple(self.N.nf(i) for i in e.idx)

    def objof(self, e):
        o = e.d.get('obj')
        if not isinstance(o, T):
            o = e.d.get('h')
        return rootobj(self.N.nf(o)) if isinstance(o, T) else None

    def memkey(self, m):
        nm = memname(m)
        return None if nm is None else (rootobj(self.N.nf(nm[0])), nm[1])

    def writes(self, *objs):
        """what changes a list; the stores that belong to an appended value are left out"""
        out = []
        for n in live(self.it):
            last = None
            for e in self.it.events[n]:
                if e.kind not in WRITES:
                    continue
                if self.objof(e) not in objs:
                    continue
                if e.kind in ('store', 'storec') and last is not None and last.kind == 'push' and last.bid == e.bid and last.sp == e.sp and e.leaf[:len(last.leaf)] == last.leaf and self.objof(e) is self.objof(last):
                    ix, li = self.idx(e), self.idx(last)
                    if ix[:len(li)] == li and len(ix) > len(li) and ix[len(li)] is self.N.nf(last.at):
                        continue
                out.append(e)
                last = e
        return out

    def isnum(self, t):
        """t is the number of nodes"""
        if not hasattr(self, '_num'):
            self._num = set()
            for e in self.rets:
                d = e.mem.get((self.ranks, None))
                if d is not None and d.op == 'fillobj':
                    self._num.add(self.N.nf(d.a[1]))
            for e in evs(self.it, 'return'):
                for a, f in loops.alts(self.it, self.N.nf(e.val), {}):
                    w = okval(self.N.nf(a))
                    if w is not None and w.op == 'agg':
                        self._num |= {x for n, x in w.a[2] if n == 'num_nodes'}
        return t in self._num

    # ------------------------------------------------------------ the adjacency lists
    def inputedge(self, t):
        """(field, position) if t reads an edge of the input graph"""
        if t.op == 'ld' and t.a[0].op == 'm0' and len(t.a[1]) == 1:
            o, leaf = t.a[0].a
            if o.op == 'init' and o.a[0].startswith('a0') and len(leaf) == 2 and leaf[0] == '[]':
                return leaf[1], t.a[1][0], (o, leaf[:1])
        return None

    def lists(self):
        it, N = self.it, self.N
        self.L = {}
        self.adj = self.weight = self.center = None
        self.inpush = {'out': [], 'in': []}
        for e in evs(it, 'push'):
            if e.leaf != ('[]',):
                continue
            ix = self.idx(e)
            s = self.inputedge(ix[0]) if len(ix) == 1 else None
            if s is None:
                continue
            lv = dict(leaves(N.nf(e.val)))
            r = {}
            for p, x in lv.items():
                f = self.inputedge(x)
                if f is not None and f[1] is s[1] and f[2] == s[2]:
                    r[f[0]] = p
                elif x is MAX:
                    r[None] = p
            d = {'from': 'out', 'to': 'in'}.get(s[0])
            far = {'from': 'to', 'to': 'from'}.get(s[0])
            if d is None or far not in r or 'weight' not in r or None not in r or len(lv) != 3:
                continue
            k = (r[far], r['weight'], r[None])
            o = self.objof(e)
            if self.L.setdefault(d, o) is not o or (self.adj is not None and k != (self.adj, self.weight, self.center)):
                raise Fail('%s: the edges of the input graph go into several lists' % self.root)
            self.adj, self.weight, self.center = k
            self.inpush[d].append(e)
        if set(self.L) != {'out', 'in'} or self.L['out'] is self.L['in']:
            raise Fail('%s: the lists of leaving and entering edges cannot be identified' % self.root)
        self.dirof = {o: d for d, o in self.L.items()}
        self.W = self.writes(*self.L.values())
        self.other = {'out': 'in', 'in': 'out'}

    def arc(self, t):
        """(direction, field, node, position) if t reads an entry of an adjacency list, or of a copy of one"""
        r = self.rawarc(t)
        if r is None and t.op == 'ld' and len(t.a[1]) == 1:
            k = self.memkey(t.a[0])
            if k is not None and k[0].op == 'obj' and k[1][:1] == ('[]',):
                v = self.views().get(k[0])
                if v is not None and k[1][1:] in v[1]:
                    return v[0], v[1][k[1][1:]], self.node, t.a[1][0]
        return r

    def views(self):
        """copies of the lists of the ranked node that are made and filled in each round before anything changes: object -> (direction, {path: field})"""
        if self._views is None:
            self._views = {}
            from paths import natural
            it, N = self.it, self.N
            body = natural(it, self.rd.node) or set()
            back = lambda n, i, t: t == self.rd.node
            for e in evs(it, 'new'):
                o = N.nf(e.obj)
                if o.op != 'obj' or o in self.dirof or o in self._views or e.nid not in body:
                    continue
                P = self.writes(o)
                if not P or any(x.kind != 'push' or x.leaf not in ((), ('[]',)) or x.idx for x in P):
                    continue
                ds, fl, pos = set(), None, set()
                for x in P:
                    m = {}
                    for k, v in leaves(N.nf(x.val)):
                        a = self.rawarc(v)
                        if a is not None and a[1] is not None and a[2] is self.node:
                            m[k] = a[1]
                            ds.add(a[0])
                            pos.add(a[3])
                    fl = m if fl is None or fl == m else {}
                if not fl or len(ds) != 1 or len(pos) != 1 or 'adj' not in fl.values():
                    continue
                d, q = ds.pop(), pos.pop()
                ind = loops.induction(it, q) if q.op == 'phi' else None
                if ind is None or not all(N.nf(v) is I(0) for _, _, v in ind.inits) or not all(s[3] == 1 for s in ind.steps):
                    continue
                heads = {x.a[0] for x in ind.scc}
                # one entry for each, in their order
                if hits(it, P, (), P, lambda n, i, t: t in heads or t == self.rd.node):
                    continue
                if hits(it, [('node', self.rd.node)], [e], P, back):
                    continue
                cut = lambda k: P if k is q else []
                full = lambda f: self.every(f, lambda t: self.rawlen(t, d, self.node), cut) is not None
                if any(x.nid in body and hits(it, [e], (), [x], back) and not self.passed(x, full) for x in self.W):
                    continue
                self._views[o] = (d, fl)
        return self._views

    def rawarc(self, t):
        if t.op == 'ld' and len(t.a[1]) == 2:
            k = self.memkey(t.a[0])
            if k is not None and k[0] in self.dirof and k[1][:2] == ('[]', '[]'):
                f = {self.adj: 'adj', self.weight: 'weight', self.center: 'center'}.get(tuple(k[1][2:]))
                return self.dirof[k[0]], f, t.a[1][0], t.a[1][1]
        return None

    def isarc(self, t, d, f, n, p):
        a = self.arc(t)
        return a is not None and a[0] == d and a[1] == f and a[2] is n and a[3] is p

    def listlen(self, t, d, n):
        """t is the number of entries of the list of node n, or of a copy of it"""
        if self.rawlen(t, d, n):
            return True
        return n is self.node and any(v[0] == d and self.sizeof(t, o) for o, v in self.views().items())

    def rawlen(self, t, d, n):
        if t.op == 'ld' and len(t.a[1]) == 1 and t.a[1][0] is n:
            k = self.memkey(t.a[0])
            return k is not None and k[0] is self.L[d] and k[1] == ('[]', '#len')
        return False

    def sizeof(self, t, o):
        """t is the number of entries of a plain list"""
        N = self.N
        if not hasattr(self, '_sizes'):
            self._sizes = {}
            for q in self.it.phiops:
                if q.a[1][0] == 'm' and q.a[1][2] == ('#len',):
                    # a counter may always equal the length
                    self._sizes.setdefault(N.nf(q), set()).add(rootobj(N.nf(q.a[1][1])))
        return o in self._sizes.get(t, ()) or t.op == 'ld' and not t.a[1] and self.memkey(t.a[0]) == (o, ('#len',))

    def pushed(self, e):
        """(adj, weight, center) of an appended entry"""
        lv = dict(leaves(self.N.nf(e.val)))
        return tuple(lv.get(k) for k in (self.adj, self.weight, self.center))

    # ------------------------------------------------------------ rounds
    def rounds(self):
        it, N = self.it, self.N
        self.rank = [e for e in self.writes(self.ranks)]
        if not self.rank or any(e.kind != 'store' for e in self.rank):
            raise Fail('%s: the ranks are not assigned one by one' % self.root)
        ns = {self.idx(e) for e in self.rank}
        vs = {N.nf(e.val) for e in self.rank}
        if len(ns) != 1 or len(vs) != 1:
            raise Fail('%s: the ranks are assigned in several ways' % self.root)
        (self.node,), = ns
        self.cnt, = vs
        if self.cnt not in it.phiops:
            raise Fail('%s: the rank is not a counter' % self.root)
        self.rd = Rounds(it, self.cnt)
        if self.rd.bad:
            raise Fail('%s: %s' % (self.root, self.rd.bad))

    def at(self, e=None):
        return self.root if e is None else '%s: %s' % (self.root.rsplit('::', 1)[-1], where(self.it, e))

    def passed(self, e, test):
        """test holds for what is known at some point before e in every round"""
        if test(self.facts(e.facts)):
            return True
        it, memo = self.it, {}

        def ec(n, i, t):
            if (n, i) not in memo:
                g = self.edgefacts(n, i)
                memo[n, i] = g is not None and len(g) != len(it.instate[n].facts) and test(g)
            return memo[n, i]
        return not hits(it, [('node', self.rd.node)], (), [e], ec)

    def empty(self, f, d):
        """the node has no edges in direction d"""
        for c, v in f.items():
            if c.op == 'eq' and v and I(0) in c.a and any(self.listlen(x, d, self.node) for x in c.a):
                return True
            if c.op == 'lt' and (not v and c.a[0] is I(0) and self.listlen(c.a[1], d, self.node) or v and c.a[1] is I(1) and self.listlen(c.a[0], d, self.node)):
                return True
        return False

    # ------------------------------------------------------------ complete loops
    def complete(self, f, islen):
        """counting loops that are known to be finished: yields (Ind, direction of the counter)"""
        for c, v in f.items():
            for x in c.a if c.op in ('lt', 'eq') else ():
                if islen(x):
                    for d, k in loops.exhausted(self.it, {c: v}, x):
                        yield d, k
                elif x in self.it.phiops:
                    # counted down from the length
                    d = loops.induction(self.it, x)
                    n = {self.N.nf(y) for _, _, y in d.inits} if d is not None and all(s[3] < 0 for s in d.steps) else ()
                    if len(n) == 1 and all(map(islen, n)):
                        for d, k in loops.exhausted(self.it, {c: v}, n.pop()):
                            if k < 0:
                                yield d, k

    def every(self, f, islen, cut, pred=None):
        """a finished loop each of whose rounds passes an event of cut(position) (or pred(facts, position) holds)"""
        it, N = self.it, self.N
        for d, k in self.complete(f, islen):
            good = bool(d.steps)
            for s in d.steps:
                p = N.nf(loops.visited(d, s, k))
                st = it.incoming[s[0]].get(s[1])
                if st is None:
                    continue
                if pred is not None and pred(self.facts(st.facts), p):
                    continue
                c = cut(p)
                ec = None
                if pred is not None:
                    def ec(n, i, t):
                        g = self.edgefacts(n, i)
                        return g is not None and pred(g, p)
                if not c and pred is None or s[1] in passedges(it, [('node', h) for h in {x.a[0] for x in d.scc}], c, ec):
                    good = False
            if good:
                return d, k
        return None


# ---------------------------------------------------------------- C06: links of shortcuts
LK = 'each shortcut is linked to the two edges it replaces'


class Link:
    def __init__(self, p):
        self.p = p
        self.it, self.N, self.chk = p.it, p.N, p.chk
        self.later()

    def efield(self, t, k=None):
        """(direction, field, index) if t reads a field of a recorded edge"""
        if t.op == 'ld' and len(t.a[1]) == 1:
            m = self.p.memkey(t.a[0])
            if m is not None and len(m[1]) == 2 and m[1][0] == '[]':
                for d, o in self.p.E.items():
                    if o is m[0]:
                        return d, m[1][1], t.a[1][0]
        return None

    def later(self):
        """events on the edge lists after they were filled"""
        p, it = self.p, self.it
        self.W = {d: p.writes(p.E[d]) for d in p.E}
        self.push = {d: [e for e in self.W[d] if e.kind == 'push'] for d in p.E}
        self.rest = {d: [e for e in self.W[d] if e.kind != 'push'] for d in p.E}

    def edgeend(self, t, d, end, k, i):
        """t is the node at one end of edge k of direction d; i: the node whose edges are being visited"""
        if i is not None and end == 'base_node' and t is i:
            return True
        return self.efield(t) == (d, end, k)

    def begin(self, t, d, node):
        return gmatch(self.p.csr.t[d][0], t, self.p.fields, node, self.N)

    def end(self, t, d, node):
        return gmatch(self.p.csr.t[d][1], t, self.p.fields, node, self.N)

    def inedges(self, x, d, f, node):
        """index x is one of the edges of a node in direction d"""
        it, N = self.it, self.N
        dd, c = terms_lin(x)
        for ph in dd:
            if ph.op != 'phi':
                continue
            ind = loops.induction(it, ph)
            if ind is None:
                continue
            rest = sub(x, ph)
            ini = [N.nf(v) for _, _, v in ind.inits]
            up = all(s[3] == 1 for s in ind.steps)
            down = all(s[3] == -1 for s in ind.steps)
            if rest is I(0):
                if up and all(self.begin(v, d, node) for v in ini) and any(c2.op == 'lt' and v and c2.a[0] is ph and self.end(c2.a[1], d, node) for c2, v in f.items()):
                    return True
            elif up and all(v is I(0) for v in ini) and self.begin(rest, d, node):
                # begin + position, position below the number of edges
                for c2, v in f.items():
                    if c2.op == 'lt' and v and (c2.a[0] is ph and self.end(add(c2.a[1], rest), d, node) or c2.a[0] is x and self.end(c2.a[1], d, node)):
                        return True
            elif down and rest is I(-1 & M64) or down and c == -1 and len(dd) == 1:
                if all(self.end(v, d, node) for v in ini) and any(self.notbelow(c2, v, ph, d, node) for c2, v in f.items()):
                    return True
        return False

    def notbelow(self, c, v, ph, d, node):
        return c.op == 'lt' and v and c.a[1] is ph and self.begin(c.a[0], d, node)

    def target(self, x, f, d, node, end):
        """edge x is the edge of direction d between node and the node that `end` accepts; None or what is wrong"""
        it, N = self.it, self.N
        n = 0
        for a, g in choices(it, N, x, f):
            g = self.p.facts(g)
            if a.op == 'i' and any(c.op == 'eq' and not v and a in c.a and x in c.a for c, v in self.p.facts(f).items()):
                continue
            n += 1
            a = plain(it, N, a)
            if a.op == 'i':
                return 'it is set to the number %s' % a
            if not self.inedges(a, d, g, node):
                return 'it need not be an edge of the middle node'
            hit = False
            for c, v in g.items():
                if c.op == 'eq' and v:
                    for y, z in (c.a, c.a[::-1]):
                        if self.efield(y) == (d, 'adj_node', a) and end(z):
                            hit = True
            if not hit:
                return 'the far end of the edge is not compared with the end of the shortcut'
        return None if n else 'it is never set'

    def run(self):
        p, it, N, chk = self.p, self.it, self.N, self.chk
        rets = p.rets
        for d in ('out', 'in'):
            name = 'leaving' if d == 'out' else 'entering'
            fld = self.center(d)
            if fld is None:
                continue
            st = self.rest[d]
            bad = [e for e in st if e.kind != 'store' or len(e.leaf) != 2 or e.leaf[1] not in ('replaced_in_edge', 'replaced_out_edge')]
            if not chk.ob(not bad, LK, p.at(bad[0]) if bad else p.root, 'only the links of recorded edges change' if not bad else 'recorded %s edges are changed in another way' % name):
                continue
            h = hits(it, st, (), self.push[d] + p.rank)
            chk.ob(not h, LK, p.at(), 'links are set when all edges are recorded' if not h else 'links are set while edges are still being recorded')
            ks = {p.idx(e) for e in st}
            ok = bool(ks)
            if not chk.ob(ok, LK, p.root, 'the links of %s edges are set' % name if ok else 'the links of %s edges are never set' % name):
                continue
            for e in rets:
                self.covered(e, d, ks, name)
            for k in sorted(ks, key=lambda k: k[0].id):
                self.edge(d, k[0], fld, [e for e in st if p.idx(e) == k], name)

    def center(self, d):
        """the field that holds the middle node until the links are set"""
        p, N, chk = self.p, self.N, self.chk
        flds = set()
        for e in self.push[d]:
            lv = dict(leaves(N.nf(e.val)))
            for k, x in lv.items():
                a = p.arc(x)
                if a is not None and a[1] == 'center' and len(k) == 1:
                    flds.add(k[0])
        ok = len(flds) == 1 and flds <= {'replaced_in_edge', 'replaced_out_edge'}
        if not chk.ob(ok, LK, p.root, 'the middle node is kept with the edge' if ok else 'the middle node of shortcuts is not kept with the recorded edges'):
            return None
        f = flds.pop()
        o = {'replaced_in_edge': 'replaced_out_edge', 'replaced_out_edge': 'replaced_in_edge'}[f]
        for e in self.push[d]:
            v = dict(leaves(N.nf(e.val))).get((o,))
            ok = v is MAX
            chk.ob(ok, LK, p.at(e), 'no link at first' if ok else 'an edge is recorded with a link')
        return f

    def loop(self, d, k):
        """the loop that runs k over the recorded edges: (Ind, node or None)"""
        it, N = self.it, self.N
        ind = loops.induction(it, k) if k.op == 'phi' else None
        if ind is None or not all(s[3] == 1 for s in ind.steps):
            return None
        ini = [N.nf(v) for _, _, v in ind.inits]
        if all(v is I(0) for v in ini):
            return ind, None
        n = None
        for v in ini:
            # first_edge_ids[ranks[i]]
            if v.op == 'ld' and len(v.a[1]) == 1 and v.a[1][0].op == 'ld' and len(v.a[1][0].a[1]) == 1:
                x = v.a[1][0].a[1][0]
                if self.begin(v, d, x) and n in (None, x):
                    n = x
                    continue
            return None
        return ind, n

    def covered(self, ret, d, ks, name):
        """at the return a loop over all recorded edges is finished"""
        p, it, N, chk = self.p, self.it, self.N, self.chk
        f = p.facts(ret.facts)
        ok = False
        for k, in ks:
            lp = self.loop(d, k)
            if lp is None:
                continue
            if lp[1] is None:
                islen = lambda t: t.op in ('ld', 'phi') and self.islen(t, d)
                if any(same(it, x[0], lp[0]) for x in p.complete(f, islen)):
                    ok = True
                continue
            i = lp[1]
            oi = loops.induction(it, i) if i.op == 'phi' else None
            if oi is None:
                continue
            for x, dr in p.complete(f, lambda t: self.numnodes(t, f)):
                if not same(it, x, oi) or dr != 1:
                    continue
                good = True
                for s in x.steps:
                    stt = it.incoming[s[0]].get(s[1])
                    if stt is None:
                        continue
                    g = p.facts(stt.facts)
                    if not any(c.op == 'lt' and not v and c.a[0] in lp[0].scc and self.end(c.a[1], d, N.nf(loops.visited(x, s, dr))) for c, v in g.items()):
                        good = False
                ok = ok or good
        chk.ob(ok, LK, p.at(ret), 'all recorded %s edges are visited' % name if ok else 'the graph can be returned before the links of all %s edges are set' % name)

    def islen(self, t, d):
        t = self.N.nf(t)
        m = self.p.memkey(t.a[0]) if t.op == 'ld' else (rootobj(self.N.nf(t.a[1][1])), t.a[1][2]) if t.op == 'phi' and t.a[1][0] == 'm' else None
        return m is not None and m[0] is self.p.E[d] and m[1] == ('#len',)

    def numnodes(self, t, f):
        return self.p.isnum(t)

    def edge(self, d, k, cfield, st, name):
        from paths import paths, natural, fill
        p, it, N, chk = self.p, self.it, self.N, self.chk
        lp = self.loop(d, k)
        if not chk.ob(lp is not None, LK, p.at(st[0]), 'the recorded edges are visited one after the other' if lp else 'the loop over the recorded %s edges cannot be followed' % name):
            return
        ind, i = lp
        heads = {x.a[0] for x in ind.scc}
        head = next((h for h in sorted(heads) if natural(it, h) is not None), None)
        if head is None:
            raise Fail('%s: the loop over the recorded edges cannot be identified' % p.root)
        body = natural(it, head)
        inner = [h for h in sorted({x.a[0] for x in it.phiops} & body) if h != head and natural(it, h) is not None and natural(it, h) < body]
        # only outermost inner loops
        inner = [h for h in inner if not any(h in natural(it, g) and g != h for g in inner)]
        ofield = 'replaced_out_edge' if cfield == 'replaced_in_edge' else 'replaced_in_edge'
        ends = {'replaced_in_edge': 'base_node' if d == 'out' else 'adj_node', 'replaced_out_edge': 'adj_node' if d == 'out' else 'base_node'}
        goals = set(id(r) for r in p.rets)
        n = 0
        for q in paths(it, head, body, skip=inner):
            if q.why != 'round':
                continue
            n += 1
            mine = [(e, env) for e, env in q.events if e != 'loop' and e in st]
            fin = {}
            for e, env in mine:
                fin[e.leaf[1]] = e, fill(N, e.val, env)
            short = None
            c = None
            for x, v in q.facts.items():
                if x.op == 'eq' and MAX in x.a:
                    y = x.a[0] if x.a[1] is MAX else x.a[1]
                    if self.efield(y) == (d, cfield, k):
                        short, c = not v, y
            if short is None:
                # the middle node may be compared in another place
                chk.ob(False, LK, p.at(st[0]), 'a round does not tell shortcuts from original edges')
                continue
            if not short:
                ok = all(x is MAX for e, x in fin.values())
                chk.ob(ok, LK, p.at(st[0]), 'original edges get no links' if ok else 'an original edge gets a link')
                continue
            for fl in (cfield, ofield):
                e, x = fin.get(fl, (None, None))
                if e is None:
                    chk.ob(False, LK, p.at(st[0]), '%s of a shortcut is not set' % fl)
                    continue
                dd = 'in' if fl == 'replaced_in_edge' else 'out'
                m = self.target(N.nf(e.val), e.facts, dd, c, lambda z: self.edgeend(z, d, ends[fl], k, i))
                if m is not None:
                    # the value it has on this path
                    m = self.target(x, {**e.facts, **q.facts}, dd, c, lambda z: self.edgeend(z, d, ends[fl], k, i))
                chk.ob(m is None, LK, p.at(e), '%s is the edge between middle node and end of the shortcut' % fl if m is None else '%s: %s' % (fl, m))
        chk.ob(n > 1, LK, p.at(st[0]), 'rounds for originals and shortcuts' if n > 1 else 'the loop over the recorded edges has no rounds')


def same(it, a, b):
    return a is b or bool(a.scc & b.scc) or any(loops.coeq(it, x, y) for x in a.scc for y in b.scc)


def link(chk):
    for root in ROOTS:
        Link(Prep(chk, root)).run()


# ---------------------------------------------------------------- C05
RI = 'the lists start with all edges of the input graph'
RP = 'both directions of an edge change together'
RU = 'no pair of nodes is connected twice'
RE = 'the edges of a removed node are recorded'
RO = 'the offsets of a node enclose its recorded edges'
RD = 'a removed node disappears from the lists of its neighbours'


class Lists:
    def __init__(self, p):
        self.p = p
        self.it, self.N, self.chk = p.it, p.N, p.chk

    def run(self):
        self.initial()
        self.classify()
        self.pairs()
        self.removal()
        self.record()

    # ------------------------------------------------------------ initial contents
    def initial(self):
        p, it, N, chk = self.p, self.it, self.N, self.chk
        for d in ('out', 'in'):
            ps = p.inpush[d]
            src = {p.inputedge(p.idx(e)[0])[2] for e in ps}
            if not chk.ob(len(src) == 1, RI, p.root, 'one list of edges is read' if len(src) == 1 else 'several lists of edges are read'):
                continue
            o, lf = src.pop()
            ln = mk('ld', mk('m0', o, lf[:-1] + ('#len',)), ())

            def cut(k):
                return [e for e in ps if p.inputedge(p.idx(e)[0])[1] is k]
            for r in p.rank:
                # an edge from a node to itself may be left out
                loop = lambda g, k: any(c.op == 'eq' and v and {x[0] for x in map(p.inputedge, c.a) if x is not None and x[1] is k} == {'from', 'to'} for c, v in g.items())
                ok = p.every(p.facts(r.facts), lambda t: N.nf(t) is ln, cut, loop) is not None
                chk.ob(ok, RI, p.at(r), 'all edges of the input graph are in the list of %s edges' % d if ok else 'not every edge of the input graph gets into the list of %s edges before nodes are removed' % d)
            h = hits(it, p.rank, (), ps)
            chk.ob(not h, RI, p.at(ps[0]), 'no node is removed before' if not h else 'edges of the input graph are added after nodes were removed')
            # at most once
            for e in ps:
                ind = loops.induction(it, p.inputedge(p.idx(e)[0])[1])
                ok = ind is not None and not hits(it, [e], (), ps, lambda n, i, t: t in {x.a[0] for x in ind.scc})
                chk.ob(ok, RI, p.at(e), 'one entry per edge' if ok else 'an edge of the input graph may get into the list twice')

    # ------------------------------------------------------------ kinds of changes
    def classify(self):
        """append: (d, from, to, w, c); set: (d, field, from, to, value); drop: (d, node, far); clear: (d, node)"""
        p, it, N, chk = self.p, self.it, self.N, self.chk
        self.kind = {}
        inner = set()
        for e in p.W:
            d = p.dirof[p.objof(e)]
            ix = p.idx(e)
            f = p.facts(e.facts)
            k = None
            if e.kind == 'push' and e.leaf == ('[]',) and len(ix) == 1:
                a, w, c = p.pushed(e)
                if None not in (a, w, c):
                    k = ('append', d, ix[0], a, w, c)
            elif e.kind == 'push' and e.leaf == () and e.val.op == 'obj':
                inner.add(N.nf(e.val))
                k = ('row', d)
            elif e.kind == 'storec' and e.leaf == ('[]',) and N.nf(e.val) in inner:
                k = ('row', d)
            elif e.kind == 'store' and len(ix) == 2 and e.leaf[:2] == ('[]', '[]'):
                fl = {p.adj: 'adj', p.weight: 'weight', p.center: 'center'}.get(tuple(e.leaf[2:]))
                if fl in ('weight', 'center'):
                    k = ('set', d, fl, ix[0], ix[1], N.nf(e.val))
            elif e.kind == 'bulk' and e.how == 'retain' and e.leaf == ('[]',) and len(ix) == 1:
                x = self.dropped(e)
                if x is not None:
                    k = ('drop', d, ix[0], x)
            elif e.kind == 'vremove' and e.leaf == ('[]',) and len(ix) == 1:
                at = N.nf(e.at)
                for c, v in f.items():
                    if c.op == 'eq' and v:
                        for y, z in (c.a, c.a[::-1]):
                            if p.isarc(y, d, 'adj', ix[0], at):
                                k = ('drop', d, ix[0], z)
            elif e.kind == 'vclear' and e.leaf == ('[]',) and len(ix) == 1:
                k = ('clear', d, ix[0])
            elif e.kind == 'vpop' and e.leaf == ('[]',) and len(ix) == 1:
                k = ('take', d, ix[0], dict(leaves(N.nf(e.item))).get(p.adj))
            elif e.kind == 'storec' and e.leaf == ('[]',) and len(ix) == 1:
                from rules_order import isempty
                if isempty(it, N, e.val):
                    k = ('clear', d, ix[0])
            elif e.kind == 'vtrunc' and e.leaf == ('[]',) and len(ix) == 1 and N.nf(e.d.get('n', e.d.get('len'))) is I(0):
                k = ('clear', d, ix[0])
            if not chk.ob(k is not None, RP, p.at(e), 'a known kind of change' if k else 'an adjacency list is changed in another way (%s)' % e.kind):
                continue
            self.kind[id(e)] = k
        # a list that is taken apart entry by entry is emptied when nothing is left
        gone = []
        for d in p.L:
            ks = [k for k in self.kind.values() if k[1] == d]
            if any(k[0] == 'take' for k in ks) and not any(k[0] == 'clear' for k in ks):
                for e in evs(it, 'vnone'):
                    if p.objof(e) is p.L[d] and e.leaf == ('[]',) and len(p.idx(e)) == 1:
                        self.kind[id(e)] = ('clear', d, p.idx(e)[0])
                        gone.append(e)
        for o in inner:
            w = [e for e in p.writes(o)]
            chk.ob(not w, RI, p.root, 'the lists are empty at first' if not w else 'a list of edges is not empty at first')
        self.rows = [e for e in p.W if self.kind.get(id(e), ('',))[0] == 'row']
        self.chg = [e for e in p.W if self.kind.get(id(e), ('row',))[0] != 'row'] + gone
        self.takes = [e for e in self.chg if self.kind[id(e)][0] == 'take']

    def dropped(self, e):
        """the far node whose entry a retain removes"""
        import small
        import interp
        p, N = self.p, self.N
        try:
            inst = small.closure_body(self.chk.prog, e.clty)
        except Fail:
            return None
        k = interp.Interp(self.chk.prog.D)
        k.run(inst)
        rs = list(evs(k, 'return'))
        if k.unknown or len(rs) != 1:
            return None
        t = norm(k).nf(rs[0].val)
        if t.op != 'not' or t.a[0].op != 'eq':
            return None
        sh = 1 if self.chk.prog.bodies[inst]['closure'] else 0
        for x, y in (t.a[0].a, t.a[0].a[::-1]):
            nm = 'a%d.' % sh + '.'.join(p.adj)
            if x.op == 'init' and x.a[0] == nm or x.op == 'proj' and show(x) == 'deref(a%d).%s' % (sh, '.'.join(p.adj)):
                return self.captured(e, y)
        return None

    def captured(self, e, y):
        """value of a captured variable"""
        by = 0
        while y.op == 'deref':
            y = y.a[0]
            by += 1
        if y.op != 'init' or not y.a[0].startswith('a0.'):
            return None
        c = e.closure
        v = None
        if c.op == 'agg':
            v = dict(c.a[2]).get(y.a[0].split('.', 1)[1])
        while by and v is not None:
            by -= 1
            if v.op != 'ref' or v.a[1]:
                return None
            v = e.env.get(v.a[0])
        return None if v is None else self.N.nf(v)

    # ------------------------------------------------------------ pairs
    def partner(self, e, mates, stop, scan=None, own=None):
        """whenever e happens, one of mates happens next to it, with none of stop in between.
        scan(n, i, t): on this edge a search for the entry to change has ended, which changed it or found none;
        own(n, i, t): on this edge the search that e belongs to goes on"""
        it = self.it
        if not mates:
            return False
        ends = [x for x in self.p.rets] + [x for x in stop if x not in mates]
        ec = lambda n, i, t: scan is not None and scan(n, i, t) or own is not None and own(n, i, t)
        if not hits(it, [e], mates, ends + [e], ec):
            return True
        starts = [('node', it.entry)] + ends + [e]
        return not hits(it, starts, mates, [e], ec)

    def scanned(self, e, mates, d, a, b):
        """edges on which a search through the list of node a is over: every entry that leads to b was changed by one of mates"""
        p, it = self.p, self.it
        memo = {}

        def no(g, k):
            return any(c.op == 'eq' and not v and any(p.isarc(s, d, 'adj', a, k) and t is b for s, t in (c.a, c.a[::-1])) for c, v in g.items())

        def scan(n, i, t):
            if (n, i) not in memo:
                st = it.incoming[t].get((n, i))
                memo[n, i] = False
                if st is not None and len(st.facts) != len(it.instate[n].facts):
                    new = p.facts({c: v for c, v in st.facts.items() if it.instate[n].facts.get(c) is not v})
                    q = p.every(new, lambda t: p.listlen(t, d, a), lambda k: [x for x in mates if self.kind[id(x)][4] is k], no)
                    memo[n, i] = q is not None and not self.within(e, q[0])
            return memo[n, i]
        return scan

    def within(self, e, ind):
        """e can be repeated while the counter goes on"""
        from paths import natural
        return any(e.nid in (natural(self.it, x.a[0]) or {e.nid}) for x in ind.scc)

    def ownscan(self, e):
        """edges to the next round of the search that e belongs to"""
        from paths import natural
        _, d, fl, a, pos, v = self.kind[id(e)]
        hs = set()
        for q in [x for x in subterms(pos) if x.op == 'phi']:
            ind = loops.induction(self.it, q)
            if ind is not None:
                hs |= {x.a[0] for x in ind.scc}
        hs -= {q.a[0] for t in [v, a] + list(self.far(self.p.facts(e.facts), d, a, pos)) for q in subterms(t) if q.op == 'phi'}
        return lambda n, i, t: t in hs and n in (natural(self.it, t) or ())

    def pairs(self):
        p, it, N, chk = self.p, self.it, self.N, self.chk
        K = self.kind
        adds = [e for e in self.chg if K[id(e)][0] == 'append']
        sets = [e for e in self.chg if K[id(e)][0] == 'set']
        for e in adds:
            _, d, a, b, w, c = K[id(e)]
            m = [x for x in adds if K[id(x)] == ('append', p.other[d], b, a, w, c)]
            ok = self.partner(e, m, self.chg)
            chk.ob(ok, RP, p.at(e), 'the other direction is added as well' if ok else 'an edge is added in one direction, but not in the other with the same weight and middle node')
            if e in p.inpush[d]:
                continue
            ok = self.unlisted(e, d, a, b)
            chk.ob(ok, RU, p.at(e), 'only if there is no such edge yet' if ok else 'an edge is added without looking for one between the same nodes')
        for e in sets:
            _, d, fl, a, pos, v = K[id(e)]
            f = p.facts(e.facts)
            far = self.far(f, d, a, pos)
            m, s = [], []
            for x in sets:
                _, d2, fl2, a2, pos2, v2 = K[id(x)]
                if d2 == d and a2 is a and pos2 is pos and fl2 != fl:
                    s.append(x)
                if d2 == d or fl2 != fl or v2 is not v:
                    continue
                far2 = self.far(p.facts(x.facts), d2, a2, pos2)
                if a2 in far and a in far2:
                    m.append(x)
            others = [x for x in self.chg if x not in sets]
            scs = [self.scanned(e, m, p.other[d], b, a) for b in far]
            ok = self.partner(e, m, others + [x for x in sets if K[id(x)][1:5] == K[id(e)][1:5] and x is not e], lambda n, i, t: any(s(n, i, t) for s in scs), self.ownscan(e))
            chk.ob(ok, RP, p.at(e), 'the other direction gets the same %s' % fl if ok else 'the %s of an edge changes in one direction, but not in the other' % fl)
            self.together(e, s, others, RP)

    def together(self, e, s, others, rule):
        p, fl = self.p, self.kind[id(e)][2]
        ok = self.partner(e, s, others)
        self.chk.ob(ok, rule, p.at(e), 'weight and middle node change together' if ok else 'the %s of an edge changes alone' % fl)

    def far(self, f, d, a, pos):
        """values that the far node of an entry is known to have"""
        p = self.p
        r = set()
        for c, v in f.items():
            if c.op == 'eq' and v:
                for y, z in (c.a, c.a[::-1]):
                    if p.isarc(y, d, 'adj', a, pos):
                        r.add(z)
        return r

    def unlisted(self, e, d, a, b):
        """no entry of one of the two lists connects the nodes"""
        p, it = self.p, self.it
        f = p.facts(e.facts)
        for d2, x, y in (('out', a, b) if d == 'out' else ('out', b, a), ('in', b, a) if d == 'out' else ('in', a, b)):
            def no(g, k):
                return any(c.op == 'eq' and not v and any(p.isarc(s, d2, 'adj', x, k) and t is y for s, t in (c.a, c.a[::-1])) for c, v in g.items())
            if p.every(f, lambda t: p.listlen(t, d2, x), lambda k: (), no):
                return True
        return False

    # ------------------------------------------------------------ removal
    def removal(self):
        p, it, N, chk = self.p, self.it, self.N, self.chk
        K = self.kind
        clr = {d: [e for e in self.chg if K[id(e)][:2] == ('clear', d)] for d in p.L}
        drops = [e for e in self.chg if K[id(e)][0] == 'drop']
        self.clr = clr
        for d in ('out', 'in'):
            for e in clr[d]:
                ok = K[id(e)][2] is p.node
                chk.ob(ok, RD, p.at(e), 'the removed node is the ranked one' if ok else 'the list of another node is emptied')
            m = p.rd.exactly_once(clr[d], True)
            chk.ob(not m, RD, p.at(clr[d][0]) if clr[d] else p.root, 'the %s edges of the node are dropped' % d if not m else 'dropping the %s edges of a removed node: %s' % (d, m))
        # neighbours
        first = [e for d in clr for e in clr[d]]
        others = [x for x in self.chg if x not in drops and x not in first and x not in self.takes] + p.rets
        for e in self.takes:
            _, d, n, x = K[id(e)]
            ok = n is p.node
            chk.ob(ok, RD, p.at(e), 'taken from the list of the ranked node' if ok else 'an entry is taken from the list of another node')
            h = hits(it, [e], clr[d], others + p.rank)
            chk.ob(not h, RD, p.at(e), 'the list is taken apart completely' if not h else 'entries of the removed node may be left in its list')
        for d in ('out', 'in'):
            o = p.other[d]

            def cut(k):
                return [e for e in drops if K[id(e)][1] == o and K[id(e)][3] is p.node and self.entry(K[id(e)][2], d, k)]

            def done(f, late=False):
                if p.every(f, lambda t: p.listlen(t, d, p.node), cut) is not None:
                    return True
                return any(p.every(f, lambda t: self.sizeof(t, c), cut) is not None for c in self.copies(d))
            mine = [t for t in self.takes if K[id(t)][1] == d]
            for e in clr[d]:
                if mine:
                    bad = [t for t in mine if hits(it, [t], [x for x in drops if K[id(x)][1:] == (o, K[id(t)][3], p.node)], mine + clr[d] + others)]
                    chk.ob(not bad, RD, p.at(e), 'each entry taken was dropped from the %s list of its neighbour' % o if not bad else 'the node may remain in the %s list of a neighbour' % o)
                    continue
                ok = done(p.facts(e.facts))
                if not ok:
                    # afterwards, by means of what was read before
                    memo = {}

                    def ec(n, i, t):
                        if (n, i) not in memo:
                            st = it.incoming[t].get((n, i))
                            memo[n, i] = st is not None and len(st.facts) != len(it.instate[n].facts) and done(p.facts({c: v for c, v in st.facts.items() if it.instate[n].facts.get(c) is not v}))
                        return memo[n, i]
                    g, _, pe = walk(it, [e], (), others + p.rank, ec)
                    ok = not g and not any(s in pe for s in p.rd.steps)
                chk.ob(ok, RD, p.at(e), 'it was dropped from the %s lists of its neighbours' % o if ok else 'the node may remain in the %s list of a neighbour' % o)
        for e in drops:
            _, d, a, x = K[id(e)]
            ok = x is p.node and self.entry(a, p.other[d], None)
            chk.ob(ok, RD, p.at(e), 'only entries of the removed node are dropped' if ok else 'an entry is dropped that does not belong to the removed node')
        # entries are only dropped when the node is removed
        back = lambda n, i, t: t == p.rd.node
        for e in drops:
            h = hits(it, [e], first, others + p.rank) and hits(it, [('node', p.rd.node)] + others, first, [e], back)
            chk.ob(not h, RD, p.at(e), 'its own lists are emptied then' if not h else 'a node is dropped from the lists of its neighbours, but keeps its own')

    # copies of a list of the removed node
    def copies(self, d):
        """lists that hold the entries of the list of the removed node, or their far nodes: (object, field of the far node)"""
        c = self.__dict__.setdefault('_copies', {})
        if d not in c:
            p, it, N = self.p, self.it, self.N
            c[d] = []
            for e in evs(it, 'new'):
                o = N.nf(e.obj)
                if o.op != 'obj' or o in p.dirof or any(o is x[0] for x in c[d]):
                    continue
                W = p.writes(o)
                P = [x for x in W if x.kind == 'push' and x.leaf in ((), ('[]',)) and not x.idx]
                if not P or len(P) != len(W):
                    continue
                fs = []
                for x in P:
                    fs.append({k for k, v in leaves(N.nf(x.val)) if (lambda q: q is not None and q[:2] == (d, 'adj') and q[2] is p.node)(p.arc(v))})
                fs = set.intersection(*fs)
                for k in fs:
                    c[d].append((o, k, P))
        return c[d]

    def sizeof(self, t, c):
        return self.p.sizeof(t, c[0])

    def entry(self, t, d, k):
        """t is the far node of entry k (any: None) of the list of the removed node, or of the same entry of a copy of that list"""
        p, it, N = self.p, self.it, self.N
        if k is None:
            q = p.arc(t)
            if q is not None and q[:2] == (d, 'adj') and q[2] is p.node:
                return True
        elif p.isarc(t, d, 'adj', p.node, k):
            return True
        if t.op != 'ld' or len(t.a[1]) != 1 or k is not None and t.a[1][0] is not k:
            return False
        m = p.memkey(t.a[0])
        for o, f, P in self.copies(d):
            if m is not None and m[0] is o and m[1] == ('[]',) + f:
                return self.copied(t, d, o, f, P)
        return False

    def copied(self, t, d, o, f, P):
        """the copy holds all entries when it is read"""
        p, it, N = self.p, self.it, self.N
        use = [e for e in self.chg if self.kind[id(e)][0] == 'drop' and self.kind[id(e)][2] is t]

        def cut(k):
            return [x for x in P if p.isarc(dict(leaves(N.nf(x.val))).get(f, UNDEF), d, 'adj', p.node, k)]
        return bool(use) and all(p.passed(e, lambda g: p.every(g, lambda t: p.listlen(t, d, p.node), cut) is not None) for e in use)

    # ------------------------------------------------------------ records
    def record(self):
        p, it, N, chk = self.p, self.it, self.N, self.chk
        back = lambda n, i, t: t == p.rd.node
        for d in ('out', 'in'):
            E = p.E[d]
            P = [e for e in p.writes(E) if e.kind == 'push']
            FS = p.writes(p.first[d])
            name = '%s edges' % d
            if not chk.ob(bool(P), RE, p.root, '%s are recorded' % name if P else 'no %s are recorded' % name):
                continue
            good = []
            for e in P:
                lv = {k[0]: x for k, x in leaves(N.nf(e.val)) if len(k) == 1}
                a = p.arc(lv.get('adj_node', UNDEF))
                ok = a is not None and a[0] == d and a[1] == 'adj' and a[2] is p.node
                pos = a[3] if ok else None
                ok = ok and lv.get('base_node') is p.node and p.isarc(lv.get('weight', UNDEF), d, 'weight', p.node, pos)
                cs = [k for k, x in lv.items() if p.isarc(x, d, 'center', p.node, pos)] if ok else []
                ok = ok and len(cs) == 1
                if ok:
                    good.append((e, pos))
                chk.ob(ok, RE, p.at(e), 'nodes, weight and middle node of one entry of the list of the node' if ok else 'the recorded edge is not an entry of the list of the removed node')
                # one record per entry and round
                ind = loops.induction(it, pos) if ok and pos.op == 'phi' else None
                ok = ind is not None and not hits(it, [e], (), P, lambda n, i, t: t in {x.a[0] for x in ind.scc} or t == p.rd.node)
                chk.ob(ok, RE, p.at(e), 'recorded once' if ok else 'an entry may be recorded twice')
            # offsets
            bad = [e for e in FS if e.kind != 'store']
            if not chk.ob(bool(FS) and not bad, RO, p.root, 'the offsets are set one by one' if FS and not bad else 'the offsets of %s are not set one by one' % name):
                continue
            for e in FS:
                ix = p.idx(e)
                ok = len(ix) == 1 and ix[0] is add(p.cnt, I(1))
                chk.ob(ok, RO, p.at(e), 'set at the rank after that of the node' if ok else 'the offset is not set for the rank after that of the removed node')
                v = N.nf(e.val)
                ok = self.lennow(v, E, P, e)
                chk.ob(ok, RO, p.at(e), 'set to the number of recorded edges' if ok else 'the offset is not the number of %s recorded so far' % name)
                ok = p.every(p.facts(e.facts), lambda t: p.listlen(t, d, p.node), lambda k: [x for x, q in good if q is k]) is not None
                chk.ob(ok, RE, p.at(e), 'all %s of the node are recorded' % name if ok else 'not all %s of the node are recorded before its offset is set' % name)
            m = p.rd.exactly_once(FS)
            chk.ob(not m, RO, p.at(FS[0]), 'once per removed node' if not m else 'setting the offset: ' + m)
            h = hits(it, FS, (), P, back)
            chk.ob(not h, RO, p.at(FS[0]), 'nothing is recorded for the node later' if not h else 'edges are recorded after the offset was set')
            h = hits(it, [('node', p.rd.node)], FS, self.clr[d] + [e for e in self.chg if self.kind[id(e)][0] in ('drop', 'take')], back)
            chk.ob(not h, RE, p.at(FS[0]), 'recorded before the node is removed' if not h else 'the lists change before the edges are recorded')
            # the first offset, and edges outside of the rounds
            h = hits(it, [('node', it.entry)], (), P, back)
            chk.ob(not h, RO, p.root, 'no edges before the first round' if not h else 'edges are recorded outside of the rounds')
            ok = self.zero(p.first[d])
            chk.ob(ok, RO, p.root, 'the first offset is 0, and there is one more than nodes' if ok else 'the list of offsets does not start as one zero more than there are nodes')

    def lennow(self, v, E, P, at):
        """v is the length of E when event `at` happens"""
        it, N, p = self.it, self.N, self.p
        ev = [v]
        if v.op == 'phi' and v.a[1][0] == 'm':
            k = (rootobj(N.nf(v.a[1][1])), v.a[1][2])
            h = v.a[0]
            return k == (E, ('#len',)) and not hits(it, P, (), [at], lambda n, i, t: t == h)
        if v.op == 'ld' and not v.a[1]:
            return p.memkey(v.a[0]) == (E, ('#len',)) and v.a[0].op == 'phi' and not hits(it, P, (), [at], lambda n, i, t: t == v.a[0].a[0])
        return False

    def zero(self, o):
        p, it, N = self.p, self.it, self.N
        for e in p.rets:
            d = e.mem.get((o, None))
            if d is None or d.op != 'fillobj' or d.a[0] is not I(0):
                return False
            n = sub(N.nf(d.a[1]), I(1))
            if not p.isnum(n):
                return False
        return True


def c05(chk):
    for root in ROOTS:
        Lists(Prep(chk, root)).run()
    chk.floor(RP, 12, 'appends and updates of both ways of building')
    chk.floor(RE, 10, 'two directions for both ways of building')


# ---------------------------------------------------------------- C04
PX = 'every pair of an entering and a leaving edge keeps a connection'
PS = 'a shortcut stands for one entering and one leaving edge'
PW = 'witness weights are weights of paths that avoid the node'
PD = 'only edges of the node being removed are dropped'
PF = 'witness weights of another start node are not used'


class Pairs(Lists):
    def run(self):
        self.classify()
        self.clears()
        self.search()
        self.stores()
        self.lists2()
        self.labels()
        self.fresh()
        self.examined()

    def clears(self):
        K = self.kind
        self.first = [e for e in self.chg if K[id(e)][0] in ('clear', 'drop', 'take')]
        self.clr = [e for e in self.chg if K[id(e)][0] == 'clear']
        if not self.clr:
            raise Fail('%s: nodes are never removed' % self.p.root)
        p, it, chk = self.p, self.it, self.chk
        for e in self.first:
            k = K[id(e)]
            if k[0] in ('clear', 'take'):
                ok = k[2] is p.node
            else:
                ok = k[3] is p.node and self.entry(k[2], p.other[k[1]], None)
            chk.ob(ok, PD, p.at(e), 'edges of the ranked node' if ok else 'edges of another node are dropped')
        # a node whose edges its neighbours no longer hold is removed
        drops = [e for e in self.first if K[id(e)][0] == 'drop']
        others = [x for x in self.chg if x not in self.first] + p.rets + p.rank
        back = lambda n, i, t: t == p.rd.node
        for e in drops:
            h = hits(it, [e], self.clr, others) and hits(it, [('node', p.rd.node)] + others, self.clr, [e], back)
            chk.ob(not h, PD, p.at(e), 'its own lists are emptied then' if not h else 'a node is dropped from the lists of its neighbours, but keeps its own')

    # ------------------------------------------------------------ the loops over pairs
    def search(self):
        """the loop over one list, the events of whose rounds are the witness searches"""
        from paths import natural
        p, it, N = self.p, self.it, self.N
        self.nest = []
        for d in ('in', 'out'):
            o = p.other[d]
            for n in live(it):
                for q in self.p_phis(n):
                    ind = loops.induction(it, q)
                    if ind is None or any(x[1] is ind for x in self.nest):
                        continue
                    k = self.over(ind, d)
                    if k is None:
                        continue
                    for h in sorted({x.a[0] for x in ind.scc}):
                        b = natural(it, h)
                        if b is None or any(x[3] == h and x[0] == d for x in self.nest):
                            continue
                        inner = []
                        for s in ind.steps:
                            st = it.incoming[s[0]].get(s[1])
                            if st is not None:
                                f = p.facts(st.facts)
                                inner.append((s, f, [(x, y) for x, y in p.complete(f, lambda t: p.listlen(t, o, p.node)) if {z.a[0] for z in x.scc} <= b and h not in {z.a[0] for z in x.scc}]))
                        if inner and all(x[2] for x in inner):
                            self.nest.append((d, ind, k, h, b, inner))
        if not self.nest:
            self.chk.ob(False, PX, p.root, 'a node can be removed before all pairs of its edges were examined')

    def p_phis(self, n):
        from paths import phisat
        return [q for q in phisat(self.it).get(n, ()) if q not in self.N.res]

    def over(self, ind, d):
        """the counter runs over the positions of the list of the node: direction, or None"""
        p, N = self.p, self.N
        ini = [N.nf(v) for _, _, v in ind.inits]
        if all(v is I(0) for v in ini) and all(s[3] == 1 for s in ind.steps):
            # only if it is compared with the length somewhere
            return 1 if ind in self.counted(d, 1) else None
        if all(p.listlen(v, d, p.node) for v in ini) and all(s[3] == -1 for s in ind.steps):
            return -1 if ind in self.counted(d, -1) else None
        return None

    def counted(self, d, k):
        c = self.__dict__.setdefault('_counted', {})
        if d not in c:
            p, it = self.p, self.it
            r = c[d] = []
            seen = set()
            for n in live(it):
                for i, (t, _) in enumerate(it.succs[n]):
                    st = it.incoming[t].get((n, i))
                    if st is None or len(st.facts) == len(it.instate[n].facts):
                        continue
                    for ind, kk in p.complete(p.facts({c: v for c, v in st.facts.items() if it.instate[n].facts.get(c) is not v}), lambda t: p.listlen(t, d, p.node)):
                        r.append((ind, kk))
        return [x for x, kk in c[d] if kk == k]

    def pair(self, a, b):
        """the pair when a and b are the far ends of an entering and a leaving edge of the node: (i, j), or an entry of a list of such pairs"""
        p = self.p
        x, y = p.arc(a), p.arc(b)
        if x and y and x[:2] == ('in', 'adj') and y[:2] == ('out', 'adj') and x[2] is p.node and y[2] is p.node:
            return x[3], y[3]
        x, y = self.noted(a), self.noted(b)
        if x and y and x[0] is y[0] and x[1] is y[1]:
            if all(self.direct(self.pair(m.get(x[2], UNDEF), m.get(y[2], UNDEF))) for m in self.notes(x[0])):
                return ('noted', x[0], x[1], x[2], y[2])
        return None

    def direct(self, q):
        return q is not None and q[0] != 'noted'

    def noted(self, t):
        """(list, position, field) if t reads an entry of a list of shortcuts to be added"""
        if t.op == 'ld' and len(t.a[1]) == 1:
            k = self.p.memkey(t.a[0])
            if k is not None and k[0].op == 'obj' and k[1][:1] == ('[]',) and self.notes(k[0]):
                return k[0], t.a[1][0], k[1][1:]
        return None

    def notes(self, o):
        """what was appended to a list: field -> value for each append; () if it is not a list of shortcuts"""
        c = self.__dict__.setdefault('_notes', {})
        if o not in c:
            p, it, N = self.p, self.it, self.N
            c[o] = ()
            if o in p.dirof or o in p.E.values():
                return c[o]
            W = p.writes(o)
            P = [e for e in W if e.kind == 'push' and e.leaf == ()]
            if P and all(e in P or e.kind == 'vclear' for e in W):
                c[o] = [dict(leaves(N.nf(e.val))) for e in P]
        return c[o]

    def isum(self, w, q):
        """w is the weight of the two edges of a pair"""
        p = self.p
        if q[0] == 'noted':
            n = self.noted(w)
            return n is not None and n[0] is q[1] and n[1] is q[2] and all(self.isum(m.get(n[2], UNDEF), self.pair(m[q[3]], m[q[4]])) for m in self.notes(n[0]))
        if w.op != 'sadd' or len(w.a) != 2:
            return False
        i, j = q
        return any(p.isarc(x, 'in', 'weight', p.node, i) and p.isarc(y, 'out', 'weight', p.node, j) for x, y in (w.a, w.a[::-1]))

    def ismiddle(self, c, q):
        n = self.noted(c)
        if n is not None and q[0] == 'noted':
            return n[0] is q[1] and n[1] is q[2] and all(m.get(n[2]) is self.p.node for m in self.notes(n[0]))
        return c is self.p.node

    # ------------------------------------------------------------ what is added
    def stores(self):
        """self.made: event -> (i, j) of the pair that it connects"""
        p, it, N, chk, K = self.p, self.it, self.N, self.chk, self.kind
        self.made = {}
        for e in self.chg:
            k = K[id(e)]
            if k[0] == 'append' and e not in p.inpush[k[1]]:
                _, d, x, y, w, c = k
                a, b = (x, y) if d == 'out' else (y, x)
                q = self.pair(a, b)
                m = None
                if q is None:
                    m = 'the shortcut does not connect the ends of an entering and a leaving edge'
                elif not self.isum(w, q):
                    m = 'the weight of the shortcut is not the sum of the two edges'
                elif not self.ismiddle(c, q):
                    m = 'the middle node of the shortcut is not the removed node'
                else:
                    self.made.setdefault(q, []).append(e)
                chk.ob(m is None, PS, p.at(e), m or 'ends, weight and middle node belong to the two edges')
            elif k[0] == 'set':
                _, d, fl, x, pos, v = k
                f = p.facts(e.facts)
                q = None
                for y in self.far(f, d, x, pos):
                    a, b = (x, y) if d == 'out' else (y, x)
                    q = q or self.pair(a, b)
                m = None
                if q is None:
                    m = 'the changed edge does not connect the ends of an entering and a leaving edge'
                elif fl == 'center':
                    m = None if self.ismiddle(v, q) else 'the middle node of the shortcut is not the removed node'
                elif not self.isum(v, q):
                    m = 'the weight of the shortcut is not the sum of the two edges'
                elif not self.lighter(f, v, q):
                    m = 'the weight of an edge may increase'
                else:
                    self.made.setdefault(q, []).append(e)
                chk.ob(m is None, PS, p.at(e), m or 'the edge belongs to the pair, and gets lighter')

    def lists2(self):
        """shortcuts that are first noted in a list"""
        p, it, N, chk = self.p, self.it, self.N, self.chk
        from paths import natural
        body = natural(it, p.rd.node) or set()
        for q in [q for q in self.made if q[0] == 'noted']:
            o = q[1]
            P = [e for e in p.writes(o) if e.kind == 'push']
            if not (isinstance(o.a[0], int) and o.a[0] in body):
                clr = [e for e in p.writes(o) if e.kind == 'vclear']
                h = hits(it, [('node', p.rd.node)], clr, P)
                if not chk.ob(not h, PS, p.at(P[0]), 'the list of shortcuts is emptied' if not h else 'the list of shortcuts may hold those of another node'):
                    continue
            ok = True
            for e in self.clr + self.takes:
                done = p.passed(e, lambda f: any(self.counter(ind, k, q[2]) and self.covered(ind, k, lambda v: q[:2] + (v,) + q[3:], None) is None for ind, k in p.complete(f, lambda t: self.listsize(t, o))))
                ok = ok and done
                chk.ob(done, PX, p.at(e), 'all shortcuts that were noted are added' if done else 'a shortcut that was noted is not added')
            ind = loops.induction(it, q[2]) if q[2].op == 'phi' else None
            h = ind is None or hits(it, [('node', x.a[0]) for x in ind.scc], (), P, lambda n, i, t: t == p.rd.node)
            chk.ob(not h, PX, p.at(P[0]), 'no shortcuts are noted later' if not h else 'shortcuts are noted while the list is worked off')
            if ok and not h:
                for e in P:
                    m = dict(leaves(N.nf(e.val)))
                    self.made.setdefault(self.pair(m[q[3]], m[q[4]]), []).append(e)

    def counter(self, ind, k, t):
        return any(self.N.nf(loops.visited(ind, s, k)) is t for s in ind.steps)

    def listsize(self, t, o):
        return self.p.sizeof(t, o)

    def between(self, t, f, q, what):
        """t is the weight of an entry between the two nodes of pair q"""
        p = self.p
        r = p.arc(t)
        if r is None or r[1] != what:
            return False
        for y in self.far(f, r[0], r[2], r[3]):
            a, b = (r[2], y) if r[0] == 'out' else (y, r[2])
            if self.pair(a, b) == q:
                return True
        return False

    def lighter(self, f, w, q):
        for c, v in f.items():
            if c.op == 'lt':
                if v and c.a[0] is w and self.between(c.a[1], f, q, 'weight'):
                    return True
                if not v and c.a[1] is w and self.between(c.a[0], f, q, 'weight'):
                    return True
        return False

    # ------------------------------------------------------------ witness search
    def labels(self):
        """labels, marks and queue of the witness search inside of the rounds"""
        p, it, N, chk = self.p, self.it, self.N, self.chk
        self.ws = {}
        for n in self.nest:
            d, ind, k, h, body, inner = n
            ev = lambda *ks: [e for e in evs(it, *ks) if e.nid in body]
            w = self.ws[h] = Witness()
            w.start = d
            w.pushes, w.tops = ev('hpush'), ev('hpop', 'hpeek')
            heaps = {rootobj(N.nf(e.obj)) for e in w.pushes + w.tops}
            if not heaps:
                w.none = True
                continue
            w.none = False
            if len(heaps) != 1:
                raise Fail('%s: the queue of the witness search cannot be identified' % p.root)
            w.heap = heaps.pop()
            st = [e for e in ev('store') if len(e.idx) == 1]
            cand = None
            for e in w.pushes:
                lv = dict(leaves(N.nf(e.item)))
                c = set()
                for s in st:
                    for fw, x in lv.items():
                        if N.nf(s.val) is not x or x.op == 'b':
                            continue
                        for fn, nd in lv.items():
                            if fn != fw and p.idx(s)[0] is nd:
                                c.add((fw, fn, p.objof(s), s.leaf))
                cand = c if cand is None else cand & c
            if not cand or len(cand) != 1:
                raise Fail('%s: the weights of the witness search cannot be identified' % p.root)
            w.fw, w.fn, o, lf = cand.pop()
            w.key = (o, lf)
            w.lstore = [s for s in st if (p.objof(s), s.leaf) == w.key]
            w.top = {}
            for e in w.tops:
                lv = dict(leaves(N.nf(e.item)))
                w.top[lv.get(w.fw)] = lv.get(w.fn)
            # marks
            w.flag = None
            for s in st:
                if (p.objof(s), s.leaf) == w.key or any(x.op == 'ld' for x in subterms(N.nf(s.val))) or N.nf(s.val).op in ('b', 'i'):
                    continue
                if any(p.idx(s) == p.idx(l) for l in w.lstore):
                    g = (p.objof(s), s.leaf, N.nf(s.val))
                    if w.flag not in (None, g):
                        raise Fail('%s: the marks of the witness search cannot be identified' % p.root)
                    w.flag = g
            if w.flag is None:
                raise Fail('%s: no marks for the weights of the witness search' % p.root)
            self.justified(n, w)

    def label(self, t, w):
        """the node whose label t is"""
        if t.op == 'ld' and len(t.a[1]) == 1 and self.p.memkey(t.a[0]) == w.key:
            return t.a[1][0]
        return None

    def sameway(self, x, y):
        """two reads of the same entry of an adjacency list"""
        a, b = self.p.arc(x), self.p.arc(y)
        return x is y or a is not None and b is not None and a[:2] == b[:2] and a[2] is b[2] and a[3] is b[3]

    def flagged(self, n, w, f):
        F, leaf, g = w.flag
        for c, v in f.items():
            if c.op == 'eq' and v and g in c.a:
                x = c.a[0] if c.a[1] is g else c.a[1]
                if x.op == 'ld' and len(x.a[1]) == 1 and self.sameway(x.a[1][0], n) and self.p.memkey(x.a[0]) == (F, leaf):
                    return True
        return False

    def justified(self, nest, w):
        p, it, N, chk = self.p, self.it, self.N, self.chk
        d, ind, k, h, body, inner = nest
        avoided = []
        for e, v, n in [(e, N.nf(e.val), p.idx(e)[0]) for e in w.lstore] + [(e, dict(leaves(N.nf(e.item))).get(w.fw), dict(leaves(N.nf(e.item))).get(w.fn)) for e in w.pushes]:
            m = None
            for x, f in choices(it, N, v, e.facts):
                f = p.facts(f)
                m = m or self.path(x, n, f, w, ind, k)
            f = p.facts(e.facts)
            if m is None and not self.isstart(n, d, ind, k):
                away = any(c.op == 'eq' and not x and any(y is p.node and self.sameway(z, n) for y, z in (c.a, c.a[::-1])) for c, x in f.items())
                t = p.arc(n)[2]
                tway = any(c.op == 'eq' and not x and p.node in c.a and t in c.a for c, x in f.items())
                avoided.append((e, away, tway))
            chk.ob(m is None, PW, p.at(e), m or 'zero at the start, or an edge added to the weight of a node taken from the queue')
        ok = all(a for _, a, _ in avoided) or all(t for _, _, t in avoided)
        bad = [e for e, a, t in avoided if not a and not t] or [e for e, a, t in avoided if not a]
        chk.ob(ok, PW, p.at(None if ok else bad[0]), 'the removed node is avoided' if ok else 'a path through the removed node counts as witness')
        # a mark comes with its label
        fs = [s for s in evs(it, 'store') if s.nid in body and (p.objof(s), s.leaf) == w.flag[:2] and N.nf(s.val) is w.flag[2]]
        loads = [e for e in evs(it, 'load') if (p.objof(e), e.leaf) == w.key]
        for s in fs:
            ls = [x for x in w.lstore if p.idx(x) == p.idx(s)]
            ends = w.tops + loads + [x for x in self.chg] + [s]
            back = lambda a, b, t: t == h
            ok = bool(ls) and (not hits(it, [s], ls, ends + p.rets) or not hits(it, [('node', h)] + w.tops, ls, [s], back))
            chk.ob(ok, PW, p.at(s), 'a marked node gets its weight' if ok else 'a node is marked, but its weight may belong to another search')

    def isstart(self, n, d, ind, k):
        """n is the far end of the edge that the outer loop visits"""
        p = self.p
        r = p.arc(n)
        return r is not None and r[:2] == (d, 'adj') and r[2] is p.node and self.visits(ind, k, r[3])

    def visits(self, ind, k, t):
        return any(self.N.nf(loops.visited(ind, s, k)) is t for s in ind.steps) or any(x is t for x in ind.scc) and k == 1

    def path(self, v, n, f, w, ind, k):
        """None if v is the weight of a path from the start to n"""
        p = self.p
        if v is MAX:
            return None
        if v is I(0):
            return None if self.isstart(n, w.start, ind, k) else 'weight 0 for a node that is not the start of the search'
        if v.op != 'sadd' or len(v.a) != 2:
            return 'the weight is not that of a path'
        far = p.arc(n)
        way = p.other[w.start]
        if far is None or far[1] != 'adj':
            return 'the node is not the far end of an edge'
        if far[0] != way:
            return 'the search follows edges in the wrong direction'
        for x, y in (v.a, v.a[::-1]):
            if not p.isarc(y, way, 'weight', far[2], far[3]):
                continue
            if w.top.get(x) is far[2]:
                return None
            l = self.label(x, w)
            if l is not None and l is far[2] and (self.flagged(l, w, f) or l in w.top.values()):
                return None
        return 'the weight is not the sum of the weight of the near node and the edge'

    # ------------------------------------------------------------ nothing from other searches
    def fresh(self):
        p, it, N, chk = self.p, self.it, self.N, self.chk
        for n in self.nest:
            d, ind, k, h, body, inner = n
            w = self.ws[h]
            if w.none:
                continue
            # the queue
            if w.heap.op == 'obj' and isinstance(w.heap.a[0], int) and w.heap.a[0] in body:
                chk.ob(True, PF, p.at(w.tops[0]), 'the queue is new')
            else:
                clr = [e for e in evs(it, 'hclear') if p.objof(e) is w.heap and e.nid in body]
                r = hits(it, [('node', h)], clr, w.tops)
                chk.ob(not r, PF, p.at(r[0] if r else w.tops[0]), 'the queue is emptied' if not r else 'the queue may hold entries of another search')
            # the marks
            F, leaf, g = w.flag
            self.leaf = leaf
            self.web = set()
            r = self.outdated(g, F, h, body)
            for m in sorted(r):
                chk.ob(False, PF, p.at(w.lstore[0]), m)
            if not r:
                chk.ob(True, PF, p.at(w.lstore[0]), 'all marks are outdated before a search')
            # marks are only ever set to a current number
            for s in evs(it, 'store'):
                if s.leaf == leaf and len(s.idx) == 1 and p.objof(s) in {x[1] for x in self.web}:
                    v = N.nf(s.val)
                    ok = v in {x[0] for x in self.web} or v.op == 'i' and v.a[0] == 0
                    chk.ob(ok, PF, p.at(s), 'marks are set to the number of the search' if ok else 'a mark is set to another number')

    def outdated(self, g, F, h, body):
        """problems with the numbers of the marks; self.web: all (number, marks) that follow one another"""
        p, it, N = self.p, self.it, self.N
        from paths import natural
        bad = set()
        leaf = None
        work = [(g, F, True)]
        while work:
            x, o, inround = work.pop()
            if (x, o) in self.web and not (inround and (x, o, 1) not in self.web):
                continue
            self.web.add((x, o))
            if inround:
                self.web.add((x, o, 1))
            ns = {y.a[0] for y in (x, o) if y.op == 'phi' and y in it.phiops}
            if inround and h in ns:
                bad.add('the marks of the search from another start node remain valid')
                inround = False
            if ns:
                n = ns.pop()
                for m in ns:
                    if dominates(it, {n}, m):
                        n = m
                eds = set()
                for y in (x, o):
                    if y.op == 'phi' and y.a[0] == n and y in it.phiops:
                        eds |= set(it.phiops[y])
                for e in sorted(eds):
                    st = it.incoming[n].get(e)
                    if st is None:
                        continue
                    nx = N.nf(it.phiops[x].get(e, x)) if x.op == 'phi' and x.a[0] == n and x in it.phiops else x
                    no = rootobj(N.nf(it.phiops[o].get(e, o))) if o.op == 'phi' and o.a[0] == n and o in it.phiops else o
                    self.bump(nx, no, st, inround, bad, work)
                continue
            self.bump(x, o, None, inround, bad, work)
        self.web = {x for x in self.web if len(x) == 2}
        return bad

    def bump(self, x, o, st, inround, bad, work):
        """one way in which number and marks come about"""
        p, it, N = self.p, self.it, self.N
        f = p.facts(st.facts) if st is not None else {}
        if x.op == 'lin' and len(x.a[1]) == 1 and x.a[1][0][1] == 1 and x.a[2] == 1 and x.a[1][0][0].op == 'phi':
            old = x.a[1][0][0]
            w = x.a[0]
            mx = I((1 << w) - 1)
            if w < 64 and not (f.get(eq(old, mx)) is False or f.get(lt(old, mx)) is True or f.get(eq(x, I(0))) is False or any(c.op == 'lt' and (v and c.a[0] is old or not v and c.a[1] is old and c.a[0] is not mx) for c, v in f.items())):
                bad.add('the number of the search wraps around after %d searches' % (1 << w))
            self.web.add((x, o))
            work.append((old, o, False))
        elif x.op == 'i' and o.op == 'obj':
            c = self.filled(o, st)
            if c is None and st is not None:
                c = self.swept(o, f)
                c = c and {c}
            if c is None or not all(y.op == 'i' and y.a[0] < x.a[0] for y in c):
                bad.add('marks may be valid from the beginning')
            self.web.add((x, o))
        elif x.op == 'i' and st is not None:
            c = self.swept(o, f)
            if c is None or not c.a[0] < x.a[0]:
                bad.add('the number of the search is reset, but not the marks')
            self.web.add((x, o))
        elif x.op == 'phi' or o.op == 'phi':
            work.append((x, o, inround))
        else:
            bad.add('the number of the search is not known')

    def filled(self, o, st):
        """values that the marks in a list start with, None if the list was used before"""
        it, N = self.it, self.N
        leaf = self.leaf
        if st is not None:
            m = it.memget_raw(st, (o, leaf))
            m = N.nf(m) if m is not None else None
            if m is not None and m.op == 'fill':
                return {N.nf(m.a[0])}
            if m is None or m.op != 'mempty':
                m = st.mem.get((o, None))
                if m is None or N.nf(m).op != 'fillobj' or any(k[0] is o and k[1] == leaf for k in st.mem):
                    return None
        out = set()
        for n in live(it):
            m = it.instate[n].mem.get((o, None))
            if m is not None:
                m = N.nf(m)
                if m.op == 'fillobj':
                    out.add(N.nf(it.projpath(m.a[0], leaf[1:])))
                elif m.op != 'empty':
                    return None
        for e in evs(it, 'push'):
            if self.p.objof(e) is o:
                out.add(N.nf(e.val))
        return out or None

    def swept(self, o, f):
        p, it, N = self.p, self.it, self.N
        islen = lambda t: self.lenof(t, o)
        for d, k in p.complete(f, islen):
            if k != 1:
                continue
            sts = [s for s in evs(it, 'store') if p.objof(s) is o and N.nf(s.val).op == 'i' and len(s.idx) == 1 and p.idx(s)[0] in d.scc]
            if len({N.nf(s.val) for s in sts}) != 1:
                continue
            q = passedges(it, [('node', x[0]) for x in d.steps], sts)
            if not any(x[1] in q for x in d.steps):
                return N.nf(sts[0].val)
        return None

    def lenof(self, t, o):
        p = self.p
        return p.isnum(t) or t.op == 'ld' and not t.a[1] and p.memkey(t.a[0]) == (o, ('#len',))

    # ------------------------------------------------------------ pairs
    def excused(self, f, q, w, good, depth=4):
        """no shortcut is needed for the pair in this state"""
        p, it, N = self.p, self.it, self.N
        for c, v in f.items():
            if c.op == 'eq' and v:
                for x, y in (c.a, c.a[::-1]):
                    if self.pair(x, y) == q:
                        return True
                    if self.isum(x, q) and y is MAX:
                        return True
            elif c.op == 'lt':
                # x not heavier than the sum
                if not v and self.isum(c.a[0], q):
                    x = c.a[1]
                elif v and self.isum(c.a[1], q):
                    x = c.a[0]
                else:
                    continue
                if self.between(x, f, q, 'weight'):
                    return True
                ch = choices(it, N, x, f)
                if ch and all(self.witness(y, p.facts(g), q, w) for y, g in ch):
                    return True
            elif c.op == 'phi' and depth:
                ch = choices(it, N, c, f)
                if ch and all(y.op == 'b' and y.a[0] is not v or self.excused(p.facts(g), q, w, good, depth - 1) for y, g in ch):
                    return True
        return self.mirrored(f, q, good)

    def witness(self, x, f, q, w):
        """x is the weight of a path between the ends of the pair, or there is none"""
        p = self.p
        if x is MAX:
            return True
        if x is I(0):
            return any(c.op == 'eq' and v and (self.pair(*c.a) == q or self.pair(*c.a[::-1]) == q) for c, v in f.items())
        if w is None or w.none or q[0] == 'noted':
            return self.between(x, f, q, 'weight')
        l = self.label(x, w)
        i, j = q
        if l is None:
            return self.between(x, f, q, 'weight')
        far = ('out', j) if w.start == 'in' else ('in', i)
        return p.isarc(l, far[0], 'adj', p.node, far[1]) and self.flagged(l, w, f)

    def mirrored(self, f, q, good):
        """an entry of one direction exists, and all entries of the other direction were looked through for it"""
        p, it = self.p, self.it
        for c, v in f.items():
            if c.op != 'eq' or not v:
                continue
            for x, y in (c.a, c.a[::-1]):
                r = p.arc(x)
                if r is None or r[1] != 'adj' or r[2] is p.node:
                    continue
                a, b = (r[2], y) if r[0] == 'out' else (y, r[2])
                if self.pair(a, b) != q:
                    continue
                # (none being found in the same direction cannot happen)
                for o, m, z in ((p.other[r[0]], y, r[2]), (r[0], r[2], y)):
                    def no(g, k):
                        return any(c2.op == 'eq' and not v2 and any(p.isarc(s, o, 'adj', m, k) and t is z for s, t in (c2.a, c2.a[::-1])) for c2, v2 in g.items())
                    if p.every(f, lambda t: p.listlen(t, o, m), lambda k: good, no):
                        return True
        return False

    def examined(self):
        p, it, N, chk = self.p, self.it, self.N, self.chk
        for e in self.clr + self.takes:
            why = []

            def test(f):
                for d in p.L:
                    if p.empty(f, d):
                        return True
                    for ind, k in p.complete(f, lambda t: p.listlen(t, d, p.node)):
                        for n in self.nest:
                            if n[0] == d and n[1].scc & ind.scc:
                                w = self.whyopen(n)
                                if w is None:
                                    return True
                                why.append(w)
                return False
            ok = p.passed(e, test)
            chk.ob(ok, PX, p.at(e), 'all pairs keep a connection' if ok else why[0] if why else 'the edges of a node are removed before all pairs were examined')

    def whyopen(self, nest):
        p, it, N = self.p, self.it, self.N
        d, ind, k, h, body, inner = nest
        if '_open' not in self.__dict__:
            self._open = {}
        if h in self._open:
            return self._open[h]
        r = None
        for s, f, js in inner:
            u = N.nf(loops.visited(ind, s, k))
            ms = [self.covered(jd, jk, lambda v: (u, v) if d == 'in' else (v, u), self.ws[h]) for jd, jk in js]
            if None not in ms:
                r = ms[0]
        self._open[h] = r
        return r

    def covered(self, jd, jk, pair, w):
        """None if every round of a loop connects its pair of edges"""
        p, it, N = self.p, self.it, self.N
        for t in jd.steps:
            if it.incoming[t[0]].get(t[1]) is None:
                continue
            q = pair(N.nf(loops.visited(jd, t, jk)))
            good = self.made.get(q, [])
            seen = {}

            def ec(a, b, c):
                if (a, b) not in seen:
                    g = p.edgefacts(a, b)
                    seen[a, b] = g is not None and len(g) != len(it.instate[a].facts) and self.excused(g, q, w, good)
                return seen[a, b]
            if t[1] in passedges(it, [('node', x) for x in {y.a[0] for y in jd.scc}], good, ec):
                return 'a pair of edges can be passed over without a shortcut and without a path that is not heavier'
        return None


class Witness:
    pass


class Quiet:
    """takes no note of obligations"""

    def __init__(self, chk):
        self.prog, self.units = chk.prog, chk.units

    def ob(self, ok, *a):
        return ok


def middle(chk):
    """C06: a shortcut leads through the node that its edges belong to"""
    for root in ROOTS:
        m = Pairs(Prep(chk, root))
        m.chk = Quiet(chk)
        m.classify()
        m.chk = chk
        m.stores()
        sets = [e for e in m.chg if m.kind[id(e)][0] == 'set']
        others = [x for x in m.chg if x not in sets]
        for e in sets:
            k = m.kind[id(e)]
            m.together(e, [x for x in sets if m.kind[id(x)][1] == k[1] and m.kind[id(x)][3:5] == k[3:5] and m.kind[id(x)][2] != k[2]], others, PS)


def c04(chk):
    for root in ROOTS:
        Pairs(Prep(chk, root)).run()
    chk.floor(PX, 4, 'both lists in both ways of building')
    chk.floor(PS, 8, 'appends and updates in both ways of building')
    chk.floor(PW, 6, 'both ways of building')
