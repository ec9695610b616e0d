"""C06: the node list of a route."""
from terms import *
from graph import *
from evgraph import *
from norm import norm
from base import Fail
import loops
import rules_prep
from paths import paths, natural, leaving, fill
from rules_query import MULTI, SINGLE, Query, leaves, retval, goals, Csr
from rules_term import memname

RW = 'the walk along the parents starts at the meeting node and follows each edge'
RU = 'shortcuts are replaced by their two halves in travel order'
RL = 'the list is put together in travel order'
RP = 'parent and incoming edge belong to the label'
RE = 'the ends of the path are the ends of its list'


def accessor(prog, name):
    t = retval(prog, 'shortest_path::ShortestPath::' + name)
    while t.op == 'ref' and t.a[1]:
        return t.a[1][-1][1]
    if t.op in ('init', 'ld'):
        nm = (t.a[0] if t.op == 'init' else t.a[0].a[0].a[0])
        return nm.split('.')[-1]
    raise Fail('ShortestPath::%s is not a field' % name)


class Route:
    def __init__(self, chk, root):
        self.chk = chk
        self.q = q = Query(chk, root)
        self.it, self.N = q.it, q.N
        self.E = {d: q.csr.edges(d) for d in ('out', 'in')}
        self.start = {self.E['out']: 'base_node', self.E['in']: 'adj_node'}

    # ---- terms
    def field(self, t):
        """(edge, field) if t reads a field of an edge: edge is (list, index) or ('ref', component)"""
        if t.op == 'proj' and t.a[0].op == 'deref':
            r = t.a[0].a[0]
            p = self.edgeref(r)
            return (p or ('ref', r)), t.a[1]
        if t.op == 'ld' and len(t.a[1]) == 1 and t.a[0].op == 'm0':
            o, leaf = t.a[0].a
            if o.op == 'init' and o.a[0].startswith('a1.') and len(leaf) == 2 and leaf[0] == '[]':
                return (o.a[0][3:], t.a[1][0]), leaf[1]
        if t.op == 'proj' and t.a[0].op == 'ld' and t.a[0].a[0].op == 'm0' and len(t.a[0].a[1]) == 1:
            o, leaf = t.a[0].a[0].a
            if o.op == 'init' and o.a[0].startswith('a1.') and leaf == ('[]',):
                return (o.a[0][3:], t.a[0].a[1][0]), t.a[1]
        return None

    def edgeref(self, r):
        """(list, index) of a reference to an edge"""
        if r.op == 'ref' and r.a[0] == (-1, 'a1') and len(r.a[1]) == 2 and r.a[1][0][0] == 'f' and r.a[1][1][0] == 'x':
            return r.a[1][0][1], r.a[1][1][1]
        return None

    def isfield(self, t, edge, name):
        f = self.field(t)
        return f is not None and f[0] == edge and f[1] == name

    def state(self, t, key, n):
        """t reads the per-node state `key` of node n"""
        if t.op == 'ld' and len(t.a[1]) == 1 and t.a[1][0] is n:
            m = memname(t.a[0])
            return m is not None and (rootobj(self.N.nf(m[0])), m[1]) == key
        return False

    # ---- writes to a list
    def writes(self, obj):
        out = []
        for n in live(self.it):
            last = None
            for e in self.it.events[n]:
                if e.kind not in WRITES and e.kind != 'unk':
                    continue
                o = e.d.get('obj')
                if not isinstance(o, T):
                    o = e.d.get('h')
                if not isinstance(o, T) or rootobj(self.N.nf(o)) is not obj:
                    continue
                if e.kind == 'store' and last is not None and last.kind == 'push' and last.bid == e.bid and last.sp == e.sp and self.N.nf(last.at) is self.N.nf(e.idx[0]):
                    continue
                out.append(e)
                last = e
        return out

    # ---- the list of one result
    def result(self, ret, fields):
        it, N, chk, q = self.it, self.N, self.chk, self.q
        sp = dict(N.nf(ret.val).a[2][0][1].a[2])
        R = sp[fields['nodes']]
        if R.op != 'obj':
            raise Fail('%s: the node list of the returned path is not a list made by the query' % q.root)
        W = self.writes(R)
        at = where(it, ret)
        if self.single(ret, sp, fields, R, W):
            return
        walks = self.walks()
        sides = {s.dir: (s, walks[s]) for s in q.sides}
        loopsof = {}
        seq = {}
        used = []
        for d, (s, w) in sides.items():
            inner = self.inner(s, w, R, W)
            if inner is None:
                return
            loopsof[d] = inner
            used += inner.emits
        rev = [e for e in W if e.kind == 'vreverse']
        rest = [e for e in W if e not in used and e not in rev]
        wb = sides['in'][1]
        fin = [e for e in rest if e.kind == 'push' and N.nf(e.val) is wb]
        other = [e for e in rest if e not in fin]
        chk.ob(not other, RL, where(it, other[0]) if other else at, 'only the walks, the reversal and the last node change the list' if not other else 'the list is changed in another way: %s' % other[0].kind)
        if not chk.ob(bool(fin), RL, at, 'the last node is added' if fin else 'the node at which the backward walk ends is not added'):
            return
        f, b = loopsof['out'], loopsof['in']
        entry = ('node', it.entry)
        if not chk.ob(b.travel, RL, at, 'the backward half comes in travel order' if b.travel else 'the backward half is not in travel order'):
            return
        if not f.travel:
            if not chk.ob(len(rev) == 1 and rev[0].d.get('whole') is not False, RL, at, 'the first half is turned around' if rev else 'the forward half of the route is never turned around'):
                return
        elif not chk.ob(not rev, RL, at, 'nothing is turned around' if not rev else 'a list that is in travel order is turned around'):
            return

        def none(rule, h, good, bad):
            chk.ob(not h, rule, at, good if not h else bad)
        fx, bx = set(leaving(it, f.wbody)), set(leaving(it, b.wbody))
        if f.travel:
            none(RL, hits(it, [entry], (), b.emits + fin, lambda n, i, t: (n, i) in fx), 'the backward half follows the forward half', 'nodes of the backward half are added before those of the forward half')
            none(RL, hits(it, b.emits + fin, (), f.emits), 'the forward half precedes the backward half', 'nodes of the forward half are added after those of the backward half')
            rev = [('edge', n, i) for n, i in sorted(fx) if hits(it, [('edge', n, i)], (), [ret])]
        else:
            none(RL, hits(it, [entry], rev, b.emits + fin), 'the backward half follows the reversal', 'nodes of the backward half are added before the reversal')
            none(RL, hits(it, rev, (), f.emits + rev), 'the forward half precedes the reversal', 'nodes of the forward half are added after the reversal')
        none(RL, hits(it, fin, (), W), 'the last node is added last', 'the list is changed after the last node')
        none(RL, hits(it, rev, fin, [ret]) + (hits(it, [entry], rev, [ret]) if not f.travel else []), 'both steps are taken on every way', 'a path can be returned without its last node')
        if not f.travel:
            none(RL, hits(it, [entry], (), rev, lambda n, i, t: (n, i) in fx), 'the forward walk is complete before the reversal', 'the reversal can happen without the forward walk')
        none(RL, hits(it, rev, (), fin, lambda n, i, t: (n, i) in bx), 'the backward walk is complete before the last node', 'the last node can be added without the backward walk')
        # the list is empty at first
        ln = [p for p in it.phiops if p.a[0] == f.head and p.a[1][0] == 'm' and rootobj(p.a[1][1]) is R and p.a[1][2] == ('#len',)]
        wl = [p for p in it.phiops if p.a[0] == f.whead and p.a[1][0] == 'm' and rootobj(p.a[1][1]) is R and p.a[1][2] == ('#len',)]
        ok = bool(wl) and all(N.nf(o) is I(0) for p in wl for e, o in it.phiops[p].items() if e[0] not in f.wbody)
        chk.ob(ok, RL, at, 'the list is empty at first' if ok else 'the list is not known to be empty at first')
        self.ends(ret, sp, fields, R, sides, at)

    def ends(self, ret, sp, fields, R, sides, at):
        wf, wb = sides['out'][1], sides['in'][1]
        src, tgt = sp[fields['source']], sp[fields['target']]

        def lastmem(t):
            return t.op == 'ld' and t.a[0].op == 'st' and t.a[0].a[2] is wb and memobj(self.N, t.a[0]) is R
        ok = src is wf or lastmem(src) and src.a[1] == (I(0),)
        self.chk.ob(ok, RE, at, 'the source is the first node' if ok else 'the reported source is not the first node of the finished list')
        ok = tgt is wb
        self.chk.ob(ok, RE, at, 'the target is the last node' if ok else 'the reported target is not the last node of the finished list')

    def single(self, ret, sp, fields, R, W):
        """a route of one node"""
        if not (len(W) == 1 and W[0].kind in ('store', 'push')):
            return False
        v = self.N.nf(W[0].val)
        ok = sp[fields['source']] is v and sp[fields['target']] is v
        f = self.q.facts(ret.facts)
        a2, a3 = [next((a for a in self.it.rootargs if a.op == 'init' and a.a[0] == x), None) for x in ('a2', 'a3')]
        ok = ok and a2 is not None and v in (a2, a3) and f.get(eq(a2, a3)) is True
        self.chk.ob(ok, RE, where(self.it, ret), 'a route from a node to itself' if ok else 'a list of one node for different ends')
        return True

    # ---- walks
    def walks(self):
        """side -> the variable that walks along its parents"""
        it, N, q = self.it, self.N, self.q
        out = {}
        for n in live(it):
            for ph in q.term.byphi.get(n, ()):
                if ph in N.res:
                    continue
                ops = {N.nf(o) for o in it.phiops[ph].values()}
                for s in q.sides:
                    if s.parent is None or s.inc is None:
                        raise Fail('%s: no parent or incoming edge is kept with the %s labels' % (q.root, s.name))
                    if any(self.state(o, s.parent, ph) or self.farend(o, s, ph) for o in ops):
                        out.setdefault(s, set()).add(ph)
        for s in q.sides:
            if len(out.get(s, ())) != 1:
                raise Fail('%s: the walk along the %s parents cannot be identified' % (q.root, s.name))
            out[s], = out[s]
        return out

    def farend(self, t, s, w):
        """t is the base node of the incoming edge of w"""
        f = self.field(t)
        return f is not None and f[0][0] == self.E[s.dir] and f[1] == 'base_node' and isinstance(f[0][1], T) and self.state(f[0][1], s.inc, w)

    # ---- unpacking inside of a walk
    def inner(self, s, w, R, W):
        it, N, chk, q = self.it, self.N, self.chk, self.q
        head = w.a[0]
        body = natural(it, head)
        at = '%s (%s walk)' % (q.root, s.name)
        if not chk.ob(body is not None, RW, at, 'a loop' if body else 'not a loop'):
            return None
        # the work list
        pops = [e for e in evs(it, 'vpop') if e.nid in body]
        stage = None
        if not pops:
            stage = self.stage(s, w, head, body, at)
            if stage is None:
                return None
            pops = [stage.pop]
            stage.walkhead = head
            walkbody, head, body = body, stage.head, stage.body
        emits = [e for e in W if e.nid in body]
        if len(pops) != 1:
            raise Fail('%s: the %s walk does not unpack with one work list' % (q.root, s.name))
        pop = pops[0]
        S = rootobj(N.nf(pop.obj))
        ih = None
        for t in subterms(N.nf(pop.at)):
            if t.op == 'phi' and t.a[1][0] == 'm' and rootobj(t.a[1][1]) is S and t.a[1][2] == ('#len',):
                ih = t
        if ih is None or natural(it, ih.a[0]) is None or ih.a[0] == head or not natural(it, ih.a[0]) <= body:
            raise Fail('%s: the loop over the work list of the %s walk cannot be identified' % (q.root, s.name))
        r = Inner()
        r.head, r.len, r.whead, r.wbody = ih.a[0], ih, head, body
        r.body = natural(it, r.head)
        r.stage = stage
        r.walkbody = walkbody if stage else body
        # whether the nodes come in the order of travel
        r.travel = (s.dir == 'in') == (stage is None or stage.dir == 1)
        r.emits = [e for e in emits if e.nid in r.body]
        SW = self.writes(S)
        comps = dict(leaves(N.nf(pop.item)))
        self.rounds(s, r, pop, S, R, comps, SW, W)
        # the walk itself
        self.walkround(s, w, r, S, R, comps, SW, W, at)
        return r

    def stage(self, s, w, whead, wbody, at):
        """the walk only notes what is to be unpacked: the lists it fills and the loop that works them off"""
        it, N, chk, q = self.it, self.N, self.chk, self.q
        g = Stage()
        g.pushed = {}
        for e in evs(it, 'push'):
            if e.nid in wbody:
                o = rootobj(N.nf(e.obj))
                if o in g.pushed:
                    raise Fail('%s: the %s walk fills a list in two places' % (q.root, s.name))
                g.pushed[o] = e
        if not g.pushed:
            raise Fail('%s: the %s walk neither unpacks its edges nor collects them' % (q.root, s.name))
        cand = []
        for pop in evs(it, 'vpop'):
            o = rootobj(N.nf(pop.obj))
            if pop.nid in wbody or o in g.pushed:
                continue
            for t in subterms(N.nf(pop.at)):
                if t.op == 'phi' and t.a[1][0] == 'm' and rootobj(t.a[1][1]) is o and t.a[1][2] == ('#len',) and natural(it, t.a[0]):
                    outer = [h for h in it_heads(it) if h != t.a[0] and natural(it, t.a[0]) < natural(it, h)]
                    outer.sort(key=lambda h: len(natural(it, h)))
                    if outer:
                        cand.append((pop, t.a[0], outer[0]))
        found = []
        for pop, ih, oh in cand:
            ob = natural(it, oh)
            ps = paths(it, oh, ob, skip=[ih])
            seen = set()
            for p in ps:
                for e, env in (x for x in p.events if x[0] != 'loop'):
                    if e.kind in ('push', 'store') and rootobj(N.nf(e.obj)) is rootobj(N.nf(pop.obj)):
                        seen |= {x for x in subterms(fill(N, e.val, env)) if self.noted(g, x)}
            if seen:
                found.append((pop, ih, oh, ps, seen))
        if len(found) != 1:
            raise Fail('%s: what the %s walk collects is not worked off by one loop' % (q.root, s.name))
        g.pop, ih, g.head, g.paths, g.reads = found[0]
        g.body = natural(it, g.head)
        used = {memobj(N, x.a[0]) for x in g.reads}
        entry = ('node', it.entry)
        dirs = set()
        # the lists: filled by the walk only
        for o in used:
            flips = []
            for e in self.writes(o):
                if e is g.pushed[o]:
                    continue
                if e.kind == 'vreverse' and e.d.get('whole') is not False and e.nid not in wbody and e.nid not in g.body:
                    flips.append(e)
                    continue
                if e.kind == 'vpop' and e.nid in g.body:
                    continue
                if not chk.ob(False, RW, at, 'the list of what is to be unpacked is changed in another way (%s)' % e.kind):
                    return None
            wx = set(leaving(it, wbody))
            ok = not hits(it, [entry], (), flips, lambda n, i, t: (n, i) in wx) and not self.enters(g, [entry], (), lambda n, i, t: (n, i) in wx)
            ok = ok and len(flips) <= 1 and (not flips or not self.enters(g, [entry], flips) and not hits(it, flips, (), flips))
            if not chk.ob(ok, RW, at, 'the list is complete when it is worked off' if ok else 'the list can be worked off before it is complete'):
                return None
            ln = [p for p in it.phiops if p.a[0] == whead and p.a[1][0] == 'm' and rootobj(p.a[1][1]) is o and p.a[1][2] == ('#len',)]
            ok = bool(ln) and all(N.nf(x) is I(0) for p in ln for e, x in it.phiops[p].items() if e[0] not in wbody)
            if not chk.ob(ok, RW, at, 'the list is empty before the walk' if ok else 'the list is not empty before the walk'):
                return None
            pops = [e for e in self.writes(o) if e.kind == 'vpop']
            if pops:
                d = self.popped_off(g, o, pops)
            else:
                d = self.visits(g, o, ln[0])
            if not chk.ob(d is not None, RU, at, 'every edge that was noted is unpacked' if d else 'the edges that were noted are not all unpacked, one after the other'):
                return None
            dirs.add(-d if flips else d)
        if len(dirs) != 1:
            raise Fail('%s: the lists of the %s walk are worked off in different directions' % (q.root, s.name))
        g.dir, = dirs
        return g

    def enters(self, g, starts, cut, edgecut=None):
        return [(n, i) for n, i in passedges(self.it, starts, cut, edgecut) if self.it.succs[n][i][0] == g.head]

    def noted(self, g, t):
        if t.op == 'ld' and len(t.a[1]) == 1:
            return memobj(self.N, t.a[0]) in g.pushed
        return False

    def popped_off(self, g, o, pops):
        """the outer loop takes the last entry until the list is empty"""
        it, N = self.it, self.N
        if len(pops) != 1:
            return None
        for p in g.paths:
            n = [x for x in p.events if x[0] is pops[0]]
            if p.why == 'round':
                if len(n) != 1:
                    return None
                at = N.nf(pops[0].at)
                if any(x.a[1][0] is not at for x in g.reads if memobj(N, x.a[0]) is o):
                    return None
            elif self.reaches(p.edge):
                if n and not any(x.op == 'eq' and I(0) in x.a and v and any(is_len(y, o, g.head) for y in x.a) for x, v in p.facts.items()):
                    return None
                if not any(x.op == 'eq' and I(0) in x.a and v and any(is_len(y, o, g.head) for y in x.a) for x, v in p.facts.items()):
                    return None
        return -1

    def visits(self, g, o, length):
        """the outer loop visits all entries: 1 from the first to the last, -1 from the last to the first"""
        it, N, q = self.it, self.N, self.q
        length = N.nf(length)
        found = None
        for (n, i) in leaving(it, g.body):
            if not self.reaches((n, i)):
                continue
            st = it.incoming[it.succs[n][i][0]].get((n, i))
            if st is None:
                continue
            here = [(d, k) for d, k in loops.exhausted(it, N.facts(st.facts), length)]
            if found is None:
                found = here
            found = [x for x in found if any(x[0] is y[0] and x[1] == y[1] for y in here)]
        for d, k in found or ():
            idx = {N.nf(loops.visited(d, s, k)) for s in d.steps}
            if all(s[0] == g.head for s in d.steps) and len(idx) == 1 and all(x.a[1][0] in idx for x in g.reads if memobj(N, x.a[0]) is o):
                return k
        return None

    def asnoted(self, g, t):
        """t with the entries of the lists replaced by what the walk put there"""
        env = {}
        for x in subterms(t):
            if self.noted(g, x):
                e = g.pushed[memobj(self.N, x.a[0])]
                k = memname(unturned(x.a[0]))[1]
                v = dict(leaves(self.N.nf(e.val))).get(tuple(k[1:]))
                if v is not None:
                    env[x] = v
        return fill(self.N, t, env) if env else t

    def rounds(self, s, r, pop, S, R, comps, SW, W):
        it, N, chk = self.it, self.N, self.chk
        at = where(it, pop)
        tags = {}      # tag facts -> list
        startc = set()
        leafs, cuts = [], []
        for p in paths(it, r.head, r.body):
            evl = [(e, env) for e, env in p.events if e in SW or e in W]
            if p.why == 'exit':
                ok = not evl and p.facts.get(eq(r.len, I(0))) is True
                back = self.reaches(p.edge)
                if back:
                    chk.ob(ok, RU, at, 'the work list is worked off' if ok else 'unpacking can stop before the work list is empty')
                continue
            if not evl or evl[0][0] is not pop:
                chk.ob(False, RU, at, 'a round that takes nothing from the work list')
                continue
            what = [(e, fill(N, e.val, env)) if e.kind == 'push' else (e, None) for e, env in evl[1:]]
            E = self.popped(p, comps)
            if E is None:
                chk.ob(False, RU, at, 'it is not known whether the edge is a shortcut')
                continue
            edge, short = E
            if not short:
                ok = len(what) == 1 and what[0][0].kind == 'push' and what[0][0] in W
                chk.ob(ok, RU, at, 'an original edge adds one node' if ok else 'an original edge does not add exactly one node')
                if ok:
                    leafs.append((p, edge, what[0][1]))
            else:
                ok = len(what) == 2 and all(e.kind == 'push' and e in SW for e, _ in what)
                chk.ob(ok, RU, at, 'a shortcut is replaced by two edges' if ok else 'a shortcut is not replaced by exactly two edges')
                if ok:
                    cuts.append((p, edge, what))
        if not chk.ob(bool(leafs) and bool(cuts), RU, at, 'original edges and shortcuts are told apart' if leafs and cuts else 'original edges and shortcuts are not told apart'):
            return
        # which component tells the list
        r.tags = []
        for p, edge, _ in leafs + cuts:
            if edge[0] != 'ref':
                tf = {c: v for c, v in p.facts.items() if c in comps.values()}
                r.tags.append((tf, edge[0]))
        r.startc = None
        for p, edge, v in leafs:
            c = [k for k, x in comps.items() if x is v]
            if c and (edge[0] == 'ref' or edge[1] is not v):
                r.startc = c[0]
                chk.ob(True, RU, at, 'the node added is the start that was put down with the edge')
            else:
                f = self.field(v)
                ok = f is not None and f[0] == edge and self.start.get(edge[0]) == f[1]
                chk.ob(ok, RU, at, 'the node added is the start of the edge' if ok else 'the node added is not the start of the edge')
        r.comps = comps
        for p, edge, what in cuts:
            halves = []
            got = {}
            for e, v in what:
                t = self.target(r, dict(leaves(v)), edge)
                halves.append(t)
                if t is not None and t[1] is not None:
                    h = self.field(t[1])
                    if h is not None and h[0] == edge and h[1] in ('replaced_in_edge', 'replaced_out_edge') and t[0] == self.E['in' if h[1] == 'replaced_in_edge' else 'out']:
                        got[h[1]] = (len(halves) - 1, t, dict(leaves(v)))
            ok = len(got) == 2
            if not chk.ob(ok, RU, at, 'the two halves are the edges that the shortcut replaces' if ok else 'the edges put down are not the two edges that the shortcut replaces'):
                continue
            i, o = got['replaced_in_edge'], got['replaced_out_edge']
            # taken from the end of the work list: the later one comes first
            ok = (i[0] > o[0]) == r.travel
            chk.ob(ok, RU, at, 'the halves are unpacked in travel order' if ok else 'the halves are unpacked in the wrong order')
            if r.startc is not None:
                iv, ov = i[2].get(r.startc), o[2].get(r.startc)
                ok = self.startok(i[1], iv) or iv is comps[r.startc]
                chk.ob(ok, RU, at, 'the first half is put down with its start' if ok else 'the entering half is put down with a node that is not its start')
                ok = self.startok(o[1], ov) or self.isfield(ov, i[1], 'base_node')
                chk.ob(ok, RU, at, 'the second half is put down with its start' if ok else 'the leaving half is put down with a node that is not its start')

    def reaches(self, edge):
        return bool(hits(self.it, [('edge',) + edge], (), self.q.some))

    def popped(self, p, comps):
        """the edge a round deals with, and whether it is known to be a shortcut"""
        for c, v in p.facts.items():
            if c.op != 'eq' or MAX not in c.a:
                continue
            x = c.a[0] if c.a[1] is MAX else c.a[1]
            f = self.field(x)
            if f is not None and f[1] in ('replaced_in_edge', 'replaced_out_edge') and f[0][1] in comps.values():
                return f[0], not v
        return None

    def target(self, r, lv, edge):
        """(list, index) of the edge that a work item stands for"""
        if edge[0] == 'ref':
            k = [k for k, x in r.comps.items() if x is edge[1]]
            v = lv.get(k[0]) if k else None
            return self.edgeref(v) if v is not None else None
        k = [k for k, x in r.comps.items() if x is edge[1]]
        ls = set()
        for tf, l in r.tags:
            ok = True
            for c, v in tf.items():
                kk = [k2 for k2, x in r.comps.items() if x is c]
                w = lv.get(kk[0]) if kk else None
                if w is None or w.op != 'b':
                    return None
                if w.a[0] is not v:
                    ok = False
            if ok:
                ls.add(l)
        if len(ls) != 1 or not k:
            return None
        return ls.pop(), lv.get(k[0])

    def startok(self, t, v):
        if v is None:
            return False
        f = self.field(v)
        return f is not None and f[0] == t and f[1] == self.start.get(t[0])

    def walkround(self, s, w, r, S, R, comps, SW, W, at):
        it, N, chk, q = self.it, self.N, self.chk, self.q
        if not hasattr(r, 'comps'):
            return
        anyedge = ('ref', None)
        refc = [k for k, x in comps.items()]
        nround = 0
        for p in paths(it, r.stage.walkhead if r.stage else r.whead, r.walkbody, skip=[r.head]):
            inc = None
            for c, v in p.facts.items():
                if c.op == 'eq' and MAX in c.a:
                    x = c.a[0] if c.a[1] is MAX else c.a[1]
                    if self.state(x, s.inc, w):
                        inc = not v
            evl = [x for x in p.events if x[0] == 'loop' or x[0] in SW or x[0] in W]
            if p.why == 'exit':
                if self.reaches(p.edge):
                    ok = not evl and inc is False
                    chk.ob(ok, RW, at, 'the walk ends at a root' if ok else 'the walk can end at a node that has an incoming edge')
                continue
            nround += 1
            ok = inc is True
            chk.ob(ok, RW, at, 'the walk goes on from nodes with incoming edge' if ok else 'the walk can go on from a root')
            nx = p.env.get(w)
            ok = nx is not None and (self.state(nx, s.parent, w) or self.farend(nx, s, w))
            chk.ob(ok, RW, at, 'the walk goes on at the parent' if ok else 'the walk does not go on at the parent')
            if r.stage:
                n = [x for x in p.events if x[0] in r.stage.pushed.values()]
                ok = not evl and len(n) == len(r.stage.pushed)
                chk.ob(ok, RW, at, 'one edge is noted per step' if ok else 'a step does not note exactly one edge')
                continue
            li = [i for i, x in enumerate(evl) if x[0] == 'loop']
            ok = len(li) == 1 and li[0] == len(evl) - 1 and all(x[0] in SW for x in evl[:-1])
            if not chk.ob(ok, RW, at, 'one edge is unpacked per step' if ok else 'a step does not unpack exactly one edge'):
                continue
            self.item(s, w, r, evl, comps, at)
        chk.ob(nround > 0, RW, at, 'the walk has a step' if nround else 'the walk has no step')
        if r.stage:
            for p in r.stage.paths:
                evl = [x for x in p.events if x[0] == 'loop' or x[0] in SW or x[0] in W]
                if p.why == 'exit':
                    if self.reaches(p.edge):
                        chk.ob(not evl, RW, at, 'nothing else is unpacked' if not evl else 'something is unpacked that was not noted')
                    continue
                ok = bool(evl) and evl[-1][0] == 'loop' and all(x[0] in SW for x in evl[:-1])
                if chk.ob(ok, RW, at, 'one edge is unpacked per step' if ok else 'a step does not unpack exactly one edge'):
                    self.item(s, w, r, evl, comps, at)

    def item(self, s, w, r, evl, comps, at):
        """what is unpacked in one step"""
        it, N, chk, q = self.it, self.N, self.chk, self.q
        item = {}
        bad = False
        for e, env in evl[:-1]:
            if e.kind == 'store' and e.idx == (I(0),):
                k = tuple(e.leaf[1:])
                bad |= k in item
                item[k] = fill(N, e.val, env)
            elif e.kind == 'push' and not item:
                item = dict(leaves(fill(N, e.val, env)))
            elif e.kind == 'vclear' and not item:
                pass
            else:
                bad = True
        # length of the work list when it is first looked at
        ln = [(e, o) for e, o in it.phiops[r.len].items() if e[0] not in r.body]
        for e, o in ln:
            st = it.incoming[r.head].get(e)
            o = N.nf(o)
            f = q.facts(st.facts) if st else {}
            if not (o is I(1) or f.get(eq(sub(o, I(1)), I(0))) is True):
                bad = True
        if not chk.ob(not bad and bool(item), RW, at, 'the work list starts with the incoming edge' if not bad and item else 'the work list does not start with a single edge'):
            return
        if r.stage:
            item = {k: self.asnoted(r.stage, v) for k, v in item.items()}
        t = None
        for k, x in comps.items():
            v = item.get(k)
            if v is None:
                continue
            er = self.edgeref(v)
            if er:
                t = er
            elif r.tags and any(True for tf, l in r.tags):
                for tf, l in r.tags:
                    if all(item.get([k2 for k2, y in comps.items() if y is c][0]) is B(vv) for c, vv in tf.items()) and v.op != 'b' and self.state(v, s.inc, w):
                        t = (l, v)
        ok = t is not None and t[0] == self.E[s.dir] and self.state(t[1], s.inc, w)
        if not chk.ob(ok, RW, at, 'the incoming edge of the node is unpacked' if ok else 'the edge unpacked is not the incoming edge of the node'):
            return
        if r.startc is not None:
            v = item.get(r.startc)
            ok = v is not None and (self.startok(t, v) or (s.dir == 'in' and v is w) or (s.dir == 'out' and (self.state(v, s.parent, w) or self.farend(v, s, w))))
            chk.ob(ok, RW, at, 'the edge is put down with its start' if ok else 'the edge is put down with a node that is not its start')

    # ---- labels
    def labels(self):
        it, N, chk, q = self.it, self.N, self.chk, self.q
        G = goals(q)
        for s in q.sides:
            incs = [e for e in q.store if q.skey[id(e)] == s.inc]
            pars = [e for e in q.store if q.skey[id(e)] == s.parent]
            okinc, okpar = set(), set()
            for st in s.labels:
                n, v = q.idx(st)[0], N.nf(st.val)
                if q.listpair(v, n):
                    winc, wpar = {MAX}, None
                else:
                    winc, wpar = set(), set()
                    f = q.facts(st.facts)
                    if v.op == 'sadd' and len(v.a) == 2:
                        for x, y in (v.a, v.a[::-1]):
                            e = q.edge(y)
                            if e is not None and e[0] == self.E[s.dir]:
                                winc.add(e[2])
                                wpar |= set(q.topof(s, x, f))
                for what, stores, want, okset in (('incoming edge', incs, winc, okinc), ('parent', pars, wpar, okpar)):
                    mine = [e for e in stores if q.idx(e) == (n,) and (want is None or N.nf(e.val) in want) and q.same_round(st, e)]
                    okset.update(id(e) for e in mine)
                    if want is None:
                        continue
                    h = hits(it, [st], mine, G + [st])
                    bef = hits(it, [('node', it.entry)] + [e for e in G if e.kind == 'hpop'] + [st], mine, [st])
                    good = bool(mine) and (not h or not bef)
                    chk.ob(good, RP, where(it, st), 'the %s is stored with the label' % what if good else 'the label is set without storing the %s it comes from' % what)
            for what, stores, okset in (('incoming edge', incs, okinc), ('parent', pars, okpar)):
                for e in stores:
                    chk.ob(id(e) in okset, RP, where(it, e), 'it belongs to a label set there' if id(e) in okset else 'the %s changes without the label' % what)


class Inner:
    pass


class Stage:
    pass


def is_len(t, o, head):
    return t.op == 'phi' and t.a[0] == head and t.a[1][0] == 'm' and rootobj(t.a[1][1]) is o and t.a[1][2] == ('#len',)


def it_heads(it):
    c = it.__dict__.get('_heads')
    if c is None:
        c = it._heads = [n for n in live(it) if natural(it, n)]
    return c


def unturned(m):
    while m.op == 'rev':
        m = m.a[0]
    return m


def memobj(N, m):
    m = memname(unturned(m))
    return None if m is None else rootobj(N.nf(m[0]))


def c06(chk):
    fields = {k: accessor(chk.prog, 'get_' + k) for k in ('source', 'target', 'nodes')}
    for root in (MULTI, SINGLE):
        r = Route(chk, root)
        chk.units.add(root)
        r.labels()
        for e in r.q.some:
            r.result(e, fields)
    rules_prep.link(chk)
    rules_prep.middle(chk)
    chk.floor(rules_prep.LK, 20, 'two directions for both ways of building')
    chk.floor(RU, 10, 'two walks for both entry points')
    chk.floor(RP, 8, 'two starts and two relaxations for both entry points')
