"""C20: every loop makes progress."""
from terms import *
from interp import known
from graph import *
from evgraph import *
from norm import norm, rebuild
from base import Fail
import loops

INFINITE = ('repeat', 'cycle', 'from_fn', 'successors', 'repeat_with', 'Repeat', 'Cycle', 'FromFn', 'Successors')


def sccs(nodes, succ):
    """strongly connected components with at least one edge"""
    idx, low, onst, st, cnt, out = {}, {}, set(), [], 0, []
    for root in nodes:
        if root in idx:
            continue
        work = [(root, iter(succ(root)))]
        idx[root] = low[root] = cnt
        cnt += 1
        st.append(root)
        onst.add(root)
        while work:
            v, itr = work[-1]
            for w in itr:
                if w not in idx:
                    idx[w] = low[w] = cnt
                    cnt += 1
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(succ(w))))
                    break
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in succ(v):
                        out.append(c)
    return out


class Term:
    def __init__(self, it):
        self.it = it
        self.N = norm(it)
        self.byphi = {}
        for ph in it.phiops:
            self.byphi.setdefault(ph.a[0], []).append(ph)
        self.used = {}
        self.failed = []
        self.loops = 0

    # ------------------------------------------------------------ driver
    def run(self):
        it = self.it
        nodes = live(it)
        alive = set(nodes)
        E = {(n, i): t for n in nodes for i, (t, _) in enumerate(it.succs[n]) if t in alive}
        work = [(set(nodes), E)]
        first = True
        while work:
            nodes, E = work.pop()
            sc = {}
            for (n, i), t in E.items():
                sc.setdefault(n, []).append(t)
            for c in sccs(sorted(nodes), lambda n: sc.get(n, ())):
                cs = set(c)
                ce = {e: t for e, t in E.items() if e[0] in cs and t in cs}
                self.loops += 1
                cut = None
                for nm, m in (('a finite input is consumed', self.opaque), ('a counter runs towards a fixed bound', self.counting), ('a stored weight strictly decreases', self.labels), ('a queue shrinks', self.queues), ('no round is possible without progress', self.infeasible), ('a route is walked back towards its root', self.parents), ('a shortcut is replaced by edges of lower nodes', self.stack)):
                    self.cs, self.ce = cs, ce
                    r = m(cs, ce)
                    if r:
                        cut = r
                        self.used.setdefault(nm, []).append(min(cs))
                        break
                if cut is None:
                    self.failed.append(cs)
                    continue
                work.append((cs, {e: t for e, t in ce.items() if e not in cut}))
        return not self.failed

    # ------------------------------------------------------------ helpers
    def looping(self):
        """nodes that can be executed more than once"""
        if not hasattr(self, '_looping'):
            it = self.it
            alive = set(live(it))
            self._looping = {n for c in sccs(sorted(alive), lambda n: [t for t, _ in it.succs[n] if t in alive]) for n in c}
        return self._looping

    def invariant(self, t, cs):
        for x in subterms(self.N.nf(t)):
            if x.op == 'phi' and x.a[0] in cs:
                return False
            if x.op in ('ev', 'obj') and x.a and x.a[0] in cs:
                return False
        return True

    def estate(self, e):
        t = self.it.succs[e[0]][e[1]][0]
        return self.it.incoming[t].get(e)

    def events(self, cs, *kinds):
        for n in sorted(cs):
            for e in self.it.events[n]:
                if e.kind in kinds:
                    yield e

    def after(self, e, ce):
        """edges of the component that are taken after the event happened"""
        n = e.nid
        r = set()
        for (m, i) in ce:
            if m != n:
                continue
            st = self.estate((m, i))
            if st is None or all(st.facts.get(c, v) is v for c, v in e.facts.items()):
                r.add((m, i))
        return r

    # ------------------------------------------------------------ measures
    def opaque(self, cs, ce):
        cut = set()
        for e in self.events(cs, 'onext'):
            s = show(e.iter, 6)
            if any(w in s for w in INFINITE):
                continue
            for x in self.after(e, ce):
                f = self.estate(x).facts
                if f.get(mk('is', e.item, 'Ok')) is False:
                    continue
                cut.add(x)
        return cut

    def counting(self, cs, ce):
        it = self.it
        cut = set()
        done = set()
        for n in sorted(cs):
            for ph in self.byphi.get(n, ()):
                if ph in done:
                    continue
                if ph in self.N.res and self.N.res[ph].op != 'lin' and not (self.N.res[ph].op == 'phi' and self.N.res[ph].a[0] == n):
                    continue
                d = loops.induction(it, ph)
                if d is None:
                    continue
                done |= d.scc
                if any(e in ce for _, e, _ in d.inits):
                    continue
                st = [s for s in d.steps if s[1] in ce]
                if not st:
                    continue
                sg = {s[3] > 0 for s in st}
                if len(sg) != 1:
                    continue
                up = sg.pop()
                if all(self.guarded(cs, ce, d, s, up) for s in st):
                    cut |= {s[1] for s in st}
        return cut

    def chosen(self, b):
        """the bound is a number that the caller passes in (directly or in a plain record of numbers): it may be as large as a number can be"""
        it = self.it
        args = it.body(it.ctxs[it.nodes[it.entry][0]][2]).locals
        for x in subterms(self.N.nf(b)):
            if x.op != 'init':
                continue
            a, *rest = x.a[0].split('.')
            if a[:1] != 'a' or not a[1:].isdigit():
                continue
            t = args[int(a[1:]) + 1]
            while t is not None:
                y = it.ty(t)
                while y['k'] in ('ref', 'ptr'):
                    t = y['t']
                    y = it.ty(t)
                if not rest:
                    if y['k'] in ('uint', 'int', 'float'):
                        return True
                    break
                vs = y.get('variants') if y['k'] == 'adt' and y['ak'] == 'struct' else None
                f = rest.pop(0)
                t = next((g['t'] for g in vs[0]['f'] if g['n'] == f and g['pub']), None) if vs else None
        return False

    def sized(self, cs, d):
        """the rounds fill a list or visit its entries: their number is bounded by memory"""
        for e in self.events(cs, 'push', 'load', 'store'):
            if e.kind == 'push':
                o = self.objkey(e)
                if not any(self.objkey(w) is o for w in self.events(cs, 'vpop', 'vtrunc', 'vclear')):
                    return True
            elif any(x in d.scc for i in e.idx for x in subterms(i)):
                return True
        return False

    def bound(self, cs, ce, b, up):
        """the bound does not move away while the loop runs"""
        if self.invariant(b, cs):
            return True
        x, o = loops.base_off(b)
        if x is None:
            return False
        d = loops.induction(self.it, x)
        if d is None or any(e in ce for _, e, _ in d.inits):
            return False
        return all((s[3] < 0) == up for s in d.steps if s[1] in ce)

    def guarded(self, cs, ce, d, s, up):
        st = self.it.incoming[s[0]].get(s[1])
        for c, v in st.facts.items():
            if c.op == 'lt':
                x, y = c.a
                if not v:
                    continue
                if not up:
                    x, y = y, x
                b, o = loops.base_off(x)
                if b in d.scc and self.bound(cs, ce, y, up) and (self.sized(cs, d) or not self.chosen(y)):
                    return True
            elif c.op == 'eq':
                for x, y in (c.a, c.a[::-1]):
                    b, o = loops.base_off(x)
                    if b in d.scc and (v or abs(s[3]) == 1) and self.invariant(y, cs) and (self.sized(cs, d) or not self.chosen(y)):
                        return True
            elif c.op == 'hastok' and v:
                b, o = loops.base_off(c.a[2])
                if b in d.scc and self.invariant(c.a[1], cs):
                    return True
        return False

    def objkey(self, e):
        o = self.N.nf(e.obj)
        return rootobj(o)

    def queues(self, cs, ce):
        """a queue or stack that is only emptied"""
        cut = set()
        for e in self.events(cs, 'hpop', 'vpop'):
            o = self.objkey(e)
            bad = [w for w in self.events(cs, *WRITES) if isinstance(w.d.get('obj'), T) and self.objkey(w) is o and w.kind not in ('hpop', 'vpop', 'qchange', 'hclear', 'vclear', 'vtrunc') and not (w.kind == 'store')]
            if o.op == 'phi':
                continue
            if not bad:
                cut |= self.after(e, ce)
        return cut

    def lval(self, e):
        """the value a store replaces"""
        return self.N.nf(self.it.ldmem(None, self.N.nf(e.old), tuple(self.N.nf(i) for i in e.idx)))

    def decreasing(self, e, cs):
        """a store that strictly lowers what is stored (entries that are not marked valid count as the largest weight)"""
        N, it = self.N, self.it
        v = N.nf(e.val)
        idx = tuple(N.nf(i) for i in e.idx)
        old = self.lval(e)
        for c, tr in e.facts.items():
            c, tr = N.fact(c, tr)
            if c.op != 'lt' or not tr or c.a[0] is not v:
                continue
            ok = True
            for x, f in loops.alts(it, c.a[1], e.facts):
                x = N.nf(x)
                if x is old:
                    continue
                if x is MAX and self.marked(e, idx, N.facts(f), cs):
                    continue
                ok = False
                break
            if ok:
                return True
        return False

    def marked(self, e, idx, f, cs):
        """the entry was not valid, and it is marked valid together with this store"""
        N, it = self.N, self.it
        for s in self.events(cs, 'store'):
            if s is e or tuple(N.nf(i) for i in s.idx) != idx:
                continue
            v = N.nf(s.val)
            o = self.lval(s)
            if f.get(eq(o, v)) is not False:
                continue
            if not self.invariant(v, cs):
                continue
            # only marked with this value
            k = self.objkey(s)
            if any(N.nf(w.val) is not v for w in self.events(cs, 'store') if self.objkey(w) is k and w.leaf == s.leaf and hits(it, [s], (), [w])):
                continue
            if hits(it, [e], [s], [e]):
                continue
            return True
        return False

    def labels(self, cs, ce):
        groups = {}
        for e in self.events(cs, 'store'):
            if e.d.get('old') is None:
                continue
            groups.setdefault((self.objkey(e), e.leaf), []).append(e)
        cut = set()
        for (o, leaf), es in groups.items():
            if es[0].val.op == 'b':
                continue
            if all(self.decreasing(e, cs) for e in es):
                others = [w for w in self.events(cs, *WRITES) if w.kind not in ('store',) and isinstance(w.d.get('obj'), T) and self.objkey(w) is o]
                if others:
                    continue
                for e in es:
                    cut |= self.after(e, ce)
        return cut

    # ------------------------------------------------------------ paths
    def subst(self, t, env):
        m = {}
        N = self.N
        work = [(N.nf(t), False)]
        root = work[0][0]
        while work:
            x, done = work.pop()
            if x in m:
                continue
            if x in env:
                m[x] = env[x]
                continue
            kids = []
            from norm import collect
            if x.op in ('i', 'b', 's', 'init', 'obj', 'ev', 'phi') or not x.a:
                m[x] = x
                continue
            collect(x.a, kids)
            if not kids:
                m[x] = x
                continue
            if not done:
                work.append((x, True))
                work.extend((k, False) for k in kids if k not in m)
                continue
            m[x] = x if all(m[k] is k for k in kids) else rebuild(x, m)
            if m[x].op == 'discr' and m[x].a[0].op == 'agg':
                # the case of an enum that is known
                y = self.it.ty(m[x].a[1])
                for vv, dd in zip(y.get('variants', ()), y.get('discr', ())):
                    if vv['n'] == m[x].a[0].a[1]:
                        m[x] = I(dd)
                        break
        return m[root]

    def infeasible(self, cs, ce):
        """every round through the head contradicts itself"""
        sc = {}
        for e, t in ce.items():
            sc.setdefault(e[0], []).append((e, t))
        for head in sorted(cs):
            rest = cs - {head}
            if len(cs) > 1 and sccs(sorted(rest), lambda n: [t for e, t in sc.get(n, ()) if t != head]):
                continue
            r = self.nopath(cs, sc, head)
            if r:
                return {e for e, t in ce.items() if t == head}
        return None

    def nopath(self, cs, sc, head):
        it, N = self.it, self.N
        base = {}
        for c, v in it.instate[head].facts.items():
            c, v = N.fact(c, v)
            base[c] = v
        work = [(head, base, {})]
        cnt = 0
        while work:
            n, facts, env = work.pop()
            cnt += 1
            if cnt > 4000:
                return False
            for e, t in sc.get(n, ()):
                st = self.estate(e)
                f = dict(facts)
                ok = True
                s0 = it.instate[n].facts
                for c, v in st.facts.items():
                    if s0.get(c) is v and n != head:
                        pass
                    c2, v2 = N.fact(c, v)
                    c2 = self.subst(c2, env)
                    if c2.op == 'not':
                        c2, v2 = c2.a[0], not v2
                    if c2.op == 'b':
                        if c2.a[0] != v2:
                            ok = False
                            break
                        continue
                    if f.get(c2, v2) is not v2:
                        ok = False
                        break
                    f[c2] = v2
                for c, v in f.items() if ok else ():
                    if c.op in ('and', 'or'):
                        a, b = known(f, c.a[0]), known(f, c.a[1])
                        if c.op == 'or':
                            a, b = None if a is None else not a, None if b is None else not b
                        # the conjunction of both
                        w = v if c.op == 'and' else not v
                        if w and (a is False or b is False) or not w and a and b:
                            ok = False
                            break
                if not ok:
                    continue
                if t == head:
                    return False
                e2 = dict(env)
                for ph in self.byphi.get(t, ()):
                    o = it.phiops[ph].get(e)
                    if o is not None:
                        e2[ph] = self.subst(o, env)
                work.append((t, f, e2))
        return True

    # ------------------------------------------------------------ special structures
    def parents(self, cs, ce):
        return parents(self, cs, ce)

    def stack(self, cs, ce):
        return stack(self, cs, ce)


def parents(self, cs, ce):
    """a walk along parent links; every link was stored together with a strictly smaller weight than before"""
    it, N = self.it, self.N
    cut = set()
    for n in sorted(cs):
        for ph in self.byphi.get(n, ()):
            if ph in N.res and not (N.res[ph].op == 'phi' and N.res[ph].a[0] == n):
                continue
            ops = [(e, N.nf(o)) for e, o in it.phiops[ph].items() if e in ce]
            ops = [(e, o) for e, o in ops if o is not ph]
            if not ops or not all(o.op == 'ld' and o.a[1] == (ph,) for e, o in ops):
                continue
            ok = True
            for e, o in ops:
                if not self.links(o.a[0]):
                    ok = False
            if ok:
                cut |= {e for e, o in ops}
    return cut


def memname(m):
    """(object, leaf) a memory term belongs to"""
    x = m
    seen = set()
    while True:
        if x.op == 'phi' and x.a[1][0] == 'm':
            return x.a[1][1], x.a[1][2]
        if x.op in ('st', 'stv') or x.op == 'view':
            x = x.a[0]
            continue
        if x.op == 'm0':
            return x.a[0], x.a[1]
        return None


def links(self, m):
    it, N = self.it, self.N
    nm = memname(m)
    if nm is None:
        return False
    allc = self.looping()
    ps, made = [], []
    for n in live(it):
        last = None
        for e in it.events[n]:
            if e.kind == 'push':
                last = e
            elif e.kind == 'store' and self.objkey(e) is rootobj(N.nf(nm[0])) and e.leaf == nm[1]:
                # what an appended element starts with
                (made if last is not None and last.sp == e.sp and self.objkey(last) is self.objkey(e) else ps).append(e)
    if not ps:
        return False
    if made and hits(it, ps, (), made):
        return False
    for e in ps:
        idx = tuple(N.nf(i) for i in e.idx)
        # the weight that is stored with it
        good = False
        for l in evs(it, 'store'):
            if l is e or l.leaf == e.leaf or tuple(N.nf(i) for i in l.idx) != idx or l.d.get('old') is None:
                continue
            if l.val.op == 'b' or not self.decreasing(l, allc):
                continue
            if hits(it, [e], [l], [e]) or hits(it, [l], [e], [l]):
                continue
            p, w = N.nf(e.val), N.nf(l.val)
            if (p,) == idx:
                good = True
            elif p.op == 'proj' and p.a[0].op == 'htop':
                src = p.a[0]
                ts = w.a if w.op == 'sadd' else (w,)
                if any(t.op == 'proj' and t.a[0] is src for t in ts):
                    good = True
            if good:
                break
        if not good:
            return False
    return True


Term.links = links


def stack(self, cs, ce):
    """a work list: each popped entry is replaced by edges that its edge names as its two replaced edges"""
    it, N = self.it, self.N
    pops = list(self.events(cs, 'vpop'))
    cut = set()
    for p in pops:
        o = self.objkey(p)
        if o.op == 'obj' and o.a[0] in cs:
            # a new list every round says nothing about the rounds
            continue
        push = [w for w in self.events(cs, *WRITES) if isinstance(w.d.get('obj'), T) and self.objkey(w) is o and w.kind not in ('vpop', 'store')]
        if any(w.kind != 'push' for w in push):
            continue
        if all(self.replaced(w, p) for w in push):
            cut |= self.after(p, ce)
    return cut


def fieldreads(self, v, o):
    """fields read from the entry popped off the work list o, as (field, entry)"""
    N = self.N
    for x in subterms(v):
        f = y = None
        if x.op == 'proj' and x.a[0].op == 'deref':
            f, y = x.a[1], x.a[0].a[0]
        elif x.op == 'ld' and len(x.a[1]) == 1 and memname(x.a[0]):
            f, y = (memname(x.a[0])[1] or ('',))[-1], x.a[1][0]
        if f is None or not isinstance(f, str):
            continue
        for z in subterms(y):
            if z.op == 'ld' and memname(z.a[0]) and rootobj(N.nf(memname(z.a[0])[0])) is o:
                yield f, y
                break


def replaced(self, w, p):
    """the pushed entry is an edge named by the popped edge, which is known not to be an original edge"""
    N = self.N
    o = self.objkey(p)
    fs = set(fieldreads(self, N.nf(w.val), o))
    for c, v in w.facts.items():
        c, v = N.fact(c, v)
        if c.op == 'eq' and v is False and MAX in c.a:
            for g, y in fieldreads(self, c.a[0] if c.a[1] is MAX else c.a[1], o):
                if any(f not in NODEFIELDS and y2 is y for f, y2 in fs):
                    return True
    return False


NODEFIELDS = ('base_node', 'adj_node', 'weight')
Term.replaced = replaced


def describe(it, cs):
    b = {}
    for n in sorted(cs):
        bd = it.body(it.ctxs[it.nodes[n][0]][2])
        if bd.j['fn']['crate'] == it.D['crate']:
            sp = bd.blocks[it.nodes[n][1]]['t'].get('fsp') or ''
            b.setdefault(bd.path, []).append(sp)
    return '; '.join('%s %s' % (k, next((s for s in v if s), '')) for k, v in list(b.items())[:3])


def c20(chk):
    p = chk.prog
    R = 'every loop makes progress'
    covered = set()
    bad = set()
    for r in p.public():
        it = p.run(r['path'])
        t = Term(it)
        t.run()
        chk.units.add(r['path'])
        for n in live(it):
            covered.add((it.ctxs[it.nodes[n][0]][2], it.nodes[n][1]))
        for nm, hs in t.used.items():
            for h in hs:
                chk.ob(True, R, '%s (node %d)' % (r['path'], h), nm)
        for cs in t.failed:
            d = describe(it, cs)
            chk.ob(False, R, d, 'no progress measure is known for this loop (analysed from %s)' % r['path'])
        for f, sp in it.recursions:
            chk.ob(False, R, '%s (%s)' % (f, sp), 'recursion')
