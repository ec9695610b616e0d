"""C01: a query does not depend on earlier queries of the calculator."""
from terms import *
from graph import *
from evgraph import *
from norm import norm
from base import Fail
import loops
from rules_term import memname
from rules_query import Query, MULTI, SINGLE, leaves, joint, sumok, retval

NEW = 'path_calculator::PathCalculator::new'

R1 = 'the queues are emptied before they are used'
R2 = 'all marks of earlier queries are outdated before the first node is marked'
R3 = 'a mark is never set without setting all values it stands for'
R4 = 'values of a node are only read if it was marked by this query'
R5 = 'marks are only compared with the mark of this query'
R6 = 'nothing else that survives a query is looked at'
R7 = 'a new calculator has no marked nodes'


def persistent(o):
    """part of the calculator (or possibly part of it)"""
    o = rootobj(o)
    if o.op == 'init':
        return o.a[0].startswith('a0')
    return o.op == 'phi' and o.a[1][0] == -1 and o.a[1][1] == 'a0'


def oname(q, o):
    """names of the persistent fields an object may be"""
    o = rootobj(o)
    return {rootobj(x).a[0] for x in expand(q.it, o) if rootobj(x).op == 'init'}


class Reuse:
    def __init__(self, chk, q):
        self.chk, self.q, self.it, self.N = chk, q, q.it, q.N
        self.keys = {}
        for s in q.sides:
            self.keys[s.flag] = ('flag', s)
            for k in s.leafkeys:
                self.keys[k] = ('leaf', s)
        self._base = {}

    def key(self, m):
        nm = memname(m)
        if nm is None:
            return None
        return rootobj(self.N.nf(nm[0])), nm[1]

    def stale(self, m):
        """contents from before the query may be part of the memory m"""
        seen = set()
        work = [m]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'm0':
                if persistent(x.a[0]):
                    return True
            elif x.op == 'phi':
                ops = self.it.phiops.get(x)
                if ops is None:
                    return persistent(x.a[1][1]) if x.a[1][0] in ('m',) else True
                work.extend(ops.values())
            elif x.op == 'init':
                if x.a[0].startswith('a0'):
                    return True
            elif x.op in ('st', 'stv', 'view'):
                work.append(x.a[0])
            elif x.op in ('hpush', 'hpop', 'lin', 'hadd', 'hrem'):
                work.extend(y for y in subterms(x) if y is not x)
        return False

    # ---------------------------------------------------------------- O1
    def queues(self):
        from rules_mem import emptied
        q, it = self.q, self.it
        for s in q.sides:
            if not persistent(s.heap):
                self.chk.ob(True, R1, '%s (%s queue)' % (q.root, s.name), 'the queue is created by the query')
                continue
            names = oname(q, s.heap)
            clr, ec = emptied(it, self.N, q, names)
            use = [e for e in evs(it, 'hpush', 'hpop') if rootobj(self.N.nf(e.obj)) is s.heap]
            h, _, _ = walk(it, [('node', it.entry)], clr, use, ec)
            self.chk.ob(not h, R1, '%s (%s queue)' % (q.root, s.name), 'the queue may hold entries of an earlier query at %s' % where(it, h[0]) if h else 'cleared on every path to its first use')

    # ---------------------------------------------------------------- O2
    def marks(self):
        q, it, N = self.q, self.it, self.N
        self.gens = set()
        for s in q.sides:
            F, leaf = s.flag
            w = '%s (%s marks)' % (q.root, s.name)
            fstores = [st for st in q.store if q.skey[id(st)] == s.flag and N.nf(st.val) is s.gen]
            floads = [e for e in evs(it, 'load') if (rootobj(N.nf(e.obj)), e.leaf) == s.flag]
            gens, res = [], []
            for g, Fo, mem, f in self.scheme(s, fstores + floads):
                r = self.outdated(s, g, Fo, mem, f, gens, leaf)
                res.append(r)
                self.chk.ob(r is None, R2, w, r or 'a new mark, or all marks reset')
            # the new mark is in place before the first node is marked
            names = {x for x in gens}
            self.gens |= names
            if names:
                first = [e for e in evs(it, 'setp') if self.sname(e) in names]
                vals = {N.nf(v) for v in self.exp(s.gen)} | {s.gen}
                for e in first:
                    self.chk.ob(N.nf(e.val) in vals, R2, where(it, e), 'only ever set to the mark of this query' if N.nf(e.val) in vals else 'the mark is changed in another way')
                h = hits(it, [('node', it.entry)], first, fstores)
                self.chk.ob(not h, R2, w, 'a node is marked at %s before the new mark is recorded in the calculator' % where(it, h[0]) if h else 'the new mark is recorded before it is used')
            # new calculators
            self.fresh(s, names, leaf, w)

    def exp(self, t):
        return expand(self.it, t)

    def sname(self, e):
        if e.root[1] != 'a0':
            return None
        return 'a0.' + '.'.join(str(x[1]) for x in e.steps)

    def scheme(self, s, uses):
        """alternatives of (mark, object of the marks, their contents, facts)"""
        it, N, q = self.it, self.N, self.q
        F, leaf = s.flag
        out = []
        work = [(s.gen, F, None, None)]
        seen = set()
        while work:
            g, Fo, mem, f = work.pop()
            if (g, Fo) in seen:
                continue
            seen.add((g, Fo))
            ps = [x for x in (g, Fo) if x.op == 'phi' and x in it.phiops]
            if not ps:
                if mem is None:
                    ms = set()
                    for e in uses:
                        if e.kind == 'load':
                            ms |= self.bases(e.mem)
                        else:
                            ms |= self.bases(e.old)
                    for m in ms:
                        out.append((g, Fo, m, {}))
                else:
                    for m in self.bases(mem):
                        out.append((g, Fo, m, f))
                continue
            n = ps[0].a[0]
            if len(ps) > 1 and ps[1].a[0] != n:
                n = n if dominates(it, {ps[1].a[0]}, n) else ps[1].a[0]
            ed = set()
            for x in ps:
                if x.a[0] == n:
                    ed |= set(it.phiops[x])
            for e in sorted(ed):
                st = it.incoming[n].get(e)
                if st is None:
                    continue
                g2 = N.nf(it.phiops[g].get(e, g)) if g in ps and g.a[0] == n else g
                F2 = N.nf(it.phiops[Fo].get(e, Fo)) if Fo in ps and Fo.a[0] == n else Fo
                m2 = it.memget_raw(st, (F2, leaf))
                work.append((g2, rootobj(F2), m2 if m2 is not None else mk('m0', F2, leaf), st.facts))
        return out

    def bases(self, m):
        """what the contents were before the query changed single entries"""
        out, seen, work = set(), set(), [m]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op in ('st', 'stv'):
                work.append(x.a[0])
            elif x.op == 'phi' and x in self.it.phiops:
                work.extend(self.it.phiops[x].values())
            else:
                out.add(x)
        return out

    def swept(self, s, Fo, f):
        """a loop has just stored the same constant for all nodes"""
        it, N, q = self.it, self.N, self.q
        for nm in [mk('ld', mk('m0', Fo, ('#len',)), ())]:
            for d, k in loops.exhausted(it, f, nm):
                if k != 1:
                    continue
                sts = [st for st in q.store if q.skey[id(st)] == s.flag and N.nf(st.val).op == 'i' and len(st.idx) == 1 and N.nf(st.idx[0]) in d.scc]
                if len({N.nf(st.val) for st in sts}) != 1:
                    continue
                p = passedges(it, [('node', x[0]) for x in d.steps] , sts)
                if not any(x[1] in p for x in d.steps):
                    return N.nf(sts[0].val)
        return None

    def outdated(self, s, g, Fo, mem, f, gens, leaf):
        """no entry of mem equals g, now and for later queries"""
        N = self.N
        f = N.facts(f)
        if mem.op == 'm0':
            c = self.swept(s, Fo, f)
            if c is not None:
                mem = mk('fill', c)
        if mem.op == 'fill':
            c = N.nf(mem.a[0])
            if c.op == 'i' and g.op == 'i':
                if c.a[0] < g.a[0]:
                    return None
                return 'the reset marks are not below the mark of the query'
            if c.op == 'b' and g.op == 'b':
                return None if c is not g else 'all nodes are marked at the start'
        old, d = None, None
        if g.op == 'lin' and len(g.a[1]) == 1 and g.a[1][0][1] == 1 and g.a[1][0][0].op == 'init':
            old, d = g.a[1][0][0], g.a[2]
        if old is None or not old.a[0].startswith('a0') or d != 1:
            if mem.op == 'm0' and persistent(mem.a[0]):
                return 'marks of earlier queries remain valid'
            return 'the mark of the query is neither a new number nor are all marks reset'
        gens.append(old.a[0])
        if mem.op == 'fill':
            # numbers from 1 on are never equal to the reset value unless they wrap
            c = N.nf(mem.a[0])
            if c.op != 'i' or c.a[0] != 0:
                return 'the reset marks may equal the mark of the query'
        w = g.a[0]
        if w < 64:
            mx = I((1 << w) - 1)
            if not (f.get(eq(old, mx)) is False or f.get(lt(old, mx)) is True or f.get(eq(g, I(0))) is False or self.bounded(old, mx, f)):
                return 'the mark wraps around after %d queries, and marks of earlier queries become valid again' % (1 << w)
        return None

    def bounded(self, old, mx, f):
        for c, v in f.items():
            if c.op == 'lt' and v is True and c.a[0] is old and c.a[1].op == 'i':
                return True
            if c.op == 'eq' and v is False and old in c.a and any(x.op == 'i' for x in c.a):
                # the number never gets beyond this value
                k = next(x for x in c.a if x.op == 'i').a[0]
                x = self.field(retval(self.chk.prog, NEW), old.a[0])
                al = [h for s2 in self.q.sides for h in self.exp(s2.gen)]
                if x is not None and x.op == 'i' and x.a[0] <= k and all(self.N.nf(h).op != 'i' or self.N.nf(h).a[0] <= k for h in al):
                    return True
            if c.op == 'lt' and v is False and c.a[1] is old and c.a[0].op == 'i' and c.a[0].a[0] < mx.a[0]:
                return True
        return False

    def field(self, v, nm):
        x = v
        for p in nm.split('.')[1:]:
            if x.op != 'agg':
                return None
            d = dict(x.a[2])
            if p not in d:
                return None
            x = d[p]
        return x

    def fresh(self, s, names, leaf, w):
        """marks and mark number of a new calculator"""
        prog = self.chk.prog
        v = retval(prog, NEW)
        it2 = prog.run(NEW)
        N2 = norm(it2)

        def field(nm):
            return self.field(v, nm)
        F, lf = s.flag
        fn = oname(self.q, F)
        if not fn:
            return
        e = [x for x in evs(it2, 'return')][0]
        for nm in fn:
            o = field(nm)
            vals = self.initvals(it2, N2, e, o, lf) if o is not None else None
            if vals is None:
                self.chk.ob(False, R7, NEW + ' (%s)' % s.name, 'the initial marks are not known')
                continue
            if not names:
                self.chk.ob(True, R7, NEW + ' (%s)' % s.name, 'the marks are reset by every query')
                continue
            for gn in names:
                g0 = field(gn)
                ok = g0 is not None and N2.nf(g0).op == 'i' and all(x.op == 'i' and x.a[0] <= N2.nf(g0).a[0] for x in vals)
                self.chk.ob(ok, R7, NEW + ' (%s)' % s.name, 'no initial mark can equal the mark of a query' if ok else 'nodes of a new calculator may count as marked')

    def initvals(self, it2, N2, e, o, lf):
        st = e.d.get('state')
        o = rootobj(o)
        out = set()
        for n in live(it2):
            m = it2.instate[n].mem.get((o, None))
            if m is not None:
                if m.op == 'fillobj':
                    out.add(N2.nf(it2.projpath(m.a[0], lf[1:])))
                elif m.op != 'empty':
                    return None
        for x in evs(it2, 'store'):
            if rootobj(N2.nf(x.obj)) is o and x.leaf == lf:
                out.add(N2.nf(x.val))
        return out or None

    # ---------------------------------------------------------------- O3
    def complete(self):
        q, it, N = self.q, self.it, self.N
        pops = [e for s in q.sides for e in s.pops]
        rets = list(evs(it, 'return'))
        loads = list(evs(it, 'load'))
        for s in q.sides:
            for st in q.store:
                if q.skey[id(st)] != s.flag or N.nf(st.val) is not s.gen:
                    continue
                n = q.idx(st)
                for k in sorted(s.leafkeys, key=lambda k: str(k[1])):
                    ks = [x for x in q.store if q.skey[id(x)] == k and q.idx(x) == n]
                    rd = [e for e in loads if (rootobj(N.nf(e.obj)), e.leaf) == k]
                    h = hits(it, [st], ks, pops + rets + rd + [st])
                    b = hits(it, [('node', it.entry), st] + pops, ks, [st])
                    ok = not h or not b
                    self.chk.ob(ok, R3, where(it, st), '%s is set as well' % '.'.join(str(x) for x in k[1][1:]) if ok else 'the node is marked, but its %s may be left over from an earlier query' % '.'.join(str(x) for x in k[1][1:]))

    # ---------------------------------------------------------------- O4
    def valid(self, s, n, f, ev=None, seen=None):
        """node n is marked for side s"""
        q, it, N = self.q, self.it, self.N
        seen = seen if seen is not None else set()
        if q.flagged(s, n, f) is True:
            return True
        if n in {x for w, x in s.tops}:
            return True
        if (n,) in seen:
            return True
        if ev is not None:
            fs = [x for x in q.store if q.skey[id(x)] == s.flag and q.idx(x) == (n,)]
            if fs and not hits(it, [('node', it.entry)] + [e for t in q.sides for e in t.pops], fs, [ev]):
                return True
        r = q.rawlabel(n, lambda s: s.parent)
        if r and r[0] is s:
            return self.valid(s, r[1], f, None, seen)
        if n in self.meet:
            return self.meetvalid(s)
        if n.op == 'phi' and n in it.phiops:
            seen.add((n,))
            for e, x in it.phiops[n].items():
                st = it.incoming[n.a[0]].get(e)
                if st is None:
                    continue
                if not self.valid(s, N.nf(x), q.facts(st.facts), None, seen):
                    return False
            return True
        return False

    def meetvalid(self, s):
        c = self.__dict__.setdefault('_mv', {})
        if s in c:
            return c[s]
        q, N = self.q, self.N
        ok = True
        for W in q.best:
            for M in self.meet:
                for w, m, f, at in joint(q, W, M, lambda w, m, f: w is MAX or sumok(q, w, m, N.facts(f)) is None):
                    f = N.facts(f)
                    if m is MAX or w is MAX:
                        continue
                    if m in {x for _, x in s.tops} or q.flagged(s, m, f) is True:
                        continue
                    nm = 'a2' if s.dir == 'out' else 'a3'
                    if self.listed(m, nm) or any(c2.op == 'eq' and v is True and m in c2.a and any(self.listed(x, nm) for x in c2.a) for c2, v in f.items()):
                        continue
                    if q.label_of(w, s, m, f):
                        continue
                    ok = False
        c[s] = ok
        return ok

    def listed(self, n, nm):
        if n.op == 'ld' and n.a[0].op == 'm0' and n.a[0].a[1] == ('[]', '0') and n.a[0].a[0].op == 'init' and n.a[0].a[0].a[0] == nm:
            return True
        from rules_query import onlyentry
        if n.op == 'ld':
            x = onlyentry(n.a[0])
            return x is not None and x.op == 'init' and x.a[0] == nm
        return n.op == 'init' and n.a[0] == nm and self.q.single

    def reads(self):
        q, it, N = self.q, self.it, self.N
        self.meet = {m for _, m in q.meeting()}
        done = set()
        for e in evs(it, 'load'):
            k = (rootobj(N.nf(e.obj)), e.leaf)
            if not persistent(k[0]):
                continue
            if not self.stale(e.mem):
                continue
            role = self.keys.get(k)
            if role is None:
                self.chk.ob(False, R6, where(it, e), '%s may have been written by an earlier query' % show(k[0]))
                continue
            if role[0] == 'flag':
                continue
            n = q.idx(e)
            ok = len(n) == 1 and self.valid(role[1], n[0], q.facts(e.facts), e)
            self.chk.ob(ok, R4, where(it, e), 'the node is known to be marked' if ok else 'the %s of a node is read that may not have been reached by this query' % '.'.join(str(x) for x in k[1][1:]))
        # the entries of the queues belong to marked nodes, and so do parents
        pops = [e for s in q.sides for e in s.pops]
        rets = list(evs(it, 'return'))
        for s in q.sides:
            for p in s.pushes:
                n = dict(leaves(N.nf(p.item)))[s.fn]
                fs = [x for x in q.store if q.skey[id(x)] == s.flag and q.idx(x) == (n,)]
                ok = not hits(it, [p], fs, pops + rets + [p]) or not hits(it, [('node', it.entry), p] + pops, fs, [p]) or self.valid(s, n, q.facts(p.facts), p)
                self.chk.ob(ok, R4, where(it, p), 'the queued node is marked' if ok else 'a node is queued without being marked')
            for st in q.store:
                if s.parent and q.skey[id(st)] == s.parent:
                    v = N.nf(st.val)
                    ok = v in {x for _, x in s.tops} or (v,) == q.idx(st) or v is MAX
                    self.chk.ob(ok, R4, where(it, st), 'the parent is a marked node' if ok else 'the parent may be a node that was not marked by this query')

    # ---------------------------------------------------------------- O5, O6
    def used(self):
        """terms that influence the course or the result of the query: (term, place)"""
        it, N = self.it, self.N
        loaded = set()
        for e in evs(it, 'load'):
            loaded.add((rootobj(N.nf(e.obj)), e.leaf))
        for n in live(it):
            for i, (t, _) in enumerate(it.succs[n]):
                st = it.incoming[t].get((n, i))
                if st is None:
                    continue
                o = it.instate[n].facts
                for c, v in st.facts.items():
                    if o.get(c) is not v:
                        yield N.nf(c), fnof(it, n)
            for e in it.events[n]:
                if e.kind == 'store':
                    if (rootobj(N.nf(e.obj)), e.leaf) in loaded:
                        yield N.nf(e.val), where(it, e)
                    for x in e.idx:
                        yield N.nf(x), where(it, e)
                elif e.kind == 'load':
                    for x in e.idx:
                        yield N.nf(x), where(it, e)
                elif e.kind == 'hpush':
                    yield N.nf(e.item), where(it, e)
                elif e.kind == 'return':
                    yield N.nf(e.val), where(it, e)

    def rest(self):
        q, it, N = self.q, self.it, self.N
        changed = {}
        for e in evs(it, 'setp'):
            nm = self.sname(e)
            if nm:
                changed.setdefault(nm, e)
        resized = set()
        for e in evs(it, 'vpush', 'vpop', 'vclear', 'vtrunc', 'vresize', 'vinsert', 'vremove', 'vextend'):
            o = e.d.get('obj')
            if isinstance(o, T):
                resized |= oname(q, N.nf(o)) if persistent(N.nf(o)) else set()
        gens = {s.gen for s in q.sides}
        bad = {}
        seen = set()
        fields = set()

        def check(t, at, incmp):
            """incmp: the other side if t is compared for equality"""
            if (t, incmp) in seen:
                return
            seen.add((t, incmp))
            if t.op == 'init':
                if t.a[0].startswith('a0.') and t.a[0] not in self.gens:
                    fields.add(t.a[0])
                    for c in changed:
                        if c == t.a[0] or t.a[0].startswith(c + '.') or c.startswith(t.a[0] + '.'):
                            bad.setdefault((R6, at), '%s is used although queries change it' % t.a[0].split('.', 1)[1])
                return
            if t.op == 'ld':
                k = self.key(t.a[0])
                if k and persistent(k[0]):
                    role = self.keys.get(k)
                    if role and role[0] == 'flag':
                        if incmp is None or N.nf(incmp) is not role[1].gen:
                            if self.stale(t.a[0]):
                                bad.setdefault((R5, at), 'a mark is used for something else than comparing it with the mark of the query')
                    elif k[1] == ('#len',):
                        for nm in oname(q, k[0]):
                            if nm in resized:
                                bad.setdefault((R6, at), 'the length of %s is used although queries change it' % nm)
                    elif role is None and self.stale(t.a[0]):
                        bad.setdefault((R6, at), 'contents of %s may be left over from an earlier query' % show(k[0]))
                for x in t.a[1]:
                    check(x, at, None)
                return
            if t.op == 'phi':
                if t.a[1][0] == 'm' or t.a[1][0] == 'hm':
                    if t.a[1][0] == 'm' and persistent(t.a[1][1]) and (rootobj(N.nf(t.a[1][1])), t.a[1][2]) not in self.keys and self.stale(t) and not self.isqueue(t.a[1][1]):
                        bad.setdefault((R6, at), 'contents of %s may be left over from an earlier query' % show(t.a[1][1]))
                    return
                for o in it.phiops.get(t, {}).values():
                    o = N.nf(o)
                    if o in gens or t in gens:
                        continue
                    check(o, at, None)
                return
            if t.op == 'eq':
                check(t.a[0], at, t.a[1])
                check(t.a[1], at, t.a[0])
                return
            if t in gens:
                return

            def go(a):
                for x in a:
                    if isinstance(x, T):
                        check(x, at, None)
                    elif isinstance(x, tuple):
                        go(x)
            if t.op in ('m0', 'i', 'b', 's', 'obj', 'htop'):
                return
            go(t.a)
        n = 0
        for t, at in self.used():
            n += 1
            check(t, at, None)
        for (r, at), m in bad.items():
            self.chk.ob(False, r, at, m)
        if not any(r == R5 for r, _ in bad):
            self.chk.ob(True, R5, q.root, 'in all conditions, stored values and results')
        if not any(r == R6 for r, _ in bad):
            self.chk.ob(True, R6, q.root, 'of %d conditions, stored values and results none depends on other state; unchanged fields used: %s' % (n, ', '.join(sorted(fields)) or 'none'))

    def isqueue(self, o):
        return any(rootobj(self.N.nf(o)) is s.heap for s in self.q.sides)


def c01(chk):
    for root in (MULTI, SINGLE):
        q = Query(chk, root)
        chk.units.add(root)
        r = Reuse(chk, q)
        r.queues()
        r.marks()
        r.complete()
        r.reads()
        r.rest()
    chk.units.add(NEW)
    chk.floor(R1, 4, 'two queues for both entry points')
    chk.floor(R2, 4, 'marks of both directions')
    chk.floor(R3, 4, 'places that mark nodes')
    chk.floor(R4, 10, 'reads of node values')
