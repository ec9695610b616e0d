"""C18: node orderings."""
from terms import *
from graph import *
from evgraph import *
from norm import norm
from base import Fail
import loops
import re

GNO = 'fast_graph::FastGraph::get_node_ordering'
BP = 'fast_graph_builder::FastGraphBuilder::build_with_params'
BO = 'fast_graph_builder::FastGraphBuilder::build_with_order_with_params'


def find(p, short):
    """a public function by its last path segments"""
    c = [r for r in p.D['roots'] if r['path'] == short or r['path'].endswith('::' + short)]
    if len(c) != 1:
        raise Fail('public function %s not found' % short)
    return c[0]['path']


def objw(it, o, N):
    """events that change the object (normalised)"""
    out = []
    for e in evs(it, *WRITES):
        for k in ('obj', 'h'):
            x = e.d.get(k)
            if isinstance(x, T) and rootobj(N.nf(x)) is o and not (e.kind == 'push' and False):
                out.append(e)
                break
    return out


def fld(v, n):
    if v.op == 'agg':
        for k, x in v.a[2]:
            if k == n:
                return x
    return None


def returns(it, N):
    for e in evs(it, 'return'):
        yield e, N.nf(e.val)


def adtfields(p, suffix):
    for y in p.tys:
        if y['k'] == 'adt' and y['adt'].split('::')[-1] == suffix and y['crate'] == p.D['crate'] and y.get('variants'):
            return [(f['n'], f['t']) for f in y['variants'][0]['f']]
    raise Fail('type %s not found' % suffix)


def okval(v):
    """payload of Ok(..), or the value itself"""
    if v.op == 'agg' and v.a[0] == 'Result':
        return v.a[2][0][1] if v.a[1] == 'Ok' else None
    return v


class Built:
    """a function that builds a prepared graph"""

    def __init__(self, chk, path, rk):
        self.chk, self.path = chk, path
        p = chk.prog
        self.it = it = p.run(path)
        self.N = norm(it)
        chk.units.add(path)
        if it.unknown:
            raise Fail('%s calls unknown code: %s' % (path, list(it.unknown)[:3]))
        self.oks = []
        self.errs = []
        for e, v in returns(it, self.N):
            for a, f in loops.alts(it, v, e.facts):
                w = okval(self.N.nf(a))
                if w is None:
                    self.errs.append((e, f))
                else:
                    self.oks.append((e, f, w))
        if not self.oks:
            raise Fail('%s never returns a graph' % path)

    def nf(self, t):
        return self.N.nf(t)

    def facts(self, f):
        return self.N.facts(f)


def unwrapidx(i):
    return i[0] if isinstance(i, tuple) and len(i) == 1 else i


def c18(chk):
    p = chk.prog
    gpath = find(p, 'FastGraph::get_node_ordering')
    it = p.run(gpath)
    N = norm(it)
    chk.units.add(gpath)
    ranks = None
    for e, v in returns(it, N):
        ranks = inverse(chk, it, N, e, v, gpath)
    rk = ranks
    if rk is None:
        return
    build(chk, find(p, 'FastGraphBuilder::build_with_params'), rk, None)
    build(chk, find(p, 'FastGraphBuilder::build_with_order_with_params'), rk, 'a1')


def inverse(chk, it, N, e, v, gpath):
    """the returned list is the inverse of a field of the graph; returns the field name"""
    R = 'reported ordering is the inverse of the ranks'
    if it.unknown:
        chk.ob(False, R, gpath, 'calls unknown code: %s' % list(it.unknown)[:2])
        return None
    if v.op != 'obj':
        chk.ob(False, R, gpath, 'the returned list is not a list built here')
        return None
    ws = objw(it, v, N)
    fac = N.facts(e.facts)
    d0 = e.mem.get((v, None))
    # form 1: list of the right length, filled by ordering[ranks[i]] = i
    st = [w for w in ws if w.kind == 'store']
    if st and all(w.kind == 'store' for w in ws) and d0 is not None and d0.op == 'fillobj':
        for w in st:
            x = N.nf(w.val)
            ix = N.nf(unwrapidx(w.idx))
            if not (ix.op == 'ld' and ix.a[0].op == 'm0' and ix.a[0].a[0].op == 'init' and ix.a[0].a[1] == ('[]',) or ix.op == 'ld' and ix.a[0].op == 'm0' and ix.a[1]):
                chk.ob(False, R, where(it, w), 'position %s of the list is not the rank of a node' % ix)
                return None
            m = ix.a[0]
            ok = loops.coeq(it, ix.a[1][0], x)
            chk.ob(ok, R, where(it, w), 'the node stored at position ranks[i] is i' if ok else 'node %s is stored at the rank of node %s' % (x, ix.a[1][0]))
            if not ok:
                return None
        ln = N.nf(d0.a[1])
        name = m.a[0].a[0] + '.' + '.'.join(q for q in m.a[1])
        rl = lenof(m)
        ok = same_len(it, ln, rl, fac)
        chk.ob(ok, R, gpath, 'the list has one entry per node' if ok else 'the list has length %s' % ln)
        # every node is visited
        ok2 = False
        for d, k in loops.exhausted(it, fac, rl):
            rd = [s for s in d.steps]
            # each step passes the store with the visited index
            good = True
            for s in rd:
                idx = loops.visited(d, s, k)
                es = [w for w in st if loops.coeq(it, N.nf(w.val), N.nf(idx)) or N.nf(w.val) is N.nf(idx)]
                heads = {x.a[0] for x in d.scc}
                pn = passedges(it, [('node', h) for h in heads], es)
                if s[1] in pn:
                    good = False
            ok2 = ok2 or good
        chk.ob(ok2, R, gpath, 'every node is entered' if ok2 else 'not every node is entered into the list')
        return fieldname(m) if ok and ok2 else None
    # form 2: all node ids sorted by rank
    srt = [w for w in ws if w.kind == 'bulk' and w.d.get('how') == 'sort']
    if len(srt) == 1:
        return sorted_by_rank(chk, it, N, e, v, gpath, ws, srt[0], fac, R)
    chk.ob(False, R, gpath, 'the way the list is built is not recognised')
    return None


def sorted_by_rank(chk, it, N, e, v, gpath, ws, srt, fac, R):
    import small
    pushes = [w for w in ws if w.kind == 'push']
    others = [w for w in ws if w.kind not in ('push', 'bulk', 'store')]
    if others or not pushes:
        chk.ob(False, R, gpath, 'the way the list is built is not recognised')
        return None
    ok = True
    for w in pushes:
        ok = ok and loops.coeq(it, N.nf(w.val), N.nf(w.at))
    chk.ob(ok, R, gpath, 'the sorted list holds the nodes 0, 1, 2, ...' if ok else 'the list that is sorted is not the list of all nodes')
    if not ok:
        return None
    # the key
    import interp
    inst = small.closure_body(chk.prog, srt.clty)
    kt = interp.Interp(chk.prog.D)
    kt.run(inst)
    m = None
    for r in evs(kt, 'return'):
        t = r.val
        if t.op == 'ld' and t.a[0].op == 'm0' and len(t.a[1]) == 1 and t.a[1][0].op == 'init' and str(t.a[1][0].a[0]).startswith('a1'):
            m = t.a[0]
    ok = m is not None and srt.name in ('sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key') and srt.whole and not kt.unknown
    chk.ob(ok, R, where(it, srt), 'the nodes are sorted by their rank' if ok else 'the nodes are not sorted by rank')
    if not ok:
        return None
    name = m.a[0].a[1] if m.a[0].op == 'proj' else fieldname(m)
    flds = [n for n, t in adtfields(chk.prog, 'FastGraph')]
    if name not in flds:
        chk.ob(False, R, where(it, srt), 'the sort key is not a field of the graph')
        return None
    ln = N.nf(srt.n)
    okl = False
    for c, v in fac.items():
        if c.op == 'lt' and not v and (show(c.a[1]) == 'ld(M0[a0.%s.#len],())' % name or show(c.a[1]) == 'a0.num_nodes'):
            for d, k in loops.exhausted(it, fac, c.a[1]):
                heads = {x.a[0] for x in d.scc}
                okl = okl or all(s[1] not in passedges(it, [('node', h) for h in heads], [w for w in pushes if loops.coeq(it, N.nf(w.val), N.nf(loops.visited(d, s, k)))]) for s in d.steps)
    chk.ob(okl, R, gpath, 'every node is in the sorted list' if okl else 'not every node is in the sorted list')
    return name if okl else None


def lenof(m):
    """length term of the list a first-load belongs to"""
    return mk('ld', mk('m0', m.a[0], m.a[1][:-1] + ('#len',)), ())


def fieldname(m):
    x = m.a[0].a[0].split('.')[-1] if m.a[0].op == 'init' else None
    ps = [q for q in m.a[1] if q != '[]']
    return ps[-1] if ps else x


def same_len(it, a, b, fac):
    if a is b:
        return True
    c = eq(a, b)
    return fac.get(c) is True


def build(chk, path, rk, order):
    p = chk.prog
    b = Built(chk, path, rk)
    it, N = b.it, b.N
    R1 = 'each removed node gets the number of its round as rank'
    R2 = 'every node is removed exactly once'
    R3 = 'the removed node is the ranked node'
    objs = set()
    for e, f, w in b.oks:
        o = fld(w, rk)
        if o is None or o.op != 'obj':
            chk.ob(False, R1, path, 'the ranks of the returned graph are not a list built here')
            return
        objs.add(o)
        nn = fld(w, 'num_nodes')
    if len(objs) != 1:
        chk.ob(False, R1, path, 'several rank lists')
        return
    ro = objs.pop()
    ws = objw(it, ro, N)
    S = [w for w in ws if w.kind == 'store']
    bad = [w for w in ws if w.kind != 'store']
    chk.ob(bool(S) and not bad, R1, path, 'ranks are only assigned' if S and not bad else 'the rank list is also changed by %s' % (where(it, bad[0]) if bad else 'nothing'))
    if not S or bad:
        return
    numn = numnodes_of(b, ro)
    # ---- rounds
    phis = set()
    for s in S:
        v = N.nf(s.val)
        ph, off = loops.base_off(v)
        if ph is None or off != 0 or ph not in it.phiops:
            chk.ob(False, R1, where(it, s), 'the rank that is assigned (%s) is not a counter of the removed nodes' % v)
            return
        phis.add(ph)
    if len(phis) != 1:
        chk.ob(False, R1, path, 'ranks come from several counters')
        return
    cnt = phis.pop()
    rd = Rounds(it, cnt)
    msg = rd.bad
    if not msg and not all(v is I(0) for _, v in rd.inits):
        msg = 'the ranks do not start at 0'
    if not msg:
        msg = rd.exactly_once(S, True)
    chk.ob(not msg, R1, where(it, S[0]), 'ranks 0, 1, 2, ... are assigned in the order of the rounds' if not msg else msg)
    if msg:
        return
    idxs = {N.nf(unwrapidx(s.idx)) for s in S}
    if len(idxs) != 1:
        chk.ob(False, R1, path, 'ranks are assigned to different nodes')
        return
    node = idxs.pop()
    # ---- every node once
    if order is None:
        queue_rounds(chk, b, rd, S, node, numn, path, R2)
    else:
        order_rounds(chk, b, rd, S, node, numn, path, order, ro)
    # ---- removal
    removal(chk, b, rd, S, node, path, R3)


def numnodes_of(b, ro):
    for e in evs(b.it, 'return'):
        d = e.mem.get((ro, None))
        if d is not None and d.op == 'fillobj':
            return b.nf(d.a[1])
    raise Fail('the rank list does not have one entry per node')


def emptyfacts(f, N, o, it):
    """facts say that queue o is empty"""
    for c, v in f.items():
        if c.op == 'eq' and v and I(0) in c.a:
            x = c.a[0] if c.a[1] is I(0) else c.a[1]
            yield x


def queue_rounds(chk, b, rd, S, node, numn, path, R2):
    it, N = b.it, b.N
    if not (node.op == 'proj' and node.a[0].op == 'htop' and node.a[1] == '0'):
        chk.ob(False, R2, where(it, S[0]), 'the ranked node %s does not come out of the queue of unremoved nodes' % node)
        return
    ver = node.a[0].a[0]
    pops = [e for e in evs(it, 'hpop') if N.nf(e.ver) is ver]
    if not pops:
        chk.ob(False, R2, path, 'the queue is not popped')
        return
    qo = rootobj(N.nf(pops[0].obj))
    allpops = [e for e in evs(it, 'hpop') if rootobj(N.nf(e.obj)) is qo]
    extra = [e for e in allpops if e not in pops]
    ch = [e for e in objw(it, qo, N) if e.kind not in ('hpop', 'qpush', 'qchange')]
    ok = not extra and not ch
    chk.ob(ok, R2, where(it, pops[0]), 'one node is taken per round' if ok else 'the queue is also changed at %s' % where(it, (extra + ch)[0]))
    if not ok:
        return
    m = rd.exactly_once(pops)
    chk.ob(not m, R2, where(it, pops[0]), 'exactly one node is taken from the queue per round' if not m else 'taking a node from the queue: ' + m)
    # a node that was taken is also ranked
    rets = [e for e, _, _ in b.oks]
    lost = hits(it, pops, S, pops + rets)
    chk.ob(not lost, R2, where(it, pops[0]), 'a node taken from the queue is always ranked' if not lost else 'a node can be taken from the queue without being ranked')
    push = [e for e in objw(it, qo, N) if e.kind == 'qpush']
    late = hits(it, pops, (), push)
    chk.ob(not late, R2, where(it, push[0]) if push else path, 'no node is put back' if not late else 'nodes are put into the queue after the first one was taken (%s)' % where(it, late[0]))
    # all nodes are pushed
    okp = True
    why = 'all nodes enter the queue'
    fac = N.facts(pops[0].facts)
    found = False
    for d, k in loops.exhausted(it, fac, numn):
        heads = {x.a[0] for x in d.scc}
        good = True
        for s in d.steps:
            idx = N.nf(loops.visited(d, s, k))
            es = [w for w in push if N.nf(w.item) is idx or loops.coeq(it, N.nf(w.item), idx)]
            if s[1] in passedges(it, [('node', h) for h in heads], es):
                good = False
        found = found or good
    chk.ob(found, R2, path, 'every node is put into the queue first' if found else 'not every node is put into the queue before nodes are removed')
    # the end
    for e, f, w in b.oks:
        f = N.facts(f)
        ok = False
        for x in emptyfacts(f, N, qo, it):
            if x.op == 'phi' and x.a[1][:1] == ('m',) and x.a[1][1] is qo and '#len' in x.a[1][2]:
                ok = True
            elif x.op == 'qlen' or (x.op == 'ld' and x.a[0].op == 'phi' and x.a[0].a[1][1:2] == (qo,)):
                ok = True
            elif x.op == 'lin' and any(y.op in ('phi', 'qlen') for y, _ in x.a[1]):
                ok = any(y.op == 'phi' and y.a[1][:2] == ('m', qo) for y, _ in x.a[1])
        if not ok:
            for d, k in loops.exhausted(it, f, numn):
                if d.scc and rd.phi in d.scc:
                    ok = True
        chk.ob(ok, R2, where(it, e), 'the graph is returned when no node is left' if ok else 'a graph can be returned while nodes are left in the queue')


def order_rounds(chk, b, rd, S, node, numn, path, order, ro):
    it, N = b.it, b.N
    R = 'nodes are removed in the given order'
    m0 = mk('m0', [x for x in [None]][0], ()) if False else None
    if not (node.op == 'ld' and node.a[0].op == 'm0' and node.a[0].a[0].op == 'init' and node.a[0].a[0].a[0] == order and node.a[0].a[1] == ('[]',)):
        chk.ob(False, R, where(it, S[0]), 'the ranked node %s is not an entry of the given order' % node)
        return
    ix = node.a[1][0]
    ok = loops.coeq(it, ix, rd.phi)
    chk.ob(ok, R, where(it, S[0]), 'entry i of the order gets rank i' if ok else 'entry %s of the order gets rank %s' % (ix, rd.phi))
    ln = None
    for e, f, w in b.oks:
        f = N.facts(f)
        ln = lenterm_of(it, f, order, numn)
        ok = ln is not None
        chk.ob(ok, 'an order of the wrong length is refused', where(it, e), 'a graph is only returned for an order with one entry per node' if ok else 'a graph can be returned for an order of another length')
        if not ok:
            return
        ok = any(rd.phi in d.scc or loops.coeq(it, next(iter(d.scc)), rd.phi) for L in (ln, numn) for d, k in loops.exhausted(it, f, L) if k == 1) or any(same_ind(it, d, rd.phi) for L in (ln, numn) for d, k in loops.exhausted(it, f, L) if k == 1)
        chk.ob(ok, R, where(it, e), 'all entries of the order are processed' if ok else 'a graph can be returned before all entries of the order were processed')
    # wrong length -> Err
    pred = lambda f: f.get(eq(numn, ln)) is True or N.facts(f).get(eq(numn, ln)) is True
    reg = uncut(it, pred)
    for n in reg:
        for e in it.events[n]:
            if e.kind in ('panic',):
                fz = [c for c, v in N.facts(e.facts).items() if not v and 'frozen' in show(c)]
                chk.ob(bool(fz), 'an order of the wrong length is refused', where(it, e), 'the only panic before the length check is for a graph that is not frozen' if fz else 'an order of the wrong length can cause a panic instead of an error')
            if e.kind == 'return':
                bad = [x for x in b.oks if x[0] is e and not pred(x[1])]
                chk.ob(not bad, 'an order of the wrong length is refused', where(it, e), 'only an error is returned before the lengths are compared' if not bad else 'a graph can be returned without comparing the lengths')
    # duplicates
    dup(chk, b, order, ln, numn, rd, path, ro)
    # errors are justified
    justified = lambda f: any(c is eq(numn, ln) and not v or isdup(it, N, c, v, order) for c, v in N.facts(f).items())
    reg = uncut(it, justified)
    for e, f in b.errs:
        ok = e.nid not in reg or justified(f)
        chk.ob(ok, 'a permutation is accepted', where(it, e), 'an error is only returned for a wrong length or a repeated node' if ok else 'an error can be returned for a valid order')


def same_ind(it, d, phi):
    return any(loops.coeq(it, x, phi) for x in d.scc)


def lenterm_of(it, f, order, numn):
    for c, v in f.items():
        if c.op == 'eq' and v and numn in c.a:
            x = c.a[0] if c.a[1] is numn else c.a[1]
            s = x
            if s.op == 'len' or s.op == 'ld' or s.op == 'init' or s.op == 'proj':
                if any(t.op == 'init' and (t.a[0] == order or str(t.a[0]).startswith(order + '.')) for t in subterms(x)):
                    return x
    return None


def entry(t, order):
    """t is an entry of the given order: its position"""
    if t.op == 'ld' and t.a[0].op == 'm0' and t.a[0].a[0].op == 'init' and t.a[0].a[0].a[0] == order and t.a[0].a[1] == ('[]',):
        return t.a[1][0]
    return None


def isdup(it, N, c, v, order):
    """the fact says: this entry was seen before -> position"""
    if c.op == 'ld' and v and len(c.a[1]) == 1:
        q = entry(c.a[1][0], order)
        if q is not None and markmem(it, N, c.a[0], order):
            return True
    if c.op in ('sinserted', 'scontains'):
        q = entry(c.a[1], order)
        if q is not None and v == (c.op == 'scontains') and markset(it, N, c.a[0], order):
            return True
    return False


def notdup(it, N, c, v, order):
    """position of the entry the fact says was not seen before"""
    if c.op == 'ld' and not v and len(c.a[1]) == 1:
        return entry(c.a[1][0], order)
    if c.op in ('sinserted', 'scontains'):
        q = entry(c.a[1], order)
        if q is not None and v == (c.op == 'sinserted'):
            return q
    return None


def markmem(it, N, m, order):
    """a list of flags that are only set at entries of the order and start as false"""
    seen = set()
    work = [m]
    while work:
        x = N.nf(work.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and x in it.phiops:
            work.extend(it.phiops[x].values())
        elif x.op == 'st':
            if entry(N.nf(x.a[1][0]), order) is None or x.a[2] is not TRUE:
                return False
            work.append(x.a[0])
        elif x.op == 'fill':
            if x.a[0] is not FALSE:
                return False
        else:
            return False
    return True


def markset(it, N, v, order):
    seen = set()
    work = [v]
    while work:
        x = N.nf(work.pop())
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and x in it.phiops:
            work.extend(it.phiops[x].values())
        elif x.op == 'sins':
            if entry(N.nf(x.a[1]), order) is None:
                return False
            work.append(x.a[0])
        elif x.op not in ('hempty', 'mempty'):
            return False
    return True


def dup(chk, b, order, ln, numn, rd, path, ro):
    """a graph is only returned when, for every entry, a mark was found unset and then set"""
    it, N = b.it, b.N
    R = 'an order with a repeated node is refused'
    # marking events: store true / insert, at an entry, of a container where the entry was known to be absent
    marks = []
    for e in evs(it, 'store', 'sinsert'):
        if e.kind == 'store':
            if e.val is not TRUE or len(e.idx) != 1:
                continue
            t = N.nf(e.idx[0])
        else:
            t = N.nf(e.item)
        q = entry(t, order)
        if q is not None:
            marks.append((e, q, rootobj(N.nf(e.obj))))
    best = None
    for e0, f0, w in b.oks:
        f0 = N.facts(f0)
        okk = False
        for L in (ln, numn):
            for d, k in loops.exhausted(it, f0, L):
                heads = {x.a[0] for x in d.scc}
                good = bool(d.steps)
                for s in d.steps:
                    i = N.nf(loops.visited(d, s, k))
                    for mo in {m[2] for m in marks}:
                        ms = [e for e, q, o in marks if o is mo and (q is i or loops.coeq(it, q, i))]
                        if not ms:
                            continue
                        # every mark was unset
                        if not onlymarks(it, N, mo, order, marks):
                            continue

                        def ecut(n, j, t, i=i):
                            st = it.incoming[t].get((n, j))
                            if st is None:
                                return False
                            f = N.facts(st.facts)
                            x = mk('ld', mk('m0', mk('init', order, None), ('[]',)), (i,))
                            return any(c.op == 'lt' and not v and entry(c.a[0], order) is i and (c.a[1] in (ln, numn)) for c, v in f.items())
                        if any(s[1] in passedges(it, [('node', h)], ms, ecut) for h in heads):
                            continue
                        # on the way round the entry was known to be unmarked before it was marked
                        if all(unmarked(it, N, e, q, order, heads, s, ecut) for e, q, o in marks if e in ms):
                            break
                    else:
                        good = False
                okk = okk or good
        chk.ob(okk, R, where(it, e0), 'every entry was checked not to occur before (or is not a node at all)' if okk else 'a graph can be returned for an order that contains a node twice')
    # a repeated node leads to an error and not to a panic
    for n in live(it):
        for i, (t, st) in enumerate(it.succs[n]):
            s2 = it.incoming[t].get((n, i))
            s1 = it.instate[n]
            if s2 is None:
                continue
            new = [c for c, v in s2.facts.items() if s1.facts.get(c) is not v and isdup(it, N, *N.fact(c, v), order)]
            if new:
                # (unless it is no node at all)
                big = lambda n, i, t: (lambda st: st is not None and any(c.op == 'lt' and not v and entry(c.a[0], order) is not None and c.a[1] in (ln, numn) for c, v in N.facts(st.facts).items()))(it.incoming[t].get((n, i)))
                rs = reach(it, [t], (), big)
                bad = [e for m in rs for e in it.events[m] if e.kind == 'panic' or e.kind == 'return' and any(x[0] is e for x in b.oks)]
                chk.ob(not bad, R, '%s (node %d)' % (path, n), 'a repeated node leads to an error' if not bad else 'a repeated node leads to %s' % bad[0].kind)


def onlymarks(it, N, mo, order, marks):
    mine = {id(e) for e, q, o in marks if o is mo}
    for e in objw(it, mo, N):
        if id(e) not in mine:
            return False
    for e in evs(it, 'return'):
        d = e.mem.get((mo, None))
        if d is not None and d.op == 'fillobj' and d.a[0] is not FALSE:
            return False
    return True


def unmarked(it, N, e, q, order, heads, step, notnode):
    """the entry marked by e is known to be unmarked: before the mark, or because of what the mark itself told afterwards"""
    def same(p):
        return p is not None and (p is q or loops.coeq(it, p, q))
    if any(same(notdup(it, N, c, v, order)) for c, v in N.facts(e.facts).items()):
        return True
    old = N.nf(e.old) if e.kind == 'store' else None

    def told(n, i, t):
        st = it.incoming[t].get((n, i))
        return st is not None and any((c.a[0] is old if c.op == 'ld' else e.kind == 'sinsert') and same(notdup(it, N, c, v, order)) for c, v in N.facts(st.facts).items() if c.op in ('ld', 'sinserted'))
    ec = lambda n, i, t: told(n, i, t) or notnode(n, i, t)
    return step[1] not in passedges(it, [e], (), ec) or ec(step[1][0], step[1][1], step[0])


def removal(chk, b, rd, S, node, path, R3):
    """the adjacency lists of exactly the ranked node are emptied in every round"""
    it, N = b.it, b.N
    clr = {}
    inl = reach(it, [rd.node])
    for e in evs(it, 'vclear', 'vtrunc', 'store', 'storec', 'setp'):
        if e.kind == 'vclear' and len(e.idx) == 1 and e.leaf == ('[]',):
            clr.setdefault(rootobj(N.nf(e.obj)), []).append(e)
        elif e.kind == 'vtrunc' and len(e.idx) == 1 and e.leaf == ('[]',) and e.d.get('n', e.d.get('len')) is I(0):
            clr.setdefault(rootobj(N.nf(e.obj)), []).append(e)
        elif e.kind == 'storec' and len(e.idx) == 1 and e.leaf == ('[]',) and e.nid in inl and isempty(it, N, e.val):
            clr.setdefault(rootobj(N.nf(e.obj)), []).append(e)
    # a list that is taken apart entry by entry until nothing is left
    popped = {}
    for e in evs(it, 'vpop', 'vnone'):
        if len(e.idx) == 1 and e.leaf == ('[]',) and e.nid in inl:
            popped.setdefault(rootobj(N.nf(e.obj)), []).append(e)
    for o, es in popped.items():
        if o not in clr and {e.kind for e in es} == {'vpop', 'vnone'}:
            clr[o] = [e for e in es if e.kind == 'vnone']
            bad = [e for e in es if e.kind == 'vpop' and N.nf(unwrapidx(e.idx)) is not node]
            chk.ob(not bad, R3, where(it, es[0]), 'only entries of the ranked node are taken' if not bad else 'entries of another node than the ranked one are removed')
    two = [o for o in clr if o.op == 'obj']
    chk.ob(len(two) >= 2, R3, path, 'two adjacency lists are emptied' if len(two) >= 2 else 'the edges of the removed node are not emptied in both directions')
    for o in two:
        es = clr[o]
        bad = [e for e in es if N.nf(unwrapidx(e.idx)) is not node]
        chk.ob(not bad, R3, where(it, es[0]), 'the removed node is the ranked node' if not bad else 'node %s is removed, but %s is ranked' % (N.nf(unwrapidx(bad[0].idx)), node))
        m = rd.exactly_once(es, True)
        chk.ob(not m, R3, where(it, es[0]), 'one node is removed per round' if not m else 'removing a node: ' + m)


def isempty(it, N, v):
    """a container that is created empty and never filled"""
    v = N.nf(v)
    return v.op == 'obj' and not objw(it, v, N) and any(e.kind == 'new' and e.obj is v and e.what != 'fill' for e in evs(it, 'new'))
