"""Facts at joins: what holds on every incoming path about the value that was chosen there.

The interpreter keeps a fact at a join only if it is the same term on all incoming edges. A fact about a variable whose value
differs between the paths is kept here under the name of the joined value. Such a fact holds in all nodes dominated by the join."""
from terms import *


def idoms(it):
    """immediate dominators of the live nodes, and the nodes in reverse postorder"""
    order, seen = [], set()
    stack = [(it.entry, iter([t for t, _ in it.succs[it.entry]]))]
    seen.add(it.entry)
    while stack:
        n, i = stack[-1]
        for t in i:
            if t not in seen and it.instate[t] is not None:
                seen.add(t)
                stack.append((t, iter([u for u, _ in it.succs[t]])))
                break
        else:
            order.append(n)
            stack.pop()
    order.reverse()
    num = {n: i for i, n in enumerate(order)}
    pred = {}
    for n in order:
        for t, _ in it.succs[n]:
            if t in num:
                pred.setdefault(t, []).append(n)
    idom = {it.entry: it.entry}
    change = True
    while change:
        change = False
        for n in order:
            if n == it.entry:
                continue
            d = None
            for p in pred.get(n, ()):
                if p in idom:
                    if d is None:
                        d = p
                    else:
                        a, b = d, p
                        while a != b:
                            while num[a] > num[b]:
                                a = idom[a]
                            while num[b] > num[a]:
                                b = idom[b]
                        d = a
            if d is not None and idom.get(n) != d:
                idom[n] = d
                change = True
    return idom, order


def replace(t, m, memo):
    from norm import remake
    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x)
        if r is None:
            if x in m:
                r = m[x]
            elif not x.a:
                r = x
            else:
                a = go(x.a)
                r = x if all(p is q for p, q in zip(a, x.a)) else remake(x, a)
            memo[x] = r
        return r
    return go(t)


def derive(it):
    byn = {}
    for p in it.phiops:
        if p.a[1][0] != 'hm':
            byn.setdefault(p.a[0], []).append(p)
    if not byn:
        return
    idom, order = idoms(it)
    kids = {}
    for n in order:
        if n != it.entry:
            kids.setdefault(idom[n], []).append(n)

    def dominated(a, n):
        while True:
            if n == a:
                return True
            if n == idom[n]:
                return False
            n = idom[n]
    new = 0
    wrong = {}
    for n in order:
        inc = it.incoming[n]
        es = sorted(inc)
        if len(es) < 2 or n not in byn:
            continue
        if any(e[0] < 0 or e[0] not in idom or dominated(n, e[0]) for e in es):
            continue
        have = it.instate[n].facts
        first = inc[es[0]].facts
        lost = [(c, v) for c, v in first.items() if c not in have]
        if not lost:
            continue
        ms = []
        for e in es:
            ms.append({p: it.phiops[p][e] for p in byn[n] if e in it.phiops[p]})
        fw = {}
        for p, x in ms[0].items():
            if x.op not in ('i', 'b', 'init', 'm0', 'mempty', 'empty', 'unit'):
                fw[x] = p
        if not fw:
            continue
        memo = {}
        memos = [{} for _ in es]
        add = {}
        for c, v in lost:
            d = replace(c, fw, memo)
            if d is c or d in have:
                continue
            for k in range(1, len(es)):
                if inc[es[k]].facts.get(replace(d, ms[k], memos[k])) is not v:
                    break
            else:
                add[d] = v
        if not add:
            continue
        new += len(add)
        work = [n]
        done = set()

        def put(f):
            if id(f) not in done:
                done.add(id(f))
                for c, v in add.items():
                    f.setdefault(c, v)
        while work:
            x = work.pop()
            work.extend(kids.get(x, ()))
            put(it.instate[x].facts)
            for e in it.events[x]:
                put(e.facts)
            for i, (t, _) in enumerate(it.succs[x]):
                st = it.incoming[t].get((x, i))
                if st is not None:
                    if any(st.facts.get(c, v) is not v for c, v in add.items()):
                        wrong[x, i] = t
                    put(st.facts)
            for _, st in it.succs[x]:
                if st is not None and hasattr(st, 'facts'):
                    put(st.facts)
    it.derived = new
    if wrong:
        prune(it, wrong)


def prune(it, wrong):
    """remove edges that are known never to be taken, and what can only be reached through them"""
    reach = {it.entry}
    work = [it.entry]
    while work:
        n = work.pop()
        for i, (t, _) in enumerate(it.succs[n]):
            if (n, i) not in wrong and t not in reach and it.instate[t] is not None:
                reach.add(t)
                work.append(t)
    ren = {}
    for n in range(len(it.nodes)):
        if it.instate[n] is None:
            continue
        if n not in reach:
            for i in range(len(it.succs[n])):
                ren[n, i] = None
            it.succs[n] = []
            continue
        keep = []
        for i, s in enumerate(it.succs[n]):
            if (n, i) in wrong:
                ren[n, i] = None
            else:
                if len(keep) != i:
                    ren[n, i] = (n, len(keep))
                keep.append(s)
        it.succs[n] = keep
    for n in range(len(it.nodes)):
        if it.instate[n] is None:
            continue
        if n not in reach:
            it.instate[n] = None
            it.events[n] = []
            it.incoming[n] = {}
        elif any(e in ren for e in it.incoming[n]):
            it.incoming[n] = {ren.get(e, e): s for e, s in it.incoming[n].items() if ren.get(e, e) is not None}
    for p, ops in list(it.phiops.items()):
        if p.a[0] not in reach:
            del it.phiops[p]
        elif any(e in ren for e in ops):
            it.phiops[p] = {ren.get(e, e): v for e, v in ops.items() if ren.get(e, e) is not None}
    it.pruned = len(wrong)
