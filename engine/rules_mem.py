"""C25: queries leave nothing behind that grows."""
import re
from terms import *
from graph import *
from evgraph import *
from norm import norm
from base import Fail
from rules_reuse import persistent, oname
from rules_query import MULTI, SINGLE
from rules_term import memname

L1 = 'nothing is leaked'
L2 = 'what a query appends to a list the calculator keeps is emptied for every query'
L3 = 'the lists of a calculator keep their size'

LEAK = re.compile(r'(^|::|<)(mem::forget|Box(<.*>)?::leak|Vec(<.*>)?::leak|String::leak|into_raw|into_raw_parts|ManuallyDrop(<.*>)?::new|forget_unsized|RefMut(<.*>)?::leak|Ref(<.*>)?::leak|Rc(<.*>)?::increment_strong_count|Arc(<.*>)?::increment_strong_count|alloc::alloc)\b')
SHARED = ('Rc', 'Arc')
GROW = {'push', 'hpush', 'qpush', 'sinsert', 'vinsert', 'vextend'}
ADDING = re.compile(r'::(push\w*|insert\w*|extend\w*|append|entry|or_insert\w*|or_default|write_\w+|get_or_insert\w*|split_off|resize\w*|join|fill_with|add_assign)$')


def emptied(it, N, q, names):
    """events and edge test: the persistent lists called names hold nothing afterwards"""
    clr = []
    for e in evs(it, 'hclear', 'vclear', 'vtrunc'):
        if e.kind == 'vtrunc' and N.nf(e.n) is not I(0):
            continue
        if e.kind != 'hclear' and e.leaf != ():
            continue
        o = N.nf(e.obj)
        if persistent(o) and oname(q, o) & names:
            clr.append(e)
    for e in evs(it, 'setp'):
        if e.root[1] == 'a0' and e.val.op in ('obj', 'agg'):
            nm = 'a0.' + '.'.join(str(x[1]) for x in e.steps)
            if any(n == nm or n.startswith(nm + '.') for n in names):
                clr.append(e)

    def lenof(t):
        o = None
        if t.op == 'ld':
            k = memname(t.a[0])
            if k and k[1] == ('#len',) and not t.a[1]:
                o = k[0]
        elif t.op == 'phi' and t.a[1][0] in ('m', 'hm') and t.a[1][2] == ('#len',):
            o = t.a[1][1]
        elif t.op == 'init' and t.a[0].endswith('.#len'):
            return t.a[0][:-5] in names
        if o is None:
            return False
        o = rootobj(N.nf(o))
        x = oname(q, o)
        return bool(x) and x <= names and persistent(o)

    memo = {}

    def ec(n, i, t):
        k = (n, i)
        if k not in memo:
            r = False
            st = it.incoming[t].get((n, i))
            if st is not None and it.instate[n] is not None:
                old = it.instate[n].facts
                for c, v in st.facts.items():
                    if c in old and old[c] is v:
                        continue
                    if v and c.op == 'eq' and any(x is I(0) for x in c.a) and any(lenof(x) for x in c.a):
                        r = True
                    elif not v and c.op == 'lt' and c.a[0] is I(0) and lenof(c.a[1]):
                        r = True
            memo[k] = r
        return memo[k]
    return clr, ec


def calls(p, i):
    from base import callees
    b = p.bodies[i]
    for bl in b['blocks']:
        if bl['cleanup']:
            continue
        for s in [bl['t']] + bl['s']:
            for c in callees(s):
                f = c['fn'] if 'fn' in c else p.bodies[c['inst']]['fn']
                yield f, c.get('orig', f), s.get('fsp') or s.get('sp') or b['sp']


class Q:
    def __init__(self, it):
        self.it = it


def walkec(it, N, start, cut, targets, ec):
    g, _, _ = walk(it, start, cut, targets, ec)
    return g


def c25(chk):
    p = chk.prog
    # ---- leaks
    n = 0
    for i, b in p.bodies.items():
        if b['fn']['crate'] != p.D['crate']:
            continue
        bad = [(fn['path'], sp) for fn, o, sp in calls(p, i) if LEAK.search(fn['path']) or LEAK.search(o['path'])]
        n += 1
        chk.ob(not bad, L1, b['fn']['path'], 'calls %s (%s)' % bad[0] if bad else 'memory is given back by its owner')
    for a in p.D['adts']:
        if a['path'].endswith('PathCalculator'):
            x = [y for y in parts(p, a['t'], set()) if y in SHARED]
            chk.ob(not x, L1, a['path'], 'contains %s, which need not be given back' % x[0] if x else 'all parts have one owner')
    # ---- growth
    for root in (MULTI, SINGLE):
        it = p.run(root)
        N = norm(it)
        q = Q(it)
        chk.units.add(root)
        rets = list(evs(it, 'return'))
        groups = {}
        for e in evs(it, *GROW):
            o = N.nf(e.obj)
            if not persistent(o):
                continue
            groups.setdefault((rootobj(o), e.d.get('leaf') if e.kind in ('push', 'vinsert', 'vextend') else ()), []).append(e)
        for (o, leaf), es in groups.items():
            names = oname(q, o)
            w = '%s (%s)' % (root, ', '.join(sorted(x.split('.', 1)[1] for x in names)) or show(o, 2))
            inner = leaf not in ((), ('[]',), None) or (es[0].kind != 'push' and leaf == ('[]',))
            if es[0].kind == 'push':
                inner = leaf != () and leaf != ('[]',) or any(len(e.idx) for e in es)
            if inner or not names:
                chk.ob(False, L2, w, 'entries are added at %s and it is not known that they are removed again' % where(it, es[0]))
                continue
            clr, ec = emptied(it, N, q, names)
            a = walkec(it, N, [('node', it.entry)], clr, es, ec)
            b = walkec(it, N, es, clr, rets, ec) if a else None
            chk.ob(not a or not b, L2, w, 'emptied before the first entry is added' if not a else 'emptied before the query returns' if not b else 'a query adds entries at %s that no query removes' % where(it, es[0]))
        chk.ob(True, L2, root, '%d lists and queues of the calculator get new entries' % len(groups))
        # other ways
        for e in evs(it, 'vresize'):
            if persistent(N.nf(e.obj)):
                x = N.nf(e.n)
                ok = x.op == 'i' or numnodes(it, x)
                chk.ob(ok, L3, where(it, e), 'resized to the size of the graph' if ok else 'resized to %s' % show(x, 3))
        for e in evs(it, 'setp'):
            nm = 'a0.' + '.'.join(str(x[1]) for x in e.steps)
            if e.root[1] != 'a0' or e.val.op != 'obj' or rootobj(N.nf(e.val)).op != 'obj':
                continue
            st = it.instate[e.nid]
            m = it.memget_raw(st, (e.val, ('#len',)))
            if m is None:
                # made in the same node
                for i, (t, _) in enumerate(it.succs[e.nid]):
                    s2 = it.incoming[t].get((e.nid, i))
                    m = it.memget_raw(s2, (e.val, ('#len',))) if s2 is not None else m
            if m is None:
                continue
            x = N.nf(m)
            ok = x.op == 'i' or numnodes(it, x) or samelen(x, nm)
            chk.ob(ok, L3, where(it, e), '%s is replaced by a list of the same size' % nm[3:] if ok else '%s is replaced by a list of another size (%s)' % (nm[3:], show(x, 3)))
        nc = 0
        for e in evs(it, 'call'):
            if e.pure or not e.args:
                continue
            a = e.args[0]
            tgt = touched(it, N, a)
            if not tgt:
                continue
            nc += 1
            m = ADDING.search(re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', e.path)))
            chk.ob(not m, L3, where(it, e), '%s adds to a part of the calculator' % e.name if m else '%s does not add entries' % e.name)
        chk.ob(True, L3, root, '%d other changes by library functions' % nc)
    chk.floor(L1, 40, 'functions of the crate')
    chk.floor(L2, 2, 'both entry points')


def touched(it, N, a):
    if a.op == 'ref':
        r = a.a[0]
        if isinstance(r, tuple) and len(r) > 1 and r[1] == 'a0':
            return True
        if isinstance(r, T):
            return persistent(N.nf(r))
    if a.op in ('obj', 'phi', 'init', 'slice'):
        return persistent(N.nf(a))
    return False


def samelen(x, nm):
    """the length the list called nm has had before"""
    if x.op == 'ld' and not x.a[1]:
        k = memname(x.a[0])
        return k is not None and k[1] == ('#len',) and k[0].op == 'init' and k[0].a[0] == nm
    return False


def numnodes(it, x):
    """a size that is the same in every query that is answered: node count of calculator or graph, plus a constant"""
    for s in subterms(x):
        if s.op in ('init', 'i', 'lin'):
            if s.op == 'init' and not s.a[0].endswith('num_nodes'):
                return False
        else:
            return False
    return True


def parts(p, t, seen):
    if t in seen:
        return set()
    seen.add(t)
    y = p.tys[t]
    out = set()
    if y['k'] == 'adt':
        out.add(y['adt'].split('::')[-1])
    for a in list(y.get('args') or []) + ([y['t']] if isinstance(y.get('t'), int) else []):
        if isinstance(a, int):
            out |= parts(p, a, seen)
    for v in (y.get('variants') or []):
        for f in v['f']:
            if f['t'] is not None:
                out |= parts(p, f['t'], seen)
    return out
