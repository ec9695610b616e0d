"""C28: valid calls are not turned down.

Every panic that is written in the code (assertion, panic!, unwrap, expect) is traced back to the branch that decides it. The
branch has to be one of: a documented reason (frozen or not, another graph's calculator, no source or target, a node outside the
graph); a comparison of ids with each other, with the invalid id, of marks, or a search for an id that found nothing (a lookup
that C04, C05 and C06 show to succeed); the number of entries removed from a list; or it has to be unreachable. Weights, sizes,
counts of work, limits and parameters never decide."""
import re
import flow
import loops
from base import Fail
from graph import *
from interp import known
from joins import replace
from paths import natural, phisat
from rules_api import IG, adt, argty, ftype, ig_fields, ty_is
from rules_data import weighty
from terms import *

R = 'valid calls are not turned down'
# text files (C17) have reasons of their own
OTHER = ('from_file', 'from_dimacs_file')


def sizeterm(t):
    """a number of entries"""
    if t.op in ('newlen', 'slen', 'ntok', 'strlen'):
        return True
    if t.op == 'ld':
        m = t.a[0]
        while m.op in ('st', 'stv'):
            m = m.a[0]
        if m.op == 'm0':
            return m.a[1][-1:] == ('#len',)
        return m.op == 'phi' and isinstance(m.a[1], tuple) and m.a[1][0] == 'm' and m.a[1][2][-1:] == ('#len',)
    if t.op == 'lin':
        return any(sizeterm(k) for k, _ in t.a[1])
    return islen(t)


def toolarge(c, tr):
    """c is tr only for a number that has no place in 32 bits (the largest one stands for the invalid id)"""
    if c.op == 'lt':
        a, b = c.a
        if tr and isint(a):
            return a.a[0] >= (1 << 32) - 2
        return not tr and isint(b) and b.a[0] >= (1 << 32) - 1
    if c.op == 'eq':
        if tr:
            return any(isint(x) and x.a[0] >= (1 << 32) - 1 for x in c.a)
        for x, y in (c.a, c.a[::-1]):
            if any(z is y for z in subterms(x)) and x.op in ('trunc', 'cast', 'lin', 'bop') and not islen(x):
                return '32' in show(x, 3)
    return False


def stops(it, t):
    """the lengths and other numbers that a value may be a copy of, but for constants"""
    return [x for x in flow.sources(it, t, stop=lambda x: x is not t and x.op == 'phi' and islen(x)) if not isint(x)]


class Why:
    def __init__(s, p, it, path):
        s.p, s.it, s.path = p, it, path
        s.w = weighty(p, it)
        b = p.bodies[p.root(path)['inst']]
        s.frozen = {}
        s.counts = set()
        s.params = set()
        s.calcs = set()
        for i in range(b['argc']):
            t = argty(p, p.root(path)['inst'], i)
            if ty_is(p, t, 'InputGraph')[0]:
                fr = ig_fields(p)['frozen']
                s.frozen[mk('init', 'a%d.%s' % (i, fr), ftype(p, fr))] = ty_is(p, t, 'InputGraph')[1]
            if ty_is(p, t, 'Params')[0] or ty_is(p, t, 'ParamsWithOrder')[0]:
                s.params.add('a%d' % i)
            if ty_is(p, t, 'PathCalculator')[0]:
                s.calcs.add('a%d' % i)
            for ty in ('FastGraph', 'PathCalculator', 'InputGraph', 'FastGraph32'):
                if ty_is(p, t, ty)[0]:
                    for a in p.D['adts']:
                        if a['path'].endswith('::' + ty):
                            for f in p.tys[a['t']]['variants'][0]['f']:
                                if p.tys[f['t']]['s'] in ('usize', 'u32'):
                                    s.counts.add('a%d.%s' % (i, f['n']))
        s.memo = {}
        # an input graph takes and gives everything while its flag is right
        s.flagonly = bool(s.frozen) and not any(p.tys[x]['s'].endswith('FastGraph') or 'FastGraph' in p.tys[x]['s'] for x in b['locals'][:1])
        s.narrow = 'FastGraph32' in p.tys[b['locals'][0]]['s']
        s.given = set()
        for i in range(b['argc']):
            y = p.tys[it.strip_ref(argty(p, p.root(path)['inst'], i))]
            if y['k'] == 'uint' or '(usize, usize)' in y['s']:
                s.given.add('a%d' % i)

    def count(s, t):
        """a number of nodes"""
        if t.op == 'init':
            return t.a[0] in s.counts
        if t.op == 'phi' or t.op == 'proj':
            xs = flow.sources(s.it, t)
            return bool(xs) and all(x.op == 'init' and x.a[0] in s.counts for x in xs)
        if t.op == 'm0' or t.op == 'ld' and t.a[0].op == 'm0':
            o, leaf = (t if t.op == 'm0' else t.a[0]).a
            if leaf[-1:] != ('#len',) or o.op != 'init':
                return False
            if o.a[0].split('.')[0] in s.calcs:
                return True
            # a list of plain numbers has an entry for each node, a list of edges has not
            y = o.a[1] is not None and len(leaf) == 1 and s.it.elem_ty(o.a[1])
            return y is not None and y is not False and s.p.tys[y]['k'] == 'uint'
        return t.op == 'ld' and sizeterm(t) and t.a[0].op != 'phi'

    def ident(s, t):
        """an id (or a mark): something that does not measure anything"""
        if t in s.memo:
            return s.memo[t]
        s.memo[t] = False
        ok = t.op in ('init', 'ld', 'phi', 'proj', 'ev', 'htop', 'deref') and not sizeterm(t) and not s.w(t)
        if t.op == 'lin':
            # the position of the next or the previous entry
            ok = len(t.a[1]) == 1 and t.a[1][0][1] == 1 and s.ident(t.a[1][0][0])
        elif ok:
            for x in flow.sources(s.it, t):
                if x.op == 'init' and (x.a[0].split('.')[0] in s.params):
                    ok = False
                if x.op == 'm0' and x.a[0].op == 'init' and x.a[0].a[0].split('.')[0] in s.params:
                    ok = False
                if sizeterm(x) or x.op in ('mul', 'bop', 'f', 'fop'):
                    ok = False
        s.memo[t] = ok
        return ok

    def impossible(s, c, tr, facts):
        k = known(facts, c)
        if k is not None:
            return k is not tr
        if c.op == 'lt' and tr and c.a[1].op == 'newlen' and c.a[0] is c.a[1].a[1]:
            return True   # nothing is added by a removal
        if c.op == 'eq' and tr:
            for x, y in (c.a, c.a[::-1]):
                if y is I(0) and x.op == 'lin' and 0 < x.a[2] < 1 << 32 and all(k > 0 and (islen(v) or sizeterm(v)) for v, k in x.a[1]):
                    return True   # a length plus something
                if y is MAX and known(facts, mk('lt', x, y)) is True:
                    return True
                if y is MAX and any(f.op == 'lt' and v and f.a[0] is x for f, v in facts.items()):
                    return True
        return False

    def reason(s, c, tr, facts, edge):
        """what makes it right to panic when c has the value tr"""
        if c.op == 'not':
            return s.reason(c.a[0], not tr, facts, edge)
        if c.op in ('and', 'or'):
            rs = [s.reason(x, tr, facts, edge) for x in c.a]
            if (c.op == 'and') == tr:
                return next((r for r in rs if r), None)
            return rs[0] if all(rs) else None
        if c in s.frozen:
            # only what changes the graph needs it thawed
            return 'frozen' if tr is s.frozen[c] else None
        if s.flagonly:
            if c.op == 'lt' and not tr and s.count(c.a[1]) and c.a[0].op == 'ld' and s.ident(c.a[0]):
                return 'edge outside the graph'
            return None
        if s.narrow:
            return 'too large for 32 bits' if toolarge(c, tr) else None
        if c.op == 'eq':
            a, b = c.a
            if s.chosen(a) and s.chosen(b):
                return None   # any sources and targets may be asked for
            if s.count(a) and s.count(b) and a.op == b.op == 'init' and not tr:
                return 'made for another graph'
            for x, y in ((a, b), (b, a)):
                if y is I(0) and tr and x.op == 'ld' and x.a[0].op == 'm0' and x.a[0].a[0].op == 'init' and re.fullmatch(r'a\d+', x.a[0].a[0].a[0]) and x.a[0].a[1] == ('#len',):
                    return 'nothing given'
                if y is MAX and s.ident(x):
                    return 'no such entry'
                if isint(y) and x.op == 'ld' and s.ident(x) and y in flow.sources(s.it, x):
                    return 'mark that is not set'
            if s.ident(a) and s.ident(b):
                return 'ids that are %s' % ('equal' if tr else 'different')
            if not tr and s.removed(a, b):
                return 'number of entries removed'
            if not tr and s.recorded(a, b):
                return 'number of entries recorded'
            if not tr and s.w(a) and s.w(b) and s.copies(a, b):
                return 'one weight in two places'
        if c.op == 'lt' and not tr:
            x, n = c.a
            if s.searched(x, edge):
                return 'not in the list'
            if (s.count(n) or s.pernode(n)) and s.ident(x):
                return 'node outside the graph'
        if c.op == 'lt' and all(s.entry(x) for x in c.a) and c.a[0].a[0] is c.a[1].a[0]:
            return 'entries of one list'
        if c.op == 'has' and not tr and s.searched(c, edge):
            return 'not in the list'
        if c.op == 'scontains' and s.ident(c.a[1]):
            return 'member of a set'
        return None

    def chosen(s, t):
        """a node the caller asked for"""
        for x in flow.sources(s.it, t):
            y = x.a[0] if x.op == 'm0' else x
            if not (y.op == 'init' and y.a[0] in s.given):
                return False
        return True

    def removed(s, a, b):
        """lengths of one list before and after something was removed"""
        def base(t):
            if t.op == 'lin' and len(t.a[1]) == 1 and t.a[1][0][1] == 1:
                t = t.a[1][0][0]
            return t
        def left(u, v):
            return u.op == 'newlen' and any(z is v for z in u.a if isinstance(z, T))
        x, y = base(a), base(b)
        if left(x, y) or left(y, x):
            return True
        for x, y in ((a, b), (b, a)):
            if isint(x) and y.op == 'lin' and sorted(k for _, k in y.a[1]) == [-1, 1]:
                # the difference of the two
                d = {k: v for v, k in y.a[1]}
                if left(d[-1], d[1]):
                    return True
            if x is I(1) and y.op == 'phi' and s.matching(y):
                # counted before it happens
                return True
            if x is I(1) and y.op == 'ev' and len(y.a) > 1 and y.a[1] == 'havoc' and any(e.kind == 'bulk' and e.how == 'retain' for e in s.it.events[y.a[0]]):
                # counted by the closure that removes them
                return True
        return False

    def matching(s, n):
        """the number of entries in the list of one node that have a certain id"""
        seen, work, some = set(), [n], False
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            for e, o in s.it.phiops.get(x, {0: None}).items():
                if o is None:
                    return False
                if o.op == 'phi':
                    work.append(o)
                elif o.op == 'lin' and o.a[2] == 1 and len(o.a[1]) == 1 and o.a[1][0][1] == 1:
                    st = s.it.incoming[x.a[0]].get(e)
                    if st is None or not any(v and c.op == 'eq' and all(map(s.ident, c.a)) and any(y.op == 'ld' and len(y.a[1]) == 2 and y.a[0].op == 'phi' for y in c.a) for c, v in st.facts.items()):
                        return False
                    some = True
                    work.append(o.a[1][0][0])
                elif o is not I(0):
                    return False
        return some

    def pernode(s, n):
        """length of a list that gets one entry per node"""
        if n.op == 'phi' and not islen(n):
            # what a calculator keeps for each node
            xs = flow.sources(s.it, n)
            return bool(xs) and all(x.op == 'm0' and x.a[1][-1:] == ('#len',) and x.a[0].op == 'init' and x.a[0].a[0].split('.')[0] in s.calcs for x in xs)
        if n.op != 'phi':
            return False
        seen, work = set(), [n]
        some = False
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op != 'phi' or x not in s.it.phiops:
                return False
            for e, o in s.it.phiops[x].items():
                if o.op == 'phi':
                    work.append(o)
                elif o.op == 'lin' and o.a[2] == 1 and len(o.a[1]) == 1 and o.a[1][0][1] == 1:
                    st = s.it.incoming[x.a[0]].get(e)
                    if st is None or not any(v and c.op == 'lt' and s.count(c.a[1]) for c, v in st.facts.items()):
                        return False
                    some = True
                    work.append(o.a[1][0][0])
                elif o is not I(0):
                    return False
        return some

    def entry(s, t):
        """an entry of a list of ids"""
        return t.op == 'ld' and s.ident(t) and len(t.a[1]) == 1 and (t.a[0].op == 'm0' and t.a[0].a[1][-1:] == ('[]',) or t.a[0].op == 'phi' and isinstance(t.a[0].a[1], tuple) and t.a[0].a[1][0] == 'm' and t.a[0].a[1][2][-1:] == ('[]',))

    def recorded(s, a, b):
        """a length and a number that is such a length, noted before"""
        for x, y in ((a, b), (b, a)):
            if islen(x) and x.op == 'phi' and y.op == 'ld' and not islen(y):
                n = {z.a[1] for z in stops(s.it, y)}
                if n and n <= {x.a[1]}:
                    return True
        return False

    def copies(s, a, b):
        x, y = ({z for z in flow.sources(s.it, t, arith=False) if not isint(z) and z.op not in ('m0', 'mempty') and not (z.op == 'proj' and z.a[0].op == 'hempty')} for t in (a, b))
        return bool(x) and x == y

    def searched(s, x, edge):
        """the branch is the end of a loop in which each entry that has the wanted id leaves"""
        it = s.it
        n, i = edge
        heads = []
        k = x.a[1][0][0] if x.op == 'lin' and len(x.a[1]) == 1 else x.a[0] if x.op == 'proj' else x
        for h in [k.a[0]] if k.op == 'phi' else [h for h in live(it)] if x.op == 'has' else []:
            body = natural(it, h)
            if body and n in body and it.succs[n][i][0] not in body:
                heads.append((len(body), h, body))
        for _, h, body in sorted(heads, key=lambda z: z[:2]):
            backs = [(q, k) for q in body for k, (t, _) in enumerate(it.succs[q]) if t == h and it.incoming[h].get((q, k)) is not None]
            have = it.instate[h].facts
            if backs and all(any(c not in have and s.missed(c, v) for c, v in it.incoming[h][e].facts.items()) for e in backs):
                return True
        return False

    def missed(s, c, v):
        if c.op == 'not':
            return s.missed(c.a[0], not v)
        if c.op == 'eq' and not v:
            return not isint(c.a[0]) and not isint(c.a[1]) and s.ident(c.a[0]) and s.ident(c.a[1])
        if c.op == 'and' and not v:
            return all(s.missed(x, False) for x in c.a)
        if c.op == 'or' and not v:
            return any(s.missed(x, False) for x in c.a)
        return False


def atoms(it, n, i):
    """what is decided by taking this edge"""
    t = it.succs[n][i][0]
    st = it.incoming[t].get((n, i))
    if st is None:
        return None
    have = it.instate[n].facts
    return [(c, v) for c, v in st.facts.items() if c not in have]


def phis(it, t):
    return [x for x in subterms(t) if x.op == 'phi' and x in it.phiops]


def plain(c):
    """a chosen value is, or is not, a certain one"""
    if c.op == 'is':
        return c.a[0].op == 'phi'
    if c.op == 'phi':
        return True
    return c.op == 'eq' and any(isint(x) for x in c.a) and any(x.op == 'phi' and not islen(x) for x in c.a)


def cases(it, t):
    """tests of enums whose case is known"""
    m = {}
    for x in subterms(t):
        if x.op == 'discr' and x.a[0].op == 'agg':
            y = it.discr(x.a[0], x.a[1])
            if y is not x:
                m[x] = y
        elif x.op == 'is' and x.a[0].op == 'agg':
            m[x] = B(x.a[0].a[1] == x.a[1])
    return replace(t, m, {}) if m else t


def judge(W, e, limit=6000):
    """(reasons, None) or (None, the decision that is none)"""
    it = W.it
    doom = W.doom
    at = phisat(it)
    out = set()
    seen = set()
    ctx0 = frozenset()
    first = '?'
    work = [(e.nid, frozenset(), ctx0)]
    while work:
        n, S, C = work.pop()
        if (n, S, C) in seen:
            continue
        seen.add((n, S, C))
        if len(seen) > limit:
            return None, '%s (too many ways to get here)' % first
        if n == it.entry:
            return None, ' and '.join('%s%s' % ('' if v else 'not ', show(c, 4)) for c, v in S) or 'always'
        for (q, i), st in sorted(it.incoming[n].items()):
            if st is None:
                continue
            if q < 0:
                return None, ' and '.join('%s%s' % ('' if v else 'not ', show(c, 4)) for c, v in S) or 'always'
            facts = st.facts
            env = {ph: it.phiops[ph][(q, i)] for ph in at.get(n, ()) if (q, i) in it.phiops[ph]}
            memo = {}
            dead = False

            def sub(X):
                nonlocal dead
                r = set()
                for c, v in X:
                    d = replace(c, env, memo) if env else c
                    if d is not c:
                        d = cases(it, d)
                    while d.op == 'not':
                        d, v = d.a[0], not v
                    if d.op == 'b':
                        if d.a[0] is not v:
                            dead = True
                        continue
                    if W.impossible(d, v, facts):
                        dead = True
                    r.add((d, v))
                return frozenset(r)
            S2, C2 = sub(S), frozenset(x for x in sub(C) if plain(x[0]))
            if dead:
                continue
            if S2:
                why = None
                if S2 != S:
                    for c, v in S2:
                        why = why or W.reason(c, v, facts, (q, i))
                if why:
                    out.add(why)
                    continue
                work.append((q, S2, C2))
                continue
            if q in doom:
                work.append((q, S2, C2))
                continue
            new = atoms(it, q, i)
            if not new:
                work.append((q, S2, C2))
                continue
            why = None
            for c, v in new:
                why = why or W.reason(c, v, facts, (q, i))
            if why:
                out.add(why)
                continue
            if any(W.impossible(c, v, {a: b for a, b in facts.items() if a is not c}) for c, v in new):
                continue
            first = ' and '.join('%s%s' % ('' if v else 'not ', show(c, 4)) for c, v in new)
            # follow the values that are compared, together with what is known about values chosen at the same places
            places = {x.a[0] for c, _ in new for x in phis(it, c)}
            ctx = frozenset((c, v) for c, v in facts.items() if plain(c) and (c, v) not in new and any(x.a[0] in places for x in phis(it, c))) if places else frozenset()
            work.append((q, frozenset(new), ctx))
    return out, None


def doomed(it, panics):
    """nodes from which nothing but a panic can follow"""
    doom = {e.nid for e in panics}
    rets = {e.nid for e in evs(it, 'return')}
    pr = preds(it)
    work = list(doom)
    while work:
        n = work.pop()
        for q in pr.get(n, ()):
            if q in doom or q in rets:
                continue
            ts = [t for i, (t, _) in enumerate(it.succs[q]) if it.incoming[t].get((q, i)) is not None]
            if ts and all(t in doom for t in ts):
                doom.add(q)
                work.append(q)
    return doom


def c28(chk):
    p = chk.prog
    n = 0
    for r in p.public():
        path = r['path']
        name = p.bodies[r['inst']]['fn']['name']
        if '::_::' in path or name in OTHER or name == 'fmt':
            continue
        it = p.run(path)
        chk.units.add(path)
        panics = list(evs(it, 'panic'))
        if not panics:
            chk.ob(True, R, path, 'no panic')
            continue
        W = Why(p, it, path)
        W.doom = doomed(it, panics)
        for e in panics:
            n += 1
            ok, bad = judge(W, e)
            wh = '%s in %s' % (it.body(e.bid).path, path)
            chk.ob(bad is None, R, wh, ('; '.join(sorted(ok)) or 'unreachable') if bad is None else 'panics at %s when %s' % (e.sp, bad))
    chk.floor(R, 20, 'public functions and panics')
