"""C09 the 32-bit form of a prepared graph."""
import loops
from base import Fail
from graph import *
from interp import known
from rules_api import adt
from terms import *

FG = 'fast_graph::FastGraph'
F32 = 'fast_graph32::FastGraph32'
M32 = (1 << 32) - 1


def leafpaths(it, t):
    """(container field path or None, leaf in it) of a struct type"""
    out = []
    for f, ft in it.fields(t):
        if it.is_container(ft):
            for p, _ in it.leaves(ft):
                if p[-1] == '[]' or p[0] == '[]' and p[-1] not in ('#len', '#h'):
                    out.append((f, p))
        else:
            out.append((f, ()))
    return out


def strip(x, facts):
    """(value without a narrowing that changes nothing, narrowed unchecked)"""
    if x.op == 'trunc' and x.a[0] == 32:
        y = x.a[1]
        return y, below(facts, y, M32 + 1)
    return x, True


def below(facts, y, n):
    """y < n is known"""
    if known(facts, lt(y, I(n))) is True or known(facts, lt(I(n - 1), y)) is False:
        return True
    for c, tr in facts.items():
        if c.op == 'lt':
            a, b = c.a
            if tr and a is y and isint(b) and b.a[0] <= n:
                return True
            if not tr and b is y and isint(a) and a.a[0] < n:
                return True
    return False


def bindings(facts, ok):
    """constants that source values are known to have"""
    for c, tr in facts.items():
        if c.op == 'eq' and tr:
            for x, y in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                if isint(y) and ok(x):
                    yield x, y.a[0]


def relation(it, facts, val, ok, narrow):
    """how a stored value depends on the source value: [(kind, source, constants...)] or an error text"""
    out = []
    for v, f in loops.alts(it, val, facts):
        if isint(v):
            bs = list(bindings(f, ok))
            if not bs:
                return 'may store %s whatever the source is' % show(v)
            out.append(('const', bs[0][0], bs[0][1], v.a[0], f))
            continue
        y, inr = strip(v, f)
        if not ok(y):
            return 'stores %s' % show(v, 4)
        if narrow and not (inr and below(f, y, M32 + 1)):
            return 'stores %s, which need not fit' % show(y, 4)
        out.append(('id', y, None, None, f))
    return out


def convmap(chk, p, path, srcT, dstT, src, narrow):
    """{(field, leaf) of the result: ((field, leaf) of the source, relation)}"""
    it = p.run(path)
    chk.units.add(path)
    res = {}
    rets = list(evs(it, 'return'))
    if len(rets) != 1:
        # several returns: all must agree
        pass
    want = leafpaths(it, dstT)
    for ret in rets:
        for f, leaf in want:
            wh = '%s: %s%s' % (path, f, ''.join('.' + x for x in leaf))
            v = it.proj(ret.val, f)
            if not leaf:
                def ok(x):
                    return x.op == 'init' and x.a[0].startswith(src + '.')
                r = relation(it, ret.facts, v, ok, narrow)
                if isinstance(r, str):
                    chk.ob(False, 'every part is converted', wh, r)
                    continue
                ss = {x[1] for x in r}
                if len(ss) != 1:
                    chk.ob(False, 'every part is converted', wh, 'mixes different sources')
                    continue
                s = ss.pop().a[0][len(src) + 1:]
                put(chk, res, (f, leaf), (s, ()), r, wh)
                continue
            r = mapped(it, ret, v, leaf, src, narrow)
            if isinstance(r, str):
                chk.ob(False, 'every part is converted', wh, r)
                continue
            put(chk, res, (f, leaf), r[0], r[1], wh)
    if len(rets) == 0:
        raise Fail('%s never returns' % path)
    return it, res, want


def put(chk, res, k, s, r, wh):
    if k in res and res[k][0] != s:
        chk.ob(False, 'every part is converted', wh, 'comes from different parts')
    elif k in res:
        res[k][1].extend(r)
    else:
        res[k] = (s, list(r))


def mapped(it, ret, h, leaf, src, narrow):
    """the list `h` is filled element by element from a list of the source: ((field, leaf), relation)"""
    st = it.instate[ret.nid]
    if h.op == 'init' and h.a[0].startswith(src + '.'):
        return (h.a[0][len(src) + 1:], leaf), [('id', None, None, None, {})]
    o, l, ix = it.loc(h)
    if l or o.op != 'obj':
        return 'unexpected list %s' % show(h, 3)
    m = it.memget(st, o, leaf)
    ln = lenof(it, st, h)
    # a plain copy
    if m.op == 'm0' and m.a[0].op == 'init' and m.a[0].a[0].startswith(src + '.') and ln is lenof(it, st, m.a[0]):
        return (m.a[0].a[0][len(src) + 1:], m.a[1]), [('id', None, None, None, {})]
    stores = []
    for e in evs(it, 'store', 'storec', 'vpop', 'vclear', 'vtrunc', 'vremove', 'vinsert', 'vfill', 'vresize', 'vreverse', 'bulk', 'vextend'):
        if rootobj(e.d.get('obj') or e.d.get('h')) is not o:
            continue
        if e.kind == 'store' and e.leaf == leaf:
            stores.append(e)
        elif e.kind == 'store':
            pass
        else:
            return 'unexpected %s at %s' % (e.kind, e.sp)
    if not stores:
        return 'is never filled'
    source = None
    rel = []
    for e in stores:
        def ok(x):
            return x.op == 'ld' and x.a[0].op == 'm0' and x.a[0].a[0].op == 'init' and x.a[0].a[0].a[0].startswith(src + '.') and len(x.a[1]) == 1
        r = relation(it, e.facts, e.val, ok, narrow)
        if isinstance(r, str):
            return '%s (%s)' % (r, e.sp)
        for x in r:
            s = x[1]
            k = (s.a[0].a[0], s.a[0].a[1])
            if source not in (None, k):
                return 'mixes different sources'
            source = k
            j = s.a[1][0]
            if not loops.coeq(it, e.idx[0], j):
                return 'element %s is taken from position %s of the source (%s)' % (show(e.idx[0], 3), show(j, 3), e.sp)
        rel += r
    n = lenof(it, st, source[0])
    # the loop visits every index, and every round stores
    inds = [(d, k) for d, k in loops.exhausted(it, ret.facts, n) if k == 1]
    cut = {e.nid for e in stores}
    good = None
    for d, k in inds:
        if not all(any(loops.coeq(it, e.idx[0], ph) for ph in d.scc) for e in stores):
            continue
        un = set()
        for ph in d.scc:
            if ph.a[0] not in cut:
                un |= reach(it, [ph.a[0]], cut)
        if any(s[0] in cut or True for s in d.steps) and not any(s[1][0] in un for s in d.steps):
            good = d
            break
    if good is None:
        return 'not every element of the source is transferred'
    # length
    full = ln is n or any(loops.coeq(it, ln, ph) for ph in good.scc)
    if not full:
        return 'the list may have a different length than its source'
    return (source[0].a[0][len(src) + 1:], source[1]), rel


def lenof(it, st, h):
    o, l, ix = it.loc(h)
    return it.ldmem(st, it.memget(st, o, l + ('#len',)), ix)


def c09(chk):
    p = chk.prog
    tg, t32 = adt(p, FG)['t'], adt(p, F32)['t']
    to = [r['path'] for r in p.public() if conv(p, r, 'FastGraph', 'FastGraph32')]
    back = [r['path'] for r in p.public() if conv(p, r, 'FastGraph32', 'FastGraph')]
    if not to or not back:
        raise Fail('conversion to or from the 32-bit form not found')
    for tp in to:
        for bp in back:
            it1, A, want1 = convmap(chk, p, tp, tg, t32, 'a0', True)
            it2, B_, want2 = convmap(chk, p, bp, t32, tg, 'a0', False)
            for k in want2:
                wh = '%s, then %s: %s%s' % (tp, bp, k[0], ''.join('.' + x for x in k[1]))
                if k not in B_ or B_[k][0] not in A:
                    chk.ob(False, 'conversion and back is the identity', wh, 'the part cannot be followed through both conversions')
                    continue
                s, rb = B_[k]
                s2, ra = A[s]
                if s2 != k:
                    chk.ob(False, 'conversion and back is the identity', wh, 'becomes %s%s' % (s2[0], ''.join('.' + x for x in s2[1])))
                    continue
                bad = compose(ra, rb, not k[1])
                chk.ob(not bad, 'conversion and back is the identity', wh, bad or '%d cases forwards, %d backwards' % (len(ra), len(rb)))
    chk.floor('conversion and back is the identity', 8, 'parts of the prepared graph')
    # the serde helpers use these conversions
    for nm, fn in (('serialize_32', to), ('deserialize_32', back)):
        r = p.roots.get(nm)
        if r is None:
            continue
        i = r['inst']
        if i is None or i not in p.bodies:
            raise Fail('%s was not analysed' % nm)
        chk.units.add(nm)
        names = {p.bodies[j]['fn']['path'] for j in p.reach([i])}
        chk.ob(bool(names & set(fn)), 'the serde helpers use the conversions', nm, '')


def compose(ra, rb, scalar):
    """forwards then backwards, case by case"""
    back = {}
    for x in rb:
        if x[0] == 'const':
            if back.get(x[2], x[3]) != x[3]:
                return 'not a function'
            back[x[2]] = x[3]
    for x in ra:
        if x[0] == 'const':
            K, c = x[2], x[3]
            r = back.get(c, c)
            if r != K and not (scalar and K == M64):
                return 'the value %d becomes %d, which becomes %d' % (K, c, r)
    for x in ra:
        if x[0] == 'id':
            for c, K in back.items():
                if c == K:
                    continue
                if x[1] is None:
                    return 'the value %d is kept, but becomes %d on the way back' % (c, K)
                if known(x[4], eq(x[1], I(c))) is not False and not below(x[4], x[1], c):
                    return 'the value %d is kept, but becomes %d on the way back' % (c, K)
    # a special value is special in every case
    for rel, word in ((ra, 'forwards'), (rb, 'backwards')):
        special = {x[2] for x in rel if x[0] == 'const' and x[2] != x[3]}
        for x in rel:
            if x[0] == 'id' and x[1] is not None:
                for K in special:
                    if known(x[4], eq(x[1], I(K))) is not False and not below(x[4], x[1], K):
                        return 'the value %d is converted only in some cases (%s)' % (K, word)
    return None


def conv(p, r, a, b):
    if '::_::' in r['path'] or r['path'].startswith('<'):
        return False
    body = p.bodies[r['inst']]
    if body['argc'] != 1:
        return False

    def name(t):
        y = p.tys[t]
        while y['k'] in ('ref', 'ptr'):
            y = p.tys[y['t']]
        return y['adt'].split('::')[-1] if y['k'] == 'adt' and y['crate'] == p.D['crate'] else None
    return name(body['locals'][1]) == a and name(body['locals'][0]) == b
