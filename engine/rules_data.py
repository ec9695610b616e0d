"""C14 saturating weights, C16 write errors, C17 text formats, C11 freezing, C09 32-bit form, C18 orderings."""
import re
import flow
import interp
import loops
from rules_query import leaves
from base import Fail
from graph import *
from interp import known
from rules_api import IG, MULTI, PC, adt, ig_fields, argty, ty_is, fieldname, lenterm, numnodes
from terms import *

FB = 'fast_graph_builder::FastGraphBuilder'


# ------------------------------------------------------------------------------------------------ C14
def weightroots(p):
    """analysed functions in which weights are added, and what counts as a weight coming in"""
    for path in (FB + '::build_with_params', FB + '::build_with_order_with_params', MULTI):
        yield path
    for r in p.public():
        if '::_::' in r['path'] or r['path'] in (MULTI,) or r['path'].startswith(FB):
            continue
        yield r['path']


def seed(p, it, x):
    """x is the initial content of a weight field, or of the weights of a list of sources / targets"""
    if x.op == 'm0' and x.a[0].op == 'init' and x.a[1]:
        if x.a[1][-1] == 'weight':
            return True
        if x.a[1] == ('[]', '1') and x.a[0].a[1] is not None:
            y = p.tys[it.strip_ref(x.a[0].a[1])]
            return 'usize, usize' in y['s']
    if x.op == 'init' and x.a[0].endswith('.weight'):
        return True
    return False


def weighty(p, it):
    memo = {}

    def w(t):
        if isint(t):
            return False
        if t not in memo:
            memo[t] = any(seed(p, it, x) for x in flow.sources(it, t))
        return memo[t]
    return w


def c14(chk):
    p = chk.prog
    total = 0
    for path in weightroots(p):
        try:
            it = p.run(path)
        except Fail:
            raise
        chk.units.add(path)
        w = weighty(p, it)
        for e in evs(it, 'arith'):
            x, y = e.x, e.y
            if not (w(x) or w(y)):
                continue
            t = p.tys[e.t]
            total += 1
            wh = '%s in %s' % (it.body(e.bid).path, path)
            if e.op == 'sadd':
                chk.ob(True, 'weights are added saturating', wh, '%s + %s' % (show(x, 2), show(y, 2)))
            elif e.op == 'checked':
                chk.ob(True, 'weights are added saturating', wh, 'checked')
            elif e.op in ('Add', 'Mul') and it.bits(e.t) > 64:
                chk.ob(True, 'weights are added saturating', wh, 'in %d bits' % it.bits(e.t))
            elif e.op == 'Sub' or e.op == 'wrapping_sub':
                ok = known(e.facts, lt(x, y)) is False
                chk.ob(ok or isint(x) and x is MAX, 'weights are never subtracted below zero', wh, e.sp)
            else:
                ok = e.op == 'Add' and nowrap(e.facts, x, y)
                chk.ob(ok, 'weights are added saturating', wh, 'plain %s of weights at %s: %s, %s' % (e.op, e.sp, show(x, 3), show(y, 3)))
        for e in evs(it, 'cast'):
            if e.tb < e.fb and w(e.v) and not e.fb > 64:
                chk.ob(False, 'weights are not narrowed', it.body(e.bid).path, e.sp) if not to32(it, e) else None
            elif e.fb > 64 and e.tb < e.fb and w(e.v):
                ok = e.v.op == 'min' and any(isint(z) and z.a[0] <= (1 << e.tb) - 1 for z in e.v.a) or known(e.facts, lt(I((1 << e.tb) - 1), e.v)) is False
                chk.ob(ok, 'weights are not narrowed', it.body(e.bid).path, e.sp)
        # an overflow must not end in a panic, and an overflowed value must not be used
        for e in evs(it, 'panic'):
            for c, tr in e.facts.items():
                if c.op == 'ovf' and tr and (w(c.a[1]) or w(c.a[2])):
                    chk.ob(False, 'too large sums are unreachable', where(it, e), 'panics when a sum of weights is too large')
        def bad(t):
            return any(s.op == 'wrapped' and (w(s.a[0]) or w(s.a[1])) for s in subterms(t))

        def merges(t):
            """phis that may be a wrapped sum"""
            seen, work = set(), [t]
            while work:
                for x in subterms(work.pop()):
                    if x.op == 'phi' and x not in seen and len(seen) < 200:
                        seen.add(x)
                        work.extend(it.phiops.get(x, {}).values())
            return any(bad(o) for x in seen for o in it.phiops.get(x, {}).values())

        memo = {}

        def wraps(t, facts):
            if t not in memo:
                memo[t] = bad(t), not bad(t) and merges(t)
            if memo[t][0]:
                return True
            if not memo[t][1]:
                return False
            return mayhave(it, t, facts, bad)
        for e in evs(it, *WRITES):
            for k in ('val', 'item'):
                v = e.d.get(k)
                if isinstance(v, T):
                    for x in ([v] if v.op != 'agg' else [y for _, y in leaves(v)]):
                        if wraps(x, e.facts):
                            chk.ob(False, 'weights are added saturating', where(it, e), 'stores a sum that wrapped around')
        for n in live(it):
            have = it.instate[n].facts
            for c in have:
                if c.op in ('lt', 'eq') and bad(c):
                    chk.ob(False, 'weights are added saturating', path, 'compares a sum that wrapped around')
            for i, (t, _) in enumerate(it.succs[n]):
                st = it.incoming[t].get((n, i))
                if st is None or len(st.facts) == len(have):
                    continue
                for c in st.facts:
                    if c not in have and c.op in ('lt', 'eq') and any(wraps(x, have) for x in c.a):
                        chk.ob(False, 'weights are added saturating', path, 'compares a sum that wrapped around')
        # the value that takes the place of a sum that is too large
        for ph, ops in it.phiops.items():
            sums = {(x.a[0], x.a[1]) for x in ops.values() if x.op == 'sadd'}
            for e, x in ops.items():
                st = it.incoming[ph.a[0]].get(e)
                if st is None or x is MAX or x.op not in ('i', 'lin', 'phi', 'ld', 'init'):
                    continue
                for c, tr in st.facts.items():
                    if c.op == 'ovf' and tr and (w(c.a[1]) or w(c.a[2])) and ((c.a[1], c.a[2]) in sums or (c.a[2], c.a[1]) in sums):
                        chk.ob(False, 'too large sums are unreachable', path, 'a sum of weights that is too large becomes %s' % show(x, 2))
    chk.floor('weights are added saturating', 8, 'sums of weights in preparation and query')


def mayhave(it, t, facts, bad):
    """one of the values that t may have under these facts is bad"""
    work, seen = [(t, facts)], set()
    while work:
        x, f = work.pop()
        ps = [q for q in subterms(x) if q.op == 'phi' and q in it.phiops]
        if bad(x):
            return True
        for q in ps:
            if q in seen:
                continue
            seen.add(q)
            n = q.a[0]
            for e, o in it.phiops[q].items():
                st = it.incoming[n].get(e)
                if st is None:
                    continue
                ok = True
                for c, tr in f.items():
                    v = it.phiops[c].get(e) if c.op == 'phi' and c.a[0] == n and c in it.phiops else None
                    if v is not None and v.op == 'b' and v.a[0] is not tr or st.facts.get(c, tr) is not tr and not any(z.op == 'phi' and z.a[0] == n for z in subterms(c)):
                        ok = False
                if ok:
                    g = dict(f)
                    g.update(st.facts)
                    work.append((o, g))
    return False


def nowrap(f, x, y):
    return any(known(f, lt(sub(MAX, b), a)) is False for a, b in ((x, y), (y, x)))


def to32(it, e):
    return 'fast_graph32' in it.body(e.bid).path


# ------------------------------------------------------------------------------------------------ C16
def is_io(e):
    return e.path.startswith(('std::fs::', 'std::io::', '<std::fs::', '<std::io::', '<&std::fs::'))


OPENS = ('File::create', 'File::create_new', 'OpenOptions::open', 'fs::write', 'File::options')


def cpath(e):
    """call path without generics"""
    s = e.path
    while True:
        r = re.sub(r'<[^<>]*>(?=::|$)', '', s)
        if r == s:
            break
        s = r
    return s.replace('::::', '::')


def result_at(it, start, val, retnid):
    """values the term val (at node retnid) can have on paths that begin with the edges start=[(src, i, dst)]"""
    # phis that matter
    phis, work = set(), [val]
    while work:
        x = work.pop()
        for s in subterms(x):
            if s.op == 'phi' and s in it.phiops and s not in phis:
                phis.add(s)
                work.extend(it.phiops[s].values())
        if len(phis) > 300:
            return [val]
    bynode = {}
    for ph in phis:
        bynode.setdefault(ph.a[0], []).append(ph)
    out, seen = [], set()
    work = [((s, i), d, ()) for s, i, d in start]
    while work:
        edge, n, env = work.pop()
        if it.instate[n] is None:
            continue
        if n in bynode:
            d = dict(env)
            new = dict(d)
            for ph in bynode[n]:
                o = it.phiops[ph].get(edge)
                if o is not None:
                    new[ph] = rewrite(it, o, d)
            env = tuple(sorted(new.items(), key=lambda kv: kv[0].id))
        if (n, env) in seen:
            continue
        seen.add((n, env))
        if len(seen) > 20000:
            return [val]
        if n == retnid:
            out.append(rewrite(it, val, dict(env)))
        for i, (t, _) in enumerate(it.succs[n]):
            work.append(((n, i), t, env))
    return out


def rewrite(it, t, env):
    """replace phis by their values (only at variant level: aggregates and projections)"""
    if t in env:
        return env[t]
    if t.op == 'agg':
        return mk('agg', t.a[0], t.a[1], tuple((n, rewrite(it, v, env)) for n, v in t.a[2]))
    if t.op == 'proj':
        b = rewrite(it, t.a[0], env)
        return it.proj(b, t.a[1]) if b is not t.a[0] else t
    return t


def c16(chk):
    p = chk.prog
    writers = 0
    for r in p.public():
        if '::_::' in r['path']:
            continue
        seen = p.reach([r['inst']])
        ext = [f['path'] for i in seen for f, o, s in p.ext_calls(i)]
        if not any(x.endswith(OPENS) for x in ext):
            continue
        it = p.run(r['path'])
        calls = [e for e in evs(it, 'call') if is_io(e)]
        rets = list(evs(it, 'return'))
        writers += 1
        chk.units.add(r['path'])
        b = p.bodies[r['inst']]
        rt = p.tys[b['locals'][0]]
        chk.ob(rt['s'].startswith('std::result::Result<') and 'Error' in rt['s'], 'reports failures', r['path'], 'returns %s' % rt['s'])
        buffered = []
        flush = set()
        nfall = 0
        for e in calls:
            cp = cpath(e)
            res = mk('ev', e.nid, 'call', e.name)
            forks = [(i, t) for i, (t, s) in enumerate(it.succs[e.nid])]
            bads = []
            for i, t in forks:
                st = it.incoming[t].get((e.nid, i))
                if st is not None and known(st.facts, mk('is', res, 'Err')) is True:
                    bads.append((e.nid, i, t))
            dst = p.tys[0]
            t0 = None
            if cp.endswith('::flush'):
                flush.add(e.nid)
            elif cp.endswith('::into_inner'):
                flush.add(e.nid)
            elif 'Write::' in cp or '::write' in cp:
                raw = 'std::fs::File as' in e.name or e.name.startswith(('File as', '&File as', 'fs::write'))
                if not raw and not cp.endswith('fs::write'):
                    buffered.append(e)
                if cp.endswith('Write::write') or cp.endswith('write_vectored'):
                    chk.ob(False, 'everything is written', where(it, e), 'Write::write may write only a part')
            if not bads:
                if fallible(p, e):
                    chk.ob(False, 'failures are returned', where(it, e), 'the result of %s is never looked at' % e.name)
                continue
            nfall += 1
            okret = []
            for ret in rets:
                for v in result_at(it, bads, ret.val, ret.nid):
                    if v.op == 'agg' and v.a[1] == 'Err':
                        continue
                    if v is res:
                        continue
                    okret.append(ret)
                    break
            chk.ob(not okret, 'failures are returned', where(it, e), 'a failure of %s ends in Err or a panic' % e.name if not okret else 'after a failure of %s the function can still return success (%s)' % (e.name, okret[0].sp))
        chk.ob(bool(buffered) or any(cpath(e).endswith('fs::write') or 'Write::' in cpath(e) for e in calls), 'writes', r['path'], '%d write calls' % len(buffered))
        # flush after the last buffered write
        starts = set()
        for e in buffered:
            for i, (t, s) in enumerate(it.succs[e.nid]):
                st = it.incoming[t].get((e.nid, i))
                if st is not None and known(st.facts, mk('is', mk('ev', e.nid, 'call', e.name), 'Err')) is not True:
                    starts.add(t)
        un = reach(it, starts, cut=flush)
        for ret in rets:
            v = expand(it, ret.val)
            okv = [x for x in v if not (x.op == 'agg' and x.a[1] == 'Err')]
            if not okv:
                continue
            chk.ob(ret.nid not in un or not buffered, 'buffered data is flushed before success', r['path'], 'every successful return comes after flush' if ret.nid not in un else 'can return success (%s) with unwritten buffered data' % ret.sp)
    chk.floor('reports failures', 2, 'public functions that write files')
    chk.floor('failures are returned', 2, 'calls that can fail')


def fallible(p, e):
    """the call returns a Result"""
    n = e.path.split('::')[-1]
    if 'OpenOptions::' in e.path and n != 'open':
        return False
    return n in ('create', 'open', 'create_new', 'write_all', 'write_fmt', 'flush', 'write', 'into_inner', 'sync_all', 'sync_data', 'set_len', 'seek', 'write_str')


# ------------------------------------------------------------------------------------------------ C11
def c11(chk):
    import itertools
    import small
    p = chk.prog
    F = ig_fields(p)
    E, N = F['edges'], F['nodes']
    # ---- adding
    for nm, nargs in (('add_edge', 1), ('add_edge_bidir', 2)):
        path = IG + '::' + nm
        it = p.run(path)
        chk.units.add(path)
        ps = small.paths(it)
        push = {}
        for e in evs(it, 'push'):
            if touches(e, 'a0'):
                push.setdefault(e.nid, []).append(e)
        n = 0
        bad = set()
        # numbers the code compares with are worth trying, and their neighbours
        ks = {x.a[0] + d for facts, res, ret, nodes in ps for c in list(facts) + [ret.val] for x in subterms(c) if isint(x) for d in (-1, 0, 1)}
        ids = sorted(set(range(4)) | {k for k in ks if 0 <= k < 2 ** 63})[:8]
        wts = sorted(set(range(3)) | {k for k in ks if 0 <= k < 2 ** 64})[:12]
        for facts, res, ret, nodes in ps:
            pushed = [e for x in nodes for e in push.get(x, ())]
            # what is the node count at the end
            root = ret.env.get((-1, 'a0'))
            end = it.proj(root, N)
            for frm, to, w, old in itertools.product(ids, ids, wts, range(6)):
                env = small.Env({'a0.' + F['frozen']: False, 'a0.' + N: old, 'a1': frm, 'a2': to, 'a3': w})
                try:
                    f2 = {c: t for c, t in facts.items() if not logonly(c)}
                    if not small.holds(f2, env, res):
                        continue
                    got = sorted(tuple(small.ev(dict(e.val.a[2])[k], env, res) for k in ('from', 'to', 'weight')) for e in pushed)
                    cnt = small.ev(ret.val, env, res)
                    nn = small.ev(end, env, res)
                except (small.Unknown, KeyError) as x:
                    raise Fail('%s: cannot evaluate %s' % (path, x))
                n += 1
                good = frm != to and w > 0
                want = sorted([(frm, to, w)] + ([(to, frm, w)] if nargs == 2 else [])) if good else []
                if got != want:
                    bad.add('adding (from=%d, to=%d, weight=%d) stores %s' % (frm, to, w, got))
                if cnt != len(got):
                    bad.add('adding (from=%d, to=%d, weight=%d) stores %d edge(s) but reports %d' % (frm, to, w, len(got), cnt))
                wantn = max(old, max(frm, to) + 1) if good else old
                if nn != wantn:
                    bad.add('node count after adding (from=%d, to=%d, weight=%d) to %d nodes: %d' % (frm, to, w, old, nn))
        chk.ob(n >= 100 and not bad, 'adding', path, '%d cases of %d paths' % (n, len(ps)) if not bad else sorted(bad)[0])
        at = {(e.nid, e.at) for es in push.values() for e in es}
        oth = [e for e in evs(it, *WRITES) if e.kind != 'push' and touches(e, 'a0') and not (e.kind == 'setp' and e.steps and e.steps[0][1] == N) and not (e.kind == 'store' and (e.nid, e.idx[0]) in at)]
        chk.ob(not oth, 'adding changes nothing else', path if not oth else where(it, oth[0]), '' if not oth else oth[0].kind)
    # ---- nothing else adds edges
    for r in p.public():
        if '::_::' in r['path'] or r['path'].split('::')[-1] in ('add_edge', 'add_edge_bidir') or 'Deserialize' in r['path']:
            continue
        if not any(b['fn']['path'].startswith(IG) for b in (p.bodies[i] for i in p.reach([r['inst']]))):
            continue
        it = p.run(r['path'])
        for e in evs(it, 'push'):
            if e.val.op == 'agg' and e.val.a[0].split('::')[-1] == 'Edge' and e.val.a[0].startswith(('input_graph', 'Edge')):
                d = dict(e.val.a[2])
                if copyof(it, d):
                    continue
                ok = known(e.facts, eq(d['from'], d['to'])) is False and known(e.facts, eq(d['weight'], I(0))) is False
                chk.ob(ok, 'only valid edges are stored', where(it, e), 'not a loop, weight > 0' if ok else 'may store a loop or an edge without weight (in %s)' % r['path'])
    # ---- freezing
    path = IG + '::freeze'
    it = p.run(path)
    chk.units.add(path)
    bulk = {}
    for e in evs(it, 'bulk'):
        bulk[e.nid] = e
    for ret in evs(it, 'return'):
        st = it.instate[ret.nid]
        root = ret.env.get((-1, 'a0'))
        h = it.proj(root, E)
        o, l, ix = it.loc(h)
        if o.op == 'obj':
            kept(chk, it, bulk, path, o, E)
            continue
        for f in ('from', 'to', 'weight'):
            chain(chk, it, bulk, path, ret, it.memget(st, o, l + ('[]', f)), f)
    for n, e in sorted(bulk.items()):
        chk.ob(e.whole, 'the whole list is processed', where(it, e), e.name)
    chk.ob(not [e for e in evs(it, 'store', 'storec', 'push', 'vpop', 'vtrunc', 'vremove', 'vinsert', 'vclear') if touches(e, 'a0')], 'freezing changes no edge', path, '')
    chk.floor('sorted by node pair and weight', 1, 'sort of the edge list')
    chk.floor('one edge per node pair', 1, 'removal of duplicates')


def copyof(it, d):
    """the fields are those of one stored edge"""
    where_ = set()
    for f, v in d.items():
        if v.op != 'ld' or len(v.a[1]) != 1:
            return False
        x = v.a[0]
        while x.op in ('sort', 'dedup', 'retain', 'rev', 'newlen'):
            x = x.a[0]
        if x.op == 'm0':
            o, l = x.a
        elif x.op == 'phi' and x.a[1][0] == 'm':
            o, l = x.a[1][1], x.a[1][2]
        else:
            return False
        if l != ('[]', f):
            return False
        where_.add((o, v.a[1]))
    return len(where_) == 1


def logonly(c):
    return any(s.op in ('logcmp',) or s.op == 'static' for s in subterms(c))


def sortedby(chk, it, bulk, x, f, say=True):
    """(what is sorted, whether it is in order, whether duplicates are gone, the operations)"""
    p = chk.prog
    ops = []
    while x.op in ('sort', 'dedup', 'retain', 'rev', 'newlen'):
        ops.append((x.op, next((a for a in x.a[1:] if isinstance(a, int)), None)))
        x = x.a[0]
    ops.reverse()
    srt = done = False
    cmps = []
    bad = None
    for j, (k, nid) in enumerate(ops):
        e = bulk.get(nid)
        if k == 'sort' and e is not None:
            cmps.append(e)
            srt, why = sortok(p, cmps)
            if j + 1 < len(ops) and ops[j + 1][0] == 'sort' and not srt:
                # what counts is the order after the last one
                continue
            if f == 'from' and say:
                chk.ob(srt, 'sorted by node pair and weight', where(it, e), why)
        elif k == 'dedup' and e is not None:
            d, why = dedupok(p, e)
            if f == 'from' and say:
                chk.ob(d, 'one edge per node pair', where(it, e), why)
                chk.ob(srt, 'duplicates are removed from a sorted list', where(it, e), 'sorted before' if srt else 'the list is not sorted by node pair and weight at this point')
            done = done or (d and srt)
        else:
            bad = k
    return x, srt, done, ops, bad


def chain(chk, it, bulk, path, ret, m, f):
    """the content of the edge list at the end: sorted, then without duplicates"""
    for src in memsources(it, m):
        x, srt, done, ops, bad = sortedby(chk, it, bulk, src, f)
        if x.op != 'm0':
            chk.ob(False, 'frozen content', path, 'the edges after freezing are not those that were added: %s' % show(src, 4))
            continue
        if bad:
            chk.ob(False, 'frozen content', path, 'unexpected %s' % bad)
        short = any(c.op == 'lt' and not tr and isint(c.a[0]) and c.a[0].a[0] <= 1 for c, tr in ret.facts.items())
        chk.ob(done or short, 'frozen content', '%s: %s' % (path, f), ' then '.join(k for k, _ in ops) if done else 'can finish without removing duplicate edges')


def kept(chk, it, bulk, path, o, E):
    """the edges are copied to a new list, each one unless the last copy connects the same nodes"""
    from norm import norm
    from paths import paths, natural, leaving
    from rules_term import memname
    N = norm(it)
    R = 'one edge per node pair'
    ws = [e for e in evs(it, *WRITES) if isinstance(e.d.get('obj'), T) and rootobj(N.nf(e.obj)) is o]
    pushes = [e for e in ws if e.kind == 'push']
    at = {(e.nid, N.nf(e.at)) for e in pushes}
    oth = [e for e in ws if e.kind != 'push' and not (e.kind == 'store' and (e.nid, N.nf(e.idx[0])) in at)]
    if oth or not pushes:
        chk.ob(False, 'frozen content', where(it, (oth or ws or [None])[0]) if oth or ws else path, 'the way the new list of edges is built is not recognised')
        return
    ks, srcs = set(), {}
    for e in pushes:
        for f, v in N.nf(e.val).a[2] if N.nf(e.val).op == 'agg' else ():
            if v.op == 'ld' and len(v.a[1]) == 1:
                ks.add(v.a[1][0])
                srcs.setdefault(f, set()).add(v.a[0])
            else:
                ks.add(None)
    if len(ks) != 1 or None in ks or set(srcs) != {'from', 'to', 'weight'} or any(len(x) != 1 for x in srcs.values()):
        chk.ob(False, 'frozen content', where(it, pushes[0]), 'the new list is not made of the edges that were added')
        return
    k, = ks
    srt = True
    for f, x in srcs.items():
        m, ok, _, ops, bad = sortedby(chk, it, bulk, next(iter(x)), f)
        ok = ok and not bad and m.op == 'm0' and m.a[0].op == 'init' and m.a[0].a[0] == 'a0.' + E and m.a[1] == ('[]', f)
        srt = srt and ok
    chk.ob(srt, 'duplicates are removed from a sorted list', where(it, pushes[0]), 'copied from the sorted list' if srt else 'the list is not sorted by node pair and weight at this point')
    d = loops.induction(it, k)
    up = d is not None and all(N.nf(v) is I(0) for _, _, v in d.inits) and all(s[3] == 1 for s in d.steps)
    body = natural(it, k.a[0]) if up else None
    if not body:
        chk.ob(False, 'frozen content', where(it, pushes[0]), 'the edges are not copied one after the other')
        return

    def lenof(t):
        return t.op == 'ld' and t.a[0].op == 'm0' and t.a[0].a[0].op == 'init' and t.a[0].a[0].a[0] == 'a0.' + E and t.a[0].a[1] == ('#len',)
    for (n, i) in leaving(it, body):
        f = N.facts(it.incoming[it.succs[n][i][0]][(n, i)].facts)
        ok = any(c.op == 'lt' and not v and c.a[0] is k and lenof(c.a[1]) or c.op == 'eq' and v and k in c.a and any(lenof(x) for x in c.a) for c, v in f.items())
        chk.ob(ok, 'frozen content', path, 'all edges are looked at' if ok else 'can stop before all edges were copied')

    def elem(t):
        """(field, which edge) : 'this' one, the 'last' copy or the one before"""
        if t.op != 'ld' or len(t.a[1]) != 1:
            return None
        for f, x in srcs.items():
            if t.a[0] in x:
                w = 'this' if t.a[1][0] is k else 'last' if constdiff(t.a[1][0], k) == -1 else None
                return w and (f, w)
        m = memname(t.a[0])
        if m and rootobj(N.nf(m[0])) is o and len(m[1]) == 2:
            i = t.a[1][0]
            b, off = loops.base_off(i)
            if off == -1 and b is not None and b.op == 'phi' and b.a[1][0] == 'm' and rootobj(N.nf(b.a[1][1])) is o and b.a[1][2] == ('#len',):
                return m[1][1], 'last'
        return None

    def cmp(c):
        if c.op == 'eq':
            a, b = elem(c.a[0]), elem(c.a[1])
            if a and b and a[0] == b[0] and {a[1], b[1]} == {'this', 'last'}:
                return a[0]
        return None

    def first(c):
        if c.op != 'eq' or I(0) not in c.a:
            return False
        x = c.a[0] if c.a[1] is I(0) else c.a[1]
        return x is k or x.op == 'phi' and x.a[1][0] == 'm' and rootobj(N.nf(x.a[1][1])) is o and x.a[1][2] == ('#len',)
    n = 0
    for q in paths(it, k.a[0], body):
        if q.why != 'round':
            continue
        n += 1
        ps = [e for e, _ in (x for x in q.events if not isinstance(x[0], str)) if e in pushes]
        same = {cmp(c) for c, v in q.facts.items() if v} >= {'from', 'to'}
        diff = any(cmp(c) in ('from', 'to') and not v or first(c) and v or c.op == 'and' and not v and {cmp(x) for x in c.a} == {'from', 'to'} for c, v in q.facts.items())
        if len(ps) == 1:
            chk.ob(diff, R, where(it, ps[0]), 'kept if no edge between these nodes was kept before' if diff else 'an edge can be kept although another one between the same nodes is')
        else:
            chk.ob(not ps and same, R, where(it, pushes[0]), 'left out if an edge between the same nodes was kept' if not ps and same else 'an edge can be left out although none between the same nodes is kept')
    chk.ob(n > 0, 'frozen content', path, 'copied with %d cases' % n)


def memsources(it, m):
    out, seen, work = [], set(), [m]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and x in it.phiops:
            work += it.phiops[x].values()
        else:
            out.append(x)
    return out


def ordval(v):
    return {'Less': -1, 'Equal': 0, 'Greater': 1}.get(v)


def keyfn(p, e, names):
    """comparison function over (from, to, weight) triples from the closure of a sort"""
    import small
    inst = small.closure_body(p, e.clty)
    b = p.bodies[inst]
    sh = 1 if b['closure'] else 0
    it, f = small.table(p, inst, None, None)
    fl = ('from', 'to', 'weight')
    if e.name in names:
        def cmp(x, y):
            env = {}
            for k, v in zip(fl, x):
                env['a%d.%s' % (sh, k)] = v
            for k, v in zip(fl, y):
                env['a%d.%s' % (sh + 1, k)] = v
            return f(env)
        return cmp, False

    def key(x):
        return f({'a%d.%s' % (sh, k): v for k, v in zip(fl, x)})
    return key, True


def sortok(p, es):
    """the order after sorting with es one after the other (a stable sort keeps the order of what it takes as equal)"""
    import itertools
    import small
    dom = list(itertools.product(range(3), range(3), range(2)))
    try:
        T_ = None
        for e in es:
            if e.closure is None:
                return False, 'sorted by the default order of edges'
            g, iskey = keyfn(p, e, ('sort_by', 'sort_unstable_by'))
            if iskey:
                keys = {x: g(x) for x in dom}
                c = lambda x, y: (keys[x] > keys[y]) - (keys[x] < keys[y])
            else:
                c = lambda x, y: ordval(g(x, y))
            old = T_ if 'unstable' not in e.name else None
            T_ = {(x, y): c(x, y) for x in dom for y in dom}
            if old:
                T_ = {k: v or old[k] if v is not None else None for k, v in T_.items()}
    except (small.Unknown, TypeError) as x:
        return False, 'cannot evaluate the order: %s' % x
    if any(v is None for v in T_.values()):
        return False, 'not an order'
    for x in dom:
        for y in dom:
            if T_[x, y] != -T_[y, x]:
                return False, 'not an order: %s, %s' % (x, y)
            if x[:2] == y[:2] and T_[x, y] != (x[2] > y[2]) - (x[2] < y[2]):
                return False, 'edges between the same nodes are not sorted by weight: %s, %s' % (x, y)
            if x[:2] != y[:2]:
                k = {T_[x[:2] + (a,), y[:2] + (b,)] for a in range(2) for b in range(2)}
                if len(k) != 1 or 0 in k:
                    return False, 'edges between the same nodes need not be next to each other: %s, %s' % (x, y)
    for x in dom:
        for y in dom:
            if T_[x, y] < 0:
                for z in dom:
                    if T_[y, z] < 0 and T_[x, z] >= 0:
                        return False, 'not transitive: %s, %s, %s' % (x, y, z)
    return True, 'groups node pairs, cheapest first (%d pairs of edges compared)' % len(T_)


def dedupok(p, e):
    import itertools
    import small
    dom = list(itertools.product(range(3), range(3), range(2)))
    try:
        g, iskey = keyfn(p, e, ('dedup_by',))
        for x in dom:
            for y in dom:
                same = g(x, y) is True if not iskey else g(x) == g(y)
                if same != (x[:2] == y[:2]):
                    return False, 'treats %s and %s as %s' % (x, y, 'the same connection' if same else 'different connections')
    except (small.Unknown, TypeError) as x:
        return False, 'cannot evaluate: %s' % x
    return True, 'equal iff same node pair'
