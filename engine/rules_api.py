"""C12 frozen/thawed typestate, C13 argument validation, C21 equivalent entry points."""
import re
import interp
import loops
from base import Fail
from graph import *
from terms import *
from interp import known

IG = 'input_graph::InputGraph'
PC = 'path_calculator::PathCalculator'
MULTI = PC + '::calc_path_multiple_sources_and_targets'


def adt(p, path):
    for a in p.D['adts']:
        if a['path'] == path:
            return a
    raise Fail('type %s not found' % path)


def ig_fields(p):
    """names of the edge list, node count and frozen flag of InputGraph"""
    y = p.tys[adt(p, IG)['t']]
    r = {}
    for f in y['variants'][0]['f']:
        t = p.tys[f['t']]
        k = 'frozen' if t['k'] == 'bool' else 'nodes' if t['s'] == 'usize' else 'edges' if t['s'].startswith(('std::vec::Vec<', 'Vec<')) else None
        if k is None or k in r:
            if f['n'] in ('frozen', 'num_nodes', 'edges'):
                r[{'num_nodes': 'nodes'}.get(f['n'], f['n'])] = f['n']
            continue
        r[k] = f['n']
    if set(r) != {'frozen', 'nodes', 'edges'}:
        raise Fail('cannot tell the parts of InputGraph apart: %s' % r)
    return r


def argty(p, inst, i):
    return p.bodies[inst]['locals'][i + 1]


def ty_is(p, t, name):
    y = p.tys[t]
    mut = False
    while y['k'] in ('ref', 'ptr'):
        mut = y.get('mut', False)
        y = p.tys[y['t']]
    return (y['k'] == 'adt' and y['adt'].endswith(name) and y['crate'] == p.D['crate']), mut


EXEMPT = ('unit_test_output_string', 'fmt', 'clone', 'clone_from', 'serialize', 'eq', 'ne', 'hash')


def final(it, e, root):
    return e.env.get(root)


def c12(chk):
    p = chk.prog
    F = ig_fields(p)
    fr = 'a%d.' + F['frozen']
    for f in p.tys[adt(p, IG)['t']]['variants'][0]['f']:
        if 'pub' in f:
            chk.ob(not f['pub'], 'parts are private', IG + '.' + f['n'], 'not accessible from outside the crate')
    seen = {}
    for r in p.public():
        if "::_::" in r['path']:
            continue
        b = p.bodies[r['inst']]
        for i in range(b['argc']):
            is_ig, mut = ty_is(p, argty(p, r['inst'], i), 'InputGraph')
            if not is_ig or p.tys[argty(p, r['inst'], i)]['k'] != 'ref':
                continue
            name = b['fn']['name']
            it = p.run(r['path'])
            chk.units.add(r['path'])
            flag = None
            fz = mk('init', 'a%d.%s' % (i, F['frozen']), ftype(p, F['frozen']))
            where0 = r['path']
            seen[name] = 1
            if mut:
                rt = p.tys[b['locals'][0]]
                esc = rt['k'] == 'ref' and rt['mut']
                chk.ob(not esc, 'no way around', where0, 'returns no mutable reference')
                nw = 0
                thaws = False
                # nodes that can be reached without having seen that the graph is not frozen
                bad = uncut(it, lambda f: known(f, fz) is False)
                for e in evs(it, *WRITES):
                    if not touches(e, 'a%d' % i):
                        continue
                    flagw = e.kind == 'setp' and len(e.steps) == 1 and e.steps[0][:2] == ('f', F['frozen'])
                    nw += 1
                    if flagw and e.val is FALSE:
                        continue
                    if flagw and e.val is fz:
                        continue
                    ok = e.nid not in bad or known(e.facts, fz) is False
                    chk.ob(ok, 'changes only a graph that is not frozen', where0, 'the %s is only changed when not frozen' % (e.steps[0][1] if e.kind == 'setp' and e.steps else 'edge list') if ok else '%s at %s can happen on a frozen graph' % (e.kind, where(it, e)))
                rets = list(evs(it, 'return'))
                for e in rets:
                    root = e.env.get((-1, 'a%d' % i))
                    end = it.proj(root, F['frozen']) if root is not None else fz
                    endv = set(expand(it, end))
                    if name in ('add_edge', 'add_edge_bidir'):
                        ok = e.nid not in bad or known(e.facts, fz) is False
                        chk.ob(ok, 'adding to a frozen graph panics', where0, 'returns only if not frozen' if ok else 'can return normally on a frozen graph (%s)' % e.sp)
                        chk.ob(endv <= {fz, FALSE}, 'adding leaves the graph thawed', where0, show(end))
                    elif name == 'freeze':
                        ok = e.nid not in bad or known(e.facts, fz) is False
                        chk.ob(ok, 'freezing twice panics', where0, 'returns only if not frozen' if ok else 'can return normally on a frozen graph (%s)' % e.sp)
                        chk.ob(endv == {TRUE}, 'freeze freezes', where0, 'ends frozen' if endv == {TRUE} else 'can end with frozen = %s' % show(end))
                    elif name == 'thaw':
                        chk.ob(endv == {FALSE}, 'thaw thaws', where0, 'ends thawed')
                        chk.ob(nw <= 1, 'thaw changes nothing else', where0, '%d writes' % nw)
                    else:
                        # an operation that unfreezes without touching anything is fine; everything else was checked above
                        pass
            elif name not in EXEMPT:
                bad = uncut(it, lambda f: known(f, fz) is True)
                for e in evs(it, 'return'):
                    ok = e.nid not in bad or known(e.facts, fz) is True
                    if name.startswith('to_') and all(v.op == 'agg' and v.a[1] == 'Err' for v in expand(it, e.val)):
                        continue  # the file could not be created
                    chk.ob(ok, 'reading needs a frozen graph', where0, 'returns only if frozen' if ok else 'can return normally on a graph that is not frozen (%s)' % e.sp)
                for e in evs(it, 'load'):
                    if touches(e, 'a%d' % i):
                        ok = e.nid not in bad or known(e.facts, fz) is True
                        chk.ob(ok, 'edges are only read when frozen', where(it, e).split(' (')[0], 'frozen is known' if ok else 'read without check (%s)' % e.sp)
                for e in evs(it, *WRITES):
                    chk.ob(not touches(e, 'a%d' % i), 'reading changes nothing', where0, e.sp)
    for n in ('add_edge', 'add_edge_bidir', 'freeze', 'thaw', 'get_edges', 'get_num_nodes', 'get_num_edges', 'to_file', 'to_dimacs_file', 'build', 'build_with_params', 'build_with_order', 'build_with_order_with_params', 'prepare', 'prepare_with_params', 'prepare_with_order', 'prepare_with_order_with_params'):
        chk.ob(n in seen, 'operation exists', n, 'analysed')
    # a new graph is not frozen
    for q in (IG + '::new', '<input_graph::InputGraph as std::default::Default>::default'):
        if q in p.roots:
            it = p.run(q)
            for e in evs(it, 'return'):
                chk.ob(it.proj(e.val, F['frozen']) is FALSE, 'a new graph is thawed', q, show(e.val, 3))


def ftype(p, name):
    for f in p.tys[adt(p, IG)['t']]['variants'][0]['f']:
        if f['n'] == name:
            return f['t']


# ------------------------------------------------------------------------------------------------ C13

def numnodes(p, it, i, ty):
    """terms that stand for the node count of argument i of the given type"""
    r = set()
    for a in p.D['adts']:
        if a['path'] == ty:
            for f in p.tys[a['t']]['variants'][0]['f']:
                if p.tys[f['t']]['s'] == 'usize':
                    r.add(mk('init', 'a%d.%s' % (i, f['n']), f['t']))
    return r


def c13(chk):
    p = chk.prog
    n = 0
    for path in (MULTI, PC + '::calc_path', 'calc_path', 'calc_path_multiple_sources_and_targets'):
        it = p.run(path)
        inst = p.root(path)['inst']
        b = p.bodies[inst]
        chk.units.add(path)
        gi = ci = None
        lists, nodes = [], []
        for i in range(b['argc']):
            t = argty(p, inst, i)
            y = p.tys[it.strip_ref(t)]
            if ty_is(p, t, 'FastGraph')[0]:
                gi = i
            elif ty_is(p, t, 'PathCalculator')[0]:
                ci = i
            elif it.is_container(it.strip_ref(t)):
                lists.append(i)
            elif y['k'] == 'uint':
                nodes.append(i)
        if gi is None or len(lists) + len(nodes) != 2:
            raise Fail('unexpected arguments of %s' % path)
        gn = numnodes(p, it, gi, 'fast_graph::FastGraph')
        cn = numnodes(p, it, ci, PC) if ci is not None else set()
        N = gn | cn
        conds = []
        if ci is not None:
            def same(f):
                return any(known(f, eq(x, y)) is True for x in gn for y in cn)
            conds.append(('node counts agree', same))
        for i in lists:
            h = it.rootargs[i]
            hh = h if h.op != 'ref' else None
            ln = lenterm(it, i)

            def nonempty(f, ln=ln):
                return known(f, eq(ln, I(0))) is False
            conds.append(('list %d is not empty' % i, nonempty))

            def allvalid(f, i=i, ln=ln):
                def pr(fs, idx):
                    for c, tr in fs.items():
                        if tr and c.op == 'lt' and c.a[1] in N and elem0(c.a[0], i, idx):
                            return True
                    return False
                return loops.forall(it, f, ln, pr) is not None
            conds.append(('every node of list %d exists' % i, allvalid))
        for i in nodes:
            v = it.rootargs[i]

            def valid(f, v=v):
                if any(known(f, lt(v, x)) is True for x in N):
                    return True

                def pr(fs, idx):
                    for c, tr in fs.items():
                        if tr and c.op == 'lt' and c.a[1] in N and single(c.a[0], v, idx):
                            return True
                    return False
                return loops.forall(it, f, I(1), pr) is not None
            conds.append(('node argument %d exists' % i, valid))
        for nm, pred in conds:
            bad = uncut(it, pred)
            rets = list(evs(it, 'return'))
            n += 1
            off = [e for e in rets if e.nid in bad and not pred(e.facts)]
            chk.ob(bool(rets) and not off, 'no answer without validation', '%s: %s' % (path, nm), 'checked on every path to a return' if not off else 'a return (%s) is reachable without this check' % off[0].sp)
            if ci is not None:
                ws = [e for e in evs(it, *WRITES) if touches(e, 'a%d' % ci)]
                off = [e for e in ws if e.nid in bad and not pred(e.facts)]
                chk.ob(not off, 'nothing is changed before validation', '%s: %s' % (path, nm), '%d writes of calculator state come later' % len(ws) if not off else '%s (%s) changes the calculator before this check' % (off[0].kind, off[0].sp))
            # no panic on valid input before ... the check itself must panic: the complementary path must not return
    chk.floor('no answer without validation', 14, 'conditions of the four query functions')


def lenterm(it, i):
    st = it.instate[it.entry]
    v = it.rootargs[i]
    if v.op == 'ref':
        v = it.read(st, v.a[0], v.a[1], None, True)
    return it.clen(st, v)


def elem0(t, i, idx):
    """t is the node id of entry idx of list argument i"""
    if t.op != 'ld' or t.a[1] != (idx,):
        return False
    m = t.a[0]
    return m.op == 'm0' and m.a[0].op == 'init' and m.a[0].a[0] == 'a%d' % i and m.a[1] == ('[]', '0')


def single(t, v, idx):
    """t is entry idx of a one-element list holding v"""
    if t is v:
        return True
    if t.op == 'ld' and t.a[1] == (idx,):
        m = t.a[0]
        return m.op == 'st' and m.a[1] == (I(0),) and m.a[2] is v and m.a[0].op in ('mempty', 'm0')
    if t.op == 'proj' and t.a[1] == '0' and t.a[0].op == 'aidx' and t.a[0].a[1] is idx:
        arr = t.a[0].a[0]
        return len(arr.a[2]) == 1 and arr.a[2][0][1].op == 'agg' and arr.a[2][0][1].a[2][0][1] is v
    return False


# ------------------------------------------------------------------------------------------------ C21

def calls_of(it, names):
    return [e for e in evs(it, 'call') if e.path in names]


def run_noinline(p, path, names):
    it = interp.Interp(p.D, noinline=names)
    it.maxnodes = 60000
    it.run(p.root(path)['inst'])
    return it


def entered(p, path):
    it = p.run(path)
    return [it.body(c[2]).path for c in it.ctxs if not it.body(c[2]).j['closure'] and it.body(c[2]).j['fn']['crate'] == p.D['crate']]


def argform(it, e, k):
    """canonical form of argument k of a call event"""
    v = e.vals[k]
    a = e.args[k]
    st = interp.State({}, e.mem or {}, {})

    def form(x):
        if x.op in ('obj', 'init', 'inner') and it.maybe_container(st, x) or x.op == 'obj':
            if x.op == 'init':
                return ('list', x.a[0])
            ln = it.clen(st, x)
            if ln is I(1):
                o, l, i = it.loc(x)
                fields = []
                for kk in sorted((q for q in st.mem if q[0] is o and q[1] and q[1][0] == '[]'), key=str):
                    fields.append(form(it.ldmem(None, st.mem[kk], (I(0),))))
                return ('one',) + tuple(fields)
            return ('?', show(x))
        if x.op == 'agg' and x.a[0] == 'array':
            if len(x.a[2]) == 1:
                el = x.a[2][0][1]
                return ('one',) + tuple(form(z) for _, z in el.a[2]) if el.op == 'agg' else ('one', form(el))
            return ('?', show(x))
        if x.op == 'agg':
            return ('agg', x.a[0], x.a[1]) + tuple((n, form(z)) for n, z in x.a[2])
        if x.op == 'init':
            return ('arg', x.a[0])
        if x.op == 'ev' and x.a[1] == 'call':
            q = [c for c in it.events[x.a[0]] if c.kind == 'call' and c.name == x.a[2]]
            if q:
                return ('res', q[-1].path) + tuple(argform(it, q[-1], j) for j in range(len(q[-1].vals)))
        if x.op == 'i':
            return ('i', x.a[0])
        if x.op == 'slice':
            return form(x.a[0])
        return ('t', show(x, 4))
    return form(v)


def result_of(it, core):
    """the calls of core whose results are returned; None if something else can be returned"""
    outs = []
    for e in evs(it, 'return'):
        for v in expand(it, e.val):
            x = v
            if x.op == 'agg' and x.a[1] in ('Some', 'Ok', 'Err') and len(x.a[2]) == 1:
                y = x.a[2][0][1]
                if y.op == 'proj' and y.a[1] == x.a[1] + '.0':
                    x = y.a[0]
            elif x.op == 'agg' and x.a[1] == 'None':
                c = [k for k, tr in e.facts.items() if tr and k.op == 'is' and k.a[1] == 'None' and k.a[0].op == 'ev']
                if len(c) >= 1:
                    x = c[0].a[0]
            q = [c for c in it.events[x.a[0]] if c.kind == 'call' and c.path == core] if x.op == 'ev' and x.a[1] == 'call' else []
            if not q:
                return None, show(v, 3)
            outs.append(q[-1])
    return outs, None


def same_op(chk, short, full, mapping, fresh=()):
    """`short` returns the result of the operation `full` would, with the arguments given by mapping"""
    p = chk.prog
    def candidates():
        yield full
        a, b = entered(p, short), entered(p, full)
        for x in b:
            if x in a and x != full:
                yield x
    why = 'does not call %s' % full
    for core in candidates():
        it = run_noinline(p, short, (core,) + fresh)
        if core == full:
            exp = None
        else:
            it2 = run_noinline(p, full, (core,) + fresh)
            r2, w2 = result_of(it2, core)
            if not r2:
                continue
        r, w = result_of(it, core)
        if r is None:
            if core == full and calls_of(it, (full,)):
                why = 'can return something else: %s' % w
            continue
        if len({e.nid for e in r}) != 1 or not r:
            continue
        extra = [e for e in evs(it, 'call') if not e.pure and e.path != core and e.path not in fresh]
        got = [argform(it, r[0], k) for k in range(len(r[0].vals))]
        if core == full:
            want = mapping
        else:
            base = [argform(it2, r2[0], k) for k in range(len(r2[0].vals))]
            want = [subst(x, mapping) for x in base]
        ok = len(got) == len(want) and all(match(g, w_) for g, w_ in zip(got, want))
        if ok:
            chk.ob(True, 'same operation', short, '= %s%s' % (full.split('::')[-1], tuple(map(fmt, want))))
            return
        why = 'passes %s to %s instead of %s' % (tuple(map(fmt, got)), core, tuple(map(fmt, want)))
        if core == full:
            break
    chk.ob(False, 'same operation', short, '%s: %s' % (why, p.root(short)['sp']))


def fmt(x):
    return x if not isinstance(x, tuple) else '%s(%s)' % (x[0], ','.join(map(str, map(fmt, x[1:]))))


def subst(form, mapping):
    if isinstance(form, tuple):
        if len(form) == 2 and form[0] in ('arg', 'list') and form[1].startswith('a') and form[1][1:].isdigit():
            return mapping[int(form[1][1:])]
        return tuple(subst(x, mapping) for x in form)
    return form


def match(g, w):
    if w == '*':
        return True
    if isinstance(w, set):
        return any(match(g, x) for x in w)
    if isinstance(g, tuple) and isinstance(w, tuple):
        if g and w and g[0] == 'list' and w[0] == 'arg' or g and w and g[0] == 'arg' and w[0] == 'list':
            return g[1:] == w[1:]
        if g and g[0] == 'agg' and w[0] == 'agg':
            return len(g) == len(w) and g[1:3] == w[1:3] and all(match(x, y) for x, y in zip(g[3:], w[3:]))
        return len(g) == len(w) and all(match(x, y) for x, y in zip(g, w))
    return g == w


def c21(chk):
    p = chk.prog
    A = lambda i: ('arg', 'a%d' % i)
    FB = 'fast_graph_builder::FastGraphBuilder'
    same_op(chk, PC + '::calc_path', MULTI, [A(0), A(1), ('one', A(2), ('i', 0)), ('one', A(3), ('i', 0))])
    gn = fieldname(p, 'fast_graph::FastGraph', 'num_nodes')
    new = PC + '::new'
    calc = ('res', new, ('arg', 'a0.' + gn))
    same_op(chk, 'create_calculator', new, [('arg', 'a0.' + gn)])
    same_op(chk, 'calc_path', MULTI, [calc, A(0), ('one', A(1), ('i', 0)), ('one', A(2), ('i', 0))], (new,))
    same_op(chk, 'calc_path_multiple_sources_and_targets', MULTI, [calc, A(0), A(1), A(2)], (new,))
    same_op(chk, 'get_node_ordering', 'fast_graph::FastGraph::get_node_ordering', [A(0)])
    bp, bo = FB + '::build_with_params', FB + '::build_with_order_with_params'
    dp, do = default_of(p, 'Params'), default_of(p, 'ParamsWithOrder')
    chk.ob(dp is not None and do is not None, 'default parameters', 'Params::default', '%s / %s' % (fmt(dp), fmt(do)))
    same_op(chk, 'prepare_with_params', bp, [A(0), A(1)])
    same_op(chk, 'prepare', bp, [A(0), dp])
    same_op(chk, FB + '::build', bp, [A(0), dp])
    same_op(chk, 'prepare_with_order_with_params', bo, [A(0), A(1), A(2)])
    same_op(chk, 'prepare_with_order', bo, [A(0), A(1), do])
    same_op(chk, FB + '::build_with_order', bo, [A(0), A(1), do])
    # bidirectional edges = both directions
    F = ig_fields(p)
    ab(chk, F)


def fieldname(p, ty, n):
    for f in p.tys[adt(p, ty)['t']]['variants'][0]['f']:
        if f['n'] == n:
            return n
    us = [f['n'] for f in p.tys[adt(p, ty)['t']]['variants'][0]['f'] if p.tys[f['t']]['s'] == 'usize']
    if len(us) == 1:
        return us[0]
    raise Fail('field %s of %s not found' % (n, ty))


def default_of(p, name):
    for q in ('fast_graph_builder::%s::default' % name, '<fast_graph_builder::%s as std::default::Default>::default' % name):
        if q in p.roots:
            it = p.run(q)
            rs = [e for e in evs(it, 'return')]
            if len(rs) == 1:
                v = rs[0].val

                def form(x):
                    if x.op == 'agg':
                        return ('agg', x.a[0], x.a[1]) + tuple((n, form(z)) for n, z in x.a[2])
                    if x.op == 'i':
                        return ('i', x.a[0])
                    return ('t', show(x, 4))
                return form(v)
    return None


def pushes(it):
    return [e for e in evs(it, 'push') if touches(e, 'a0')]


def ab(chk, F):
    """add_edge_bidir(a,b,w) stores what add_edge(a,b,w) and add_edge(b,a,w) store"""
    p = chk.prog
    for nm, want in (('add_edge', [('a1', 'a2', 'a3')]), ('add_edge_bidir', [('a1', 'a2', 'a3'), ('a2', 'a1', 'a3')])):
        it = p.run(IG + '::' + nm)
        got = []
        for e in pushes(it):
            d = dict(e.val.a[2]) if e.val.op == 'agg' else {}
            got.append(tuple(d[k].a[0] if k in d and d[k].op == 'init' else '?' for k in ('from', 'to', 'weight')))
        chk.ob(sorted(set(got)) == sorted(want), 'same edges', IG + '::' + nm, 'stores %s' % sorted(set(got)))
