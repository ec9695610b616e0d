"""Whole-program inlining abstract interpreter over dumped MIR.

The program reachable from one root function is unfolded into a graph whose nodes are
(call context, basic block, known values of live flags). Each node has one abstract state: a
symbolic value per live variable, a symbolic memory per container component, and the set of
conditions that hold on every path to it. States are joined with phi terms until a fixpoint.
"""
import heapq
import re
from terms import *


class Stop(Exception):
    pass


import joins


class State:
    __slots__ = ('env', 'mem', 'facts')

    def __init__(s, env, mem, facts):
        s.env, s.mem, s.facts = env, mem, facts

    def copy(s):
        return State(dict(s.env), dict(s.mem), s.facts)

    def same(a, b):
        return a.env == b.env and a.mem == b.mem and a.facts == b.facts


CONTAINERS = {'Vec', 'BinaryHeap', 'VecDeque', 'BTreeSet', 'BTreeMap', 'HashSet', 'HashMap', 'PriorityQueue', 'LinkedList', 'IndexMap', 'IndexSet', 'DoublePriorityQueue', 'String'}


def lastseg(p):
    return re.sub(r'<.*', '', p).split('::')[-1] if '<' in p else p.split('::')[-1]


class Ev:
    """an event that happened in a node"""
    __slots__ = ('kind', 'nid', 'k', 'sp', 'd', 'facts', 'bid')

    def __init__(s, kind, nid, k, sp, bid, facts, d):
        s.kind, s.nid, s.k, s.sp, s.bid, s.facts, s.d = kind, nid, k, sp, bid, facts, d

    def __getattr__(s, n):
        try:
            return object.__getattribute__(s, 'd')[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(s):
        return '%s@%d %s %s' % (s.kind, s.nid, s.sp, {k: v for k, v in s.d.items()})


class Body:
    def __init__(self, D, bid):
        b = D['bodies'][str(bid)]
        self.id = bid
        self.j = b
        self.path = b['fn']['path']
        self.blocks = b['blocks']
        self.locals = b['locals']
        self.argc = b['argc']
        self.succ = []
        for bl in self.blocks:
            t = bl['t']
            k = t['k']
            if k in ('goto', 'drop', 'assert'):
                s = [t['t']]
            elif k == 'switch':
                s = [x[1] for x in t['ts']] + [t['else']]
            elif k == 'call':
                s = [t['t']] if t['t'] is not None else []
            else:
                s = []
            self.succ.append(s)
        # reverse postorder
        seen, order = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(self.succ[m])))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        self.rpo = {n: i for i, n in enumerate(order)}
        # liveness
        self.addr = set()
        use = [set() for _ in self.blocks]
        dfn = [set() for _ in self.blocks]

        def puse(p, i):
            if p[0] not in dfn[i]:
                use[i].add(p[0])
            for e in p[1]:
                if e[0] == 'i' and e[1] not in dfn[i]:
                    use[i].add(e[1])

        def ouse(o, i):
            if o['k'] in ('copy', 'move'):
                puse(o['p'], i)

        for i, bl in enumerate(self.blocks):
            if bl['cleanup']:
                continue
            for s in bl['s']:
                r = s['r']
                for kk in ('o', 'a', 'b'):
                    if kk in r and isinstance(r[kk], dict):
                        ouse(r[kk], i)
                for o in r.get('ops', ()):
                    ouse(o, i)
                if 'p' in r:
                    puse(r['p'], i)
                    if r['k'] in ('ref', 'rawptr') and not any(e[0] == '*' for e in r['p'][1]):
                        self.addr.add(r['p'][0])
                if r['k'] == 'setdiscr' or s['p'][1]:
                    puse(s['p'], i)
                else:
                    dfn[i].add(s['p'][0])
            t = bl['t']
            if t['k'] == 'switch':
                ouse(t['o'], i)
            elif t['k'] == 'call':
                ouse(t['f'], i)
                for o in t['a']:
                    ouse(o, i)
                if t['d'][1]:
                    puse(t['d'], i)
                else:
                    pass
            elif t['k'] == 'assert':
                ouse(t['c'], i)
            elif t['k'] == 'return':
                if 0 not in dfn[i]:
                    use[i].add(0)
        self.calldef = [None] * len(self.blocks)
        for i, bl in enumerate(self.blocks):
            t = bl['t']
            if t['k'] == 'call' and not t['d'][1]:
                self.calldef[i] = t['d'][0]
        live = [set() for _ in self.blocks]
        ch = True
        while ch:
            ch = False
            for i in reversed(order):
                out = set()
                for m in self.succ[i]:
                    out |= live[m]
                if self.calldef[i] is not None:
                    out.discard(self.calldef[i])
                new = use[i] | (out - dfn[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        # locals whose address is taken count as live while they may have storage
        tracked = {l for bl in self.blocks for l, on in bl.get('sg', ()) if on}
        addr = self.addr
        sin = [None] * len(self.blocks)
        sout = [None] * len(self.blocks)
        sin[0] = addr - tracked
        work = [0]
        while work:
            i = work.pop()
            o = set(sin[i])
            for l, on in self.blocks[i].get('sg', ()):
                if on and l in addr:
                    o.add(l)
                elif not on:
                    o.discard(l)
            if o == sout[i]:
                continue
            sout[i] = o
            for m in self.succ[i]:
                n = o if sin[m] is None else sin[m] | o
                if n != sin[m]:
                    sin[m] = set(n)
                    work.append(m)
                elif sout[m] is None:
                    work.append(m)
        sin = [x or set() for x in sin]
        sout = [x or set() for x in sout]
        self.live = [frozenset(l | x) for l, x in zip(live, sin)]
        # live across the call at the end of block i (excluding its destination)
        self.liveacross = []
        for i in range(len(self.blocks)):
            out = set()
            for m in self.succ[i]:
                out |= live[m]
            if self.calldef[i] is not None:
                out.discard(self.calldef[i])
            t = self.blocks[i]['t']
            if t['k'] == 'call':
                for e in t['d'][1]:
                    pass
                if t['d'][1]:
                    out.add(t['d'][0])
            self.liveacross.append(frozenset(out | sout[i]))


class Interp:
    def __init__(self, D, bodies=None, maxnodes=60000, noinline=()):
        self.D = D
        self.tys = D['tys']
        self.bodies = bodies if bodies is not None else {}
        self.ctxs = []
        self.ctxidx = {}
        self.nodes = []      # nid -> (ctx, bb, key)
        self.nidx = {}
        self.incoming = []   # nid -> {edge: state}
        self.instate = []
        self.events = []
        self.succs = []      # nid -> [(target nid, State)]
        self.phiops = {}
        self.visits = []
        self.keycount = {}
        self.sticky = {}
        self.prio = []
        self.maxnodes = maxnodes
        self.noinline = set(noinline)
        self.work = []
        self.inwork = set()
        self.steps = 0
        self.returns = {}
        self.unknown = {}
        self.curnid = None
        self.k = 0
        self.recursions = []
        self.tokobjs = set()

    # ---------------------------------------------------------------- types
    def ty(self, t):
        return self.tys[t] if t is not None else {'s': '?', 'k': 'other'}

    def adtname(self, t):
        y = self.ty(t)
        while y['k'] in ('ref', 'ptr'):
            y = self.ty(y['t'])
        if y['k'] == 'adt':
            return y['adt'].split('::')[-1]
        return {'slice': '[T]', 'str': 'str', 'array': '[T;N]'}.get(y['k'], y['s'])

    def is_container(self, t):
        y = self.ty(t)
        return (y['k'] == 'adt' and y['adt'].split('::')[-1] in CONTAINERS and y['crate'] != self.D['crate']) or y['k'] == 'slice'

    def strip_ref(self, t):
        y = self.ty(t)
        while y['k'] in ('ref', 'ptr'):
            t = y['t']
            y = self.ty(t)
        return t

    def elem_ty(self, t):
        """element type of a container / slice / reference to one"""
        t = self.strip_ref(t)
        y = self.ty(t)
        if y['k'] == 'adt':
            return y['args'][0] if y.get('args') else None
        if y['k'] in ('slice', 'array'):
            return y['t']
        return None

    def fields(self, t):
        """[(name, ty)] if t is a plain struct/tuple with known fields, else None"""
        y = self.ty(t)
        if y['k'] == 'tuple':
            return [(str(i), x) for i, x in enumerate(y['args'])]
        if y['k'] == 'adt' and y['ak'] == 'struct' and not self.is_container(t):
            v = y.get('variants')
            if v:
                return [(f['n'], f['t']) for f in v[0]['f']]
        if y['k'] == 'closure':
            return [(str(i), x) for i, x in enumerate(y['args'])]
        return None

    def leaves(self, t):
        """leaf paths (with '[]' steps) of a value of type t stored in a container; yields (path, ty)"""
        if t is None:
            return [((), None)]
        if self.is_container(t):
            r = [(('#len',), None), (('#h',), None)]
            e = self.elem_ty(t)
            for p, x in self.leaves(e):
                r.append((('[]',) + p, x))
            return r
        f = self.fields(t)
        if f is None:
            return [((), t)]
        r = []
        for n, x in f:
            for p, y in self.leaves(x):
                r.append(((n,) + p, y))
        return r

    # ---------------------------------------------------------------- contexts, nodes
    def body(self, bid):
        b = self.bodies.get(bid)
        if b is None:
            b = self.bodies[bid] = Body(self.D, bid)
        return b

    def newctx(self, parent, bb, bid):
        k = (parent, bb, bid)
        i = self.ctxidx.get(k)
        if i is None:
            i = len(self.ctxs)
            self.ctxidx[k] = i
            pb = () if parent is None else self.ctxs[parent][3] + (self.body(self.ctxs[parent][2]).rpo[bb],)
            self.ctxs.append((parent, bb, bid, pb))
        return i

    def chain(self, ctx):
        while ctx is not None:
            yield ctx
            ctx = self.ctxs[ctx][0]

    def sig(self, v, d=0):
        if v.op == 'b':
            return v.a[0]
        if v.op == 'obj' and v in self.tokobjs:
            n = self.memget(self.sigst, v, ('#len',))
            return ('#', n.a[0]) if n is not None and n.op == 'i' else None
        if v.op == 'agg':
            if v.a[0] == 'AIter':
                # loops over a short list that is written out are unrolled
                p, e = v.a[2][1][1], v.a[2][2][1]
                return p.a[0] if p.op == e.op == 'i' and e.a[0] <= 4 else None
            s = tuple(self.sig(x, d + 1) for _, x in v.a[2]) if d < 4 else ()
            if v.a[1] is not None and v.a[0] in self.enums:
                return (v.a[1],) + tuple(x for x in s if x is not None)
            s = tuple((i, x) for i, x in enumerate(s) if x is not None)
            return s or None
        return None

    enums = {'Option', 'Result', 'Ordering', 'ControlFlow'}

    def framelocals(self, ctx, bb):
        """[(ctx, live local set)] for the frame chain at entry of bb"""
        out = [(ctx, self.body(self.ctxs[ctx][2]).live[bb])]
        c = ctx
        while True:
            par, pbb, _, _ = self.ctxs[c]
            if par is None:
                return out
            out.append((par, self.body(self.ctxs[par][2]).liveacross[pbb]))
            c = par

    def propagate(self, src, ei, ctx, bb, st):
        fr = self.framelocals(ctx, bb)
        env = {}
        key = []
        old = st.env
        self.sigst = st
        for c, ls in fr:
            for l in ls:
                r = (c, l)
                v = old.get(r)
                if v is not None:
                    env[r] = v
                    s = self.sig(v)
                    if s is not None:
                        key.append((r, s))
        for r, v in old.items():
            if r[0] == -1 or r[0] == 'B':
                env[r] = v
        key = tuple(sorted(key, key=repr)) if key else ()
        nid = self.getnode(ctx, bb, key)
        st2 = State(env, st.mem, st.facts)
        return nid, st2

    def getnode(self, ctx, bb, key):
        k = (ctx, bb, key)
        n = self.nidx.get(k)
        if n is not None:
            return n
        c = self.keycount.get((ctx, bb), 0)
        if c >= 24:
            k = (ctx, bb, None)
            n = self.nidx.get(k)
            if n is not None:
                return n
        self.keycount[(ctx, bb)] = c + 1
        n = len(self.nodes)
        if n > self.maxnodes:
            raise Stop('too many nodes')
        self.nidx[k] = n
        self.nodes.append(k)
        self.incoming.append({})
        self.instate.append(None)
        self.events.append([])
        self.succs.append([])
        self.visits.append(0)
        self.prio.append(self.ctxs[ctx][3] + (self.body(self.ctxs[ctx][2]).rpo[bb],))
        return n

    def push(self, n):
        if n not in self.inwork:
            self.inwork.add(n)
            heapq.heappush(self.work, (self.prio[n], n))

    # ---------------------------------------------------------------- running
    def run(self, bid, args=None):
        b = self.body(bid)
        ctx = self.newctx(None, None, bid)
        st = State({}, {}, {})
        self.rootargs = []
        for i in range(b.argc):
            t = b.locals[i + 1]
            nm = (b.j['names'][i + 1] if b.j.get('names') and i + 1 < len(b.j['names']) and b.j['names'][i + 1] else 'a%d' % i) if isinstance(b.j.get('names'), list) else 'a%d' % i
            nm = 'a%d' % i
            v = self.initval(nm, t, st)
            st.env[(ctx, i + 1)] = v
            self.rootargs.append(v)
        self.rootctx = ctx
        n, st = self.propagate(-1, 0, ctx, 0, st)
        self.entry = n
        st0 = st
        self.incoming[n][(-1, 0)] = st
        self.push(n)
        self.loop()
        if self.twice:
            for again in range(3):
                self.restart()
                self.incoming[self.entry][(-1, 0)] = st0
                self.push(self.entry)
                self.loop()
                self.refresh()
                if not self.superfluous():
                    break
        else:
            self.refresh()
        return self

    def superfluous(self):
        """joins that turned out to have one value only"""
        import norm
        r = norm.Norm(self).res
        return [p for p, v in r.items() if (v.op != 'phi' or v.a[0] != p.a[0]) and p.a[1] in (self.sticky.get(p.a[0]) or ()) and (p.a[1][0] != 'm' or p.a[1][1].op != 'phi' and p.a[1][2] is not None)]

    def refresh(self):
        """forget joins that only existed in earlier rounds"""
        self.phiops = {p: v for p, v in self.phiops.items() if p.a[1][0] == 'hm'}
        for n, st in enumerate(self.instate):
            if st is not None and self.incoming[n] and not self.merge(n, self.incoming[n]).same(st):
                raise Stop('node %d does not stabilise' % n)
        joins.derive(self)

    twice = True

    def loop(self):
        while self.work:
            _, n = heapq.heappop(self.work)
            self.inwork.discard(n)
            self.step(n)
            self.steps += 1
            if self.steps > 400000:
                raise Stop('no fixpoint')

    def restart(self):
        """second pass: the joined variables are known from the start, so that conditions are not lost to values of early rounds"""
        import norm
        one = {p for p, v in norm.Norm(self).res.items() if v.op != 'phi' or v.a[0] != p.a[0]}
        self.sticky = {}
        for n, st in enumerate(self.instate):
            if st is None or len(self.incoming[n]) < 2:
                continue
            f = set()
            seen = set()
            work = list(st.env.values()) + list(st.mem.values())
            while work:
                v = work.pop()
                if v in seen:
                    continue
                seen.add(v)
                if v.op == 'phi':
                    if v.a[0] == n and 'hm' not in v.a[1] and v not in one:
                        f.add(v.a[1])
                elif v.op == 'agg':
                    work.extend(x for _, x in v.a[2])
                elif v.op == 'ref':
                    work.extend(x[1] for x in v.a[1] if x[0] == 'x')
            if f:
                self.sticky[n] = self.sticky.get(n, set()) | f
        for n in range(len(self.nodes)):
            self.incoming[n] = {}
            self.instate[n] = None
            self.events[n] = []
            self.succs[n] = []
            self.visits[n] = 0
        self.phiops = {}
        self.unknown = {}
        self.recursions = []

    def initval(self, nm, t, st):
        y = self.ty(t)
        if y['k'] in ('ref', 'ptr'):
            inner = self.ty(y['t'])
            st.env[(-1, nm)] = mk('init', nm, y['t'])
            return mk('ref', (-1, nm), ())
        return mk('init', nm, t)

    def step(self, n):
        inc = self.incoming[n]
        ctx, bb, key = self.nodes[n]
        self.curnid = n
        if not inc:
            # node became unreachable
            self.instate[n] = None
            self.events[n] = []
            self.setsuccs(n, [])
            return
        st = self.merge(n, inc)
        old = self.instate[n]
        if old is not None and st.same(old):
            return
        self.visits[n] += 1
        self.instate[n] = st
        if self.visits[n] > 300:
            raise Stop('node %d does not stabilise' % n)
        self.events[n] = []
        self.k = 0
        outs = self.exec(n, ctx, bb, st.copy())
        res = []
        for i, (c2, b2, s2) in enumerate(outs):
            t, s3 = self.propagate(n, i, c2, b2, s2)
            res.append((t, s3))
        self.setsuccs(n, res)

    def setsuccs(self, n, res):
        oldt = {(t, i) for i, (t, _) in enumerate(self.succs[n])}
        newt = set()
        for i, (t, s) in enumerate(res):
            newt.add((t, i))
        for (t, i) in oldt - newt:
            if self.incoming[t].pop((n, i), None) is not None:
                self.push(t)
        self.succs[n] = res
        for i, (t, s) in enumerate(res):
            o = self.incoming[t].get((n, i))
            if o is None or not s.same(o):
                self.incoming[t][(n, i)] = s
                self.push(t)

    # ---------------------------------------------------------------- merging
    def merge(self, n, inc):
        edges = sorted(inc)
        if len(edges) == 1 and not self.sticky.get(n):
            return inc[edges[0]].copy()
        sts = [inc[e] for e in edges]
        self.m_edges = edges
        self.m_n = n
        self.m_sticky = self.sticky.setdefault(n, set()) if self.visits[n] > 14 else self.sticky.get(n)
        sroots = {v[0] if v[0] != 'm' else v[:3] for v in self.m_sticky} if self.m_sticky else ()
        env = {}
        e0 = min(sts, key=lambda s: len(s.env)).env
        for r in e0:
            vals = []
            for s in sts:
                v = s.env.get(r)
                if v is None:
                    break
                vals.append(v)
            else:
                v0 = vals[0]
                if r not in sroots and all(v is v0 for v in vals):
                    env[r] = v0
                else:
                    env[r] = self.phi(n, (r,), vals)
        mem = {}
        keys = set()
        m0 = sts[0].mem
        if any(s.mem is not m0 for s in sts) or (self.m_sticky and any(v[0] == 'm' for v in self.m_sticky)):
            for s in sts:
                keys.update(s.mem)
            for v in self.m_sticky or ():
                if v[0] == 'm' and v[1].op != 'phi' and any((v[1], None) in s.mem for s in sts):
                    keys.add((v[1], v[2]))
            for k in keys:
                vals = [self.memget_raw(s, k) for s in sts]
                v0 = vals[0]
                if any(v is None for v in vals):
                    vs = [v for v in vals if v is not None]
                    if k[1] is None or all(v is vs[0] for v in vs):
                        mem[k] = vs[0]
                        continue
                    # object not created on some path: contents only meaningful on the others
                    vals = [v if v is not None else vs[0] for v in vals]
                    v0 = vals[0]
                if ('m',) + k not in sroots and all(v is v0 for v in vals):
                    mem[k] = v0
                else:
                    mem[k] = self.phi(n, ('m',) + k, vals)
        else:
            mem = dict(m0)
        facts = {}
        f0 = min((s.facts for s in sts), key=len)
        for t, v in f0.items():
            for s in sts:
                if s.facts.get(t) is not v:
                    break
            else:
                facts[t] = v
        return State(env, mem, facts)

    def phi(self, n, var, vals):
        v0 = vals[0]
        st = self.m_sticky and var in self.m_sticky
        if not st and all(v is v0 for v in vals) and not (v0.op in ('agg', 'ref') and self.m_sticky):
            return v0
        ph = mk('phi', n, var)
        others = {v for v in vals if v is not ph}
        if len(others) == 1 and not st and not (v0.op in ('agg', 'ref') and self.m_sticky):
            v = others.pop()
            return v
        if any(v.op == 'init' for v in vals) and any(v.op == 'agg' and v.a[1] is None for v in vals):
            # a struct that was partly overwritten on some paths
            a = next(v for v in vals if v.op == 'agg')
            nms = [x[0] for x in a.a[2]]
            vals = [mk('agg', a.a[0], None, tuple((f, self.proj(v, f)) for f in nms)) if v.op == 'init' and [f for f, _ in self.fields(v.a[1]) or ()] == nms else v for v in vals]
            v0 = vals[0]
        if all(v.op == 'agg' for v in vals):
            sh = (v0.a[0], v0.a[1], tuple(x[0] for x in v0.a[2]))
            if all((v.a[0], v.a[1], tuple(x[0] for x in v.a[2])) == sh for v in vals):
                return mk('agg', v0.a[0], v0.a[1], tuple((nm, self.phi(n, var + (nm,), [v.a[2][i][1] for v in vals])) for i, (nm, _) in enumerate(v0.a[2])))
        if all(v.op == 'ref' for v in vals):
            def shape(v):
                return (v.a[0], tuple(s if s[0] != 'x' else 'x' for s in v.a[1]))
            if all(shape(v) == shape(v0) for v in vals):
                steps = []
                for i, s in enumerate(v0.a[1]):
                    if s[0] == 'x':
                        steps.append(('x', self.phi(n, var + ('x%d' % i,), [v.a[1][i][1] for v in vals])))
                    else:
                        steps.append(s)
                return mk('ref', v0.a[0], tuple(steps))
        if self.m_sticky is not None and self.visits[n] > 14:
            self.m_sticky.add(var)
        self.phiops[ph] = dict(zip(self.m_edges, vals))
        return ph

    # ---------------------------------------------------------------- memory
    dmstack = set()

    def default_mem(self, st, obj, leaf):
        if leaf is None:
            return None
        if obj.op in ('obj',):
            d = st.mem.get((obj, None))
            if d is None:
                return None
            if d.op == 'empty':
                return I(0) if leaf == ('#len',) else mk('mempty')
            if d.op == 'toklist':
                return mk('ntok', *d.a) if leaf == ('#len',) else d
            if d.op == 'fillobj':
                if leaf == ('#len',):
                    return d.a[1]
                if leaf and leaf[0] == '[]':
                    return mk('fill', self.projpath(d.a[0], leaf[1:]))
            return mk('m0', obj, leaf)
        if obj.op == 'phi' and obj in self.phiops:
            ops = self.phiops[obj]
            n = obj.a[0]
            ph = mk('phi', n, ('hm',) + obj.a[1] + leaf)
            if ph in self.dmstack:
                return ph
            self.dmstack.add(ph)
            vals = {}
            for e, o in ops.items():
                s = self.incoming[n].get(e)
                if o is obj or s is None:
                    continue
                vals[e] = self.memget(s, o, leaf)
            self.dmstack.discard(ph)
            vs = set(vals.values()) - {ph}
            if len(vs) == 1:
                return vs.pop()
            self.phiops[ph] = vals
            return ph
        return mk('m0', obj, leaf)

    def memget_raw(self, st, k):
        v = st.mem.get(k)
        if v is None and k[1] is not None:
            v = self.default_mem(st, k[0], k[1])
        return v

    def memget(self, st, obj, leaf):
        v = st.mem.get((obj, leaf))
        if v is None:
            v = self.default_mem(st, obj, leaf)
            if v is None:
                v = mk('m0', obj, leaf)
        return v

    def differs(self, st, p, q):
        for x, y in zip(p, q):
            if x is y:
                continue
            d = constdiff(x, y)
            if d is not None and d != 0:
                return True
            if st is not None:
                c = eq(x, y)
                if c.op == 'b':
                    if not c.a[0]:
                        return True
                elif st.facts.get(c) is False or st.facts.get(lt(x, y)) is True or st.facts.get(lt(y, x)) is True:
                    return True
        return False

    def ldmem(self, st, m, idx):
        if not idx:
            return mk('ld', m, ()) if m.op in ('m0',) else (I(0) if m.op == 'mempty' else m)
        while True:
            if m.op == 'st':
                if m.a[1] == idx:
                    return m.a[2]
                if self.differs(st, m.a[1], idx):
                    m = m.a[0]
                    continue
            elif m.op == 'stv':
                p = m.a[1]
                if idx[:len(p)] == p:
                    idx = idx[len(p):]
                    m = m.a[2]
                    if not idx:
                        return self.ldmem(st, m, ())
                    continue
                if self.differs(st, p, idx):
                    m = m.a[0]
                    continue
            elif m.op == 'fill':
                return m.a[0]
            elif m.op == 'toklist' and len(idx) == 1:
                return mk('ref', ('val', mk('tok', m.a[0], m.a[1], idx[0])), ())
            elif m.op == 'view':
                idx = m.a[1] + idx
                m = m.a[0]
                continue
            return mk('ld', m, idx)

    def projpath(self, v, path):
        for p in path:
            v = self.proj(v, p)
        return v

    def proj(self, v, f, ty=None):
        if v.op == 'agg':
            for n, x in v.a[2]:
                if n == f:
                    return x
            if v.a[0] == 'anon':
                return UNDEF
            if v.a[1] is not None and '.' in f:
                w, g = f.split('.', 1)
                return self.proj(v, g) if w == v.a[1] else mk('infeasible')
        if v.op == 'init':
            nm, t = v.a
            y = self.ty(t)
            ft = None
            fs = self.fields(t)
            if fs:
                for n, x in fs:
                    if n == f:
                        ft = x
            return mk('init', nm + '.' + f, ft)
        if v.op == 'undef':
            return v
        return mk('proj', v, f)

    def load(self, st, obj, leaf, idx, ty, quiet=False):
        """value stored in container obj at leaf path (with '[]') and indices"""
        if ty is not None:
            if self.is_container(ty):
                h = self.memget(st, obj, leaf + ('#h',))
                return mk('inner', obj, leaf, idx)
            f = self.fields(ty)
            if f is not None:
                y = self.ty(ty)
                nm = 'tuple' if y['k'] == 'tuple' else (y['adt'] if y['k'] == 'adt' else y.get('def', 'closure'))
                return mk('agg', nm, None, tuple((n, self.load(st, obj, leaf + (n,), idx, x, quiet)) for n, x in f))
        m = self.memget(st, obj, leaf)
        v = self.ldmem(st, m, idx)
        if not quiet:
            self.event(st, 'load', obj=obj, leaf=leaf, idx=idx, val=v, mem=m)
        return v

    def store(self, st, obj, leaf, idx, ty, v):
        if ty is not None and self.is_container(ty):
            # a whole container is moved into an element
            so, sl, si = self.loc(v)
            for p, _ in self.leaves(ty):
                if p and p[-1] == '#h':
                    continue
                src = self.memget(st, so, sl + p)
                if si:
                    src = mk('view', src, si)
                k = (obj, leaf + p)
                st.mem[k] = mk('stv', self.memget(st, obj, leaf + p), idx, src) if idx else src
            self.event(st, 'storec', obj=obj, leaf=leaf, idx=idx, val=v)
            return
        f = self.fields(ty) if ty is not None else None
        if f is not None and v.op != 'agg':
            v = mk('agg', 'x', None, tuple((n, self.proj(v, n)) for n, _ in f))
        if f is not None:
            d = dict(v.a[2])
            for n, x in f:
                self.store(st, obj, leaf + (n,), idx, x, d.get(n, UNDEF))
            return
        m = self.memget(st, obj, leaf)
        st.mem[(obj, leaf)] = mk('st', m, idx, v) if idx else v
        self.event(st, 'store', obj=obj, leaf=leaf, idx=idx, val=v, old=m)

    def loc(self, h):
        if h.op == 'inner':
            o, l, i = self.loc(h.a[0])
            return o, l + h.a[1], i + h.a[2]
        return h, (), ()

    def newobj(self, st, desc):
        o = mk('obj', self.curnid, self.nextk())
        for k in [k for k in st.mem if k[0] is o]:
            del st.mem[k]
        st.mem[(o, None)] = desc
        return o

    def nextk(self):
        self.k += 1
        return self.k

    def clonec(self, st, h, ty):
        """new container object with the contents of handle h (container type ty)"""
        so, sl, si = self.loc(h)
        o = self.newobj(st, mk('cloneof'))
        for p, _ in self.leaves(ty):
            if p and p[-1] == '#h':
                continue
            m = self.memget(st, so, sl + p)
            if si:
                m = mk('view', m, si)
                if p == ('#len',):
                    m = self.ldmem(st, m.a[0], si)
            st.mem[(o, p)] = m
        return o

    def clen(self, st, h):
        o, l, i = self.loc(h)
        return self.ldmem(st, self.memget(st, o, l + ('#len',)), i)

    def setlen(self, st, h, v):
        o, l, i = self.loc(h)
        k = (o, l + ('#len',))
        st.mem[k] = mk('st', self.memget(st, *k), i, v) if i else v

    # ---------------------------------------------------------------- places
    def resolve(self, st, ctx, p):
        """MIR place -> (root, steps)"""
        root = (ctx, p[0])
        steps = ()
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, root, steps, None)
                root, steps = self.deref(v)
            elif k == 'f':
                steps += (('f', e[1], e[2]),)
            elif k == 'd':
                steps += (('v', e[1]),)
            elif k == 'i':
                i = st.env.get((ctx, e[1]), UNDEF)
                steps = self.addidx(st, root, steps, i)
            elif k == 'ci':
                if e[2]:
                    steps += (('x', sub(self.seqlen(st, root, steps), I(e[1]))),)
                else:
                    steps = self.addidx(st, root, steps, I(e[1]))
            else:
                steps += (('?', str(e)),)
        return root, steps

    def addidx(self, st, root, steps, i):
        if steps and steps[-1][0] == 'sl':
            return steps[:-1] + (('x', add(steps[-1][1], i)),)
        return steps + (('x', i),)

    def deref(self, v):
        if v.op == 'ref':
            return v.a[0], v.a[1]
        if v.op == 'agg' and v.a[0] == 'Box':
            r = v.a[2][0][1]
            return self.deref(r)
        return ('val', mk('deref', v) if v.op != 'undef' else v), ()

    def seqlen(self, st, root, steps):
        if steps and steps[-1][0] == 'sl':
            return sub(steps[-1][2], steps[-1][1])
        h = self.read(st, root, steps, None)
        if h.op == 'agg' and h.a[0] == 'array':
            return I(len(h.a[2]))
        return self.clen(st, h)

    def rootval(self, st, root):
        if root[0] == 'val':
            return root[1]
        return st.env.get(root, UNDEF)

    def read(self, st, root, steps, ty, quiet=False):
        v = self.rootval(st, root)
        i = 0
        n = len(steps)
        var = None
        while i < n:
            s = steps[i]
            if s[0] == 'f':
                v = self.proj(v, (var + '.' + s[1]) if var and v.op not in ('agg', 'init') else s[1])
                var = None
            elif s[0] == 'v':
                var = s[1]
            elif s[0] == 'x':
                if v.op == 'agg' and v.a[0] == 'array':
                    if isint(s[1]) and s[1].a[0] < len(v.a[2]):
                        v = v.a[2][s[1].a[0]][1]
                    else:
                        v = mk('aidx', v, s[1])
                elif v.op == 'repeat':
                    v = v.a[0]
                elif v.op == 'undef':
                    return v
                else:
                    # container
                    obj, leaf, idx = self.loc(v)
                    leaf += ('[]',)
                    idx += (s[1],)
                    i += 1
                    while i < n and steps[i][0] in ('f', 'x', 'v'):
                        if steps[i][0] == 'f':
                            leaf += (steps[i][1],)
                        elif steps[i][0] == 'v':
                            leaf += ('<%s>' % steps[i][1],)
                        else:
                            leaf += ('[]',)
                            idx += (steps[i][1],)
                        i += 1
                    if ty is None:
                        ty = self.place_ty(steps)
                    return self.load(st, obj, leaf, idx, ty, quiet)
            elif s[0] == 'sl':
                return mk('slice', v, s[1], s[2])
            else:
                v = mk('opq', v, s[1])
            i += 1
        return v

    def place_ty(self, steps):
        # type of the last step, if it can be told from the field base types
        for j in range(len(steps) - 1, -1, -1):
            s = steps[j]
            if s[0] == 'f' and len(s) > 2 and s[2] is not None:
                t = s[2]
                y = self.ty(t)
                var = steps[j - 1][1] if j and steps[j - 1][0] == 'v' else None
                ft = None
                if y['k'] == 'adt' and y.get('variants'):
                    for vv in y['variants']:
                        if var is None or vv['n'] == var:
                            for f in vv['f']:
                                if f['n'] == s[1]:
                                    ft = f['t']
                elif y['k'] in ('tuple', 'closure'):
                    ft = y['args'][int(s[1])]
                for s2 in steps[j + 1:]:
                    if s2[0] == 'x' and ft is not None:
                        ft = self.elem_ty(ft)
                    elif s2[0] in ('v',):
                        pass
                return ft
        return None

    def write(self, st, root, steps, v, ty):
        if root[0] == 'val':
            self.event(st, 'unkwrite', root=root[1], steps=steps, val=v)
            return
        if not steps:
            st.env[root] = v
            if root[0] == -1:
                self.event(st, 'setp', root=root, steps=steps, val=v)
            return
        cur = st.env.get(root, UNDEF)
        new = self.upd(st, cur, steps, v, ty)
        st.env[root] = new
        if root[0] == -1 and not any(s[0] == 'x' for s in steps):
            self.event(st, 'setp', root=root, steps=tuple(s[:2] for s in steps), val=v)

    def upd(self, st, cur, steps, v, ty):
        if not steps:
            return v
        s = steps[0]
        if s[0] == 'x':
            if cur.op == 'agg' and cur.a[0] == 'array':
                fs = list(cur.a[2])
                if isint(s[1]) and s[1].a[0] < len(fs):
                    j = s[1].a[0]
                    fs[j] = (fs[j][0], self.upd(st, fs[j][1], steps[1:], v, ty))
                    return mk('agg', 'array', None, tuple(fs))
                return mk('aupd', cur, s[1], v)
            if cur.op in ('undef', 'aupd', 'repeat'):
                return mk('aupd', cur, s[1], v)
            obj, leaf, idx = self.loc(cur)
            for q in steps:
                if q[0] == 'f':
                    leaf += (q[1],)
                elif q[0] == 'v':
                    leaf += ('<%s>' % q[1],)
                elif q[0] == 'x':
                    leaf += ('[]',)
                    idx += (q[1],)
            self.store(st, obj, leaf, idx, ty, v)
            return cur
        if s[0] == 'v':
            if cur.op != 'agg':
                return mk('opqupd', cur, v)
            return self.upd(st, cur, steps[1:], v, ty)
        if s[0] == 'f':
            if cur.op != 'agg':
                if cur.op == 'undef':
                    t = s[2] if len(s) > 2 else None
                    fs = self.fields(t) if t is not None else None
                    nm = self.aggname(t) if fs else 'anon'
                    cur = mk('agg', nm, None, tuple((n, UNDEF) for n, _ in (fs or [(s[1], None)])))
                else:
                    t = cur.a[1] if cur.op == 'init' else (s[2] if len(s) > 2 else None)
                    fs = self.fields(t) if t is not None else None
                    if fs is None:
                        fs = [(s[1], None)]
                    cur = mk('agg', self.aggname(t), None, tuple((n, self.proj(cur, n)) for n, _ in fs))
            out = []
            hit = False
            for n, x in cur.a[2]:
                if n == s[1]:
                    x = self.upd(st, x, steps[1:], v, ty)
                    hit = True
                out.append((n, x))
            if not hit:
                out.append((s[1], self.upd(st, UNDEF, steps[1:], v, ty)))
            return mk('agg', cur.a[0], cur.a[1], tuple(out))
        if s[0] == 'sl':
            return self.upd(st, cur, steps[1:], v, ty)
        return mk('opqupd', cur, v)

    def aggname(self, t):
        y = self.ty(t)
        if y['k'] == 'adt':
            n = y['adt'].split('::')[-1]
            return n if y['ak'] == 'enum' else y['adt']
        if y['k'] == 'closure':
            return y['def']
        return y['k']

    # ---------------------------------------------------------------- events, facts
    def event(self, st, kind, **d):
        c = self.nodes[self.curnid][0]
        self.events[self.curnid].append(Ev(kind, self.curnid, len(self.events[self.curnid]), self.cursp, self.ctxs[c][2], st.facts, d))

    def known(self, st, c):
        return known(st.facts, c)

    def assume(self, st, c, truth):
        """adds c==truth; returns False if contradictory"""
        k = known(st.facts, c)
        if k is not None:
            if k != truth:
                return False
            if c.op == 'b':
                return True
        while c.op == 'not':
            c = c.a[0]
            truth = not truth
        if c.op == 'b':
            return c.a[0] == truth
        if (c.op == 'and' and truth) or (c.op == 'or' and not truth):
            f = dict(st.facts)
            f[c] = truth
            st.facts = f
            return self.assume(st, c.a[0], truth) and self.assume(st, c.a[1], truth)
        if st.facts.get(c) is not truth:
            f = dict(st.facts)
            f[c] = truth
            st.facts = f
        if c.op not in ('lt', 'eq'):
            b = B(truth)
            self.subst(st, c, b)
        elif any(v is c for v in st.env.values()):
            self.subst(st, c, B(truth))
        return True

    def subst(self, st, a, b):
        na = tnot(a)
        for r, v in list(st.env.items()):
            if v is a:
                st.env[r] = b
            elif b.op == 'b' and v is na:
                st.env[r] = tnot(b)

    # ---------------------------------------------------------------- operands, rvalues
    def operand(self, st, ctx, o):
        k = o['k']
        if k in ('copy', 'move'):
            root, steps = self.resolve(st, ctx, o['p'])
            v = self.read(st, root, steps, o['p'][2])
            if v.op == 'inner' and self.is_container(o['p'][2]):
                # a container is moved out of an element of another one
                v = self.clonec(st, v, o['p'][2])
            return v
        if k == 'const':
            return self.const(o)
        if k == 'rtcheck':
            return FALSE
        return mk('opq', str(o))

    def opty(self, o):
        if o['k'] in ('copy', 'move'):
            return o['p'][2]
        return o.get('t')

    def const(self, o):
        y = self.ty(o['t'])
        k = y['k']
        if 'callee' in o:
            return mk('fn', o['callee'].get('inst', -1), o['callee']['fn']['path'])
        if 'closure_inst' in o:
            return mk('agg', 'closure', None, ())
        if 'v' in o and o['v'] is not None:
            v = o['v']
            if k == 'bool':
                return B(v)
            if k in ('uint', 'int', 'char'):
                return I(int(v))
            if k == 'float':
                return mk('f', str(v))
        if 'str' in o:
            return mk('ref', ('val', mk('s', o['str'])), ())
        if 'static' in o:
            return mk('ref', ('val', mk('static', o['static'])), ())
        if 'ref_bytes' in o:
            bs = bytes(o['ref_bytes'])
            inner = self.ty(y['t']) if y['k'] in ('ref', 'ptr') else None
            if inner and inner['k'] == 'adt' and inner['ak'] == 'enum' and len(bs) and not any(v['f'] for v in inner.get('variants', [{'f': 1}])):
                d = int.from_bytes(bs, 'little')
                for vv, dd in zip(inner['variants'], inner['discr']):
                    if dd == d:
                        return mk('ref', ('val', agg(inner['adt'].split('::')[-1], vv['n'], [])), ())
            if inner and inner['k'] in ('uint', 'int') and len(bs) <= 16:
                return mk('ref', ('val', I(int.from_bytes(bs, 'little'))), ())
            if inner and inner['k'] == 'bool':
                return mk('ref', ('val', B(bs[0])), ())
            return mk('ref', ('val', mk('bytes', bs)), ())
        if 'ref_strs' in o:
            return mk('ref', ('val', mk('strs', tuple(o['ref_strs']))), ())
        if 'ind_bytes' in o:
            return mk('cbytes', bytes(o['ind_bytes']), y['s'])
        if k == 'tuple' and not y['args']:
            return UNIT
        if o.get('zst'):
            if k == 'closure':
                return mk('agg', y['def'], None, ())
            return mk('agg', self.aggname(o['t']), None, ())
        return mk('const', str(o.get('named') or o.get('v')), y['s'])

    def bits(self, t):
        s = self.ty(t)['s']
        return {'u32': 32, 'i32': 32, 'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u128': 128, 'i128': 128}.get(s, 64)

    def binop(self, st, op, a, b, t):
        y = self.ty(t)
        flt = y['k'] == 'float'
        if flt:
            return mk('fop', op, a, b)
        if op in ('Add', 'AddUnchecked'):
            self.event(st, 'arith', op='Add', x=a, y=b, t=t)
            return add(a, b, self.bits(t))
        if op in ('Sub', 'SubUnchecked'):
            self.event(st, 'arith', op='Sub', x=a, y=b, t=t)
            return sub(a, b, self.bits(t))
        if op in ('Mul', 'MulUnchecked'):
            self.event(st, 'arith', op='Mul', x=a, y=b, t=t)
            if isint(a) and isint(b):
                return I((a.a[0] * b.a[0]) % (1 << self.bits(t)))
            if isint(a) and a.a[0] == 1:
                return b
            if isint(b) and b.a[0] == 1:
                return a
            return mk('mul', *sorted((a, b), key=lambda x: x.id))
        if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
            r = self.binop(st, op[:3], a, b, t)
            return tup(r, mk('ovf', op[:3], a, b))
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return le(b, a)
        if op == 'Eq':
            return eq(a, b)
        if op == 'Ne':
            return tnot(eq(a, b))
        if y['k'] == 'bool':
            if op == 'BitAnd':
                return tand(a, b)
            if op == 'BitOr':
                return tor(a, b)
            if op == 'BitXor':
                return tnot(eq(a, b))
        if isint(a) and isint(b):
            x, z = a.a[0], b.a[0]
            try:
                v = {'BitAnd': lambda: x & z, 'BitOr': lambda: x | z, 'BitXor': lambda: x ^ z, 'Div': lambda: x // z, 'Rem': lambda: x % z,
                     'Shl': lambda: (x << z) % (1 << self.bits(t)), 'Shr': lambda: x >> z}.get(op)
                if v:
                    return I(v())
            except (ZeroDivisionError, OverflowError):
                pass
        return mk('bop', op, a, b)

    def rvalue(self, st, ctx, r, dty):
        k = r['k']
        if k == 'use':
            return self.operand(st, ctx, r['o'])
        if k in ('ref', 'rawptr'):
            root, steps = self.resolve(st, ctx, r['p'])
            return mk('ref', root, steps)
        if k == 'bin':
            return self.binop(st, r['op'], self.operand(st, ctx, r['a']), self.operand(st, ctx, r['b']), self.opty(r['a']))
        if k == 'un':
            a = self.operand(st, ctx, r['a'])
            if r['op'] == 'Not':
                if self.ty(self.opty(r['a']))['k'] == 'bool':
                    return tnot(a)
                return mk('bnot', a)
            if r['op'] == 'PtrMetadata':
                root, steps = self.deref(a)
                return self.seqlen(st, root, steps)
            if r['op'] == 'Neg':
                return mk('neg', a)
            return mk('opq', r['op'], a)
        if k == 'discr':
            root, steps = self.resolve(st, ctx, r['p'])
            v = self.read(st, root, steps, r['p'][2])
            return self.discr(v, r['p'][2])
        if k == 'agg':
            ops = [self.operand(st, ctx, o) for o in r['ops']]
            ak = r['ak']
            if ak == 'tuple':
                return tup(*ops) if ops else UNIT
            if ak == 'array':
                return agg('array', None, [(str(i), v) for i, v in enumerate(ops)])
            if ak == 'closure':
                y = self.ty(dty)
                return agg(y.get('def', 'closure'), None, [(str(i), v) for i, v in enumerate(ops)])
            if ak == 'adt':
                y = self.ty(r['t'])
                enum = y.get('ak') == 'enum'
                nm = y['adt'].split('::')[-1] if enum else y['adt']
                if enum:
                    self.enums.add(nm)
                return agg(nm, r['variant'] if enum else None, list(zip(r['fields'], ops)))
            return mk('opq', str(ak), *ops)
        if k == 'cast':
            v = self.operand(st, ctx, r['o'])
            return self.cast(st, r['ck'], v, r['from'], r['t'])
        if k == 'repeat':
            return mk('repeat', self.operand(st, ctx, r['o']), I(r['n'] or 0))
        if k == 'len':
            root, steps = self.resolve(st, ctx, r['p'])
            return self.seqlen(st, root, steps)
        if k == 'setdiscr':
            return mk('opq', 'setdiscr')
        return mk('opq', str(r)[:80])

    def discr(self, v, t):
        y = self.ty(t)
        if v.op == 'agg' and v.a[1] is not None and 'variants' in y:
            for vv, d in zip(y['variants'], y['discr']):
                if vv['n'] == v.a[1]:
                    return I(d)
        return mk('discr', v, t)

    def cast(self, st, ck, v, f, t):
        fy, ty_ = self.ty(f), self.ty(t)
        if ck == 'IntToInt':
            if fy['k'] in ('uint', 'int', 'char') and ty_['k'] in ('uint', 'int'):
                fb, tb = self.bits(f), self.bits(t)
                self.event(st, 'cast', v=v, fb=fb, tb=tb)
                if isint(v):
                    c = v.a[0]
                    if fy['k'] == 'int' and 0 <= c < 1 << fb and c >> (fb - 1):
                        c -= 1 << fb
                    return I(c % (1 << tb))
                if tb < fb:
                    return mk('trunc', tb, v)
                if fy['k'] == 'int' and tb > fb and v.op != 'b2i':
                    # widening copies the sign: only a value below 2^(fb-1) stays itself
                    return mk('sext', fb, v)
                return v
            if fy['k'] == 'bool':
                if v.op == 'b':
                    return I(int(v.a[0]))
                return mk('b2i', v)
        if ck.startswith('PointerCoercion') or ck.startswith('PtrToPtr') or 'Transmute' in ck:
            if 'BoxDeref' in ck or v.op in ('ref', 'agg', 'slice'):
                return v
            return v
        return mk('cast', ck, ty_['s'], v)

    # ---------------------------------------------------------------- execution
    def exec(self, n, ctx, bb, st):
        body = self.body(self.ctxs[ctx][2])
        bl = body.blocks[bb]
        for s in bl['s']:
            self.cursp = s.get('sp')
            p = s['p']
            v = self.rvalue(st, ctx, s['r'], p[2])
            if not p[1]:
                st.env[(ctx, p[0])] = v
            else:
                root, steps = self.resolve(st, ctx, p)
                self.write(st, root, steps, v, p[2])
        t = bl['t']
        self.cursp = t.get('sp') or bl.get('sp')
        k = t['k']
        if k == 'goto' or k == 'drop':
            return [(ctx, t['t'], st)]
        if k == 'assert':
            c = self.operand(st, ctx, t['c'])
            self.event(st, 'assert', c=c, exp=t['exp'], m=t['m'])
            if not self.assume(st, c, t['exp']):
                return []
            return [(ctx, t['t'], st)]
        if k == 'switch':
            return self.switch(st, ctx, t)
        if k == 'return':
            return self.ret(n, ctx, st)
        if k == 'call':
            return self.call(n, ctx, bb, t, st)
        self.event(st, 'end', why=k)
        return []

    def switch(self, st, ctx, t):
        o = t['o']
        v = self.operand(st, ctx, o)
        yk = self.ty(t['ty'])['k']
        outs = []
        if yk == 'bool':
            tgt = {int(a): b for a, b in t['ts']}
            for val in (0, 1):
                s2 = st.copy()
                if self.assume(s2, v, bool(val)):
                    outs.append((ctx, tgt.get(val, t['else']), s2))
            return outs
        if isint(v):
            for a, b in t['ts']:
                if int(a) == v.a[0]:
                    return [(ctx, b, st)]
            return [(ctx, t['else'], st)]
        if v.op == 'discr':
            e, tid = v.a
            y = self.ty(tid)
            seen = set()
            vs = {d: vv for vv, d in zip(y.get('variants', []), y.get('discr', []))}
            for a, b in list(t['ts']) + [(None, t['else'])]:
                cand = [int(a)] if a is not None else [d for d in vs if d not in seen]
                if a is not None:
                    seen.add(int(a))
                if a is None and len(cand) != 1:
                    if not cand:
                        continue
                    s2 = st.copy()
                    good = True
                    for d in seen:
                        if not self.assume(s2, eq(v, I(d)), False):
                            good = False
                    if good:
                        outs.append((ctx, b, s2))
                    continue
                d = cand[0]
                s2 = st.copy()
                if not self.assume(s2, eq(v, I(d)), True):
                    continue
                bad = False
                for d2 in vs:
                    if d2 != d and known(s2.facts, eq(v, I(d2))) is True:
                        bad = True
                if bad:
                    continue
                if d in vs:
                    nm = y['adt'].split('::')[-1]
                    self.enums.add(nm)
                    val = agg(nm, vs[d]['n'], [(f['n'], mk('proj', e, vs[d]['n'] + '.' + f['n'])) for f in vs[d]['f']])
                    self.subst(s2, e, val)
                outs.append((ctx, b, s2))
            return outs
        neg = []
        for a, b in t['ts']:
            s2 = st.copy()
            if self.assume(s2, eq(v, I(int(a))), True):
                outs.append((ctx, b, s2))
            neg.append(int(a))
        s2 = st.copy()
        if all(self.assume(s2, eq(v, I(a)), False) for a in neg):
            outs.append((ctx, t['else'], s2))
        return outs

    def ret(self, n, ctx, st):
        par, pbb, bid, _ = self.ctxs[ctx]
        v = st.env.get((ctx, 0), UNIT)
        if par is None:
            self.event(st, 'return', val=v, env=st.env, mem=st.mem)
            return []
        st = State({r: x for r, x in st.env.items() if r[0] != ctx}, st.mem, st.facts)
        st.mem = dict(st.mem)
        t = self.body(self.ctxs[par][2]).blocks[pbb]['t']
        return self.finish_call(par, t, st, v)

    def finish_call(self, ctx, t, st, v):
        if t['t'] is None:
            self.event(st, 'end', why='noreturn')
            return []
        d = t['d']
        if not d[1]:
            st.env[(ctx, d[0])] = v
        else:
            root, steps = self.resolve(st, ctx, d)
            self.write(st, root, steps, v, d[2])
        return [(ctx, t['t'], st)]

    def call(self, n, ctx, bb, t, st):
        f = t['f']
        args = [self.operand(st, ctx, a) for a in t['a']]
        atys = [self.opty(a) for a in t['a']]
        callee = f.get('callee') if f['k'] == 'const' else None
        if callee is None:
            fv = self.operand(st, ctx, f)
            if fv.op == 'fn' and fv.a[0] >= 0:
                return self.enter(n, ctx, bb, t, st, fv.a[0], args)
            return self.opaque(ctx, t, st, 'indirect', args, atys, {'fn': {'path': 'indirect', 'name': 'indirect', 'trait': None, 'self': None, 'args': [], 'crate': ''}})
        import prims
        r = prims.dispatch(self, st, callee, args, atys, t, ctx)
        if r is not None:
            outs = []
            for s2, v in r:
                if s2 is None:
                    continue
                outs += self.finish_call(ctx, t, s2, v)
            if not r:
                self.event(st, 'end', why='diverge')
            return outs
        inst = callee.get('inst')
        if inst is not None and callee['fn']['path'] not in self.noinline:
            # rust-call: untuple
            b = self.body(inst)
            nm = callee['orig']['name']
            if nm in ('call', 'call_mut', 'call_once') and (callee['orig']['trait'] or '').split('::')[-1] in ('Fn', 'FnMut', 'FnOnce'):
                tupv = args[1] if len(args) > 1 else UNIT
                n_in = self.ty(atys[1]).get('args', []) if len(args) > 1 else []
                rest = [self.proj(tupv, str(i)) for i in range(len(n_in))]
                if b.j['closure']:
                    env = args[0]
                    want = self.ty(b.locals[1])['k']
                    have = self.ty(atys[0])['k']
                    # adjust the reference level of the closure environment
                    lv_want = 1 if want == 'ref' else 0
                    if lv_want == 1 and env.op != 'ref':
                        tmp = ('B', (n, 'cl'))
                        st.env[tmp] = env
                        env = mk('ref', tmp, ())
                    elif lv_want == 0 and env.op == 'ref' and have == 'ref':
                        env = self.read(st, env.a[0], env.a[1], None)
                    while lv_want == 1 and env.op == 'ref':
                        inner = self.read(st, env.a[0], env.a[1], None, True)
                        if inner.op == 'ref':
                            env = inner
                        else:
                            break
                    args = [env] + rest
                elif b.j.get('model') and b.argc == 2 and len(args) == 2 and not callee.get('fnitem'):
                    pass
                else:
                    args = rest if b.argc == len(rest) else args
            return self.enter(n, ctx, bb, t, st, inst, args)
        return self.opaque(ctx, t, st, prims.key(self, callee), args, atys, callee)

    def enter(self, n, ctx, bb, t, st, inst, args):
        for c in self.chain(ctx):
            if self.ctxs[c][2] == inst:
                self.recursions.append((self.body(inst).path, self.cursp))
                self.event(st, 'recursion', fn=self.body(inst).path)
                v = mk('ev', self.curnid, 'rec', self.body(inst).path)
                for a in args:
                    self.havoc(st, a)
                return self.finish_call(ctx, t, st, v)
        b = self.body(inst)
        c2 = self.newctx(ctx, bb, inst)
        self.event(st, 'enter', fn=b.path, args=tuple(args), bid2=inst, vals=tuple(self.deep(st, a) for a in args) if b.path.endswith('::freeze') else None)
        for i in range(b.argc):
            st.env[(c2, i + 1)] = args[i] if i < len(args) else UNDEF
        return [(c2, 0, st)]

    def havoc(self, st, v, why='call'):
        """forgets everything reachable through a reference"""
        if v.op == 'ref':
            root, steps = v.a
            if root[0] == 'val':
                return
            cur = self.read(st, root, steps, None, True)
            e = mk('ev', self.curnid, 'havoc', self.nextk())
            if cur.op in ('obj', 'init', 'inner', 'phi') and self.maybe_container(st, cur):
                o, l, i = self.loc(cur)
                for k in list(st.mem):
                    if k[0] is o and k[1] is not None and k[1][:len(l)] == l:
                        st.mem[k] = mk('havoc', self.curnid, k[1])
                st.mem[(o, l + ('#len',))] = mk('havoc', self.curnid, l + ('#len',))
                return
            if cur.op == 'agg':
                for f, x in cur.a[2]:
                    self.havoc(st, mk('ref', root, steps + (('f', f, None),)))
                return
            self.write(st, root, steps, e, None)
        elif v.op == 'agg':
            for _, x in v.a[2]:
                self.havoc(st, x)

    def maybe_container(self, st, h):
        if h.op == 'init':
            return h.a[1] is not None and self.is_container(h.a[1])
        return h.op in ('obj', 'inner') or (h.op == 'phi' and any(o.op in ('obj', 'inner', 'init') for o in self.phiops.get(h, {}).values()))

    def opaque(self, ctx, t, st, name, args, atys, callee):
        import prims
        pure = prims.is_pure(name, callee) and not any(self.ty(y)['k'] == 'ref' and self.ty(y)['mut'] and 'fmt::Formatter' not in self.ty(y)['s'] for y in atys)
        vals = []
        for a, ty in zip(args, atys):
            vals.append(self.deep(st, a))
        self.event(st, 'call', name=name, args=tuple(args), vals=tuple(vals), pure=pure, path=callee['fn']['path'], callee=callee, mem=None if pure else dict(st.mem))
        if t['t'] is None:
            self.event(st, 'panic', name=name, vals=tuple(vals))
            return []
        if pure:
            if name.startswith('Argument::new_') and atys:
                # the text of a number depends on its type, its value in the analysis does not
                y = self.ty(atys[0])
                while y['k'] in ('ref', 'ptr'):
                    y = self.ty(y['t'])
                if y['k'] == 'int':
                    name += ' of ' + y['s']
            v = mk('call', name, *vals)
        else:
            for a, ty in zip(args, atys):
                y = self.ty(ty)
                if y['k'] in ('ref', 'ptr') and y['mut']:
                    self.havoc(st, a)
                elif a.op == 'agg':
                    pass
            self.unknown[name] = self.unknown.get(name, 0) + 1
            v = mk('ev', self.curnid, 'call', name)
        # enum results are split eagerly
        y = self.ty(t['d'][2])
        if y['k'] == 'adt' and y.get('ak') == 'enum' and y['adt'].split('::')[-1] in ('Option', 'Result'):
            nm = y['adt'].split('::')[-1]
            outs = []
            for vv in y['variants']:
                s2 = st.copy()
                if not self.assume(s2, mk('is', v, vv['n']), True):
                    continue
                bad = any(s2.facts.get(mk('is', v, w['n'])) for w in y['variants'] if w is not vv)
                if bad:
                    continue
                outs += self.finish_call(ctx, t, s2, agg(nm, vv['n'], [(f['n'], mk('proj', v, vv['n'] + '.' + f['n'])) for f in vv['f']]))
            return outs
        return self.finish_call(ctx, t, st, v)

    def deep(self, st, v, d=0):
        """value with references replaced by what they point to"""
        if d > 5:
            return v
        if v.op == 'ref':
            x = self.read(st, v.a[0], v.a[1], None, True)
            if x.op == 'undef':
                return x
            return self.deep(st, x, d + 1)
        if v.op == 'agg':
            return mk('agg', v.a[0], v.a[1], tuple((n, self.deep(st, x, d + 1)) for n, x in v.a[2]))
        return v


def known(facts, c):
    if c.op == 'b':
        return c.a[0]
    if c.op == 'not':
        r = known(facts, c.a[0])
        return None if r is None else not r
    r = facts.get(c)
    if r is not None:
        return r
    if c.op == 'and':
        x, y = known(facts, c.a[0]), known(facts, c.a[1])
        if x is False or y is False:
            return False
        if x and y:
            return True
        return None
    if c.op == 'or':
        x, y = known(facts, c.a[0]), known(facts, c.a[1])
        if x or y:
            return True
        if x is False and y is False:
            return False
        return None
    if c.op == 'lt':
        a, b = c.a
        if facts.get(lt(b, a)) is True:
            return False
        e = eq(a, b)
        if facts.get(e) is True:
            return False
        if e.op != 'b' and facts.get(e) is False and facts.get(lt(b, a)) is False:
            return True
        if isint(b) and b.a[0] > 0:
            for k in (b.a[0] - 1, ):
                if facts.get(lt(a, I(k))) is True:
                    return True
        if isint(a) and a.a[0] < 64:
            for k in range(a.a[0] + 1):
                x = eq(b, I(k))
                if x.op == 'b':
                    break
            else:
                if all(known_eq(facts, b, k) is False for k in range(a.a[0] + 1)):
                    return True
        if a.op == 'sadd' and b in a.a:
            return False
    elif c.op == 'hastok':
        h, x, k = c.a
        if isint(k):
            for j in range(6):
                f = facts.get(mk('hastok', h, x, I(j)))
                if f is True and j >= k.a[0]:
                    return True
                if f is False and j <= k.a[0]:
                    return False
    elif c.op == 'eq':
        a, b = c.a
        if facts.get(lt(a, b)) is True or facts.get(lt(b, a)) is True:
            return False
        for x, y in ((a, b), (b, a)):
            if isint(y):
                # another constant is known
                for k in (0, 1, 2, 3, M64):
                    if k != y.a[0] and facts.get(eq(x, I(k))) is True:
                        return False
                if y.a[0] == 0 and x.op in ('lin',) and x.a[0] == 64 and len(x.a[1]) == 1 and x.a[1][0][1] == 1 and x.a[2] > 0 and x.a[2] < 1000:
                    return None
    return None


def known_eq(facts, t, k):
    return facts.get(eq(t, I(k)))
