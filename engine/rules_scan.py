"""Whole-program rules: determinism (C07), thread sharing and side effects (C08), recursion (C15), unsafe code (C19)."""
import re
from base import Fail

FILE_FNS = ('input_graph::InputGraph::from_file', 'input_graph::InputGraph::to_file', 'input_graph::InputGraph::from_dimacs_file', 'input_graph::InputGraph::to_dimacs_file')
INTERIOR = {'Cell', 'RefCell', 'UnsafeCell', 'OnceCell', 'LazyCell', 'Mutex', 'RwLock', 'OnceLock', 'LazyLock', 'Once', 'Condvar', 'Barrier', 'SyncUnsafeCell', 'LocalKey'}


def sites(chk):
    """(body id, body, external fn, orig, site) for every external call of every dumped body"""
    p = chk.prog
    for i, b in p.bodies.items():
        for fn, orig, sp in p.ext_calls(i):
            yield i, b, fn, orig, sp


def nfns(chk):
    p = chk.prog
    n = sum(1 for b in p.bodies.values() if b['fn']['crate'] == p.D['crate'])
    if n < 60:
        raise Fail('only %d functions of the crate were found' % n)
    chk.units.add('%d functions of the crate, %d library bodies' % (n, len(p.bodies) - n))
    return n


def adt_last(p, t):
    y = p.tys[t]
    while y['k'] in ('ref', 'ptr'):
        y = p.tys[y['t']]
    return y['adt'].split('::')[-1] if y['k'] == 'adt' else y['k'], y


HASH_ITER = {'iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_iter', 'into_keys', 'into_values', 'drain', 'retain', 'extract_if', 'difference', 'union', 'intersection', 'symmetric_difference', 'fmt'}
INSENSITIVE = {'count', 'sum', 'product', 'min', 'max', 'all', 'any', 'len', 'size_hint'}


def c07(chk):
    p = chk.prog
    nfns(chk)
    deny = re.compile(r'(^|::|<)(std::time::|std::env::|std::process::|std::thread::|std::sync::atomic|std::sync::mpsc|std::hash::random|std::hash::RandomState|rand::|getrandom|fastrand|std::net::|std::io::stdin|std::random|std::os::|rayon)')
    ncalls = 0
    for i, b in p.bodies.items():
        where = b['fn']['path']
        bad = []
        names = set()
        for fn, orig, sp in p.ext_calls(i):
            names.add((orig['name'], fn['name']))
        flat = {x for a in names for x in a}
        sorts = any(x.startswith('sort') for x in flat)
        collected = 'collect' in flat or 'from_iter' in flat or 'extend' in flat
        for fn, orig, sp in p.ext_calls(i):
            ncalls += 1
            path = fn['path']
            if deny.search(path) or deny.search(orig['path']):
                if re.search(r'HashMap|HashSet', path):
                    continue
                bad.append((sp, 'calls %s, whose result differs between runs' % path))
                continue
            for f in (fn, orig):
                sty = f.get('self')
                if sty is None or f['name'] not in HASH_ITER:
                    continue
                n, y = adt_last(p, sty)
                if n in ('HashMap', 'HashSet') and 'BuildHasherDefault' not in y['s']:
                    consumers = flat & INSENSITIVE
                    if consumers and not collected and 'next' not in flat:
                        continue
                    if sorts and collected:
                        continue
                    bad.append((sp, 'iterates over a %s, in an order that differs between runs' % n))
                    break
        for bl in b['blocks']:
            if bl['cleanup']:
                continue
            for s in bl['s']:
                if s['r']['k'] == 'cast' and ('Expose' in s['r']['ck'] or ('Transmute' in s['r']['ck'] and p.tys[s['r']['from']]['k'] in ('ptr', 'ref') and p.tys[s['r']['to']]['k'] == 'uint')):
                    bad.append((s.get('sp'), 'turns an address into a number'))
        if b['fn']['crate'] == p.D['crate'] or bad:
            for sp, m in bad:
                chk.ob(False, 'no nondeterministic source', where, '%s (%s)' % (m, sp))
            if not bad:
                chk.ob(True, 'no nondeterministic source', where, 'no call to clocks, randomness, environment, threads, hash-order iteration or addresses')
    # state that survives between calls makes results depend on history
    for s in p.D['statics']:
        if s['mut'] or not s['freeze'] or s['tls'] or interior(p, s['t']):
            chk.ob(False, 'no hidden state', s['path'], 'mutable static %s (%s)' % (s['path'], s['sp']))
    chk.ob(True, 'no hidden state', 'crate', '%d statics examined' % len(p.D['statics']))
    chk.notes.append('%d library calls examined' % ncalls)


def interior(p, t, seen=None):
    """name of a type with interior mutability contained in type t, else None"""
    seen = seen if seen is not None else set()
    if t is None or t in seen:
        return None
    seen.add(t)
    y = p.tys[t]
    if y['k'] == 'adt':
        n = y['adt'].split('::')[-1]
        if n in INTERIOR or n.startswith('Atomic'):
            return n
        for a in y.get('args', []):
            r = interior(p, a, seen) if isinstance(a, int) else None
            if r:
                return r
        for v in y.get('variants', []) or []:
            for f in v['f']:
                r = interior(p, f['t'], seen)
                if r:
                    return r
        return None
    if y['k'] in ('ref', 'ptr', 'slice', 'array'):
        return interior(p, y['t'], seen)
    if y['k'] in ('tuple', 'closure'):
        for a in y.get('args', []):
            r = interior(p, a, seen)
            if r:
                return r
    return None


def c08(chk):
    p = chk.prog
    nfns(chk)
    need = ['fast_graph::FastGraph', 'fast_graph32::FastGraph32', 'input_graph::InputGraph', 'path_calculator::PathCalculator']
    paths = {a['path']: a for a in p.D['adts']}
    for n in need:
        if n not in paths:
            raise Fail('type %s not found' % n)
    for a in p.D['adts']:
        if not a['reachable'] or a['generic']:
            continue
        own = a['path'].endswith('PathCalculator')
        chk.ob(a['send'], 'public types can be sent to threads', a['path'], 'Send')
        if not own:
            it = interior(p, a['t'])
            chk.ob(a['sync'], 'public types can be shared by threads', a['path'], 'Sync')
            chk.ob(a['freeze'] and it is None, 'no interior mutability', a['path'], 'contains %s' % it if it else 'all parts immutable behind a shared reference')
    for s in p.D['statics']:
        chk.ob(not (s['mut'] or not s['freeze'] or s['tls'] or interior(p, s['t'])), 'no process-wide state', s['path'], 'static %s (%s)' % (s['path'], s['sp']))
    chk.ob(True, 'no process-wide state', 'crate', '%d statics' % len(p.D['statics']))
    io = re.compile(r'std::(fs|net|process|os)::|std::io::(stdio|_print|_eprint|stdout|stderr|stdin|Stdout|Stderr|Stdin)|std::thread::(spawn|scope|Builder|park|local|LocalKey)|std::env::(set_|remove_)|std::panic::(set_hook|take_hook|panic_any)|(^|<)log::(set_|_?SetLogger)|std::sync::(Mutex|RwLock|Once|atomic|mpsc|LazyLock)|std::alloc::set|std::path::Path::(exists|metadata|canonicalize|read_dir|is_file|is_dir|try_exists)')
    allowed_read = re.compile(r'std::fs::(File::open|read|read_to_string|File::options|OpenOptions::(new|read|open)|File::metadata|Metadata::len)$|std::fs::File as |for std::fs::File')
    allowed_write = re.compile(r'std::fs::(File::create|File::sync_all|File::sync_data|File::options|write|OpenOptions::\w+|File::set_len)$|std::fs::File as |for std::fs::File')
    free = set()
    # which bodies are reachable from which kind of public operation
    kinds = {}
    for r in p.D['roots']:
        k = 'plain'
        if r['path'] in FILE_FNS:
            k = 'read' if '::from_' in r['path'] else 'write'
        elif not r['reachable'] and not r['generic']:
            continue
        for i in p.reach([r['inst']]):
            kinds.setdefault(i, {}).setdefault(k, r['path'])
    for f in FILE_FNS:
        p.root(f)
    n = 0
    for i, b in p.bodies.items():
        ks = dict(kinds.get(i, {'plain': b['fn']['path']}))
        hits = []
        for fn, orig, sp in p.ext_calls(i):
            n += 1
            for path in (fn['path'], orig['path']):
                if io.search(path):
                    for k in ks:
                        if k == 'read' and allowed_read.search(path) or k == 'write' and allowed_write.search(path):
                            continue
                        hits.append('%s (%s), reachable from %s' % (path, sp, ks[k]))
                    break
        for h in hits[:3]:
            chk.ob(False, 'no side effects', b['fn']['path'], 'calls ' + h)
        if not hits and b['fn']['crate'] == p.D['crate']:
            chk.ob(True, 'no side effects', b['fn']['path'], 'no files, streams, threads or process state')
    chk.notes.append('%d library calls examined' % n)


def c15(chk):
    p = chk.prog
    nfns(chk)
    cg = p.callgraph()
    # indirect calls may reach every function whose address is taken
    taken = set()
    dyn = set()
    for i, b in p.bodies.items():
        for bl in b['blocks']:
            if bl['cleanup']:
                continue
            for s in bl['s']:
                r = s['r']
                if r['k'] == 'cast' and r['ck'].startswith('PointerCoercion') and ('Unsize' in r['ck'] or 'Reify' in r['ck'] or 'Closure' in r['ck']):
                    dynable(p, r, taken, b)
                    x = nested(p, r)
                    chk.ob(not x, 'no recursion', '%s (%s)' % (b['fn']['path'], s.get('sp') or b['sp']), 'every call through %s may be passed on to another one, as often as they were wrapped' % x) if x else None
            t = bl['t']
            if t['k'] == 'call':
                c = t['f'].get('callee') if t['f']['k'] == 'const' else None
                if c is None or c.get('ik') in ('virtual', 'fnptr_shim'):
                    dyn.add(i)
    graph = {i: set(o) for i, o in cg.items()}
    for i in dyn:
        graph[i] |= taken
    # Tarjan
    comp = scc(graph)
    nrec = 0
    for c in comp:
        cyc = len(c) > 1 or c[0] in graph.get(c[0], ())
        if cyc and any(p.bodies[i]['fn']['crate'] == p.D['crate'] for i in c):
            nrec += 1
            names = sorted({p.bodies[i]['fn']['path'] for i in c})
            chk.ob(False, 'no recursion', names[0], 'these functions call each other without bound: %s (%s)' % (', '.join(names), p.bodies[c[0]]['sp']))
    for i, b in p.bodies.items():
        if b['fn']['crate'] == p.D['crate']:
            if not any(i in c and (len(c) > 1 or i in graph[i]) for c in comp if len(c) > 1 or c[0] in graph.get(c[0], ())):
                chk.ob(True, 'no recursion', b['fn']['path'], 'on no call cycle')
    # recursive types are dropped, cloned and compared recursively
    for a in p.D['adts']:
        r = recursive_type(p, a['t'], a['t'], set())
        chk.ob(not r, 'no recursive type', a['path'], 'contains itself and is dropped recursively' if r else 'finite')


def dynable(p, r, taken, b):
    from base import refs
    y = p.tys[r['from']]
    for _ in range(3):
        if y['k'] in ('ref', 'ptr'):
            y = p.tys[y['t']]
        elif y['k'] == 'adt' and y.get('args'):
            y = p.tys[y['args'][0]]
    if y['k'] in ('closure', 'fndef'):
        for i, bb in p.bodies.items():
            if bb['fn']['path'] == y.get('def'):
                taken.add(i)
    elif y['k'] == 'adt':
        n = p.tys.index(y)
        for i, bb in p.bodies.items():
            if bb['fn'].get('self') == n and bb['fn'].get('trait'):
                taken.add(i)


def nested(p, r):
    """a trait object is made of a value that contains a trait object of the same kind"""
    def strip(t):
        y = p.tys[t]
        while True:
            if y['k'] in ('ref', 'ptr'):
                y = p.tys[y['t']]
            elif y['k'] == 'adt' and y.get('args') and y['adt'].split('::')[-1] in ('Box', 'Rc', 'Arc', 'RefMut', 'Pin'):
                y = p.tys[y['args'][0]]
            else:
                return y
    y = strip(r['from'])
    z = strip(r['t']) if isinstance(r.get('t'), int) else None
    if y['k'] == 'dyn' or z is None or z['k'] != 'dyn':
        return None
    seen, work = set(), [y]
    while work:
        y = work.pop()
        kids = list(y.get('args') or []) + ([y['t']] if isinstance(y.get('t'), int) else [])
        kids += [f['t'] for v in (y.get('variants') or y.get('fvariants') or []) for f in v['f'] if f['t'] is not None]
        for k in kids:
            if not isinstance(k, int) or k in seen:
                continue
            seen.add(k)
            if p.tys[k]['k'] == 'dyn' and p.tys[k]['s'] == z['s']:
                return z['s']
            work.append(p.tys[k])
    return None


def recursive_type(p, t, goal, seen):
    y = p.tys[t]
    nxt = []
    if y['k'] == 'adt':
        nxt = [f['t'] for v in y.get('variants', []) or [] for f in v['f']] + [a for a in y.get('args', []) if isinstance(a, int)]
    elif y['k'] in ('slice', 'array'):
        nxt = [y['t']]
    elif y['k'] == 'tuple':
        nxt = y['args']
    for x in nxt:
        if x == goal:
            return True
        if x not in seen:
            seen.add(x)
            if recursive_type(p, x, goal, seen):
                return True
    return False


def scc(g):
    idx, low, on, st, out = {}, {}, set(), [], []
    for root in g:
        if root in idx:
            continue
        work = [(root, iter(g[root]))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work:
            n, it = work[-1]
            adv = False
            for m in it:
                if m not in g:
                    continue
                if m not in idx:
                    idx[m] = low[m] = len(idx)
                    st.append(m)
                    on.add(m)
                    work.append((m, iter(g[m])))
                    adv = True
                    break
                if m in on:
                    low[n] = min(low[n], idx[m])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[n])
            if low[n] == idx[n]:
                c = []
                while True:
                    m = st.pop()
                    on.discard(m)
                    c.append(m)
                    if m == n:
                        break
                out.append(c)
    return out


def c19(chk):
    p = chk.prog
    nfns(chk)
    crate = p.D['crate']
    n = 0
    for u, sp in p.D['unsafe']:
        kind, _, mac = u.partition('|')
        if kind in ('block', 'unsafe impl') and mac and mac != crate:
            n += 1
            continue  # expansion of a macro of the standard library or a dependency
        chk.ob(False, 'no unsafe code', sp, '%s in the crate\'s own source' % kind)
    for r in p.D['roots']:
        chk.ob(not r['unsafe_fn'], 'no unsafe function', r['path'], r['sp'])
        chk.ob(not r['extern'], 'no foreign linkage', r['path'], r['sp'])
    for s in p.D['statics']:
        chk.ob(not s['mut'], 'no mutable static', s['path'], s['sp'])
        chk.ob(not s.get('extern'), 'no foreign linkage', s['path'], s['sp'])
    chk.notes.append('%d unsafe constructs from library macro expansions, trusted' % n)
