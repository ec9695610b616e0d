"""C26: copies are complete, and paths report what they hold."""
import re
import loops
from base import Fail
from graph import *
from interp import known
from rules_api import adt
from rules_conv import convmap
from rules_data import rewrite
from rules_query import retval
from terms import *

V1 = 'every part is converted'
K1 = 'a copy has every part of the original'
K2 = 'paths are equal exactly if source, target and weight are'
K3 = 'a path is found exactly if its weight is not the largest one'
K4 = 'a path reports what it was made of'
SP = 'shortest_path::ShortestPath'
NEED = ('FastGraph', 'FastGraph32', 'InputGraph', 'ShortestPath')


def results(it, atom):
    """values the function may return when atom(t) tells the truth of conditions"""
    def ev(t):
        x = atom(t)
        if x is not None:
            return x
        if t.op == 'b':
            return t.a[0]
        if t.op == 'not':
            x = ev(t.a[0])
            return None if x is None else not x
        if t.op in ('and', 'or'):
            xs = [ev(x) for x in t.a]
            stop = t.op == 'or'
            if stop in xs:
                return stop
            return None if None in xs else not stop
        if t.op == 'eq' and any(x.op == 'b' for x in t.a):
            a, b = t.a if t.a[0].op == 'b' else t.a[::-1]
            x = ev(b)
            return None if x is None else x == a.a[0]
        return None
    bynode = {}
    for ph in it.phiops:
        bynode.setdefault(ph.a[0], []).append(ph)
    rets = {}
    for e in evs(it, 'return'):
        rets.setdefault(e.nid, []).append(e)
    out, seen = set(), set()
    work = [(it.entry, ())]
    while work:
        n, env = work.pop()
        if (n, env) in seen:
            continue
        seen.add((n, env))
        if len(seen) > 5000:
            return {None}
        d = dict(env)
        for e in rets.get(n, ()):
            out.add(ev(rewrite(it, e.val, d)))
        for i, (t, _) in enumerate(it.succs[n]):
            st = it.incoming[t].get((n, i))
            if st is None:
                continue
            old = it.instate[n].facts
            if any(old.get(c) is not v and ev(rewrite(it, c, d)) is (not v) for c, v in st.facts.items()):
                continue
            new = d
            if t in bynode:
                new = dict(d)
                for ph in bynode[t]:
                    o = it.phiops[ph].get((n, i))
                    if o is not None:
                        new[ph] = rewrite(it, o, d)
            work.append((t, tuple(sorted(new.items(), key=lambda kv: kv[0].id))))
    return out


def c26(chk):
    p = chk.prog
    n = 0
    # ---- copies
    seen = set()
    for path, r in sorted(p.roots.items()):
        m = re.match(r'<(.*) as std::clone::Clone>::(clone|clone_from)$', path)
        if not m or r['inst'] is None:
            continue
        name = m.group(1)
        try:
            a = adt(p, name)
        except Fail:
            continue
        if m.group(2) == 'clone_from':
            chk.ob(False, K1, path, 'an own way of copying into an existing value')
            continue
        y = p.tys[a['t']]
        if y.get('ak') == 'enum':
            continue
        if not name.startswith(('fast_graph', 'input_graph', 'shortest_path')) and not a['reachable']:
            continue
        seen.add(name.split('::')[-1])
        chk.units.add(path)
        before = len(chk.violations)
        it, A, want = convmap(chk, p, path, a['t'], a['t'], 'a0', False)
        if len(chk.violations) > before:
            continue
        for k in want:
            wh = '%s: %s%s' % (path, k[0], ''.join('.' + x for x in k[1]))
            s, rel = A.get(k, (None, ()))
            ok = s == k and all(x[0] == 'id' or x[0] == 'const' and x[2] == x[3] for x in rel)
            chk.ob(ok, K1, wh, 'copied unchanged' if ok else 'comes from %s' % (s,) if s != k else 'is changed for some values')
            n += 1
    for x in NEED:
        chk.ob(x in seen, K1, x, 'can be copied, and the code that copies it was analysed' if x in seen else 'the code that copies it was not found')
    chk.floor(K1, 20, 'parts of the values that can be copied')
    # ---- paths
    fld = {}
    for g in ('source', 'target', 'weight', 'nodes'):
        v = retval(p, '%s::get_%s' % (SP, g))
        while v.op == 'ref' and not v.a[1] and v.a[0][0] == 'val':
            v = v.a[0][1]
        f = getfield(v)
        chk.units.add('%s::get_%s' % (SP, g))
        chk.ob(f is not None, K4, '%s::get_%s' % (SP, g), 'a stored part' if f else 'computes %s' % show(v, 3))
        fld[g] = f
    if None in fld.values():
        return
    chk.ob(len(set(fld.values())) == 4, K4, SP, 'four different parts')
    # found
    it = p.run(SP + '::is_found')
    w = mk('init', 'a0.' + fld['weight'], None)

    def isw(t):
        return t.op == 'init' and t.a[0] == 'a0.' + fld['weight']
    chk.units.add(SP + '::is_found')
    for e in evs(it, 'return'):
        for v, f in loops.alts(it, e.val, e.facts):
            if v.op == 'b':
                k = maxed(f, isw)
                ok = k is not None and v.a[0] is (not k)
            else:
                x = v.a[0] if v.op == 'not' else v
                if x.op == 'eq' and any(isw(y) for y in x.a) and any(y is I(M64) for y in x.a):
                    ok = v.op == 'not'
                elif x.op == 'lt' and isw(x.a[0]) and x.a[1] is I(M64):
                    ok = v.op != 'not'
                else:
                    ok = False
            chk.ob(ok, K3, where(it, e), 'compares the weight with the largest one' if ok else 'answers %s' % show(v, 3))
    # none and singular
    if SP + '::none' in p.roots:
        v = retval(p, SP + '::none')
        d = dict(v.a[2]) if v.op == 'agg' else {}
        ok = d.get(fld['weight']) is I(M64)
        chk.ob(ok, K3, SP + '::none', 'has the largest weight' if ok else 'a missing path has weight %s' % show(d.get(fld['weight'], v), 3))
    # equality
    root = '<%s as std::cmp::PartialEq>::eq' % SP
    if root not in p.roots:
        root = root[1:].replace('>::eq', '::eq')
    r = [x for x in p.roots if 'ShortestPath as std::cmp::PartialEq' in x and x.endswith('::eq')]
    if not r:
        raise Fail('comparison of paths not found')
    it = p.run(r[0])
    chk.units.add(r[0])
    parts = [fld[g] for g in ('source', 'target', 'weight')]

    def part(t):
        """the part that t compares"""
        if t.op != 'eq':
            return None
        nm = [x.a[0] if x.op == 'init' else None for x in t.a]
        if None in nm or {x.split('.')[0] for x in nm} != {'a0', 'a1'}:
            return None
        fs = {x.split('.', 1)[1] if '.' in x else '' for x in nm}
        return fs.pop() if len(fs) == 1 else None
    for k in range(8):
        val = {x: bool(k >> i & 1) for i, x in enumerate(parts)}
        want = all(val.values())
        got = results(it, lambda t: val.get(part(t)) if part(t) is not None else None)
        w = '%s: %s' % (r[0], ', '.join('%s %s' % (x, 'same' if val[x] else 'different') for x in parts))
        if got == {want}:
            chk.ob(True, K2, w, 'equal' if want else 'not equal')
        else:
            chk.ob(False, K2, w, 'depends on something else' if None in got or len(got) > 1 else 'never returns' if not got else 'paths count as %s' % ('equal' if not want else 'different'))
    chk.floor(K2, 8, 'cases of the comparison')
    chk.floor(K3, 1, 'results of is_found')
    ne = [x for x in p.roots if 'ShortestPath as std::cmp::PartialEq' in x and x.endswith('::ne')]
    chk.ob(not ne, K2, SP, 'inequality is the negation' if not ne else 'inequality is defined on its own')


def maxed(facts, isw):
    """the weight is known to be (not) the largest weight"""
    for c, tr in facts.items():
        if c.op == 'eq' and any(isw(y) for y in c.a) and any(y is I(M64) for y in c.a):
            return tr
        if c.op == 'lt' and isw(c.a[0]) and c.a[1] is I(M64):
            return not tr
    return None


def getfield(v):
    if v.op == 'init' and v.a[0].startswith('a0.'):
        return v.a[0][3:]
    if v.op == 'ref' and len(v.a[1]) == 1 and v.a[1][0][0] == 'f':
        return v.a[1][0][1]
    return None
