"""C10: the serialised form of every type holds all of its fields and the reader puts them back where they came from."""
import re
import interp
from base import Fail
from graph import *
from terms import *


def runit(chk, r, noinline=()):
    it = interp.Interp(chk.prog.D, noinline=noinline)
    it.maxnodes = 40000
    it.run(r['inst'])
    return it


def c10(chk):
    p = chk.prog
    types = {}
    for a in p.D['adts']:
        types[a['path']] = a
    pat = re.compile(r"^(.*)::_::<impl serde::(Serialize|Deserialize<'de>) for ([\w:]+)>::(serialize|deserialize)$")
    ser, de = {}, {}
    for r in p.D['roots']:
        m = pat.match(r['path'])
        if m:
            (ser if m.group(4) == 'serialize' else de)[m.group(3)] = r
        else:
            m = re.match(r"^<([\w:]+) as serde::(Serialize|Deserialize<'de>)>::(serialize|deserialize)$", r['path'])
            if m and '::_::' not in r['path']:
                (ser if m.group(3) == 'serialize' else de)[m.group(1)] = r
    main = ['fast_graph::FastGraph', 'fast_graph32::FastGraph32', 'input_graph::InputGraph']
    for t in main:
        if t not in ser or t not in de:
            raise Fail('%s is not serialisable and deserialisable' % t)
    for t in sorted(set(ser) | set(de)):
        chk.ob(t in ser and t in de, 'both directions exist', t, 'Serialize and Deserialize')
        if t in ser and t in de:
            one(chk, t, types[t], ser[t], de[t])
    # every struct of the crate contained in a serialised one has been covered
    for t in list(ser):
        for f in fields_of(p, types[t]):
            for inner in inner_adts(p, f[1]):
                chk.ob(inner in ser, 'parts are serialised too', '%s.%s' % (t, f[0]), inner)
    chk.floor('every field is written', 19, 'fields of the five serialised structs')
    chk.floor('positional reader', 19, 'fields of the five serialised structs')
    chk.floor('keyed reader', 19, 'fields of the five serialised structs')
    wrappers(chk)


def fields_of(p, a):
    y = p.tys[a['t']]
    return [(f['n'], f['t']) for f in y['variants'][0]['f']]


def inner_adts(p, t, seen=None):
    y = p.tys[t]
    if y['k'] == 'adt':
        if y['crate'] == p.D['crate']:
            yield y['adt'] if not y['adt'].startswith(p.D['crate'] + '::') else y['adt'][len(p.D['crate']) + 2:]
        for a in y.get('args', []):
            if isinstance(a, int):
                yield from inner_adts(p, a)
    elif y['k'] in ('slice', 'array', 'ref'):
        yield from inner_adts(p, y['t'])
    elif y['k'] == 'tuple':
        for a in y['args']:
            yield from inner_adts(p, a)


def okreturns(it):
    for e in evs(it, 'return'):
        for v in expand(it, e.val):
            if v.op == 'agg' and v.a[1] == 'Ok':
                yield e, v


def one(chk, t, a, rs, rd):
    p = chk.prog
    fs = [f for f, _ in fields_of(p, a)]
    chk.units.add(rs['path'])
    it = runit(chk, rs)
    calls = [e for e in evs(it, 'call') if e.name.endswith(('::serialize_field', '::serialize_element'))]
    skips = [e for e in evs(it, 'call') if e.name.endswith('::skip_field')]
    chk.ob(not skips, 'no field is skipped', t, where(it, skips[0]) if skips else 'no call to skip_field')
    oks = {e.nid for e, _ in okreturns(it)}
    chk.ob(bool(oks), 'serialisation can succeed', t, '%d return points' % len(oks))
    order = []
    keys = {}
    for e in calls:
        k = e.vals[1] if e.name.endswith('serialize_field') and len(e.vals) == 3 else None
        v = e.vals[-1]
        key = k.a[0] if k is not None and k.op == 's' else None
        f = v.a[0][3:] if v.op == 'init' and v.a[0].startswith('a0.') else None
        order.append((key, f, e))
        if f is None or f not in fs:
            chk.ob(False, 'every field is written', '%s key %s' % (t, key), 'writes something that is not a field as stored: %s (%s)' % (show(v, 3), where(it, e)))
            continue
        keys.setdefault(f, []).append((key, e))
    # positions: by dominance
    pos = {}
    for f in fs:
        ws = keys.get(f, [])
        if len(ws) != 1:
            chk.ob(False, 'every field is written', '%s.%s' % (t, f), 'written %d times (%s)' % (len(ws), rs['sp']))
            continue
        e = ws[0][1]
        must = all(dominates(it, {e.nid}, o) for o in oks)
        chk.ob(must, 'every field is written', '%s.%s' % (t, f), 'on every successful path' if must else 'not written on some successful path (%s)' % where(it, e))
        pos[f] = sum(1 for k2, f2, e2 in order if e2 is not e and dominates(it, {e2.nid}, e.nid))
    chk.ob(sorted(pos.values()) == list(range(len(fs))), 'fixed order', t, 'fields are written in one fixed order')
    seq = sorted(pos, key=pos.get)
    skeys = {f: keys[f][0][0] for f in seq}
    named = all(k is not None for k in skeys.values())
    chk.ob(len(set(skeys.values())) == len(seq) if named else True, 'distinct keys', t, str(sorted(map(str, skeys.values()))))
    # ---- reader
    base = rd['path'] + '::'
    roots = {r['path']: r for r in p.D['roots'] if base in r['path']}

    def find(owner, m):
        for q, r in roots.items():
            if re.search(r'::%s(<.*>)? as serde::de::Visitor<.*>>::%s$' % (owner, m), q):
                return r
        return None
    it = runit(chk, rd)
    dcalls = [e for e in evs(it, 'call') if '::deserialize' in e.name and 'Deserializer' in e.name]
    chk.ob(len(dcalls) == 1 and dcalls[0].name.endswith('deserialize_struct'), 'reader shape', t, 'deserialize_struct')
    vs = find('__Visitor', 'visit_seq')
    vm = find('__Visitor', 'visit_map')
    if vs is None or vm is None:
        chk.ob(False, 'reader shape', t, 'no visit_seq / visit_map found for the reader')
        return
    # positional: i-th element goes to the i-th written field
    it = runit(chk, vs)
    nexts = [e for e in evs(it, 'call') if e.name.endswith('::next_element')]
    got = 0
    for e, v in okreturns(it):
        x = v.a[2][0][1]
        if x.op != 'agg':
            chk.ob(False, 'positional reader', t, 'does not build the struct field by field (%s)' % where(it, e))
            continue
        d = dict(x.a[2])
        for i, f in enumerate(seq):
            got += 1
            src = expand(it, d.get(f, UNDEF))
            good = True
            for s in src:
                while s.op == 'proj':
                    s = s.a[0]
                if not (s.op == 'ev' and s.a[1] == 'call' and s.a[2].endswith('next_element')):
                    good = False
                    continue
                n = s.a[0]
                rank = sum(1 for o in nexts if o.nid != n and dominates(it, {o.nid}, n))
                if rank != i:
                    good = False
            chk.ob(good and len(src) >= 1, 'positional reader', '%s.%s' % (t, f), 'element %d of the sequence' % i if good else 'is not restored from element %d of the sequence (%s)' % (i, vs['sp']))
    chk.ob(got >= len(fs), 'positional reader', t, '%d fields restored' % got)
    if not named:
        return
    # keyed: key -> field identifier -> field
    var = {}
    r = find('__FieldVisitor', 'visit_str')
    it = runit(chk, r)
    for e, v in okreturns(it):
        x = v.a[2][0][1]
        for c, tr in e.facts.items():
            if tr and c.op == 'call' and 'PartialEq::eq' in c.a[0]:
                for z in c.a[1:]:
                    if z.op == 's':
                        var.setdefault(z.a[0], set()).add(x.a[1] if x.op == 'agg' else None)
    inv = {}
    for f in seq:
        k = skeys[f]
        vv = var.get(k, set())
        vv.discard(None)
        chk.ob(len(vv) == 1 and '__ignore' not in vv, 'key is recognised', '%s.%s' % (t, f), 'key %s' % k)
        if len(vv) == 1:
            inv[f] = next(iter(vv))
    chk.ob(len(set(inv.values())) == len(inv), 'keys are distinguished', t, str(inv))
    r = find('__FieldVisitor', 'visit_u64')
    if r is not None:
        it = runit(chk, r)
        for e, v in okreturns(it):
            x = v.a[2][0][1]
            for c, tr in e.facts.items():
                if tr and c.op == 'eq':
                    i = [z.a[0] for z in c.a if z.op == 'i']
                    if i and i[0] < len(seq) and x.op == 'agg':
                        chk.ob(x.a[1] == inv.get(seq[i[0]]), 'field numbers agree', '%s.%s' % (t, seq[i[0]]), 'number %d is %s' % (i[0], x.a[1]))
    r = find('__FieldVisitor', 'visit_bytes')
    if r is not None:
        it = runit(chk, r)
        for e, v in okreturns(it):
            x = v.a[2][0][1]
            bs = {}
            for c, tr in e.facts.items():
                if tr and c.op == 'eq':
                    i = [z for z in c.a if z.op == 'i']
                    l = [z for z in c.a if z.op == 'ld' and len(z.a[1]) == 1 and z.a[1][0].op == 'i']
                    if i and l:
                        bs[l[0].a[1][0].a[0]] = i[0].a[0]
            if bs and x.op == 'agg' and sorted(bs) == list(range(len(bs))):
                w = bytes(bs[i] for i in range(len(bs))).decode('utf8', 'replace')
                for f in seq:
                    if skeys[f] == w:
                        chk.ob(x.a[1] == inv.get(f), 'byte keys agree', '%s.%s' % (t, f), 'key %s is %s' % (w, x.a[1]))
    # which enum variant index
    it = runit(chk, vm)
    keyvar = {}
    for e in evs(it, 'call'):
        if e.name.endswith('::next_value'):
            vs_ = set()
            for c, tr in e.facts.items():
                if tr and c.op == 'eq' and any(z.op == 'discr' for z in c.a):
                    d = [z for z in c.a if z.op == 'discr'][0]
                    i = [z for z in c.a if z.op == 'i']
                    y = it.ty(d.a[1])
                    if i and y.get('adt', '').endswith('__Field'):
                        for vv, dd in zip(y['variants'], y['discr']):
                            if dd == i[0].a[0]:
                                vs_.add(vv['n'])
                elif tr and c.op == 'is' and str(c.a[1]).startswith('__'):
                    vs_.add(c.a[1])
            keyvar[e.nid] = vs_
    bad = {}
    ok = {}
    for e, v in okreturns(it):
        for x in expand(it, v.a[2][0][1]):
            if x.op != 'agg':
                bad['*'] = 'does not build the struct field by field'
                continue
            d = dict(x.a[2])
            for f in seq:
                for s in expand(it, d.get(f, UNDEF)):
                    b = s
                    while b.op == 'proj':
                        b = b.a[0]
                    if b.op == 'ev' and b.a[1] == 'call' and b.a[2].endswith('next_value'):
                        if inv.get(f) not in keyvar.get(b.a[0], ()):
                            bad[f] = 'is restored from the value of another key %s' % keyvar.get(b.a[0])
                        else:
                            ok[f] = 1
                    elif b.op == 'ev' and b.a[1] == 'call' and b.a[2].endswith('missing_field'):
                        pass
                    else:
                        bad[f] = 'may be set to something that was not read: %s' % show(b, 2)
    for f in seq:
        chk.ob(f not in bad and f in ok, 'keyed reader', '%s.%s' % (t, f), bad.get(f, 'restored from its own key'))
    if '*' in bad:
        chk.ob(False, 'keyed reader', t, bad['*'])


def wrappers(chk):
    p = chk.prog
    new, back = 'fast_graph32::FastGraph32::new', 'fast_graph32::FastGraph32::convert_to_usize'
    s = [r['path'] for r in p.D['roots'] if 'Serialize for fast_graph32::FastGraph32>' in r['path'] and r['path'].endswith('::serialize')]
    d = [r['path'] for r in p.D['roots'] if 'for fast_graph32::FastGraph32>' in r['path'] and r['path'].endswith('>::deserialize')]
    it = runit(chk, p.root('serialize_32'), noinline=(new, back) + tuple(s) + tuple(d))
    good = False
    for e in evs(it, 'return'):
        for v in expand(it, e.val):
            src = v.a[2][0][1] if v.op == 'agg' and v.a[1] in ('Ok', 'Err') else v
            for x in expand(it, src):
                while x.op == 'proj':
                    x = x.a[0]
                ok = x.op == 'ev' and x.a[1] == 'call' and x.a[2].endswith('Serialize::serialize')
                if ok:
                    c = [q for q in it.events[x.a[0]] if q.kind == 'call' and q.name.endswith('Serialize::serialize')][0]
                    g = c.vals[0]
                    ok = g.op == 'ev' and g.a[2].endswith('FastGraph32::new') and [q for q in it.events[g.a[0]] if q.kind == 'call'][-1].vals[0] is mk('init', 'a0', it.D['tys'] and it.ty(it.body(p.root('serialize_32')['inst']).locals[1])['t'])
                good = good or ok
                if not ok:
                    chk.ob(False, '32-bit wrapper', 'serialize_32', 'the result is not that of serialising the converted graph: %s' % show(x, 3))
    chk.ob(good, '32-bit wrapper', 'serialize_32', 'serialises FastGraph32::new(graph)')
    it = runit(chk, p.root('deserialize_32'), noinline=(new, back) + tuple(s) + tuple(d))
    good = False
    for e, v in okreturns(it):
        for x in expand(it, v.a[2][0][1]):
            ok = x.op == 'ev' and x.a[2].endswith('convert_to_usize')
            if ok:
                g = [q for q in it.events[x.a[0]] if q.kind == 'call'][-1].vals[0]
                while g.op == 'proj':
                    g = g.a[0]
                ok = g.op == 'ev' and g.a[2].endswith('Deserialize::deserialize')
            good = good or ok
            if not ok:
                chk.ob(False, '32-bit wrapper', 'deserialize_32', 'the result is not the converted graph that was read: %s' % show(x, 3))
    chk.ob(good, '32-bit wrapper', 'deserialize_32', 'returns convert_to_usize of what was read')
