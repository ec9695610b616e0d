"""Transfer functions for library calls. Each returns a list of (state, value); [] = never returns."""
import re
from terms import *

PRIMS = {}


def prim(*names):
    def d(f):
        for n in names:
            PRIMS[n] = f
        return f
    return d


def key(I_, callee):
    """Type::method / Trait::method<Self> of the resolved callee"""
    fn = callee['fn']
    return keyof(I_, fn)


def keyof(I_, fn):
    name = fn['name']
    if fn.get('self') is not None:
        s = I_.adtname(fn['self'])
        if fn.get('trait'):
            return '%s as %s::%s' % (s, re.sub('<.*', '', fn['trait']).split('::')[-1], name)
        return '%s::%s' % (s, name)
    p = fn['path']
    p = re.sub(r'::<[^<>]*>', '', p)
    m = re.search(r'<impl ([^<>]*)>::(\w+)$', p)
    if m:
        return '%s::%s' % (m.group(1), m.group(2))
    return '::'.join(p.split('::')[-2:])


PURE_PREFIX = ('str::', 'String::len', 'String::is_empty', 'String as Deref', 'String as Index', 'String as From', 'String as Clone', 'String::as_str', 'String::as_bytes',
               'fmt::', 'Argument', 'Arguments', 'hint::', 'usize::', 'u32::', 'u64::', 'f32::', 'f64::', '__private_api::loc', 'Level as', 'LevelFilter as', 'char::',
               'Location::caller', 'str as', 'usize as', 'u32 as', 'Box as', '[T]::join', 'String as Add', 'String::new')


def is_pure(name, callee):
    if name.startswith(PURE_PREFIX):
        return True
    p = callee['fn']['path']
    if p.startswith(('core::fmt::', 'std::fmt::Arguments', 'std::fmt::format', 'core::num::', 'core::str::', 'std::hint::', 'log::max_level', 'log::__private_api::loc')):
        return True
    return False


def is_local(it, callee):
    return callee['fn']['crate'] == it.D['crate']


def dispatch(it, st, callee, args, atys, t, ctx):
    if is_local(it, callee) and 'inst' in callee:
        return None
    if callee['fn']['path'] == 'stdmodel::proj_read':
        return [(st, read_ref(it, st, args[0], t['d'][2], move=True))]
    if callee['fn']['path'] == 'stdmodel::tok_list':
        root, steps = it.deref(args[0])
        o = it.read(st, root, steps, None)
        if o is not None and o.op == 'obj':
            it.tokobjs.add(o)
        return [(st, UNIT)]
    if callee['fn']['path'] == 'stdmodel::tok_long':
        root, steps = it.deref(args[0])
        o = it.read(st, root, steps, None)
        n = it.clen(st, o) if o is not None and o.op == 'obj' else None
        if n is not None:
            for c in [eq(n, I(k)) for k in range(4)] + [lt(n, I(4))]:
                if not it.assume(st, c, False):
                    return []
        return [(st, UNIT)]
    if callee['fn']['path'] in ('stdmodel::zip_a', 'stdmodel::zip_b'):
        root, steps = it.deref(args[0])
        return [(st, mk('ref', root, steps + (('f', callee['fn']['name'][-1], it.ty(t['d'][2])['t']),)))]
    if callee['fn']['path'] in ('stdmodel::chain_a', 'stdmodel::chain_b'):
        root, steps = it.deref(args[0])
        return [(st, mk('ref', root, steps + (('f', callee['fn']['name'][-1], None), ('v', 'Some'), ('f', '0', it.ty(t['d'][2])['t']))))]
    if callee.get('model'):
        if callee['fn']['name'] == 'proj_read':
            return [(st, read_ref(it, st, args[0], t['d'][2], move=True))]
        if callee['fn']['name'] in ('Iterator__collect__Vec', 'FromIterator__from_iter__Vec') and args[0].op == 'agg' and args[0].a[0] == 'SplitWs' and fget(args[0], 'k') is I(0):
            # the list of the parts of a text
            v = args[0]
            o = it.newobj(st, mk('toklist', fget(v, 'how'), fget(v, 's')))
            it.event(st, 'new', obj=o, what='parts')
            return [(st, o)]
        return None
    C = Call(it, st, callee, args, atys, t, ctx)
    k = key(it, callee)
    f = PRIMS.get(k)
    if f is None:
        k2 = keyof(it, callee['orig'])
        f = PRIMS.get(k2)
        if f is None and callee['orig'].get('trait'):
            f = PRIMS.get('* as %s::%s' % (re.sub('<.*', '', callee['orig']['trait']).split('::')[-1], callee['orig']['name']))
    if f is None:
        f = PRIMS.get('*::' + callee['fn']['name']) if 'inst' not in callee else None
    if f is None:
        return None
    r = f(C)
    if r is None:
        return None
    if isinstance(r, T):
        return [(st, r)]
    return r


class Call:
    def __init__(s, it, st, callee, args, atys, t, ctx):
        s.it, s.st, s.callee, s.args, s.atys, s.t, s.ctx = it, st, callee, args, atys, t, ctx

    def ev(s, kind, **d):
        s.it.event(s.st, kind, **d)

    def place(s, i=0):
        return s.it.deref(s.args[i])

    def read(s, i=0):
        """value behind reference argument i"""
        return read_ref(s.it, s.st, s.args[i], s.it.strip_ref(s.atys[i]))

    def handle(s, i=0):
        """container handle behind (a reference to) argument i, its container type"""
        v = s.args[i]
        t = s.atys[i]
        y = s.it.ty(t)
        while y['k'] in ('ref', 'ptr'):
            r, stp = s.it.deref(v)
            t = y['t']
            v = s.it.read(s.st, r, strip_sl(stp), t if not (stp and stp[-1][0] == 'sl') else None, True)
            y = s.it.ty(t)
        return v, t

    def ety(s, i=0):
        return s.it.elem_ty(s.atys[i])

    def fork(s, cond):
        """-> (state where cond, state where not cond); None if impossible"""
        a, b = s.st.copy(), s.st.copy()
        if not s.it.assume(a, cond, True):
            a = None
        if not s.it.assume(b, cond, False):
            b = None
        return a, b

    def evs(s, st, kind, **d):
        s.it.event(st, kind, **d)


def strip_sl(steps):
    return steps[:-1] if steps and steps[-1][0] == 'sl' else steps


def read_ref(it, st, v, ty, move=False):
    n = 0
    while v.op == 'ref' and n < 4:
        root, steps = v.a
        v = it.read(st, root, steps, ty)
        n += 1
        if n == 1 and (ty is None or it.ty(ty)['k'] != 'ref'):
            break
        break
    if move and ty is not None and it.is_container(ty):
        return it.clonec(st, v, ty)
    return v


def outs(*prs):
    return [(s, v) for s, v in prs if s is not None]


# ------------------------------------------------------------------ integers
@prim('usize::saturating_add', 'u32::saturating_add', 'u64::saturating_add')
def _(C):
    C.ev('arith', op='sadd', x=C.args[0], y=C.args[1], t=C.atys[0])
    return sadd(*C.args[:2]) if C.callee['fn']['path'].find('u32') < 0 else mk('sadd32', *C.args)


@prim('usize::checked_add', 'u32::checked_add', 'u64::checked_add')
def _(C):
    a, b = C.args
    bits = C.it.bits(C.atys[0])
    C.ev('arith', op='checked', x=a, y=b, t=C.atys[0])
    if isint(b) or isint(a):
        if isint(a):
            a, b = b, a
        m = (1 << bits) - 1
        if b.a[0] == 1:
            ovf = eq(a, I(m))
        else:
            ovf = lt(I(m - b.a[0]), a)
        x, y = C.fork(ovf)
        return outs((y, some(add(a, b, bits))), (x, NONE))
    x, y = C.fork(mk('ovf', 'Add', *sorted((a, b), key=lambda q: q.id)))
    return outs((y, some(sadd(a, b) if bits == 64 else add(a, b, bits))), (x, NONE))


@prim('usize::checked_sub', 'u32::checked_sub')
def _(C):
    a, b = C.args
    x, y = C.fork(lt(a, b))
    return outs((y, some(sub(a, b, C.it.bits(C.atys[0])))), (x, NONE))


@prim('usize::saturating_sub', 'u32::saturating_sub')
def _(C):
    a, b = C.args
    x, y = C.fork(lt(a, b))
    return outs((y, sub(a, b, C.it.bits(C.atys[0]))), (x, I(0)))


@prim('usize::wrapping_add', 'u32::wrapping_add', 'u64::wrapping_add')
def _(C):
    C.ev('arith', op='wrapping', x=C.args[0], y=C.args[1], t=C.atys[0])
    return add(C.args[0], C.args[1], C.it.bits(C.atys[0]))


@prim('usize::wrapping_sub', 'u32::wrapping_sub')
def _(C):
    C.ev('arith', op='wrapping', x=C.args[0], y=C.args[1], t=C.atys[0])
    return sub(C.args[0], C.args[1], C.it.bits(C.atys[0]))


@prim('usize::overflowing_add', 'u32::overflowing_add')
def _(C):
    a, b = C.args
    bits = C.it.bits(C.atys[0])
    C.ev('arith', op='checked', x=a, y=b, t=C.atys[0])
    if isint(b) and b.a[0] == 1:
        return tup(add(a, b, bits), eq(a, I((1 << bits) - 1)))
    x, y = C.fork(mk('ovf', 'Add', *sorted((a, b), key=lambda q: q.id)))
    return outs((y, tup(sadd(a, b) if bits == 64 else add(a, b, bits), FALSE)), (x, tup(mk('wrapped', a, b), TRUE)))


def prim_int(C):
    t = C.it.strip_ref(C.atys[0])
    return C.it.ty(t)['k'] in ('uint', 'int', 'char')


def isbool(C):
    return C.it.ty(C.it.strip_ref(C.atys[0]))['k'] == 'bool'


def scal(C, i):
    v = C.args[i]
    t = C.atys[i]
    y = C.it.ty(t)
    while y['k'] in ('ref', 'ptr'):
        r, s = C.it.deref(v)
        v = C.it.read(C.st, r, s, y['t'])
        t = y['t']
        y = C.it.ty(t)
    return v


ORD = {n: agg('Ordering', n, []) for n in ('Less', 'Equal', 'Greater')}


@prim('* as Ord::cmp')
def _(C):
    if not prim_int(C):
        return lexcmp(C, lambda x: x)
    a, b = scal(C, 0), scal(C, 1)
    return cmp3(C, a, b, lambda x: x)


def tupleparts(C, i):
    """the integers of a (reference to a) tuple argument, or None"""
    it = C.it
    t = it.strip_ref(C.atys[i])
    y = it.ty(t)
    if y['k'] != 'tuple' or not all(it.ty(it.strip_ref(x))['k'] in ('uint', 'int', 'char') for x in y['args']):
        return None
    v = it.deep(C.st, C.args[i])
    return [it.proj(v, str(k)) for k in range(len(y['args']))]


def lexcmp(C, wrap):
    a, b = tupleparts(C, 0), tupleparts(C, 1)
    if a is None or b is None or len(a) != len(b):
        return None
    r = []
    states = [C.st.copy()]
    for x, y in zip(a, b):
        nxt = []
        for s in states:
            for c, o in ((lt(x, y), 'Less'), (lt(y, x), 'Greater')):
                s2 = s.copy()
                if C.it.assume(s2, c, True):
                    r.append((s2, wrap(ORD[o])))
            if C.it.assume(s, eq(x, y), True):
                nxt.append(s)
        states = nxt
    return r + [(s, wrap(ORD['Equal'])) for s in states]


def cmp3(C, a, b, wrap):
    r = []
    s1, rest = C.fork(lt(a, b))
    if s1:
        r.append((s1, wrap(ORD['Less'])))
    if rest is not None:
        s2, s3 = rest.copy(), rest
        if C.it.assume(s2, eq(a, b), True):
            r.append((s2, wrap(ORD['Equal'])))
        if C.it.assume(s3, eq(a, b), False) and C.it.assume(s3, lt(b, a), True):
            r.append((s3, wrap(ORD['Greater'])))
    return r


@prim('* as PartialOrd::partial_cmp')
def _(C):
    if not prim_int(C):
        return lexcmp(C, some)
    return cmp3(C, scal(C, 0), scal(C, 1), some)


def _cmpop(f):
    def g(C):
        if not prim_int(C):
            a, b = tupleparts(C, 0), tupleparts(C, 1)
            if a is None or b is None or len(a) != len(b):
                return None
            if f(I(0), I(0)).a[0]:
                return tnot(lexlt(a, b) if f(I(1), I(0)).a[0] else lexlt(b, a))
            return lexlt(b, a) if f(I(1), I(0)).a[0] else lexlt(a, b)
        return f(scal(C, 0), scal(C, 1))
    return g


def lexlt(a, b):
    r = FALSE
    for x, y in reversed(list(zip(a, b))):
        r = tor(lt(x, y), tand(eq(x, y), r))
    return r


PRIMS['* as PartialOrd::lt'] = _cmpop(lt)
PRIMS['* as PartialOrd::le'] = _cmpop(le)
PRIMS['* as PartialOrd::gt'] = _cmpop(lambda a, b: lt(b, a))
PRIMS['* as PartialOrd::ge'] = _cmpop(lambda a, b: le(b, a))


@prim('* as PartialEq::eq', '* as PartialEq::ne')
def _(C):
    neg = C.callee['orig']['name'] == 'ne'
    t = C.it.strip_ref(C.atys[0])
    y = C.it.ty(t)
    if prim_int(C) or isbool(C):
        r = eq(scal(C, 0), scal(C, 1))
    elif y['k'] == 'adt' and y['ak'] == 'enum' and 'inst' not in C.callee:
        a, b = C.it.deep(C.st, C.args[0]), C.it.deep(C.st, C.args[1])
        if a.op == 'agg' and b.op == 'agg':
            r = eq(a, b)
        else:
            return None
    elif y['k'] == 'tuple':
        r = eq(C.it.deep(C.st, C.args[0]), C.it.deep(C.st, C.args[1]))
    else:
        return None
    return tnot(r) if neg else r


@prim('cmp::max', '* as Ord::max', 'intrinsics::integer_max')
def _(C):
    return tmax(*C.args[:2]) if prim_int(C) else None


@prim('cmp::min', '* as Ord::min', 'intrinsics::integer_min')
def _(C):
    return tmin(*C.args[:2]) if prim_int(C) else None


@prim('* as TryFrom::try_from', '* as TryInto::try_into')
def _(C):
    y = C.it.ty(C.t['d'][2])
    if y['k'] != 'adt' or C.it.ty(C.atys[0])['k'] not in ('uint', 'int'):
        return None
    tb, fb = C.it.bits(y['args'][0]), C.it.bits(C.atys[0])
    v = C.args[0]
    C.ev('tryfrom', v=v, fb=fb, tb=tb)
    if tb >= fb:
        return ok(v)
    m = (1 << tb) - 1
    bad, good = C.fork(lt(I(m), v))
    return outs((good, ok(v)), (bad, err(mk('ev', C.it.curnid, 'tryfromerr'))))


@prim('* as From::from', '* as Into::into')
def _(C):
    if C.it.ty(C.t['d'][2])['k'] in ('uint', 'int') and C.it.ty(C.atys[0])['k'] in ('uint', 'int', 'bool', 'char'):
        return C.args[0]
    return None


@prim('* as AddAssign::add_assign', '* as Add::add')
def _(C):
    t = C.it.strip_ref(C.atys[0])
    if C.it.ty(t)['k'] not in ('uint', 'int'):
        return None
    b = scal(C, 1)
    a = scal(C, 0)
    C.ev('arith', op='Add', x=a, y=b, t=t)
    v = add(a, b, C.it.bits(t))
    if C.callee['orig']['name'] == 'add':
        return v
    r, s = C.place(0)
    C.it.write(C.st, r, s, v, t)
    return UNIT


# ------------------------------------------------------------------ cloning, conversions
@prim('* as Clone::clone', '* as ToOwned::to_owned', '[T]::to_vec')
def _(C):
    t = C.it.strip_ref(C.atys[0])
    y = C.it.ty(t)
    if y['k'] in ('uint', 'int', 'bool', 'char', 'float'):
        return scal(C, 0)
    if C.it.adtname(t) in ('Vec', '[T]', 'BinaryHeap', 'VecDeque', 'BTreeSet', 'PriorityQueue'):
        h, ct = C.handle(0)
        r, s = C.place(0)
        if s and s[-1][0] == 'sl':
            whole = C.it.read(C.st, r, s[:-1], None)
            if s[-1][1] is not I(0) or not isinstance(whole, T) or whole.op == 'agg' or C.it.seqlen(C.st, r, s[:-1]) is not s[-1][2]:
                return None
            h = whole
        o = C.it.clonec(C.st, h, ct)
        C.ev('clonec', src=h, obj=o)
        return o
    if y['k'] == 'tuple' or (y['k'] == 'adt' and 'inst' not in C.callee and y.get('ak') == 'struct'):
        return C.read(0)
    if y['k'] == 'ref':
        return C.read(0)
    return None


@prim('Vec as Deref::deref', 'Vec as DerefMut::deref_mut', 'Vec::as_slice', 'Vec::as_mut_slice', 'Vec as AsRef::as_ref', 'Vec as Borrow::borrow', '[T] as AsRef::as_ref')
def _(C):
    return C.args[0]


@prim('* as IntoIterator::into_iter')
def _(C):
    y = C.it.ty(C.atys[0])
    n = C.it.adtname(C.atys[0])
    if n in ('Vec', '[T]', 'VecDeque') or (n == '[T;N]'):
        if y['k'] == 'ref':
            return mkiter(C, C.args[0])
        if n == '[T;N]' and y['k'] == 'array':
            tmp = ('B', (C.it.curnid, C.it.nextk()))
            C.st.env[tmp] = C.args[0]
            return agg('AIter', None, [('p', mk('ref', tmp, ())), ('pos', I(0)), ('end', I(y.get('len', 0)))])
        h = C.args[0]
        return agg('VIter', None, [('h', h), ('pos', I(0)), ('end', C.it.clen(C.st, h)), ('t', mk('ty', C.atys[0]))])
    if n in ('BTreeSet', 'HashSet', 'BTreeMap', 'HashMap', 'BinaryHeap', 'PriorityQueue'):
        h, _ = C.handle(0)
        return mkoiter(C, h, n)
    return None


def mkoiter(C, h, n):
    o, l, i = C.it.loc(h)
    return agg('OIter', None, [('h', h), ('ver', C.it.memget(C.st, o, l + ('#c',))), ('n', mk('s', n))])


@prim('BTreeSet::iter', 'HashSet::iter', 'BTreeMap::iter', 'HashMap::iter', 'BinaryHeap::iter', 'BTreeMap::keys', 'BTreeMap::values', 'HashMap::keys', 'HashMap::values', 'PriorityQueue::iter', 'PriorityQueue::into_sorted_iter', 'BinaryHeap::into_sorted_vec', 'BTreeSet::range')
def _(C):
    h, ct = C.handle(0)
    return mkoiter(C, h, C.it.adtname(ct))


@prim('BinaryHeap::drain', 'BTreeSet::drain')
def _(C):
    h, ct = C.handle(0)
    r = mkoiter(C, h, C.it.adtname(ct))
    hclear(C, h)
    return r


def mkiter(C, ref):
    root, steps = C.it.deref(ref)
    if steps and steps[-1][0] == 'sl':
        a, b = steps[-1][1], steps[-1][2]
        base = steps[:-1]
    else:
        a, b = I(0), C.it.seqlen(C.st, root, steps)
        base = steps
    return agg('SIter', None, [('p', mk('ref', root, base)), ('pos', a), ('end', b)])


@prim('[T]::iter', '[T]::iter_mut', 'VecDeque::iter', 'VecDeque::iter_mut', '[T;N]::iter')
def _(C):
    return mkiter(C, C.args[0])


def iter_state(C):
    r, s = C.place(0)
    v = C.it.read(C.st, r, s, None)
    return r, s, v


def setf(v, **kw):
    return mk('agg', v.a[0], v.a[1], tuple((n, kw.get(n, x)) for n, x in v.a[2]))


def fget(v, n):
    for k, x in v.a[2]:
        if k == n:
            return x
    return None


@prim('* as Iterator::next', '* as DoubleEndedIterator::next_back')
def _(C):
    back = C.callee['orig']['name'] == 'next_back'
    r, s, v = iter_state(C)
    if v.op != 'agg':
        if 'inst' in C.callee:
            return None
        return opaque_next(C, v)
    k = v.a[0]
    it = C.it
    if k in ('SIter', 'VIter', 'AIter'):
        pos, end = fget(v, 'pos'), fget(v, 'end')
        st1, st0 = C.fork(lt(pos, end))
        res = []
        if st1 is not None:
            if back:
                i = sub(end, I(1))
                nv = setf(v, end=i)
            else:
                i = pos
                nv = setf(v, pos=add(pos, I(1)))
            it.write(st1, r, s, nv, None)
            if k == 'VIter':
                h = fget(v, 'h')
                ct = fget(v, 't').a[0]
                o, l, ix = it.loc(h)
                x = it.load(st1, o, l + ('[]',), ix + (i,), it.elem_ty(ct))
                if it.is_container(it.elem_ty(ct)) if it.elem_ty(ct) is not None else False:
                    x = it.clonec(st1, x, it.elem_ty(ct))
                C.evs(st1, 'next', iter=v, item=x, idx=i)
            else:
                p = fget(v, 'p')
                x = mk('ref', p.a[0], it.addidx(st1, p.a[0], p.a[1], i))
                C.evs(st1, 'next', iter=v, item=x, idx=i)
                if k == 'AIter':
                    x = it.read(st1, x.a[0], x.a[1], None)
            res.append((st1, some(x)))
        if st0 is not None:
            res.append((st0, NONE))
        return res
    if k.split('::')[-1] == 'Range' and len(v.a[2]) == 2:
        a, b = fget(v, 'start'), fget(v, 'end')
        st1, st0 = C.fork(lt(a, b))
        res = []
        if st1 is not None:
            if back:
                i = sub(b, I(1))
                it.write(st1, r, s, setf(v, end=i), None)
            else:
                i = a
                it.write(st1, r, s, setf(v, start=add(a, I(1))), None)
            C.evs(st1, 'next', iter=v, item=i, idx=i)
            res.append((st1, some(i)))
        if st0 is not None:
            res.append((st0, NONE))
        return res
    if k.split('::')[-1] == 'RangeFrom':
        a = fget(v, 'start')
        it.write(C.st, r, s, setf(v, start=add(a, I(1))), None)
        return some(a)
    if k.split('::')[-1] == 'RangeInclusive':
        a, b, ex = fget(v, 'start'), fget(v, 'end'), fget(v, 'exhausted')
        res = []
        sx, sn = C.fork(ex)
        if sx is not None:
            res.append((sx, NONE))
        if sn is not None:
            s1, s2 = sn.copy(), sn
            if it.assume(s1, lt(a, b), True):
                if back:
                    it.write(s1, r, s, setf(v, end=sub(b, I(1))), None)
                    res.append((s1, some(b)))
                else:
                    it.write(s1, r, s, setf(v, start=add(a, I(1))), None)
                    res.append((s1, some(a)))
            if it.assume(s2, lt(a, b), False):
                s3 = s2.copy()
                if it.assume(s3, eq(a, b), True):
                    it.write(s3, r, s, setf(v, exhausted=TRUE), None)
                    res.append((s3, some(a)))
                if it.assume(s2, eq(a, b), False):
                    res.append((s2, NONE))
        return res
    if k == 'OIter':
        return opaque_next(C, v)
    if k == 'SplitWs':
        x = fget(v, 's')
        n = fget(v, 'k')
        tok = mk('tok', fget(v, 'how'), x, n)
        st1, st0 = C.fork(mk('hastok', fget(v, 'how'), x, n))
        res = []
        if st1 is not None:
            it.write(st1, r, s, setf(v, k=add(n, I(1))), None)
            res.append((st1, some(mk('ref', ('val', tok), ()))))
        if st0 is not None:
            res.append((st0, NONE))
        return res
    if 'inst' in C.callee:
        return None
    return opaque_next(C, v)


def opaque_next(C, v):
    e = mk('ev', C.it.curnid, 'item')
    c = mk('has', C.it.curnid, 'item')
    s1, s0 = C.st.copy(), C.st.copy()
    res = []
    # an element of an opaque iterator: a new value each time
    f = dict(s1.facts)
    f.pop(c, None)
    s1.facts = f
    s0.facts = f
    C.it.assume(s1, c, True)
    C.it.assume(s0, c, False)
    C.evs(s1, 'onext', iter=v, item=e)
    C.evs(s0, 'oend', iter=v)
    y = C.it.ty(C.t['d'][2])
    if y['k'] == 'adt' and y.get('args') and C.it.ty(y['args'][0])['k'] == 'adt' and C.it.adtname(y['args'][0]) == 'Result':
        f = C.it.ty(y['args'][0])
        s2 = s1.copy()
        C.it.assume(s1, mk('is', e, 'Ok'), True)
        C.it.assume(s2, mk('is', e, 'Ok'), False)
        return [(s1, some(ok(mk('proj', e, 'Ok.0')))), (s2, some(err(mk('proj', e, 'Err.0')))), (s0, NONE)]
    return [(s1, some(e)), (s0, NONE)]


@prim('str::split_whitespace', 'str::split_ascii_whitespace')
def _(C):
    return agg('SplitWs', None, [('s', C.it.deep(C.st, C.args[0])), ('k', I(0)), ('how', mk('s', 'ws'))])


@prim('str::split')
def _(C):
    return agg('SplitWs', None, [('s', C.it.deep(C.st, C.args[0])), ('k', I(0)), ('how', mk('s', 'sep:%s' % show(C.it.deep(C.st, C.args[1]))))])


@prim('RangeInclusive::new')
def _(C):
    return agg('RangeInclusive', None, [('start', C.args[0]), ('end', C.args[1]), ('exhausted', FALSE)])


@prim('* as ExactSizeIterator::len')
def _(C):
    v = C.read(0)
    if v.op == 'agg' and v.a[0] in ('SIter', 'VIter'):
        return sub(fget(v, 'end'), fget(v, 'pos'))
    if v.op == 'agg' and v.a[0].split('::')[-1] == 'Range':
        return sub(fget(v, 'end'), fget(v, 'start'))
    return None


# ------------------------------------------------------------------ vectors
@prim('Vec::new', 'Vec::with_capacity', 'BinaryHeap::new', 'BinaryHeap::with_capacity', 'BTreeSet::new', 'HashSet::new', 'PriorityQueue::new', 'PriorityQueue::with_capacity', 'BTreeMap::new', 'HashMap::new', 'VecDeque::new', 'VecDeque::with_capacity',
      'Vec as Default::default', 'BinaryHeap as Default::default', 'BTreeSet as Default::default', 'PriorityQueue as Default::default', 'HashMap as Default::default', 'HashSet as Default::default')
def _(C):
    o = C.it.newobj(C.st, mk('empty'))
    C.ev('new', obj=o, what=C.it.adtname(C.t['d'][2]))
    return o


@prim('usize as Default::default', 'u32 as Default::default')
def _(C):
    return I(0)


@prim('bool as Default::default')
def _(C):
    return FALSE


@prim('vec::from_elem')
def _(C):
    v, n = C.args
    t = C.atys[0]
    if C.it.is_container(t):
        o = C.it.newobj(C.st, mk('cloneof'))
        C.st.mem[(o, ('#len',))] = n
        so, sl, si = C.it.loc(v)
        for p, _ in C.it.leaves(t):
            if p and p[-1] == '#h':
                continue
            m = C.it.memget(C.st, so, sl + p)
            C.st.mem[(o, ('[]',) + p)] = mk('fill', m) if p == ('#len',) else (mk('mempty') if m.op == 'mempty' else mk('fillm', m))
        return o
    o = C.it.newobj(C.st, mk('fillobj', v, n))
    C.ev('new', obj=o, what='fill')
    return o


@prim('boxed::box_assume_init_into_vec_unsafe', '[T]::into_vec', 'slice::into_vec')
def _(C):
    b = C.args[0]
    v = C.it.read(C.st, *C.it.deref(b), None) if b.op in ('agg', 'ref') else b
    for f in ('value', 'value'):
        if v.op == 'agg' and v.a[0] != 'array':
            v = C.it.proj(v, f)
    et = C.it.elem_ty(C.t['d'][2])
    o = C.it.newobj(C.st, mk('empty'))
    if v.op == 'agg' and v.a[0] == 'array':
        for i, (_, x) in enumerate(v.a[2]):
            C.it.store(C.st, o, ('[]',), (I(i),), et, x)
        C.st.mem[(o, ('#len',))] = I(len(v.a[2]))
    return o


@prim('Box::new_uninit')
def _(C):
    r = ('B', (C.it.curnid, C.it.nextk()))
    C.st.env[r] = UNDEF
    return agg('Box', None, [('0', mk('ref', r, ()))])


@prim('Box::new')
def _(C):
    r = ('B', (C.it.curnid, C.it.nextk()))
    C.st.env[r] = C.args[0]
    return agg('Box', None, [('0', mk('ref', r, ()))])


@prim('Vec::push', 'VecDeque::push_back')
def _(C):
    h, ct = C.handle(0)
    n = C.it.clen(C.st, h)
    o, l, ix = C.it.loc(h)
    C.ev('push', obj=o, leaf=l, idx=ix, at=n, val=C.args[1])
    C.it.store(C.st, o, l + ('[]',), ix + (n,), C.it.elem_ty(ct), C.args[1])
    C.it.setlen(C.st, h, add(n, I(1)))
    return UNIT


@prim('Vec::pop', 'VecDeque::pop_back')
def _(C):
    h, ct = C.handle(0)
    n = C.it.clen(C.st, h)
    z, nz = C.fork(eq(n, I(0)))
    res = []
    if nz is not None:
        o, l, ix = C.it.loc(h)
        i = sub(n, I(1))
        x = C.it.load(nz, o, l + ('[]',), ix + (i,), C.it.elem_ty(ct))
        if C.it.is_container(C.it.elem_ty(ct)):
            x = C.it.clonec(nz, x, C.it.elem_ty(ct))
        C.it.setlen(nz, h, i)
        C.evs(nz, 'vpop', obj=o, leaf=l, idx=ix, at=i, item=x)
        res.append((nz, some(x)))
    if z is not None:
        o, l, ix = C.it.loc(h)
        C.evs(z, 'vnone', obj=o, leaf=l, idx=ix)
        res.append((z, NONE))
    return res


@prim('Vec::clear', 'VecDeque::clear')
def _(C):
    h, ct = C.handle(0)
    o, l, ix = C.it.loc(h)
    C.it.setlen(C.st, h, I(0))
    C.ev('vclear', obj=o, leaf=l, idx=ix)
    return UNIT


@prim('Vec::truncate', 'VecDeque::truncate')
def _(C):
    h, ct = C.handle(0)
    o, l, ix = C.it.loc(h)
    C.ev('vtrunc', obj=o, leaf=l, idx=ix, n=C.args[1])
    C.it.setlen(C.st, h, C.args[1] if C.args[1] is I(0) else tmin(C.it.clen(C.st, h), C.args[1]))
    return UNIT


@prim('Vec::len', 'BinaryHeap::len', 'BTreeSet::len', 'PriorityQueue::len', 'VecDeque::len', 'HashMap::len', 'HashSet::len', 'BTreeMap::len')
def _(C):
    h, ct = C.handle(0)
    return C.it.clen(C.st, h)


@prim('[T]::len', '[T;N]::len')
def _(C):
    r, s = C.place(0)
    return C.it.seqlen(C.st, r, s)


@prim('[T]::is_empty')
def _(C):
    r, s = C.place(0)
    return eq(C.it.seqlen(C.st, r, s), I(0))


@prim('Vec::is_empty', 'BinaryHeap::is_empty', 'BTreeSet::is_empty', 'PriorityQueue::is_empty', 'VecDeque::is_empty', 'HashMap::is_empty', 'HashSet::is_empty', 'BTreeMap::is_empty')
def _(C):
    h, ct = C.handle(0)
    return eq(C.it.clen(C.st, h), I(0))


@prim('* as Index::index', '* as IndexMut::index_mut')
def _(C):
    n = C.it.adtname(C.atys[0])
    if n not in ('Vec', '[T]', 'VecDeque', '[T;N]'):
        return None
    r, s = C.place(0)
    i = C.args[1]
    iy = C.it.ty(C.atys[1])
    if iy['k'] == 'uint':
        C.ev('index', root=r, steps=s, i=i)
        return mk('ref', r, C.it.addidx(C.st, r, s, i))
    return subslice(C, r, s, i)


def bounds(C, r, s, i):
    nm = i.a[0].split('::')[-1] if i.op == 'agg' else None
    ln = C.it.seqlen(C.st, r, s)
    if nm == 'Range':
        return fget(i, 'start'), fget(i, 'end')
    if nm == 'RangeFrom':
        return fget(i, 'start'), ln
    if nm == 'RangeTo':
        return I(0), fget(i, 'end')
    if nm == 'RangeFull':
        return I(0), ln
    if nm == 'RangeInclusive':
        return fget(i, 'start'), add(fget(i, 'end'), I(1))
    if nm == 'RangeToInclusive':
        return I(0), add(fget(i, 'end'), I(1))
    return None


def subslice(C, r, s, i):
    b = bounds(C, r, s, i)
    if b is None:
        return None
    off = s[-1][1] if s and s[-1][0] == 'sl' else I(0)
    return mk('ref', r, strip_sl(s) + (('sl', add(off, b[0]), add(off, b[1])),))


@prim('[T]::get', '[T]::get_mut', 'VecDeque::get')
def _(C):
    r, s = C.place(0)
    i = C.args[1]
    ln = C.it.seqlen(C.st, r, s)
    if C.it.ty(C.atys[1])['k'] == 'uint':
        a, b = C.fork(lt(i, ln))
        return outs((a, some(mk('ref', r, C.it.addidx(C.st, r, s, i)))), (b, NONE))
    bb = bounds(C, r, s, i)
    if bb is None:
        return None
    ref = subslice(C, r, s, i)
    a, b = C.fork(tand(le(bb[0], bb[1]), le(bb[1], ln)))
    return outs((a, some(ref)), (b, NONE))


@prim('[T]::first', '[T]::first_mut', '[T]::last', '[T]::last_mut')
def _(C):
    r, s = C.place(0)
    ln = C.it.seqlen(C.st, r, s)
    i = I(0) if C.callee['fn']['name'].startswith('first') else sub(ln, I(1))
    z, nz = C.fork(eq(ln, I(0)))
    return outs((nz, some(mk('ref', r, C.it.addidx(C.st, r, s, i)))), (z, NONE))


@prim('[T]::split_at', '[T]::split_at_mut')
def _(C):
    r, s = C.place(0)
    off = s[-1][1] if s and s[-1][0] == 'sl' else I(0)
    end = s[-1][2] if s and s[-1][0] == 'sl' else C.it.seqlen(C.st, r, s)
    m = add(off, C.args[1])
    b = strip_sl(s)
    return tup(mk('ref', r, b + (('sl', off, m),)), mk('ref', r, b + (('sl', m, end),)))


@prim('[T]::fill')
def _(C):
    h, ct = C.handle(0)
    r, s = C.place(0)
    o, l, ix = C.it.loc(h)
    C.ev('vfill', obj=o, leaf=l, idx=ix, val=C.args[1], whole=not (s and s[-1][0] == 'sl'))
    et = C.ety(0)
    for p, _ in C.it.leaves(et):
        if s and s[-1][0] == 'sl' or ix:
            C.st.mem[(o, l + ('[]',) + p)] = mk('havoc', C.it.curnid, p)
        else:
            C.st.mem[(o, l + ('[]',) + p)] = mk('fill', C.it.projpath(C.args[1], p))
    return UNIT


@prim('Vec::resize')
def _(C):
    h, ct = C.handle(0)
    o, l, ix = C.it.loc(h)
    n0 = C.it.clen(C.st, h)
    C.ev('vresize', obj=o, leaf=l, idx=ix, n=C.args[1], val=C.args[2])
    for p, _ in C.it.leaves(C.it.elem_ty(ct)):
        m = mk('fill', C.it.projpath(C.args[2], p)) if n0 is I(0) and not ix else mk('resized', C.it.memget(C.st, o, l + ('[]',) + p), n0, C.args[2])
        C.st.mem[(o, l + ('[]',) + p)] = m
    C.it.setlen(C.st, h, C.args[1])
    return UNIT


@prim('[T]::reverse')
def _(C):
    h, ct = C.handle(0)
    r, s = C.place(0)
    o, l, ix = C.it.loc(h)
    C.ev('vreverse', obj=o, leaf=l, idx=ix, whole=not (s and s[-1][0] == 'sl'))
    for p, _ in C.it.leaves(C.ety(0)):
        k = (o, l + ('[]',) + p)
        C.st.mem[k] = mk('rev', C.it.memget(C.st, *k), C.it.clen(C.st, h), ix)
    return UNIT


@prim('[T]::swap')
def _(C):
    h, ct = C.handle(0)
    r, s = C.place(0)
    et = C.ety(0)
    a = mk('ref', r, C.it.addidx(C.st, r, s, C.args[1]))
    b = mk('ref', r, C.it.addidx(C.st, r, s, C.args[2]))
    x, y = C.it.read(C.st, a.a[0], a.a[1], et), C.it.read(C.st, b.a[0], b.a[1], et)
    C.it.write(C.st, a.a[0], a.a[1], y, et)
    C.it.write(C.st, b.a[0], b.a[1], x, et)
    return UNIT


@prim('Vec::remove', 'Vec::swap_remove')
def _(C):
    h, ct = C.handle(0)
    o, l, ix = C.it.loc(h)
    i = C.args[1]
    x = C.it.load(C.st, o, l + ('[]',), ix + (i,), C.it.elem_ty(ct))
    C.ev('vremove', obj=o, leaf=l, idx=ix, at=i, item=x, swap=C.callee['fn']['name'] == 'swap_remove')
    for p, _ in C.it.leaves(C.it.elem_ty(ct)):
        k = (o, l + ('[]',) + p)
        C.st.mem[k] = mk('removed', C.it.memget(C.st, *k), ix, i)
    C.it.setlen(C.st, h, sub(C.it.clen(C.st, h), I(1)))
    return x


@prim('Vec::insert')
def _(C):
    h, ct = C.handle(0)
    o, l, ix = C.it.loc(h)
    C.ev('vinsert', obj=o, leaf=l, idx=ix, at=C.args[1], val=C.args[2])
    for p, _ in C.it.leaves(C.it.elem_ty(ct)):
        k = (o, l + ('[]',) + p)
        C.st.mem[k] = mk('inserted', C.it.memget(C.st, *k), ix, C.args[1], C.it.projpath(C.args[2], p) if '[]' not in p else UNDEF)
    C.it.setlen(C.st, h, add(C.it.clen(C.st, h), I(1)))
    return UNIT


@prim('Vec::drain')
def _(C):
    h, ct = C.handle(0)
    r, s = C.place(0)
    i = C.args[1]
    if i.op != 'agg' or i.a[0].split('::')[-1] != 'RangeFull':
        return None
    o = C.it.clonec(C.st, h, ct)
    n = C.it.clen(C.st, h)
    ob, l, ix = C.it.loc(h)
    C.it.setlen(C.st, h, I(0))
    C.ev('vclear', obj=ob, leaf=l, idx=ix)
    return agg('VIter', None, [('h', o), ('pos', I(0)), ('end', n), ('t', mk('ty', ct))])


@prim('Vec::append')
def _(C):
    return None


@prim('Vec::extend_from_slice')
def _(C):
    h, ct = C.handle(0)
    o, l, ix = C.it.loc(h)
    C.ev('vextend', obj=o, leaf=l, idx=ix, src=C.args[1])
    n0 = C.it.clen(C.st, h)
    r, s = C.place(1)
    n1 = C.it.seqlen(C.st, r, s)
    h2, _ = C.handle(1)
    o2, l2, ix2 = C.it.loc(h2)
    for p, _ in C.it.leaves(C.it.elem_ty(ct)):
        k = (o, l + ('[]',) + p)
        src = C.it.memget(C.st, o2, l2 + ('[]',) + p)
        off = s[-1][1] if s and s[-1][0] == 'sl' else I(0)
        C.st.mem[k] = mk('extended', C.it.memget(C.st, *k), n0, src, ix2, off) if not (n0 is I(0) and off is I(0) and not ix) else (mk('view', src, ix2) if ix2 else src)
    C.it.setlen(C.st, h, add(n0, n1))
    return UNIT


@prim('Vec::shrink_to_fit', 'Vec::reserve', 'Vec::reserve_exact', 'BinaryHeap::reserve', 'BinaryHeap::shrink_to_fit', 'VecDeque::reserve')
def _(C):
    return UNIT


@prim('Vec::capacity')
def _(C):
    h, ct = C.handle(0)
    return mk('cap', h)


def closure_ev(C, kind):
    """retain / sort / dedup: contents replaced, the closure is evaluated by the rules"""
    h, ct = C.handle(0)
    r, s = C.place(0)
    o, l, ix = C.it.loc(h)
    n = C.it.clen(C.st, h)
    cl = C.args[1] if len(C.args) > 1 else None
    pre = {}
    for p, _ in C.it.leaves(C.it.elem_ty(C.atys[0])):
        k = (o, l + ('[]',) + p)
        m = C.it.memget(C.st, *k)
        pre[p] = m
        C.st.mem[k] = mk(kind, m, C.it.curnid, ix) if not ix else mk('stv', m, ix, mk(kind, mk('view', m, ix), C.it.curnid))
    inst = None
    f = C.callee['fn']
    clt = C.atys[1] if len(C.atys) > 1 else None
    C.ev('bulk', how=kind, name=f['name'], obj=o, leaf=l, idx=ix, n=n, closure=cl, clty=clt, pre=pre, whole=not (s and s[-1][0] == 'sl'), env=C.st.env, mem=C.st.mem, et=C.it.elem_ty(C.atys[0]))
    if kind in ('retain', 'dedup'):
        C.it.setlen(C.st, h, mk('newlen', C.it.curnid, n))
    # what the closure writes to is not known afterwards
    y = C.it.ty(clt) if clt is not None else {'k': None}
    if y['k'] == 'closure' and cl.op == 'agg':
        for (_, x), t in zip(cl.a[2], y['args']):
            if C.it.ty(t)['k'] == 'ref' and C.it.ty(t)['mut']:
                C.it.havoc(C.st, x)
    return UNIT


@prim('Vec::retain', 'Vec::retain_mut')
def _(C):
    return closure_ev(C, 'retain')


@prim('Vec::dedup_by', 'Vec::dedup_by_key', 'Vec::dedup')
def _(C):
    return closure_ev(C, 'dedup')


@prim('[T]::sort_unstable_by', '[T]::sort_by', '[T]::sort_by_key', '[T]::sort_unstable_by_key', '[T]::sort', '[T]::sort_unstable', '[T]::sort_by_cached_key')
def _(C):
    return closure_ev(C, 'sort')


# ------------------------------------------------------------------ heaps, sets, queues
def ver(C, h, st=None):
    o, l, i = C.it.loc(h)
    return C.it.ldmem(st or C.st, C.it.memget(st or C.st, o, l + ('#c',)), i)


def setver(C, h, v, st=None):
    o, l, i = C.it.loc(h)
    (st or C.st).mem[(o, l + ('#c',))] = v


def hclear(C, h):
    C.it.setlen(C.st, h, I(0))
    setver(C, h, mk('hempty'))
    C.ev('hclear', obj=h)


@prim('BinaryHeap::clear', 'BTreeSet::clear', 'PriorityQueue::clear', 'HashMap::clear', 'HashSet::clear', 'BTreeMap::clear')
def _(C):
    h, ct = C.handle(0)
    hclear(C, h)
    return UNIT


@prim('BinaryHeap::push')
def _(C):
    h, ct = C.handle(0)
    v = ver(C, h)
    C.ev('hpush', obj=h, item=C.args[1], ver=v)
    setver(C, h, mk('hpush', v, C.args[1]))
    n = C.it.clen(C.st, h)
    C.it.setlen(C.st, h, add(n, I(1)))
    C.it.assume(C.st, eq(add(n, I(1)), I(0)), False)
    return UNIT


@prim('PriorityQueue::push', 'PriorityQueue::push_increase', 'PriorityQueue::push_decrease')
def _(C):
    h, ct = C.handle(0)
    v = ver(C, h)
    C.ev('qpush', obj=h, item=C.args[1], prio=C.args[2], ver=v)
    nv = mk('qpush', v, C.args[1], C.args[2])
    setver(C, h, nv)
    C.it.setlen(C.st, h, mk('qlen', nv))
    return mk('ev', C.it.curnid, 'oldprio')


@prim('PriorityQueue::change_priority', 'PriorityQueue::change_priority_by')
def _(C):
    h, ct = C.handle(0)
    v = ver(C, h)
    C.ev('qchange', obj=h, item=C.it.deep(C.st, C.args[1]), prio=C.args[2])
    setver(C, h, mk('qchange', v, C.it.deep(C.st, C.args[1]), C.args[2]))
    return mk('ev', C.it.curnid, 'oldprio')


@prim('PriorityQueue::remove')
def _(C):
    return None


def expand(it, v, ty):
    f = it.fields(ty) if ty is not None else None
    if f is None:
        return v
    y = it.ty(ty)
    nm = 'tuple' if y['k'] == 'tuple' else y.get('adt', 'x')
    return mk('agg', nm, None, tuple((n, expand(it, mk('proj', v, n), x)) for n, x in f))


def opt_arg(C):
    y = C.it.ty(C.t['d'][2])
    return y['args'][0] if y.get('args') else None


@prim('BinaryHeap::pop', 'PriorityQueue::pop')
def _(C):
    h, ct = C.handle(0)
    n = C.it.clen(C.st, h)
    z, nz = C.fork(eq(n, I(0)))
    res = []
    if nz is not None:
        v = ver(C, h, nz)
        top = expand(C.it, mk('htop', v), opt_arg(C))
        C.evs(nz, 'hpop', obj=h, item=top, ver=v)
        setver(C, h, mk('hpop', v), nz)
        C.it.setlen(nz, h, sub(n, I(1)))
        res.append((nz, some(top)))
    if z is not None:
        C.evs(z, 'hempty', obj=h)
        res.append((z, NONE))
    return res


@prim('BinaryHeap::peek', 'PriorityQueue::peek')
def _(C):
    h, ct = C.handle(0)
    n = C.it.clen(C.st, h)
    z, nz = C.fork(eq(n, I(0)))
    res = []
    if nz is not None:
        v = ver(C, h, nz)
        et = C.ety(0)
        if C.it.adtname(ct) == 'PriorityQueue':
            top = tup(mk('ref', ('val', mk('proj', mk('htop', v), '0')), ()), mk('ref', ('val', mk('proj', mk('htop', v), '1')), ()))
            res.append((nz, some(top)))
        else:
            top = expand(C.it, mk('htop', v), et)
            C.evs(nz, 'hpeek', obj=h, item=top, ver=v)
            res.append((nz, some(mk('ref', ('val', top), ()))))
    if z is not None:
        res.append((z, NONE))
    return res


@prim('BTreeSet::insert', 'HashSet::insert')
def _(C):
    h, ct = C.handle(0)
    v = ver(C, h)
    C.ev('sinsert', obj=h, item=C.args[1])
    setver(C, h, mk('sins', v, C.args[1]))
    C.it.setlen(C.st, h, mk('slen', C.it.curnid))
    return mk('sinserted', v, C.args[1])


@prim('BTreeSet::contains', 'HashSet::contains')
def _(C):
    h, ct = C.handle(0)
    return mk('scontains', ver(C, h), C.it.deep(C.st, C.args[1]))


# ------------------------------------------------------------------ panics, logging, misc
@prim('panicking::panic', 'rt::panic_fmt', 'rt::begin_panic', 'panicking::assert_failed', 'panicking::panic_fmt', 'option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed', 'unwrap_failed::unwrap_failed_inner',
      'panicking::panic_bounds_check', 'panicking::unreachable_display', 'panicking::panic_display', 'panicking::panic_explicit', 'panicking::assert_failed_inner', 'panicking::panic_const', 'panicking::panic_nounwind',
      'panicking::panic_str_2015', 'panicking::panic_str_literal')
def _(C):
    C.ev('panic', name=C.callee['fn']['name'], vals=tuple(C.it.deep(C.st, a) for a in C.args))
    return []


@prim('__private_api::log', 'log::log')
def _(C):
    return UNIT


@prim('log::max_level', 'log::__private_api::loc')
def _(C):
    return mk('ev', C.it.curnid, 'log')


@prim('LevelFilter as PartialOrd::partial_cmp', 'Level as PartialOrd::partial_cmp')
def _(C):
    e = mk('logcmp', C.it.curnid)
    a, b = C.fork(e)
    return outs((a, some(ORD['Less'])), (b, some(ORD['Greater'])))


@prim('hint::must_use', 'hint::black_box', 'convert::identity', 'String as Deref::deref', 'String::as_str', 'str as AsRef::as_ref', 'String as AsRef::as_ref')
def _(C):
    return C.args[0]


@prim('mem::drop', 'mem::forget')
def _(C):
    C.ev('drop', val=C.args[0])
    return UNIT


@prim('str::starts_with')
def _(C):
    return mk('starts_with', C.it.deep(C.st, C.args[0]), C.it.deep(C.st, C.args[1]))


@prim('String::is_empty', 'str::is_empty')
def _(C):
    return mk('strempty', C.it.deep(C.st, C.args[0]))


@prim('String as Index::index', 'str as Index::index')
def _(C):
    i = C.args[1]
    nm = i.a[0].split('::')[-1] if i.op == 'agg' else None
    x = C.it.deep(C.st, C.args[0])
    if nm == 'RangeFrom':
        return mk('ref', ('val', mk('strfrom', x, fget(i, 'start'))), ())
    if nm == 'RangeFull':
        return C.args[0]
    return None


@prim('str::strip_prefix')
def _(C):
    x, p = C.it.deep(C.st, C.args[0]), C.it.deep(C.st, C.args[1])
    a, b = C.fork(mk('starts_with', x, p))
    n = len(p.a[0].encode()) if p.op == 's' else None
    v = mk('strfrom', x, I(n)) if n is not None else mk('stripped', x, p)
    return outs((a, some(mk('ref', ('val', v), ()))), (b, NONE))


@prim('str::parse')
def _(C):
    x = C.it.deep(C.st, C.args[0])
    y = C.it.ty(C.t['d'][2])
    tgt = C.it.ty(y['args'][0])['s'] if y.get('args') else '?'
    if tgt == 'u64':
        tgt = 'usize'  # 64-bit target
    C.ev('parse', src=x, to=tgt)
    a, b = C.fork(mk('parses', x, tgt))
    return outs((a, ok(mk('parsed', x, tgt))), (b, err(mk('parseerr', x))))
