"""Hash-consed symbolic terms with light algebraic normalisation."""
M64 = (1 << 64) - 1


class T:
    __slots__ = ('op', 'a', 'id', '_x')

    def __repr__(self):
        return show(self, 4)


_tab = {}


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t._x = None
        _tab[k] = t
    return t


def I(n):
    return mk('i', n)


def B(b):
    return mk('b', bool(b))


TRUE = mk('b', True)
FALSE = mk('b', False)
UNIT = mk('agg', 'unit', None, ())
UNDEF = mk('undef')
MAX = I(M64)


def agg(ty, variant, fields):
    return mk('agg', ty, variant, tuple(fields))


def tup(*vs):
    return agg('tuple', None, [(str(i), v) for i, v in enumerate(vs)])


def some(v):
    return agg('Option', 'Some', [('0', v)])


NONE = agg('Option', 'None', [])


def ok(v):
    return agg('Result', 'Ok', [('0', v)])


def err(v):
    return agg('Result', 'Err', [('0', v)])


def isint(t):
    return t.op == 'i'


# ---- linear arithmetic modulo 2^bits -------------------------------------------------
def _lin(t, bits):
    """-> (dict atom->coef, const)"""
    if t.op == 'i':
        return {}, t.a[0]
    if t.op == 'lin' and t.a[0] == bits:
        return dict(t.a[1]), t.a[2]
    return {t: 1}, 0


def mklin(d, c, bits):
    m = 1 << bits
    d = {k: v for k, v in d.items() if v % m}
    if not d:
        return I(c % m)
    c %= m
    if c >= m // 2:
        c -= m
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk('lin', bits, tuple(sorted(d.items(), key=lambda x: x[0].id)), c)


def add(a, b, bits=64):
    x, c = _lin(a, bits)
    y, d = _lin(b, bits)
    for k, v in y.items():
        x[k] = x.get(k, 0) + v
    return mklin(x, c + d, bits)


def sub(a, b, bits=64):
    x, c = _lin(a, bits)
    y, d = _lin(b, bits)
    for k, v in y.items():
        x[k] = x.get(k, 0) - v
    return mklin(x, c - d, bits)


def sadd(*ts):
    xs = []
    c = 0
    for t in ts:
        if t.op == 'sadd':
            ys = t.a
        else:
            ys = (t,)
        for y in ys:
            if isint(y):
                c += y.a[0]
            else:
                xs.append(y)
    if c >= M64:
        return MAX
    if c:
        xs.append(I(c))
    if not xs:
        return I(0)
    if len(xs) == 1:
        return xs[0]
    return mk('sadd', *sorted(xs, key=lambda t: t.id))


def tmax(*ts):
    xs = set()
    for t in ts:
        for y in (t.a if t.op == 'max' else (t,)):
            xs.add(y)
    cs = [x.a[0] for x in xs if isint(x)]
    xs = {x for x in xs if not isint(x)}
    if cs and (max(cs) != 0 or not xs):
        xs.add(I(max(cs)))
    xs = sorted(xs, key=lambda t: t.id)
    return xs[0] if len(xs) == 1 else mk('max', *xs)


def tmin(*ts):
    xs = set()
    for t in ts:
        for y in (t.a if t.op == 'min' else (t,)):
            xs.add(y)
    xs = sorted(xs, key=lambda t: t.id)
    if all(isint(x) for x in xs):
        return I(min(x.a[0] for x in xs))
    return xs[0] if len(xs) == 1 else mk('min', *xs)


# ---- booleans ------------------------------------------------------------------------
def tnot(t):
    if t.op == 'b':
        return B(not t.a[0])
    if t.op == 'not':
        return t.a[0]
    return mk('not', t)


def constdiff(a, b):
    """integer difference a-b if it is a constant (mod 2^64, small), else None"""
    if a is b:
        return 0
    for bits in (64, 32):
        x, c = _lin(a, bits)
        y, d = _lin(b, bits)
        if x == y:
            return c - d
    return None


def islen(t):
    if t.op == 'phi':
        return isinstance(t.a[1], tuple) and t.a[1][0] == 'm' and t.a[1][2][-1:] == ('#len',)
    return t.op == 'm0' and t.a[1][-1:] == ('#len',)


def eq(a, b):
    if a is b:
        return TRUE
    if isint(a) and isint(b):
        return B(a.a[0] == b.a[0])
    if a.op == 'b' and b.op == 'b':
        return B(a.a[0] == b.a[0])
    if a.op == 'b':
        a, b = b, a
    if b.op == 'b':
        return a if b.a[0] else tnot(a)
    if a.op == 's' and b.op == 's':
        return B(a.a[0] == b.a[0])
    if a.op == 'agg' and b.op == 'agg':
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for (n1, x), (n2, y) in zip(a.a[2], b.a[2]):
            r = tand(r, eq(x, y))
        return r
    d = constdiff(a, b)
    if d is not None and d != 0:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if y is I(0) and x.op == 'lin' and x.a[0] == 64 and 1 < len(x.a[1]) < 5 and x.a[2] == 0 and all(k == 1 and islen(v) for v, k in x.a[1]):
            # lengths are too small for their sum to wrap around
            r = TRUE
            for v, _ in x.a[1]:
                r = tand(r, eq(v, y))
            return r
        if x.op == 'ntok' and isint(y):
            k = y.a[0]
            if k > 8:
                break
            no = tnot(mk('hastok', x.a[0], x.a[1], y))
            return no if k == 0 else tand(mk('hastok', x.a[0], x.a[1], I(k - 1)), no)
    if a.id > b.id:
        a, b = b, a
    return mk('eq', a, b)


def lt(a, b):
    if a is b:
        return FALSE
    if isint(a) and isint(b):
        return B(a.a[0] < b.a[0])
    if isint(b) and b.a[0] == 0:
        return FALSE
    if isint(a) and a.a[0] == M64:
        return FALSE
    if b.op == 'ntok':
        return mk('hastok', b.a[0], b.a[1], a)
    if a.op == 'ntok' and isint(b):
        return tnot(mk('hastok', a.a[0], a.a[1], I(b.a[0] - 1)))
    if isint(b) and b.a[0] == 1:
        return eq(a, I(0))
    if isint(a) and a.a[0] == 0:
        return tnot(eq(b, I(0)))
    if isint(b) and b.a[0] == M64:
        return tnot(eq(a, b))
    return mk('lt', a, b)


def le(a, b):
    return tnot(lt(b, a))


def tand(a, b):
    if a.op == 'b':
        return b if a.a[0] else FALSE
    if b.op == 'b':
        return a if b.a[0] else FALSE
    if a is b:
        return a
    return mk('and', a, b)


def tor(a, b):
    if a.op == 'b':
        return TRUE if a.a[0] else b
    if b.op == 'b':
        return TRUE if b.a[0] else a
    if a is b:
        return a
    return mk('or', a, b)


# ---- display -------------------------------------------------------------------------
def show(t, d=6):
    if isinstance(t, tuple):
        return '(' + ','.join(show(x, d) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if t.op == 'i':
        return 'MAX' if t.a[0] == M64 else str(t.a[0])
    if t.op == 'b':
        return 'true' if t.a[0] else 'false'
    if d <= 0:
        return '#%d' % t.id
    if t.op == 'agg':
        return '%s%s{%s}' % (t.a[0].split('::')[-1], '::' + t.a[1] if t.a[1] else '', ','.join('%s:%s' % (n, show(v, d - 1)) for n, v in t.a[2]))
    if t.op == 'phi':
        return 'phi@%s:%s' % (t.a[0], '.'.join(map(str, t.a[1])))
    if t.op == 'lin':
        s = '+'.join((show(k, d - 1) if v == 1 else '%d*%s' % (v, show(k, d - 1))) for k, v in t.a[1])
        return '(%s%+d)' % (s, t.a[2]) if t.a[2] else '(%s)' % s
    if t.op == 'lt':
        return '%s<%s' % (show(t.a[0], d - 1), show(t.a[1], d - 1))
    if t.op == 'eq':
        return '%s==%s' % (show(t.a[0], d - 1), show(t.a[1], d - 1))
    if t.op == 'init':
        return str(t.a[0])
    if t.op == 'm0':
        return 'M0[%s%s]' % (show(t.a[0], d - 1), '.'.join(('',) + t.a[1]))
    return '%s(%s)' % (t.op, ','.join(show(x, d - 1) for x in t.a))


def subterms(t, seen=None):
    """all terms reachable (phi operands are not followed)"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        st.extend(x.a)
    return seen
