"""Value flow on terms: where can a value come from."""
from terms import *

HEAPV = ('hpush', 'hpop', 'qpush', 'qpop', 'qchange')
THROUGH = ('fill', 'fillm', 'view', 'trunc', 'cast', 'neg', 'rev', 'resized', 'newlen', 'removed', 'inserted', 'sort', 'dedup', 'retain', 'extended', 'cloneof', 'repeat')
ARITH = ('sadd', 'sadd32', 'min', 'max', 'lin', 'mul', 'bop', 'wrapped')


def sources(it, t, stop=None, arith=True, limit=200000):
    """all terms a value may be a copy of (arith: or be computed from); conditions and indices are not followed.
    stop(x) ends the exploration at x."""
    out, seen, work = [], set(), [(t, ())]

    def pj(v, f):
        for n in f:
            v = it.proj(v, n)
        return v
    while work:
        x, f = work.pop()
        if (x, f) in seen:
            continue
        seen.add((x, f))
        if len(seen) > limit:
            raise RuntimeError('value flow too large')
        if not f and stop is not None and stop(x):
            out.append(x)
            continue
        op = x.op
        if op == 'phi' and x in it.phiops:
            work.extend((o, f) for o in it.phiops[x].values())
        elif op in HEAPV:
            if op in ('hpush', 'qpush'):
                work.append((pj(x.a[1], f), ()))
            work.append((x.a[0], f))
        elif op == 'proj':
            g, y = (x.a[1],) + f, x.a[0]
            while y.op == 'proj':
                g, y = (y.a[1],) + g, y.a[0]
            if y.op == 'htop':
                work.append((y.a[0], g))
            elif y.op == 'phi' and y in it.phiops:
                for o in it.phiops[y].values():
                    work.append((pj(o, g), ()))
            elif y.op in HEAPV:
                work.append((y, g))
            else:
                out.append(x)
        elif f:
            z = pj(x, f)
            if z.op != 'proj':
                work.append((z, ()))
            else:
                out.append(z)
        elif op == 'htop':
            work.append((x.a[0], ()))
        elif op == 'ld':
            work.append((x.a[0], ()))
        elif op in ('st', 'stv'):
            work.append((x.a[2], ()))
            work.append((x.a[0], ()))
        elif op in THROUGH:
            work.extend((y, ()) for y in x.a[:1] if isinstance(y, T))
        elif arith and op in ARITH:
            if op == 'lin':
                work.extend((k, ()) for k, _ in x.a[1])
            else:
                work.extend((y, ()) for y in x.a if isinstance(y, T))
        else:
            out.append(x)
    return out


def heapitems(it, v):
    """items pushed into any version a heap may have"""
    out, seen, work = [], set(), [v]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi' and x in it.phiops:
            work.extend(it.phiops[x].values())
        elif x.op == 'hpush':
            out.append(x.a[1])
            work.append(x.a[0])
        elif x.op == 'hpop':
            work.append(x.a[0])
    return out
