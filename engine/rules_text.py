"""C17: the text formats. The line templates of the writers are fed symbolically to the readers."""
import re
import loops
import interp
from base import Fail
from graph import *
from interp import known
from rules_api import IG, ig_fields
from rules_data import is_io, cpath, result_at
from terms import *


# ------------------------------------------------------------------ templates
def decode(bs):
    """format template bytes -> list of ('l', text) | ('p', argument number); None if it uses formatting options"""
    out, i, n = [], 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 128:
            out.append(('l', bs[i:i + b].decode()))
            i += b
        elif b == 128:
            k = bs[i] | bs[i + 1] << 8
            out.append(('l', bs[i + 2:i + 2 + k].decode()))
            i += 2 + k
        elif b >= 192:
            if b & 7:
                return None
            if b & 8:
                n = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(('p', n))
            n += 1
        else:
            return None
    return out


def text_of(t):
    """what a write of term t writes: list of ('l', text) | ('v', term)"""
    if t.op == 's':
        return [('l', t.a[0])]
    if t.op == 'bytes':
        try:
            return [('l', t.a[0].decode())]
        except UnicodeDecodeError:
            return None
    if t.op == 'ref' and t.a[0][0] == 'val':
        return text_of(t.a[0][1])
    if t.op == 'deref':
        return text_of(t.a[0])
    if t.op == 'call':
        nm = t.a[0]
        if nm == 'Arguments::new':
            tp = decode(t.a[1].a[0]) if t.a[1].op == 'bytes' else None
            arr = dict(t.a[2].a[2]) if t.a[2].op == 'agg' else {}
            if tp is None:
                return None
            out = []
            for k, v in tp:
                if k == 'l':
                    out.append((k, v))
                else:
                    a = arr.get(str(v))
                    if a is None or a.op != 'call' or a.a[0] != 'Argument::new_display':
                        return None
                    out.append(('v', a.a[1]))
            return out
        if nm.startswith('Arguments::') and len(t.a) == 2:
            return text_of(t.a[1])
        if len(t.a) == 2:
            return text_of(t.a[1])
    return None


def atoms(txt):
    """list of single characters and ('v', term)"""
    out = []
    for k, v in txt:
        if k == 'l':
            out += list(v)
        else:
            out.append((k, v))
    return out


def split_ws(at):
    toks, cur = [], []
    for a in at:
        if isinstance(a, str) and a.isspace():
            if cur:
                toks.append(cur)
            cur = []
        else:
            cur.append(a)
    if cur:
        toks.append(cur)
    return toks


def split_ch(at, ch):
    toks = [[]]
    for a in at:
        if a == ch:
            toks.append([])
        else:
            toks[-1].append(a)
    return toks


class Line:
    """a line of text with placeholders, and what is known about it"""

    def __init__(self, at):
        self.at = at

    def src(self, t, L):
        """atoms of a string term derived from line L"""
        if t is L:
            return self.at
        if t.op == 'strfrom':
            s = self.src(t.a[0], L)
            if s is None or not isint(t.a[1]) or t.a[1].a[0] > len(s) or any(not isinstance(x, str) for x in s[:t.a[1].a[0]]):
                return None
            return s[t.a[1].a[0]:]
        if t.op == 'tok':
            s = self.toks(t.a[0], self.src(t.a[1], L))
            if s is None or not isint(t.a[2]) or t.a[2].a[0] >= len(s):
                return None
            return s[t.a[2].a[0]]
        if t.op == 'call' and len(t.a) == 2 and t.a[0].split('::')[-1] in ('trim', 'trim_end', 'trim_start', 'as_str', 'trim_end_matches', 'as_ref', 'deref', 'borrow'):
            s = self.src(t.a[1], L)
            if s is None:
                return None
            s = list(s)
            while s and isinstance(s[-1], str) and s[-1].isspace():
                s.pop()
            return s
        return None

    def toks(self, how, s):
        if s is None:
            return None
        if how.op == 's' and how.a[0] == 'ws':
            return split_ws(s)
        return None

    def decide(self, c, L):
        """truth of a condition about line L, or None"""
        if c.op == 'not':
            r = self.decide(c.a[0], L)
            return None if r is None else not r
        if c.op in ('and', 'or'):
            x, y = self.decide(c.a[0], L), self.decide(c.a[1], L)
            z = c.op == 'or'
            return z if x is z or y is z else None if None in (x, y) else not z
        if c.op == 'starts_with':
            s = self.src(c.a[0], L)
            p = prefix_of(c.a[1])
            if s is None or p is None:
                return None
            for i, ch in enumerate(p):
                if i >= len(s):
                    return False
                if not isinstance(s[i], str):
                    return None if ch.isdigit() else False
                if s[i] != ch:
                    return False
            return True
        if c.op == 'strempty':
            s = self.src(c.a[0], L)
            return None if s is None else not s
        if c.op == 'hastok':
            s = self.toks(c.a[0], self.src(c.a[1], L))
            return None if s is None or not isint(c.a[2]) else c.a[2].a[0] < len(s)
        if c.op == 'parses':
            s = self.src(c.a[0], L)
            if s is None:
                return None
            if len(s) == 1 and not isinstance(s[0], str):
                return True
            if all(isinstance(x, str) for x in s):
                return ''.join(s).isdigit()
            return None
        if c.op == 'eq':
            for a, b in (c.a, c.a[::-1]):
                if b.op == 's':
                    s = self.src(a, L)
                    if s is not None:
                        if all(isinstance(x, str) for x in s):
                            return ''.join(s) == b.a[0]
                        return False if not b.a[0].isdigit() else None
                if a.op == 'agg' and a.a[1] in ('Some', 'None'):
                    pass
        return None

    def value(self, t, L):
        """placeholder (written term, offset) that a parsed value stands for"""
        if t.op == 'lin' and t.a[0] == 64 and len(t.a[1]) == 1 and t.a[1][0][1] == 1:
            v = self.value(t.a[1][0][0], L)
            return None if v is None else (v[0], v[1] + t.a[2])
        if t.op == 'parsed' and t.a[1] == 'usize':
            # a narrower type cannot restore every value that is written
            s = self.src(t.a[0], L)
            if s is not None and len(s) == 1 and not isinstance(s[0], str):
                return (s[0][1], 0)
        return None


def prefix_of(t):
    if t.op == 's':
        return t.a[0]
    if t.op == 'i' and t.a[0] < 256:
        return chr(t.a[0])
    if t.op == 'const' and len(t.a[0]) == 3 and t.a[0][0] == t.a[0][2] == "'":
        return t.a[0][1]
    return None


def linear(t):
    """term = base + offset"""
    if t.op == 'lin' and t.a[0] == 64 and len(t.a[1]) == 1 and t.a[1][0][1] == 1:
        return t.a[1][0][0], t.a[2]
    return t, 0


# ------------------------------------------------------------------ writers
def errfree(it, e):
    """edges of the call on which it did not fail"""
    res = mk('ev', e.nid, 'call', e.name)
    for i, (t, s) in enumerate(it.succs[e.nid]):
        st = it.incoming[t].get((e.nid, i))
        if st is not None and known(st.facts, mk('is', res, 'Err')) is not True:
            yield t


def replaced(chk, it, path):
    """the file ends up holding the lines written now and nothing else"""
    calls = [e for e in evs(it, 'call') if is_io(e)]

    def arg(e):
        v = e.vals[-1]
        return v.a[0] if v.op == 'b' else None
    n = 0
    for e in calls:
        cp = cpath(e)
        if cp.endswith(('File::create', 'File::create_new', 'fs::write')):
            n += 1
            chk.ob(True, 'the file is replaced', where(it, e), '%s starts from an empty file' % e.name)
        elif cp.endswith('OpenOptions::open'):
            n += 1
            opts = [x for x in calls if 'OpenOptions::' in cpath(x)]
            app = [x for x in opts if cpath(x).endswith('::append') and arg(x) is not False]
            empt = {x.nid for x in calls if cpath(x).endswith(('OpenOptions::truncate', 'OpenOptions::create_new')) and arg(x) is True}
            undo = {x.nid for x in opts if cpath(x).endswith('::truncate') and arg(x) is not True}
            ok = not app and not undo and e.nid not in reach(it, {it.entry}, cut=empt)
            if not ok and not app:
                lens = {x.nid for x in calls if cpath(x).endswith('File::set_len') and isint(x.vals[-1]) and x.vals[-1].a[0] == 0}
                wr = {x.nid for x in calls if 'Write::write' in cpath(x) or 'Write::write' in x.callee['orig']['path']}
                ok = bool(lens) and not (reach(it, {it.entry}, cut=lens) & wr)
            chk.ob(ok, 'the file is replaced', where(it, e), 'opened empty' if ok else 'opened without truncate(true)%s: what the file held before stays behind the lines written' % (' and for appending' if app else ''))
    chk.ob(n > 0, 'the file is replaced', path, '%d files opened' % n)


def wlines(it):
    """lines written: list of (first event, last event, text)"""
    ws = {}
    for e in evs(it, 'call'):
        cp = cpath(e)
        if is_io(e) and ('Write::write' in cp or 'Write::write' in e.callee['orig']['path'] or cp.endswith('fs::write')):
            tx = text_of(e.vals[-1])
            if tx is None:
                raise Fail('cannot tell what %s writes' % where(it, e))
            ws[e.nid] = (e, tx)

    def nxt(starts):
        out, seen, work = set(), set(), list(starts)
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            if n in ws:
                out.add(n)
                continue
            work += succ(it, n)
        return out

    def nl(tx):
        return tx and tx[-1][0] == 'l' and tx[-1][1].endswith('\n')
    start = set(nxt([it.entry]))
    for n, (e, tx) in ws.items():
        if nl(tx):
            start |= nxt(errfree(it, e))
    lines = []
    for s in sorted(start):
        work = [(s, [], ())]
        while work:
            n, tx, path = work.pop()
            if n in path or len(path) > 8:
                raise Fail('unbounded line written at %s' % where(it, ws[n][0]))
            tx = tx + ws[n][1]
            path = path + (n,)
            if nl(tx):
                parts = ''.join(v if k == 'l' else '\0' for k, v in tx)
                if '\n' in parts[:-1]:
                    raise Fail('several lines written at once at %s' % where(it, ws[n][0]))
                lines.append((ws[s][0], ws[n][0], tx[:-1] + [('l', tx[-1][1][:-1])]))
            else:
                for m in nxt(errfree(it, ws[n][0])):
                    work.append((m, tx, path))
    return lines


def writer(chk, path, F):
    """templates of the writer: dict kind -> atoms with ('v', field name / 'nodes' / 'count', offset)"""
    p = chk.prog
    it = p.run(path)
    chk.units.add(path)
    replaced(chk, it, path)
    E = 'a0.' + F['edges']

    def lenof(t):
        return t.op == 'ld' and t.a[0].op == 'm0' and t.a[0].a[0].op == 'init' and t.a[0].a[0].a[0] == E and t.a[0].a[1] == ('#len',)

    def elem(t):
        if t.op == 'ld' and t.a[0].op == 'm0' and t.a[0].a[0].op == 'init' and t.a[0].a[0].a[0] == E and len(t.a[0].a[1]) == 2 and len(t.a[1]) == 1:
            return t.a[0].a[1][1], t.a[1][0]
        return None
    out = {}
    oks = [e for e in evs(it, 'return') if any(not (v.op == 'agg' and v.a[1] == 'Err') for v in expand(it, e.val))]
    for first, last, tx in wlines(it):
        lit = ''.join(v if k == 'l' else '\0' for k, v in tx)
        at, idx = [], set()
        good = True
        for a in atoms(tx):
            if isinstance(a, str):
                at.append(a)
                continue
            b, o = linear(a[1])
            if elem(b):
                f, i = elem(b)
                idx.add(i)
                at.append(('v', (f, o)))
            elif lenof(b):
                at.append(('v', ('#edges', o)))
            elif b.op == 'init' and b.a[0] == 'a0.' + F['nodes']:
                at.append(('v', ('#nodes', o)))
            else:
                good = False
                at.append(('v', (show(a[1], 3), 0)))
        wh = path
        chk.ob(good, 'lines hold fields of the graph', wh, lit.replace('\0', '_'))
        if idx:
            chk.ob('arc' not in out or out['arc'][0] == at, 'one format for edges', wh, lit.replace('\0', '_'))
            out['arc'] = (at, last)
            ok = False
            why = 'every edge is written once'
            b = None
            if len(idx) == 1:
                b, o = loops.base_off(next(iter(idx)))
            d = loops.induction(it, b) if b is not None else None
            up = d and all(v is I(0) for _, _, v in d.inits) and all(s[3] == 1 for s in d.steps)
            if not up:
                why = 'edges are not written in their order'
            else:
                heads = {s[0] for s in d.steps}
                exh = {id(r): any(c.op == 'lt' and not tr and lenof(c.a[1]) and c.a[0] in d.scc or c.op == 'eq' and tr and any(lenof(x) for x in c.a) and any(x in d.scc for x in c.a) for c, tr in r.facts.items()) for r in oks}
                if not all(exh.values()):
                    why = 'can return success before every edge was written (%s)' % [r.sp for r in oks if not exh[id(r)]][0]
                elif first.nid in reach(it, [t for t in errfree(it, last)], cut=heads):
                    why = 'an edge can be written twice'
                else:
                    # an iteration that skips the write
                    skip = False
                    for n, e, bb, dl in d.steps:
                        # step edges must come after the write of this iteration
                        src = e[0]
                        un = reach(it, [n], cut={last.nid}, edgecut=None)
                        if src in un and src != last.nid:
                            skip = True
                    if skip:
                        # the index may be advanced before the body: the next comparison must be preceded by the write
                        skip = skips(it, d, last.nid, heads)
                    ok = not skip
                    if skip:
                        why = 'an edge can be left out'
            chk.ob(ok, 'every edge is written exactly once in order', wh, why)
        elif any(not isinstance(a, str) for a in at):
            chk.ob('head' not in out, 'one problem line', wh, lit.replace('\0', '_'))
            out['head'] = (at, last)
        else:
            out.setdefault('other', []).append((at, last))
    if 'head' in out and 'arc' in out:
        h, a = out['head'][1], out['arc'][1]
        chk.ob(all(dominates(it, {h.nid}, r.nid) for r in oks) and dominates(it, {h.nid}, a.nid) and h.nid not in reach(it, list(errfree(it, h))), 'one problem line, before the edges', path, where(it, h))
    return out


def skips(it, d, w, heads):
    """an iteration of the loop (from one head to the next) can avoid node w"""
    starts = []
    for h in heads:
        starts += succ(it, h)
    un = reach(it, starts, cut=heads | {w})
    for h in heads:
        for (src, i) in it.incoming[h]:
            if (src in un or src in heads) and any((n, e) == (h, (src, i)) for n, e, _, _ in d.steps):
                return True
    return False


# ------------------------------------------------------------------ readers
def home(L):
    hs = [s.a[0] for s in subterms(L) if s.op == 'ev' and s.a[1] in ('item', 'call')]
    return max(hs) if hs else None


class Reader:
    def __init__(self, chk, path, F):
        self.p = p = chk.prog
        self.path = path
        self.it = it = p.run(path)
        chk.units.add(path)
        self.lines = {}
        for n in live(it):
            for c in it.instate[n].facts:
                if c.op in ('starts_with', 'strempty', 'hastok'):
                    L = c.a[1] if c.op == 'hastok' else c.a[0]
                    while L.op in ('strfrom', 'stripped', 'tok') or L.op == 'call' and len(L.a) == 2:
                        L = L.a[1] if L.op in ('tok', 'call') else L.a[0]
                    h = home(L)
                    if h is not None:
                        self.lines[L] = h
        if not self.lines:
            raise Fail('%s: no line of text is looked at' % path)
        self.homes = {}
        for L, h in self.lines.items():
            if h in self.homes and self.homes[h] is not L:
                # keep the shortest term
                if len(subterms(L)) > len(subterms(self.homes[h])):
                    continue
            self.homes[h] = L
        self.rets = [e for e in evs(it, 'return')]
        self.rid = {e.nid for e in self.rets}
        objs = set()
        for e in self.rets:
            o = it.proj(e.val, F['edges'])
            objs |= set(expand(it, o))
        # what freezing makes of the added edges is decided by C11
        fr = [e for e in evs(it, 'enter') if e.fn == IG + '::freeze']
        for e in fr:
            objs |= set(expand(it, it.proj(e.vals[0], F['edges'])))
        frozen = {e.bid2 for e in fr}
        self.pushes = [e for e in evs(it, 'push') if rootobj(e.obj) in objs and not any(it.ctxs[c][2] in frozen for c in it.chain(it.nodes[e.nid][0]))]
        self.push = {e.nid for e in self.pushes}

    def after(self, h):
        """first nodes of the handling of a line that was read at h"""
        it = self.it
        for i, (t, s) in enumerate(it.succs[h]):
            st = it.incoming[t].get((h, i))
            if st is not None and known(st.facts, mk('has', h, 'item')) is not False:
                yield t

    def walk(self, h, cut):
        """nodes reached while the line read at h is handled; cut(facts) ends a path. Also returns the ends: (node kind, node)"""
        it = self.it
        seen, work, ends = set(), [], set()
        for t in self.after(h):
            work.append(t)
        while work:
            n = work.pop()
            if n in seen or it.instate[n] is None:
                continue
            if n in self.homes or n in self.rid:
                ends.add(n)
                continue
            seen.add(n)
            for i, (t, _) in enumerate(it.succs[n]):
                st = it.incoming[t].get((n, i))
                if st is not None and cut(n, st.facts):
                    continue
                work.append(t)
        return seen, ends

    def atoms(self, facts, L):
        return [(c, tr) for c, tr in facts.items() if L in subterms(c)]


def filtered(facts, frm, to, w):
    """the edge is a loop or has no weight"""
    return known(facts, eq(frm, to)) is True or known(facts, eq(w, I(0))) is True


def c17(chk):
    p = chk.prog
    F = ig_fields(p)
    for wname, rname, dimacs in (('to_file', 'from_file', False), ('to_dimacs_file', 'from_dimacs_file', True)):
        W = writer(chk, IG + '::' + wname, F)
        chk.ob('arc' in W and (not dimacs or 'head' in W), 'writes all parts', wname, 'lines: %s' % sorted(W))
        if 'arc' not in W or dimacs and 'head' not in W:
            continue
        R = Reader(chk, IG + '::' + rname, F)
        it = R.it
        arc = Line(W['arc'][0])
        head = Line(W['head'][0]) if 'head' in W else None
        rn = R.path
        want = {f: (f, 0) for f in ('from', 'to', 'weight')}
        chk.ob(bool(R.pushes), 'reads edges', rn, '%d stores' % len(R.pushes))
        # --- what is stored
        vals = {}
        for e in R.pushes:
            L = None
            cand = [l for l in R.lines if any(l in subterms(v) for _, v in e.val.a[2])] if e.val.op == 'agg' else []
            if len(cand) == 1:
                L = cand[0]
            got = {}
            if L is not None:
                for f, v in e.val.a[2]:
                    r = arc.value(v, L)
                    if r is not None:
                        got[f] = (r[0][0], r[0][1] + r[1])
            ok = got == want
            chk.ob(ok, 'fields are restored', where(it, e), 'line "%s" restores %s' % (fmtline(arc.at), got) if ok else 'a line "%s" written for an edge is read back as %s' % (fmtline(arc.at), got or show(e.val, 4)))
            if L is None:
                continue
            fs = dict(e.val.a[2])
            vals[L] = (fs['from'], fs['to'], fs['weight'])
            # never invented: the line is an arc line
            tag = [c for c, tr in e.facts.items() if tr and c.op in ('starts_with', 'eq') and L in subterms(c) and arc.decide(c, L) is True and arctag(c)]
            chk.ob(bool(tag), 'only arc lines are stored', where(it, e), show(tag[0], 4) if tag else 'stores an edge for a line that is not known to be an arc line')
            again = reach(it, succ(it, e.nid), cut=set(R.homes))
            chk.ob(not (again & R.push), 'one edge per line', where(it, e), 'next store only after the next line')
            if dimacs:
                miss = []
                nt = max((s.a[2].a[0] for v in vals[L] for s in subterms(v) if s.op == 'tok' and isint(s.a[2])), default=-1)
                src = [s for v in vals[L] for s in subterms(v) if s.op == 'tok']
                if not any(not tr and c.op == 'hastok' and src and c.a[1] is src[0].a[1] and c.a[2] is I(nt + 1) for c, tr in e.facts.items()):
                    miss.append('lines with additional tokens are accepted')
                chk.ob(not miss, 'malformed lines are rejected', where(it, e), 'exactly %d tokens' % (nt + 1) if not miss else miss[0])
        # --- what cannot be read
        for n in live(it):
            for i, (t, _) in enumerate(it.succs[n]):
                st = it.incoming[t].get((n, i))
                if st is None:
                    continue
                o = it.instate[n].facts
                for c, tr in st.facts.items():
                    if c.op == 'is' and c.a[0].op == 'ev' and (tr and c.a[1] == 'Err' or not tr and c.a[1] == 'Ok') and o.get(c) is not tr:
                        end = reach(it, [t]) & R.rid
                        chk.ob(not end, 'what cannot be read is not skipped', where_n(it, n), 'a read error leads to a panic' if not end else 'a part of the file that cannot be read is taken for its end or left out')
        # --- every line the writer produces is accepted
        fileerr = lambda f: any(c.op == 'is' and (tr and c.a[1] == 'Err' or not tr and c.a[1] == 'Ok') for c, tr in f.items()) or any(c.op == 'ovf' and tr for c, tr in f.items())
        N, E = [], []
        hlines = set()
        if dimacs:
            hl, N, E = header(chk, R, head)
            hlines = hl

        def incons(tm, L):
            return lambda f: any(d is not None and d != tr for c, tr in f.items() for d in (tm.decide(c, L),))
        nheads = 0
        for h, L in sorted(R.homes.items()):
            v = vals.get(L)

            bad = incons(arc, L)

            def cut(n, f):
                if bad(f) or n in R.push or fileerr(f):
                    return True
                return v is not None and filtered(f, *v)
            if v is None and dimacs:
                # before the problem line: an arc line must not be accepted
                seen, ends = R.walk(h, lambda n, f: bad(f) or fileerr(f))
                chk.ob(not ends, 'no arc line before the problem line', rn, 'panics' if not ends else 'an arc line before the problem line does not panic')
                continue
            seen, ends = R.walk(h, cut)
            chk.ob(not ends, 'no arc line is dropped', '%s' % rn, 'every line "%s" is stored' % fmtline(arc.at) if not ends else 'a line "%s" can be left out (read at %s)' % (fmtline(arc.at), where_n(it, h)))
            if dimacs:
                seen, ends = R.walk(h, lambda n, f: cut(n, f) or excused(it, f, v, N, E))
            for e in evs(it, 'panic'):
                if e.nid in seen and not bad(e.facts) and not fileerr(e.facts):
                    ok = dimacs and v is not None and excused(it, e.facts, v, N, E)
                    chk.ob(ok, 'written lines are accepted', where(it, e), 'only for node ids or line counts the writer does not produce' if ok else 'panics on a line "%s"' % fmtline(arc.at))
        if dimacs:
            # the problem line
            first = [h for h, L in R.homes.items() if L in hlines]
            chk.ob(len(first) >= 1, 'the problem line is read', rn, 'lines: %d' % len(first))
            for h in first:
                L = R.homes[h]
                bad = incons(head, L)
                acc, ends = R.walk(h, lambda n, f: bad(f) or fileerr(f))
                chk.ob(bool(ends), 'written lines are accepted', rn, 'a problem line "%s" is accepted' % fmtline(head.at))
                for e in evs(it, 'panic'):
                    if e.nid in acc and not bad(e.facts) and not fileerr(e.facts):
                        chk.ob(False, 'written lines are accepted', where(it, e), 'panics on a problem line "%s"' % fmtline(head.at))
            # repeated: a header accepted at some line, then another one
            bounds = {}
            for h in first:
                bounds[h] = headdone(R, h, head)
            for h in first:
                nxt = set()
                seenall = reach(it, bounds[h])
                rep = [g for g in R.homes if g in seenall]
                for g in rep:
                    L = R.homes[g]
                    bad = incons(head, L)
                    seen, ends = R.walk(g, lambda n, f: bad(f) or fileerr(f))
                    chk.ob(not ends, 'a repeated problem line is rejected', rn, 'panics' if not ends else 'a second problem line is accepted (read at %s)' % where_n(it, g))
            # unknown and malformed lines
            for h, L in sorted(R.homes.items()):
                v = vals.get(L)

                def okline(n, f):
                    if any(c.op == 'ovf' and tr for c, tr in f.items()) or ignorable(f, L):
                        return True
                    if h in first and headvalid(f, L, head):
                        return True
                    return v is not None and arcvalid(it, f, L, v, N, E)
                seen, ends = R.walk(h, okline)
                chk.ob(not ends, 'only well-formed lines get through', rn, 'every other line panics' if not ends else 'a line can get through (read at %s) that is neither empty, a comment, a problem line nor a valid arc line' % where_n(it, h))
            counting(chk, R, vals, E, set().union(*bounds.values()) if bounds else set())
        for a, e in W.get('other', []):
            # further lines must be ignored by the reader
            t = Line(a)
            for h, L in R.homes.items():
                bad = incons(t, L)
                seen, ends = R.walk(h, lambda n, f: bad(f) or fileerr(f))
                chk.ob(not any(x.nid in seen for x in R.pushes) and not any(x.nid in seen and not bad(x.facts) and not fileerr(x.facts) for x in evs(it, 'panic')), 'written lines are accepted', where(R.it, e), fmtline(a))


def where_n(it, n):
    return fnof(it, n)


def fmtline(at):
    return ''.join(a if isinstance(a, str) else '<%s%s>' % (a[1][0], '%+d' % a[1][1] if a[1][1] else '') for a in at)


def arctag(c):
    if c.op == 'starts_with':
        p = prefix_of(c.a[1])
        return p is not None and len(p) >= 2 and p[0] == 'a' and p[1].isspace()
    return any(x.op == 's' and x.a[0] == 'a' for x in c.a) and any(x.op == 'tok' and x.a[2] is I(0) for x in c.a)


def header(chk, R, head):
    """lines on which the problem line is parsed, terms for node and edge count"""
    it = R.it
    hl, N, E = set(), set(), set()
    for e in evs(it, 'parse'):
        for L in R.lines:
            if L in subterms(e.src):
                t = mk('parsed', e.src, e.to)
                if any(head.decide(c, L) is not None and head.decide(c, L) != tr for c, tr in e.facts.items()):
                    continue
                v = head.value(t, L)
                if v is not None and v[0][0] in ('#nodes', '#edges'):
                    hl.add(L)
                    (N if v[0][0] == '#nodes' else E).add(t)
                    chk.ob(v[0][1] + v[1] == 0, 'fields are restored', where(it, e), 'problem line: %s' % v[0][0])
    chk.ob(bool(N) and bool(E), 'the problem line is read', R.path, 'node and edge count are parsed')
    return hl, N, E


def stands(it, t, S):
    """t always is one of the terms in S (or a phi of them and unset constants)"""
    if t in S:
        return True
    if t.op != 'phi':
        return False
    xs = expand(it, t)
    return any(x in S for x in xs) and all(x in S or isint(x) for x in xs)


def excused(it, f, v, N, E):
    frm, to, w = v
    a, b = linear(frm)[0], linear(to)[0]
    ids = {a, b, tmax(a, b), tmin(a, b)}
    for c, tr in f.items():
        if c.op == 'lt' and tr and stands(it, c.a[0], N) and c.a[1] in ids:
            return True
        if c.op == 'lt' and tr and c.a[0] in ids and c.a[1] is I(1):
            return True
        if c.op == 'lt' and not tr and stands(it, c.a[1], E) and not stands(it, c.a[0], E):
            return True
        if c.op == 'eq' and tr and I(0) in c.a and any(x in ids for x in c.a):
            return True
        if c.op == 'lt' and not tr and c.a[0].op == 'lin' and stands(it, c.a[1], N):
            return True
        if c.op == 'eq' and tr and any(stands(it, x, E) for x in c.a) and not any(isint(x) for x in c.a):
            # count already reached the announced number: another arc is one too many
            return True
    return False


def ignorable(f, L):
    for c, tr in f.items():
        if not tr:
            continue
        if c.op == 'strempty' and under(c.a[0], L, True):
            return True
        if c.op == 'starts_with' and under(c.a[0], L, False):
            p = prefix_of(c.a[1])
            if p and p[0] == 'c':
                return True
        if c.op == 'eq' and any(x.op == 's' and x.a[0] in ('', 'c') for x in c.a) and any(under(x, L, True) or x.op == 'tok' and x.a[1] is L for x in c.a):
            return True
    for c, tr in f.items():
        if c.op == 'hastok' and not tr and c.a[1] is L and c.a[2] is I(0):
            return True
    return False


def under(t, L, trim):
    while trim and t.op == 'call' and len(t.a) == 2:
        t = t.a[1]
    return t is L


def headvalid(f, L, head):
    """the line is a problem line with exactly its two numbers"""
    tag = nums = None
    tag = any(tr and c.op in ('starts_with', 'eq') and L in subterms(c) and head.decide(c, L) is True and ('p' in (prefix_of(c.a[1]) or '') if c.op == 'starts_with' else any(x.op == 's' and x.a[0] in ('p', 'sp') for x in c.a)) for c, tr in f.items())
    if not tag:
        return False
    ps = {c.a[0] for c, tr in f.items() if tr and c.op == 'parses' and L in subterms(c)}
    got = {head.value(mk('parsed', x, 'usize'), L) for x in ps}
    names = {g[0][0] for g in got if g}
    if not {'#nodes', '#edges'} <= names:
        return False
    toks = [x for x in ps if x.op == 'tok']
    last = max((x.a[2].a[0] for x in toks if isint(x.a[2])), default=-1)
    return any(c.op == 'hastok' and not tr and c.a[1] is toks[0].a[1] and c.a[2] is I(last + 1) for c, tr in f.items())


def headdone(R, h, head):
    """nodes where handling of an accepted problem line ends"""
    it = R.it
    L = R.homes[h]
    out = set()
    seen, work = set(), [(t, False) for t in R.after(h)]
    while work:
        n, hv = work.pop()
        if (n, hv) in seen or it.instate[n] is None:
            continue
        seen.add((n, hv))
        if n in R.homes or n in R.rid:
            if hv:
                out.add(n)
            continue
        for i, (t, _) in enumerate(it.succs[n]):
            st = it.incoming[t].get((n, i))
            work.append((t, hv or st is not None and headvalid(st.facts, L, head)))
    return out


def arcvalid(it, f, L, v, N, E):
    """the arc line has valid node ids and is not one too many"""
    frm, to, w = v
    a, oa = linear(frm)
    b, ob = linear(to)
    for x, o in ((a, oa), (b, ob)):
        # 1 <= x <= N, or 0 <= x-1 < N
        hi = lo = False
        for c, tr in f.items():
            if c.op == 'lt' and not tr and c.a[1] is x and stands(it, c.a[0], N):
                hi = True
            if c.op == 'lt' and tr and stands(it, c.a[1], N) and linear(c.a[0]) == (x, -1):
                hi = True
            if c.op == 'max' or False:
                pass
            if c.op == 'eq' and not tr and x in c.a and I(0) in c.a:
                lo = True
            if c.op == 'lt' and not tr and c.a[1] is I(1) and c.a[0] is x:
                lo = True
        if not (hi and lo) and not maxform(it, f, a, b, N, hi, lo):
            return False
    toks = [s for t in v for s in subterms(t) if s.op == 'tok']
    last = max((t.a[2].a[0] for t in toks if isint(t.a[2])), default=-1)
    if not any(c.op == 'hastok' and not tr and c.a[1] is toks[0].a[1] and c.a[2] is I(last + 1) for c, tr in f.items()):
        return False
    if not all(any(tr and c.op == 'parses' and c.a[0] is t for c, tr in f.items()) for t in toks):
        return False
    return True


def maxform(it, f, a, b, N, hi, lo):
    m, n = tmax(a, b), tmin(a, b)
    for c, tr in f.items():
        if c.op == 'lt' and not tr and c.a[1] is m and stands(it, c.a[0], N):
            hi = True
        if c.op == 'eq' and not tr and n in c.a and I(0) in c.a:
            lo = True
    return hi and lo


def counting(chk, R, vals, E, starts):
    """a file is accepted only if the number of arc lines equals the announced one"""
    it = R.it
    rn = R.path
    cnts = {}

    def cond(f):
        for c, tr in f.items():
            if c.op == 'eq' and tr:
                for x, y in (c.a, c.a[::-1]):
                    if stands(it, x, E) and (y.op == 'phi' or y.op == 'i' or y.op == 'lin'):
                        cnts[y] = 1
                        return True
        return False
    # (a file with neither a problem line nor arcs is accepted)
    un = uncut(it, cond, starts)
    off = [r for r in R.rets if r.nid in un and not cond(r.facts)]
    chk.ob(not off, 'the number of arc lines is checked', rn, 'compared on every path to the end' if not off else 'a return (%s) does not depend on the announced number of arc lines' % off[0].sp)
    phis = [y for y in cnts if y.op == 'phi' and not stands(it, y, E)]
    chk.ob(bool(phis), 'the number of arc lines is checked', rn, 'counters: %s' % [show(x) for x in phis])
    for y in phis:
        d = loops.induction(it, y)
        if d is None:
            # count may be kept in a longer chain of phis
            xs = [x for x in phis_of(it, y) if loops.induction(it, x)]
            d = loops.induction(it, xs[0]) if xs else None
        if d is None:
            chk.ob(False, 'arc lines are counted', rn, 'the compared value %s is not a counter' % show(y))
            continue
        chk.ob(all(v is I(0) or v.op == 'phi' and set(expand(it, v)) <= {I(0)} for _, _, v in d.inits), 'arc lines are counted', rn, 'counter starts at 0')
        for h, L in R.homes.items():
            if vals.get(L) is None:
                # no arcs accepted here: the counter must not move
                ds = deltas(it, R, h, d.scc, None)
                chk.ob(all(x == 0 for _, x in ds), 'arc lines are counted', rn, 'other lines do not count')
                continue
            ds = deltas(it, R, h, d.scc, lambda f, L=L: any(tr and c.op in ('starts_with', 'eq') and L in subterms(c) and arctag(c) for c, tr in f.items()))
            off = [x for x in ds if x[1] != (1 if x[0] else 0)]
            chk.ob(not off and any(x[0] for x in ds), 'arc lines are counted', rn, 'arc lines count one, others zero' if not off else 'an %s line changes the number of arc lines by %s' % ('arc' if off[0][0] else 'other', off[0][1]))


def phis_of(it, y):
    seen, work = set(), [y]
    while work:
        x = work.pop()
        if x in seen or x not in it.phiops:
            continue
        seen.add(x)
        work += [loops.base_off(o)[0] for o in it.phiops[x].values() if loops.base_off(o)[0] is not None]
    return seen


def deltas(it, R, h, scc, isarc):
    """by how much a counter (a family of phis) changes from reading a line at h to the next line or the end: set of (arc line?, change)"""
    by = {}
    for ph in scc:
        by.setdefault(ph.a[0], []).append(ph)
    out, seen = set(), set()
    work = [(t, (h, i), (), False) for i, (t, _) in enumerate(it.succs[h]) if t in set(R.after(h))]
    while work:
        n, edge, env, arc = work.pop()
        if it.instate[n] is None:
            continue
        st = it.incoming[n].get(edge)
        if st is not None and isarc is not None and isarc(st.facts):
            arc = True
        if n in by:
            d = dict(env)
            new = dict(d)
            for ph in by[n]:
                o = it.phiops[ph].get(edge)
                if o is None:
                    continue
                b, k = loops.base_off(o)
                if b is None:
                    new[ph] = None if not isint(o) else ('const', o.a[0])
                    continue
                r = d.get(b, (b, 0))
                new[ph] = None if r is None else (r[0], r[1] + k) if r[0] != 'const' else ('const', r[1] + k)
            env = tuple(sorted(((k, v) for k, v in new.items()), key=lambda kv: kv[0].id))
        if (n, env, arc) in seen:
            continue
        seen.add((n, env, arc))
        if len(seen) > 50000:
            raise Fail('counter analysis too large')
        if n in R.homes or n in R.rid:
            # the value a counter has now, relative to the value the loop head phi had when the line was read
            for k, v in env:
                if v is None:
                    out.add((arc, None))
                elif v[0] == 'const':
                    out.add((arc, v[1] if isarc is None else None))
                else:
                    if k is v[0] or v[0] in scc and v[0].a[0] in heads_before(it, R, scc):
                        out.add((arc, v[1]))
            continue
        for i, (t, _) in enumerate(it.succs[n]):
            work.append((t, (n, i), env, arc))
    return out


def heads_before(it, R, scc):
    """nodes of counter phis that lie between the end of one line and the reading of the next"""
    c = it.__dict__.setdefault('_hb', {})
    k = frozenset(scc)
    if k in c:
        return c[k]
    p = preds(it)
    out = set()
    for h in R.homes:
        seen, work = set(), [h]
        while work:
            n = work.pop()
            if n in seen:
                continue
            seen.add(n)
            if any(ph.a[0] == n for ph in scc):
                out.add(n)
                continue
            work += [q for q in p.get(n, ()) if q not in R.homes]
    c[k] = out
    return out
