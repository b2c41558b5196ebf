"""Two-dimensional tables with tracked cells.

A table is a vector of rows.  Some cells, named by a row and a column symbol, are
followed exactly; every access is compared with them (before, at, behind), so the
analysis of the remaining cells loses nothing about the tracked ones."""
import re
from ir import AnalysisBroken
from absint import *
from tabmodel import *


def div(o, n):
    if o.c % n or any(k % n for _, k in o.t):
        return None
    return Lin(o.c // n, tuple((v, k // n) for v, k in o.t))


def three(st, a, b):
    """split on a < b, a == b, a > b"""
    out = []
    for c in (Cmp('lt', a, b), Cmp('eq', a, b), Cmp('lt', b, a)):
        out += st.copy().assume(c, True)
    return out


class GridModel(TableModel):
    rule = 'table'
    dbg = False

    def __init__(s):
        TableModel.__init__(s)
        s.cells = {}      # name -> (table, row, col)
        s.inner = {}      # element class -> table (registered when its rows vector is constructed)
        s.ecls = {}       # table -> element class
        s._rs = None
        s._rt = {}

    def fail(s, st, msg, ins=None):
        s.bad(st, s.rule, msg, ins)

    # ------------------------------------------------------------ addressing
    def base(s, st, p):
        for bn in s.ecls:
            b = st.g.get(('base', bn))
            if b is not None and b == p:
                return bn
        return None

    def rowsize(s, bn):
        return s.elemsize('tdzdd::MyVector<%s, unsigned long>' % s.ecls[bn])

    def rowvec(s, st, p):
        """(table, row) if p is the address of a row vector"""
        r = p.r
        if isinstance(r, tuple) and r[0] == 'v' and len(r) == 4:
            bn = s.base(st, Ptr(r[1], r[2]))
            if bn is not None:
                row = div(p.o, s.rowsize(bn))
                if row is None:
                    raise AnalysisBroken('row address')
                return bn, row
        return None

    def locate(s, st, p):
        """(table, row, column, byte) if p lies in an element area"""
        r = p.r
        if isinstance(r, tuple) and r[0] == 'v' and len(r) == 4:
            q = s.rowvec(st, Ptr(r[1], r[2]))
            if q is not None:
                es = s.elemsize(s.ecls[q[0]])
                k = p.o.c % es
                col = div(p.o.add(L(-k)), es)
                if col is None:
                    raise AnalysisBroken('element address')
                return q + (col, k)
        return None

    def names(s, bn):
        return [(n, c[1], c[2]) for n, c in sorted(s.cells.items()) if c[0] == bn]

    def rowsyms(s, bn):
        out = []
        for n, r, c in s.names(bn):
            if r not in out:
                out.append(r)
        return out

    lazy = False

    def anyone(s, row):
        """row of a node that was reached from an untracked one"""
        return s.lazy and len(row.t) == 1 and row.c == 0 and isinstance(row.t[0][0], tuple) and row.t[0][0][:2] == ('term', 'row')

    def undecided(s, st, p):
        """an (a, b) pair still to be compared for address p, or None"""
        if not isinstance(p, Ptr):
            return None
        q = s.rowvec(st, p)
        if q is not None and s.anyone(q[1]):
            return None
        if q is not None:
            for r in s.rowsyms(q[0]):
                if st.cmp('eq', q[1], r) is None:
                    return q[1], r
            return None
        q = s.locate(st, p)
        if q is not None and s.anyone(q[1]):
            return None
        if q is not None:
            for n, r, c in s.names(q[0]):
                t = st.cmp('eq', q[1], r)
                if t is None:
                    return q[1], r
                if t and st.cmp('eq', q[2], c) is None:
                    return q[2], c
        return None

    def prefork(s, st, get):
        """split st until every address get(state) is decided"""
        out, todo = [], [st]
        while todo:
            q = todo.pop()
            for p in get(q):
                u = s.undecided(q, p)
                if u is not None:
                    todo += three(q, *u)
                    break
            else:
                out.append(q)
        return out

    def hits(s, st, loc):
        return [n for n, r, c in s.names(loc[0]) if st.cmp('eq', loc[1], r) is True and st.cmp('eq', loc[2], c) is True]

    # ------------------------------------------------------------ cells
    def gone(s, st, n):
        return ('gone', n) in st.g

    def wipe(s, st, n, gone):
        for k in [k for k in st.g if isinstance(k, tuple) and k[:2] == ('c', n)]:
            del st.g[k]
        if gone:
            st.g[('gone', n)] = 1
        else:
            st.g.pop(('gone', n), None)

    def on_load(s, st, p, ty, ins):
        loc = s.locate(st, p)
        if loc is None:
            return s.plain_load(st, p, ty, ins)
        for n in s.hits(st, loc):
            if s.gone(st, n):
                s.fail(st, 'reads an element that does not exist (any more)', ins)
                return ZERO
            s.ck('reads')
            v = st.g.get(('c', n, loc[3]))
            if v is None:
                v = s.blank_load(st, n, loc, ty, ins)
            return v
        return s.other_load(st, loc, ty, ins)

    def plain_load(s, st, p, ty, ins):
        return None

    def blank_load(s, st, n, loc, ty, ins):
        return s.I.unknown(st, ty, 'blank')

    def other_load(s, st, loc, ty, ins):
        return s.I.unknown(st, ty, 'el')

    def on_store(s, st, p, v, ty, ins):
        loc = s.locate(st, p)
        if loc is None:
            return False
        if s.anyone(loc[1]) and s.names(loc[0]):
            raise AnalysisBroken('store through an untracked node')
        for n in s.hits(st, loc):
            if s.gone(st, n):
                s.fail(st, 'writes an element that does not exist', ins)
                return True
            s.ck('writes')
            st.g[('c', n, loc[3])] = v
            s.stored(st, n, loc, v, ins)
        return True

    def stored(s, st, n, loc, v, ins):
        pass

    def fork_load(s, st, p, ty, ins):
        if not isinstance(p, Ptr) or s.undecided(st, p) is None:
            return None
        out = []
        for q in s.prefork(st, lambda q: [s.I.val(q, q.fr[-1], ins.a[0])]):
            v = s.I.load(q, s.I.val(q, q.fr[-1], ins.a[0]), ty, ins)
            if not q.dead:
                out.append((q, v))
        return out

    def fork_store(s, st, p, v, ty, ins):
        if not isinstance(p, Ptr) or s.undecided(st, p) is None:
            return None
        out = []
        for q in s.prefork(st, lambda q: [s.I.val(q, q.fr[-1], ins.a[1])]):
            f = q.fr[-1]
            s.I.store(q, s.I.val(q, f, ins.a[1]), s.I.val(q, f, ins.a[0]), ty, ins)
            if not q.dead:
                out.append(q)
        return out

    # ------------------------------------------------------------ calls
    def call(s, st, f, ins, name, dem, args):
        ks = s.deciding(name, dem, args)
        if ks and any(s.undecided(st, args[k]) is not None for k in ks):
            out = []
            for q in s.prefork(st, lambda q: [s.I.val(q, q.fr[-1], ins.a[k][1]) for k in ks]):
                r = TableModel.call(s, q, q.fr[-1], ins, name, dem, [s.I.val(q, q.fr[-1], a) for t, a in ins.a])
                if r is None:
                    raise AnalysisBroken('split call of ' + dem)
                out += r
            return out
        return TableModel.call(s, st, f, ins, name, dem, args)

    def deciding(s, name, dem, args):
        """arguments whose relation to the tracked cells must be known"""
        if not dem:
            return ()
        m = VEC.match(dem)
        if m:
            return () if m.group(2) in ('operator[]', 'at', 'data', 'begin') else (0,)
        if NID.match(dem) or name.startswith('@llvm.mem'):
            return tuple(k for k in range(len(args)) if isinstance(args[k], Ptr))
        if name.startswith('@vp_'):
            return (0,) if args else ()
        return ()

    def nid_call(s, st, f, ins, op, argt, args):
        # hidden struct-return or plain
        return TableModel.nid_call(s, st, f, ins, op, argt, args)

    # ------------------------------------------------------------ rows
    def rsize(s, st, bn, row):
        """length of a row; exact for tracked rows"""
        for r in s.rowsyms(bn):
            if st.cmp('eq', row, r) is True:
                v = st.g.get(('rs', bn, r))
                if v is None:
                    v = S(('len', bn, r))
                    st.add_le(v.scale(-1))
                    st.g[('rs', bn, r)] = v
                return st.g[('rs', bn, r)]
        v = S(fresh('len'))
        st.add_le(v.scale(-1))
        return v

    def set_rsize(s, st, bn, row, n):
        for r in s.rowsyms(bn):
            if st.cmp('eq', row, r) is True:
                st.g[('rs', bn, r)] = n

    def row_resized(s, st, bn, row, ins):
        pass

    def vec_hook(s, st, f, ins, cls, op, args):
        p = args[0]
        if not isinstance(p, Ptr):
            return None
        I = s.I
        q = s.rowvec(st, p)
        if q is not None:
            bn, row = q
            if op == 'size':
                return [(st, s.rsize(st, bn, row))]
            if op == 'empty':
                return [(st, Cmp('eq', s.rsize(st, bn, row), ZERO))]
            if op in ('operator[]', 'at', 'data', 'begin'):
                return None
            if op == 'end':
                return [(st, Ptr(s.varea(st, p), s.rsize(st, bn, row).scale(s.elemsize(cls))))]
            if op in ('resize', 'clear'):
                n = I.as_lin(st, args[1]) if op == 'resize' else ZERO
                todo = [st]
                for nm, r, c in s.names(bn):
                    nxt = []
                    for w in todo:
                        if w.cmp('eq', row, r) is not True:
                            nxt.append(w)
                            continue
                        for v, inside in fork(w, Cmp('lt', c, n)):
                            if inside:
                                v.g.pop(('gone', nm), None)
                            else:
                                s.wipe(v, nm, True)
                            nxt.append(v)
                    todo = nxt
                out = []
                for w in todo:
                    a = [I.val(w, w.fr[-1], x) for t, x in ins.a]
                    bn2, row2 = s.rowvec(w, a[0])
                    s.set_rsize(w, bn2, row2, I.as_lin(w, a[1]) if op == 'resize' else ZERO)
                    s.row_resized(w, bn2, row2, ins)
                    if not w.dead:
                        out.append((w, None))
                return out
            raise AnalysisBroken('row operation ' + op)
        m = re.match(r'^tdzdd::MyVector<(.*), unsigned long>$', cls)
        if m and op == 'MyVector' and m.group(1) in s.inner:
            bn = s.pick(st, m.group(1), p)
            if bn is not None:
                st.g[('base', bn)] = p
                s.ecls[bn] = m.group(1)
                for nm, r, c in s.names(bn):
                    s.wipe(st, nm, True)
                for r in s.rowsyms(bn):
                    st.g[('rs', bn, r)] = ZERO
        bn = s.base(st, p)
        if bn is not None and op in ('resize', 'clear'):
            return s.outer_resize(st, ins, bn, op, args)
        return None

    def pick(s, st, cls, p):
        bn = s.inner[cls]
        return bn if ('base', bn) not in st.g else None

    def outer_resize(s, st, ins, bn, op, args):
        raise AnalysisBroken('table %s is resized' % bn)

    # ------------------------------------------------------------ generalisation
    def rel(s, st, a, b):
        if st.cmp('eq', a, b) is True:
            return '='
        if st.cmp('lt', a, b) is True:
            return '<'
        if st.cmp('lt', b, a) is True:
            return '>'
        return '?'

    def after_prune(s, st):
        """states that stand differently towards the tracked rows are kept apart"""
        rows = []
        for bn in sorted(s.ecls):
            rows += [r for r in s.rowsyms(bn) if r not in rows]
        cols = {c for t, r, c in s.cells.values()}
        cols = [c for c in sorted(cols, key=str) if c.t]
        ph = set()
        for k, f in enumerate(st.fr):
            for x, v in f.regs.items():
                q = None
                if isinstance(v, Ptr):
                    q = s.locate(st, v) or s.rowvec(st, v)
                    q = q and q[1]
                elif isinstance(v, Lin) and v.t and len(v.t) <= 2 and x in s.I.ints32(f.fn):
                    q = v
                elif isinstance(v, Lin) and x in s.I.ints64(f.fn):
                    t = [c for c in cols if st.cmp('eq', v, c) is True]
                    if t:
                        ph.add((k, x, tuple(t)))
                if q is not None:
                    t = ''.join(s.rel(st, q, r) for r in rows)
                    if t.strip('?'):
                        ph.add((k, x, t))
        st.g['ph'] = frozenset(ph)

    widen_after = 1
    thresholds = (-2, -1, 0, 1, 2)

    def gen_limit(s, hk, fn, ptr):
        if ptr is not None:
            return 0 if hk[0] == 'r' and isinstance(ptr.r, tuple) and ptr.r[0] == 'v' else 6
        if hk[0] == 'r':
            return 0 if hk[2] in s.I.counters(fn) else 6
        if hk[0] == 'g' and (hk[1] in s.loose or isinstance(hk[1], tuple) and hk[1][0] in s.loose):
            return 0
        return 6

    row_names = ()

    def regty(s, fn):
        if fn.name not in s._rt:
            t = {nm: ty for ty, nm in fn.params}
            for b in fn.order:
                for i in fn.blocks[b]:
                    if i.dst:
                        t[i.dst] = i.ty if i.op != 'icmp' else None
            s._rt[fn.name] = t
        return s._rt[fn.name]

    def zone_prune(s, st):
        """levels and columns are not comparable"""
        if not s.row_names:
            return
        lev = set(s.row_names)
        for f in st.fr:
            ty = s.regty(f.fn)
            for x, v in f.regs.items():
                if isinstance(v, Lin) and ty.get(x) == ('i', 32):
                    syms_of(v, lev)
                elif isinstance(v, Ptr):
                    q = s.locate(st, v) or s.rowvec(st, v)
                    if q:
                        syms_of(q[1], lev)
        for k, v in st.g.items():
            if s.level_ghost(k):
                syms_of(v, lev)

        def kind(x):
            if isinstance(x, tuple) and x and x[0] == 'lin':
                return any(v in lev for v, _ in x[1].t)
            return x in lev
        ks = {}
        d = {}
        for (x, y), c in st.z.d.items():
            if x != 'Z' and y != 'Z':
                a = ks.get(x)
                if a is None:
                    a = ks[x] = kind(x)
                b = ks.get(y)
                if b is None:
                    b = ks[y] = kind(y)
                if a != b:
                    continue
            d[x, y] = c
        st.z.d = d

    def level_ghost(s, k):
        return False

    def stride(s, st, ptr):
        q = s.locate(st, ptr)
        if q is not None:
            return s.elemsize(s.ecls[q[0]])
        q = s.rowvec(st, ptr)
        return s.rowsize(q[0]) if q is not None else None

    loose = ('rs', 'size', 'lvi')
