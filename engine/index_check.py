"""The level index of a node table: which levels are referred to from where."""
import re, time
from multiprocessing import Pool
import ir
from ir import AnalysisBroken
from absint import *
from tabmodel import *
from gridmodel import *
from eval_check import module, QUIET

R, C, r_, TOP, K = S('!R'), S('!C'), S('!r'), S('!top'), S('!k')
INTV = 'tdzdd::MyVector<int, unsigned long>'
BOOLS = ('bool', 'char', 'unsigned char', 'signed char', 'int')


class IndexModel(GridModel):
    """A node (R, C) has a branch b to level r > 0.  Followed: element r of every vector of
    flags, and every time r or R is entered in one of the lists of the table.
    Without b: no node of row R refers to level r."""
    rule = 'level-index'
    thresholds = (-1, 0, 1)

    def __init__(s, ar, b):
        GridModel.__init__(s)
        s.ar, s.b = ar, b
        s.ecls['D'] = 'tdzdd::Node<%d>' % ar
        if b is not None:
            s.cells['D.T'] = ('D', R, C)
        s.flags, s.fld = {}, {}

    def start(s, st):
        st.g[('base', 'D')] = Ptr(('arg', '%e'))
        le = lambda a, b: st.add_le(a.add(b, -1))
        le(ONE, r_)
        le(r_.add(ONE), R)
        le(R, TOP)
        if s.b is not None:
            le(ZERO, C)
            le(C.add(ONE), s.rsize(st, 'D', R))
        le(ONE, K)
        le(K, TOP)

    def rowsyms(s, bn):
        return [R]

    def from_const(s, fn, x):
        for b in fn.order:
            for i in fn.blocks[b]:
                if i.dst == x:
                    return i.op != 'phi' or any(v[0] not in ('reg', 'undef', 'poison') for v, _ in i.a)
        return True

    def gen_limit(s, hk, fn, ptr):
        if ptr is None and hk[0] == 'r' and not s.from_const(fn, hk[2]):
            return 0
        if ptr is None and hk[0] == 'm':
            return 0
        return GridModel.gen_limit(s, hk, fn, ptr)

    # ------------------------------------------------------------ flags
    def flag(s, st, p):
        """(vector, index) if p is an element of a vector of flags"""
        r = p.r
        if isinstance(r, tuple) and r[0] == 'v' and len(r) == 4 and (r[1], r[2]) in s.flags:
            i = div(p.o, s.flags[r[1], r[2]])
            if i is None:
                raise AnalysisBroken('flag address')
            return (r[1], r[2]), i
        return None

    def undecided(s, st, p):
        if isinstance(p, Ptr):
            q = s.flag(st, p)
            if q is not None:
                return None if s.rel(st, q[1], r_) != '?' else (q[1], r_)
            q = s.locate(st, p) if s.b is None else None
            if q is not None and q[0] == 'D':
                return None if st.cmp('eq', q[1], R) is not None else (q[1], R)
        return GridModel.undecided(s, st, p)

    def on_load(s, st, p, ty, ins):
        q = s.flag(st, p)
        if q is not None:
            s.ck('flag reads')
            if st.cmp('eq', q[1], r_) is True:
                v = st.g.get(('f', q[0]))
                return v if v is not None else s.I.unknown(st, ty, 'flag')
            return s.I.unknown(st, ty, 'flag')
        return GridModel.on_load(s, st, p, ty, ins)

    def on_store(s, st, p, v, ty, ins):
        q = s.flag(st, p)
        if q is not None:
            if st.cmp('eq', q[1], r_) is True:
                st.g[('f', q[0])] = v
            return True
        return GridModel.on_store(s, st, p, v, ty, ins)

    # ------------------------------------------------------------ nodes
    def blank_load(s, st, n, loc, ty, ins):
        if loc[3] == 8 * s.b:
            return nid(r_, S('!c'))
        return s.I.unknown(st, ty, 'el')

    def stored(s, st, n, loc, v, ins):
        s.fail(st, 'the index changes a node', ins)

    def other_load(s, st, loc, ty, ins):
        v = s.I.unknown(st, ty, 'el')
        s.owner = loc[1]
        return v

    def nid_part(s, st, v, op, p):
        if not v.isconst() and not is_nid(v):
            t = S(('term', op, v))
            st.add_le(t.scale(-1))
            loc = s.locate(st, p) if isinstance(p, Ptr) else None
            if op == 'row' and loc is not None and loc[0] == 'D':
                # a branch leads below its node
                out = st.assume(Cmp('lt', t, loc[1]), True)
                if s.b is None:
                    hit = st.cmp('eq', loc[1], R) is True
                    sides = (('<', Cmp('lt', t, r_)), ('>', Cmp('lt', r_, t))) if hit else (('', Cmp('le', ZERO, t)),)
                    res = []
                    for w in out:
                        for side, c in sides:
                            for q in w.copy().assume(c, True):
                                q.g['side'] = side      # keeps the two apart
                                res.append((q, t))
                    return res
                return [(q, t) for q in out]
            return [(st, t)]
        return GridModel.nid_part(s, st, v, op, p)

    # ------------------------------------------------------------ lists of levels
    def lst(s, st, p):
        """(field, level) if p is one of the lists kept in the table"""
        r = p.r
        if isinstance(r, tuple) and r[0] == 'v' and len(r) == 4 and r[1] == ('arg', '%e') and s.base(st, Ptr(r[1], r[2])) is None:
            i = div(p.o, s.elemsize('tdzdd::MyVector<int, unsigned long>'))
            if i is None:
                raise AnalysisBroken('list address')
            return r[2], i
        return None

    def stride(s, st, ptr):
        r = ptr.r
        if isinstance(r, tuple) and r[0] == 'v' and len(r) == 4 and s.base(st, Ptr(r[1], r[2])) is None:
            if (r[1], r[2]) in s.flags:
                return s.flags[r[1], r[2]]
            if r[1] == ('arg', '%e'):
                return s.elemsize('tdzdd::MyVector<int, unsigned long>')
        return GridModel.stride(s, st, ptr)

    def push(s, st, ins, p, v):
        fld = s.lst(st, p)[0]
        sym = r_ if fld == s.fld.get('lower') else R if fld == s.fld.get('higher') else None
        if sym is None:
            raise AnalysisBroken('list that is handed out nowhere')
        s.ck('entries')
        out = []
        for x in three(st, v, sym) if s.rel(st, v, sym) == '?' else [st]:
            i = s.lst(x, s.I.val(x, x.fr[-1], ins.a[0][1]))[1]
            if x.cmp('eq', s.newv(x, ins), sym) is not True:
                out.append((x, None))
                continue
            if s.b is None:
                for y, hit in fork(x, Cmp('eq', R, i)):
                    if hit and sym is r_:
                        y.g[('p', fld)] = (False,)
                    out.append((y, None))
                continue
            for y, ok in fork(x, Cmp('le', R, i) if sym is r_ else BoolOp('and', Cmp('le', i, r_), Cmp('le', ONE, i))):
                y.g[('p', fld)] = (y.g.get(('p', fld), ()) + (ok,))[:2]
                out.append((y, None))
        return out

    def newv(s, st, ins):
        v = s.I.val(st, st.fr[-1], ins.a[1][1])
        if isinstance(v, Ptr):
            v = s.I.load(st, v, ('i', 32), ins)
        return s.I.as_lin(st, v)

    def vec_hook(s, st, f, ins, cls, op, args):
        p = args[0]
        if isinstance(p, Ptr):
            if s.base(st, p) == 'D' and op == 'size':
                return [(st, TOP.add(ONE))]
            if cls in BOOLS and op == 'MyVector':
                s.flags[p.r, p.o] = s.elemsize(cls)
                if len(args) == 2 and isinstance(args[1], Lin):
                    st.g[('f', (p.r, p.o))] = ZERO
                elif len(args) == 3 and isinstance(args[2], Ptr):
                    st.g[('f', (p.r, p.o))] = s.I.load(st, args[2], ('i', 8 * s.elemsize(cls)), ins)
                elif len(args) == 1:
                    st.g[('f', (p.r, p.o))] = ZERO
            if cls in BOOLS and op == '~MyVector':
                st.g.pop(('f', (p.r, p.o)), None)
            if (p.r, p.o) in s.flags and op == 'clear':
                st.g[('f', (p.r, p.o))] = ZERO
            if cls == 'int' and s.lst(st, p) is not None:
                if op == 'push_back':
                    return s.push(st, ins, p, s.newv(st, ins))
                if op not in ('size', 'empty', 'begin', 'end'):
                    raise AnalysisBroken('list operation ' + op)
            if cls == INTV and op in ('clear', 'operator=') and p.r == ('arg', '%e'):
                st.g.pop(('p', p.o), None)
                st.g['built'] = 1
            if cls == INTV and op in ('size', 'empty') and p.r == ('arg', '%e') and 'built' not in st.g:
                return [(st, (TOP.add(ONE) if op == 'size' else ZERO))]
        return GridModel.vec_hook(s, st, f, ins, cls, op, args)

    def other(s, st, f, ins, name, dem, args):
        if name in ('@vp_lower', '@vp_higher'):
            s.site(st, ins, name[4:])
            s.ck(name[4:])
            q = s.lst(st, args[0]) if isinstance(args[0], Ptr) else None
            if q is None or st.cmp('eq', q[1], K) is not True:
                s.fail(st, 'the list handed out is not that of the level asked for', ins)
                return []
            fld = q[0]
            if 'built' not in st.g:
                s.fld[name[4:]] = fld       # which list is which
                return [(st, None)]
            if s.b is None:
                if st.g.get(('p', fld)):
                    s.fail(st, 'a level is listed at a level that does not refer to it', ins)
            elif name == '@vp_lower':
                e = st.g.get(('p', fld), ())
                if not all(e):
                    s.fail(st, 'a level is listed as no longer needed although a higher level refers to it', ins)
                elif len(e) > 1:
                    s.fail(st, 'a level is listed twice', ins)
                elif not e:
                    s.fail(st, 'a level that is referred to is never listed as no longer needed', ins)
            else:
                e = st.g.get(('p', fld), ())
                if not all(e):
                    s.fail(st, 'a level is listed above a level it refers to', ins)
                elif len(e) != 1:
                    s.fail(st, 'a level is not listed exactly once', ins)
            return [(st, None)] if not st.dead else []
        return None

    def rel2(s, st, a, b):
        t = s.rel(st, a, b)
        if t == '?' and st.cmp('le', a, b) is True:
            return 'l'
        return t

    def after_prune(s, st):
        st.g.pop('memo', None)
        GridModel.after_prune(s, st)
        ph = set(st.g['ph'])
        for k, f in enumerate(st.fr):
            for x, v in f.regs.items():
                if isinstance(v, Lin) and x in s.I.ints32(f.fn):
                    ph.add((k, x, s.rel2(st, v, r_)))
        for a, c in st.mem.items():
            for o, v in c.items():
                if isinstance(v, Lin) and not is_nid(v):
                    ph.add((a, o, s.rel2(st, v, r_), s.rel(st, v, R)))
        st.g['ph'] = frozenset(ph)


def run_client(job):
    fname, mode = job
    m = module(fname.endswith('mp'))
    t = time.time()
    model = IndexModel(int(fname[3]), int(mode[1]) if mode != 'none' else None)
    I = Interp(m, model)
    fn = m.funcs['@' + fname]
    st = State()
    model.start(st)
    args = [Ptr(('arg', nm)) if ty[0] == 'ptr' else S('!' + nm[1:]) for ty, nm in fn.params]
    try:
        I.run([I.start(fn, args, st)])
    except AnalysisBroken:
        if not I.violations:
            raise
    return dict(client='%s/%s' % job, viol=[(v.rule, v.msg, v.loc, v.stack) for v in I.violations.values()],
                states=I.stats['states'], joins=I.stats['joins'], steps=I.stats['steps'], exits=len(I.exits),
                funcs=sorted(f for f in I.stats['funcs'] if 'tdzdd::' in f), checked=dict(model.checked),
                sites=sorted(model.sites), unmodelled=dict(I.stats['unmodelled']), wall=time.time() - t)


def jobs():
    return [('idx%d__run' % a, 'b%d' % b) for a in (2, 3) for b in range(a)] + [('idx%d__run' % a, 'none') for a in (2, 3)] + \
        [('idx2__mp', 'b0'), ('idx2__mp', 'b1'), ('idx2__mp', 'none'), ('idx3__mp', 'b2')]


def run():
    with Pool(8) as p:
        return p.map(run_client, jobs(), chunksize=1)


if __name__ == '__main__':
    import sys
    for j in jobs():
        if len(sys.argv) > 1 and sys.argv[1] not in '/'.join(j):
            continue
        r = run_client(j)
        print(r['client'], 'states', r['states'], 'exits', r['exits'], '%.1fs' % r['wall'], r['unmodelled'], r['checked'])
        for v in r['viol']:
            print('   ', v[0], v[1], v[2])
