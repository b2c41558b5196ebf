"""Removal of dead nodes during construction: DdSweeper::update."""
import re, time
from multiprocessing import Pool
import ir
from ir import AnalysisBroken
from absint import *
from tabmodel import *
from gridmodel import *
from eval_check import module, QUIET

R, C, r_, c_, P = S('!R'), S('!C'), S('!r'), S('!c'), S('!P')
E_, H, TOP = S('!E'), S('!H'), S('!top')
CUR, CHILD = S('!cur'), S('!child')
p_, q_ = S('!p'), S('!q')
I32 = ('i', 32)


class SweepModel(GridModel):
    rule = 'sweep'
    thresholds = (-1, 0, 1)
    lazy = True
    row_names = ('!R', '!r', '!H', '!top', '!p', '!q', '!cur', '!child')

    def level_ghost(s, k):
        return isinstance(k, tuple) and k[0] == 's'

    def __init__(s, ar, mode):
        GridModel.__init__(s)
        s.ar = ar
        m = mode.split('.')
        s.mode, s.shift = m[0], len(m) > 1 and m[1] == 'moved'
        s.b, s.kind = (None, None) if s.mode[0] != 'b' else (int(s.mode[1]), s.mode[2:])
        s.ecls['D'] = 'tdzdd::Node<%d>' % ar
        s.ecls['W'] = 'tdzdd::NodeId'
        s.inner['tdzdd::NodeId'] = 'W'
        s.intvec, s.cntvec = set(), set()
        if s.mode != 'inv':
            s.cells['D.T'] = ('D', R, C)
            s.cells['W.T'] = ('W', R, C)
            if s.shift:
                s.cells['D.P'] = ('D', R, P)
        if s.kind == 'n':
            s.cells['W.N'] = ('W', r_, c_)
            s.child = nid(r_, c_)
        elif s.kind:
            s.child = L(int(s.kind[1]))

    def globals(s, m):
        for n in ('size', 'row', 'col', 'val'):
            k = re.search(r'constant i64 (\d+)', m.globals['@vp_nbi_' + n])
            setattr(s, 'nbi_' + n, int(k.group(1)))

    def start(s, st, fname):
        s.bare = fname.endswith('bare')
        s.globals(s.I.m)
        st.g[('base', 'D')] = Ptr(('arg', '%e'))
        le = lambda a, b: st.add_le(a.add(b, -1))
        le(L(2), CUR)
        le(CUR, TOP)
        le(CHILD, CUR.add(L(-1)))
        le(ZERO, CHILD)
        if s.mode == 'inv':
            le(ZERO, p_)
            le(p_.add(ONE), q_)
            le(q_, CUR)
            le(q_.add(ONE), CHILD) if s.shift else le(CHILD, q_)
            return
        le(ONE, R)
        le(R, TOP)
        le(ZERO, C)
        le(C.add(ONE), s.rsize(st, 'D', R))
        le(CUR, H)
        if s.shift:
            le(ZERO, P)
            le(P.add(ONE), C)
        if s.kind == 'n':
            le(ONE, r_)
            le(r_.add(ONE), R)
            le(ZERO, c_)
            st.g[('rs', 'D', r_)] = S(('len', 'D', r_))
            le(c_.add(ONE), S(('len', 'D', r_)))
        if s.mode == 'root':
            le(TOP, R)
        if s.kind == 't1':
            le(ZERO, E_)
            le(E_.add(ONE), s.vsize(st, Ptr(('arg', '%ones'))))

    def rowsyms(s, bn):
        out = GridModel.rowsyms(s, bn)
        if bn == 'D' and s.kind == 'n':
            out = out + [r_]
        return out

    # ------------------------------------------------------------ flat vectors
    def flat(s, st, p):
        r = p.r
        if not (isinstance(r, tuple) and r[0] == 'v' and len(r) == 4):
            return None
        if (r[1], r[2]) in s.intvec:
            return 'S', div(p.o, 4), 0
        if (r[1], r[2]) in s.cntvec:
            return 'N', ZERO, 0
        if r[1] == ('arg', '%ones'):
            k = p.o.c % s.nbi_size
            return 'O', div(p.o.add(L(-k)), s.nbi_size), k
        return None

    def marks(s, v):
        if v == 'N':
            return []
        if v == 'O':
            return [E_] if s.kind == 't1' and not s.bare else []
        return [p_, q_] if s.mode == 'inv' else [CUR.add(L(-1))]

    def undecided(s, st, p):
        if isinstance(p, Ptr):
            q = s.flat(st, p)
            if q is not None:
                for x in s.marks(q[0]):
                    if s.rel(st, q[1], x) == '?':
                        return q[1], x
                return None
        return GridModel.undecided(s, st, p)

    def plain_load(s, st, p, ty, ins):
        if p.r == ('arg', '%root') and ty == I64:
            return st.g.get('root', nid(R, C) if s.mode == 'root' else nid(TOP, S('!rootcol')))
        if ty == I64 and isinstance(p.r, tuple) and p.r[0] == 'alloca' and p.r[-1] == '%s':
            return s.I.unknown(st, ty, 'n')     # statistics
        q = s.flat(st, p)
        if q is None:
            return None
        if q[0] == 'N':
            return s.I.unknown(st, ty, 'n')
        if q[0] == 'O':
            hit = [x for x in s.marks('O') if st.cmp('eq', q[1], x) is True]
            if hit:
                k = ('one', q[2])
                if k not in st.g:
                    st.g[k] = R if q[2] == s.nbi_row else C if q[2] == s.nbi_col else L(s.b) if q[2] == s.nbi_val else s.I.unknown(st, ty, 'nb')
                return st.g[k]
            if q[2] == s.nbi_row:
                return S(('term', 'row', fresh('nb')))      # some other node
            v = s.I.unknown(st, ty, 'nb')
            st.add_le(v.scale(-1))
            return v
        raise AnalysisBroken('level list')

    def fork_load(s, st, p, ty, ins):
        if isinstance(p, Ptr):
            q = s.flat(st, p)
            if q is not None:
                out = []
                for w in s.prefork(st, lambda w: [s.I.val(w, w.fr[-1], ins.a[0])]):
                    if q[0] != 'S':
                        a = s.I.val(w, w.fr[-1], ins.a[0])
                        out.append((w, s.I.load(w, a, ty, ins)))
                    else:
                        out += s.level(w, ins)
                return [x for x in out if not x[0].dead]
        return GridModel.fork_load(s, st, p, ty, ins)

    def cell(s, st, k):
        """the bound recorded for a tracked level: 0, or above every level processed before"""
        if ('s', k) in st.g:
            return [st]
        x = s.marks('S')[k]
        out = []
        a = st.copy()
        a.g[('s', k)] = ZERO
        todo = [a]
        if s.mode != 'inv':
            todo = a.assume(Cmp('eq', H, CUR), True)    # no level processed before waits for this one
        out += todo
        b = st
        v = S(fresh('bound'))
        b.g[('s', k)] = v
        b.add_le(CUR.add(L(2)).add(v, -1))
        if s.mode != 'inv':
            b.add_le(H.add(ONE).add(v, -1))
        out.append(b)
        res = []
        for w in out:
            if s.mode == 'inv' and ('s', 0) in w.g and ('s', 1) in w.g and ('sinv') not in w.g:
                a, b = w.g[('s', 0)], w.g[('s', 1)]
                w.g['sinv'] = 1
                if w.cmp('eq', a, ZERO) is not True:
                    res += w.assume(Cmp('le', a, b), True)
                    continue
            res.append(w)
        return res

    def cells_ready(s, st):
        todo = [st]
        for k in range(len(s.marks('S'))):
            todo = [x for w in todo for x in s.cell(w, k)]
        return todo

    def level(s, st, ins):
        out = []
        for w in s.cells_ready(st):
            p = s.I.val(w, w.fr[-1], ins.a[0])
            i = s.flat(w, p)[1]
            ms = s.marks('S')
            for k, x in enumerate(ms):
                if w.cmp('eq', i, x) is True:
                    out.append((w, w.g[('s', k)]))
                    break
            else:
                # any other entry: the recorded bounds never decrease with the level
                z = w.copy()
                ok = True
                for k, x in enumerate(ms):
                    if z.cmp('lt', x, i) is True and z.cmp('eq', z.g[('s', k)], ZERO) is not True:
                        ok = False          # a lower level has a bound: so has this one
                if ok:
                    out.append((z, ZERO))
                v = S(fresh('lv'))
                w.add_le(CUR.add(L(2)).add(v, -1) if not w.g.get('wrote') else CUR.add(ONE).add(v, -1))
                w.g['lvtmp'] = v
                todo = [w]
                for k, x in enumerate(ms):
                    nxt = []
                    for y in todo:
                        c = y.g[('s', k)]
                        if y.cmp('lt', i, x) is True:
                            nxt += y.assume(Cmp('le', y.g['lvtmp'], c), True) if y.cmp('eq', c, ZERO) is not True else []
                        else:
                            nxt += y.assume(Cmp('le', c, y.g['lvtmp']), True)
                    todo = nxt
                out += [(y, y.g.pop('lvtmp')) for y in todo]
        return out

    def fork_store(s, st, p, v, ty, ins):
        if isinstance(p, Ptr) and s.flat(st, p) is not None and s.flat(st, p)[0] == 'S':
            out = []
            for w in s.prefork(st, lambda w: [s.I.val(w, w.fr[-1], ins.a[1])]):
                for x in s.cells_ready(w):
                    f = x.fr[-1]
                    i = s.flat(x, s.I.val(x, f, ins.a[1]))[1]
                    for k, m in enumerate(s.marks('S')):
                        if x.cmp('eq', i, m) is True:
                            x.g[('s', k)] = s.I.as_lin(x, s.I.val(x, f, ins.a[0]))
                            x.g[('set', k)] = 1
                            break
                    x.g['wrote'] = 1
                    out.append(x)
            return out
        return GridModel.fork_store(s, st, p, v, ty, ins)

    def on_store(s, st, p, v, ty, ins):
        if p.r == ('arg', '%root'):
            st.g['root'] = v
            return True
        if ty == I64 and isinstance(p.r, tuple) and p.r[0] == 'alloca' and p.r[-1] == '%s':
            return True
        q = s.flat(st, p)
        if q is not None:
            if q[0] == 'O' and any(st.cmp('eq', q[1], x) is True for x in s.marks('O')):
                st.g[('one', q[2])] = v
            return True
        return GridModel.on_store(s, st, p, v, ty, ins)

    # ------------------------------------------------------------ nodes
    def blank_load(s, st, n, loc, ty, ins):
        if n == 'D.T' and s.b is not None and loc[3] == 8 * s.b:
            return s.child
        if n == 'D.T':
            return S(('el', loc[3]))
        if n[0] == 'W':
            s.fail(st, 'the new place of a node is looked up before it is known', ins)
        return s.I.unknown(st, ty, 'el')

    def set_rsize(s, st, bn, row, n):
        if bn != 'W':
            GridModel.set_rsize(s, st, bn, row, n)

    def stored(s, st, n, loc, v, ins):
        if n == 'D.T' or n == 'W.T':
            s.complete(st, ins)
            if n == 'D.T':
                st.g['dirty'] = 1
        if n[0] == 'D' and (st.g.get(('map', 'T')) == ZERO or s.b is None or loc[3] != 8 * s.b):
            del st.g[('c', n, loc[3])]
        if n == 'W.T':
            s.moved(st, v, ins)
        if n == 'W.N':
            st.g[('map', 'N')] = v
        if n == ('D.P' if s.shift else 'D.T'):
            if s.shift:
                st.g['filled'] = 1

    def complete(s, st, ins):
        if st.cmp('lt', H, R) is not True:
            s.fail(st, 'a node is changed while edges of its level are still to be completed', ins)

    def moved(s, st, v, ins):
        if ('map', 'T') in st.g:
            s.fail(st, 'a node is moved twice', ins)
            return
        if v.isconst() and v.c == 0:
            if s.kind == 't1' or s.kind == 'n' and st.g.get(('map', 'N')) != ZERO:
                s.fail(st, 'a node with a branch that is not 0 is dropped', ins)
                return
        elif not is_nid(v) or st.cmp('eq', nid_parts(v)[0], R) is not True:
            s.fail(st, 'a node is moved to another level', ins)
            return
        elif st.assume(Cmp('eq', nid_parts(v)[1], P if s.shift else C), True) == []:
            st.dead = True      # not the column this run is about
            return
        if v.isconst():
            for n in list(s.cells):
                if n[0] == 'D':
                    s.wipe(st, n, False)
            st.g.pop('filled', None)
        st.g[('map', 'T')] = v if v.isconst() else nid(R, P if s.shift else C)

    def after_prune(s, st):
        if ('map', 'T') in st.g:
            st.g[('rs', 'D', R)] = S(fresh('len'))
            if s.shift or st.g[('map', 'T')] == ZERO:
                s.wipe(st, 'D.T', False)
            st.g.pop('dirty', None)
        b = st.g.get(('base', 'W'))
        if b is not None:
            st.g.pop(('size', b.r, b.o), None)
            for k in [k for k in st.g if isinstance(k, tuple) and k[:2] == ('rs', 'W')]:
                del st.g[k]
        GridModel.after_prune(s, st)

    def nid_part(s, st, v, op, p):
        if not v.isconst() and not is_nid(v):
            return [(st, S(('term', op, v)))]
        return GridModel.nid_part(s, st, v, op, p)

    def outer_resize(s, st, ins, bn, op, args):
        raise AnalysisBroken('table %s is resized' % bn)

    def vec_hook(s, st, f, ins, cls, op, args):
        if cls == 'int' and isinstance(args[0], Ptr):
            s.intvec.add((args[0].r, args[0].o))
        if cls == 'unsigned long' and isinstance(args[0], Ptr):
            s.cntvec.add((args[0].r, args[0].o))
        if bool(re.match(r'tdzdd::MyVector<tdzdd::Node<', cls)) and op == 'size' and s.base(st, args[0]) == 'D':
            return [(st, TOP.add(ONE))]
        if op == '~MyVector':
            return [(st, None)]
        if s.mode == 'inv' and op == 'MyVector' and cls == 'tdzdd::MyVector<tdzdd::NodeId, unsigned long>':
            s.done(st, ins)
            return []
        if op == 'MyVector' and cls == 'tdzdd::MyVector<tdzdd::NodeId, unsigned long>' and ('s', 0) in st.g:
            # no dead nodes are ever counted above the root's level
            out = []
            for w in st.assume(Cmp('le', st.g[('s', 0)], TOP), True):
                out += GridModel.vec_hook(s, w, w.fr[-1], ins, cls, op, [s.I.val(w, w.fr[-1], a) for t, a in ins.a]) or [(w, None)]
            return out
        return GridModel.vec_hook(s, st, f, ins, cls, op, args)

    def other(s, st, f, ins, name, dem, args):
        if dem.startswith(QUIET) or 'operator<<' in dem or re.match(r'^tdzdd::MessageHandlerBase|^tdzdd::ResourceUsage', dem):
            return [(st, s.I.unknown(st, ins.ty, 'msg') if ins.dst else None)]
        if re.match(r'^tdzdd::(NodeTableEntity<\d+>::size|DataTable<.*>::totalSize)\(\) const$', dem):
            return [(st, S(fresh('n')))]
        if name == '@vp_havoc':
            for k in [k for k in st.g if isinstance(k, tuple) and k[0] == 'size' and k[1] == args[0].r]:
                del st.g[k]
            return [(st, None)]
        if name == '@vp_done':
            return s.done(st, ins)
        return None

    def branch(s, st, n, b):
        v = st.g.get(('c', n, 8 * b))
        return v

    def done(s, st, ins):
        s.ck('ends')
        s.site(st, ins, 'end')
        g = st.g
        if s.mode == 'inv':
            out = []
            for w in s.cells_ready(st):
                a, b = w.g[('s', 0)], w.g[('s', 1)]
                s.ck('bounds')
                for x, z in fork(w, Cmp('eq', a, ZERO)):
                    a, b = x.g[('s', 0)], x.g[('s', 1)]
                    if not z and x.cmp('le', a, b) is not True:
                        s.fail(x, 'the bounds recorded for the levels are not monotone', ins)
                        continue
                    if not s.shift and x.cmp('lt', ZERO, b) is not True:
                        s.fail(x, 'no bound is recorded for a level that waits for this one', ins)
                    else:
                        out.append((x, None))
            return out
        m = g.get(('map', 'T'))
        if m is None:
            # not swept, or below the bound: nothing may have changed
            if 'dirty' in g or s.gone(st, 'D.T'):
                s.fail(st, 'a node that is not swept is changed or lost', ins)
            elif 'root' in g and s.mode == 'root':
                s.fail(st, 'the root is changed although its node was not moved', ins)
            elif any(k[0] == 'one' and g[k] != (R if k[1] == s.nbi_row else C) for k in g if isinstance(k, tuple) and k[0] == 'one' and k[1] in (s.nbi_row, s.nbi_col)):
                s.fail(st, 'a branch to the 1-terminal is forgotten although its node was not moved', ins)
            return [(st, None)] if not st.dead else []
        s.ck('moved')
        if s.mode == 'root' and g.get('root') != m:
            s.fail(st, 'the root is not changed to the new place of its node', ins)
            return []
        if s.kind == 't1' and not s.bare:
            s.ck('ones')
        if m == ZERO:
            return [(st, None)]
        n = 'D.P' if s.shift else 'D.T'
        if s.gone(st, n):
            s.fail(st, 'a node is lost', ins)
            return []
        if g.get('filled') is None and s.shift:
            s.fail(st, 'a node is not copied to its new place', ins)
            return []
        for b in range(s.ar):
            v = s.branch(st, n, b)
            if b == s.b:
                want = g.get(('map', 'N'), s.child) if s.kind == 'n' else s.child
                if v is None and not s.shift:
                    v = s.child
                if v != want:
                    s.fail(st, 'a branch of a swept node does not lead to where its child is now', ins)
                    return []
        if s.kind == 't1' and not s.bare:
            a, c = g.get(('one', s.nbi_row)), g.get(('one', s.nbi_col))
            if a is None or c is None or st.cmp('eq', a, R) is not True or st.cmp('eq', c, P if s.shift else C) is not True:
                s.fail(st, 'a recorded branch to the 1-terminal is not moved with its node', ins)
                return []
        return [(st, None)]


def run_client(job):
    fname, mode = job
    m = module()
    t = time.time()
    model = SweepModel(int(fname[3]), mode)
    I = Interp(m, model)
    fn = m.funcs['@' + fname]
    st = State()
    model.start(st, fname)
    args = [Ptr(('arg', nm)) if ty[0] == 'ptr' else S('!' + nm[1:]) for ty, nm in fn.params]
    try:
        I.run([I.start(fn, args, st)])
    except AnalysisBroken:
        if not I.violations:
            raise
    return dict(client='%s/%s' % job, viol=[(v.rule, v.msg, v.loc, v.stack) for v in I.violations.values()],
                states=I.stats['states'], joins=I.stats['joins'], steps=I.stats['steps'], exits=len(I.exits),
                funcs=sorted(f for f in I.stats['funcs'] if 'tdzdd::' in f), checked=dict(model.checked),
                sites=sorted(model.sites), unmodelled=dict(I.stats['unmodelled']), wall=time.time() - t)


def jobs():
    out = [('swp2__upd', 'inv.reached'), ('swp2__upd', 'inv.moved')]
    for a in (2, 3):
        for z in ('stays', 'moved'):
            out += [('swp%d__upd' % a, 'b%d%s.%s' % (b, k, z)) for b in range(a) for k in ('t0', 't1', 'n')]
            out += [('swp%d__upd' % a, 'root.' + z)]
    out += [('swp2__bare', 'root.moved'), ('swp2__bare', 'b1n.moved')]
    return out


def run():
    with Pool(8) as p:
        return p.map(run_client, jobs(), chunksize=1)


if __name__ == '__main__':
    import sys
    for j in jobs():
        if len(sys.argv) > 1 and sys.argv[1] not in '/'.join(j):
            continue
        r = run_client(j)
        print(r['client'], 'states', r['states'], 'exits', r['exits'], '%.1fs' % r['wall'], r['unmodelled'], r['checked'])
        for v in r['viol']:
            print('   ', v[0], v[1], v[2])
