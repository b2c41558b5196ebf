"""Bottom-up evaluation: DdStructure::evaluate."""
import re, time
from multiprocessing import Pool
import ir
from ir import AnalysisBroken
from absint import *
from tabmodel import *
from gridmodel import *

R, C, r_, c_, N = S('!R'), S('!C'), S('!r'), S('!c'), S('!N')
HAND = re.compile(r'^tdzdd::NodeTableHandler<\d+>::(operator\*|operator->)\(\) const$')
QUIET = ('tdzdd::MessageHandler::', 'tdzdd::typenameof', 'tdzdd::demangle', 'tdzdd::ElapsedTimeCounter', 'tdzdd::MessageHandler_')


class EvalModel(GridModel):
    rule = 'evaluation'

    def __init__(s, ar, mode):
        GridModel.__init__(s)
        s.ar, s.mode = ar, mode
        s.node = 'tdzdd::Node<%d>' % ar
        s.ecls['D'] = s.node
        s.inner['vp::Val'] = 'W'
        s.ecls['W'] = 'vp::Val'
        s.cells['D.T'] = ('D', R, C)
        s.cells['W.T'] = ('W', R, C)
        s.root = mode == 'root'
        s.b, s.kind = (None, None) if s.root else (int(mode[1]), mode[2:])
        if s.kind == 'n':
            s.cells['W.F'] = ('W', r_, c_)
            s.child = nid(r_, c_)
        elif s.kind:
            s.cells['W.F'] = ('W', ZERO, L(int(s.kind[1])))
            s.child = L(int(s.kind[1]))

    def start(s, st):
        st.g[('base', 'D')] = Ptr(('ent',))
        st.add_le(ONE.add(R, -1))
        st.add_le(R.add(N, -1))
        st.add_le(C.scale(-1))
        st.add_le(C.add(ONE).add(s.rsize(st, 'D', R), -1))
        if s.root:
            st.add_le(N.add(R, -1))
        if s.kind == 'n':
            st.add_le(ONE.add(r_, -1))
            st.add_le(r_.add(ONE).add(R, -1))
            st.add_le(c_.scale(-1))
            st.g[('rs', 'D', r_)] = S(('len', 'D', r_))
            st.add_le(c_.add(ONE).add(S(('len', 'D', r_)), -1))

    def rowsyms(s, bn):
        out = GridModel.rowsyms(s, bn)
        if bn == 'D' and s.kind == 'n':
            out = out + [r_]
        return out

    def rsize(s, st, bn, row):
        v = GridModel.rsize(s, st, bn, row)
        if bn == 'D' and st.cmp('eq', row, ZERO) is True:
            st.add_le(L(2).add(v, -1))
        return v

    def plain_load(s, st, p, ty, ins):
        if p.r == ('arg', '%d') and ty == I64:
            return nid(R, C) if s.root else nid(N, S('!rootcol'))
        return None

    def blank_load(s, st, n, loc, ty, ins):
        if n == 'D.T' and s.b is not None and loc[3] == 8 * s.b:
            return s.child
        return s.I.unknown(st, ty, 'el')

    def nid_part(s, st, v, op, p):
        if not v.isconst() and not is_nid(v):
            # any other branch: a terminal or a node
            return [(st, S(('term', op, v)))]
        return GridModel.nid_part(s, st, v, op, p)

    # ------------------------------------------------------------ level lists
    def fork_load(s, st, p, ty, ins):
        if isinstance(p, Ptr) and isinstance(p.r, tuple) and p.r[:2] == ('v', ('levels',)):
            g = st.g
            if g.get('memo') is not None and g['memo'][0] == p.o:
                return None
            i = g['lvi']
            l = S(fresh('lev'))
            st.g['memo'] = (p.o, l)
            if st.add_le(ONE.add(l, -1)) is False:
                return []
            todo = st.assume(Cmp('lt', l, i), True)
            for sym, until in ((R, None), (r_, R)) if s.kind == 'n' else ((R, None),):
                nxt = []
                for q in todo:
                    for w in three(q, q.g['memo'][1], sym):
                        lv = w.g['memo'][1]
                        if w.cmp('eq', lv, sym) is True and until is not None:
                            # a level is not dropped before every node that refers to it was evaluated
                            nxt += w.assume(Cmp('le', until, w.g['lvi']), True)
                        else:
                            nxt.append(w)
                todo = nxt
            return [(q, q.g['memo'][1]) for q in todo if not q.dead]
        return GridModel.fork_load(s, st, p, ty, ins)

    def on_load(s, st, p, ty, ins):
        if isinstance(p.r, tuple) and p.r[:2] == ('v', ('levels',)) and st.g.get('memo') is not None:
            return st.g['memo'][1]
        return GridModel.on_load(s, st, p, ty, ins)

    def after_prune(s, st):
        live, at = False, st.g.get('memo')
        keep = False
        for f in st.fr:
            for v in f.regs.values():
                if isinstance(v, Ptr) and isinstance(v.r, tuple):
                    live = live or v.r == ('levels',) or v.r[:2] == ('v', ('levels',))
                    keep = keep or at is not None and v.r[:2] == ('v', ('levels',)) and v.o == at[0]
        if not live:
            st.g.pop('lvi', None)
        if not keep:
            st.g.pop('memo', None)
        GridModel.after_prune(s, st)

    def other(s, st, f, ins, name, dem, args):
        if HAND.match(dem):
            return [(st, Ptr(('ent',)))]
        if dem.startswith(QUIET) or 'operator<<' in dem:
            return [(st, s.I.unknown(st, ins.ty, 'msg') if ins.dst else None)]
        if re.match(r'^tdzdd::NodeTableEntity<\d+>::lowerLevels\(int\) const$', dem):
            st.g['lvi'] = s.I.as_lin(st, args[1])
            st.g.pop('memo', None)
            return [(st, Ptr(('levels',)))]
        if name.startswith('@omp_'):
            return [(st, ZERO if name == '@omp_get_thread_num' else ONE)]
        if name.startswith('@vp_'):
            return s.vp(st, ins, name[4:], args)
        return None

    # ------------------------------------------------------------ the evaluator
    def cellname(s, st, p):
        loc = s.locate(st, p) if isinstance(p, Ptr) else None
        if loc is None or loc[0] != 'W' or loc[3] != 0:
            return None
        h = s.hits(st, loc)
        return h[0] if h else 'O'

    def evaluated(s, st, n, ins):
        if s.gone(st, n):
            s.fail(st, 'a value is stored in a row that has no room for it', ins)
        elif st.g.get(('ev', n)):
            s.fail(st, 'a node is evaluated twice', ins)
        st.g[('ev', n)] = 1

    def vp(s, st, ins, op, args):
        I = s.I
        g = st.g
        s.site(st, ins, op)
        s.ck(op)
        if op == 'init':
            if g.get(('init', args[0])):
                s.fail(st, 'the evaluator is initialised twice', ins)
            elif I.as_lin(st, args[1]) != (R if s.root else N) and st.cmp('eq', I.as_lin(st, args[1]), N) is not True:
                s.fail(st, 'the evaluator is initialised with another level than that of the root', ins)
            g['init', args[0]] = 1
            return [(st, None)]
        if op == 'who':
            if not g.get(('init', args[0])):
                s.fail(st, 'a value is computed before the evaluator is initialised', ins)
                return []
            return [(st, None)]
        if op == 'result':
            if s.root and I.as_lin(st, args[0]) != S('!res'):
                s.fail(st, 'the value returned is not the one made from the root', ins)
            return [(st, None)]
        if op == 'drop':
            v = I.as_lin(st, args[0])
            if s.kind == 'n' and st.cmp('eq', v, r_) is True and not g.get(('ev', 'W.T')):
                s.fail(st, 'the values of a level are dropped while a node still needs them', ins)
                return []
            return [(st, None)]
        n = s.cellname(st, args[0])
        if n is None:
            s.fail(st, 'a value is not kept in the work table', ins)
            return []
        if op == 'terminal':
            if n == 'W.F' and s.kind != 'n':
                if st.cmp('eq', I.as_lin(st, args[1]), s.child) is not True:
                    s.fail(st, 'a terminal value is computed for the other terminal', ins)
                s.evaluated(st, n, ins)
            elif n != 'O':
                s.fail(st, 'a terminal value is stored as the value of a node', ins)
            return [(st, None)]
        if op in ('node2', 'node3'):
            if n == 'W.F' and s.kind != 'n':
                s.fail(st, 'the value of a terminal is overwritten by that of a node', ins)
                return []
            if n == 'W.T':
                if st.cmp('eq', I.as_lin(st, args[1]), R) is not True:
                    s.fail(st, 'a node is evaluated for another level', ins)
                    return []
                if s.b is not None:
                    v, l = args[2 + 2 * s.b], I.as_lin(st, args[3 + 2 * s.b])
                    if s.cellname(st, v) != 'W.F':
                        s.fail(st, 'a node is evaluated with a value that is not that of its child', ins)
                        return []
                    if s.gone(st, 'W.F') or not g.get(('ev', 'W.F')):
                        s.fail(st, 'a node is evaluated before its child or after the value of the child was dropped', ins)
                        return []
                    if st.cmp('eq', l, r_ if s.kind == 'n' else ZERO) is not True:
                        s.fail(st, 'a node is told another level than that of its child', ins)
                        return []
            if n != 'O':
                s.evaluated(st, n, ins)
            return [(st, None)]
        if op == 'value':
            if not g.get(('ev', 'W.T')):
                s.fail(st, 'a node is never evaluated', ins)
                return []
            if s.root and (n != 'W.T' or s.gone(st, n)):
                s.fail(st, 'the result is not made from the value of the root', ins)
                return []
            return [(st, S('!res'))]
        raise AnalysisBroken('vp_' + op)


_M = {}


def module(mp=False):
    """with mp: the code for OpenMP, its loops executed by a team of one thread"""
    if mp not in _M:
        _M[mp] = ir.compile_ir('grid.cpp', ['-O1', '-Xclang', '-disable-llvm-passes'] + (['-I' + ir.DRIVERS + '/mp'] if mp else []),
                               defines=['_OPENMP=201511', 'VP_MP'] if mp else [])
    return _M[mp]


def run_client(job):
    fname, mode = job
    mp = mode.endswith('/mp')
    mode = mode.removesuffix('/mp')
    m = module(mp)
    t = time.time()
    model = EvalModel(int(fname[4]), mode)
    I = Interp(m, model)
    fn = m.funcs['@' + fname]
    st = State()
    model.start(st)
    args = [Ptr(('arg', nm)) if ty[0] == 'ptr' else S(('arg', nm)) for ty, nm in fn.params]
    try:
        I.run([I.start(fn, args, st)])
    except AnalysisBroken:
        if not I.violations:
            raise
    return dict(client='%s/%s' % job, viol=[(v.rule, v.msg, v.loc, v.stack) for v in I.violations.values()],
                states=I.stats['states'], joins=I.stats['joins'], steps=I.stats['steps'], exits=len(I.exits),
                funcs=sorted(f for f in I.stats['funcs'] if 'tdzdd::' in f), checked=dict(model.checked),
                sites=sorted(model.sites), unmodelled=dict(I.stats['unmodelled']), wall=time.time() - t)


def jobs():
    return [('eval%d__run' % a, 'b%d%s' % (b, k)) for a in (2, 3) for b in range(a) for k in ('t0', 't1', 'n')] + \
        [('eval%d__run' % a, 'root') for a in (2, 3)] + \
        [('eval%d__run' % a, m + '/mp') for a, m in ((2, 'b0n'), (2, 'b1t1'), (3, 'b2n'), (2, 'root'))]


def run():
    with Pool(8) as p:
        return p.map(run_client, jobs(), chunksize=1)


if __name__ == '__main__':
    import sys
    for j in jobs():
        if len(sys.argv) > 1 and sys.argv[1] not in '/'.join(j):
            continue
        r = run_client(j)
        print(r['client'], 'states', r['states'], 'exits', r['exits'], '%.1fs' % r['wall'], r['unmodelled'], r['checked'])
        for v in r['viol']:
            print('   ', v[0], v[1], v[2])
