"""ZDD subsetting: the spec and the input table descend together."""
import re
from ir import AnalysisBroken
from absint import *
from tabmodel import *
from buildmodel import BuildModel, LV, BAD

CHILD = re.compile(r'^tdzdd::NodeTableEntity<\d+>::child\((.*)\) const$')
POOL = re.compile(r'^tdzdd::MemoryPool::(~?\w+)(<.*>)?\((.*)\)( const)?$')
JT = S('!j')


def lev(v):
    """level of a table position"""
    if v.isconst():
        return L(0) if v.c == 0 else L(-1)
    return nid_parts(v)[0]


class SubModel(BuildModel):
    def insz(s, lv):
        return S(('term', 'insz', lv, ZERO))

    def inrowof(s, p):
        if isinstance(p.r, tuple) and p.r[0] == 'v' and p.r[1] == ('in',):
            n = s.elemsize(s.rowcls)
            return Lin(p.o.c // n, tuple((v, k // n) for v, k in p.o.t))
        return None

    def vsize(s, st, p):
        lv = s.inrowof(p)
        if lv is not None:
            v = s.insz(lv)
            st.add_le(v.scale(-1))
            return v
        return BuildModel.vsize(s, st, p)

    # ------------------------------------------------------------ input table
    def other(s, st, f, ins, name, dem, args):
        m = CHILD.match(dem)
        if m:
            I = s.I
            if m.group(1).startswith('tdzdd::NodeId'):
                fv, b = args[1], I.as_lin(st, args[2])
                if isinstance(fv, Ptr):
                    fv = I.load(st, fv, I64, ins)
            else:
                fv, b = s.mknid(st, I.as_lin(st, args[1]), I.as_lin(st, args[2])), I.as_lin(st, args[3])
            return s.tchild(st, ins, fv, b)
        if '::alloc_front<' in dem and 'tdzdd::MyListOnPool<' in dem:
            return s.list(st, ins, None, 'alloc_front', args)
        m = POOL.match(dem)
        if m:
            if m.group(1) == 'clear':
                s.ck('pool-clear')
                for X in s.order:
                    if st.g.get(('st', ('heap', X), s.soff)) is not None:
                        s.bad(st, BAD, 'the memory of a level is released while it holds a state', ins)
                        return []
                lv = s.pool_level(st, args[0])
                if lv is None or lv != LV:
                    s.bad(st, BAD, 'the memory of another level is released', ins)
                    return []
                return [(st, None)]
            return [(st, None)]
        return BuildModel.other(s, st, f, ins, name, dem, args)

    def tchild(s, st, ins, fv, b):
        s.ck('table-child')
        g = st.g
        if not isinstance(fv, Lin) or not is_nid(fv):
            if s.dbg:
                print('FV', fv)
            s.bad(st, BAD, 'a child of a terminal or unknown table node is taken', ins)
            return []
        X = g.get('cur')
        row, col = nid_parts(fv)
        if g.get('phase') == 'init':
            X, k = 'root', 0
        elif X in s.order and g.get('act') is not None:
            k = g['act']
        else:
            k = None
        first = row == LV and g.get('phase') == 'level'
        if X in s.order and first:
            if not b.isconst() or not 0 <= b.c < s.ar:
                s.bad(st, BAD, 'a branch that does not exist is taken in the input table', ins)
                return []
            if st.cmp('eq', col, JT) is not True:
                s.bad(st, BAD, 'the input table is read at another node than the one the work list belongs to', ins)
                return []
            k = b.c
            if k == s.tb and ('tab', X, k) in g:
                s.bad(st, BAD, 'a child of the input table is computed twice', ins)
                return []
            g['act'] = k
        elif X == 'root' or X in s.order and k == s.tb:
            cur = g.get(('tab', X, k))
            if not s.same_id(st, cur, fv):
                s.bad(st, BAD, 'the input table is followed from another node than the one reached', ins)
                return []
            if b != ZERO:
                s.bad(st, BAD, 'a skipped level of the input table is not left by its 0-branch', ins)
                return []
            c = g.get(('code', X, k))
            if c is None or st.cmp('lt', c, row) is not True:
                s.bad(st, BAD, 'the input table is advanced past a level the spec may stop at', ins)
                return []
        out = []
        for v in (ZERO, ONE, None):
            q = st.copy()
            if v is None:
                r, c = S(fresh('tl')), S(fresh('tc'))
                q.add_le(ONE.add(r, -1))
                q.add_le(r.add(row, -1).add(ONE))
                q.add_le(c.scale(-1))
                q.add_le(c.add(ONE).add(s.insz(r), -1))
                v = nid(r, c)
            if X == 'root' or X in s.order and k == s.tb:
                q.g[('tab', X, k)] = v
            out.append((q, v))
        return out

    def may_step(s, st, X, k, who):
        if X not in s.order and X != 'root':
            return True
        t, c = st.g.get(('tab', X, k)), st.g.get(('code', X, k))
        return t is not None and c is not None and st.cmp('lt', lev(t), c) is True

    def outcome(s, st, X, b):
        c, t = st.g.get(('code', X, b)), st.g.get(('tab', X, b))
        if c is None and t == ZERO or t is None and c is not None and st.cmp('eq', c, ZERO) is True:
            return 'zero', None
        if c is None or t is None:
            return 'uncomputed', None
        if st.cmp('eq', c, ZERO) is True or t == ZERO:
            return 'zero', None
        if st.cmp('lt', c, ZERO) is True and t == ONE:
            return 'one', None
        if is_nid(t) and st.cmp('eq', lev(t), c) is True:
            return 'node', c
        return None, None

    # ------------------------------------------------------------ work lists
    def worklevel(s, p):
        n = s.elemsize('tdzdd::MyVector<%s, unsigned long>' % s.listcls)
        if not (isinstance(p.r, tuple) and p.r[0] == 'v') or p.o.c % n or any(k % n for _, k in p.o.t):
            raise AnalysisBroken('which work list row is %r' % (p,))
        return Lin(p.o.c // n, tuple((v, k // n) for v, k in p.o.t))

    @property
    def listcls(s):
        if not hasattr(s, '_lc'):
            for f in s.I.m.funcs.values():
                m = re.match(r'^tdzdd::MyVector<(tdzdd::MyListOnPool<.*>), unsigned long>::', f.dem)
                if m:
                    s._lc = m.group(1)
                    break
        return s._lc

    def list_access(s, st, ins, cls, p, n):
        g = st.g
        lv = s.worklevel(p)
        s.ck('list')
        if g.get('phase') != 'level' or lv != LV:
            if not s.in_range(st, lv, n, s.vsize(st, p)):
                if s.dbg:
                    print('RANGE', lv, n, s.vsize(st, p), [x for x in st.z.vars() if isinstance(x, tuple) and x[0] == 'term'])
                s.bad(st, BAD, 'the work lists of a level are accessed out of range', ins)
                return []
            return [(st, Ptr(('lst', lv, n)))]
        if st.cmp('eq', n, g['lastj']) is True:
            return [(st, Ptr(('lst', 'cur')))]
        if st.cmp('lt', g['lastj'], n) is not True:
            g['desync'] = 1
        s.leave(st, ins)
        if st.dead:
            return []
        g = st.g
        g['cur'] = None
        out = []
        for q, t in fork(st, Cmp('eq', n, JT)) if s.order else [(st, False)]:
            m = subst_n(q, n)
            q.g['lastj'] = s.I.as_lin(q, m)
            q.g['lst'] = 'T' if t else 'O'
            q.g['lsize'] = q.g['Tsize'] if t else 'any'
            out.append((q, Ptr(('lst', 'cur'))))
        return out

    def in_range(s, st, lv, n, sz):
        if st.cmp('le', ZERO, n) is not True:
            return False
        if st.cmp('lt', n, sz) is True:
            return True
        if st.cmp('eq', sz, s.insz(lv)) is not True and not s.is_insz(st, sz, lv):
            return False
        vals = list(st.g.values()) + [v for f in st.fr for v in f.regs.values()] + [v for c in st.mem.values() for v in c.values()]
        for v in vals:      # ids of the input table are valid
            if is_nid(v) and nid_parts(v)[1] == n and st.cmp('eq', nid_parts(v)[0], lv) is True:
                return True
        return False

    def is_insz(s, st, sz, lv):
        x = sz.single() if sz.c == 0 else None
        return isinstance(x, tuple) and x[:2] == ('term', 'insz') and st.cmp('eq', x[2], lv) is True

    def lists_resize(s, st, ins, cls, op, p, args):
        lv = s.worklevel(p)
        if op == 'clear':
            s.ck('list-clear')
            if lv != LV or any(st.g.get(('st', ('heap', X), s.soff)) is not None for X in s.order):
                s.bad(st, BAD, 'work lists are dropped while they hold a state', ins)
                return []
            return [(st, None)]
        n = s.I.as_lin(st, args[1])
        if st.cmp('eq', n, s.insz(lv)) is not True:
            s.bad(st, BAD, 'a level does not get one work list per node of the input table', ins)
            return []
        sz = s.vsize(st, p)
        if st.cmp('eq', sz, ZERO) is not True and st.cmp('eq', sz, n) is not True:
            s.bad(st, BAD, 'work lists may be dropped by a resize', ins)
            return []
        s.setsize(st, p, n)
        return [(st, None)]

    def vec_hook(s, st, f, ins, cls, op, args):
        p = args[0]
        if isinstance(p, Ptr) and s.islist(cls) and op in ('empty', 'size') and ('size', p.r, p.o) not in st.g:
            lv = s.worklevel(p)
            out = []
            for e in (0, 1):
                q = st.copy()
                if q.g.get('phase') == 'level' and lv == LV and e and s.order:
                    continue        # the tracked nodes are there
                q.g[('size', p.r, p.o)] = ZERO if e else s.insz(lv)
                if op == 'empty':
                    out.append((q, L(e)))
                else:
                    out.append((q, q.g[('size', p.r, p.o)]))
            return out
        return BuildModel.vec_hook(s, st, f, ins, cls, op, args)

    def weak_ghost(s, k):
        return BuildModel.weak_ghost(s, k) or isinstance(k, tuple) and k[0] == 'size' and isinstance(k[1], tuple) and k[1][0] == 'v' and \
            not is_stable_obj(k)

    def drop_ghost(s, st, k, v, ref):
        if k[0] == 'size':
            need = set()
            syms_of(k, need)
            return (k, v) if {x for x in need if not is_stable_sym(x)} <= ref else None
        return BuildModel.drop_ghost(s, st, k, v, ref)

    def level_of_list(s, st, p):
        if p.r == ('lst', 'cur'):
            return LV
        if isinstance(p.r, tuple) and p.r[0] == 'lst':
            return p.r[1:]
        raise AnalysisBroken('which list is %r' % (p,))

    def tracked_list(s, st):
        return st.g.get('lst') == 'T'

    def pool_level(s, st, p):
        for c, n in (('tdzdd::MemoryPool', None),):
            n = s.elemsize(c)
            if isinstance(p.r, tuple) and p.r[0] == 'v' and p.o.c % n == 0 and all(k % n == 0 for _, k in p.o.t):
                return Lin(p.o.c // n, tuple((v, k // n) for v, k in p.o.t))
        return None

    def list(s, st, ins, it, op, args):
        if op == 'alloc_front':
            p = args[0]
            w = s.level_of_list(st, p)
            s.ck('alloc')
            if w is LV or w == LV:
                s.bad(st, BAD, 'a node is scheduled at a level that is not below the current one', ins)
                return []
            lv, n = w
            pl = s.pool_level(st, args[1]) if isinstance(args[1], Ptr) else None
            if pl is None or st.cmp('eq', pl, lv) is not True:
                s.bad(st, BAD, 'a node is scheduled in the memory of another level', ins)
                return []
            if st.g.get('phase') == 'level' and st.cmp('lt', lv, LV) is not True:
                s.bad(st, BAD, 'a node is scheduled at a level that is not below the current one', ins)
                return []
            r = fresh('sn')
            st.g[('al', r)] = ((lv, n), s.I.as_lin(st, args[-1]), None, None)
            return [(st, Ptr(r))]
        if op == 'size' and not it and args[0].r == ('lst', 'cur'):
            out = []
            for k in ('none', 'only', 'many'):
                q = st.copy()
                if s.tracked_list(q):
                    if k != q.g['Tsize']:
                        continue
                elif k == 'none':
                    q.g['lsize'] = 'none'
                else:
                    q.g['lsize'] = 'any'
                n = L({'none': 0, 'only': 1}.get(k, 2))
                if k == 'many':
                    n = S(fresh('n'))
                    q.add_le(L(2).add(n, -1))
                out.append((q, n))
            return out
        return BuildModel.list(s, st, ins, it, op, args)

    def right_list(s, st, where, lv, X, b):
        t = st.g.get(('tab', X, b))
        if not (isinstance(where, tuple) and is_nid(t)):
            return False
        return st.cmp('eq', where[0], lv) is True and st.cmp('eq', where[0], lev(t)) is True and \
            st.cmp('eq', where[1], nid_parts(t)[1]) is True

    # ------------------------------------------------------------ protocol
    def begin_level(s, st):
        out = []
        for q, _ in BuildModel.begin_level(s, st):
            q.add_le(JT.scale(-1))
            q.add_le(JT.add(ONE).add(s.insz(LV), -1))
            q.add_le(s.insz(LV).scale(-1))
            for sz in ('only', 'many') if len(s.order) == 1 else ('many',):
                w = q.copy()
                if s.order:
                    w.g['Tsize'] = sz
                w.g['lst'] = 'O'
                w.g['lsize'] = 'any'
                out.append((w, None))
        return out

    def zone_keep(s, st):
        return {('term', 'insz', LV, ZERO)}

    def begin_init(s, st, args):
        BuildModel.begin_init(s, st, args)
        out = []
        for v in (ZERO, ONE, nid(S('!k'), S('!kc'))):
            q = st.copy()
            q.mem[('root',)] = {ZERO: v}
            q.g[('tab', 'root', 0)] = v
            if is_nid(v):
                q.add_le(ONE.add(S('!k'), -1))
                q.add_le(S('!kc').scale(-1))
                q.add_le(S('!kc').add(ONE).add(s.insz(S('!k')), -1))
            out.append((q, None))
        return out


def subst_n(st, n):
    return n
