"""Breadth-first builders.

One level is analysed for an arbitrary work list.  The list holds tracked nodes
(T alone, or E before T with equal states) and any number of others; what is shown
for T and E holds for every scheduled node.  Columns are counted by ghosts, so the
two passes over the list are related without enumerating it."""
import re
from ir import AnalysisBroken
from absint import *
from tabmodel import *

LIST = re.compile(r'^tdzdd::(MyList|MyListOnPool)<.*?>::(iterator::|const_iterator::)?(~?\w+|operator[*!=+]+)\((.*)\)( const)?$')
HASH = re.compile(r'^tdzdd::MyHashTable<.*>::(~?\w+)\((.*)\)( const)?$')
SPEC = re.compile(r'^vp::Opaque<\d+, \d+>::(~?\w+|operator=)\((.*)\)( const)?$')
LV = S('!i')
BAD = 'construction'


class BuildModel(TableModel):
    def __init__(s, kind, ar, mode):
        TableModel.__init__(s)
        s.kind, s.ar, s.mode = kind, ar, mode
        s.vcls = {}
        # which scheduled nodes are followed, and which branch of theirs
        s.order = {'pair': ('E', 'T'), 'hist': (), 'init': ()}.get(mode, ('T',))
        s.tb = int(mode[1:]) if mode[0] == 'n' else None

    # ------------------------------------------------------------ engine hooks
    def weak_ghost(s, k):
        return isinstance(k, tuple) and k[0] == 'al'

    def never_generalise(s, hk):
        return hk[0] == 'g' and isinstance(hk[1], tuple) and hk[1][0] in ('code', 'tab', 'cell')

    def gen_limit(s, hk, fn, ptr):
        if ptr is not None:
            return 0 if hk[0] == 'r' and isinstance(ptr.r, tuple) and ptr.r[0] == 'v' and ptr.o.t and isinstance(ptr.r[1], tuple) and \
                ptr.r[1][0] == 'v' else 6
        if hk[0] == 'r':
            return 0 if hk[2] in s.I.counters(fn) else 6
        if hk[0] == 'g' and (hk[1] in ('col1', 'col2', 'lastj') or isinstance(hk[1], tuple) and
                               (hk[1][0] in ('col', 'ent') or hk[1][0] == 'size' and s.vcls.get(hk[1][1:]) != 'char')):
            return 0
        return 6

    def drop_ghost(s, st, k, v, ref):
        """a scheduled node nobody refers to any more is final"""
        if k[1] in ref:
            return (k, v)
        if v[2] is None or v[3] is None:
            s.bad(st, BAD, 'a node is scheduled without %s' % ('its result address' if v[2] is None else 'its state'))
            return None
        key = s.final(st, v)
        return (key, 1) if key else None

    def final(s, st, v):
        """('sched', X, b) if v is the tracked child, correctly scheduled"""
        lv, n, hdr, den = v
        q = s.cell(st, hdr)
        if isinstance(q, tuple) and q[0] != 'H' and s.tb is not None and q[1] == 8 * s.tb:
            X, b = q[0], s.tb
        elif isinstance(den, tuple) and den[0] == 'ch' and den[1] in s.order:
            X, b = den[1:]
            s.bad(st, BAD, 'a scheduled child does not report to the branch it belongs to')
            return None
        else:
            return None
        if den != ('ch', X, b):
            s.bad(st, BAD, 'a child is scheduled with the state of another one')
        elif ('sched', X, b) in st.g:
            s.bad(st, BAD, 'a child is scheduled twice')
        elif not s.right_list(st, lv, st.g.get(('code', X, b)), X, b):
            s.bad(st, BAD, 'a child is scheduled at another level than get_child told')
        return ('sched', X, b)

    def moves(s, cls):
        return cls.startswith('tdzdd::Node<')

    # ------------------------------------------------------------ rows
    def rowof(s, p):
        """level of a row vector of the output table"""
        if isinstance(p.r, tuple) and p.r[0] == 'v' and p.r[1] == ('out',):
            n = s.elemsize(s.rowcls)
            if p.o.c % n == 0 and all(k % n == 0 for _, k in p.o.t):
                return Lin(p.o.c // n, tuple((v, k // n) for v, k in p.o.t))
        return None

    @property
    def rowcls(s):
        return 'tdzdd::MyVector<tdzdd::Node<%d>, unsigned long>' % s.ar

    def rowptr(s, st):
        return Ptr(('v', ('out',), ZERO, 0), LV.scale(s.elemsize(s.rowcls)))

    def cell(s, st, p):
        """('X', k): byte k of tracked node X; 'other'; 'stale'; None if not an output row; '?' if undecided"""
        r = p.r
        if not (isinstance(r, tuple) and r[0] == 'v' and len(r) == 4 and isinstance(r[1], tuple) and r[1][0] == 'v'):
            return None
        row = s.rowof(Ptr(r[1], r[2]))
        if row is None:
            return None
        if st.g.get('phase') != 'level':
            return 'other'
        if row != LV:
            if st.g.get('Hrow') is not None and row == S('!Hr'):
                if p.o == S('!Hc').scale(8 * s.ar).add(S('!Hv').scale(8)):
                    return ('H', 0)
                return 'other'
            if row.single() is not None and is_fresh(row.single()):
                return 'other'
            if st.cmp('eq', row, LV) is not True:
                return 'other' if st.cmp('eq', row, LV) is False else '?'
        if r[3] != st.g.get(('ver', r[1], r[2]), 0):
            return 'stale'
        n = 8 * s.ar
        for X in s.order:
            c = st.g.get(('col', X))
            if c is None:
                continue
            d = p.o.add(c.scale(n), -1)
            hi, lo = st.bound(d), st.bound(d.scale(-1))
            if hi is not None and lo is not None and hi == -lo and 0 <= hi < n:
                return (X, hi)
            if not (hi is not None and hi < 0 or lo is not None and -lo >= n):
                return '?'
        return 'other'

    def on_store(s, st, p, v, ty, ins):
        c = s.cell(st, p)
        if c is None:
            k = ('al', p.r)
            if k in st.g and p.o == ZERO:
                a = st.g[k]
                st.g[k] = (a[0], a[1], v if isinstance(v, Ptr) else None, a[3])
                if isinstance(v, Ptr):
                    q = s.cell(st, v)
                    if q == '?' or q == 'stale':
                        s.bad(st, BAD, 'a scheduled node is told to store its result at an address that is not a branch of the node being built', ins)
                    elif q is None and v.r == ('root',):
                        st.g[('pend', 'root', 0)] = Ptr(p.r)
                return True
            return False
        s.ck('stores')
        if c == 'stale':
            s.bad(st, BAD, 'a node is written through an address obtained before its row was resized', ins)
        elif c == '?':
            if s.dbg:
                print('STORE?', p, [(X, st.g.get(('col', X))) for X in s.order], st.g.get('col2'))
            s.bad(st, BAD, 'a branch is written outside the column reserved for the node being processed', ins)
        elif isinstance(c, tuple):
            if c[0] != 'H' and not s.inrow(st, p):
                s.bad(st, BAD, 'a branch is written beyond the end of the row', ins)
                return True
            if c[0] == 'H' or c[1] == 8 * (s.tb if s.tb is not None else -1):
                st.g[('cell',) + c] = v
        elif c == 'other' and st.g.get('cur') == 'O' and s.rowof(Ptr(p.r[1], p.r[2])) == LV:
            if not s.inrow(st, p):
                s.bad(st, BAD, 'a branch is written beyond the end of the row', ins)
        return True

    def inrow(s, st, p):
        sz = s.vsize(st, Ptr(p.r[1], p.r[2]))
        return st.cmp('le', ZERO, p.o) is True and st.cmp('lt', p.o, sz.scale(8 * s.ar)) is True

    def on_load(s, st, p, ty, ins):
        c = s.cell(st, p)
        if isinstance(c, tuple):
            v = st.g.get(('cell',) + c)
            if v is None:
                v = S(fresh('cell'))
            return v
        if c is not None:
            return S(fresh('cell'))
        return None

    dbg = False

    # ------------------------------------------------------------ states
    def elem(s, r):
        return r[1] if isinstance(r, tuple) and r[0] == 'heap' and r[1] in ('E', 'T', 'O', 'P', 'Q') else None

    def den(s, st, p):
        if ('al', p.r) in st.g:
            return st.g[('al', p.r)][3]
        return st.g.get(('st', p.r, p.o))

    def setden(s, st, p, d):
        k = ('al', p.r)
        if k in st.g:
            a = st.g[k]
            st.g[k] = (a[0], a[1], a[2], d)
        elif d is None:
            st.g.pop(('st', p.r, p.o), None)
        else:
            st.g[('st', p.r, p.o)] = d

    def fits(s, st, p, ins):
        s.ck('area')
        need = S(('dsz',))
        k = ('al', p.r)
        if k in st.g:
            have = st.g[k][1].scale(8).add(p.o, -1)
        elif isinstance(p.r, tuple) and p.r[0] == 'v':
            have = s.vsize(st, Ptr(p.r[1], p.r[2])).add(p.o, -1)
        else:
            return
        if st.cmp('le', need, have) is not True:
            s.bad(st, BAD, 'a state is constructed in an area that may be smaller than the data size of the spec', ins)

    def is_one(s, st, p):
        o = st.g.get('one')
        return o is not None and p.r == o

    def spec(s, st, ins, op, args):
        I = s.I
        p = args[1] if len(args) > 1 else None
        if op == 'datasize':
            v = S(('dsz',))
            st.add_le(v.scale(-1))
            return [(st, v)]
        if op in ('Opaque', '~Opaque', 'operator='):
            return [(st, None)]
        s.site(st, ins, op)
        if op == 'get_copy':
            to, fr = args[1], args[2]
            s.ck('copy')
            if s.den(st, to) is not None:
                s.bad(st, BAD, 'get_copy overwrites a state that was not destructed', ins)
                return []
            d = s.den(st, fr)
            if d is None:
                s.bad(st, BAD, 'get_copy reads a state that does not exist', ins)
                return []
            s.fits(st, to, ins)
            if st.dead:
                return []
            if s.is_one(st, to):
                if not (isinstance(d, tuple) and d[0] == 'ch'):
                    s.bad(st, BAD, 'the 1-terminal candidate is not the accepted state', ins)
                    return []
                if st.g.get('onepending') is None:
                    s.accept(st, d, 'first')
                    e = s.ones_empty(st)
                    if e is not True:
                        s.bad(st, BAD, 'the 1-terminal state is replaced while branches refer to it', ins)
                        return []
                else:
                    st.g.pop('onepending')
                d = ('one',)
            s.setden(st, to, d)
            return [(st, None)]
        if op == 'destruct':
            s.ck('destruct')
            if s.den(st, p) is None:
                s.bad(st, BAD, 'destruct of a state that does not exist', ins)
                return []
            d = s.den(st, p)
            s.setden(st, p, None)
            if isinstance(d, tuple) and d[:2] == ('ch', 'O'):
                s.forget_o(st)
            return [(st, None)]
        if op == 'get_root':
            if s.den(st, p) is not None:
                s.bad(st, BAD, 'get_root on a state that was not destructed', ins)
                return []
            s.fits(st, p, ins)
            if st.dead:
                return []
            s.setden(st, p, ('ch', 'root', 0))
            v = S('!root')
            st.add_le(L(-1).add(v, -1))
            st.g[('code', 'root', 0)] = v
            return [(st, v)]
        if op == 'get_child':
            return s.child(st, ins, p, I.as_lin(st, args[2]), I.as_lin(st, args[3]))
        if op == 'merge_states':
            return s.merge(st, ins, args[1], args[2])
        if op == 'destructLevel':
            s.ck('level-end')
            if I.as_lin(st, args[1]) != LV:
                s.bad(st, BAD, 'destructLevel is called for another level', ins)
                return []
            for X in s.order:
                if st.g.get(('st', ('heap', X), s.soff)) is not None:
                    s.bad(st, BAD, 'destructLevel is called while a state of the level exists', ins)
                    return []
            if st.g.get('lvend'):
                s.bad(st, BAD, 'destructLevel is called twice', ins)
            st.g['lvend'] = 1
            return [(st, None)]
        if op in ('hash_code', 'equal_to'):
            return [(st, S(fresh(op)))]
        raise AnalysisBroken('spec operation ' + op)

    soff = L(8)
    widen_after = 1
    thresholds = (-1, 0, 1)

    def forget_o(s, st):
        for k in [k for k in st.g if isinstance(k, tuple) and k[:2] in (('code', 'O'), ('tab', 'O'))]:
            del st.g[k]

    def child(s, st, ins, p, lv, b):
        s.ck('child')
        d = s.den(st, p)
        if d is None:
            s.bad(st, BAD, 'get_child on a state that does not exist', ins)
            return []
        # pairs: the second pass matters only for fates and lifetimes, children are the n modes' business
        v = S(fresh('code')) if s.mode != 'pair' else ZERO
        if s.mode != 'pair':
            st.add_le(L(-1).add(v, -1))
            st.add_le(v.add(lv, -1).add(ONE))
        if isinstance(d, tuple) and d[0] == 'ch':
            # descending further: only 0-branches, from the level the state is at
            X, k = d[1], d[2]
            c = st.g.get(('code', X, k))
            if not s.may_step(st, X, k, 'spec'):
                s.bad(st, BAD, 'the spec is advanced past a level it should stop at', ins)
                return []
            if X != 'O' and (st.cmp('eq', lv, c) is not True or b != ZERO):
                s.bad(st, BAD, 'get_child is not called with the level of the state and branch 0 below a skipped level', ins)
                return []
            if X != 'O':
                st.g[('code', X, k)] = v
            return [(st, v)]
        if lv != LV:
            s.bad(st, BAD, 'get_child is called with another level than that of the node', ins)
            return []
        if not b.isconst() or not 0 <= b.c < s.ar:
            s.bad(st, BAD, 'get_child is called with a branch that does not exist', ins)
            return []
        X = d[0]
        k = b.c
        if X not in s.order or k != s.tb:
            X, k = 'O', 0
        elif ('code', X, k) in st.g:
            s.bad(st, BAD, 'a child is computed twice', ins)
            return []
        s.setden(st, p, ('ch', X, k))
        if X == 'O':
            return [(st, v)]
        out = []
        for kind in ('zero', 'one', 'node') if s.mode != 'pair' else ('zero',):
            q = st.copy()
            w = {'zero': ZERO, 'one': L(-1)}.get(kind, v)
            if kind == 'node' and q.add_le(ONE.add(v, -1)) is False:
                continue
            q.g[('code', X, k)] = w
            q.g['act'] = k
            if kind == 'node':
                q.g[('knd', X, k)] = 1
            out.append((q, w))
        return out

    def may_step(s, st, X, k, who):
        return s.kind == 'sub'

    # ------------------------------------------------------------ merging
    def merge(s, st, ins, a, b):
        s.ck('merge')
        for q in (a, b):
            if s.den(st, q) is None:
                s.bad(st, BAD, 'merge_states on a state that does not exist', ins)
                return []
        out = []
        if s.is_one(st, a) or s.is_one(st, b):
            if s.is_one(st, b):
                s.bad(st, BAD, 'merge_states is called with the accepted states in the wrong order', ins)
                return []
            d = s.den(st, b)
            if not (isinstance(d, tuple) and d[0] == 'ch'):
                s.bad(st, BAD, 'the state merged into the 1-terminal is not an accepted one', ins)
                return []
            for r in (0, 1, 2):
                q = st.copy()
                if r == 0:
                    s.accept(q, d, 'm0')
                elif r == 1:
                    for k in list(q.g):
                        if isinstance(k, tuple) and k[0] == 'acc':
                            q.g[k] = 0
                    if 'Hacc' in q.g:
                        q.g['Hacc'] = 0
                    s.accept(q, d, 'm1')
                    q.g['onepending'] = 1
                else:
                    s.accept(q, d, 'm2')
                out.append((q, L(r)))
            return out
        ea, eb = s.elem(a.r), s.elem(b.r)
        if ea is None or eb is None:
            s.bad(st, BAD, 'merge_states is called on something that is not a scheduled node', ins)
            return []
        if 'Q' in (ea, eb) or ea == eb or not (ea in s.order or ea == 'P' or eb in s.order or eb == 'P'):
            if ea == eb:
                s.bad(st, BAD, 'a state is merged with itself', ins)
                return []
            for r in (0, 1, 2):
                out.append((st.copy(), L(r)))
            return out
        rep = st.g.get('rep')
        cur = st.g.get('cur')
        if {ea, eb} != {rep, cur}:
            s.bad(st, BAD, 'merge_states is not called on the representative and the node found equal to it', ins)
            return []
        for r in (0, 1, 2):
            q = st.copy()
            keep, gone = (ea, eb) if r in (0, 2) else (eb, ea)
            q.g['rep'] = keep
            if gone in s.order:
                if r == 0:
                    h = q.mem.get(('heap', keep), {}).get(s.hoff)
                    q.g[('fate', gone)] = ('same', keep, h)
                else:
                    q.g[('fate', gone)] = ('killed',)
            out.append((q, L(r)))
        return out

    hoff = ZERO

    def accept(s, st, d, ev):
        if d[1] == 'O':
            return
        st.g[('acc',) + d[1:]] = 0 if ev == 'm2' else 1

    # ------------------------------------------------------------ 1-terminal sources
    def ones(s, st):
        return st.g['onesrc']

    def ones_empty(s, st):
        if any(isinstance(k, tuple) and k[0] == 'ent' for k in st.g):
            return False
        return st.cmp('eq', s.vsize(st, s.ones(st)), ZERO)

    def nb(s, st, key):
        """object describing an entry"""
        r = ('heap', 'nb', key)
        c = st.mem.setdefault(r, {})
        c.clear()
        if key == 'O':
            # entries of nodes not tracked; recorded at this level or above
            v = S(fresh('nbrow'))
            st.add_le(LV.add(v, -1))
            c[ZERO], c[L(8)], c[L(12)] = S(fresh('nbcol')), v, S(fresh('nbval'))
        elif key == 'H':
            c[ZERO], c[L(8)], c[L(12)] = S('!Hc'), S('!Hr'), S('!Hv')
        else:
            c[ZERO], c[L(8)], c[L(12)] = st.g[('col', key[0])], LV, L(key[1])
        return Ptr(r)

    def entry_at(s, st, n):
        """fork on which entry sits at index n -> [(state, key)]"""
        todo = [st]
        out = []
        for k in sorted((k for k in st.g if isinstance(k, tuple) and k[0] == 'ent'), key=skey):
            nxt = []
            for q in todo:
                for w, eq in fork(q, Cmp('eq', q.g[k], n)):
                    if eq:
                        out.append((w, k[1]))
                    else:
                        nxt.append(w)
            todo = nxt
        return out + [(q, 'O') for q in todo]

    def vec_hook(s, st, f, ins, cls, op, args):
        p = args[0]
        if not isinstance(p, Ptr):
            return None
        if op == 'MyVector':
            s.vcls[(p.r, p.o)] = cls
            if cls == 'tdzdd::NodeBranchId' and 'onesrc' not in st.g:
                st.g['onesrc'] = p
            if cls == 'char' and 'one' not in st.g:
                st.g['one'] = ('v', p.r, p.o, 0)
            return None
        if cls == 'tdzdd::NodeBranchId':
            return s.ones_op(st, ins, op, args)
        if op in ('resize', 'clear') and s.rowof(p) is not None and st.g.get('phase') == 'level':
            if s.rowof(p) == LV and op == 'resize':
                s.leave(st, ins)
                if st.dead:
                    return []
                st.g['pass'] = 2
                for r in ('P', 'Q', 'slotc', 'sloto', 'srcO', 'srcQ'):
                    st.mem.pop(('heap', r), None)
                    st.g.pop(('st', ('heap', r), s.soff), None)
                st.g.pop('rep', None)
                st.g['cur'] = None
                st.g['vis'] = frozenset()
                if s.kind == 'sub':
                    st.g['lastj'] = L(-1)
        if op in ('operator[]', 'at') and s.islist(cls):
            return s.list_access(st, ins, cls, p, s.I.as_lin(st, args[1]))
        if op in ('resize', 'clear') and s.islist(cls) and st.g.get('phase') == 'level':
            return s.lists_resize(st, ins, cls, op, p, args)
        if op == '~MyVector' and st.g.get(('st', ('v', p.r, p.o, 0), ZERO)) is not None:
            s.bad(st, BAD, 'a state buffer is released while it holds a state', ins)
            return []
        return None

    def islist(s, cls):
        return cls.startswith(('tdzdd::MyList<', 'tdzdd::MyListOnPool<'))

    def lists_resize(s, st, ins, cls, op, p, args):
        return None

    def list_access(s, st, ins, cls, p, n):
        return None

    def ones_op(s, st, ins, op, args):
        p = args[0]
        n = s.vsize(st, p)
        ent = [k for k in st.g if isinstance(k, tuple) and k[0] == 'ent']
        if op == 'push_back':
            s.ck('ones')
            a = args[1]
            row = s.I.load(st, Ptr(a.r, a.o.add(L(8))), ('i', 32), ins)
            col = s.I.load(st, Ptr(a.r, a.o), I64, ins)
            val = s.I.load(st, Ptr(a.r, a.o.add(L(12))), ('i', 32), ins)
            X = st.g.get('cur')
            if X in s.order:
                c = st.g.get(('col', X))
                if c is not None and row == LV and st.cmp('eq', col, c) is True and val.isconst():
                    if ('ent', (X, val.c)) in st.g:
                        s.bad(st, BAD, 'a branch is recorded twice as a 1-terminal branch', ins)
                        return []
                    if val.c == s.tb:
                        st.g[('ent', (X, val.c))] = n
                else:
                    s.bad(st, BAD, 'a 1-terminal branch is recorded under the wrong node or branch', ins)
                    return []
            s.setsize(st, p, n.add(ONE))
            return [(st, None)]
        if op == 'empty':
            e = s.ones_empty(st)
            if e is not None:
                return [(st, ONE if e else ZERO)]
            out = []
            for q, t in fork(st, Cmp('eq', n, ZERO)):
                out.append((q, ONE if t else ZERO))
            return out
        if op == 'clear':
            for k in ent:
                del st.g[k]
            s.setsize(st, p, ZERO)
            return [(st, None)]
        if op in ('back', 'operator[]', 'pop_back'):
            ix = n.add(ONE, -1) if op != 'operator[]' else s.I.as_lin(st, args[1])
            out = []
            if st.cmp('lt', ix, ZERO) is True:
                s.bad(st, BAD, 'the list of 1-terminal branches is read while empty', ins)
                return []
            for q, key in s.entry_at(st, ix):
                if op == 'pop_back':
                    q.g.pop(('ent', key), None)
                    s.setsize(q, p, s.vsize(q, p).add(ONE, -1))
                    for k in list(q.g):
                        if isinstance(k, tuple) and k[0] == 'ent' and q.add_le(q.g[k].add(s.vsize(q, p), -1).add(ONE)) is False:
                            q.dead = True
                    out.append((q, None))
                else:
                    out.append((q, s.nb(q, key)))
            return [(q, v) for q, v in out if not q.dead]
        return None

    def before_canon(s, st):
        ref = set()
        for f in st.fr:
            for v in f.regs.values():
                syms_of(v, ref)
                if isinstance(v, Ptr):
                    ref.add(v.r)
        for r in [r for r in st.mem if isinstance(r, tuple) and r[:2] == ('heap', 'nb') and r not in ref]:
            del st.mem[r]

    # ------------------------------------------------------------ the work list
    def load_elem(s, st, X):
        """bring element X under the cursor"""
        g = st.g
        H = ('heap', X)
        if X == 'O':
            for k in [k for k in g if isinstance(k, tuple) and (k[:2] == ('code', 'O') or k[:2] == ('tab', 'O'))]:
                del g[k]
            st.mem.pop(H, None)
        g['cur'] = X
        out = []
        if g['pass'] == 1:
            if X == 'O':
                st.mem[H] = {s.srcoff: Ptr(('heap', 'srcO'))}
                g[('st', H, s.soff)] = ('O',)
            return [st]
        if X in s.order:
            g['vis'] = g['vis'] | {X}
            if g.get('desync'):
                return [st]
            h = st.mem.get(H, {}).get(s.hoff)
            g['occ'] = 0 if h == ONE else 1
            c = g.get(('col', X))
            if g['occ'] and c is not None:
                return [q for q, t in fork(st, Cmp('eq', g['col2'], c)) if t]
            return [st]
        for h, occ, lv in ((ONE, 0, g.get('Olv1', 1)), (ZERO, 1, g.get('Olvn', 1)), (nid(LV, S(fresh('ocol'))), 1, g.get('Olvn', 1))):
            q = st.copy()
            q.mem[H] = {s.hoff: h}
            if s.srcoff != s.hoff:
                q.mem[H][s.srcoff] = Ptr(('heap', 'srcO'))
            if lv:
                q.g[('st', H, s.soff)] = ('O',)
            q.g['occ'] = occ
            ok = True
            if occ:
                for X2 in s.order:
                    c = q.g.get(('col', X2))
                    if c is not None and X2 not in q.g['vis'] and not q.g.get('desync'):
                        ok = ok and q.add_le(q.g['col2'].add(ONE).add(c, -1)) is not False
                ok = ok and q.add_le(q.g['col2'].add(ONE).add(q.g['col1'], -1)) is not False
            if ok:
                out.append(q)
        return out

    srcoff = ZERO

    def leave(s, st, ins):
        """the cursor moves on"""
        g = st.g
        X = g.get('cur')
        if X is None or X == 'end':
            return
        s.forget_o(st)
        for r in ('Q', 'sloto', 'srcO', 'srcQ'):
            st.mem.pop(('heap', r), None)
            st.g.pop(('st', ('heap', r), s.soff), None)
        H = ('heap', X)
        h = st.mem.get(H, {}).get(s.hoff)
        if g['pass'] == 1:
            s.ck('elements')
            if isinstance(h, Ptr) or h is None:
                s.bad(st, BAD, 'a scheduled node is passed without deciding where it goes', ins)
                return
            occ = h != ONE
            if X in s.order:
                g['vis'] = g['vis'] | {X}
                if occ:
                    c = S('!c' + X)
                    nxt = is_nid(h) and nid_parts(h)[0] == LV and st.cmp('eq', nid_parts(h)[1], g['col1']) is True
                    if h.isconst() or nxt:
                        st.add_le(c.add(g['col1'], -1))
                        st.add_le(g['col1'].add(c, -1))
                        g = st.g
                        h = st.mem[H][s.hoff]
                        g[('col', X)] = c
                    if nxt:
                        for r in (X, 'src' + X):
                            for o, v in list(st.mem.get(('heap', r), {}).items()):
                                if v == h:
                                    st.mem[('heap', r)][o] = nid(LV, c)
                    elif not h.isconst():
                        s.bad(st, BAD, 'a new node does not get the next free column of its level', ins)
                        return
            if occ:
                g['col1'] = g['col1'].add(ONE)
            rep = g.get('rep')
            if rep is not None:
                sc = st.mem.get(('heap', 'slotc'), {}).get(ZERO)
                if sc != Ptr(('heap', rep)):
                    s.bad(st, BAD, 'after a merge the table refers to the state that was given up', ins)
                    return
                if rep == 'O':
                    g['rep'] = 'P'
                    st.mem[('heap', 'slotc')] = {ZERO: Ptr(('heap', 'P'))}
                    st.mem[('heap', 'P')] = {s.hoff: nid(LV, S(fresh('pcol'))) if is_nid(h) else h}
                    g[('st', ('heap', 'P'), s.soff)] = ('P',)
            if X == 'O':
                g['Olvn' if occ else 'Olv1'] = 1 if g.get(('st', H, s.soff)) is not None else 0
                g.pop(('st', H, s.soff), None)
                st.mem.pop(H, None)
        else:
            if X == 'O':
                if g.get(('st', H, s.soff)) is not None:
                    s.bad(st, BAD, 'the state of a scheduled node is never destructed', ins)
                    return
                st.mem.pop(H, None)
            if g.get('occ'):
                g['col2'] = g['col2'].add(ONE)
            g['occ'] = 0
        g['cur'] = None
        g.pop('act', None)

    def advance(s, st, ins):
        s.leave(st, ins)
        if st.dead:
            return []
        out = []
        left = [X for X in s.order if X not in st.g['vis']] if s.tracked_list(st) else []
        if left:
            out += s.load_elem(st.copy(), left[0])
        else:
            q = st.copy()
            q.g['cur'] = 'end'
            out.append(q)
        if st.g.get('lsize') not in ('only', 'none'):
            out += s.load_elem(st.copy(), 'O')
        return out

    def tracked_list(s, st):
        return True

    def curlist(s, st, p):
        """is this the list of the level being built?"""
        n = s.elemsize(s.listcls)
        if p.o.c % n or any(k % n for _, k in p.o.t):
            return None
        lv = Lin(p.o.c // n, tuple((v, k // n) for v, k in p.o.t))
        return lv

    @property
    def listcls(s):
        if not hasattr(s, '_lc'):
            s._lc = [c for c in s.vcls.values() if s.islist(c)][0]
        return s._lc

    def list(s, st, ins, it, op, args):
        g = st.g
        p = args[0]
        if it:
            if op == 'iterator':
                return [(st, None)]
            if op == 'operator*':
                X = g.get('cur')
                if X in (None, 'end'):
                    s.bad(st, BAD, 'an iterator is dereferenced past the end', ins)
                    return []
                return [(st, Ptr(('heap', X)))]
            if op == 'operator++':
                return [(q, p) for q in s.advance(st, ins)]
            if op in ('operator!=', 'operator=='):
                e = g.get('cur') == 'end'
                return [(st, ONE if e == (op == 'operator==') else ZERO)]
            raise AnalysisBroken('list iterator ' + op)
        if op in ('MyList', '~MyList', 'MyListOnPool', '~MyListOnPool'):
            return [(st, None)]
        lv = s.level_of_list(st, p)
        if op == 'alloc_front':
            s.ck('alloc')
            r = fresh('sn')
            n = s.I.as_lin(st, args[-1])
            g[('al', r)] = (lv if is_stable_obj(lv) or s.known_code(st, lv) else lv, n, None, None)
            if lv == LV.add(ONE, -1):
                g['front'] = Ptr(r)
            if st.cmp('lt', lv, LV) is not True and g.get('phase') == 'level':
                s.bad(st, BAD, 'a node is scheduled at a level that is not below the current one', ins)
                return []
            return [(st, Ptr(r))]
        if g.get('phase') == 'level' and lv == LV:
            if op == 'size':
                return s.list_size(st)
            if op == 'begin':
                g['cur'] = None
                g['vis'] = frozenset()
                return [(q, Ptr(('it', 'cur'))) for q in s.advance(st, ins)]
            if op == 'end':
                return [(st, Ptr(('it', 'end')))]
            if op in ('empty', 'front'):
                qs = [st] if g.get('cur') is not None else s.advance(st, ins)
                if op == 'empty':
                    return [(q, ONE if q.g['cur'] == 'end' else ZERO) for q in qs]
                out = []
                for q in qs:
                    if q.g['cur'] == 'end':
                        continue
                    out.append((q, Ptr(('heap', q.g['cur']))))
                return out
            if op == 'pop_front':
                if g.get('cur') in (None, 'end'):
                    s.bad(st, BAD, 'an element is removed from an empty list', ins)
                    return []
                return [(q, None) for q in s.advance(st, ins)]
            if op == 'clear':
                return [(st, None)]
        elif op == 'pop_front':
            fr = g.get('front') if lv == LV.add(ONE, -1) else None
            a = g.get(('al', fr.r)) if fr is not None else None
            if a is None or a[3] is not None or a[2] is not None:
                s.bad(st, BAD, 'a node scheduled for a lower level is dropped', ins)
                return []
            del g[('al', fr.r)]
            del g['front']
            return [(st, None)]
        elif op == 'empty':
            return [(st, S(fresh('em')))]
        raise AnalysisBroken('list operation %s' % op)

    def list_size(s, st):
        n = S(fresh('n'))
        st.add_le(L(len(s.order)).add(n, -1))
        return [(st, n)]

    def known_code(s, st, lv):
        return any(v == lv for k, v in st.g.items() if isinstance(k, tuple) and k[0] == 'code')

    def level_of_list(s, st, p):
        lv = s.curlist(st, p)
        if lv is None:
            raise AnalysisBroken('which list is %r' % (p,))
        return lv

    # ------------------------------------------------------------ unique table
    def uniq(s, st, ins, op, args):
        g = st.g
        if op == 'MyHashTable':
            for h in args[2:4]:
                if isinstance(h, Ptr):
                    s.ck('hasher')
                    lv = s.I.load(st, Ptr(h.r, h.o.add(L(8))), ('i', 32), ins)
                    if st.cmp('eq', lv, LV) is not True:
                        s.bad(st, BAD, 'states are hashed or compared for another level', ins)
                        return []
            g['rep'] = None
            return [(st, None)]
        if op == '~MyHashTable':
            return [(st, None)]
        if op == 'add':
            s.ck('unique')
            p = s.I.load(st, args[1], ('ptr',), ins)
            X = s.elem(p.r) if isinstance(p, Ptr) else None
            if X is None or X != g.get('cur'):
                s.bad(st, BAD, 'the unique table is given something other than the node being processed', ins)
                return []
            if s.den(st, Ptr(p.r, s.soff)) is None:
                s.bad(st, BAD, 'the unique table is given a node without a state', ins)
                return []
            out = []
            if X in s.order:
                if X == s.order[0]:
                    g['rep'] = X
                    st.mem[('heap', 'slotc')] = {ZERO: p}
                return [(st, Ptr(('heap', 'slotc')))]
            q = st.copy()
            q.mem[('heap', 'sloto')] = {ZERO: p}
            out.append((q, Ptr(('heap', 'sloto'))))
            q = st.copy()
            q.mem[('heap', 'sloto')] = {ZERO: Ptr(('heap', 'Q'))}
            q.mem[('heap', 'Q')] = {s.hoff: nid(LV, S(fresh('qcol')))}
            q.g[('st', ('heap', 'Q'), s.soff)] = ('Q',)
            out.append((q, Ptr(('heap', 'sloto'))))
            if g.get('rep') is not None and s.tracked_list(st):
                out.append((st.copy(), Ptr(('heap', 'slotc'))))
            return out
        raise AnalysisBroken('unique table operation ' + op)

    # ------------------------------------------------------------ calls
    def other(s, st, f, ins, name, dem, args):
        m = SPEC.match(dem)
        if m:
            return s.spec(st, ins, m.group(1), args)
        m = LIST.match(dem)
        if m and m.group(3) in ('size', 'begin', 'end', 'empty', 'front', 'pop_front', 'alloc_front', 'clear', 'MyList',
                                '~MyList', 'MyListOnPool', '~MyListOnPool', 'iterator') or m and m.group(2):
            return s.list(st, ins, m.group(2), m.group(3), args)
        m = HASH.match(dem)
        if m:
            return s.uniq(st, ins, m.group(1), args)
        if '::privateEntity(' in dem:
            return [(st, Ptr(('out',)))]
        if dem.startswith('tdzdd::NodeTableHandler') and ('operator->' in dem or 'operator*' in dem):
            return [(st, Ptr(('in',)))]
        if dem.startswith('tdzdd::DdSweeper'):
            if '::update(' in dem:
                s.ck('sweep')
                cur, low = s.I.as_lin(st, args[1]), s.I.as_lin(st, args[2])
                if cur != LV:
                    s.bad(st, BAD, 'the sweeper is told about another level', ins)
                    return []
                for X in s.order:
                    c = st.g.get(('code', X, s.tb))
                    if c is not None and s.outcome(st, X, s.tb)[0] == 'node' and st.cmp('le', low, s.outcome(st, X, s.tb)[1]) is not True:
                        s.bad(st, BAD, 'the sweeper is told that edges are complete although a lower child is scheduled', ins)
                        return []
                st.g['swept'] = 1
                return [(st, None)]
            if '::setRoot(' in dem:
                st.g['rootset'] = args[1]
                return [(st, None)]
        if name == '@vp_level':
            return s.begin_level(st)
        if name == '@vp_level_built':
            s.built(st, ins)
            return [(st, None)] if not st.dead else []
        if name == '@vp_init':
            return s.begin_init(st, args)
        if name == '@vp_init_done':
            out = []
            c = st.g.get(('code', 'root', 0))
            if c is None:
                s.bad(st, BAD, 'get_root is never called', ins)
                return []
            for q, z in fork(st, Cmp('eq', c, ZERO)):
                for w, ng in fork(q, Cmp('lt', q.g[('code', 'root', 0)], ZERO)):
                    if not z and not ng:
                        w.add_le(ONE.add(w.g[('code', 'root', 0)], -1))
                    s.inited(w, ins, args)
                    if not w.dead:
                        out.append((w, None))
            return out
        if name == '@vp_gone':
            if st.g.get(('st', st.g['one'], ZERO)) is not None:
                s.bad(st, BAD, 'the builder ends without destructing the 1-terminal state', ins)
            return [(st, None)] if not st.dead else []
        return None

    # ------------------------------------------------------------ protocol
    def any_one(s, st):
        """1-terminal bookkeeping in an arbitrary consistent state"""
        p = s.ones(st)
        out = []
        one = ('st', st.g['one'], ZERO)
        q = st.copy()
        s.setsize(q, p, ZERO)
        if s.mode != 'hist':
            out.append(q)
        for h in (1 if s.mode == 'hist' else 0,):
            q = st.copy()
            n = S('!ones')
            s.setsize(q, p, n)
            q.add_le(ONE.add(n, -1))
            q.g[one] = ('one',)
            if h:
                q.g['Hrow'] = 1
                q.add_le(S('!Hp').scale(-1))
                q.add_le(S('!Hp').add(ONE).add(n, -1))
                q.add_le(LV.add(ONE).add(S('!Hr'), -1))
                q.g[('ent', 'H')] = S('!Hp')
                q.g[('cell', 'H', 0)] = ONE
                q.g['Hacc'] = 1
            out.append(q)
        return out

    def havoc(s, st):
        for k in [k for k in st.g if isinstance(k, tuple) and k[0] == 'size' and s.vcls.get((k[1], k[2])) != 'char']:
            del st.g[k]

    def begin_level(s, st):
        s.havoc(st)
        g = st.g
        g['phase'] = 'level'
        g['pass'] = 1
        g['cur'] = None
        g['vis'] = frozenset()
        g['rep'] = None
        g['Olv1'] = g['Olvn'] = 1
        if s.kind == 'sub':
            g['lastj'] = L(-1)
        st.add_le(ONE.add(LV, -1))
        if s.kind == 'sub':
            s.setsize(st, s.rowptr(st), ZERO)
        else:
            s.setsize(st, s.rowptr(st), S('!len'))
            st.add_le(S('!len').scale(-1))
        g['col1'] = g['col2'] = s.vsize(st, s.rowptr(st))
        for X in s.order:
            st.mem[('heap', X)] = {s.srcoff: Ptr(('heap', 'src' + X))}
            g[('st', ('heap', X), s.soff)] = (X,)
        s.setup(st)
        return [(q, None) for q in s.any_one(st)]

    def setup(s, st):
        pass

    def begin_init(s, st, args):
        s.havoc(st)
        st.g['phase'] = 'init'
        st.g['rootp'] = args[0]
        s.setsize(st, s.ones(st), ZERO)
        s.setsize(st, Ptr(('out',), ZERO), S('!rows'))
        st.add_le(S('!rows').scale(-1))
        return [(st, None)]

    def built(s, st, ins):
        g = st.g
        s.ck('levels')
        if not g.get('swept') or not g.get('lvend'):
            s.bad(st, BAD, 'the end of the level is not announced to the spec and the sweeper', ins)
            return
        sz = s.vsize(st, s.rowptr(st))
        if st.cmp('eq', sz, g['col1']) is not True:
            s.bad(st, BAD, 'the number of nodes stored at the level differs from the number created', ins)
            return
        if g.get('front') is not None and g.get(('al', g['front'].r)) is not None:
            a = g[('al', g['front'].r)]
            if a[3] is None:
                s.bad(st, BAD, 'an empty node stays scheduled', ins)
                return
        for X in s.order:
            s.fate(st, X, ins)
            if st.dead:
                return
        if g.get('Hrow'):
            acc = g['Hacc']
            if g.get(('cell', 'H', 0)) != L(acc) or (('ent', 'H') in g) != bool(acc):
                s.bad(st, BAD, 'a 1-terminal branch of a higher level is not kept in step with the merged 1-terminal state', ins)

    def ev(s, st, v):
        """a stored truth value, decided in this state"""
        if isinstance(v, Lin) and v.single() is not None and isinstance(v.single(), tuple) and v.single()[0] == 'bool':
            t = st.truth(v.single()[1])
            if t is not None:
                return L(1 if t else 0).add(L(v.c))
        return v

    def zero_node(s, st, X):
        return s.tb is None or st.g.get(('cell', X, 8 * s.tb)) == ZERO

    def fate(s, st, X, ins):
        g = st.g
        s.ck('fates')
        if g.get(('st', ('heap', X), s.soff)) is not None:
            s.bad(st, BAD, 'the state of a scheduled node is never destructed', ins)
            return
        v = st.mem.get(('heap', 'src' + X), {}).get(ZERO)
        if v is None:
            s.bad(st, BAD, 'the parent branch of a scheduled node is never set', ins)
            return
        fate = g.get(('fate', X))
        col = g.get(('col', X))
        if fate is not None and fate[0] == 'killed':
            if v == ZERO:
                return
            if is_nid(v) and nid_parts(v)[0] == LV and col is not None and st.cmp('eq', nid_parts(v)[1], col) is True and s.zero_node(st, X):
                return
            s.bad(st, BAD, 'a state rejected by merge_states does not lead to the 0-terminal', ins)
            return
        if fate is not None:
            if s.same_id(st, v, fate[2]):
                return
            s.bad(st, BAD, 'a state merged into another one does not share its node', ins)
            return
        if not is_nid(v) or nid_parts(v)[0] != LV or col is None or st.cmp('eq', nid_parts(v)[1], col) is not True:
            s.bad(st, BAD, 'the parent branch is not set to the node created for the state', ins)
            return
        if s.tb is not None:
            s.branch(st, X, s.tb, ins)

    def same_id(s, st, a, b):
        if isinstance(a, Lin) and a == b:
            return is_nid(a) or a == ZERO
        return is_nid(a) and is_nid(b) and nid_parts(a)[0] == nid_parts(b)[0] and st.cmp('eq', nid_parts(a)[1], nid_parts(b)[1]) is True

    def outcome(s, st, X, b):
        """('zero'|'one'|'node', level) for branch b of X, None if undecided"""
        c = st.g.get(('code', X, b))
        if c is None:
            return 'uncomputed', None
        if ('knd', X, b) in st.g:
            return 'node', c
        if st.cmp('eq', c, ZERO) is True:
            return 'zero', None
        if st.cmp('lt', c, ZERO) is True:
            return 'one', None
        if st.cmp('lt', ZERO, c) is True:
            return 'node', c
        return None, None

    def branch(s, st, X, b, ins):
        g = st.g
        s.ck('branches')
        o, lv = s.outcome(st, X, b)
        v = g.get(('cell', X, 8 * b))
        if o == 'uncomputed':
            s.bad(st, BAD, 'a child of a node is never computed', ins)
        elif o is None:
            s.bad(st, BAD, 'a branch is decided without looking at the result of get_child', ins)
        elif o == 'zero':
            if v != ZERO:
                s.bad(st, BAD, 'a rejected child does not become the 0-terminal', ins)
        elif o == 'one':
            if s.noone:
                if v != ONE:
                    s.bad(st, BAD, 'an accepted child does not become the 1-terminal', ins)
                return
            ev = g.get(('acc', X, b))
            if ev is None:
                s.bad(st, BAD, 'an accepted child is neither recorded as nor merged with the 1-terminal state', ins)
            elif v != L(g[('acc', X, b)]):
                s.bad(st, BAD, 'an accepted child does not follow the verdict of merge_states at the 1-terminal', ins)
            elif (('ent', (X, b)) in g) != bool(g[('acc', X, b)]):
                s.bad(st, BAD, 'the 1-terminal branches recorded differ from those in the table', ins)
        else:
            s.pending(st, X, b, lv, ('ch', X, b), ins)

    noone = False

    def pending(s, st, X, b, lv, den, ins):
        g = st.g
        if X != 'root':
            if ('sched', X, b) in g:
                return
            for k, v in g.items():
                if isinstance(k, tuple) and k[0] == 'al' and isinstance(v[2], Ptr) and v[3] is not None and s.final(st, v) == ('sched', X, b):
                    return
            if not st.dead:
                s.bad(st, BAD, 'a child is not scheduled', ins)
            return
        r = g.get(('pend', X, 8 * b))
        a = g.get(('al', r.r)) if r is not None else None
        if a is None:
            s.bad(st, BAD, 'the root is not scheduled', ins)
        elif a[2] != g['rootp'] or a[3] != den:
            s.bad(st, BAD, 'the root is scheduled with another state or result address', ins)
        elif not s.right_list(st, a[0], lv, X, b):
            s.bad(st, BAD, 'the root is scheduled at another level than get_root told', ins)

    def right_list(s, st, where, lv, X, b):
        return isinstance(where, Lin) and st.cmp('eq', where, lv) is True

    def inited(s, st, ins, args):
        g = st.g
        s.ck('init')
        root, n = args[0], s.I.as_lin(st, args[1])
        if g.get('rootset') != root:
            s.bad(st, BAD, 'the sweeper does not know where the root is stored', ins)
            return
        if s.ones_empty(st) is not True or g.get(('st', g['one'], ZERO)) is not None:
            s.bad(st, BAD, 'a builder that is initialised again keeps 1-terminal branches of the previous run', ins)
            return
        v = s.ev(st, st.mem.get(('root',), {}).get(ZERO))
        o, lv = s.outcome(st, 'root', 0)
        if o in ('zero', 'one'):
            if v != (ZERO if o == 'zero' else ONE):
                s.bad(st, BAD, 'a constant spec does not give the corresponding terminal as root', ins)
            elif st.cmp('eq', n, ZERO) is not True:
                s.bad(st, BAD, 'the number of levels of a constant diagram is not 0', ins)
        elif o == 'node':
            if st.cmp('eq', n, lv) is not True:
                s.bad(st, BAD, 'the level returned is not the root level', ins)
                return
            s.pending(st, 'root', 0, lv, ('ch', 'root', 0), ins)
            if st.dead:
                return
            s.tables_ready(st, lv, ins)
        else:
            s.bad(st, BAD, 'the root is decided without looking at the result of get_root', ins)

    def tables_ready(s, st, lv, ins):
        need = lv.add(ONE)
        ok = 0
        for k, v in list(st.g.items()):
            if isinstance(k, tuple) and k[0] == 'size' and s.islist(s.vcls.get((k[1], k[2]), '')):
                if st.cmp('le', need, v) is True:
                    ok += 1
        out = s.vsize(st, Ptr(('out',), ZERO))
        if not ok or st.cmp('le', need, out) is not True:
            s.bad(st, BAD, 'there is no room for the root level', ins)
