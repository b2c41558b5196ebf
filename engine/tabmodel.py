"""Abstract vectors, node identifiers and node tables.

A MyVector is its length plus an element area addressed by byte offset; a NodeId
is a terminal constant or the pair (level, column).  The container members are
summarised here (their own code is the subject of other checks)."""
import re
from ir import AnalysisBroken
from absint import *

VEC = re.compile(r'^tdzdd::MyVector<(.*), unsigned long>::(~?\w+|operator\[\]|operator=)\((.*)\)( const)?$')
NID = re.compile(r'^tdzdd::NodeId::(\w+|operator[=!<>]+)\((.*)\)( const)?$')
I64 = ('i', 64)


def fork(st, cond):
    t = st.truth(cond)
    if t is not None:
        return [(st, t)]
    n = st.copy()
    return [(q, True) for q in st.assume(cond, True)] + [(q, False) for q in n.assume(cond, False)]


def nid(row, col):
    return S(('nid', row, col))


def is_nid(v):
    return isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and isinstance(v.t[0][0], tuple) and \
        v.t[0][0][0] == 'nid'


def nid_parts(v):
    return v.t[0][0][1], v.t[0][0][2]


class TableModel(Model):
    lin_cap = 6

    def __init__(s):
        s.checked = {}
        s.sites = set()
        s._es = {}

    def ck(s, k):
        s.checked[k] = s.checked.get(k, 0) + 1

    def bad(s, st, rule, msg, ins=None):
        s.I.report(st, rule, msg, ins)
        st.dead = True

    def site(s, st, ins, what):
        f, l = s.I.m.loc(ins)
        s.sites.add(('%s:%s' % (f, l), what))

    # ------------------------------------------------------------ vectors
    def elemsize(s, cls):
        if cls in s._es:
            return s._es[cls]
        r = 1 if cls in ('bool', 'char', 'signed char', 'unsigned char') else None
        for fn in s.I.m.funcs.values() if r is None else ():
            if fn.decl or not fn.dem.startswith('tdzdd::MyVector<' + cls + ', unsigned long>::'):
                continue
            for b in fn.blocks.values():
                for i in b:
                    if i.op == 'getelementptr' and len(i.a) == 2 and i.ty != ('i', 8):
                        r = s.I.m.size(i.ty)
                    elif i.op == 'getelementptr' and len(i.a) == 2 and cls == 'char':
                        r = 1
            if r:
                break
        if r is None:
            raise AnalysisBroken('element size of MyVector<%s>' % cls)
        s._es[cls] = r
        return r

    def vsize(s, st, p):
        k = ('size', p.r, p.o)
        if k in st.g:
            return st.g[k]
        if is_stable_obj(k):
            v = S(('len', p.r, p.o))
        else:
            v = S(fresh('len'))
        st.add_le(v.scale(-1))
        return v

    def setsize(s, st, p, n):
        st.g[('size', p.r, p.o)] = n

    def varea(s, st, p):
        return ('v', p.r, p.o, st.g.get(('ver', p.r, p.o), 0))

    def bump(s, st, p):
        """element area may have moved"""
        k = ('ver', p.r, p.o)
        st.g[k] = st.g.get(k, 0) + 1

    def moves(s, cls):
        return False

    def vec_hook(s, st, f, ins, cls, op, args):
        """return None to use the default summary"""
        return None

    def vec(s, st, f, ins, cls, op, argt, args):
        h = s.vec_hook(st, f, ins, cls, op, args)
        if h is not None:
            return h
        p = args[0]
        if not isinstance(p, Ptr):
            return [(st, s.I.unknown(st, ins.ty, 'vec') if ins.dst else None)]
        if op == 'operator[]' or op == 'at':
            n = s.I.as_lin(st, args[1])
            if not s.index_ok(st, cls, p, n, ins):
                return []
            return [(st, Ptr(s.varea(st, p), n.scale(s.elemsize(cls))))]
        if op in ('data', 'begin'):
            return [(st, Ptr(s.varea(st, p), ZERO))]
        if op == 'end':
            return [(st, Ptr(s.varea(st, p), s.vsize(st, p).scale(s.elemsize(cls))))]
        if op == 'size':
            return [(st, s.vsize(st, p))]
        if op == 'empty':
            return [(st, Cmp('eq', s.vsize(st, p), ZERO))]
        if op == 'clear':
            s.setsize(st, p, ZERO)
            if s.moves(cls):
                s.bump(st, p)
            return [(st, None)]
        if op == 'MyVector':
            if len(args) == 1:
                s.setsize(st, p, ZERO)
            elif argt.startswith('unsigned long') or argt == 'int':
                s.setsize(st, p, s.I.as_lin(st, args[1]))
            elif isinstance(args[1], Ptr):
                s.setsize(st, p, s.vsize(st, args[1]))
            else:
                raise AnalysisBroken('constructor MyVector(%s)' % argt)
            return [(st, None)]
        if op == '~MyVector':
            st.g.pop(('size', p.r, p.o), None)
            return [(st, None)]
        if op == 'resize':
            s.setsize(st, p, s.I.as_lin(st, args[1]))
            if s.moves(cls):
                s.bump(st, p)
            return [(st, None)]
        if op == 'reserve':
            return [(st, None)]
        if op == 'push_back':
            s.setsize(st, p, s.vsize(st, p).add(ONE))
            return [(st, None)]
        if op == 'pop_back':
            s.setsize(st, p, s.vsize(st, p).add(ONE, -1))
            return [(st, None)]
        if op == 'back':
            return [(st, Ptr(s.varea(st, p), s.vsize(st, p).add(ONE, -1).scale(s.elemsize(cls))))]
        if op == 'operator=':
            s.setsize(st, p, s.vsize(st, args[1]))
            return [(st, p)]
        raise AnalysisBroken('MyVector<%s>::%s' % (cls, op))

    def index_ok(s, st, cls, p, n, ins):
        return True

    # ------------------------------------------------------------ node ids
    def nid_call(s, st, f, ins, op, argt, args):
        I = s.I
        if op == 'NodeId':
            a = [I.as_lin(st, x) for x in args[1:]]
            if not a:
                return [(st, None)]
            if len(a) == 1:
                v = a[0]
            else:
                v = s.mknid(st, a[0], a[1])
            I.store(st, args[0], v, I64, ins)
            return [(st, None)] if not st.dead else []
        if op in ('row', 'col', 'operator==', 'operator!=', 'code', 'hash', 'hasEmpty', 'getAttr', 'withoutAttr', 'operator<', 'operator>'):
            v = I.load(st, args[0], I64, ins)
            if st.dead:
                return []
            if op in ('code', 'withoutAttr'):
                return [(st, v)]
            if op == 'hash':
                return [(st, S(('term', 'hash', v)))]
            if op in ('row', 'col'):
                return s.nid_part(st, v, op, args[0])
            if op.startswith('operator'):
                w = I.load(st, args[1], I64, ins)
                return s.nid_cmp(st, v, w, op[8:])
            if op == 'hasEmpty':
                return s.nid_cmp(st, v, ONE, '==')
            if op == 'getAttr':
                return [(st, ZERO)]
        if op == 'setAttr':
            return [(st, None)]
        raise AnalysisBroken('NodeId::' + op)

    def mknid(s, st, row, col):
        if row.isconst() and row.c == 0:
            return col
        return nid(row, col)

    def nid_part(s, st, v, op, p):
        if v.isconst():
            return [(st, ZERO if op == 'row' else v)]
        if is_nid(v):
            return [(st, nid_parts(v)[0 if op == 'row' else 1])]
        t = S(('term', op, v))
        st.add_le(t.scale(-1))
        return [(st, t)]

    def nid_cmp(s, st, v, w, op):
        if op not in ('==', '!='):
            raise AnalysisBroken('order of node ids')
        if is_nid(v) and is_nid(w):
            (a, b), (c, d) = nid_parts(v), nid_parts(w)
            r = BoolOp('and', Cmp('eq', a, c), Cmp('eq', b, d))
            t = st.truth(r)
            r = r if t is None else (ONE if t else ZERO)
        elif is_nid(v) and w.isconst() or is_nid(w) and v.isconst():
            r = ZERO
        else:
            r = Cmp('eq', v, w)
            t = st.truth(r)
            r = r if t is None else (ONE if t else ZERO)
        out = []
        if isinstance(r, Lin):
            return [(st, r if op == '==' else ONE.add(r, -1))]
        for q, t in fork(st, r):
            out.append((q, ONE if t == (op == '==') else ZERO))
        return out

    # ------------------------------------------------------------ calls
    def call(s, st, f, ins, name, dem, args):
        if name and name.startswith('@llvm.mem') and name.startswith(('@llvm.memcpy', '@llvm.memmove')):
            return s.memcpy(st, ins, args)
        if dem:
            m = VEC.match(dem)
            if m and not m.group(1).startswith('>'):
                return s.vec(st, f, ins, m.group(1), m.group(2), m.group(3), args)
            m = NID.match(dem)
            if m:
                return s.nid_call(st, f, ins, m.group(1), m.group(2), args)
            r = s.other(st, f, ins, name, dem, args)
            if r is not None:
                return r
        return base_call(s.I, st, f, ins, name, dem, args)

    def other(s, st, f, ins, name, dem, args):
        return None

    def memcpy(s, st, ins, args):
        d, q, n = args[:3]
        if isinstance(d, Ptr) and isinstance(q, Ptr) and isinstance(n, Lin) and n.isconst() and n.c % 8 == 0 and n.c <= 64:
            vs = [s.I.load(st, Ptr(q.r, q.o.add(L(k))), I64, ins) for k in range(0, n.c, 8)]
            for k, v in enumerate(vs):
                if st.dead:
                    return []
                s.I.store(st, Ptr(d.r, d.o.add(L(8 * k))), v, I64, ins)
            return [(st, None)] if not st.dead else []
        return base_call(s.I, st, None, ins, '@llvm.memcpy', '', args)
