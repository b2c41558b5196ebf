"""Spec base classes (StatelessDdSpec, DdSpec, PodArrayDdSpec, HybridDdSpec).

State buffers are byte areas of the size datasize() reports.  One skolem byte K
of the area is tracked through every load, store and block copy, so what is shown
for K holds for every byte; objects of the user's state class are tracked by
typestate.  The user's own functions are opaque."""
import re
from ir import AnalysisBroken
from absint import *

SPEC = {  # S type, A type of every driver spec
    'D1': ('Obj', None), 'D2': ('Obj', None), 'D3': ('int', None), 'D4': ('Pod12', None), 'D5': ('Pod16', None),
    'D6': ('Pod6', None), 'D7': ('Pod3', None), 'L1': (None, None),
    'A1': (None, 'long'), 'A2': (None, 'int'), 'A3': (None, 'short'), 'A4': (None, 'char'), 'A5': (None, 'Pod12'),
    'A6': (None, 'int'), 'H1': ('Obj', 'int'), 'H2': ('Obj', 'short'), 'H3': ('int', 'char'), 'H4': ('Pod12', 'int'),
    'H5': ('Pod3', 'long')}
SIZE = {'Obj': 16, 'int': 4, 'Pod12': 12, 'Pod16': 16, 'Pod6': 6, 'Pod3': 3, 'long': 8, 'short': 2, 'char': 1, None: 0}
ALIGN = {'Obj': 8, 'int': 4, 'Pod12': 4, 'Pod16': 8, 'Pod6': 2, 'Pod3': 1, 'long': 8, 'short': 2, 'char': 1, None: 1}
OPN = re.compile(r'^vp::(\w+)::(~?\w+|operator==|operator=)\((.*)\)( const)?$')


def kb(st):
    return st.g['K']


def bytes_of(m, ty):
    return m.size(ty) if ty[0] not in ('i',) else (ty[1] + 7) // 8


def rigid(v):
    return isinstance(v, str) and v[0] == '!' or v == ('arg', 'n') or isinstance(v, tuple) and v[0] == 'term' and v[1] == 'udiv'


State.rigid = staticmethod(rigid)


class BaseModel(Model):
    lin_cap = 6

    def __init__(s, spec):
        s.spec = spec
        s.ts, s.ta = SPEC[spec]
        s.checked = {'bounds': 0, 'lifecycle': 0, 'user-call': 0, 'copy': 0, 'equal': 0, 'hash': 0, 'merge': 0}
        s.sites = set()

    def bad(s, st, rule, msg, ins):
        s.I.report(st, rule, msg, ins)
        st.dead = True

    def never_generalise(s, hk):
        return hk[0] == 'g'

    def isbuf(s, p):
        return isinstance(p, Ptr) and isinstance(p.r, tuple) and p.r[0] == 'vpbuf'

    def zone_keep(s, st):
        return {('arg', 'n')}

    # ------------------------------------------------------------- bytes
    def inrange(s, st, p, n, what, ins):
        s.checked['bounds'] += 1
        a = st.g.get(('area', p.r))
        if a is None:
            return True
        if st.cmp('le', ZERO, p.o) is True and st.cmp('le', p.o.add(n), a) is True:
            return True
        s.bad(st, 'state-layout', '%s may touch bytes outside the data size the spec declares' % what, ins)
        return False

    def cover(s, st, o, n):
        """fork: does [o,o+n) contain the tracked byte?"""
        if st.g.get('kset') != 1:
            return [(st, False)]
        if n.isconst() and n.c > 0 and o.c % n.c == 0 and all(k % n.c == 0 for _, k in o.t):
            n = n.c
            if ('Kd', n) not in st.g:
                kd = st.g[('Kd', n)] = S('!K%d' % n)
                a = st.g['karea']
                st.add_le(L((16 if s.ts == 'Obj' else 0) // n).add(kd, -1))
                st.add_le(kd.scale(n).add(ONE).add(a, -1))
                st.add_le(kd.scale(n).add(kb(st), -1))
                st.add_le(kb(st).add(kd.scale(n), -1).add(L(1 - n)))
            kd = st.g[('Kd', n)]
            return [x for x in fork(st, Cmp('eq', kd, Lin(o.c // n, tuple((v, k // n) for v, k in o.t)))) if s.prop(x[0])]
        out = []
        st.g['_on'] = (o, n)
        for q, lo in fork(st, Cmp('le', o, kb(st))):
            if not lo:
                out.append((q, False))
                continue
            o, n = q.g.pop('_on')
            for w, hi in fork(q, Cmp('lt', kb(q), o.add(n))):
                if s.prop(w):
                    out.append((w, hi))
        return out

    def prop(s, st):
        """interval propagation between the tracked byte and its unit indices"""
        for _ in range(2):
            hi = st.bound(st.g['karea'])
            if hi is not None and st.add_le(kb(st).add(L(1 - hi))) is False:
                return False
            for k in list(st.g):
                if isinstance(k, tuple) and k[0] == 'Kd':
                    kd, n, K = st.g[k], k[1], kb(st)
                    hi, lo = st.bound(kd), st.bound(kd.scale(-1))
                    if hi is not None and st.add_le(K.add(L(-n * hi - n + 1))) is False:
                        return False
                    if lo is not None and st.add_le(K.scale(-1).add(L(-lo * n))) is False:
                        return False
                    hi, lo = st.bound(K), st.bound(K.scale(-1))
                    if hi is not None and st.add_le(kd.add(L(-(hi // n)))) is False:
                        return False
                    if lo is not None and st.add_le(kd.scale(-1).add(L((-lo) // n))) is False:
                        return False
        return True

    def unit(s, st, o, n):
        """is this the unit in which the tracked byte was first seen?"""
        n = n.c if n.isconst() else 0
        if not n or o.c % n or any(k % n for _, k in o.t):
            return False
        return st.g.setdefault('unit', n) == n

    def fork_load(s, st, p, ty, ins):
        if not s.isbuf(p) or ('obj', p.r, ZERO) in st.g and s.ts == 'Obj' and False:
            return None
        n = L(bytes_of(s.I.m, ty))
        if not s.inrange(st, p, n, 'reading a state', ins):
            return []
        if st.g.get('phase') in ('cmp', 'hash') and s.ts and s.ts != 'Obj' and s.ta:
            # between the scalar part and the array there may be padding nobody initialises
            a = st.g.get('aoff')
            if a is not None and st.cmp('le', a, p.o) is not True and st.cmp('le', p.o.add(n), L(SIZE[s.ts])) is not True:
                s.bad(st, 'equality', 'comparing or hashing reads padding between the scalar and the array part', ins)
                return []
        out = []
        for q, c in s.cover(st, p.o, n):
            if c:
                v = q.g.get(('tb', p.r))
                if v is None:
                    if q.g.get('phase') in ('cmp', 'hash', 'copy'):
                        s.bad(q, 'equality', 'comparing or hashing reads bytes of the state that get_copy does not copy', ins)
                        continue
                    out.append((q, s.I.unknown(q, ty, 'raw')))
                elif s.unit(q, p.o, n):
                    out.append((q, v))
                else:
                    out.append((q, S(('part', v, kb(q).add(p.o, -1), n))))
            else:
                cid = q.g.get(('cid', p.r))
                out.append((q, S(('mem', cid, p.o, n)) if cid is not None else s.I.unknown(q, ty, 'byte')))
        return out

    def fork_store(s, st, p, v, ty, ins):
        if not s.isbuf(p):
            return None
        n = L(bytes_of(s.I.m, ty))
        if not s.inrange(st, p, n, 'writing a state', ins):
            return []
        st.g.pop(('cid', p.r), None)
        if st.g.get('phase') in ('cmp', 'hash'):
            s.bad(st, 'equality', 'comparing or hashing modifies the state', ins)
            return []
        for k in [k for k in st.g if isinstance(k, tuple) and k[0] == 'obj' and k[1] == p.r]:
            if not (st.cmp('le', k[2].add(L(SIZE['Obj'])), p.o) is True or st.cmp('le', p.o.add(n), k[2]) is True):
                s.bad(st, 'state-lifecycle', 'a live state object is overwritten as raw bytes', ins)
                return []
        out = []
        for q, c in s.cover(st, p.o, n):
            if c:
                vv = q.g.pop('_v', v)
                vv = s.reload(q, v)
                if isinstance(vv, Lin) and s.unit(q, p.o, n) and vv.single() is not None and vv.c == 0:
                    q.g[('tb', p.r)] = vv
                elif isinstance(vv, Lin) and vv.single() is not None and isinstance(vv.single(), tuple) and vv.single()[0] == 'part' \
                        and vv.single()[3] == n and q.cmp('eq', vv.single()[2], kb(q).add(p.o, -1)) is True:
                    q.g[('tb', p.r)] = vv.single()[1]
                else:
                    q.g[('tb', p.r)] = S(fresh('w'))
            out.append(q)
        return out

    def reload(s, q, v):
        return v

    def block(s, st, d, src, n, ins):
        """copy of n bytes"""
        if s.isbuf(d) and not s.inrange(st, d, n, 'copying a state', ins):
            return []
        if s.isbuf(src) and not s.inrange(st, src, n, 'copying a state', ins):
            return []
        if not s.isbuf(d):
            if s.isbuf(src):
                st.mem.pop(d.r, None)
                return [st]
            return None
        st.g.pop(('cid', d.r), None)
        for k in [k for k in st.g if isinstance(k, tuple) and k[0] == 'obj' and k[1] == d.r]:
            if not (st.cmp('le', k[2].add(L(SIZE['Obj'])), d.o) is True or st.cmp('le', d.o.add(n), k[2]) is True):
                s.bad(st, 'state-lifecycle', 'a live state object is overwritten as raw bytes', ins)
                return []
        out = []
        for q, c in s.cover(st, d.o, n):
            if c:
                q.g.pop(('tb', d.r), None)
                if s.isbuf(src) and q.cmp('eq', src.o, d.o) is True:
                    v = q.g.get(('tb', src.r))
                    if v is not None:
                        q.g[('tb', d.r)] = v
                else:
                    q.g[('tb', d.r)] = S(fresh('w'))
            out.append(q)
        return out

    # ------------------------------------------------------------- calls
    def call(s, st, f, ins, name, dem, args):
        I = s.I
        n = name or ''
        if n.startswith('@llvm.memcpy') or n.startswith('@llvm.memmove') or n in ('@memcpy', '@memmove'):
            if (s.isbuf(args[0]) or s.isbuf(args[1])) and isinstance(args[0], Ptr) and isinstance(args[1], Ptr):
                r = s.block(st, args[0], args[1], I.as_lin(st, args[2]), ins)
                if r is not None:
                    return [(q, args[0]) for q in r]
        if (n.startswith('@llvm.memset') or n == '@memset') and s.isbuf(args[0]):
            d, sz = args[0], I.as_lin(st, args[2])
            if not s.inrange(st, d, sz, 'clearing a state', ins):
                return []
            out = []
            for q, c in s.cover(st, d.o, sz):
                if c:
                    q.g[('tb', d.r)] = S(fresh('w'))
                out.append((q, d))
            return out
        if n in ('@memcmp', '@bcmp') and s.isbuf(args[0]) and s.isbuf(args[1]):
            return s.memcmp(st, args[0], args[1], I.as_lin(st, args[2]), ins)
        if n.startswith('@vp_'):
            return s.client(st, f, ins, n[1:], args)
        m = OPN.match(dem) if dem else None
        if m and (s.I.m.funcs.get(name) is None or s.I.m.funcs[name].decl):
            s.sites.add(I.m.loc(f.fn.blocks[f.bb][f.i]))
            return s.user(st, f, ins, m.group(1), m.group(2), args)
        return base_call(I, st, f, ins, name, dem, args)

    def memcmp(s, st, a, b, n, ins):
        if not s.inrange(st, a, n, 'comparing a state', ins) or not s.inrange(st, b, n, 'comparing a state', ins):
            return []
        out = []
        same = st.g.get(('cid', a.r)) is not None and st.g.get(('cid', a.r)) == st.g.get(('cid', b.r)) and st.cmp('eq', a.o, b.o) is True
        for q, c in s.cover(st, a.o, n):
            va, vb = q.g.get(('tb', a.r)), q.g.get(('tb', b.r))
            if c and (va is None or vb is None):
                s.bad(q, 'equality', 'comparing or hashing reads bytes of the state that get_copy does not copy', ins)
                continue
            if not same:
                w = q.copy()
                u = S(fresh('cmp'))
                if w.add_ne(u):
                    out.append((w, u))
            if c and q.cmp('eq', a.o, b.o) is True:
                for w in q.assume(Cmp('eq', va, vb), True):
                    out.append((w, ZERO))
            else:
                out.append((q, ZERO))
        return out

    def objat(s, st, p, what, ins):
        s.checked['lifecycle'] += 1
        v = st.g.get(('obj', p.r, p.o)) if isinstance(p, Ptr) else None
        if v is None:
            s.bad(st, 'state-lifecycle', '%s on a state object that has not been constructed (or was already destructed)' % what, ins)
        return v

    def user(s, st, f, ins, cls, fn, args):
        I = s.I
        if cls == 'Obj':
            if fn == 'Obj':
                p = args[0]
                if s.isbuf(p):
                    if not s.inrange(st, p, L(16), 'constructing the state object', ins):
                        return []
                    if [k for k in st.g if isinstance(k, tuple) and k[0] == 'obj' and k[1] == p.r]:
                        s.bad(st, 'state-lifecycle', 'a state object is constructed over a live one', ins)
                        return []
                if len(args) == 2:
                    v = s.objat(st, args[1], 'copying', ins)
                    if v is None:
                        return []
                else:
                    v = fresh('den')
                st.g[('obj', p.r, p.o)] = v
                return [(st, None)]
            if fn == '~Obj':
                if s.objat(st, args[0], 'destruction', ins) is None:
                    return []
                del st.g[('obj', args[0].r, args[0].o)]
                return [(st, None)]
            if fn == 'operator=':
                v = s.objat(st, args[1], 'assignment', ins)
                if v is None or s.objat(st, args[0], 'assignment', ins) is None:
                    return []
                st.g[('obj', args[0].r, args[0].o)] = v
                return [(st, args[0])]
            if fn == 'operator==':
                return s.objeq(st, args[0], args[1], None, ins)
            raise AnalysisBroken('Obj operation ' + fn)
        a = args[1:]
        s.checked['user-call'] += 1
        # split args into references/pointers and ints
        ptrs = [x for x in a if isinstance(x, Ptr)]
        ints = [I.as_lin(st, x) for x in a if not isinstance(x, Ptr)]
        per = (1 if s.ts else 0) + (1 if s.ta else 0)
        if per:
            for i, x in enumerate(ptrs):
                if not s.isbuf(x):
                    s.bad(st, 'user-call', '%s is given memory that is not the state' % fn, ins)
                    return []
        if fn in ('getRoot', 'getChild'):
            regs = {x.r for x in ptrs}
            if len(regs) > 1:
                s.bad(st, 'user-call', '%s is given parts of two different states' % fn, ins)
                return []
            r = ptrs[0].r if ptrs else None
            if not s.layout(st, fn, ptrs, ins):
                return []
            out = []
            for q in s.skolem(st, r):
                code = S(fresh('code'))
                q.add_le(code.scale(-1).add(L(-1)))
                q.g['ev'] = q.g.get('ev', ()) + ((fn, r, tuple(ints), code),)
                if s.ts == 'Obj':
                    q.g[('obj', r, ptrs[0].o)] = fresh('den')
                if r is not None:
                    q.g[('tb', r)] = S(fresh('tb'))
                    q.g.pop(('cid', r), None)
                out.append((q, code))
            return out
        if fn.startswith('hashCode'):
            if s.ts == 'Obj' and s.objat(st, ptrs[0], fn, ins) is None:
                return []
            if not s.lv(st, fn, ints, ins):
                return []
            return [(st, S(fresh('uh')))]
        if fn.startswith('equalTo'):
            if not s.lv(st, fn, ints, ins):
                return []
            if s.ts == 'Obj':
                return s.objeq(st, ptrs[0], ptrs[1], fn, ins)
            # whole-state equality supplied by the user
            p, q = ptrs
            if p.r == q.r or p.o != q.o:
                s.bad(st, 'equality', 'equality is asked about the wrong parts of the two states', ins)
                return []
            if st.g.get(('cid', p.r)) is not None and st.g.get(('cid', p.r)) == st.g.get(('cid', q.r)):
                return [(st, ONE)]
            n = st.copy()
            st.g['ueq'] = 1
            n.g['ueq'] = 0
            return [(st, ONE), (n, ZERO)]
        if fn == 'mergeStates':
            out = []
            for v in (0, 1, 2):
                q = st.copy()
                q.g['ev'] = q.g.get('ev', ()) + (('merge', tuple(ptrs), (), L(v)),)
                out.append((q, L(v)))
            return out
        raise AnalysisBroken('user function ' + fn)

    def lv(s, st, fn, ints, ins):
        if fn.endswith('AtLevel'):
            if len(ints) != 1 or st.cmp('eq', ints[0], st.g['lv']) is not True:
                s.bad(st, 'equality', '%s is not given the level of the state' % fn, ins)
                return False
        return True

    def objeq(s, st, p, q, fn, ins):
        v, w = s.objat(st, p, 'comparison', ins), None
        if v is not None:
            w = s.objat(st, q, 'comparison', ins)
        if w is None:
            return []
        if p.r == q.r:
            s.bad(st, 'equality', 'a state object is compared with itself', ins)
            return []
        if v == w:
            return [(st, ONE)]
        if st.g.get(('neq', frozenset((v, w)))):
            return [(st, ZERO)]
        n = st.copy()
        st.substitute({w: v})
        n.g[('neq', frozenset((v, w)))] = 1
        return [(st, ONE), (n, ZERO)]

    def layout(s, st, fn, ptrs, ins):
        i = 0
        r = ptrs[0].r if ptrs else None
        rng = []
        if s.ts:
            p = ptrs[0]
            i = 1
            if s.ts == 'Obj' and s.objat(st, p, fn, ins) is None:
                return False
            if not s.inrange(st, p, L(SIZE[s.ts]), 'the scalar state', ins):
                return False
            if not p.o.isconst() or p.o.c % ALIGN[s.ts]:
                s.bad(st, 'state-layout', 'the scalar state is misaligned', ins)
                return False
            if st.g.setdefault('soff', p.o) != p.o:
                s.bad(st, 'state-layout', 'the scalar state is looked for at different places', ins)
                return False
            rng.append((p.o, L(SIZE[s.ts])))
        if s.ta:
            p = ptrs[i]
            n = S(('arg', 'n')).scale(SIZE[s.ta])
            st.add_le(S(('arg', 'n')).scale(-1))
            if not s.inrange(st, p, n, 'the state array', ins):
                return False
            if not p.o.isconst() or p.o.c % ALIGN[s.ta]:
                s.bad(st, 'state-layout', 'the state array is misaligned', ins)
                return False
            if st.g.setdefault('aoff', p.o) != p.o:
                s.bad(st, 'state-layout', 'the state array is looked for at different places', ins)
                return False
            rng.append((p.o, n))
        if len(rng) == 2:
            (a, na), (b, nb) = rng
            if not (st.cmp('le', a.add(na), b) is True or st.cmp('le', b.add(nb), a) is True):
                s.bad(st, 'state-layout', 'the scalar state and the array may overlap', ins)
                return False
        return True

    def skolem(s, st, r):
        """choose the tracked byte: any byte of the area, outside the state object; [st] or a fork when the area may be empty"""
        if r is None or st.g.get('kset'):
            return [st]
        out = []
        lo = L(17 if s.ts == 'Obj' else 1)
        for q, ok in fork(st, Cmp('le', lo, st.g[('area', r)])):
            if not ok:
                q.g['kset'] = 2
            else:
                q.g['kset'] = 1
                ar = q.g['karea'] = q.g[('area', r)]
                q.g['K'] = S('!K')
                q.add_le(lo.add(L(-1)).add(kb(q), -1))
                q.add_le(kb(q).add(ONE).add(ar, -1))
                if s.ts and s.ts != 'Obj' and s.ta:      # three cases: scalar part, padding, array part
                    a = q.g['aoff']
                    if a.isconst() and q.g['soff'] == ZERO:
                        w, x = q.copy(), q.copy()
                        if w.add_le(a.add(kb(w), -1)) is not False:
                            out.append(w)
                        q.add_le(kb(q).add(L(1 - SIZE[s.ts])))
                        x.g['kset'] = 2
                        out.append(x)
            out.append(q)
        return out

    def elems(s, st):
        """states (forked) in which the tracked byte belongs to user-visible data"""
        if st.g.get('kset') != 1:
            return []
        out = []
        q0 = st.copy()
        if s.ts and s.ts != 'Obj':
            for q, c in s.cover(q0.copy(), q0.g['soff'], L(SIZE[s.ts])):
                if c:
                    out.append(q)
        if s.ta:
            for q, c in s.cover(q0, q0.g['aoff'], S(('arg', 'n')).scale(SIZE[s.ta])):
                if c:
                    out.append(q)
        return out

    # ------------------------------------------------------------- client
    def client(s, st, f, ins, name, args):
        I = s.I
        if name == 'vp_buf':
            return [(st, Ptr(('vpbuf', args[0].c)))]
        if name == 'vp_branch':
            b = S(fresh('b'))
            st.add_le(b.scale(-1))
            st.add_le(b.add(L(1 - args[0].c)))
            return [(st, b)]
        if name == 'vp_choice':
            return [(st.copy(), ZERO), (st, ONE)]
        if name == 'vp_area':
            st.g[('area', args[0].r)] = I.as_lin(st, args[1])
            return [(st, None)]
        if name == 'vp_begin':
            st.g['ev'] = ()
            st.g['call'] = (args[0].c, args[1].r, I.as_lin(st, args[2]), I.as_lin(st, args[3]))
            return [(st, None)]
        if name == 'vp_done':
            op, p, r = args[0].c, args[1], I.as_lin(st, args[2])
            ev = [e for e in st.g['ev'] if e[0] in ('getRoot', 'getChild')]
            want = 'getRoot' if op == 0 else 'getChild'
            if len(ev) != 1 or ev[0][0] != want:
                s.bad(st, 'user-call', '%s does not call the user\'s %s exactly once' % (('get_root', 'get_child')[op], want), ins)
                return []
            _, r0, ints, code = ev[0]
            if r0 is not None and r0 != p.r:
                s.bad(st, 'user-call', '%s is called on a different state' % want, ins)
                return []
            if op == 1 and (len(ints) != 2 or st.cmp('eq', ints[0], st.g['call'][2]) is not True or
                            st.cmp('eq', ints[1], st.g['call'][3]) is not True):
                s.bad(st, 'user-call', 'getChild is not given the level and the branch value that were requested', ins)
                return []
            if st.cmp('eq', r, code) is not True:
                s.bad(st, 'user-call', 'the level computed by the user\'s %s is not returned' % want, ins)
                return []
            st.g['ev'] = ()
            st.g['call'] = None
            return [(st, None)]
        if name == 'vp_copy':
            st.g.pop(('tb', args[0].r), None)
            st.g['phase'] = 'copying'
            return [(st, None)]
        if name == 'vp_copied':
            s.checked['copy'] += 1
            q, p = args
            st.g['phase'] = None
            if s.ts == 'Obj':
                so = st.g['soff']
                if st.g.get(('obj', q.r, so)) is None or st.g.get(('obj', q.r, so)) != st.g.get(('obj', p.r, so)):
                    s.bad(st, 'state-copy', 'get_copy does not copy-construct the state object', ins)
                    return []
            for w in s.elems(st):
                a, b = w.g.get(('tb', q.r)), w.g.get(('tb', p.r))
                if a is None or w.cmp('eq', a, b) is not True:
                    s.bad(st, 'state-copy', 'get_copy may leave a byte of the state uncopied', ins)
                    return []
            a, b = st.g.get(('tb', q.r)), st.g.get(('tb', p.r))
            if a is not None and st.cmp('eq', a, b) is not True:
                st.g.pop(('tb', q.r))
            return [(st, None)]
        if name == 'vp_same':
            c = fresh('cid')
            st.g[('cid', args[0].r)] = c
            st.g[('cid', args[1].r)] = c
            return [(st, None)]
        if name == 'vp_fill':
            q = args[0]
            if s.ts == 'Obj':
                st.g[('obj', q.r, st.g['soff'])] = fresh('den')
            st.g[('tb', q.r)] = S(fresh('tb'))
            return [(st, None)]
        if name == 'vp_cmp':
            st.g['phase'] = 'cmp'
            st.g['lv'] = I.as_lin(st, args[2])
            st.g.pop('ueq', None)
            return [(st, None)]
        if name == 'vp_compared':
            return s.compared(st, args, ins)
        if name == 'vp_hash':
            st.g['phase'] = 'hash'
            st.g['lv'] = I.as_lin(st, args[1])
            return [(st, None)]
        if name == 'vp_hashed':
            s.checked['hash'] += 1
            st.g['phase'] = None
            return [(st, None)]
        if name == 'vp_mergebegin':
            st.g['ev'] = ()
            return [(st, None)]
        if name == 'vp_merged':
            s.checked['merge'] += 1
            p, q, r = args
            ev = [e for e in st.g['ev'] if e[0] == 'merge']
            r = I.as_lin(st, r)
            if s.spec in ('D1', 'A6', 'H1'):
                if len(ev) != 1:
                    s.bad(st, 'user-call', 'merge_states does not consult the user\'s mergeStates', ins)
                    return []
                ps = ev[0][1]
                h = len(ps) // 2
                if any(x.r != p.r for x in ps[:h]) or any(x.r != q.r for x in ps[h:]) or any(ps[i].o != ps[h + i].o for i in range(h)):
                    s.bad(st, 'user-call', 'mergeStates is not given the two states in order', ins)
                    return []
                if st.cmp('eq', r, ev[0][3]) is not True:
                    s.bad(st, 'user-call', 'the answer of mergeStates is not returned', ins)
                    return []
            elif st.cmp('eq', r, ZERO) is not True:
                s.bad(st, 'user-call', 'merge_states refuses to merge although the spec does not ask for it', ins)
                return []
            return [(st, None)]
        if name == 'vp_dead':
            s.checked['lifecycle'] += 1
            p = args[0]
            if [k for k in st.g if isinstance(k, tuple) and k[0] == 'obj' and k[1] == p.r]:
                s.bad(st, 'state-lifecycle', 'destruct leaves the state object undestructed', ins)
                return []
            for k in ('tb', 'cid'):
                st.g.pop((k, p.r), None)
            return [(st, None)]
        raise AnalysisBroken('client primitive ' + name)

    def compared(s, st, args, ins):
        s.checked['equal'] += 1
        p, q, lv, r = args
        st.g['phase'] = None
        out = []
        cond = r if isinstance(r, (Cmp, BoolOp)) else Cmp('ne', s.I.as_lin(st, r), ZERO)
        for w, eq in fork(st, cond):
            same = w.g.get(('cid', p.r)) is not None and w.g.get(('cid', p.r)) == w.g.get(('cid', q.r))
            if same and not eq:
                s.bad(w, 'equality', 'a state and its copy are reported different', ins)
                continue
            if eq and not same:
                if s.ts == 'Obj':
                    so = w.g['soff']
                    if w.g.get(('obj', p.r, so)) != w.g.get(('obj', q.r, so)):
                        s.bad(w, 'equality', 'states are reported equal although the state objects are not', ins)
                        continue
                if s.spec == 'A6':
                    if w.g.get('ueq') != 1:
                        s.bad(w, 'equality', 'states are reported equal without the user\'s equality agreeing', ins)
                        continue
                else:
                    hit = False
                    for x in s.elems(w):
                        if x.cmp('eq', x.g.get(('tb', p.r)), x.g.get(('tb', q.r))) is not True:
                            hit = True
                    if hit:
                        s.bad(w, 'equality', 'states are reported equal although some byte of them was not compared or differs', ins)
                        continue
            if not eq and s.spec == 'A6' and w.g.get('ueq') == 1:
                s.bad(w, 'equality', 'states are reported different although the user\'s equality says equal', ins)
                continue
            out.append((w, None))
        return out

    def on_load(s, st, p, ty, ins):
        if st.g.get('phase') == 'hash' and isinstance(p, Ptr) and p.r[0] == 'glob':
            g = s.I.m.globs.get(p.r[1]) if hasattr(s.I.m, 'globs') else None
            if g is not None and not g.get('const'):
                s.bad(st, 'equality', 'the hash code depends on a mutable global', ins)
        return None

    def initial(s, st, p, ty):
        if st.g.get('phase') == 'hash' and isinstance(p.r, tuple) and p.r[0] == 'alloca' and p.r[1].find('hash') >= 0:
            s.bad(st, 'equality', 'the hash code depends on an uninitialised local', None)
        return None

    def on_addr(s, st, v):
        if st.g.get('phase') == 'hash':
            s.bad(st, 'equality', 'the hash code depends on the address of the state', None)


def fork(st, cond):
    t = st.truth(cond)
    if t is not None:
        return [(st, t)]
    n = st.copy()
    return [(q, True) for q in st.assume(cond, True)] + [(q, False) for q in n.assume(cond, False)]
