"""Typestate + protocol model of the spec interface.

Each state buffer (region, offset) is raw or live.  A live state carries the spec
it belongs to, the node code last reported for it (-1, 0 or the level) and a
denotation (which state of the user's transition system it holds).  The transfer
functions of the undefined spec operations check the typestate protocol and
move these ghosts; combinators are judged against the transition rule of the
operation they are documented to implement."""
import re
from ir import AnalysisBroken
from absint import *

OPQ = re.compile(r'^vp::Opaque<(\d+), (\d+)>::(~?\w+|operator=)\(')


def K(p):
    return ('st', p.r, p.o)


class SpecModel(Model):
    def __init__(s, kind=None, comps=(), arity=2):
        s.kind = kind
        s.comps = comps
        s.arity = arity
        s.checked = {'protocol': 0, 'oracle': 0, 'layout': 0, 'copy': 0, 'equal': 0, 'hash': 0, 'merge': 0, 'leak': 0}
        s.sites = set()

    # ---- ghosts whose symbols do not keep memory alive
    def weak_ghost(s, k):
        return isinstance(k, tuple) and k[0] in ('area', 'cpy')

    def bad(s, st, rule, msg, ins=None):
        s.I.report(st, rule, msg, ins)

    def never_generalise(s, hk):
        return hk[0] == 'g'

    # ---- live states
    def live(s, st):
        return {k: v for k, v in st.g.items() if isinstance(k, tuple) and k[0] == 'st'}

    def lookup(s, st, p):
        """ghost of the state at p, splitting aliasing only syntactically"""
        if not isinstance(p, Ptr):
            return None
        return st.g.get(K(p))

    def need_live(s, st, p, tag, what, ins):
        s.checked['protocol'] += 1
        v = s.lookup(st, p)
        if v is None:
            s.bad(st, 'state-lifecycle', '%s on a state that has not been constructed (or was already destructed)' % what, ins)
            st.dead = True
            return None
        if v[1] != tag:
            s.bad(st, 'state-lifecycle', '%s applied to a state of a different spec' % what, ins)
            st.dead = True
            return None
        return v

    def need_raw(s, st, p, tag, what, ins):
        s.checked['protocol'] += 1
        if not isinstance(p, Ptr):
            s.bad(st, 'state-lifecycle', '%s into an unknown location' % what, ins)
            st.dead = True
            return False
        if s.lookup(st, p) is not None:
            s.bad(st, 'state-lifecycle', '%s over a state that is still live' % what, ins)
            st.dead = True
            return False
        s.layout(st, p, tag, ins)
        return not st.dead

    def layout(s, st, p, tag, ins):
        s.checked['layout'] += 1
        ds = S(('datasize', tag))
        st.add_le(ds.scale(-1))
        for (k, r, o), v in s.live(st).items():
            if r != p.r:
                continue
            ds2 = S(('datasize', v[1]))
            d = p.o.add(o, -1)
            # disjoint: p+ds <= o  or o+ds2 <= p
            if st.cmp('le', p.o.add(ds), o) is True or st.cmp('le', o.add(ds2), p.o) is True:
                continue
            s.bad(st, 'state-layout', 'the storage of two component states may overlap', ins)
            st.dead = True
            return
        a = st.g.get(('area', p.r))
        if a is not None:
            if st.cmp('le', p.o.add(ds), a) is not True or st.cmp('le', ZERO, p.o) is not True:
                s.bad(st, 'state-layout', 'a component state may extend beyond the declared data size', ins)
                st.dead = True

    def newcode(s, st, lo_excl=None):
        n = S(fresh('code'))
        st.add_le(n.scale(-1).add(L(-1)))      # n >= -1
        if lo_excl is not None:
            st.add_le(n.add(lo_excl, -1).add(ONE))      # n <= level-1
        return n

    def ev(s, st, *e):
        if s.kind in ('bddlook', 'zddlook') and e[0] in ('child', 'root', 'eq'):
            return
        if s.kind == 'inter' and e[0] in ('child', 'root'):
            return s.ev_inter(st, e)
        st.g['ev'] = st.g.get('ev', ()) + (e,)

    # ------------------------------------------------------------------ calls
    def call(s, st, f, ins, name, dem, args):
        if dem:
            m = OPQ.match(dem)
            if m:
                s.sites.add(s.I.m.loc(ins))
                return s.opq(st, f, ins, int(m.group(1)), int(m.group(2)), m.group(3), args)
            if name.startswith('@vp_'):
                return s.client(st, f, ins, name[1:], args)
            r = s.vec_call(st, f, ins, name, dem, args)
            if r is not None:
                return r
        return base_call(s.I, st, f, ins, name, dem, args)

    # ---- std::vector<...> members used as raw byte buffers
    VEC = re.compile(r'^std::vector<(.*), std::allocator<\1 ?> ?>::(.*)$')

    def vec_call(s, st, f, ins, name, dem, args):
        m = s.VEC.match(dem)
        if not m:
            return None
        el, rest = m.group(1), m.group(2)
        if el not in ('char', 'unsigned char', 'signed char'):
            return None
        fn = rest[:rest.index('(')] if '(' in rest else rest
        p = args[0] if args else None
        buf = ('buf', p.r, p.o) if isinstance(p, Ptr) else None
        if fn == 'vector':
            if len(args) >= 2 and isinstance(args[1], Lin):
                st.g[('area', buf)] = args[1]
            elif 'vector const&' in rest or 'std::vector' in rest:
                q = args[1]
                a = st.g.get(('area', ('buf', q.r, q.o))) if isinstance(q, Ptr) else None
                if a is not None:
                    st.g[('area', buf)] = a
            return [(st, None)]
        if fn == '~vector':
            for k, v in s.live(st).items():
                if k[1] == buf:
                    s.bad(st, 'state-lifecycle', 'a work buffer is released while it holds a live state', ins)
            return [(st, None)]
        if fn in ('data', 'begin'):
            return [(st, Ptr(buf))]
        if fn in ('operator[]', 'at'):
            return [(st, Ptr(buf, s.I.as_lin(st, args[1])))]
        if fn == 'front':
            return [(st, Ptr(buf))]
        if fn == 'size':
            a = st.g.get(('area', buf))
            return [(st, a if a is not None else S(('vsize', buf)))]
        if fn == 'resize':
            st.g[('area', buf)] = s.I.as_lin(st, args[1])
            return [(st, None)]
        return None

    # ---- opaque spec operations
    def opq(s, st, f, ins, tag, ar, fn, args):
        I = s.I
        if fn in ('Opaque', '~Opaque', 'operator='):
            return [(st, args[0] if ins.dst else None)]
        if fn == 'datasize':
            v = S(('datasize', tag))
            st.add_le(v.scale(-1))
            return [(st, v)]
        if fn == 'get_root':
            p = args[1]
            if not s.need_raw(st, p, tag, 'get_root', ins):
                return []
            n = s.newcode(st)
            den = fresh('den')
            st.g[K(p)] = ('live', tag, n, den)
            s.ev(st, 'root', tag, p, n)
            s.on_den(st, tag, None, None, den, n)
            return [(st, n)]
        if fn == 'get_child':
            p, lv, b = args[1], I.as_lin(st, args[2]), I.as_lin(st, args[3])
            v = s.need_live(st, p, tag, 'get_child', ins)
            if v is None:
                return []
            code, den = v[2], v[3]
            if st.cmp('eq', lv, code) is not True:
                s.bad(st, 'spec-protocol', 'get_child is called with a level that is not the level of the state', ins)
                st.dead = True
                return []
            if st.cmp('le', ONE, lv) is not True:
                s.bad(st, 'spec-protocol', 'get_child is called on a terminal', ins)
                st.dead = True
                return []
            if st.cmp('le', ZERO, b) is not True or st.cmp('lt', b, L(ar)) is not True:
                s.bad(st, 'spec-protocol', 'get_child is called with a branch value outside 0..arity-1', ins)
                st.dead = True
                return []
            ck = ('ch', den, b)
            if ck in st.g:
                n, d2 = st.g[ck]
            else:
                n = s.newcode(st, code)
                d2 = fresh('den')
                st.g[ck] = (n, d2)
            st.g[K(p)] = ('live', tag, n, d2)
            s.ev(st, 'child', tag, p, lv, b, n)
            s.on_den(st, tag, den, b, d2, n)
            return [(st, n)]
        if fn == 'get_copy':
            q, p = args[1], args[2]
            v = s.need_live(st, p, tag, 'get_copy', ins)
            if v is None or not s.need_raw(st, q, tag, 'get_copy', ins):
                return []
            st.g[K(q)] = v
            return [(st, None)]
        if fn == 'destruct':
            p = args[1]
            if s.need_live(st, p, tag, 'destruct', ins) is None:
                return []
            del st.g[K(p)]
            return [(st, None)]
        if fn == 'destructLevel':
            s.ev(st, 'dlevel', tag, I.as_lin(st, args[1]))
            return [(st, None)]
        if fn == 'hash_code':
            p, lv = args[1], I.as_lin(st, args[2])
            v = s.need_live(st, p, tag, 'hash_code', ins)
            if v is None:
                return []
            if st.cmp('eq', lv, v[2]) is not True:
                s.bad(st, 'spec-protocol', 'hash_code is called with a level that is not the level of the state', ins)
                st.dead = True
                return []
            return [(st, S(('hash', tag, v[3])))]
        if fn == 'equal_to':
            p, q, lv = args[1], args[2], I.as_lin(st, args[3])
            v = s.need_live(st, p, tag, 'equal_to', ins)
            w = s.need_live(st, q, tag, 'equal_to', ins) if v is not None else None
            if w is None:
                return []
            if st.cmp('eq', lv, v[2]) is not True or st.cmp('eq', lv, w[2]) is not True or st.cmp('le', ONE, lv) is not True:
                s.bad(st, 'spec-protocol', 'equal_to is called on states that are not both at the given level', ins)
                st.dead = True
                return []
            if v[3] == w[3]:
                s.ev(st, 'eq', tag, p, q, 1)
                return [(st, ONE)]
            ek = ('eqf', frozenset((v[3], w[3])))
            if ek in st.g:
                return [(st, L(st.g[ek]))]
            n = st.copy()
            # equal: one denotation
            st.substitute({w[3]: v[3]})
            s.merge_children(st, v[3])
            s.ev(st, 'eq', tag, p, q, 1)
            n.g[ek] = 0
            s.ev(n, 'eq', tag, p, q, 0)
            return [(st, ONE), (n, ZERO)]
        if fn == 'merge_states':
            p, q = args[1], args[2]
            v = s.need_live(st, p, tag, 'merge_states', ins)
            w = s.need_live(st, q, tag, 'merge_states', ins) if v is not None else None
            if w is None:
                return []
            out = []
            for r in (0, 1, 2):
                n = st.copy() if r < 2 else st
                s.ev(n, 'merge', tag, p, q, r)
                out.append((n, L(r)))
            return out
        if fn in ('print_state', 'printLevel', 'print_level'):
            if fn == 'print_state':
                if s.need_live(st, args[2], tag, 'print_state', ins) is None:
                    return []
            return [(st, None)]
        raise AnalysisBroken('unhandled spec operation ' + fn)

    def merge_children(s, st, den):
        pass

    def on_den(s, st, tag, parent, b, den, code):
        """hook: denotation den was obtained from parent by branch b"""
        if s.kind in ('bddlook', 'zddlook'):
            if parent is None:
                st.g[('red', den)] = 1
            elif st.g.get('step') is not None and parent == st.g['step'][3]:
                if st.cmp('eq', b, st.g['step'][2]) is True:
                    st.g[('red', den)] = 1
            s.propagate(st)

    def propagate(s, st):
        if s.kind not in ('bddlook', 'zddlook'):
            return
        ch = {}
        for k, v in st.g.items():
            if isinstance(k, tuple) and k[0] == 'ch' and isinstance(k[2], Lin) and k[2].isconst():
                ch.setdefault(k[1], {})[k[2].c] = v
        again = True
        while again:
            again = False
            for d, c in ch.items():
                if not st.g.get(('red', d)) or 0 not in c:
                    continue
                if st.g.get(('red', c[0][1])):
                    continue
                if set(c) != set(range(s.arity)):
                    continue
                ok = True
                for b in range(1, s.arity):
                    if s.kind == 'zddlook':
                        ok = ok and st.cmp('eq', c[b][0], ZERO) is True
                    else:
                        same = st.cmp('eq', c[b][0], c[0][0]) is True
                        ok = ok and same and (c[b][1] == c[0][1] or st.cmp('le', c[0][0], ZERO) is True)
                if ok:
                    st.g[('red', c[0][1])] = 1
                    again = True

    def before_canon(s, st):
        s.propagate(st)
        s.prune(st)

    def prune(s, st):
        """forget edges of the transition system that no live state can reach any more"""
        held = {v[3] for v in s.live(st).values()}
        look = s.kind in ('bddlook', 'zddlook')
        for k in [k for k in st.g if isinstance(k, tuple) and k[0] == 'ch']:
            if not look or k[1] not in held:
                del st.g[k]
        kids = held | {v[1] for k, v in st.g.items() if isinstance(k, tuple) and k[0] == 'ch'}
        for k in [k for k in st.g if isinstance(k, tuple) and k[0] in ('red', 'eqf')]:
            if k[0] == 'red' and k[1] not in kids:
                del st.g[k]
            elif k[0] == 'eqf' and not k[1] <= held:
                del st.g[k]

    def drop_ghost(s, st, k, v, ref):
        # lookahead: keep child edges whose parent and child states are both held
        return None

    # ------------------------------------------------------------- the client
    def client(s, st, f, ins, name, args):
        I = s.I
        if name == 'vp_branch':
            b = S(fresh('b'))
            if s.kind in ('bddlook', 'zddlook'):
                out = []
                for c in range(args[0].c):
                    out.append((st if c == args[0].c - 1 else st.copy(), L(c)))
                return out
            st.add_le(b.scale(-1))
            st.add_le(b.add(L(1 - args[0].c)))
            return [(st, b)]
        if name == 'vp_choice':
            return [(st.copy(), ZERO), (st, ONE)]
        if name == 'vp_area':
            st.g[('area', args[0].r)] = I.as_lin(st, args[1])
            return [(st, None)]
        if name == 'vp_raw':
            for k, v in s.live(st).items():
                if k[1] == args[0].r:
                    s.bad(st, 'state-lifecycle', 'destruct leaves a component state undestructed', ins)
                    return []
            st.mem.pop(args[0].r, None)
            for k in [k for k in st.g if isinstance(k, tuple) and k[0] == 'virt' and k[1] == args[0].r]:
                del st.g[k]
            return [(st, None)]
        if name == 'vp_begin':
            st.g['ev'] = ()
            for t in s.comps:
                st.g.pop(('adv', t), None)
            st.g['step'] = ('root', None, None, None)
            return [(st, None)]
        if name == 'vp_rooted':
            return s.o_root(st, args[0], I.as_lin(st, args[1]), ins)
        if name == 'vp_pre':
            p = args[0]
            st.g['ev'] = ()
            for t in s.comps:
                st.g.pop(('adv', t), None)
            den = None
            if s.kind in ('bddlook', 'zddlook'):
                v = st.g.get(K(p))
                den = v[3] if v else None
                for k in [k for k in st.g if isinstance(k, tuple) and k[0] in ('red', 'ch', 'eqf')]:
                    del st.g[k]
            st.g['step'] = ('step', I.as_lin(st, args[1]), I.as_lin(st, args[2]), den)
            st.g['codes'] = s.codes(st, p)
            return [(st, None)]
        if name == 'vp_post':
            return s.o_step(st, args[0], I.as_lin(st, args[1]), ins)
        if name == 'vp_copied':
            s.checked['copy'] += 1
            q, p = args
            a, b = s.on_buf(st, q), s.on_buf(st, p)
            ka = {(o.add(q.o, -1)): v for o, v in a.items()}
            kb = {(o.add(p.o, -1)): v for o, v in b.items()}
            if ka != kb:
                s.bad(st, 'state-copy', 'get_copy does not leave the copy with the same component states as the original', ins)
                return []
            for k in [k for k in st.g if isinstance(k, tuple) and k[0] == 'virt' and k[1] == p.r]:
                st.g[('virt', q.r, k[2])] = st.g[k]
            return [(st, None)]
        if name == 'vp_eq':
            return s.o_eq(st, args, ins)
        if name == 'vp_hash':
            s.checked['hash'] += 1
            h1, h2 = args[2], args[3]
            if st.cmp('eq', h1, h2) is not True:
                s.bad(st, 'hash-equality', 'two states that compare equal may have different hash codes', ins)
            return [(st, None)]
        if name == 'vp_pre_merge':
            st.g['ev'] = ()
            return [(st, None)]
        if name == 'vp_merged':
            return s.o_merge(st, args, ins)
        if name == 'vp_level_end':
            st.g['ev'] = ()
            return [(st, None)]
        if name == 'vp_level_done':
            s.checked['protocol'] += 1
            lv = I.as_lin(st, args[0])
            seen = [e for e in st.g['ev'] if e[0] == 'dlevel']
            for t in s.comps:
                mine = [e for e in seen if e[1] == t]
                if len(mine) != 1 or st.cmp('eq', mine[0][2], lv) is not True:
                    s.bad(st, 'spec-protocol', 'the end of a level is not announced exactly once, with that level, to component spec %d' % t, ins)
            return [(st, None)]
        if name == 'vp_end':
            s.checked['leak'] += 1
            if s.live(st):
                s.bad(st, 'state-lifecycle', 'destruct leaves a component state undestructed', ins)
            return [(st, None)]
        raise AnalysisBroken('client primitive ' + name)

    def on_buf(s, st, p):
        return {k[2]: v for k, v in s.live(st).items() if k[1] == p.r}

    def codes(s, st, p):
        """effective code of every component of the state at p"""
        d = {}
        for o, v in s.on_buf(st, p).items():
            d[v[1]] = v[2]
        for t in list(d):
            e = st.g.get(('virt', p.r, t))
            if e is not None:
                d[t] = e
        return tuple(sorted(d.items(), key=lambda x: x[0]))

    def after(s, st, p):
        return {v[1]: v[2] for v in s.on_buf(st, p).values()}

    # -------------------------------------------------------------- oracles
    def split_max(s, st, codes):
        """fork states so that max of codes is decided; yields (state, max)"""
        pend = [(st, None, list(codes))]
        out = []
        while pend:
            q, m, rest = pend.pop()
            if not rest:
                out.append((q, m))
                continue
            c = rest[0]
            if m is None:
                pend.append((q, c, rest[1:]))
                continue
            t = q.cmp('lt', m, c)
            if t is None:
                n = q.copy()
                # re-express through ghosts is unnecessary: symbols are substituted globally, keep via holder
                q.g['_m'], q.g['_c'], q.g['_r'] = m, c, tuple(rest[1:])
                n.g['_m'], n.g['_c'], n.g['_r'] = m, c, tuple(rest[1:])
                for w in q.assume(Cmp('lt', m, c), True):
                    pend.append((w, w.g['_c'], list(w.g['_r'])))
                for w in n.assume(Cmp('lt', m, c), False):
                    pend.append((w, w.g['_m'], list(w.g['_r'])))
            else:
                pend.append((q, c if t else m, rest[1:]))
        for q, m in out:
            for k in ('_m', '_c', '_r'):
                q.g.pop(k, None)
        return out

    def fork(s, st, cond):
        """decide a Cmp, forking when unknown: list of (state, bool)"""
        t = st.truth(cond)
        if t is not None:
            return [(st, t)]
        n = st.copy()
        return [(q, True) for q in st.assume(cond, True)] + [(q, False) for q in n.assume(cond, False)]

    def expect(s, st, ok, msg, ins):
        s.checked['oracle'] += 1
        if not ok:
            s.bad(st, 'meaning', msg, ins)
            st.dead = True
            return False
        return True

    def forks(s, st, held, conds):
        """fork on each cond builder; held: dict name->Lin kept in ghosts so that substitution reaches it"""
        pass

    def combine_forks(s, st, codes):
        """fork so that the sign class of every code is known: each code known ==-1, ==0 or >=1.
        Values are parked in ghosts so that equality substitution reaches them."""
        st.g['_k'] = tuple(codes)
        work = [st]
        for i in range(len(codes)):
            nxt = []
            for q in work:
                c = q.g['_k'][i]
                if q.cmp('le', ONE, c) is True:
                    nxt.append(q)
                    continue
                for w, pos in s.fork(q, Cmp('le', ONE, c)):
                    if pos:
                        nxt.append(w)
                    else:
                        nxt += [x for x, _ in s.fork(w, Cmp('eq', w.g['_k'][i], ZERO))]
            work = nxt
        return work

    def classify(s, q, c):
        if q.cmp('le', ONE, c) is True:
            return 1
        if q.cmp('eq', c, ZERO) is True:
            return 0
        return -1

    def o_root(s, st, p, r, ins):
        st.g['_r0'] = r
        codes = s.after(st, p)
        s.checked['oracle'] += 1
        out = []
        if s.kind in ('and', 'or', 'union', 'inter'):
            rest = s.o_fold(st, p, codes, ins, root=True)
        elif s.kind in ('bddlook', 'zddlook'):
            rest = s.o_look(st, p, ins)
        elif s.kind in ('bddunred', 'zddunred'):
            rest = s.o_unred(st, p, codes, ins, root=True)
        else:
            rest = [st]
        for q in rest:
            for k in ('_r0', '_k'):
                q.g.pop(k, None)
            q.g.pop('codes', None)
            q.g['step'] = None
            q.g['ev'] = ()
            for t in s.comps:
                q.g.pop(('adv', t), None)
            out.append((q, None))
        return out

    def o_step(s, st, p, r, ins):
        st.g['_r0'] = r
        s.checked['oracle'] += 1
        if s.kind in ('and', 'or', 'union', 'inter'):
            rest = s.o_fold(st, p, s.after(st, p), ins, root=False)
        elif s.kind in ('bddlook', 'zddlook'):
            rest = s.o_look(st, p, ins)
        elif s.kind in ('bddunred', 'zddunred'):
            rest = s.o_unred(st, p, s.after(st, p), ins, root=False)
        else:
            rest = [st]
        out = []
        for q in rest:
            for k in ('_r0', '_k', 'codes'):
                q.g.pop(k, None)
            q.g['step'] = None
            q.g['ev'] = ()
            for t in s.comps:
                q.g.pop(('adv', t), None)
            out.append((q, None))
        return out

    OPN = {'and': 'conjunction', 'or': 'disjunction', 'union': 'family union', 'inter': 'family intersection'}

    def o_fold(s, st, p, codes, ins, root):
        kind = s.kind
        nm = s.OPN[kind]
        # 1. which components were advanced, and how
        if root:
            unk = set()
            for t in s.comps:
                n = len([e for e in st.g['ev'] if e[0] == 'root' and e[1] == t]) if kind != 'inter' else st.g.get(('adv', t), 0)
                if n > 1:
                    s.bad(st, 'meaning', '%s: get_root is called more than once on an operand' % nm, ins)
                    return []
                if n == 0:
                    unk.add(t)
            pre = [(st, unk, {})]
        else:
            pre = s.o_advance(st, p, ins, nm)
        out = []
        for q, unk, virt in pre:
            codes = s.after(q, p)
            known = [t for t in s.comps if t not in unk and t in codes]
            q.g['_e'] = tuple((t, virt.get(t, codes[t])) for t in known)
            for w in s.combine_forks(q, [e for t, e in q.g['_e']]):
                e = dict(w.g['_e'])
                r = w.g['_r0']
                cl = {t: s.classify(w, c) for t, c in e.items()}
                if kind in ('and', 'inter') and any(v == 0 for v in cl.values()):
                    if not s.expect(w, w.cmp('eq', r, ZERO) is True, '%s: an operand is false but the result is not' % nm, ins):
                        continue
                elif kind == 'or' and any(v == -1 for v in cl.values()):
                    if not s.expect(w, w.cmp('eq', r, L(-1)) is True, '%s: an operand is true but the result is not' % nm, ins):
                        continue
                elif unk:
                    s.expect(w, False, '%s: an operand is not advanced although the result depends on it' % nm, ins)
                    continue
                elif kind == 'inter':
                    vals = list(e.values())
                    ok = all(w.cmp('eq', r, v) is True for v in vals)
                    if not s.expect(w, ok, '%s: the operands are not brought to the same level, or the result is not that level' % nm, ins):
                        continue
                else:
                    vals = list(e.values())
                    bad = False
                    if all(v <= 0 for v in cl.values()):
                        if kind == 'and':
                            want = L(-1)
                        elif kind == 'or':
                            want = ZERO
                        else:
                            want = ZERO if all(v == 0 for v in cl.values()) else L(-1)
                        if not s.expect(w, w.cmp('eq', r, want) is True, '%s: wrong terminal for terminal operands' % nm, ins):
                            continue
                    else:
                        ups = [v for t, v in e.items() if cl[t] == 1]
                        ok = all(w.cmp('le', v, r) is True for v in ups) and any(w.cmp('eq', v, r) is True for v in ups)
                        if not ok:
                            # decide by splitting
                            good = True
                            w.g['_u'] = tuple(ups)
                            for x, m in s.split_max(w.copy(), ups):
                                if x.cmp('eq', x.g['_r0'], m) is not True:
                                    good = False
                            ok = good
                            w.g.pop('_u', None)
                        if not s.expect(w, ok, '%s: the result is not the highest operand level' % nm, ins):
                            continue
                # remember virtual codes (union)
                if kind == 'union':
                    for t in s.comps:
                        w.g.pop(('virt', p.r, t), None)
                        if t in e and t in virt:
                            w.g[('virt', p.r, t)] = e[t]
                w.g.pop('_e', None)
                w.g.pop('_k', None)
                out.append(w)
        return out

    def o_advance(s, st, p, ins, nm):
        kind = s.kind
        out = []
        work = [(st, frozenset(), {})]
        for t in s.comps:
            nxt = []
            for q, unk, virt in work:
                lv, take = q.g['step'][1], q.g['step'][2]
                pre = dict(q.g['codes'])
                evs = [e for e in q.g['ev'] if e[0] == 'child' and e[1] == t and e[2].r == p.r]
                if t not in pre:
                    if evs:
                        s.expect(q, False, '%s: an operand without a state is advanced' % nm, ins)
                    else:
                        nxt.append((q, unk, virt))
                    continue
                for w, at in s.fork(q, Cmp('eq', pre[t], lv)):
                    lv, take = w.g['step'][1], w.g['step'][2]
                    pre2 = dict(w.g['codes'])
                    evs = [e for e in w.g['ev'] if e[0] == 'child' and e[1] == t and e[2].r == p.r]
                    if at:
                        if kind == 'inter':
                            nxt.append((w, unk if w.g.get(('adv', t)) else unk | {t}, virt))
                        elif len(evs) == 1:
                            if s.expect(w, w.cmp('eq', evs[0][4], take) is True, '%s: an operand is advanced with the wrong branch' % nm, ins):
                                nxt.append((w, unk, virt))
                        elif not evs:
                            nxt.append((w, unk | {t}, virt))
                        else:
                            s.expect(w, False, '%s: an operand is advanced more than once' % nm, ins)
                    else:
                        if kind == 'inter':
                            s.expect(w, False, '%s: an operand is not at the level of the node' % nm, ins)
                            continue
                        if not s.expect(w, not evs, '%s: an operand below the node level is advanced' % nm, ins):
                            continue
                        if kind == 'union':
                            for x, z in s.fork(w, Cmp('eq', take, ZERO)):
                                v2 = dict(virt)
                                if z:
                                    e0 = x.g.get(('virt', p.r, t))
                                    if e0 is not None:
                                        v2[t] = e0
                                else:
                                    v2[t] = ZERO
                                nxt.append((x, unk, v2))
                        else:
                            nxt.append((w, unk, virt))
            work = nxt
        return [(q, set(u), v) for q, u, v in work]

    def ev_inter(s, st, e):
        nm = s.OPN['inter']
        t = e[1]
        a = ('adv', t)
        if e[0] == 'root':
            st.g[a] = 1
            return
        step = st.g.get('step')
        p, lv, b = e[2], e[3], e[4]
        if not st.g.get(a):
            if step is None or step[0] != 'step':
                s.expect(st, False, '%s: an operand is advanced before it is rooted' % nm, None)
                return
            if s.expect(st, st.cmp('eq', b, step[2]) is True, '%s: an operand is advanced with the wrong branch' % nm, None):
                st.g[a] = 1
            return
        if not s.expect(st, st.cmp('eq', b, ZERO) is True, '%s: a level is skipped by a branch other than 0' % nm, None):
            return
        low = [v for o, v in s.on_buf(st, p).items() if v[1] != t and st.g.get(('adv', v[1])) and st.cmp('lt', v[2], lv) is True]
        s.expect(st, bool(low), '%s: an operand is advanced although no other operand is below it' % nm, None)

    def o_look(s, st, p, ins):
        s.propagate(st)
        v = st.g.get(K(p))
        nm = 'BDD' if s.kind == 'bddlook' else 'ZDD'
        if v is None:
            s.expect(st, False, '%s lookahead leaves the state destructed' % nm, ins)
            return []
        r = st.g['_r0']
        if not s.expect(st, st.cmp('eq', r, v[2]) is True, '%s lookahead reports a level that is not the level of the state it leaves' % nm, ins):
            return []
        if not s.expect(st, st.g.get(('red', v[3])) == 1,
                        '%s lookahead skips a node that the %s deletion rule does not make redundant' % (nm, nm), ins):
            return []
        # no leftovers
        for k, w in s.live(st).items():
            if isinstance(k[1], tuple) and k[1] and k[1][0] == 'buf':
                s.bad(st, 'state-lifecycle', 'lookahead leaves a live state in its work buffer', ins)
                return []
        for k in [k for k in st.g if isinstance(k, tuple) and k[0] in ('red', 'ch', 'eqf')]:
            del st.g[k]
        return [st]

    def o_unred(s, st, p, codes, ins, root):
        t = s.comps[0]
        zdd = s.kind == 'zddunred'
        r = st.g['_r0']
        if root:
            if t not in codes:
                s.expect(st, False, 'unreduction does not construct the state of its operand', ins)
                return []
            st.g['_k'] = ()
            out = []
            for q in s.combine_forks(st, [codes[t]]):
                c = q.g['_k'][0]
                r = q.g['_r0']
                n = q.g['numvars']
                if s.classify(q, c) == 0:
                    if s.expect(q, q.cmp('eq', r, ZERO) is True, 'unreduction: false operand but the root is not 0', ins):
                        out.append(q)
                    continue
                ok = True
                for w, lt in s.fork(q.copy(), Cmp('lt', n, c)):
                    n2, c2, r2 = w.g['numvars'], w.g['_k'][0], w.g['_r0']
                    if lt and s.classify(w, c2) == 1:
                        ok = ok and w.cmp('eq', r2, c2) is True
                    else:
                        for x, pos in s.fork(w, Cmp('le', ONE, n2)):
                            ok = ok and x.cmp('eq', x.g['_r0'], x.g['numvars'] if pos else L(-1)) is True
                if s.expect(q, ok, 'unreduction: the root level is not the number of variables', ins):
                    out.append(q)
            for q in out:
                q.g.pop('numvars', None)
            return out
        out = []
        pre = dict(st.g['codes'])
        for q, at in s.fork(st, Cmp('eq', pre[t], st.g['step'][1])):
            lv, take = q.g['step'][1], q.g['step'][2]
            r = q.g['_r0']
            evs = [e for e in q.g['ev'] if e[0] == 'child' and e[1] == t and e[2].r == p.r]
            if at:
                if not s.expect(q, len(evs) == 1 and q.cmp('eq', evs[0][4], take) is True,
                                'unreduction: the operand is not advanced exactly once by the chosen branch', ins):
                    continue
            else:
                if not s.expect(q, not evs, 'unreduction: the operand is advanced above its level', ins):
                    continue
            q.g['_at'] = at
            cases = [q]
            if not at and zdd:
                cases = []
                for w, z in s.fork(q, Cmp('eq', take, ZERO)):
                    if z:
                        cases.append(w)
                    elif s.expect(w, w.cmp('eq', w.g['_r0'], ZERO) is True,
                                  'ZDD unreduction: a skipped level is left by a branch other than 0 but the result is not 0', ins):
                        out.append(w)
            for w in cases:
                c = s.after(w, p)[t]
                for x in s.combine_forks(w, [c]):
                    c = x.g['_k'][0]
                    lv, r = x.g['step'][1], x.g['_r0']
                    if s.classify(x, c) == 0:
                        if s.expect(x, x.cmp('eq', r, ZERO) is True, 'unreduction: the operand became 0 but the result is not 0', ins):
                            out.append(x)
                        continue
                    for y, low in s.fork(x, Cmp('le', lv, ONE)):
                        lv, r, c = y.g['step'][1], y.g['_r0'], y.g['_k'][0]
                        if low:
                            if s.expect(y, y.cmp('eq', r, c) is True, 'unreduction: level 1 does not end in the terminal of the operand', ins):
                                out.append(y)
                        elif s.expect(y, y.cmp('eq', r, lv.add(ONE, -1)) is True, 'unreduction: a level is skipped', ins):
                            out.append(y)
        for q in out:
            q.g.pop('_at', None)
        return out

    def o_eq(s, st, args, ins):
        s.checked['equal'] += 1
        p, q, lv, r = args
        r = s.I.as_lin(st, r)
        out = []
        for st2, eq in s.fork(st, Cmp('ne', r, ZERO)):
            cp, cq = dict(s.codes(st2, p)), dict(s.codes(st2, q))
            bp = {v[1]: v for v in s.on_buf(st2, p).values()}
            bq = {v[1]: v for v in s.on_buf(st2, q).values()}
            if eq:
                ok = True
                for t in s.comps:
                    same = st2.cmp('eq', cp[t], cq[t]) is True
                    ok = ok and same and (st2.cmp('le', cp[t], ZERO) is True or bp[t][3] == bq[t][3])
                if not ok:
                    # sign may be undetermined: split
                    ok = True
                    st2.g['_q'] = tuple((t, cp[t], cq[t]) for t in s.comps)
                    for w in s.combine_forks(st2.copy(), [cp[t] for t in s.comps]):
                        wp = {v[1]: v for v in s.on_buf(w, p).values()}
                        wq = {v[1]: v for v in s.on_buf(w, q).values()}
                        for t, a, b in w.g['_q']:
                            if w.cmp('eq', a, b) is not True:
                                ok = False
                            elif w.cmp('le', a, ZERO) is not True and wp[t][3] != wq[t][3]:
                                ok = False
                    st2.g.pop('_q', None)
                if not ok:
                    s.bad(st2, 'equality', 'states are reported equal although a component differs (level or state)', ins)
                    continue
            else:
                same = True
                for t in s.comps:
                    if not (st2.cmp('eq', cp[t], cq[t]) is True and
                            (st2.cmp('le', cp[t], ZERO) is True or bp[t][3] == bq[t][3])):
                        same = False
                if same:
                    s.bad(st2, 'equality', 'identical states are reported different', ins)
                    continue
            st2.g['ev'] = ()
            out.append((st2, None))
        return out

    def o_merge(s, st, args, ins):
        s.checked['merge'] += 1
        p, q, r = args
        r = s.I.as_lin(st, r)
        evs = [e for e in st.g['ev'] if e[0] == 'merge']
        tags = [e[1] for e in evs]
        res = [e[4] for e in evs]
        st.g['ev'] = ()
        for e in evs:
            if e[2].r != p.r or e[3].r != q.r:
                s.bad(st, 'merge', 'component states are offered for merging in the wrong order', ins)
                return []
        if sorted(tags) != sorted(s.comps):
            # a component may be skipped only when another one already refused
            if not (set(tags) <= set(s.comps) and any(res)):
                s.bad(st, 'merge', 'merge_states does not consult every component', ins)
                return []
        nz = set(x for x in res if x)
        if not nz:
            ok = st.cmp('eq', r, ZERO) is True
        elif len(nz) == 1:
            ok = st.cmp('eq', r, L(nz.pop())) is True
        else:
            ok = st.cmp('ne', r, ZERO) is True
        if not ok:
            s.bad(st, 'merge', 'the merge result does not reflect the results of the components %s' % (tuple(res),), ins)
            return []
        return [(st, None)]
