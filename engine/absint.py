"""Disjunctive abstract interpretation of LLVM IR.

Abstract state = SSA registers and memory cells holding linear expressions over
symbols (or pointers = access-path region + linear offset)  x  a zone
(difference-bound) domain over the symbols  x  property-specific ghost state
(typestates, protocol automata).  The interpreter propagates abstract states to a
fixpoint: at every control-flow join states are canonicalised (dead registers and
unreachable cells dropped, symbols renamed by holder), values that do not
stabilise are generalised to unconstrained symbols and zones are widened, so every
loop is covered for any number of iterations.  Calls are followed into callees,
container and user-supplied operations are transfer functions given by a model.
No path is handed to a solver and nothing is executed."""
import sys, itertools, math, time
from ir import AnalysisBroken

sys.setrecursionlimit(20000)
_ctr = itertools.count(1)


def skey(x):
    return repr(x)


# --------------------------------------------------------------------------
class Lin:
    """c + sum coef*sym ; immutable"""
    __slots__ = ('c', 't', '_h')

    def __init__(s, c=0, t=()):
        s.c = c
        s.t = t
        s._h = hash((c, t))

    def __hash__(s):
        return s._h

    def __eq__(s, o):
        return isinstance(o, Lin) and s.c == o.c and s.t == o.t

    def __repr__(s):
        r = ''.join('%+d*%s' % (k, short(v)) if k != 1 else '+' + short(v) for v, k in s.t)
        if s.c or not r:
            r += '%+d' % s.c if r else str(s.c)
        return r.lstrip('+')

    def add(s, o, k=1):
        if not o.t:
            return Lin(s.c + k * o.c, s.t)
        if not s.t and k == 1:
            return Lin(s.c + o.c, o.t)
        d = dict(s.t)
        for v, c in o.t:
            n = d.get(v, 0) + k * c
            if n:
                d[v] = n
            else:
                d.pop(v, None)
        return Lin(s.c + k * o.c, tuple(sorted(d.items(), key=lambda x: skey(x[0]))))

    def scale(s, k):
        if k == 0:
            return Lin(0)
        return Lin(s.c * k, tuple((v, c * k) for v, c in s.t))

    def isconst(s):
        return not s.t

    def gcd(s):
        g = 0
        for _, k in s.t:
            g = math.gcd(g, k)
        return g

    def reduced(s, g):
        """(self - c)/g for g dividing every coefficient"""
        return Lin(0, tuple((v, k // g) for v, k in s.t))

    def single(s):
        """sym if self == sym + c"""
        if len(s.t) == 1 and s.t[0][1] == 1:
            return s.t[0][0]
        return None


def short(v):
    if isinstance(v, tuple):
        return '(' + ' '.join(short(x) for x in v) + ')'
    return str(v)


ZERO = Lin(0)
ONE = Lin(1)


def L(c):
    return Lin(c)


def S(sym):
    return Lin(0, ((sym, 1),))


class Ptr:
    __slots__ = ('r', 'o', '_h')

    def __init__(s, r, o=ZERO):
        s.r = r
        s.o = o
        s._h = hash((r, o))

    def __hash__(s):
        return s._h

    def __eq__(s, o):
        return isinstance(o, Ptr) and s.r == o.r and s.o == o.o

    def __repr__(s):
        return '&%s+%r' % (short(s.r), s.o)


class Cmp:
    """boolean value: (pred,a,b) with pred in eq ne lt le"""
    __slots__ = ('p', 'a', 'b', '_h')

    def __init__(s, p, a, b):
        s.p, s.a, s.b = p, a, b
        s._h = hash((p, a, b))

    def __hash__(s):
        return s._h

    def __eq__(s, o):
        return isinstance(o, Cmp) and s.p == o.p and s.a == o.a and s.b == o.b

    def __repr__(s):
        return '(%r %s %r)' % (s.a, s.p, s.b)

    def neg(s):
        if s.p == 'eq':
            return Cmp('ne', s.a, s.b)
        if s.p == 'ne':
            return Cmp('eq', s.a, s.b)
        if s.p == 'lt':
            return Cmp('le', s.b, s.a)
        return Cmp('lt', s.b, s.a)


class BoolOp:
    __slots__ = ('p', 'a', 'b', '_h')

    def __init__(s, p, a, b):
        s.p, s.a, s.b = p, a, b
        s._h = hash((p, a, b))

    def __hash__(s):
        return s._h

    def __eq__(s, o):
        return isinstance(o, BoolOp) and s.p == o.p and s.a == o.a and s.b == o.b

    def __repr__(s):
        return '(%r %s %r)' % (s.a, s.p, s.b)


class Agg:
    __slots__ = ('e', '_h')

    def __init__(s, e):
        s.e = tuple(e)
        s._h = hash(s.e)

    def __hash__(s):
        return s._h

    def __eq__(s, o):
        return isinstance(o, Agg) and s.e == o.e

    def __repr__(s):
        return '{%s}' % (s.e,)


UNDEF = 'undef'


def fresh(tag='u'):
    return ('u', tag, next(_ctr))


def is_fresh(sym):
    return isinstance(sym, tuple) and sym and sym[0] in ('u', 'h')


def is_stable_sym(sym):
    """symbols whose name already identifies the value: parameters, initial cells, terms over stable symbols"""
    if isinstance(sym, str):
        return True
    if isinstance(sym, tuple):
        if sym and sym[0] in ('u', 'h'):
            return False
        return all(is_stable_obj(x) for x in sym)
    return True


def is_stable_obj(x):
    if isinstance(x, Lin):
        return all(is_stable_sym(v) for v, _ in x.t)
    if isinstance(x, Ptr):
        return is_stable_obj(x.r) and is_stable_obj(x.o)
    if isinstance(x, tuple):
        if x and x[0] in ('u', 'h'):
            return False
        return all(is_stable_obj(y) for y in x)
    return True


def subst(x, m):
    """substitute symbols: m maps sym -> Lin (for numeric symbols) or region -> region"""
    if isinstance(x, Lin):
        if not x.t:
            return x
        hit = False
        for v, _ in x.t:
            if v in m or isinstance(v, tuple):
                hit = True
                break
        if not hit:
            return x
        r = Lin(x.c)
        for v, k in x.t:
            if v in m:
                nv = m[v]
                nv = nv if isinstance(nv, Lin) else S(nv)
                r = r.add(nv, k)
            elif isinstance(v, tuple):
                nv = subst(v, m)
                if isinstance(nv, Lin):
                    r = r.add(nv, k)
                else:
                    r = r.add(S(nv), k)
            else:
                r = r.add(S(v), k)
        return r
    if isinstance(x, Ptr):
        r, o = subst(x.r, m), subst(x.o, m)
        return x if r is x.r and o is x.o else Ptr(r, o)
    if isinstance(x, Cmp):
        return Cmp(x.p, subst(x.a, m), subst(x.b, m))
    if isinstance(x, BoolOp):
        return BoolOp(x.p, subst(x.a, m), subst(x.b, m))
    if isinstance(x, Agg):
        return Agg([subst(y, m) for y in x.e])
    if isinstance(x, tuple):
        if x in m:
            return m[x]
        n = None
        for i, y in enumerate(x):
            z = subst(y, m)
            if z is not y:
                if n is None:
                    n = list(x)
                n[i] = z
        return x if n is None else tuple(n)
    if isinstance(x, frozenset):
        return frozenset(subst(y, m) for y in x)
    if isinstance(x, str):
        return m.get(x, x)
    return x


def syms_of(x, out):
    """collect numeric symbols and fresh region ids"""
    if isinstance(x, Lin):
        for v, _ in x.t:
            syms_of_sym(v, out)
    elif isinstance(x, Ptr):
        syms_of(x.r, out)
        syms_of(x.o, out)
    elif isinstance(x, (Cmp, BoolOp)):
        syms_of(x.a, out)
        syms_of(x.b, out)
    elif isinstance(x, Agg):
        for y in x.e:
            syms_of(y, out)
    elif isinstance(x, tuple):
        if x and x[0] in ('u', 'h'):
            out.add(x)
            return
        for y in x:
            syms_of(y, out)
    elif isinstance(x, frozenset):
        for y in x:
            syms_of(y, out)
    return out


def syms_of_sym(v, out):
    out.add(v)
    if isinstance(v, tuple) and not (v and v[0] in ('u', 'h')):
        for y in v:
            syms_of(y, out)


# --------------------------------------------------------------------------
class Zone:
    """x - y <= c, closed.  'Z' is the constant 0."""
    __slots__ = ('d',)

    def __init__(s, d=None):
        s.d = d or {}

    def copy(s):
        return Zone(dict(s.d))

    def get(s, x, y):
        if x == y:
            return 0
        return s.d.get((x, y))

    def vars(s):
        r = set()
        for x, y in s.d:
            r.add(x)
            r.add(y)
        return r

    def add(s, x, y, c):
        """add x-y<=c ; returns False when inconsistent"""
        if x == y:
            return c >= 0
        cur = s.d.get((x, y))
        if cur is not None and cur <= c:
            return True
        back = s.d.get((y, x))
        if back is not None and back + c < 0:
            return False
        ins = [(x, 0)]
        outs = [(y, 0)]
        for (p, q), w in s.d.items():
            if q == x:
                ins.append((p, w))
            if p == y:
                outs.append((q, w))
        d = s.d
        for a, ca in ins:
            for b, cb in outs:
                if a == b or (a != x or b != y) and ((a[0] == 'lin' and b != 'Z') or (b[0] == 'lin' and a != 'Z')):
                    continue
                n = ca + c + cb
                o = d.get((a, b))
                if o is None or n < o:
                    d[(a, b)] = n
        return True

    def forget(s, keep):
        s.d = {k: v for k, v in s.d.items() if k[0] in keep and k[1] in keep}

    def le(s, o):
        """s included in o (s stronger)"""
        for k, v in o.d.items():
            w = s.d.get(k)
            if w is None or w > v:
                return False
        return True

    def closed(s):
        z = Zone()
        for (x, y), c in s.d.items():
            z.add(x, y, c)
        return z

    def widen(s, o, ths=(-4, -3, -2, -1, 0, 1, 2, 3, 4)):
        """constraints of s that o also satisfies"""
        d = {}
        for k, v in s.d.items():
            w = o.d.get(k)
            if w is None:
                continue
            if w <= v:
                d[k] = v
            else:
                for th in ths:
                    if w <= th:
                        d[k] = th
                        break
        return Zone(d)


class Frame:
    __slots__ = ('fn', 'bb', 'i', 'regs', 'ctx', 'ret', 'prev', 'depth')

    def __init__(s, fn, ctx, depth):
        s.fn = fn
        s.bb = fn.entry
        s.i = 0
        s.regs = {}
        s.ctx = ctx
        s.ret = None
        s.prev = None
        s.depth = depth

    def copy(s):
        f = Frame.__new__(Frame)
        f.fn, f.bb, f.i, f.ctx, f.ret, f.prev, f.depth = s.fn, s.bb, s.i, s.ctx, s.ret, s.prev, s.depth
        f.regs = dict(s.regs)
        return f


class State:
    __slots__ = ('fr', 'mem', 'z', 'ne', 'facts', 'g', 'dead')

    def __init__(s):
        s.fr = []
        s.mem = {}      # region -> {Lin -> value}
        s.z = Zone()
        s.ne = frozenset()      # Lins known != 0
        s.facts = {}    # opaque boolean facts
        s.g = {}        # ghost
        s.dead = False

    def copy(s):
        n = State()
        n.fr = [f.copy() for f in s.fr]
        n.mem = {r: dict(c) for r, c in s.mem.items()}
        n.z = s.z.copy()
        n.ne = s.ne
        n.facts = dict(s.facts)
        n.g = dict(s.g)
        return n

    @staticmethod
    def rigid(v):
        """symbols that are never eliminated by an equality"""
        return isinstance(v, str) and v[0] == '!'

    # ---------------- numeric
    def _zkey(s, d):
        """represent d = x - y + c ; returns (x,y,c) or composite"""
        if len(d.t) == 1:
            v, k = d.t[0]
            if k == 1:
                return v, 'Z', d.c
            if k == -1:
                return 'Z', v, d.c
        elif len(d.t) == 2:
            (v, k), (w, l) = d.t
            if k == 1 and l == -1:
                return v, w, d.c
            if k == -1 and l == 1:
                return w, v, d.c
        # composite: canonical sign
        t = d.t
        if t[0][1] < 0:
            return 'Z', ('lin', Lin(0, tuple((v, -k) for v, k in t))), d.c
        return ('lin', Lin(0, t)), 'Z', d.c

    def bound(s, d, deep=2):
        """upper bound of Lin d or None"""
        if d.isconst():
            return d.c
        g = d.gcd()
        if g > 1:
            b = s.bound(d.reduced(g), deep)
            return None if b is None else g * b + d.c
        x, y, c = s._zkey(d)
        b = s.z.get(x, y)
        if b is not None:
            return b + c
        tot = d.c
        for v, k in d.t:
            u = s.z.get(v, 'Z') if k > 0 else s.z.get('Z', v)
            if u is None:
                tot = None
                break
            tot += abs(k) * u
        if tot is not None:
            return tot
        if deep and len(d.t) >= 2:
            vs = set(v for v, _ in d.t)
            for (x, y), b in s.z.d.items():
                if y == 'Z' and isinstance(x, tuple) and x[0] == 'lin':
                    e = x[1]
                elif x == 'Z' and isinstance(y, tuple) and y[0] == 'lin':
                    e = y[1].scale(-1)
                elif x != 'Z' and y != 'Z' and x in vs and y in vs and len(d.t) > 2:
                    e = S(x).add(S(y), -1)
                else:
                    continue
                if not all(v in vs for v, _ in e.t):
                    continue
                r = d.add(e, -1)
                if len(r.t) >= len(d.t):
                    continue
                u = s.bound(r, deep - 1)
                if u is not None:
                    return u + b
        return None

    def cmp(s, p, a, b):
        """decide predicate: True/False/None"""
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a.add(b, -1)
            if p == 'lt':
                u = s.bound(d)
                if u is not None and u < 0:
                    return True
                l = s.bound(d.scale(-1))
                if l is not None and l <= 0:
                    return False
                return None
            if p == 'le':
                r = s.cmp('lt', b, a)
                return None if r is None else not r
            if p in ('eq', 'ne'):
                r = None
                g = d.gcd()
                if d.isconst():
                    r = d.c == 0
                elif g > 1 and d.c % g:
                    r = False
                else:
                    if g > 1:
                        d = d.reduced(g).add(L(d.c // g))
                    u = s.bound(d)
                    l = s.bound(d.scale(-1))
                    if (u is not None and u < 0) or (l is not None and l < 0):
                        r = False
                    elif u == 0 and l == 0:
                        r = True
                    elif d in s.ne or d.scale(-1) in s.ne:
                        r = False
                if r is None:
                    return None
                return r if p == 'eq' else not r
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r:
                return s.cmp(p, a.o, b.o)
            if p in ('eq', 'ne'):
                r = s.ptr_eq(a, b)
                if r is None:
                    return None
                return r if p == 'eq' else not r
            return s.facts.get(('pcmp', p, a, b))
        if p in ('eq', 'ne'):
            q = a if isinstance(a, Ptr) else b
            o = b if isinstance(a, Ptr) else a
            if isinstance(q, Ptr) and isinstance(o, Lin) and o.isconst() and o.c == 0:
                r = s.is_null(q)
                if r is None:
                    return None
                return r if p == 'eq' else not r
        if isinstance(a, (Cmp, BoolOp)) and isinstance(b, Lin) and b.isconst():
            v = s.truth(a)
            if v is None:
                return None
            iv = 1 if v else 0
            return {'eq': iv == b.c, 'ne': iv != b.c, 'lt': iv < b.c, 'le': iv <= b.c}[p]
        return s.facts.get(('cmp', p, a, b))

    def is_null(s, q):
        f = s.facts.get(('null', q.r))
        if f is not None:
            return f
        k = q.r[0] if isinstance(q.r, tuple) else q.r
        if k in ('deref', 'u', 'h', 'ret'):
            if k in ('u', 'h') and s.g.get(('nonnull', q.r)):
                return False
            return None if k in ('deref', 'ret') else False
        return False

    def ptr_eq(s, a, b):
        f = s.facts.get(('peq', frozenset((a, b))))
        if f is not None:
            return f
        na, nb = s.facts.get(('null', a.r)), s.facts.get(('null', b.r))
        if na is True and nb is True:
            return True
        fa, fb = own_region(a.r), own_region(b.r)
        if fa and fb:
            return False
        if (fa or fb) and (root_of(a.r) != root_of(b.r)):
            return False
        return None

    def truth(s, v):
        if isinstance(v, Lin):
            if v.isconst():
                return v.c != 0
            return s.cmp('ne', v, ZERO)
        if isinstance(v, Cmp):
            return s.cmp(v.p, v.a, v.b)
        if isinstance(v, BoolOp):
            a, b = s.truth(v.a), s.truth(v.b)
            if v.p == 'and':
                if a is False or b is False:
                    return False
                if a and b:
                    return True
                return None
            if v.p == 'or':
                if a or b:
                    return True
                if a is False and b is False:
                    return False
                return None
            if v.p == 'xor':
                return None if a is None or b is None else a != b
        if isinstance(v, Ptr):
            return True
        return None

    def assume(s, v, val):
        """refine; returns list of states (self possibly mutated) satisfying v==val"""
        t = s.truth(v)
        if t is not None:
            return [s] if t == val else []
        if isinstance(v, Lin):
            return s.assume(Cmp('ne', v, ZERO), val)
        if isinstance(v, Cmp):
            c = v if val else v.neg()
            return s._assume_cmp(c)
        if isinstance(v, BoolOp):
            if v.p == 'xor':
                out = []
                for x in (True, False):
                    n = s.copy()
                    for q in n.assume(v.a, x):
                        out += q.assume(v.b, (not x) if val else x)
                return out
            conj = (v.p == 'and') == val
            if conj:
                out = []
                for q in s.assume(v.a, val):
                    out += q.assume(v.b, val)
                return out
            # disjunction: split
            out = []
            for q in s.copy().assume(v.a, val):
                out.append(q)
            for q in s.copy().assume(v.a, not val):
                out += q.assume(v.b, val)
            return out
        return [s]

    def _assume_cmp(s, c):
        a, b = c.a, c.b
        if isinstance(a, (Cmp, BoolOp)) and isinstance(b, Lin) and b.isconst() and c.p in ('eq', 'ne'):
            want = (b.c != 0) if c.p == 'eq' else (b.c == 0)
            return s.assume(a, want)
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a.add(b, -1)
            ok = True
            if c.p == 'eq':
                ok = s.add_eq(d)
            elif c.p == 'ne':
                ok = s.add_ne(d)
            elif c.p == 'lt':
                ok = s.add_le(d.add(ONE))
            else:
                ok = s.add_le(d)
            return [s] if ok else []
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r:
                return s._assume_cmp(Cmp(c.p, a.o, b.o))
            if c.p in ('eq', 'ne'):
                s.facts[('peq', frozenset((a, b)))] = (c.p == 'eq')
            else:
                s.facts[('pcmp', c.p, a, b)] = True
                n = c.neg()
                s.facts[('pcmp', n.p, n.a, n.b)] = False
            return [s]
        q = a if isinstance(a, Ptr) else b
        o = b if isinstance(a, Ptr) else a
        if isinstance(q, Ptr) and isinstance(o, Lin) and o.isconst() and o.c == 0 and c.p in ('eq', 'ne'):
            s.facts[('null', q.r)] = (c.p == 'eq')
            return [s]
        s.facts[('cmp', c.p, a, b)] = True
        n = c.neg()
        s.facts[('cmp', n.p, n.a, n.b)] = False
        return [s]

    def add_le(s, d):
        """assume d <= 0"""
        if d.isconst():
            return d.c <= 0
        g = d.gcd()
        if g > 1:
            return s.add_le(d.reduced(g).add(L(-((-d.c) // g))))
        x, y, c = s._zkey(d)
        if not s.z.add(x, y, -c):
            return False
        # equality now?
        b = s.z.get(y, x)
        f = s.z.get(x, y)
        if b is not None and f is not None and f + b == 0 and any(
                abs(k) == 1 and not State.rigid(v) for v, k in d.t):
            return s.add_eq(Lin(d.c, d.t).add(L(-d.c - f)))  # x - y == f
        return s._tighten()

    def _tighten(s):
        changed = True
        while changed:
            changed = False
            for d in list(s.ne):
                if d.isconst():
                    if d.c == 0:
                        return False
                    continue
                u = s.bound(d)
                l = s.bound(d.scale(-1))
                if u == 0 and l == 0:
                    return False
                if u == 0:
                    s.ne = s.ne - {d}
                    if not s.add_le(d.add(ONE)):
                        return False
                    changed = True
                    break
                if l == 0:
                    s.ne = s.ne - {d}
                    if not s.add_le(d.scale(-1).add(ONE)):
                        return False
                    changed = True
                    break
        return True

    def add_ne(s, d):
        if d.isconst():
            return d.c != 0
        g = d.gcd()
        if g > 1:
            if d.c % g:
                return True
            d = d.reduced(g).add(L(d.c // g))
        t = d if d.t[0][1] > 0 else d.scale(-1)
        s.ne = s.ne | {t}
        return s._tighten()

    def add_eq(s, d):
        """assume d == 0; substitute a symbol"""
        if d.isconst():
            return d.c == 0
        g = d.gcd()
        if g > 1:
            if d.c % g:
                return False
            d = d.reduced(g).add(L(d.c // g))
        # choose symbol to eliminate: coef +-1, prefer fresh, latest
        cand = [(v, k) for v, k in d.t if k in (1, -1) and not State.rigid(v)]
        if not cand:
            x, y, c = s._zkey(d)
            return s.z.add(x, y, -c) and s.z.add(y, x, c)
        def rank(v):
            if is_fresh(v):
                return (0, -(v[2] if len(v) > 2 and isinstance(v[2], int) else 0), skey(v))
            if isinstance(v, tuple):
                return (1, 0, skey(v))
            return (2, 0, skey(v))
        cand.sort(key=lambda p: rank(p[0]))
        v, k = cand[0]
        # v = -(d - k v)/k
        rest = d.add(Lin(0, ((v, k),)), -1)
        e = rest.scale(-1) if k == 1 else rest
        # avoid recursive term
        o = set()
        syms_of(e, o)
        if v in o:
            x, y, c = s._zkey(d)
            return s.z.add(x, y, -c) and s.z.add(y, x, c)
        return s.substitute({v: e})

    def substitute(s, m, detect=True):
        zold = s.z
        for f in s.fr:
            for r, v in f.regs.items():
                n = subst(v, m)
                if n is not v:
                    f.regs[r] = n
        nm = {}
        for r, cells in s.mem.items():
            nr = subst(r, m)
            t = nm.setdefault(nr, {})
            for o, v in cells.items():
                no = subst(o, m)
                nv = subst(v, m)
                t[no] = nv
        s.mem = nm
        s.g = {subst(k, m): subst(v, m) for k, v in s.g.items()}
        s.facts = {subst(k, m): v for k, v in s.facts.items()}
        ne = s.ne
        s.ne = frozenset()
        # zone: tie the substituted symbol to its replacement, then project it out
        aff = {}
        z = zold
        for v in z.vars():
            if v == 'Z':
                continue
            if isinstance(v, tuple) and v[0] == 'lin':
                e = subst(v[1], m)
                if e is not v[1] and e != v[1]:
                    aff[v] = e
            elif v in m:
                nv = m[v]
                aff[v] = nv if isinstance(nv, Lin) else S(nv)
            elif isinstance(v, tuple):
                e = subst(v, m)
                if e is not v and e != v:
                    aff[v] = e if isinstance(e, Lin) else S(e)
        if aff:
            rename = {}
            if all(len(e.t) == 1 and e.t[0][1] == 1 and e.c == 0 for e in aff.values()):
                tg = {v: e.t[0][0] for v, e in aff.items()}
                if len(set(tg.values())) == len(tg) and not (set(tg.values()) & (z.vars() - set(tg))):
                    rename = tg
            if rename:
                s.z = Zone({(rename.get(x, x), rename.get(y, y)): c for (x, y), c in z.d.items()})
            else:
                z = z.copy()
                s.z = z
                saved = [((x, y), c) for (x, y), c in z.d.items() if x in aff or y in aff]
                z.d = {k: c for k, c in z.d.items() if k[0] not in aff and k[1] not in aff}
                for (x, y), c in saved:
                    ex = ZERO if x == 'Z' else aff[x] if x in aff else (x[1] if isinstance(x, tuple) and x[0] == 'lin' else S(x))
                    ey = ZERO if y == 'Z' else aff[y] if y in aff else (y[1] if isinstance(y, tuple) and y[0] == 'lin' else S(y))
                    if (x[0] == 'lin' and y != 'Z') or (y[0] == 'lin' and x != 'Z'):
                        continue
                    d = ex.add(ey, -1).add(L(c), -1)
                    if d.isconst():
                        if d.c > 0:
                            return False
                        continue
                    g = d.gcd()
                    if g > 1:
                        d = d.reduced(g).add(L(-((-d.c) // g)))
                    kx, ky, kc = s._zkey(d)
                    if not z.add(kx, ky, -kc):
                        return False
        else:
            s.z = zold
        for d in ne:
            n = subst(d, m)
            if n.isconst():
                if n.c == 0:
                    return False
                continue
            if not s.add_ne(n):
                return False
        # bool values that became constant are evaluated lazily
        # equality detection after substitution
        if not detect:
            return True
        for (x, y), c in list(s.z.d.items()):
            b = s.z.d.get((y, x))
            if b is not None and b + c == 0 and x != 'Z':
                ex = x[1] if isinstance(x, tuple) and x[0] == 'lin' else S(x)
                ey = ZERO if y == 'Z' else (y[1] if isinstance(y, tuple) and y[0] == 'lin' else S(y))
                d = ex.add(ey, -1).add(L(c), -1)
                if any(abs(k) == 1 and not State.rigid(v) for v, k in d.t):
                    return s.add_eq(d)
        return True


def own_region(r):
    """regions that are separate objects by construction"""
    return isinstance(r, tuple) and r and r[0] in ('alloca', 'heap', 'u', 'h', 'glob', 'buf')


def root_of(r):
    while isinstance(r, tuple) and r and r[0] in ('deref', 'elem', 'buf'):
        r = r[1]
    return r


class Violation:
    def __init__(s, rule, msg, loc, stack):
        s.rule, s.msg, s.loc, s.stack = rule, msg, loc, stack

    def key(s):
        return (s.rule, s.msg, s.loc)

    def __repr__(s):
        return '%s:%s: [%s] %s' % (s.loc[0], s.loc[1], s.rule, s.msg)


class Interp:
    MAXSTATES = 400000

    def __init__(s, mod, model, max_depth=60):
        s.m = mod
        s.model = model
        s.max_depth = max_depth
        s.violations = {}
        s.visited = {}
        s.seen_vals = {}
        s.live = {}
        s._counters = {}
        s._ints32 = {}
        s.stats = {'steps': 0, 'joins': 0, 'states': 0, 'calls_inlined': 0, 'calls_modelled': 0, 'funcs': set(),
                   'unmodelled': {}}
        s.exits = []
        model.I = s

    # ------------------------------------------------------------ reporting
    def report(s, st, rule, msg, ins=None):
        loc, stack = s.where(st, ins)
        v = Violation(rule, msg, loc, stack)
        s.violations.setdefault(v.key(), v)

    def where(s, st, ins=None):
        locs = []
        for k, f in enumerate(st.fr):
            blk = f.fn.blocks.get(f.bb, [])
            top = k == len(st.fr) - 1
            idx = f.i if top else f.i
            i2 = ins if (top and ins is not None) else (blk[min(idx, len(blk) - 1)] if blk else None)
            fl = s.m.loc(i2) if i2 is not None else ('?', 0)
            locs.append((f.fn.dem, fl))
        # innermost location inside the repo
        best = ('?', 0)
        for d, l in reversed(locs):
            if 'tdzdd' in l[0] and l[1]:
                best = l
                break
        else:
            if locs:
                best = locs[-1][1]
        return best, [(d, l) for d, l in locs]

    # ------------------------------------------------------------ liveness
    def ints32(s, fn, n=32):
        """int registers that vary round a loop"""
        if (fn.name, n) not in s._ints32:
            s._ints32[fn.name, n] = {i.dst for b in fn.order for i in fn.blocks[b] if i.op == 'phi' and i.ty == ('i', n)}
        return s._ints32[fn.name, n]

    def ints64(s, fn):
        return s.ints32(fn, 64)

    def counters(s, fn):
        """integer registers that never meet a constant in a comparison"""
        if fn.name in s._counters:
            return s._counters[fn.name]
        up = {}

        def find(x):
            while up.setdefault(x, x) != x:
                x = up[x]
            return x
        ints, pinned = set(), set()
        for b in fn.order:
            for ins in fn.blocks[b]:
                ops = operands(ins) if ins.op != 'phi' else [v[1] for v, _ in ins.a if v[0] == 'reg']
                if ins.op in ('phi', 'add', 'sub', 'sext', 'zext', 'trunc', 'select', 'freeze', 'mul', 'shl'):
                    if ins.op == 'phi' and ins.ty[0] == 'i' and ins.ty[1] > 8:
                        ints.add(ins.dst)
                    for o in ops:
                        up[find(o)] = find(ins.dst)
                elif ins.op in ('icmp', 'switch') and (ins.op == 'switch' or any(a[0] == 'int' for a in ins.a)):
                    pinned |= set(ops)
        pinned = {find(x) for x in pinned}
        r = s._counters[fn.name] = {x for x in ints if find(x) not in pinned}
        return r

    def liveness(s, fn):
        if fn.name in s.live:
            return s.live[fn.name]
        use, de, phi_use, succ = {}, {}, {}, {}
        for b in fn.order:
            u, d = set(), set()
            for ins in fn.blocks[b]:
                if ins.op == 'phi':
                    d.add(ins.dst)
                    for v, p in ins.a:
                        if v[0] == 'reg':
                            phi_use.setdefault(p, set()).add(v[1])
                    continue
                for r in operands(ins):
                    if r not in d:
                        u.add(r)
                if ins.dst:
                    d.add(ins.dst)
            use[b], de[b] = u, d
            succ[b] = successors(fn.blocks[b][-1])
        lin = {b: set() for b in fn.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.order):
                out = set(phi_use.get(b, ()))
                for q in succ[b]:
                    if q in lin:
                        out |= lin[q]
                n = use[b] | (out - de[b])
                if n != lin[b]:
                    lin[b] = n
                    ch = True
        lout = {}
        for b in fn.order:
            out = set(phi_use.get(b, ()))
            for q in succ[b]:
                if q in lin:
                    out |= lin[q]
            lout[b] = out
        preds = {b: set() for b in fn.order}
        for b in fn.order:
            for q in succ[b]:
                if q in preds:
                    preds[q].add(b)
        r = (lin, lout, preds, {})
        s.live[fn.name] = r
        return r

    def live_after(s, fn, b, i):
        lin, lout, preds, cache = s.liveness(fn)
        k = (b, i)
        if k in cache:
            return cache[k]
        blk = fn.blocks[b]
        cur = set(lout[b])
        for j in range(len(blk) - 1, i, -1):
            ins = blk[j]
            if ins.dst:
                cur.discard(ins.dst)
            if ins.op != 'phi':
                cur |= operands(ins)
        cache[k] = cur
        return cur

    # ------------------------------------------------------------ values
    def val(s, st, f, v, ty=None):
        k = v[0]
        if k == 'reg':
            if v[1] not in f.regs:
                raise AnalysisBroken('undefined register %s in %s' % (v[1], f.fn.dem))
            return f.regs[v[1]]
        if k == 'int':
            return L(v[1])
        if k == 'null':
            return ZERO
        if k == 'glob':
            return Ptr(('glob', v[1]))
        if k == 'cgep':
            base = s.val(st, f, v[2][0][1])
            return s.gep(st, v[1], base, [s.val(st, f, a) for t, a in v[2][1:]])
        if k == 'ccast':
            return s.val(st, f, v[3])
        if k == 'zero':
            return ZERO
        if k == 'agg':
            return Agg([s.val(st, f, e) for t, e in v[1]])
        if k in ('undef',):
            return S(fresh('undef'))
        if k == 'fp':
            return S(('fp', v[1]))
        if k == 'cbin':
            return s.binop(st, v[1], s.val(st, f, v[3]), s.val(st, f, v[4]), v[2])
        return S(fresh('v'))

    def gep(s, st, ty, base, idx):
        if not isinstance(base, Ptr):
            if isinstance(base, Lin) and base.single() is not None:
                base = Ptr(('ipt', base.single()), L(base.c))
            elif isinstance(base, Lin) and base.isconst() and base.c == 0:
                base = Ptr(('nullobj',), ZERO)
            else:
                base = Ptr(('ipt', fresh('p')), ZERO)
        off = base.o
        t = ty
        for n, i in enumerate(idx):
            if not isinstance(i, Lin):
                i = s.as_lin(st, i)
            if n == 0:
                off = off.add(i.scale(s.m.size(t)))
            else:
                while t[0] == 'named':
                    t = s.m.types[t[1]]
                if t[0] == 'struct':
                    fo, t = s.m.field(t, i.c)
                    off = off.add(L(fo))
                else:
                    t = t[2]
                    off = off.add(i.scale(s.m.size(t)))
        return Ptr(base.r, off)

    def as_lin(s, st, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, (Cmp, BoolOp)):
            t = st.truth(v)
            if t is not None:
                return L(1 if t else 0)
            return S(('bool', v))
        if isinstance(v, Ptr):
            s.model.on_addr(st, v)
            return S(('addr', v.r)).add(v.o)
        return S(fresh('x'))

    # ------------------------------------------------------------ memory
    def load(s, st, p, ty, ins=None):
        if not isinstance(p, Ptr):
            return s.unknown(st, ty, 'ld')
        h = s.model.on_load(st, p, ty, ins)
        if h is not None:
            return h
        cells = st.mem.get(p.r)
        if cells is not None and p.o in cells:
            v = cells[p.o]
            return s.coerce(st, v, ty)
        # may alias another cell with symbolic offset?
        if cells:
            for o in cells:
                if o == 'dflt':
                    continue
                d = o.add(p.o, -1)
                if not d.isconst() and st.cmp('eq', d, ZERO) is None:
                    return s.unknown(st, ty, 'alias')
            if 'dflt' in cells:
                v = cells['dflt']
                if v == ZERO:
                    return ZERO
        v = s.initial(st, p, ty)
        st.mem.setdefault(p.r, {})[p.o] = v
        return v

    def coerce(s, st, v, ty):
        if ty[0] == 'ptr' and isinstance(v, Lin) and v.single() is not None and isinstance(v.single(), tuple) and \
                v.single()[0] == 'addr':
            return Ptr(v.single()[1], L(v.c))
        return v

    def initial(s, st, p, ty):
        r = p.r
        h = s.model.initial(st, p, ty)
        if h is not None:
            return h
        if isinstance(r, tuple) and r and r[0] in ('alloca', 'heap'):
            return s.unknown(st, ty, 'uninit')
        if ty[0] == 'ptr':
            return Ptr(('deref', r, p.o))
        if ty[0] == 'i' or ty[0] == 'float':
            return S(('init', r, p.o))
        return s.unknown(st, ty, 'init')

    def unknown(s, st, ty, tag='u'):
        if ty is not None and ty[0] == 'ptr':
            return Ptr(('ret', fresh(tag)))
        if ty is not None and ty[0] in ('struct', 'named'):
            t = ty
            while t[0] == 'named':
                t = s.m.types[t[1]]
            if t[0] == 'struct':
                return Agg([s.unknown(st, e, tag) for e in t[1]])
        return S(fresh(tag))

    def store(s, st, p, v, ty=None, ins=None):
        if not isinstance(p, Ptr):
            return
        if s.model.on_store(st, p, v, ty, ins):
            return
        cells = st.mem.setdefault(p.r, {})
        for o in list(cells):
            if o == 'dflt' or o == p.o:
                continue
            d = o.add(p.o, -1)
            if not d.isconst() and st.cmp('eq', d, ZERO) is None:
                del cells[o]
        cells[p.o] = v

    def drop_region(s, st, r):
        for k in [k for k in st.mem if k == r or (isinstance(k, tuple) and root_of(k) == r)]:
            del st.mem[k]

    # ------------------------------------------------------------ arithmetic
    def binop(s, st, op, a, b, ty):
        r = s._binop(st, op, a, b, ty)
        cap = s.model.lin_cap
        if cap and isinstance(r, Lin) and (len(r.t) > cap or any(abs(k) > 1 << 24 for _, k in r.t)):
            return S(fresh('big'))
        return r

    def _binop(s, st, op, a, b, ty):
        if isinstance(a, (Cmp, BoolOp)) or isinstance(b, (Cmp, BoolOp)):
            if ty == ('i', 1):
                if op in ('and', 'or', 'xor'):
                    if isinstance(a, Lin) and a.isconst():
                        a, b = b, a
                    if isinstance(b, Lin) and b.isconst():
                        bv = b.c & 1
                        if op == 'xor':
                            if bv:
                                return a.neg() if isinstance(a, Cmp) else BoolOp('xor', a, ONE)
                            return a
                        if op == 'and':
                            return a if bv else ZERO
                        return ONE if bv else a
                    return BoolOp(op, a, b)
            if op in ('and', 'or') and all(isinstance(x, (Cmp, BoolOp)) or (isinstance(x, Lin) and x.isconst() and x.c in (0, 1)) for x in (a, b)):
                return BoolOp(op, a, b)
            a, b = s.as_lin(st, a), s.as_lin(st, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
                return a.o.add(b.o, -1)
            if op == 'add' and isinstance(a, Ptr) and isinstance(b, Lin):
                return Ptr(a.r, a.o.add(b))
            if op == 'and' and isinstance(a, Ptr) and isinstance(b, Lin) and b.isconst() and b.c < 0:
                return Ptr(a.r, a.o)
            a, b = s.as_lin(st, a), s.as_lin(st, b)
        if not (isinstance(a, Lin) and isinstance(b, Lin)):
            return s.unknown(st, ty, op)
        bits = ty[1] if ty[0] == 'i' else 64
        if a.isconst() and b.isconst():
            return L(const_binop(op, a.c, b.c, bits))
        if op == 'add':
            return a.add(b)
        if op == 'sub':
            return a.add(b, -1)
        if op == 'mul':
            if b.isconst():
                return a.scale(b.c)
            if a.isconst():
                return b.scale(a.c)
        if op == 'shl' and b.isconst() and 0 <= b.c < 20:
            return a.scale(1 << b.c)
        if op in ('and', 'or', 'xor', 'mul') and skey(b) < skey(a):
            a, b = b, a
        if op in ('and', 'or'):
            if a.isconst():
                a, b = b, a
            if b.isconst() and b.c == 0:
                return ZERO if op == 'and' else a
            if b.isconst() and b.c == -1 and op == 'and':
                return a
        if op in ('udiv', 'sdiv') and b.isconst():
            if b.c == 1:
                return a
            if b.c > 1 and all(k % b.c == 0 for _, k in a.t):
                lo = st.bound(a.scale(-1))
                if a.c % b.c == 0 or (lo is not None and lo <= 0) or op == 'udiv':
                    return Lin(a.c // b.c, tuple((v, k // b.c) for v, k in a.t))
        if op in ('sdiv',) and b.isconst():
            op = 'udiv'
        h = s.model.on_binop(st, op, a, b, ty)
        if h is not None:
            return h
        if op in ('urem', 'srem') and b.isconst() and b.c > 1:
            l = st.bound(a.scale(-1))
            if (l is not None and l <= 0) or op == 'urem' and ty == ('i', 64):
                return a.add(s._binop(st, 'udiv', a, b, ty).scale(-b.c))
        r = ('term', op, a, b)
        if op == 'udiv' and b.isconst() and b.c > 1:
            # non-negative quotient facts when dividend is non-negative
            l = st.bound(a.scale(-1))
            if (l is not None and l <= 0) or ty == ('i', 64):
                st.add_le(S(r).scale(-1))
                # k*q <= a <= k*q + k-1
                st.add_le(S(r).scale(b.c).add(a, -1))
                st.add_le(a.add(S(r).scale(-b.c)).add(L(1 - b.c)))
        if op == 'urem' and b.isconst() and b.c > 0:
            st.add_le(S(r).scale(-1))
            st.add_le(S(r).add(L(b.c - 1), -1))
        return S(r)

    # ------------------------------------------------------------ run
    def start(self, fn, args, init=None):
        st = init or State()
        fr = Frame(fn, fn.name, 0)
        for (ty, nm), a in zip(fn.params, args):
            fr.regs[nm] = a
        st.fr = [fr]
        return st

    def run(s, states):
        work = list(states)
        n = 0
        t0 = time.monotonic()
        while work:
            st = work.pop()
            t = time.monotonic() - t0
            if t > 120 and s.violations:
                break       # the answer is known
            if t > 800:
                raise AnalysisBroken('time budget exceeded in %s' % (s.where(st)[1],))
            out = s.exec_until_join(st)
            for q in out:
                n += 1
                if n > s.MAXSTATES:
                    raise AnalysisBroken('state budget exceeded in %s' % (s.where(q)[1],))
                if q.dead:
                    continue
                work.append(q)
        s.stats['states'] = n

    def exec_until_join(s, st):
        """run one state until it forks or reaches a join; returns successor states"""
        while True:
            f = st.fr[-1]
            blk = f.fn.blocks[f.bb]
            if f.i >= len(blk):
                raise AnalysisBroken('fell off block')
            ins = blk[f.i]
            s.stats['steps'] += 1
            r = s.step(st, f, ins)
            if r is None:
                continue
            return r

    def goto(s, st, f, target):
        """move to block; evaluates phis; joins"""
        prev = f.bb
        blk = f.fn.blocks[target]
        newv = {}
        k = 0
        while k < len(blk) and blk[k].op == 'phi':
            ins = blk[k]
            for v, b in ins.a:
                if b == prev:
                    newv[ins.dst] = s.val(st, f, v)
                    break
            else:
                raise AnalysisBroken('phi without edge')
            k += 1
        f.regs.update(newv)
        f.prev = prev
        f.bb = target
        f.i = k
        lin, lout, preds, _ = s.liveness(f.fn)
        if len(preds[target]) >= 2:
            return s.join(st)
        return st

    def join(s, st):
        s.stats['joins'] += 1
        s.model.before_canon(st)
        if not s.canon(st):
            return None
        # disequalities the zone already implies carry no information
        for d in list(st.ne):
            u, l = st.bound(d), st.bound(d.scale(-1))
            if (u is not None and u < 0) or (l is not None and l < 0):
                st.ne = st.ne - {d}
        key, zone = s.shape(st)
        lst = s.visited.setdefault(key, [])
        for z, ne in lst:
            if ne <= st.ne and zone.le(z):
                return None
        if len(lst) >= s.model.widen_after:
            z = lst[-1][0].widen(zone, s.model.thresholds if len(lst) < s.model.fast_after else (-1, 0))
            st.z = z.closed()
            st.ne = lst[-1][1] & st.ne
            lst.append((z, st.ne))
            if len(lst) > 80:
                raise AnalysisBroken('no convergence at %s' % (s.where(st)[0],))
        else:
            lst.append((zone.copy(), st.ne))
        return st

    def shape(s, st):
        fr = tuple((f.fn.name, f.bb, f.i, tuple(sorted(f.regs.items(), key=lambda kv: kv[0]))) for f in st.fr)
        mem = frozenset((r, o, v) for r, c in st.mem.items() for o, v in c.items())
        return (fr, mem, frozenset(st.g.items()), frozenset(st.facts.items())), st.z

    def canon(s, st):
        # 1. dead registers
        for k, f in enumerate(st.fr):
            top = k == len(st.fr) - 1
            if top:
                lin, lout, preds, _ = s.liveness(f.fn)
                keep = set(lin[f.bb])
                for ins in f.fn.blocks[f.bb]:
                    if ins.op != 'phi':
                        break
                    keep.add(ins.dst)
                # phis dead? keep only if used
            else:
                keep = s.live_after(f.fn, f.bb, f.i)
            keep = keep | s.model.extra_live(st, f)
            f.regs = {r: v for r, v in f.regs.items() if r in keep}
        s.model.after_prune(st)
        for _ in range(4):
            r = s._canon_once(st)
            if r is None:
                return False
            if r is False:
                break
        return True

    def _gc(s, st):
        # symbols referenced from roots
        ref = set()
        for f in st.fr:
            for v in f.regs.values():
                syms_of(v, ref)
        for k, v in st.g.items():
            if s.model.weak_ghost(k):
                continue
            syms_of(k, ref)
            syms_of(v, ref)
        frames = set(f.ctx for f in st.fr)
        kept = {}
        pend = dict(st.mem)
        changed = True
        while changed:
            changed = False
            for r in list(pend):
                need = set()
                syms_of(r, need)
                need = {x for x in need if not is_stable_sym(x)}
                if need <= ref:
                    kept[r] = pend.pop(r)
                    for v in kept[r].values():
                        syms_of(v, ref)
                    changed = True
        st.mem = kept
        ghost = {}
        for k, v in st.g.items():
            need = set()
            syms_of(k, need)
            if s.model.weak_ghost(k):
                syms_of(v, need)
                if not {x for x in need if not is_stable_sym(x)} <= ref:
                    k2 = s.model.drop_ghost(st, k, v, ref)
                    if k2 is not None:
                        ghost[k2[0]] = k2[1]
                    continue
            ghost[k] = v
        st.g = ghost
        facts = {}
        for k, v in st.facts.items():
            need = set()
            syms_of(k, need)
            if {x for x in need if not is_stable_sym(x)} <= ref:
                facts[k] = v
        st.facts = facts
        return ref

    def _canon_once(s, st):
        ref = s._gc(st)
        if st.dead:
            return None
        # offsets within cells: drop cells with unreferenced symbolic offsets
        # 2. generalise & rename symbols by holder
        pos = tuple((f.fn.name, f.bb, f.i) for f in st.fr)
        ren = {}
        used = set()
        order = []
        for k, f in enumerate(st.fr):
            for r in sorted(f.regs):
                order.append((('r', k, r), f.regs[r]))
        for k in sorted(st.g, key=skey):
            v = st.g[k]
            if s.model.weak_ghost(k):
                continue
            order.append((('g', k), v))
        for r in sorted(st.mem, key=skey):
            for o in sorted(st.mem[r], key=skey):
                order.append((('m', r, o), st.mem[r][o]))
        # 2a. force-generalise holders that keep changing
        gen = {}
        nref = {}
        for hk, v in order:
            q = set()
            syms_of(v, q)
            for x in q:
                nref[x] = nref.get(x, 0) + 1
        for hk, v in order:
            ptr = None
            if isinstance(v, Ptr) and hk[0] != 'g':
                ptr, v = v, v.o
            if isinstance(v, Lin):
                if hk[0] == 'm' and not is_stable_obj(hk[1]):
                    continue
                if hk[0] == 'g' and not is_stable_obj(hk[1]):
                    continue
                s.gen_value = v
                lim = s.model.gen_limit(hk, st.fr[hk[1]].fn if hk[0] == 'r' else None, ptr)
                if len(v.t) == 1 and is_fresh(v.t[0][0]) and (v.c == 0 and v.t[0][1] == 1 or v.t[0][1] > 1 and 0 <= v.c < v.t[0][1]):
                    if lim > 0:
                        continue
                    if nref[v.t[0][0]] == 1:
                        continue
                    nref[v.t[0][0]] -= 1
                if s.model.never_generalise(hk):
                    continue
                pat = tuple((x if is_stable_sym(x) else 'F', k) for x, k in v.t)
                sv = s.seen_vals.setdefault((pos, hk), {}).setdefault(pat, set())
                sv.add(v.c)
                if len(sv) > lim or len(s.seen_vals[(pos, hk)]) > 60:
                    if not v.t and len(sv) <= lim:
                        continue
                    g = 0
                    for c in sv:
                        g = math.gcd(g, c - v.c)
                    for _, k in v.t:
                        g = math.gcd(g, k)
                    if lim == 0:
                        g = (s.model.stride(st, ptr) or math.gcd(*[k for _, k in v.t])) if ptr is not None else 1
                    gen[hk] = (v, ptr, g or 1, None if v.t or lim == 0 else min(sv), lim)
        if gen:
            named = {}
            for hk, (v, ptr, g, lo, lim) in gen.items():
                # values that are equal now are generalised to one symbol
                n = named.setdefault((v, g), fresh('gen')) if lim else fresh('gen')
                nv = S(n).scale(g).add(L(v.c % g))
                s._set_holder(st, hk, nv if ptr is None else Ptr(ptr.r, nv))
                # zone relation nv == v  (without substitution)
                d = nv.add(v, -1)
                k = d.gcd()
                x, y, c = st._zkey(d.reduced(k).add(L(d.c // k)))
                st.z.add(x, y, -c)
                if lo is not None:      # start from the least value seen here, so that the bound survives widening
                    d = nv.add(L(-lo))
                x, y, c = st._zkey(d.reduced(k).add(L(d.c // k)).scale(-1))
                st.z.add(x, y, -c)
            return True
        # 3. project zone
        ref = set()
        for f in st.fr:
            for v in f.regs.values():
                syms_of(v, ref)
        for k, v in st.g.items():
            syms_of(k, ref)
            syms_of(v, ref)
        for r, c in st.mem.items():
            syms_of(r, ref)
            for o, v in c.items():
                syms_of(o, ref)
                syms_of(v, ref)
        keep = set(['Z']) | ref | s.model.zone_keep(st)

        def okz(x):
            if x in keep:
                return True
            if isinstance(x, tuple) and x and x[0] == 'lin':
                return all(v in keep for v, _ in x[1].t)
            if not is_fresh(x) and is_stable_sym(x) and isinstance(x, str):
                return True
            return False
        vsz = st.z.vars()
        kz = {x for x in vsz if okz(x)}
        if len(kz) != len(vsz):
            st.z.forget(kz)
        st.ne = frozenset(d for d in st.ne if all(okz(v) for v, _ in d.t))
        s.model.zone_prune(st)
        # 2b. rename fresh symbols
        cnt = [0]
        m = {}

        def visit(hk, v):
            if isinstance(v, Lin):
                if len(v.t) == 1 and v.t[0][1] == 1 and is_fresh(v.t[0][0]) and v.t[0][0] not in m:
                    cnt[0] += 1
                    m[v.t[0][0]] = S(('h', cnt[0])).add(L(v.c), -1)
                    return
                if len(v.t) == 1 and v.c % v.t[0][1] == 0 and v.c and is_fresh(v.t[0][0]) and v.t[0][0] not in m:
                    cnt[0] += 1
                    m[v.t[0][0]] = S(('h', cnt[0])).add(L(v.c // v.t[0][1]), -1)
                    return
                for x, _ in v.t:
                    vs(x)
            elif isinstance(v, Ptr):
                vs(v.r)
                visit(None, v.o)
            elif isinstance(v, (Cmp, BoolOp)):
                visit(None, v.a)
                visit(None, v.b)
            elif isinstance(v, Agg):
                for e in v.e:
                    visit(None, e)
            elif isinstance(v, (tuple, frozenset)):
                vs(v)

        def vs(x):
            if isinstance(x, tuple):
                if is_fresh(x):
                    if x not in m:
                        cnt[0] += 1
                        m[x] = ('h', cnt[0])
                    return
                for y in x:
                    if isinstance(y, (Lin, Ptr, Cmp, BoolOp, Agg)):
                        visit(None, y)
                    else:
                        vs(y)
            elif isinstance(x, frozenset):
                for y in sorted(x, key=skey):
                    if isinstance(y, (Lin, Ptr, Cmp, BoolOp, Agg)):
                        visit(None, y)
                    else:
                        vs(y)

        for hk, v in order:
            if hk[0] == 'g':
                vs(hk[1]) if isinstance(hk[1], tuple) else None
            if hk[0] == 'm':
                vs(hk[1]) if isinstance(hk[1], tuple) else None
                if isinstance(hk[2], Lin):
                    visit(None, hk[2])
            visit(hk, v)
        # two-step rename to avoid clashes between old ('h',k) names and new ones
        tmp, fin = {}, {}
        for k, v in m.items():
            t = ('u', 'tmp', next(_ctr))
            if isinstance(v, Lin):
                tmp[k] = S(t).add(L(v.c))
                fin[t] = S(v.t[0][0])
            else:
                tmp[k] = t
                fin[t] = v
        ident = all((v == k or v == S(k)) for k, v in m.items())
        if not ident:
            if not st.substitute(tmp, False):
                return None
            if not st.substitute(fin, False):
                return None
        return False

    def _set_holder(s, st, hk, v):
        if hk[0] == 'r':
            st.fr[hk[1]].regs[hk[2]] = v
        elif hk[0] == 'g':
            st.g[hk[1]] = v
        else:
            st.mem[hk[1]][hk[2]] = v

    # ------------------------------------------------------------ step
    def step(s, st, f, ins):
        op = ins.op
        if op == 'br':
            if len(ins.x) == 1:
                q = s.goto(st, f, ins.x[0])
                return None if q is not None else []
            c = s.val(st, f, ins.a[0])
            t = st.truth(c)
            if t is None:
                dec = s.model.on_branch(st, c, ins)
                if dec is not None:
                    t = dec
            if t is not None:
                q = s.goto(st, f, ins.x[0] if t else ins.x[1])
                return None if q is not None else []
            out = []
            n = st.copy()
            for v, base in ((True, st), (False, n)):
                for q in base.assume(c, v):
                    q2 = s.goto(q, q.fr[-1], ins.x[0] if v else ins.x[1])
                    if q2 is not None:
                        out.append(q2)
            return out
        if op == 'switch':
            v = s.val(st, f, ins.a[0])
            if not isinstance(v, Lin):
                v = s.as_lin(st, v)
            d, cases = ins.x
            if v.isconst():
                for c, t in cases:
                    if c == v.c:
                        q = s.goto(st, f, t)
                        return None if q is not None else []
                q = s.goto(st, f, d)
                return None if q is not None else []
            out = []
            for c, t in cases:
                n = st.copy()
                for q in n.assume(Cmp('eq', v, L(c)), True):
                    q2 = s.goto(q, q.fr[-1], t)
                    if q2 is not None:
                        out.append(q2)
            rest = [st]
            for c, t in cases:
                nr = []
                for q in rest:
                    nr += q.assume(Cmp('eq', s.as_lin(q, s.val(q, q.fr[-1], ins.a[0])), L(c)), False)
                rest = nr
            for q in rest:
                q2 = s.goto(q, q.fr[-1], d)
                if q2 is not None:
                    out.append(q2)
            return out
        if op == 'ret':
            v = s.val(st, f, ins.a[0]) if ins.a else None
            return s.do_ret(st, f, v)
        if op == 'call':
            return s.call(st, f, ins)
        if op == 'unreachable':
            return []
        if op == 'select':
            c = s.val(st, f, ins.a[0])
            t = st.truth(c)
            if t is None:
                out = []
                n = st.copy()
                for v, base in ((True, st), (False, n)):
                    for q in base.assume(c, v):
                        qf = q.fr[-1]
                        qf.regs[ins.dst] = s.val(q, qf, ins.a[1] if v else ins.a[2])
                        qf.i += 1
                        out.append(q)
                return out
            f.regs[ins.dst] = s.val(st, f, ins.a[1] if t else ins.a[2])
            f.i += 1
            return None
        # straight-line
        if op == 'alloca':
            r = ('alloca', f.ctx, ins.dst)
            s.drop_region(st, r)
            f.regs[ins.dst] = Ptr(r)
        elif op == 'load':
            r = s.model.fork_load(st, s.val(st, f, ins.a[0]), ins.ty, ins)
            if r is not None:
                for q, v in r:
                    q.fr[-1].regs[ins.dst] = v
                    q.fr[-1].i += 1
                return [q for q, v in r if not q.dead]
            f.regs[ins.dst] = s.load(st, s.val(st, f, ins.a[0]), ins.ty, ins)
            if st.dead:
                return []
        elif op == 'store':
            r = s.model.fork_store(st, s.val(st, f, ins.a[1]), s.val(st, f, ins.a[0]), ins.ty, ins)
            if r is not None:
                for q in r:
                    q.fr[-1].i += 1
                return [q for q in r if not q.dead]
            s.store(st, s.val(st, f, ins.a[1]), s.val(st, f, ins.a[0]), ins.ty, ins)
            if st.dead:
                return []
        elif op == 'getelementptr':
            base = s.val(st, f, ins.a[0][1])
            f.regs[ins.dst] = s.gep(st, ins.ty, base, [s.val(st, f, a) for t, a in ins.a[1:]])
        elif op == 'icmp':
            a, b = s.val(st, f, ins.a[0]), s.val(st, f, ins.a[1])
            f.regs[ins.dst] = s.icmp(st, ins.x, a, b, ins.ty)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            v = s.val(st, f, ins.a[0])
            f.regs[ins.dst] = s.cast(st, op, v, ins.x, ins.ty)
        elif op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem'):
            f.regs[ins.dst] = s.binop(st, op, s.val(st, f, ins.a[0]), s.val(st, f, ins.a[1]), ins.ty)
        elif op == 'extractvalue':
            v = s.val(st, f, ins.a[0])
            for i in ins.x:
                v = v.e[i] if isinstance(v, Agg) and i < len(v.e) else S(fresh('ev'))
            f.regs[ins.dst] = v
        elif op == 'insertvalue':
            v = s.val(st, f, ins.a[0])
            e = s.val(st, f, ins.a[1])
            el = list(v.e) if isinstance(v, Agg) else []
            while len(el) <= ins.x[0]:
                el.append(S(fresh('iv')))
            el[ins.x[0]] = e
            f.regs[ins.dst] = Agg(el)
        elif op == 'atomicrmw':
            p, v = s.val(st, f, ins.a[0]), s.val(st, f, ins.a[1])
            s.model.on_atomic(st, p, ins)
            f.regs[ins.dst] = s.unknown(st, ins.ty, 'atomic')
        elif op == 'fence':
            pass
        elif op == 'landingpad':
            return []
        else:
            if ins.dst:
                f.regs[ins.dst] = S(fresh(op))
        f.i += 1
        return None

    def cast(s, st, op, v, fty, tty):
        if isinstance(v, (Cmp, BoolOp)):
            return v
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Lin):
            if op == 'inttoptr' and v.single() is not None and isinstance(v.single(), tuple) and v.single()[0] == 'addr':
                return Ptr(v.single()[1], L(v.c))
            if op == 'trunc' and tty[0] == 'i':
                if v.isconst():
                    return L(norm(v.c, tty[1]))
                sy = v.single()
                if tty[1] == 1 and isinstance(sy, tuple) and sy[0] == 'bool' and v.c == 0:
                    return sy[1]
                if tty[1] == 1:
                    return Cmp('ne', v, ZERO)
                if tty[1] < 32:
                    return s.model.on_trunc(st, v, fty, tty) or v
            if op == 'zext' and v.isconst() and v.c < 0 and fty[0] == 'i':
                return L(v.c & ((1 << fty[1]) - 1))
        return v

    def icmp(s, st, pred, a, b, ty):
        uns = pred in ('ult', 'ule', 'ugt', 'uge')
        if uns:
            if isinstance(a, Lin) and a.isconst() and a.c < 0:
                a = L(a.c + (1 << (ty[1] if ty[0] == 'i' else 64)))
            if isinstance(b, Lin) and b.isconst() and b.c < 0:
                b = L(b.c + (1 << (ty[1] if ty[0] == 'i' else 64)))
        p = {'eq': 'eq', 'ne': 'ne', 'slt': 'lt', 'ult': 'lt', 'sle': 'le', 'ule': 'le'}.get(pred)
        if p is None:
            a, b = b, a
            p = {'sgt': 'lt', 'ugt': 'lt', 'sge': 'le', 'uge': 'le'}[pred]
        r = st.cmp(p, a, b)
        if r is not None:
            return L(1 if r else 0)
        if isinstance(a, (Cmp, BoolOp)) and isinstance(b, Lin) and b.isconst() and p in ('eq', 'ne') and b.c in (0, 1):
            want = (b.c == 1) == (p == 'eq')
            if want:
                return a
            return a.neg() if isinstance(a, Cmp) else BoolOp('xor', a, ONE)
        if not uns or p in ('eq', 'ne'):
            r = s.bitcmp(st, p, a, b)
            if r is not None:
                return r
        return Cmp(p, a, b)

    def bitcmp(s, st, p, a, b):
        """comparison of x|y, x&y, x^y with 0 (or its sign) in terms of the operands"""
        def term(v):
            y = v.single() if isinstance(v, Lin) and v.c == 0 else None
            return y if isinstance(y, tuple) and y[0] == 'term' and y[1] in ('or', 'and', 'xor') and v.t[0][1] == 1 else None
        ta, tb = term(a), term(b)
        neg = False
        if p in ('eq', 'ne'):
            t, o = (ta, b) if ta else (tb, a)
            if t is None or not (isinstance(o, Lin) and o.isconst() and o.c == 0) or t[1] == 'and':
                return None
            if t[1] == 'xor':
                return s.rewrap(st, Cmp('eq', t[2], t[3]), p == 'ne')
            r = BoolOp('and', s.mkcmp(st, 'eq', t[2]), s.mkcmp(st, 'eq', t[3]))
            return s.rewrap(st, r, p == 'ne')
        # sign tests: x < 0, x <= -1, -1 < x, 0 <= x
        if ta and isinstance(b, Lin) and b.isconst() and (p, b.c) in (('lt', 0), ('le', -1)):
            t = ta
        elif tb and isinstance(a, Lin) and a.isconst() and (p, a.c) in (('lt', -1), ('le', 0)):
            t, neg = tb, True
        else:
            return None
        op = {'or': 'or', 'and': 'and', 'xor': 'xor'}[t[1]]
        return s.rewrap(st, BoolOp(op, s.mkcmp(st, 'lt', t[2]), s.mkcmp(st, 'lt', t[3])), neg)

    def mkcmp(s, st, p, x):
        r = s.bitcmp(st, p, x, ZERO)
        return r if r is not None else Cmp(p, x, ZERO)

    def rewrap(s, st, r, neg):
        t = st.truth(r)
        if t is not None:
            return L(1 if t != neg else 0)
        if not neg:
            return r
        return r.neg() if isinstance(r, Cmp) else BoolOp('xor', r, ONE)

    def do_ret(s, st, f, v):
        if len(st.fr) == 1:
            s.model.on_exit(st, v)
            s.exits.append((st, v))
            return []
        s.model.on_return(st, f, v)
        if st.dead:
            return []
        st.fr.pop()
        c = st.fr[-1]
        ins = c.fn.blocks[c.bb][c.i]
        # drop callee frame memory
        pre = f.ctx
        for r in [r for r in st.mem if isinstance(r, tuple) and _alloca_root(r) == pre]:
            del st.mem[r]
        if ins.dst:
            c.regs[ins.dst] = v
        return s.after_call(st, c, ins)

    def after_call(s, st, c, ins):
        nd = ins.x[1]
        if nd is not None:
            q = s.goto(st, c, nd)
            return None if q is not None else []
        c.i += 1
        return None

    def call(s, st, f, ins):
        callee = ins.x[0]
        args = [s.val(st, f, a) for t, a in ins.a]
        if callee[0] == 'glob':
            name = callee[1]
        else:
            cv = s.val(st, f, callee)
            name = cv.r[1] if isinstance(cv, Ptr) and isinstance(cv.r, tuple) and cv.r[0] == 'glob' else None
        dem = s.m.dem.get(name, name) if name else None
        r = s.model.call(st, f, ins, name, dem, args)
        if r is not None:
            s.stats['calls_modelled'] += 1
            # r: list of (state, value) ; value None = void
            out = []
            single = len(r) == 1 and r[0][0] is st
            for q, v in r:
                if q.dead:
                    continue
                c = q.fr[-1]
                if ins.dst:
                    c.regs[ins.dst] = v if v is not None else s.unknown(q, ins.ty, 'ret')
                o = s.after_call(q, c, ins)
                if o is None:
                    out.append(q)
                else:
                    out += o
            if single and len(out) == 1 and out[0] is st:
                return None
            return out
        fn = s.m.funcs.get(name) if name else None
        if fn is not None and not fn.decl:
            if len(st.fr) > s.max_depth:
                raise AnalysisBroken('call depth exceeded at %s' % dem)
            if any(x.fn is fn for x in st.fr):
                raise AnalysisBroken('unhandled recursion in %s' % dem)
            s.stats['calls_inlined'] += 1
            s.stats['funcs'].add(dem)
            nf = Frame(fn, f.ctx + '>' + '%s.%d' % (f.bb, f.i) + ':' + fn.name, f.depth + 1)
            for (ty, nm), a in zip(fn.params, args):
                nf.regs[nm] = a
            st.fr.append(nf)
            s.model.on_enter(st, nf, ins, args)
            return None if not st.dead else []
        # unknown external
        s.stats['unmodelled'][dem or '?'] = s.stats['unmodelled'].get(dem or '?', 0) + 1
        v = s.model.unknown_call(st, f, ins, name, dem, args)
        if st.dead:
            return []
        if ins.dst:
            f.regs[ins.dst] = v if v is not None else s.unknown(st, ins.ty, 'ext')
        return s.after_call(st, f, ins)


def _alloca_root(r):
    while isinstance(r, tuple) and r and r[0] in ('deref', 'elem', 'buf'):
        r = r[1]
    if isinstance(r, tuple) and r and r[0] == 'alloca':
        return r[1]
    return None


def norm(v, bits):
    v &= (1 << bits) - 1
    if v >> (bits - 1) and bits > 1:
        v -= 1 << bits
    return v


def const_binop(op, a, b, bits):
    mask = (1 << bits) - 1
    ua, ub = a & mask, b & mask
    if op == 'add':
        r = a + b
    elif op == 'sub':
        r = a - b
    elif op == 'mul':
        r = a * b
    elif op == 'and':
        r = ua & ub
    elif op == 'or':
        r = ua | ub
    elif op == 'xor':
        r = ua ^ ub
    elif op == 'shl':
        r = a << (ub & 127)
    elif op == 'lshr':
        r = ua >> (ub & 127)
    elif op == 'ashr':
        r = norm(a, bits) >> (ub & 127)
    elif op == 'udiv':
        r = ua // ub if ub else 0
    elif op == 'urem':
        r = ua % ub if ub else 0
    elif op == 'sdiv':
        sa, sb = norm(a, bits), norm(b, bits)
        r = 0 if sb == 0 else int(abs(sa) // abs(sb)) * (1 if (sa < 0) == (sb < 0) else -1)
    elif op == 'srem':
        sa, sb = norm(a, bits), norm(b, bits)
        r = 0 if sb == 0 else abs(sa) % abs(sb) * (1 if sa >= 0 else -1)
    else:
        r = 0
    return norm(r, bits)


def operands(ins):
    out = set()

    def add(v):
        if isinstance(v, tuple):
            if v and v[0] == 'reg':
                out.add(v[1])
            else:
                for x in v:
                    if isinstance(x, (tuple, list)):
                        add(x)
        elif isinstance(v, list):
            for x in v:
                add(x)
    if ins.op == 'phi':
        return out
    add(ins.a or [])
    if ins.op == 'call':
        add(ins.x[0])
    return out


def successors(ins):
    if ins.op == 'br':
        return list(ins.x)
    if ins.op == 'switch':
        return [ins.x[0]] + [t for _, t in ins.x[1]]
    if ins.op == 'call' and ins.x[1] is not None:
        return [ins.x[1]]
    return []


class Model:
    """default transfer functions; subclass per analysis"""
    I = None
    lin_cap = None

    def fork_load(s, st, p, ty, ins):
        return None

    def fork_store(s, st, p, v, ty, ins):
        return None

    def on_addr(s, st, v):
        pass

    def on_load(s, st, p, ty, ins):
        return None

    def on_store(s, st, p, v, ty, ins):
        return False

    def initial(s, st, p, ty):
        return None

    def on_binop(s, st, op, a, b, ty):
        return None

    def on_trunc(s, st, v, fty, tty):
        return None

    def on_branch(s, st, c, ins):
        return None

    def on_exit(s, st, v):
        pass

    def on_return(s, st, f, v):
        pass

    def on_enter(s, st, f, ins, args):
        pass

    def on_atomic(s, st, p, ins):
        pass

    def call(s, st, f, ins, name, dem, args):
        return base_call(s.I, st, f, ins, name, dem, args)

    def unknown_call(s, st, f, ins, name, dem, args):
        return None

    def before_canon(s, st):
        pass

    def extra_live(s, st, f):
        return set()

    def after_prune(s, st):
        pass

    def zone_prune(s, st):
        pass

    def stride(s, st, ptr):
        return None

    def weak_ghost(s, k):
        return False

    def drop_ghost(s, st, k, v, ref):
        return None

    def never_generalise(s, hk):
        return False

    def gen_limit(s, hk, fn, ptr):
        return 6

    widen_after = 6
    fast_after = 1000
    thresholds = (-4, -3, -2, -1, 0, 1, 2, 3, 4)

    def zone_keep(s, st):
        return set()


def base_call(I, st, f, ins, name, dem, args):
    """intrinsics common to all models"""
    n = name[1:] if name else ''
    if n.startswith('llvm.'):
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            d, q, sz = args[0], args[1], args[2]
            if isinstance(d, Ptr) and isinstance(q, Ptr) and isinstance(sz, Lin):
                copy_cells(I, st, d, q, sz)
            return [(st, None)]
        if n.startswith('llvm.memset'):
            d, v, sz = args[0], args[1], args[2]
            if isinstance(d, Ptr) and isinstance(sz, Lin):
                cells = st.mem.setdefault(d.r, {})
                for o in list(cells):
                    if o == 'dflt':
                        continue
                    x = o.add(d.o, -1)
                    if x.isconst() and sz.isconst() and not (0 <= x.c < sz.c):
                        continue
                    del cells[o]
                if isinstance(v, Lin) and v == ZERO and sz.isconst() and d.o == ZERO:
                    cells['dflt'] = ZERO
                else:
                    cells.pop('dflt', None)
            return [(st, None)]
        if n.startswith('llvm.lifetime'):
            if isinstance(args[1], Ptr) and args[1].o == ZERO:
                st.mem.pop(args[1].r, None)
            return [(st, None)]
        if n.startswith('llvm.expect') or n.startswith('llvm.launder') or n.startswith('llvm.strip'):
            return [(st, args[0])]
        if n.startswith(('llvm.smax', 'llvm.umax', 'llvm.smin', 'llvm.umin')):
            a, b = args
            out = []
            mx = 'max' in n
            for q in st.copy().assume(Cmp('lt', a, b), True):
                out.append((q, b if mx else a))
            for q in st.copy().assume(Cmp('lt', a, b), False):
                out.append((q, a if mx else b))
            return [(q, subst(v, {})) for q, v in out]
        return [(st, I.unknown(st, ins.ty, 'intr') if ins.dst else None)]
    if n in ('__cxa_throw', '__cxa_rethrow', '_ZSt9terminatev', 'abort', '__assert_fail', '_ZSt20__throw_length_errorPKc',
             '_ZSt17__throw_bad_allocv', 'exit') or n.startswith('_ZSt') and '__throw_' in n:
        st.dead = True
        return [(st, None)]
    if n in ('__cxa_allocate_exception',):
        return [(st, Ptr(('heap', 'exc')))]
    if n == '__clang_call_terminate':
        st.dead = True
        return [(st, None)]
    return None


def copy_cells(I, st, d, q, sz):
    src = dict(st.mem.get(q.r, {}))
    dst = st.mem.setdefault(d.r, {})
    new = {}
    for o, v in src.items():
        if o == 'dflt':
            continue
        x = o.add(q.o, -1)
        if x.isconst() and sz.isconst():
            if 0 <= x.c < sz.c:
                new[d.o.add(x)] = v
    for o in list(dst):
        if o == 'dflt':
            continue
        x = o.add(d.o, -1)
        if x.isconst() and sz.isconst() and not (0 <= x.c < sz.c):
            continue
        del dst[o]
    dst.update(new)
    # unread source cells: remember as lazily linked copies
    if sz.isconst():
        st.g[('cpy', d.r, d.o)] = (q.r, q.o, sz.c)
