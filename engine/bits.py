"""Bit-precise dataflow over loop-free SSA.

Every bit of every value is a canonical Boolean function (reduced ordered decision
diagram) of the bits of the arguments; products are kept only as the set of bits
they depend on.  No path is enumerated: phis merge by block condition."""
import ir
from ir import AnalysisBroken

W = 64


class BDD:
    def __init__(s):
        s.n = [(1 << 30, 0, 0), (1 << 30, 1, 1)]
        s.u = {}
        s.c = {}

    def mk(s, v, a, b):
        if a == b:
            return a
        k = (v, a, b)
        r = s.u.get(k)
        if r is None:
            r = s.u[k] = len(s.n)
            s.n.append(k)
        return r

    def var(s, v):
        return s.mk(v, 0, 1)

    def ite(s, f, g, h):
        if f == 1 or g == h:
            return g
        if f == 0:
            return h
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = s.c.get(k)
        if r is None:
            v = min(s.n[f][0], s.n[g][0], s.n[h][0])
            p = [s.n[x][1] if s.n[x][0] == v else x for x in k]
            q = [s.n[x][2] if s.n[x][0] == v else x for x in k]
            r = s.c[k] = s.mk(v, s.ite(*p), s.ite(*q))
        return r

    def neg(s, f):
        return s.ite(f, 0, 1)

    def xor(s, f, g):
        return s.ite(f, s.neg(g), g)

    def supp(s, f, out=None):
        out = set() if out is None else out
        st, seen = [f], set()
        while st:
            x = st.pop()
            if x > 1 and x not in seen:
                seen.add(x)
                v, a, b = s.n[x]
                out.add(v)
                st += [a, b]
        return out


B = BDD()
# argument k, bit i of an 8-argument function: interleaved, high bits first


def av(k, i):
    return (W - 1 - i) * 8 + k


def argbits(k, n):
    return [B.var(av(k, i)) for i in range(n)]


class Opaque:
    """bits unknown; depends on these variables only"""

    def __init__(s, dep):
        s.dep = frozenset(dep)


def dep(x):
    if isinstance(x, Opaque):
        return x.dep
    o = set()
    for b in x:
        B.supp(b, o)
    return o


def const(v, n):
    return [(v >> i) & 1 for i in range(n)]


def isconst(x):
    return not isinstance(x, Opaque) and all(b in (0, 1) for b in x)


def cval(x):
    return sum(b << i for i, b in enumerate(x))


def b_eq(a, b):
    r = 1
    for x, y in zip(a, b):
        r = B.ite(B.xor(x, y), 0, r)
    return r


def b_ult(a, b):
    r = 0
    for x, y in zip(a, b):  # low to high
        r = B.ite(B.xor(x, y), y, r)
    return r


def b_add(a, b, c=0):
    out = []
    for x, y in zip(a, b):
        s = B.xor(x, y)
        out.append(B.xor(s, c))
        c = B.ite(s, c, x)
    return out


def sel(c, a, b):
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if a is b:
            return a
        return Opaque(dep(a) | dep(b) | B.supp(c))
    return [B.ite(c, x, y) for x, y in zip(a, b)]


class Eval:
    def __init__(s, m, fn, args):
        s.m, s.fn = m, fn
        s.r = {}
        s.steps = 0
        s.mem = {}
        for (ty, nm), a in zip(fn.params, args):
            s.r[nm] = a

    def bits(s, ty):
        if ty[0] == 'i':
            return ty[1]
        raise AnalysisBroken('bits: type %r in %s' % (ty, s.fn.name))

    def val(s, v, ty):
        if v[0] == 'int':
            return const(v[1], s.bits(ty))
        if v[0] == 'reg':
            return s.r[v[1]]
        if v[0] in ('undef', 'zero'):
            return const(0, s.bits(ty))
        raise AnalysisBroken('bits: operand %r in %s' % (v, s.fn.name))

    def run(s):
        """one pass per feasible combination of symbolic branches; loops have constant trip counts"""
        fn = s.fn
        work = [(fn.order[0], None, 1, dict(s.r), {})]
        outs = []
        while work:
            b, prev, cond, s.r, s.mem = work.pop()
            phis = {}
            for ins in fn.blocks[b]:
                if ins.op == 'phi':
                    for a, src in ins.a:
                        if src == prev:
                            phis[ins.dst] = s.val(a, ins.ty)
            s.r.update(phis)
            for ins in fn.blocks[b]:
                s.steps += 1
                if s.steps > 20000:
                    raise AnalysisBroken('bits: loop without constant bound in %s' % fn.name)
                if ins.op == 'phi':
                    continue
                if ins.op == 'br' or ins.op == 'switch':
                    if ins.op == 'switch':
                        v = s.val(ins.a[0], ins.ty)
                        d, cases = ins.x
                        es, rest = [], cond
                        for k, t in cases:
                            c = b_eq(v, const(k, len(v)))
                            es.append((t, B.ite(c, rest, 0)))
                            rest = B.ite(c, 0, rest)
                        es.append((d, rest))
                    elif not ins.a:
                        es = [(ins.x[0], cond)]
                    else:
                        c = s.val(ins.a[0], ('i', 1))[0]
                        es = [(ins.x[0], B.ite(c, cond, 0)), (ins.x[1], B.ite(c, 0, cond))]
                    for t, c in es:
                        if c:
                            work.append((t, b, c, dict(s.r), dict(s.mem)))
                elif ins.op == 'ret':
                    if ins.a:
                        outs.append((cond, s.val(ins.a[0], ins.ty)))
                elif ins.op == 'unreachable':
                    pass
                elif ins.op == 'alloca':
                    s.r[ins.dst] = ('ptr', ins.dst, 0)
                elif ins.op == 'getelementptr':
                    s.r[ins.dst] = s.gep(ins)
                elif ins.op == 'load':
                    s.r[ins.dst] = s.load(s.r[ins.a[0][1]], ins.ty)
                elif ins.op == 'store':
                    q = s.r[ins.a[1][1]]
                    v = s.val(ins.a[0], ins.ty)
                    for k in [k for k in s.mem if k[0] == q[1] and k[1] < q[2] + len(v) // 8 and q[2] < k[1] + len(s.mem[k]) // 8]:
                        del s.mem[k]
                    s.mem[(q[1], q[2])] = v
                elif ins.op == 'call':
                    nm = ins.x[0][1] if ins.x[0][0] == 'glob' else ''
                    if nm.startswith(('@llvm.dbg', '@llvm.lifetime', '@llvm.assume', '@llvm.experimental.noalias')):
                        continue
                    if nm.startswith('@llvm.memcpy'):
                        d, q, n = (s.val(v, t) for t, v in ins.a[:3])
                        for (r, o), v in list(s.mem.items()):
                            if r == q[1] and q[2] <= o < q[2] + cval(n):
                                s.mem[(d[1], d[2] + o - q[2])] = v
                        continue
                    a = [s.val(v, t) for t, v in ins.a]
                    if nm.startswith(('@llvm.umin', '@llvm.umax')):
                        c = b_ult(a[0], a[1])
                        s.r[ins.dst] = sel(c, a[0], a[1]) if 'umin' in nm else sel(c, a[1], a[0])
                    elif nm.startswith('@llvm.fsh') and isconst(a[2]):
                        n = len(a[0])
                        k = cval(a[2]) % n
                        w = a[1] + a[0]
                        s.r[ins.dst] = w[n - k:2 * n - k] if '.fshl' in nm else w[k:k + n]
                    elif nm.startswith('@llvm.'):
                        s.r[ins.dst] = Opaque(set().union(*[dep(x) for x in a]))
                    else:
                        raise AnalysisBroken('bits: call %s in %s' % (nm, fn.name))
                else:
                    s.r[ins.dst] = s.ins(ins)
        res = None
        for c, v in outs:
            res = v if res is None else sel(c, v, res)
        return res

    def gep(s, ins):
        (_, bv), *idx = ins.a
        q = s.r[bv[1]]
        off, ty = q[2], ins.ty
        for n, (t, v) in enumerate(idx):
            x = s.val(v, t)
            if not isconst(x):
                raise AnalysisBroken('bits: variable index in %s' % s.fn.name)
            k = cval(x)
            if k >> (len(x) - 1):
                k -= 1 << len(x)
            if n == 0:
                off += k * s.m.size(ty)
            elif ty[0] == 'arr':
                ty = ty[2]
                off += k * s.m.size(ty)
            else:
                o, ty = s.m.field(ty, k)
                off += o
        return ('ptr', q[1], off)

    def load(s, q, ty):
        n = s.bits(ty)
        v = s.mem.get((q[1], q[2]))
        if v is not None and not isinstance(v, Opaque) and len(v) >= n:
            return v[:n]
        if v is None:
            return argbits(7, n)  # never written
        return v

    def ins(s, i):
        op = i.op
        if op in ('zext', 'sext', 'trunc'):
            a = s.val(i.a[0], i.x)
            n = s.bits(i.ty)
            if isinstance(a, Opaque):
                return a
            if op == 'trunc':
                return a[:n]
            return a + [0 if op == 'zext' else a[-1]] * (n - len(a))
        if op == 'freeze':
            return s.val(i.a[0], i.ty)
        if op == 'select':
            c = s.val(i.a[0], ('i', 1))
            return sel(c[0], s.val(i.a[1], i.ty), s.val(i.a[2], i.ty))
        a, b = s.val(i.a[0], i.ty), s.val(i.a[1], i.ty)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if op == 'icmp':
                raise AnalysisBroken('bits: comparison of a product')
            return Opaque(dep(a) | dep(b))
        if op == 'icmp':
            p = i.x
            if p[0] == 's':
                a, b = a[:-1] + [B.neg(a[-1])], b[:-1] + [B.neg(b[-1])]
                p = 'u' + p[1:]
            r = {'eq': lambda: b_eq(a, b), 'ne': lambda: B.neg(b_eq(a, b)), 'ult': lambda: b_ult(a, b),
                 'ugt': lambda: b_ult(b, a), 'ule': lambda: B.neg(b_ult(b, a)), 'uge': lambda: B.neg(b_ult(a, b))}[p]()
            return [r]
        if op == 'and':
            return [B.ite(x, y, 0) for x, y in zip(a, b)]
        if op == 'or':
            return [B.ite(x, 1, y) for x, y in zip(a, b)]
        if op == 'xor':
            return [B.xor(x, y) for x, y in zip(a, b)]
        n = len(a)
        if op in ('shl', 'lshr', 'ashr') and isconst(b):
            k = cval(b)
            if op == 'shl':
                return ([0] * k + a)[:n]
            return a[k:] + [0 if op == 'lshr' else a[-1]] * min(k, n)
        if op == 'add':
            return b_add(a, b)
        if op == 'sub' and isconst(b):
            return b_add(a, [B.neg(x) for x in b], 1)
        if op in ('shl', 'lshr', 'ashr') and all(x in (0, 1) for x in b[7:]) and len(dep(b)) == 1:
            # shift by a one-bit amount
            lo = const(cval([0 if x > 1 else x for x in b]), n)
            hi = const(cval([1 if x > 1 else x for x in b]), n)
            if all(x in (0, 1) or x == [y for y in b if y > 1][0] for x in b):
                c = [y for y in b if y > 1][0]
                sh = lambda k: (([0] * k + a)[:n] if op == 'shl' else a[k:] + [0 if op == 'lshr' else a[-1]] * k)
                return sel(c, sh(cval(hi)), sh(cval(lo)))
        return Opaque(dep(a) | dep(b))


# ------------------------------------------------------------------ what Node.hpp must do
ROWB, COLB = 20, 43          # documented packing: 20-bit level, 43-bit column, 1 attribute bit


def spec():
    """observation -> (declared member, expected bits or predicate, precondition)"""
    X = lambda k: argbits(k, 64)
    z = lambda bits, n: bits + [0] * (n - len(bits))
    row = lambda x: x[44:64]
    col = lambda x: x[:43]
    code = lambda x: x[:43] + [0] + x[44:]
    at = lambda x: x[43]
    r, c = z(argbits(0, ROWB), 64), z(argbits(1, COLB), 64)
    rc = r, c
    a = argbits(2, 1)
    x, y = X(0), X(1)
    cx, cy = code(x), code(y)
    eq = b_eq(cx, cy)
    lt, gt = b_ult(cx, cy), b_ult(cy, cx)
    one = const(1, 64)
    zero = const(0, 64)
    D = {}
    enc = c[:43] + [0] + r[:20]
    for sfx, args in (('', (r, c)), ('3', (r, c, a))):
        D['row' + sfx] = ('row', args, z(r[:20], 32))
        D['col' + sfx] = ('col', args, z(c[:43], 64))
        D['attr' + sfx] = ('getAttr', args, [a[0] if sfx else 0])
        D['code' + sfx] = ('code', args, enc)
    D['rowx'] = ('row', (x,), z(row(x), 32))
    D['colx'] = ('col', (x,), z(col(x), 64))
    D['attrx'] = ('getAttr', (x,), [at(x)])
    D['codex'] = ('code', (x,), cx)
    a1 = argbits(1, 1)
    D['setrow'] = ('setAttr', (x, a1), z(row(x), 32))
    D['setcol'] = ('setAttr', (x, a1), z(col(x), 64))
    D['setattr'] = ('setAttr', (x, a1), a1)
    D['worow'] = ('withoutAttr', (x,), z(row(x), 32))
    D['wocol'] = ('withoutAttr', (x,), z(col(x), 64))
    D['woattr'] = ('withoutAttr', (x,), [0])
    D['empty'] = ('hasEmpty', (x,), [B.ite(b_eq(x, one), 1, at(x))])
    D['hash'] = ('hash', (x,), Opaque({av(0, i) for i in range(64) if i != 43}))
    D['eq'] = ('operator==', (x, y), [eq])
    D['ne'] = ('operator!=', (x, y), [B.neg(eq)])
    D['lt'] = ('operator<', (x, y), [lt])
    D['gt'] = ('operator>', (x, y), [gt])
    D['le'] = ('operator<=', (x, y), [B.neg(gt)])
    D['ge'] = ('operator>=', (x, y), [B.neg(lt)])
    D['is0'] = ('operator==', (x,), [b_eq(cx, zero)])
    D['is1'] = ('operator==', (x,), [b_eq(cx, one)])
    D['t0row'] = ('row', (), const(0, 32))
    D['t1row'] = ('row', (), const(0, 32))
    D['t1col'] = ('col', (), const(1, 64))
    six = tuple(X(k) for k in range(6))
    for n in (2, 3):
        e = 1
        for k in range(n):
            e = B.ite(b_eq(code(six[k]), code(six[3 + k])), e, 0)
        D['neq%d' % n] = ('Node::operator==', six, [e])
        D['nne%d' % n] = ('Node::operator!=', six, [B.neg(e)])
        D['nhash%d' % n] = ('Node::hash', six[:3], Opaque({av(k, i) for k in range(n) for i in range(64) if i != 43}))
        for t in ('nbr%d_0', 'nbr%d_1', 'n2%d_0', 'n2%d_1', 'n2%d_l', 'nc%d'):
            D[t % n] = ('Node::Node', six[:3], [1])
        D['ni%d' % n] = ('InitializedNode::InitializedNode', (x,), [1])
    i0, u1, i2 = argbits(0, 32), X(1), argbits(2, 32)
    D['nbrow'] = ('NodeBranchId::NodeBranchId', (i0, u1, i2), i0)
    D['nbcol'] = ('NodeBranchId::NodeBranchId', (i0, u1, i2), u1)
    D['nbval'] = ('NodeBranchId::NodeBranchId', (i0, u1, i2), i2)
    return D


WHAT = {'row': 'level', 'col': 'column', 'attr': 'attribute', 'code': 'code'}


def where(m, member):
    """file and line of a member function from the debug information"""
    import re
    cls, nm = member.split('::') if '::' in member else ('NodeId', member)
    for k, v in m.meta.items():
        if 'DISubprogram(' in v and 'name: "%s"' % nm in v:
            f = m.scope_file(k)
            if f.endswith('Node.hpp'):
                l = re.search(r'line: (\d+)', v)
                ln = re.search(r'linkageName: "([^"]*)"', v)
                if ln and ('%d%s' % (len(cls), cls)) in ln.group(1):
                    return f, int(l.group(1))
    return ir.REPO + '/include/tdzdd/dd/Node.hpp', 0


def run():
    m = ir.compile_ir('bits.cpp', extra=['-O1', '-Xclang', '-disable-llvm-passes'], passes='default<O1>')
    D = spec()
    viol, n, steps, bits = [], 0, 0, 0
    for k, (member, args, exp) in sorted(D.items()):
        fn = m.funcs.get('@b_' + k)
        if fn is None:
            raise AnalysisBroken('observation %s vanished' % k)
        e = Eval(m, fn, args)
        got = e.run()
        n += 1
        steps += e.steps
        if isinstance(exp, Opaque):
            bits += 64
            extra = dep(got) - exp.dep
            if extra:
                viol.append(('node-id', 'the hash code depends on something equality ignores', where(m, member), member, k))
            continue
        bits += len(exp)
        if isinstance(got, Opaque) or got != exp:
            viol.append(('node-id', 'observation %s of a node (id) is not what its documented encoding gives' % k,
                         where(m, member), member, k))
    return dict(viol=viol, obs=n, steps=steps, bits=bits, nodes=len(B.n))


if __name__ == '__main__':
    r = run()
    print({k: v for k, v in r.items() if k != 'viol'})
    for v in r['viol']:
        print(v)
