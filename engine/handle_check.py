"""Shared node tables (copy on write).

Objects are allocated from a small pool; a table's contents is a token.  The oracle
keeps, per handler, the token it must hold; the code decides sharing, copying and
destruction.  Everything is finite, so all histories of three handlers and one
temporary are covered."""
import re, time
from multiprocessing import Pool
import ir
from ir import AnalysisBroken
from absint import *

ENT = re.compile(r'^tdzdd::NodeTableEntity<\d+>::(~?\w+|operator=|operator\[\])\((.*)\)( const)?$')
DT = re.compile(r'^tdzdd::DataTable<tdzdd::Node<\d+> ?>::(~?\w+|operator=|operator\[\])\((.*)\)( const)?$')
ROW = re.compile(r'^tdzdd::MyVector<tdzdd::Node<\d+>, unsigned long>::(~?\w+|operator=|operator\[\])\((.*)\)( const)?$')
BAD = 'sharing'
CONSTM = ('size', 'empty', 'numRows', 'numVars', 'rowSize', 'totalSize', 'node', 'child', 'data', 'begin', 'end', 'operator[]')


class HandleModel(Model):
    def __init__(s):
        s.checked, s.sites = {}, set()

    def ck(s, k):
        s.checked[k] = s.checked.get(k, 0) + 1

    def bad(s, st, msg, ins=None):
        s.I.report(st, BAD, msg, ins)
        st.dead = True

    def gen_limit(s, hk, fn, ptr):
        return 8  # counts stay below this unless references are lost

    # ------------------------------------------------------------ heap
    def isobj(s, r):
        return isinstance(r, tuple) and r[:2] == ('heap', 'o')

    def alloc(s, st):
        used = set()
        for f in st.fr:
            for v in f.regs.values():
                if isinstance(v, Ptr):
                    used.add(v.r)
        for c in st.mem.values():
            for v in c.values():
                if isinstance(v, Ptr):
                    used.add(v.r)
        k = 0
        while ('obj', k) in st.g or ('heap', 'o', k) in used:
            k += 1
        if k > 8:
            return None
        st.g[('obj', k)] = 1
        return Ptr(('heap', 'o', k))

    def live(s, st, p, ins, what):
        r = p.r if not (isinstance(p.r, tuple) and p.r[0] == 'row') else p.r[1]
        if s.isobj(r) and ('obj', r[2]) not in st.g:
            s.bad(st, '%s a table that was already released' % what, ins)
            return False
        return True

    def on_load(s, st, p, ty, ins):
        s.ck('loads')
        if isinstance(p, Ptr):
            s.live(st, p, ins, 'reads')
        return None

    def on_store(s, st, p, v, ty, ins):
        if isinstance(p, Ptr) and not s.live(st, p, ins, 'writes'):
            return True
        if isinstance(p, Ptr) and isinstance(p.r, tuple) and p.r[0] == 'row':
            s.write(st, p.r[1:], ins)
            return True
        return False

    def before_canon(s, st):
        """symmetry: number objects and tokens in order of appearance"""
        om, tm = {}, {}

        def see(v):
            if isinstance(v, Ptr):
                r = v.r[1] if isinstance(v.r, tuple) and v.r[0] == 'row' else v.r
                if s.isobj(r) and r[2] not in om:
                    om[r[2]] = len(om)
        for f in st.fr:
            for r in sorted(f.regs):
                see(f.regs[r])
        for r in sorted((r for r in st.mem if not s.isobj(r)), key=skey):
            for o in sorted(st.mem[r], key=skey):
                see(st.mem[r][o])
        for k in sorted(k[1] for k in st.g if isinstance(k, tuple) and k[0] == 'obj'):
            if k not in om:
                s.bad(st, 'a table is never released although nobody holds it any more')
                return
            om.setdefault(k, len(om))
        if any(a != b for a, b in om.items()):
            def ren(x):
                if isinstance(x, Ptr):
                    return Ptr(ren(x.r), x.o)
                if s.isobj(x):
                    return ('heap', 'o', om.get(x[2], x[2]))
                if isinstance(x, tuple) and x[:1] in (('ent',), ('row',), ('val',), ('rows',), ('cpy',)):
                    return tuple(ren(y) for y in x)
                if isinstance(x, tuple) and x[:1] == ('obj',):
                    return ('obj', om.get(x[1], x[1]))
                return x
            for f in st.fr:
                f.regs = {k: ren(v) for k, v in f.regs.items()}
            st.mem = {ren(r): {o: ren(v) for o, v in c.items()} for r, c in st.mem.items()}
            st.g = {ren(k): ren(v) if isinstance(v, (Ptr, tuple)) else v for k, v in st.g.items()}
        ks = sorted((k for k in st.g if isinstance(k, tuple) and k[0] in ('ent', 'val')), key=skey)
        for k in ks:
            if isinstance(st.g[k], int):
                tm.setdefault(st.g[k], len(tm))
        for k in ks:
            if isinstance(st.g[k], int):
                st.g[k] = tm[st.g[k]]

    # ------------------------------------------------------------ contents
    def tok(s, st):
        used = {v for k, v in st.g.items() if isinstance(k, tuple) and k[0] in ('ent', 'val')}
        t = 0
        while t in used:
            t += 1
        return t

    def ekey(s, p):
        return ('ent', p.r, p.o)

    def entity(s, st, p, ins, what='uses'):
        if not isinstance(p, Ptr):
            raise AnalysisBroken('table address')
        if not s.live(st, p, ins, what):
            return None
        k = s.ekey(p)
        if k not in st.g:
            s.bad(st, '%s a table that does not exist' % what, ins)
            return None
        return k

    def write(s, st, ro, ins):
        k = ('ent',) + tuple(ro)
        if k not in st.g:
            s.bad(st, 'writes a table that does not exist', ins)
            return
        st.g[k] = s.tok(st)
        st.g.pop(('rows',) + k, None)

    def call(s, st, f, ins, name, dem, args):
        if name in ('@_Znwm', '@_Znam'):
            p = s.alloc(st)
            if p is None:
                s.bad(st, 'tables are never released', ins)
                return []
            return [(st, p)]
        if name and name.startswith(('@_ZdlPv', '@_ZdaPv')):
            p = args[0]
            if isinstance(p, Ptr) and s.isobj(p.r):
                if not s.live(st, p, ins, 'releases'):
                    return []
                if any(isinstance(k, tuple) and k[0] == 'ent' and k[1] == p.r for k in st.g):
                    s.bad(st, 'storage is released without destroying the table in it', ins)
                    return []
                del st.g[('obj', p.r[2])]
                st.mem.pop(p.r, None)
            return [(st, None)]
        if dem:
            m = ENT.match(dem) or DT.match(dem)
            if m:
                return s.ent(st, ins, m.group(1), m.group(2), bool(m.group(3)), args)
            m = ROW.match(dem)
            if m:
                p = args[0]
                if isinstance(p, Ptr) and isinstance(p.r, tuple) and p.r[0] == 'row':
                    if not s.live(st, p, ins, 'uses'):
                        return []
                    if m.group(1) not in CONSTM and not m.group(3):
                        s.write(st, p.r[1:], ins)
                        if st.dead:
                            return []
                    return [(st, s.I.unknown(st, ins.ty, 'row') if ins.dst else None)]
        if name and name.startswith('@vp_'):
            return s.vp(st, ins, name[4:], args)
        return base_call(s.I, st, f, ins, name, dem, args)

    def ent(s, st, ins, op, argt, const, args):
        p = args[0]
        s.ck('table-ops')
        g = st.g
        if op in ('NodeTableEntity', 'DataTable'):
            if s.ekey(p) in g:
                s.bad(st, 'a table is constructed over another one', ins)
                return []
            if 'NodeTableEntity' in argt or 'DataTable' in argt:
                k = s.entity(st, args[1], ins, 'copies')
                if k is None:
                    return []
                g[s.ekey(p)] = g[k]
            else:
                g[s.ekey(p)] = s.tok(st)
                g[('rows',) + s.ekey(p)] = s.I.as_lin(st, args[1])
            return [(st, None)]
        k = s.entity(st, p, ins)
        if k is None:
            return []
        if op[0] == '~':
            del g[k]
            g.pop(('rows',) + k, None)
            return [(st, None)]
        if op == 'operator=':
            k2 = s.entity(st, args[1], ins, 'copies')
            if k2 is None:
                return []
            s.write(st, (p.r, p.o), ins)
            g[k] = g[k2]
            return [(st, p)]
        if op == 'operator[]':
            return [(st, Ptr(('row', p.r, p.o)))]
        if not const and op not in CONSTM:
            s.write(st, (p.r, p.o), ins)
            if st.dead:
                return []
            if op == 'init':
                g[('rows',) + k] = s.I.as_lin(st, args[1])
        return [(st, s.I.unknown(st, ins.ty, 'ent') if ins.dst else None)]

    # ------------------------------------------------------------ oracle
    def vp(s, st, ins, op, args):
        g = st.g
        if op == 'choice':
            return [(st, S(fresh('ch')))]
        if op == 'end':
            if any(isinstance(k, tuple) and k[0] in ('obj', 'ent') for k in g):
                s.bad(st, 'a table is never released although nobody holds it any more', ins)
                return []
            return [(st, None)]
        h = ('val', args[0].r, args[0].o)
        s.site(st, ins, op)
        if op == 'gone':
            g.pop(h)
            return [(st, None)]
        if op == 'same':
            g[h] = g[('val', args[1].r, args[1].o)]
            return [(st, None)]
        if op == 'dropped':
            # what happened to this handler's own contents is its business; it shows at the next look
            g[h] = 'drop'
            return [(st, None)]
        k = s.entity(st, args[1], ins)
        if k is None:
            return []
        s.ck('values')
        if op in ('made', 'renew'):
            if g.get(('rows',) + k) != s.I.as_lin(st, args[2]):
                s.bad(st, 'a table is not initialised with the requested number of rows', ins)
                return []
            del g[('rows',) + k]
            g[k] = s.tok(st)
            g[h] = g[k]
            return [(st, None)]
        if op == 'look':
            if g[h] == 'drop':
                g[h] = g[k]
            elif g[h] != g[k]:
                s.bad(st, 'the table held by a handler is not the one it was given: it changed through another handler or was mixed up', ins)
                return []
            return [(st, None)]
        if op == 'priv':
            if g[h] != 'drop' and g[k] != g[h]:
                s.bad(st, 'making a table private changes its contents', ins)
                return []
            g[k] = s.tok(st)
            g[h] = g[k]
            return [(st, None)]
        raise AnalysisBroken('vp_' + op)

    def site(s, st, ins, what):
        for d in [fr.fn.dem for fr in st.fr if 'NodeTable' in fr.fn.dem]:
            s.sites.add((d, what))
        f, l = s.I.m.loc(ins)
        s.sites.add(('%s:%s' % (f, l), what))


_M = {}


def module():
    if 'm' not in _M:
        _M['m'] = ir.compile_ir('handle.cpp')
    return _M['m']


def run_client(fname):
    m = module()
    t = time.time()
    model = HandleModel()
    I = Interp(m, model)
    fn = m.funcs['@' + fname]
    st = State()
    args = [Ptr(('arg', nm)) if ty[0] == 'ptr' else S(('arg', nm)) for ty, nm in fn.params]
    try:
        I.run([I.start(fn, args, st)])
    except AnalysisBroken:
        if not I.violations:
            raise
    return dict(client=fname, viol=[(v.rule, v.msg, v.loc, v.stack) for v in I.violations.values()],
                states=I.stats['states'], joins=I.stats['joins'], steps=I.stats['steps'], exits=len(I.exits),
                funcs=sorted(f for f in I.stats['funcs'] if 'tdzdd::' in f), checked=dict(model.checked),
                sites=sorted(model.sites), unmodelled=dict(I.stats['unmodelled']), wall=time.time() - t)


def run():
    with Pool(2) as p:
        return p.map(run_client, ['h2__mgc', 'h3__mgc'], chunksize=1)


if __name__ == '__main__':
    for r in run():
        print(r['client'], 'states', r['states'], 'exits', r['exits'], '%.1fs' % r['wall'], r['unmodelled'], r['checked'])
        for v in r['viol']:
            print('   ', v[0], v[1], v[2])
