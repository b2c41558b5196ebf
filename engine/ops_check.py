"""Spec combinators: run every most-general client and collect rule violations."""
import os, time
from multiprocessing import Pool
import ir
from ir import AnalysisBroken
from absint import *
from specmodel import SpecModel

_M = {}


def module():
    if 'm' not in _M:
        _M['m'] = ir.compile_ir('ops.cpp')
    return _M['m']


def describe(fname):
    base = fname.split('__')[0]
    if base.startswith('f_'):
        base = base[2:]
    kind, n = base.rstrip('0123456789'), int(base[-1])
    fold = kind in ('and', 'or', 'union', 'inter')
    comps = tuple(range(1, n + 1)) if fold else ((1,) if n == 2 else (4,))
    return kind, comps, 2 if fold else n


def run_client(fname):
    m = module()
    t = time.time()
    kind, comps, ar = describe(fname)
    model = SpecModel(kind, comps, ar)
    I = Interp(m, model)
    fn = m.funcs['@' + fname]
    args, st = [], State()
    for ty, nm in fn.params:
        if ty[0] == 'ptr':
            args.append(Ptr(('arg', nm)))
        else:
            v = S(('arg', nm))
            args.append(v)
            st.g['numvars'] = v
    try:
        I.run([I.start(fn, args, st)])
    except AnalysisBroken as e:
        if not I.violations:
            raise
    return dict(client=fname, kind=kind, viol=[(v.rule, v.msg, v.loc, v.stack) for v in I.violations.values()],
                states=I.stats['states'], joins=I.stats['joins'], steps=I.stats['steps'], exits=len(I.exits),
                funcs=sorted(f for f in I.stats['funcs'] if 'tdzdd::' in f), checked=dict(model.checked),
                sites=sorted(model.sites), unmodelled=dict(I.stats['unmodelled']), wall=time.time() - t)


def clients(m):
    return sorted(f.name[1:] for f in m.funcs.values()
                  if not f.decl and not f.name.startswith('@_') and ('__' in f.name or f.name.startswith('@f_')))


def run(select):
    m = module()
    cl = [c for c in clients(m) if select(c)]
    if not cl:
        raise AnalysisBroken('no combinator client found')
    # slow ones first
    cl.sort(key=lambda c: ('union3' not in c, 'and3' not in c, 'pair' not in c))
    with Pool(min(8, os.cpu_count() or 1)) as p:
        return p.map(run_client, cl, chunksize=1)
