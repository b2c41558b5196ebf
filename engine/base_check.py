import os, time
from multiprocessing import Pool
import ir
from ir import AnalysisBroken
from absint import *
from basemodel import BaseModel

_M = {}


def module():
    if 'm' not in _M:
        _M['m'] = ir.compile_ir('base.cpp')
    return _M['m']


def run_client(fname):
    m = module()
    t = time.time()
    model = BaseModel(fname.split('__')[0])
    I = Interp(m, model)
    fn = m.funcs['@' + fname]
    st = State()
    args = []
    for ty, nm in fn.params:
        args.append(Ptr(('arg', nm)) if ty[0] == 'ptr' else S(('arg', 'n')))
    st.add_le(S(('arg', 'n')).scale(-1))
    try:
        I.run([I.start(fn, args, st)])
    except AnalysisBroken:
        if not I.violations:
            raise
    return dict(client=fname, viol=[(v.rule, v.msg, v.loc, v.stack) for v in I.violations.values()],
                states=I.stats['states'], joins=I.stats['joins'], steps=I.stats['steps'], exits=len(I.exits),
                funcs=sorted(f for f in I.stats['funcs'] if 'tdzdd::' in f), checked=dict(model.checked),
                sites=sorted(model.sites), unmodelled=dict(I.stats['unmodelled']), wall=time.time() - t)


def clients(m):
    return sorted(f.name[1:] for f in m.funcs.values() if not f.decl and not f.name.startswith('@_') and '__' in f.name)


def run(select=lambda c: True):
    m = module()
    cl = [c for c in clients(m) if select(c)]
    with Pool(8) as p:
        return p.map(run_client, cl, chunksize=1)


if __name__ == '__main__':
    import sys
    for r in (run() if len(sys.argv) < 2 else [run_client(sys.argv[1])]):
        print(r['client'], 'states', r['states'], 'exits', r['exits'], '%.1fs' % r['wall'], r['unmodelled'])
        for v in r['viol']:
            print('   ', v[0], v[1], v[2])
