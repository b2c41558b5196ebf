import os, time, sys
from multiprocessing import Pool
import ir
from ir import AnalysisBroken
from absint import *
from buildmodel import BuildModel, LV
from submodel import SubModel

_M = {}


def module():
    if 'm' not in _M:
        _M['m'] = ir.compile_ir('build.cpp', ['-O1', '-Xclang', '-disable-llvm-passes'])
    return _M['m']


def make(kind, ar, mode):
    return (SubModel if kind == 'sub' else BuildModel)(kind, ar, mode)


def run_client(job, dbg=False):
    fname, mode = job
    m = module()
    t = time.time()
    kind, ar = fname[:3], int(fname[3])
    model = make(kind, ar, mode)
    model.dbg = dbg
    I = Interp(m, model)
    fn = m.funcs['@' + fname]
    args = []
    for ty, nm in fn.params:
        if ty[0] == 'ptr':
            args.append(Ptr(('root',)) if nm == '%root' else Ptr(('arg', nm)))
        else:
            args.append(LV)
    try:
        I.run([I.start(fn, args, State())])
    except AnalysisBroken:
        if not I.violations:
            raise
    return dict(client='%s/%s' % job, viol=[(v.rule, v.msg, v.loc, v.stack) for v in I.violations.values()],
                states=I.stats['states'], joins=I.stats['joins'], steps=I.stats['steps'], exits=len(I.exits),
                funcs=sorted(f for f in I.stats['funcs'] if 'tdzdd::' in f), checked=dict(model.checked),
                sites=sorted(model.sites), unmodelled=dict(I.stats['unmodelled']), wall=time.time() - t)


def jobs(m):
    out = []
    for f in m.funcs.values():
        if f.decl or f.name.startswith('@_') or '__' not in f.name:
            continue
        n = f.name[1:]
        for mode in (['n%d' % b for b in range(int(n[3]))] + ['pair', 'hist'] if n.endswith('__level') else ['init']):
            out.append((n, mode))
    return sorted(out)


def run(select=lambda c: True):
    js = [j for j in jobs(module()) if select(j[0])]
    with Pool(8) as p:
        return p.map(run_client, js, chunksize=1)


if __name__ == '__main__':
    sel = sys.argv[1:]
    for j in jobs(module()):
        if sel and not any(x in '/'.join(j) for x in sel):
            continue
        r = run_client(j, True)
        print(r['client'], 'states', r['states'], 'exits', r['exits'], '%.1fs' % r['wall'], r['unmodelled'], r['checked'])
        for v in r['viol']:
            print('   ', v[0], v[1], v[2])
