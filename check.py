#!/usr/bin/env python3
"""check.py <property-id>: decide one property on /repo's current tree."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.dont_write_bytecode = True
from ir import AnalysisBroken
import rules


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    try:
        res = rules.CHECKS[pid]()
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    known = load_known(pid)
    new, old = [], []
    seen = set()
    for v in res['violations']:
        k = (v['rule'], v['msg'], v['file'], v['func'])
        if k in seen:
            continue
        seen.add(k)
        (old if any(matches(f, v) for f in known) else new).append(v)
    for v in old:
        print('KNOWN-FINDING: property=%s %s:%s %s: %s' % (pid, v['file'], v['line'], v['func'], v['msg']))
    for f in ('%s.report.txt' % pid,):
        fp = os.path.join(ev, f)
        if os.path.exists(fp):
            os.remove(fp)
    cov = dict(res['coverage'])
    cov.setdefault('explanation', res.get('explanation', ''))
    json.dump(dict(property=pid, tier='thorough' if tier == 'thorough' else 'quick', seed=seed, level='other',
                   coverage=cov, assumptions=res.get('assumptions', []), wall_s=round(time.time() - t0, 2),
                   violations=len(new)), open(os.path.join(ev, pid + '.json'), 'w'), indent=1, default=str)
    if new:
        fp = os.path.join(ev, '%s.report.txt' % pid)
        with open(fp, 'w') as fh:
            for v in new:
                txt = '%s:%s: in %s: [%s] %s\n' % (v['file'], v['line'], v['func'], v['rule'], v['msg'])
                fh.write(txt)
                for d, l in v.get('stack', []):
                    fh.write('    at %s  (%s:%s)\n' % (d, l[0], l[1]))
                print(txt, end='')
        print('VIOLATION property=%s replay=%s' % (pid, fp))
        return 1
    print('OK property=%s %s' % (pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, float))})))
    return 0


def load_known(pid):
    fp = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(fp):
        for l in open(fp):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def matches(f, v):
    return f['rule'] == v['rule'] and f['file'] == v['file'] and f['func'] in v['func'] and f['msg'] == v['msg']


if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('ANALYSIS-BROKEN internal error')
        sys.exit(2)
