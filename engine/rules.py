"""Property id -> check.  A check returns violations + what it covered."""
import re
from ir import AnalysisBroken, REPO

CHECKS = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


def vio(rule, msg, loc, stack):
    """format: innermost function of the library on the stack"""
    fn = '?'
    for d, l in reversed(stack):
        if 'tdzdd::' in d and 'tdzdd' in l[0]:
            fn = d
            break
    else:
        if stack:
            fn = stack[-1][0]
    f = loc[0]
    if f.startswith(REPO + '/'):
        f = f[len(REPO) + 1:]
    fn = re.sub(r'vp::', '', fn)
    return dict(rule=rule, msg=msg, file=f, line=loc[1], func=fn, stack=stack)


def merge_cov(rs, rule):
    funcs, sites, chk = set(), set(), {}
    for r in rs:
        funcs |= set(r['funcs'])
        sites |= set(map(tuple, r['sites']))
        for k, v in r['checked'].items():
            chk[k] = chk.get(k, 0) + v
    return dict(clients=len(rs), functions_analysed=len(funcs), spec_call_sites=len(sites),
                abstract_states=sum(r['states'] for r in rs), joins=sum(r['joins'] for r in rs),
                exits=sum(r['exits'] for r in rs), obligations_by_kind=chk, obligations=sum(chk.values()), rule=rule,
                samples=[s for s in sorted('%s:%s' % s for s in sites)[:12]],
                functions=sorted(funcs)[:60])


def floor(name, got, want):
    if got < want:
        raise AnalysisBroken('%s: only %s instances found, expected at least %s' % (name, got, want))


# ------------------------------------------------------------------ combinators
def _ops(kinds, rules, select=None, floor_sites=4):
    import ops_check
    rs = ops_check.run(lambda c: ops_check.describe(c)[0] in kinds and (select is None or select(c)))
    vs = []
    for r in rs:
        for rule, msg, loc, stack in r['viol']:
            if rule in rules:
                vs.append(vio(rule, msg, loc, stack))
    return rs, vs


ASSUME = ['user specs honour the interface contract (result of get_child is -1, 0 or a smaller positive level; '
          'deterministic; equal_to is an equivalence)', 'no integer overflow in level and size arithmetic',
          'clang 18 resolves templates and overloads as the users compiler does']


def finish(rs, vs, text, rule, need):
    cov = merge_cov(rs, rule)
    if not vs and not any(r['viol'] for r in rs):
        floor('clients', cov['clients'], need[0])
        floor('spec call sites', cov['spec_call_sites'], need[1])
        floor('client exits', min(r['exits'] for r in rs), 1)
        floor('obligations', cov['obligations'], need[2])
    return dict(violations=vs, coverage=cov, explanation=text, assumptions=ASSUME)


@check('C01')
def c01():
    rs, vs = _ops(('and', 'or'), ('meaning', 'spec-protocol'), lambda c: 'pair' not in c and 'merge' not in c)
    return finish(rs, vs, 'fixpoint of the most general client of every and/or combinator (2 and 3 operands); at each '
                  'step the operand advances and the reported code are compared with the Boolean rule',
                  'operand at the node level advances exactly once by the taken branch, others stay; result is the '
                  'absorbing terminal iff an operand reached it, else the highest operand level', (14, 4, 200))


@check('C02')
def c02():
    rs, vs = _ops(('union', 'inter'), ('meaning', 'spec-protocol'), lambda c: 'pair' not in c and 'merge' not in c)
    return finish(rs, vs, 'fixpoint of the most general client of every union/intersection combinator',
                  'union: an operand skipped by a 1-branch is dropped; intersection: levels are only skipped by '
                  '0-branches of an operand above another; result is the family union/intersection', (14, 4, 200))


@check('C03')
def c03():
    rs, vs = _ops(('bddlook', 'zddlook', 'bddunred', 'zddunred'), ('meaning', 'spec-protocol'),
                  lambda c: 'pair' not in c and 'merge' not in c)
    return finish(rs, vs, 'fixpoint of the most general client of lookahead/unreduction for arity 2 and 3',
                  'lookahead leaves a node only when the BDD (all children equal) or ZDD (all non-0 children are 0) '
                  'deletion rule was established for it; unreduction visits every level once, with skipped levels '
                  'following the BDD/ZDD reading', (20, 8, 200))


@check('C04')
def c04():
    import ops_check
    allk = ('and', 'or', 'union', 'inter', 'bddlook', 'zddlook', 'bddunred', 'zddunred')
    rs, vs = _ops(allk, ('state-lifecycle', 'state-layout', 'state-copy', 'merge'))
    # a meaning violation that only shows after a copy / a copied spec object is a copying defect
    byk = {}
    for r in rs:
        byk.setdefault(r['client'].split('__')[0], {})[r['client'].split('__')[-1]] = r
    for k, d in byk.items():
        base = d.get('walk')
        if base is None or any(v[0] in ('meaning', 'spec-protocol') for v in base['viol']):
            continue
        for n in ('copy', 'spec', 'merge', 'pair'):
            for rule, msg, loc, stack in d.get(n, {}).get('viol', []):
                if rule in ('meaning', 'spec-protocol'):
                    vs.append(vio('state-copy', 'after %s: %s' % ({'copy': 'get_copy', 'spec': 'copying the spec object'}.get(n, 'get_copy'), msg), loc, stack))
    return finish(rs, vs, 'typestate analysis (raw/live) of every component state inside every combinator, with '
                  'storage disjointness', 'construct on raw, use and destruct on live exactly once, component storage '
                  'disjoint and inside datasize(), copies carry the whole state, merges consult every component',
                  (50, 20, 1000))


@check('C05')
def c05():
    allk = ('and', 'or', 'union', 'inter', 'bddlook', 'zddlook', 'bddunred', 'zddunred')
    rs, vs = _ops(allk, ('equality', 'hash-equality'), lambda c: 'pair' in c)
    for r in rs:
        for rule, msg, loc, stack in r['viol']:
            if rule == 'spec-protocol' and msg.startswith(('hash_code', 'equal_to')):
                vs.append(vio(rule, msg, loc, stack))
    return finish(rs, vs, 'for every pair of reachable states the client compares them; under "equal" both hash codes '
                  'must be the same expression', 'equal_to is true exactly when every component has the same level and '
                  'equal (or terminal) state; equal states have identical hash expressions', (10, 10, 50))


# ------------------------------------------------------------------ spec base classes
def _base():
    import base_check
    rs = base_check.run()
    vs = [vio(*v) for r in rs for v in r['viol']]
    return rs, vs


@check('C06')
def c06():
    rs, vs = _base()
    vs = [v for v in vs if v['rule'] in ('state-lifecycle', 'state-layout', 'state-copy', 'user-call')]
    return finish(rs, vs, 'fixpoint of the most general client of every spec base class, instantiated with scalar states of '
                  'sizes 3..16 bytes, classes with nontrivial copy/destroy, and arrays of 1..12-byte elements of symbolic length; '
                  'one skolem byte of the state is followed through every load, store and block copy',
                  'all accesses inside [0, datasize()); the parts handed to the user are aligned, disjoint and stable; state '
                  'objects are constructed and destructed exactly once; get_copy transfers every byte the user owns; user '
                  'functions get the level, branch and state asked for and their answers are passed on', (70, 20, 1000))


@check('C07')
def c07():
    rs, vs = _base()
    vs = [v for v in vs if v['rule'] == 'equality']
    return finish(rs, vs, 'relational analysis of equal_to/hash_code of every spec base class on two states, following one '
                  'skolem byte', 'equal_to answers true only if every byte (or the state object, by its own ==) agrees, answers '
                  'true on a copy, reads only bytes that get_copy transfers; hash_code reads nothing but those bytes and the level',
                  (70, 20, 1000))


# ------------------------------------------------------------------ node identifiers
@check('C08')
def c08():
    import bits
    r = bits.run()
    vs = [dict(rule=a, msg=b, file=loc[0].replace(REPO + '/', ''), line=loc[1], func=m, stack=[]) for a, b, loc, m, k in r['viol']]
    if not vs:
        floor('observations', r['obs'], 50)
    return dict(violations=vs, coverage=dict(observations=r['obs'], instructions=r['steps'], result_bits=r['bits'], decision_nodes=r['nodes'],
                obligations=r['bits'], rule='every bit of every observation is the Boolean function of the argument bits that the '
                'encoding level:20 | attribute:1 | column:43 prescribes; hashes depend on no bit equality ignores'),
                explanation='bit-precise dataflow (canonical decision diagrams per bit) through every constructor, accessor, '
                'comparison and hash of NodeId, Node<2>, Node<3>, InitializedNode and NodeBranchId',
                assumptions=['clang -O1 preserves semantics', 'arities 2 and 3'])


# ------------------------------------------------------------------ breadth-first construction
@check('C09')
def c09():
    import build_check
    rs = build_check.run(lambda c: c.startswith('ser'))
    vs = [vio(*v) for r in rs for v in r['viol']]
    return finish(rs, vs, 'one level of DdBuilder::construct is analysed for a work list of arbitrary length holding one or two tracked nodes '
                  'among arbitrary others, plus initialize; arity 2 and 3',
                  'every scheduled node gets one fresh column, or the node id of an equal state, or 0 as merge_states decides; every '
                  'branch of its node receives what get_child answered: 0, 1 (subject to merging of accepted states), or a node scheduled '
                  'at that level with that state and that address; states are destructed exactly once; the sweeper is told a bound below '
                  'every unfinished level', (9, 8, 1000))


# ------------------------------------------------------------------ shared node tables
@check('C10')
def c10():
    import handle_check
    rs = handle_check.run()
    vs = [vio(*v) for r in rs for v in r['viol']]
    return finish(rs, vs, 'fixpoint of the most general client of NodeTableHandler (three handlers and a temporary; arity 2 and 3): all '
                  'histories of copy, assignment, self-assignment, privateEntity + write, init, derefLevel and destruction',
                  'every handler sees exactly the table it was given or made; a table is written only while one handler holds it; it is '
                  'destroyed exactly once, after its last handler is gone, and never used afterwards', (2, 8, 500))


# ------------------------------------------------------------------ bottom-up evaluation
@check('C11')
def c11():
    import eval_check, index_check
    rs = eval_check.run() + index_check.run()
    vs = [vio(*v) for r in rs for v in r['viol']]
    return finish(rs, vs, 'DdStructure::evaluate over node tables of arbitrary size, following one arbitrary node and one of its children '
                  '(terminal or node), arity 2 and 3', 'the evaluator is initialised once with the level of the root; each terminal and node is '
                  'evaluated exactly once, with its own level, and with the values and levels of its own children, which are still there; the '
                  'result is made from the value of the root; a level is listed as no longer needed exactly once, at a level not below any that '
                  'refers to it', (22, 8, 500))


# ------------------------------------------------------------------ level index
@check('C12')
def c12():
    import index_check
    rs = index_check.run()
    vs = [vio(*v) for r in rs for v in r['viol']]
    return finish(rs, vs, 'makeIndex over node tables of arbitrary size, following one arbitrary node, one of its branches and the level that branch leads to; '
                  'every entry made in a list is compared with them', 'the level of the child is listed exactly once among the lower levels, for a level that is not below '
                  'the node; the level of the node is listed exactly once among the higher levels, for a level not above the child', (5, 2, 200))
