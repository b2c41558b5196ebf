prop('C01', 'bddAnd / bddOr mean conjunction and disjunction',
     'For any operand specs, following any path through bddAnd (bddOr) of two or more specs ends in the 1-terminal exactly '
     'when following the same decisions through all (at least one) of the operands read as BDDs does, and in the 0-terminal otherwise. '
     'Each operand is advanced exactly once, with the decision taken, at exactly the levels it is waiting for, and the level '
     'reported is the highest one some operand waits for.',
     ['inputs', 'programs'], 'all operand specs, all paths, any number of operands (decided for 2 and 3, which covers the recursion)',
     'tests build a few fixed instances; operands that skip levels or accept early on one side only are not sampled',
     ['op/BinaryOperation.hpp', 'DdSpecOp.hpp'], [('BddAnd_/BddOr_ getRoot, getChild', T + 'op/BinaryOperation.hpp')],
     'abstract interpretation of LLVM IR (disjunctive zone domain) against a Boolean path oracle', NOTE)
prop('C02', 'zddUnion / zddIntersection mean union and intersection of families',
     'For any operand specs, the family of item sets described by zddUnion (zddIntersection) of two or more specs is exactly the '
     'union (intersection) of the families described by the operands read as ZDDs, where an item at a skipped level is absent.',
     ['inputs', 'programs'], 'all operand specs, all paths; 2 and 3 operands',
     'tests use operands with few level-skipping patterns; the interplay of skipped levels and early terminals needs all orders',
     ['op/BinaryOperation.hpp', 'DdSpecOp.hpp'], [('ZddUnion_/ZddIntersection_ getRoot, getChild', T + 'op/BinaryOperation.hpp')],
     'abstract interpretation of LLVM IR (disjunctive zone domain) against a family oracle', NOTE)
prop('C03', 'Lookahead and unreduction preserve the represented function or family',
     'bddLookahead/zddLookahead only skip a node when it is redundant under the BDD rule (all children equal) or the ZDD rule '
     '(every non-0 child is the 0-terminal) and continue from its 0-child; bddUnreduction/zddUnreduction visit every level from '
     'the top one to 1, a level skipped by the operand behaving as "do not care" (BDD) or "item absent" (ZDD). '
     'Hence every path keeps its meaning, for any arity.',
     ['inputs', 'programs'], 'all operand specs of arity 2 and 3, all paths, all numbers of variables',
     'tests apply these to one or two specs; deletion-rule corner cases (terminal children, ternary nodes) are not sampled',
     ['op/Lookahead.hpp', 'op/Unreduction.hpp', 'DdSpecOp.hpp'],
     [('lookahead()', T + 'op/Lookahead.hpp'), ('Unreduction_::getChild', T + 'op/Unreduction.hpp')],
     'abstract interpretation of LLVM IR (disjunctive zone domain) against a deletion-rule oracle', NOTE)
prop('C04', 'Spec combinators manage operand states like a sound owner',
     'Every operation spec (and, or, union, intersection, lookahead, unreduction) constructs each operand state before using it, '
     'destroys each constructed operand state exactly once, copies all of it in get_copy, keeps operand states in disjoint storage '
     'inside the size it declares, offers corresponding operand states for merging and passes on what the operands answer. '
     'This holds on every path including early terminals, and for copied spec objects.',
     ['inputs', 'programs', 'histories'], 'all operand specs with arbitrary state types and sizes, all client histories of the spec interface',
     'test specs have POD states, for which leaks, double destruction and overlap are invisible',
     ['op/BinaryOperation.hpp', 'op/Lookahead.hpp', 'op/Unreduction.hpp'],
     [('get_copy/destruct/merge_states/destructLevel of the operation specs', T + 'op/')],
     'typestate and layout analysis by abstract interpretation of LLVM IR', NOTE)
prop('C05', 'Combined states: equality is componentwise and hash agrees with it',
     'For every operation spec, two states at a level are reported equal exactly when every operand is at the same level in both '
     'and, unless it is at a terminal, its operand states are equal; states reported equal have equal hash codes.',
     ['inputs', 'programs'], 'all operand specs, all pairs of reachable states',
     'wrong equality or hashing only shows on colliding or terminal operand states, which small tests do not produce',
     ['op/BinaryOperation.hpp', 'op/Lookahead.hpp', 'op/Unreduction.hpp'], [('hash_code/equal_to of the operation specs', T + 'op/')],
     'relational abstract interpretation of LLVM IR over state pairs', NOTE)
prop('C06', 'Spec base classes give every user state correct storage and lifetime',
     'For StatelessDdSpec, DdSpec, PodArrayDdSpec and HybridDdSpec: the scalar and array parts handed to getRoot/getChild lie inside the '
     'data size the spec declares, are aligned, do not overlap and are found again at the same place in later calls; objects of the '
     "user's state class are constructed before use and destroyed exactly once by destruct; get_copy transfers the whole state, so "
     "original and copy then evolve independently; and get_child/get_root/merge_states pass the requested level, branch and states to the user's functions and return their answers.",
     ['inputs', 'programs', 'histories'], 'any state type or array length, any sequence of get_root/get_child/get_copy/destruct',
     'tests use int and small POD states with one array length; padding, odd element sizes and non-POD states are not sampled',
     ['DdSpec.hpp'], [('construct/get_root/get_child/get_copy/destruct/datasize', T + 'DdSpec.hpp')],
     'typestate and memory-layout analysis by abstract interpretation of LLVM IR with a skolem byte', NOTE)
prop('C07', 'Spec base classes compare and hash states completely and consistently',
     'For the same base classes, equal_to answers true only for states whose array bytes all agree and whose scalar parts are equal '
     '(by the user-supplied equality where there is one), always answers true for a state and its get_copy copy, and neither '
     'equal_to nor hash_code depends on bytes get_copy does not transfer, on addresses or on mutable globals; so equal states hash equally.',
     ['inputs', 'programs'], 'any state contents, any array length, all pairs of states',
     'a word left out of comparison or padding left in only shows on rare state pairs',
     ['DdSpec.hpp'], [('equal_to/hash_code/rawEqualTo/rawHashCode', T + 'DdSpec.hpp')],
     'relational abstract interpretation of LLVM IR with a skolem byte', NOTE)
prop('C08', 'Node identifiers keep level, column and attribute apart, and compare by level and column only',
     'A NodeId made from a level up to 2^20-1 and a column up to 2^43-1 gives back exactly that level, column and attribute; setting or '
     'clearing the attribute changes nothing else. ==, !=, <, <=, >, >= on NodeId are the equality and the lexicographic order on (level, column) and '
     'ignore the attribute; 0 and 1 are the two terminals at level 0; hasEmpty() holds exactly for the 1-terminal and for ids carrying the attribute. '
     'Two Nodes are equal exactly when all their branches are equal ids, equal ids and equal nodes have equal hash codes, and constructing or copying a Node or NodeBranchId '
     'keeps every branch (component).',
     ['inputs'], 'all 2^64 identifier values and pairs of them, all branch contents, arity 2 and 3',
     'tests touch small tables without attributes; wrong masks only show for large columns/levels or for attribute bits',
     ['dd/Node.hpp'], [('NodeId packing and comparison', T + 'dd/Node.hpp NodeId'), ('Node equality and hash', T + 'dd/Node.hpp Node')],
     'bit-precise dataflow analysis of the compiled members (one canonical Boolean function per result bit)',
     'Exact for all argument values; trusts clang -O1.')
prop('C09', 'Breadth-first construction builds exactly the diagram the spec describes',
     'For any spec, the serial DD construction (DdBuilder) gives every scheduled state of a level one fresh node of its own or, if an equal state of that level '
     'already has a node, that node; when the spec rejects one of two equal states in merge_states (result 1: the earlier, 2: the later one) exactly the rejected one leads to the '
     '0-terminal. Branch b of the node of a state leads to 0 or 1 or to a node at the level get_child returned, built from the child state get_child produced for branch b, '
     'where accepted states go through merge_states at the 1-terminal in the same way. Each state it constructs is destructed exactly once, state buffers are large enough for '
     'datasize(), destructLevel is announced after the states of the level are gone, and the sweeper is never told that a level is complete while a node below it is still unfinished. '
     'A spec without nodes gives the corresponding terminal as root.',
     ['inputs', 'programs'], 'all specs of arity 2 and 3, any number of scheduled states per level, any merge_states behaviour',
     'tests build small instances whose specs never merge states, have POD states and mostly go down one level at a time',
     ['dd/DdBuilder.hpp', 'DdStructure.hpp'], [('DdBuilder::initialize/schedule/construct', T + 'dd/DdBuilder.hpp')],
     'abstract interpretation of LLVM IR (disjunctive zones) over an arbitrary work list with tracked nodes', NOTE)
prop('C10', 'Node tables are shared safely: copies are independent values',
     'However NodeTableHandler objects (and so DdStructure objects) are copied, assigned (including to themselves), made private and written, re-initialised, trimmed with '
     'derefLevel and destroyed, each handler keeps seeing exactly the table it was given: writing through one never changes what another holds, privateEntity keeps the contents, '
     'init gives a table of the requested number of rows, and each table is destroyed exactly once, when its last handler is gone, and never used afterwards.',
     ['histories'], 'all histories of three handlers plus a temporary',
     'tests hardly ever modify a shared diagram, and leaks, double frees or stale sharing are invisible to value comparisons',
     ['dd/NodeTable.hpp', 'DdStructure.hpp'], [('NodeTableHandler', T + 'dd/NodeTable.hpp')],
     'ownership/typestate analysis by exhaustive abstract interpretation of LLVM IR (finite states, symmetry-reduced)',
     'Exact for up to four simultaneous handlers; table contents abstracted to a token.')
prop('C11', 'Bottom-up evaluation gives every node its own children',
     'DdStructure::evaluate calls initialize once, with the level of the root, before anything else; evalTerminal once for each terminal with its id; evalNode exactly once '
     'for every node up to the root level, with the level of that node and, for each branch, the value and the level of the child that branch leads to (level 0 for terminals), after '
     'that child was evaluated and before its value is dropped; destructLevel announces a level only after every node that refers to it was evaluated; and the result is getValue of the value of the root node.',
     ['inputs', 'programs'], 'node tables of any size and shape, any evaluator (serial), arity 2 and 3',
     'tests run few evaluators on small diagrams that hardly skip levels; a value dropped one level early or taken from a neighbour goes unnoticed there',
     ['DdStructure.hpp', 'DdEval.hpp'], [('DdStructure::evaluate', T + 'DdStructure.hpp'), ('DdValues', T + 'DdEval.hpp')],
     'abstract interpretation of LLVM IR (disjunctive zones) over tables with tracked cells', NOTE)
prop('C12', 'The level index tells truly which levels are still needed',
     'For any node table, lowerLevels(i) lists a level exactly when some node at level i refers to it and no node above i does, each such level once, so that a consumer working '
     'upwards may forget it after level i; and higherLevels(i) lists a level that has nodes with non-terminal children only if it refers to no level below i, each such level in exactly one list.',
     ['inputs'], 'node tables of any size and shape, arity 2 and 3', 'only diagrams in which one level is referred to from several levels can show a wrong entry, and then only as memory dropped too early',
     ['dd/NodeTable.hpp'], [('makeIndex, lowerLevels, higherLevels', T + 'dd/NodeTable.hpp')],
     'abstract interpretation of LLVM IR (disjunctive zones) over tables with a tracked cell and tracked list entries', NOTE)
NAW = 'its truth depends on values computed at run time over unbounded data, which no static argument in reach bounds'
prop('N01', 'Cardinality and other built-in evaluators are numerically exact',
     'bddCardinality/zddCardinality and the evaluators in eval/ return exactly the number (or optimum, or list) the diagram determines, for any size of number.',
     ['inputs'], 'all diagrams', 'numbers of arbitrary length', ['eval/Cardinality.hpp', 'util/BigNumber.hpp'], [('evalNode', T + 'eval/')],
     na='functional correctness of multi-word arithmetic on chained buffers: needs an arithmetic proof over unbounded word sequences, not a static dataflow argument')
prop('N02', 'Set iteration enumerates the family',
     'DdStructure<2>::begin()..end() yields every item set of the ZDD exactly once.', ['inputs'], 'all diagrams', 'needs all shapes',
     ['DdStructure.hpp'], [('const_iterator', T + 'DdStructure.hpp')],
     na='completeness and freedom from repetition of a path enumeration is a global termination/coverage argument over an explicit path stack; ' + NAW)
prop('N03', 'Graph specs describe exactly their combinatorial families',
     'PathSpec, SpanningForest, FrontierBasedSearch, ... accept exactly the edge sets of their graph class.', ['inputs'], 'all graphs', 'graph theory',
     ['spec/PathSpec.hpp', 'spec/FrontierBasedSearch.hpp'], [('getChild', T + 'spec/')],
     na='frontier-method correctness is a graph-theoretic induction over all graphs; ' + NAW)
prop('N04', 'Exported files denote the diagram',
     'dumpDot, dumpSapporo and export_ write a description from which the diagram can be read back.', ['inputs'], 'all diagrams', 'text output',
     ['DdStructure.hpp', 'dd/NodeTable.hpp'], [('dumpSapporo', T + 'DdStructure.hpp')],
     na='a statement about the text assembled in an output stream; the relation between bytes written and diagram is outside any abstraction built here')
prop('N05', 'Reduction is canonical',
     'bddReduce/zddReduce leave no redundant and no duplicate node and keep the function or family.', ['inputs'], 'all diagrams', 'all shapes',
     ['dd/DdReducer.hpp'], [('algorithmR, reduce_', T + 'dd/DdReducer.hpp')],
     na='algorithmR threads linked lists through the node table itself (Knuth 7.1.4 R) with ids as tagged pointers; the shape invariant of those lists is beyond the numeric/partition domain used here')
prop('N06', 'Subsetting restricts the diagram by the spec', 'zddSubset(spec) is the intersection of the family with that of the spec.', ['inputs', 'programs'],
     'all diagrams and specs', 'joint skipping of levels', ['dd/DdBuilder.hpp'], [('ZddSubsetter', T + 'dd/DdBuilder.hpp')],
     na='the product of an input diagram and a work list of arbitrary length needs two coupled tables per tracked node; the model did not reach a fixpoint in usable time')
prop('N07', 'Parallel construction gives the serial result for every schedule', 'DdBuilderMP and ZddSubsetterMP build what the serial ones build, under any schedule.',
     ['schedules', 'inputs'], 'all schedules', 'schedules', ['dd/DdBuilder.hpp'], [('DdBuilderMP', T + 'dd/DdBuilder.hpp')],
     na='work is partitioned by thread number and hash through per-thread lists indexed at run time; absence of interference depends on those run-time indices')
prop('N08', 'Sweeping keeps the diagram', 'DdSweeper removes only nodes that lead nowhere and redirects every reference to a moved node.', ['inputs'],
     'all half-built diagrams', 'rarely triggered', ['dd/DdSweeper.hpp'], [('update', T + 'dd/DdSweeper.hpp')],
     na='what decides whether and from where a sweep runs is bookkeeping over run-time counts; a tracked-cell model (engine/sweep_check.py) was built but '
        'does not separate all cases in usable time, so it is not claimed (C09 decides the bound the builder hands to it)')
