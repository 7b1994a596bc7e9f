#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: tools/props.py writes both."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
P, M = [], []
SAN = 'AddressSanitizer and UndefinedBehaviorSanitizer are fatal in the same run.'


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level='exploration'):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}})
    M.append({'property': id, 'quick_cmd': f'python3 check.py {id} --tier quick', 'thorough_cmd': f'python3 check.py {id} --tier thorough',
              'evidence_file': f'evidence/{id}.json', 'technique': technique, 'level': level, 'level_note': note})


REF = 'runtime monitoring: random SQL workload on a sanitizer build, answers judged by an executable reference semantics'
prop('P01', 'Expressions evaluate to the value and type the language defines',
     'Every scalar expression over integers, decimals, floating-point numbers, character sequences, booleans, dates and datetimes evaluates, '
     'for every row, to the value and the result type that the rules of the language define: numeric promotion and decimal scaling, comparison, '
     'concatenation, LIKE, operator precedence, and three-valued logic with NULL. Evaluation never depends on the payload stored under a NULL.',
     ['inputs', 'programs'], 'all well-typed expressions and all rows (overflow of the result type and division by zero excepted)',
     'The unit tests compile a handful of hand-written expressions on a few tuples; operators × operand types × scales × NULLs × nesting is unbounded, '
     'and no end-to-end query runs in the test suite here.',
     ['src/backend/StackMachine.cpp', 'src/backend/Interpreter.cpp', 'src/parse/Sema.cpp', 'src/parse/Parser.cpp', 'src/catalog/Type.cpp'],
     [('compilation of expressions to opcodes', 'src/backend/StackMachine.cpp: StackMachineBuilder'), ('opcode semantics', 'src/backend/StackMachine.cpp: StackMachine::operator()'),
      ('type inference', 'src/parse/Sema.cpp'), ('precedence climbing', 'src/parse/Parser.cpp: parse_Expr')],
     ['result rows and schema delivered to the callback of a query'], REF,
     'Every answer of a random workload equals the reference answer. ' + SAN)
prop('P02', 'Filters, projections and nested queries return exactly the matching rows',
     'A query over base tables, aliases and nested queries in FROM returns exactly one row per row of its input for which the WHERE condition is true '
     '(neither false nor NULL), projected as specified, with no row lost, duplicated or altered. This holds for any table size, data layout and level of nesting, '
     'and whether the query is run through the library or as a command with the registered optimizations.',
     ['inputs', 'programs', 'configurations'], 'all queries, table contents, data layouts and sizes around every internal block boundary',
     'No test in the suite executes queries end to end here; unit tests look at single operators on small fixed inputs.',
     ['src/backend/Interpreter.cpp', 'src/IR/Optimizer.cpp', 'src/IR/QueryGraph.cpp', 'src/IR/CNF.cpp', 'src/storage/DataLayout.cpp'],
     [('pipelined evaluation in blocks', 'src/backend/Interpreter.cpp: Pipeline'), ('translation to a query graph', 'src/IR/QueryGraph.cpp: GraphBuilder'),
      ('filter optimisation', 'src/IR/Optimizer.cpp: optimize_filter'), ('loading rows from a layout', 'src/backend/Interpreter.cpp: compile_load')],
     ['result rows delivered to the callback of a query'], REF, 'Multiset equality with the reference answer on a random workload. ' + SAN)
prop('P03', 'Joins return exactly the combinations of rows satisfying the conditions',
     'A query joining several relations (including self joins, nested queries, equality, inequality, arithmetic and disjunctive conditions, and cyclic join graphs) '
     'returns every combination of rows for which all conditions are true exactly as often as it occurs, and nothing else; NULL never matches.',
     ['inputs', 'programs', 'configurations'], 'all connected join graphs, table contents and join algorithms chosen by the system',
     'The suite joins a few fixed tuples at most; which join algorithm, join order and block boundary is hit depends on data, types and optimizer.',
     ['src/backend/Interpreter.cpp', 'src/IR/Optimizer.cpp', 'src/IR/QueryGraph.cpp', 'src/util/container/RefCountingHashMap.hpp'],
     [('hash join', 'src/backend/Interpreter.cpp: SimpleHashJoinData'), ('nested-loops join', 'src/backend/Interpreter.cpp: NestedLoopsJoinData'),
      ('plan construction', 'src/IR/Optimizer.cpp: construct_plan')],
     ['result rows delivered to the callback of a query'], REF, 'Multiset equality with the reference answer on a random workload; Cartesian products without a join condition are not supported by the system and excluded. ' + SAN)
prop('P04', 'Grouping and aggregation compute one correct row per group',
     'GROUP BY produces exactly one row per distinct combination of keys (NULLs form one group), and COUNT, SUM, MIN, MAX and AVG over the rows of each group ignore NULL arguments '
     'and equal their definition; without GROUP BY there is exactly one row, also for empty inputs. HAVING keeps exactly the groups for which its condition is true.',
     ['inputs', 'programs'], 'all key and argument expressions, group sizes and distributions of NULL',
     'The suite has no end-to-end aggregation; aggregates are updated incrementally per row and in blocks, so errors depend on data, types and order.',
     ['src/backend/Interpreter.cpp', 'src/IR/Optimizer.cpp', 'src/parse/Sema.cpp', 'src/IR/QueryGraph.cpp'],
     [('incremental aggregates', 'src/backend/Interpreter.cpp: perform_aggregation'), ('hash-based grouping', 'src/backend/Interpreter.cpp: HashBasedGroupingData'),
      ('typing of aggregates', 'src/parse/Sema.cpp: operator()(FnApplicationExpr)')],
     ['result rows delivered to the callback of a query'], REF, 'Equality with the reference answer (AVG within relative 1e-9). ' + SAN)
prop('P05', 'ORDER BY, LIMIT and OFFSET return the right rows in the right order',
     'With ORDER BY the rows are delivered in lexicographic order of the sort expressions, each ascending or descending as given and with NULL before every value; '
     'LIMIT n OFFSET m delivers exactly the rows at positions m to m+n-1 of that order (of any order, without ORDER BY), and fewer only if the input ends.',
     ['inputs', 'programs'], 'all sort expressions, ties, table sizes and limits, including limits and offsets around internal block boundaries',
     'No end-to-end sorting or limiting is tested; the limit spans blocks and cuts pipelines, so off-by-one errors appear only for particular sizes.',
     ['src/backend/Interpreter.cpp', 'src/IR/Optimizer.cpp'],
     [('sorting', 'src/backend/Interpreter.cpp: operator()(SortingOperator)'), ('limit', 'src/backend/Interpreter.cpp: LimitData'),
      ('projections required by ORDER BY', 'src/IR/Optimizer.cpp: compute_projections_required_for_order_by')],
     ['sequence of result rows delivered to the callback of a query'], REF, 'Order-aware comparison with the reference answer; ties in any order. ' + SAN)

import extra  # noqa: E402  (further properties)
extra.add(prop, SAN, REF)

P.sort(key=lambda p: p['id']); M.sort(key=lambda p: p['property'])
(V / 'properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p in P))
man = {'version': 1,
       'setup_cmd': 'true',
       'hooks': {'guard': 'MUTABLE_VERIF', 'enable': 'lib/build.py compiles the sources of /repo with -DMUTABLE_VERIF (no source depends on it at present: no hook was needed)', 'source_commits': []},
       'checks': M, 'not_applicable': extra.NA,
       'notes': 'Every check builds the library from the working tree of /repo with sanitizers (about 25 s on 8 cores from scratch, cached in .cache by content). '
                'known-findings.txt lists genuine defects that were recorded or repaired.'}
(V / 'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for p in P: jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid')
except ImportError:
    pass
