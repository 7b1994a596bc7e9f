NA = []


def add(prop, SAN, REF):
    NAT = 'runtime monitoring: random operation histories on a sanitizer build, every observer compared with an executable model'
    prop('P21', 'Allocators hand out disjoint, intact, aligned memory and reclaim it',
         'Memory handed out by the linear, list and malloc allocators and by the page-granular allocator for mapped memory is aligned as requested, at least as large as requested and '
         'disjoint from every other live allocation; its contents change only by writes to it. Deallocated memory becomes available again: adjacent free chunks are merged, '
         'the list allocator keeps its number of chunks, and the page allocator reclaims everything behind the last live allocation.',
         ['histories', 'inputs'], 'all sequences of allocations and deallocations, sizes and alignments',
         'A test frees in one or two orders; merging of neighbours and reclamation depend on the whole history.',
         ['src/util/memory.cpp', 'include/mutable/util/memory.hpp', 'include/mutable/util/list_allocator.hpp', 'include/mutable/util/malloc_allocator.hpp', 'include/mutable/util/allocator_base.hpp'],
         [('chunk splitting and coalescing', 'include/mutable/util/list_allocator.hpp: list_allocator'), ('stack of allocations', 'src/util/memory.cpp: LinearAllocator'),
          ('alignment by over-allocation', 'include/mutable/util/malloc_allocator.hpp')],
         ['addresses, contents and chunk counts observed by the client of the allocator'], NAT, 'Blocks carry patterns and are checked on every step; number of chunks and file size checked when everything is returned. ' + SAN)
    prop('P22', 'Container classes behave as the abstract data types they implement',
         'SmallBitset is a set of at most 64 elements with the set operations, order of iteration and subset enumeration its documentation gives; subset enumerators deliver every subset of the '
         'requested size exactly once; doubly_linked_list is a sequence, traversable in both directions, under every edit; RefCountingHashMap is a multimap that finds exactly what was '
         'inserted, whatever the hash function and the number of collisions and rehashes; dyn_array, range, view, quicksort, partition and unsharable_shared_ptr obey their definitions.',
         ['histories', 'inputs'], 'all operation sequences, element sets and hash functions',
         'Tests exercise short histories; defects need collisions, wrap-around, full words or particular edit orders.',
         ['include/mutable/util/ADT.hpp', 'src/util/container/RefCountingHashMap.hpp', 'src/util/algorithms.hpp', 'include/mutable/util/unsharable_shared_ptr.hpp'],
         [('bit tricks', 'include/mutable/util/ADT.hpp: SmallBitset'), ('probing with reference counts', 'src/util/container/RefCountingHashMap.hpp'), ('XOR-linked list', 'include/mutable/util/ADT.hpp: doubly_linked_list')],
         ['return values and traversals of the containers'], NAT, 'All observers compared with std containers after every step. ' + SAN)
    prop('P26', 'Learned models describe exactly the data they were learned from',
         'An SPN learned from any table represents all its rows: the likelihood of a predicate on one discrete attribute, and of NULL, is the fraction of rows that satisfy it; on a continuous attribute this fraction lies between '
         'the lower and upper bound, the estimate too, and the estimate grows with the range. Likelihoods of conjunctions are probabilities: never larger than those of their parts, and additive over <, =, >, NULL. The expectation is the mean '
         '(within a bin for continuous attributes), and the estimated number of distinct values is at least the true one and at most the number of rows. Inserting, updating and deleting rows keeps all this true. k-means assigns every point to the '
         'cluster with the nearest centroid, which is the mean of its points; linear spaces and grid search visit each point exactly once within the bounds; linear regression recovers linear functions.',
         ['inputs', 'histories'], 'all tables, all predicates, all histories of updates', 'Tests check an SPN of 100 regular rows against thresholds nearly every model passes, and never update one.',
         ['src/util/Spn.cpp', 'src/util/Spn.hpp', 'src/catalog/SpnWrapper.cpp', 'src/util/Kmeans.cpp', 'src/util/RDC.cpp', 'src/util/LinearModel.cpp', 'src/util/GridSearch.hpp', 'src/util/datagen.hpp'],
         [('inference', 'src/util/Spn.cpp: DiscreteLeaf::evaluate, ContinuousLeaf::evaluate, Sum::evaluate, Product::evaluate'), ('learning', 'src/util/Spn.cpp: learn_node, create_sum, create_product_rdc'),
          ('updates', 'src/util/Spn.cpp: *::update'), ('tables', 'src/catalog/SpnWrapper.cpp: learn_spn_table'), ('clustering', 'src/util/Kmeans.cpp: kmeans_with_centroids')],
         ['likelihoods, bounds, expectations, distinct values; labels and centroids; visited points'], 'runtime monitoring: random tables and update histories on a sanitizer build, every answer compared with the rows',
         'Values are compared with tolerances of 2e-4 (learned) and 1e-3 (updated), as the models compute in single precision. Rows are deleted if they were inserted before; other rows only from single leaves, as sum nodes route rows by centroids of normalized data. ' + SAN)
    prop('P27', 'String and number utilities compute what they are documented to compute',
         'LIKE matching agrees with the definition of %, _ and the escape character, directly and by translation to a regular expression, and rejects exactly the malformed patterns; '
         'escape/unescape, quote/unquote and interpret are inverse; replace_all, html_escape, string hashing and equality, date printing and parsing obey their definitions. '
         'Powers of two, logarithms, rounding to multiples, saturating arithmetic, integer powers, bit setting, sequence numbers of floating-point values and range-width tests are exact for every argument whose result is representable. '
         'Command-line arguments reach the option they name with their value, in order, and all others are kept as positional or warned about; a timer keeps one measurement per name with the state its starts and stops imply.',
         ['inputs'], 'all strings, patterns and numbers', 'Tests check tables of examples; edge cases lie at escapes, type limits and rounding boundaries.',
         ['src/util/fn.cpp', 'include/mutable/util/fn.hpp', 'src/util/ArgParser.cpp', 'include/mutable/util/Timer.hpp'],
         [('arguments', 'src/util/ArgParser.cpp: parse_args'), ('LIKE', 'src/util/fn.cpp: like'), ('escaping', 'src/util/fn.cpp: escape, unescape'), ('integer arithmetic', 'include/mutable/util/fn.hpp')],
         ['return values'], 'runtime monitoring: random arguments on a sanitizer build, results compared with independent definitions', 'Definitions are written from the documentation, in wider arithmetic. ' + SAN)
    prop('P28', 'Types, schemas and tables describe exactly what was declared',
         'Two types are the same object exactly if they were built from the same description; conversion to scalar or vectorial keeps everything else, predicates, size, alignment and printed form are those of the description, and combining numeric types '
         'is commutative, idempotent and at least as precise as both. A schema holds its entries in the order added; looking up an identifier finds its only entry, reports ambiguity and absence; sums, unions, intersections, deduplication and equality are those of '
         'ordered sets, merging constraints. A table lists exactly its attributes, visible and hidden ones apart, in both directions, under one id and one name each, with its key, constraints and references, and its schema says the same; refused names and types '
         'leave it as it was. A catalog knows exactly the databases, tables and indexes added and not dropped, offers only valid indexes, and a set of components its members and its default.',
         ['inputs', 'histories'], 'all types, schemas and tables and all histories of catalogs', 'Tests build one schema and one table each; hidden attributes, composite keys, duplicate and ambiguous names and dropped entries need combinations.',
         ['include/mutable/catalog/Type.hpp', 'src/catalog/Type.cpp', 'include/mutable/catalog/Schema.hpp', 'src/catalog/Schema.cpp', 'include/mutable/catalog/Catalog.hpp', 'src/catalog/Catalog.cpp'],
         [('types', 'src/catalog/Type.cpp: Type::Get_*, arithmetic_join, operator=='), ('schemas', 'include/mutable/catalog/Schema.hpp: Schema'), ('tables', 'include/mutable/catalog/Schema.hpp: ConcreteTable, Table::the_iterator; src/catalog/Schema.cpp: ConcreteTable::schema'),
          ('databases', 'include/mutable/catalog/Schema.hpp: Database; src/catalog/Catalog.cpp'), ('components', 'include/mutable/catalog/Catalog.hpp: ComponentSet')],
         ['values and exceptions of the public interface'], 'runtime monitoring: random declarations and histories on a sanitizer build, every observation compared with a model', 'Schemas with duplicates are compared entry by entry; == is judged on schemas without duplicates, for which it is defined. ' + SAN)
    prop('P06', 'Answers do not depend on optimizer, cost or storage configuration',
         'The rows a query returns are determined by the query and the contents of the tables. Choosing another plan enumerator, plan table, cardinality estimator, injected '
         'cardinalities (right or wrong), data layout or store changes the plan and the time at most: never the rows, the order ORDER BY asks for, or the types of the result.',
         ['inputs', 'programs', 'configurations'], 'all queries and tables under all combinations of registered enumerators, plan tables, estimators, layouts and stores',
         'A test fixes one configuration; wrong plans of one enumerator or a mispacked layout show only for particular join graphs, cardinalities and table shapes.',
         ['src/IR/PlanEnumerator.cpp', 'src/IR/PlanTable.cpp', 'src/IR/Optimizer.cpp', 'src/catalog/CardinalityEstimator.cpp', 'src/storage/DataLayoutFactory.cpp', 'src/storage/Store.cpp'],
         [('plan construction from the plan table', 'src/IR/Optimizer.cpp: construct_plan'), ('enumerators', 'src/IR/PlanEnumerator.cpp'), ('layout computation', 'src/storage/DataLayoutFactory.cpp')],
         ['result rows and schema of a query under several configurations'], REF, 'Every answer in every configuration equals the reference answer. ' + SAN)
    prop('P07', 'Layouts place values disjointly and tuple access moves exactly those values',
         'A data layout gives every value of every row and every NULL bit its own aligned place inside its block, whatever the schema, the factory and its parameters. Compiled stores write '
         'exactly the requested attributes of the requested rows at those places, NULL bits included, and change nothing else; compiled loads deliver what the places hold, starting from any row '
         'and across any number of blocks, for every layout tree. Stores count their rows and keep their columns apart. Bulk generation of column data changes exactly the given range of rows and has the requested distribution.',
         ['inputs', 'histories', 'configurations'], 'all schemas, layout trees, factories and parameters, first rows, numbers of rows and subsets of attributes',
         'Tests use a few schemas in a few layouts; wrong masks, strides or jumps show only for particular widths, bit offsets, first rows and nesting.',
         ['src/storage/DataLayout.cpp', 'src/storage/DataLayoutFactory.cpp', 'src/backend/Interpreter.cpp', 'src/storage/PaxStore.cpp', 'src/storage/RowStore.cpp', 'src/storage/ColumnStore.cpp', 'src/storage/store_manip.cpp'],
         [('block packing', 'src/storage/DataLayoutFactory.cpp: PAXLayoutFactory::make'), ('compilation of loads and stores', 'src/backend/Interpreter.cpp: compile_data_layout'), ('setting of NULL bits', 'src/storage/store_manip.cpp')],
         ['the memory of a table, bit by bit; tuples loaded from it'], NAT.replace('every observer', 'all memory'), 'After every store the whole memory is decoded and compared with the model. ' + SAN)
    prop('P11', 'Plan enumerators find valid plans; exhaustive ones find optimal plans',
         'For every connected join graph, cardinalities and cost function, each plan enumerator leaves in the plan table a complete plan: a binary tree over exactly the relations of the query, '
         'joining connected parts only (unless it considers Cartesian products), in which the recorded cost of every entry is the cost of the plan it describes. The exhaustive enumerators (DPccp, DPsize, '
         'DPsizeOpt, DPsizeSub, DPsub, DPsubOpt, TDbasic, TDMinCutAGaT, PEall) find a plan of minimal cost, for every subproblem they solve; greedy ones take the cheapest step; IKKBZ yields a linear plan '
         'that LinearizedDP never exceeds; heuristic search with an admissible heuristic and unbounded search finds the optimum, and every other configuration finds some valid plan. '
         'The partial plans listed for a plan are exactly the forests of its subtrees that cover all relations, each once, and every list is written as valid JSON.',
         ['inputs', 'configurations'], 'all connected join graphs, cardinalities, cost functions, plan tables, enumerators and configurations of heuristic search',
         'Tests check a few graphs of four or five relations with hand-made costs; wrong orders of enumeration and stale costs need particular cyclic graphs and cost functions.',
         ['src/IR/PlanEnumerator.cpp', 'src/IR/HeuristicSearchPlanEnumerator.cpp', 'include/mutable/IR/HeuristicSearchPlanEnumerator.hpp', 'include/mutable/util/HeuristicSearch.hpp', 'src/IR/PlanTable.cpp', 'include/mutable/IR/PlanTable.hpp',
          'include/mutable/util/AdjacencyMatrix.hpp', 'src/IR/QueryGraph.cpp', 'src/IR/PartialPlanGenerator.cpp'],
         [('dynamic programming', 'src/IR/PlanEnumerator.cpp'), ('update of table entries', 'include/mutable/IR/PlanTable.hpp: update'), ('duplicate detection, queues and beams', 'include/mutable/util/HeuristicSearch.hpp'),
          ('join graph of a query', 'src/IR/QueryGraph.cpp')],
         ['plan tables after enumeration'], 'runtime monitoring: random join graphs and cost models on a sanitizer build, plan tables audited against brute-force optimisation',
         'Plans are audited node by node with recomputed costs; optimality against exhaustive partitioning of every subset. Graphs of up to 10 relations. Heuristic search is compiled without instrumentation (size). ' + SAN)
    prop('P12', 'Connected subgraphs, cuts and graph transforms are enumerated exactly',
         'For every undirected graph of up to 64 vertices and every restriction to a subset, the adjacency matrix enumerates each connected subgraph exactly once, each pair of disjoint, adjacent connected '
         'subgraphs exactly once, and a pair only after all pairs that make up either side; the minimal-cut partitioner yields each split into two connected halves exactly once; '
         'reachability, neighbours, connectedness, transitive closure, minimum spanning forest and rooted trees equal their definitions.',
         ['inputs'], 'all graphs, vertex sets and weights',
         'Tests enumerate a few fixed graphs; exactly-once and order can fail for a single shape of cycle or a vertex at the word boundary.',
         ['include/mutable/util/AdjacencyMatrix.hpp', 'src/util/AdjacencyMatrix.cpp', 'include/mutable/util/MinCutAGaT.hpp'],
         [('subgraph enumeration', 'include/mutable/util/AdjacencyMatrix.hpp: for_each_CSG_undirected'), ('cut enumeration', 'include/mutable/util/MinCutAGaT.hpp: partition'), ('spanning forest', 'src/util/AdjacencyMatrix.cpp')],
         ['callbacks of the enumerations; returned matrices'], NAT, 'Multiplicities counted against testing every subset; order of pairs checked for use by dynamic programming. ' + SAN)
    prop('P13', 'Normal forms of conditions are equivalent to the conditions they come from',
         'Converting a boolean expression to conjunctive normal form, and combining normal forms by and, or and not, preserves the value under every assignment of true, false and NULL to the atoms it consists of. '
         'Inclusion and equality of normal forms are by clauses; the columns they require, whether they can be NULL and whether they are equi-join predicates are reported exactly; their SQL form parses to an equivalent condition.',
         ['inputs'], 'all boolean expressions and all assignments of truth values', 'Tests convert a few formulae and compare text; wrong distribution or negation changes the truth value for particular nestings and for NULL only.',
         ['src/IR/CNF.cpp', 'include/mutable/IR/CNF.hpp'], [('conversion', 'src/IR/CNF.cpp: CNFGenerator'), ('connectives', 'src/IR/CNF.cpp: operator and, or, not')],
         ['the normal forms returned'], 'runtime monitoring: random formulae on a sanitizer build, evaluated under all three-valued assignments by an independent evaluator',
         'All 3^n assignments of each formula with up to five atoms. ' + SAN)
    prop('P14', 'The front end survives every input and confines each error to its statement',
         'Lexer, parser, printers and semantic analysis terminate without crash, hang or undefined behaviour on every sequence of bytes. The tokens of an input, in order, make up the input up to white space and comments. '
         'A statement is either executed as a command or at least one error is reported, never both; trees with errors are never passed on silently. '
         'An error in a statement neither changes how the statements before and after it are read nor is attributed to them.',
         ['inputs', 'programs'], 'all byte sequences', 'Tests feed hand-written statements one by one; crashes and misattributed errors need odd combinations of errors.',
         ['src/lex/Lexer.cpp', 'src/parse/Parser.cpp', 'src/parse/Sema.cpp', 'src/parse/AST.cpp', 'src/parse/ASTDumper.cpp', 'src/parse/ASTPrinter.cpp', 'src/parse/ASTDot.cpp', 'src/tables/FollowSet.tbl'],
         [('error recovery', 'src/parse/Parser.cpp: recover'), ('lookahead', 'src/parse/Parser.hpp'), ('error types', 'src/parse/Sema.cpp')],
         ['tokens, trees, diagnostics and commands of a session'], 'runtime monitoring: grammar-aware fuzzing on a sanitizer build with online monitors for tokens, diagnostics and recovery',
         'Statements against a fixed database, mutated at token and byte level. ' + SAN)
    prop('P15', 'Statements parse as the grammar defines, and print back to the same statement',
         'Every statement of the grammar is accepted and yields the tree that the grammar, operator precedence and associativity define, whatever white space, comments and redundant parentheses it is written with. '
         'Printing that tree yields text that parses to the same tree, and is a fixed point of printing. Expressions are equal exactly if they are syntactically equal, and equal expressions have equal hashes.',
         ['inputs', 'programs'], 'all statements of the grammar', 'Tests compare single constructs; precedence, optional clauses and escapes interact.',
         ['src/lex/Lexer.cpp', 'src/parse/Parser.cpp', 'src/parse/ASTPrinter.cpp', 'src/parse/AST.cpp', 'include/mutable/parse/AST.hpp'],
         [('precedence climbing', 'src/parse/Parser.cpp: parse_Expr'), ('printing with parentheses', 'src/parse/ASTPrinter.cpp')], ['trees and printed text'],
         'runtime monitoring: statements generated from the grammar on a sanitizer build, trees compared with those they were generated from', 'Nested queries inside expressions print abbreviated by design and are only parsed. ' + SAN)
    prop('P16', 'Semantic analysis accepts exactly well-formed statements and types them',
         'A query, insertion or table definition is accepted exactly if every name denotes one attribute, result or grouping key in its scope, every operator and function is applied to operands of admissible types, '
         'conditions are boolean, aggregates occur only where grouping is possible, and values per row are not mixed with values per group; insertions must match number, type and nullability of the attributes. '
         'Every accepted expression has the type the rules of the language give it, including its width, scale and whether there is one value per row.',
         ['inputs', 'programs'], 'all statements', 'Tests analyse single mistakes; scoping, grouping and typing rules interact across clauses and nesting.',
         ['src/parse/Sema.cpp', 'src/parse/Sema.hpp', 'src/catalog/Type.cpp', 'include/mutable/parse/AST.hpp'],
         [('name lookup', 'src/parse/Sema.cpp: operator()(Designator&)'), ('typing', 'src/parse/Sema.cpp: operator()(BinaryExpr&)'), ('clauses', 'src/parse/Sema.cpp: operator()(SelectClause&)')],
         ['acceptance and types after analysis'], 'runtime monitoring: statements generated along with their types on a sanitizer build, verdict and types compared',
         'Nested queries in FROM only; references by qualified name to grouping keys and ordering of aggregated results are excluded as documented in DESIGN.md. ' + SAN)
    prop('P24', 'Text is cut into tokens by the longest match, with exact positions',
         'Every text is a sequence of tokens separated by white space and comments: identifiers and keywords (case-sensitive), octal, decimal and hexadecimal integer and floating-point numbers, strings with escapes, dates and datetimes, '
         'punctuation and instructions. Each token extends as far as its kind allows, has the type of its spelling, its text unchanged, and the name, line and column at which it starts. A malformed token (a number without digits, without '
         'digits in its exponent or with digits not of its base, a string with a wrong escape or no end, a malformed date, an unknown character) is one error token, reported exactly once, and what follows is unaffected.',
         ['inputs'], 'all texts', 'Tests list tokens one by one; where one token ends and the next begins depends on any two kinds meeting.',
         ['src/lex/Lexer.cpp', 'src/lex/Lexer.hpp', 'include/mutable/lex/Token.hpp', 'include/mutable/util/Position.hpp'],
         [('dispatch on the first character', 'src/lex/Lexer.cpp: Lexer::next'), ('numbers', 'src/lex/Lexer.cpp: read_number'), ('positions', 'src/lex/Lexer.hpp: step')],
         ['type, text and position of every token, number of errors reported'], 'runtime monitoring: random concatenations of tokens, near-tokens and bytes on a sanitizer build, compared with an independent reference tokeniser',
         'Where a malformed date ends is not specified; texts contain no NUL byte. ' + SAN)
    prop('P25', 'Accepted queries are answered as announced, however they are asked',
         'Every query that semantic analysis accepts (joins connected by a condition) is executed without error, and the rows it hands over have the names and types its analysis announced: no value is longer than its type, '
         'and none is NULL in a column announced never to be. Asking again gives the same rows. Selecting everything from the query nested in another gives the same rows; a limit gives that many of them; the rows for which any '
         'condition is true, false and unknown together are all rows; and the plan enumerator does not matter.',
         ['inputs', 'programs'], 'all accepted queries', 'Tests execute a few dozen fixed queries; expressions, types, grouping, ordering and nesting combine without bound.',
         ['src/mutable.cpp', 'src/IR/QueryGraph.cpp', 'src/IR/Optimizer.cpp', 'src/IR/Operator.cpp', 'src/IR/CNF.cpp', 'src/backend/Interpreter.cpp', 'src/backend/StackMachine.cpp'],
         [('execution', 'src/mutable.cpp: execute_query'), ('schemas of operators', 'src/IR/Operator.cpp'), ('normal forms', 'src/IR/CNF.cpp: CNFGenerator')],
         ['rows, types, names and nullability handed to a callback'], 'runtime monitoring: queries generated along with their types on a sanitizer build, announced schema and metamorphic relations monitored online',
         'Cartesian products, overflowing arithmetic and division by zero are excluded as documented in DESIGN.md; relations compare printed values. ' + SAN)
    TS = 'runtime monitoring: concurrent stress with injected delays under ThreadSanitizer and AddressSanitizer, '
    prop('P17', 'Equal values are interned once, at a stable address, by any number of threads',
         'Interning a value in a pool returns a reference to an entry with equal contents. While the pool lives, all references to equal values (strings or objects of a class hierarchy) share one entry at one address, '
         'different values have different entries, and neither address nor contents change, whatever other threads intern meanwhile. Copying, moving, assigning, casting and emptying references keeps the reference counts exact. '
         'A thread-safe pool is free of data races.',
         ['histories', 'schedules'], 'all histories of operations by any number of threads', 'A unit test interns a few strings from one thread; two threads interning the same new value at the same time decide the guarantee.',
         ['include/mutable/util/Pool.hpp', 'include/mutable/util/reader_writer_lock.hpp', 'include/mutable/util/fn.hpp'],
         [('lookup and insertion', 'include/mutable/util/Pool.hpp: PODPool::operator(), Pool::operator()'), ('references', 'include/mutable/util/Pool.hpp: Pooled')],
         ['addresses, contents and counts of references'], TS + 'and single-threaded histories against a model', 'Uniqueness is decided by a table of first-seen addresses; distinct interleavings are counted by order of interning.')
    prop('P18', 'The reader-writer lock excludes, upgrades atomically and never forgets a waiter',
         'While a thread holds the write lock no other thread holds any lock; readers share. An upgrade granted lets no writer in between; of several upgrades requested at a time one is granted and the others give up their read lock. '
         'Attempts succeed exactly if the lock is available. A waiting upgrade or writer is not overtaken by later readers, and whenever a lock is available to a waiting thread, one such thread is granted it: no wake-up is lost. '
         'The lock guards release what they own exactly once, whether unlocked, moved, assigned or destroyed.',
         ['schedules'], 'all schedules of any number of threads', 'Tests run fixed two-thread scenarios; lost wake-ups need a particular set of waiters at a particular release.',
         ['include/mutable/util/reader_writer_lock.hpp'], [('state', 'include/mutable/util/reader_writer_lock.hpp: reader_writer_mutex_internal'), ('wake-ups', 'include/mutable/util/reader_writer_lock.hpp: unlock_read, unlock_write'), ('guards', 'include/mutable/util/reader_writer_lock.hpp: reader_writer_lock, read_lock, write_lock, upgrade_lock')],
         ['grants and refusals of operations; accesses to data under the lock'], TS + 'and lockstep schedules judged by a model of the lock', 'A thread counts as stuck when it is not granted an available lock for 30 s.')
    prop('P19', 'Scheduled commands run exactly once, serially and isolated by transaction',
         'Commands scheduled by concurrent clients execute one at a time, each exactly once, those of a transaction in the order in which they were scheduled and not interrupted by commands of other transactions until it commits or aborts. '
         'Transactions begin in the order in which they scheduled their first command, with one start time each that grows from transaction to transaction. A future becomes ready after its command was executed and is true exactly if that succeeded; '
         'erroneous commands are not executed, failing or throwing ones are reported, and later commands are unaffected. Destroying the scheduler resolves every future, and nothing executes afterwards.',
         ['schedules', 'histories'], 'all schedules of any number of clients and transactions', 'No test covers the scheduler with more than one client; order and isolation depend on the state of the queue when a command arrives.',
         ['src/catalog/SerialScheduler.cpp', 'src/catalog/SerialScheduler.hpp', 'src/catalog/Scheduler.cpp', 'include/mutable/catalog/Scheduler.hpp', 'src/catalog/DatabaseCommand.cpp'],
         [('queue', 'src/catalog/SerialScheduler.cpp: CommandQueue'), ('worker', 'src/catalog/SerialScheduler.cpp: schedule_thread'), ('autocommit', 'src/catalog/Scheduler.cpp: autocommit')],
         ['an event log of calls, executions, results and ends of transactions; the rows of a table'], TS + 'event logs judged offline', 'Probe commands registered as database instructions report their execution; INSERT statements are judged by the final table.')

    prop('P20', 'A query on multi-versioning tables sees the rows visible at its start time',
         'A row written by a transaction carries its start time; a query of a transaction with start time t sees exactly the versions that began at or before t and had not ended by t, in every table it reads: '
         'by name or alias, in joins, aggregates and nested queries, in any data layout. The timestamps stay hidden: they neither appear in results nor accept values.',
         ['histories', 'inputs', 'programs'], 'all histories of versions and all queries', 'Tests check the rewritten query graph of single tables, never rows of a history.',
         ['src/catalog/Schema.cpp', 'include/mutable/catalog/Schema.hpp', 'src/catalog/TableFactory.cpp', 'src/catalog/DatabaseCommand.cpp', 'src/io/DSVReader.cpp', 'include/mutable/IR/QueryGraph.hpp'],
         [('timestamp filter', 'src/catalog/Schema.cpp: apply_timestamp_filter'), ('timestamps of new rows', 'src/catalog/DatabaseCommand.cpp: InsertRecords::execute, src/io/DSVReader.cpp')],
         ['printed results of queries at a time'], 'runtime monitoring: random histories of versions on a sanitizer build, every query compared with a snapshot database of the visible rows',
         'Versions end by direct writes to the store since the repository has no UPDATE or DELETE execution. ' + SAN)
    prop('P08', 'Commands change exactly what they say; refused statements change nothing',
         'After any history of CREATE, DROP, USE, INSERT and IMPORT statements the catalog holds exactly the databases, tables, attributes, constraints, references, indexes and rows the accepted statements define, in the database they were '
         'addressed to, and nothing else. A statement that is refused (unknown or duplicate names, wrong arity or type, NULL for NOT NULL, no database selected) reports an error and changes nothing, not even in part. '
         'Inserted values arrive converted to the type of their attribute, SELECT prints every row once in the textual form of its type, and each accepted command is confirmed once unless the shell is quiet. '
         'This holds through the shell, the command interface, execute_statement, execute_file and load_from_CSV.',
         ['histories', 'inputs'], 'all histories of commands over any number of databases', 'Tests run single commands in a fresh catalog; leftovers, dangling references and partial effects need a history.',
         ['src/catalog/DatabaseCommand.cpp', 'src/mutable.cpp', 'include/mutable/catalog/Schema.hpp', 'src/catalog/Schema.cpp', 'src/catalog/Catalog.cpp', 'src/parse/Sema.cpp', 'src/backend/StackMachine.cpp'],
         [('commands', 'src/catalog/DatabaseCommand.cpp'), ('library functions', 'src/mutable.cpp: execute_statement, execute_file, load_from_CSV, process_stream'), ('dropping', 'include/mutable/catalog/Schema.hpp: Database::drop_table'),
          ('printing', 'src/backend/StackMachine.cpp: emit_Print')],
         ['shell output and diagnostics', 'catalog contents', 'rows'], 'runtime monitoring: random command histories on a sanitizer build, output and the whole catalog compared with a model after every step',
         'Conditions of CHECK, UNIQUE and REFERENCES constraints are recorded but not enforced by the system; execute_statement does not implement DROP. ' + SAN)
    prop('P09', 'An import yields exactly the rows of the file, and reports what it cannot read',
         'Importing a file of delimiter-separated values appends one row per well-formed line, in order, up to the row limit: each cell yields exactly the value written in it, by the quoting and escaping rules and the header or the order of columns. '
         'Empty cells and columns missing from the file are NULL. A cell that is no value of its type or out of its range is reported and becomes NULL (floating-point numbers are clamped); '
         'a line with too few or too many cells is reported and adds no row. Neither rows already there nor other rows of the file are affected, and no input breaks memory safety.',
         ['inputs'], 'all files and configurations', 'Tests read fixed well-formed files and a few single errors; the guarantees fail where errors, quoting, headers and the end of the file meet.',
         ['src/io/DSVReader.cpp', 'include/mutable/io/Reader.hpp', 'src/catalog/DatabaseCommand.cpp', 'src/parse/Sema.cpp'],
         [('cells by type', 'src/io/DSVReader.cpp: operator()(Const<...>&)'), ('rows and header', 'src/io/DSVReader.cpp: operator()(std::istream&, const char*)'), ('configuration', 'src/parse/Sema.cpp: operator()(DSVImportStmt&)')],
         ['rows of the table, diagnostics'], 'runtime monitoring: files generated along with their rows on a sanitizer build, table contents and diagnostics compared',
         'Trailing text after a date is ignored as the unit tests demand; strings longer than their column may be cut or NULL. ' + SAN)
    prop('P10', 'An index holds exactly its column, answers every bound, and expires on change',
         'After CREATE INDEX an index holds one entry per non-NULL value of the column with the number of its row, in key order. For every key, present or not, its lower and upper bound are those of the sorted sequence of entries, '
         'whatever the distribution, type and number of keys and whichever method the index uses; an index that is not finalized refuses lookups. An index is offered to queries exactly while it exists and its table is unchanged: '
         'every INSERT or IMPORT invalidates the indexes of that table and of no other, and dropping a table drops its indexes.',
         ['inputs', 'histories'], 'all multisets of keys and all histories of commands', 'Tests add a few integers and never look up missing keys through a learned model; invalidation depends on the history of commands.',
         ['include/mutable/storage/Index.hpp', 'src/storage/Index.cpp', 'include/mutable/catalog/Schema.hpp', 'src/catalog/DatabaseCommand.cpp', 'src/parse/Sema.cpp'],
         [('learned models', 'src/storage/Index.cpp: RecursiveModelIndex::finalize'), ('search', 'include/mutable/storage/Index.hpp: lower_bound, upper_bound'), ('bulk loading', 'src/storage/Index.cpp: ArrayIndex::bulkload'),
          ('catalog', 'include/mutable/catalog/Schema.hpp: Database::add_index, get_index, invalidate_indexes')],
         ['entries and bounds of indexes; indexes offered by the catalog'], 'runtime monitoring: random keys and command histories on a sanitizer build, every lookup compared with a linear scan',
         'Queries that use indexes need the WebAssembly backend, which cannot be built here. ' + SAN)
    prop('P23', 'Cardinality estimates follow the data, the injected file and the query',
         'Without knowledge an estimate is the number of rows of a scan and the product of the inputs of a join. An injected cardinality is used for exactly the set of relations it names, in whatever order, and for exactly the grouping it names, '
         'never exceeding what the inputs can produce; unusable entries are reported and ignored and affect no other. A learned network estimates a scan as the rows learned, a filter by the predicates it can represent and no others, '
         'with the operators and negations as written, a join independent of the order of its inputs. No estimate of a filter, limit or grouping exceeds its input, none of a join the product of its inputs; limits respect the offset, '
         'a grouping without keys is one row, and no estimate wraps around. No query makes an estimator fail.',
         ['inputs', 'programs'], 'all databases, queries and files of cardinalities', 'Tests cover three fixed tables and a handful of estimates; wrong identifiers, operators and overflows need other shapes of queries.',
         ['src/catalog/CardinalityEstimator.cpp', 'include/mutable/catalog/CardinalityEstimator.hpp', 'src/catalog/SpnWrapper.cpp', 'src/IR/Optimizer.cpp'],
         [('injected cardinalities', 'src/catalog/CardinalityEstimator.cpp: read_json, make_identifier, InjectionCardinalityEstimator'), ('products', 'src/catalog/CardinalityEstimator.cpp: CartesianProductEstimator'),
          ('learned', 'src/catalog/CardinalityEstimator.cpp: SpnEstimator, FilterTranslator')],
         ['predicted cardinalities of every model; warnings'], 'runtime monitoring: random databases, queries and files on a sanitizer build, every estimate compared with a model or bounded by the rows',
         'An SPN represents single comparisons of attributes to numbers; conjunctions are judged by bounds. Groupings are judged on columns of scans. ' + SAN)
