"""Writes /verif/properties.jsonl (kept as code so that statements are easy to edit)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': list(observe), 'hook_needed': hook},
    })


prop('C01', 'A query has one result, whatever the executor and the completion order',
     'For every graph, merged query and data, executing the query yields exactly what evaluating it object by object '
     'on the data yields: each requested field, alias, option variant and linked object, in link order, and nothing '
     'else. The result is the same whether loading functions run inline, in threads or as coroutines, and does not '
     'depend on the order, timing or grouping in which they complete.',
     ['schedules', 'inputs', 'programs', 'configurations'],
     'all graphs, queries, data sets, executors and completion orders/batchings of the loading functions',
     'tests run a handful of graphs on the inline executor, where every load completes at once in one fixed order; '
     'threads appear in one test and out-of-order or simultaneous completion in none',
     ['hiku/engine.py', 'hiku/executors/queue.py', 'hiku/executors/sync.py', 'hiku/executors/threads.py',
      'hiku/executors/asyncio.py', 'hiku/result.py', 'hiku/query.py', 'hiku/denormalize/base.py'],
     [('Query.process_node / store_fields / store_links', 'hiku/engine.py'),
      ('Queue.progress runs completion callbacks', 'hiku/executors/queue.py'),
      ('index_key separates option variants', 'hiku/query.py'),
      ('Proxy / denormalize read the index', 'hiku/result.py')],
     [('result index', 'normalized storage node -> ident -> field', 'hiku/result.py Index')],
     ['return value of Engine.execute read through denormalize and through item access'])

prop('C02', 'Loaders are called once per place in the query, batched, without over-fetching',
     'During one execution each data-loading function is called exactly once for every place in the query that needs '
     'it, with all the fields it serves there and all identifiers at once, so the number of calls depends on the shape '
     'of the query and never on the amount of data (no N+1). It is asked only for fields the query requests or a '
     'requested link requires, gets identifiers, required values, options and context as documented, and is not '
     'called at all for a place no object reaches. This holds on every executor and for every completion order.',
     ['schedules', 'inputs', 'programs', 'configurations'],
     'all graphs, queries, data sizes, executors and completion orders',
     'tests assert call arguments for fixed tiny graphs on the inline executor; data size, sharing of functions, '
     'overlapping identifiers and concurrency are not varied',
     ['hiku/engine.py', 'hiku/executors/queue.py'],
     [('grouping of fields by function', 'hiku/engine.py SplitQuery, Query.process_node'),
      ('link_reqs / link_result_to_ids', 'hiku/engine.py'),
      ('option defaults', 'hiku/engine.py InitOptions')],
     observe=['arguments of every loading function call'])

prop('C03', 'A load starts when, and only when, everything it depends on has been loaded',
     'A link function starts only after the field its link requires is loaded and receives exactly the loaded values '
     'for the right objects; the fields and links of a node start loading only after the link leading to it has been '
     'resolved. Conversely, whenever an execution waits, every load whose prerequisites are complete has already been '
     'handed to the executor, so independent loads run in parallel and a slow load delays only what depends on it.',
     ['schedules', 'programs', 'configurations'],
     'all dependency graphs of loads and all completion orders on the concurrent executors',
     'on the inline executor loads never overlap; no test holds one load back and looks at which others were started',
     ['hiku/engine.py', 'hiku/executors/queue.py', 'hiku/executors/asyncio.py', 'hiku/executors/threads.py'],
     [('callbacks chained on futures and task groups', 'hiku/engine.py Query.process_node, _schedule_fields, _schedule_link'),
      ('FIRST_COMPLETED waiting', 'hiku/executors/asyncio.py, hiku/executors/threads.py')],
     observe=['hand-over of loads to the executor, start and end of every load'])

prop('C04', 'Ordered queries (GraphQL mutations) run their steps strictly one after another',
     'In a query whose top level is marked ordered, as in every GraphQL mutation, the loads of the top-level fields '
     'and links start in the order in which the query lists them and each starts only after the previous one has '
     'completed; adjacent fields served by one function form one step. If a step fails, or the execution is cancelled '
     'during it, no later step ever starts.',
     ['schedules', 'fault_sequences', 'programs', 'configurations'],
     'all ordered queries and mutation documents, executors, completion orders, failures and cancellation points',
     'one test runs one ordered query on the inline executor, which is sequential anyway; links among the steps, '
     'complex fields, failures, cancellation and concurrent executors are not covered',
     ['hiku/engine.py', 'hiku/query.py', 'hiku/readers/graphql.py', 'hiku/endpoint/graphql.py'],
     [('GroupQuery / _process_node_ordered', 'hiku/engine.py'),
      ('merge keeps query order and the ordered mark', 'hiku/query.py'),
      ('mutation operations are read as ordered', 'hiku/readers/graphql.py')],
     observe=['start and end of every load of the ordered level'])

prop('C05', 'A failed load fails its execution with that error, and nothing else',
     'If a load fails, because the function raises, returns data of the wrong shape, or the executor refuses it, the '
     'execution raises instead of returning a result or hanging: it raises one of the errors that really occurred '
     '(the very exception a function raised), and once it has raised it hands no further load to the executor. '
     'Other executions on the same engine and graph, earlier, concurrent or later, are not affected.',
     ['schedules', 'fault_sequences', 'inputs', 'configurations'],
     'every load as the failing one, several failures at once, every kind of failure, executor and completion order',
     'tests check the error for wrong-shaped data on the inline executor; raising functions, several failures in one '
     'completion batch, threads and coroutines are not tested',
     ['hiku/engine.py', 'hiku/executors/queue.py', 'hiku/executors/asyncio.py', 'hiku/executors/threads.py',
      'hiku/executors/sync.py'],
     [('result() re-raises in completion callbacks', 'hiku/engine.py'),
      ('_check_store_fields / _check_store_links / link_result_to_ids', 'hiku/engine.py')],
     observe=['outcome of Engine.execute, loads handed to the executor afterwards'])

prop('C06', 'Cancelling an asynchronous execution stops and awaits all of its loads',
     'Cancelling an asynchronous execution while it waits for loads, directly or through a timeout, cancels every load '
     'in flight, waits until all of them have ended including their cleanup, hands over no further load, and then ends '
     'as cancelled. This holds for every moment of cancellation and whatever the loads do when cancelled: end at '
     'once, clean up slowly, raise another error, or finish normally.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'all cancellation instants, sets of in-flight loads and behaviours of loads under cancellation',
     'one test cancels a single sleeping task',
     ['hiku/executors/asyncio.py', 'hiku/executors/queue.py'],
     [('except CancelledError: cancel and gather in-flight tasks', 'hiku/executors/asyncio.py AsyncIOExecutor.process')],
     observe=['state of every load when the cancelled execution ends'])

prop('C07', 'Task groups complete exactly once and exactly when all their work is done',
     'A task group notifies its completion callbacks exactly once, as soon as but not before every task submitted to '
     'it and every group forked from it has completed and has had its own callbacks run, including tasks and groups '
     'added by callbacks; each task callback runs exactly once, after its task, in registration order. In whatever '
     'order and batches tasks complete, nothing stays pending at the end: an execution, with any nesting of '
     'sub-graphs, returns once its last load completes and neither earlier nor never.',
     ['schedules', 'programs', 'histories'],
     'all trees of tasks, groups and callbacks and all completion orders and batches',
     'the test follows one script of three nested groups, one task per completion step',
     ['hiku/executors/queue.py', 'hiku/engine.py', 'hiku/sources/graph.py'],
     [('Queue.progress / fork / submit / add_callback', 'hiku/executors/queue.py')],
     [('futures and forks per task set', 'outstanding work of each group', 'hiku/executors/queue.py')],
     ['callback invocations', 'pending futures after every progress step'])

prop('C08', 'Executions sharing an engine, a graph or a query are isolated from each other',
     'Any number of executions, one after another or concurrently in threads or coroutines, may share the engine, the '
     'graph and the query object: each produces the result it would produce alone, even when others fail or are '
     'cancelled. Functions that ask for the context receive the context of their own execution and other functions '
     'receive none; executing never modifies the graph, the query or the context.',
     ['schedules', 'histories', 'fault_sequences', 'configurations'],
     'all histories and interleavings (down to single lines of library code for threads) of executions that share objects',
     'tests run executions one at a time, each with its own query',
     ['hiku/engine.py', 'hiku/graph.py', 'hiku/query.py', 'hiku/utils.py', 'hiku/sources/graph.py'],
     [('per-execution Queue, Query and Index', 'hiku/engine.py Engine.execute'),
      ('copying query transformer', 'hiku/query.py'), ('lazily computed maps', 'hiku/utils.py cached_property')],
     observe=['result and loader calls of each execution', 'graph, query and context before and after'])

prop('C09', 'Two-level graph fields equal their expression over the low-level data',
     'A field defined by an expression over a low-level graph has, for every object, exactly the value of that '
     'expression applied to the low-level data of that same object, with the option values of that field, in every '
     'completion order and at any nesting depth of such graphs. All expression fields a query requests from one '
     'source at one place share one batched low-level load that fetches only what the requested expressions use, and '
     'links requiring such a field wait for it and see its value.',
     ['schedules', 'inputs', 'programs', 'configurations'],
     'all expressions over all low-level graphs, object sets, options, executors and completion orders',
     'tests evaluate fixed expressions on one small graph, with one thread-pool test',
     ['hiku/sources/graph.py', 'hiku/engine.py', 'hiku/executors/queue.py', 'hiku/expr/refs.py', 'hiku/expr/compiler.py'],
     [('SubGraph.__call__ forks a task group and runs a nested query', 'hiku/sources/graph.py'),
      ('requirements extraction', 'hiku/expr/refs.py')],
     observe=['values of high-level fields', 'low-level loader calls'])

prop('C10', 'SQL sources match rows to identifiers regardless of row order and chunking',
     'The SQL sources (blocking, aiopg and asyncio variants) return for every identifier, in the order asked and '
     'including repeated ones, the requested columns of the row with that key, or nulls when there is no such row; '
     'links return the targets related to each value: exactly one, one or nothing, or all of them. But for the order '
     'of the targets within one such "all", the outcome does not depend on the order in which the database delivers '
     'rows, on how many there are, on how they are split into fetched chunks, or on unrelated rows.',
     ['inputs', 'schedules', 'configurations'],
     'all tables, identifier lists, row orders, row counts around chunk boundaries and interleavings of queries',
     'tests read a few rows in primary-key order from sqlite; the asynchronous sources are not exercised at all here',
     ['hiku/sources/sqlalchemy.py', 'hiku/sources/aiopg.py', 'hiku/sources/sqlalchemy_async.py'],
     [('FieldsQuery.select_expr result_proc', 'hiku/sources/sqlalchemy.py'),
      ('_to_maybe_mapper, _to_one_mapper, _to_many_mapper', 'hiku/sources/sqlalchemy.py'),
      ('fetchmany loops', 'hiku/sources/aiopg.py, hiku/sources/sqlalchemy_async.py')],
     observe=['query results over a simulated database driver'])

prop('C11', 'SQL sources always give connections back and never turn an error into data',
     'Each load from an SQL source takes at most one connection, uses it only while holding it and gives it back '
     'exactly once, whether the load succeeds, the database fails at any step (acquire, execute, any fetch), or the '
     'execution is cancelled at any await. A database error reaches the caller as that error and never as missing or '
     'partial rows, and a load with nothing to look up touches no connection.',
     ['fault_sequences', 'crash_points', 'schedules'],
     'every step of the driver protocol as the failing or cancelled one, with any number of concurrent loads',
     'tests have no failing database and no cancellation; asynchronous sources are not exercised',
     ['hiku/sources/sqlalchemy.py', 'hiku/sources/aiopg.py', 'hiku/sources/sqlalchemy_async.py'],
     [('(async) with acquire()/connect()', 'hiku/sources/sqlalchemy.py, hiku/sources/aiopg.py, hiku/sources/sqlalchemy_async.py')],
     observe=['acquire/execute/fetch/release events of the simulated driver'])

prop('C12', 'GraphQL endpoints answer each request on its own, executing only valid ones',
     'A GraphQL endpoint answers a request with data shaped like the request, or with errors and then '
     'without having called any loading function: requests that can not be parsed, do not validate or whose operation type is not '
     'offered execute nothing, a valid one makes each load it needs exactly once, and a query operation never calls '
     'functions of the mutation root. A batch is answered '
     'one to one and in order, each answer equal to the answer to that request alone, however the concurrently '
     'processed requests interleave; blocking and asynchronous endpoints give equal answers, introspection included.',
     ['schedules', 'inputs', 'histories', 'configurations'],
     'all requests and batches mixing queries, mutations, introspection and invalid ones, and all interleavings',
     'tests dispatch single-field queries and one batch of two',
     ['hiku/endpoint/graphql.py', 'hiku/readers/graphql.py', 'hiku/denormalize/graphql.py', 'hiku/validate/query.py',
      'hiku/introspection/graphql.py'],
     [('_switch_graph, _process_query, dispatch', 'hiku/endpoint/graphql.py'),
      ('DenormalizeGraphQL', 'hiku/denormalize/graphql.py')],
     observe=['dispatch() responses and loader calls'])

prop('C13', 'Metrics are transparent and record every load once, under its own name',
     'A graph instrumented with metrics returns the same results and makes the same loader calls as without. Every '
     'completed load is recorded exactly once for each field or link it was asked for, under the graph, node and name of '
     'that field or link, with the time that very load took, however loads overlap in threads or coroutines. Instrumenting '
     'graphs from several threads at once works.',
     ['schedules', 'inputs', 'configurations'],
     'all graphs (functions shared within and between nodes, context functions, sub-graphs), executors, overlaps and delays',
     'tests check that counters of three fields equal 1 after one execution; durations and overlap are not checked',
     ['hiku/telemetry/prometheus.py'],
     [('_wrap_field/_wrap_link/_wrap_subquery, _observe_fields', 'hiku/telemetry/prometheus.py')],
     [('default metric', 'process-wide lazily created metric', 'hiku/telemetry/prometheus.py')],
     ['samples of the metric registry under a simulated clock'])

prop('C14', 'The console answers every request once; broken uploads never run as a query',
     'The web console answers each request with exactly one response whose declared length is its real length. A query '
     'upload that is cut short, too big, malformed, invalid for the graph or failing in a load gets an error status '
     'and calls no loading function unless the whole query arrived and is valid; it never yields a success for '
     'anything but the full query sent. (When reading the upload itself fails, that error may reach the server '
     'instead.) Without debug mode no traceback is disclosed. Concurrent and later requests are answered as if alone.',
     ['fault_sequences', 'schedules', 'inputs'],
     'every truncation point, short read and read error of the upload, load failures, and interleavings of request threads',
     'tests post one complete valid query',
     ['hiku/console/ui.py', 'hiku/edn.py', 'hiku/readers/simple.py'],
     [('ConsoleApplication._index_post', 'hiku/console/ui.py'), ('push parser', 'hiku/edn.py')],
     observe=['status, headers and body of WSGI responses; loader calls'])

prop('C15', 'A returned result is a stable snapshot',
     'Once an execution has returned, its result answers every read of requested data, by item or attribute, in any '
     'order, repeatedly and from any number of threads at once, always with the same values, and an object reached '
     'along several paths shows the same values on each. Reading what was not requested raises a lookup error and '
     'changes nothing, and neither later nor concurrent executions, nor converting the result to plain data, alter it.',
     ['histories', 'schedules'],
     'all sequences and interleavings of reads, conversions and further executions after a result was returned',
     'tests read each result once, in one thread',
     ['hiku/result.py', 'hiku/denormalize/base.py', 'hiku/engine.py'],
     [('Index.finish freezes the index', 'hiku/result.py'), ('Proxy', 'hiku/result.py')],
     observe=['reads through result proxies and denormalize'])

prop('C16', 'Exported queries read back as the same query',
     'Exporting a query to EDN, GraphQL or Protocol Buffers and reading it back yields an equal query wherever the '
     'format can express it.',
     ['inputs'], 'all queries', 'tests convert a few fixed queries',
     ['hiku/export', 'hiku/readers', 'hiku/edn.py'], [('exporters and readers', 'hiku/export, hiku/readers')])
prop('C17', 'Validation accepts exactly the queries the engine can execute',
     'A query that validates against a graph can be executed and converted without lookup or type errors from the '
     'library, and every invalid query is reported with at least one error.',
     ['inputs', 'programs'], 'all graphs and queries', 'tests check a list of fixed invalid queries',
     ['hiku/validate/query.py', 'hiku/validate/graph.py'], [('QueryValidator, GraphValidator', 'hiku/validate')])
prop('C18', 'Expression checking is sound',
     'An expression accepted by the type checker compiles and, on data of the declared types, evaluates without lookup '
     'errors, reading only data contained in its computed requirements.',
     ['programs', 'inputs'], 'all expressions and type environments', 'tests use fixed expressions',
     ['hiku/expr/checker.py', 'hiku/expr/refs.py', 'hiku/expr/compiler.py'],
     [('Checker, RequirementsExtractor, ExpressionCompiler', 'hiku/expr')])
prop('C19', 'Introspection and type listings describe the graph exactly',
     'GraphQL introspection and the console type listing name every public node, field, link, option and data type of '
     'the graph with its type, and nothing else.',
     ['programs'], 'all graphs', 'tests introspect a few fixed graphs',
     ['hiku/introspection/graphql.py', 'hiku/typedef/kinko.py'], [('introspection graph, type dump', 'hiku/introspection, hiku/typedef')])
prop('C20', 'GraphQL documents are read according to the GraphQL language',
     'Variables, defaults, fragments, aliases and @skip/@include directives of a GraphQL document select exactly the '
     'fields and argument values the GraphQL specification says.',
     ['inputs'], 'all documents and variable values', 'tests read fixed documents',
     ['hiku/readers/graphql.py'], [('GraphQLTransformer', 'hiku/readers/graphql.py')])

prop('C21', 'Nothing of an ended execution stays alive',
     'When an execution, or an endpoint\'s answer to a request, has returned, failed or been cancelled and its caller '
     'has dropped the outcome, nothing of it stays alive: engine, executor, graph, endpoint, metrics and modules keep '
     'neither its context nor its query, the loaded values, what loading functions returned or raised, nor tasks and '
     'futures, and repeating the same executions does not let anything grow. A result that is kept holds its data, '
     'but not the context of its execution.',
     ['histories', 'schedules', 'fault_sequences'],
     'all histories of successful, failing and cancelled executions and requests, on all executors',
     'a leak shows only after many executions, or after a failure or cancellation at a certain point, and no test '
     'looks at what stays alive',
     ['hiku/engine.py', 'hiku/executors/queue.py', 'hiku/executors/threads.py', 'hiku/executors/asyncio.py',
      'hiku/endpoint/graphql.py', 'hiku/result.py', 'hiku/sources/graph.py', 'hiku/telemetry/prometheus.py'],
     [('queue, task sets and workflow are made for each execution', 'hiku/engine.py Engine.execute'),
      ('Queue.progress drops what has completed', 'hiku/executors/queue.py'),
      ('Proxy holds index and query only', 'hiku/result.py')],
     [('per-execution state', 'queue, task sets, index, context', 'hiku/engine.py Query')],
     ['weak references to contexts, queries, values and errors after garbage collection',
      'size of what engine, graph, endpoint and modules reach'])

prop('C22', 'Reading, exporting, checking and building give the same in any thread',
     'Queries may be read (GraphQL, EDN, Protocol Buffers), exported, built, merged, copied and validated, graphs and '
     'endpoints built and type listings made from any number of threads at once, in any order and repeatedly, on '
     'shared or own objects: each call gives what it gives alone in a fresh process - an exported query reads back as '
     'that query, a document gives what it selects with its variables, valid queries have no errors and invalid ones '
     'have - and leaves its arguments as they were.',
     ['schedules', 'histories', 'inputs'],
     'all interleavings and orders of such calls in several threads, for all queries and documents',
     'tests make each call once, in one thread, on objects of its own; state shared between calls shows only when '
     'they interleave or follow each other with other inputs',
     ['hiku/readers', 'hiku/export', 'hiku/edn.py', 'hiku/query.py', 'hiku/builder.py', 'hiku/validate',
      'hiku/graph.py', 'hiku/typedef/kinko.py', 'hiku/introspection/graphql.py', 'hiku/expr'],
     [('visitors and transformers are made for each call', 'hiku/readers, hiku/export, hiku/validate'),
      ('cached properties of query objects', 'hiku/query.py, hiku/utils.py')],
     observe=['return values of the calls', 'their arguments afterwards'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
