"""The properties decided here: scenario, run counts, real code and stubs."""
import importlib

REAL_ENGINE = ['hiku.engine', 'hiku.executors.queue', 'hiku.result',
               'hiku.query', 'hiku.graph']
EXECUTORS = ['hiku.executors.sync', 'hiku.executors.threads',
             'hiku.executors.asyncio']
ASYNCIO = 'asyncio tasks, futures, gather and wait (CPython)'
THREADS = 'real threads, concurrent.futures.Future and wait (CPython)'
STUB_LOOP = 'event loop: time and I/O readiness come from the simulator'
STUB_POOL = 'thread pool: bounded FIFO workers run by the baton scheduler'
STUB_LOCK = 'threading.Lock/RLock: blocking is decided by the scheduler'
STUB_LOAD = 'data-loading functions: generated data, simulated waits'

SQL_REAL = ['hiku.sources.sqlalchemy', 'hiku.sources.aiopg',
            'hiku.sources.sqlalchemy_async', 'hiku.sources.graph',
            'SQLAlchemy engine, pool, compiler and results',
            'aiopg.sa engine, connection and results', 'SQLite']
SQL_STUB = ['DB-API module, aiopg pool and cursors: waits, row order, chunks '
            'and failures are simulated, statements run on SQLite (= ANY is '
            'rewritten to IN)', "SQLAlchemy's AsyncEngine (not installed)"]


NOTE = ('Sampled, not proved: every run is one seeded execution of the real '
        'code under a scheduler that decides every interleaving, delay and '
        'fault, compared with an independent reference model. Trusts the '
        'model, the generators and the stubs named in the evidence; '
        'interleavings are those of one CPU.')


class Prop:

    def __init__(self, pid, scenario, quick, thorough, rule, real, stub,
                 assumptions=(), wall=(110, 900), note=None):
        self.pid = pid
        self.scenario = scenario      # 'module.function'
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.real = real
        self.stub = stub
        self.assumptions = list(assumptions)
        self.wall = wall
        self.note = note or NOTE

    def load(self):
        mod, fn = self.scenario.split('.')
        return getattr(importlib.import_module('sim.' + mod), fn)


SAMPLING = ('seeded random sampling of runs, not enumeration: a clean batch '
            'is evidence, not proof')
SCHED = 'interleavings are those of one CPU: no memory-model effects'

PROPS = {}


def add(*args, **kwargs):
    p = Prop(*args, **kwargs)
    p.assumptions.append(SAMPLING)
    PROPS[p.pid] = p


add('C01', 'scen_engine.c01', 60000, 2000000,
    'one run = one generated graph, data set, query, executor kind and '
    'completion schedule, executed and compared with an object-by-object '
    'evaluation; non-trivial = at least two loads',
    REAL_ENGINE + EXECUTORS + ['hiku.sources.graph', 'hiku.expr', ASYNCIO,
                               THREADS],
    [STUB_LOOP, STUB_POOL, STUB_LOCK, STUB_LOAD], [SCHED])
add('C02', 'scen_engine.c02', 60000, 2000000,
    'one run = one generated graph, data set, query, executor kind and '
    'completion schedule; the multiset of loader calls (function, fields, '
    'identifiers, required values, options, context) is compared with the '
    'one derived from the query; non-trivial = at least two loads',
    REAL_ENGINE + EXECUTORS + ['hiku.sources.graph', 'hiku.expr', ASYNCIO,
                               THREADS],
    [STUB_LOOP, STUB_POOL, STUB_LOCK, STUB_LOAD], [SCHED])
add('C03', 'scen_engine.c03', 50000, 1500000,
    'one run = one generated graph, data set, query, executor kind and '
    'completion schedule; at every wait of the execution the set of loads '
    'handed over is compared with the dependency graph of the query; '
    'non-trivial = at least two loads',
    REAL_ENGINE + EXECUTORS[1:] + ['hiku.sources.graph', 'hiku.expr', ASYNCIO,
                                   THREADS],
    [STUB_LOOP, STUB_POOL, STUB_LOCK, STUB_LOAD], [SCHED])
add('C09', 'scen_engine.c09', 40000, 1000000,
    'one run = a generated low-level graph, one or two levels of expression '
    'graphs over it, a query, an executor kind and a completion schedule; '
    'values and loads compared with direct evaluation of the expressions; '
    'non-trivial = at least two loads',
    REAL_ENGINE + EXECUTORS + ['hiku.sources.graph', 'hiku.expr', ASYNCIO,
                               THREADS],
    [STUB_LOOP, STUB_POOL, STUB_LOCK, STUB_LOAD], [SCHED])
add('C04', 'scen_ordered.c04', 80000, 3000000,
    'one run = one generated root with fields and links, an ordered query '
    '(built directly or read from a GraphQL mutation), an executor kind, a '
    'completion schedule and at most one fault (a step or a nested load '
    'fails, the execution is cancelled in a step); the loads of the top '
    'level are compared with the steps of the query; non-trivial = at least '
    'two steps',
    REAL_ENGINE + EXECUTORS + ['hiku.readers.graphql', ASYNCIO, THREADS],
    [STUB_LOOP, STUB_POOL, STUB_LOCK, STUB_LOAD], [SCHED])
add('C05', 'scen_faults.c05', 50000, 1500000,
    'one run = one generated query whose loads fail in 1-3 chosen places, '
    'other executions before, next to and after it on the same engine, an '
    'executor kind and a completion schedule; non-trivial = at least one '
    'fault really happened',
    REAL_ENGINE + EXECUTORS + ['hiku.sources.graph', ASYNCIO, THREADS],
    [STUB_LOOP, STUB_POOL, STUB_LOCK, STUB_LOAD], [SCHED])
add('C06', 'scen_faults.c06', 80000, 3000000,
    'one run = one generated asyncio execution cancelled at a chosen moment '
    '(directly, twice, by a timeout, by gather or by a task group), loads '
    'that end, clean up, raise or finish when cancelled, and a schedule; '
    'non-trivial = the request arrived while the execution was running',
    REAL_ENGINE + EXECUTORS[2:] + ['hiku.sources.graph', ASYNCIO],
    [STUB_LOOP, STUB_LOAD])
add('C07', 'scen_queue.c07', 80000, 2500000,
    'one run = one generated script of tasks, groups and callbacks on a '
    'queue (or a query over nested sub-graphs), an executor kind and a '
    'completion schedule; a model of the pending work says when each '
    'callback may and must run; non-trivial = several tasks and groups (or a '
    'sub-graph)',
    REAL_ENGINE + EXECUTORS + ['hiku.sources.graph', ASYNCIO, THREADS],
    [STUB_LOOP, STUB_POOL, STUB_LOCK, STUB_LOAD], [SCHED])
add('C08', 'scen_shared.c08', 24000, 600000,
    'one run = 2-4 executions sharing engine, graph and query objects with '
    'contexts of their own, as coroutines, threads preempted at lines or '
    'instructions of hiku, or one after another, some failing or cancelled; '
    'each is compared with its run alone as the model gives it; non-trivial '
    '= executions run at the same time',
    REAL_ENGINE + EXECUTORS + ['hiku.sources.graph', ASYNCIO, THREADS],
    [STUB_LOOP, STUB_POOL, STUB_LOCK, STUB_LOAD], [SCHED])
add('C15', 'scen_shared.c15', 30000, 600000,
    'one run = 1-3 executions, and reads of their results in random order '
    'and manner (items, attributes, conversion, unrequested names), between, '
    'next to and after the executions, from one or several threads preempted '
    'at lines or instructions of hiku; non-trivial = every run',
    REAL_ENGINE + EXECUTORS + ['hiku.sources.graph', ASYNCIO, THREADS],
    [STUB_LOOP, STUB_POOL, STUB_LOCK, STUB_LOAD], [SCHED])
add('C10', 'scen_sql.c10', 40000, 400000,
    'one run = generated tables, rows and graph over one of the three SQL '
    'source modules, row order, chunk size and connection limit, and 1-3 '
    'concurrent queries or direct calls of the sources, compared with lookups '
    'in the plain data; non-trivial = at least two loads',
    REAL_ENGINE + EXECUTORS + SQL_REAL,
    [STUB_LOOP, STUB_POOL, STUB_LOCK] + SQL_STUB, [SCHED])
add('C11', 'scen_sql.c11', 40000, 500000,
    'one run = as for C10, with failures of the driver at chosen steps '
    '(acquire, execute, any fetch) and cancellations at chosen waits, and a '
    'query afterwards; a ledger of connections decides; non-trivial = a fault '
    'or cancellation really happened',
    REAL_ENGINE + EXECUTORS + SQL_REAL,
    [STUB_LOOP, STUB_POOL, STUB_LOCK] + SQL_STUB, [SCHED])
add('C12', 'scen_endpoint.c12', 26000, 600000,
    'one run = generated query and mutation graphs, one of the four endpoint '
    'classes, 1-3 dispatches at the same time (single requests or batches of '
    'queries, mutations, introspection and requests that must not run), '
    'preemption or completion schedule, and possibly one failing or cancelled '
    'dispatch; non-trivial = more than one request',
    REAL_ENGINE + EXECUTORS + [
        'hiku.endpoint.graphql', 'hiku.readers.graphql',
        'hiku.validate.query', 'hiku.denormalize.graphql',
        'hiku.introspection.graphql', 'graphql-core parser', ASYNCIO, THREADS],
    [STUB_LOOP, STUB_POOL, STUB_LOCK, STUB_LOAD], [SCHED])
add('C13', 'scen_metrics.c13', 26000, 600000,
    'one run = 1-3 executions of instrumented graphs (with graphs defined by '
    'expressions), at the same time or one after another, some failing or '
    'cancelled; every observation of the metric is compared with the loads '
    'and their simulated durations; non-trivial = at least two loads',
    REAL_ENGINE + EXECUTORS + ['hiku.telemetry.prometheus',
                               'hiku.sources.graph', 'prometheus_client',
                               ASYNCIO, THREADS],
    [STUB_LOOP, STUB_POOL, STUB_LOCK, STUB_LOAD], [SCHED])
add('C14', 'scen_console.c14', 36000, 800000,
    'one run = 1-3 requests to the WSGI application, at the same time or one '
    'after another, with uploads cut, late, in pieces, failing, too big, '
    'malformed or invalid, and failing loads; non-trivial = several requests '
    'or an upload',
    REAL_ENGINE + EXECUTORS[:2] + [
        'hiku.console.ui', 'hiku.edn', 'hiku.readers.simple',
        'hiku.validate.query', 'hiku.denormalize', THREADS],
    [STUB_POOL, STUB_LOCK, STUB_LOAD, 'WSGI server and its input stream'],
    [SCHED])
add('C21', 'scen_ended.c21', 9000, 250000,
    'one run = three or more equal rounds of 1-3 executions, over loading '
    'functions or SQL sources, or requests to an endpoint or the console, on '
    'one engine and graph, some failing or cancelled; after '
    'each round everything the caller had is dropped, the garbage collected, '
    'and what is still alive or has grown is looked for; non-trivial = every '
    'run',
    REAL_ENGINE + EXECUTORS + ['hiku.endpoint.graphql',
                               'hiku.readers.graphql', 'hiku.validate.query',
                               'hiku.denormalize', 'hiku.telemetry.prometheus',
                               'hiku.console.ui',
                               'CPython reference counting and garbage '
                               'collection', ASYNCIO, THREADS] + SQL_REAL,
    [STUB_LOOP, STUB_POOL, STUB_LOCK, STUB_LOAD] + SQL_STUB, [SCHED])
add('C22', 'scen_tools.c22', 28000, 600000,
    'one run = 1-3 threads, preempted at lines or instructions of hiku, each '
    'making 1-3 calls which read, export, merge, copy, validate or build '
    'queries, read and write EDN, list types, or build a graph and query it, '
    'on shared and own objects; non-trivial = several threads',
    ['hiku.readers', 'hiku.export', 'hiku.edn', 'hiku.query', 'hiku.builder',
     'hiku.validate', 'hiku.graph', 'hiku.expr', 'hiku.typedef',
     'hiku.engine', 'graphql-core', 'protobuf', THREADS],
    [STUB_LOCK, STUB_LOAD], [SCHED])
