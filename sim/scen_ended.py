"""C21: what is left of an execution when it has ended."""
import asyncio
import copy
import gc
import sys
import types
import weakref
from collections import deque, OrderedDict, defaultdict
from functools import partial, _lru_cache_wrapper

from prometheus_client import CollectorRegistry, Summary

from hiku.graph import apply
from hiku.telemetry.prometheus import GraphMetrics, AsyncGraphMetrics

from .core import Violation, HarnessError
from .gen import Config, GraphSpec, gen_graph, gen_query, gen_higher, gen_node
from .harness import Sim
from .intro import Schema
from .model import field_value
from .multi import Job, async_job, blocking_job, drain
from .scen_endpoint import EndSim, Maker
from .scen_shared import GAPS
from . import scen_console, scen_sql, sqldb
from .world import Exec, LoadError, merged_query

# rounds that grow one after another before growth counts as a leak: what is
# made once, on first use, does not keep growing
ROUNDS = 3
CONFIRM = 12


class Thing:
    """a value no code but the caller's knows anything about"""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Thing({})'.format(self.what)


class Ctx(dict):
    __slots__ = ('__weakref__',)


class Rows(list):
    """what a loading function returned"""
    __slots__ = ('__weakref__',)


class Watch:
    """weak references to the things that should go away"""

    def __init__(self):
        self.refs = []

    def add(self, what, obj):
        self.refs.append((what, weakref.ref(obj)))
        return obj

    def alive(self, whats=None):
        return [(what, r()) for what, r in self.refs
                if r() is not None and (whats is None or what in whats)]

    def clear(self):
        del self.refs[:]


def holders(obj, ignore):
    """names of what refers to the object, for the message"""
    out = set()
    seen = {id(obj)}
    level = [obj]
    for _ in range(4):
        below, level = level, []
        known = {id(below), id(level), id(ignore), id(sys._getframe())}
        for o in below:
            for r in gc.get_referrers(o):
                if id(r) in seen or id(r) in known or r is ignore or \
                        isinstance(r, types.FrameType) and \
                        r.f_code.co_filename == __file__:
                    continue
                seen.add(id(r))
                cls = type(r)
                if cls.__module__.startswith('hiku'):
                    out.add('{}.{}'.format(cls.__module__, cls.__name__))
                elif isinstance(r, types.FunctionType):
                    out.add('function ' + r.__name__)
                elif isinstance(r, dict) and '__builtins__' in r:
                    out.add('module {}'.format(r.get('__name__')))
                    continue
                elif isinstance(r, types.ModuleType):
                    continue
                level.append(r)
                if len(level) > 200:
                    break
    return sorted(out)


CONSOLE = 'console'


class Uploaded:
    """a request to the console"""

    def __init__(self, request, watch):
        self.request = request
        self.watch = watch

    def environ(self):
        env = self.request.environ()
        if 'wsgi.input' in env:
            self.watch.add('the upload', env['wsgi.input'])
        return env


CONTAINERS = (dict, list, set, frozenset, tuple, deque, OrderedDict,
              defaultdict, types.CellType, types.FunctionType,
              types.MethodType, partial, _lru_cache_wrapper,
              weakref.WeakKeyDictionary, weakref.WeakValueDictionary,
              weakref.WeakSet, types.MappingProxyType, staticmethod,
              classmethod, property)


def hiku_modules():
    return sorted((m for n, m in sys.modules.items()
                   if (n == 'hiku' or n.startswith('hiku.')) and
                   m is not None), key=lambda m: m.__name__)


def size(roots):
    """how much can be reached from the roots through hiku's own objects and
    plain containers"""
    seen = {id(roots)}
    stack = list(roots)
    for m in hiku_modules():
        stack.append(m.__dict__)
        seen.add(id(m.__dict__))
    n = 0
    while stack:
        o = stack.pop()
        n += 1
        try:
            n += len(o)
        except Exception:
            pass
        for r in gc.get_referents(o):
            if id(r) in seen:
                continue
            if isinstance(r, type):
                if not r.__module__.startswith('hiku'):
                    continue
            elif isinstance(r, types.FunctionType):
                if not (r.__module__ or '').startswith('hiku'):
                    continue
            elif isinstance(r, types.ModuleType):
                continue
            elif not isinstance(r, CONTAINERS) and \
                    not type(r).__module__.startswith('hiku'):
                continue
            elif isinstance(r, dict) and '__builtins__' in r:
                continue        # the globals of a module
            seen.add(id(r))
            stack.append(r)
    return n


def census():
    """the number of living objects of hiku's types"""
    return sum(1 for o in gc.get_objects()
               if type(o).__module__.startswith('hiku'))


_FROZEN = []


def collect():
    gc.collect()


def needed(gs):
    """(layer, node name, field) whose value links are asked with"""
    out = set()
    for g in gs:
        for node in [g.root] + list(g.nodes.values()):
            for it in node.items.values():
                if getattr(it, 'requires', None):
                    out.add((g.key, node.name, it.requires))
    return out


class Round:
    """the executions of one round, the same in each of them"""

    def __init__(self, run, sim, watch, graph, plans, endpoint):
        self.run = run
        self.sim = sim
        self.watch = watch
        self.graph = graph
        self.plans = plans
        self.endpoint = endpoint
        self.jobs = []
        self.kept = []
        self.counts = {}
        sim.world.behave = self.behave
        sim.world.on_submit = self.submitted
        sim.world.at_submit = self.at_submit

    def make(self):
        self.counts = {}
        self.jobs = []
        for i, plan in enumerate(self.plans):
            if self.endpoint == CONSOLE:
                ctx = {}
                query = Uploaded(plan['data'], self.watch)
            elif self.endpoint:
                ctx = {}
                query = copy.deepcopy(plan['data'])
            else:
                ctx = None
                if plan['ctx'] is not None:
                    ctx = self.watch.add('the context', Ctx(plan['ctx']))
                    ctx['thing'] = self.watch.add('the context',
                                                  Thing('context'))
                query = self.watch.add(
                    'the query', merged_query(plan['items'], plan['ordered']))
            job = Job(Exec(i, ctx), self.graph, query, None, None, ctx)
            job.plan = plan
            job.delay = plan['delay']
            self.jobs.append(job)
        return self.jobs

    def plan_of(self, call):
        i = call.exec.id if call.exec is not None else None
        return None if i is None else self.plans[i]

    def submitted(self, call):
        plan = self.plan_of(call)
        if plan is None or plan['fault'] != 'cancel':
            return
        key = call.exec.id, 'cancel'
        if key in self.counts:
            return
        self.counts[key] = 1
        job = self.jobs[call.exec.id]
        self.run.fault('an execution is cancelled')
        self.sim.loop.call_later(plan['after'],
                                 lambda: job.task and job.task.cancel())

    def behave(self, call):
        plan = self.plan_of(call)
        if plan is None or plan['fault'] not in ('raise', 'shape'):
            return None
        n = self.counts[call.exec.id] = self.counts.get(call.exec.id, -1) + 1
        if n != plan['at']:
            return None
        self.run.fault('a load fails' if plan['fault'] == 'raise'
                       else 'wrong shape')
        if plan['fault'] == 'shape':
            return ('shape', lambda value, call: None)
        return ('raise', self.error())

    def error(self):
        return self.watch.add('the error', LoadError('fault'))

    def refused(self, exec_):
        plan = None if exec_ is None else self.plans[exec_.id]
        if plan is None or plan['fault'] != 'refuse':
            return
        key = exec_.id, 'refuse'
        n = self.counts[key] = self.counts.get(key, -1) + 1
        if n == plan['at']:
            self.run.fault('a load is refused')
            raise self.error()

    def at_submit(self, call):
        if self.sim.mode == 'async':
            self.refused(call.exec)

    def pool_submit(self, fn):
        me = self.sim.sched.me()
        self.refused(me.exec if me is not None else None)

    def ended(self):
        """everything has ended: checks what is left"""
        world = self.sim.world
        if world.violations:
            raise world.violations[0]
        for job in self.jobs:
            if job.outcome is None:
                raise HarnessError('not ended')
            kind, value = job.outcome
            self.run.probe('ended: ' + kind)
            if kind == 'ok':
                self.kept.append(value)
            elif job.plan['fault'] is None:
                raise value
        for job in self.jobs:
            job.exec.calls.clear()
            job.exec.ctx = job.ctx = job.query = job.outcome = job.task = None
            job.exec.raised = []
        del world.calls[:]
        kind = value = job = None
        self.jobs = []
        if self.sim.sched is not None:
            self.sim.sched.me().exec = None
        self.forget()
        collect()
        if self.kept:
            self.check({'the context', 'a value of the context'}, 'is kept by a result or by what '
                       'executed it')
        del self.kept[:]
        collect()
        self.check(None, 'is still alive')
        self.watch.clear()

    def forget(self):
        """lets go of what only the simulation holds"""

    def check(self, whats, text):
        left = self.watch.alive(whats)
        if left:
            what, obj = left[0]
            raise Violation('left-behind', '{} of an ended execution {} (held '
                            'by {})'.format(what, text, holders(obj, left)))


class Text(str):
    """a text of the database, which can be watched"""


class SqlRound(Round):
    """executions over SQL sources, each with connections of its own"""

    def __init__(self, run, sim, watch, kind, db, plans):
        self.db = db
        self.kind = kind
        super().__init__(run, sim, watch, db.graph, plans, False)
        for srv in db.servers:
            srv.fault = self.fault
            srv.on_wait = self.waits
            srv.db.query = self.texts(srv.db.query)

    def texts(self, query):
        def watched(sql, params):
            rows, desc = query(sql, params)
            return [tuple(self.watch.add('a loaded value', Text(v))
                          if isinstance(v, str) else v for v in row)
                    for row in rows], desc
        return watched

    def make(self):
        self.counts = {}
        self.jobs = []
        for i, plan in enumerate(self.plans):
            ctx = self.watch.add('the context', Ctx())
            for name, srv in zip(self.db.ctx, self.db.servers):
                ctx[name] = self.watch.add(
                    'a value of the context', sqldb.ENGINES[self.kind](srv))
            ctx['thing'] = self.watch.add('the context', Thing('context'))
            query = self.watch.add('the query', merged_query(plan['items']))
            job = Job(Exec(i, ctx), self.graph, query, None, None, ctx)
            job.plan = plan
            job.delay = plan['delay']
            self.jobs.append(job)
        return self.jobs

    def fault(self, step):
        ld = self.db.ledger.current()
        if ld is None or ld.exec is None:
            return None
        plan = self.plans[ld.exec.id]
        if plan['fault'] != 'raise':
            return None
        n = self.counts[ld.exec.id] = self.counts.get(ld.exec.id, -1) + 1
        if n != plan['at']:
            return None
        self.run.fault('db error at ' + step)
        return self.watch.add('the error', sqldb.DbError('fault'))

    def waits(self, step):
        ld = self.db.ledger.current()
        if ld is None or ld.exec is None:
            return
        plan = self.plans[ld.exec.id]
        if plan['fault'] != 'cancel' or ld.exec.id in self.counts:
            return
        self.counts[ld.exec.id] = 1
        job = self.jobs[ld.exec.id]
        self.run.fault('an execution is cancelled')
        self.sim.loop.call_later(plan['after'],
                                 lambda: job.task and job.task.cancel())

    def forget(self):
        del self.db.ledger.loads[:]
        del self.run.keep[:]
        sqldb.LOADS.clear()


def settle_async(loop):
    async def settle():
        await drain(loop)
        for i in range(2):
            await loop.pause('settle{}'.format(i))
    return settle()


def rounds(run, sim, rnd, roots):
    """runs the rounds; raises when each one leaves something behind"""
    sizes = []

    def note():
        rnd.ended()
        sizes.append((size(roots()), census()))

    def more():
        if len(sizes) <= ROUNDS:
            return True
        grown = all(a[0] < b[0] for a, b in zip(sizes[1:], sizes[2:])) or \
            all(a[1] < b[1] for a, b in zip(sizes[1:], sizes[2:]))
        return grown and len(sizes) < CONFIRM

    if sim.mode == 'async':
        async def main(sim):
            while more():
                tasks = []
                for job in rnd.make():
                    job.task = sim.loop.create_task(async_job(sim, job))
                    tasks.append(job.task)
                    job = None
                await asyncio.wait(tasks)
                for t in tasks:
                    if not t.cancelled() and t.exception() is not None:
                        raise t.exception()
                t = tasks = None
                await settle_async(sim.loop)
                note()
    elif sim.mode == 'threads':
        def main(sim):
            sim.pool.on_submit = rnd.pool_submit
            while more():
                jobs = rnd.make()
                threads = [sim.sched.spawn(
                    lambda job=job: blocking_job(sim, job),
                    'job{}'.format(job.exec.id), job.exec)
                    for job in jobs[1:]]
                blocking_job(sim, jobs[0])
                sim.sched.join(threads)
                jobs = threads = None
                sim.pool.drain()
                for i in range(2):
                    sim.sched.pause('settle{}'.format(i))
                note()
    else:
        def main(sim):
            while more():
                for job in rnd.make():
                    blocking_job(sim, job)
                job = None
                note()
    if sim.mode == 'threads' and run.ch.chance(20):
        sim.start(main, preempt='line', gaps=GAPS[0])
    else:
        sim.start(main)
    return sizes


def judge(run, sizes):
    run.sizes['rounds'] += len(sizes)
    if len(sizes) >= CONFIRM:
        raise Violation('growth', 'each of {} equal rounds of executions left '
                        'something behind: what is reached from engine, graph '
                        'and modules grew from {} to {}, objects of the '
                        'library from {} to {}'.format(
                            len(sizes), sizes[1][0], sizes[-1][0],
                            sizes[1][1], sizes[-1][1]))


def c21(run):
    if not _FROZEN:
        gc.collect()
        gc.freeze()
        _FROZEN.append(True)
    ch = run.ch
    if ch.chance(15):
        c21_sql(run)
        return
    endpoint = ch.weighted(((13, False), (7, True), (2, CONSOLE)))
    console = endpoint == CONSOLE
    cfg = Config(ch, max_items=3, depth=2, large=False,
                 ctx=0 if endpoint else ch.pick((40, 0)),
                 **({'alias': 0, 'options': 0} if console else {}))
    low = gen_graph(ch, cfg)
    g = low
    gs = [low]
    if not endpoint and ch.chance(35):
        g = gen_higher(ch, cfg, low)
        gs = [low, g]
    mode = ch.pick(('sync', 'threads') if console else
                   ('sync', 'async', 'threads'))
    sim = (scen_console.ConSim if console else EndSim if endpoint
           else Sim)(run, mode)
    world = sim.world
    watch = Watch()
    things = g is low and (console or not endpoint) and ch.chance(70)
    used = needed(gs)

    def values(spec_g, spec, ident, opts, ctx):
        v = field_value(spec_g, spec, ident, opts, ctx)
        if v is not None and spec.ctype is None and \
                not any(spec.name == u[2] for u in used):
            return watch.add('a loaded value', Thing(spec.name))
        return v
    if things:
        world.values = values
        run.probe('opaque values')
    instrumented = ch.chance(20)
    if instrumented:
        run.probe('instrumented')
        cls = AsyncGraphMetrics if mode == 'async' else GraphMetrics
        metric = Summary('graph_field_time', 'time',
                         ['graph', 'node', 'field'],
                         registry=CollectorRegistry())
        world.transform = lambda spec, graph: \
            apply(graph, [cls(spec.key, metric=metric)])
    graph = world.graph(g)

    def wrap(value):
        if not isinstance(value, list):
            return value
        return watch.add('what a load returned', Rows(
            watch.add('what a load returned', Rows(v))
            if type(v) is list else v for v in value))
    world.wrap = wrap
    plans = []
    if console:
        run.probe('console')
        sim.graph = graph
        sim.debug = ch.chance(50)
        make = scen_console.Maker(run, cfg, g, 40)
    elif endpoint:
        run.probe('endpoint')
        m = None
        if ch.chance(50):
            m = GraphSpec('m', g.seed)
            m.nodes, m.records = g.nodes, g.records
            m.funcs = list(g.funcs)
            gen_node(ch, cfg, m, m.root)
        sim.batch = ch.chance(50)
        sim.graphs = [graph] + ([world.graph(m)] if m is not None else [])
        make = Maker(run, cfg, g, m, Schema(g, m))
    for i in range(ch.between(1, 3)):
        plan = {'delay': ch.below(3) if mode != 'sync' else 0,
                'ordered': False}
        if console:
            plan['data'] = make.request()
        elif endpoint:
            if sim.batch and ch.chance(60):
                plan['data'] = [make.request().data
                                for _ in range(ch.below(4))]
            else:
                plan['data'] = make.request().data
        else:
            plan['items'] = gen_query(ch, cfg, g, 10)
            plan['ctx'] = {'u': i} if ch.chance(75) else None
            plan['ordered'] = ch.chance(15)
        fault = ch.weighted(((5, None), (3, 'raise'), (2, 'shape'),
                             (2, 'cancel'), (1, 'refuse')))
        if fault == 'cancel' and mode != 'async':
            fault = 'raise'
        if console and plan['data'].broken:
            fault = 'upload'
        plan['fault'] = fault
        plan['at'] = ch.below(4)
        plan['after'] = ch.pick((0.25, 0.5, 1.0, 2.0))
        plans.append(plan)
    run.probe('mode:' + mode)
    run.nontrivial = True
    run.note = {'executor': mode, 'endpoint': endpoint,
                'faults': [p['fault'] for p in plans],
                'queries': [repr(p.get('data') or p.get('items'))
                            for p in plans]}
    sim.late = mode == 'async' and not endpoint and ch.chance(15)
    rnd = Round(run, sim, watch, graph, plans, endpoint)

    def roots():
        out = [sim.engine, graph]
        if console:
            out.append(sim.app)
        elif endpoint:
            out.append(sim.endpoint)
        return out

    judge(run, rounds(run, sim, rnd, roots))



def c21_sql(run):
    ch = run.ch
    run.probe('SQL sources')
    kind = ch.pick(('sa', 'aiopg', 'asyncio'))
    mode = ch.pick(scen_sql.modes_of(kind))
    s = scen_sql.gen_spec(ch, kind, False,
                          ch.pick((('db',), ('db', 'other'))))
    sim = Sim(run, mode)
    watch = Watch()
    db = scen_sql.Db(run, sim, s, kind, ch.chance(20), None,
                     ch.pick((64, 1, 2)))
    ref = scen_sql.Ref(s)
    plans = []
    for i in range(ch.between(1, 2)):
        plan = {'delay': ch.below(3) if mode != 'sync' else 0,
                'items': scen_sql.gen_query(ch, s, ref)}
        fault = ch.weighted(((3, None), (2, 'raise'), (2, 'cancel')))
        if fault == 'cancel' and mode != 'async':
            fault = 'raise'
        if fault is None:
            try:
                ref.root(plan['items'])
            except scen_sql.Missing:
                fault = 'missing'
        plan['fault'] = fault
        plan['at'] = ch.below(6)
        plan['after'] = ch.pick((0.0, 0.25, 0.5, 1.0, 2.0))
        plans.append(plan)
    run.probe('mode:' + mode)
    run.nontrivial = True
    run.note = {'executor': mode, 'source': kind,
                'faults': [p['fault'] for p in plans],
                'queries': [repr(p['items']) for p in plans]}
    try:
        rnd = SqlRound(run, sim, watch, kind, db, plans)
        size_ = scen_sql.chunk_size(ch, kind, False)
        with scen_sql.ChunkSize(kind, size_):
            sizes = rounds(run, sim, rnd, lambda: [sim.engine, db.graph])
        judge(run, sizes)
    finally:
        db.close()
