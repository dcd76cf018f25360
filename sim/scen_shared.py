"""C08: executions share engine, graph and queries; C15: results."""
import asyncio
import copy
import gc

from hiku.graph import Graph
from hiku.query import Node as Query
from hiku.result import denormalize

from .aioloop import EXEC
from .core import Violation, canon, short_tb
from .gen import (Config, gen_graph, gen_query, gen_higher, layers,
                  OPTVALS, REQUIRED)
from .harness import (Sim, check_result, check_loads, walk, expected_raw, diff,
                      run_query)
from .model import Obj, expected, merged, Loads
from .multi import (Job, async_job, blocking_job, make_jobs, run_stages,
                    run_sync_threads)
from .scen_faults import Faults, explained
from .world import LazyContext, Exec, merged_query


def describe_graph(graph):
    out = []
    for node in [graph.root] + list(graph.nodes):
        for f in node.fields:
            out.append((node.name, f.name, type(f).__name__,
                        [(o.name, canon(o.default)) for o in f.options],
                        getattr(f, 'requires', None),
                        getattr(f, 'node', None),
                        repr(getattr(f, 'type', None)), id(f.func)))
    out.append(sorted(graph.nodes_map))
    out.append(sorted(graph.data_types))
    return out


GAPS = ((1, 2, 3, 5, 8, 13, 40), (20, 40, 80, 160), (1, 1, 2, 3))


def schedule(run, sim, jobs, style, after=None):
    """runs all jobs next to each other in the given style"""
    ch = run.ch
    preempt = None
    if style in ('threads', 'inline threads'):
        preempt = ch.pick((None, 'line', 'opcode'))
        run.probe('preemption: {}'.format(preempt))
    gaps = ch.pick(GAPS)
    if style == 'inline threads':
        return run_sync_threads(sim, jobs, preempt, after, gaps=gaps,
                                locks=ch.pick((0, 30)))
    kw = {}
    if style == 'threads':
        kw = dict(preempt=preempt, gaps=gaps, locks=ch.pick((0, 30)),
                  workers=ch.pick((64, 1, 2)))
    if style == 'one after another':
        return run_stages(sim, [[j] for j in jobs], after, **kw)
    return run_stages(sim, [jobs], after, **kw)


class Nested:
    """each execution runs inside of a loading function of the one before"""

    def __init__(self, run, sim, jobs, at):
        self.run = run
        self.sim = sim
        self.inner = {}
        for i, (outer, inner) in enumerate(zip(jobs, jobs[1:])):
            self.inner.setdefault((outer.exec, at[i]), []).append(inner)
        self.counts = {}
        sim.world.behave = self.behave

    def behave(self, call):
        n = self.counts[call.exec] = self.counts.get(call.exec, -1) + 1
        jobs = self.inner.pop((call.exec, n), None)
        if not jobs:
            return None
        self.run.probe('an execution inside of a load')
        job, = jobs
        if self.sim.mode == 'async':
            async def body(call, produce, finish):
                await async_job(self.sim, job)
                EXEC.set(call.exec)
                return finish(call, produce)
            return 'custom', body
        blocking_job(self.sim, job)
        if self.sim.mode == 'threads':
            self.sim.sched.me().exec = call.exec
        else:
            EXEC.set(call.exec)
        return None


def nested(run, sim, jobs, loads=lambda job: job.loads):
    """the jobs that were executed"""
    Nested(run, sim, jobs, [run.ch.below(max(1, len(loads(j).real())))
                            for j in jobs])
    run_stages(sim, [jobs[:1]], **(
        {'workers': 64} if sim.mode == 'threads' else {}))
    return [j for j in jobs if j.outcome is not None]


STYLES = ('coroutines', 'threads', 'inline threads', 'one after another')
NESTED = 'inside of loads'
MODE = {'coroutines': 'async', 'threads': 'threads', 'inline threads': 'sync',
        'one after another': 'sync'}


def variant(ch, g):
    """a graph of the same shape: loaders, data and default values of
    options are its own"""
    v = copy.deepcopy(g)
    specs = layers(v)
    seen = set()
    for spec in specs:
        if id(spec) in seen:
            continue
        seen.add(id(spec))
        spec.key += 'v'
        spec.seed += 1
        for func in spec.funcs:
            func.id = func.id.replace('.', 'v.', 1)
        for node in [spec.root] + list(spec.nodes.values()):
            for it in node.items.values():
                for o in it.options:
                    if o.default is not REQUIRED:
                        o.default = ch.pick(o.values or OPTVALS)
    return v


def at_address(cls, address):
    """an empty object of the class, where an object that is gone was, if the
    allocator gives that place"""
    kept = []
    for _ in range(3000):
        shell = cls.__new__(cls)
        if id(shell) == address:
            return shell
        kept.append(shell)
    return shell


def fresh(run, cfg, gs, ctx_of_job):
    """queries and graphs made for one execution each, on one engine, at the
    address of those that are gone"""
    ch = run.ch
    mode = ch.pick(('sync', 'async', 'threads'))
    sim = Sim(run, mode)
    world = sim.world
    run.probe('style: fresh objects')
    run.nontrivial = True
    remake = ch.chance(50)
    n = ch.between(2, 4)
    run.note = {'style': 'fresh objects', 'executor': mode,
                'graphs remade': remake, 'queries': []}
    jobs = []

    def stages():
        where = None, None
        for i in range(n):
            if i:
                check_job(jobs[-1])
            g = gs[i % len(gs)]
            items = gen_query(ch, cfg, g, 8)
            run.note['queries'].append(repr(items))
            query = merged_query(items)
            graph = world.graph(g)
            if i:
                job = jobs[-1]
                job.query = job.outcome = job.graph = None
                gc.collect()
                query = at_address(Query, where[0])
                query.__init__(merged_query(items).fields)
                if id(query) == where[0]:
                    run.probe('query at the address of an earlier one')
            if remake:
                items_, types = graph.items, graph.data_types
                world.forget(g)
                del graph
                if where[1] is not None:
                    graph = at_address(Graph, where[1])
                    graph.__init__(items_, types)
                    if id(graph) == where[1]:
                        run.probe('graph at the address of an earlier one')
                else:
                    graph = Graph(items_, types)
            where = id(query), id(graph)
            ctx = ctx_of_job(i)
            job = Job(Exec(i, ctx), graph, query, items, g, ctx)
            jobs.append(job)
            del query, graph
            yield [job]
            job = None

    run_stages(sim, stages())
    check_job(jobs[-1])
    world.check()


def check_job(job):
    kind, value = job.outcome
    if kind == 'error':
        raise Violation('isolation', '{} raised {}'.format(
            job, short_tb(value)))
    try:
        check_result(job.graph, value, job.g, job.items, job.ctx or {})
        check_loads(job.loads, job.exec.calls)
    except Violation as v:
        raise Violation('isolation', '{}: {}'.format(job, v))


def c08(run):
    ch = run.ch
    cfg = Config(ch, max_items=3, depth=2, ctx=ch.pick((60, 30, 0)),
                 large=ch.chance(1), most=130)
    low = gen_graph(ch, cfg)
    g = gen_higher(ch, cfg, low) if ch.chance(30) else low
    gs = [g]
    if ch.chance(40):
        gs.append(variant(ch, g))
        run.probe('two graphs of one shape')
    if ch.chance(15):
        return fresh(run, cfg, gs, lambda i: {'u': i} if cfg.ctx else None)
    style = NESTED if ch.chance(12) else ch.pick(STYLES)
    mode = MODE.get(style)
    if style in ('one after another', NESTED):
        mode = ch.pick(('sync', 'async', 'threads'))
    sim = Sim(run, mode)
    world = sim.world
    graphs = [world.graph(x) for x in gs]
    n = ch.between(2, 4)
    items = [gen_query(ch, cfg, g, 10) for _ in range(ch.pick((1, 2)))]
    if not cfg.large and style != NESTED and not ch.below(150):
        n = ch.pick((20, 40, 70, 140) if mode != 'threads' else (20, 40))
        run.probe('a lot of executions')
        if ch.chance(60):
            items += [gen_query(ch, cfg, g, 4) for _ in range(n)]
    specs = []
    for i in range(n):
        ctx = None
        if ch.chance(80):
            ctx = {'u': i, 'd': [i], 'n': None} if ch.chance(80) else {'u': 0}
            if ch.chance(15):
                run.probe('context made when asked for')
                ctx = LazyContext(ctx if ch.chance(60) else ())
                ctx.connection = 'connection {}'.format(i)
        specs.append((ch.pick(items), ctx))
    if len({id(x) for x, _ in specs}) < len(specs):
        run.probe('query object shared')
    ordered = ch.chance(15)
    jobs = make_jobs(sim, g, graphs[0], specs, ordered)
    if len(gs) > 1:
        for job in jobs:
            i = ch.below(2)
            job.g, job.graph = gs[i], graphs[i]
    if style != 'one after another':
        for job in jobs:
            job.delay = ch.below(3)
    victim = None
    faults = None
    fault = ch.weighted(((5, None), (3, 'fail'), (2, 'cancel')))
    if fault == 'cancel' and style != 'coroutines' or style == NESTED:
        fault = None
    sim.late = fault is None and ch.chance(15)
    if fault == 'fail':
        victim = ch.pick(jobs)
        n = max(1, len(victim.loads.real()))
        faults = Faults(run, sim, victim.exec,
                        {ch.below(n): ch.pick(('raise', 'shape'))})
        faults.graphs = [x for y in gs for x in layers(y)]
    if fault == 'cancel':
        victim = ch.pick(jobs)
        at = ch.pick((0.25, 0.5, 1.0, 2.0))
        state = {}

        def submitted(call):
            if call.exec is victim.exec and 'set' not in state:
                state['set'] = True
                run.fault('an execution is cancelled')
                sim.loop.call_later(at, lambda: victim.task.cancel())
        world.on_submit = submitted
    before = [describe_graph(x) for x in graphs]
    texts = [repr(j.query) for j in jobs]
    ctxs = [canon(j.ctx) for j in jobs]
    run.note = {'style': style, 'executor': mode,
                'queries': [repr(j.items) for j in jobs],
                'contexts': ctxs, 'fault': fault}
    run.probe('style: ' + style)
    run.nontrivial = style != 'one after another'
    try:
        if style == NESTED:
            jobs = nested(run, sim, jobs)
        else:
            schedule(run, sim, jobs, style)
    except Exception:
        world.check()
        raise
    world.check()
    if [describe_graph(x) for x in graphs] != before:
        raise Violation('graph-modified', 'executing changed the graph')
    for j in jobs:
        t, c = texts[j.exec.id], ctxs[j.exec.id]
        if repr(j.query) != t:
            raise Violation('query-modified', 'executing changed {} into {!r}'
                            .format(t, j.query))
        if canon(j.ctx) != c:
            raise Violation('context-modified', 'executing changed the '
                            'context {} into {}'.format(c, canon(j.ctx)))
    for j in jobs:
        kind, value = j.outcome
        if j is victim:
            if kind == 'error' and not (
                    isinstance(value, asyncio.CancelledError)
                    if fault == 'cancel' else explained(value, faults)):
                raise Violation('isolation', '{} raised {}'.format(
                    j, short_tb(value)))
            if kind == 'error':
                continue
            if faults is not None and faults.hits:
                raise Violation('isolation', 'the failure of {} was lost'
                                .format(j))
        if kind == 'error':
            raise Violation('isolation', '{} raised {}'.format(
                j, short_tb(value)))
        try:
            check_result(j.graph, value, j.g, j.items, j.ctx or {})
            if not ordered:
                check_loads(j.loads, j.exec.calls)
        except Violation as v:
            raise Violation('isolation', '{}: {}'.format(j, v))
    for c in world.calls:
        if c.exec is None:
            raise Violation('isolation', '{} belongs to no execution'.format(
                c))


# -- C15 --------------------------------------------------------------------

class Reader:
    """reads one result in a random order and way"""

    def __init__(self, run, job, result, graph):
        self.run = run
        self.ch = run.ch
        self.job = job
        self.result = result
        self.graph = graph
        self.root = Obj(job.g, job.g.root, None, job.ctx or {})
        self.want_plain = expected(self.root, job.items)
        self.n = 0

    def fail(self, msg):
        raise Violation('unstable-result', msg)

    def read(self, what=None):
        ch = self.ch
        self.n += 1
        what = what or ch.pick(('path', 'path', 'denormalize', 'walk',
                                'missing'))
        self.run.log('read', self.job.exec.id, what)
        if what == 'denormalize':
            try:
                got = denormalize(self.graph, self.result)
            except Exception as e:
                self.fail('converting failed: ' + short_tb(e))
            d = diff(got, self.want_plain)
            if d:
                self.fail('converted ' + d)
            self.spoil(got)
        elif what == 'walk':
            try:
                got = walk(self.result, self.root, self.job.items,
                           by_attr=ch.chance(50))
            except Exception as e:
                self.fail('reading failed: ' + short_tb(e))
            d = diff(got, expected_raw(self.root, self.job.items))
            if d:
                self.fail(d)
        elif what == 'path':
            self.path()
        else:
            self.missing()

    def spoil(self, plain):
        """plain data belongs to the caller: lists and maps of the structure
        may be changed by it"""
        ch = self.ch
        if not ch.chance(40):
            return
        self.run.probe('converted data modified by the caller')
        self.spoil_node(plain, self.job.items, self.root.node)

    def spoil_node(self, plain, items, node):
        for key, it in merged(items).items():
            spec = node.items[it.name]
            if not spec.link:
                continue
            v = plain[key]
            target = self.job.g.nodes[spec.target]
            if isinstance(v, list):
                for x in v:
                    self.spoil_node(x, it.sub, target)
                v.append('spoiled')
            elif v is not None:
                self.spoil_node(v, it.sub, target)
            plain[key] = 'spoiled'

    def step(self, proxy, key):
        how = self.ch.below(2)
        try:
            if how and key.isidentifier():
                return getattr(proxy, key)
            return proxy[key]
        except Exception as e:
            self.fail('reading {!r} failed: {}'.format(key, short_tb(e)))

    def place(self):
        """a random object of the result"""
        ch = self.ch
        proxy, obj, items = self.result, self.root, self.job.items
        path = []
        while True:
            links = [(k, it) for k, it in merged(items).items()
                     if obj.node.items[it.name].link]
            if not links or not ch.chance(60):
                return proxy, obj, items, path
            key, it = ch.pick(links)
            spec = obj.node.items[it.name]
            from .model import link_objects
            targets = link_objects(obj, spec, it.opts)
            value = self.step(proxy, key)
            path = path + [key]
            if spec.kind == 'many':
                if len(value) != len(targets):
                    self.fail('{} has {} objects instead of {}'.format(
                        path, len(value), len(targets)))
                if not targets:
                    return proxy, obj, items, path[:-1]
                i = ch.below(len(targets))
                proxy, obj = value[i], targets[i]
            elif targets is None:
                if value is not None:
                    self.fail('{} is {!r} instead of None'.format(path, value))
                return proxy, obj, items, path[:-1]
            else:
                proxy, obj = value, targets
            items = it.sub

    def path(self):
        proxy, obj, items, path = self.place()
        fields = [(k, it) for k, it in merged(items).items()
                  if not obj.node.items[it.name].link]
        if not fields:
            return
        key, it = self.ch.pick(fields)
        want = expected_raw(obj, [it])[it.key]
        got = self.step(proxy, key)
        if canon(got) != canon(want):
            self.fail('{} is {!r} instead of {!r}'.format(
                path + [key], got, want))

    def missing(self):
        proxy, obj, items, path = self.place()
        keys = merged(items)
        others = [n for n in obj.node.items if n not in keys] + ['nope']
        key = self.ch.pick(others)
        self.run.probe('unrequested data read')
        try:
            if self.ch.chance(50):
                value = proxy[key]
                want = None
            else:
                value = getattr(proxy, key)
        except (LookupError, AttributeError):
            return
        except Exception as e:
            self.fail('reading the unrequested {} raised {}'.format(
                path + [key], short_tb(e)))
        self.fail('the unrequested {} reads as {!r}'.format(
            path + [key], value))


def c15(run):
    ch = run.ch
    cfg = Config(ch, max_items=3, depth=ch.pick((2, 3)),
                 large=ch.chance(2), most=130)
    low = gen_graph(ch, cfg)
    g = gen_higher(ch, cfg, low) if ch.chance(15) else low
    style = ch.pick(STYLES)
    mode = MODE[style]
    sim = Sim(run, mode)
    sim.late = ch.chance(15)
    graph = sim.world.graph(g)
    items = gen_query(ch, cfg, g, 12)
    other = gen_query(ch, cfg, g, 8)
    specs = [(items, {'u': 0})]
    for i in range(ch.below(3)):
        specs.append((ch.pick((items, other)), {'u': i + 1}))
    jobs = make_jobs(sim, g, graph, specs)
    for job in jobs[1:]:
        job.delay = ch.below(4)
    readers = []
    run.note = {'style': style, 'queries': [repr(j.items) for j in jobs]}
    run.probe('style: ' + style)
    run.nontrivial = True
    reads = ch.between(1, 8)

    if ch.chance(30):
        run.probe('loading functions use their lists again')
        sim.world.returned = []

    def after(job):
        if sim.world.returned is not None:
            sim.world.clobber(job.exec)
        r = Reader(run, job, job.outcome[1], graph)
        readers.append(r)
        for _ in range(ch.below(reads)):
            ch.pick(readers).read()
        run.probe('results read: {}'.format(len(readers)))

    try:
        if style in ('threads', 'inline threads') and not cfg.large \
                and ch.chance(50):
            threaded_reads(run, sim, jobs, readers, after, style, reads)
        else:
            schedule(run, sim, jobs, style, after)
    except Exception:
        sim.world.check()
        raise
    sim.world.check()
    for job in jobs:
        if job.outcome[0] == 'error':
            raise job.outcome[1]
    for _ in range(reads):
        ch.pick(readers).read()
    for r in readers:
        r.read('walk')
        r.read('denormalize')
        r.read('missing')
        r.read('walk')


def threaded_reads(run, sim, jobs, readers, after, style, reads):
    """the first result is read by several threads at once, next to the other
    executions"""
    from hiku.engine import Engine
    from hiku.executors.sync import SyncExecutor
    from hiku.executors.threads import ThreadsExecutor
    from .multi import blocking_job
    from .threads import Sched, SimPool
    ch = run.ch
    run.probe('one result read by several threads')
    preempt = ch.pick(('line', 'opcode'))
    sim.sched = Sched(run, sim.env, preempt=preempt, gaps=ch.pick(GAPS))
    if style == 'threads':
        sim.pool = SimPool(sim.sched, 8)
        sim.engine = Engine(ThreadsExecutor(sim.pool))
    else:
        sim.engine = Engine(SyncExecutor())

    def main():
        first = jobs[0]
        first.delay = 0
        blocking_job(sim, first)
        if first.outcome[0] == 'error':
            raise first.outcome[1]
        if sim.world.returned is not None:
            sim.world.clobber(first.exec)
        reader = Reader(run, first, first.outcome[1], graph_of(first))
        readers.append(reader)
        threads = [sim.sched.spawn(lambda job=job: blocking_job(
            sim, job, after), 'job{}'.format(job.exec.id), job.exec)
            for job in jobs[1:]]

        def read():
            for _ in range(reads):
                reader.read()
        threads += [sim.sched.spawn(read, 'reader{}'.format(i))
                    for i in range(ch.between(1, 2))]
        read()
        sim.sched.join(threads)
        if sim.pool is not None:
            sim.pool.drain()
    sim.sched.execute(main)


def graph_of(job):
    return job.graph
