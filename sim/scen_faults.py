"""C05: failing loads; C06: cancelled executions."""
import asyncio
import concurrent.futures

from hiku.graph import Nothing

from .core import Violation, canon, short_tb
from .gen import Config, gen_graph, gen_query, gen_higher, layers
from .harness import Sim, MODES, check_result, check_loads
from .multi import make_jobs, run_stages
from .world import LoadError, LoadBaseError


ERRORS = (LoadError, KeyError, TypeError, RuntimeError, AttributeError,
          AssertionError, IndexError, ValueError, NotImplementedError,
          OSError, TimeoutError, LookupError, LoadBaseError, MemoryError)
# what a load is cancelled with by others than its execution, and what means
# something to generators (a coroutine can not raise it)
MORE = {'async': (asyncio.CancelledError,), 'sync': (StopIteration,),
        'threads': (StopIteration, concurrent.futures.CancelledError)}


# -- wrong shapes -----------------------------------------------------------

def bad_rows(ch, value, call):
    """a wrong answer to a field load"""
    _, names, ids = call.info
    n = len(names) if ids is None else len(ids)
    value = list(value)
    kinds = ['none', 'short', 'long', 'int', 'set', 'dict']
    if ids:
        kinds += ['row short', 'row long', 'row none', 'row dict']
    kind = ch.pick(kinds)
    if kind == 'short' and n == 0:
        kind = 'long'
    if kind == 'none':
        return None
    if kind == 'int':
        return n
    if kind == 'set':
        return set(range(n))
    if kind == 'dict':
        return {i: i for i in range(n)}
    if kind == 'short':
        return value[:-1]
    if kind == 'long':
        return value + [value[-1] if value else 0]
    i = ch.below(len(value))
    row = list(value[i])
    value[i] = {'row short': row[:-1], 'row long': row + [0],
                'row none': None, 'row dict': dict(enumerate(row))}[kind]
    return value


def bad_links(ch, value, call, spec, from_list):
    """a wrong answer to a link load, None if every answer is right"""
    if from_list:
        value = list(value)
        kinds = ['none', 'short', 'long', 'int']
        if spec.kind == 'one' and value:
            kinds.append('nothing')
        if spec.kind == 'many' and value:
            kinds += ['row none', 'row int', 'row set']
        kind = ch.pick(kinds)
        if kind == 'short' and not value:
            kind = 'long'
        if kind == 'none':
            return None
        if kind == 'int':
            return len(value)
        if kind == 'short':
            return value[:-1]
        if kind == 'long':
            return value + [value[-1] if value else []]
        i = ch.below(len(value))
        value[i] = {'nothing': Nothing, 'row none': None, 'row int': 3,
                    'row set': set()}[kind]
        return value
    if spec.kind == 'many':
        return ch.pick((None, 3, set(), {}))
    if spec.kind == 'one':
        return Nothing
    return Ellipsis


class Faults:
    """makes chosen loads of one execution fail, and remembers how"""

    def __init__(self, run, sim, target, plan):
        self.run = run
        self.sim = sim
        self.target = target       # Exec
        self.plan = plan           # index of the load -> kind
        self.handed = 0
        self.started = 0
        self.errors = []           # exception objects
        self.shapes = 0
        self.refused_plain = 0
        self.last_handed = None
        self.links = {}
        self.hits = 0
        sim.world.behave = self.behave
        sim.world.at_submit = self.at_submit

    def error(self):
        ch = self.run.ch
        cls = ch.pick(ERRORS + MORE[self.sim.mode])
        e = cls('fault {}'.format(len(self.errors)))
        self.errors.append(e)
        return e

    def hit(self, kind):
        self.run.fault(kind)
        self.hits += 1

    def at_submit(self, call):
        """async: failures at the hand-over itself"""
        if call.exec is not self.target:
            return None
        n = self.handed
        self.handed += 1
        kind = self.plan.get(n)
        if kind == 'refuse':
            self.hit('loading function raises when called')
            call.state = 'failed'
            raise self.error()
        if kind == 'plain':
            self.hit('loading function is not a coroutine')
            call.state = 'failed'
            self.refused_plain += 1
            return ['no coroutine']
        call.n_fault = n
        return None

    def pool_submit(self, fn):
        """threads: the pool refuses"""
        me = self.sim.sched.me()
        if me is None or me.exec is not self.target:
            return
        n = self.handed
        self.handed += 1
        self.last_handed = self.sim.world.tick()
        if self.plan.get(n) in ('refuse', 'plain'):
            self.hit('pool refuses the load')
            raise self.error()

    def behave(self, call):
        if call.exec is not self.target:
            return None
        n = self.started
        self.started += 1
        kind = self.plan.get(n)
        if kind is None:
            return None
        if kind in ('refuse', 'plain'):
            if self.sim.mode != 'sync':
                return None
            kind = 'raise'
        if kind == 'raise':
            self.hit('load raises')
            return ('raise', self.error())
        return ('shape', self.shape)

    def shape(self, value, call):
        ch = self.run.ch
        if call.info[0] == 'F':
            if hasattr(value, 'send'):
                value = list(value)
            out = bad_rows(ch, value, call)
        else:
            spec, from_list = self.link_of(call)
            if hasattr(value, 'send'):
                value = list(value)
            out = bad_links(ch, value, call, spec, from_list)
            if out is Ellipsis:
                raise self.raised_instead()
        self.hit('wrong shape')
        self.shapes += 1
        return out

    def raised_instead(self):
        self.hit('load raises')
        return self.error()

    def link_of(self, call):
        for g in self.graphs:
            for node in [g.root] + list(g.nodes.values()):
                for ln in node.links():
                    if ln.func is call.func and ln.name in call.info[1]:
                        return ln, (node.name is not None and
                                    ln.requires is not None)
        raise AssertionError(call)


def explained(e, faults):
    """is this one of the errors that happened?"""
    for x in faults.errors:
        if x is e:
            return True
        if isinstance(x, asyncio.CancelledError) and \
                isinstance(e, asyncio.CancelledError):
            return True         # tasks make new ones
    if isinstance(e, (TypeError, AssertionError)) and \
            (faults.shapes or faults.refused_plain):
        return True
    return False


def c05(run):
    ch = run.ch
    cfg = Config(ch)
    low = gen_graph(ch, cfg)
    g = gen_higher(ch, cfg, low) if ch.chance(20) else low
    items = gen_query(ch, cfg, g)
    mode = ch.pick(MODES)
    sim = Sim(run, mode)
    sim.late = ch.chance(10)
    world = sim.world
    graph = world.graph(g)
    ctx = {'u': 0} if ch.chance(30) else None

    # the others: same query object, or another query on the same graph
    other = items if ch.chance(50) else gen_query(ch, cfg, g, 8)
    where = []
    for stage in ('before', 'next to', 'after'):
        if ch.chance(40):
            where.append(stage)
    specs = [(items, ctx)] + [(other, ctx) for _ in where]
    ordered = ch.chance(15)
    jobs = make_jobs(sim, g, graph, specs, ordered)
    target = jobs[0]
    stages = [[], [target], []]
    for job, stage in zip(jobs[1:], where):
        stages[('before', 'next to', 'after').index(stage)].append(job)
        run.probe('execution {} the failing one'.format(stage))
    if len(stages[1]) > 1:
        for job in stages[1]:
            job.delay = ch.below(3)
    n_loads = max(1, len(target.loads.real()))
    plan = {}
    for _ in range(ch.pick((1, 1, 2, 3))):
        at = ch.below(n_loads)
        plan[at] = ch.pick(('raise', 'raise', 'shape', 'refuse', 'plain'))
    faults = Faults(run, sim, target.exec, plan)
    faults.graphs = layers(g)
    run.note = {'mode': mode, 'query': repr(items), 'other': repr(other),
                'others run': where, 'faults': plan}
    run.probe('mode:' + mode)

    kw = {}
    if mode == 'threads':
        kw = {'workers': ch.pick((64, 1, 2)), 'locks': ch.pick((0, 20))}
        start = sim.start

        def start_hooked(main, **k):
            def main2(s):
                s.pool.on_submit = faults.pool_submit
                return main(s)
            return start(main2, **k)
        sim.start = start_hooked
    run_stages(sim, stages, **kw)
    world.check()
    run.nontrivial = faults.hits > 0

    # the failing execution
    kind, value = target.outcome
    if kind == 'ok':
        bad = [c for c in target.exec.calls if c.state == 'failed']
        if bad or faults.hits:
            raise Violation('failure-lost', 'the execution returned a result '
                            'although a load failed: {} {}'.format(
                                bad, [repr(e) for e in faults.errors]))
        check_result(graph, value, g, items, ctx or {})
    else:
        if not explained(value, faults):
            raise Violation('wrong-error', 'the execution raised {} but the '
                            'errors were {}{}'.format(
                                short_tb(value),
                                [repr(e) for e in faults.errors],
                                ' and wrong shapes' if faults.shapes else ''))
        if mode == 'threads':
            late = faults.last_handed is not None and \
                faults.last_handed > target.ended
        else:
            late = any(c.seq_submit > target.ended
                       for c in target.exec.calls)
        if late:
            raise Violation('load-after-failure', 'a load was handed over '
                            'after the execution had raised')
    # the others
    for job in jobs[1:]:
        kind, value = job.outcome
        if kind == 'error':
            raise Violation('others-affected', 'another execution raised ' +
                            short_tb(value))
        try:
            check_result(graph, value, g, job.items, ctx or {})
            if not ordered:
                check_loads(job.loads, job.exec.calls)
        except Violation as v:
            raise Violation('others-affected', 'another execution: {}'.format(
                v))


# -- cancellation -----------------------------------------------------------

class CancelFaults:
    """what the loads do when cancelled"""

    KINDS = ('end', 'slow', 'raise', 'slow raise', 'finish', 'slow finish',
             'base')

    def __init__(self, run, sim, job):
        self.run = run
        self.sim = sim
        self.job = job
        self.requested = None      # event number of the request
        self.received = set()
        self.held = []
        self.kinds = {}
        sim.world.behave = self.behave

    def behave(self, call):
        if call.exec is not self.job.exec:
            return None
        kind = self.run.ch.pick(self.KINDS)
        extra = self.run.ch.pick((0, 0, 1, 4))
        self.kinds[call.n] = kind

        async def body(call, produce, finish):
            loop = self.sim.loop
            try:
                for i in range(call.func.pauses + extra):
                    await self.pause(loop, call, '{}.{}'.format(call.n, i))
                return finish(call, produce)
            except asyncio.CancelledError:
                self.received.add(call.n)
                self.run.fault('load cancelled: ' + kind)
                if kind.startswith('slow'):
                    for i in range(2):
                        await loop.pause('{}.cleanup{}'.format(call.n, i))
                if kind.endswith('raise'):
                    raise LoadError('cleanup of {}'.format(call.n))
                if kind == 'base':
                    raise LoadBaseError('cleanup of {}'.format(call.n))
                if kind.endswith('finish'):
                    return finish(call, produce)
                raise
        return ('custom', body)

    async def pause(self, loop, call, label):
        """once the execution is told to stop, loads that have not been told
        so wait forever"""
        fut = loop.create_future()
        me = self

        def wake():
            if fut.done():
                return
            if me.requested is not None and call.n not in me.received:
                me.held.append(call)
                return
            fut.set_result(None)
        p = self.sim.env.add(label, wake)
        try:
            await fut
        finally:
            self.sim.env.drop(p)


def c06(run):
    ch = run.ch
    cfg = Config(ch)
    low = gen_graph(ch, cfg)
    g = gen_higher(ch, cfg, low) if ch.chance(25) else low
    items = gen_query(ch, cfg, g)
    sim = Sim(run, 'async')
    world = sim.world
    graph = world.graph(g)
    ctx = {'u': 0} if ch.chance(20) else None
    ordered = ch.chance(20)
    jobs = make_jobs(sim, g, graph, [(items, ctx), (items, ctx)], ordered)
    job = jobs[0]
    beside = ch.chance(25)
    how = ch.pick(('cancel', 'timer', 'wait_for', 'timeout', 'gather',
                   'group', 'twice'))
    n_events = 3 * max(1, len(job.loads.real()))
    trigger = ch.below(n_events) if how in ('cancel', 'gather', 'group') or \
        ch.chance(50) else None
    delay = ch.pick((0.25, 0.0, 0.5, 1.0, 1.5, 2.0, 4.0, 8.0))
    faults = CancelFaults(run, sim, job)
    run.note = {'query': repr(items), 'how': how, 'trigger': trigger,
                'delay': delay}
    state = {'events': 0, 'requested': None, 'end': None, 'tasks': {}}

    async def execution():
        try:
            job.began = world.tick()
            r = await sim.execute(graph, job.query, job.exec)
            state['end'] = ('ok', r)
            return r
        except BaseException as e:
            state['end'] = ('error', e)
            raise
        finally:
            job.ended = world.tick()
            run.log('finish', 0)
            note_end()

    def note_end():
        # what is still alive when the execution ends
        mine = [t for t in asyncio.all_tasks(sim.loop)
                if t in state['tasks'] and not t.done()]
        state['alive'] = len(mine)
        state['open'] = [c for c in job.exec.calls
                         if c.state == 'started']

    def on_task(task):
        if world.calls and not task.done() and task.get_coro().__name__ == 'body' and \
                sim_exec() is job.exec:
            state['tasks'][task] = True

    def sim_exec():
        return world.current()

    def request():
        task = state['task']
        if task.done() or state['requested']:
            return
        if task.cancel():
            state['requested'] = True

    def on_cancel(task):
        if task is state.get('host') and faults.requested is None and state['end'] is None:
            faults.requested = world.tick()
            run.log('cancel requested')
            run.probe('in flight: {}'.format(min(3, sum(
                c.state in ('started', 'submitted')
                for c in job.exec.calls))))

    def event(call):
        if call.exec is not job.exec:
            return
        n = state['events']
        state['events'] += 1
        if trigger is not None and n == trigger:
            if ch.chance(50):
                sim.loop.call_soon(request)
            else:
                sim.loop.call_later(delay, request)

    world.on_submit = event
    world.on_end = event
    real_started = world.started

    def started(call):
        real_started(call)
        event(call)
    world.started = started

    async def failing():
        await state['go'].wait()
        raise LoadError('sibling')

    async def main(sim):
        loop = sim.loop
        loop.on_task = on_task
        loop.on_cancel = on_cancel
        other = None
        if beside:
            from .multi import async_job
            jobs[1].delay = ch.below(3)
            other = loop.create_task(async_job(sim, jobs[1]))
        if how in ('cancel', 'timer', 'twice'):
            task = state['task'] = state['host'] = \
                loop.create_task(execution())
            if trigger is None:
                loop.call_later(delay, request)
            if how == 'twice':
                def again():
                    if state['requested'] and not task.done():
                        run.fault('cancelled again')
                        task.cancel()
                    elif not task.done():
                        loop.call_later(0.25, again)
                loop.call_later(delay + ch.pick((0.25, 0.0, 1.0)), again)
            await asyncio.wait([task])
            final(task)
        elif how in ('wait_for', 'timeout'):
            async def limited():
                if how == 'wait_for':
                    return await asyncio.wait_for(execution(), delay or 0.25)
                async with asyncio.timeout(delay):
                    return await execution()
            task = state['task'] = state['host'] = \
                loop.create_task(limited())
            await asyncio.wait([task])
            final(task, TimeoutError)
        elif how == 'gather':
            inner = state['host'] = loop.create_task(execution())
            state['task'] = asyncio.gather(inner, return_exceptions=False)
            await asyncio.wait([state['task']])
            final(inner)
        else:
            state['go'] = asyncio.Event()

            class Trigger:
                def done(self):
                    return False

                def cancel(self):
                    state['go'].set()
                    return False
            state['task'] = Trigger()

            async def group():
                async with asyncio.TaskGroup() as tg:
                    state['inner'] = state['host'] = \
                        tg.create_task(execution())
                    sib = tg.create_task(failing())
                    await asyncio.wait([state['inner']])
                    sib.cancel()
            gt = loop.create_task(group())
            await asyncio.wait([gt])
            if not gt.cancelled():
                gt.exception()
            final(state['inner'])
        state['finished'] = True
        if other is not None:
            await asyncio.wait([other])
            if not other.cancelled() and other.exception():
                raise other.exception()
        from .multi import drain
        await drain(loop)

    def final(task, timeout=None):
        end = state['end']
        if faults.requested is None:
            state['kind'] = 'not cancelled'
            if task.cancelled() or task.exception() is not None:
                raise task.exception() or Violation(
                    'ended-cancelled', 'nobody cancelled the execution')
            return
        state['kind'] = 'cancelled'
        run.nontrivial = True
        run.fault('cancelled by ' + how)
        if end is None or end[0] == 'ok':
            if not (timeout and not task.cancelled()
                    and task.exception() is None):
                raise Violation('cancel-ignored', 'the execution was '
                                'cancelled but returned a result')
            return
        if not isinstance(end[1], asyncio.CancelledError):
            raise Violation('cancel-error', 'the cancelled execution ended '
                            'with ' + short_tb(end[1]))

    try:
        sim.start(main)
    except Violation as v:
        if v.cls == 'deadlock' and faults.held:
            raise Violation('load-not-cancelled', 'the execution was '
                            'cancelled, but {} was not'.format(
                                faults.held[0]))
        raise
    world.check()
    run.probe(state['kind'])
    if state['kind'] == 'cancelled':
        if state['open']:
            raise Violation('load-outlives', '{} had not ended when the '
                            'cancelled execution ended'.format(
                                state['open'][0]))
        if state['alive']:
            raise Violation('load-outlives', 'a load in flight had not ended '
                            'when the cancelled execution ended')
        late = [c for c in job.exec.calls
                if c.seq_submit > faults.requested]
        if late:
            raise Violation('load-after-cancel', '{} was handed over after '
                            'the cancellation'.format(late[0]))
    elif state['kind'] == 'not cancelled':
        check_result(graph, state['end'][1], g, items, ctx or {})
    if beside and jobs[1].outcome:
        kind, value = jobs[1].outcome
        if kind == 'error':
            raise Violation('others-affected', 'another execution raised ' +
                            short_tb(value))
        check_result(graph, value, g, items, ctx or {})
