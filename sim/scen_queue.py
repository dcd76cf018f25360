"""C07: task groups, on the queue itself and under nested sub-graphs."""
import asyncio

from hiku.executors.queue import Queue, Workflow

from .core import Violation
from .env import Env
from .gen import Config, gen_graph, gen_query, gen_high
from .harness import Sim, MODES, check_result, run_query
from .model import Loads
from .seams import STATE
from .threads import SimKill
from .world import Exec, merged_query


class Task:
    def __init__(self, n, group, pauses, fails):
        self.n = n
        self.group = group
        self.pauses = pauses
        self.fails = fails
        self.done = False          # the function has ended
        self.ran = 0               # callbacks run
        self.callbacks = 0         # callbacks registered
        self.future = None

    def over(self):
        return self.done and self.ran == self.callbacks

    def __repr__(self):
        return 'task {} of {}'.format(self.n, self.group)


class Group:
    def __init__(self, n, parent):
        self.n = n
        self.parent = parent
        self.tasks = []
        self.forks = []
        self.callbacks = 0
        self.ran = 0
        self.real = None

    def ready(self):
        """all its work is done"""
        return all(t.over() for t in self.tasks) and \
            all(f.over() for f in self.forks)

    def over(self):
        return self.ready() and self.ran == self.callbacks

    def __repr__(self):
        return 'group {}'.format(self.n)


class TaskError(Exception):
    pass


class Script:

    def __init__(self, run, sim):
        self.run = run
        self.ch = run.ch
        self.sim = sim
        self.tasks = []
        self.groups = []
        self.budget = run.ch.between(1, 14)
        self.error = None
        self.kinds = 0
        self.running = False

    def bad(self, cls, msg):
        v = Violation(cls, msg)
        if self.error is None:
            self.error = v
        self.run.log('BAD', cls, msg)
        return v

    # -- actions ------------------------------------------------------------

    def fork(self, parent):
        g = Group(len(self.groups), parent)
        self.groups.append(g)
        g.real = self.queue.fork(parent.real if parent else None)
        if parent is not None:
            parent.forks.append(g)
        self.run.log('fork', g.n, parent and parent.n)
        return g

    def submit(self, group):
        ch = self.ch
        fails = self.sim.mode != 'sync' and ch.chance(10)
        t = Task(len(self.tasks), group, ch.below(3), fails)
        self.tasks.append(t)
        group.tasks.append(t)
        self.run.log('submit', t.n, group.n)
        t.future = group.real.submit(self.function, t)
        for _ in range(ch.pick((1, 0, 2, 3))):
            self.task_callback(t)
        return t

    def task_callback(self, t):
        n = t.callbacks
        t.callbacks += 1

        def callback():
            self.run.log('callback', t.n, n)
            if not t.done:
                self.bad('callback-early', 'callback of {} ran before it '
                         'ended'.format(t))
            if n != t.ran:
                self.bad('callback-order', 'callback {} of {} ran after {} '
                         'others'.format(n, t, t.ran))
            anc = t.group
            self.act(self.ancestors(anc), own=t.group)
            t.ran += 1
        self.queue.add_callback(t.future, callback)

    def group_callback(self, g):
        n = g.callbacks
        g.callbacks += 1

        def callback():
            self.run.log('group callback', g.n, n)
            if not g.ready():
                left = [t for t in g.tasks if not t.over()] + \
                    [f for f in g.forks if not f.over()]
                self.bad('group-early', '{} was reported complete before {}'
                         .format(g, left))
            if n != g.ran:
                self.bad('callback-order', 'callback {} of {} ran after {} '
                         'others'.format(n, g, g.ran))
            if g.parent is not None:
                self.act(self.ancestors(g.parent), own=None)
            g.ran += 1
        self.queue.add_callback(g.real, callback)

    @staticmethod
    def ancestors(g):
        out = []
        while g is not None:
            out.append(g)
            g = g.parent
        return out

    def act(self, groups, own):
        """adds work to groups that cannot be complete yet"""
        ch = self.ch
        while self.budget > 0 and ch.chance(55):
            self.budget -= 1
            group = ch.pick(groups)
            kind = ch.pick(('submit', 'fork', 'callback'))
            if kind == 'submit':
                self.submit(group)
            elif kind == 'fork':
                self.grow(group)
            elif own is not None:
                self.group_callback(own)
            self.kinds += 1

    def grow(self, parent):
        """a group, often with work, sometimes empty"""
        g = self.fork(parent)
        ch = self.ch
        early = ch.chance(50)
        if early:
            for _ in range(ch.pick((1, 0, 2))):
                self.group_callback(g)
        if not self.running:
            # outside of the processing, a group starts with some work
            self.submit(g)
        for _ in range(ch.pick((1, 0, 2, 3))):
            if self.budget > 0:
                self.budget -= 1
                self.submit(g)
        if self.budget > 0 and ch.chance(30):
            self.budget -= 1
            self.grow(g)
        if not early:
            for _ in range(ch.pick((1, 0, 2))):
                self.group_callback(g)
        if not g.tasks:
            self.run.probe('group without tasks')
        return g

    # -- functions ----------------------------------------------------------

    def function(self, t):
        if self.sim.mode == 'async':
            return self.coroutine(t)
        for i in range(t.pauses):
            s = STATE.sched
            if s is not None:
                s.pause('t{}.{}'.format(t.n, i))
        self.ended(t)
        if t.fails:
            raise TaskError(t.n)
        return t.n

    async def coroutine(self, t):
        for i in range(t.pauses):
            await self.sim.loop.pause('t{}.{}'.format(t.n, i))
        self.ended(t)
        if t.fails:
            raise TaskError(t.n)
        return t.n

    def ended(self, t):
        t.done = True
        self.run.log('end', t.n)

    # -- checks -------------------------------------------------------------

    def settled(self, where):
        """everything that is due has happened"""
        for t in self.tasks:
            if t.done and t.ran < t.callbacks:
                raise Violation('callback-late', '{}: {} ended, but {} of its '
                                '{} callbacks have run'.format(
                                    where, t, t.ran, t.callbacks))
        for g in self.groups:
            if g.ready() and g.ran < g.callbacks:
                raise Violation('group-late', '{}: {} has no work left, but '
                                '{} of its {} callbacks have run'.format(
                                    where, g, g.ran, g.callbacks))

    def check(self):
        if self.error is not None:
            raise self.error


class Flow(Workflow):
    def __init__(self, script):
        self.script = script
        self.results = 0

    def result(self):
        self.results += 1
        s = self.script
        for t in s.tasks:
            if not t.over():
                s.bad('end-early', 'the result was built before {} was over'
                      .format(t))
        return 'result'


def queue_run(run):
    ch = run.ch
    mode = ch.pick(MODES)
    sim = Sim(run, mode)
    script = Script(run, sim)
    flow = Flow(script)
    run.probe('queue, mode:' + mode)

    def setup(sim):
        script.queue = Queue(sim.engine.executor)
        root = script.fork(None)
        script.root = root
        sim.env.idle_hooks.append(lambda: script.settled('at a wait'))
        script.submit(root)
        for _ in range(ch.between(0, 3)):
            if script.budget > 0:
                script.budget -= 1
                if ch.chance(50):
                    script.grow(root)
                else:
                    script.submit(root)
        script.running = True

    if mode == 'async':
        async def main(sim):
            setup(sim)
            r = await sim.engine.executor.process(script.queue, flow)
            end(r)
    else:
        def main(sim):
            setup(sim)
            end(sim.engine.executor.process(script.queue, flow))

    def end(r):
        del sim.env.idle_hooks[:]
        script.check()
        script.settled('at the end')
        for t in script.tasks:
            if not t.over():
                raise Violation('end-early', 'the end came before the end of '
                                '{}'.format(t))
        for g in script.groups:
            if not g.over():
                raise Violation('end-early', 'the end came before the end of '
                                '{}'.format(g))
        if r != 'result' or flow.results != 1:
            raise Violation('end-result', 'result {!r}, built {} times'.format(
                r, flow.results))
    sim.start(main, locks=ch.pick((0, 20))) if mode == 'threads' \
        else sim.start(main)
    run.note = {'mode': mode, 'groups': [(g.n, g.parent and g.parent.n)
                                         for g in script.groups],
                'tasks': [(t.n, t.group.n) for t in script.tasks]}
    run.nontrivial = len(script.tasks) > 1 and len(script.groups) > 1
    run.sizes['tasks'] += len(script.tasks)
    run.sizes['groups'] += len(script.groups)


def engine_run(run):
    """executions over nested sub-graphs end with their last load"""
    ch = run.ch
    cfg = Config(ch, max_pauses=ch.pick((1, 3)), large=False)
    low = gen_graph(ch, Config(ch, max_nodes=2, most=130), key='l')
    g = gen_high(ch, cfg, low)
    for key in ('t', 'u')[:ch.below(3)]:
        g = gen_high(ch, cfg, g, key=key)
    items = gen_query(ch, cfg, g, 12)
    mode = ch.pick(MODES)
    sim = Sim(run, mode)
    graph = sim.world.graph(g)
    run.probe('nested graphs, mode:' + mode)
    run.note = {'mode': mode, 'query': repr(items)}
    exec_ = Exec(0, None)
    sim.world.default_exec = exec_
    loads = Loads(g, items, {})
    run.nontrivial = any(x.func is None for x in loads.all)

    def after(result):
        late = [c for c in exec_.calls if c.state != 'done']
        if late:
            raise Violation('end-early', 'the execution returned before {} '
                            'ended'.format(late[0]))
        if sim.env.pauses:
            raise Violation('end-early', 'something is still pending')
        return result
    real = [x for x in loads.real() if not x.optional]

    def idle():
        if len(exec_.calls) >= len(real) and \
                all(c.state == 'done' for c in exec_.calls) and \
                not sim.env.pauses:
            raise Violation('end-late', 'all {} loads are done, but the '
                            'execution waits'.format(len(real)))
    sim.env.idle_hooks.append(idle)
    result = run_query(sim, graph, merged_query(items), exec_, after)
    sim.world.check()
    check_result(graph, result, g, items, {})


def c07(run):
    if run.ch.chance(30):
        engine_run(run)
    else:
        queue_run(run)
