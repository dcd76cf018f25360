"""Runs workloads on hiku's executors under the simulator."""
import asyncio

from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.executors.asyncio import AsyncIOExecutor
from hiku.executors.threads import ThreadsExecutor
from hiku.result import denormalize, Proxy

from .core import Violation, canon, unexpected, HarnessError
from .env import Env
from .world import World, Exec, merged_query
from .aioloop import SimLoop, run_loop, EXEC
from .threads import Sched, SimPool, SimKill
from .model import Obj, expected, merged, Loads

MODES = ('sync', 'async', 'threads')


class Sim:

    def __init__(self, run, mode, env=None):
        self.run = run
        self.ch = run.ch
        self.mode = mode
        self.env = env or Env(run)
        self.world = World(run, self.env, mode)
        self.late = False
        self.world.spoil = self.ch.chance(20)
        self.sched = None
        self.pool = None
        self.engine = None
        self.loop = None

    def start(self, main, preempt=None, gaps=None, workers=None, locks=0):
        """main(sim): a plain function, or a coroutine function for async.
        Runs it inside of the simulation and returns its result."""
        if self.mode == 'sync':
            self.engine = Engine(SyncExecutor())
            token = EXEC.set(None)
            try:
                return main(self)
            finally:
                EXEC.reset(token)
        if self.mode == 'async':
            how = self.ch.below(3)

            async def inside(loop):
                self.engine = Engine(AsyncIOExecutor())
                return await main(self)

            def body(loop):
                self.loop = loop
                if how == 0:
                    # given the loop, made where no loop is the current one
                    asyncio.set_event_loop(None)
                    try:
                        self.engine = Engine(AsyncIOExecutor(loop))
                    finally:
                        asyncio.set_event_loop(loop)
                    return main(self)
                if how == 1:
                    self.engine = Engine(AsyncIOExecutor())
                    return main(self)
                return inside(loop)
            return run_loop(self.env, body)
        kw = {} if gaps is None else {'gaps': gaps}
        self.sched = Sched(self.run, self.env, preempt=preempt, locks=locks,
                           **kw)
        if workers is None:
            workers = self.ch.pick((64, 64, 1, 2, 3))
        self.pool = SimPool(self.sched, workers)
        self.engine = Engine(ThreadsExecutor(self.pool))
        return self.sched.execute(lambda: main(self))

    def plain(self, fn):
        """fn(sim, result of engine.execute) for the three modes alike"""

    def execute(self, graph, query, exec_):
        """one execution: a result proxy (awaitable one in async mode)"""
        if self.mode == 'async':
            return self._aexecute(graph, query, exec_)
        if self.mode == 'threads':
            self.sched.me().exec = exec_
        else:
            EXEC.set(exec_)
        return self.engine.execute(graph, query, exec_.ctx)

    async def _aexecute(self, graph, query, exec_):
        EXEC.set(exec_)
        coro = self.engine.execute(graph, query, exec_.ctx)
        if self.late and self.ch.chance(50):
            # it has begun, but the caller has something else to do first
            self.run.probe('awaited later')
            try:
                for i in range(self.ch.between(1, 4)):
                    await self.loop.pause('late{}.{}'.format(exec_.id, i))
            except BaseException:
                coro.close()
                raise
        return await coro


def run_query(sim, graph, query, exec_, after=None):
    """executes one query in a fresh simulation of sim.mode;
    after(result) runs right after it inside of the simulation"""
    if sim.mode == 'async':
        async def main(sim):
            r = await sim.execute(graph, query, exec_)
            return after(r) if after else r
    else:
        def main(sim):
            r = sim.execute(graph, query, exec_)
            return after(r) if after else r
    return sim.start(main)


# -- reading results --------------------------------------------------------

def same(a, b):
    return canon(a) == canon(b)


def diff(got, want, path='result'):
    """first difference, as text"""
    if isinstance(want, dict) and isinstance(got, dict):
        for k in want:
            if k not in got:
                return '{}[{!r}] is missing'.format(path, k)
        for k in got:
            if k not in want:
                return '{}[{!r}] is unexpected'.format(path, k)
        for k in want:
            if not same(got[k], want[k]):
                return diff(got[k], want[k], '{}[{!r}]'.format(path, k))
        return None
    if isinstance(want, list) and isinstance(got, list) \
            and len(got) == len(want):
        for i, (x, y) in enumerate(zip(got, want)):
            if not same(x, y):
                return diff(x, y, '{}[{}]'.format(path, i))
        return None
    if same(got, want):
        return None
    return '{} is {!r} instead of {!r}'.format(path, got, want)


def walk(proxy, obj, items, by_attr=False):
    """reads a result by item access, in the shape of the query"""
    out = {}
    for key, it in merged(items).items():
        v = getattr(proxy, key) if by_attr and key.isidentifier() \
            else proxy[key]
        spec = obj.node.items[it.name]
        if spec.link:
            target = Obj(obj.g, obj.g.nodes[spec.target], None, obj.ctx)
            if spec.kind == 'many':
                out[key] = [walk(p, target, it.sub, by_attr) for p in v]
            elif v is None:
                out[key] = None
            else:
                out[key] = walk(v, target, it.sub, by_attr)
        else:
            out[key] = v
    return out


def expected_raw(obj, items):
    """what `walk` should see: values of complex fields are not projected"""
    from .model import link_objects, value_of
    out = {}
    for key, it in merged(items).items():
        spec = obj.node.items[it.name]
        if spec.link:
            v = link_objects(obj, spec, it.opts)
            if spec.kind == 'many':
                out[key] = [expected_raw(o, it.sub) for o in v]
            else:
                out[key] = None if v is None else expected_raw(v, it.sub)
        else:
            out[key] = value_of(obj, spec, it.opts)
    return out


def check_result(graph, result, g, items, ctx=None, raw=True):
    """the result equals the reference, read in three ways"""
    root = Obj(g, g.root, None, ctx)
    want = expected(root, items)
    try:
        got = denormalize(graph, result)
    except Exception as e:
        raise Violation('result-unreadable', unexpected_text(e))
    d = diff(got, want)
    if d:
        raise Violation('wrong-result', 'denormalized ' + d)
    if raw:
        try:
            got = walk(result, root, items)
            attr = walk(result, root, items, by_attr=True)
        except Exception as e:
            raise Violation('result-unreadable', unexpected_text(e))
        raw_want = expected_raw(root, items)
        d = diff(got, raw_want)
        if d:
            raise Violation('wrong-result', d)
        d = diff(attr, raw_want)
        if d:
            raise Violation('wrong-result', 'by attribute ' + d)
    return want


def unexpected_text(e):
    from .core import short_tb
    return short_tb(e)


# -- checking loads ---------------------------------------------------------

def describe_key(key):
    if key[0] == 'F':
        return '{}(fields={}, ids={})'.format(
            key[1], sorted(key[2]),
            None if key[3] is None else sorted(key[3]))
    return '{}(required={}, options={})'.format(
        key[1], sorted(key[2]) if isinstance(key[2], frozenset) else key[2],
        key[3])


def check_loads(loads, calls, what='C02'):
    """calls made are exactly those expected, as multisets"""
    want = {}
    for x in loads.real():
        if not x.optional:
            want[x.key] = want.get(x.key, 0) + 1
    spare = {}
    for x in loads.real():
        if x.optional:
            spare[x.key] = spare.get(x.key, 0) + 1
    got = {}
    for c in calls:
        got[c.key] = got.get(c.key, 0) + 1
    for key, n in got.items():
        w = want.get(key, 0)
        if n > w + spare.get(key, 0):
            if w:
                raise Violation('load-repeated', '{} called {} times instead '
                                'of {}'.format(describe_key(key), n, w))
            raise Violation('load-unexpected', '{}; expected: {}'.format(
                describe_key(key), '; '.join(
                    describe_key(k) for k in want if k[1] == key[1]) or
                'no call of this function'))
    for key, n in want.items():
        if got.get(key, 0) < n:
            raise Violation('load-missing', '{} called {} times instead of {}'
                            .format(describe_key(key), got.get(key, 0), n))


class Readiness:
    """which loads must have been handed over, and which must not yet"""

    def __init__(self, loads):
        self.loads = loads
        self.by_key = {}
        for x in loads.real():
            self.by_key.setdefault(x.key, []).append(x)

    def done(self, load, finished, memo):
        """surely complete"""
        r = memo.get(id(load))
        if r is None:
            if load.func is None:
                r = all(self.done(d, finished, memo) for d in load.deps)
            else:
                # equal loads of several places are told apart only when all
                # of them are complete
                r = finished.get(load.key, 0) >= len(self.by_key[load.key])
            memo[id(load)] = r
        return r

    def maybe_done(self, load, finished, memo):
        """possibly complete"""
        r = memo.get(id(load))
        if r is None:
            if load.func is None:
                r = all(self.maybe_done(d, finished, memo) for d in load.deps)
            else:
                r = finished.get(load.key, 0) >= 1
            memo[id(load)] = r
        return r

    def check_parallel(self, calls):
        """called when the execution waits: everything ready was handed over"""
        finished = {}
        handed = {}
        for c in calls:
            handed[c.key] = handed.get(c.key, 0) + 1
            if c.state == 'done':
                finished[c.key] = finished.get(c.key, 0) + 1
        memo = {}
        n = 0
        for key, places in self.by_key.items():
            ready = [x for x in places
                     if all(self.done(d, finished, memo) for d in x.deps)]
            n += len(ready)
            if handed.get(key, 0) < len(ready):
                raise Violation(
                    'load-held-back', '{} is not handed over although all it '
                    'depends on is loaded ({})'.format(
                        describe_key(key), ready[0].label))
        return n

    def check_early(self, call, calls):
        """called when a load is handed over: its prerequisites are done"""
        finished = {}
        for c in calls:
            if c is not call and c.state == 'done':
                finished[c.key] = finished.get(c.key, 0) + 1
        memo = {}
        places = self.by_key.get(call.key, ())
        for x in places:
            if all(self.maybe_done(d, finished, memo) for d in x.deps):
                return
        if places:
            raise Violation('load-too-early', '{} is handed over before {} '
                            'completed'.format(describe_key(call.key),
                                               places[0].deps))
