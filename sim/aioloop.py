"""A virtual-time asyncio event loop without any I/O."""
import asyncio
import contextvars
from asyncio import base_events

from .core import Violation
from .seams import CLOCK, HashSeed

EXEC = contextvars.ContextVar('sim_exec', default=None)


class SimTask(asyncio.Task):

    def __new__(cls, *args, **kwargs):
        self = super().__new__(cls)
        self._sim_hash = HashSeed.next()
        return self

    def __hash__(self):
        return self._sim_hash

    def cancel(self, msg=None):
        done = super().cancel(msg)
        hook = self.get_loop().on_cancel
        if done and hook is not None:
            hook(self)
        return done


class SimFuture(asyncio.Future):

    def __new__(cls, *args, **kwargs):
        self = super().__new__(cls)
        self._sim_hash = HashSeed.next()
        return self

    def __hash__(self):
        return self._sim_hash


class _Selector:

    def __init__(self, loop):
        self._loop = loop

    def select(self, timeout):
        self._loop._sim_select(timeout)
        return []


def _no_signal(*args):
    pass


class SimLoop(base_events.BaseEventLoop):

    def __init__(self, env):
        super().__init__()
        self.env = env
        self._selector = _Selector(self)
        self.set_task_factory(self._factory)
        self.set_exception_handler(lambda loop, ctx: None)
        self.iterations = 0
        self.on_task = None
        self.on_cancel = None
        # as with asyncio.eager_task_factory: tasks start when they are made
        self.eager = env.ch.chance(12)

    @staticmethod
    def _factory(loop, coro, **kwargs):
        if loop.eager and EXEC.get() is not None:
            kwargs['eager_start'] = True
        task = SimTask(coro, loop=loop, **kwargs)
        if loop.on_task is not None:
            loop.on_task(task)
        return task

    def create_future(self):
        return SimFuture(loop=self)

    def time(self):
        return CLOCK.now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def _sim_select(self, timeout):
        self.iterations += 1
        if self.iterations > 50000:
            raise Violation('livelock', 'event loop spins without progress')
        env = self.env
        if timeout == 0:
            if env.busy and env.pauses and env.ch.chance(env.busy):
                env.step()
            return
        if self._stopping:
            return
        env.idle()
        if self._ready:
            return
        if timeout is None:
            if not env.step():
                raise Violation('deadlock', 'the event loop waits for nothing: '
                                'no load is pending and no timer is set')
        elif env.pauses and not env.ch.chance(40):
            env.step(max_dt=timeout)
        else:
            env.advance(timeout)
            env.run.decide('timer', timeout)

    async def pause(self, label):
        fut = self.create_future()

        def wake():
            if not fut.done():
                fut.set_result(None)
        p = self.env.add(label, wake)
        try:
            await fut
        finally:
            self.env.drop(p)


def run_loop(env, main):
    """runs main(loop) -> coroutine to its end; drains leftover tasks"""
    loop = SimLoop(env)
    if loop.eager:
        env.run.probe('tasks start eagerly')
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(main(loop))
    finally:
        try:
            hooks, env.idle_hooks = env.idle_hooks, []
            leftover = sorted((t for t in asyncio.all_tasks(loop)
                               if not t.done()), key=lambda t: t._sim_hash)
            for _ in range(20):
                if not leftover:
                    break
                for t in leftover:
                    t.cancel()
                try:
                    loop.iterations = 0
                    loop.run_until_complete(
                        asyncio.wait(leftover, timeout=1000))
                except Violation:
                    pass
                leftover = [t for t in leftover if not t.done()]
            env.idle_hooks = hooks
        finally:
            asyncio.set_event_loop(None)
            loop.close()
