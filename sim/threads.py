"""Real threads, scheduled one at a time by a baton the simulator hands out."""
import gc
import sys
import types
import _thread
from collections import deque
from concurrent.futures import Future, Executor

from .core import Violation, HarnessError, unexpected, in_repo
from .seams import CLOCK, STATE, HashSeed, real_allocate_lock


class SimKill(BaseException):
    """unwinds the threads of a finished or failed run"""


class Preempt:
    """events at the lines or instructions of hiku's code (sys.monitoring);
    switched only while no simulated thread runs"""
    TOOL = 4

    def __init__(self):
        self.codes = []
        self.seen = set()
        self.mode = None

    def install(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'verif-sim')
        mon.register_callback(self.TOOL, mon.events.LINE, self._event)
        mon.register_callback(self.TOOL, mon.events.INSTRUCTION, self._event)
        gc.collect()
        for obj in gc.get_objects():
            if isinstance(obj, types.FunctionType):
                self.add(obj.__code__)

    def add(self, code):
        # equal code objects of two copies of a module are not the same
        if id(code) in self.seen or not in_repo(code.co_filename):
            return
        self.seen.add(id(code))
        self.codes.append(code)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                self.add(c)

    @staticmethod
    def _event(code, where):
        s = STATE.sched
        if s is not None and s.preempt is not None:
            s.tick()

    def set(self, mode):
        if mode == self.mode:
            return
        mon = sys.monitoring
        events = {None: 0, 'line': mon.events.LINE,
                  'opcode': mon.events.INSTRUCTION}[mode]
        for code in self.codes:
            mon.set_local_events(self.TOOL, code, events)
        self.mode = mode


PREEMPT = Preempt()


class SimThread:
    __slots__ = ('id', 'name', 'state', 'reason', 'deadline', 'timed_out',
                 'baton', 'exec', 'ident', 'gap')

    def __init__(self, id_, name):
        self.id = id_
        self.name = name
        self.state = 'run'
        self.reason = None
        self.deadline = None
        self.timed_out = False
        self.baton = real_allocate_lock()
        self.baton.acquire()
        self.exec = None
        self.ident = None
        self.gap = 0

    def __repr__(self):
        return 'T{}:{}'.format(self.id, self.name)


class Sched:
    """preempt: None, 'line' or 'opcode' - where hiku code may be interrupted
    gaps: distances between preemption points, picked at random
    locks: percent of switches at lock operations"""

    def __init__(self, run, env, preempt=None, gaps=(1, 2, 3, 5, 8, 13, 40),
                 locks=0):
        self.run = run
        self.env = env
        self.ch = run.ch
        self.preempt = preempt
        self.gaps = gaps
        self.locks = locks
        self.threads = []
        self.by_ident = {}
        self.dead = False
        self.failure = None
        self.main = None
        self.switches = 0

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    # -- life cycle ---------------------------------------------------------

    def execute(self, main_fn):
        assert STATE.sched is None
        main = self.main = SimThread(0, 'main')
        main.ident = _thread.get_ident()
        self.by_ident[main.ident] = main
        self.threads.append(main)
        STATE.sched = self
        PREEMPT.set(self.preempt)
        try:
            if self.preempt:
                main.gap = self._gap()
            try:
                return main_fn()
            except SimKill:
                raise self.failure
        finally:
            self.dead = True
            for t in self.threads:
                if t is not main and t.state != 'done':
                    t.baton.release()
                    main.baton.acquire()
            STATE.sched = None

    def spawn(self, fn, name, exec_=None):
        t = SimThread(len(self.threads), name)
        t.exec = exec_
        self.threads.append(t)

        def body():
            t.ident = _thread.get_ident()
            t.baton.acquire()
            self.by_ident[t.ident] = t
            try:
                if not self.dead:
                    if self.preempt:
                        t.gap = self._gap()
                    fn()
            except SimKill:
                pass
            except BaseException as e:
                if not self.dead:
                    self.fail(unexpected(e, 'thread ' + name)
                              if isinstance(e, Exception) else e)
            finally:
                t.state = 'done'
                self.wake(t)
                if self.dead:
                    nxt = self.main
                else:
                    nxt = self._choose()
                self.by_ident.pop(t.ident, None)
                nxt.baton.release()

        _thread.start_new_thread(body, ())
        return t

    def fail(self, exc):
        if self.failure is None:
            self.failure = exc
        self.dead = True

    # -- switching ----------------------------------------------------------

    def _choose(self):
        try:
            while True:
                runnable = [t for t in self.threads if t.state == 'run']
                if runnable:
                    env = self.env
                    if env.busy and env.pauses and self.ch.chance(env.busy):
                        env.step()
                        continue
                    if len(runnable) == 1:
                        return runnable[0]
                    t = self.ch.pick(runnable)
                    self.run.decide('run', t.id)
                    return t
                self._idle()
                if self.dead:
                    return self.main
        except (Violation, HarnessError) as e:
            self.fail(e)
        except BaseException as e:
            self.fail(unexpected(e, 'scheduler')
                      if isinstance(e, Exception) else e)
        return self.main

    def _idle(self):
        env = self.env
        env.idle()
        timers = [t for t in self.threads
                  if t.state == 'blocked' and t.deadline is not None]
        if timers:
            first = min(timers, key=lambda t: (t.deadline, t.id))
            if not env.pauses or self.ch.chance(40):
                env.advance(max(0.0, first.deadline - CLOCK.now))
                self.run.decide('timer', first.id)
                self._ready(first)
                first.timed_out = True
                return
            env.step(max_dt=max(0.0, first.deadline - CLOCK.now))
            return
        if not env.step():
            raise Violation('deadlock', 'all threads are blocked: {}'.format(
                [(repr(t), type(t.reason).__name__) for t in self.threads
                 if t.state == 'blocked']))

    def _ready(self, t):
        t.state = 'run'
        t.reason = None
        t.deadline = None

    def _transfer(self, me, nxt):
        if nxt is me:
            return
        self.switches += 1
        nxt.baton.release()
        me.baton.acquire()

    def block(self, reason, deadline=None):
        """blocks the current thread until wake(reason); False on timeout"""
        me = self.me()
        if self.dead:
            raise SimKill
        me.state = 'blocked'
        me.reason = reason
        me.deadline = deadline
        me.timed_out = False
        self._transfer(me, self._choose())
        if self.dead:
            me.state = 'run'
            raise SimKill
        return not me.timed_out

    def wake(self, reason):
        for t in self.threads:
            if t.state == 'blocked' and t.reason is reason:
                self._ready(t)

    def switch(self):
        me = self.me()
        if me is None:
            return
        if self.dead:
            raise SimKill
        nxt = self._choose()
        self._transfer(me, nxt)
        if self.dead:
            raise SimKill

    def point(self, kind):
        if self.locks and self.ch.chance(self.locks):
            self.switch()

    # -- preemption inside of the code under test ---------------------------

    def _gap(self):
        return self.ch.pick(self.gaps)

    def tick(self):
        """at a line or an instruction of hiku"""
        if self.dead:
            return
        me = self.me()
        if me is None:
            return
        me.gap -= 1
        if me.gap > 0:
            return
        me.gap = 1
        for t in self.threads:
            if t is not me and t.state == 'run':
                break
        else:
            if not self.env.pauses:
                return
        me.gap = self._gap()
        self.switch()

    def join(self, threads):
        for t in threads:
            while t.state != 'done':
                self.block(t)

    def pause(self, label):
        key = object()
        self.env.add(label, lambda: self.wake(key))
        self.block(key)


class SimCfFuture(Future):

    def __init__(self):
        self._sim_hash = HashSeed.next()
        super().__init__()

    def __hash__(self):
        return self._sim_hash


class SimPool(Executor):
    """Thread pool: FIFO queue, a bounded number of workers (stub of
    concurrent.futures.ThreadPoolExecutor with its documented behaviour)"""

    def __init__(self, sched, workers, on_submit=None):
        self.sched = sched
        self.workers = workers
        self.queue = deque()
        self.idle = []
        self.count = 0
        self.on_submit = on_submit
        self.running = 0
        self.submitted = 0

    def submit(self, fn, /, *args, **kwargs):
        me = self.sched.me()
        if self.on_submit is not None:
            self.on_submit(fn)
        self.submitted += 1
        fut = SimCfFuture()
        self.queue.append((fut, fn, args, kwargs, me.exec if me else None))
        if self.idle:
            key = self.idle.pop()
            self.sched.wake(key)
        elif self.count < self.workers:
            self.count += 1
            self.sched.spawn(self._worker, 'pool{}'.format(self.count))
        return fut

    def _worker(self):
        while True:
            while not self.queue:
                key = object()
                self.idle.append(key)
                self.sched.block(key)
            fut, fn, args, kwargs, exec_ = self.queue.popleft()
            self.sched.me().exec = exec_
            if not fut.set_running_or_notify_cancel():
                continue
            self.running += 1
            try:
                result = fn(*args, **kwargs)
            except SimKill:
                raise
            except BaseException as e:
                self.running -= 1
                fut.set_exception(e)
            else:
                self.running -= 1
                fut.set_result(result)
            fut = fn = args = kwargs = result = None
            if not self.queue and not self.running:
                self.sched.wake(self)

    def drain(self):
        """waits (in simulated time) until all submitted work has ended"""
        while self.queue or self.running:
            self.sched.block(self)

    def shutdown(self, wait=True, **kwargs):
        pass
