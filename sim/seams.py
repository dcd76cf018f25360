"""Process-wide seams. Must be imported before hiku and prometheus_client.

 * locks: threading.Lock / RLock become simulated locks, so that the standard
   library's Condition, Event, concurrent.futures.Future and wait() run their
   real code on top of them, under the baton scheduler;
 * clock: time.perf_counter / monotonic / time / sleep read the virtual clock;
 * identity hashes: objects that hiku keeps in sets get seeded hashes, so that
   the iteration order of these sets is a choice of the simulator.
"""
import sys
import time
import zlib
import _thread
import threading

real_perf_counter = time.perf_counter
real_time = time.time
real_sleep = time.sleep
real_allocate_lock = _thread.allocate_lock


class Clock:
    now = 0.0
    skew = 0.0      # of the wall clock


CLOCK = Clock()
EPOCH = 1600000000.0


class HashSeed:
    seed = 0
    count = 0

    @classmethod
    def reset(cls, seed):
        cls.seed = seed
        cls.count = 0

    @classmethod
    def next(cls):
        cls.count += 1
        return zlib.crc32(b'%d:%d' % (cls.seed, cls.count))


class _State:
    sched = None    # the active baton scheduler, see threads.py


STATE = _State()


def _me():
    s = STATE.sched
    if s is None:
        return None, None
    return s, s.me()


class SimLock:
    """Non-reentrant lock, blocking only in the simulated sense"""

    def __init__(self):
        self._is_locked = False

    def acquire(self, blocking=True, timeout=-1):
        s, me = _me()
        if me is None:
            if self._is_locked:
                if not blocking or timeout >= 0:
                    return False
                if s is not None and s.dead:
                    return True
                raise RuntimeError('lock is held outside of the simulation')
            self._is_locked = True
            return True
        if s.dead:
            self._is_locked = True
            return True
        s.point('acquire')
        deadline = None
        if blocking and timeout is not None and timeout >= 0:
            deadline = CLOCK.now + timeout
        while self._is_locked:
            if not blocking:
                return False
            if not s.block(self, deadline):
                if self._is_locked:
                    return False
                break
        self._is_locked = True
        return True

    def release(self):
        s, me = _me()
        if not self._is_locked:
            if s is not None and s.dead:
                return
            raise RuntimeError('release unlocked lock')
        self._is_locked = False
        if s is not None:
            s.wake(self)
            if me is not None and not s.dead:
                s.point('release')

    def locked(self):
        return self._is_locked

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._is_locked = False


class SimRLock:

    def __init__(self):
        self._lock = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._lock.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    def release(self):
        if self._owner != _thread.get_ident():
            s = STATE.sched
            if s is not None and s.dead:
                return
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *exc):
        self.release()

    def _release_save(self):
        count, owner = self._count, self._owner
        self._count = 0
        self._owner = None
        self._lock.release()
        return count, owner

    def _acquire_restore(self, state):
        self._lock.acquire()
        self._count, self._owner = state

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._lock._at_fork_reinit()
        self._owner = None
        self._count = 0


def _sim_sleep(seconds):
    s, me = _me()
    if me is None or s.dead:
        CLOCK.now += seconds
        return
    s.block(object(), CLOCK.now + seconds)


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    assert 'hiku' not in sys.modules
    assert 'prometheus_client' not in sys.modules
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = None
    threading._PyRLock = SimRLock
    time.perf_counter = lambda: CLOCK.now
    time.monotonic = lambda: CLOCK.now
    time.time = lambda: EPOCH + CLOCK.now + CLOCK.skew
    time.perf_counter_ns = lambda: int(CLOCK.now * 1000000000)
    time.monotonic_ns = lambda: int(CLOCK.now * 1000000000)
    time.time_ns = lambda: int(
        (EPOCH + CLOCK.now + CLOCK.skew) * 1000000000)
    import timeit
    timeit.default_timer = timeit.time.perf_counter
    time.sleep = _sim_sleep
    threading._time = time.monotonic
    import queue
    queue.SimpleQueue = queue._PySimpleQueue    # over locks as above
    queue.time = time.monotonic

    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)

    import concurrent.futures
    import concurrent.futures._base as fb
    fb.time = time

    def ordered(self, futures):
        # the order of addresses becomes a seeded order
        self.futures = sorted(futures, key=hash)
    fb._AcquireFutures.__init__ = ordered


def patch_identity_hashes():
    """objects of hiku kept in sets and dicts: seeded, not address-based"""
    import inspect
    import hiku.executors.queue
    import hiku.executors.sync
    import hiku.executors.asyncio
    import hiku.executors.threads

    def __hash__(self):
        try:
            return self.__dict__['_sim_hash']
        except (KeyError, AttributeError):
            pass
        h = HashSeed.next()
        try:
            self.__dict__['_sim_hash'] = h
        except AttributeError:
            return 0
        return h

    for mod in (hiku.executors.queue, hiku.executors.sync,
                hiku.executors.asyncio, hiku.executors.threads):
        for _, cls in inspect.getmembers(mod, inspect.isclass):
            if cls.__module__ == mod.__name__ and \
                    cls.__hash__ is object.__hash__ and \
                    cls.__eq__ is object.__eq__:
                try:
                    cls.__hash__ = __hash__
                except TypeError:
                    pass
