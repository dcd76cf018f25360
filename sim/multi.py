"""Several executions on one engine: before, after and next to each other."""
import asyncio

from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor

from .core import HarnessError, Violation
from .aioloop import EXEC
from .model import Loads
from .world import Exec, merged_query
from .threads import SimKill


class Job:

    def __init__(self, exec_, graph, query, items, g, ctx):
        self.exec = exec_
        self.graph = graph
        self.query = query
        self.items = items
        self.g = g
        self.ctx = ctx
        self.outcome = None      # ('ok', result) | ('error', exc)
        self.began = None        # event numbers
        self.ended = None
        self.delay = 0
        self.task = None
        self._loads = None

    @property
    def loads(self):
        if self._loads is None:
            self._loads = Loads(self.g, self.items,
                                self.ctx if self.ctx is not None else {})
        return self._loads

    def __repr__(self):
        return 'job {}'.format(self.exec.id)


async def drain(loop):
    """lets everything else end"""
    me = asyncio.current_task()
    for _ in range(50):
        rest = [t for t in asyncio.all_tasks(loop) if t is not me]
        if not rest:
            return
        rest.sort(key=lambda t: t._sim_hash)
        await asyncio.wait(rest)
    raise HarnessError('tasks do not end')


def begin(sim, job):
    job.began = sim.world.tick()
    job.exec.state = 'running'
    sim.run.log('begin', job.exec.id)


def finish(sim, job, outcome):
    job.ended = sim.world.tick()
    job.outcome = outcome
    job.exec.state = 'ended'
    sim.run.log('finish', job.exec.id, outcome[0],
                type(outcome[1]).__name__ if outcome[0] == 'error' else '')


def passes(e):
    return isinstance(e, (SimKill, Violation, HarnessError))


async def async_job(sim, job, after=None):
    if job.delay:
        for i in range(job.delay):
            await sim.loop.pause('delay{}.{}'.format(job.exec.id, i))
    begin(sim, job)
    try:
        r = await sim.execute(job.graph, job.query, job.exec)
    except BaseException as e:
        if passes(e):
            raise
        finish(sim, job, ('error', e))
        if isinstance(e, asyncio.CancelledError):
            raise
        return
    finish(sim, job, ('ok', r))
    if after is not None:
        after(job)


def blocking_job(sim, job, after=None):
    if sim.sched is not None:
        sim.sched.me().exec = job.exec
        for i in range(job.delay):
            sim.sched.pause('delay{}.{}'.format(job.exec.id, i))
    begin(sim, job)
    try:
        r = sim.execute(job.graph, job.query, job.exec)
    except BaseException as e:
        if passes(e):
            raise
        finish(sim, job, ('error', e))
        return
    finish(sim, job, ('ok', r))
    if after is not None:
        after(job)


def run_stages(sim, stages, after=None, extra=None, **kw):
    """stages: lists of jobs; the jobs of a stage run at the same time (one
    after another where the mode knows no concurrency), and a stage starts
    when the one before has ended.

    extra(sim, jobs, tasks): called after the tasks of a stage were created
    (async only)."""
    if sim.mode == 'async':
        async def main(sim):
            for jobs in stages:
                tasks = []
                for job in jobs:
                    job.task = sim.loop.create_task(async_job(sim, job, after))
                    tasks.append(job.task)
                if extra is not None:
                    extra(sim, jobs, tasks)
                if tasks:
                    await asyncio.wait(tasks)
                for t in tasks:
                    if not t.cancelled() and t.exception() is not None:
                        raise t.exception()
            await drain(sim.loop)
        return sim.start(main)
    if sim.mode == 'threads':
        def main(sim):
            for jobs in stages:
                threads = [sim.sched.spawn(
                    lambda job=job: blocking_job(sim, job, after),
                    'job{}'.format(job.exec.id), job.exec)
                    for job in jobs[1:]]
                if jobs:
                    blocking_job(sim, jobs[0], after)
                sim.sched.join(threads)
            sim.pool.drain()
        return sim.start(main, **kw)

    def main(sim):
        for jobs in stages:
            for job in jobs:
                blocking_job(sim, job, after)
    return sim.start(main)


def run_sync_threads(sim, jobs, preempt, after=None, gaps=None, locks=0):
    """one engine over the inline executor, called from several threads"""
    from .threads import Sched
    sim.engine = Engine(SyncExecutor())
    kw = {} if gaps is None else {'gaps': gaps}
    sim.sched = Sched(sim.run, sim.env, preempt=preempt, locks=locks, **kw)

    def main():
        threads = [sim.sched.spawn(
            lambda job=job: blocking_job(sim, job, after),
            'job{}'.format(job.exec.id), job.exec) for job in jobs[1:]]
        blocking_job(sim, jobs[0], after)
        sim.sched.join(threads)
    return sim.sched.execute(main)


def make_jobs(sim, g, graph, specs, ordered=False):
    """specs: [(items, ctx)] -> jobs; equal items share one query object"""
    queries = {}
    jobs = []
    for i, (items, ctx) in enumerate(specs):
        q = queries.get(id(items))
        if q is None:
            q = queries[id(items)] = merged_query(items, ordered)
        jobs.append(Job(Exec(i, ctx), graph, q, items, g, ctx))
    return jobs


def current_exec():
    return EXEC.get()
