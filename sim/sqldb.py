"""A database under simulation: real statements on a real SQLite in memory,
behind drivers whose waits, row order, chunks and failures are simulated.

 * blocking: real SQLAlchemy engine, pool events and results over a DB-API
   module of our own;
 * aiopg: real aiopg.sa Engine, SAConnection and ResultProxy over a pool,
   connections and cursors of our own;
 * asyncio: an engine of our own with the interface of SQLAlchemy's AsyncEngine
   (this SQLAlchemy has none), rows from the real SQLAlchemy.
"""
import re
import random
import asyncio
import sqlite3

import sqlalchemy
from sqlalchemy.pool import NullPool
from sqlalchemy.engine import Engine as SaEngine
import aiopg.sa.engine as aiopg_engine

from .core import HarnessError
from .seams import STATE
from .aioloop import EXEC


class DbError(Exception):
    """an error of the database driver"""


class DbDriverError(sqlite3.OperationalError):
    """an error of the database driver, of the DB-API hierarchy"""


class Ledger:
    """Loads, and what each does with connections. `bad(cls, msg)` reports."""

    def __init__(self, run, bad):
        self.run = run
        self.bad = bad
        self.loads = []
        self.conns = 0
        self.current_exec = lambda: None

    def begin(self, what, nothing):
        ld = LoadRec(len(self.loads), what, nothing)
        ld.exec = self.current_exec()
        self.loads.append(ld)
        self.run.log('load', ld.n, what)
        return ld

    def end(self, ld, how):
        ld.state = how
        self.run.log('load end', ld.n, how)
        for c in ld.taken:
            if c.state == 'held':
                self.bad('connection-leak', 'load {} ended ({}) and kept its '
                         'connection'.format(ld, how))

    def current(self):
        s = STATE.sched
        if s is not None:
            me = s.me()
            if me is not None:
                return LOADS.get(me)
        return LOAD_VAR.get()

    def acquire(self):
        ld = self.current()
        if ld is None:
            raise HarnessError('a connection is taken by no load')
        if ld.nothing:
            self.bad('needless-connection', 'load {} has nothing to look up '
                     'and takes a connection'.format(ld))
        if ld.state != 'running':
            self.bad('late-use', 'load {} takes a connection after its end'
                     .format(ld))
        if ld.taken or ld.asked:
            self.bad('connection-twice', 'load {} takes another connection'
                     .format(ld))
        ld.asked += 1
        return ld

    def acquired(self, ld):
        self.conns += 1
        c = Conn(self.conns, ld)
        ld.taken.append(c)
        self.run.log('acquire', ld.n, c.n)
        return c

    def failed(self, ld):
        """the acquisition ended without a connection"""

    def use(self, c, what):
        self.run.log(what, c.n)
        if c.state != 'held':
            self.bad('use-after-release', 'connection of load {} is used ({}) '
                     'after it was given back'.format(c.load, what))
        if self.current() is not c.load:
            self.bad('foreign-use', 'connection of load {} is used ({}) by '
                     'load {}'.format(c.load, what, self.current()))

    def release(self, c):
        self.run.log('release', c.n)
        if c.state != 'held':
            self.bad('released-twice', 'connection of load {} is given back '
                     'again'.format(c.load))
            return False
        c.state = 'free'
        return True

    def finish(self):
        for ld in self.loads:
            if ld.state == 'running':
                raise HarnessError('a load did not end')
            for c in ld.taken:
                if c.state == 'held':
                    self.bad('connection-leak', 'load {} kept its connection'
                             .format(ld))


class LoadRec:

    def __init__(self, n, what, nothing):
        self.n = n
        self.what = what
        self.nothing = nothing
        self.taken = []
        self.asked = 0
        self.exec = None
        self.state = 'running'

    def __repr__(self):
        return '{} {}'.format(self.n, self.what)


class Conn:

    def __init__(self, n, load):
        self.n = n
        self.load = load
        self.state = 'held'


import contextvars  # noqa
LOAD_VAR = contextvars.ContextVar('sim_load', default=None)
LOADS = {}


def set_load(ld):
    s = STATE.sched
    if s is not None and s.me() is not None:
        me = s.me()
        prev = LOADS.get(me)
        LOADS[me] = ld
        return prev
    prev = LOAD_VAR.get()
    LOAD_VAR.set(ld)
    return prev


# -- the database -----------------------------------------------------------

class Database:
    """tables on one SQLite connection; `order` of delivered rows"""

    def __init__(self, metadata, rows, order, shuffle_seed):
        self.order = order
        self.seed = shuffle_seed
        self.count = 0
        self.raw = sqlite3.connect(':memory:', check_same_thread=False)
        self.raw.isolation_level = None
        cur = self.raw.cursor()
        for t in metadata.sorted_tables:
            cols = []
            for c in t.columns:
                cols.append('"{}" {}{}'.format(
                    c.name, 'INTEGER' if isinstance(c.type, sqlalchemy.Integer)
                    else 'TEXT', ' PRIMARY KEY' if c.primary_key else ''))
            cur.execute('CREATE TABLE "{}" ({})'.format(t.name,
                                                        ', '.join(cols)))
            data = rows[t.name]
            if data:
                cur.executemany(
                    'INSERT INTO "{}" VALUES ({})'.format(
                        t.name, ','.join('?' * len(t.columns))),
                    [tuple(r[c.key] for c in t.columns) for r in data])

    def query(self, sql, params):
        cur = self.raw.cursor()
        cur.execute(sql, params)
        rows = cur.fetchall()
        desc = cur.description
        cur.close()
        self.count += 1
        if self.order == 'reverse':
            rows = rows[::-1]
        elif self.order == 'random':
            random.Random(self.seed + self.count).shuffle(rows)
        return rows, desc

    def close(self):
        self.raw.close()


def pg_to_sqlite(sql, params):
    """numbered arrays of the PostgreSQL dialect as lists"""
    out = []

    def sub(m):
        value = params[m.group(2)]
        if m.group(1):
            value = list(value)
            out.extend(value)
            return 'IN ({})'.format(', '.join('?' * len(value)))
        out.append(value)
        return '?'
    text = re.sub(r'(= ANY \()?%\((\w+)\)s(?(1)\))', sub, sql)
    return text, out


class Server:
    """what drivers share: connections, waits and failures

    fault(step) -> exception or None, called at 'acquire', 'execute', 'fetch'
    """

    def __init__(self, run, ledger, db, size, pauses, fault):
        self.run = run
        self.ch = run.ch
        self.ledger = ledger
        self.db = db
        self.free = size
        self.size = size
        self.waiters = []
        self.pauses = pauses       # percent of steps that wait
        self.fault = fault
        self.on_wait = None        # called before a step waits (asyncio)
        self.short = 0             # percent of chunks shorter than asked for

    # blocking side

    def wait(self, step):
        if self.ch.chance(self.pauses):
            s = STATE.sched
            if s is not None and s.me() is not None:
                s.pause('db.' + step)

    def step(self, step):
        self.wait(step)
        e = self.fault(step)
        if e is not None:
            raise e

    def take(self):
        ld = self.ledger.acquire()
        self.step('acquire')
        s = STATE.sched
        if s is not None and s.me() is not None:
            while self.free <= 0:
                key = object()
                self.waiters.append(key)
                self.run.probe('waited for a connection')
                s.block(key)
        self.free -= 1
        return self.ledger.acquired(ld)

    def give(self, c):
        if self.ledger.release(c):
            self.free += 1
            s = STATE.sched
            if self.waiters and s is not None:
                s.wake(self.waiters.pop(0))

    # asyncio side

    def many(self, n, left):
        """how many rows a chunk brings: at least one while there are any"""
        n = min(n, left)
        if n > 1 and self.short and self.ch.chance(self.short):
            self.run.probe('short chunk')
            return self.ch.between(1, n - 1)
        return n

    async def astep(self, step):
        if self.ch.chance(self.pauses):
            if self.on_wait is not None:
                self.on_wait(step)
            await asyncio.get_running_loop().pause('db.' + step)
        e = self.fault(step)
        if e is not None:
            raise e

    async def atake(self):
        ld = self.ledger.acquire()
        await self.astep('acquire')
        while self.free <= 0:
            self.run.probe('waited for a connection')
            fut = asyncio.get_running_loop().create_future()
            self.waiters.append(fut)
            if self.on_wait is not None:
                self.on_wait('pool')
            try:
                await fut
            except asyncio.CancelledError:
                if fut in self.waiters:
                    self.waiters.remove(fut)
                else:
                    self.awake()
                raise
        self.free -= 1
        return self.ledger.acquired(ld)

    def awake(self):
        if self.free > 0 and self.waiters:
            fut = self.waiters.pop(0)
            if not fut.done():
                fut.set_result(None)

    def agive(self, c):
        if self.ledger.release(c):
            self.free += 1
            self.awake()


# -- blocking: real SQLAlchemy over a DB-API module of our own --------------

class Cursor:

    def __init__(self, conn):
        self.conn = conn
        self.rows = []
        self.description = None
        self.rowcount = -1
        self.lastrowid = None
        self.arraysize = 1
        self.closed = False

    def execute(self, sql, params=()):
        srv = self.conn.server
        srv.ledger.use(self.conn.rec, 'execute')
        srv.step('execute')
        self.rows, self.description = srv.db.query(sql, params)
        self.rows = list(self.rows)

    def _fetch(self, n):
        srv = self.conn.server
        srv.ledger.use(self.conn.rec, 'fetch')
        srv.step('fetch')
        out, self.rows = self.rows[:n], self.rows[n:]
        return out

    def fetchall(self):
        return self._fetch(len(self.rows))

    def fetchmany(self, size=None):
        return self._fetch(size or self.arraysize)

    def fetchone(self):
        rows = self._fetch(1)
        return rows[0] if rows else None

    def __iter__(self):
        return iter(self.fetchone, None)

    def close(self):
        self.closed = True


class DbapiConnection:

    def __init__(self, server):
        self.server = server
        self.rec = server.take()

    def cursor(self):
        return Cursor(self)

    def commit(self):
        pass

    def rollback(self):
        pass

    def close(self):
        self.server.give(self.rec)


class KeepingEngine(SaEngine):
    """holds on to what it hands out: only an explicit close gives back"""

    def connect(self, *args, **kwargs):
        c = super().connect(*args, **kwargs)
        self.sim_keep.append(c)
        return c

    _contextual_connect_real = SaEngine._contextual_connect

    def _contextual_connect(self, *args, **kwargs):
        c = self._contextual_connect_real(*args, **kwargs)
        self.sim_keep.append(c)
        return c


def blocking_engine(server):
    engine = sqlalchemy.create_engine(
        'sqlite://', poolclass=NullPool, _initialize=False,
        creator=lambda: DbapiConnection(server))
    engine.__class__ = KeepingEngine
    engine.sim_keep = server.run.keep
    return engine


# -- aiopg ------------------------------------------------------------------

class PgCursor:

    def __init__(self, conn):
        self.conn = conn
        self.rows = []
        self.description = None
        self.closed = False
        self.rowcount = -1
        self.arraysize = 1

    async def execute(self, sql, params=None):
        srv = self.conn.server
        srv.ledger.use(self.conn.rec, 'execute')
        await srv.astep('execute')
        rows, desc = srv.db.query(*pg_to_sqlite(sql, params or {}))
        self.rows = list(rows)
        self.description = desc
        self.rowcount = len(rows)

    async def _fetch(self, n, short=False):
        srv = self.conn.server
        srv.ledger.use(self.conn.rec, 'fetch')
        await srv.astep('fetch')
        if short:
            n = srv.many(n, len(self.rows))
        out, self.rows = self.rows[:n], self.rows[n:]
        return out

    async def fetchall(self):
        return await self._fetch(len(self.rows))

    async def fetchmany(self, size=None):
        return await self._fetch(size or self.arraysize, True)

    async def fetchone(self):
        rows = await self._fetch(1)
        return rows[0] if rows else None

    def close(self):
        self.closed = True


class PgConnection:

    def __init__(self, server, rec):
        self.server = server
        self.rec = rec
        self.closed = False

    async def cursor(self, *args, **kwargs):
        return PgCursor(self)


class PgPool:

    def __init__(self, server):
        self.server = server

    async def acquire(self):
        return PgConnection(self.server, await self.server.atake())

    def release(self, conn):
        self.server.agive(conn.rec)
        fut = asyncio.get_running_loop().create_future()
        fut.set_result(None)
        return fut


def aiopg_sa_engine(server):
    return aiopg_engine.Engine(aiopg_engine._dialect, PgPool(server), 'sim')


# -- asyncio SQLAlchemy -----------------------------------------------------

class Awaitable:
    """awaited or entered, as the objects of SQLAlchemy's asyncio extension"""

    def __await__(self):
        return self.start().__await__()

    async def __aenter__(self):
        return await self.start()

    async def __aexit__(self, *exc):
        await self.close()


class AsyncEngine:

    def __init__(self, server):
        self.server = server
        self.sync = sqlalchemy.create_engine(
            'sqlite://', poolclass=NullPool, _initialize=False,
            creator=lambda: _Plain(server.db))

    def connect(self):
        return AsyncConnection(self)

    def rows(self, expr):
        with self.sync.connect() as c:
            return c.execute(expr).fetchall()


class _Plain:
    """unwatched access, for the rows of the asyncio engine"""

    def __init__(self, db):
        self.db = db

    def cursor(self):
        return _PlainCursor(self.db)

    def commit(self):
        pass

    rollback = close = commit


class _PlainCursor:
    rowcount = -1
    lastrowid = None
    description = None
    arraysize = 1

    def __init__(self, db):
        self.db = db

    def execute(self, sql, params=()):
        self.rows, self.description = self.db.query(sql, params)

    def fetchall(self):
        return self.rows

    def close(self):
        pass


class AsyncConnection(Awaitable):

    def __init__(self, engine):
        self.engine = engine
        self.server = engine.server
        self.rec = None

    async def start(self):
        self.rec = await self.server.atake()
        return self

    async def _run(self, expr):
        self.server.ledger.use(self.rec, 'execute')
        await self.server.astep('execute')
        return list(self.engine.rows(expr))

    async def stream(self, expr, *args, **kwargs):
        return AsyncResult(self, await self._run(expr))

    async def execute(self, expr, *args, **kwargs):
        rows = await self._run(expr)
        self.server.ledger.use(self.rec, 'fetch')
        await self.server.astep('fetch')
        return BufferedResult(rows)

    async def close(self):
        self.server.agive(self.rec)
        if self.server.ch.chance(self.server.pauses):
            if self.server.on_wait is not None:
                self.server.on_wait('close')
            await asyncio.get_running_loop().pause('db.close')


class BufferedResult:

    def __init__(self, rows):
        self.rows = rows

    def fetchall(self):
        out, self.rows = self.rows, []
        return out

    all = fetchall

    def fetchmany(self, size=None):
        n = size or 1
        out, self.rows = self.rows[:n], self.rows[n:]
        return out

    def __iter__(self):
        return iter(self.fetchall())


class AsyncResult:

    def __init__(self, conn, rows):
        self.conn = conn
        self.rows = rows

    async def _fetch(self, n, short=False):
        srv = self.conn.server
        srv.ledger.use(self.conn.rec, 'fetch')
        await srv.astep('fetch')
        if short:
            n = srv.many(n, len(self.rows))
        out, self.rows = self.rows[:n], self.rows[n:]
        return out

    async def fetchmany(self, size=None):
        return await self._fetch(size or 1, True)

    async def fetchall(self):
        return await self._fetch(len(self.rows))

    all = fetchall

    async def fetchone(self):
        rows = await self._fetch(1)
        return rows[0] if rows else None

    def __aiter__(self):
        return self

    async def __anext__(self):
        row = await self.fetchone()
        if row is None:
            raise StopAsyncIteration
        return row

    async def partitions(self, size=None):
        while True:
            rows = await self._fetch(size or 1)
            if not rows:
                break
            yield rows

    async def close(self):
        self.rows = []


ENGINES = {'sa': blocking_engine, 'aiopg': aiopg_sa_engine,
           'asyncio': AsyncEngine}
