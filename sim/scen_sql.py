"""C10, C11: SQL sources over a simulated database."""
import asyncio
import sqlite3

import psycopg2

import sqlalchemy as sa
from sqlalchemy.sql.elements import quoted_name  # noqa

from hiku.graph import Graph, Node, Root, Field, Link
from hiku.types import TypeRef, Sequence, Optional, Any
from hiku.result import denormalize
from hiku.engine import pass_context, Context
from hiku.sources import sqlalchemy as src_sa
from hiku.sources import aiopg as src_aiopg
from hiku.sources import sqlalchemy_async as src_async
from hiku.sources.graph import SubGraph

from .core import Violation, HarnessError, canon, short_tb
from .gen import Item
from .harness import Sim, diff
from .multi import Job, run_stages, drain
from .world import Exec, merged_query
from .model import merged
from .sqldb import (Database, Ledger, Server, ENGINES, DbError, DbDriverError,
                    set_load, LOADS)
from .threads import SimKill

SOURCES = {'sa': src_sa, 'aiopg': src_aiopg, 'asyncio': src_async}


# -- tables, data and graph, as plain data ----------------------------------

class TableSpec:

    def __init__(self, name, pk_type):
        self.name = name
        self.pk_type = pk_type          # 'int' | 'str'
        self.columns = [('id', pk_type)]
        self.fks = []                   # (column, table name)
        self.slug = False
        self.renamed = False            # columns are called otherwise
        self.rows = []

    def stored(self, column):
        return 'x_' + column if self.renamed else column

    def ids(self):
        return [r['id'] for r in self.rows]


class SqlSpec:

    def __init__(self):
        self.tables = {}
        self.assocs = []      # (name, left table, right table, pairs)
        self.nodes = {}       # node name -> NodeS
        self.roots = []       # (link name, node, kind, ids)


class NodeS:

    def __init__(self, name, table, key, db, alias):
        self.name = name
        self.table = table
        self.key = key          # column the identifiers are of
        self.db = db
        self.alias = alias      # over an alias of the table, or a selection
        self.fields = []        # column names
        self.join = None        # (column, other table, {field: (side, column)})
        self.links = {}         # name -> LinkS


class LinkS:

    def __init__(self, name, target, kind, requires, how, db, table,
                 from_column, to_column):
        self.name = name
        self.target = target
        self.kind = kind
        self.requires = requires
        self.how = how
        self.db = db
        self.table = table
        self.from_column = from_column
        self.to_column = to_column


INTS = (1, 2, 3, 0, -1, 7, 10 ** 12, 100, 5)
STRS = ('a', 'b', '', 'A', "x'y", 'é', '1', 'zz', '%s')
# of these no row is seen through a filter
FILTERED = (2, 1002, 'b', 'k2')
MISSING = {'int': (4242, -77), 'str': ('nope', '?')}


def key_values(ch, type_, n, serial):
    base = INTS if type_ == 'int' else STRS
    out = []
    for i in range(n):
        if i < len(base) and not serial:
            out.append(base[i])
        else:
            out.append(i + 1000 if type_ == 'int' else 'k{}'.format(i))
    return out


def gen_tables(ch, big):
    s = SqlSpec()
    n = ch.between(1, 3)
    for i in range(n):
        t = TableSpec('t{}'.format(i), ch.pick(('int', 'str')))
        s.tables[t.name] = t
        t.slug = ch.chance(30)
        t.renamed = ch.chance(20)
        if t.slug:
            t.columns.append(('slug', 'str'))
        for j in range(ch.between(0, 3)):
            t.columns.append(('c{}'.format(j), ch.pick(('int', 'str'))))
    names = list(s.tables)
    for t in s.tables.values():
        for j in range(ch.between(0, 2)):
            other = ch.pick(names)
            t.fks.append(('f{}'.format(j), other))
            t.columns.append(('f{}'.format(j), s.tables[other].pk_type))
    sizes = {}
    for t in s.tables.values():
        if big and ch.chance(5):
            count = ch.pick((520, 1050))
        elif big and ch.chance(50):
            count = ch.pick((100, 99, 101, 200, 201, 150))
        else:
            count = ch.pick((3, 0, 1, 2, 4, 5, 6, 8))
        sizes[t.name] = key_values(ch, t.pk_type, count, count > 9)
    for t in s.tables.values():
        salt = ch.below(1000)
        for i, key in enumerate(sizes[t.name]):
            row = {'id': key}
            for j, (c, type_) in enumerate(t.columns):
                if c == 'id':
                    continue
                v = (salt + i * 7 + j * 3) * 2654435761 >> 7
                if c == 'slug':
                    row[c] = 's{}'.format(i * 13 % 9973)
                elif c[0] == 'f':
                    other = dict(t.fks)[c]
                    pool = sizes[other]
                    if v % 5 == 0 or not pool:
                        row[c] = None
                    elif v % 11 == 1:
                        row[c] = MISSING[type_][0]
                    else:
                        # many children of few parents
                        row[c] = pool[v % min(len(pool), 4)]
                else:
                    if v % 4 == 0:
                        row[c] = None
                    elif type_ == 'int':
                        row[c] = v % 7
                    else:
                        row[c] = 'v{}'.format(v % 9) if v % 9 else ''
            t.rows.append(row)
    if ch.chance(50):
        left, right = ch.pick(names), ch.pick(names)
        pairs = []
        nulls = ch.chance(20)
        lids, rids = sizes[left], sizes[right]
        if lids and rids:
            m = ch.pick((100, 101, 200)) if big and ch.chance(40) \
                else ch.between(0, 8)
            for i in range(m):
                a = lids[ch.below(min(len(lids), 5))]
                b = rids[(i * 5 + m) % len(rids)]
                if ch.chance(5):
                    b = MISSING[s.tables[right].pk_type][1]
                if nulls and i % 3 == 1:
                    b = None
                pairs.append((a, b))
        s.assocs.append(('a0', left, right, pairs))
    return s, sizes


def gen_spec(ch, lib, big=False, dbs=('db',)):
    s, sizes = gen_tables(ch, big)
    for t in s.tables.values():
        node = NodeS('N' + t.name, t.name, 'id', ch.pick(dbs),
                     ch.pick((None, None, None, None, 'alias', 'select',
                              'filter')))
        if t.slug and ch.chance(40):
            node.key = 'slug'
        node.fields = [c for c, _ in t.columns]
        s.nodes[node.name] = node
    by_id = {n.table: n for n in s.nodes.values() if n.key == 'id'}
    for node in s.nodes.values():
        t = s.tables[node.table]
        k = 0
        for col, other in t.fks:
            target = by_id.get(other)
            if target is None or not ch.chance(80):
                continue
            ok = all(r[col] in sizes[other] for r in t.rows)
            kind = ch.pick(('maybe', 'one') if ok or ch.chance(15)
                           else ('maybe',))
            name = 'l{}'.format(k)
            k += 1
            node.links[name] = LinkS(name, target.name, kind, col, 'to',
                                     target.db, other, 'id', 'id')
            if ch.chance(30):
                # by the table itself, which knows of no target of some
                name = 'l{}'.format(k)
                k += 1
                node.links[name] = LinkS(name, target.name, 'maybe', 'id',
                                         'own', target.db, t.name, 'id', col)
        for other in s.tables.values():
            for col, dest in other.fks:
                target = by_id.get(other.name)
                if dest == t.name and target is not None and ch.chance(60):
                    name = 'l{}'.format(k)
                    k += 1
                    node.links[name] = LinkS(
                        name, target.name, 'many', 'id', 'back', target.db,
                        other.name, col, 'id')
        for an, left, right, pairs in s.assocs:
            target = by_id.get(right)
            if left == t.name and target is not None:
                name = 'l{}'.format(k)
                k += 1
                node.links[name] = LinkS(name, target.name, 'many', 'id',
                                         'assoc', ch.pick(dbs), an, 'left',
                                         'right')
    for t in list(s.tables.values()):
        if t.fks and ch.chance(30):
            node = join_node(ch, s, t, dbs, lib)
            s.nodes[node.name] = node
    for i, node in enumerate(s.nodes.values()):
        t = s.tables[node.table]
        type_ = 'str' if node.key == 'slug' else t.pk_type
        have = [r[node.key] for r in t.rows]
        for j in range(ch.between(1, 2)):
            kind = ch.pick(('many', 'maybe', 'one'))
            ids = pick_ids(ch, have, type_)
            if kind == 'one':
                ids = ids[:1] or [MISSING[type_][0]]
            elif kind == 'maybe':
                ids = ids[:1]
            s.roots.append(('r{}_{}'.format(i, j), node.name, kind, ids))
    return s


def join_node(ch, s, t, dbs, lib):
    """a node over a table and another one it refers to"""
    col, other = ch.pick(t.fks)
    node = NodeS('J' + t.name, t.name, 'id', ch.pick(dbs), None)
    columns = {'{}_{}'.format(t.name, t.stored(c)): (0, c)
               for c, _ in t.columns}
    # aiopg looks columns up by their names, which two tables share
    if other != t.name and lib != 'aiopg':
        o = s.tables[other]
        columns.update(('{}_{}'.format(other, o.stored(c)), (1, c))
                       for c, _ in o.columns)
        node.join = (col, other, columns)
        node.fields = list(columns)
    else:
        node.fields = [c for c, _ in t.columns]
    return node


def pick_ids(ch, have, type_):
    have = list(have)
    how = ch.pick(('some', 'all', 'missing', 'repeat', 'none', 'only missing'))
    if how == 'all':
        ids = have
    elif how == 'none':
        ids = []
    elif how == 'only missing':
        ids = list(MISSING[type_])
    else:
        ids = []
        for i in range(ch.between(1, 5)):
            if have:
                ids.append(have[ch.below(len(have))])
        if how == 'missing':
            ids.insert(ch.below(len(ids) + 1), MISSING[type_][0])
        if how == 'repeat':
            ids = ids + ids
    if len(ids) > 1 and ch.chance(50):
        k = ch.below(len(ids))
        ids = ids[k:][::-1] + ids[:k]
    return ids


# -- reference --------------------------------------------------------------

class Missing(Exception):
    """a link to exactly one object without an object"""


class Ref:
    """lookup in plain Python, with indices"""

    def __init__(self, s):
        self.s = s
        self.by_key = {}
        self.by_link = {}
        self.left = None

    def row(self, node, ident):
        k = (node.table, node.key)
        m = self.by_key.get(k)
        if m is None:
            m = self.by_key[k] = {r[node.key]: r
                                  for r in self.s.tables[node.table].rows}
        return m.get(ident)

    def value(self, node, ident, col):
        row = self.row(node, ident)
        if row is None or node.alias == 'filter' and row['id'] in FILTERED:
            return None
        if node.join is None:
            return row[col]
        fk, other, columns = node.join
        side, name = columns[col]
        if side == 0:
            return row[name]
        k = (other, 'id')
        if k not in self.by_key:
            self.by_key[k] = {r['id']: r for r in self.s.tables[other].rows}
        row = self.by_key[k].get(row[fk])
        return None if row is None else row[name]

    def related(self, link, value):
        if value is None:
            return []
        k = (link.table, link.from_column, link.to_column)
        m = self.by_link.get(k)
        if m is None:
            m = self.by_link[k] = {}
            if link.how == 'assoc':
                pairs = [p for a in self.s.assocs if a[0] == link.table
                         for p in a[3]]
            else:
                pairs = [(r[link.from_column], r[link.to_column])
                         for r in self.s.tables[link.table].rows]
            for a, b in pairs:
                if b is not None:
                    m.setdefault(a, []).append(b)
        return m.get(value, [])

    def follow(self, link, value):
        found = self.related(link, value)
        if link.kind == 'many':
            return found
        if not found:
            if link.kind == 'one':
                raise Missing(link.name)
            return None
        return found[0]

    def obj(self, node, ident, items):
        out = {}
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise TooBig
        for key, it in merged(items).items():
            link = node.links.get(it.name)
            if link is None:
                out[key] = self.value(node, ident, it.name)
                continue
            value = self.value(node, ident, link.requires)
            target = self.s.nodes[link.target]
            got = self.follow(link, value)
            if link.kind == 'many':
                out[key] = by_text([self.obj(target, i, it.sub) for i in got])
            else:
                out[key] = None if got is None \
                    else self.obj(target, got, it.sub)
        return out

    def root(self, items):
        roots = {r[0]: r for r in self.s.roots}
        out = {}
        for key, it in merged(items).items():
            _, name, kind, ids = roots[it.name]
            node = self.s.nodes[name]
            if kind == 'many':
                out[key] = [self.obj(node, i, it.sub) for i in ids]
            elif not ids:
                out[key] = None
            else:
                out[key] = self.obj(node, ids[0], it.sub)
        return out


def by_text(objs):
    """the order of the targets of a link is not promised"""
    return sorted(objs, key=canon)


def normal(value, s, items, node):
    """a result with the targets of links to many in a fixed order"""
    out = {}
    specs = {} if node is None else node.links
    roots = {r[0]: r for r in s.roots}
    m = merged(items)
    for key, v in value.items():
        it = m.get(key)
        if it is None or it.sub is None:
            out[key] = v
            continue
        if node is None:
            target = s.nodes[roots[it.name][1]]
        else:
            target = s.nodes[specs[it.name].target]
        if isinstance(v, list):
            v = [normal(x, s, it.sub, target) for x in v]
            if node is not None:
                v = by_text(v)
            out[key] = v
        elif v is None:
            out[key] = v
        else:
            out[key] = normal(v, s, it.sub, target)
    return out


# -- queries ----------------------------------------------------------------

def gen_items(ch, s, node, depth, budget):
    out = []
    seen = set()
    for i in range(ch.between(1, 4)):
        links = list(node.links) if depth else []
        names = node.fields + links + links
        name = ch.pick(names)
        if budget[0] <= 0:
            break
        budget[0] -= 1
        alias = None
        if name in seen or ch.chance(15):
            alias = 'a{}'.format(len(out))
        key = alias or name
        if key in seen:
            continue
        seen.add(key)
        if name in node.links:
            link = node.links[name]
            sub = gen_items(ch, s, s.nodes[link.target], depth - 1, budget)
            out.append(Item(name, None, alias, sub))
        else:
            out.append(Item(name, None, alias))
    return out or [Item(node.fields[0])]


class TooBig(Exception):
    pass


def gen_query(ch, s, ref):
    """a query of a size that databases can serve"""
    for depth in (3, 1, 0):
        items = gen_query_of(ch, s, depth)
        ref.left = 600
        try:
            ref.root(items)
        except TooBig:
            continue
        except Missing:
            pass
        finally:
            ref.left = None
        return items
    return items


def gen_query_of(ch, s, depth):
    budget = [20]
    out = []
    seen = {}
    for i in range(ch.between(1, 3)):
        r = ch.pick(s.roots)
        alias = 'q{}'.format(i) if r[0] in seen else None
        seen[r[0]] = True
        out.append(Item(r[0], None, alias, gen_items(
            ch, s, s.nodes[r[1]], depth, budget)))
    return out


# -- hiku -------------------------------------------------------------------

class Watch:
    """subclasses of the real sources, which tell where a load begins and ends"""

    def __init__(self, ledger):
        self.ledger = ledger
        self.cache = {}

    def watched(self, cls, nothing, ids_at, n_args):
        ledger = self.ledger

        def begin(self, args):
            ids = args[ids_at] if len(args) == n_args else ()
            ld = ledger.begin(type(self).__name__, nothing(ids))
            return ld, set_load(ld)

        if asyncio.iscoroutinefunction(cls.__call__):
            class Sub(cls):
                async def __call__(self, *args):
                    ld, prev = begin(self, args)
                    how = 'failed'
                    try:
                        out = await super().__call__(*args)
                        how = 'done'
                        return out
                    except asyncio.CancelledError:
                        how = 'cancelled'
                        raise
                    finally:
                        ledger.end(ld, how)
                        set_load(prev)
        else:
            class Sub(cls):
                def __call__(self, *args):
                    ld, prev = begin(self, args)
                    how = 'failed'
                    try:
                        out = super().__call__(*args)
                        how = 'done'
                        return out
                    except SimKill:
                        how = 'killed'
                        raise
                    finally:
                        if how != 'killed':
                            ledger.end(ld, how)
                        set_load(prev)
        Sub.__name__ = cls.__name__
        Sub.__module__ = cls.__module__
        return Sub


def no_ids(ids):
    return len(ids) == 0


def no_values(ids):
    return all(i is None for i in ids)


def build(s, kind, watch, high):
    """(graph, metadata, fields queries by node)"""
    src = SOURCES[kind]
    fields_cls = watch.watched(src.FieldsQuery, no_ids, 2, 3)
    link_cls = watch.watched(src.LinkQuery, no_values, 2, 3)
    meta = sa.MetaData()
    types = {'int': sa.Integer, 'str': sa.Unicode}
    tables = {}
    for t in s.tables.values():
        cols = [sa.Column(t.stored(c), types[ty], key=c,
                          primary_key=(c == 'id'))
                for c, ty in t.columns]
        tables[t.name] = sa.Table(t.name, meta, *cols)
    for name, left, right, _ in s.assocs:
        tables[name] = sa.Table(
            name, meta, sa.Column('left', types[s.tables[left].pk_type]),
            sa.Column('right', types[s.tables[right].pk_type]))

    roots = []
    for name, target, kind_, ids in s.roots:
        ref = TypeRef[target]
        type_ = {'one': ref, 'maybe': Optional[ref],
                 'many': Sequence[ref]}[kind_]
        roots.append(Link(name, type_, root_loader(kind, kind_, ids),
                          requires=None))
    fqs = {}

    def link_obj(node, ln):
        t = tables[ln.table]
        lq = link_cls(ln.db, from_column=t.c[ln.from_column],
                      to_column=t.c[ln.to_column])
        ref = TypeRef[ln.target]
        type_ = {'one': ref, 'maybe': Optional[ref],
                 'many': Sequence[ref]}[ln.kind]
        out = Link(ln.name, type_, lq, requires=ln.requires)
        return out

    def fields(node):
        t = tables[node.table]
        if node.alias == 'alias':
            t = t.alias('x_' + node.table)
        elif node.alias == 'select':
            t = sa.select([t]).alias('s_' + node.table)
        elif node.alias == 'filter':
            t = sa.select([t]).where(
                t.c.id.notin_([v for v in FILTERED if isinstance(v, int) ==
                               isinstance(t.c.id.type, sa.Integer)])
            ).alias('f_' + node.table)
        if node.join is not None:
            fk, other, _ = node.join
            key = t.c.id
            t = t.outerjoin(tables[other], t.c[fk] == tables[other].c.id)
            fq = fields_cls(node.db, t, primary_key=key)
        elif node.key == 'id':
            fq = fields_cls(node.db, t)
        else:
            fq = fields_cls(node.db, t, primary_key=t.c[node.key])
        out = [Field(c, None, fq) for c in node.fields]
        fqs[node.name] = (fq, out)
        return out
    if not high:
        graph = Graph([Node(n.name, fields(n) + [link_obj(n, ln) for ln in
                                                 n.links.values()])
                       for n in s.nodes.values()] + [Root(roots)])
    else:
        low = Graph([Node(n.name, fields(n)) for n in s.nodes.values()])
        out = []
        for n in s.nodes.values():
            sg = SubGraph(low, n.name)
            out.append(Node(n.name, [Field(c, None, sg) for c in n.fields] +
                            [link_obj(n, ln) for ln in n.links.values()]))
        graph = Graph(out + [Root(roots)])
    return graph, meta, fqs


def root_loader(kind, link_kind, ids):
    from hiku.graph import Nothing
    if link_kind == 'many':
        value = list(ids)
    else:
        value = ids[0] if ids else Nothing

    def load():
        return value

    async def aload():
        return value
    return load if kind == 'sa' else aload


class Db:
    """one run's databases, drivers and graph"""

    def __init__(self, run, sim, s, kind, high, fault, size):
        ch = run.ch
        self.sim = sim
        self.ledger = Ledger(run, sim.world.bad)
        self.ledger.current_exec = sim.world.current
        self.graph, self.meta, self.fqs = \
            build(s, kind, Watch(self.ledger), high)
        rows = {t.name: t.rows for t in s.tables.values()}
        for name, left, right, pairs in s.assocs:
            rows[name] = [{'left': a, 'right': b} for a, b in pairs]
        self.dbs = []
        self.ctx = {}
        self.servers = []
        LOADS.clear()
        pauses = ch.pick((30, 0, 80))
        names = sorted({n.db for n in s.nodes.values()} |
                       {ln.db for n in s.nodes.values()
                        for ln in n.links.values()})
        for name in names:
            used = {n.table for n in s.nodes.values() if n.db == name} | \
                {n.join[1] for n in s.nodes.values() if n.db == name and
                 n.join is not None} | \
                {ln.table for n in s.nodes.values()
                 for ln in n.links.values() if ln.db == name}
            # what is not in a database is seen to be missing
            data = {t: r if t in used else [] for t, r in rows.items()}
            db = Database(self.meta, data,
                          ch.pick(('table', 'reverse', 'random')),
                          ch.below(100))
            self.dbs.append(db)
            server = Server(run, self.ledger, db, size, pauses, fault)
            server.short = ch.pick((0, 0, 40))
            self.servers.append(server)
            self.ctx[name] = ENGINES[kind](server)

    def close(self):
        LOADS.clear()
        for db in self.dbs:
            db.close()


def chunk_size(ch, kind, big):
    """the configured size of a chunk, or a small one"""
    src = SOURCES[kind]
    if kind == 'sa' or not hasattr(src, 'FETCH_SIZE'):
        return None
    if big:
        return None
    return ch.pick((None, 2, 1, 3))


class ChunkSize:

    def __init__(self, kind, size):
        self.src = SOURCES[kind]
        self.size = size

    def __enter__(self):
        if self.size is not None:
            self.old = self.src.FETCH_SIZE
            self.src.FETCH_SIZE = self.size

    def __exit__(self, *exc):
        if self.size is not None:
            self.src.FETCH_SIZE = self.old


def modes_of(kind):
    return ('threads', 'sync') if kind == 'sa' else ('async',)


# -- C10 --------------------------------------------------------------------

def c10(run):
    ch = run.ch
    kind = ch.pick(('sa', 'aiopg', 'asyncio'))
    mode = ch.pick(modes_of(kind))
    big = ch.chance(12)
    s = gen_spec(ch, kind, big, ch.pick((('db',), ('db', 'other'))))
    sim = Sim(run, mode)
    size = chunk_size(ch, kind, big)
    high = ch.chance(20)
    db = Db(run, sim, s, kind, high, lambda step: None, ch.pick((64, 1, 2)))
    run.probe('source:' + kind)
    run.probe('big tables' if big else 'small tables')
    ref = Ref(s)
    try:
        with ChunkSize(kind, size):
            if ch.chance(30):
                c10_direct(run, sim, s, db, ref, kind)
            else:
                c10_query(run, sim, s, db, ref)
        sim.world.check()
    finally:
        db.close()


def c10_query(run, sim, s, db, ref):
    ch = run.ch
    jobs = []
    for i in range(ch.pick((1, 1, 2, 3))):
        items = gen_query(ch, s, ref)
        jobs.append(Job(Exec(i, db.ctx), db.graph, merged_query(items), items,
                        None, db.ctx))
    run.note = {'queries': [repr(j.items) for j in jobs]}
    run_stages(sim, [jobs])
    sim.world.check()
    run.nontrivial = len(db.ledger.loads) > 1
    if len(db.ledger.loads) > 1:
        run.probe('several loads')
    for job in jobs:
        try:
            want = ref.root(job.items)
        except Missing:
            # exactly one object was promised and there is none
            run.probe('missing object of a link to one')
            if job.outcome[0] != 'error':
                raise Violation('missing-row', 'a link to exactly one object '
                                'has no row and the query succeeds')
            continue
        if job.outcome[0] == 'error':
            raise Violation('unexpected-error:' +
                            type(job.outcome[1]).__name__,
                            short_tb(job.outcome[1]))
        try:
            got = denormalize(db.graph, job.outcome[1])
        except Exception as e:
            raise Violation('result-unreadable', short_tb(e))
        d = diff(normal(got, s, job.items, None), want)
        if d:
            raise Violation('wrong-result', d)


def c10_direct(run, sim, s, db, ref, kind):
    """the sources called as the engine does, with lists of our own"""
    ch = run.ch
    run.nontrivial = True
    run.probe('direct calls')
    calls = []
    for i in range(ch.between(1, 3)):
        node = ch.pick(list(s.nodes.values()))
        t = s.tables[node.table]
        if node.links and ch.chance(60):
            link = ch.pick(list(node.links.values()))
            have = [ref.value(node, r[node.key], link.requires)
                    for r in t.rows]
            type_ = dict(t.columns)[link.requires]
            values = pick_ids(ch, have, type_)
            if ch.chance(20):
                values.insert(ch.below(len(values) + 1), None)
            calls.append(('link', node, link, values))
        else:
            type_ = 'str' if node.key == 'slug' else t.pk_type
            ids = pick_ids(ch, [r[node.key] for r in t.rows], type_)
            names = ch.subset(node.fields)
            calls.append(('fields', node, names, ids))
    ctx = Context(db.ctx)
    out = []

    def fn(call):
        if call[0] == 'fields':
            fq, fields = db.fqs[call[1].name]
            by_name = {f.name: f for f in fields}
            return fq, ([by_name[n] for n in call[2]], list(call[3]))
        node = db.graph.nodes_map[call[1].name]
        return node.fields_map[call[2].name].func, (list(call[3]),)

    if sim.mode == 'async':
        async def main(sim):
            async def one(call):
                f, args = fn(call)
                try:
                    return ('ok', await f(ctx, *args))
                except Exception as e:
                    return ('error', e)
            tasks = [sim.loop.create_task(one(c)) for c in calls]
            await asyncio.wait(tasks)
            return [t.result() for t in tasks]
        results = sim.start(main)
    else:
        results = [None] * len(calls)

        def one(i):
            f, args = fn(calls[i])
            try:
                results[i] = ('ok', f(ctx, *args))
            except (Violation, HarnessError):
                raise
            except Exception as e:
                results[i] = ('error', e)

        def main(sim):
            if sim.sched is None:
                for i in range(len(calls)):
                    one(i)
            else:
                sim.sched.join([sim.sched.spawn(lambda i=i: one(i),
                                                'c{}'.format(i))
                                for i in range(len(calls))])
        sim.start(main)
    sim.world.check()
    from hiku.graph import Nothing

    def listed(got, item):
        try:
            return [item(x) for x in got]
        except TypeError:
            raise Violation('wrong-load', 'the load returned {!r}'.format(got))
    for call, (how, got) in zip(calls, results):
        node = call[1]
        if call[0] == 'fields':
            want = [[ref.value(node, i, c) for c in call[2]] for i in call[3]]
            if how == 'ok':
                got = listed(got, lambda row: listed(row, lambda v: v))
        else:
            link = call[2]
            try:
                want = [ref.follow(link, v) for v in call[3]]
            except Missing:
                if how != 'error':
                    raise Violation('missing-row', 'a link to exactly one '
                                    'object has no row and the load succeeds')
                continue
            if how == 'ok':
                got = listed(got, lambda v: None if v is Nothing else v)
                if link.kind == 'many':
                    want = [by_text(v) for v in want]
                    got = listed(got, by_text)
        if how == 'error':
            raise Violation('unexpected-error:' + type(got).__name__,
                            short_tb(got))
        d = diff(got, want)
        if d:
            raise Violation('wrong-load', '{} of {}: {}'.format(
                call[0], call[3], d))


# -- C11 --------------------------------------------------------------------

ERRORS = (DbError, DbDriverError, OSError, asyncio.TimeoutError, KeyError,
          RuntimeError, StopAsyncIteration, ConnectionResetError, IndexError,
          AttributeError, TypeError, LookupError,
          psycopg2.OperationalError, psycopg2.InterfaceError,
          sa.exc.TimeoutError, sa.exc.OperationalError,
          sqlite3.ProgrammingError)
# what drivers and libraries raise for a connection which is gone
GONE = {sqlite3.ProgrammingError: ('Cannot operate on a closed database.',),
        psycopg2.OperationalError: ('server closed the connection '
                                    'unexpectedly',),
        psycopg2.InterfaceError: ('connection already closed',)}


def make_error(cls, n):
    if cls is sa.exc.OperationalError:
        return cls('select', {}, DbError('fault {}'.format(n)),
                   connection_invalidated=True)
    return cls(*GONE.get(cls, ('fault {}'.format(n),)))


def caused_by(e, faults):
    for f in faults:
        if e is f or getattr(e, 'orig', None) is f:
            return True
        # asyncio turns a StopAsyncIteration of a coroutine into this
        if isinstance(e, RuntimeError) and e.__cause__ is f:
            return True
    return False


def c11(run):
    ch = run.ch
    kind = ch.pick(('aiopg', 'asyncio', 'sa'))
    mode = ch.pick(modes_of(kind))
    s = gen_spec(ch, kind, False, ch.pick((('db',), ('db', 'other'))))
    sim = Sim(run, mode)
    size = chunk_size(ch, kind, False)
    plan = ch.pick(('fault', 'cancel', 'cancel', 'both', 'fault', 'none')) \
        if mode == 'async' else ch.pick(('fault', 'fault', 'fault', 'none'))
    early = ch.pick((4, 12, 30))
    at = {ch.below(early) for _ in range(ch.between(1, 2))} \
        if plan in ('fault', 'both') else set()
    only = ch.pick((None, 'acquire', 'execute', 'fetch')) if at else None
    state = {'n': 0, 'off': False}
    faults = []

    def fault(step):
        if only is not None and step != only:
            return None
        state['n'] += 1
        if state['n'] - 1 in at and not state['off']:
            cls = ch.pick(ERRORS)
            if cls is AttributeError and step == 'fetch' and kind != 'asyncio':
                cls = DbError     # has a meaning inside of the libraries
            if cls is StopAsyncIteration and (kind == 'sa' or
                                              step == 'fetch'):
                cls = DbError     # ends a loop over the rows
            if cls is sqlite3.ProgrammingError and kind == 'sa':
                cls = DbError     # SQLAlchemy reconnects by itself
            e = make_error(cls, len(faults))
            faults.append(e)
            ld = db.ledger.current()
            hit.append(ld)
            run.fault('db error at ' + step)
            run.log('fault', step, type(e).__name__)
            return e
        return None
    hit = []
    db = Db(run, sim, s, kind, ch.chance(20), fault, ch.pick((1, 2, 3, 64)))
    run.probe('source:' + kind)
    ref = Ref(s)
    try:
        with ChunkSize(kind, size):
            c11_body(run, sim, s, db, ref, plan, faults, hit, state)
    finally:
        db.close()


def c11_body(run, sim, s, db, ref, plan, faults, hit, state):
    ch = run.ch
    jobs = []
    for i in range(ch.pick((1, 1, 2, 3))):
        items = gen_query(ch, s, ref)
        jobs.append(Job(Exec(i, db.ctx), db.graph, merged_query(items), items,
                        None, db.ctx))
    run.note = {'queries': [repr(j.items) for j in jobs], 'plan': plan}
    cancelled = []

    def extra(sim, jobs, tasks):
        if plan not in ('cancel', 'both') or jobs is last:
            for srv in db.servers:
                srv.on_wait = None
            return
        if ch.chance(60):
            state['wait'] = ch.below(ch.pick((3, 10, 25)))
            spins = ch.below(3)

            def on_wait(step):
                state['wait'] -= 1
                ld = db.ledger.current()
                if state['wait'] != -1 or ld is None:
                    return
                job = [j for j in jobs if j.exec is ld.exec][0]

                def hit(n):
                    if n:
                        sim.loop.call_soon(hit, n - 1)
                    elif not job.task.done():
                        job.task.cancel()
                        cancelled.append(job)
                        run.fault('cancelled at ' + step)
                sim.loop.call_soon(hit, spins)
            for srv in db.servers:
                srv.on_wait = on_wait
            return
        for i in range(ch.between(1, len(jobs))):
            job = jobs[i]
            after = ch.pick((0.5, 0.0, 0.25, 1.0, 2.0, 4.0))
            spins = ch.below(12)

            async def canceller(job=job, after=after, spins=spins):
                while job.began is None:
                    await asyncio.sleep(0)
                if after:
                    await asyncio.sleep(after)
                for _ in range(spins):
                    await asyncio.sleep(0)
                if not job.task.done():
                    # not before the execution itself has begun
                    job.task.cancel()
                    cancelled.append(job)
                    run.fault('cancelled')
            sim.loop.create_task(canceller())

    stages = [jobs]
    # afterwards everything works
    items = gen_query(ch, s, ref)
    last = [Job(Exec(9, db.ctx), db.graph, merged_query(items), items, None,
                db.ctx)]
    stages.append(last)

    def after(job):
        pass

    def stop_faults():
        state['off'] = True
    stages_run(sim, stages, extra, stop_faults)
    sim.world.check()
    db.ledger.finish()
    sim.world.check()
    for srv in db.servers:
        if srv.free != srv.size:
            raise Violation('connection-leak', '{} connections of {} are left '
                            'in the pool'.format(srv.free, srv.size))
    run.nontrivial = bool(faults or cancelled)
    for job in jobs + last:
        how, value = job.outcome if job.outcome else ('error', None)
        mine = [f for f, ld in zip(faults, hit)
                if ld is not None and ld.exec is job.exec]
        try:
            want = ref.root(job.items)
        except Missing:
            want = None
        if how == 'ok':
            if mine:
                raise Violation('error-swallowed', '{!r} of the database does '
                                'not reach the caller'.format(mine[0]))
            if want is None:
                continue     # C10
            try:
                got = denormalize(db.graph, value)
            except Exception as e:
                raise Violation('result-unreadable', short_tb(e))
            d = diff(normal(got, s, job.items, None), want)
            if d:
                raise Violation('wrong-result', d)
        elif isinstance(value, asyncio.CancelledError):
            if job not in cancelled:
                raise Violation('unexpected-error:CancelledError',
                                'nobody cancelled this execution')
        elif mine:
            if not caused_by(value, mine) and want is not None:
                raise Violation('error-replaced', '{!r} instead of the error '
                                'of the database {!r}'.format(value, mine))
        elif want is not None:
            raise Violation('unexpected-error:' + type(value).__name__,
                            short_tb(value))


def stages_run(sim, stages, extra, between):
    """run_stages, with a call before the last stage"""
    if sim.mode == 'async':
        def hook(sim, jobs, tasks):
            if jobs is stages[-1]:
                between()
            extra(sim, jobs, tasks)
        run_stages(sim, stages, extra=hook)
    else:
        orig = sim.execute

        def execute(graph, query, exec_):
            if exec_ is stages[-1][0].exec:
                between()
            return orig(graph, query, exec_)
        sim.execute = execute
        run_stages(sim, stages)
