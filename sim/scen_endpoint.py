"""C12: GraphQL endpoints - requests of all kinds, batches, concurrency."""
import asyncio

from functools import partial

from hiku.endpoint.graphql import (GraphQLEndpoint, BatchGraphQLEndpoint,
                                   AsyncGraphQLEndpoint,
                                   AsyncBatchGraphQLEndpoint)

from .core import Violation, canon, short_tb
from .gen import (Config, GraphSpec, gen_graph, gen_node, QueryGen, gen_query,
                  Item, OPTVALS, REQUIRED)
from .gql import Renderer, literal
from .harness import Sim, check_loads, diff
from .intro import Schema, gen_root, unordered
from .model import (Obj, Loads, merged, link_objects, value_of)
from .multi import Job
from .scen_shared import schedule, nested, STYLES, NESTED, MODE, GAPS
from .world import Exec, LoadError


class EndSim(Sim):
    """'executes' requests: the query of a job is the data for dispatch()"""
    batch = False
    graphs = None
    _engine = None
    endpoint = None

    @property
    def engine(self):
        return self._engine

    @engine.setter
    def engine(self, engine):
        self._engine = engine
        if engine is not None:
            cls = {(False, False): GraphQLEndpoint,
                   (False, True): BatchGraphQLEndpoint,
                   (True, False): AsyncGraphQLEndpoint,
                   (True, True): AsyncBatchGraphQLEndpoint}[
                       self.mode == 'async', self.batch]
            self.endpoint = cls(engine, *self.graphs)

    def execute(self, graph, query, exec_):
        if self.mode == 'async':
            return self._aexecute(graph, query, exec_)
        if self.sched is not None:
            self.sched.me().exec = exec_
        else:
            from .aioloop import EXEC
            EXEC.set(exec_)
        return self.endpoint.dispatch(query)

    async def _aexecute(self, graph, query, exec_):
        from .aioloop import EXEC
        EXEC.set(exec_)
        return await self.endpoint.dispatch(query)


# -- graphs -----------------------------------------------------------------

VALUES = {
    'Any': (1, 'z', None, [1], {'k': 1}),
    'Boolean': (True, False),
    'String': ('', 'z', 'é "q" \\ \n'),
    'Integer': (0, -1, -2, 2 ** 61 - 1),
    'Float': (1.0, -2.5, 0.0),
    'Optional[String]': (None, '', 'z'),
    'Sequence[Integer]': ([], [1, -1], [0]),
    'Sequence[Optional[String]]': ([], [None, 'a'], ['b']),
    'Mapping[String, Integer]': ({}, {'k': 1}, {'k': -1, 'j': 2}),
}
WRONG = {
    'Boolean': (1, 'true', None, []),
    'String': (1, None, ['z'], True),
    'Integer': ('1', None, 1.5, [1]),
    'Float': ('1', None, [1.0]),
    'Optional[String]': (1, ['z']),
    'Sequence[Integer]': (1, ['a'], [None], None, [1, 'b']),
    'Sequence[Optional[String]]': (1, [1], ['a', 2]),
    'Mapping[String, Integer]': (1, {'k': 'v'}, {'k': 1, 'j': None}, [1]),
}
DECLS = ('Any', 'Boolean', 'String', 'Integer', 'Float', 'Optional[String]',
         'Sequence[Integer]', 'Sequence[Optional[String]]',
         'Optional[Sequence[String]]', 'Mapping[String, Integer]')


def rec_values(g, rec):
    fields = g.records[rec]
    if any(t is not None for t in fields.values()):
        return None
    return [{f: v for f in fields} for v in (1, 'z', None)]


def decorate(ch, g, node, percent):
    """declared types and descriptions"""
    if node.name is not None and ch.chance(percent):
        node.descr = 'about "{}"'.format(node.name)
    for it in node.items.values():
        if ch.chance(percent):
            it.descr = 'field {}'.format(it.name)
        if not it.link and it.ctype is None and ch.chance(percent):
            it.decl = ch.pick(DECLS)
        for o in it.options:
            if ch.chance(percent):
                o.descr = 'option {}'.format(o.name)
            if not ch.chance(percent):
                continue
            if g.records and ch.chance(25):
                rec = ch.pick(sorted(g.records))
                vals = rec_values(g, rec)
                if vals is None:
                    continue
                o.type = ('rec', rec)
                o.values = vals
            else:
                o.type = ch.pick(sorted(VALUES))
                o.values = VALUES[o.type]
            if o.default is not REQUIRED:
                o.default = ch.pick(o.values)


# -- valid requests ---------------------------------------------------------

def strip(items):
    """without the items answered from the description of the graph"""
    out = []
    for it in items:
        if it.name.startswith('__'):
            continue
        out.append(Item(it.name, it.opts, it.alias,
                        None if it.sub is None else strip(it.sub)))
    return out


def answer(obj, items, tname, schema):
    out = {}
    for key, it in merged(items).items():
        if it.name == '__typename':
            out[key] = tname
        elif it.name.startswith('__'):
            out[key] = schema.root(it)
        else:
            spec = obj.node.items[it.name]
            if spec.link:
                v = link_objects(obj, spec, it.opts)
                if spec.kind == 'many':
                    out[key] = [answer(o, it.sub, spec.target, schema)
                                for o in v]
                else:
                    out[key] = None if v is None else answer(
                        v, it.sub, spec.target, schema)
            else:
                v = value_of(obj, spec, it.opts)
                out[key] = v if it.sub is None else record(
                    v, spec.ctype, it.sub, obj.g)
    return out


def record(value, ctype, items, g):
    kind, rec = ctype
    if kind == 'seq':
        return [record(v, ('rec', rec), items, g) for v in value]
    if value is None:
        return None
    out = {}
    for key, it in merged(items).items():
        if it.name == '__typename':
            out[key] = rec
        elif it.sub is None:
            out[key] = value[it.name]
        else:
            out[key] = record(value[it.name], g.records[rec][it.name], it.sub,
                              g)
    return out


def add_typenames(ch, items, percent, top=True):
    for it in items:
        if it.sub is not None and not it.name.startswith('__'):
            add_typenames(ch, it.sub, percent, False)
    if ch.chance(percent):
        items.insert(ch.below(len(items) + 1), Item(
            '__typename', None, ch.pick((None, None, 't'))))


def places(g, node, items, out=None):
    """[(selection, node spec | None, record name | None)]"""
    out = [] if out is None else out
    out.append((items, node, None))
    for it in items:
        if it.sub is None or it.name.startswith('__'):
            continue
        spec = node.items[it.name]
        if spec.link:
            places(g, g.nodes[spec.target], it.sub, out)
        else:
            rec_places(g, spec.ctype[1], it.sub, out)
    return out


def rec_places(g, rec, items, out):
    out.append((items, None, rec))
    for it in items:
        if it.sub is not None:
            rec_places(g, g.records[rec][it.name][1], it.sub, out)


def repeated(items):
    """whether a selection names a key twice"""
    keys = [it.key for it in items]
    return len(set(keys)) < len(keys) or any(
        repeated(it.sub) for it in items if it.sub)


def option_specs(g, node, items, out):
    for it in items:
        if it.name.startswith('__'):
            continue
        spec = node.items[it.name]
        for o in spec.options:
            out[id(it), o.name] = o
        if spec.link:
            option_specs(g, g.nodes[spec.target], it.sub, out)


def with_options(items, chosen):
    out = []
    for it in items:
        opts = it.opts
        if opts:
            opts = {k: chosen.get((id(it), k), v) for k, v in opts.items()}
        out.append(Item(it.name, opts, it.alias, None if it.sub is None
                        else with_options(it.sub, chosen)))
    return out


class Request:
    valid = True
    items = kind = g = None
    what = 'query'

    def __init__(self, data):
        self.data = data

    def expected(self, schema):
        return {'data': answer(Obj(self.g, self.g.root, None, {}), self.items,
                               'Query' if self.kind == 'query' else 'Mutation',
                               schema)}


class Maker:

    def __init__(self, run, cfg, g, m, schema):
        self.run = run
        self.ch = run.ch
        self.cfg = cfg
        self.g = g
        self.m = m
        self.schema = schema
        self.names = run.ch.pick((0, 30))
        self.pool = []

    def request(self):
        ch = self.ch
        if self.pool and ch.chance(70):
            return ch.pick(self.pool)()
        if ch.chance(15):
            more = ch.pick((self.operations, self.variants))()
            if more:
                self.pool = more
                return ch.pick(more)()
        kind = 'query'
        if self.m is not None and ch.chance(30):
            kind = 'mutation'
        g = self.m if kind == 'mutation' else self.g
        items = gen_query(ch, self.cfg, g, ch.pick((4, 10)))
        how = ch.weighted(((6, 'valid'), (2, 'intro'), (4, 'invalid'),
                           (1, 'typename')))
        if how == 'typename':
            items = [Item('__typename')]
        if how == 'intro':
            intro = [gen_root(ch, self.schema, i)
                     for i in range(ch.between(1, 2))]
            items = intro if ch.chance(50) else items + intro
            if kind == 'mutation' and ch.chance(70):
                kind, g = 'query', self.g
                items = intro
        if how == 'invalid':
            return self.invalid(kind, g, items)
        if how != 'typename' and self.names:
            add_typenames(ch, items, self.names)
        r = self.render(items, kind)
        r.items, r.kind, r.g = items, kind, g
        r.what = how if how != 'valid' else kind
        return r

    def plain(self):
        """items of a valid query or mutation"""
        ch = self.ch
        kind = 'query'
        if self.m is not None and ch.chance(40):
            kind = 'mutation'
        g = self.m if kind == 'mutation' else self.g
        items = gen_query(ch, self.cfg, g, ch.pick((2, 6)))
        if self.names:
            add_typenames(ch, items, self.names)
        return kind, g, items

    def operations(self):
        """a document of several operations, each of them asked for"""
        ch = self.ch
        texts, all_vars, ops = [], {}, []
        for i in range(ch.between(2, 3)):
            kind, g, items = self.plain()
            name = 'Op{}'.format(i)
            text, vars_ = Renderer(ch, prefix='abc'[i]).operation(
                items, kind, name)
            texts.append(text)
            all_vars.update(vars_)
            ops.append((name, kind, g, items))
        text = ' '.join(texts)

        def make(name, kind, g, items):
            data = {'query': text, 'variables': dict(all_vars),
                    'operationName': name}
            r = Request(data)
            r.items, r.kind, r.g = items, kind, g
            r.what = 'one of several operations'
            return r
        return [partial(make, *op) for op in ops]

    def variants(self):
        """one document with different variables"""
        ch = self.ch
        kind, g, items = self.plain()
        rd = Renderer(ch, vars_=80)
        rd.reuse = False        # each option has its own variable
        text, vars_ = rd.operation(items, kind)
        names = [n for n in sorted(rd.origins) if not n.startswith('_')]
        if not names or repeated(items):
            return None
        specs = {}
        option_specs(g, g.root, items, specs)

        def make(change):
            chosen = {}
            data = {'query': text, 'variables': dict(vars_)}
            for n in names if change else ():
                it, opt, nullable = rd.origins[n]
                o = specs.get((id(it), opt))
                if o is None or not ch.chance(60):
                    continue
                v = ch.pick(OPTVALS if o.values is None else o.values)
                if v is None and not nullable:
                    continue
                chosen[id(it), opt] = v
                data['variables'][n] = v
            r = Request(data)
            r.items, r.kind, r.g = with_options(items, chosen), kind, g
            r.what = 'one document with other variables'
            return r
        return [partial(make, True), partial(make, True), partial(make, False)]

    def render(self, items, kind, **kw):
        ch = self.ch
        how = ch.below(6)
        text, variables = Renderer(ch, **kw).operation(
            items, kind, None if how == 5 else 'Op')
        data = {'query': text}
        if variables and ch.chance(15):
            variables = dict(variables, notUsed=77)
        if variables or ch.chance(20):
            data['variables'] = variables
        elif ch.chance(20):
            data['variables'] = None
        if how == 1:
            data['operationName'] = None
        elif how == 2:
            data['operationName'] = 'Op'
        elif how == 3:
            # other operations of the document are not executed
            other = ch.pick(('query Other { nope }', 'mutation Other { nope }',
                             'subscription Other { nope }',
                             'query Other($x: Any!) { nope(x: $x) }'))
            data['query'] = ' '.join(ch.pick(((other, text), (text, other))))
            data['operationName'] = 'Op'
        return Request(data)

    # -- requests that must not run ----------------------------------------

    def invalid(self, kind, g, items):
        ch = self.ch
        for _ in range(8):
            how = ch.pick(INVALID)
            r = getattr(self, 'bad_' + how)(kind, g, items)
            if r is not None:
                r.valid = False
                r.what = 'invalid: ' + how
                return r
        r = self.bad_unknown_field(kind, g, items)
        r.valid = False
        r.what = 'invalid: unknown_field'
        return r

    def put(self, sel, item):
        sel.insert(self.ch.below(len(sel) + 1), item)

    def bad_unknown_field(self, kind, g, items):
        sel, node, rec = self.ch.pick(places(g, g.root, items))
        self.put(sel, Item('nope', None, self.ch.pick((None, 'al'))))
        return self.render(items, kind)

    def bad_unknown_link(self, kind, g, items):
        sel, node, rec = self.ch.pick(places(g, g.root, items))
        self.put(sel, Item('nope', None, None, [Item('x')]))
        return self.render(items, kind)

    def node_place(self, g, items, fits):
        """a selection of a node, and one of its items that fits"""
        found = []
        for sel, node, rec in places(g, g.root, items):
            if node is not None:
                for spec in node.items.values():
                    if fits(spec):
                        found.append((sel, node, spec))
        return self.ch.pick(found) if found else None

    def opts(self, spec):
        out = {o.name: self.ch.pick(o.values or (1, 'z'))
               for o in spec.options if o.default is REQUIRED}
        return out or None

    def bad_field_as_node(self, kind, g, items):
        if self.ch.chance(20):
            sel, node, rec = self.ch.pick(places(g, g.root, items))
            self.put(sel, Item('__typename', None, self.ch.pick((None, 'al')),
                               [Item('x')]))
            return self.render(items, kind)
        p = self.node_place(g, items, lambda s: not s.link and s.ctype is None)
        if p is None:
            return None
        self.put(p[0], Item(p[2].name, self.opts(p[2]), 'al', [Item('x')]))
        return self.render(items, kind)

    def bad_link_as_field(self, kind, g, items):
        p = self.node_place(g, items, lambda s: s.link)
        if p is None:
            return None
        self.put(p[0], Item(p[2].name, self.opts(p[2]), 'al'))
        return self.render(items, kind)

    def whole(self, g, spec, opts):
        """an item for the spec, otherwise valid"""
        sub = None
        if spec.link:
            sub = [Item('__typename')]
        elif spec.ctype is not None:
            sub = [Item(sorted(g.records[spec.ctype[1]])[0])]
            if g.records[spec.ctype[1]][sub[0].name] is not None:
                sub = [Item('__typename')]
        return Item(spec.name, opts, 'al', sub)

    def bad_missing_option(self, kind, g, items):
        p = self.node_place(g, items, lambda s: any(
            o.default is REQUIRED for o in s.options))
        if p is None:
            return None
        opts = self.opts(p[2])
        drop = self.ch.pick(sorted(opts))
        del opts[drop]
        self.put(p[0], self.whole(g, p[2], opts))
        return self.render(items, kind)

    def bad_unknown_option(self, kind, g, items):
        p = self.node_place(g, items, lambda s: True)
        opts = dict(self.opts(p[2]) or {}, nope=self.ch.pick((1, None, 'z')))
        self.put(p[0], self.whole(g, p[2], opts))
        return self.render(items, kind)

    def bad_option_type(self, kind, g, items):
        def typed(o):
            return o.type in WRONG or isinstance(o.type, tuple)
        p = self.node_place(g, items, lambda s: any(
            typed(o) for o in s.options))
        if p is None:
            return None
        opts = self.opts(p[2]) or {}
        o = self.ch.pick([o for o in p[2].options if typed(o)])
        if isinstance(o.type, tuple):
            good = self.ch.pick(o.values)
            wrong = self.ch.pick(('z', None, dict(good, more=1),
                                  dict(list(good.items())[1:])))
        else:
            wrong = self.ch.pick(WRONG[o.type])
        opts[o.name] = wrong
        self.put(p[0], self.whole(g, p[2], opts))
        return self.render(items, kind)

    def bad_record_field(self, kind, g, items):
        found = [(sel, rec) for sel, node, rec in places(g, g.root, items)
                 if rec is not None]
        if not found:
            return None
        sel, rec = self.ch.pick(found)
        fields = g.records[rec]
        name = self.ch.pick(sorted(fields))
        how = self.ch.below(3)
        if how == 0 and fields[name] is None:
            self.put(sel, Item(name, {'o': 1}, 'al'))
        elif how == 1 and fields[name] is None:
            self.put(sel, Item(name, None, 'al', [Item('x')]))
        elif fields[name] is not None:
            self.put(sel, Item(name, None, 'al'))
        else:
            return None
        return self.render(items, kind)

    def bad_same_key(self, kind, g, items):
        found = []
        for sel, node, rec in places(g, g.root, items):
            for it in sel:
                if it.name == '__typename':
                    pass
                elif it.name.startswith('__'):
                    continue
                else:
                    found.append((sel, it, Item('__typename', None, it.key)))
                if node is not None:
                    others = [(spec.name, self.whole(g, spec, self.opts(spec)))
                              for spec in node.items.values()]
                else:
                    others = [(name, Item(name, None, None, None if typ is None
                                          else [Item('__typename')]))
                              for name, typ in g.records[rec].items()]
                for name, other in others:
                    if name != it.name:
                        other.alias = it.key
                        found.append((sel, it, other))
        if not found:
            return None
        sel, it, other = self.ch.pick(found)
        self.put(sel, other)
        return self.render(items, kind, frags=0)

    def bad_unsupported(self, kind, g, items):
        if self.m is None and self.ch.chance(60):
            return self.render(items, 'mutation')
        return self.render(items, 'subscription')

    def bad_document(self, kind, g, items):
        ch = self.ch
        r = self.render(items, kind)
        r.data.pop('operationName', None)
        text, variables = Renderer(ch).operation(items, kind)
        how = ch.below(14)
        r.data = {'query': text, 'variables': variables}
        name = items[0].name
        if how == 0:
            r.data['query'] = ' '.join(ch.pick((
                (text, 'query Other { nope }'),
                ('query Other { nope }', text),
                ('{ __typename }', text))))
        elif how == 1:
            r.data['query'] = text + ' query Op { __typename }'
            r.data['operationName'] = ch.pick(('Op', None))
        elif how == 2:
            r.data['query'] = (
                '%s A { %s ...Fr } fragment Fr on Any { ...Fr2 } '
                'fragment Fr2 on Any { ...Fr }' % (kind, name))
        elif how == 3:
            r.data = {'query': '%s A($x: Any!) { %s(o: $x) }' % (kind, name),
                      'variables': ch.pick(({}, None, {'y': 1}))}
        elif how == 4:
            r.data = {'query': '%s A { %s(o: $x) }' % (kind, name),
                      'variables': {'x': 1}}
        elif how == 5:
            d = ch.pick(('@skip', '@skip(unless: true)', '@include',
                         '@include(unless: true)',
                         '@skip(if: true, unless: true)'))
            r.data = {'query': '%s A { %s %s __typename }' % (kind, name, d)}
        elif how == 8:
            r.data['operationName'] = ch.pick(('Nope', 'op', name))
        elif how == 9:
            r.data = {'query': ch.pick((
                '%s A { %s ...Fr }', '%s A { ...Fr %s }',
                '%s A { %s ...Fs } fragment Fs on Any { __typename ...Fr }'))
                % (kind, name)}
        elif how == 12:
            r.data = ch.pick((
                {}, {'variables': variables}, {'operationName': 'Op'},
                {'Query': text}, {'mutation': text}, None, text, 7, True))
        elif how == 13:
            # type definitions are not meant for a server
            other = ch.pick(('type A { a: Int }', 'schema { query: A }',
                             'directive @x on FIELD', 'scalar B',
                             'extend type A { a: Int }', 'union C = A | B',
                             'enum D { E }', 'input F { a: Int }',
                             'interface G { a: Int }'))
            r.data['query'] = ch.pick((other, text + ' ' + other,
                                       other + ' ' + text))
        elif how >= 10:
            # not a document at all, or not all of it
            bad = ch.pick(('', ' ', '{', '}', text[:-1], text + ' }',
                           text.replace('{', '{ {', 1), text + ' {',
                           text + ' "', '%s {' % kind, '{ %s( }' % name,
                           '%s %s' % (kind, name), '{ }', '# ' + text,
                           '{ %s(o: ) }' % name, '{ ...  }', '{ %s\x00 }' % name,
                           '[:%s]' % name, 'null', text + ' nope', None, 7))
            r.data = {'query': bad, 'variables': variables}
        elif how == 6:
            r.data = {'query': '%s A { __typename ...Fr } fragment Fr on Any '
                               '{ %s } fragment Fr on Any { nope }'
                      % (kind, name)}
        else:
            r.data = {'query': 'fragment Fr on Any { %s }' % name}
        return r


INVALID = ('unknown_field', 'unknown_link', 'field_as_node', 'link_as_field',
           'missing_option', 'unknown_option', 'option_type', 'record_field',
           'same_key', 'unsupported', 'document')


class Combined:
    """the loads of several requests together"""

    def __init__(self, parts):
        self.parts = parts

    def real(self):
        return [x for p in self.parts for x in p.real()]


def loads_of(r):
    return Loads(r.g, strip(r.items), {}, ordered=r.kind == 'mutation')


def loads_of_job(j):
    return Combined([loads_of(r) for r in j.requests if r.valid])


def check_answer(r, got, schema):
    if not isinstance(got, dict):
        raise Violation('not-an-answer', '{!r} for {}'.format(got, r.data))
    if not r.valid:
        if got.get('data') is not None or not got.get('errors'):
            raise Violation('invalid-answered', '{} ({}) was answered with {}'
                            .format(r.data, r.what, canon(got)[:300]))
        for e in got['errors']:
            if not isinstance(e, dict) or not isinstance(e.get('message'),
                                                         str):
                raise Violation('not-an-answer', 'error {!r}'.format(e))
        return
    if got.get('errors'):
        raise Violation('valid-refused', '{} was answered with {}'.format(
            r.data, got['errors']))
    want = r.expected(schema)
    if r.what == 'intro' or any(i.name.startswith('__') and i.sub
                                for i in r.items):
        got, want = dict(got), dict(want)
        for it in r.items:
            if it.name.startswith('__') and it.sub and \
                    isinstance(got.get('data'), dict) and \
                    it.key in got['data']:
                got['data'] = dict(got['data'])
                got['data'][it.key] = unordered(got['data'][it.key])
                want['data'][it.key] = unordered(want['data'][it.key])
    d = diff(got, want, 'answer')
    if d:
        raise Violation('wrong-answer', '{} ({}): {}'.format(
            r.data['query'], r.what, d))


def check_order(job, r):
    """steps of a mutation that is alone in its dispatch"""
    steps = loads_of(r).steps
    funcs = {s.func.id for s in steps}
    calls = [c for c in job.exec.calls if c.func.id in funcs]
    for a, b in zip(calls, calls[1:]):
        if a.seq_end is None or a.seq_end > b.seq_submit:
            raise Violation('mutation-overlap', '{} started before {} '
                            'completed'.format(b, a))


def c12(run):
    ch = run.ch
    cfg = Config(ch, max_items=3, depth=2, ctx=0, large=ch.chance(1),
                 options=ch.pick((0, 30, 60)), complex=ch.pick((0, 40)))
    g = gen_graph(ch, cfg)
    typed = ch.pick((0, 50))
    m = None
    if ch.chance(70):
        m = GraphSpec('m', g.seed)
        m.nodes, m.records = g.nodes, g.records
        m.funcs = list(g.funcs)
        gen_node(ch, cfg, m, m.root)
    if typed:
        for node in [g.root] + list(g.nodes.values()) + \
                ([m.root] if m is not None else []):
            decorate(ch, g, node, typed)
    schema = Schema(g, m)
    style = NESTED if ch.chance(10) else ch.pick(STYLES)
    mode = MODE.get(style)
    if style in ('one after another', NESTED):
        mode = ch.pick(('sync', 'async', 'threads'))
    sim = EndSim(run, mode)
    world = sim.world
    sim.batch = ch.chance(50)
    sim.graphs = [world.graph(g)]
    if m is not None:
        sim.graphs.append(world.graph(m))
    make = Maker(run, cfg, g, m, schema)
    n = ch.between(1, 3)
    lot = False
    if not cfg.large and style != NESTED and not ch.below(150):
        lot = True
        if not sim.batch:
            n = ch.pick((20, 40, 70, 140) if mode != 'threads' else (20, 40))
        run.probe('a lot of requests')
    jobs = []
    for i in range(n):
        if lot and sim.batch:
            rs = [make.request() for _ in range(ch.pick(
                (10, 35, 70) if mode != 'threads' else (10, 20)))]
            data = [r.data for r in rs]
        elif sim.batch and ch.chance(70):
            rs = [make.request() for _ in range(ch.below(4))]
            data = [r.data for r in rs]
        else:
            rs = [make.request()]
            data = rs[0].data
        job = Job(Exec(i, {}), None, data, None, None, {})
        job.requests = rs
        job.is_batch = isinstance(data, list)
        if style not in ('one after another', NESTED):
            job.delay = ch.below(3)
        jobs.append(job)
    for j in jobs:
        for r in j.requests:
            run.probe(r.what)
    run.probe('style: ' + style)
    run.note = {'style': style, 'executor': mode, 'batching': sim.batch,
                'requests': [j.query for j in jobs]}
    run.nontrivial = n > 1 or len(jobs[0].requests) > 1
    victim = None
    state = {'hits': 0, 'cancelled': False}
    fault = ch.weighted(((6, None), (2, 'fail'), (1, 'cancel')))
    if n == 1 or style == NESTED or \
            (fault == 'cancel' and style != 'coroutines'):
        fault = None
    if fault:
        victim = ch.pick(jobs)
    if fault == 'fail':
        at = ch.below(4)
        seen = [0]

        def behave(call):
            if call.exec is victim.exec:
                seen[0] += 1
                if seen[0] == at + 1:
                    state['hits'] += 1
                    run.fault('a load fails')
                    return ('raise', LoadError('fault'))
            return None
        world.behave = behave
    if fault == 'cancel':
        after = ch.pick((0.25, 0.5, 1.0))

        def submitted(call):
            if call.exec is victim.exec and not state['cancelled']:
                state['cancelled'] = True
                run.fault('a dispatch is cancelled')
                sim.loop.call_later(after, lambda: victim.task.cancel())
        world.on_submit = submitted
    texts = {j: canon(j.query) for j in jobs}
    try:
        if style == NESTED:
            jobs = nested(run, sim, jobs, loads_of_job)
        else:
            schedule(run, sim, jobs, style)
    except Exception:
        world.check()
        raise
    world.check()
    for j in jobs:
        text = texts[j]
        if canon(j.query) != text:
            raise Violation('request-modified', '{} became {}'.format(
                text, canon(j.query)))
        check_job(run, j, j is victim, state, schema)
    for c in world.calls:
        if c.exec is None:
            raise Violation('stray-call', '{} belongs to no request'.format(c))


def check_job(run, j, victim, state, schema):
    kind, value = j.outcome
    disturbed = victim and (state['hits'] or state['cancelled'])
    if kind == 'error':
        if disturbed and isinstance(value, (LoadError,
                                            asyncio.CancelledError)):
            return
        raise Violation('dispatch-raised', '{}: {}'.format(
            [r.what for r in j.requests], short_tb(value)))
    answers = value if j.is_batch else [value]
    if j.is_batch and not isinstance(value, list):
        raise Violation('not-an-answer', 'a batch was answered with {!r}'
                        .format(value))
    if len(answers) != len(j.requests):
        raise Violation('batch-length', '{} answers for {} requests'.format(
            len(answers), len(j.requests)))
    if victim and state['hits']:
        if not any(isinstance(a, dict) and a.get('errors')
                   for r, a in zip(j.requests, answers) if r.valid):
            raise Violation('failure-lost', 'a load failed, the answers are {}'
                            .format(canon(answers)[:300]))
        return
    for r, a in zip(j.requests, answers):
        check_answer(r, a, schema)
    if victim and state['cancelled']:
        return
    check_loads(loads_of_job(j), j.exec.calls)
    if len(j.requests) == 1 and j.requests[0].valid and \
            j.requests[0].kind == 'mutation':
        check_order(j, j.requests[0])
