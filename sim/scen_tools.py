"""C22: reading, exporting, checking and building, from several threads."""
import copy
import datetime
import types
import uuid

from graphql.language.printer import print_ast

from hiku import edn
from hiku.builder import Q, build
from hiku.endpoint.graphql import GraphQLEndpoint
from hiku.engine import Engine
from hiku.executors.sync import SyncExecutor
from hiku.export.graphql import export as export_graphql
from hiku.export.protobuf import export as export_protobuf
from hiku.export.simple import export as export_simple
from hiku.expr.core import S, define, each, if_some
from hiku.graph import Field as GraphField
from hiku.graph import Graph, apply, Link as GraphLink, Node as GraphNode
from hiku.graph import Option, Root
from hiku.introspection.graphql import GraphQLIntrospection
from hiku.query import Node, Field, Link, QueryTransformer, merge
from hiku.readers.graphql import read as read_graphql
from hiku.readers.graphql import read_operation
from hiku.readers.protobuf import read as read_protobuf
from hiku.readers.simple import read as read_simple
from hiku.result import denormalize
from hiku.sources.graph import SubGraph
from hiku.typedef import kinko
from hiku.typedef.kinko import dumps as dump_types
from hiku.types import Any, Integer, Optional, Record, Sequence, TypeRef
from hiku.validate.graph import GraphValidationError
from hiku.validate.query import validate

from .core import HarnessError, Violation, canon, short_tb
from .env import Env
from .gen import Config, Item, REQUIRED, gen_graph, gen_query, gen_higher
from .gql import Renderer
from .intro import Schema
from .harness import check_result
from .scen_endpoint import Maker, check_answer, decorate
from .scen_shared import GAPS, variant
from .threads import Sched
from .world import Exec, World, build_query, merged_query

STRINGS = ('', 'a', 'B c', 'é', '"', '\\', '\n\t', "'", '#', '{', ':k',
           'u0041', '\x00\x1f', '\u2028')
SCALARS = STRINGS + (0, 1, -1, 7, 2 ** 40, True, False, None, 1.5, -0.25,
                     1e20, 1e-7)
NAMES = ('a', 'b', 'c', 'd', 'names_of_things', 'x1', 'true', 'nil', 'query')


# -- queries ----------------------------------------------------------------

def gen_value(ch, depth=2):
    how = ch.below(8) if depth else 0
    if how == 6:
        return [gen_value(ch, depth - 1) for _ in range(ch.below(4))]
    if how == 7:
        return {n: gen_value(ch, depth - 1)
                for n in ch.subset(NAMES)[:ch.below(4)]}
    return ch.pick(SCALARS)


def with_emoji(items):
    """characters, which graphql-core escapes in a way it does not read"""
    def other(v):
        if isinstance(v, dict):
            return {k: other(x) for k, x in v.items()}
        if isinstance(v, list):
            return [other(x) for x in v]
        return '😀 c' if v == 'B c' else v
    return [Item(it.name, other(it.opts), it.alias,
                 None if it.sub is None else with_emoji(it.sub))
            for it in items]


def gen_items(ch, depth, aliases, used=()):
    """a selection in which no two items answer under one name"""
    out = []
    seen = set(used)
    for name in ch.subset(NAMES):
        alias = None
        if aliases and ch.chance(25):
            alias = ch.pick(('z', 'y', 'a', 'b'))
        key = alias or name
        if key in seen:
            continue
        seen.add(key)
        opts = None
        if ch.chance(40):
            opts = {n: gen_value(ch) for n in ch.subset(NAMES)[:ch.below(4)]}
        sub = None
        if depth and ch.chance(45):
            sub = gen_items(ch, depth - 1, aliases)
        out.append(Item(name, opts, alias, sub))
        if len(out) == 5:
            break
    return out


def plain(v, floats=False):
    """values as the formats know them"""
    if isinstance(v, dict):
        return {str(k): plain(x, floats) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x, floats) for x in v]
    if floats and isinstance(v, int) and not isinstance(v, bool):
        return float(v)
    return str(v) if isinstance(v, str) else v


def opts_text(opts, floats):
    return canon(plain(opts, floats)) if opts else None


def of_items(items, floats=False):
    return {it.key: (it.name, opts_text(it.opts, floats),
                     None if it.sub is None else of_items(it.sub, floats))
            for it in items}


def of_query(node, floats=False):
    out = {}
    for f in node.fields:
        key = f.alias if f.alias is not None else f.name
        if key in out:
            return {'two of them': key}
        out[key] = (str(f.name), opts_text(f.options, floats),
                    of_query(f.node, floats) if isinstance(f, Link) else None)
    return out


def tree(items):
    out = []
    for it in items:
        opts = copy.deepcopy(it.opts)
        if it.sub is None:
            out.append(Field(it.name, opts, it.alias))
        else:
            out.append(Link(it.name, Node(tree(it.sub)), opts, it.alias))
    return out


class EdnText:
    """queries and values as people write them"""

    def __init__(self, ch):
        self.ch = ch
        self.gaps = ch.pick(((' ',), ('', ' '), ('', ' ', ', ', '\n', '\t\r\n',
                                                ' ; note\n', ';]}\n')))

    def join(self, parts):
        out = ''
        for part in parts:
            gap = self.ch.pick(self.gaps)
            if not gap and out and out[-1] not in '"[](){} ' and \
                    part[0] not in '"[](){}\\':
                gap = ' '
            out += gap + part
        return out + self.ch.pick(self.gaps)

    def string(self, v):
        char = {'\n': 'newline', ' ': 'space', '\t': 'tab'}.get(v, v)
        if char and (len(v) == 1 and char.isalpha() or v in '\n \t') and \
                self.ch.chance(30):
            return '\\' + char
        out = ''
        for c in v:
            if c in '"\\':
                out += '\\' + c
            elif c == '\n' and self.ch.chance(50):
                out += '\\n'
            elif self.ch.chance(10):
                data = c.encode('utf-16-be')
                out += ''.join('\\u%02x%02x' % tuple(data[i:i + 2])
                               for i in range(0, len(data), 2))
            else:
                out += c
        return '"' + out + '"'

    def value(self, v):
        if isinstance(v, dict):
            return '{' + self.join(
                t for k, x in v.items() for t in (':' + k, self.value(x))) + '}'
        if isinstance(v, list):
            return '[' + self.join(map(self.value, v)) + ']'
        if isinstance(v, str):
            return self.string(v)
        if v is None or isinstance(v, bool):
            return {None: 'nil', True: 'true', False: 'false'}[v]
        return str(v) + self.ch.pick(('', 'N' if isinstance(v, int) else 'M'))

    def items(self, items):
        out = []
        for it in items:
            name = ':' + it.name
            if it.opts is not None:
                name = '(' + self.join([name, self.value(it.opts)]) + ')'
            if it.sub is not None:
                name = '{' + self.join([name, self.items(it.sub)]) + '}'
            out.append(name)
        return '[' + self.join(out) + ']'


class Point:

    def __init__(self, x):
        self.x = x


def typed(v):
    """EDN values with their types"""
    if isinstance(v, edn.TaggedElement):
        return ['tagged', v.name, typed(v.value)]
    if isinstance(v, edn.Keyword):
        return ['keyword', str(v)]
    if isinstance(v, edn.Symbol):
        return ['symbol', str(v)]
    if isinstance(v, frozenset):
        return ['set', sorted(canon(typed(x)) for x in v)]
    if isinstance(v, dict):
        return ['map', sorted(canon([typed(k), typed(x)])
                              for k, x in v.items())]
    if isinstance(v, edn.Tuple):
        return ['tuple', [typed(x) for x in v]]
    if isinstance(v, (list, edn.List)):
        return ['list', [typed(x) for x in v]]
    if isinstance(v, Point):
        return ['tagged', 'point', typed(v.x)]
    if isinstance(v, (datetime.datetime, uuid.UUID)):
        return [type(v).__name__, str(v)]
    return [type(v).__name__, repr(v)]


def gen_edn(ch, depth=2):
    """values EDN has; the second are equal, but as a program keeps them"""
    how = ch.below(12) if depth else ch.below(6)
    if how == 0:
        return edn.Keyword(ch.pick(NAMES))
    if how == 1:
        return edn.Symbol(ch.pick(('a', '-', 'x-y', '-z', '.', 'a/b', 'a#',
                                   'names-of-things', 'names-of-others')))
    if how == 2:
        return datetime.datetime(2020, 1 + ch.below(12), 2, 3, 4, ch.below(60),
                                 ch.pick((0, 1, 250000)))
    if how == 3:
        return uuid.UUID(int=ch.below(1000))
    if how in (4, 5):
        return ch.pick(SCALARS)
    parts = [gen_edn(ch, depth - 1) for _ in range(ch.below(4))]
    if how == 6:
        return edn.List(parts)
    if how == 7:
        return edn.Tuple(parts)
    if how == 8:
        return edn.Set(p for p in parts if hashable(p))
    if how == 9:
        for p in parts[:1]:
            if type(p) in (str, edn.Keyword, edn.Symbol) and p:
                # not the same, alike as they look
                parts += [str(p), edn.Keyword('k'), 'k', edn.Symbol('k')]
        return edn.Dict((p, gen_edn(ch, depth - 1)) for p in parts
                        if hashable(p))
    if how == 10:
        return edn.TaggedElement(ch.pick(('tag', 'my/tag')),
                                 gen_edn(ch, depth - 1))
    return Point(gen_edn(ch, depth - 1))


def has_points(v):
    if isinstance(v, edn.TaggedElement):
        return has_points(v.value)
    if isinstance(v, dict):
        return any(has_points(x) for i in v.items() for x in i)
    if isinstance(v, (list, tuple, frozenset)):
        return any(map(has_points, v))
    return isinstance(v, Point)


def hashable(v):
    """tagged elements are not"""
    if isinstance(v, dict):
        return all(hashable(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return all(map(hashable, v))
    return not isinstance(v, (edn.TaggedElement, Point))


_CODE = {}


def fresh_module(imported):
    """the module as a new process would import it"""
    path = imported.__file__
    if path not in _CODE:
        with open(path) as f:
            _CODE[path] = compile(f.read(), path, 'exec')
    mod = types.ModuleType(imported.__name__)
    mod.__file__ = path
    mod.__package__ = imported.__package__
    exec(_CODE[path], mod.__dict__)
    return mod


# -- what is done -----------------------------------------------------------

class Ops:
    """makes operations: (name, function, what it has to return); or a
    function that gives it alone"""

    def __init__(self, run, cfg, g, low):
        self.run = run
        self.ch = run.ch
        self.cfg = cfg
        self.g = g
        self.low = low
        self.shared = {}       # kind -> [(items, query)]
        self.inputs = []       # (what, object, its text before)
        self.world = World(run, Env(run), 'sync')
        self.graph = self.world.graph(low)
        self.other = World(run, Env(run), 'sync').graph(variant(self.ch, low))
        self.docs = []
        self.schema = Schema(low, None)
        self.maker = Maker(run, cfg, low, None, self.schema)
        self.count = 0

    def query(self, aliases):
        """a query object, maybe one that others use too"""
        known = self.shared.setdefault(aliases, [])
        if known and self.ch.chance(60):
            self.run.probe('query object shared')
            return self.ch.pick(known)
        items = gen_items(self.ch, 2, aliases)
        if not aliases:
            items = with_emoji(items)
        query = Node(tree(items))
        self.inputs.append(('query', query, repr(query)))
        known.append((items, query))
        return known[-1]

    def make(self):
        kind = self.ch.pick((
            'edn', 'protobuf', 'graphql', 'document', 'variants', 'validate',
            'merge', 'copy', 'types', 'values', 'tags', 'builder', 'execute',
            'endpoint', 'text', 'data', 'definition', 'names', 'expression',
            'introspected'))
        self.run.probe(kind)
        return (kind,) + getattr(self, kind)()

    def edn(self):
        items, query = self.query(False)
        ascii_ = self.ch.chance(50)

        def fn():
            text = edn.dumps(export_simple(query), ensure_ascii=ascii_)
            return of_query(read_simple(text))
        return fn, of_items(items)

    def protobuf(self):
        items, query = self.query(False)

        def fn():
            data = export_protobuf(query).SerializeToString()
            return of_query(read_protobuf(data), True)
        return fn, of_items(items, True)

    def graphql(self):
        items, query = self.query(True)

        def fn():
            return of_query(read_graphql(print_ast(export_graphql(query))))
        return fn, of_items(items)

    def rendered(self, reuse=True):
        rd = Renderer(self.ch)
        rd.reuse = reuse
        items = gen_items(self.ch, 2, True)
        kind = self.ch.pick(('query', 'query', 'mutation'))
        text, vars_ = rd.operation(items, kind, self.ch.pick((None, 'Op')))
        return rd, items, kind, text, vars_

    def reading(self, text, vars_, kind):
        before = canon(vars_)

        def fn():
            if kind == 'query':
                q, ordered = read_graphql(text, vars_), False
            else:
                op = read_operation(text, vars_)
                q, ordered = op.query, True
                if op.type.name != 'MUTATION':
                    return {'type': op.type.name}
            if q.ordered != ordered:
                return {'ordered': q.ordered}
            if canon(vars_) != before:
                return {'variables': canon(vars_)}
            return of_query(q)
        return fn

    def document(self):
        if self.docs and self.ch.chance(50):
            # the same text once more
            items, kind, text, vars_ = self.ch.pick(self.docs)
        else:
            _, items, kind, text, vars_ = self.rendered()
            self.docs.append((items, kind, text, vars_))
        return self.reading(text, vars_, kind), of_items(items)

    def variants(self):
        """one text with other variables"""
        rd = Renderer(self.ch, vars_=80, dirs=0)
        rd.reuse = False
        name = self.ch.pick(NAMES)
        value, other = gen_value(self.ch), gen_value(self.ch)
        key = self.ch.pick(('o', 'v0'))
        text = self.ch.pick((
            'query Op($v: Any) { %s(%s: $v) }',
            'query Op($v: Any = 5) { %s(%s: $v) }',
            'query Op($v: Any!) { ...F } fragment F on Any { %s(%s: $v) }',
            'query Op($v: Any) { r { ... on Any { %s(%s: $v) } } }')) \
            % (name, key)
        value = self.ch.pick((value, other))
        items = [Item(name, {key: value})]
        if '{ r {' in text:
            items = [Item('r', None, None, items)]
        return self.reading(text, {'v': value}, 'query'), of_items(items)

    def validate(self):
        """a query against a graph that others use too"""
        ch = self.ch
        items = gen_query(ch, self.cfg, self.low, 10)
        bad = ch.chance(50)
        if bad:
            sel = items
            while sel and ch.chance(50):
                subs = [it.sub for it in sel
                        if it.sub and not it.name.startswith('c')]
                if not subs:
                    break
                sel = ch.pick(subs)
            name = 'nope{}'.format(self.count)
            self.count += 1
            sel.append(Item(name))
        query = merged_query(items)
        self.inputs.append(('query', query, repr(query)))
        graph = self.graph

        def fn():
            errors = validate(graph, query)
            if not bad:
                return errors
            return [bool(errors),
                    any(name in str(e) for e in errors)]
        return fn, ([True, True] if bad else [])

    def merge(self):
        items = gen_items(self.ch, 2, True)
        parts = [[], [], []]
        for it in items:
            for p in self.ch.subset(parts):
                p.append(it)
        nodes = [Node(tree(p)) for p in parts]
        for n in nodes:
            self.inputs.append(('query', n, repr(n)))
        return (lambda: of_query(merge(nodes))), of_items(items)

    def copy(self):
        """a copy with other options is found under another key"""
        items, query = self.query(True)
        opts = {'o': gen_value(self.ch)}

        class Change(QueryTransformer):

            def visit_field(self, obj):
                return obj.copy(options=opts)

            def visit_link(self, obj):
                return obj.copy(options=opts, node=self.visit(obj.node))

        def keys(node):
            return [(f.index_key, f.result_key,
                     keys(f.node) if isinstance(f, Link) else None)
                    for f in node.fields]

        def change(items):
            return [Item(it.name, opts, it.alias, None if it.sub is None
                         else change(it.sub)) for it in items]
        want = keys(Node(tree(change(items))))

        def fn():
            keys(query)
            same = QueryTransformer().visit(query)
            if of_query(same) != of_items(items) or \
                    keys(same) != keys(query):
                return 'not the same'
            return keys(Change().visit(query))
        return fn, want

    def types(self):
        graph = self.graph
        if self.ch.chance(30):
            graph = self.other
        return (lambda: dump_types(graph)), \
            lambda: fresh_module(kinko).dumps(graph)

    def values(self):
        value = gen_value(self.ch, 3)
        ascii_ = self.ch.chance(50)

        def keyed(v):
            if isinstance(v, dict):
                return edn.Dict((edn.Keyword(k), keyed(x))
                                for k, x in v.items())
            return [keyed(x) for x in v] if isinstance(v, list) else v
        data = keyed(value)
        return (lambda: canon(plain(edn.loads(
            edn.dumps(data, ensure_ascii=ascii_))))), canon(value)

    def tags(self):
        """readers with tags of their own"""
        tag = self.ch.pick(('tag', 'point'))
        how = self.ch.below(3)
        if how == 0:
            def fn():
                v = edn.loads('[#%s 1]' % tag)[0]
                return type(v).__name__, getattr(v, 'name', None)
            return fn, ('TaggedElement', tag)
        n = self.ch.below(100)
        return (lambda: edn.loads(
            '[#%s 1 2]' % tag, {tag: lambda v: v + n})), (n + 1, 2)

    def text(self):
        """a query somebody wrote in EDN"""
        items = with_emoji(gen_items(self.ch, 2, False))
        text = EdnText(self.ch).items(items)
        return (lambda: of_query(read_simple(text))), of_items(items)

    def data(self):
        """all that EDN knows"""
        value = gen_edn(self.ch, 3)
        ascii_ = self.ch.chance(50)

        def default(v):
            return edn.TaggedElement('point', v.x)

        if has_points(value) and self.ch.chance(30):
            # nobody said how to write them

            def refused():
                try:
                    return edn.dumps(value, None, ascii_)
                except ValueError:
                    return 'refused'
            return refused, 'refused'

        def fn():
            return typed(edn.loads(edn.dumps(value, default, ascii_)))
        return fn, typed(value)

    def definition(self):
        """a graph with a mistake in it is refused, naming it"""
        ch = self.ch
        n = self.count
        self.count += 1
        graph = self.graph
        name = 'wrong{}'.format(n)
        sub = GraphNode('sub', [
            GraphField('x', None, not_called),
            GraphLink('y', Sequence[TypeRef['sub']], not_called,
                      requires='x')])
        node = sub if ch.chance(50) else \
            Root([GraphField('a{}'.format(n), None, not_called)])
        items = [sub] if node is sub else [sub, node]
        how = ch.pick((None, 'duplicate', 'node', 'missing', 'requires',
                       'option', 'member', 'root'))
        self.run.probe('definition: {}'.format(how))
        error = name
        if how == 'duplicate':
            node.fields += [GraphField(name, None, not_called),
                            GraphLink(name, Sequence[TypeRef['sub']],
                                      not_called, requires=None)]
        elif how == 'node':
            items += [GraphNode(name, [GraphField('x', None, not_called)])
                      for _ in range(2)]
        elif how == 'missing':
            node.fields.append(GraphLink('z', Sequence[TypeRef[name]],
                                         not_called, requires=None))
        elif how == 'requires':
            node.fields.append(GraphLink('z', Sequence[TypeRef['sub']],
                                         not_called, requires=name))
        elif how == 'option':
            # not an option, but a field
            node.fields.append(GraphLink(
                name, Sequence[TypeRef['sub']], not_called, requires=None,
                options=[GraphField('o', None, not_called)]))
        elif how == 'member':
            node.fields.append(Option(name, None))
            error = 'Option'
        elif how == 'root':
            items.append(Option(name, None))
            error = 'Option'
        else:
            node.fields.append(GraphField(name, None, not_called))
        shared = [i for i in graph.items if i.name != 'sub']
        if ch.chance(50):
            # together with nodes that other graphs have too
            items = shared + items
        for item in items:
            self.inputs.append(('item', item, repr(item)))
        given = list(items)

        def fn():
            try:
                made = Graph(items, graph.data_types)
            except GraphValidationError as e:
                return [len(e.errors), error in str(e)]
            return [0, name in [f.name for i in made.items
                                for f in i.fields] and
                    all(a is b for a, b in zip(items, given))]
        return fn, [1 if how else 0, True]

    def names(self):
        """names GraphQL does not allow"""
        n = self.count
        self.count += 1
        name = self.ch.pick(('not-{}', '{}st', 'ok{}', 'n.{}', 'né{}')) \
            .format(n)
        where = self.ch.pick(('field', 'node', 'option', 'link',
                              'option of a link'))
        f = GraphField(name if where == 'field' else 'f', None, not_called,
                       options=[Option(name if where == 'option' else 'o',
                                       Integer)])
        items = list(self.graph.items)
        if where == 'node':
            items.append(GraphNode(name, [f]))
        elif 'link' in where:
            link = GraphLink(
                name if where == 'link' else 'l',
                Sequence[TypeRef[self.graph.nodes[0].name]], not_called,
                requires=None,
                options=[Option('o' if where == 'link' else name, Integer)])
            items.append(GraphNode('x{}'.format(n), [f, link]))
        else:
            items.append(Root([f]))
        graph = Graph(items, self.graph.data_types)

        def fn():
            try:
                GraphQLEndpoint(Engine(SyncExecutor()), graph)
            except ValueError as e:
                return name in str(e)
            return 'allowed'
        return fn, 'allowed' if name.startswith('ok') else True

    def expression(self):
        """expressions over what the graph does not have, are refused"""
        ch = self.ch
        n = self.count
        self.count += 1
        name = 'wrong{}'.format(n)
        graph = self.graph
        node = ch.pick(graph.nodes)
        how = ch.pick((None, 'this', 'root', 'loop', 'function', 'arguments',
                       'record', 'optional', 'sequence', 'no sequence'))
        self.run.probe('expression: {}'.format(how))
        fields = [f.name for f in node.fields if not f.options
                  and not isinstance(f, GraphLink) and f.type is None
                  and not f.name.startswith('_')]
        good = getattr(S.this, ch.pick(fields)) if fields else None

        @define(Any, Any)
        def both(a, b):
            return a, b
        if how == 'this':
            expr = getattr(S.this, name)
        elif how == 'root':
            expr = getattr(S, name)
        elif how == 'loop':
            # the variable is not known out of the expression
            expr = both(if_some([S.v, S.this], 1, 2), getattr(S, name))
        elif how == 'function':
            expr = both(good if fields else 1, getattr(S.this, name))
        elif how == 'arguments':
            expr = both(1)
        elif how in ('record', 'optional', 'sequence'):
            # requires more than there is
            type_ = Record[{name: Any}]
            if how == 'sequence':
                g = Graph(list(graph.items) + [Root([GraphLink(
                    'all', Sequence[TypeRef[node.name]], not_called,
                    requires=None)])], graph.data_types)
                graph = g
                type_ = Sequence[type_]
            expr = define(Optional[type_] if how == 'optional' else type_)(
                lambda a: a)(S.all if how == 'sequence' else S.this)
        elif how == 'no sequence':
            expr = each(S.v, S.this, both(1, S.v))
            name = 'Types mismatch'
        else:
            expr = both(1, good) if fields else both(1, 2)

        def fn():
            sg = SubGraph(graph, node.name)
            try:
                Graph([Root([GraphField('r', None, not_called)]),
                       GraphNode('h', [GraphField('x', None, sg.c(expr))])])
            except (TypeError, AssertionError) as e:
                return how == 'arguments' or name in str(e) or short_tb(e)
            return 'right'
        return fn, 'right' if how is None else True

    def builder(self):
        items = gen_items(self.ch, 2, True)

        def handles(items):
            out = []
            for it in items:
                q = getattr(Q, it.name)
                if it.opts:
                    q = q(**copy.deepcopy(it.opts))
                if it.sub is not None:
                    q = q[tuple(handles(it.sub))]
                if it.alias is not None:
                    # options and items belong to the field
                    q = getattr(Q, it.alias) << q
                out.append(q)
            return out
        return (lambda: of_query(build(handles(items)))), of_items(items)

    def execute(self):
        """a graph is built, and used"""
        run, g = self.run, self.g
        items = gen_query(self.ch, self.cfg, g, 6)
        world = World(run, self.world.env, 'sync')
        n = self.count
        self.count += 1

        def fn():
            world.default_exec = Exec(n)
            graph = world.graph(g)
            result = Engine(SyncExecutor()).execute(graph,
                                                    build_query_of(items))
            world.check()
            check_result(graph, result, g, items, {})
            return 'right'
        return fn, 'right'

    def introspected(self):
        """a graph which knows its types, used without an endpoint"""
        run, g, ch = self.run, self.low, self.ch
        world = World(run, self.world.env, 'sync')
        n = self.count
        self.count += 1
        links = [i for i in g.root.links()
                 if not any(o.default is REQUIRED for o in i.options) and
                 not (i.requires and any(
                     o.default is REQUIRED
                     for o in g.root.items[i.requires].options))]
        links = ch.subset(links)[:2]
        query = Node([Field('__typename', None, 't')] + [
            Link(i.name, Node([Field('__typename')])) for i in links])

        def fn():
            world.default_exec = Exec(n)
            graph = world.graph(g)
            graph = apply(graph, [GraphQLIntrospection(graph)])
            errors = validate(graph, query)
            if errors:
                return errors
            got = denormalize(graph, Engine(SyncExecutor()).execute(graph,
                                                                    query))
            world.check()
            out = [got.pop('t')]
            for i in links:
                v = got.pop(i.name)
                v = v if isinstance(v, list) else [v]
                out.append({x['__typename'] for x in v if x} <= {i.target})
            return out + [len(got)]
        return fn, ['Query'] + [True] * len(links) + [0]

    def endpoint(self):
        """an endpoint is built, and asked, about the graph too"""
        r = self.maker.request()
        graph, schema = self.graph, self.schema
        world = self.world
        before = canon(r.data)

        def fn():
            endpoint = GraphQLEndpoint(Engine(SyncExecutor()), graph)
            got = endpoint.dispatch(r.data)
            world.check()
            check_answer(r, got, schema)
            return canon(r.data)
        return fn, before


def not_called(*args):
    raise HarnessError('nothing is loaded here')


def build_query_of(items):
    return merge([build_query(items)])


# -- runs -------------------------------------------------------------------

def call(fn):
    try:
        return ('returned', fn())
    except Violation as v:
        return ('violation', str(v))
    except Exception as e:
        return ('raised', type(e).__name__, short_tb(e))


def c22(run):
    ch = run.ch
    cfg = Config(ch, max_items=3, depth=2, ctx=0, large=False,
                 options=ch.pick((0, 30)), complex=ch.pick((0, 40)))
    low = gen_graph(ch, cfg)
    g = low
    if ch.chance(40):
        g = gen_higher(ch, cfg, low)
    elif ch.chance(50):
        for node in [g.root] + list(g.nodes.values()):
            decorate(ch, g, node, 50)
        run.probe('declared types')
    ops = Ops(run, cfg, g, low)
    threads = ch.pick((2, 3, 1))
    scripts = [[ops.make() for _ in range(ch.between(1, 3))]
               for _ in range(threads)]
    preempt = ch.pick(('line', 'opcode', 'line', None))
    run.probe('preemption: {}'.format(preempt))
    run.probe('threads: {}'.format(threads))
    run.nontrivial = threads > 1
    run.note = {'scripts': [[op[0] for op in s] for s in scripts],
                'preemption': preempt}
    got = [[] for _ in scripts]
    sched = Sched(run, ops.world.env, preempt=preempt, gaps=ch.pick(GAPS))

    def work(i):
        sched.me().exec = None
        for kind, fn, want in scripts[i]:
            run.log('op', i, kind)
            got[i].append(call(fn))

    def main():
        others = [sched.spawn(lambda i=i: work(i), 'user{}'.format(i))
                  for i in range(1, threads)]
        work(0)
        sched.join(others)
    sched.execute(main)
    for i, script in enumerate(scripts):
        for (kind, fn, want), answer in zip(script, got[i]):
            if want is None:
                raise HarnessError(kind)
            if callable(want):
                alone = call(want)
                if alone[0] != 'returned':
                    raise Violation('raised', '{}: {}'.format(
                        kind, alone[1:]))
                want = alone[1]
            if answer[0] != 'returned':
                raise Violation(answer[0], '{}: {}'.format(kind, answer[1:]))
            if answer[1] != want:
                raise Violation('wrong-answer', '{} returned {} instead of {}'
                                .format(kind, repr(answer[1])[:400],
                                        repr(want)[:400]))
    for what, obj, text in ops.inputs:
        if repr(obj) != text:
            raise Violation('input-modified', 'the {} {} became {!r}'.format(
                what, text, obj))
