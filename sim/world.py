"""Builds hiku graphs of specs, with loading functions that record what they
are asked, wait for the environment and misbehave when told to."""
import asyncio
import collections.abc

from hiku import query as hq
from hiku.graph import Graph, Node, Root, Field, Link, Option, Nothing
from hiku.types import (Record, Sequence, Optional, TypeRef, Any, Boolean,
                        String, Integer, Float, Mapping)
from hiku.engine import pass_context
from hiku.expr.core import define, S, each, if_, if_some
from hiku.sources.graph import SubGraph

from .core import Violation, canon
from .gen import NOTHING, REQUIRED, field_value, link_value, Item, h
from .model import field_key, link_key, fn_body, project, ctx_of
from .seams import CLOCK, STATE
from .aioloop import EXEC
from .threads import SimKill


class ProtocolError(Exception):
    """a loading function was called in an undocumented way"""


class LoadError(Exception):
    """the error a loading function raises when told to fail"""


class LoadBaseError(BaseException):
    """same, but not an Exception"""


class Rows(collections.abc.Sequence):
    """what database libraries return: a sequence of a type of its own"""

    def __init__(self, values):
        self._values = list(values)

    def __len__(self):
        return len(self._values)

    def __getitem__(self, i):
        return self._values[i]

    def __repr__(self):
        return 'Rows({!r})'.format(self._values)


class LazyContext(dict):
    """a context which makes what is asked for, and keeps nothing of it"""

    def __missing__(self, key):
        if key == 'connection':
            return self.connection
        raise KeyError(key)


# how loading functions return sequences, but for lists and generators
STYLES = {'tuple': tuple, 'rows': Rows}


class Exec:
    """one execution of a query"""

    def __init__(self, id_, ctx=None):
        self.id = id_
        self.ctx = ctx
        self.calls = []
        self.state = 'new'
        self.raised = []

    def __repr__(self):
        return 'E{}'.format(self.id)


class Call:
    __slots__ = ('n', 'exec', 'func', 'key', 'state', 'submit', 'start', 'n_fault',
                 'end', 'label', 'error', 'info', 'seq_submit', 'seq_start',
                 'seq_end')

    def __repr__(self):
        return '#{}{}{}'.format(self.n, self.exec, self.label)


def in_form(load, form):
    """gives the loading function, as what users have for one"""
    if form == 'method':
        # a bound method: each one is another object, equal to the others
        owner = type('Loader', (), {'load': load_method(load)})()
        return lambda: owner.load
    if form == 'object':
        class Loader:
            def __call__(self, *args):
                return load(*args)
        obj = pass_context(Loader)() if hasattr(load, '__pass_context__') \
            else Loader()
        return lambda: obj
    if form == 'equal':
        class Equal:
            def __eq__(self, other):
                return type(other) is Equal

            def __hash__(self):
                return 7

            def __call__(self, *args):
                return load(*args)
        cls = pass_context(Equal) if hasattr(load, '__pass_context__') \
            else Equal
        return lambda: cls()
    return lambda: load


def load_method(load):
    def method(self, *args):
        return load(*args)
    return pass_context(method) if hasattr(load, '__pass_context__') \
        else method


class World:

    def __init__(self, run, env, mode):
        self.run = run
        self.env = env
        self.mode = mode            # sync | async | threads
        self.calls = []
        self.violations = []
        self.seq = 0
        self.default_exec = None
        self.returned = None        # what loads returned, to be clobbered
        self.wrap = None            # what loads return -> what to return
        self.spoil = False          # loads change the options they get
        self.behave = None          # call -> action | None
        self.on_submit = None
        self.on_end = None
        self._graphs = {}
        self._loaders = {}
        self._subgraphs = {}
        self.values = None          # override of field values
        self.transform = None       # (spec, graph) -> graph

    # -- bookkeeping --------------------------------------------------------

    def tick(self):
        self.seq += 1
        return self.seq

    def bad(self, cls, msg):
        v = Violation(cls, msg)
        self.violations.append(v)
        self.run.log('BAD', cls, msg)
        return v

    def check(self):
        if self.violations:
            raise self.violations[0]

    def current(self):
        s = STATE.sched
        if s is not None:
            me = s.me()
            if me is not None and me.exec is not None:
                return me.exec
        e = EXEC.get()
        return e if e is not None else self.default_exec

    def submitted(self, func, key, label):
        c = Call()
        c.n = len(self.calls)
        c.exec = self.current()
        c.func = func
        c.key = key
        c.label = label
        c.state = 'submitted'
        c.submit = CLOCK.now
        c.start = c.end = c.error = c.info = None
        c.seq_submit = self.tick()
        c.seq_start = c.seq_end = None
        self.calls.append(c)
        if c.exec is not None:
            c.exec.calls.append(c)
        self.run.log('submit', c.n, c.exec and c.exec.id, func.id, label)
        if self.on_submit is not None:
            self.on_submit(c)
        return c

    def started(self, c):
        c.state = 'started'
        c.start = CLOCK.now
        c.seq_start = self.tick()
        self.run.log('start', c.n)

    def ended(self, c, state):
        c.state = state
        c.end = CLOCK.now
        c.seq_end = self.tick()
        self.run.log('end', c.n, state)
        if self.on_end is not None:
            self.on_end(c)

    # -- loading functions --------------------------------------------------

    def _take_ctx(self, func, args):
        args = list(args)
        ctx = None
        if func.ctx:
            if not args:
                raise self.bad('context', '{}: no arguments'.format(func.id))
            got = args.pop(0)
            try:
                ctx = dict(got)
            except Exception:
                self.bad('context', '{} asks for the context, got {!r}'
                         .format(func.id, got))
                raise ProtocolError
            e = self.current()
            want = (e.ctx if e is not None else None) or {}
            if canon(ctx) != canon(want):
                self.bad('context', '{} got the context {} instead of {}'
                         .format(func.id, canon(ctx), canon(want)))
                raise ProtocolError
            if len(got) != len(ctx) or 'no such key' in got or \
                    got.get('no such key', 5) != 5:
                self.bad('context', '{} got {!r}, which does not work as a '
                         'mapping'.format(func.id, got))
                raise ProtocolError
            if e is not None and isinstance(e.ctx, LazyContext):
                try:
                    own = got['connection'] == e.ctx.connection
                except Exception:
                    own = False
                if not own:
                    self.bad('context', '{} does not get what its context '
                             'makes when it is asked for'.format(func.id))
                    raise ProtocolError
        return ctx, args

    def _ctx_key(self, func, ctx):
        return canon(ctx) if func.ctx else None

    def field_call(self, func, specs, args):
        """arguments of a field loading function -> (call, producer)"""
        ctx, args = self._take_ctx(func, args)
        at_root = None
        if not 1 <= len(args) <= 2:
            self.bad('arguments', '{} called with {} arguments'
                     .format(func.id, len(args)))
            raise ProtocolError
        try:
            fields = list(args[0])
            names = [f.name for f in fields]
        except Exception:
            self.bad('arguments', '{}: fields are {!r}'
                     .format(func.id, args[0]))
            raise ProtocolError
        for n in names:
            if n not in specs:
                self.bad('over-fetch', '{} was asked for {!r}, which it does '
                         'not serve'.format(func.id, n))
                raise ProtocolError
        at_root = specs[names[0]][1].name is None if names else False
        if at_root != (len(args) == 1):
            self.bad('arguments', '{} called with {} arguments'
                     .format(func.id, len(args)))
            raise ProtocolError
        ids = None
        if not at_root:
            try:
                ids = list(args[1])
            except Exception:
                self.bad('arguments', '{}: ids are {!r}'
                         .format(func.id, args[1]))
                raise ProtocolError
        asked = []
        for f in fields:
            spec = specs[f.name][0]
            opts = f.options
            if not spec.options:
                if opts:
                    self.bad('arguments', 'unexpected options {!r} of {}'
                             .format(opts, f.name))
                    raise ProtocolError
                opts = None
            elif not isinstance(opts, dict) or \
                    set(opts) != {o.name for o in spec.options}:
                self.bad('arguments', 'options {!r} of {}'
                         .format(opts, f.name))
                raise ProtocolError
            else:
                opts = self.spoiled(opts)
            asked.append((spec, opts))
        key = field_key(func.id, {(s.name, canon(o)) for s, o in asked}, ids,
                        self._ctx_key(func, ctx))
        call = self.submitted(func, key, '{}{}{}'.format(
            func.id, sorted(names), '' if ids is None else canon(ids)))
        call.info = ('F', names, ids)
        g = specs[names[0]][2] if names else None

        def produce():
            vctx = ctx_of(func, ctx)
            if at_root:
                return [self.value(g, s, None, o, vctx) for s, o in asked]
            return [[self.value(g, s, i, o, vctx) for s, o in asked]
                    for i in ids]
        return call, produce

    def spoiled(self, opts):
        """the options to work with; the ones given may be used up as
        loading functions do it, who call `options.pop(...)`"""
        if not self.spoil:
            return opts
        kept = dict(opts)
        if len(kept) > 1:
            opts.popitem()
        else:
            opts.clear()
        opts['spoiled'] = True
        return kept

    def value(self, g, spec, ident, opts, ctx):
        if self.values is not None:
            return self.values(g, spec, ident, opts, ctx)
        return field_value(g, spec, ident, opts, ctx)

    def link_call(self, func, specs, args):
        ctx, args = self._take_ctx(func, args)
        g, node, spec = specs[0]
        want = (spec.requires is not None) + bool(spec.options)
        if len(args) != want:
            self.bad('arguments', '{} called with {} arguments instead of {}'
                     .format(func.id, len(args), want))
            raise ProtocolError
        req = reqs = opts = None
        from_list = spec.requires is not None and node.name is not None
        if spec.requires is not None:
            req = args.pop(0)
            if from_list:
                try:
                    req = list(req)
                except Exception:
                    self.bad('arguments', '{}: required values are {!r}'
                             .format(func.id, req))
                    raise ProtocolError
                reqs = frozenset(canon(v) for v in req)
            else:
                reqs = canon(req)
        if spec.options:
            opts = args.pop(0)
            if not isinstance(opts, dict) or \
                    set(opts) != {o.name for o in spec.options}:
                self.bad('arguments', 'options {!r} of {}'
                         .format(opts, spec.name))
                raise ProtocolError
            opts = self.spoiled(opts)
        key = link_key(func.id, reqs, opts, self._ctx_key(func, ctx))
        call = self.submitted(func, key, '{}({}{})'.format(
            func.id, '' if spec.requires is None else canon(req),
            canon(opts) if opts else ''))
        call.info = ('L', [s.name for _, _, s in specs], req)
        vctx = ctx_of(func, ctx)

        def one(r):
            v = link_value(g, spec, None if spec.requires is None
                           else ('req', canon(r)), opts, vctx)
            if v is NOTHING:
                return Nothing
            if spec.kind == 'many' and func.style in STYLES:
                return STYLES[func.style](v)
            return v

        def produce():
            if from_list:
                return [one(r) for r in req]
            return one(req)
        produce.container = from_list or spec.kind == 'many'
        return call, produce

    def _style(self, func, value, produce):
        if produce.container:
            if func.style in STYLES:
                return STYLES[func.style](value)
            if func.style == 'gen':
                return (v for v in list(value))
        return value

    def loader(self, g, func, specs):
        """the loading function of `func`, for this world's kind of executor"""
        w = self
        prepare = self.field_call if func.kind == 'F' else self.link_call

        def finish(call, produce):
            value = produce()
            if w.wrap is not None:
                value = w.wrap(value)
            if w.returned is not None:
                w.returned.append((call, value))
            if func.kind == 'F':
                rows = call.info[2] is not None
                if func.style in STYLES:
                    of = STYLES[func.style]
                    return of([of(r) for r in value]) if rows else of(value)
                if func.style == 'gen':
                    return (r for r in value)
                return value
            return w._style(func, value, produce)

        def act(call):
            return w.behave(call) if w.behave is not None else None

        if self.mode == 'async':
            async def body(call, produce):
                w.started(call)
                action = act(call)
                try:
                    if action is not None and action[0] == 'custom':
                        result = await action[1](call, produce, finish)
                    else:
                        pauses = func.pauses
                        if action is not None and action[0] == 'fast':
                            pauses = 0
                        for i in range(pauses):
                            await call_loop().pause('{}.{}'.format(call.n, i))
                        result = w.outcome(call, action, produce, finish)
                except asyncio.CancelledError:
                    w.ended(call, 'cancelled')
                    raise
                except BaseException as e:
                    call.error = e
                    w.ended(call, 'failed')
                    raise
                w.ended(call, 'done')
                return result

            def load(*args):
                call, produce = prepare(func, specs, args)
                action = w.at_submit(call)
                if action is not None:
                    return action
                return body(call, produce)
        else:
            def load(*args):
                call, produce = prepare(func, specs, args)
                w.started(call)
                action = act(call)
                try:
                    for i in range(func.pauses):
                        w.pause('{}.{}'.format(call.n, i))
                    result = w.outcome(call, action, produce, finish)
                except SimKill:
                    raise
                except BaseException as e:
                    call.error = e
                    w.ended(call, 'failed')
                    raise
                w.ended(call, 'done')
                return result
        if func.ctx:
            load = pass_context(load)
        return in_form(load, func.form)

    def clobber(self, exec_):
        """loading functions use their lists again, for something else"""
        for call, value in self.returned:
            if call.exec is not exec_ or not isinstance(value, list):
                continue
            inner = value if call.info[0] == 'L' or \
                call.info[2] is not None else ()
            for row in inner:
                if isinstance(row, list):
                    row[:] = ['something else'] * (len(row) + 1)
            value[:] = ['something else'] * (len(value) + 1)

    def at_submit(self, call):
        return None

    def outcome(self, call, action, produce, finish):
        """the result of a load, or its failure"""
        if action is None or action[0] == 'fast':
            return finish(call, produce)
        kind = action[0]
        if kind == 'raise':
            raise action[1]
        if kind == 'shape':
            return action[1](finish(call, produce), call)
        raise AssertionError(kind)

    def pause(self, label):
        s = STATE.sched
        if s is not None and s.me() is not None:
            s.pause(label)
        else:
            self.env.advance(self.env.ch.pick((0.25, 0.0, 1.0)))

    # -- graphs -------------------------------------------------------------

    def graph(self, g):
        if g.key in self._graphs:
            return self._graphs[g.key]
        subs = {}
        for key, (low, name) in g.subs.items():
            subs[key] = SubGraph(self.graph(low), name)
        self._subgraphs[g.key] = subs
        specs = {}
        lspecs = {}
        for node in [g.root] + list(g.nodes.values()):
            for f in node.fields():
                if f.func is not None:
                    specs.setdefault(f.func.id, {})[f.name] = (f, node, g)
            for ln in node.links():
                lspecs.setdefault(ln.func.id, []).append((g, node, ln))
        loaders = {}
        for func in g.funcs:
            if func.id in specs:
                loaders[func.id] = self.loader(g, func, specs[func.id])
            elif func.id in lspecs:
                loaders[func.id] = self.loader(g, func, lspecs[func.id])
        self._loaders[g.key] = loaders

        def build_node(node):
            out = []
            for it in node.items.values():
                options = [build_option(o) for o in it.options]
                if it.link:
                    ref = TypeRef[it.target]
                    type_ = {'one': ref, 'maybe': Optional[ref],
                             'many': Sequence[ref]}[it.kind]
                    out.append(Link(it.name, type_, loaders[it.func.id](),
                                    requires=it.requires, options=options,
                                    description=it.descr))
                elif it.expr is not None:
                    func = subs[it.sub].c(build_expr(it.expr))
                    out.append(Field(it.name, None, func, options=options,
                                     description=it.descr))
                else:
                    type_ = build_ctype(it.ctype) if it.decl is None else \
                        DECLARED[it.decl]
                    out.append(Field(it.name, type_, loaders[it.func.id](),
                                     options=options, description=it.descr))
            return out

        items = [Node(n.name, build_node(n), description=n.descr)
                 for n in g.nodes.values()]
        items.append(Root(build_node(g.root)))
        if h(g.seed, g.key, 'roots') % 5 == 0 and len(items[-1].fields) > 1:
            # the same root in two parts
            fields = items.pop().fields
            items.insert(0, Root(fields[:len(fields) // 2]))
            items.append(Root(fields[len(fields) // 2:]))
        graph = Graph(items, data_types={
            name: Record[[(fn, build_ctype(ft) or Any)
                          for fn, ft in fields.items()]]
            for name, fields in g.records.items()
        })
        if self.transform is not None:
            graph = self.transform(g, graph)
        self._graphs[g.key] = graph
        return graph

    def forget(self, g):
        """the next `graph(g)` builds another one"""
        del self._graphs[g.key]


def call_loop():
    return asyncio.get_running_loop()


DECLARED = {
    'Any': Any, 'Boolean': Boolean, 'String': String, 'Integer': Integer,
    'Float': Float, 'Optional[String]': Optional[String],
    'Sequence[Integer]': Sequence[Integer],
    'Sequence[Optional[String]]': Sequence[Optional[String]],
    'Optional[Sequence[String]]': Optional[Sequence[String]],
    'Mapping[String, Integer]': Mapping[String, Integer],
}


def build_option(o):
    type_ = None
    if o.shape is not None:
        type_ = shape_type(*o.type[1:])
    elif o.type is not None:
        type_ = TypeRef[o.type[1]] if isinstance(o.type, tuple) else \
            DECLARED[o.type]
    if o.default is REQUIRED:
        return Option(o.name, type_, description=o.descr)
    return Option(o.name, type_, default=o.default, description=o.descr)


def shape_type(shape, low):
    kind, typ = shape
    t = Integer if typ[0] != 'rec' else Record[
        [(name, Any if ctype is None else
          shape_type((ctype[0], ('rec', ctype[1])), low))
         for name, ctype in low.records[typ[1]].items()]]
    return {'rec': t, 'seq': Sequence[t], 'opt': Optional[t]}[kind]


def build_ctype(ctype):
    if ctype is None:
        return None
    kind, rec = ctype
    ref = TypeRef[rec]
    return {'rec': ref, 'opt': Optional[ref], 'seq': Sequence[ref]}[kind]


def build_tree(how, tree):
    """the type a function declares for its argument"""
    t = Record[[(name, Any if sub is None else build_tree(*sub))
                for name, sub in tree.items()]]
    return {'rec': t, 'seq': Sequence[t], 'opt': Optional[t]}[how]


def tree_text(how, tree):
    """the same in EDN, for functions defined with a string"""
    if how != 'rec':
        return None
    out = []
    for name, sub in tree.items():
        text = ':' + name if sub is None else tree_text(*sub)
        if text is None:
            return None
        out.append(text if sub is None else '{{:{} {}}}'.format(name, text))
    return '[' + ' '.join(out) + ']'


def build_path(path):
    e = getattr(S, path[0])
    for name in path[1:]:
        e = getattr(e, name)
    return e


def build_expr(e):
    kind = e[0]
    if kind == 'get':
        return build_path(e[1])
    if kind == 'opt':
        return getattr(S, e[1])
    if kind == 'lit':
        return e[1]
    if kind == 'fn':
        k = e[1]
        reads = [a[2] if a[0] == 'arg' else None for a in e[2]]

        def fn(*args):
            return fn_body(k, [v if r is None else project(v, *r)
                               for v, r in zip(args, reads)])
        types = [Any if r is None else build_tree(*r) for r in reads]
        texts = ['nil' if r is None else tree_text(*r) for r in reads]
        if k % 3 == 1 and None not in texts:
            types = ['[' + ' '.join(texts) + ']']
        expr = define(*types, _name='fn{}'.format(k))(fn)
        return expr(*[build_path(a[1]) if a[0] == 'arg' else build_expr(a)
                      for a in e[2]])
    if kind == 'each':
        return each(getattr(S, e[1]), build_path(e[2]), build_expr(e[3]))
    if kind == 'ifsome':
        return if_some([getattr(S, e[1]), build_path(e[2])],
                       build_expr(e[3]), build_expr(e[4]))
    if kind == 'if':
        return if_(build_expr(e[1]), build_expr(e[2]), build_expr(e[3]))
    if kind == 'list':
        return [build_expr(x) for x in e[1]]
    if kind == 'dict':
        return {k: build_expr(x) for k, x in e[1].items()}
    raise AssertionError(kind)


def build_query(items, ordered=False):
    """an unmerged hiku query node"""
    return hq.Node([build_item(i) for i in items], ordered=ordered)


def build_item(it):
    opts = None if it.opts is None else dict(it.opts)
    if it.sub is None:
        return hq.Field(it.name, opts, it.alias)
    return hq.Link(it.name, build_query(it.sub), opts, it.alias)


def merged_query(items, ordered=False, ch=None):
    """one query, sometimes out of several"""
    parts = [items]
    if ch is not None and len(items) > 1 and ch.chance(20):
        at = ch.between(1, len(items) - 1)
        parts = [items[:at], items[at:]]
        if ch.chance(30):
            parts.insert(ch.below(3), [])
    which = None
    if len(parts) > 1 and ordered and ch.chance(50):
        which = ch.below(len(parts))     # the one which makes it ordered
    return hq.merge([build_query(p, ordered and which in (None, i))
                     for i, p in enumerate(parts)])
