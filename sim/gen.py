"""Generation of graphs, data and queries from a choice stream.

Specs are plain data, independent of hiku; `model.py` evaluates them and
`world.py` builds hiku graphs of them.
"""
import zlib

from .core import canon


class _Const:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __deepcopy__(self, memo):
        return self


NOTHING = _Const('NOTHING')     # "no such object" of an optional link
REQUIRED = _Const('REQUIRED')   # option without a default

IDENTS = (1, 0, 2, 3, -1, -2, '', 'a', 'b', ('t', 1), (), 2.5, 'x:y', 7, 8,
          None)
SMALL_IDENTS = (1, 2, 3, 4, 5, 6, 7, 8)
OPTVALS = (1, 2, -1, -2, True, 1.0, 0, False, None, '', 'z', [1], [-1], [-2],
           {'k': -1}, {'k': -2}, {'k': {'m': 1}, 'j': 2}, 2 ** 61 - 1, [1, 2], [2, 1],
           [[1], 2], [1, [2]], [1, 1], {'j': 1, 'k': 2}, {'j': 2, 'k': 1})
FALSY = (0, '', None, False, [])


def h(*parts):
    return zlib.crc32(canon(parts).encode())


class OptSpec:
    type = None        # key of world.OPTION_TYPES, or ('rec', record name)
    values = None      # valid values, when there is a type
    descr = None
    shape = None       # what expressions know of the values, see `shaped`

    def __init__(self, name, default):
        self.name = name
        self.default = default


class FuncSpec:
    """loading function of fields or of a link"""

    def __init__(self, id_, kind, ctx=False, style='list', pauses=1,
                 form='function'):
        self.id = id_
        self.kind = kind          # 'F' or 'L'
        self.ctx = ctx
        self.style = style
        self.pauses = pauses
        self.form = form


class FieldSpec:
    link = False
    decl = None        # declared scalar type, for introspection
    descr = None
    scalars = None     # 'seq' | 'opt': what is declared about its values

    def __init__(self, name, func=None, options=(), ctype=None, expr=None,
                 sub=None):
        self.name = name
        self.func = func
        self.options = list(options)
        self.ctype = ctype       # None | ('rec'|'opt'|'seq', record name)
        self.expr = expr
        self.sub = sub           # key of the sub-graph, when expr is set

    def __repr__(self):
        return 'Field({}{})'.format(self.name, '=' + repr(self.expr)
                                    if self.expr else '')


class LinkSpec:
    link = True
    ctype = expr = sub = decl = descr = None
    wide = None               # how many identifiers, where it is fixed

    def __init__(self, name, target, kind, func, requires=None, options=()):
        self.name = name
        self.target = target
        self.kind = kind          # one | maybe | many
        self.func = func
        self.requires = requires
        self.options = list(options)


class NodeSpec:
    descr = None

    def __init__(self, name, idents=()):
        self.name = name          # None - root
        self.idents = list(idents)
        self.items = {}

    def add(self, item):
        assert item.name not in self.items
        self.items[item.name] = item
        return item

    def fields(self):
        return [i for i in self.items.values() if not i.link]

    def links(self):
        return [i for i in self.items.values() if i.link]


class GraphSpec:

    def __init__(self, key, seed):
        self.key = key
        self.seed = seed
        self.root = NodeSpec(None)
        self.nodes = {}
        self.records = {}         # name -> {field: None | (kind, record)}
        self.subs = {}            # sub key -> (GraphSpec, node name)
        self.funcs = []
        self.served = set()       # (func, field name)

    def func(self, *args, **kwargs):
        f = FuncSpec('{}.{}{}'.format(self.key, args[0], len(self.funcs)),
                     *args, **kwargs)
        self.funcs.append(f)
        return f


# -- values -----------------------------------------------------------------

def record_value(g, rec, salt):
    out = {}
    for fname, ftype in g.records[rec].items():
        out[fname] = typed_value(g, ftype, (salt, fname))
    out['extra'] = 'not-requested'
    return out


def typed_value(g, ctype, salt):
    k = h(g.seed, salt)
    if ctype is None:
        return 'v{}'.format(k % 1000) if k % 7 else FALSY[k % len(FALSY)]
    kind, rec = ctype
    if kind == 'rec':
        return record_value(g, rec, salt)
    if kind == 'opt':
        return None if k % 3 == 0 else record_value(g, rec, salt)
    return [record_value(g, rec, (salt, i)) for i in range(k % 4)]


def field_value(g, field, ident, opts, ctx=None):
    """what the loading function returns for one field of one object"""
    salt = (field.func.id, field.name, ident, opts or {}, ctx)
    if field.ctype is not None:
        return typed_value(g, field.ctype, canon(salt))
    k = h(g.seed, salt)
    if field.scalars == 'seq':
        return [k % 100 + i for i in range(k % 4)]
    if field.scalars == 'opt' and k % 3 == 0:
        return None
    if k % 9 == 0 and ctx is None:
        return FALSY[k // 9 % len(FALSY)]
    text = '{}.{}|{}|{}'.format(field.func.id, field.name, canon(ident),
                                canon(opts or {}))
    if ctx is not None:
        text += '|' + canon(ctx)
    if k % 11 == 0:
        return [text]
    if k % 11 == 1:
        return {'d': text}
    if k % 33 == 2:
        return text, [k % 5]
    return text


def link_value(g, link, req, opts, ctx=None):
    """identifiers the link function returns for one required value"""
    pool = g.nodes[link.target].idents
    k = h(g.seed, link.func.id, req, opts or {}, ctx)
    if link.kind == 'one':
        return pool[k % len(pool)]
    if link.kind == 'maybe':
        if k % 3 == 0:
            return NOTHING
        return pool[k // 3 % len(pool)]
    n = link.wide or k % 5
    return [pool[h(k, i) % len(pool)] for i in range(n)]


# -- graphs -----------------------------------------------------------------

def gen_options(ch, percent, always_default=False):
    out = []
    if ch.chance(percent):
        for i in range(ch.between(1, 2)):
            if not always_default and ch.chance(40):
                default = REQUIRED
            else:
                default = ch.pick(OPTVALS)
            out.append(OptSpec('o{}'.format(i), default))
    return out


def option_names(options):
    return [o.name for o in options]


class Config:
    """what a scenario wants in its graphs (swarm: picked per run)"""

    def __init__(self, ch, **kw):
        self.options = ch.pick((0, 25, 50))
        self.complex = ch.pick((0, 25))
        self.ctx = ch.pick((0, 40))
        self.shared = ch.pick((0, 30))
        self.forms = ch.chance(40)
        self.alias = ch.pick((0, 30))
        self.dup = ch.pick((0, 20))
        self.styles = ch.pick((('list',), ('list', 'tuple'), ('list', 'rows'),
                               ('list', 'tuple', 'gen')))
        self.max_nodes = 3
        self.max_items = 4
        self.depth = 3
        self.idents = IDENTS
        self.max_pauses = 2
        self.requires = 60
        self.root_links_only = False
        self.ctx_value = False
        self.multi_ctx = False
        self.same_names = ch.chance(40)    # items of all nodes named alike
        self.large = ch.chance(3)       # of something there is a lot
        self.most = 1050                # this many at most
        for k, v in kw.items():
            setattr(self, k, v)
        if self.large:
            self.large = ch.pick(('objects', 'fields', 'depth', 'objects',
                                  'links'))
        if self.large == 'depth':
            self.depth = ch.pick((7, 10, 14))


def sizes(cfg, numbers):
    return [n for n in numbers if n <= cfg.most]


def narrow(g, n):
    """links of nodes lead to few objects, lest they become too many"""
    for node in g.nodes.values():
        for link in node.links():
            link.wide = n


def gen_graph(ch, cfg, key='g', seed=None):
    g = GraphSpec(key, ch.below(1000) if seed is None else seed)
    n = ch.between(1, cfg.max_nodes)
    pool = list(cfg.idents)
    for i in range(n):
        k = ch.between(1, 5)
        start = ch.below(len(pool))
        idents = [pool[(start + j) % len(pool)] for j in range(k)]
        name = 'N{}'.format(i)
        g.nodes[name] = NodeSpec(name, idents)
    if cfg.complex:
        for i in range(ch.between(1, 2)):
            g.records['R{}'.format(i)] = fields = {}
            for j in range(ch.between(1, 3)):
                ftype = None
                if i and ch.chance(40):
                    ftype = (ch.pick(('rec', 'opt', 'seq')), 'R0')
                fields['c{}'.format(j)] = ftype
    shared_f = None
    crowded = None
    if cfg.large in ('fields', 'links'):
        crowded = ch.pick([g.root] + list(g.nodes.values()))
        many = ch.pick(sizes(cfg, (20, 60, 130, 270)
                             if cfg.large == 'fields' else (20, 70, 130)))
    for node in [g.root] + list(g.nodes.values()):
        gen_node(ch, cfg, g, node, shared_f,
                 **({cfg.large: many} if node is crowded else {}))
        if shared_f is None and cfg.shared and node.name is not None:
            fs = [f.func for f in node.fields() if f.func is not None]
            if fs:
                shared_f = fs[0]
    if cfg.large == 'objects':
        links = [i for i in g.root.links() if i.kind == 'many']
        if links:
            link = ch.pick(links)
            link.wide = ch.pick(sizes(cfg, (40, 110, 260, 520, 1050)))
            g.nodes[link.target].idents += range(5000, 5000 + link.wide)
            for other in g.root.links():
                if other.func is link.func:
                    other.wide = link.wide
            narrow(g, 2 if link.wide < 200 else 1)
    if cfg.large in ('depth', 'links'):
        narrow(g, 1)
    return g


FORMS = ('function', 'method', 'object', 'equal')


def new_func(ch, cfg, g, kind):
    style = ch.pick(cfg.styles)
    return g.func(kind, ctx=ch.chance(cfg.ctx), style=style,
                  pauses=ch.below(cfg.max_pauses + 1),
                  form=ch.pick(FORMS) if cfg.forms else 'function')


def requirable(node):
    """what can be loaded without saying more"""
    return [f for f in node.fields()
            if not any(o.default is REQUIRED for o in f.options)]


def gen_node(ch, cfg, g, node, shared_f=None, fields=None, links=None):
    prefix = 'r' if node.name is None else node.name.lower()
    if cfg.same_names:
        prefix = ''
    n_fields = ch.between(1 if node.name else 0, cfg.max_items)
    if node.name is None and cfg.root_links_only:
        n_fields = 0
    funcs = []
    for i in range(fields or n_fields):
        name = '{}f{}'.format(prefix, i)
        if fields and funcs and ch.chance(85):
            func = funcs[0]
        elif funcs and ch.chance(97 if i > 5 else 50):
            func = ch.pick(funcs)
        elif shared_f is not None and node.name and ch.chance(cfg.shared):
            func = shared_f
            funcs.append(func)
        else:
            func = new_func(ch, cfg, g, 'F')
            funcs.append(func)
        if (func, name) in g.served:
            # it would not know which node is meant
            func = new_func(ch, cfg, g, 'F')
        g.served.add((func, name))
        ctype = None
        if g.records and ch.chance(cfg.complex):
            ctype = (ch.pick(('rec', 'opt', 'seq')),
                     ch.pick(sorted(g.records)))
        node.add(FieldSpec(name, func,
                           gen_options(ch, cfg.options), ctype))
    n_links = ch.between(1 if node.name is None else 0, cfg.max_items - 1)
    for i in range(links or n_links):
        target = ch.pick(sorted(g.nodes))
        kind = ch.pick(('many', 'one', 'maybe'))
        plain = requirable(node)
        requires = None
        if plain and ch.chance(cfg.requires if node.name else 30):
            requires = ch.pick(plain).name
        options = gen_options(ch, cfg.options)
        func = None
        if ch.chance(60) if links else \
                cfg.shared and ch.chance(cfg.shared):
            for other in node.links():
                if (other.target, other.kind, option_names(other.options),
                        other.requires is None) == \
                        (target, kind, option_names(options),
                         requires is None):
                    func = other.func
        if func is None:
            func = new_func(ch, cfg, g, 'L')
        node.add(LinkSpec('{}l{}'.format(prefix, i), target, kind, func,
                          requires, options))


# -- queries ----------------------------------------------------------------
# a query node is a list of items (name, options | None, alias | None,
# sub-list | None)

class Item:
    __slots__ = ('name', 'opts', 'alias', 'sub')

    def __init__(self, name, opts=None, alias=None, sub=None):
        self.name = name
        self.opts = opts
        self.alias = alias
        self.sub = sub

    @property
    def key(self):
        return self.alias if self.alias is not None else self.name

    def __repr__(self):
        return '{}{}{}{}'.format(
            '{}: '.format(self.alias) if self.alias else '', self.name,
            '(' + canon(self.opts) + ')' if self.opts else '',
            repr(self.sub) if self.sub is not None else '')


def gen_opts(ch, options):
    out = {}
    for o in options:
        if o.default is REQUIRED or ch.chance(60):
            out[o.name] = ch.pick(OPTVALS if o.values is None else o.values)
    return out or None


def full_opts(spec, opts):
    """options as the loading function receives them"""
    if not spec.options:
        return None
    opts = opts or {}
    return {o.name: opts[o.name] if o.name in opts else o.default
            for o in spec.options}


MANY = 20       # with so many items to choose from, all of them are asked for


class QueryGen:

    def __init__(self, ch, cfg, g, max_items=24):
        self.ch = ch
        self.cfg = cfg
        self.g = g
        self.left = max_items
        self.every = False
        self.keys = 0

    def record(self, rec, depth=0, seen=None):
        ch = self.ch
        fields = self.g.records[rec]
        out = []
        seen = {} if seen is None else seen
        for name in ch.subset(sorted(fields)):
            ftype = fields[name]
            alias = None
            if ch.chance(self.cfg.alias):
                alias = 'y{}'.format(len(out))
            key = alias or name
            sig, sub_seen = seen.setdefault(key, (name, {}))
            if sig != name:
                continue
            sub = None if ftype is None else \
                self.record(ftype[1], depth + 1, sub_seen)
            out.append(Item(name, None, alias, sub))
        return out

    def node(self, spec, depth, seen=None):
        """`seen`: result keys of this place, shared by repeated links"""
        ch, cfg = self.ch, self.cfg
        out = []
        seen = {} if seen is None else seen
        choices = list(spec.items.values())
        if depth <= 0:
            choices = [i for i in choices if not i.link]
        if not choices:
            return out
        n = ch.between(1, cfg.max_items + 1)
        every = len(choices) >= MANY and ch.chance(80)
        if every and cfg.large == 'links':
            every = not self.every      # not again inside of each of them
            self.every = True
        for i in range(len(choices) if every else n):
            if self.left <= 0 and not every:
                break
            self.left -= 1
            item = choices[i] if every else ch.pick(choices)
            opts = gen_opts(ch, item.options)
            alias = None
            if ch.chance(cfg.alias):
                alias = ch.pick(('a', 'b', item.name, 'c'))
                if alias in spec.items and alias != item.name:
                    alias = None
            key = alias or item.name
            sig = (item.name, canon(opts))
            if key in seen and seen[key][0] != sig:
                self.keys += 1
                alias = key = 'q{}'.format(self.keys)
            elif key in seen and not ch.chance(cfg.dup or 10):
                continue
            fresh = key not in seen
            sub_seen = seen.setdefault(key, (sig, {}))[1]
            if item.link:
                sub = self.node(self.g.nodes[item.target], depth - 1,
                                sub_seen)
                if not sub and not ch.chance(10):
                    # links normally select something
                    fs = [f for f in self.g.nodes[item.target].fields()
                          if not any(o.default is REQUIRED
                                     for o in f.options)
                          and f.ctype is None]
                    if not fs:
                        if fresh:
                            del seen[key]
                        continue
                    name = ch.pick(fs).name
                    name_sig = (name, canon(None))
                    if sub_seen.setdefault(name, (name_sig, {}))[0] != \
                            name_sig:
                        continue
                    sub = [Item(name)]
            elif item.ctype is not None:
                sub = self.record(item.ctype[1], 0, sub_seen)
            else:
                sub = None
            out.append(Item(item.name, opts, alias, sub))
        return out


def gen_query(ch, cfg, g, max_items=24):
    q = QueryGen(ch, cfg, g, max_items).node(g.root, cfg.depth)
    if not q:
        link = g.root.links()[0]
        target = g.nodes[link.target]
        fs = [f for f in target.fields()
              if not any(o.default is REQUIRED for o in f.options)
              and f.ctype is None]
        opts = {o.name: 1 if o.values is None else o.values[0]
                for o in link.options if o.default is REQUIRED}
        q = [Item(link.name, opts or None, None,
                  [Item(fs[0].name)] if fs else [])]
    return q


# -- expressions ------------------------------------------------------------
# ('get', [names]) | ('opt', name) | ('lit', v) | ('fn', k, [args])
# | ('arg', [names], tree): only as an argument of a function
# | ('each', var, [names], body)
# | ('ifsome', var, [names], then, else) | ('if', c, a, b)
# | ('list', [..]) | ('dict', {..})

SCALAR = ('scalar',)


class ExprGen:
    """expressions over an object of `low`; `vars` maps the names in sight to
    what they stand for: ('node', NodeSpec) or ('rec', name of a record)"""

    def __init__(self, ch, low, node_name, options):
        self.ch = ch
        self.low = low
        self.node = low.nodes[node_name]
        self.options = options
        self.count = 0
        self.fns = 0
        self.shaped = any(o.shape is not None for o in options)

    def gen(self):
        return self.expr({'this': ('node', self.node)}, 'this', 2)

    def members(self, typ):
        """name -> None (scalar), or (how many, type of the value)"""
        out = {}
        if typ is SCALAR:
            return out
        if typ[0] == 'rec':
            for name, t in self.low.records[typ[1]].items():
                out[name] = t and (t[0], ('rec', t[1]))
            return out
        for name, spec in typ[1].items.items():
            if any(o.default is REQUIRED for o in spec.options):
                continue
            if spec.link:
                out[name] = ({'one': 'rec', 'maybe': 'opt',
                              'many': 'seq'}[spec.kind],
                             ('node', self.low.nodes[spec.target]))
            elif spec.scalars:
                out[name] = spec.scalars, SCALAR
            elif spec.ctype is None:
                out[name] = None
            else:
                out[name] = spec.ctype[0], ('rec', spec.ctype[1])
        return out

    def walk(self, vars_, base, want):
        """a path from `base` (None: the root of the graph) to a value of one
        of the wanted kinds, and the type of that value"""
        ch = self.ch
        path = [] if base is None else [base]
        typ = ('node', self.low.root) if base is None else vars_[base]
        for _ in range(3):
            all_ = self.members(typ)
            if not path:
                for o in self.options:
                    all_.pop(o.name, None)
                    if o.shape is not None:
                        all_[o.name] = o.shape
                for name in vars_:
                    all_.pop(name, None)
            ends = [n for n, m in all_.items()
                    if (None if m is None else m[0]) in want or
                    None in want and m is not None and m[1] is SCALAR]
            steps = [n for n, m in all_.items()
                     if m is not None and m[0] == 'rec']
            if ends and (not steps or ch.chance(70)):
                name = ch.pick(ends)
                m = all_[name]
                return (path + [name], None if m is None else m[0],
                        m and m[1])
            if not steps:
                return None
            name = ch.pick(steps)
            path.append(name)
            typ = all_[name][1]
        return None

    def base(self, vars_, last):
        """mostly the innermost variable, else any other or the root"""
        ch = self.ch
        if self.shaped and ch.chance(25):
            return None
        how = ch.below(10)
        if how < 6 or how < 8 and len(vars_) == 1:
            return last
        return None if how > 7 else ch.pick(sorted(vars_))

    def scalar(self, vars_, last):
        ch = self.ch
        for _ in range(3):
            if self.options and ch.chance(25):
                name = ch.pick(self.options).name
                if name not in vars_:
                    return ('opt', name)
            if ch.chance(10):
                break
            base = self.base(vars_, last)
            if base is not None and vars_[base] is SCALAR:
                return ('get', [base])
            found = self.walk(vars_, base, (None,))
            if found:
                return ('get', found[0])
        return ('lit', ch.pick((0, 1, 'lit', None, True, 2.5)))

    def tree(self, typ, depth):
        """fields (and links) of an object a function declares to need"""
        ch = self.ch
        out = {}
        all_ = self.members(typ)
        plain = [n for n, m in all_.items() if m is None or m[1] is SCALAR]
        if plain:
            for n in ch.subset(plain):
                out[n] = None
        if depth > 0:
            for n, m in all_.items():
                if n not in plain and ch.chance(30):
                    sub = self.tree(m[1], depth - 1)
                    if sub:
                        out[n] = (m[0], sub)
        return out

    def rec(self, vars_, last):
        """an argument of a function which declares what it needs of it"""
        ch = self.ch
        base = self.base(vars_, last)
        how, typ = 'rec', None
        if base is not None and ch.chance(50):
            path, typ = [base], vars_[base]
        else:
            found = self.walk(vars_, base, ('rec', 'opt', 'seq'))
            if found:
                path, how, typ = found
        if typ is None:
            return None
        tree = self.tree(typ, 1)
        return ('arg', path, (how, tree)) if tree else None

    def fn(self):
        self.fns += 1
        return self.fns

    def var(self, vars_):
        """a new name, or one which hides another"""
        ch = self.ch
        if ch.chance(20):
            names = list(vars_) + [o.name for o in self.options] + \
                list(self.low.root.items) + ['ctx', 'env']
            return ch.pick(names)
        self.count += 1
        return 'x{}'.format(self.count)

    def expr(self, vars_, last, depth):
        ch = self.ch
        kinds = ['scalar']
        if depth > 0:
            kinds += ['fn', 'rec', 'if', 'each', 'ifsome', 'list', 'dict']
        kind = ch.pick(kinds)
        if kind == 'fn' or kind == 'rec':
            args = []
            for i in range(ch.between(1, 3 if kind == 'fn' else 2)):
                arg = None
                if kind == 'rec' or ch.chance(20):
                    arg = self.rec(vars_, last)
                if arg is None and (kind == 'fn' or args):
                    arg = self.expr(vars_, last, depth - 1)
                if arg is not None:
                    args.append(arg)
            if args:
                return ('fn', self.fn(), args)
        if kind == 'if':
            return ('if', self.scalar(vars_, last),
                    self.expr(vars_, last, depth - 1),
                    self.expr(vars_, last, depth - 1))
        if kind in ('each', 'ifsome'):
            found = self.walk(vars_, self.base(vars_, last),
                              ('seq' if kind == 'each' else 'opt',))
            if found:
                path, _, typ = found
                var = self.var(vars_)
                inner = {k: v for k, v in vars_.items() if k != var}
                inner[var] = typ
                body = self.expr(inner, var, depth - 1)
                if kind == 'each':
                    return ('each', var, path, body)
                return ('ifsome', var, path, body,
                        self.expr(vars_, last, depth - 1))
        if kind == 'list':
            return ('list', [self.expr(vars_, last, depth - 1)
                             for _ in range(ch.between(1, 3))])
        if kind == 'dict':
            return ('dict', {'k{}'.format(i): self.expr(vars_, last, depth - 1)
                             for i in range(ch.between(1, 2))})
        return self.scalar(vars_, last)


def shaped(ch, low, option):
    """an option of a type, of which expressions may take values apart"""
    kind = ch.pick(('rec', 'opt', 'seq'))
    typ = SCALAR
    if low.records and (kind == 'rec' or ch.chance(60)):
        typ = ('rec', ch.pick(sorted(low.records)))
    elif kind == 'rec':
        kind = 'seq'
    option.shape = kind, typ
    salts = [(option.name, i) for i in range(ch.between(1, 4))]
    if typ is not SCALAR:
        option.values = [typed_value(low, (kind, typ[1]), s) for s in salts]
    elif kind == 'seq':
        option.values = [[h(low.seed, s) % 10 + i for i in range(n)]
                         for n, s in enumerate(salts)]
    else:
        option.values = [None, 0, 7, 'text'][:len(salts)]
    option.type = 'shape', option.shape, low
    if option.default is not REQUIRED:
        option.default = ch.pick(option.values)


def gen_high(ch, cfg, low, key='h', seed=None):
    """a graph whose nodes are defined by expressions over `low`"""
    g = GraphSpec(key, ch.below(1000) if seed is None else seed)
    names = sorted(low.nodes)
    subs = {}
    for name in ch.subset(names):
        hname = 'H' + name
        g.nodes[hname] = NodeSpec(hname, low.nodes[name].idents)
        g.subs[hname] = (low, name)
        subs[hname] = hname
        if ch.chance(20):
            # another node over the same one
            twin = 'T' + name
            g.nodes[twin] = NodeSpec(twin, low.nodes[name].idents)
            subs[twin] = hname if ch.chance(60) else twin
            g.subs[subs[twin]] = (low, name)
    direct_funcs = []
    for hname, node in g.nodes.items():
        lname = g.subs[subs[hname]][1]
        prefix = '' if cfg.same_names else hname.lower()
        n = ch.between(1, cfg.max_items)
        if cfg.large == 'fields' and ch.chance(60):
            n = ch.pick(sizes(cfg, (20, 40, 80)))
        for i in range(n):
            if i and ch.chance(20):
                # ordinary field next to expressions
                fname = '{}d{}'.format(prefix, i)
                func = ch.pick(direct_funcs) \
                    if direct_funcs and ch.chance(50) else None
                if func is None or (func, fname) in g.served:
                    func = new_func(ch, cfg, g, 'F')
                    direct_funcs.append(func)
                g.served.add((func, fname))
                node.add(FieldSpec(fname, func, gen_options(ch, cfg.options)))
                continue
            options = gen_options(ch, cfg.options)
            base = ch.below(2)
            for j, o in enumerate(options):
                o.name = 'opt{}'.format(abs(base - j))
                if not j and ch.chance(15):
                    # as something the expression could read otherwise
                    o.name = ch.pick(list(low.root.items) + ['ctx', 'env'])
                if ch.chance(35):
                    shaped(ch, low, o)
            expr = ExprGen(ch, low, lname, options).gen()
            node.add(FieldSpec('{}e{}'.format(prefix, i), None, options,
                               None, expr, subs[hname]))
    all_names = sorted(g.nodes)
    for i, hname in enumerate([None] + all_names):
        node = g.root if hname is None else g.nodes[hname]
        prefix = 'r' if hname is None else \
            '' if cfg.same_names else hname.lower()
        n = ch.between(1, 2) if hname is None else ch.below(3)
        for j in range(n):
            target = ch.pick(all_names)
            kind = ch.pick(('many', 'one', 'maybe'))
            plain = requirable(node)
            requires = None
            if plain and ch.chance(cfg.requires):
                requires = ch.pick(plain).name
            link = node.add(LinkSpec('{}l{}'.format(prefix, j), target, kind,
                                     new_func(ch, cfg, g, 'L'), requires))
            count = len(g.nodes[target].idents)
            if hname is None and kind == 'many' and count > 30:
                link.wide = count
    if cfg.large or any(len(n.idents) > 30 for n in low.nodes.values()):
        narrow(g, 1)
        # each object of `g` may look at all of them
        for link in low.root.links():
            link.wide = None
    return g


def gen_higher(ch, cfg, low):
    """one or two levels of expressions"""
    g = gen_high(ch, cfg, low)
    if ch.chance(20):
        g = gen_high(ch, cfg, g, key='t')
    return g


def layers(g):
    """the graph and those below it"""
    out = [g]
    for low, _ in g.subs.values():
        out += [x for x in layers(low) if all(x is not y for y in out)]
    return out
