"""Reference model of GraphQL introspection: the description of a graph, as
types, fields and arguments; and queries for it. Knows nothing of hiku."""
import json

from .core import canon
from .gen import Item, REQUIRED
from .model import merged

SCALARS = ('String', 'Int', 'Boolean', 'Float', 'Any')
DECL = {
    'Any': ('SCALAR', 'Any'),
    'Boolean': ('NN', ('SCALAR', 'Boolean')),
    'String': ('NN', ('SCALAR', 'String')),
    'Integer': ('NN', ('SCALAR', 'Int')),
    'Float': ('NN', ('SCALAR', 'Float')),
    'Optional[String]': ('SCALAR', 'String'),
    'Sequence[Integer]': ('NN', ('LIST', ('NN', ('SCALAR', 'Int')))),
    'Sequence[Optional[String]]': ('NN', ('LIST', ('SCALAR', 'String'))),
    'Optional[Sequence[String]]': ('LIST', ('NN', ('SCALAR', 'String'))),
    'Mapping[String, Integer]': ('SCALAR', 'Any'),
}


def ctype_of(ctype):
    if ctype is None:
        return ('SCALAR', 'Any')
    kind, rec = ctype
    ref = ('NN', ('OBJECT', rec))
    return {'rec': ref, 'opt': ref[1], 'seq': ('NN', ('LIST', ref))}[kind]


class Schema:

    def __init__(self, g, m=None):
        self.g = g
        self.m = m

    def objects(self):
        """nodes by name, the roots included"""
        out = dict(self.g.nodes)
        out['Query'] = self.g.root
        if self.m is not None:
            out['Mutation'] = self.m.root
        return out

    # each function gives {name: plain value | (kind, value)}

    def type(self, t):
        kind, arg = t
        out = {'kind': {'NN': 'NON_NULL', 'INPUT': 'INPUT_OBJECT'}.get(
            kind, kind), 'name': None, 'description': None,
            'fields': ('Field*', []), 'inputFields': ('Input*', []),
            'interfaces': ('Type*', []), 'possibleTypes': ('Type*', []),
            'enumValues': ('Enum*', []), 'ofType': ('Type?', None)}
        if kind in ('NN', 'LIST'):
            out['ofType'] = ('Type?', arg)
        elif kind == 'INPUT':
            out['name'] = 'IO' + arg
            out['inputFields'] = ('Input*', [('input', arg, f) for f in
                                             self.g.records[arg]])
        elif kind == 'OBJECT':
            out['name'] = arg
            objs = self.objects()
            if arg in objs:
                out['description'] = objs[arg].descr
                names = list(objs[arg].items)
            else:
                names = list(self.g.records[arg])
            out['fields'] = ('Field*', [(arg, f) for f in names])
        else:
            out['name'] = arg
        return out

    def field(self, ident):
        owner, name = ident
        out = {'name': name, 'isDeprecated': False,
               'deprecationReason': None, 'description': None}
        objs = self.objects()
        if owner in objs:
            spec = objs[owner].items[name]
            out['description'] = spec.descr
            out['args'] = ('Input*', [('arg', spec, o)
                                      for o in spec.options])
            if spec.link:
                ref = ('NN', ('OBJECT', spec.target))
                t = {'one': ref, 'maybe': ref[1],
                     'many': ('NN', ('LIST', ref))}[spec.kind]
            elif spec.decl is not None:
                t = DECL[spec.decl]
            else:
                t = ctype_of(spec.ctype)
        else:
            out['args'] = ('Input*', [])
            t = ctype_of(self.g.records[owner][name])
        out['type'] = ('Type', t)
        return out

    def input(self, ident):
        if ident[0] == 'arg':
            o = ident[2]
            if o.type is None:
                t = ('SCALAR', 'Any')
            elif isinstance(o.type, tuple):
                t = ('NN', ('INPUT', o.type[1]))
            else:
                t = DECL[o.type]
            return {'name': o.name, 'description': o.descr,
                    'type': ('Type', t), 'defaultValue':
                    None if o.default is REQUIRED else json.dumps(o.default)}
        if ident[0] == 'input':
            ftype = self.g.records[ident[1]][ident[2]]
            t = ('SCALAR', 'Any')
            if ftype is not None:
                kind, rec = ftype
                ref = ('NN', ('INPUT', rec))
                t = {'rec': ref, 'opt': ref[1],
                     'seq': ('NN', ('LIST', ref))}[kind]
            return {'name': ident[2], 'description': None,
                    'type': ('Type', t), 'defaultValue': None}
        return {'name': 'if', 'type': ('Type', ('NN', ('SCALAR', 'Boolean'))),
                'defaultValue': None}

    def directive(self, name):
        return {'name': name, 'locations': ['FIELD', 'FRAGMENT_SPREAD',
                                            'INLINE_FRAGMENT'],
                'args': ('Input*', [('directive', name)])}

    def schema(self, _):
        types = [('SCALAR', n) for n in SCALARS]
        types += [('OBJECT', n) for n in self.objects()]
        for r in self.g.records:
            types += [('OBJECT', r), ('INPUT', r)]
        return {'types': ('Type*', types),
                'queryType': ('Type', ('OBJECT', 'Query')),
                'mutationType': ('Type?', None if self.m is None else
                                 ('OBJECT', 'Mutation')),
                'subscriptionType': ('Type?', None),
                'directives': ('Directive*', ['skip', 'include'])}

    def select(self, kind, value, items):
        many = kind.endswith('*')
        name = kind.rstrip('*?')
        if many:
            # the order of descriptions is not promised
            return sorted((self.select(name, v, items) for v in value),
                          key=canon)
        if value is None:
            return None
        data = getattr(self, name.lower())(value)
        out = {}
        for key, it in merged(items).items():
            if it.name == '__typename':
                out[key] = '__InputValue' if name == 'Input' else '__' + name
                continue
            v = data[it.name]
            out[key] = self.select(v[0], v[1], it.sub) \
                if isinstance(v, tuple) else v
        return out

    def root(self, it):
        """the answer for an item __schema or __type"""
        if it.name == '__schema':
            return self.select('Schema', 0, it.sub)
        name = it.opts['name']
        return self.select('Type?', ('OBJECT', name) if name in self.objects()
                           else None, it.sub)


def unordered(value):
    if isinstance(value, list):
        return sorted((unordered(v) for v in value), key=canon)
    if isinstance(value, dict):
        return {k: unordered(v) for k, v in value.items()}
    return value


PLAIN = {'Type': ('kind', 'name', 'description', '__typename'),
         'Field': ('name', 'description', 'isDeprecated', 'deprecationReason',
                   '__typename'),
         'Input': ('name', 'defaultValue', '__typename'),
         'Directive': ('name', '__typename'),
         'Enum': ('name',),
         'Schema': ('__typename',)}
LINKS = {'Type': (('fields', 'Field'), ('ofType', 'Type'),
                  ('inputFields', 'Input'), ('interfaces', 'Type'),
                  ('possibleTypes', 'Type'), ('enumValues', 'Enum')),
         'Field': (('args', 'Input'), ('type', 'Type')),
         'Input': (('type', 'Type'),),
         'Directive': (('args', 'Input'),),
         'Enum': (),
         'Schema': (('types', 'Type'), ('queryType', 'Type'),
                    ('mutationType', 'Type'), ('subscriptionType', 'Type'),
                    ('directives', 'Directive'))}


def gen_sel(ch, kind, depth):
    out = []
    for name in PLAIN[kind]:
        if ch.chance(50):
            alias = 'i{}'.format(len(out)) if ch.chance(20) else None
            out.append(Item(name, None, alias))
    if depth > 0 and LINKS[kind]:
        for _ in range(ch.between(0 if out else 1, 2)):
            name, target = ch.pick(LINKS[kind])
            if any(i.name == name for i in out):
                continue
            opts = None
            if name in ('fields', 'enumValues') and ch.chance(30):
                opts = {'includeDeprecated': ch.chance(50)}
            out.append(Item(name, opts, None, gen_sel(ch, target, depth - 1)))
    if not out:
        out.append(Item('__typename'))
    return out


def gen_root(ch, schema, n):
    """an item __schema or __type of the root"""
    alias = 'intro{}'.format(n)
    if ch.chance(60):
        return Item('__schema', None, alias, gen_sel(ch, 'Schema',
                                                     ch.pick((3, 4))))
    name = ch.pick(sorted(schema.objects()) + ['Missing'])
    return Item('__type', {'name': name}, alias,
                gen_sel(ch, 'Type', ch.pick((2, 3))))
