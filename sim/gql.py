"""Writes generated queries as GraphQL documents."""
import json

from .core import canon


def literal(v):
    if v is None:
        return 'null'
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    if isinstance(v, str):
        return json.dumps(v, ensure_ascii=False)
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(literal(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{' + ', '.join('{}: {}'.format(k, literal(x))
                               for k, x in v.items()) + '}'
    raise TypeError(v)


class Renderer:
    """fragments, variables and directives leave the meaning unchanged"""

    def __init__(self, ch, vars_=None, frags=None, dirs=None, prefix=''):
        self.ch = ch
        self.prefix = prefix
        self.origins = {}       # variable -> (item, option, may be null)
        self.use_vars = ch.pick((0, 40)) if vars_ is None else vars_
        self.use_frags = ch.pick((0, 25)) if frags is None else frags
        self.use_dirs = ch.pick((0, 15)) if dirs is None else dirs
        self.vars = {}
        self.decls = []
        self.frags = []
        self.known = {}         # what a fragment selects -> its name
        self.reuse = True
        self.named = {}         # value -> variable

    def value(self, v, origin=None):
        ch = self.ch
        if self.use_vars and ch.chance(self.use_vars):
            key = canon(v)
            if self.reuse and key in self.named and ch.chance(40):
                return '$' + self.named[key]    # one variable, several places
            name = '{}v{}'.format(self.prefix, len(self.decls))
            how = ch.below(3)
            if origin is not None:
                self.origins[name] = origin + (how == 0,)
            type_ = ch.pick(('Any', 'Any', 'Int', '[String!]', 'Boolean'))
            if how == 0:
                self.decls.append('${}: {}'.format(name, type_))
                self.vars[name] = v
            elif how == 1 and v is not None:
                self.decls.append('${}: {} = {}'.format(
                    name, type_, literal(v)))
            elif how == 2 and v is not None:
                self.decls.append('${}: {}! = 77'.format(name, type_))
                self.vars[name] = v
            else:
                # neither a value nor a default: null
                self.decls.append('${}: {}'.format(name, type_))
                self.vars[name] = v
            self.named[key] = name
            return '$' + name
        if self.use_vars and v and isinstance(v, (list, tuple, dict)) and \
                ch.chance(50):
            # variables inside of lists and objects
            if isinstance(v, dict):
                return '{' + ' '.join('{}: {}'.format(k, self.value(x))
                                      for k, x in v.items()) + '}'
            return '[' + ', '.join(map(self.value, v)) + ']'
        return literal(v)

    def directive(self):
        ch = self.ch
        if not self.use_dirs or not ch.chance(self.use_dirs):
            return ''
        how = ch.below(5)
        if how < 2:
            return ' @skip(if: {})'.format(self.value(False))
        if how < 4:
            return ' @include(if: {})'.format(self.value(True))
        return self.both(False, True)

    def both(self, skip, include):
        """a selection stays if both directives say so"""
        parts = ['@skip(if: {})'.format(self.value(skip)),
                 '@include(if: {})'.format(self.value(include))]
        if self.ch.chance(50):
            parts.reverse()
        return ' ' + ' '.join(parts)

    def item(self, it):
        out = ''
        if it.alias is not None:
            out += it.alias + ': '
        out += it.name
        if it.opts:
            out += '(' + ', '.join('{}: {}'.format(k, self.value(v, (it, k)))
                                   for k, v in it.opts.items()) + ')'
        out += self.directive()
        if it.sub is not None:
            out += ' ' + self.selection(it.sub)
        return out

    def dropped(self):
        """a selection that is not included"""
        ch = self.ch
        how = ch.below(5)
        if how < 2:
            return 'gone @skip(if: {})'.format(self.value(True))
        if how < 4:
            return 'gone @include(if: {}) {{ away }}'.format(self.value(False))
        skip, include = ch.pick(((False, False), (True, True), (True, False)))
        return ch.pick(('gone', '... on Any', '... on Any')) \
            + self.both(skip, include) + ' { away }'

    def selection(self, items):
        parts = self.selections(items) or [self.dropped()]
        return '{ ' + ' '.join(parts) + ' }'

    def selections(self, items):
        ch = self.ch
        parts = []
        i = 0
        items = list(items)
        while i < len(items):
            if self.use_frags and ch.chance(self.use_frags):
                on = ch.pick(('... on Any', '... on Any', '...'))
                n = ch.between(1, len(items) - i)
                key = repr(items[i:])
                if key in self.known and self.reuse and ch.chance(75):
                    # one fragment, several places
                    parts.append('...' + self.known[key] + self.directive())
                    break
                if i + n < len(items):
                    key = repr(items[i:i + n])
                body = self.selection(items[i:i + n])
                if ch.chance(50):
                    name = '{}F{}'.format(self.prefix, len(self.frags))
                    self.known[key] = name
                    self.frags.append('fragment {} on Any {}'.format(
                        name, body))
                    parts.append('...' + name + self.directive())
                else:
                    parts.append(on + self.directive() + ' ' + body)
                i += n
            else:
                parts.append(self.item(items[i]))
                i += 1
            if self.use_dirs and ch.chance(self.use_dirs):
                parts.append(self.dropped())
        return parts

    def operation(self, items, kind='query', name='Op'):
        body = self.selection(items)
        head = kind if name is None else '{} {}'.format(kind, name)
        if self.decls:
            head += '(' + ', '.join(self.decls) + ')'
        elif name is None and kind == 'query' and self.ch.chance(50):
            head = ''
        return ' '.join([head + ' ' + body] + self.frags), dict(self.vars)
