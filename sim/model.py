"""Reference model: evaluates queries object by object on the generated data,
and derives which loads an execution has to make and what each depends on.
Knows nothing of hiku."""
from .core import canon
from .gen import NOTHING, field_value, link_value, full_opts, Item


def merged(items):
    """merges a selection by result key: [(key, Item with merged sub)]"""
    out = {}
    for it in items:
        if it.key in out:
            if it.sub is not None:
                prev = out[it.key]
                out[it.key] = Item(prev.name, prev.opts, prev.alias,
                                   prev.sub + it.sub)
        else:
            out[it.key] = Item(it.name, it.opts, it.alias, it.sub)
    return out


# -- values -----------------------------------------------------------------

class Obj:
    """an object of the model, as expressions see it"""

    def __init__(self, g, node, ident, ctx):
        self.g = g
        self.node = node
        self.ident = ident
        self.ctx = ctx

    def get(self, name):
        spec = self.node.items[name]
        if spec.link:
            return link_objects(self, spec, None)
        return value_of(self, spec, None)


def ctx_of(func, ctx):
    return ctx if func.ctx and ctx is not None else None


def value_of(obj, spec, opts):
    if spec.expr is not None:
        low, lname = obj.g.subs[spec.sub]
        this = Obj(low, low.nodes[lname], obj.ident, obj.ctx)
        root = Obj(low, low.root, None, obj.ctx)
        opts = full_opts(spec, opts)
        return eval_expr(spec.expr, dict(opts or {}, this=this), root, opts)
    return field_value(obj.g, spec, obj.ident, full_opts(spec, opts),
                       ctx_of(spec.func, obj.ctx))


def link_ids(obj, spec, opts):
    req = None
    if spec.requires is not None:
        req = value_of(obj, obj.node.items[spec.requires], None)
        req = ('req', canon(req))
    return link_value(obj.g, spec, req, full_opts(spec, opts),
                      ctx_of(spec.func, obj.ctx))


def link_objects(obj, spec, opts):
    ids = link_ids(obj, spec, opts)
    target = obj.g.nodes[spec.target]
    if spec.kind == 'many':
        return [Obj(obj.g, target, i, obj.ctx) for i in ids]
    if ids is NOTHING:
        return None
    return Obj(obj.g, target, ids, obj.ctx)


def project(value, how, tree):
    """what a function with a declared argument type reads of its argument"""
    if how == 'seq':
        return [project(x, 'rec', tree) for x in value]
    if how == 'opt' and value is None:
        return None
    out = {}
    for name, sub in tree.items():
        v = value.get(name) if isinstance(value, Obj) else value[name]
        out[name] = v if sub is None else project(v, *sub)
    return out


def fn_body(k, args):
    return 'fn{}({})'.format(k, ','.join(canon(a) for a in args))


def eval_path(path, env, root):
    v = env[path[0]] if path[0] in env else root.get(path[0])
    for name in path[1:]:
        v = v.get(name) if isinstance(v, Obj) else v[name]
    return v


def eval_expr(e, env, root, opts):
    kind = e[0]
    if kind == 'get':
        return eval_path(e[1], env, root)
    if kind == 'opt':
        return opts[e[1]]
    if kind == 'lit':
        return e[1]
    if kind == 'fn':
        return fn_body(e[1], [eval_expr(a, env, root, opts) for a in e[2]])
    if kind == 'arg':
        return project(eval_path(e[1], env, root), *e[2])
    if kind == 'each':
        col = eval_path(e[2], env, root)
        return [eval_expr(e[3], dict(env, **{e[1]: x}), root, opts)
                for x in col]
    if kind == 'ifsome':
        v = eval_path(e[2], env, root)
        if v is None:
            return eval_expr(e[4], env, root, opts)
        return eval_expr(e[3], dict(env, **{e[1]: v}), root, opts)
    if kind == 'if':
        branch = e[2] if eval_expr(e[1], env, root, opts) else e[3]
        return eval_expr(branch, env, root, opts)
    if kind == 'list':
        return [eval_expr(x, env, root, opts) for x in e[1]]
    if kind == 'dict':
        return {k: eval_expr(x, env, root, opts) for k, x in e[1].items()}
    raise AssertionError(kind)


# -- requirements of expressions --------------------------------------------

def need(tree, path):
    for name in path:
        nxt = tree.setdefault(name, {})
        tree = nxt
    return tree


def need_tree(tree, sub):
    for name, s in sub.items():
        t = tree.setdefault(name, {})
        if s is not None:
            need_tree(t, s[1])


def expr_needs(e, vars_, tree):
    """collects {name: subtree} read from the root of the low-level graph"""
    kind = e[0]

    def full(path):
        return vars_[path[0]] + list(path[1:]) if path[0] in vars_ \
            else list(path)

    if kind == 'get':
        need(tree, full(e[1]))
    elif kind == 'fn':
        for a in e[2]:
            expr_needs(a, vars_, tree)
    elif kind == 'arg':
        need_tree(need(tree, full(e[1])), e[2][1])
    elif kind == 'each':
        need(tree, full(e[2]))
        expr_needs(e[3], dict(vars_, **{e[1]: full(e[2])}), tree)
    elif kind == 'ifsome':
        need(tree, full(e[2]))
        expr_needs(e[3], dict(vars_, **{e[1]: full(e[2])}), tree)
        expr_needs(e[4], vars_, tree)
    elif kind == 'if':
        for x in e[1:]:
            expr_needs(x, vars_, tree)
    elif kind == 'list':
        for x in e[1]:
            expr_needs(x, vars_, tree)
    elif kind == 'dict':
        for x in e[1].values():
            expr_needs(x, vars_, tree)


def tree_to_items(g, node, tree):
    out = []
    for name, sub in tree.items():
        spec = node.items[name]
        if spec.link:
            out.append(Item(name, None, None, tree_to_items(
                g, g.nodes[spec.target], sub)))
        else:
            out.append(Item(name, None, None, None))
    return out


# -- expected results -------------------------------------------------------

def select(value, ctype, items, g):
    """projects a value of a complex field"""
    if ctype is None:
        return value
    kind, rec = ctype
    if kind == 'seq':
        return [select(v, ('rec', rec), items, g) for v in value]
    if kind == 'opt':
        return None if value is None else select(value, ('rec', rec), items, g)
    fields = g.records[rec]
    out = {}
    for key, it in merged(items).items():
        if it.sub is None:
            out[key] = value[it.name]
        else:
            out[key] = select(value[it.name], fields[it.name], it.sub, g)
    return out


def expected(obj, items):
    """the denormalized result of a selection on one object"""
    out = {}
    for key, it in merged(items).items():
        spec = obj.node.items[it.name]
        if spec.link:
            v = link_objects(obj, spec, it.opts)
            if spec.kind == 'many':
                out[key] = [expected(o, it.sub) for o in v]
            else:
                out[key] = None if v is None else expected(v, it.sub)
        else:
            v = value_of(obj, spec, it.opts)
            out[key] = v if it.sub is None else select(v, spec.ctype, it.sub,
                                                       obj.g)
    return out


# -- expected loads ---------------------------------------------------------

class Load:
    """one expected call of a loading function, or (func None) a group"""
    __slots__ = ('key', 'func', 'deps', 'label', 'step', 'optional', 'members',
                 'names', 'fields', 'g', 'node')

    def __init__(self, key, func, deps, label):
        self.key = key
        self.func = func
        self.deps = deps
        self.label = label
        self.step = None
        self.optional = False
        self.members = ()
        self.names = ()
        self.fields = ()      # names, as often as asked for
        self.g = None

    def __repr__(self):
        return '<{}>'.format(self.label)


def field_key(func_id, fields, ids, ctx):
    return ('F', func_id, frozenset(fields),
            None if ids is None else frozenset(canon(i) for i in ids), ctx)


def link_key(func_id, reqs, opts, ctx):
    return ('L', func_id, reqs, None if opts is None else canon(opts), ctx)


class Loads:
    """all loads one execution has to make"""

    def __init__(self, g, items, ctx=None, ordered=False):
        self.ctx = ctx
        self.all = []
        root = Obj(g, g.root, None, ctx)
        self.steps = None
        if ordered:
            self.ordered(root, items)
        else:
            self.place(g, g.root, [root], items, None, '', None)

    def add(self, load):
        self.all.append(load)
        return load

    def real(self):
        return [x for x in self.all if x.func is not None]

    def field_groups(self, node, items):
        """[(provider, [(spec, opts)])], name -> provider"""
        groups = {}
        provider = {}
        for key, it in merged(items).items():
            spec = node.items[it.name]
            names = []
            if spec.link:
                if spec.requires is not None:
                    names.append((node.items[spec.requires], None))
            else:
                names.append((spec, it.opts))
            for fspec, opts in names:
                p = fspec.sub if fspec.expr is not None else fspec.func
                provider[fspec.name] = p
                groups.setdefault(p, []).append((fspec, opts))
        return groups, provider

    def load_fields(self, g, node, objs, group, p, arrival, path):
        """a load (or group of loads of a sub-graph) for one provider"""
        ids = None if node.name is None else [o.ident for o in objs]
        names = {(spec.name, canon(full_opts(spec, opts)))
                 for spec, opts in group}
        if isinstance(p, str):
            low, lname = g.subs[p]
            tree = {}
            for spec, _ in group:
                # options hide names of the graph
                vars_ = {o.name: ['%'] for o in spec.options}
                vars_['this'] = ['this']
                expr_needs(spec.expr, vars_, tree)
            tree.pop('%', None)
            before = len(self.all)
            this = tree.pop('this', {})
            lnode = low.nodes[lname]
            lobjs = [Obj(low, lnode, o.ident, self.ctx) for o in objs]
            lpath = '{}<{}>'.format(path, p)
            self.place(low, lnode, lobjs, tree_to_items(low, lnode, this),
                       arrival, lpath + '/this', None)
            lroot = Obj(low, low.root, None, self.ctx)
            self.place(low, low.root, [lroot],
                       tree_to_items(low, low.root, tree), arrival, lpath,
                       None)
            members = self.all[before:]
            load = Load(None, None, list(members) +
                        ([arrival] if arrival else []), lpath)
            load.members = members
            load.names = tuple(sorted({s.name for s, _ in group}))
            load.fields, load.g, load.node = [s.name for s, _ in group], g, node
            return self.add(load)
        key = field_key(p.id, names, ids, canon(self.ctx) if p.ctx else None)
        load = Load(key, p, [arrival] if arrival else [],
                    '{} {}'.format(path, sorted(names)))
        load.names = tuple(sorted({s.name for s, _ in group}))
        load.fields, load.g, load.node = [s.name for s, _ in group], g, node
        return self.add(load)

    def place(self, g, node, objs, items, arrival, path, _):
        groups, provider = self.field_groups(node, items)
        loads = {}
        for p, group in groups.items():
            loads[p] = self.load_fields(g, node, objs, group, p, arrival, path)
        for key, it in merged(items).items():
            spec = node.items[it.name]
            if spec.link:
                deps = [arrival] if arrival else []
                if spec.requires is not None:
                    deps.append(loads[provider[spec.requires]])
                self.load_link(g, node, objs, spec, it, deps,
                               '{}/{}'.format(path, key))

    def load_link(self, g, node, objs, spec, it, deps, path):
        reqs = None
        if spec.requires is not None:
            vals = [canon(value_of(o, node.items[spec.requires], None))
                    for o in objs]
            reqs = vals[0] if node.name is None else frozenset(vals)
        func = spec.func
        key = link_key(func.id, reqs, full_opts(spec, it.opts),
                       canon(self.ctx) if func.ctx else None)
        load = self.add(Load(key, func, deps, path))
        load.names = (spec.name,)
        load.g, load.node = g, node
        targets = []
        for o in objs:
            v = link_objects(o, spec, it.opts)
            if v is None:
                continue
            targets.extend(v if isinstance(v, list) else [v])
            if node.name is not None and spec.requires is None:
                break
        if targets:
            self.place(g, g.nodes[spec.target], targets, it.sub, load, path,
                       None)
        return load

    def ordered(self, root, items):
        """top level runs step by step; a step is a link, or adjacent fields
        of one function"""
        g, node = root.g, root.node
        plan = []      # (provider | None, [(spec, opts)] | (spec, item))
        for key, it in merged(items).items():
            spec = node.items[it.name]
            fields = []
            if not spec.link:
                fields = [(spec, it.opts, False)]
            elif spec.requires is not None:
                fields = [(node.items[spec.requires], None, True)]
            for fspec, opts, req in fields:
                p = fspec.sub if fspec.expr is not None else fspec.func
                if plan and plan[-1][0] is p:
                    plan[-1][1].append((fspec, opts, req))
                else:
                    plan.append((p, [(fspec, opts, req)]))
            if spec.link:
                plan.append((None, (spec, it)))
        self.steps = []
        prev = None
        loaded = set()
        for p, what in plan:
            if p is None:
                spec, it = what
                deps = [prev] if prev else []
                load = self.load_link(g, node, [root], spec, it, deps,
                                      '/' + it.key)
            else:
                group = [(s, o) for s, o, _ in what]
                load = self.load_fields(g, node, [root], group, p, prev, '')
                sigs = {(s.name, canon(full_opts(s, o))) for s, o in group}
                # re-loading a value that is already there is a matter of
                # implementation
                if sigs <= loaded and all(r for _, _, r in what):
                    load.optional = True
                loaded |= sigs
            load.step = len(self.steps)
            self.steps.append(load)
            prev = load
