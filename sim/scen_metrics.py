"""C13: graphs instrumented with metrics."""
import asyncio
import importlib.util

import prometheus_client
from prometheus_client import CollectorRegistry, Summary

from hiku.graph import apply
from hiku.telemetry import prometheus as imported

from .core import Violation, short_tb
from .gen import Config, gen_graph, gen_query, gen_higher, layers
from .harness import Sim, check_result, check_loads
from .multi import make_jobs
from .scen_faults import Faults, explained
from .scen_shared import schedule, nested, STYLES, NESTED, MODE
from .seams import CLOCK
from .threads import PREEMPT

_CODE = None


def fresh_module():
    """the module as a new process would import it"""
    global _CODE
    path = imported.__file__
    if _CODE is None:
        with open(path) as f:
            _CODE = compile(f.read(), path, 'exec')
        PREEMPT.add(_CODE)
    spec = importlib.util.spec_from_file_location(imported.__name__, path)
    mod = importlib.util.module_from_spec(spec)
    exec(_CODE, mod.__dict__)
    return mod


def clear_default_registry(before):
    reg = prometheus_client.REGISTRY
    for c in list(reg._collector_to_names):
        if c not in before:
            reg.unregister(c)


class Spy:
    """a real Summary that also remembers each observation"""

    def __init__(self):
        self.registry = CollectorRegistry()
        spy = self
        self.seen = []

        class SpySummary(Summary):

            def observe(self, amount):
                spy.seen.append((tuple(self._labelvalues), amount, CLOCK.now))
                Summary.observe(self, amount)

        self.metric = SpySummary('graph_field_time', 'spied time',
                                 ['graph', 'node', 'field'],
                                 registry=self.registry)


def samples(registry, since=()):
    """{labels: [count, sum]}"""
    out = {}
    for family in registry.collect():
        for s in family.samples:
            lab = s.labels
            if set(lab) != {'graph', 'node', 'field'}:
                continue
            key = (lab['graph'], lab['node'], lab['field'])
            if s.name.endswith('_count'):
                out.setdefault(key, [0, 0])[0] = s.value
            elif s.name.endswith('_sum'):
                out.setdefault(key, [0, 0])[1] = s.value
    return {k: v for k, v in out.items() if v[0]}


class Label:

    def __init__(self):
        self.exact = []       # durations of surely recorded loads
        self.lower = []       # at least that long, surely recorded
        self.maybe = []       # lower bounds of those possibly recorded


def nodes_of(graphs):
    """(func id, field name) -> node; func id -> [(node, link name)];
    func id -> graph key"""
    where, links, keys = {}, {}, {}
    for g in graphs:
        for node in [g.root] + list(g.nodes.values()):
            for it in node.items.values():
                if it.link:
                    links.setdefault(it.func.id, []).append((node, it.name))
                elif it.func is not None:
                    assert (it.func.id, it.name) not in where
                    where[it.func.id, it.name] = node
        for f in g.funcs:
            keys[f.id] = g.key
    return where, links, keys


def expect(world, jobs, graphs, names, exact, group_exact, plain):
    """{(graph, node, field): Label} of what must have been recorded

    plain: (graph key, execs) - executions of this graph as it was before
    it was instrumented"""
    def skip(gkey, exec_):
        return gkey not in names or (gkey == plain[0] and exec_ in plain[1])
    where, links, keys = nodes_of(graphs)
    out = {}

    def label(gkey, node, name):
        return out.setdefault((names[gkey], node.name or 'Root', name),
                              Label())
    ambiguous = {}        # link functions that serve several links
    for c in world.calls:
        gkey = keys[c.func.id]
        if skip(gkey, c.exec):
            continue
        if c.state == 'done':
            dur = c.end - c.submit
        elif c.state in ('failed', 'cancelled'):
            dur = None
        else:
            raise Violation('load-unfinished', '{} is {}'.format(c, c.state))
        if c.info[0] == 'F':
            used = {}
            for n in c.info[1]:
                used[n] = used.get(n, 0) + 1
            for n, k in used.items():
                lab = label(gkey, where[c.func.id, n], n)
                if dur is None:
                    lab.maybe.extend([0] * k)
                    continue
                (lab.exact if exact else lab.lower).append(dur)
                lab.maybe.extend([dur] * (k - 1))
        elif len(links[c.func.id]) == 1:
            lab = label(gkey, *links[c.func.id][0])
            if dur is None:
                lab.maybe.append(0)
            else:
                (lab.exact if exact else lab.lower).append(dur)
        else:
            a = ambiguous.setdefault(c.func.id, [
                gkey, links[c.func.id], 0, 0])
            if dur is None:
                a[3] += 1
            else:
                a[2] += 1
            for node, n in links[c.func.id]:
                label(gkey, node, n).maybe.append(0)
    for job in jobs:
        ok = job.outcome[0] == 'ok'
        times = {}
        for x in job.loads.real():
            times[x.key] = times.get(x.key, 0) + 1
        for load in job.loads.all:
            if skip(load.g.key, job.exec):
                continue
            if load.func is None:
                group(job, load, ok, times, label, group_exact)
            elif load.func is not None and load.key[0] == 'L' and ok and \
                    load.func.id in ambiguous:
                lab = label(load.g.key, load.node, load.names[0])
                lab.maybe.pop()
                lab.lower.append(0)
    return out, ambiguous


def group(job, load, ok, times, label, group_exact):
    """fields defined by expressions"""
    used = {}
    for n in load.fields:
        used[n] = used.get(n, 0) + 1
    dur, how = 0, 'lower'
    keys = [m.key for m in load.members if m.func is not None]
    if ok and keys and all(times[k] == 1 for k in keys):
        calls = [c for c in job.exec.calls if c.key in set(keys)]
        if calls:
            dur = max(c.end for c in calls) - min(c.submit for c in calls)
            if group_exact:
                how = 'exact'
        if any(m.func is None for m in load.members):
            how = 'lower'       # more of them below
    for n, k in used.items():
        lab = label(load.g.key, load.node, n)
        if not ok:
            lab.maybe.extend([0] * k)
            continue
        (lab.exact if how == 'exact' else lab.lower).append(dur)
        lab.maybe.extend([dur] * (k - 1))


def check_label(key, lab, seen):
    name = '/'.join(key)
    least = len(lab.exact) + len(lab.lower)
    most = least + len(lab.maybe)
    if not least <= len(seen) <= most:
        raise Violation('metric-count', '{} was recorded {} times instead of '
                        '{}'.format(name, len(seen), least if least == most
                                    else (least, most)))
    left = sorted(seen)
    for d in sorted(lab.exact):
        for i, x in enumerate(left):
            if abs(x - d) < 1e-6:
                del left[i]
                break
        else:
            raise Violation('metric-time', '{}: recorded {}, the loads took {}'
                            .format(name, sorted(seen), sorted(lab.exact)))
    low = sorted(lab.lower, reverse=True)
    for d, x in zip(low, sorted(left, reverse=True)):
        if x < d - 1e-6:
            raise Violation('metric-time', '{}: recorded {}, loads took at '
                            'least {}'.format(name, sorted(seen),
                                              sorted(lab.lower)))


def check_metrics(run, want, ambiguous, got, spied, names):
    for key in got:
        if key not in want:
            raise Violation('metric-unexpected', '{} was recorded {} times'
                            .format('/'.join(key), got[key][0]))
    if spied is not None:
        seen = {}
        for key, amount, _ in spied:
            seen.setdefault(key, []).append(amount)
        for key, values in seen.items():
            have = got.get(key, [0, 0])
            if have[0] != len(values) or abs(have[1] - sum(values)) > 1e-6:
                raise Violation('metric-lost', '{}: {} instead of {}'.format(
                    '/'.join(key), have, [len(values), sum(values)]))
        for key, lab in want.items():
            check_label(key, lab, seen.get(key, []))
    for key, lab in want.items():
        least = len(lab.exact) + len(lab.lower)
        most = least + len(lab.maybe)
        count, total = got.get(key, [0, 0])
        if not least <= count <= most:
            raise Violation('metric-count', '{} was recorded {} times instead '
                            'of {}..{}'.format('/'.join(key), count, least,
                                               most))
        low = sum(lab.exact) + sum(lab.lower)
        if total < low - 1e-6 or (not lab.lower and not lab.maybe and
                                  total > low + 1e-6):
            raise Violation('metric-time', '{} took {} instead of {}'.format(
                '/'.join(key), total, low))
    where = {}
    for gkey, links, done, failed in ambiguous.values():
        ours = {(names[gkey], node.name or 'Root', n) for node, n in links}
        n = sum(got.get(k, [0, 0])[0] for k in want if k in ours)
        if not done <= n <= done + failed:
            raise Violation('metric-count', 'the links {} of one function were '
                            'recorded {} times instead of {}'.format(
                                sorted(k[2] for k in ours), n, done))


def c13(run):
    ch = run.ch
    cfg = Config(ch, max_items=3, depth=2, shared=ch.pick((0, 40, 70)),
                 large=ch.chance(1), most=130)
    low = gen_graph(ch, cfg)
    graphs = [low]
    g = low
    if ch.chance(45):
        g = gen_higher(ch, cfg, low)
        graphs = layers(g)
    style = NESTED if ch.chance(10) else ch.pick(STYLES)
    mode = MODE.get(style)
    if style in ('one after another', NESTED):
        mode = ch.pick(('sync', 'async', 'threads'))
    sim = Sim(run, mode)
    world = sim.world
    default = ch.chance(30)
    concurrent = ch.chance(50) and style in ('threads', 'inline threads')
    before = set(prometheus_client.REGISTRY._collector_to_names)
    mod = fresh_module() if default else imported
    spy = None if default else Spy()
    names = {g.key: 'graph of all'}
    if g is not low and ch.chance(60):
        names[low.key] = ch.pick(('low', 'graph of all'))
    if names.get(low.key) == names[g.key] and g is not low:
        names[low.key] = 'low'
    if len(graphs) == 3 and ch.chance(60):
        run.probe('three levels')
        names[graphs[1].key] = 'middle'
    cls = mod.AsyncGraphMetrics if mode == 'async' else mod.GraphMetrics

    def metrics(name):
        return cls(name) if default else cls(name, metric=spy.metric)

    def instrument(spec, graph):
        originals[spec.key] = graph
        if spec.key not in names:
            return graph
        return apply(graph, [metrics(names[spec.key])])

    originals = {}
    world.transform = instrument
    if concurrent:
        run.probe('instrumented from several threads')
        graph = concurrent_jobs(run, sim, world, g, low, names, metrics)
    else:
        graph = world.graph(g)
    items = [gen_query(ch, cfg, g, 10) for _ in range(ch.pick((1, 2)))]
    specs = []
    for i in range(ch.between(1, 3)):
        specs.append((ch.pick(items), {'u': i} if ch.chance(60) else None))
    jobs = make_jobs(sim, g, graph, specs)
    untouched = set()
    if not concurrent and ch.chance(25):
        for job in jobs:
            if ch.chance(50):
                run.probe('the graph as it was before')
                job.graph = originals[g.key]
                untouched.add(job.exec)
    if style != 'one after another':
        for job in jobs:
            job.delay = ch.below(3)
    run.note = {'style': style, 'executor': mode, 'default metric': default,
                'queries': [repr(j.items) for j in jobs],
                'instrumented': sorted(names)}
    run.probe('style: ' + style)
    run.probe('default metric' if default else 'own metric')
    run.nontrivial = any(len(j.loads.real()) > 1 for j in jobs)
    victim = faults = None
    fault = ch.weighted(((6, None), (2, 'fail'), (1, 'cancel')))
    if fault == 'cancel' and style != 'coroutines' or style == NESTED:
        fault = None
    if fault == 'fail':
        victim = ch.pick(jobs)
        n = max(1, len(victim.loads.real()))
        faults = Faults(run, sim, victim.exec, {ch.below(n): 'raise'})
        faults.graphs = layers(g)
    if fault == 'cancel':
        victim = ch.pick(jobs)
        at = ch.pick((0.25, 0.5, 1.0))
        state = {}

        def submitted(call):
            if call.exec is victim.exec and 'set' not in state:
                state['set'] = True
                run.fault('an execution is cancelled')
                sim.loop.call_later(at, lambda: victim.task.cancel())
        world.on_submit = submitted
    try:
        try:
            if style == NESTED:
                jobs = nested(run, sim, jobs)
            else:
                schedule(run, sim, jobs, style)
        except Exception:
            world.check()
            raise
        world.check()
        got = samples(prometheus_client.REGISTRY if default
                      else spy.registry)
    finally:
        clear_default_registry(before)
    for j in jobs:
        kind, value = j.outcome
        if kind == 'error':
            if j is victim and (isinstance(value, asyncio.CancelledError)
                                if fault == 'cancel'
                                else explained(value, faults)):
                continue
            raise Violation('not-transparent', '{} raised {}'.format(
                j, short_tb(value)))
        try:
            check_result(j.graph, value, g, j.items, j.ctx or {})
            check_loads(j.loads, j.exec.calls)
        except Violation as v:
            raise Violation('not-transparent', '{}: {}'.format(j, v))
    s = sim.sched
    exact = s is None or (s.preempt is None and not s.locks)
    group_exact = mode == 'async' and not sim.env.busy
    want, ambiguous = expect(world, jobs, graphs, names, exact, group_exact,
                             (g.key, untouched))
    check_metrics(run, want, ambiguous, got, None if default else spy.seen,
                  names)


def concurrent_jobs(run, sim, world, g, low, names, metrics):
    """each thread instruments the graph on its own before it executes"""
    plain = world.transform
    # what is below was instrumented before
    world.transform = lambda spec, graph: \
        graph if spec is g else plain(spec, graph)
    base = world.graph(g)
    world.transform = plain
    real = sim.execute

    def execute(graph, query, exec_):
        if sim.sched is not None:
            sim.sched.me().exec = exec_
        mine = apply(base, [metrics(names[g.key])])
        return real(mine, query, exec_)
    sim.execute = execute
    return base
