"""C04: ordered queries run their top level step by step."""
import asyncio

from hiku.graph import Field, Graph, Root
from hiku.readers.graphql import read_operation

from .core import Violation
from .gen import Config, Item, gen_graph, gen_query
from .gql import Renderer
from .harness import Sim, MODES, describe_key, check_result, diff
from .model import Loads, Obj, expected
from .multi import Job, run_stages
from .scen_endpoint import EndSim
from .world import Exec, LoadError, merged_query


def never(fields):
    raise Violation('stray-call', 'the mutation ran a query')


def c04(run):
    ch = run.ch
    cfg = Config(ch, max_items=ch.pick((4, 6)), requires=ch.pick((60, 30)),
                 depth=ch.pick((1, 2, 3)))
    g = gen_graph(ch, cfg)
    items = gen_query(ch, cfg, g, max_items=ch.pick((8, 16)))
    if ch.chance(3):
        # e.g. all that was selected is skipped
        items = []
        run.probe('no steps')
    mode = ch.pick(MODES)
    endpoint = ch.chance(25)
    if endpoint:
        # the mutation is sent to a GraphQL endpoint
        sim = EndSim(run, mode)
        sim.batch = ch.chance(30)
        sim.graphs = [Graph([Root([Field('q', None, never)])])]
    else:
        sim = Sim(run, mode)
    world = sim.world
    graph = world.graph(g)
    if endpoint:
        sim.graphs.append(graph)
        asked = list(items)
        if ch.chance(40):
            asked.insert(ch.below(len(asked) + 1), Item('__typename'))
        text, variables = Renderer(ch).operation(asked, 'mutation')
        query = {'query': text, 'variables': variables}
        run.note = {'mode': mode, 'mutation': text, 'variables': variables}
        run.probe('sent to an endpoint')
    elif ch.chance(40):
        text, variables = Renderer(ch).operation(items, 'mutation')
        query = read_operation(text, variables).query
        run.note = {'mode': mode, 'mutation': text, 'variables': variables}
        run.probe('read from a GraphQL mutation')
    else:
        query = merged_query(items, True, ch)
        run.note = {'mode': mode, 'query': repr(items)}
    ctx = {'u': 1} if not endpoint and ch.chance(30) else None
    loads = Loads(g, items, ctx if ctx is not None else {}, ordered=True)
    steps = loads.steps
    run.nontrivial = len(steps) > 1
    run.probe('mode:' + mode)
    run.sizes['steps'] += len(steps)
    job = Job(Exec(0, ctx), graph, query, items, g, ctx)
    world.default_exec = job.exec
    root_funcs = {x.func.id for x in steps}

    fault = ch.weighted(((5, None), (3, 'fail'), (2, 'cancel'), (1, 'nested')))
    at = ch.below(max(1, len(steps))) if fault else None
    state = {'n': -1, 'hit': None, 'nested': 0}

    def behave(call):
        top = call.func.id in root_funcs
        if top:
            state['n'] += 1
        if fault == 'fail' and top and state['n'] == at:
            state['hit'] = call
            run.fault('step fails')
            return ('raise', LoadError('step {}'.format(at)))
        if fault == 'nested' and not top:
            state['nested'] += 1
            if state['nested'] == at + 1:
                state['hit'] = call
                run.fault('nested load fails')
                return ('raise', LoadError('nested'))
        if fault == 'cancel' and mode == 'async' and top and state['n'] == at:
            state['hit'] = call
            state['cancel_at'] = world.tick()
            run.fault('cancelled in a step')
            dt = ch.pick((0, 0.25, 0.5, 1.0))
            sim.loop.call_later(dt, job.task.cancel)
        return None
    world.behave = behave
    run_stages(sim, [[job]], locks=ch.pick((0, 20)))
    world.check()

    top = [c for c in job.exec.calls if c.func.id in root_funcs]
    where = 0
    for i, c in enumerate(top):
        while where < len(steps) and steps[where].key != c.key and \
                steps[where].optional:
            where += 1
        if where >= len(steps) or steps[where].key != c.key:
            raise Violation('step-order', 'call {} of the top level is {}, the '
                            'query lists {}'.format(
                                i, describe_key(c.key),
                                [describe_key(s.key) for s in steps]))
        where += 1
        if i:
            p = top[i - 1]
            if p.state in ('failed', 'cancelled'):
                raise Violation('step-after-failure', '{} started after {} {}'
                                .format(c, p, p.state))
            if p.seq_end is None or p.state != 'done' or \
                    p.seq_end > c.seq_submit:
                raise Violation('step-overlap', '{} started before {} '
                                'completed'.format(c, p))
    kind, value = job.outcome
    if kind == 'ok':
        if any(not s.optional for s in steps[where:]):
            raise Violation('step-missing', 'steps after {} never ran: {}'
                            .format(where, [s.label for s in steps[where:]]))
        failed = [c for c in job.exec.calls if c.state != 'done']
        if failed:
            raise Violation('step-failure-ignored', 'the execution returned '
                            'although {} {}'.format(failed[0],
                                                    failed[0].state))
        if endpoint:
            got = dict(value.get('data') or {})
            got.pop('__typename', None)
            d = diff(got, expected(Obj(g, g.root, None, {}), items))
            if value.get('errors') or d:
                raise Violation('wrong-result', str(value.get('errors') or d))
        else:
            check_result(graph, value, g, items,
                         ctx if ctx is not None else {})
    else:
        if state['hit'] is None:
            raise value
        if fault == 'cancel':
            if not isinstance(value, asyncio.CancelledError):
                raise value
            run.probe('cancelled')
        elif not isinstance(value, LoadError):
            raise value
