"""C01, C02, C03, C09: one execution at a time, any executor and schedule."""
from .core import Violation, HarnessError, canon
from .gen import Config, gen_graph, gen_query, gen_high, gen_higher
from .harness import (Sim, MODES, run_query, check_result, check_loads,
                      Readiness)
from .model import Loads
from .world import Exec, merged_query


def note_shape(run, loads, items, mode):
    real = loads.real()
    run.sizes['loads'] += len(real)
    run.probe('mode:' + mode)
    run.nontrivial = len(real) > 1
    if len({x.key for x in real}) != len(real):
        run.probe('equal loads at two places')


def guarded(sim, fn):
    """what the loading functions noticed comes before its consequences"""
    try:
        result = fn()
    except HarnessError:
        raise
    except Exception:
        sim.world.check()
        raise
    sim.world.check()
    return result


def base(run, g, items, mode, ctx=None, hooks=None, ordered=False):
    """executes one query; returns (sim, graph, result, loads, exec)"""
    sim = Sim(run, mode)
    graph = sim.world.graph(g)
    query = merged_query(items, ordered, run.ch)
    loads = Loads(g, items, ctx if ctx is not None else {})
    note_shape(run, loads, items, mode)
    run.note = {'mode': mode, 'query': repr(items), 'ordered': ordered}
    exec_ = Exec(0, ctx)
    sim.world.default_exec = exec_
    if hooks:
        hooks(sim, loads, exec_)
    else:
        sim.late = run.ch.chance(10)
    result = guarded(sim, lambda: run_query(sim, graph, query, exec_))
    return sim, graph, result, loads, exec_


def pick_mode(ch, modes=MODES):
    return ch.pick(modes)


def c01(run):
    ch = run.ch
    cfg = Config(ch)
    low = gen_graph(ch, cfg)
    g = low
    if ch.chance(20):
        g = gen_higher(ch, cfg, low)
    items = gen_query(ch, cfg, g)
    if ch.chance(2):
        items = []
        run.probe('empty query')
    mode = pick_mode(ch)
    ctx = {'u': ch.below(3), 'n': None} if ch.chance(30) else None
    ordered = ch.chance(15)
    if ordered:
        run.probe('ordered')
    sim, graph, result, loads, exec_ = base(run, g, items, mode, ctx,
                                            ordered=ordered)
    check_result(graph, result, g, items, ctx if ctx is not None else {})


def c02(run):
    ch = run.ch
    cfg = Config(ch, shared=ch.pick((0, 30, 60)), dup=ch.pick((0, 30)))
    low = gen_graph(ch, cfg)
    g = low
    if ch.chance(20):
        g = gen_higher(ch, cfg, low)
    items = gen_query(ch, cfg, g)
    mode = pick_mode(ch)
    ctx = {'u': ch.below(3), 'n': None} if ch.chance(30) else None
    sim, graph, result, loads, exec_ = base(run, g, items, mode, ctx)
    check_loads(loads, exec_.calls)


def c03(run):
    ch = run.ch
    cfg = Config(ch, max_pauses=3, shared=0, requires=ch.pick((60, 90)))
    low = gen_graph(ch, cfg)
    g = low
    if ch.chance(30):
        g = gen_higher(ch, cfg, low)
    items = gen_query(ch, cfg, g)
    mode = pick_mode(ch, ('async', 'threads', 'async'))

    def hooks(sim, loads, exec_):
        ready = Readiness(loads)
        state = {'on': True}

        def idle():
            if state['on']:
                n = ready.check_parallel(exec_.calls)
                pending = sum(c.state == 'started' for c in exec_.calls)
                if pending > 1:
                    run.probe('loads overlap')

        def submit(call):
            try:
                ready.check_early(call, exec_.calls)
            except Violation as v:
                sim.world.bad(v.cls, v.msg)
        sim.env.idle_hooks.append(idle)
        sim.world.on_submit = submit
    sim, graph, result, loads, exec_ = base_wide(run, g, items, mode, hooks)


def base_wide(run, g, items, mode, hooks):
    """as base, with a pool that never queues"""
    sim = Sim(run, mode)
    graph = sim.world.graph(g)
    query = merged_query(items, False, run.ch)
    loads = Loads(g, items, {})
    note_shape(run, loads, items, mode)
    run.note = {'mode': mode, 'query': repr(items)}
    exec_ = Exec(0, None)
    sim.world.default_exec = exec_
    hooks(sim, loads, exec_)
    if mode == 'async':
        async def main(sim):
            return await sim.execute(graph, query, exec_)
    else:
        def main(sim):
            return sim.execute(graph, query, exec_)
    result = guarded(sim, lambda: sim.start(main, workers=1000))
    return sim, graph, result, loads, exec_


def c09(run):
    ch = run.ch
    cfg = Config(ch, max_pauses=2)
    low = gen_graph(ch, Config(ch, max_nodes=3), key="l")
    if ch.chance(40):
        for node in [low.root] + list(low.nodes.values()):
            for spec in node.fields():
                if spec.ctype is None and ch.chance(40):
                    spec.scalars = ch.pick(('seq', 'opt'))
                    spec.decl = {'seq': 'Sequence[Integer]',
                                 'opt': 'Optional[String]'}[spec.scalars]
    g = gen_high(ch, cfg, low)
    if ch.chance(20):
        g2 = gen_high(ch, cfg, g, key='t')
        g = g2
        run.probe('three levels')
    items = gen_query(ch, cfg, g)
    mode = pick_mode(ch)
    ctx = {'u': ch.below(3), 'n': None} if ch.chance(30) else None
    sim, graph, result, loads, exec_ = base(run, g, items, mode, ctx)
    check_result(graph, result, g, items, ctx if ctx is not None else {})
    check_loads(loads, exec_.calls)
    if any(x.func is None for x in loads.all):
        run.probe('expression groups')
